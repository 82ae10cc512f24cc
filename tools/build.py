"""Builds libmx and the conformance drivers from /repo's current working tree, outside /repo.

Sources are batched into a few translation units (the library has ~670 tiny files; batching makes a full build
take ~25 s on 8 cores). A batch that does not compile as one unit is compiled file by file instead, so an edit that
only makes two files unfriendly to batching cannot fail a check. Objects are cached by the content of everything
they can include, in /verif/build (ignored by git; nothing depends on it being there).
"""
import glob, hashlib, os, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MX_REPO', '/repo')
SRC = REPO + '/Sourcecode'
BUILD = os.environ.get('MX_BUILD', VERIF + '/build')
CXX = 'g++'
FLAGS = ['-std=c++17', '-w', '-O0', '-include', 'cstdint', '-pthread']
INC = [f'-I{SRC}/include', f'-I{SRC}/private', f'-I{SRC}/private/mx/ezxml/src/include', f'-I{SRC}/private/mx/ezxml/src/private', f'-I{VERIF}/harness']


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def batches(files, n):
    b = [[0, []] for _ in range(n)]
    for f in sorted(files, key=lambda f: (-os.path.getsize(f), f)):
        m = min(b, key=lambda x: x[0]); m[0] += os.path.getsize(f) + 3000; m[1].append(f)
    return [sorted(x[1]) for x in b if x[1]]


def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def compile_unit(name, files, hdr, flags, objdir):
    """returns list of objects"""
    key = hashlib.sha256((hdr + digest(files) + ' '.join(flags) + CXX).encode()).hexdigest()[:24]
    obj = f'{objdir}/{name}-{key}.o'
    if os.path.exists(obj): return [obj]
    multi = [f'{objdir}/{name}-{key}-{i}.o' for i in range(len(files))]
    if all(os.path.exists(m) for m in multi): return multi
    for old in glob.glob(f'{objdir}/{name}-*.o') : os.remove(old)
    if len(files) == 1:
        r = run([CXX, *flags, *INC, '-c', files[0], '-o', obj + '.tmp'])
        if r.returncode: raise SystemExit('build failed: ' + files[0] + '\n' + r.stdout[-3000:])
        os.rename(obj + '.tmp', obj); return [obj]
    u = f'{objdir}/{name}.cpp'
    with open(u, 'w') as f: f.write(''.join(f'#include "{x}"\n' for x in files))
    r = run([CXX, *flags, *INC, '-c', u, '-o', obj + '.tmp'])
    if r.returncode == 0:
        os.rename(obj + '.tmp', obj); return [obj]
    def one(a):
        f, m = a
        r = run([CXX, *flags, *INC, '-c', f, '-o', m + '.tmp'])
        if r.returncode: raise SystemExit('build failed: ' + f + '\n' + r.stdout[-3000:])
        os.rename(m + '.tmp', m); return m
    with ThreadPoolExecutor(4) as ex: return list(ex.map(one, zip(files, multi)))


def build(variant='plain', extra=(), prog='mxdrv', harness=None):
    """builds BUILD/<variant>/<prog> and returns its path"""
    objdir = f'{BUILD}/{variant}'
    os.makedirs(objdir, exist_ok=True)
    lock = open(f'{BUILD}/{variant}.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    flags = FLAGS + list(extra)
    g = lambda pat: glob.glob(f'{SRC}/private/mx/{pat}', recursive=True)
    hdr = digest(glob.glob(f'{SRC}/include/**/*.h', recursive=True) + g('**/*.h') + g('**/*.hpp'))
    core = g('core/**/*.cpp')
    rest = g('api/**/*.cpp') + g('impl/**/*.cpp') + g('utility/**/*.cpp')
    ez = g('ezxml/**/*.cpp')
    hfiles = harness or [f'{VERIF}/harness/mxdrv.cpp'] + sorted(glob.glob(f'{VERIF}/harness/op_*.cpp'))
    hh = digest(glob.glob(f'{VERIF}/harness/*.h'))
    jobs = []
    for i, b in enumerate(batches(rest, 8)): jobs.append((f'i{i}', b, hdr))
    for i, b in enumerate(batches(core, 12)): jobs.append((f'u{i}', b, hdr))
    for f in ez: jobs.append(('e' + os.path.basename(f)[:-4], [f], hdr))
    for f in hfiles: jobs.append(('h' + os.path.basename(f)[:-4], [f], hdr + hh))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = [o for r in ex.map(lambda j: compile_unit(*j, flags, objdir), jobs) for o in r]
    exe = f'{objdir}/{prog}'
    key = hashlib.sha256(' '.join(objs).encode()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(exe + '.key') and open(exe + '.key').read() == key):
        r = run([CXX, *flags, *objs, '-o', exe + '.tmp'])
        if r.returncode: raise SystemExit('link failed\n' + r.stdout[-3000:])
        os.rename(exe + '.tmp', exe)
        open(exe + '.key', 'w').write(key)
    lock.close()
    return exe


WRAP = ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock',
        'pthread_once', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort']
MINE = [f'{k}{x}' for k in ('read', 'write', 'unaligned_read', 'unaligned_write') for x in (1, 2, 4, 8, 16)] + ['read_range', 'write_range']


def build_sched():
    """builds BUILD/sched/mxsched: the library compiled so that every memory access can be a change of thread, with our own
    runtime (harness/sched_rt.cpp) in the place of libtsan. Accesses of the registry (api/DocumentManager.cpp) call names of their own."""
    objdir = f'{BUILD}/sched'
    os.makedirs(objdir, exist_ok=True)
    lock = open(f'{BUILD}/sched.lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    inst = FLAGS + ['-fsanitize=thread']
    g = lambda pat: glob.glob(f'{SRC}/private/mx/{pat}', recursive=True)
    hdr = digest(glob.glob(f'{SRC}/include/**/*.h', recursive=True) + g('**/*.h') + g('**/*.hpp'))
    hh = digest(glob.glob(f'{VERIF}/harness/*.h'))
    registry = [f for f in g('api/*.cpp') if f.endswith('/DocumentManager.cpp')]
    rest = [f for f in g('api/**/*.cpp') + g('impl/**/*.cpp') + g('utility/**/*.cpp') if f not in registry]
    jobs = [('r' + os.path.basename(f)[:-4], [f], hdr, inst) for f in registry]
    for i, b in enumerate(batches(rest, 8)): jobs.append((f'i{i}', b, hdr, inst))
    for i, b in enumerate(batches(g('core/**/*.cpp'), 12)): jobs.append((f'u{i}', b, hdr, inst))
    for f in g('ezxml/**/*.cpp'): jobs.append(('e' + os.path.basename(f)[:-4], [f], hdr, inst))
    for f in ('mxdrv.cpp', 'op_dm.cpp', 'sched_rt.cpp', 'sched/explore.cpp'): jobs.append(('h' + os.path.basename(f)[:-4], [f'{VERIF}/harness/{f}'], hdr + hh, FLAGS))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        parts = list(ex.map(lambda j: compile_unit(*j, objdir), jobs))
    mine = []
    for o in [o for p in parts[:len(registry)] for o in p]:
        m = o[:-2] + '.mine'
        if not os.path.exists(m):
            r = run(['objcopy', *[f'--redefine-sym=__tsan_{x}=mxr_{x}' for x in MINE], o, m + '.tmp'])
            if r.returncode: raise SystemExit('objcopy failed\n' + r.stdout[-3000:])
            os.rename(m + '.tmp', m)
        mine.append(m)
    objs = mine + [o for p in parts[len(registry):] for o in p]
    exe = f'{objdir}/mxsched'
    key = hashlib.sha256(' '.join(objs).encode()).hexdigest()
    if not (os.path.exists(exe) and os.path.exists(exe + '.key') and open(exe + '.key').read() == key):
        r = run([CXX, *FLAGS, *[f'-Wl,--wrap={w}' for w in WRAP], *objs, '-o', exe + '.tmp'])
        if r.returncode: raise SystemExit('link failed\n' + r.stdout[-3000:])
        os.rename(exe + '.tmp', exe)
        open(exe + '.key', 'w').write(key)
    lock.close()
    return exe


if __name__ == '__main__':
    print(build())
    print(build_sched())
