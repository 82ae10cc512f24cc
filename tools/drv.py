"""Runs scripts through the conformance driver; survives crashes and hangs of the code under test."""
import json, subprocess, os, tempfile
from concurrent.futures import ThreadPoolExecutor


def _chunk(exe, items, timeout, cwd):
    """items: list of json-able scripts. returns list of results, a crash being {'crash': ...}"""
    out = []
    i = 0
    while i < len(items):
        inp = '\n'.join(json.dumps(x) for x in items[i:]) + '\n'
        try:
            p = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 0.1 * len(items), cwd=cwd)
            raw, rc, err, to = p.stdout, p.returncode, p.stderr[-600:].decode('utf-8', 'replace'), False
        except subprocess.TimeoutExpired as e:
            raw, rc, err, to = e.stdout or b'', None, '', True
        lines = raw.split(b'\n')
        lines = lines[:-1]            # a last line without newline is incomplete
        for ln in lines: out.append(json.loads(ln.decode('utf-8', 'surrogateescape')))
        i += len(lines)
        if i < len(items):
            out.append({'crash': 'timeout' if to else f'exit status {rc} {err}'})
            i += 1
        elif rc not in (0, None):
            out[-1] = {'crash': f'exit status {rc} at exit {err}'}
    return out


def run(exe, items, jobs=8, timeout=120, cwd=None):
    if not items: return []
    own = None
    if cwd is None:
        own = tempfile.TemporaryDirectory(prefix='mxv'); cwd = own.name
    n = max(1, min(jobs, len(items)))
    parts = [items[k::n] for k in range(n)]
    with ThreadPoolExecutor(n) as ex: res = list(ex.map(lambda p: _chunk(exe, p, timeout, cwd), parts))
    out = [None] * len(items)
    for k in range(n):
        for q, r in enumerate(res[k]): out[k + q * n] = r
    if own: own.cleanup()
    for r in out:
        if 'harness_error' in r: raise SystemExit('harness error: ' + r['harness_error'])
    return out
