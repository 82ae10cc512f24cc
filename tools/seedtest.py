"""Development tool: try planted changes (/verif/seeded/<id>) in a private overlay of /repo.
usage: seedtest.py [--no-tests] [--no-check] [--prop Cxx] ID...
For each: demo passes before, patch applies, builds, stable tests pass, demo fails after, and whether the check sees it."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
V = '/verif'

INNER = r'''
set -u
W=$1; S=$2; P=$3; TESTS=$4; CHECK=$5
mount -t overlay overlay -o lowerdir=/tmp/sw/base,upperdir=$W/up,workdir=$W/wk /repo || exit 99
cd /repo
mkdir -p $W/demo && cp -r $S/. $W/demo/ && rm -f $W/demo/patch.diff $W/demo/meta.json
bash /opt/vp/build.sh >$W/build0.log 2>&1 || echo "BUILD0 FAILED"
timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo "demo-before $?"
git apply $S/patch.diff || { echo "APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh >$W/build1.log 2>&1 || { echo "BUILD FAILED"; tail -20 $W/build1.log; exit 1; }
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo "demo-after $?"
if [ $TESTS = 1 ]; then
  bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1
  python3 -c "
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open(sys.argv[1]))
lost=sorted(st-set(r['passed'])); print('tests-lost', len(lost), lost[:4])" $W/t.json
fi
if [ $CHECK = 1 ]; then
  cp -a /tmp/sw/vbase $W/verif 2>/dev/null; cd $W/verif
  for q in ${P//,/ }; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 tools/check.py $q >$W/check.log 2>&1; echo "check $q $?"
  grep -c '^VIOLATION' $W/check.log; grep '^VIOLATION' -A1 $W/check.log | cut -c1-300 | head -4; tail -1 $W/check.log
  done
fi
'''


def one(a):
    i, tests, check, prop = a
    s = f'{V}/seeded/{i}'
    w = f'/tmp/sw/{i}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/up'); os.makedirs(w + '/wk')
    p = prop or json.load(open(s + '/meta.json'))['property']
    r = subprocess.run(['unshare', '-m', 'bash', '-c', INNER, 'x', w, s, p, str(int(tests)), str(int(check))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for q in ('up', 'wk', 'verif'): subprocess.run(['rm', '-rf', f'{w}/{q}'])
    return i, p, r.stdout


def main():
    a = sys.argv[1:]
    tests, check = '--no-tests' not in a, '--no-check' not in a
    prop = None
    if '--prop' in a: prop = a[a.index('--prop') + 1]; a = [x for x in a if x not in ('--prop', prop)]
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    # a snapshot of the committed tree (with its build products), so that /repo may be edited meanwhile
    subprocess.run(['rsync', '-a', '--delete', '/repo/', '/tmp/sw/base/']) if shutil.which('rsync') else (subprocess.run(['rm', '-rf', '/tmp/sw/base']), subprocess.run(['cp', '-a', '/repo', '/tmp/sw/base']))
    subprocess.run(['git', '-C', '/tmp/sw/base', 'update-index', '-q', '--refresh'])
    subprocess.run(['git', '-C', '/tmp/sw/base', 'checkout', '-q', '--', '.'])
    subprocess.run(['rm', '-rf', '/tmp/sw/vbase']); subprocess.run(['cp', '-a', '/verif', '/tmp/sw/vbase']); subprocess.run(['rm', '-rf', '/tmp/sw/vbase/seeded'])
    with ThreadPoolExecutor(3) as ex:
        for i, p, o in ex.map(one, [(i, tests, check, prop) for i in ids]):
            print(f'=== {i} ({p})\n{o}', flush=True)


main()
