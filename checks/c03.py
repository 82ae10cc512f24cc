"""Reads leave stored documents alone: random call histories over awkward documents, and every document of the
repository's own collection read, written, looked at and read again."""
import glob, os
import registry_common as R
from build import REPO
from c04 import random_doc, render
from c01 import histories, MC


def run(ctx):
    ctx.model('MCRegistry', MC.replace('PROPERTY HandleOutlives', 'PROPERTY HandleOutlives KeptIsValue') % ('"a"', 2, 1, '1'), name='registry, 2 documents')
    inp, items = histories(ctx, ctx.pick([(250, 16)], [(4000, 16), (1500, 40)]))
    ctx.conform('TRegistry', items, lambda i, r: R.to_case(i['hist'], inp, r), label='random histories')
    files = sorted((f for f in glob.glob(REPO + '/Resources/**/*.xml', recursive=True) if '/expected/' not in f and '/testOutput/' not in f), key=lambda f: (os.path.getsize(f), f))
    if not files: raise SystemExit('no documents found')
    lim = ctx.pick(30000, 400000)
    files = [f for f in files if os.path.getsize(f) < lim]
    if not ctx.thorough: files = ctx.rng.sample(files, min(len(files), 150))
    plan = ['create', 'write', 'get', 'kind', 'getKeep', 'write', 'hold', 'handleWrite', 'get', 'handleSame', 'create', 'get', 'writeFile', 'handleWrite', 'destroy', 'handleWrite', 'get', 'kept', 'handleWrite']
    planT = ['create', 'hold', 'handleConvert', 'write', 'handleWrite', 'kind', 'get', 'kind', 'write', 'handleWrite', 'getKeep', 'writeFile', 'kept', 'get', 'handleWrite']
    docs = []
    for f in files:
        text = open(f, encoding='utf-8', errors='surrogateescape').read()
        docs.append((os.path.relpath(f, REPO), 'timewise' if '<score-timewise' in text else 'partwise', {'f': 'createFile', 'path': f}))
    for n in range(ctx.pick(60, 1500)):
        d = random_doc(ctx.rng)
        docs.append((f'random{n}', d['kind'], {'f': 'createStream', 'xml': render(ctx.rng, d)}))
    its = []
    for name, kind, st in docs:
      for pl in (plan, planT):
        hist = []
        for p in pl:
            h = {'f': p}
            if p == 'create': h['input'] = 1
            elif p != 'handleConvert': h['id'] = 1
            if p in ('hold', 'handleWrite', 'handleSame', 'getKeep', 'kept', 'handleConvert'): h['h'] = 1
            hist.append(h)
        its.append({'hist': hist, 'file': name, 'kind': kind, 'st': st, 'script': {'op': 'dm', 'script': R.to_script(hist, [({'ok': True, 'readable': True}, st)], None)}})
    def case(i, r):
        readable = 'r' in r and not any('err' in q for h, q in zip(i['hist'], r['r']) if h['f'] == 'get')
        ok = 'r' in r and 'err' not in r['r'][0]
        if not ok:     # a document the library refuses: not this property
            return {'base': 1, 'uid0': 0, 'trace': []} if 'r' in r else R.to_case(i['hist'], None, r)
        hist = i['hist']
        rs = r
        if not readable:
            # nothing was kept
            rs = {'r': [x for h, x in zip(hist, r['r']) if h['f'] != 'kept']}
            hist = [h for h in hist if h['f'] != 'kept']
        return R.to_case(hist, [({'tok': '', 'via': 'file', 'kind': i['kind'], 'readable': readable, 'ok': True}, i['st'])], rs, markers=False)
    ctx.conform('TRegistry', its, case, label='repository documents')
