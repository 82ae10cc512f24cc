import json, os
import build as B

TABLE = os.path.join(B.VERIF, 'spec/containers.json')
T = json.load(open(TABLE))
# required children that can be taken out all the same (known findings): the histories of edits let them
LOOSE = [('TimewiseMeasure', 'TimewisePart'), ('TimeChoice', 'TimeSignatureGroup'), ('NoteheadText', 'NoteheadTextChoice')]
MC = '''INIT Init
NEXT Next
CONSTANTS Depth = %d
 Emit = %s
 Only = %s
%s
CHECK_DEADLOCK FALSE
'''
INV = 'INVARIANTS Bounded NoNull PrintsAll\nPROPERTIES OneSlot Small\nVIEW View\n'


def step(h):
    """the driver's step"""
    if h['f'] == 'choice': return {'f': 'choice', 'v': h['s']}
    if h['f'] == 'has': return {'f': 'has', 's': h['s'], 'v': h['v'] == 1}
    return h


def case(cl, hist, r):
    if 'shown' not in r: return {'class': cl, 'trace': [dict(f='', s='', v=0, res=-9, ids=[], tx=[], has=[], ch='(failed)', print='')]}
    def show(s): return dict(s, ids=[[k, v] for k, v in sorted(s['ids'].items())], tx=[[k, v] for k, v in sorted(s['tx'].items())], has=[[k, v] for k, v in sorted((s['has'] or {}).items())])
    sh = [show(s) for s in r['shown']]
    return {'class': cl, 'trace': [dict(f='', s='', v=0, res=-2, **sh[0])] + [dict(f=h['f'], s=h['s'], v=h['v'], **s) for h, s in zip(hist, sh[1:])]}


def open_up(rng, cl, s):
    """steps that make a slot one that is printed"""
    out = []
    if s['has']: out.append({'f': 'has', 's': s['has'], 'v': 1})
    if s['ch']: out.append({'f': 'choice', 's': rng.choice(s['ch']), 'v': 0})
    return out


def run(ctx):
    rng = ctx.rng
    exe = B.build(prog='mxcont', harness=[f'{B.VERIF}/harness/{f}' for f in sorted(os.listdir(f'{B.VERIF}/harness')) if f == 'mxdrv.cpp' or f.startswith('container') and f.endswith('.cpp')])
    ctx.log('built')
    ctx.model('MCContainers', MC % (ctx.pick(5, 7), 'FALSE', '{}', INV), name='an element with a slot of each kind')
    short = {}
    for kind, name in (('set', 'a'), ('one', 'q')):
        short[kind] = list(ctx.emitted(ctx.tlc('MCContainers', MC % (3, 'TRUE', '{"%s"}' % name, ''), workers=1)))
    ctx.cov['histories_of_three_edits_of_a_slot'] = {k: len(v) for k, v in short.items()}
    items = []
    def add(cl, hist): items.append({'script': {'op': 'container', 'class': cl, 'steps': [step(h) for h in hist]}, 'class': cl, 'hist': hist})
    for cl, t in T.items():
        for s in t['slots']:
            hs = short[s['k']]
            # most start with something in the slot; slots that are not shown are opened now and then
            for h in (hs if ctx.thorough else rng.sample(hs, min(len(hs), 40 if s['k'] == 'set' else 4))):
                h = [dict(x, s=s['n']) for x in h]
                h = [x for x in h if x['f'] != 'look' or s['look']]
                add(cl, ([] if rng.random() < .2 else open_up(rng, t, s)) + h)
            if s['k'] == 'set':
                # filled beyond its bound, looked through, emptied from either end
                n = max(s['max'], 3) + 2
                up = open_up(rng, t, s)
                fill = [{'f': 'add', 's': s['n'], 'v': k + 1} for k in range(n)]
                look = [{'f': 'look', 's': s['n'], 'v': k} for k in range(n + 1)] if s['look'] else []
                for at in (lambda k: 0, lambda k: max(0, n - 1 - k), lambda k: 1, lambda k: rng.randrange(3)):
                    add(cl, up + fill + look + [{'f': 'remove', 's': s['n'], 'v': at(k)} for k in range(n + 2)] + [{'f': 'add', 's': s['n'], 'v': n + 1}])
                add(cl, fill[:2] + up + [{'f': 'clear', 's': s['n'], 'v': 0}, {'f': 'remove', 's': s['n'], 'v': 0}] + fill[:3] + [{'f': 'remove', 's': s['n'], 'v': 0}, {'f': 'clear', 's': s['n'], 'v': 0}])
                # the same child several times
                add(cl, up + [{'f': 'add', 's': s['n'], 'v': v} for v in (1, 2, 1, 1, 2)[:max(2, s['max'] or 5)]] + [{'f': 'remove', 's': s['n'], 'v': v} for v in (2, 0, 1, 0)])
        # one slot while the others hold several children, in every choice, and the others while that one does
        sets = [s for s in t['slots'] if s['k'] == 'set']
        few = lambda s, v=1: [{'f': 'add', 's': s['n'], 'v': v + k} for k in range(3)]
        for s in sets if len(sets) > 1 else []:
            for others in ([[o for o in sets if o is not s]] + ([[o] for o in sets if o is not s] if ctx.thorough or len(sets) < 5 else [])):
                full = [x for o in others for x in few(o)]
                cut = lambda o: [{'f': 'remove', 's': o['n'], 'v': v} for v in (0, 1, 0, 0)]
                for first in (full, []):
                    add(cl, [{'f': 'has', 's': h, 'v': 1} for h in t['has']] + first + open_up(rng, t, s) + few(s)[:1] + (full if not first else []) + cut(s) + few(s) + cut(s) + [{'f': 'clear', 's': s['n'], 'v': 0}] + [x for o in others for x in cut(o)])
        # everything there is, and the choices one after the other
        every = [{'f': 'has', 's': h, 'v': 1} for h in t['has']] + [{'f': 'add' if s['k'] == 'set' else 'set', 's': s['n'], 'v': k} for s in t['slots'] for k in ((1, 2) if s['k'] == 'set' else (1,))]
        add(cl, every + [{'f': 'choice', 's': c, 'v': 0} for c in t['choices']])
        add(cl, [x for c in t['choices'] for x in ({'f': 'choice', 's': c, 'v': 0},)] + every + [{'f': 'choice', 's': c, 'v': 0} for c in reversed(t['choices'])])
        # one optional child at a time
        for h in t['has']: add(cl, [{'f': 'has', 's': h, 'v': 1}, {'f': 'has', 's': h, 'v': 0}, {'f': 'has', 's': h, 'v': 1}])
        for _ in range(ctx.pick(10, 120)):
            hist = []
            for _ in range(rng.choice([8, 15, 25])):
                w = rng.random()
                if t['choices'] and w < .15: hist.append({'f': 'choice', 's': rng.choice(t['choices']), 'v': 0}); continue
                if t['has'] and w < .4: hist.append({'f': 'has', 's': rng.choice(t['has']), 'v': rng.choice([0, 1, 1])}); continue
                s = rng.choice(t['slots'])
                if s['k'] == 'one': hist.append({'f': 'set', 's': s['n'], 'v': rng.choice([0, 1, 2, 3])}); continue
                f = rng.choice(['add'] * 5 + ['remove', 'remove', 'clear'] + ['look'] * s['look'])
                hist.append({'f': f, 's': s['n'], 'v': {'add': rng.choice([0, 1, 2, 3, 4, 5]), 'remove': rng.randrange(4), 'clear': 0, 'look': rng.randrange(4)}[f]})
            add(cl, hist)
    ctx.cov['classes'] = len(T)
    ctx.cov['slots'] = {'sequences': sum(s['k'] == 'set' for t in T.values() for s in t['slots']), 'single': sum(s['k'] == 'one' for t in T.values() for s in t['slots'])}
    loose = json.load(open(TABLE))
    for cl, n in LOOSE:
        for s in loose[cl]['slots']:
            if s['n'] == n: s['min'] = 0
    lf = ctx.tmp + '/containers.json'
    with open(lf, 'w') as h: json.dump(loose, h)
    # what is required stays
    last = [{'script': {'op': 'container', 'class': cl, 'steps': h}, 'class': cl, 'hist': h, 'key': f'{cl}/{s["n"]} emptied'} for cl, t in T.items() for s in t['slots'] if s['min'] for h in [[{'f': 'remove', 's': s['n'], 'v': 0}]]]
    ctx.conform('TContainers', last, lambda i, r: case(i['class'], i['hist'], r), exe=exe, env={'TABLE': TABLE}, label='the last child')
    ctx.conform('TContainers', items, lambda i, r: case(i['class'], i['hist'], r), exe=exe, env={'TABLE': lf}, chunk=ctx.pick(2500, 6000), label='edits')
    ctx.assumptions += ['children are seen as marks that print themselves; a child that an element made by itself prints as recorded', 'iterators are those of the sequence they are used with']
