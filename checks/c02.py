import itertools, json, os
import registry_common as R
import build as B

MC = '''INIT CInit
NEXT CNext
CONSTANTS Threads = {%s}
 Locked = %s
 Programs <- %s
INVARIANTS Linearizable SameWhenFree
CHECK_DEADLOCK FALSE
'''
CELLS = 27


class Calls:
    """calls by name: the record of the specification and the driver's step"""
    def __init__(self):
        inp = R.inputs()
        self.inp = inp
        ix = lambda tok, via: next(k for k, (r, _) in enumerate(inp) if r['tok'] == tok and r['via'] == via)
        bad = [k for k, (r, _) in enumerate(inp) if not r['ok']]
        self.kinds = {
            'stream': ('create', ix('alpha', 'stream')), 'timewise': ('create', ix('beta', 'stream')), 'file': ('create', ix('gamma', 'file')),
            'score': ('create', ix('sigma', 'score')), 'tscore': ('create', ix('tau', 'score')), 'unreadable': ('create', ix('zeta', 'stream')),
            'badstream': ('create', next(k for k in bad if inp[k][0]['via'] == 'stream')), 'badfile': ('create', next(k for k in bad if 'path' in inp[k][1])),
            'badscore': ('create', next(k for k in bad if inp[k][0]['via'] == 'score')),
            'uid': ('uid',)}
        for f in ('get', 'write', 'writeFile', 'destroy', 'kind'):
            for plus in (0, 1, 2): self.kinds[f'{f}{plus}'] = (f, plus)
        for plus in (0, 1): self.kinds[f'hold{plus}'] = ('hold', plus)

    def make(self, name, t):
        """-> [(record, step)]; t: the thread, for the names of its handles"""
        k = self.kinds[name]
        if k[0] == 'create':
            rec, st = self.inp[k[1]]
            return [({'f': 'create', 'via': f"{rec['via']}{k[1]}", **{x: rec[x] for x in ('tok', 'kind', 'readable', 'ok')}}, st)]
        if k[0] == 'uid': return [({'f': 'uid'}, {'f': 'uid'})]
        w = {'ref': 0, 'plus': k[1]}
        if k[0] == 'hold':
            return [({'f': 'hold', 'plus': k[1], 'h': t}, {'f': 'hold', 'h': t, **w}), ({'f': 'handleWrite', 'h': t}, {'f': 'handleWrite', 'h': t}), ({'f': 'handleSame', 'h': t, 'plus': k[1]}, {'f': 'handleSame', 'h': t, **w})]
        return [({'f': k[0], 'plus': k[1]}, {'f': k[0], **w})]


def event(rec, r, base):
    f = rec['f']
    e = {k: v for k, v in rec.items() if k != 'plus'}
    if 'plus' in rec: e['id'] = base + rec['plus']
    o = {'err': 'err' in r, 'tok': '', 'kind': 'none', 'dig': '', 'id': r.get('id', -1)}
    if f == 'create': e['argSame'] = r.get('argSame', True)
    elif f == 'get' and 'score' in r:
        s = r['score']; o.update(tok=s.get('workTitle', ''), kind=s.get('musicXmlType') or 'partwise', dig=R.sha(s))
    elif f in ('write', 'writeFile') and 'xml' in r: o.update(R.text_view(r['xml']))
    elif f == 'handleWrite' and 'core' in r: o.update(R.text_view(r['core']))
    elif f == 'kind': o['kind'] = r.get('kind')
    elif f == 'hold': o['none'] = r.get('null')
    elif f == 'handleSame': o['same'] = r.get('same')
    elif f == 'uid': o['uid'] = r.get('uid', -1)
    elif f == 'lazy': o['part'] = r.get('part', -1)
    e['out'] = o
    return e


def scenario(calls, setup, threads, afterids=4, singles=60, randoms=20, seed=1, lazy=False):
    """names of calls -> {script, and the records in the same places}"""
    if lazy: mk = lambda x, t: [({'f': 'lazy', 'cell': x}, {'f': 'lazy', 'cell': x})]
    else: mk = calls.make
    su = [y for x in setup for y in calls.make(x, 0)]
    th = [[y for x in p for y in mk(x, k + 1)] for k, p in enumerate(threads)]
    af = [] if lazy else [y for k in range(afterids) for y in [({'f': 'kind', 'plus': k}, {'f': 'kind', 'ref': 0, 'plus': k}), ({'f': 'get', 'plus': k}, {'f': 'get', 'ref': 0, 'plus': k}),
                                                                ({'f': 'write', 'plus': k}, {'f': 'write', 'ref': 0, 'plus': k})]] + [({'f': 'uid'}, {'f': 'uid'})]
    q = {'op': 'explore', 'setup': [s for _, s in su], 'threads': [[s for _, s in p] for p in th], 'after': [s for _, s in af], 'singles': singles, 'randoms': randoms, 'seed': seed}
    if lazy: q['lazy'] = True
    return {'script': q, 'recs': {'setup': [r for r, _ in su], 'threads': [[r for r, _ in p] for p in th], 'after': [r for r, _ in af]}, 'names': [setup, threads]}


CRASH = {'f': 'crash'}


def to_case(recs, h):
    """a history -> a case of TConcurrent"""
    if isinstance(h, str): return {'base': 1, 'uid0': 0, 'stuck': False, 'setup': [{**CRASH, 'what': h}], 'events': [], 'after': []}
    base = next((r['id'] for r in h['setup'] if 'id' in r), 1)
    ret = {(e['t'], e['i']): e['r'] for e in h['events'] if e['e'] == 'ret'}
    ev = []
    for e in h['events']:
        if e['e'] == 'call':
            k = (e['t'], e['i'])
            rec = recs['threads'][e['t'] - 1][e['i'] - 1]
            ev.append({'e': 'call', 't': e['t'], 'call': event(rec, ret[k], base) if k in ret else CRASH})
        else: ev.append({'e': 'ret', 't': e['t']})
    return {'base': base, 'uid0': 0, 'stuck': bool(h['stuck']), 'setup': [event(r, x, base) for r, x in zip(recs['setup'], h['setup'])], 'events': ev,
            'after': [event(r, x, base) for r, x in zip(recs['after'], h.get('after', []))]}


def scenarios(ctx):
    calls = Calls()
    rng = ctx.rng
    out = []
    setup = ['stream', 'get0', 'write0']
    names = ['stream', 'timewise', 'file', 'score', 'tscore', 'badstream', 'badscore', 'badfile', 'uid', 'get0', 'write0', 'destroy0', 'kind0', 'hold0', 'get1', 'write1', 'destroy1', 'hold1']
    s, r = ctx.pick((40, 12), (400, 200))
    for a, b in itertools.combinations_with_replacement(names, 2):
        out.append(scenario(calls, setup, [[a], [b]], singles=s, randoms=r, seed=rng.randrange(1 << 30)))
    for _ in range(ctx.pick(60, 1500)):
        n = rng.choice([2, 2, 3, 3, 4])
        pool = names + ['get2', 'write2', 'destroy2', 'unreadable', 'writeFile0', 'writeFile1', 'uid', 'uid', 'destroy0', 'destroy1', 'stream', 'score']
        su = rng.choice([setup, ['score', 'get0', 'write0'], ['timewise', 'get0', 'score', 'write1'], ['tscore', 'file', 'get1'], ['stream', 'stream', 'destroy0']])
        out.append(scenario(calls, su, [[rng.choice(pool) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)], afterids=7, singles=s, randoms=2 * r, seed=rng.randrange(1 << 30)))
    # elements that make their parts when first asked
    for cell in range(1, CELLS + 1):
        out.append(scenario(calls, [], [[cell], [cell]], singles=ctx.pick(60, 400), randoms=ctx.pick(20, 300), seed=rng.randrange(1 << 30), lazy=True))
    for _ in range(ctx.pick(12, 200)):
        a, b = rng.randrange(1, CELLS + 1), rng.randrange(1, CELLS + 1)
        out.append(scenario(calls, [], [[a, b], [b, a], [a, a]], singles=s, randoms=2 * r, seed=rng.randrange(1 << 30), lazy=True))
    return out


def run(ctx):
    ctx.model('MCConcurrent', MC % ('1, 2, 3', 'TRUE', 'One'), name='three threads, one call each', timeout=800)
    ctx.model('MCConcurrent', MC % ('1, 2', 'TRUE', 'Two'), name='two threads, two calls each', timeout=800)
    if ctx.thorough: ctx.model('MCConcurrent', MC % ('1, 2, 3', 'TRUE', 'Two'), name='three threads, two calls each', timeout=3000)
    # the specification can tell: without the lock there is a history that is not linearizable
    bare = ctx.tlc('MCConcurrent', MC % ('1, 2', 'FALSE', 'One'), fatal=False)
    if 'Invariant Linearizable is violated' not in bare: raise SystemExit('the model without a lock was expected to fail')
    import drv
    exe = B.build_sched()
    ctx.log('built', os.path.relpath(exe, B.VERIF))
    sc = scenarios(ctx)
    if ctx.replay: sc = []
    res = drv.run(exe, [x['script'] for x in sc], timeout=ctx.pick(400, 3000)) if sc else []
    items, runs, points, meets = [], 0, 0, 0
    for x, r in zip(sc, res):
        if 'histories' not in r:
            items.append({'script': dict(x['script'], singles=1, randoms=1), 'recs': x['recs'], 'names': x['names']}); continue
        runs += r['runs']; points += sum(r['points']); meets += sum(r['meets'])
        for h in r['histories']:
            items.append({'script': dict(x['script'], plan=h['plan']), 'recs': x['recs'], 'names': x['names'], 'first': h['history']})
    ctx.log(f'{len(sc)} programs, {runs} schedules, {len(items)} different histories; {points} points, {meets} of them meetings')
    ctx.cov['schedules'] = {'programs': len(sc), 'executed': runs, 'different_histories': len(items), 'points': points, 'meeting_points': meets}
    # every history was recorded above; conform() executes the plan again only for those that are not accepted
    check(ctx, exe, items)
    ctx.assumptions += ['threads are interleaved at memory accesses and lock operations of the code, one running at a time: what only weakly ordered memory shows is not explored',
                        'the schedules executed are those with one change of thread at the points where threads meet (sampled when there are many) and random ones with several changes']


def check(ctx, exe, items):
    import drv
    if ctx.replay: items = [i['item'] for i in ctx.replay]
    def again(its):
        rs = drv.run(exe, [i['script'] for i in its], timeout=400)
        return [to_case(i['recs'], r['histories'][0]['history'] if r.get('histories') else f'{r}'[:200]) for i, r in zip(its, rs)]
    cases = again(items) if ctx.replay else [to_case(i['recs'], i['first'] if 'first' in i else 'no answer') for i in items]
    bad = ctx.validate('TConcurrent', cases)
    ctx.traces += len(items)
    ctx.cov['conformance_runs'] = [{'module': 'TConcurrent', 'cases': len(items), 'rejected': len(bad)}]
    k = ctx.rng.randrange(len(cases))
    import vlib
    ctx.samples.append({'module': 'TConcurrent', 'item': vlib.trim(items[k]), 'case': vlib.trim(cases[k])})
    # a rejection counts when the same schedule gives a history that is rejected again
    bad = sorted(bad, key=lambda k: len(json.dumps(cases[k])))[:60]
    if not bad: return
    c2 = again([items[k] for k in bad])
    for q in ctx.validate('TConcurrent', c2):
        it = {x: y for x, y in items[bad[q]].items() if x != 'first'}
        ctx.reject('TConcurrent', None, it, c2[q], '', None)
