"""C23: equality of score values and independence of copies."""
import json, re
from vlib import VERIF

API = json.load(open(VERIF + '/tools/data/api.json'))
RECS, ENUMS = {r: f for r, f in API['recs'].items() if r not in ('LyricData', 'DocumentManager')}, API['enums']
LEAF = {'k': 'leaf'}
MODEL = 'INIT Init\nNEXT Next\nVIEW View\nCONSTANT Depth = %d\nINVARIANTS Equals Symmetric Reflexive OneOnly\nCHECK_DEADLOCK FALSE\n'


def kind(t):
    t = t.replace('api::', '')
    m = re.match(r'std::(vector|optional|map)<(.*)>$', t)
    if m:
        if m[1] == 'map': return {'k': 'map', 'of': kind(m[2].split(', ')[1])}
        return {'k': 'list', 'of': kind(m[2]), 'opt': m[1] == 'optional'}
    if t == 'OptionalDouble': return {'k': 'list', 'of': kind('Double'), 'opt': True}
    if t in RECS: return {'k': 'rec', 'name': t}
    return dict(LEAF, t=t)


TYPES = {r: [[n, kind(t)] for n, t in f] for r, f in RECS.items()}


def num(x):
    if 0 < abs(x) < .001: x = .001
    s = f'{x:.6f}'.rstrip('0').rstrip('.')
    return '0' if s in ('-0', '') else s


def leaf(rng, t):
    if t in ENUMS: return rng.choice(ENUMS[t])
    if t == 'bool': return rng.random() < .5
    if t == 'int': return rng.choice([0, 1, -1, 2, 3, 4, 7, 16, 480, -100, 2147483647, rng.randint(-1000, 1000)])
    if t == 'uint8_t': return rng.choice([0, 1, 127, 128, 255, rng.randint(0, 255)])
    if t == 'std::string': return rng.choice(['', 'a', 'b', 'ab', 'A', ' ', 'a ', '0', 'é', 'Violin', 'x' * 40])
    return num(rng.choice([0, 1, -1, .5, 100, rng.uniform(-300, 300), rng.uniform(-1, 1)]))


def value(rng, k, size, depth=0):
    """a random tree of a kind"""
    if k['k'] == 'leaf': return leaf(rng, k['t'])
    if k['k'] == 'rec': return {n: value(rng, f, size, depth + 1) for n, f in TYPES[k['name']]}
    n = 0
    if k.get('opt'): n = int(rng.random() < .6)
    else:
        p = size / (1 + depth)
        while n < 3 and rng.random() < p: n += 1
    if k['k'] == 'map':
        return [{'k': q, 'v': value(rng, k['of'], size, depth + 1)} for q in sorted(rng.sample(range(-1, 6), n))]
    return [value(rng, k['of'], size, depth + 1) for _ in range(n)]


def full(k, rng, n=1):
    """a tree with something in every list"""
    if k['k'] == 'leaf': return leaf(rng, k['t'])
    if k['k'] == 'rec': return {m: full(f, rng, 1) for m, f in TYPES[k['name']]}
    if k['k'] == 'map': return [{'k': q, 'v': full(k['of'], rng)} for q in range(n)]
    return [full(k['of'], rng) for _ in range(1 if k.get('opt') else n)]


def places(k, t, path=()):
    """every place in a tree: (path, kind, what is there)"""
    yield path, k, t
    if k['k'] == 'rec':
        for n, f in TYPES[k['name']]: yield from places(f, t[n], path + (n,))
    elif k['k'] == 'map':
        for i, e in enumerate(t): yield from places(k['of'], e['v'], path + (i + 1, 'v'))
    elif k['k'] == 'list':
        for i, e in enumerate(t): yield from places(k['of'], e, path + (i + 1,))


def others(rng, t, v):
    """values a field may be changed to"""
    if t in ENUMS:
        l = [x for x in ENUMS[t] if x != v]
        return l if len(l) < 4 else rng.sample(l, 3)
    if t == 'bool': return [not v]
    if t == 'int': return [v + (1 if v < 2147483647 else -1), -v if v else 5, v - 256 if v > 0 else v + 65536]
    if t == 'uint8_t': return [(v + 1) % 256, v ^ 128]
    if t == 'std::string': return [v + 'a', v[:-1] if v else ' ', v.swapcase() if v.swapcase() != v else 'a' + v]
    return [num(float(v) + (.000001 if abs(float(v)) > .01 else .0025)), num(float(v) - 1), num(-float(v)) if float(v) else '2']


def changes(rng, k, t):
    """steps that change what is at a place into something else"""
    if k['k'] == 'leaf': return [{'how': 'set', 'to': x} for x in others(rng, k['t'], t) if x != t]
    r = []
    if k['k'] == 'list':
        if k.get('opt'): return [{'how': 'set', 'to': []}] if t else [{'how': 'set', 'to': [value(rng, k['of'], .3)]}]
        r = [{'how': 'insert', 'at': rng.randint(1, len(t) + 1), 'to': value(rng, k['of'], .3)}]
        if t: r.append({'how': 'erase', 'at': rng.randint(1, len(t))}); r.append({'how': 'insert', 'at': len(t) + 1, 'to': t[-1]})
        if len(t) > 1: r.append({'how': 'exchange', 'at': rng.randint(1, len(t) - 1)})
    if k['k'] == 'map':
        free = [q for q in range(-2, 8) if q not in [e['k'] for e in t]]
        r = [{'how': 'put', 'key': rng.choice(free), 'to': value(rng, k['of'], .3)}]
        # the same thing under another key, before and after
        for i, q in ((i, q) for i in {1, len(t)} if t for q in (rng.choice([q for q in free if q < t[i - 1]['k']] or free), rng.choice([q for q in free if q > t[i - 1]['k']] or free))):
            r.append({'how': 'rekey', 'at': i, 'key': q})
        if t: r.append({'how': 'erase', 'at': rng.randint(1, len(t))}); r.append({'how': 'put', 'key': rng.choice(t)['k'], 'to': value(rng, k['of'], .3)})
    return r


def apply(t, path, s):
    """the generator's own bookkeeping; the specification decides with its own"""
    if not path:
        t = json.loads(json.dumps(t))
        h = s['how']
        if h == 'set': return s['to']
        if h == 'insert': t.insert(s['at'] - 1, s['to'])
        if h == 'erase': del t[s['at'] - 1]
        if h == 'exchange': t[s['at'] - 1], t[s['at']] = t[s['at']], t[s['at'] - 1]
        if h == 'rekey': e = t.pop(s['at'] - 1); t = sorted([x for x in t if x['k'] != s['key']] + [{'k': s['key'], 'v': e['v']}], key=lambda e: e['k'])
        if h == 'put': t = sorted([e for e in t if e['k'] != s['key']] + [{'k': s['key'], 'v': s['to']}], key=lambda e: e['k'])
        return t
    p = path[0] - 1 if isinstance(path[0], int) else path[0]
    c = list(t) if isinstance(t, list) else dict(t)
    c[p] = apply(t[p], path[1:], s)
    return c


def change(slot, path, s): return dict({'do': 'change', 'slot': slot, 'path': list(path)}, **s)
def item(t, steps): return {'script': {'op': 'equal', 'type': t, 'steps': [{'do': 'fresh', 'slot': 1}] + steps}}
def compare(a, b): return {'do': 'compare', 'slot': a, 'from': b}


def to_case(i, r):
    if 'crash' in r or 'seen' not in r: return {'type': i['script']['type'], 'steps': i['script']['steps'], 'seen': [], 'end': []}
    return {'type': i['script']['type'], 'steps': i['script']['steps'], 'seen': r['seen'], 'end': r['end']}


def every_field(rng, t, base):
    """in one value of a type, every place directly in it changed, and changed in a copy"""
    k = {'k': 'rec', 'name': t}
    steps = [change(1, (), {'how': 'set', 'to': base}), {'do': 'copy', 'slot': 2, 'from': 1}, compare(1, 2)]
    for path, f, v in places(k, base):
        if len([p for p in path if p != 'v']) not in (1, 2): continue
        for s in changes(rng, f, v):
            steps += [change(2, path, s), compare(1, 2), {'do': rng.choice(['copy', 'assign']), 'slot': 2, 'from': 1}]
    return steps


def one_place(rng, t, base, path, f, v):
    """one place of a large value changed in a copy or in the original"""
    s = rng.choice(changes(rng, f, v))
    a, b = rng.choice([(1, 2), (2, 1)])
    return [change(1, (), {'how': 'set', 'to': base}), {'do': rng.choice(['copy', 'assign', 'through']), 'slot': 2, 'from': 1},
            change(a, path, s), compare(1, 2), {'do': 'assign', 'slot': a, 'from': b}, compare(a, b)]


def history(rng, t, n, size):
    k = {'k': 'rec', 'name': t}
    slots = [None] * 4
    steps = []
    for s in (1, 2, 3):
        slots[s] = value(rng, k, size) if s == 1 or rng.random() < .3 else slots[1]
        steps.append(change(s, (), {'how': 'set', 'to': slots[s]}) if slots[s] is not slots[1] or s == 1 else {'do': rng.choice(['copy', 'assign', 'through']), 'slot': s, 'from': 1})
    for _ in range(n):
        a, b = rng.sample([1, 2, 3], 2)
        q = rng.random()
        if q < .4: steps.append(compare(a, b)); continue
        if q < .55: steps.append({'do': rng.choice(['copy', 'assign', 'through']), 'slot': a, 'from': b}); slots[a] = slots[b]; continue
        ps = [x for x in places(k, slots[a]) if x[0]]
        path, f, v = rng.choice(ps)
        cs = changes(rng, f, v)
        if not cs: continue
        s = rng.choice(cs)
        # often the same change twice, so that values meet again
        todo = [a] if rng.random() < .5 else [a, b]
        for x in todo:
            try: new = apply(slots[x], path, s)
            except (IndexError, KeyError): continue
            if x != a and not fits(slots[x], path, s): continue
            slots[x] = new
            steps.append(change(x, path, s))
    return steps


def fits(t, path, s):
    for p in path:
        if isinstance(p, int):
            if p > len(t): return False
            t = t[p - 1]
        else: t = t[p]
    h = s['how']
    if h == 'insert': return s['at'] <= len(t) + 1
    if h in ('erase', 'rekey'): return s['at'] <= len(t)
    if h == 'exchange': return s['at'] + 1 <= len(t)
    return True


def run(ctx):
    rng = ctx.rng
    ctx.model('MCEquality', MODEL % ctx.pick(3, 5))
    path = f'{ctx.tmp}/types.json'
    json.dump(TYPES, open(path, 'w'))
    env = {'TYPES': path}
    items = []
    for t in sorted(TYPES):
        for r in range(ctx.pick(1, 6)):
            small = value(rng, {'k': 'rec', 'name': t}, .3) if r else full({'k': 'rec', 'name': t}, rng)
            if t == 'ScoreData': small['parts'] = []
            st = every_field(rng, t, small)
            big = len(json.dumps(small)) > 3000
            n = 30 if big else 90
            for o in range(3, len(st), n): items.append(item(t, st[:3] + st[o:o + n]))
    ctx.cov['types'] = len(TYPES); ctx.cov['fields'] = sum(len(f) for f in TYPES.values())
    ctx.conform('TEquality', items, to_case, label='every field', env=env, chunk=2000)
    # every place of a score that has something of everything
    k = {'k': 'rec', 'name': 'ScoreData'}
    base = full(k, rng)
    ps = [x for x in places(k, base) if x[0] and x[1]['k'] != 'rec']
    ctx.cov['places_of_a_score'] = len(ps)
    if not ctx.thorough: ps = rng.sample(ps, 160)
    items = [item('ScoreData', one_place(rng, 'ScoreData', base, *x)) for x in ps]
    ctx.conform('TEquality', items, to_case, label='places of a score', env=env, chunk=200)
    items = [item(t, history(rng, t, rng.randint(4, 12), .5)) for t in sorted(TYPES) for _ in range(ctx.pick(8, 60)) if t not in ('ScoreData', 'PartData', 'MeasureData')]
    items += [item(t, history(rng, t, rng.randint(4, 12), .6)) for t in ('ScoreData', 'PartData', 'MeasureData') for _ in range(ctx.pick(20, 200))]
    ctx.conform('TEquality', items, to_case, label='histories', env=env, chunk=400)
