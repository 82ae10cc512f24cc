"""Documents over the schema of MusicXML 3.0 (tools/data/schema.json), and what was read and printed of them as events."""
import json, os, re, xml.etree.ElementTree as ET
from decimal import Decimal
from xml.sax.saxutils import escape, quoteattr
S = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools/data/schema.json')))
TYPES, SIMPLE = S['types'], S['simple']
XS_INT = {'xs:integer': None, 'xs:positiveInteger': 1, 'xs:nonNegativeInteger': 0}
XLINK = 'http://www.w3.org/1999/xlink'
XML = 'http://www.w3.org/XML/1998/namespace'


def resolve(t):
    """the chain of restrictions of a simple type folded into one"""
    d = {}
    while t in SIMPLE:
        s = SIMPLE[t]
        for k, v in s.items():
            if k not in ('base',): d.setdefault(k, v)
        if 'union' in s: d['base'] = 'union'; return d
        t = s['base']
    d['base'] = t
    return d


R = {t: resolve(t) for t in list(SIMPLE) + ['xs:string', 'xs:token', 'xs:decimal', 'xs:integer', 'xs:positiveInteger', 'xs:nonNegativeInteger', 'xs:date', 'xs:ID', 'xs:IDREF', 'xs:NMTOKEN', 'xs:anyURI', 'xs:language']}
SPECIAL = {'color': ['#40800080', '#000000', '#FFAA01', '#FF20AA01', '#00123456'], 'comma-separated-text': ['Arial', 'Times New Roman,serif'], 'ending-number': ['1', '1,2', ' '], 'time-only': ['1', '1,3'], 'yyyy-mm-dd': ['2011-05-30', '1999-12-31', '2000-02-29'],
           'staff-line': ['1', '5'], 'midi-128': ['1', '128', '77']}


def values(t, most=99):
    """values of a simple type: every name, the ends of ranges"""
    r = R[t]
    if t in SPECIAL: return SPECIAL[t][:most]
    if 'union' in r: return [v for u in r['union'] for v in values(u)][:most]
    if 'enum' in r: return r['enum'][:most]
    b = r['base']
    if b in XS_INT:
        lo = int(r['minInclusive']) if 'minInclusive' in r else XS_INT[b]
        hi = int(r['maxInclusive']) if 'maxInclusive' in r else None
        v = [x for x in (lo, hi, 3, 1, 2, 17, -4) if x is not None and (lo is None or x >= lo) and (hi is None or x <= hi)]
        return [str(x) for x in dict.fromkeys(v)][:most]
    if b == 'xs:decimal':
        lo, hi = (Decimal(r[k]) if k in r else None for k in ('minInclusive', 'maxInclusive'))
        lx = Decimal(r['minExclusive']) if 'minExclusive' in r else None
        v = [x for x in ('0', '1', '12.75', '-2.5', '0.125', '100', '-180', '0.0625') if (lo is None or Decimal(x) >= lo) and (hi is None or Decimal(x) <= hi) and (lx is None or Decimal(x) > lx)]
        return v[:most]
    return {'xs:date': ['2011-05-30'], 'xs:ID': ['X1', 'a.b-c_9'], 'xs:IDREF': ['X1'], 'xs:NMTOKEN': ['1', 'iv'], 'xs:anyURI': ['http://example.com/a?b=1'], 'xs:language': ['de', 'en-GB']}.get(b, ['a', 'some text', '1'])[:most]


def canon(t, v):
    r = R.get(t, {'base': 'xs:string'})
    if 'union' in r:
        for u in r['union']:
            if 'enum' in R[u] and v in R[u]['enum']: return v
        for u in r['union']:
            c = canon(u, v)
            if c != v: return c
        return v
    b = r['base']
    try:
        if b in XS_INT: return str(int(v))
        if b == 'xs:decimal':
            d = Decimal(v)
            return '0' if d == 0 else format(d.normalize(), 'f')
    except Exception: return v
    return v if b == 'xs:string' and 'enum' not in r else ' '.join(v.split())


# --- trees: [name, {attribute: value}, [children] or text, type]
def shortest():
    """the size of the smallest content of every type, and a shortest word of children"""
    cost, word = {t: 0 for t in TYPES if TYPES[t].get('simple')}, {}
    changed = True
    while changed:
        changed = False
        for t, d in TYPES.items():
            if d.get('simple'): continue
            w = path(d['auto'], lambda a, b: cost.get(d['auto']['pos'][b - 1][1]))
            if w is None: continue
            c = sum(1 + cost[d['auto']['pos'][p - 1][1]] for p in w)
            if t not in cost or c < cost[t]: cost[t], word[t] = c, w; changed = True
    return word


def path(auto, price, src=0, to=None):
    """a cheapest way through an automaton from a place to an end (or to a place)"""
    best, todo = {src: (0, [])}, [src]
    while todo:
        todo.sort(key=lambda s: best[s][0]); s = todo.pop(0)
        for p in auto['first'] if s == 0 else auto['follow'][s - 1]:
            c = price(s, p)
            if c is None: continue
            n = best[s][0] + 1 + c
            if p not in best or n < best[p][0]: best[p] = (n, best[s][1] + [p]); todo.append(p)
    if to is not None: return best[to][1] if to in best else None
    ends = [e for e in auto['last'] if e in best] + ([0] if auto['empty'] and src == 0 else [])
    if src and src in auto['last']: return []
    return best[min(ends, key=lambda e: best[e][0])][1] if ends else None


WORD = shortest()
SOUNDS = ['brass.trumpet', 'drum.group.set', 'keyboard.piano', 'strings.violin', 'wood.claves']
# what stands in the examples of elements that may be empty
USUAL = {'key': ['fifths'], 'dynamics': ['mf'], 'play': ['ipa'], 'slash': ['slash-type'], 'beat-repeat': ['slash-type']}
for _t, _w in USUAL.items(): WORD[_t] = [next(k + 1 for k, x in enumerate(TYPES[_t]['auto']['pos']) if x[0] == n) for n in _w]


def required(t): return {a: d.get('fixed') or values(d['type'])[0] for a, d in TYPES[t]['attrs'].items() if d.get('required')}


def minimal(n, t):
    d = TYPES[t]
    if n == 'instrument-sound': return [n, {}, SOUNDS[0], t]
    if d.get('simple'): return [n, required(t), values(d.get('simple'))[0] if t != 'empty' else '', t]
    return [n, required(t), [minimal(*d['auto']['pos'][p - 1]) for p in WORD[t]], t]


def of_word(n, t, w): return [n, required(t), [minimal(*TYPES[t]['auto']['pos'][p - 1]) for p in w], t]


def reach():
    """for every type the shortest way to it from a partwise score: (name, type, place in the automaton of the parent)"""
    way, todo = {'score-partwise': []}, ['score-partwise']
    while todo:
        t = todo.pop(0)
        for k, (n, u) in enumerate(TYPES[t].get('auto', {'pos': []})['pos']):
            if u not in way: way[u] = way[t] + [(t, k + 1, n, u)]; todo.append(u)
    return way


WAY = reach()


def spots():
    """for every name of an element and its type the shortest way to it"""
    out = {('score-partwise', 'score-partwise'): []}
    for t in sorted(WAY, key=lambda t: len(WAY[t])):
        for k, (n, u) in enumerate(TYPES[t].get('auto', {'pos': []})['pos']): out.setdefault((n, u), WAY[t] + [(t, k + 1, n, u)])
    return out


SPOTS = spots()


def through(t, p):
    """a word of the children of a type that goes through a place, and where in it that is"""
    auto, free = TYPES[t]['auto'], lambda s, q: 0
    a = None
    if t == 'key' and p != WORD[t][0]:
        x = path(auto, free, WORD[t][0], p)
        if x is not None: a = path(auto, free, 0, WORD[t][0]) + x
    a = a or path(auto, free, 0, p)
    return (a + path(auto, free, p), len(a) - 1)


def document(way, tree):
    """the document with a tree at the end of a way"""
    for t, p, n, u in reversed(way):
        w, at = through(t, p)
        kids = [minimal(*TYPES[t]['auto']['pos'][q - 1]) for q in w]
        kids[at] = tree
        # the name of the parent is that under which it is reached
        name = next((x[2] for x in way if x[3] == t), t)
        tree = [name, required(t), kids, t]
    return fix(tree)


def fix(tree):
    """ids are those of the list of parts"""
    n = [0]
    def go(x):
        if x[0] == 'score-part': n[0] += 1; x[1]['id'] = f'P{n[0]}'
        if isinstance(x[2], list):
            for c in x[2]: go(c)
    go(tree)
    def parts(x, k):
        if x[0] == 'part' and 'id' in x[1]: k[0] += 1; x[1]['id'] = f'P{min(k[0], n[0])}'
        if isinstance(x[2], list):
            if x[0] == 'measure': k = [0]
            for c in x[2]: parts(c, k)
    parts(tree, [0])
    return tree


def text(tree, top=True):
    n, a, c, _ = tree
    at = ''.join(f' {k}={quoteattr(v, {chr(9): "&#9;", chr(10): "&#10;", chr(13): "&#13;"})}' for k, v in a.items())
    if top: at += f' version="3.0"' if 'version' not in a else ''
    if top and 'xlink:' in json.dumps(tree): at += f' xmlns:xlink="{XLINK}"'
    if isinstance(c, str): inner = escape(c, {'\r': '&#13;'})
    else: inner = ''.join(text(x, False) for x in c)
    b = f'<{n}{at}>{inner}</{n}>' if inner else f'<{n}{at}/>'
    return '<?xml version="1.0" encoding="UTF-8"?>\n' + b if top else b


def events(xml):
    """the elements, attributes and text of a document in order, values in their canonical form"""
    if 'xlink:' in xml and 'xmlns:xlink' not in xml: xml = re.sub(r'<(score-(?:part|time)wise)', rf'<\1 xmlns:xlink="{XLINK}"', xml, count=1)
    root = ET.fromstring(xml.encode('utf-8'))
    out = []
    def go(e, t):
        d = TYPES.get(t, {'attrs': {}})
        a = []
        for k, v in e.attrib.items():
            k = k.replace('{' + XLINK + '}', 'xlink:').replace('{' + XML + '}', 'xml:')
            if t in ('score-partwise', 'score-timewise') and k == 'version': continue
            a.append([k, canon(d['attrs'].get(k, {}).get('type'), v)])
        out.append({'k': 'start', 'n': e.tag, 'a': sorted(a)})
        au = d.get('auto')
        if au is None or not len(e):
            s = d.get('simple')
            v = e.text or ''
            v = canon(s, v) if s else v.strip()
            if v: out.append({'k': 'text', 'v': v})
        s = 0
        for c in e:
            u = None
            for p in (() if au is None or s is None else au['first'] if s == 0 else au['follow'][s - 1]):
                if au['pos'][p - 1][0] == c.tag: s, u = p, au['pos'][p - 1][1]; break
            go(c, u)
        out.append({'k': 'end', 'n': e.tag})
    go(root, root.tag)
    return out


def item(tree, key=None): return {'script': {'op': 'core', 'xml': text(tree), 'again': 1}, **({'key': key} if key else {})}


def case(it, r):
    try: o = events(r['out'][0])
    except Exception: o = []
    return {'given': events(it['script']['xml']), 'printed': o, 'ok': bool(r.get('ok')), 'same': bool(r.get('out')) and r.get('again') == r['out'][0] and bool(r.get('ok2'))}


# --- which documents
def attribute_items(most):
    out = []
    for (n, t), w in SPOTS.items():
        for a, d in TYPES[t]['attrs'].items():
            if t in ('score-partwise',) and a == 'version': continue
            vs = [d['fixed']] if 'fixed' in d else values(d['type'])
            for v in pickmost(vs, most):
                x = minimal(n, t); x[1] = {**x[1], a: v}
                out.append((document(w, x), f'{n}@{a}', v))
    return out


def pickmost(vs, most): return vs if len(vs) <= most else vs[:1] + vs[-1:] + vs[1:-1][:most - 2]


def edge_items():
    """for every two places that follow each other in a content model a word through both"""
    out = []
    for (n, t), w in SPOTS.items():
        d = TYPES[t]
        if d.get('simple') is not None: continue
        au = d['auto']
        words = set()
        free = lambda s, q: 0
        if au['empty']: words.add(())
        for s in range(len(au['pos']) + 1):
            for p in au['first'] if s == 0 else au['follow'][s - 1]:
                a = path(au, free, 0, s) if s else []
                words.add(tuple(a) + (p,) + tuple(path(au, free, p)))
        for x in sorted(words): out.append((document(w, of_word(n, t, x)), f'{n}/' + ' '.join(au['pos'][p - 1][0] for p in x), None))
    return out


def value_items(most):
    out = []
    for (n, t), w in SPOTS.items():
        s = TYPES[t].get('simple')
        if s is None or t == 'empty' or n == 'instrument-sound': continue
        for v in pickmost(values(s), most): out.append((document(w, [n, required(t), v, t]), f'{n}={v}', v))
    w = WAY['score-instrument']
    out.append((document(w, ['score-instrument', {'id': 'X1'}, [['instrument-name', {}, 'a', 'xs:string'], ['instrument-sound', {}, 'a', 'xs:string']], 'score-instrument']), 'instrument-sound=any text', None))
    return out


def word_items(words):
    """[{t, w}] of spec/MCSchema.tla"""
    out = []
    for x in words:
        t, w = x['t'], x['w']
        if t not in WAY: continue
        n = WAY[t][-1][2] if WAY[t] else t
        out.append((document(WAY[t], of_word(n, t, w)), f'{n}/' + ' '.join(TYPES[t]['auto']['pos'][p - 1][0] for p in w), None))
    return out


def allowed(t, names):
    """known findings stand beside what is random (KNOWN_FINDINGS.json)"""
    if t in ('dynamics', 'play'): return len(names) == 1
    if t == 'key': return any(n in names for n in ('fifths', 'key-step'))
    if t in ('slash', 'beat-repeat'): return 'slash-type' in names
    if t == 'sound': return names == sorted(set(names)) and 'offset' not in names
    if t == 'ornaments': return not any(x == 'accidental-mark' and y != x for x, y in zip(names, names[1:]))
    if t == 'metronome': return 'metronome-relation' not in names or names[names.index('metronome-relation'):].count('metronome-note') <= 1
    if t == 'interchangeable': return names.count('beats') == 1
    return True


def random_tree(rng, n, t, room, rich):
    """a tree in which everything may stand"""
    d = TYPES[t]
    a = required(t)
    for k, x in d['attrs'].items():
        if rng.random() < rich and f'{n}@{k}' not in SKIP: a[k] = x.get('fixed') or rng.choice(values(x['type']))
    if t == 'empty': return [n, a, '', t]
    if n == 'instrument-sound': return [n, a, rng.choice(SOUNDS), t]
    if d.get('simple'): return [n, a, rng.choice(values(d['simple'])), t]
    au = d['auto']
    for _ in range(60):
        w, s = [], 0
        while len(w) < room:
            nx = au['first'] if s == 0 else au['follow'][s - 1]
            if not nx or ((s in au['last'] or (s == 0 and au['empty'])) and rng.random() < .25): break
            s = rng.choice(nx); w.append(s)
        w += path(au, lambda x, y: 0, s) if s else ([] if w or au['empty'] else WORD[t])
        if allowed(t, [au['pos'][p - 1][0] for p in w]): break
    else: w = WORD[t]
    return [n, a, [random_tree(rng, *au['pos'][p - 1], max(1, room - 3), rich) for p in w], t]


def probes(words, most=2):
    """of the words that are known findings the shortest of every type"""
    n, out = {}, []
    for x in words:
        if '@' in x[1] or '=' in x[1]: out.append(x); continue
        t, _, w = x[1].partition('/')
        if not allowed(t, w.split()):
            n.setdefault(t, []).append(x); continue
        out.append(x)
    for t in sorted(n): out += sorted(n[t], key=lambda x: (len(x[1].split()), x[1]))[:most]
    return out


def random_document(rng):
    """a random tree at a random place, or a random score"""
    t = rng.choice(ROOMY) if rng.random() < .8 else rng.choice(sorted(WAY))
    w = WAY[t]
    return document(w, random_tree(rng, w[-1][2] if w else t, t, rng.choice([2, 4, 7, 12]), rng.choice([0, .1, .4, .9])))


ROOMY = [t for t in sorted(WAY) if 'auto' in TYPES[t]] + ['score-partwise', 'score-partwise/part/measure', 'note', 'notations', 'direction', 'attributes', 'harmony', 'score-part', 'barline', 'lyric', 'print', 'credit', 'identification', 'defaults'] * 3


SKIP = set()


def first_difference(c):
    g, p = c['given'], c['printed']
    if not p: return 'refused'
    for k in range(max(len(g), len(p))):
        x, y = (l[k] if k < len(l) else {'k': 'nothing'} for l in (g, p))
        if x == y: continue
        if x['k'] == y['k'] == 'start' and x['n'] == y['n']:
            xa, ya = dict(x['a']), dict(y['a'])
            return f'{x["n"]}: ' + ', '.join(sorted([f'{q} lost' for q in xa if q not in ya] + [f'{q} added' for q in ya if q not in xa] + [f'{q} changed' for q in xa if q in ya and xa[q] != ya[q]]))
        return ' -> '.join(z['k'] + ' ' + z.get('n', '') for z in (x, y))
    return 'ok' if c['ok'] and c['same'] else 'messages' if c['same'] else 'not the same again'
