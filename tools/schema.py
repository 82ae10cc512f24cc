"""Development tool: Documents/musicxml.xsd (MusicXML 3.0) as data: tools/data/schema.json. Types with their attributes, their
simple content, or the automaton of their children (one state for every place of a child in the content model)."""
import json, os, sys
import xml.etree.ElementTree as ET
X = '{http://www.w3.org/2001/XMLSchema}'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = sys.argv[1] if len(sys.argv) > 1 else '/repo/Documents/musicxml.xsd'
root = ET.parse(src).getroot()
top = {k: {e.get('name'): e for e in root.findall(X + k)} for k in ('simpleType', 'complexType', 'group', 'attributeGroup', 'element')}
types, simple, work = {}, {}, []


def facet(st):
    """a simple type as {base, enum, pattern, lo, hi, lox, union}"""
    r = st.find(X + 'restriction')
    if r is None:
        u = st.find(X + 'union')
        m = (u.get('memberTypes') or '').split()
        for k, s in enumerate(u.findall(X + 'simpleType')):
            n = f'{st.get("name")}.{k}'; simple[n] = facet(s); m.append(n)
        return {'union': m}
    d = {'base': r.get('base')}
    for f in r:
        t = f.tag[len(X):]
        if t == 'enumeration': d.setdefault('enum', []).append(f.get('value'))
        elif t == 'pattern': d['pattern'] = f.get('value')
        elif t in ('minInclusive', 'maxInclusive', 'minExclusive', 'minLength'): d[t] = f.get('value')
    return d


for n, st in top['simpleType'].items(): simple[n] = facet(st)


def attributes(e, out):
    for c in e:
        if c.tag == X + 'attribute':
            n = c.get('name') or c.get('ref')
            out[n] = {'type': c.get('type') or {'xml:lang': 'xs:language', 'xml:space': 'xml-space'}.get(n, 'xs:string')}
            if c.get('use') == 'required': out[n]['required'] = True
            if c.get('fixed'): out[n]['fixed'] = c.get('fixed')
            if n == 'xlink:show': out[n]['type'] = 'xlink-show'
            if n == 'xlink:actuate': out[n]['type'] = 'xlink-actuate'
        elif c.tag == X + 'attributeGroup': attributes(top['attributeGroup'][c.get('ref')], out)


simple['xml-space'] = {'base': 'xs:token', 'enum': ['default', 'preserve']}
simple['xlink-show'] = {'base': 'xs:token', 'enum': ['new', 'replace', 'embed', 'other', 'none']}
simple['xlink-actuate'] = {'base': 'xs:token', 'enum': ['onRequest', 'onLoad', 'other', 'none']}


def occurs(e): return int(e.get('minOccurs', 1)), (None if e.get('maxOccurs') == 'unbounded' else int(e.get('maxOccurs', 1)))


def particle(e, ctx):
    """('el', name, type) ('seq', [..]) ('alt', [..]) ('opt', p) ('star', p)"""
    t = e.tag[len(X):]
    if t == 'element':
        ty = e.get('type')
        if ty is None:
            ty = f'{ctx}/{e.get("name")}'; work.append((ty, e.find(X + 'complexType')))
        p = ('el', e.get('name'), ty)
    elif t == 'group': p = body(top['group'][e.get('ref')], ctx)
    elif t in ('sequence', 'choice'): p = ('seq' if t == 'sequence' else 'alt', [particle(c, ctx) for c in e if c.tag[len(X):] in ('element', 'group', 'sequence', 'choice')])
    lo, hi = occurs(e)
    if (lo, hi) == (1, 1): return p
    s = [p] * lo
    if hi is None: s.append(('star', p))
    else:
        rest = None
        for _ in range(hi - lo): rest = ('opt', p if rest is None else ('seq', [p, rest]))
        if rest: s.append(rest)
    return s[0] if len(s) == 1 else ('seq', s)


def body(e, ctx):
    for c in e:
        if c.tag[len(X):] in ('sequence', 'choice', 'group'): return particle(c, ctx)
    return ('seq', [])


def automaton(p):
    pos = []
    follow = {}
    def go(p):
        k = p[0]
        if k == 'el':
            pos.append((p[1], p[2])); i = len(pos); follow[i] = set(); return False, {i}, {i}
        if k == 'seq':
            nul, first, last = True, set(), set()
            for q in p[1]:
                n, f, l = go(q)
                for a in last: follow[a] |= f
                if nul: first |= f
                last = (last | l) if n else l
                nul = nul and n
            return nul, first, last
        if k == 'alt':
            nul, first, last = False, set(), set()
            for q in p[1]:
                n, f, l = go(q); nul |= n; first |= f; last |= l
            return nul, first, last
        n, f, l = go(p[1])
        if k == 'star':
            for a in l: follow[a] |= f
        return True, f, l
    nul, first, last = go(p)
    return {'pos': [list(x) for x in pos], 'empty': nul, 'first': sorted(first), 'last': sorted(last), 'follow': [sorted(follow[i + 1]) for i in range(len(pos))]}


def complex_(name, ct):
    d = {'attrs': {}, 'simple': None}
    sc = ct.find(X + 'simpleContent')
    if sc is not None:
        ex = sc.find(X + 'extension')
        attributes(ex, d['attrs']); b = ex.get('base')
        if b in top['complexType']:
            q = complex_(b, top['complexType'][b]); d['attrs'] = {**q['attrs'], **d['attrs']}; b = q['simple']
        d['simple'] = b; return d
    cc = ct.find(X + 'complexContent')
    if cc is not None:
        ex = cc.find(X + 'extension'); q = complex_(ex.get('base'), top['complexType'][ex.get('base')])
        attributes(ex, q['attrs']); assert body(ex, name) == ('seq', []), name
        return q
    attributes(ct, d['attrs']); d['auto'] = automaton(body(ct, name))
    return d


for n in ('score-partwise', 'score-timewise'): work.append((n, top['element'][n].find(X + 'complexType')))
for n, ct in top['complexType'].items(): work.append((n, ct))
while work:
    n, ct = work.pop()
    if n not in types: types[n] = complex_(n, ct)
# element types that are simple
for t in list(types.values()):
    for _, ty in t.get('auto', {}).get('pos', []):
        if ty not in types: types[ty] = {'attrs': {}, 'simple': ty}
for t in types.values():
    if t['simple'] is None: del t['simple']
json.dump({'types': types, 'simple': simple}, open(V + '/tools/data/schema.json', 'w'), indent=0, sort_keys=True)
print(len(types), 'types', len(simple), 'simple types', sum(len(t['attrs']) for t in types.values()), 'attributes')
