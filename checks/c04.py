"""Partwise/timewise conversion: every small shape the specification enumerates, and larger random ones, converted by
the real code three times; every printed arrangement must be the specified conversion of the one before."""
import xml.etree.ElementTree as ET
from vlib import sha

CFG = '''INIT Init
NEXT Next
CONSTANTS P = %d
 M = %d
 EmitDocs = %s
INVARIANTS Preserved HeaderKept BackAgain Stable InOrder
CHECK_DEADLOCK FALSE
'''
HEADS = [
    '<work><work-title>w</work-title></work><movement-title>m</movement-title><identification><creator type="composer">x</creator></identification>',
    '<movement-number>3</movement-number><defaults><scaling><millimeters>7</millimeters><tenths>40</tenths></scaling></defaults><credit page="1"><credit-words>hi</credit-words></credit>',
    '']
ATTRS = ['', ' implicit="yes"', ' width="120"', ' non-controlling="yes" width="80"', ' implicit="no"']


def cell_xml(rng, tok):
    """music for one cell; the marker makes it distinct from all others"""
    if tok == '': return ''
    r = ''
    if rng.random() < .3: r += '<attributes><divisions>4</divisions></attributes>'
    r += f'<direction><direction-type><words>{tok}</words></direction-type></direction>'
    for _ in range(rng.randrange(3)):
        k = rng.randrange(4)
        r += ['<note><rest/><duration>4</duration></note>', '<note><pitch><step>C</step><octave>4</octave></pitch><duration>2</duration></note>', '<backup><duration>1</duration></backup>', '<forward><duration>2</duration></forward>'][k]
    if rng.random() < .2: r += '<barline location="right"><bar-style>light-heavy</bar-style></barline>'
    return r


def render(rng, d):
    lst = ''
    groups = rng.random() < .4
    for k, i in enumerate(d['list']):
        if groups and k == 0: lst += '<part-group type="start" number="1"><group-name>g</group-name></part-group>'
        lst += f'<score-part id="{i}"><part-name>n{i}</part-name></score-part>'
        if groups and k == len(d['list']) - 1: lst += '<part-group type="stop" number="1"/>'
    head = rng.choice(HEADS)
    order = ['work', 'movement', 'identification', 'defaults', 'credit']
    at = {}
    def attr(m): return at.setdefault(m, f' number="{m}"' + rng.choice(ATTRS))
    if d['kind'] == 'partwise':
        body = ''.join(f'<part id="{p["id"]}">' + ''.join(f'<measure{attr(m["attr"])}>{cell_xml(rng, m["cell"])}</measure>' for m in p['ms']) + '</part>' for p in d['body'])
    else:
        body = ''.join(f'<measure{attr(m["attr"])}>' + ''.join(f'<part id="{p["id"]}">{cell_xml(rng, p["cell"])}</part>' for p in m['ps']) + '</measure>' for m in d['body'])
    return f'<?xml version="1.0" encoding="UTF-8"?><score-{d["kind"]} version="3.0">{head}<part-list>{lst}</part-list>{body}</score-{d["kind"]}>'


def canon(e):
    return [e.tag, sorted(e.attrib.items()), (e.text or '').strip(), [canon(c) for c in e]]


def music(e):
    return sha([canon(c) for c in e]) if len(e) else ''


def project(text):
    """an XML print -> the specification's document"""
    try: r = ET.fromstring(text.encode('utf-8', 'surrogateescape'))
    except ET.ParseError as x: return {'kind': 'malformed'}
    kind = {'score-partwise': 'partwise', 'score-timewise': 'timewise'}.get(r.tag, r.tag)
    head = sha([[canon(c) for c in r if c.tag not in ('part', 'measure')], sorted(r.attrib.items())])
    pl = r.find('part-list')
    lst = [p.get('id') for p in pl if p.tag == 'score-part'] if pl is not None else []
    def at(m): return sha(sorted(m.attrib.items()))
    if kind == 'partwise': body = [{'id': p.get('id'), 'ms': [{'attr': at(m), 'cell': music(m)} for m in p]} for p in r if p.tag == 'part']
    else: body = [{'attr': at(m), 'ps': [{'id': p.get('id'), 'cell': music(p)} for p in m]} for m in r if m.tag == 'measure']
    return {'kind': kind, 'head': head, 'list': lst, 'body': body}


def random_doc(rng):
    P, M = rng.randint(1, 7), rng.randint(1, 9)
    ids = [f'P{k}' for k in rng.sample(range(1, 40), P)]
    if rng.random() < .5:
        flat = rng.random() < .5
        order = ids[:]
        if rng.random() < .4: rng.shuffle(order)
        ln = {i: M if flat else rng.randint(1, M) for i in ids}
        if P > 1 and rng.random() < .15: order.pop()
        return {'kind': 'partwise', 'list': ids, 'body': [{'id': i, 'ms': [{'attr': m, 'cell': f'{i}.{m}' if rng.random() < .9 else ''} for m in range(ln[i])]} for i in order]}
    full = rng.random() < .4
    body = []
    for m in range(M):
        who = ids[:] if full else rng.sample(ids, rng.randint(1, P))
        body.append({'attr': m, 'ps': [{'id': i, 'cell': f'{i}.{m}' if rng.random() < .9 else ''} for i in who]})
    return {'kind': 'timewise', 'list': ids, 'body': body}


def reader_grid(s):
    """the part/measure grid of a score the library read: marker words per measure"""
    g = []
    for p in s.get('parts', []):
        row = []
        for m in p.get('measures', []):
            row.append([w.get('text', '') for st in m.get('staves', []) for d in st.get('directions', []) for w in d.get('words', [])])
        g.append({'id': p.get('uniqueId', ''), 'ms': row})
    return g


def run(ctx):
    P, M = 3, ctx.pick(3, 4)
    if not ctx.thorough: out = ctx.tlc('MCConversion', CFG % (P, M, 'TRUE'))
    else:
        out = ctx.tlc('MCConversion', CFG % (P, M, 'TRUE'))
        ctx.model('MCConversion', CFG % (4, 3, 'FALSE'), name='4 parts, 3 measures')
    docs = ctx.emitted(out)
    ctx.cov['enumerated_shapes'] = len(docs)
    items = []
    for d in docs + [random_doc(ctx.rng) for _ in range(ctx.pick(300, 6000))]:
        x = render(ctx.rng, d)
        items.append({'doc': {k: d[k] for k in ('kind', 'list')}, 'script': {'op': 'core', 'xml': x, 'convert': 3}})
    def case(i, r):
        if 'out' not in r: return {'doc': {'kind': 'crash', 'head': '', 'list': [], 'body': []}, 'prints': [{'kind': str(r)[:200]}]}
        return {'doc': project(i['script']['xml']), 'prints': [project(o) for o in r['out']]}
    ctx.conform('TConversion', items, case, label='element tree conversion')
    # through the registry: a timewise document reads as the partwise arrangement of the same cells, a score stored timewise prints as the conversion of the one stored partwise
    items = []
    for _ in range(ctx.pick(120, 3000)):
        d = random_doc(ctx.rng)
        items.append({'script': {'op': 'dm', 'script': [{'f': 'createStream', 'xml': render(ctx.rng, d)}, {'f': 'get', 'ref': 0}, {'f': 'write', 'ref': 0}]}, 'd': d})
    def case2(i, r):
        x = project(i['script']['script'][0]['xml'])
        if 'r' not in r or any('err' in q for q in r['r']): return {'src': x, 'parts': [{'id': str(r)[:100], 'n': 0}], 'marks': [], 'want': [['crash']], 'print': {}}
        s = r['r'][1]['score']
        # markers per cell, from the document itself
        d = i['d']
        if d['kind'] == 'partwise': cells = {(p['id'], m): c['cell'] for p in d['body'] for m, c in enumerate(p['ms'])}
        else: cells = {(p['id'], m): p['cell'] for m, mm in enumerate(d['body']) for p in mm['ps']}
        g = reader_grid(s)
        return {'src': x, 'marks': [[','.join(w) for w in p['ms']] for p in g], 'ids': [p['id'] for p in g],
                'cells': [[cells.get((p['id'], m), '') for m in range(len(p['ms']))] for p in g], 'print': project(r['r'][2]['xml'])}
    ctx.conform('TConversionGet', items, case2, label='reading through the registry')
    items = []
    for _ in range(ctx.pick(80, 1500)):
        n = ctx.rng.randint(1, 5); M = ctx.rng.randint(1, 5)
        parts = [{'uniqueId': f'P{k}', 'name': f'n{k}', 'measures': [{'staves': [{'directions': [{'words': [{'text': f'{k}.{m}'}]}], 'voices': [{'k': 0, 'v': {'notes': [{'durationData': {'durationName': 'quarter', 'durationTimeTicks': 420}}] * ctx.rng.randrange(3)}}]}]} for m in range(M)]} for k in range(n)]
        sc = {'workTitle': 't', 'parts': parts}
        items.append({'script': {'op': 'dm', 'script': [{'f': 'createScore', 'score': dict(sc, musicXmlType=k)} if f == 'c' else {'f': 'write', 'ref': q} for f, k, q in (('c', 'partwise', 0), ('w', '', 0), ('c', 'timewise', 0), ('w', '', 2))]}})
    def case3(i, r):
        if 'r' not in r or any('err' in q for q in r['r']): return {'doc': {'kind': 'crash', 'head': '', 'list': [], 'body': []}, 'prints': [{'kind': str(r)[:200]}]}
        a, b = project(r['r'][1]['xml']), project(r['r'][3]['xml'])
        return {'doc': a, 'prints': [a, b]}
    ctx.conform('TConversion', items, case3, label='score stored in either arrangement')
