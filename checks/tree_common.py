"""XML trees: what a text says (by an independent parser), and the start documents of edit histories."""
import re
import xml.parsers.expat as X


def parse(text):
    """text -> (nodes in document order, doc). White space alone between elements is no text."""
    nodes, stack, doc = [], [], {'version': '1.0', 'enc': 'UTF-8', 'sa': 'none', 'dt': []}
    p = X.ParserCreate()
    p.ordered_attributes = True
    p.buffer_text = True
    txt = {}
    def start(n, at):
        nodes.append({'pi': False, 'n': n, 'v': '', 'at': [[at[k], at[k + 1]] for k in range(0, len(at), 2)], 'kids': []})
        if stack: nodes[stack[-1] - 1]['kids'].append(len(nodes))
        stack.append(len(nodes))
    def end(n): stack.pop()
    def chars(t):
        if stack: txt[stack[-1]] = txt.get(stack[-1], '') + t
    def pi(t, d):
        if stack:
            nodes.append({'pi': True, 'n': t, 'v': d, 'at': [], 'kids': []})
            nodes[stack[-1] - 1]['kids'].append(len(nodes))
    def decl(v, e, s):
        doc['version'] = v if v in ('1.0', '1.1') else '1.0'
        doc['sa'] = 'none' if s < 0 else 'yes' if s else 'no'
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler, p.ProcessingInstructionHandler, p.XmlDeclHandler = start, end, chars, pi, decl
    p.Parse(text if isinstance(text, bytes) else text.encode('utf-8'), True)
    for k, t in txt.items():
        if t.strip(' \t\r\n'): nodes[k - 1]['v'] = t
    m = re.search(r'<!DOCTYPE\s+([^\[>]*?(?:\[.*?\])?[^>]*)>', text if isinstance(text, str) else text.decode('utf-8'), re.S)
    if m: doc['dt'] = [m.group(1)]
    return nodes, doc


STARTS = [
    '<a/>',
    '<?xml version="1.0" encoding="UTF-8"?><a><b/><c/><b/></a>',
    '<?xml version="1.0" encoding="UTF-8" standalone="no"?>\n<!DOCTYPE a PUBLIC "-//x//y//EN" "http://x.y/z.dtd">\n<a k="1" l="2">\n  <b>text</b>\n  <c><d/></c>\n</a>',
    '<?xml version="1.1" encoding="utf-8" standalone="yes"?><!-- c --><a><?p one?><?q two?><b/><?p three?><c/><?b four?></a>',
    '<?xml version="1.0" standalone="yes"?><?style sheet?><!DOCTYPE a><a><?p?></a>',
    '<?xml version="1.0"?><a><b>x &amp; y &lt;z&gt;</b><!-- c --><b><![CDATA[<q>]]></b><c m="&quot;&apos;&#10;">\u00e9\u4e2d</c></a>',
    '<a><b><c><d><e>deep</e></d></c></b><?p q?></a>',
    '<a k="1" k-more="2" k-more-still="3" K="4"><bb/><b/><B/><b-b/></a>',
]
EXPAT_11 = 3   # expat knows only version 1.0


def starts():
    r = []
    for k, t in enumerate(STARTS):
        nodes, doc = parse(t.replace('version="1.1"', 'version="1.0"'))
        if 'version="1.1"' in t: doc['version'] = '1.1'
        r.append({'text': t, 'tree': nodes, 'doc': doc})
    return r


def to_case(start, steps, result):
    rs = result.get('r')
    if rs is None: return {'tree': start['tree'], 'doc': start['doc'], 'trace': [{'f': 'crash', 'h': 1, 'err': True, 'root': {'error': str(result)[:300]}, 'doc': {'error': ''}}]}
    tr = []
    for s, r in zip([{'f': 'look'}] + steps, rs):
        e = {k: v for k, v in s.items() if k != 'clone'}
        e.update(err=r['err'], root=r['root'], doc=r['doc'])
        if 'out' in r: e['out'] = r['out']
        tr.append(e)
    return {'tree': start['tree'], 'doc': start['doc'], 'trace': tr}
