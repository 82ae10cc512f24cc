"""Texts in every place of a score and of the element tree: a document is written with plain texts in its places and with
awkward ones; what differs between the two is what XmlText says of the characters."""
import json, re
import xml.parsers.expat
import carry_common as C
import schema_common as S

MARK = re.compile('Qz[0-9]{3}')


# --- scores with places
def base(n):
    """a score with a place Qz... in every field that holds a text, and the kind of each"""
    k = [0]; kind = {}
    def p(what='any'):
        k[0] += 1
        s = f'Qz{k[0]:03d}'; kind[s] = what
        return s
    font = lambda: {'fontFamily': [p('family'), p('family')]}
    score = {'ticksPerQuarter': 1, **{f: p() for f in ('workTitle', 'workNumber', 'movementTitle', 'movementNumber', 'composer', 'lyricist', 'arranger', 'publisher', 'copyright')},
             'encoding': {'encoder': p(), 'encodingDescription': p(), 'software': [p(), p()],
                          'supportedItems': [{'elementName': p('name'), 'attributeName': p('name'), 'specificValue': p('token')}],
                          'miscelaneousFields': [{'key': p('token'), 'value': p()}, {'key': p('token'), 'value': p()}]},
             'pageTextItems': [{'text': p(), 'pageNumber': 1, 'description': p(), 'fontData': font()}, {'text': p()}],
             'defaults': {'appearance': [{'appearanceType': t, 'appearanceSubType': p('token'), 'value': '1'} for t in ('LineWidth', 'Distance', 'OtherAppearance')]},
             'layout': [{'k': 0, 'v': {'page': {'newPage': 'yes', 'pageNumber': [p('token')]}}}],
             'partGroups': [{'firstPartIndex': 0, 'lastPartIndex': 1, 'number': 1, 'name': p(), 'displayName': p(), 'abbreviation': p(), 'displayAbbreviation': p(), 'bracketType': 'brace'}],
             'parts': []}
    for q in range(2):
        note = {'pitchData': {'step': 'c', 'octave': 4}, 'durationData': {'durationName': 'quarter', 'durationTimeTicks': 1}}
        notes = [{**note, 'miscData': [p('family')], 'noteAttachmentData': {'marks': [{'markType': 'otherArticulation', 'name': p()}, {'markType': 'otherOrnament', 'name': p()}, {'markType': 'otherTechnical', 'name': p()}]}},
                 {**note, 'tickTimePosition': 1, 'printData': {'fontData': font()}, 'noteAttachmentData': {'marks': [{'markType': 'otherDynamics', 'name': p()}]}}]
        words = {'text': p(), 'fontData': font()}
        dirs = [{'words': [words]}, {'rehearsals': [{'text': p(), 'fontData': font()}]},
                {'marks': [{'markType': 'otherDynamics', 'name': p()}]},
                {'chords': [{'root': 'c', 'chordKind': 'major', 'text': p('token')}]}]
        score['parts'].append({'uniqueId': p('id'), 'name': p(), 'abbreviation': p(), 'displayName': p(), 'displayAbbreviation': p(),
                               'instrumentData': {'uniqueId': p('id'), 'name': p(), 'abbreviation': p(), 'midiData': {'virtualLibrary': p(), 'virtualName': p(), 'device': p(), 'name': p()}},
                               'measures': [{'number': p('token'), 'staves': [{'directions': dirs, 'voices': [{'k': 0, 'v': {'notes': notes}}]}]}]})
    return score, kind


def fill(x, texts):
    """places replaced by their texts"""
    if isinstance(x, str): return MARK.sub(lambda m: texts.get(m.group(0), m.group(0)), x)
    if isinstance(x, list): return [fill(y, texts) for y in x]
    if isinstance(x, dict): return {k: fill(v, texts) for k, v in x.items()}
    return x


def reduced(s): return re.sub('[ \t\n\r]+', ' ', s).strip(' ')


# --- texts
AWKWARD = ['&', '<', '>', '"', "'", '&amp;', '&lt;b&gt;', '&#38;', '&#x26;', ']]>', '<![CDATA[x]]>', '<!-- x -->', '--', '</part-name>', '<a b="c"/>', '"x"', "it's", 'a & b', 'a&b;c', '&nbsp;', '%', '{}', '\\n', '\\', '`',
           'é', 'Ж', '日本語', '\U0001F3B5', '\u00a0', '\u2028', '\u0085', '\ufffd', '\ue000', 'ﬁ', '\u0301', '\U0010FFFF'[:0] + '\U0010FFFD', '?', '=', "='", '/>', '>', 'x' * 300]
SPACES = ['a b', 'a  b', ' a', 'a ', 'a\tb', 'a\nb', 'a\r\nb', 'a\rb', '\na', 'a\n', 'a\t', '  a  b  ', 'a\n\nb', '\ta', 'a\r', '\ra']
PIECES = ['&', '<', '>', '"', "'", 'a', 'b', ' ', '  ', '\t', '\n', '\r', '\r\n', ';', '#', 'amp', '1', '-', '--', ']', ']]', '!', '?', '/', '=', 'é', '日', '\U0001F3B5', '\u0085', '\u2028', '\u00a0', ',', '.', 'x']


def random_text(rng): return ''.join(rng.choice(PIECES) for _ in range(rng.randint(1, 9)))


def of_kind(rng, what, s):
    """a text of a kind made of any text"""
    if what == 'id':
        s = re.sub('[^A-Za-z0-9_.-]', '', s)
        return 'P' + s + str(rng.randint(0, 9999))
    if what == 'name': return 'n' + re.sub('[^A-Za-z0-9_.-]', '', s)
    if what == 'token': s = reduced(s)
    if what == 'family': s = reduced(s.replace(',', ''))
    if what in ('any', 'token', 'family') and not s.strip(' \t\n\r'): s = 'a' + s
    if what in ('token', 'family'): s = reduced(s)
    return 'a1' if s == '1' else s      # the number of a first measure is 1 when none is given


# --- documents as events
def parts(xml):
    """elements, attributes, texts and instructions of a document as expat reads it"""
    out, buf = [], []
    def flush():
        t = ''.join(buf); buf.clear()
        if t.strip(' \t\r\n'): out.append({'k': 'text', 'v': t})
    def start(n, a): flush(); out.append({'k': 'start', 'n': n, 'a': [[a[i], a[i + 1]] for i in range(0, len(a), 2)]})
    def end(n): flush(); out.append({'k': 'end', 'n': n})
    raw = re.findall(r'<\?(.*?)\?>', xml, re.S)
    def pi(*_): flush(); out.append({'k': 'instruction', 'v': raw.pop(0)})
    p = xml_parser()
    p.ordered_attributes = True
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler, p.ProcessingInstructionHandler = start, end, buf.append, pi
    p.XmlDeclHandler = pi
    p.Parse(xml.encode('utf-8', 'surrogatepass'), True)
    return out


def xml_parser():
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True
    return p


def codes(s): return [ord(c) for c in s]


def coded(e):
    o = {'k': e['k']}
    if 'n' in e: o['n'] = codes(e['n'])
    if 'a' in e: o['a'] = [[codes(x), codes(y)] for x, y in e['a']]
    if 'v' in e: o['v'] = codes(e['v'])
    return o


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x): yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        yield path + ('#',), str(len(x))
        for k, y in enumerate(x): yield from leaves(y, path + (k,))
    else: yield path, x if isinstance(x, str) else json.dumps(x)


def pairs(want, got):
    """the values of two readings side by side: those that hold texts, and those that differ"""
    g = dict(leaves(got)); out = []
    for p, v in leaves(want):
        x = g.pop(p, None)
        if v != x or not v.isascii() or len(v) > 24 or any(c in v for c in '&<>"\'\t\r\n '): out.append([codes(v), codes(x) if x is not None else [-1]])
    return out + [[[-1], codes(v)] for p, v in g.items()]


def case(want, back, xml, got):
    return {'doc': codes(xml or ''), 'want': [coded(e) for e in want], 'back': pairs(back, got) if got is not None else [], 'ok': xml is not None and got is not None}


# --- scores
class Scores:
    """documents of scores with texts in all their places"""
    def __init__(self, run):
        self.score, self.kind = base(0)
        r = run([C.script(self.score)])[0]
        self.plain, self.read = r['r'][3]['xml'], C.read_back(r)
        self.events = parts(self.plain)

    def item(self, texts): return {'script': C.script(fill(self.score, texts)), 'texts': texts}

    def case(self, it, r):
        try: x = r['r'][3]['xml']
        except Exception: x = None
        return case(fill(self.events, it['texts']), fill(self.read, it['texts']), x, C.read_back(r))


# --- element trees
def text_kind(t):
    """how a simple type takes texts, or None"""
    r = S.R.get(t)
    if t == 'comma-separated-text': return 'family'
    if r is None or 'enum' in r or 'union' in r or 'pattern' in r or t in S.SPECIAL: return None
    return {'xs:string': 'any', 'xs:token': 'token', 'xs:anyURI': 'token'}.get(r['base'])


def attribute_kind(k, d): return 'token' if k in ('xlink:role', 'xlink:title') else None if 'fixed' in d else text_kind(d['type'])


def with_places(tree, kind, most=99):
    """a tree whose texts and text attributes are places"""
    n, a, c, t = tree
    def p(what):
        s = f'Qz{len(kind) + 1:03d}'; kind[s] = what
        return s
    d = S.TYPES[t]
    a = {k: p(attribute_kind(k, d['attrs'][k])) if k in d['attrs'] and attribute_kind(k, d['attrs'][k]) and len(kind) < most else v for k, v in a.items()}
    if isinstance(c, str):
        if c and n != 'instrument-sound' and text_kind(d.get('simple')) and len(kind) < most: c = p(text_kind(d['simple']))
    else: c = [with_places(x, kind, most) for x in c]
    return [n, a, c, t]


def spot_trees():
    """for every element that holds texts a document with all of them"""
    out = []
    for (n, t), w in S.SPOTS.items():
        d = S.TYPES[t]
        m = S.minimal(n, t)
        m[1] = {**m[1], **{k: 'a' for k, x in d['attrs'].items() if attribute_kind(k, x) and f'{n}@{k}' not in S.SKIP}}
        kind = {}
        m = with_places(m, kind)
        if kind: out.append((f'{n}', S.document(w, m), kind))
    return out


def noted(rng, s, where):
    """a text in one of the notations XML has for it; where: the quote of an attribute, or None"""
    # CDATA sections part a text; a part of white space alone is a known finding
    names = {'<': 'lt', '>': 'gt', '&': 'amp', '"': 'quot', "'": 'apos'}
    def plain(s):
        out = ''
        for c in s:
            if c in '<&' or c == where or c == '\r' or (where and c in '\t\n') or (c == '>' and out.endswith(']]')) or rng.random() < .2:
                out += rng.choice(([f'&{names[c]};'] if c in names else []) + [f'&#{ord(c)};', f'&#x{ord(c):x};', f'&#x{ord(c):X};', f'&#0{ord(c)};'])
            else: out += c
        return out
    if where or rng.random() < .6: return plain(s)
    cuts = sorted({0, len(s)} | {rng.randint(0, len(s)) for _ in range(rng.randint(1, 4))})
    pieces = [s[x:y] for x, y in zip(cuts, cuts[1:])]
    if any(not p.strip(' \t\r\n') for p in pieces): return plain(s)
    out, was = '', False
    for k, p in enumerate(pieces):
        was = not was and '\r' not in p and ']]>' not in p and rng.random() < .5
        out += f'<![CDATA[{p}]]>' if was else plain(p)
        if k + 1 < len(pieces) and rng.random() < .1 and not was: out += '<!-- c -->'
    return out


def notation(rng, tree, top=True):
    """a document in one of the notations XML has for it"""
    n, a, c, _ = tree
    at = ''
    for k, v in {**a, **({'version': '3.0'} if top and 'version' not in a else {}), **({'xmlns:xlink': S.XLINK} if top and 'xlink:' in json.dumps(tree) else {})}.items():
        q = rng.choice('"\'')
        at += rng.choice([' ', ' ', '\n  ', '  ', '\t', '\r\n']) + k + rng.choice(['=', '=', ' = ']) + q + noted(rng, v, q) + q
    at += rng.choice(['', '', ' ', '\n'])
    gap = lambda: rng.choice(['', '\n', '\n    ', '\r\n', '\t', ' ', '<!-- a & b -->', '\r']) if isinstance(c, list) and c else ''
    inner = noted(rng, c, None) if isinstance(c, str) else gap() + ''.join(notation(rng, x, False) + gap() for x in c)
    b = f'<{n}{at}>{inner}</{n}{rng.choice(["", "", " "])}>' if inner or rng.random() < .3 else f'<{n}{at}/>'
    if not top: return b
    return rng.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0'?>", '<?xml version="1.0" encoding="UTF-8" standalone="no"?>\r\n<!DOCTYPE score-partwise PUBLIC "-//Recordare//DTD MusicXML 3.0 Partwise//EN" "http://www.musicxml.org/dtds/partwise.dtd">\r\n', '\ufeff<?xml version="1.0" encoding="UTF-8"?><!-- c -->']) + b + rng.choice(['', '\n', '<!-- end -->\n'])


def stands_for(x): return ''.join(e['v'] for e in parts(f'<a>{x}</a>') if e['k'] == 'text')


class Trees:
    """documents of element trees with texts in their places"""
    def __init__(self, run, trees):
        self.trees = trees                                 # [(name, tree, kind)]
        self.plain = [r['out'][0] if r.get('ok') and r.get('out') else None for r in run([S.item(t)['script'] for _, t, _ in trees])]

    def item(self, rng, k, texts): return {'script': {'op': 'core', 'xml': notation(rng, fill(self.trees[k][1], texts)), 'again': 1}, 'texts': texts, 'events': parts(self.plain[k])}

    def case(self, it, r):
        o = r['out'][0] if r.get('ok') and r.get('out') else None
        return {'doc': codes(o or ''), 'want': [coded(e) for e in fill(it['events'], it['texts'])], 'back': [[codes(o), codes(r.get('again') or '')]] if o and o != r.get('again') else [], 'ok': o is not None}
