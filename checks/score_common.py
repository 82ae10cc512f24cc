"""Random values of what is said of a score as a whole, and of its parts and part groups."""
import carry_common as C
from carry_common import put, pick, ENUM, position, font

TITLES = ['workTitle', 'workNumber', 'movementTitle', 'movementNumber', 'composer', 'lyricist', 'arranger', 'publisher', 'copyright']
WORDS = ['a', 'B flat', 'Op. 1', 'one  two', '1', 'Zürich', 'm&m', '<b>', "it's \"so\"", 'Ἰλιάς', 'x' * 60, '日本', 'No. 3: Finale', '-']
DISTANCES = ['0', '1', '12.5', '-3', '40', '0.25', '-120.75', '1553.75', '70']
LENGTHS = ['1', '12.5', '40', '0.25', '1553.75', '7.2319']
LINES = ['beam', 'bracket', 'dashes', 'enclosure', 'ending', 'extend', 'heavy barline', 'leger', 'light barline', 'octave shift', 'pedal', 'slur middle', 'slur tip', 'staff', 'stem', 'tie middle', 'tie tip', 'tuplet bracket', 'wedge', 'own']


def words(rng): return rng.choice(WORDS)


def encoding(rng):
    e = {}
    if rng.random() < .5:
        m = rng.randint(1, 12)
        e['encodingDate'] = {'year': rng.choice([1, 1685, 1900, 1999, 2000, 2024, 2026, 9999]), 'month': m, 'day': rng.choice([1, 28, 30 if m != 2 else 28, rng.randint(1, 28), 31 if m in (1, 3, 5, 7, 8, 10, 12) else 1])}
    for f in ('encoder', 'encodingDescription'):
        if rng.random() < .5: e[f] = words(rng)
    if rng.random() < .5: e['software'] = [words(rng) for _ in range(rng.randint(1, 3))]
    if rng.random() < .5:
        e['supportedItems'] = []
        for _ in range(rng.randint(1, 4)):
            s = {'elementName': rng.choice(['accidental', 'beam', 'print', 'stem'])}
            if rng.random() < .5: s['attributeName'] = rng.choice(['new-page', 'new-system', 'a'])
            if rng.random() < .5: s['specificValue'] = rng.choice(['yes', 'no', 'x y'])
            if rng.random() < .5: s['isSupported'] = False
            e['supportedItems'].append(s)
    if rng.random() < .4: e['miscelaneousFields'] = [{'key': rng.choice(['k', 'rating', 'a b', 'k']), 'value': words(rng)} for _ in range(rng.randint(1, 3))]
    return e


def margins(rng, names, values=DISTANCES):
    d = {}
    for f in names: put(d, f, rng.choice(values), '0')
    return d


def page(rng):
    d = {}
    if rng.random() < .7: d['size'] = [margins(rng, ['height', 'width'])]
    if rng.random() < .6:
        # page margins are not negative
        m, (o, e) = {}, [margins(rng, ['left', 'right', 'top', 'bottom'], ['0'] + LENGTHS) for _ in range(2)]
        k = rng.choice(['odd', 'even', 'both', 'same'])
        if k != 'even': m['odd'] = [o]
        if k in ('even', 'both'): m['even'] = [e]
        if k == 'same': m['even'] = [dict(o)]
        d['margins'] = m
    return d


def system(rng):
    d = {}
    if rng.random() < .4: d['margins'] = [margins(rng, ['left', 'right'])]
    for f in ('systemDistance', 'topSystemDistance', 'staffDistance'):
        if rng.random() < .4: d[f] = [rng.choice(DISTANCES)]
    return d


def appearance(rng):
    k = rng.choice(ENUM['AppearanceType'])
    d = put({}, 'appearanceType', k, 'LineWidth')
    put(d, 'appearanceSubType', {'LineWidth': rng.choice(LINES), 'NoteSize': rng.choice(['cue', 'grace', 'large']), 'Distance': rng.choice(['beam', 'hyphen', 'own']), 'OtherAppearance': rng.choice(['x', 'some kind'])}[k], 'beam')
    v = rng.choice(LENGTHS if k == 'NoteSize' else DISTANCES)
    return put(d, 'value', v, '0')


def defaults(rng):
    d = {}
    if rng.random() < .5: d['scalingMillimeters'], d['scalingTenths'] = rng.choice(LENGTHS), rng.choice(LENGTHS)
    if rng.random() < .5: put(d, 'pageLayout', page(rng), {})
    if rng.random() < .5: put(d, 'systemLayout', system(rng), {})
    if rng.random() < .5: d['appearance'] = [appearance(rng) for _ in range(rng.randint(1, 6))]
    return d


def page_text(rng):
    d = {'text': words(rng)}
    if rng.random() < .4: d['description'] = words(rng)
    if rng.random() < .5: d['pageNumber'] = rng.choice([1, 2, 7, 100])
    put(d, 'positionData', position(rng, .6, align=True), {})
    return put(d, 'fontData', font(rng, .6), {})


def measure_layout(rng):
    s, p, v = {}, {}, {}
    put(s, 'newSystem', pick(rng, 'Bool', .4)); put(p, 'newPage', pick(rng, 'Bool', .4))
    if rng.random() < .4: put(s, 'layout', system(rng), {})
    if rng.random() < .4: put(p, 'pageLayoutData', page(rng), {})
    if rng.random() < .3: p['pageNumber'] = [rng.choice(['1', 'iv', '12', 'A-2'])]
    return put(put(v, 'system', s, {}), 'page', p, {})


def header(rng, measures):
    s = {}
    for f in TITLES:
        if rng.random() < .5: s[f] = words(rng)
    if rng.random() < .7: s['musicXmlVersion'] = 'ThreePointZero'
    if rng.random() < .7: put(s, 'encoding', encoding(rng), {})
    if rng.random() < .7: put(s, 'defaults', defaults(rng), {})
    if rng.random() < .5: s['pageTextItems'] = [page_text(rng) for _ in range(rng.randint(1, 4))]
    if rng.random() < .7:
        l = [{'k': k, 'v': measure_layout(rng)} for k in sorted(rng.sample(range(measures + 2), rng.randint(1, measures)))]
        s['layout'] = l
    return s


NOTE = {'durationData': {'durationName': 'quarter'}}


def music(measures, staves=1): return [{'staves': [{'voices': [{'k': 0, 'v': {'notes': [NOTE]}}]} if k == 0 else {} for k in range(staves)]} for _ in range(measures)]


def with_music(s, measures, parts=1): return {**s, 'ticksPerQuarter': 1, 'parts': [{'uniqueId': f'P{k + 1}', 'name': 'N', 'measures': music(measures)} for k in range(parts)]}


def score_case(it, r):
    b = C.read_back(r)
    return {'ok': b is not None, 'want': {k: v for k, v in it['score'].items() if k != 'parts'}, 'got': {k: v for k, v in (b or {}).items() if k != 'parts'}, 'measures': len(it['score']['parts'][0]['measures'])}


# --- parts and part groups
import xml.etree.ElementTree as ET
IDS = ['P1', 'P2', 'P3', 'Flute', 'part-2', '_x', 'A.b', 'Ob1', 'Z9', 'violin-II', 'P10', 'vla']
SOUNDS = [e for e in ENUM['SoundID'] if e not in ('unspecified', 'errorBadString')]


def midi(rng):
    d = {}
    for f in ('virtualLibrary', 'virtualName', 'device', 'name'):
        if rng.random() < .35: d[f] = words(rng)
    for f, n in (('bank', 16384), ('channel', 16), ('program', 128), ('unpitched', 128)):
        if rng.random() < .35: d[f] = rng.choice([1, n, rng.randint(1, n)])
    for flag, f, vs in (('isVolumeSpecified', 'volume', ['0', '100', '80.5', '33']), ('isPanSpecified', 'pan', ['0', '-180', '180', '-12.5']), ('isElevationSpecified', 'elevation', ['0', '-180', '180', '45'])): C.flagged(rng, d, flag, f, rng.choice(vs), '0', .35)
    return d


def instrument(rng, k):
    d = {}
    for f in ('name', 'abbreviation'):
        if rng.random() < .5: d[f] = words(rng)
    if rng.random() < .4: d['soundID'] = rng.choice(SOUNDS)
    put(d, 'soloOrEnsemble', pick(rng, 'SoloOrEnsemble', .4))
    if rng.random() < .6: put(d, 'midiData', midi(rng), {})
    if d or rng.random() < .1: d['uniqueId'] = f'I{k}-{rng.choice(["x", "1", "b.c"])}'
    return d


def own_music(k, measures, staves=1):
    """measures that tell whose they are"""
    def note(m, s): return {**NOTE, 'pitchData': put(put(put({}, 'step', 'cdefgab'[m % 7], 'c'), 'octave', k % 10, 4), 'alter', k // 10 - 1 + s, 0)}
    return [{'staves': [{'voices': [{'k': 0, 'v': {'notes': [note(m, s)]}}]} for s in range(staves)]} for m in range(measures)]


def part(rng, k, uid, measures):
    p = {'uniqueId': uid}
    if rng.random() < .8: p['name'] = words(rng)
    for f in ('abbreviation', 'displayName', 'displayAbbreviation'):
        if rng.random() < .4: p[f] = words(rng)
    for f in ('displayNamePrintData', 'displayAbbreviationPrintData'): put(p, f, put({}, 'printObject', pick(rng, 'Bool', .4)), {})
    if rng.random() < .6: put(p, 'instrumentData', instrument(rng, k), {})
    if rng.random() < .3: p['transposition'] = [put(put({}, 'chromatic', rng.randint(-24, 24), 0), 'diatonic', rng.randint(-14, 14), 0)]
    p['measures'] = own_music(k, measures, rng.choice([1, 1, 1, 2, 3]))
    return p


def overlap(a, b): return a['f'] <= b['l'] and b['f'] <= a['l']


def groups(rng, parts, most):
    """groups of parts; those that share a part have different numbers, and no number is number one"""
    gs = []
    for _ in range(rng.randint(0, most)):
        a, b = sorted((rng.randrange(parts), rng.randrange(parts)))
        g = {'f': a, 'l': b}
        taken = {1 if h['n'] == -1 else h['n'] for h in gs if overlap(g, h)}
        free = [n for n in (-1, 1, 2, 3, 4, 5, 6, 12) if (1 if n == -1 else n) not in taken]
        if free: gs.append({**g, 'n': rng.choice(free[:4])})
    out = []
    for g in gs:
        d = put(put(put({}, 'firstPartIndex', g['f'], -1), 'lastPartIndex', g['l'], -1), 'number', g['n'], -1)
        for f in ('name', 'displayName', 'abbreviation', 'displayAbbreviation'):
            if rng.random() < .4: d[f] = words(rng)
        out.append(put(d, 'bracketType', pick(rng, 'BracketType', .6)))
    return out


def flat_group(g):
    n = g.get('number', -1)
    return {'first': g.get('firstPartIndex', -1), 'last': g.get('lastPartIndex', -1), 'number': '' if n == -1 else str(n), 'name': g.get('name', ''), 'abbreviation': g.get('abbreviation', ''),
            'shown': g.get('displayName', ''), 'shownAbbreviation': g.get('displayAbbreviation', ''), 'symbol': '' if g.get('bracketType', 'unspecified') == 'unspecified' else g['bracketType']}


def part_list(text):
    """the list of parts of a written document"""
    out = []
    for e in ET.fromstring(text).find('part-list'):
        if e.tag == 'score-part': out.append({'k': 'part', 'id': e.get('id')})
        else:
            def shown(t):
                x = e.find(t)
                return '' if x is None else ''.join(y.text or '' for y in x.findall('display-text'))
            out.append({'k': e.get('type'), 'number': e.get('number', ''), 'name': e.findtext('group-name', ''), 'abbreviation': e.findtext('group-abbreviation', ''), 'shown': shown('group-name-display'),
                        'shownAbbreviation': shown('group-abbreviation-display'), 'symbol': e.findtext('group-symbol', '')})
    return out


def parts_case(it, r):
    s, b = it['score'], C.read_back(r)
    try: text = r['r'][3]['xml']; lst = part_list(text)
    except Exception: lst = None
    ok = b is not None and lst is not None
    return {'ok': ok, 'list': lst or [], 'ids': [p['uniqueId'] for p in s['parts']], 'groups': [flat_group(g) for g in s.get('partGroups', [])], 'want': s['parts'],
            'got': [{**p, 'measures': p.get('measures', [])} for p in (b or {}).get('parts', [])], 'back': [flat_group(g) for g in (b or {}).get('partGroups', [])]}


def list_doc(lst, body, rng):
    """a document with a list of parts; body: the ids in the order in which the parts follow"""
    h, order = [], [x['id'] for x in lst if x['k'] == 'part']
    for x in lst:
        if x['k'] == 'part': h.append(f'<score-part id="{x["id"]}"><part-name>{x["id"]}</part-name></score-part>'); continue
        n = f' number="{x["number"]}"' if x['number'] else ''
        i = ''.join(f'<{t}>{x[f]}</{t}>' for f, t in (('name', 'group-name'), ('abbreviation', 'group-abbreviation'), ('symbol', 'group-symbol')) if x[f])
        h.append(f'<part-group type="{x["k"]}"{n}>{i}</part-group>')
    parts, want = [], {}
    for uid in body:
        k, n = order.index(uid), rng.randint(1, 2)
        want[uid] = {'uniqueId': uid, 'name': uid, 'measures': own_music(k, n)}
        ms = ''
        for m in range(n):
            q = {'step': 'c', 'octave': 4, **want[uid]['measures'][m]['staves'][0]['voices'][0]['v']['notes'][0]['pitchData']}
            a = f'<alter>{q["alter"]}</alter>' if 'alter' in q else ''
            ms += f'<measure number="{m + 1}"><attributes><divisions>1</divisions></attributes><note><pitch><step>{q["step"].upper()}</step>{a}<octave>{q["octave"]}</octave></pitch><duration>1</duration></note></measure>'
        parts.append(f'<part id="{uid}">{ms}</part>')
    return f'<?xml version="1.0"?><score-partwise version="3.0"><part-list>{"".join(h)}</part-list>{"".join(parts)}</score-partwise>', [want[u] for u in order]


def list_item(lst, rng):
    body = [x['id'] for x in lst if x['k'] == 'part']
    if rng.random() < .5: rng.shuffle(body)
    xml, want = list_doc(lst, body, rng)
    return {'script': {'op': 'dm', 'script': [{'f': 'createStream', 'xml': xml}, {'f': 'get', 'ref': 0}]}, 'list': lst, 'want': want}


def list_case(it, r):
    try: b = r['r'][1]['score']
    except (KeyError, IndexError, TypeError): b = None
    g = [flat_group(x) for x in (b or {}).get('partGroups', [])]
    return {'ok': b is not None, 'list': it['list'], 'ids': [x['id'] for x in it['list'] if x['k'] == 'part'], 'groups': g, 'back': g, 'want': it['want'], 'got': [{**p, 'measures': p.get('measures', [])} for p in (b or {}).get('parts', [])]}


def random_list(rng, parts, most):
    """starts, parts and stops in any order that makes sense"""
    out, open_, n = [], {}, 0
    def x(k, num): return {'k': k, 'number': num, 'name': '', 'abbreviation': '', 'shown': '', 'shownAbbreviation': '', 'symbol': ''}
    for k in range(parts):
        for num in [q for q in open_ if open_[q] < k and rng.random() < .35]: open_.pop(num); out.append(x('stop', num))
        while n < most and rng.random() < .5:
            free = [q for q in ('', '1', '2', '3', '4', '5', '6') if (q or '1') not in {(o or '1') for o in open_}]
            if not free: break
            num = rng.choice(free[:4]); open_[num] = k; n += 1
            s = x('start', num); s['name'] = f'g{n}' if rng.random() < .8 else ''; s['symbol'] = rng.choice(['', 'brace', 'bracket', 'line', 'none', 'square']); s['abbreviation'] = rng.choice(['', 'g.'])
            out.append(s)
        out.append({'k': 'part', 'id': f'P{k + 1}'})
    rest = list(open_); rng.shuffle(rest)
    return out + [x('stop', n) for n in rest]
