"""Scores for the writing specification (spec/Writer.tla): abstract measures to ScoreData, and written text back to items."""
import xml.etree.ElementTree as ET

INF = 1000000
TICK_INF = 2147483647
SIGN = {'g': 'G', 'f': 'F', 'c': 'C', 'percussion': 'percussion', 'tab': 'TAB', 'jianpu': 'jianpu', 'none': 'none'}
STYLE = {'normal': 'regular', 'dotted': 'dotted', 'dashed': 'dashed', 'heavy': 'heavy', 'lightLight': 'light-light', 'lightHeavy': 'light-heavy', 'heavyLight': 'heavy-light', 'heavyHeavy': 'heavy-heavy', 'none': 'none'}
STEPS = 'cdefgab'
MODEL = '''INIT Init
NEXT Next
CONSTANTS Theme = "%s"
 MaxNotes = %d
 MaxEvents = %d
 EmitAll = %s
INVARIANTS TimeNeverNegative StatedNotesAreWanted NeverStuck AllStated
CHECK_DEADLOCK FALSE
'''


# --- an abstract score: {'tpq', 'parts': [{'staves', 'transpose', 'ms': [{'notes', 'events', 'time', 'number', 'implicit', 'width'}]}], 'layout': {index: {...}}}
# notes: [id, st, v, t, d, ch, kind, what]; events: clef [sign, line, oct], key [fifths, cancel, mode, comps, own], dir, harm [id, named], bar [style, ending, num, loc, rep]
def score_json(s):
    parts = []
    for pi, p in enumerate(s['parts']):
        ms = []
        for m in p['ms']:
            staves = [{} for _ in range(p['staves'])]
            for n in m['notes']:
                vs = staves[n['st'] - 1].setdefault('voices', [])
                v = next((x for x in vs if x['k'] == n['v'] - 1), None)
                if v is None:
                    v = {'k': n['v'] - 1, 'v': {'notes': []}}; vs.append(v)
                q = {'tickTimePosition': n['t'], 'durationData': {'durationTimeTicks': n['d'], 'durationName': 'quarter'}, 'isChord': n['ch'], 'noteType': n['kind'],
                     'positionData': {'isDefaultXSpecified': True, 'defaultX': str(n['id'])}}
                w = n.get('what', 'pitch')
                if w == 'rest': q['isRest'] = True
                elif w == 'mrest': q['isRest'] = True; q['isMeasureRest'] = True
                elif w == 'unp': q['isUnpitched'] = True
                else: q['pitchData'] = {'step': STEPS[n['id'] % 7], 'octave': 1 + n['id'] % 7}
                v['v']['notes'].append(q)
            for st in staves: st.get('voices', []).sort(key=lambda x: x['k'])
            mj = {'staves': staves}
            for e in m['events']:
                k = e['k']
                if k == 'clef': staves[e['st'] - 1].setdefault('clefs', []).append({'tickTimePosition': e['t'], 'symbol': e['sign'], 'line': e['line'], 'octaveChange': e['oct']})
                elif k == 'key':
                    q = {'tickTimePosition': e['t'], 'fifths': e['fifths'], 'cancel': e['cancel'], 'mode': e['mode'], 'nonTraditional': [{'step': c[0], 'alter': c[1]} for c in e['comps']]}
                    if e['own']: staves[e['st'] - 1].setdefault('keys', []).append(q)
                    else: q['staffIndex'] = e['st'] - 1; mj.setdefault('keys', []).append(q)
                elif k == 'dir':
                    d = {'tickTimePosition': e['t'], 'isStaffValueSpecified': e['named'], 'words': [{'text': e['id']}]}
                    if e.get('extra') == 'mark': d['marks'] = [{'markType': 'ff', 'tickTimePosition': e['t']}]
                    staves[e['st'] - 1].setdefault('directions', []).append(d)
                elif k == 'harm': staves[e['st'] - 1].setdefault('directions', []).append({'tickTimePosition': e['t'], 'isStaffValueSpecified': e['named'], 'chords': [{'root': 'c', 'chordKind': 'major', 'text': e['id']}]})
                elif k == 'bar':
                    mj.setdefault('barlines', []).append({'tickTimePosition': TICK_INF if e['t'] >= INF else e['t'], 'barlineType': e['style'], 'location': e['loc'], 'endingType': e['ending'], 'endingNumber': e['num'], 'repeat': e['rep']})
            if m.get('time'):
                b, t, sy = m['time']
                mj['timeSignature'] = {'isImplicit': False, 'beats': b, 'beatType': t, 'symbol': sy}
            if m.get('number'): mj['number'] = m['number']
            if m.get('implicit'): mj['implicit'] = m['implicit']
            if m.get('width'): mj['width'] = m['width']
            ms.append(mj)
        pj = {'uniqueId': f'P{pi + 1}', 'name': f'n{pi + 1}', 'measures': ms}
        if p.get('transpose'): pj['transposition'] = [{'chromatic': p['transpose'][0], 'diatonic': p['transpose'][1]}]
        parts.append(pj)
    r = {'ticksPerQuarter': s['tpq'], 'parts': parts}
    if s.get('layout'):
        r['layout'] = [{'k': int(k), 'v': {q: x for q, x in (('system', {'newSystem': v['sys']} if v.get('sys') else None), ('page', {'newPage': v['page']} if v.get('page') else None)) if x}} for k, v in sorted(s['layout'].items(), key=lambda x: int(x[0]))]
    return r


def bar_sig(e):
    loc = {'center': 'middle'}.get(e['loc'], e['loc'])
    if loc == 'unspecified': loc = 'left' if e['t'] == 0 else 'right'
    rep = ('forward' if e['loc'] == 'left' or e['t'] == 0 else 'backward') if e['rep'] else ''
    return f'{loc} {STYLE.get(e["style"], "")} {e["ending"]} {e["num"] if e["ending"] != "none" else 0} {rep}'


def key_sig(fifths, cancel, mode, comps):
    return 'nt ' + ' '.join(f'{a}{b}' for a, b in comps) if comps else f'{fifths} {cancel} {mode if mode in ("major", "minor") else ""}'


def want(s, pi, mi, printed):
    """the measure as the specification sees it"""
    p = s['parts'][pi]; m = p['ms'][mi]
    ev = []
    head = lambda x: ev.append({'k': 'head', 'id': x, 'st': 0, 't': 0, 'own': False})
    head(f'measure {m.get("number") or mi + 1} {m.get("implicit") or ""} {m.get("width") or ""}')
    if mi == 0:
        head(f'divisions {s["tpq"]}')
        if p['staves'] > 1: head(f'staves {p["staves"]}')
        if p.get('transpose'): head('transpose')
    if m.get('time'): head('time %s/%s %s' % tuple(m['time']))
    l = (s.get('layout') or {}).get(str(mi))
    if l and (l.get('sys') or l.get('page')) and (pi == 0 or printed): head(f'print {l.get("sys") or ""} {l.get("page") or ""}')
    for e in m['events']:
        k = e['k']
        i = {'clef': lambda: f'{SIGN[e["sign"]]} {e["line"]} {e["oct"]}', 'key': lambda: key_sig(e['fifths'], e['cancel'], e['mode'], e['comps']), 'dir': lambda: e['id'], 'harm': lambda: e['id'], 'bar': lambda: bar_sig(e)}[k]()
        ev.append({'k': k, 'id': i, 'st': 0 if k == 'bar' else e['st'], 't': e['t'], 'own': e.get('own', k == 'clef')})
    return {'notes': [{'id': n['id'], 'st': n['st'], 'v': n['v'], 't': n['t'], 'd': n['d'], 'ch': n['ch'], 'kind': n['kind']} for n in m['notes']], 'events': ev}


# --- written text to items
def txt(e, path, d=''):
    x = e.find(path)
    return (x.text or '') if x is not None else d


def items_of(me):
    out = []
    a = me.attrib
    out.append({'k': 'head', 'id': f'measure {a.get("number", "")} {a.get("implicit", "")} {a.get("width", "")}', 'st': 0})
    for x in me:
        t = x.tag
        st = int(txt(x, 'staff', '0') or 0)
        if t == 'note':
            kind = 'grace' if x.find('grace') is not None else 'cue' if x.find('cue') is not None else 'normal'
            out.append({'k': 'note', 'id': int(float(x.get('default-x', '-1'))), 'st': st, 'vo': int(txt(x, 'voice', '1') or 1), 'd': int(float(txt(x, 'duration', '0') or 0)), 'ch': x.find('chord') is not None, 'kind': kind})
        elif t in ('backup', 'forward'): out.append({'k': t, 'd': int(float(txt(x, 'duration', '0') or 0))})
        elif t == 'attributes':
            for y in x:
                if y.tag == 'divisions': out.append({'k': 'head', 'id': f'divisions {y.text}', 'st': 0})
                elif y.tag == 'staves': out.append({'k': 'head', 'id': f'staves {y.text}', 'st': 0})
                elif y.tag == 'transpose': out.append({'k': 'head', 'id': 'transpose', 'st': 0})
                elif y.tag == 'time': out.append({'k': 'head', 'id': f'time {txt(y, "beats")}/{txt(y, "beat-type")} {y.get("symbol", "unspecified")}', 'st': 0})
                elif y.tag == 'clef': out.append({'k': 'clef', 'id': f'{txt(y, "sign")} {txt(y, "line", "-1")} {txt(y, "clef-octave-change", "0")}', 'st': int(y.get('number', '0'))})
                elif y.tag == 'key':
                    comps = list(zip([q.text.lower() for q in y.findall('key-step')], [q.text for q in y.findall('key-alter')]))
                    out.append({'k': 'key', 'id': key_sig(txt(y, 'fifths'), txt(y, 'cancel', '0'), txt(y, 'mode'), comps), 'st': int(y.get('number', '0'))})
        elif t == 'direction':
            off = int(float(txt(x, 'offset', '0') or 0))
            out.append({'k': 'dir', 'id': '|'.join(q.text or '' for q in x.iter('words')), 'st': st, 'off': off})
        elif t == 'harmony':
            k = x.find('kind')
            out.append({'k': 'harm', 'id': k.get('text', '') if k is not None else '', 'st': st, 'off': int(float(txt(x, 'offset', '0') or 0))})
        elif t == 'barline':
            e = x.find('ending'); r = x.find('repeat')
            num = 0 if e is None else e.get('number', '')
            if e is not None and num == '': num = 0
            out.append({'k': 'bar', 'id': f'{x.get("location", "")} {txt(x, "bar-style")} {"none" if e is None else e.get("type")} {num} {"" if r is None else r.get("direction")}', 'st': 0})
        elif t == 'print': out.append({'k': 'head', 'id': f'print {x.get("new-system", "")} {x.get("new-page", "")}', 'st': 0})
        else: out.append({'k': 'unexpected', 'id': t, 'st': 0})
    return out


def script(s):
    return {'op': 'dm', 'script': [{'f': 'createScore', 'score': score_json(s)}, {'f': 'write', 'ref': 0}]}


def make_case(item, r):
    s = item['score']
    try:
        root = ET.fromstring(r['r'][1]['xml'])
        parts = root.findall('part')
        assert len(parts) == len(s['parts'])
        ms = []
        for pi, (p, q) in enumerate(zip(s['parts'], parts)):
            mm = q.findall('measure')
            assert len(mm) == len(p['ms'])
            for mi, me in enumerate(mm):
                it = items_of(me)
                ms.append({'want': want(s, pi, mi, any(i['k'] == 'head' and i['id'].startswith('print') for i in it)), 'nst': p['staves'], 'items': it})
        return {'ok': True, 'ms': ms}
    except Exception as e:
        return {'ok': False, 'ms': [], 'why': str(e)[:200]}


def items(scores):
    return [{'script': script(s), 'score': s} for s in scores]


# --- scores
CLEFS = [('g', 2, 0), ('f', 4, 0), ('c', 3, 0), ('c', 4, 0), ('g', 2, -1), ('f', 3, 0), ('percussion', 3, 0), ('g', 1, 1)]


def fill(e, q):
    """give an abstract event of the model its content"""
    k = e['k']
    if k == 'clef': s, l, o = CLEFS[q % len(CLEFS)]; return dict(e, sign=s, line=l, oct=o)
    if k == 'key': return dict(e, fifths=q % 15 - 7, cancel=0, mode=('major', 'minor', 'unspecified')[q % 3], comps=[])
    if k in ('dir', 'harm'): return dict(e, id=f'w{q}', named=bool(q % 3))
    if k == 'bar': return dict(e, style='lightHeavy', ending='none', num=0, loc='unspecified', rep=bool(q % 2))


def pack(ms, per=30, staves=2, tpq=2):
    out = []
    for o in range(0, len(ms), per):
        part = []
        q = 0
        for m in ms[o:o + per]:
            notes = []
            for n in m['notes']: q += 1; notes.append(dict(n, id=q))
            ev = []
            for e in m['events']: q += 1; ev.append(fill(e, q))
            part.append({'notes': notes, 'events': ev})
        out.append({'tpq': tpq, 'parts': [{'staves': staves, 'ms': part}]})
    return out


def random_measure(rng, staves, ident, unit=1, notes=12, events=6, chords=True, sorted_notes=None):
    ns = []
    for st in range(1, staves + 1):
        for v in rng.sample([1, 2, 3, 4], rng.choice([0, 1, 1, 1, 2, 3])):
            t = 0
            lst = []
            for _ in range(rng.randint(0, notes)):
                k = rng.random()
                d = rng.randint(1, 6) * unit
                if k < .15: t += d                      # a gap
                kind = rng.choice(['normal'] * 7 + ['grace', 'cue'])
                size = rng.choice([1, 1, 1, 2, 3, 4]) if chords else 1
                uneven = kind != 'grace' and rng.random() < .25
                lst.append([{'st': st, 'v': v, 't': t, 'd': d if kind != 'grace' else rng.choice([0, 0, d]), 'ch': size > 1 or rng.random() < .05, 'kind': kind, 'what': 'pitch' if size > 1 else rng.choice(['pitch', 'pitch', 'pitch', 'rest', 'unp', 'mrest'])} for _ in range(size)])
                if uneven:
                    for x in lst[-1][1:]: x['d'] = rng.randint(1, 6) * unit
                if kind != 'grace': t += d if rng.random() < .9 else rng.randint(0, d)      # sometimes overlapping
            if rng.random() < .25: rng.shuffle(lst)
            # two chords of one kind of time at one onset cannot be told apart
            seen = set()
            for g in lst:
                if g[0]['ch']:
                    key = (g[0]['t'], g[0]['kind'] == 'grace')
                    if key in seen:
                        for n in g: n['ch'] = False
                    seen.add(key)
            for g in lst:
                for n in g: ident[0] += 1; ns.append(dict(n, id=ident[0]))
    end = max([n['t'] + n['d'] for n in ns] + [4 * unit])
    pick_t = lambda: rng.choice([0, 0, rng.randint(0, end), rng.choice([n['t'] for n in ns] or [0]), rng.randint(0, end) , end])
    ev = []
    for _ in range(rng.randint(0, events)):
        k = rng.choice(['clef', 'key', 'skey', 'dir', 'dir', 'harm', 'bar'])
        st = rng.randint(1, staves)
        ident[0] += 1
        t = pick_t()
        if k == 'clef': s, l, o = rng.choice(CLEFS); ev.append({'k': 'clef', 'st': st, 't': t, 'own': True, 'sign': s, 'line': l, 'oct': o})
        elif k in ('key', 'skey'):
            own = k == 'skey'
            ev.append({'k': 'key', 'st': st if own else rng.randint(0, staves), 't': t, 'own': own, 'fifths': rng.randint(-7, 7), 'cancel': rng.choice([0, 0, 1, -2]), 'mode': rng.choice(['major', 'minor', 'unspecified']),
                       'comps': [] if rng.random() < .8 else [[rng.choice(STEPS), rng.choice([-1, 1])] for _ in range(rng.randint(1, 3))]})
        elif k in ('dir', 'harm'): ev.append({'k': k, 'st': st, 't': t, 'own': True, 'id': f'w{ident[0]}', 'named': rng.random() < .6, **({'extra': 'mark'} if rng.random() < .2 else {})})
        else:
            t = rng.choice([0, 0, INF, INF, t])
            loc = rng.choice(['left', 'unspecified']) if t == 0 else rng.choice(['right', 'unspecified']) if t == INF else rng.choice(['center', 'unspecified'])
            ending = rng.choice(['none', 'none', 'start', 'stop', 'discontinue'])
            ev.append({'k': 'bar', 'st': 0, 't': t, 'own': False, 'style': rng.choice(list(STYLE)[:8] + ['unspecified']), 'ending': ending, 'num': rng.randint(1, 3) if ending != 'none' else 0, 'loc': loc, 'rep': rng.random() < .4})
    ev.sort(key=lambda e: e['t'])
    m = {'notes': ns, 'events': ev}
    if rng.random() < .3: m['time'] = [rng.randint(1, 12), rng.choice([2, 4, 8, 16]), rng.choice(['unspecified', 'unspecified', 'common', 'cut'])]
    if rng.random() < .2: m['number'] = rng.choice(['0', 'X1', '12', '7a'])
    if rng.random() < .2: m['implicit'] = rng.choice(['yes', 'no'])
    if rng.random() < .2: m['width'] = str(rng.choice([0, 100, 250]))
    return m


def random_score(rng, events=6, **kw):
    tpq = rng.choice([1, 2, 4, 6, 24, 420, 480])
    ident = [0]
    nm = rng.randint(1, 4)
    s = {'tpq': tpq, 'parts': []}
    for _ in range(rng.randint(1, 3)):
        st = rng.choice([1, 1, 2, 2, 3])
        s['parts'].append({'staves': st, 'transpose': rng.choice([None, None, [-2, -1], [3, 2]]), 'ms': [random_measure(rng, st, ident, unit=max(1, tpq // 4), events=events, **kw) for _ in range(nm)]})
    if rng.random() < .5: s['layout'] = {str(rng.randrange(nm + 1)): {'sys': rng.choice([None, 'yes', 'no']), 'page': rng.choice([None, 'yes', 'no'])} for _ in range(rng.randint(1, 3))}
    return s
