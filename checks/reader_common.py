"""Documents for the reading specification (spec/Reader.tla): rendering abstract events to MusicXML and projecting the
score that was read onto the specification's view of a measure."""
import json
from vlib import sha

CLEF_SIGN = {'g': 'G', 'f': 'F', 'c': 'C', 'percussion': 'percussion', 'tab': 'TAB', 'jianpu': 'jianpu'}
BAR = {'normal': 'regular', 'dotted': 'dotted', 'dashed': 'dashed', 'heavy': 'heavy', 'lightLight': 'light-light', 'lightHeavy': 'light-heavy', 'heavyLight': 'heavy-light', 'heavyHeavy': 'heavy-heavy', 'none': 'none'}
STEPS = 'CDEFGAB'
TYPES = {'': '', 'quarter': 'quarter', 'half': 'half', 'whole': 'whole', 'eighth': 'eighth', 'dur16th': '16th', 'breve': 'breve', 'dur256th': '256th'}
OTHERS = ['<sound tempo="90"/>', '<figured-bass><figure><figure-number>6</figure-number></figure></figured-bass>', '<bookmark id="b"/>', '<grouping type="start"/>', '<print staff-spacing="30"/>']
PLACE = {'unspecified': '', 'above': ' placement="above"', 'below': ' placement="below"'}


def num(n, d):
    if n % d == 0: return str(n // d)
    s = f'{n / d:.6f}'.rstrip('0')
    assert float(s) * d == n or abs(float(s) * d - n) < 1e-9
    return s


def render_event(e):
    k = e['k']
    st = f'<staff>{e["st"]}</staff>' if e.get('st') else ''
    if k == 'note':
        g = '<grace/>' if e['kind'] == 'grace' else '<cue/>' if e['kind'] == 'cue' else ''
        c = '<chord/>' if e['ch'] else ''
        w = e.get('what', 'pitch')
        h = {'pitch': f'<pitch><step>{STEPS[e["id"] % 7]}</step><octave>{1 + e["id"] % 8}</octave></pitch>', 'rest': '<rest/>', 'mrest': '<rest measure="yes"/>',
             'unp': '<unpitched><display-step>E</display-step><display-octave>4</display-octave></unpitched>'}[w]
        d = '' if e['kind'] == 'grace' else f'<duration>{num(e["n"], e["d"])}</duration>'
        v = f'<voice>{e["vo"]}</voice>' if e['vo'] != '' else ''
        t = f'<type>{TYPES[e["ty"]]}</type>' if e['ty'] else ''
        return f'<note default-x="{e["id"]}">{g}{c}{h}{d}{v}{t}{st}</note>'
    if k == 'backup': return f'<backup><duration>{num(e["n"], e["d"])}</duration></backup>'
    if k == 'forward': return f'<forward><duration>{num(e["n"], e["d"])}</duration>{st}</forward>'
    off = f'<offset>{e["off"]}</offset>' if e.get('off') else ''
    if k == 'dir': return f'<direction{PLACE[e["pl"]]}><direction-type><words>d{e["id"]}</words></direction-type>{off}{st}</direction>'
    if k == 'harm': return f'<harmony{PLACE[e["pl"]]}><root><root-step>C</root-step></root><kind text="d{e["id"]}">major</kind>{off}{st}</harmony>'
    if k == 'attr':
        x = f'<divisions>{e["div"]}</divisions>' if e['div'] else ''
        for q in e['keys']:
            n = f' number="{q["num"]}"' if q['num'] else ''
            if q['comps']: b = ''.join(f'<key-step>{c[0].upper()}</key-step><key-alter>{c[1]}</key-alter>' for c in q['comps'])
            else:
                b = (f'<cancel>{q["cancel"]}</cancel>' if q['cancel'] else '') + f'<fifths>{q["fifths"]}</fifths>' + (f'<mode>{q["mode"]}</mode>' if q['mode'] else '')
            x += f'<key{n}>{b}</key>'
        for q in e['times']:
            s = {'unspecified': '', 'common': ' symbol="common"', 'cut': ' symbol="cut"'}[q['symbol']]
            x += f'<time{s}><beats>{q["beats"]}</beats><beat-type>{q["beatType"]}</beat-type></time>'
        if e['staves']: x += f'<staves>{e["staves"]}</staves>'
        for q in e['clefs']:
            n = f' number="{q["num"]}"' if q['num'] else ''
            a = f' after-barline="{q["after"]}"' if q['after'] else ''
            x += f'<clef{n}{a}><sign>{CLEF_SIGN[q["sign"]]}</sign>' + (f'<line>{q["line"]}</line>' if q['line'] else '') + (f'<clef-octave-change>{q["oct"]}</clef-octave-change>' if q['oct'] else '') + '</clef>'
        if e['transpose']:
            c, d, o = e['transpose']
            x += f'<transpose><diatonic>{d}</diatonic><chromatic>{c}</chromatic>' + (f'<octave-change>{o}</octave-change>' if o else '') + '</transpose>'
        if e['mrest']: x += f'<measure-style><multiple-rest>{e["mrest"]}</multiple-rest></measure-style>'
        return f'<attributes>{x}</attributes>'
    if k == 'bar':
        loc = '' if e['loc'] == 'unspecified' else f' location="{ {"center": "middle"}.get(e["loc"], e["loc"])}"'
        x = f'<bar-style>{BAR[e["style"]]}</bar-style>' if e['style'] != 'unspecified' else ''
        if e['ending'] != 'none': x += f'<ending number="{e.get("etext", e["enum"])}" type="{e["ending"]}"/>'
        if e['rep']: x += f'<repeat direction="{"forward" if e["loc"] == "left" else "backward"}"/>'
        return f'<barline{loc}>{x}</barline>'
    if k == 'print':
        a = ''
        s, g = e['sys'], e['page']
        x = y = ''
        if s:
            if s[0]: a += f' new-system="{s[0]}"'
            if s[1]: x += f'<system-margins><left-margin>{s[1]}</left-margin><right-margin>{s[2]}</right-margin></system-margins>'
            if s[3]: x += f'<system-distance>{s[3]}</system-distance>'
            if s[4]: x += f'<top-system-distance>{s[4]}</top-system-distance>'
            if x: x = f'<system-layout>{x}</system-layout>'
        if g:
            if g[0]: a += f' new-page="{g[0]}"'
            if g[1]: a += f' page-number="{g[1]}"'
            if g[2]: y = f'<page-layout><page-height>{g[2]}</page-height><page-width>{g[3]}</page-width></page-layout>'
        return f'<print{a}>{y}{x}</print>'
    if k == 'other':
        w = e.get('what', 'sound')
        return {'sound': OTHERS[0], 'fb': OTHERS[1], 'bookmark': OTHERS[2], 'grouping': OTHERS[3], 'print': OTHERS[4]}[w]
    raise ValueError(k)


def render(doc):
    lst = ''.join(f'<score-part id="P{k + 1}"><part-name>n{k + 1}</part-name></score-part>' for k in range(len(doc['parts'])))
    body = ''
    for k, p in enumerate(doc['parts']):
        body += f'<part id="P{k + 1}">'
        for m in p['ms']:
            a = f' number="{m["number"]}"' + (f' implicit="{m["implicit"]}"' if m['implicit'] != 'unspecified' else '') + (f' width="{m["width"]}"' if m['width'] != '-1' else '')
            body += f'<measure{a}>' + ''.join(render_event(e) for e in m['ev']) + '</measure>'
        body += '</part>'
    return f'<?xml version="1.0" encoding="UTF-8"?><score-partwise version="3.0"><part-list>{lst}</part-list>{body}</score-partwise>'


# --- events
def note(id, n, d=1, ch=False, kind='normal', st=0, vo='', ty='', what='pitch'):
    return {'k': 'note', 'id': id, 'n': 0 if kind == 'grace' else n, 'd': d, 'ch': ch, 'kind': kind, 'st': st, 'vo': vo, 'ty': ty, 'what': what}


def attr(**kw):
    r = {'k': 'attr', 'div': 0, 'keys': [], 'times': [], 'clefs': [], 'transpose': [], 'mrest': 0, 'staves': 0}
    r.update(kw)
    return r


def measure(n, ev, number=None, implicit='unspecified', width='-1'):
    return {'number': str(n) if number is None else number, 'implicit': implicit, 'width': width, 'ev': ev}


# --- projection of a score that was read
def v(o, k, d): return o.get(k, d)


def obs_note(n):
    du = n.get('durationData', {})
    return {'id': int(float(n.get('positionData', {}).get('defaultX', '-1'))), 't': n.get('tickTimePosition', 0), 'dur': du.get('durationTimeTicks', 1), 'ch': n.get('isChord', False),
            'kind': n.get('noteType', 'normal'), 'v': n.get('userRequestedVoiceNumber', -1), 'name': du.get('durationName', 'unspecified')}


def obs_dir(d):
    ids = [w.get('text', '') for w in d.get('words', [])] + [w.get('text', '') for w in d.get('chords', [])]
    return {'id': int(ids[0][1:]) if len(ids) == 1 and ids[0][:1] == 'd' and ids[0][1:].isdigit() else -1, 't': d.get('tickTimePosition', 0), 'named': d.get('isStaffValueSpecified', True), 'pl': d.get('placement', 'unspecified')}


def obs_measure(m, D):
    staves = []
    for s in m.get('staves', []):
        staves.append({'voices': [{'key': q['k'], 'notes': [obs_note(n) for n in q['v'].get('notes', [])]} for q in s.get('voices', [])],
                       'dirs': [obs_dir(d) for d in s.get('directions', [])],
                       'clefs': [{'symbol': q.get('symbol', D['clef']['symbol']), 'line': q.get('line', D['clef']['line']), 'octave': q.get('octaveChange', 0), 't': q.get('tickTimePosition', 0), 'loc': q.get('location', 'unspecified')} for q in s.get('clefs', [])],
                       'nkeys': len(s.get('keys', []))})
    t = m.get('timeSignature', {})
    return {'staves': staves,
            'keys': [{'fifths': k.get('fifths', 0), 'cancel': k.get('cancel', 0), 'mode': k.get('mode', 'unspecified'), 'staffIndex': k.get('staffIndex', -1), 't': k.get('tickTimePosition', 0),
                      'comps': [[c.get('step', D['kc']['step']), c.get('alter', 0)] for c in k.get('nonTraditional', [])]} for k in m.get('keys', [])],
            'bars': [{'style': b.get('barlineType', D['bar']['barlineType']), 'loc': b.get('location', D['bar']['location']), 't': b.get('tickTimePosition', D['bar']['tickTimePosition']), 'ending': b.get('endingType', 'none'), 'num': b.get('endingNumber', 0), 'rep': b.get('repeat', False)} for b in m.get('barlines', [])],
            'ts': {'beats': t.get('beats', 4), 'beatType': t.get('beatType', 4), 'symbol': t.get('symbol', 'unspecified'), 'implicit': t.get('isImplicit', True)},
            'number': m.get('number', ''), 'implicit': m.get('implicit', 'unspecified'), 'width': m.get('width', '-1'), 'mrest': max(0, m.get('multiMeasureRest', -1))}


def un(x): return (x[0] if x else None) if isinstance(x, list) else x


def opt(x):
    x = un(x)
    return '' if x is None else x if isinstance(x, str) else str(x)


def obs_layout(lay, n):
    out = []
    by = {q['k']: q['v'] for q in lay}
    for m in range(n):
        L = by.get(m, {})
        s, g = L.get('system', {}), L.get('page', {})
        sl = s.get('layout', {})
        mg = un(sl.get('margins')) or {}
        sys = [{'unspecified': ''}.get(s.get('newSystem', 'unspecified'), s.get('newSystem', '')), opt(mg.get('left')), opt(mg.get('right')), opt(sl.get('systemDistance')), opt(sl.get('topSystemDistance'))]
        pl = g.get('pageLayoutData', {})
        sz = un(pl.get('size')) or {}
        page = [{'unspecified': ''}.get(g.get('newPage', 'unspecified'), g.get('newPage', '')), opt(g.get('pageNumber')), opt(sz.get('height')), opt(sz.get('width'))]
        out.append({'sys': sys if any(sys) else [], 'page': page if any(page) else []})
    return out, sorted(by)[-1] + 1 if by else 0


def obs_transpose(t):
    if not t: return []
    t = t[0] if isinstance(t, list) else t
    return [t.get('chromatic', 0), t.get('diatonic', 0)]


def items(docs):
    return [{'doc': d, 'script': {'op': 'dm', 'script': [{'f': 'createStream', 'xml': render(d)}, {'f': 'get', 'ref': 0}]}} for d in docs]


def strip(e):
    return {k: x for k, x in e.items() if k not in ('what', 'etext')}


def make_case(D):
    def case(item, r):
        doc = item['doc']
        divs = [e['div'] for p in doc['parts'] for m in p['ms'] for e in m['ev'] if e['k'] == 'attr' and e['div']]
        if 'r' not in r or any('err' in q for q in r['r']):
            return {'tpq': -1, 'nparts': -1, 'divs': divs, 'parts': [], 'layout': [], 'problem': str(r)[:300]}
        s = r['r'][1]['score']
        ps = s.get('parts', [])
        parts = []
        for k, p in enumerate(doc['parts']):
            o = ps[k] if k < len(ps) else {}
            oms = o.get('measures', [])
            parts.append({'nms': len(oms), 'transpose': obs_transpose(o.get('transposition')),
                          'ms': [{'number': m['number'], 'implicit': m['implicit'], 'width': m['width'], 'ev': [strip(e) for e in m['ev']],
                                  'obs': obs_measure(oms[q] if q < len(oms) else {}, D)} for q, m in enumerate(p['ms'])]})
        lay, last = obs_layout(s.get('layout', []), len(doc['parts'][0]['ms']))
        return {'tpq': s.get('ticksPerQuarter', 420), 'nparts': len(ps) if last <= len(lay) else -1, 'divs': divs, 'parts': parts, 'layout': lay}
    return case


def defaults(ctx):
    import drv
    d = drv.run(ctx.exe(), [{'op': 'defaults'}])[0]
    return {'clef': d['ClefData'], 'bar': d['BarlineData'], 'kc': {'step': 'c'}}


def number(seqs):
    """give every note and direction of a list of measures (lists of events) an id of its own"""
    n = 0
    out = []
    for evs in seqs:
        r = []
        for e in evs:
            e = dict(e)
            if e['k'] in ('note', 'dir', 'harm'):
                n += 1; e['id'] = n
            r.append(e)
        out.append(r)
    return out


def pack(seqs, div, per=40, staves=2, rng=None):
    """documents of one part whose measures are the given event sequences (independent of each other, apart from the meter)"""
    docs = []
    for o in range(0, len(seqs), per):
        ms = number(seqs[o:o + per])
        first = [attr(div=div, staves=staves)]
        docs.append({'parts': [{'ms': [measure(1, first)] + [measure(k + 2, s) for k, s in enumerate(ms)]}]})
    return docs


MODEL = '''INIT Init
NEXT Next
CONSTANTS Theme = "%s"
 MaxLen = %d
 EmitAll = %s
INVARIANTS TimeNeverNegative ChordsSound ChordsOnly VoicesPartition MusicXmlTiming EveryNoteOnce
CHECK_DEADLOCK FALSE
'''
