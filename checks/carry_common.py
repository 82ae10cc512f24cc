"""Random and enumerated values of the score model for the carrying specifications (what survives writing and reading)."""
import json, os
API = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools/data/api.json')))
ENUM = API['enums']
NUMBERS = ['0', '1', '-1', '12.5', '-3', '40', '0.25', '-120.75', '7']
WORDS = ['a', 'tr', 'one two', 'x-1', 'Fine', 'q.', 'ben', '3', 'Zürich', 'm&m', '<b>', "it's"]


def pick(rng, name, p=1.0, skip=('unspecified',)):
    """some enumerator other than the default, or None"""
    return rng.choice([e for e in ENUM[name] if e not in skip]) if rng.random() < p else None


def put(d, k, v, default=None):
    if v is not None and v != default: d[k] = v
    return d


def num(rng): return rng.choice(NUMBERS)


def flagged(rng, d, flag, field, value, default, p):
    """a value that counts only when its flag says so; sometimes one without its flag"""
    r = rng.random()
    if r < p: d[flag] = True; put(d, field, value, default)
    elif r < p * 1.15: put(d, field, value, default)
    return d


def position(rng, p=.3, align=False):
    d = {}
    if rng.random() > p: return d
    for f, v in (('isDefaultXSpecified', 'defaultX'), ('isDefaultYSpecified', 'defaultY'), ('isRelativeXSpecified', 'relativeX'), ('isRelativeYSpecified', 'relativeY')): flagged(rng, d, f, v, num(rng), '0', .4)
    put(d, 'placement', pick(rng, 'Placement', .5))
    if align:
        put(d, 'horizontalAlignmnet', pick(rng, 'HorizontalAlignment', .4)); put(d, 'verticalAlignment', pick(rng, 'VerticalAlignment', .4))
    return d


def font(rng, p=.4):
    d = {}
    if rng.random() > p: return d
    k = rng.choice(['unspecified', 'point', 'css'])
    put(d, 'sizeType', k, 'unspecified')
    if k == 'point': put(d, 'sizePoint', rng.choice(['12', '8.5', '100']))
    if k == 'css': put(d, 'sizeCss', pick(rng, 'CssSize'))
    put(d, 'style', pick(rng, 'FontStyle', .4)); put(d, 'weight', pick(rng, 'FontWeight', .4))
    if rng.random() < .3: d['fontFamily'] = rng.sample(['Times', 'Arial', 'serif', 'My Font'], rng.randint(1, 3))
    for u in ('underline', 'overline', 'lineThrough'):
        if rng.random() < .2: d[u] = rng.randint(1, 3)
    return d


def color(rng):
    d = {}
    for x in ('red', 'green', 'blue'): put(d, x, rng.choice([0, 255, 255, 1, 16, 171, rng.randint(0, 255)]), 255)
    flagged(rng, d, 'isAlphaSpecified', 'alpha', rng.choice([0, 255, 17, rng.randint(0, 255)]), 255, .4)
    return d


def printing(rng, p=.3, visible=True):
    d = {}
    if rng.random() > p: return d
    if visible: put(d, 'printObject', pick(rng, 'Bool', .4))
    put(d, 'fontData', font(rng, .5) or None)
    flagged(rng, d, 'isColorSpecified', 'color', color(rng) or None, None, .4)
    return d


# --- notes
def pitch(rng, placed):
    d = {}
    if placed: put(d, 'step', rng.choice('cdefgab'), 'c'); put(d, 'octave', rng.randint(0, 9), 4)
    put(d, 'alter', rng.choice([0, 0, 0, 1, -1, 2, -2, 3, -3]), 0)
    if rng.random() < .15:
        # quarter and other fractions of a tone, without a sign that disagrees with the alteration
        a = d.get('alter', 0); c = rng.choice([50, 25, 10])
        put(d, 'cents', str(-c if a < 0 else c if a > 0 else rng.choice([c, -c])))
    if rng.random() < .4:
        d['accidental'] = pick(rng, 'Accidental', skip=('none',))
        for f in ('isAccidentalParenthetical', 'isAccidentalCautionary', 'isAccidentalEditorial', 'isAccidentalBracketed'):
            if rng.random() < .25: d[f] = True
    elif rng.random() < .1: d['isAccidentalCautionary'] = True
    return d


PLAIN = {'maxima': (32, 1), 'longa': (16, 1), 'breve': (8, 1), 'whole': (4, 1), 'half': (2, 1), 'quarter': (1, 1), 'eighth': (1, 2), 'dur16th': (1, 4), 'dur32nd': (1, 8), 'dur64th': (1, 16), 'dur128th': (1, 32), 'dur256th': (1, 64)}


def duration(rng, tpq, modified):
    d = {}
    name = rng.choice(['unspecified', 'quarter', 'eighth'] + ENUM['DurationName'])
    put(d, 'durationName', name, 'unspecified')
    if name in PLAIN and rng.random() < .8: t = max(1, tpq * PLAIN[name][0] // PLAIN[name][1])
    else: t = rng.choice([1, 2, 3, 5, tpq, tpq * 3 // 2 or 1, rng.randint(1, 4 * tpq)])
    put(d, 'durationTimeTicks', t, 1)
    put(d, 'durationDots', rng.choice([0, 0, 0, 1, 2, 3]), 0)
    if modified:
        a, n = rng.choice([(3, 2), (5, 4), (7, 8), (2, 3), (6, 4), (1, 2), (11, 8), (13, 1)])
        put(d, 'timeModificationActualNotes', a, 1); put(d, 'timeModificationNormalNotes', n, 1)
        if rng.random() < .5:
            d['timeModificationNormalType'] = pick(rng, 'DurationName')
            put(d, 'timeModificationNormalTypeDots', rng.choice([0, 0, 1, 2]), 0)
    return d


def note(rng, tpq, t, kind='normal', attach=True, chord=False, ticks=None, modified=None, plain=.35):
    """a note; with probability plain it has nothing special"""
    n = {}
    put(n, 'noteType', kind, 'normal')
    put(n, 'tickTimePosition', t, 0)
    if chord: n['isChord'] = True
    simple = rng.random() < plain
    what = 'pitch' if chord else rng.choice(['pitch', 'pitch', 'pitch', 'pitch', 'rest', 'rest', 'unp', 'mrest', 'both'])
    if kind != 'normal' and what in ('mrest',): what = 'rest'
    if what in ('rest', 'mrest', 'both'): n['isRest'] = True
    if what == 'mrest': n['isMeasureRest'] = True
    if what in ('unp', 'both'): n['isUnpitched'] = True
    if what != 'pitch' and rng.random() < .5: n['isDisplayStepOctaveSpecified'] = True
    put(n, 'pitchData', pitch(rng, True) if not simple else put(put({}, 'step', rng.choice('cdefgab'), 'c'), 'octave', rng.randint(2, 6), 4), {})
    d = duration(rng, tpq, (rng.random() < .2) if modified is None else modified)
    if ticks is not None: d.pop('durationTimeTicks', None); put(d, 'durationTimeTicks', ticks, 1)
    if simple and ticks is None: d = {'durationName': 'quarter', **put({}, 'durationTimeTicks', tpq, 1)}
    put(n, 'durationData', d, {})
    if simple: return n
    if rng.random() < .3: n['isTieStart'] = True
    if rng.random() < .3: n['isTieStop'] = True
    put(n, 'notehead', pick(rng, 'Notehead', .25, ('normal',)))
    put(n, 'stem', pick(rng, 'Stem', .3))
    if rng.random() < .25: n['beams'] = [pick(rng, 'Beam') for _ in range(rng.randint(1, 8))]
    put(n, 'positionData', position(rng), {})
    put(n, 'printData', printing(rng), {})
    if rng.random() < .12: n['miscData'] = [rng.choice(['a', 'b1', 'some thing', 'k=v']) for _ in range(rng.randint(1, 3))]
    if attach: put(n, 'noteAttachmentData', attachments(rng), {})
    return n


MARKS = [m for m in ENUM['MarkType'] if not m.startswith('unknown') and m not in ('unspecified', 'unknownFermata', 'accidentalUnknown', 'pedal', 'damp', 'customErrorUnknown')]
OTHERS = ('otherArticulation', 'otherOrnament', 'otherTechnical', 'otherDynamics')


def mark(rng, kind=None):
    k = kind or rng.choice(MARKS)
    m = {'markType': k}
    if k in OTHERS: m['name'] = rng.choice(['a', 'own kind', 'x'])
    put(m, 'positionData', position(rng, .4, align=True), {})
    return m


def points(rng):
    d = {}
    if rng.random() < .5: return d
    put(d, 'positionData', position(rng, .7), {})
    for f, v, x, z in (('isBezierXSpecified', 'bezierX', num(rng), '0'), ('isBezierYSpecified', 'bezierY', num(rng), '0'), ('isBezierOffsetSpecified', 'bezierOffset', rng.choice([0, 1, -2, 30]), 0)): flagged(rng, d, f, v, x, z, .4)
    return d


def line(rng, hooks=False, p=.5):
    d = {}
    if rng.random() > p: return d
    put(d, 'lineType', pick(rng, 'LineType', .6))
    for f, v in (('isDashLengthSpecified', 'dashLength'), ('isSpaceLengthSpecified', 'spaceLength')): flagged(rng, d, f, v, num(rng), '0', .3)
    if hooks:
        put(d, 'lineHook', pick(rng, 'LineHook', .6))
        flagged(rng, d, 'isStopLengthSpecified', 'endLength', num(rng), '0', .4)
    return d


def curve(rng, what):
    c = {'curveType': rng.choice(['slur', 'slur', 'tie'])}
    if c['curveType'] == 'slur' or rng.random() < .3: c['numberLevel'] = rng.randint(1, 6)
    put(c, 'curvePoints', points(rng), {})
    if what == 'start':
        put(c, 'curveOrientation', pick(rng, 'CurveOrientation', .4))
        put(c, 'lineData', line(rng), {})
        flagged(rng, c, 'isColorSpecified', 'colorData', color(rng) or None, None, .3)
    if what == 'continue':
        for f, v, x, z in (('isBezierX2Specified', 'bezierX2', num(rng), '0'), ('isBezierY2Specified', 'bezierY2', num(rng), '0'), ('isBezierOffset2Specified', 'bezierOffset2', rng.choice(['0', '3', '-9']), '0')): flagged(rng, c, f, v, x, z, .3)
    return c


def tuplet(rng, start):
    u = {'numberLevel': rng.randint(1, 6)}
    put(u, 'positionData', position(rng, .3), {})
    if start:
        for a, b, c in (('actualNumber', 'actualDurationName', 'actualDots'), ('normalNumber', 'normalDurationName', 'normalDots')):
            if rng.random() < .6:
                u[a] = rng.randint(1, 9)
                put(u, b, pick(rng, 'DurationName', .6))
                if rng.random() < .3 and b in u: u[c] = rng.randint(0, 2)
        for f in ('showActualNumber', 'showNormalNumber', 'bracket'): put(u, f, pick(rng, 'Bool', .3))
    return u


def attachments(rng, p=.5):
    a = {}
    if rng.random() > p: return a
    if rng.random() < .6: a['marks'] = [mark(rng) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    for f, w in (('curveStarts', 'start'), ('curveContinuations', 'continue'), ('curveStops', 'stop')):
        if rng.random() < .25: a[f] = [curve(rng, w) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .2: a['tupletStarts'] = [tuplet(rng, True) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < .2: a['tupletStops'] = [tuplet(rng, False) for _ in range(rng.choice([1, 1, 2]))]
    return a


def voice(rng, tpq, size, attach=True, plain=.35):
    """the notes of a voice in time order: single notes, chords and grace notes next to each other"""
    t = 0
    out = []
    last_chord = None
    # a voice of grace notes alone takes no time, so that no backup parts it from the next one
    while len(out) < size or t == 0:
        kind = rng.choice(['normal'] * 6 + ['grace', 'cue'])
        if rng.random() < .25 and last_chord != (t, kind == 'grace'):
            first = note(rng, tpq, t, kind, attach, True, plain=plain)
            ticks = first.get('durationData', {}).get('durationTimeTicks', 1)
            out.append(first)
            for _ in range(rng.randint(1, 3)): out.append(note(rng, tpq, t, kind, attach, True, ticks, plain=plain))
            last_chord = (t, kind == 'grace')
        else: out.append(note(rng, tpq, t, kind, attach, plain=plain)); ticks = out[-1].get('durationData', {}).get('durationTimeTicks', 1)
        for n in out:
            for m in n.get('noteAttachmentData', {}).get('marks', []): put(m, 'tickTimePosition', n.get('tickTimePosition', 0), 0)
        if kind != 'grace': t += ticks
    return out


def score_of(measures, tpq, staves=1):
    """measures: [[voices of staff 1: [notes], ...], ...]"""
    ms = [{'staves': [{'voices': [{'k': k, 'v': {'notes': v}} for k, v in enumerate(st)]} if st else {} for st in m]} for m in measures]
    return {'ticksPerQuarter': tpq, 'parts': [{'uniqueId': 'P1', 'name': 'N', 'measures': ms}]}


def script(score):
    return {'op': 'dm', 'script': [{'f': 'createScore', 'score': score}, {'f': 'reparse', 'ref': 0}, {'f': 'get', 'ref': 1}, {'f': 'write', 'ref': 0}]}


def read_back(r):
    """the score that was read, or None"""
    try:
        if any('err' in x for x in r['r']): return None
        return r['r'][2]['score']
    except (KeyError, IndexError, TypeError): return None


def item(score): return {'script': script(score), 'score': score}


def voices_of(m, st):
    return {x['k']: x.get('v', {}).get('notes', []) for x in (m.get('staves', [])[st] if st < len(m.get('staves', [])) else {}).get('voices', [])}


def has_tuplets(notes):
    return any(n.get('noteAttachmentData', {}).get(f) for n in notes for f in ('tupletStarts', 'tupletStops'))


def note_case(it, r):
    s = it['score']; b = read_back(r)
    vs = []
    ok = b is not None
    for mi, m in enumerate(s['parts'][0]['measures']):
        bm = {}
        try: bm = b['parts'][0]['measures'][mi]
        except (KeyError, IndexError, TypeError): ok = False
        for st in range(len(m['staves'])):
            want, got = voices_of(m, st), voices_of(bm, st)
            for k in sorted(set(want) | set(got)):
                if want.get(k) or got.get(k): vs.append({'number': k + 1, 'want': want.get(k, []), 'got': got.get(k, []), 'tuplets': has_tuplets(want.get(k, []))})
    return {'ok': ok, 'tpq': s.get('ticksPerQuarter', 420), 'voices': vs}


def random_note_score(rng, measures=3, size=12, attach=True, plain=.35):
    tpq = rng.choice([1, 2, 4, 24, 48, 420, 480])
    return score_of([[[voice(rng, tpq, rng.randint(1, size), attach, plain) for _ in range(rng.choice([1, 1, 2]))] for _ in range(1)] for _ in range(measures)], tpq)


NOTE_MODEL = '''INIT Init
NEXT Next
CONSTANTS Theme = "%s"
 MaxLen = %d
 EmitAll = %s
INVARIANTS Possible Settled NotInvented AttachmentsSettled FamiliesApart
CHECK_DEADLOCK FALSE
'''


def emitted_voices(ctx, themes):
    vs = []
    for theme, size in themes:
        v = ctx.emitted(ctx.tlc('MCNote', NOTE_MODEL % (theme, size, 'TRUE')))
        ctx.cov.setdefault('enumerated_voices', {})[f'{theme} {size}'] = len(v)
        vs += [[x or {} for x in y] for y in v]
    return vs


def packed(voices, n=50):
    """one voice in each measure; the marks say when they are"""
    for v in voices:
        for x in v:
            for m in x.get('noteAttachmentData', {}).get('marks', []): put(m, 'tickTimePosition', x.get('tickTimePosition', 0), 0)
    return [score_of([[[v]] for v in voices[o:o + n]], 4) for o in range(0, len(voices), n)]


def every_value(rng, attach):
    """every enumerator once, on an otherwise plain note"""
    ns = []
    q = lambda **kw: ns.append({**kw})
    if not attach:
        for e in ENUM['DurationName']:
            q(durationData={'durationName': e, 'durationTimeTicks': 4}); q(durationData={'durationTimeTicks': 3, 'timeModificationActualNotes': 3, 'timeModificationNormalNotes': 2, 'timeModificationNormalType': e})
        for e in ENUM['Accidental']: q(pitchData={'accidental': e})
        for e in ENUM['Notehead']: q(notehead=e)
        for e in ENUM['Stem']: q(stem=e)
        for e in ENUM['Beam']:
            if e != 'unspecified': q(beams=[e])
        for e in ENUM['Step']:
            if e != 'unspecified':
                for o in range(10):
                    for a in (-3, -1, 0, 2): q(pitchData={'step': e, 'octave': o, 'alter': a}); q(pitchData={'step': e, 'octave': o, 'alter': a}, isUnpitched=True, isDisplayStepOctaveSpecified=True)
        for e in ENUM['CssSize']:
            if e != 'unspecified': q(printData={'fontData': {'sizeType': 'css', 'sizeCss': e}})
        for e in ENUM['FontStyle'][1:]: q(printData={'fontData': {'style': e}})
        for e in ENUM['FontWeight'][1:]: q(printData={'fontData': {'weight': e}})
        for e in ENUM['Placement']: q(positionData={'placement': e})
        for e in ENUM['Bool']: q(printData={'printObject': e})
        for c in range(256): q(printData={'isColorSpecified': True, 'color': {'red': c, 'green': 255 - c, 'blue': (7 * c) % 256, 'isAlphaSpecified': c % 3 == 0, 'alpha': c if c % 3 == 0 else 255}})
        for t in range(1, 200): q(durationData={'durationTimeTicks': t * 37, 'timeModificationActualNotes': 1 + t % 31, 'timeModificationNormalNotes': 1 + t % 17})
    else:
        A = lambda **kw: q(noteAttachmentData={**kw})
        for m in MARKS:
            k = {'markType': m, **({'name': 'own'} if m in OTHERS else {})}
            A(marks=[k]); A(marks=[k, k]); A(marks=[{**k, 'positionData': {'placement': 'above', 'isDefaultYSpecified': True, 'defaultY': '1'}}])
        for e in ENUM['CurveOrientation']: A(curveStarts=[{'curveType': 'slur', 'numberLevel': 3, 'curveOrientation': e}]); A(curveStarts=[{'curveType': 'tie', 'curveOrientation': e}])
        for e in ENUM['LineType']: A(curveStarts=[{'curveType': 'slur', 'numberLevel': 3, 'lineData': {'lineType': e}}])
        for n in range(1, 7):
            for f in ('curveStarts', 'curveContinuations', 'curveStops'): A(**{f: [{'curveType': 'slur', 'numberLevel': n}]})
        for e in ENUM['DurationName']:
            if e != 'unspecified': A(tupletStarts=[{'numberLevel': 1, 'actualNumber': 3, 'actualDurationName': e, 'normalNumber': 2, 'normalDurationName': e}])
        for n in range(1, 30): A(tupletStarts=[{'numberLevel': 1 + n % 6, 'actualNumber': n, 'normalNumber': 31 - n}])
    def clean(n):
        for f in ('durationData', 'pitchData', 'positionData', 'printData'):
            if f in n: n[f] = {k: v for k, v in n[f].items() if not (v == DEFAULTS.get(k) or v == 'unspecified' or (k == 'accidental' and v == 'none') or (k == 'alter' and v == 0) or v is False)}
            if n.get(f) == {}: del n[f]
        if n.get('printData', {}).get('color'):
            n['printData']['color'] = {k: v for k, v in n['printData']['color'].items() if v != 255 and v is not False}
            if not n['printData']['color']: del n['printData']['color']
        for f, d in (('notehead', 'normal'), ('stem', 'unspecified')):
            if n.get(f) == d: del n[f]
        for c in n.get('noteAttachmentData', {}).get('curveStarts', []):
            for f in ('curveOrientation',):
                if c.get(f) == 'unspecified': del c[f]
            if c.get('lineData', {}).get('lineType') == 'unspecified': del c['lineData']
        return n
    return [clean(n) for n in ns]


DEFAULTS = {'durationTimeTicks': 1, 'timeModificationActualNotes': 1, 'timeModificationNormalNotes': 1, 'octave': 4, 'step': 'c'}


def run_notes(ctx, attach, themes, quick, thorough):
    aspect = 'att' if attach else 'note'
    scores = packed(emitted_voices(ctx, themes)) + packed([[n] for n in every_value(ctx.rng, attach)])
    for _ in range(ctx.pick(quick, thorough)): scores.append(random_note_score(ctx.rng, attach=attach, size=ctx.rng.choice([3, 12, 25])))
    ctx.conform('TNote', [item(s) for s in scores], note_case, env={'ASPECT': aspect}, chunk=300)


# --- directions
DYNAMICS = ['p', 'pp', 'ppp', 'pppp', 'ppppp', 'pppppp', 'f', 'ff', 'fff', 'ffff', 'fffff', 'ffffff', 'mp', 'mf', 'sf', 'sfp', 'sfpp', 'fp', 'rf', 'rfz', 'sfz', 'sffz', 'fz', 'otherDynamics']
SOMEWHERE = {'p': .5, 'align': True}


def direction_mark(rng, kind=None):
    k = kind or rng.choice(['pedal', 'damp'] + DYNAMICS)
    m = {'markType': k}
    if k == 'otherDynamics': m['name'] = rng.choice(['a', 'own kind', 'x', 'mfff'])
    put(m, 'positionData', position(rng, **SOMEWHERE), {})
    put(m, 'printData', printing(rng, .4, False), {})
    return m


def wedge_start(rng):
    w = {'wedgeType': rng.choice(['crescendo', 'diminuendo'])}
    if rng.random() < .6: w['numberLevel'] = rng.randint(1, 6)
    flagged(rng, w, 'isSpreadSpecified', 'spread', num(rng), '0', .4)
    put(w, 'positionData', position(rng, **SOMEWHERE), {}); put(w, 'lineData', line(rng, True), {})
    return w


def wedge_stop(rng):
    w = wedge_start(rng); del w['wedgeType']; w.pop('lineData', None)
    return w


def spanner_stop(rng):
    s = {}
    if rng.random() < .6: s['numberLevel'] = rng.randint(1, 6)
    return put(s, 'positionData', position(rng, **SOMEWHERE), {})


def spanner_start(rng, bracket):
    s = spanner_stop(rng)
    put(s, 'printData', printing(rng, .4, False), {}); put(s, 'lineData', line(rng, True, .6), {})
    if bracket: s.setdefault('lineData', {})['lineHook'] = pick(rng, 'LineHook')
    return s


def ottava_start(rng): return put({'ottavaType': pick(rng, 'OttavaType')}, 'spannerStart', spanner_start(rng, False), {})


def tempo(rng):
    t = {'tempoType': 'beatsPerMinute', 'beatsPerMinute': put({'durationName': pick(rng, 'DurationName'), 'beatsPerMinute': rng.choice([1, 60, 120, 999])}, 'dots', rng.choice([-1, 0, 1, 2]), -1)}
    put(t, 'isParenthetical', pick(rng, 'Bool', .4))
    put(t, 'positionData', position(rng, **SOMEWHERE), {}); put(t, 'printData', printing(rng, .4, False), {})
    return t


def colored(rng, d, p=.3): return flagged(rng, d, 'isColorSpecified', 'colorData', color(rng) or None, None, p)


def wording(rng):
    w = {'text': rng.choice(WORDS)}
    put(w, 'positionData', position(rng, **SOMEWHERE), {}); put(w, 'fontData', font(rng), {})
    return colored(rng, w)


def sign(rng): return colored(rng, put({}, 'positionData', position(rng, **SOMEWHERE), {}))


def extension(rng):
    x = {}
    put(x, 'extensionType', pick(rng, 'ExtensionType', skip=()), 'add'); put(x, 'extensionAlter', pick(rng, 'ExtensionAlter', skip=()), 'none')
    put(x, 'extensionNumber', pick(rng, 'ExtensionNumber', skip=()), 'first'); put(x, 'printObject', pick(rng, 'Bool', .3))
    return x


def chord(rng):
    c = put({'chordKind': pick(rng, 'ChordKind')}, 'root', rng.choice('cdefgab'), 'c')
    put(c, 'rootAlter', rng.choice([0, 0, 1, -1, 2, -2]), 0)
    put(c, 'text', rng.choice(['', '', 'm7', 'add', '(b5)', 'x y']), ''); put(c, 'useSymbols', pick(rng, 'Bool', .3))
    if rng.random() < .4: c['bass'] = rng.choice('cdefgab'); put(c, 'bassAlter', rng.choice([0, 1, -1]), 0)
    elif rng.random() < .1: c['bassAlter'] = 1
    if rng.random() < .4: c['extensions'] = [extension(rng) for _ in range(rng.randint(1, 3))]
    if rng.random() < .15: c['miscData'] = [{'name': rng.choice(['a', 'mx']), 'data': rng.choice(['b', 'k=v w'])} for _ in range(rng.randint(1, 2))]
    return put(c, 'positionData', position(rng, **SOMEWHERE), {})


HOLDS = {'marks': direction_mark, 'wedgeStarts': wedge_start, 'wedgeStops': wedge_stop, 'ottavaStarts': ottava_start, 'ottavaStops': spanner_stop, 'bracketStarts': lambda r: spanner_start(r, True),
         'bracketStops': spanner_stop, 'tempos': tempo, 'words': wording, 'segnos': sign, 'codas': sign, 'rehearsals': wording, 'chords': chord}


def direction(rng, t, kinds=None):
    d = put({}, 'tickTimePosition', t, 0)
    put(d, 'placement', pick(rng, 'Placement', .4))
    if rng.random() < .4: d['isStaffValueSpecified'] = False
    for k in kinds if kinds is not None else rng.sample(sorted(HOLDS), rng.choice([0, 1, 1, 1, 2, 2, 3, 5])): d[k] = [HOLDS[k](rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    return timed(d)


def timed(d):
    """the things a direction holds are at the time of the direction"""
    t = d.get('tickTimePosition', 0)
    def at(x, f): x.pop(f, None); put(x, f, t, 0)
    for m in d.get('marks', []): at(m, 'tickTimePosition')
    for m in d.get('tempos', []): at(m, 'tickTime')
    for f in ('ottavaStops', 'bracketStarts', 'bracketStops'):
        for s in d.get(f, []): at(s, 'tickTimePosition')
    for o in d.get('ottavaStarts', []):
        at(o.setdefault('spannerStart', {}), 'tickTimePosition')
        if not o['spannerStart']: del o['spannerStart']
    return d


def plain_voice(rng, length):
    t, out = 0, []
    while t < length:
        d = min(rng.randint(1, 4), length - t)
        n = put({'durationData': put({'durationName': 'quarter'}, 'durationTimeTicks', d, 1)}, 'tickTimePosition', t, 0)
        if rng.random() < .15: out.append({**put({'noteType': 'grace', 'durationData': {'durationName': 'eighth'}}, 'tickTimePosition', t, 0)})
        if rng.random() < .2: out += [{**n, 'isChord': True}, {**n, 'isChord': True, 'pitchData': {'step': 'e'}}]
        else: out.append(n)
        t += d
    return out


def direction_score(rng, measures=4, most=5):
    length, staves = rng.choice([1, 4, 8, 12]), rng.choice([1, 1, 2, 3])
    ms = []
    for _ in range(measures):
        sts = []
        for _ in range(staves):
            # notes everywhere, nowhere or only so far
            vs = [plain_voice(rng, rng.choice([length, length, rng.randint(1, length)])) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            ts = sorted(rng.randint(0, length) for _ in range(rng.randint(0, most)))
            sts.append({**({'voices': [{'k': k, 'v': {'notes': v}} for k, v in enumerate(vs)]} if vs else {}), **({'directions': [direction(rng, t) for t in ts]} if ts else {})})
        ms.append({'staves': sts})
    return {'ticksPerQuarter': rng.choice([1, 4, 24]), 'parts': [{'uniqueId': 'P1', 'name': 'N', 'measures': ms}]}


def direction_case(it, r):
    s = it['score']; b = read_back(r)
    ok, out = b is not None, []
    for mi, m in enumerate(s['parts'][0]['measures']):
        for st, x in enumerate(m['staves']):
            try: got = b['parts'][0]['measures'][mi]['staves'][st].get('directions', [])
            except (KeyError, IndexError, TypeError): got = []; ok = False
            if x.get('directions') or got: out.append({'staff': st + 1, 'want': x.get('directions', []), 'got': got})
    return {'ok': ok, 'staves': out}
