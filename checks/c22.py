"""Value types: histories of sets, parses, copies and calendar arithmetic on the real value types, validated by TLC step by
step against spec/Values.tla."""
import json, re
import drv, vlib

MODEL = '''INIT Init
NEXT Next
CONSTANTS Types = {%s}
 Long = %d
 EmitAll = %s
INVARIANTS StaysLegal PrintsWhatItParses Shortest
PROPERTY Refused
CHECK_DEADLOCK FALSE
'''
CAL = '''INIT Init
NEXT Next
CONSTANT Years = %s
INVARIANTS IsOne Inverse NextDay WeekGoesOn Known TwelveMonthsAreAYear ThereAndBack Text1
CHECK_DEADLOCK FALSE
'''
INTS = 'AccordionMiddleValue BeamLevel Byte FifthsValue Midi128 Midi16 Midi16384 NonNegativeInteger NumberLevel NumberOfLines OctaveValue PositiveInteger StaffLine StaffNumber StringNumber TremoloMarks Integer'.split()
DECS = 'DivisionsValue MillimetersValue NonNegativeDecimal Percent PositiveDecimal PositiveDivisions PositiveDivisionsValue RotationDegrees Semitones TenthsValue TrillBeats Decimal'.split()
CHOICES = 'YesNoNumber FontSize NumberOrNormal PositiveIntegerOrEmpty'.split()
OTHERS = 'DistanceType DynamicsValue LineWidthType ModeValue'.split()
REST = 'Date Color PositiveIntegers XsID XsToken'.split()
ENUMS = {'DistanceTypeEnum': ['beam', 'hyphen', 'other'],
         'DynamicsEnum': 'p pp ppp pppp ppppp pppppp f ff fff ffff fffff ffffff mp mf sf sfp sfpp fp rf rfz sfz sffz fz other-dynamics'.split(),
         'LineWidthTypeEnum': ['beam', 'bracket', 'dashes', 'enclosure', 'ending', 'extend', 'heavy barline', 'leger', 'light barline', 'octave shift', 'pedal', 'slur middle', 'slur tip', 'staff', 'stem', 'tie middle', 'tie tip', 'tuplet bracket', 'wedge', 'other'],
         'ModeEnum': 'major minor dorian phrygian lydian mixolydian aeolian ionian locrian none other'.split()}


def tables():
    """the names of every enumeration: those of the MusicXML schema"""
    simple = json.load(open(vlib.VERIF + '/tools/data/schema.json'))['simple']
    pascal = lambda n: ''.join(x.capitalize() for x in n.split('-')).lower()
    by = {pascal(k): v['enum'] for k, v in simple.items() if v.get('enum')}
    names = dict(ENUMS)
    listed = re.search(r'MX_VALUE_ENUMS\( X \) (.*)', open(vlib.VERIF + '/harness/op_value_list.h').read()).group(1)
    for t in re.findall(r'X\( (\w+) \)', listed):
        if t in names: continue
        names[t] = next(by[k] for k in (t.lower(), re.sub('(enum|value)$', '', t.lower()), t.lower() + 'value') if k in by)
    names['XlinkActuate'] = by['xlinkactuate']; names['XlinkShow'] = by['xlinkshow']
    names['PlaybackSound'] = json.load(open(vlib.VERIF + '/tools/data/sounds.json'))['sounds']
    return {'names': names, 'idChars': list('-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz')}


def to_case(item, res): return {'type': item['script']['type'], 'steps': item['script']['steps'], 'seen': res['seen']}


def item(t, steps, **kw): return {'script': {'op': 'value', 'type': t, 'steps': steps}, **kw}


def mangled(rng, name, names):
    """texts near a name that are not names"""
    out = [name.upper(), name.capitalize(), ' ' + name, name + ' ', name + 'x', name[:-1], 'x' + name, name.replace('-', '_'), name.replace('-', ' '), name.replace(' ', '-'), name + '-', name * 2, name[1:], name.replace('-', ''), name[::-1], '']
    return [x for x in out if x not in names]


def number(rng):
    """the text of a decimal that lies clearly on one side of any tie"""
    i = rng.choice(['0', str(rng.randint(0, 9)), str(rng.randint(0, 200)), str(rng.randint(0, 10 ** rng.randint(1, 10)))])
    n = rng.choice([0, 0, 1, 2, 3, 5, 6, 6, 7, 8])
    f = ''.join(rng.choice('0123456789') for _ in range(n))
    if rng.random() < .2: f = rng.choice(['000000', '999999', '99999', '000001', '00001', '9999996', '9999994', '0000003', '0000007'])
    if len(f) > 6: f = f[:6] + rng.choice('1234678') + f[7:]
    return rng.choice(['', '', '-']) + i + ('.' + f if f else rng.choice(['', '', '.0']))


def history(rng, t, n):
    s = []
    num = lambda lo, hi: str(rng.randint(lo, hi))
    for _ in range(n):
        k = rng.random()
        if k < .08: s.append({'do': rng.choice(['copy', 'swap', 'assign'])}); continue
        if t in INTS:
            x = rng.choice([num(-3, 20), num(-300, 300), num(0, 20000), num(-2147483648, 2147483647)])
            s.append(rng.choice([{'do': 'set', 'to': x}, {'do': 'make', 'to': x}, {'do': 'parse', 'text': rng.choice(['', ' ', '\n']) + x + rng.choice(['', '', ' ', 'x', '.', ' 1', '\t'])},
                                 {'do': 'parse', 'text': num(-9, 9) + num(10 ** 9, 10 ** 10)}]))
        elif t in DECS:
            x = number(rng)
            s.append(rng.choice([{'do': 'set', 'to': x}, {'do': 'make', 'to': x}, {'do': 'parse', 'text': rng.choice(['', ' ']) + x + rng.choice(['', '', ' ', 'x', ',', ' 1'])},
                                 {'do': 'set', 'to': rng.choice(['', '-']) + num(2, 9) + '0' * rng.randint(19, 40)}]))
        elif t == 'Date':
            s.append(rng.choice([{'do': 'setYear', 'to': num(-5, 10005)}, {'do': 'setYear', 'to': num(1895, 2005)}, {'do': 'setMonth', 'to': num(-1, 14)}, {'do': 'setDay', 'to': num(-1, 33)},
                                 {'do': 'addDays', 'to': num(-40, 40)}, {'do': 'addDays', 'to': num(-1000, 1000)}, {'do': 'addMonths', 'to': num(-30, 30)}, {'do': 'addMonths', 'to': num(-3000, 3000)},
                                 {'do': 'addYears', 'to': num(-5, 5)}, {'do': 'addYears', 'to': num(-300, 300)}, {'do': rng.choice(['next', 'prev', 'preNext', 'prePrev'])},
                                 {'do': 'parse', 'text': f'{rng.randint(0, 3000):04d}-{rng.randint(0, 13):02d}-{rng.randint(0, 32):02d}'}, {'do': 'makeText', 'text': f'{rng.randint(1900, 2100):04d}-{rng.randint(1, 12):02d}-{rng.randint(28, 31):02d}'},
                                 {'do': 'setAll', 'y': num(1, 2100), 'm': num(1, 12), 'd': num(27, 32)}, {'do': 'make', 'y': num(-1, 10001), 'm': num(0, 13), 'd': num(0, 32)},
                                 {'do': 'setAll', 'y': rng.choice(['1', '2', '9998', '9999']), 'm': rng.choice(['1', '2', '11', '12']), 'd': num(1, 31)},
                                 {'do': 'compare', 'y': num(1, 9999), 'm': num(1, 12), 'd': num(1, 28)}, {'do': 'compare', 'y': '1900', 'm': num(1, 2), 'd': num(1, 2)}]))
        elif t == 'Color':
            h = lambda n: ''.join(rng.choice('0123456789ABCDEF') for _ in range(n))
            s.append(rng.choice([{'do': 'parse', 'text': '#' + h(rng.choice([6, 8]))}, {'do': 'makeText', 'text': '#' + h(rng.choice([6, 8]))}, {'do': 'parse', 'text': rng.choice(['#' + h(7), h(7), '#' + h(5) + 'G', '#' + h(5) + 'g', '', '#' + h(4)])},
                                 {'do': 'setAlpha', 'to': num(-9, 265)}, {'do': 'setRed', 'to': num(-9, 265)}, {'do': 'setGreen', 'to': num(-9, 265)}, {'do': 'setBlue', 'to': num(-9, 265)}, {'do': 'opaque'}, {'do': 'withAlpha'},
                                 {'do': 'make3', 'r': num(-9, 265), 'g': num(-9, 265), 'b': num(-9, 265)}, {'do': 'make4', 'a': num(-9, 265), 'r': num(-9, 265), 'g': num(-9, 265), 'b': num(-9, 265)}]))
        elif t in CHOICES:
            names = {'YesNoNumber': ['yes', 'no'], 'FontSize': ['xx-small', 'x-small', 'small', 'medium', 'large', 'x-large', 'xx-large'], 'NumberOrNormal': ['normal'], 'PositiveIntegerOrEmpty': ['']}[t]
            n = num(-5, 500) if t == 'PositiveIntegerOrEmpty' else number(rng)
            s.append(rng.choice([{'do': 'parse', 'text': n}, {'do': 'parse', 'text': rng.choice(names)}, {'do': 'makeText', 'text': rng.choice(names + [n])}, {'do': 'setName', 'to': rng.choice(names)}, {'do': 'setNumber', 'to': n},
                                 {'do': 'parse', 'text': rng.choice(['x', 'Yes', 'NORMAL', 'Small', '1,5', ' yes'])}]))
        elif t == 'PositiveIntegers':
            l = [num(1, 30) for _ in range(rng.randint(0, 5))]
            s.append(rng.choice([{'do': 'parse', 'text': rng.choice([',', ', ']).join(l)}, {'do': 'makeText', 'text': ','.join(l)}, {'do': 'setAll', 'to': l + [num(-3, 0)]}, {'do': 'makeAll', 'to': l}, {'do': 'spaced'}, {'do': 'tight'}]))
        elif t in OTHERS:
            known = ENUMS[{'DistanceType': 'DistanceTypeEnum', 'DynamicsValue': 'DynamicsEnum', 'LineWidthType': 'LineWidthTypeEnum', 'ModeValue': 'ModeEnum'}[t]]
            x = rng.choice(known + ['a', 'Major', 'other', 'Beam', 'pelog', 'a & b', '<', '"x"', 'tie  tip'])
            y = rng.choice([w for w in known if w not in ('other', 'other-dynamics')])
            s.append(rng.choice([{'do': 'set', 'to': x}, {'do': 'parse', 'text': x}, {'do': 'makeText', 'text': x}, {'do': 'setName', 'to': y}, {'do': 'makeName', 'to': y}]))
        else:
            x = ''.join(rng.choice('abcXYZ019.-_ \t' if t == 'XsToken' else 'abcXYZ019.-_ ,#&\t') for _ in range(rng.randint(0, 8)))
            s.append(rng.choice([{'do': 'set', 'to': x}, {'do': 'makeText', 'text': x}]))
    return s


def run(ctx):
    rng = ctx.rng
    names = tables()
    path = f'{ctx.tmp}/names.json'
    json.dump(names, open(path, 'w'))
    env = {'NAMES': path}
    cal = '{1, 2, 3, 4, 99, 100, 399, 400, 1582, 1899, 1900, 1999, 2000, 2003, 2004, 9996, 9998, 9999}' if not ctx.thorough else '1..9999'
    ctx.tlc('MCCalendar', CAL % cal, heap='12g', timeout=850)
    every = INTS + DECS + CHOICES + OTHERS + REST
    quoted = lambda l: ', '.join(f'"{x}"' for x in l)
    # every history of two steps (three, thorough, is for the model alone)
    if ctx.thorough: ctx.tlc('MCValues', MODEL % (quoted(every), 3, 'FALSE'), heap='12g', timeout=850)
    hist = ctx.emitted(ctx.tlc('MCValues', MODEL % (quoted(every), 2, 'TRUE')))
    ctx.cov['histories_of_two_steps'] = len(hist)
    if not ctx.thorough:
        rng.shuffle(hist); keep, per = [], {}
        for h in hist:
            per[h['type']] = per.get(h['type'], 0) + 1
            if per[h['type']] <= 400: keep.append(h)
        hist = keep
    # several histories one after another are one script: a value goes on from where it is
    items = [item(h['type'], h['steps']) for h in hist]
    ctx.conform('TValues', items, to_case, label='short histories', env=env, chunk=8000)
    items = []
    for t in every: items += [item(t, history(rng, t, rng.randint(3, 25))) for _ in range(ctx.pick(40, 1500))]
    ctx.conform('TValues', items, to_case, label='random histories', env=env, chunk=8000)
    # names
    items = []
    for t, l in sorted(names['names'].items()):
        wrong = [x for n in l for x in mangled(rng, n, l)]
        others = [x for t2 in names['names'] for x in names['names'][t2] if x not in l and t2 != 'PlaybackSound']
        if len(wrong) > ctx.pick(400, 20000): wrong = rng.sample(wrong, ctx.pick(400, 20000))
        for o in range(0, len(l), 60): items.append(item(t, [{'text': x} for x in l[o:o + 60]]))
        wrong += rng.sample(others, min(len(others), ctx.pick(60, 600)))
        for o in range(0, len(wrong), 60): items.append(item(t, [{'text': x} for x in wrong[o:o + 60]]))
    ctx.cov['enumerations'] = len(names['names']); ctx.cov['names'] = sum(len(l) for l in names['names'].values())
    ctx.conform('TValues', items, to_case, label='names', env=env)
