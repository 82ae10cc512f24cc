"""Directions through writing and reading back: every small direction of spec/MCDirection.tla, every kind of thing a
direction holds in every amount of detail and random staves are written and read by the real code; TLC decides whether
what is read is what spec/DirectionCarry.tla says."""
import carry_common as C


def every_kind(rng, n):
    """each kind of thing alone and next to each other kind, over and over"""
    ks = sorted(C.HOLDS)
    ds = [[a] for a in ks for _ in range(3 * n)] + [[a, b] for a in ks for b in ks if a < b for _ in range(n)]
    ds = [C.direction(rng, 0, k) for k in ds]
    for e in C.DYNAMICS + ['pedal', 'damp']: ds.append(C.timed({'marks': [C.direction_mark(rng, e)]}))
    for kind in C.ENUM['ChordKind'][1:]: ds.append({'chords': [{'chordKind': kind}]})
    for t in C.ENUM['ExtensionType']:
        for a in C.ENUM['ExtensionAlter']:
            for x in C.ENUM['ExtensionNumber']: ds.append({'chords': [{'chordKind': 'major', 'extensions': [C.put(C.put(C.put({}, 'extensionType', t, 'add'), 'extensionAlter', a, 'none'), 'extensionNumber', x, 'first')]}]})
    for u in C.ENUM['DurationName'][1:]:
        for dots in range(4): ds.append({'tempos': [{'tempoType': 'beatsPerMinute', 'beatsPerMinute': {'durationName': u, 'dots': dots, 'beatsPerMinute': 100}}]})
    return ds


def packed(ds, n=60):
    return [{'ticksPerQuarter': 4, 'parts': [{'uniqueId': 'P1', 'name': 'N', 'measures': [{'staves': [{'directions': d} if d else {}]} for d in ds[o:o + n]]}]} for o in range(0, len(ds), n)]


MODEL = '''INIT Init
NEXT Next
CONSTANTS Theme = "%s"
 MaxLen = %d
 EmitAll = TRUE
INVARIANTS Settled NotInvented AllThere InTime
CHECK_DEADLOCK FALSE
'''
THEMES = [('marks', 1), ('twomarks', 1), ('spanners', 1), ('wedges', 1), ('texts', 1), ('tempos', 1), ('chords', 1), ('mixed', 1), ('order', 2)]


def enumerated(ctx):
    ds = []
    for theme, size in THEMES:
        v = ctx.emitted(ctx.tlc('MCDirection', MODEL % (theme, size)))
        ctx.cov.setdefault('enumerated_staves', {})[f'{theme} {size}'] = len(v)
        ds += [[C.timed(d or {}) for d in map(full, x)] for x in v]
    return ds


def full(d):
    """an empty thing in a list is written as a list by TLC"""
    return {k: [x or {} for x in v] if isinstance(v, list) else v for k, v in (d or {}).items()}


def run(ctx):
    scores = packed(enumerated(ctx)) + packed([[d] for d in every_kind(ctx.rng, ctx.pick(4, 60))])
    for _ in range(ctx.pick(200, 10000)): scores.append(C.direction_score(ctx.rng, most=ctx.rng.choice([2, 5, 12])))
    ctx.conform('TDirection', [C.item(s) for s in scores], C.direction_case, chunk=60)
    ctx.assumptions += ['marks that are neither dynamics nor pedal marks, tempos that are not beats per minute, voices of directions, colors of wedges and octave shifts are not part of the domain',
                        'directions of a staff are given in time order, within the measure']
