"""Parts, instruments and part groups: every small part of spec/MCPart.tla and random scores are written and read back, and
every short list of parts and groups of spec/MCPartList.tla and random ones are read; TLC walks the lists (spec/PartList.tla)
and compares the parts (spec/PartCarry.tla)."""
import carry_common as C
import score_common as S

PART = '''INIT Init
NEXT Next
CONSTANTS Theme = "%s"
 EmitAll = TRUE
INVARIANTS Independent Settled NotInvented
CHECK_DEADLOCK FALSE
'''
LIST = '''INIT Init
NEXT Next
CONSTANTS MaxParts = %d
 MaxGroups = %d
 Numbers = {"", "1", "2"}
 EmitAll = TRUE
INVARIANTS Apart Filled Matched
CHECK_DEADLOCK FALSE
'''


def pitch_free(x): return {} if x == [] else x


def run(ctx):
    rng, scores = ctx.rng, []
    for t in ('names', 'midi', 'sounds', 'instruments'):
        v = ctx.emitted(ctx.tlc('MCPart', PART % t))
        ctx.cov.setdefault('enumerated_parts', {})[t] = len(v)
        v = [x or {} for x in v]
        for x in v:
            if 'transposition' in x: x['transposition'] = [y or {} for y in x['transposition']]
        # the parts of a score stand next to each other
        o = 0
        while o < len(v):
            k = rng.choice([1, 2, 3, 5])
            scores.append({'ticksPerQuarter': 1, 'parts': [{**x, 'uniqueId': f'P{q + 1}', 'measures': S.own_music(q, rng.randint(1, 3))} for q, x in enumerate(v[o:o + k])]})
            o += k
    lists = []
    for n, g in ((2, 2), (3, 2), (2, 3)) + (((4, 3), (3, 4)) if ctx.thorough else ()):
        v = ctx.emitted(ctx.tlc('MCPartList', LIST % (n, g)))
        ctx.cov.setdefault('enumerated_lists', {})[f'{n} parts {g} groups'] = len(v)
        lists += v
    # the same lists as scores
    for l in lists:
        n = sum(x['k'] == 'part' for x in l)
        gs, at, open_ = [], 0, {}
        for x in l:
            if x['k'] == 'part': at += 1
            elif x['k'] == 'start': open_[x['number'] or '1'] = (at, x)
            else:
                a, y = open_.pop(x['number'] or '1')
                gs.append(C.put(C.put(C.put({'firstPartIndex': a, 'lastPartIndex': at - 1}, 'number', int(y['number']) if y['number'] else -1, -1), 'name', y['name'], ''), 'bracketType', C.pick(rng, 'BracketType', .3)))
        rng.shuffle(gs)
        scores.append({'ticksPerQuarter': 1, 'parts': [{'uniqueId': f'P{q + 1}', 'measures': S.own_music(q, 1)} for q in range(n)], 'partGroups': gs})
    for _ in range(ctx.pick(1500, 30000)):
        n = rng.choice([1, 2, 2, 3, 4, 6, 9])
        ids = rng.sample(S.IDS, n); k = rng.randint(1, 3)
        # parts may be of different length
        s = {'ticksPerQuarter': rng.choice([1, 4]), 'parts': [S.part(rng, q, u, k if rng.random() < .7 else rng.randint(1, 3)) for q, u in enumerate(ids)]}
        g = S.groups(rng, n, rng.choice([0, 2, 5, 9]))
        if g: s['partGroups'] = g
        scores.append(s)
    ctx.conform('TParts', [C.item(s) for s in scores], S.parts_case, label='written')
    rl = [S.random_list(rng, rng.randint(1, 8), rng.randint(1, 8)) for _ in range(ctx.pick(600, 10000))]
    ctx.conform('TParts', [S.list_item(l, rng) for l in lists + rl], S.list_case, label='read')
    ctx.assumptions += ['part ids differ, are XML names; an instrument of which something is given has an id', 'groups that share a part have different numbers, where no number is number one; group numbers are whole numbers',
                        'MIDI values are in the ranges of MusicXML; positions and fonts of shown names are not stated by the score model of a part list']
