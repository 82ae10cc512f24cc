"""What is said of a score as a whole through writing and reading back: every small header of spec/MCScore.tla, every field
alone and next to every other and random headers are written and read by the real code; TLC decides whether what is read is
what spec/ScoreCarry.tla says."""
import carry_common as C
import score_common as S

MODEL = '''INIT Init
NEXT Next
CONSTANTS Theme = "%s"
 EmitAll = TRUE
INVARIANTS Independent Settled NotInvented Plain
CHECK_DEADLOCK FALSE
'''
THEMES = ['titles', 'people', 'encoding', 'texts', 'defaults', 'layout', 'mixed']


def whole(x):
    """an empty record inside an optional or an entry is written as a list by TLC"""
    if isinstance(x, dict): return {k: [{} if y == [] else whole(y) for y in v] if isinstance(v, list) else ({} if k == 'v' and v == [] else whole(v)) for k, v in x.items()}
    return x


def enumerated(ctx):
    out = []
    for t in THEMES:
        v = ctx.emitted(ctx.tlc('MCScore', MODEL % t))
        ctx.cov.setdefault('enumerated_headers', {})[t] = len(v)
        out += [(whole(x or {}), 3) for x in v]
    return out


def run(ctx):
    heads = enumerated(ctx)
    for _ in range(ctx.pick(1500, 30000)):
        n = ctx.rng.randint(1, 5)
        heads.append((S.header(ctx.rng, n), n))
    items = [C.item(S.with_music(h, n, ctx.rng.choice([1, 1, 2]))) for h, n in heads]
    ctx.conform('TScore', items, S.score_case)
    ctx.assumptions += ['an encoding date is a calendar date; both scalings are given or none; page numbers are positive', 'texts are not empty and not of white space alone (C20)']
