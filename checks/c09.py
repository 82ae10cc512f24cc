"""Directions, chord symbols, barlines and breaks: every small measure over the placement alphabet and random documents,
read by the real reader and validated against spec/Reader.tla."""
import reader_common as R
import c05


def random_event(rng, staves):
    k = rng.random()
    if k < .3: return {'k': 'dir', 'id': 0, 'st': rng.randint(0, staves + 1), 'off': rng.choice([0, 0, 0, 1, -1, 3, -7, 12]), 'pl': rng.choice(['unspecified', 'above', 'below'])}
    if k < .45: return {'k': 'harm', 'id': 0, 'st': rng.randint(0, staves + 1), 'off': rng.choice([0, 0, 2, -2]), 'pl': rng.choice(['unspecified', 'above', 'below'])}
    if k < .7:
        end = rng.choice(['none', 'none', 'start', 'stop', 'discontinue'])
        num = 0 if end == 'none' else rng.randint(1, 3)
        return {'etext': num if rng.random() < .7 else f'{num}{rng.choice([",", ", "])}{num + 1}', 'k': 'bar', 'loc': rng.choice(['left', 'center', 'right', 'right', 'unspecified']), 'style': rng.choice(list(R.BAR) + ['unspecified']), 'ending': end, 'enum': num, 'rep': rng.random() < .3}
    if k < .8:
        s, p = [], []
        if rng.random() < .6:
            s = [rng.choice(['', 'yes', 'no']), *rng.choice([['', ''], ['10', '12.5']]), rng.choice(['', '90']), rng.choice(['', '70'])]
        if rng.random() < .5:
            p = [rng.choice(['', 'yes', 'no']), rng.choice(['', '3', '12']), *rng.choice([['', ''], ['1000', '800']])]
        return {'k': 'print', 'sys': s if any(s) else [], 'page': p if any(p) else []}
    return c05.other(rng, staves)


def random_doc(rng):
    parts = []
    for _ in range(rng.randint(1, 3)):
        staves = rng.randint(1, 3)
        ms = []
        for m in range(rng.randint(1, 6)):
            ev = []
            if m == 0: ev.append(R.attr(div=rng.choice([1, 4]), staves=staves))
            for _ in range(rng.randint(0, 9)):
                k = rng.random()
                if k < .3: ev.append(R.note(0, rng.randint(1, 4), 1, False, 'normal', rng.randint(0, staves), ''))
                elif k < .36: ev.append({'k': 'backup', 'n': rng.randint(1, 6), 'd': 1})
                elif k < .42: ev.append({'k': 'forward', 'n': rng.randint(1, 4), 'd': 1, 'st': 0})
                else: ev.append(random_event(rng, staves))
            ms.append(ev)
        parts.append(ms)
    flat = R.number([m for p in parts for m in p])
    out, k = [], 0
    for p in parts:
        out.append({'ms': [R.measure(q + 1, flat[k + q]) for q in range(len(p))]}); k += len(p)
    return {'parts': out}


def run(ctx):
    D = R.defaults(ctx)
    out = ctx.tlc('MCReader', R.MODEL % ('place', 3, 'TRUE'))
    seqs = ctx.emitted(out)
    ctx.cov['enumerated_measures'] = len(seqs)
    docs = R.pack(seqs, 2) + [random_doc(ctx.rng) for _ in range(ctx.pick(1200, 30000))]
    ctx.conform('TReader', R.items(docs), R.make_case(D), env={'ASPECT': 'place'}, chunk=1000)
    ctx.assumptions += ['directions hold one text each; kinds of content are the subject of C14']
