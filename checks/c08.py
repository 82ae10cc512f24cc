"""Clefs, keys, meters, transposition, measure attributes: every small measure over the attributes alphabet and random
documents, read by the real reader and validated against spec/Reader.tla."""
import reader_common as R
import c05


def random_attr(rng, staves):
    a = R.attr()
    if rng.random() < .5:
        for _ in range(rng.choice([1, 1, 2, 3])):
            a['clefs'].append({'sign': rng.choice(['g', 'f', 'c', 'percussion', 'tab', 'jianpu']), 'line': rng.choice([0, 0, 1, 2, 3, 4, 5]), 'num': rng.randint(0, staves),
                               'oct': rng.choice([0, 0, 1, -1, 2]), 'after': rng.choice(['', '', 'yes', 'no'])})
    if rng.random() < .4:
        for _ in range(rng.choice([1, 1, 2])):
            k = {'fifths': rng.randint(-7, 7), 'cancel': rng.choice([0, 0, 3, -2]), 'mode': rng.choice(['', 'major', 'minor', 'dorian', 'none']), 'num': rng.randint(0, staves + 1), 'comps': []}
            if rng.random() < .15: k.update(fifths=0, cancel=0, mode='', comps=[[s, rng.choice([-2, -1, 1, 2])] for s in rng.sample('abcdefg', rng.randint(1, 4))])
            a['keys'].append(k)
    if rng.random() < .3: a['times'].append({'beats': rng.choice([2, 3, 4, 5, 12]), 'beatType': rng.choice([2, 4, 8, 16]), 'symbol': rng.choice(['unspecified', 'unspecified', 'common', 'cut'])})
    if rng.random() < .15: a['staves'] = rng.randint(1, staves)
    if rng.random() < .1: a['mrest'] = rng.randint(1, 12)
    if rng.random() < .2: a['transpose'] = [rng.randint(-11, 11), rng.randint(-6, 6), rng.choice([0, 0, 1, -1, 2])]
    return a


def random_doc(rng):
    parts = []
    for _ in range(rng.randint(1, 3)):
        staves = rng.randint(1, 3)
        ms = []
        for m in range(rng.randint(1, 7)):
            ev = []
            if m == 0: ev.append(R.attr(div=rng.choice([1, 4]), staves=staves))
            for _ in range(rng.randint(0, 7)):
                k = rng.random()
                if k < .4: ev.append(random_attr(rng, staves))
                elif k < .65: ev.append(R.note(0, rng.randint(1, 4), 1, False, 'normal', rng.randint(0, staves), ''))
                elif k < .75: ev.append({'k': 'backup', 'n': rng.randint(1, 6), 'd': 1})
                elif k < .85: ev.append({'k': 'forward', 'n': rng.randint(1, 4), 'd': 1, 'st': 0})
                else: ev.append(c05.other(rng, staves))
            ms.append(ev)
        parts.append(ms)
    flat = R.number([m for p in parts for m in p])
    out, k = [], 0
    for p in parts:
        mm = []
        for q in range(len(p)):
            nr = rng.choice([None, None, None, str(q), str(q + 2), 'X1', '12a', '0'])
            mm.append(R.measure(q + 1, flat[k + q], nr, rng.choice(['unspecified', 'unspecified', 'yes', 'no']), rng.choice(['-1', '-1', '120', '80.5'])))
        k += len(p)
        out.append({'ms': mm})
    return {'parts': out}


def run(ctx):
    D = R.defaults(ctx)
    out = ctx.tlc('MCReader', R.MODEL % ('attr', ctx.pick(3, 4), 'TRUE'))
    seqs = ctx.emitted(out)
    ctx.cov['enumerated_measures'] = len(seqs)
    docs = R.pack(seqs, 2, per=25) + [random_doc(ctx.rng) for _ in range(ctx.pick(1000, 30000))]
    ctx.conform('TReader', R.items(docs), R.make_case(D), env={'ASPECT': 'attr'}, chunk=1000)
    ctx.assumptions += ['at most one time signature per measure, of whole beats', 'clefs name an existing staff']
