"""Onsets and durations: every small measure over the timing alphabet, and long random ones, read by the real reader and
validated against spec/Reader.tla."""
import reader_common as R


def random_measure(rng, n, staves=1, frac=False):
    ev = []
    while len(ev) < n:
        k = rng.random()
        if k < .5:
            kind = rng.choice(['normal'] * 8 + ['grace', 'cue'])
            num, den = (rng.randint(1, 9), 1) if not frac or rng.random() < .6 else (rng.randint(1, 39), rng.choice([2, 4, 8, 5, 10]))
            size = rng.choice([1, 1, 1, 1, 2, 2, 3, 4])
            vo = rng.choice(['', '1', '2', '3'])
            uneven = rng.random() < .25
            st = rng.randint(0, staves)
            for q in range(size):
                ev.append(R.note(0, num if not (q and uneven) else rng.randint(1, 9), den, q > 0, kind, st if rng.random() < .9 else rng.randint(0, staves), vo, '', 'pitch' if size > 1 else rng.choice(['pitch', 'pitch', 'rest', 'unp', 'mrest'])))
                # things that are not notes may stand between the notes of a chord
                if q + 1 < size and rng.random() < .25: ev.append(other(rng, staves))
        elif k < .62: ev.append({'k': 'backup', 'n': rng.randint(1, 20), 'd': 1})
        elif k < .72: ev.append({'k': 'forward', 'n': rng.randint(1, 9), 'd': 1, 'st': rng.randint(0, staves)})
        else: ev.append(other(rng, staves))
    return ev


def other(rng, staves=1):
    k = rng.randrange(8)
    if k < 2: return {'k': 'dir', 'id': 0, 'st': rng.randint(0, staves), 'off': rng.choice([0, 0, 0, 1, -1, 5]), 'pl': rng.choice(['unspecified', 'above', 'below'])}
    if k == 2: return {'k': 'harm', 'id': 0, 'st': rng.randint(0, staves), 'off': rng.choice([0, 0, 2, -2]), 'pl': 'unspecified'}
    if k == 3: return R.attr(clefs=[{'sign': rng.choice(['g', 'f', 'c', 'percussion']), 'line': 0, 'num': rng.randint(0, staves), 'oct': 0, 'after': ''}])
    if k == 4: return R.attr(keys=[{'fifths': rng.randint(-7, 7), 'cancel': 0, 'mode': 'major', 'num': rng.randint(0, staves), 'comps': []}])
    if k == 5: return {'k': 'bar', 'loc': rng.choice(['left', 'center', 'right', 'unspecified']), 'style': 'dotted', 'ending': 'none', 'enum': 0, 'rep': False}
    return {'k': 'other', 'what': rng.choice(['sound', 'fb', 'bookmark', 'grouping', 'print'])}


def run(ctx):
    D = R.defaults(ctx)
    out = ctx.tlc('MCReader', R.MODEL % ('time', 3, 'TRUE'))
    seqs = ctx.emitted(out)
    ctx.cov['enumerated_measures'] = len(seqs)
    if ctx.thorough: ctx.model('MCReader', R.MODEL % ('time', 4, 'FALSE'), name='measures of up to 4 events')
    docs = R.pack(seqs, 2)
    for _ in range(ctx.pick(150, 6000)):
        st = ctx.rng.randint(1, 3)
        docs += R.pack([random_measure(ctx.rng, ctx.rng.randint(1, 25), st) for _ in range(ctx.rng.randint(1, 8))], ctx.rng.choice([1, 2, 3, 8, 24, 480]), staves=st)
    case = R.make_case(D)
    ctx.conform('TReader', R.items(docs), case, env={'ASPECT': 'time'}, chunk=1500)
    ctx.assumptions += ['every part states its divisions in its first measure']
