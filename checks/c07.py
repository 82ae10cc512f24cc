"""Staves and voices: every small measure over the voice alphabet and long random ones, read by the real reader and
validated against the voice rules of spec/Reader.tla."""
import reader_common as R
import c05


def random_measure(rng, staves):
    """runs of notes separated by backups, over staves, with voice texts that may be consistent or not"""
    ev = []
    style = rng.randrange(4)
    for run in range(rng.randint(1, 5)):
        st, vo = rng.randint(0, staves), str(run + 1)
        for _ in range(rng.randint(0, 5)):
            if rng.random() < .15: st = rng.randint(0, staves)
            if style == 1: vo = rng.choice(['1', '2', '3', ''])
            elif style == 2 and rng.random() < .1: vo = rng.choice(['1', '5', '12', 'x', '0', ''])
            elif style == 3: vo = rng.choice(['1', '2']) if run % 2 else '5'
            size = rng.choice([1, 1, 1, 2, 3])
            n = rng.randint(1, 4)
            kind = rng.choice(['normal'] * 7 + ['grace', 'cue'])
            for q in range(size): ev.append(R.note(0, n, 1, q > 0, kind, st if rng.random() < .9 else rng.randint(0, staves), vo, '', rng.choice(['pitch', 'rest']) if size == 1 else 'pitch'))
            if rng.random() < .2: ev.append(c05.other(rng, staves))
            if rng.random() < .1: ev.append({'k': 'forward', 'n': rng.randint(1, 4), 'd': 1, 'st': 0})
        for _ in range(rng.choice([1, 1, 1, 2])):
            if rng.random() < .15: ev.append(c05.other(rng, staves))
            ev.append({'k': 'backup', 'n': rng.randint(1, 12), 'd': 1})
    if rng.random() < .5:
        while ev and ev[-1]['k'] == 'backup': ev.pop()
    return ev


def run(ctx):
    D = R.defaults(ctx)
    out = ctx.tlc('MCReader', R.MODEL % ('voice', 4, 'TRUE'))
    seqs = ctx.emitted(out)
    ctx.cov['enumerated_measures'] = len(seqs)
    if not ctx.thorough: seqs = ctx.rng.sample(seqs, min(len(seqs), 4000))
    else: ctx.model('MCReader', R.MODEL % ('voice', 5, 'FALSE'), name='measures of up to 5 events')
    docs = R.pack(seqs, 2)
    for _ in range(ctx.pick(300, 8000)):
        st = ctx.rng.randint(1, 4)
        docs += R.pack([random_measure(ctx.rng, st) for _ in range(ctx.rng.randint(1, 8))], 4, staves=st if ctx.rng.random() < .7 else 0)
    ctx.conform('TReader', R.items(docs), R.make_case(D), env={'ASPECT': 'voice'}, chunk=1000)
