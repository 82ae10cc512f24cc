"""Written clefs, keys, meters, directions, chord symbols, barlines and breaks: all combinations of two notes and an event,
and random scores, written by the real writer and validated against spec/Writer.tla."""
import writer_common as W


def run(ctx):
    out = ctx.tlc('MCWriter', W.MODEL % ('events', 2, 1, 'TRUE'))
    ms = ctx.emitted(out)
    ctx.cov['enumerated_measures'] = len(ms)
    if ctx.thorough: ctx.model('MCWriter', W.MODEL % ('events', 1, 2, 'FALSE'), name='measures of a note and up to two events', timeout=3000)
    if not ctx.thorough: ms = ctx.rng.sample(ms, min(len(ms), 8000))
    scores = W.pack(ms)
    for _ in range(ctx.pick(250, 8000)): scores.append(W.random_score(ctx.rng, events=ctx.rng.choice([2, 6, 10]), notes=ctx.rng.choice([2, 5, 10])))
    ctx.conform('TWriter', W.items(scores), W.make_case, env={'ASPECT': 'events'}, chunk=400)
    ctx.assumptions += ['events of one kind and staff are listed in time order', 'as in C10']
