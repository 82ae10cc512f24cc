"""Written music: every small measure and long random scores written by the real writer; what was written must be a
behaviour of spec/Writer.tla (items stated at their time, each note once)."""
import writer_common as W


def run(ctx):
    out = ctx.tlc('MCWriter', W.MODEL % ('notes', 2, 0, 'TRUE'))
    ms = ctx.emitted(out)
    ctx.cov['enumerated_measures'] = len(ms)
    if ctx.thorough: ctx.model('MCWriter', W.MODEL % ('notes', 3, 0, 'FALSE'), name='measures of up to 3 notes', timeout=3000)
    scores = W.pack(ms)
    for _ in range(ctx.pick(250, 8000)): scores.append(W.random_score(ctx.rng, events=ctx.rng.choice([0, 0, 4])))
    ctx.conform('TWriter', W.items(scores), W.make_case, env={'ASPECT': 'notes'}, chunk=400)
    ctx.assumptions += ['the notes of a chord have one duration and stand next to each other in their voice', 'onsets are not negative, durations of normal and cue notes are positive']
