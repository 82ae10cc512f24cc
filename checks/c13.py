"""Attachments of notes through writing and reading back: every small combination of marks, curves and tuplets of
spec/MCNote.tla, every kind of mark and random voices; TLC decides whether they stay on their notes (spec/NoteCarry.tla)."""
import carry_common as C


def run(ctx):
    t = [('marks', 1), ('curves', 1), ('tuplets', 1), ('manycurves', 1)] + ([('mark', 1), ('ends', 2)] if ctx.thorough else [])
    C.run_notes(ctx, True, t, 200, 6000)
    ctx.assumptions += ['marks of a kind the score model names; misc. texts without commas', 'tuplets have a number']
