"""Notes through writing and reading back: every small voice of spec/MCNote.tla, every value of every property and random
voices are written and read by the real code; TLC decides whether every note is the one that was written (spec/NoteCarry.tla)."""
import carry_common as C


def run(ctx):
    t = [('what', 1), ('sign', 1), ('length', 1), ('beams', 1), ('pairs', 2)] + ([('draw', 1), ('pairs', 3)] if ctx.thorough else [])
    C.run_notes(ctx, False, t, 250, 8000)
    ctx.assumptions += ['a voice takes some time (a voice of grace notes alone is not told from the one after it)', 'colors of notes, fonts without lines; no unpitched measure rests of grace notes']
