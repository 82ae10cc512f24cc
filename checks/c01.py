import json
import registry_common as R

MC = '''SPECIFICATION GSpec
CONSTANTS Toks = {%s}
 Kinds = {"partwise", "timewise"}
 MaxId = %d
 MaxUid = %d
 Handles = {%s}
CONSTRAINT LimHow
INVARIANTS TypeOK NeverReused Denotes Distinct DeadIsEmpty
PROPERTY HandleOutlives
CHECK_DEADLOCK FALSE
'''
GEN = '''INIT GInit
NEXT GNext
CONSTANTS Inputs = "%s"
 Handles = {1, 2}
 Depth = %d
CHECK_DEADLOCK FALSE
'''


def generate(ctx, inp, num, depth):
    f = ctx.tmp + '/inputs.ndjson'
    with open(f, 'w') as h:
        for rec, _ in inp: h.write(json.dumps(rec) + '\n')
    out = ctx.tlc('GRegistry', GEN % (f, depth), workers=1, simulate=num, depth=depth + 3)
    return ctx.emitted(out)


def histories(ctx, plan):
    inp = R.inputs()
    items = []
    for num, depth in plan:
        for h in generate(ctx, inp, num, depth):
            items.append({'hist': h, 'script': {'op': 'dm', 'script': R.to_script(h, inp, None)}})
    ops = {}
    for i in items:
        for h in i['hist']: ops[h['f']] = ops.get(h['f'], 0) + 1
    ctx.cov['calls_replayed'] = ops
    return inp, items


def run(ctx):
    ctx.model('MCRegistry', MC % ctx.pick(('"a"', 2, 2, '1'), ('"a", "b"', 3, 1, '1')), name='registry', timeout=800)
    inp, items = histories(ctx, ctx.pick([(500, 12), (150, 30)], [(4000, 12), (2000, 40)]))
    ctx.conform('TRegistry', items, lambda i, r: R.to_case(i['hist'], inp, r))
    ctx.assumptions += ['ids are compared within one process', 'content markers are work titles; texts and scores are compared by digest']
