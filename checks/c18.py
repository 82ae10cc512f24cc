"""Documents through the typed element tree: every attribute, every two children that may follow each other, every word of
children of spec/MCSchema.tla, every value of simple content, random trees and the documents of the repository are read and
printed by the real code; TLC follows each through the schema (spec/Schema.tla) and compares what was printed step by step."""
import schema_common as S

MODEL = '''INIT Init
NEXT Next
CONSTANTS MaxLen = %d
 EmitAll = TRUE
INVARIANTS Deterministic CanEnd Typed
CHECK_DEADLOCK FALSE
'''


def key(it, c): return it['key'] + ' | ' + S.first_difference(c) if it.get('key') else None


def run(ctx):
    words = ctx.emitted(ctx.tlc('MCSchema', MODEL % ctx.pick(2, 3)))
    ctx.cov['enumerated_words'] = len(words)
    seen, items = set(), []
    for t, k, v in S.probes(S.attribute_items(ctx.pick(2, 99)) + S.edge_items() + S.word_items(words) + S.value_items(999)):
        x = S.item(t, k)
        if x['script']['xml'] not in seen: seen.add(x['script']['xml']); items.append(x)
    ctx.cov.update(types=len(S.WAY), attributes=sum(len(S.TYPES[t]['attrs']) for t in S.WAY), simple_values=sum(len(S.values(S.TYPES[t].get('simple'))) for t in S.WAY if S.TYPES[t].get('simple')))
    ctx.conform('TSchema', items, S.case, key=key, label='one thing')
    S.SKIP = {k.split(' | ')[0] for f in ctx.allfindings for k in f.get('keys', [])}
    ctx.conform('TSchema', [S.item(S.random_document(ctx.rng)) for _ in range(ctx.pick(2500, 60000))], S.case, label='random trees')
