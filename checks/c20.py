"""Texts in every place: scores and documents with awkward texts are written by the real code and read back; TLC reads what
was written character by character (spec/XmlText.tla) and compares every text with the one that was given."""
import drv
import schema_common as S
import text_common as T

MODEL = '''INIT Init
NEXT Next
CONSTANTS MaxLen = %d
 Raw = %s
 Null = Null
INVARIANTS ReadAsItself Forward One
CHECK_DEADLOCK FALSE
'''
CFG = '''INIT TInit
NEXT TNext
CONSTANTS Null = Null
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    rng = ctx.rng
    for raw in ('FALSE', 'TRUE'): ctx.tlc('MCXmlText', MODEL % (ctx.pick(3, 4), raw))
    execute = lambda s: drv.run(ctx.exe(), s)
    # every awkward text in every place of a score, and random ones
    sc = T.Scores(execute)
    places = sorted(sc.kind)
    every = [v for t in T.AWKWARD for v in (t, 'a' + t + 'b')] + T.SPACES
    def texts(kind, of): return {p: T.of_kind(rng, k, of(q)) for q, (p, k) in enumerate(sorted(kind.items()))}
    items = [sc.item(texts(sc.kind, lambda q: every[(j + 7 * q) % len(every)])) for j in range(len(every))]
    items += [sc.item(texts(sc.kind, lambda q: T.random_text(rng))) for _ in range(ctx.pick(30, 3000))]
    ctx.cov.update(places_of_scores=len(places), awkward_texts=len(every))
    ctx.conform('TXmlText', items, sc.case, label='scores', cfg=CFG, chunk=400)
    # every element and attribute that holds text
    S.SKIP = {k.split(' | ')[0] for f in ctx.allfindings for k in f.get('keys', [])}
    spots = T.spot_trees()
    for _ in range(ctx.pick(200, 3000)):
        kind = {}
        t = T.with_places(S.random_document(rng), kind, 60)
        if kind and len(S.text(t)) < 9000: spots.append(('random', t, kind))
    tr = T.Trees(execute, spots)
    ctx.cov['elements_with_text'] = len(T.spot_trees())
    items = []
    for k, (n, t, kind) in enumerate(spots):
        for _ in range(1 if n == 'random' else ctx.pick(1, 12)):
            items.append(tr.item(rng, k, texts(kind, lambda q: rng.choice(every) if rng.random() < .7 else T.random_text(rng))))
    ctx.conform('TXmlText', items, tr.case, label='element trees', cfg=CFG, chunk=1000)
    # white space alone (known findings)
    items = [{**sc.item({p: w if k == 'any' else p for p, k in sc.kind.items()}), 'key': 'a text of white space alone'} for w in (' ', '\t', '\n', '   ')]
    ctx.conform('TXmlText', items, sc.case, label='white space alone', cfg=CFG)
    items = []
    for x in ('<![CDATA[a]]> ', ' <![CDATA[a]]>', '<![CDATA[a]]> <![CDATA[b]]>', 'a<!-- c --> <!-- c -->b'):
        t = ['score-partwise', {}, [['part-list', {}, [['score-part', {'id': 'P1'}, [['part-name', {}, 'Qz001', 'part-name']], 'score-part']], 'part-list'], ['part', {'id': 'P1'}, [['measure', {'number': '1'}, [], 'score-partwise/part/measure']], 'score-partwise/part']], 'score-partwise']
        one = T.Trees(execute, [('part-name', t, {'Qz001': 'any'})])
        i = one.item(rng, 0, {'Qz001': T.stands_for(x)}); i['script']['xml'] = S.text(t).replace('Qz001', x); i['key'] = 'white space beside a CDATA section or comment'
        items.append(i)
    ctx.conform('TXmlText', items, tr.case, label='white space beside', cfg=CFG)
