"""A score read from a document is the same when it is written and read again, and its text the same when it is written once
more: every attribute, edge, value and word of the schema once, random trees, the timelines of spec/MCReader.tla and the
documents of the repository; TLC compares the scores (spec/Round.tla)."""
import glob, os, re
import carry_common as C, round_common as R, schema_common as S, score_common as SC, writer_common as W


# documents that cannot be read as a score, hold none, or groups of no parts
UNREADABLE = {'part-group@number', 'clef@number', 'instrument-sound=any text', 'dynamics/', 'fake.xml', 'ly41g_PartNoId.xml'}
# outside: margins, widths and scalings less than nothing, modifications of the time by nothing
OUTSIDE = re.compile(r'<(left-margin|right-margin|top-margin|bottom-margin|millimeters|tenths)>-|<(actual-notes|normal-notes)>0<|<measure [^>]*width="-')


def ok(xml): return not OUTSIDE.search(xml)


def run(ctx):
    docs, seen = [], set()
    def add(x, key):
        if x not in seen and ok(x): seen.add(x); docs.append({'script': R.script(x), 'key': key, 'may': key is None or key in UNREADABLE})
    for t, k, v in S.probes(S.attribute_items(2) + S.edge_items() + S.value_items(99)): add(S.text(t), k)
    check(ctx, docs, 'one thing', 400)
    docs = []
    for _ in range(ctx.pick(1500, 20000)): add(S.text(S.random_document(ctx.rng)), None)
    check(ctx, docs, 'random trees', 100)
    # what was written of scores of the score model
    rng, scores = ctx.rng, []
    for _ in range(ctx.pick(60, 1500)):
        scores.append(C.random_note_score(rng))
        scores.append(C.direction_score(rng, most=rng.choice([2, 5, 12])))
        n = rng.randint(1, 5)
        scores.append(SC.with_music(SC.header(rng, n), n, rng.choice([1, 2])))
        ids = [f'P{k + 1}' for k in range(rng.randint(1, 5))]
        s = {'ticksPerQuarter': rng.choice([1, 4]), 'parts': [SC.part(rng, q, u, rng.randint(1, 3)) for q, u in enumerate(ids)]}
        g = SC.groups(rng, len(ids), rng.choice([0, 2, 5]))
        if g: s['partGroups'] = g
        scores.append(s)
        scores.append(W.score_json(W.random_score(rng)))
    check(ctx, [{'script': R.of_score(s), 'key': None} for s in scores], 'scores', 20)
    docs = []
    for f in sorted(glob.glob(os.environ.get('MX_REPO', '/repo') + '/Resources/**/*.xml', recursive=True)):
        if '/expected/' in f or '/testOutput/' in f or os.path.getsize(f) > ctx.pick(30000, 3000000): continue
        b = open(f, 'rb').read()
        try: t = b.decode('utf-8-sig')
        except UnicodeDecodeError: continue
        if t[:2] == '<?' and 'encoding="' in t[:100] and 'utf-8' not in t[:100].lower(): continue
        add(t, os.path.basename(f))
    check(ctx, docs, 'repository', 4)


def check(ctx, docs, label, chunk):
    ctx.conform('TRound', docs, R.case, label=label, chunk=chunk, key=lambda i, c: i['key'])
