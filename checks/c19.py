import glob, json, os
import tree_common as T
import build as B

GEN = '''INIT GInit
NEXT GNext
CONSTANTS Depth = %d
 Emit = %s
%s
CHECK_DEADLOCK FALSE
'''
INV = 'INVARIANTS OneParent NoTwice AllReached TextOrElements PIsAreLeaves ReloadKeeps\n'


def run(ctx):
    st = T.starts()
    sf = ctx.tmp + '/starts.ndjson'
    def moves(n):
        return [[ctx.rng.choice(['++', '++', '++', '--', 'p++', 'p++', 'p--', 'skip', 'all']) for _ in range(ctx.rng.randint(3, 9))] for _ in range(n)]
    def write(which, names, values, attributes, walks):
        with open(sf, 'w') as h:
            for s in which: h.write(json.dumps({k: s[k] for k in ('tree', 'doc')}) + '\n')
        with open(ctx.tmp + '/words.json', 'w') as h: json.dump({'names': names, 'values': values, 'attributes': attributes, 'moves': walks}, h)
        return {'STARTS': sf, 'WORDS': ctx.tmp + '/words.json'}
    small = [st[1], st[3], st[7]]
    few = write(small, ['b', 'x'], ['', 'v'], ['k'], [['skip', 'p++', '++', 'all', 'p--', '--']])
    ctx.model('GTree', GEN % (ctx.pick(2, 3), 'FALSE', INV + 'VIEW View'), name='every tree of a few edits', env=few, timeout=3000)
    items = []
    def collect(out, which):
        for e in ctx.emitted(out): add(which[e['start'] - 1], e['hist'])
    def add(s, hist):
        steps = [dict(h, clone=1) if ctx.rng.random() < .3 and 'h' in h else h for h in hist]
        items.append({'script': {'op': 'tree', 'load': s['text'], 'steps': steps}, 'start': {k: s[k] for k in ('tree', 'doc')}})
    # every history of two edits
    collect(ctx.tlc('GTree', GEN % (2, 'TRUE', ''), env=few, workers=1, timeout=3000), small)
    n = len(items)
    ctx.rng.shuffle(items)
    del items[ctx.pick(5000, 10 ** 9):]
    # long random ones
    vals = ['', 'v', 'a & b', '<x>', '"q\'', 'two\nlines', 'tab\there', 'cr\rlf', 'caf\u00e9 \u4e2d \U0001d11e', ']]>', ' lead', 'trail ', '0']
    many = write(st, ['b', 'c', 'bb', 'new-name', 'x:y'], vals, ['k', 'l', 'm:n', 'k-more', 'kk'], moves(24))
    for num, depth in ctx.pick([(500, 12), (120, 40)], [(4000, 12), (2000, 60)]):
        collect(ctx.tlc('GTree', GEN % (depth, 'TRUE', ''), env=many, workers=1, simulate=num, depth=depth + 3), st)
    ctx.cov['histories'] = {'of_two_edits': n, 'executed': len(items)}
    ctx.conform('TTree', items, lambda i, r: T.to_case(i['start'], i['script']['steps'], r), label='edits', chunk=1500)
    # what is loaded is what an independent parser finds; and it is the same when saved and loaded again
    files = []
    for f in sorted(glob.glob(os.environ.get('MX_REPO', '/repo') + '/Resources/**/*.xml', recursive=True)):
        if '/expected/' in f or '/testOutput/' in f or os.path.getsize(f) > ctx.pick(12000, 60000): continue
        b = open(f, 'rb').read()
        try: t = b.decode('utf-8-sig'); nodes, doc = T.parse(t)
        except Exception: continue
        if 'encoding="' in t[:100] and 'utf-8' not in t[:100].lower(): continue
        if mixed(nodes): continue
        files.append({'script': {'op': 'tree', 'load': t, 'steps': [{'f': 'reload'}, {'f': 'enc', 'value': 'UTF-16'}, {'f': 'reload'}]}, 'start': {'tree': nodes, 'doc': doc}})
    ctx.rng.shuffle(files)
    files = files[:ctx.pick(60, 1000)]
    if files or ctx.replay:
        ctx.conform('TTree', files, lambda i, r: T.to_case(i['start'], i['script']['steps'], r), label='files', chunk=20)
    ctx.assumptions += ['elements hold text or elements, not both; processing instructions beside text are left out', 'attribute names within an element differ',
                        'names are legal; texts are not white space alone']


def mixed(nodes):
    return any(n['v'] and n['kids'] for n in nodes if not n['pi'])
