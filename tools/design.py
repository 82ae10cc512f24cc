"""Development tool: writes DESIGN.md from data/design_*.md, KNOWN_FINDINGS.json and data/catch.json (id -> what seedtest saw)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(f'{V}/tools/data/{f}.md').read().rstrip() + '\n\n'
out = rd('design_head') + rd('design_props') + rd('design_tail')
F = json.load(open(V + '/KNOWN_FINDINGS.json'))
out += '## Findings\n\nOpen (each is reported as KNOWN-FINDING by its check, identified by the keys in KNOWN_FINDINGS.json):\n\n'
for f in F:
    if f['status'] == 'open': out += f"- {f['property']} `{f['id']}` ({len(f['keys'])}): {f['what']}.\n"
out += '\nRepaired in /repo, one commit each:\n\n| property | commit | what failed |\n|---|---|---|\n'
for f in sorted((f for f in F if f['status'] == 'fixed'), key=lambda f: f['property']):
    out += f"| {f['property']} | {f['id']} | {f['what'].split(' ', 3)[3]} |\n"
C = json.load(open(V + '/tools/data/catch.json')) if os.path.exists(V + '/tools/data/catch.json') else {}
out += '\n## Planted changes and what catches them\n\nEach passes the stable tests and fails its demonstration; "caught" is the quick check of its property with seed 1.\n\n| change | property | needs | result |\n|---|---|---|---|\n'
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    out += f"| {s} | {m['property']} | {m['needs']} | {C.get(s, 'not run yet')} |\n"
open(V + '/DESIGN.md', 'w').write(out)
print(len(out.splitlines()), 'lines')
