"""Development tool: writes harness/container_*.cpp from spec/containers.json (the slots of every element)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + '/spec/containers.json'))
names = sorted(T)
N = 6
cost = {c: sum(7 if s['k'] == 'set' else 3 for s in T[c]['slots']) for c in names}
files = [[0, []] for _ in range(N)]
for c in sorted(names, key=lambda c: -cost[c]):
    f = min(files, key=lambda f: f[0]); f[0] += cost[c]; f[1].append(c)
group = lambda t: 'true' if t in T and T[t]['group'] else 'false'
for k, (_, cs) in enumerate(files):
    inc = sorted({x for c in cs for x in [c] + [s['t'] for s in T[c]['slots']]})
    out = '// written by tools/gen_container.py\n#include "container.h"\n' + ''.join(f'#include "mx/core/elements/{x}.h"\n' for x in inc)
    out += 'using namespace mx::core;\nnamespace\n{\n'
    for c in sorted(cs):
        t = T[c]
        out += f'    cont::Add a{c}( "{c}", [] {{ return cont::Build<{c}>( {"true" if t["group"] else "false"} )'
        for s in t['slots']:
            n, y = s['n'], s['t']
            if s['k'] == 'set': out += f'\n        .many<{y}>( "{n}", {group(y)}, &{c}::add{n}, &{c}::remove{n}, &{c}::clear{n}Set, &{c}::get{n}Set, {"&" + c + "::get" + n if s["look"] else "nullptr"} )'
            else: out += f'\n        .one<{y}>( "{n}", {group(y)}, &{c}::get{s["get"]}, &{c}::set{s["set"]} )'
        for h in t['has']: out += f'\n        .has( "{h}", &{c}::getHas{h}, &{c}::setHas{h} )'
        if t['choices']: out += f'\n        .choice<{c}::Choice>( &{c}::getChoice, &{c}::setChoice, {{ ' + ', '.join(f'{{ "{x}", {c}::Choice::{x} }}' for x in t['choices']) + ' } )'
        out += '.done(); } );\n'
    open(f'{V}/harness/container_{k}.cpp', 'w').write(out + '}\n')
