"""Development tool: the failing measure of a C10/C11 replay file: what was wanted, what was written up to the refused item."""
import json, sys, re
r = json.load(open(sys.argv[1]))
t = '\n'.join(r['specification_followed_it_to'])
c = r['case']
ms = c['ms']
print(c.get('why'), 'measures', len(ms))
k = len(re.findall(r'"measure",', t)) or 1
# explain keeps only the tail: search for the last measure mentioned
n = [int(x) for x in re.findall(r"\"item\",\s+(\d+)", t)]
m = ms[(n[-1] if n else 1) - 1]
for e in m['want']['notes'] + m['want']['events']: print(' ', {a: b for a, b in e.items()})
print('items'); [print('  ', {a: b for a, b in i.items()}) for i in m['items']]
print(t[-700:])
