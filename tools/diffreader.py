"""Development tool: print where a reader case differs, from a replay file (events and read notes)."""
import json,sys
d=json.load(open(sys.argv[1]))
print(d['case'].get('tpq'), d['case'].get('problem'))
why='\n'.join(d['specification_followed_it_to'])
print(len(d['case']['parts']))
for k,p in enumerate(d['case']['parts']):
    for q,m in enumerate(p['ms']):
        print('part',k,'measure',q)
        for e in m['ev']: print('   ',json.dumps(e)[:200])
        for s in m['obs']['staves']: print('  staff',json.dumps(s)[:1500])
