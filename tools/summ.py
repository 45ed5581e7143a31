"""Summarise failing cases of the last run (development aid): python tools/summ.py C01 [max groups]  (needs VERIF_DUMP=1 runs)"""
import json,sys,collections,re
d=json.load(open(f'/verif/evidence/dump-{sys.argv[1]}.json'))
mx=int(sys.argv[2]) if len(sys.argv)>2 else 12
g=collections.defaultdict(list)
for v in d: g[(v['explore'],re.sub(r'[-+]?\d[\d.e+-]*','#',v['what'])[:90])].append(v)
print(len(d),'failing cases,',len(g),'groups')
for k,vs in sorted(g.items(),key=lambda kv:-len(kv[1]))[:mx]:
    print(len(vs),k)
    keys=vs[0]['case'].keys() if isinstance(vs[0]['case'],dict) else []
    for kk in keys:
        c=collections.Counter(json.dumps(v['case'].get(kk)) for v in vs)
        if len(c)<len(vs) or len(vs)<3: print('    ',kk,str(dict(c.most_common(5)))[:420], '' if len(c)<=5 else f'+{len(c)-5}')
    print('     e.g.',json.dumps(vs[0]['case'])[:300],'\n       ',vs[0]['what'][:200],'\n       ',vs[0]['detail'][-420:])
