#!/usr/bin/env python3
"""Summarise a symx result file (development aid)."""
import json,sys,collections
H={};C=collections.defaultdict(dict);K=[];st=collections.Counter();viol=collections.defaultdict(list);end=None;cov=collections.defaultdict(collections.Counter)
forks=[]
for l in open(sys.argv[1]):
    r=json.loads(l)
    t=r['t']
    if t=='harness':
        h=H.setdefault(r['h'],collections.Counter())
        for k,v in r.items():
            if k not in('t','h'): h[k]+=v
    elif t=='rec':
        if r['kind'] not in('path',): viol[(r['h'],r['kind'],r['label'])].append(r)
    elif t=='cover': cov[r['h']][r['label']]+=r['n']
    elif t=='stats':
        for k,v in r.items():
            if isinstance(v,(int,float)) and k!='max_query_s': st[k]+=v
        st['max']=max(st['max'],r['max_query_s'])
    elif t=='end': end=r
    elif t=='fork': forks.append(r)
for h in sorted(H,key=lambda x:-H[x]['steps']): print(h,{k:v for k,v in H[h].items() if v},dict(cov[h]))
for k,v in viol.items():
    r=v[0]; print('!!',k,len(v)); 
    for r in v[:3]: print('      ',[bytes.fromhex(x) for x in r['notes']],[bytes.fromhex(x) for x in r['obs']])
print({k:(round(v,1) if isinstance(v,float) else v) for k,v in st.items()}); print(end)
for f in sorted(forks,key=lambda f:-f['n'])[:15]: print(f)
