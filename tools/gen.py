#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/claims.py."""
import json,os,sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
sys.path.insert(0,here)
import props, claims
ids=[p['id'] for p in props.P]; assert len(ids)==len(set(ids))
for p in props.P: assert len(p['title'])<=80,(p['id'],len(p['title']))
open(root+'/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in props.P))
checks=[];na=[]
for i in ids:
    if i in claims.CLAIMS:
        c=claims.CLAIMS[i]
        checks.append(dict(property=i,quick_cmd=f'./check {i}',thorough_cmd=f'VERIF_TIER=thorough ./check {i}',evidence_file=f'evidence/{i}.json',
          technique=c.get('technique',claims.TECH),level=c.get('level','model_checking'),level_note=c['note']))
    else:
        na.append(dict(property=i,reason=claims.NA.get(i,claims.PENDING)))
m=dict(version=1,setup_cmd=claims.SETUP,checks=checks,not_applicable=na,notes=claims.NOTES)
if claims.HOOKS: m['hooks']=claims.HOOKS
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not applicable')
