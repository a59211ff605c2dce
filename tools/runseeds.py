#!/usr/bin/env python3
"""runseeds.py [id...]: applies each seeded change to /repo, runs its property's check, undoes it; prints which are caught."""
import sys,os,json,subprocess
S='/verif/seeded'
ids=sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    m=json.load(open(f'{S}/{i}/meta.json')); p=m['property']
    if subprocess.run(['git','-C','/repo','apply',f'{S}/{i}/patch.diff']).returncode: print(i,'DOES NOT APPLY'); continue
    try:
        r=subprocess.run(['./check',p],cwd='/verif',stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    finally: subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION property='+p)]
    o=[l for l in r.stdout.splitlines() if 'check "' in l or l.startswith('INCONC')]
    print(i,p,'CAUGHT' if r.returncode==1 and v else 'MISSED rc=%d'%r.returncode,(o or r.stdout.splitlines()[-2:])[:2],flush=True)
