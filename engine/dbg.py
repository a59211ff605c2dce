"""dbg.py <pid> <harness> [prefix]: explore one harness serially and print the leaf conditions"""
import sys; sys.setrecursionlimit(100000)
sys.path.insert(0,'/verif/engine')
import driver as V, checks, exec as X
from terms import *
def load(pid):
    spec=checks.CHECKS[pid]; exe,lls=V.build(spec['crate'],vec=spec.get('vec',False),feature_flags=spec.get('rustflags',''))
    return X.Program(lls),spec
def explore(prog,h,cfg,maxp=200):
    todo=[[]];out=[]
    while todo and len(out)<maxp:
        p=X.Path(prog,cfg,todo.pop()); e='ret'
        try: p.run(h)
        except Exception as ex: e=type(ex).__name__+': '+str(ex)
        out.append((p,e)); todo+=p.newprefix
    return out
if '-u' in sys.argv:
    _sat=X.Path.sat
    def sat(s,c,timeout=None):
        import time; t=time.time(); r=_sat(s,c,timeout)
        if r!='unsat': print('   ?',r,'%.1f'%(time.time()-t),show(c,6)[:400],flush=True)
        return r
    X.Path.sat=sat
if __name__=='__main__':
    prog,spec=load(sys.argv[1]); h=sys.argv[2]
    k=dict(spec.get('cfg',{})); k.update(spec.get('per',{}).get(h,{}))
    prog.funcs[h].parse()
    for p,e in explore(prog,h,X.Cfg(**k)):
        print('---',e,len(p.pc),'steps',p.steps,'dec',p.dec)
        if '-p' in sys.argv:
            for c in p.pc: print('   ',show(c,9)[:300])
        if '-c' in sys.argv:
            for c in p.checks: print('  >',c['kind'],c['label'],[show(a,9)[:400] if isinstance(a,T) else a for a in c['args']])
