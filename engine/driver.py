"""Runs one registered check: build, explore, discharge, replay, evidence."""
import sys,os,json,time,subprocess,multiprocessing as mp,threading,struct,traceback,hashlib,shutil,signal
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
sys.path.insert(0,HERE)
sys.setrecursionlimit(200000)
import exec as X, discharge as D, smt
from terms import *
ENV=dict(os.environ,RUSTUP_TOOLCHAIN='nightly-2026-04-01',CARGO_NET_OFFLINE='true',CARGO_INCREMENTAL='0',CARGO_TERM_COLOR='never',RUSTC_WRAPPER='')
BUILD=os.environ.get('VERIF_BUILD',ROOT+'/build')
def log(*a): print(*a,file=sys.stderr,flush=True)
class BuildError(Exception): pass
FLAGS='--emit=llvm-ir,link,metadata -Zshare-generics=no -Ccodegen-units=1'
def build(crate,release=False,feature_flags='',vec=False):
    d=ROOT+'/harness/'+crate
    tgt=BUILD+'/'+crate
    env=dict(ENV)
    cmd=['cargo','build','--offline','--message-format=json','--target-dir',tgt]
    if release:
        cmd.append('--release'); env['RUSTFLAGS']=feature_flags
    else:
        env['RUSTFLAGS']=FLAGS+('' if vec else ' -Cno-vectorize-loops -Cno-vectorize-slp')+' '+feature_flags
    p=subprocess.run(cmd,cwd=d,env=env,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True)
    if p.returncode!=0:
        msg=[]
        for l in p.stdout.splitlines():
            try:
                j=json.loads(l)
                if j.get('reason')=='compiler-message' and j['message']['level']=='error': msg.append(j['message'].get('rendered',''))
            except ValueError: pass
        raise BuildError('\n'.join(msg)[:4000]+p.stderr[-2000:])
    lls=[];exe=None
    for l in p.stdout.splitlines():
        try: j=json.loads(l)
        except ValueError: continue
        if j.get('reason')!='compiler-artifact': continue
        if j.get('executable') and 'bin' in j['target']['kind']: exe=j['executable']
        if 'proc-macro' in j['target']['kind'] or 'custom-build' in j['target']['kind'] or 'bin' in j['target']['kind']: continue
        for f in j['filenames']:
            b=os.path.basename(f)
            if b.startswith('lib') and (b.endswith('.rlib') or b.endswith('.rmeta')):
                x=os.path.join(tgt,'debug/deps',b[3:].rsplit('.',1)[0]+'.ll')
                if os.path.exists(x) and x not in lls: lls.append(x)
    return exe,[x for x in lls if not os.path.basename(x).startswith(('symrt-','libm-'))]
# ------------------------------------------------------------------ worker
G={}
def work(task):
    res={}
    def go():
        try: res['r']=_work(task)
        except BaseException as e:
            res['r']=dict(error=''.join(traceback.format_exception_only(type(e),e)).strip()+' '+traceback.format_exc()[-1500:],new=[],harness=task[0])
    if threading.current_thread() is threading.main_thread() and not G.get('bigstack'):
        pass
    go()
    return res['r']
def _work(task):
    h,prefix,lo,hi,tmo=task
    cfg=G['cfg'][h]; prog=G['prog']
    for k in list(smt.STAT):
        if k!='bysolver': smt.STAT[k]=0
    smt.STAT['bysolver']={}
    for k in D.STAT: D.STAT[k]=0
    t0=time.time()
    p=X.Path(prog,cfg,prefix)
    end='ret';info=''
    try: p.run(h)
    except X.Infeasible: end='infeasible'
    except X.Panic as e: end='panic'; info=str(e)
    except X.Unsupported as e: end='unsupported'; info=str(e)
    except X.Budget as e: end='budget'; info=str(e)
    out=dict(harness=h,end=end,info=info,new=[],checks=[],reached=[],steps=p.steps,blocks=p.blocks,funcs=sorted(p.funcs),notes=sorted(p.notes|p.stubs),
      dec=len(p.dec),inputs={n:(i['kind'],i['lo'],i['hi']) for n,i in p.inputs.items()},prefix=prefix,unknown_forks=p.unknown_forks,trace=None)
    if lo is None:
        out['new']=[(h,np,None,None,tmo) for np in p.newprefix]
        fresh=[c for c in p.checks if c['dec']>=len(prefix)]
        # checks before the last forced decision were discharged by the parent path
        if len(fresh)>cfg.chunk:
            full=p.dec
            for i in range(cfg.chunk,len(fresh),cfg.chunk):
                out['new'].append((h,full,len(p.checks)-len(fresh)+i,min(len(p.checks),len(p.checks)-len(fresh)+i+cfg.chunk),tmo))
            fresh=fresh[:cfg.chunk]
        first=True
    else:
        fresh=p.checks[lo:hi]; first=False
    out['npc']=len(p.pc); out['first']=first
    for c in fresh:
        t1=time.time()
        r=D.discharge(p,c,tmo)
        r.update(label=c['label'],kind=c['kind'],t=time.time()-t1)
        if r['status']!='proved' and G.get('verbose'): r['goal']=[show(g[0],8)[:600] for g in D.goals(c)]
        out['checks'].append(r)
    if first and end=='panic' and not p.panic_ok:
        r=D.discharge_panic(p,tmo); r.update(label='panic: '+info[:200],kind='panic',t=0.0)
        out['checks'].append(r)
    if first and end in('unsupported','budget'):
        r=D.discharge_panic(p,tmo)
        if r['status']=='proved': out['end']='infeasible'
        elif end=='budget': r.update(label='terminates: '+info[:100],kind='hang',t=0.0); out['checks'].append(r)
    if first and end in('ret','panic'): 
        # vacuity witness and translator validation
        out['reached']=sorted(p.reached)
        for k in range(40):
            if not D.simple(p): break
            env=D.sample(p,k,G['seed'],mode=0 if k%2==0 else 1); memo={}
            for n,i in p.inputs.items():
                if i.get('w')==32: env[n]=X._f32(env[n])
            try:
                if not D.holds(p.pc,env,memo): continue
                vals=[]
                for c in p.checks:
                    a=c['args']
                    def ev(x):
                        if isinstance(x,X.Special): return {'inf':float('inf'),'-inf':float('-inf'),'nan':float('nan')}[x.k]
                        if isinstance(x,T): return float(evalf(x,env,memo))
                        return float(x)
                    if c['kind']=='bool': vals.append((c['kind'],c['label'],float(bool(D.approx(a[0],env,memo))),1.0))
                    else: vals.append((c['kind'],c['label'],ev(a[0]),ev(a[1])))
                out['trace']=(D.encode(p,env),vals,end,max([abs(x) for v in vals for x in v[2:] if abs(x)<1e300] or [0.0]) if any(i.get('w')==32 for i in p.inputs.values()) else 0.0)
                break
            except (EvalError,OverflowError,ValueError,TypeError,ZeroDivisionError): continue
        if out['trace'] is None:
            # witness by solver
            r,m,L=D.smt_query(p.pc,TRUE,1,3.0,None)
            out['witness']=r
    out['smt']=dict(smt.STAT); out['stat']=dict(D.STAT); out['t']=time.time()-t0
    return out
def winit():
    signal.signal(signal.SIGINT,signal.SIG_IGN)
def wmain(tq,rq):
    threading.stack_size(1<<29)
    # signal.alarm needs the main thread: raise its stack via resource before fork instead
    while True:
        t=tq.get()
        if t is None: return
        rq.put(work(t))
# ------------------------------------------------------------------ native
def native(exe,h,lines,timeout=20):
    f=BUILD+'/in.%d.%s'%(os.getpid(),hashlib.md5(repr(lines).encode()).hexdigest()[:8])
    open(f,'w').write('\n'.join(lines)+'\n')
    try:
        p=subprocess.run([exe,h,f],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,timeout=timeout)
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 'timeout',''
    finally: os.unlink(f)
def parse_native(out):
    chk=[];panic=None;afail=False
    for l in out.splitlines():
        if l.startswith('CHK '):
            w=l.split(' # ')[0].split(' ')
            kind=w[1]; ok=w[-1] in('ok','near'); near=w[-1]=='near'; b=w[-2]; a=w[-3]; label=' '.join(w[2:-3])
            if kind=='ieq':
                cv=lambda x: float(struct.unpack('<q',struct.pack('<Q',int(x,16)))[0])
            else: cv=lambda x: struct.unpack('<d',struct.pack('<Q',int(x,16)))[0]
            chk.append((kind,label,cv(a),cv(b),ok,near))
        elif l.startswith('PANIC '): panic=l
        elif l.startswith('ASSUME-FAIL'): afail=True
    return chk,panic,afail
def close(a,b,sc=0.0):
    if a!=a and b!=b: return True
    if a==b: return True
    return abs(a-b)<=1e-5*max(abs(a),abs(b),sc)+1e-7
# ------------------------------------------------------------------ main
def run(pid,tier,seed,spec,verbose=False,only=None):
    t0=time.time()
    crate=spec['crate']
    deadline=t0+spec.get('deadline',560 if tier=='quick' else 3000)
    exe,lls=build(crate,vec=spec.get('vec',False),feature_flags=spec.get('rustflags',''))
    tb=time.time()-t0
    prog=X.Program(lls)
    pre=pid.lower()+'_'
    hs=sorted(n for n in prog.funcs if n.startswith(pre))
    if tier=='quick': hs=[h for h in hs if not h.endswith('_thorough')]
    if only: hs=[h for h in hs if h in only or any(h.startswith(o) for o in only)]
    if not hs: raise SystemExit('no harness for '+pid)
    tmo=spec.get('timeout',20.0)*(1 if tier=='quick' else 5)
    G['prog']=prog; G['seed']=seed; G['verbose']=verbose
    G['cfg']={}
    for h in hs:
        k=dict(spec.get('cfg',{})); k.update(spec.get('per',{}).get(h,{})); G['cfg'][h]=X.Cfg(**k)
    for h in hs: prog.funcs[h].parse()
    kf=[f for f in json.load(open(ROOT+'/known_findings.json')) if f['property']==pid and f['status']=='open']
    nproc=min(8,os.cpu_count() or 4)
    ctx=mp.get_context('fork')
    tq=ctx.Queue();rq=ctx.Queue()
    import resource
    ws=[ctx.Process(target=wmain,args=(tq,rq),daemon=True) for _ in range(nproc)]
    for w in ws: w.start()
    pend=0
    for h in hs: tq.put((h,[],None,None,tmo)); pend+=1
    results=[];violations=[];problems=[];npaths={h:0 for h in hs};maxpaths=spec.get('max_paths',4000)
    seenv=set();known_hit={}
    def stop():
        for w in ws:
            if w.is_alive(): w.kill()
        subprocess.run(['pkill','-P',str(os.getpid())],stderr=subprocess.DEVNULL) if False else None
    def confirm(h,c):
        """replay candidates natively in dev and release; -> (profile,lines,output) or None"""
        seen=set()
        for i,lines in enumerate(c['cands'][:12]):
            k=tuple(lines)
            if k in seen: continue
            seen.add(k)
            rcode,out=native(exe,h,lines)
            chk,panic,af=parse_native(out)
            bad=[x for x in chk if not x[4]]
            if af: continue
            if c['kind']=='panic':
                if panic or rcode in(-6,-4,-11,134,132,'timeout'): return ('dev',lines,out,rcode)
            elif c['kind']=='hang' and rcode=='timeout': return ('dev',lines,out+'\nthe compiled code did not finish within 20 s\n',rcode)
            elif any(x[1]==c['label'] for x in bad) : return ('dev',lines,out,rcode)
            elif bad or (panic and 'PANICOK true' not in out): return ('dev',lines,out,rcode)
            # the compiled sides differ by far less than the declared scale, but just as the exact sides do: rounding accounts for under 1% of the difference
            e=c['exact'][i] if i<len(c.get('exact') or ()) else None
            if e and rcode==0 and any(x[0]=='eq' and x[1]==c['label'] and x[5] and abs(x[2]-e[0])+abs(x[3]-e[1])<=0.01*abs(e[0]-e[1]) for x in chk):
                return ('dev',lines,out+'\nFAIL %s: the sides are %r and %r\n'%(c['label'],e[0],e[1]),rcode)
            if 'rel' not in G:
                G['rel']=build(crate,release=True,feature_flags=spec.get('rustflags',''))[0]
            rcode,out=native(G['rel'],h,lines)
            chk,panic,af=parse_native(out)
            bad=[x for x in chk if not x[4]]
            if not af and (bad or (panic and 'PANICOK true' not in out) or (c['kind']=='panic' and rcode in(-6,-4,-11,134,132))): return ('release',lines,out,rcode)
        return None
    stopnow=False
    while pend:
        left=deadline-time.time()
        if left<=0:
            problems.append('time budget exhausted with %d tasks left'%pend); break
        try: r=rq.get(timeout=min(left,5))
        except Exception:
            if not all(w.is_alive() for w in ws):
                problems.append('a worker died'); break
            continue
        pend-=1
        h=r['harness']
        if 'error' in r: problems.append('%s: internal error %s'%(h,r['error'])); continue
        for t in r['new']:
            npaths[h]+=1
            if npaths[h]>maxpaths: problems.append('%s: path limit'%h) if npaths[h]==maxpaths+1 else None; continue
            tq.put(t); pend+=1
        results.append(r)
        if verbose: log('%s end=%s %s checks=%s t=%.2f steps=%d dec=%d new=%d'%(h,r['end'],r['info'][:100],[(c['label'],c['status'],c['how'],round(c['t'],2)) for c in r['checks'] if verbose>1 or c['status']!='proved' or c['t']>3],r['t'],r['steps'],r['dec'],len(r['new'])))
        if r['end'] in('unsupported','budget'): problems.append('%s: %s: %s'%(h,r['end'],r['info']))
        for c in r['checks']:
            if c['status']=='proved': continue
            f=next((f for f in kf if f['harness']==h and (f['label']==c['label'] or c['label'].startswith(f['label']))),None)
            if f:
                known_hit[f['id']]=f; continue
            v=confirm(h,c) if c['cands'] else None
            if v:
                if (h,c['label']) not in seenv:
                    seenv.add((h,c['label'])); violations.append((h,c,v))
                stopnow=True
            else:
                problems.append('%s: %s: %s'%(h,c['label'],'solver verdict unknown' if c['status']=='unknown' else 'counterexample did not reproduce')+(' '+str(c.get('goal'))+' '+str(c['cands'][:2]) if verbose else ''))
        if stopnow: break
    stop()
    # translator validation
    val=0;mism=[]
    if not violations:
        per={}
        for r in results:
            if r.get('trace') and per.get(r['harness'],0)<4:
                per[r['harness']]=per.get(r['harness'],0)+1
                lines,vals,end,sc=r['trace']
                rcode,out=native(exe,r['harness'],lines)
                chk,panic,af=parse_native(out)
                if af: continue
                ok=len(chk)==len(vals) and all(a[0]==b[0] and a[1]==b[1] and (close(a[2],b[2],sc) and close(a[3],b[3],sc)) for a,b in zip(chk,vals)) and (panic is not None)==(end=='panic')
                if ok: val+=1
                else:
                    bad=next(((a,b) for a,b in zip(chk,vals) if not(a[0]==b[0] and a[1]==b[1] and close(a[2],b[2]) and close(a[3],b[3]))),(len(chk),len(vals),panic,end,rcode))
                    mism.append('%s: %s'%(r['harness'],bad))
        for m in mism: 
            if verbose: log('validation mismatch',m)
        if len(mism)>max(1,val//4): problems.append('encoding disagrees with the compiled code: '+mism[0])
        # vacuity: each harness must complete a feasible path and each reach label be hit
        for h in hs:
            rs=[r for r in results if r['harness']==h]
            if not any(r['end'] in('ret','panic') and (r.get('trace') or r.get('witness')=='sat') for r in rs if r['first']):
                problems.append('%s: vacuous (no feasible completed path with a witness)'%h)
    for f in kf:
        if f['id'] in known_hit: print('KNOWN-FINDING: property=%s %s'%(pid,f['what']))
        elif not only and not violations and tier in f.get('tiers',['quick','thorough']): log('note: known finding %s no longer fails'%f['id'])
    for h,c,(prof,lines,out,rcode) in violations:
        d=BUILD+'/replay'; os.makedirs(d,exist_ok=True)
        path='%s/%s_%s.txt'%(d,pid,h)
        open(path,'w').write('harness %s\ncheck %s\nprofile %s\ninputs:\n%s\noutput (exit %s):\n%s\n'%(h,c['label'],prof,'\n'.join(lines),rcode,out))
        print('VIOLATION property=%s replay=%s'%(pid,path)); print('  harness %s, check "%s" (%s profile)'%(h,c['label'],prof))
        for l in out.splitlines():
            if 'FAIL' in l or l.startswith('PANIC'): print('   ',l)
    # evidence
    ob=[c for r in results for c in r['checks']]
    sm={k:sum(r['smt'][k] for r in results) for k in('queries','time','unsat','sat','unknown')}
    by={}
    for r in results:
        for k,v in r['smt']['bysolver'].items(): by[k]=by.get(k,0)+v
    st={k:sum(r['stat'][k] for r in results) for k in D.STAT}
    funcs=sorted(set(f for r in results for f in r['funcs']))
    inputs={h:next((r['inputs'] for r in results if r['harness']==h and r['inputs']),{}) for h in hs}
    notes=sorted(set(n for r in results for n in r['notes']))
    ev=dict(property=pid,tier=tier,seed=seed,level=spec.get('level','model_checking'),
      coverage=dict(states=sum(r['blocks'] for r in results),transitions=sum(r['steps'] for r in results),traces_validated_against_impl=val,
        paths=len([r for r in results if r['first']]),infeasible_paths=len([r for r in results if r['end']=='infeasible']),
        obligations=len(ob),discharged=len([c for c in ob if c['status']=='proved']),
        discharged_by=dict(constant_folding=st['const'],ring_identity=st['ring_exact'],ring_identity_up_to_coefficient_rounding_1e12=st['ring_coef'],smt_unsat=st['smt'],infeasible_path=st['pc_unsat']),
        solver_queries=sm['queries'],solver_time_s=round(sm['time'],2),solver_unsat=sm['unsat'],solver_sat=sm['sat'],solver_unknown=sm['unknown'],solvers=by,
        functions_encoded=[f for f in funcs][:400],functions_encoded_count=len(funcs),
        bounds=dict(inputs={h:{n:list(v) for n,v in inputs[h].items()} for h in hs},note=spec.get('bounds',''),loops='all loops run to completion on every path (budget %d steps, no truncation: a hit budget is an error)'%G['cfg'][hs[0]].max_steps),
        samples=[dict(harness=r['harness'],inputs=r['trace'][0][:12],checks=[list(v) for v in r['trace'][1][:4]]) for r in results if r.get('trace')][:3] or [dict(harness=r['harness'],decisions=r['dec']) for r in results][:2],
        build_s=round(tb,1),known_findings=sorted(known_hit)),
      assumptions=spec.get('assumptions',[])+['states = basic blocks executed symbolically, transitions = IR instructions executed symbolically, summed over paths']+notes,
      wall_s=round(time.time()-t0,2),violations=len(violations))
    if ev['level']=='other': ev['coverage']['explanation']=spec.get('explanation','')
    os.makedirs(ROOT+'/evidence',exist_ok=True)
    json.dump(ev,open(ROOT+'/evidence/%s.json'%pid,'w'),indent=1,default=str)
    if violations: return 1
    if problems:
        for p in sorted(set(problems))[:20]: print('INCONCLUSIVE',p[:1500])
        return 2
    print('OK %s: %d harnesses, %d paths, %d obligations discharged, %d solver queries (%.1fs), %d traces validated, %.1fs'%(pid,len(hs),ev['coverage']['paths'],ev['coverage']['discharged'],sm['queries'],sm['time'],val,time.time()-t0))
    return 0
def main():
    import checks
    a=sys.argv[1:]
    verbose=0
    while '-v' in a: a.remove('-v'); verbose+=1
    pid=a[0]
    tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1') or 1)
    os.makedirs(BUILD,exist_ok=True)
    try: r=run(pid,tier,seed,checks.CHECKS[pid],verbose,a[1:] or None)
    except BuildError as e:
        print('BUILD-ERROR',e); r=2
    sys.stdout.flush()
    os._exit(r)
if __name__=='__main__':
    main()
