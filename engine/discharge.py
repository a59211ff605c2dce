"""Turning one obligation of one path into a verdict."""
import math,random,signal,struct,time,hashlib
from terms import *
from lower import Lower,LowerError
import nf as NFM, smt
from exec import Special,isT,Unsupported,MASK,sg,fpcmp
class Timeout(Exception): pass
def _alarm(*a): raise Timeout()
class limit:
    def __init__(s,t): s.t=t
    def __enter__(s):
        s.old=signal.signal(signal.SIGALRM,_alarm); signal.setitimer(signal.ITIMER_REAL,s.t)
    def __exit__(s,*a):
        signal.setitimer(signal.ITIMER_REAL,0); signal.signal(signal.SIGALRM,s.old)
STAT={'ring_exact':0,'ring_coef':0,'smt':0,'const':0,'interval':0,'pc_unsat':0}
def goals(c):
    """list of (term goal, eqpair or None) whose conjunction is the check"""
    k=c['kind'];a=c['args']
    if k=='bool': return split(a[0])
    if k=='eq':
        x,y=a[0],a[1]
        if isinstance(x,Special) or isinstance(y,Special):
            ok=isinstance(x,Special) and isinstance(y,Special) and x.k==y.k and x.k!='nan'
            return [(bconst(ok),None)]
        if not isT(x) or not isT(y): return [(FALSE,None)]
        if isinstance(x.sort,tuple): return [(fpcmp('feq',x,y),None)]
        return [(req(x,y),(x,y))]
    if k in('le','lt'):
        x,y=a[0],a[1]
        if isinstance(x,Special) or isinstance(y,Special):
            v=lambda t:{'inf':math.inf,'-inf':-math.inf,'nan':math.nan}[t.k] if isinstance(t,Special) else 0.0
            return [(bconst(v(x)<=v(y) if k=='le' else v(x)<v(y)),None)]
        if isinstance(x.sort,tuple): return [(fpcmp('fle' if k=='le' else 'flt',x,y),None)]
        return [((rle if k=='le' else rlt)(x,y),None)]
    if k=='ang':
        x,y=a
        if isinstance(x,Special) or isinstance(y,Special): return [(FALSE,None)]
        d=rsub(x,y)
        if d is R0: return [(TRUE,None)]
        S,C=uf('sin',d),uf('cos',d)
        return [(req(S,R0),(S,R0)),(req(C,R1),(C,R1))]
    if k=='ieq':
        x,y=a
        if isT(x) and isinstance(x.sort,tuple) or isT(y) and isinstance(y.sort,tuple):
            from exec import bveq,bvc
            w=64
            x=x if isT(x) else bvc(x,w); y=y if isT(y) else bvc(y,w)
            return [(bveq(x,y),None)]
        if not isinstance(x,(int,T)) or not isinstance(y,(int,T)): return [(FALSE,None)]
        return [(ieq(x,y),None)]
    raise Exception(k)
def split(g):
    if g.op=='and': return split(g.args[0])+split(g.args[1])
    if g.op=='=' : return [(g,(g.args[0],g.args[1]))]
    return [(g,None)]
def pcslice(path,pc,roots):
    save=path.pc
    path.pc=pc
    try: return path.slice(roots)
    finally: path.pc=save
RTOL=[Fraction(1,10**12)]
def ring(pc,pair,tmo,full=None):
    r=ring1(pc,pair,tmo,full)
    if r is None and any(t.op in('exp','pow') or t is PI for t in subterms(pair)): r=ring1(pc,pair,tmo,full,True)
    return r
def ring1(pc,pair,tmo,full,pf=False):
    try:
        with limit(tmo):
            eqs=[c for c in pc if c.op=='=']
            L=Lower([pair[0],pair[1]]+[x for c in eqs for x in c.args],pf)
            a=L.low(pair[0]); b=L.low(pair[1])
            n=L.nfrules([rsub(L.low(c.args[0]),L.low(c.args[1])) for c in eqs],positive(full if full is not None else pc))
            n.iteatom=True
            return n.eq_zero(a,b,RTOL[0])
    except (NFM.TooBig,Timeout,LowerError,ZeroDivisionError,RecursionError): return None
def positive(pc):
    """-> sign(q): 1, -1 or None, the sign of the term q under the path condition, decided by SMT"""
    def sign(q):
        for neg,v in ((rlt(q,R0),1),(rlt(R0,q),-1)):
            if neg is FALSE: return v
            if neg is TRUE: continue
            key=(neg.id,tuple(c.id for c in pc))
            if key not in _signs:
                r='unknown'
                for lvl,t in((0,0.5),(1,2.0)):
                    r,_,_=smt_query(pc,neg,lvl,t,portfolio=False)
                    if r=='unsat': break
                _signs[key]=r
            if _signs[key]=='unsat': return v
        return None
    return sign
_signs={}
def smt_query(pc,neg,level,timeout,getvals=None,portfolio=True,extra=()):
    try:
        with limit(30):
            al=list(pc)+[neg]+list(extra)
            L=Lower(al)
            lo=[L.low(c) for c in al]
            L.finish()
    except (Timeout,RecursionError,LowerError): return 'unknown',None,None
    ax=list(L.ax0)
    if level>=1: ax+=L.ax1
    if level>=2: ax+=L.ax2
    back=[(t,v) for (m,u,S,C) in L.back for t,v in ()]
    gv=getvals
    if getvals is not None:
        gv=list(getvals)
        for m,u,S,C in L.back: gv+=[S.args[0],C.args[0]]
    r,m=smt.check(lo+ax,timeout,gv,portfolio)
    return r,m,L
def prove(path,pc,goal,pair,tmo):
    """-> ('proved',how) | ('sat',model,L) | ('unknown',None,None)"""
    if goal is TRUE: STAT['const']+=1; return ('proved','const')
    if goal is not FALSE and path.icmp_by_range(goal) is True: STAT['interval']+=1; return ('proved','interval')
    full=pc
    sl=pcslice(path,pc,[goal]) if goal is not FALSE else pc
    if pair is not None and goal is not FALSE:
        r=ring(sl,pair,max(tmo,10),pcslice(path,pc,[goal]))
        if r: STAT['ring_'+('exact' if r=='exact' else 'coef')]+=1; return ('proved','ring '+r)
    neg=bnot(goal)
    # concretised evaluation first: a quick way to a counterexample
    cand=sample_violations(path,pc,goal,pair,60,1)
    if cand: return ('cand',cand,None)
    gv=[n for n in path.inputs]
    sat=None
    for lvl,t in ((0,min(2.0,tmo)),(1,min(5.0,tmo)),(2,tmo)):
        if lvl<2 and not any(x.sort=='R' for x in tvars(goal)) and not any(x.sort=='R' for c in sl for x in tvars(c)): continue
        r,m,L=smt_query(sl,neg,lvl,t,gv,portfolio=t>2)
        if r=='unsat': STAT['smt']+=1; return ('proved','smt')
        if r=='sat':
            sat=(m,L)
            if L is None or (not L.ax1 and not L.ax2): break
    if sat is None or len(sl)<len(full):
        r,m,L=smt_query(full,neg,2,tmo,gv)
        if r=='unsat': STAT['smt']+=1; return ('proved','smt')
        if r=='sat': return ('sat',m,L)
    if sat: return ('sat',)+sat
    return ('unknown',None,None)
# ------------------------------------------------------------------ inputs from models and samples
def rnd_for(seed,*k):
    return random.Random(int(hashlib.sha256(repr((seed,)+k).encode()).hexdigest()[:16],16))
def sample_value(inp,r,mode):
    k=inp['kind'];lo,hi=inp['lo'],inp['hi']
    if k=='b': return r.random()<0.5
    if k in('i','u','bv','bvu'):
        if k in('bv','bvu') and lo is None: lo,hi=-(1<<63),(1<<63)-1
        c=r.randrange(6)
        if c==0: return min(hi,max(lo,r.randint(-5,5)))
        if c==1: return r.randint(lo,hi)
        if c==2: return min(hi,max(lo,r.choice([lo,hi,lo+1,hi-1,0,1])))
        if c==3: return min(hi,max(lo,int(r.choice([-1,1])*2**(r.random()*63))))
        if c==4: return min(hi,max(lo,r.randint(-2000,2000)))
        return min(hi,max(lo,int(r.choice([-1,1])*10**(r.random()*12))))
    if k in('f32','f64'):
        a=-100.0 if lo is None or lo!=lo or lo<-1e300 else lo; b=100.0 if hi is None or hi!=hi or hi>1e300 else hi
        v=r.choice([a,b,0.0,1.0,r.uniform(a,b),r.uniform(a,b),r.uniform(max(a,-2.0),min(b,2.0)) if max(a,-2.0)<min(b,2.0) else a])
        return min(b,max(a,v))
    # reals
    if lo is not None and hi is not None:
        c=r.randrange(8) if mode!=0 else 3
        if c==0: return r.choice([lo,hi])
        if c==1: v=float(r.randint(-3,3)); return min(hi,max(lo,v))
        if c==2 and lo>=0 and hi>lo: return math.exp(r.uniform(math.log(lo+1e-3),math.log(hi+1e-3)))if hi+1e-3>0 else lo
        if c==4: return lo+(hi-lo)*r.random()**6
        if c==5: return hi-(hi-lo)*r.random()**6
        if c==6:
            v=r.uniform(-2,2); 
            if lo<=v<=hi: return v
        return r.uniform(lo,hi)
    if lo is not None: return lo+r.choice([0.0,1.0,r.random(),10*r.random(),1000*r.random()]) if mode else lo+0.1+2*r.random()
    if hi is not None: return hi-r.choice([0.0,1.0,r.random(),10*r.random(),1000*r.random()]) if mode else hi-0.1-2*r.random()
    c=r.randrange(6) if mode!=0 else 2
    if c==0: return float(r.randint(-3,3))
    if c==1: return r.uniform(-100,100)
    if c==5: return r.choice([0.0,1.0,-1.0,0.5])
    return r.uniform(-2.5,2.5)
def sample(path,k,seed=1,mode=1):
    env={};units={}
    for n in path.order:
        i=path.inputs[n]
        if i['kind']=='f' and 'unit' in i:
            nm,idx,cnt=i['unit']
            if nm not in units:
                r=rnd_for(seed,k,nm)
                v=[r.gauss(0,1) if mode==0 or r.random()<0.85 else 0.0 for _ in range(cnt)]
                q=math.sqrt(sum(x*x for x in v)) or None
                if q is None: v=[0.0]*cnt; v[r.randrange(cnt)]=1.0; q=1.0
                units[nm]=[x/q for x in v]
            env[n]=units[nm][idx]
        else: env[n]=sample_value(i,rnd_for(seed,k,n),mode)
    return env
def env_terms(path,env):
    """environment for evalf: variable name -> value"""
    return env
def holds(pc,env,memo):
    for c in pc:
        try: v=approx(c,env,memo)
        except EvalError: return None
        if v is not True and v is not False and not v: return False
        if not v: return False
    return True
def approx(c,env,memo):
    if c.op=='=':
        a=evalf(c.args[0],env,memo);b=evalf(c.args[1],env,memo)
        return abs(a-b)<=1e-9*max(1.0,abs(a),abs(b))
    if c.op=='not' and c.args[0].op=='=':
        a=evalf(c.args[0].args[0],env,memo);b=evalf(c.args[0].args[1],env,memo)
        return abs(a-b)>1e-12*max(1.0,abs(a),abs(b))
    if c.op=='not': return not approx(c.args[0],env,memo)
    if c.op=='and': return approx(c.args[0],env,memo) and approx(c.args[1],env,memo)
    if c.op=='ite': return approx(c.args[1] if approx(c.args[0],env,memo) else c.args[2],env,memo)
    return evalf(c,env,memo)
def margin(goal,pair,env,memo):
    """how badly the goal fails at env (<=0: holds)"""
    if pair is not None:
        a=evalf(pair[0],env,memo);b=evalf(pair[1],env,memo)
        if a!=a or b!=b: return 0.0
        return abs(a-b)/max(1e-300,max(abs(a),abs(b)),1e-6) - 1e-7
    g=goal;s=1
    if g.op=='not': g=g.args[0]; s=-1
    if g.op=='<':
        a=evalf(g.args[0],env,memo);b=evalf(g.args[1],env,memo)
        if a!=a or b!=b: return 0.0
        d=(a-b)*s
        return d/max(1e-9,abs(a),abs(b)) - 1e-8
    v=approx(goal,env,memo)
    return 0.0 if v else 1.0
def mpconfirm(goal,pair,env):
    """re-evaluates the failing comparison with 60 digits: False when the failure was rounding of the evaluation"""
    try:
        memo={}
        if pair is not None:
            a=evalmp(pair[0],env,memo);b=evalmp(pair[1],env,memo)
            return abs(a-b)>1e-9*max(abs(a),abs(b),1e-6)
        g=goal;s=1
        if g.op=='not': g=g.args[0]; s=-1
        if g.op!='<': return True
        a=evalmp(g.args[0],env,memo);b=evalmp(g.args[1],env,memo)
        return (a-b)*s>1e-10*max(1e-9,abs(a),abs(b))
    except Exception: return True
def simple(path): return all(i['kind'] in('f','i','u','b') for i in path.inputs.values())
def sample_violations(path,pc,goal,pair,tries,want,seed=1):
    if not simple(path): return []
    out=[]
    for k in range(tries):
        env=sample(path,k,seed,mode=0 if k%3==0 else 1); memo={}
        try:
            if not holds(pc,env,memo): continue
            m=margin(goal,pair,env,memo) if goal is not FALSE else 1.0
        except (EvalError,OverflowError,ZeroDivisionError,ValueError,TypeError): continue
        if m>0:
            if not mpconfirm(goal,pair,env): continue
            out.append((m,env))
            if len(out)>=want*3 : break
    out.sort(key=lambda x:-x[0])
    return [e for _,e in out[:want]]
def residual(c,env,memo):
    """how far the condition c is from holding at env (0: holds)"""
    neg=False
    while c.op=='not': c=c.args[0]; neg=not neg
    if c.op=='and':
        if not neg: return sum(residual(a,env,memo) for a in c.args)
        return min(residual(bnot(a),env,memo) for a in c.args)
    if c.op in('<','=') and c.args[0].sort in('R','I'):
        a=evalf(c.args[0],env,memo);b=evalf(c.args[1],env,memo)
        if a!=a or b!=b or abs(a)==math.inf or abs(b)==math.inf: return 10.0
        sc=max(1e-6,abs(a),abs(b)); d=(a-b)/sc
        if c.op=='=': return (1.0 if abs(d)<=1e-12 else 0.0) if neg else (0.0 if abs(d)<=1e-9 else abs(d)+1e-9)
        if neg: return max(0.0,-d)
        return 0.0 if d<0 else d+1e-7
    return 0.0 if bool(approx(c,env,memo))!=neg else 1.0
def descend(path,pc,goal,pair,seeds,seconds,want=2):
    """local search from models and samples towards inputs that satisfy the path condition and break the goal;
    used only to turn a verdict that is not a proof into a concrete run"""
    if not simple(path): return []
    t1=time.time()+seconds; out=[]; k=0; neg=bnot(goal)
    ns=list(path.order)
    groups={}
    for n in ns:
        if 'unit' in path.inputs[n]: groups.setdefault(path.inputs[n]['unit'][0],[]).append(n)
    def cost(env):
        memo={}
        try:
            r=0.0
            for c in pc: r+=10*residual(c,env,memo)
            if goal is FALSE: return r
            g=residual(neg,env,memo)
            if r==0 and g==0:
                if margin(goal,pair,env,memo)>0: return 0.0
                return 1e-6
            return r+g
        except (EvalError,OverflowError,ZeroDivisionError,ValueError,TypeError): return 1e9
    while time.time()<t1 and len(out)<want:
        r=rnd_for(11,k)
        env=dict(seeds[k]) if k<len(seeds) else sample(path,3000+k,5,mode=k%2)
        k+=1
        best=cost(env); stale=0
        while best>0 and stale<150 and time.time()<t1:
            e=dict(env)
            for n in r.sample(ns,min(len(ns),r.choice((1,1,1,2,3)))):
                i=path.inputs[n]
                if i['kind'] in('f','f64','f32'):
                    lo=i['lo'] if i['lo'] is not None else -1e3; hi=i['hi'] if i['hi'] is not None else 1e3
                    c=r.random()
                    if c<0.1: v=r.uniform(lo,hi)
                    elif c<0.55: v=e[n]+r.gauss(0,1)*(hi-lo)*10**r.uniform(-5,0)
                    else: v=e[n]*(1+r.gauss(0,1)*10**r.uniform(-4,0))
                    e[n]=v if 'unit' in i else min(hi,max(lo,v))
                else: e[n]=sample_value(i,r,1)
            for g,m in groups.items():
                q=math.sqrt(sum(e[x]**2 for x in m))
                if q>0:
                    for x in m: e[x]/=q
            v=cost(e)
            if v<best: env,best,stale=e,v,0
            else: stale+=1
        if best<=0 and (goal is FALSE or mpconfirm(goal,pair,env)): out.append(env)
    return out
def from_model(path,m,L):
    """concrete inputs from an SMT model of the lowered query"""
    env={}
    if m is None: m={}
    for n in path.order:
        i=path.inputs[n]; v=m.get(n)
        if i['kind'] in('i','u'):
            env[n]=int(v) if v is not None else (0 if i['lo']<=0<=i['hi'] else i['lo'])
        elif i['kind'] in('bv','bvu'): env[n]=int(v) if v is not None else 0
        elif i['kind']=='b': env[n]=bool(v)
        elif i['kind'] in('f32','f64'):
            env[n]=v if v is not None else 0.0
            if isinstance(v,tuple): env[n]=struct.unpack('<d' if v[2]==64 else '<f',v[1].to_bytes(v[2]//8,'little'))[0]
        else:
            env[n]=float(v) if v is not None else None
    # angles that only occur under sin/cos
    if L is not None:
        import lower
        for mkey,u,S,C in L.back:
            s_=m.get(S.args[0]); c_=m.get(C.args[0])
            if s_ is None or c_ is None: continue
            th=math.atan2(float(s_),float(c_))
            if len(mkey)==1:
                t=lower._byid.get(mkey[0])
                if t is not None and t.op=='v' and t.args[0] in path.inputs:
                    n=t.args[0]
                    if True:
                        base=th/float(u); per=2*math.pi/abs(float(u)); i=path.inputs[n]
                        lo=i['lo'] if i['lo'] is not None else -math.inf; hi=i['hi'] if i['hi'] is not None else math.inf
                        best=None
                        for kk in range(-6,7):
                            x=base+kk*per
                            if lo-1e-12<=x<=hi+1e-12:
                                d=abs(x-(env[n] if env[n] is not None else 0.0))
                                if best is None or d<best[0]: best=(d,x)
                        env[n]=best[1] if best else base
            elif len(mkey)==2:
                # pi * angle_in_degrees
                ts=[lower._byid.get(k) for k in mkey]
                if PI in ts:
                    t=[x for x in ts if x is not PI][0]
                    if t.op=='v' and t.args[0] in path.inputs: env[t.args[0]]=th/float(u)/math.pi
    for n in path.order:
        if env.get(n) is None:
            i=path.inputs[n]; lo,hi=i['lo'],i['hi']
            env[n]=0.0 if (lo is None or lo<=0) and (hi is None or hi>=0) else (lo if lo is not None else hi)
    for n in path.order:
        i=path.inputs[n]
        if i['kind']=='f' and 'unit' not in i and isinstance(env[n],float):
            if i['lo'] is not None: env[n]=max(env[n],i['lo'])
            if i['hi'] is not None: env[n]=min(env[n],i['hi'])
    # renormalise unit groups
    groups={}
    for n in path.order:
        i=path.inputs[n]
        if 'unit' in i: groups.setdefault(i['unit'][0],[]).append(n)
    for g,ns in groups.items():
        q=math.sqrt(sum(env[n]**2 for n in ns))
        if q>0:
            for n in ns: env[n]/=q
    return env
def encode(path,env):
    """lines for the replay input file"""
    out=[]
    for n in path.order:
        i=path.inputs[n];v=env[n];k=i['kind']
        if k in('f','f64'): b=struct.unpack('<Q',struct.pack('<d',float(v)))[0]
        elif k=='f32': b=struct.unpack('<Q',struct.pack('<d',float(v)))[0]
        elif k=='b': b=int(bool(v))
        else: b=int(v)&MASK(64)
        out.append('%s %016x'%(n,b))
    return out
_gmemo={};_gval={}
_CTOR={'+':radd,'*':rmul,'/':rdiv,'neg':rneg,'sqrt':rsqrt}
def ground(t):
    """t with every subterm free of inputs replaced by its value to 35 digits"""
    st=[t]
    while st:
        x=st[-1]
        if x.id in _gmemo: st.pop(); continue
        if x.sort=='R' and x.op not in('c','v') and not any(v.args[0]!='$pi' for v in tvars(x)):
            v=evalmp(x,{},_gval)
            if hasattr(v,'_mpf_'):
                import mpmath as mp
                with mp.workprec(120): v=+v
                sg,man,ex,_=v._mpf_
                if man or v==0:
                    q=Fraction(int(man))*Fraction(2)**ex*(-1 if sg else 1)
                    _gmemo[x.id]=rc(q if abs(q)>Fraction(1,10**40) else Fraction(0)); st.pop(); continue
            _gmemo[x.id]=x; st.pop(); continue
        pend=[a for a in x.args if isinstance(a,T) and a.id not in _gmemo]
        if pend: st.extend(pend); continue
        a=[_gmemo[y.id] if isinstance(y,T) else y for y in x.args]
        if all(p is q for p,q in zip(a,x.args)): _gmemo[x.id]=x
        elif x.op in _CTOR: _gmemo[x.id]=_CTOR[x.op](*a)
        elif x.sort=='R' and x.op in('sin','cos','tan','atan2','atan','asin','acos','exp','ln','pow','cbrt','sinh','cosh','tanh'): _gmemo[x.id]=uf(x.op,*a)
        else: _gmemo[x.id]=x
        st.pop()
    return _gmemo[t.id]
def discharge(path,c,tmo):
    """-> dict(status=proved|refuted|unknown, how, cands=[encoded inputs])"""
    pc=path.pc[:c['pc']]
    RTOL[0]=Fraction(path.cfg.ctol or 1e-12)
    how=[];cands=[];status='proved';exact=[]
    NFM.ABSTOL[0]=0
    for goal,pair in goals(c):
        t0=time.time()
        if path.cfg.ground and pair is not None:
            pair=(ground(pair[0]),ground(pair[1])); goal=req(*pair); NFM.ABSTOL[0]=Fraction(1,10**20)
        r=prove(path,pc,goal,pair,tmo)
        if r[0]=='proved': how.append(r[1]); continue
        if r[0]=='cand': cands+=[encode(path,e) for e in r[1]]; status='refuted'
        elif r[0]=='sat':
            e=from_model(path,r[1],r[2]); cands.append(encode(path,e)); status='refuted'
        else: status='unknown' if status!='refuted' else status
        more=sample_violations(path,pc,goal,pair,400,6,seed=7)
        cands+=[encode(path,e) for e in more]
        if status=='unknown' and more: status='refuted'
        if r[0]!='cand' and len(more)<3:
            st=[from_model(path,r[1],r[2])] if r[0]=='sat' else []
            more=descend(path,pc,goal,pair,st,6.0)
            cands+=[encode(path,e) for e in more]
            if status=='unknown' and more: status='refuted'
        if r[0]!='cand':
            cands+=pinned(path,pc,goal,tmo)
            if status=='unknown' and cands: status='refuted'
        if c['kind']=='eq' and pair is not None: exact=[exact_sides(path,pair,l) for l in cands[:12]]
        break
    return dict(status=status,how=how,cands=cands,exact=exact)
def exact_sides(path,pair,lines):
    """both sides of a failed equality at a replay input, to 60 digits (None when they do not differ materially)"""
    try:
        env={}
        for l in lines:
            n,h=l.rsplit(' ',1); k=path.inputs[n]['kind'] if n in path.inputs else None
            if k not in('f','f64','f32'): return None
            env[n]=struct.unpack('<d',struct.pack('<Q',int(h,16)))[0]
        memo={}; a=evalmp(pair[0],env,memo); b=evalmp(pair[1],env,memo)
        if not abs(a-b)>1e-9*max(abs(a),abs(b)): return None
        return float(a),float(b)
    except Exception: return None
def pinned(path,pc,goal,tmo):
    """ask the solver again with most inputs fixed to sampled values (partial concretisation)"""
    out=[]
    neg=bnot(goal)
    fl=[n for n in path.order if path.inputs[n]['kind']=='f']
    if not fl: return out
    t0=time.time()
    for k in range(12):
        if time.time()-t0>tmo: break
        env=sample(path,1000+k,3,mode=1)
        r=rnd_for(3,k,'pin')
        free=set(r.sample(fl,min(len(fl),1+k%3)))
        ex=[]
        for n in fl:
            if n in free or 'unit' in path.inputs[n]: continue
            ex.append(req(path.inputs[n]['term'],rc(Fraction(round(env[n]*8),8))))
        rr,m,L=smt_query(pc,neg,2,2.0,list(path.inputs),portfolio=False,extra=ex)
        if rr=='sat': out.append(encode(path,from_model(path,m,L)))
        if len(out)>=3: break
    return out
def discharge_panic(path,tmo):
    """is the path condition satisfiable?"""
    pc=path.pc
    cand=sample_violations(path,pc,FALSE,None,60,2)
    if cand: return dict(status='refuted',how=[],cands=[encode(path,e) for e in cand])
    gv=list(path.inputs)
    st='unknown';cands=[]
    for lvl,t in((0,3.0),(1,5.0),(2,tmo)):
        r,m,L=smt_query(pc,TRUE,lvl,t,gv)
        if r=='unsat': STAT['pc_unsat']+=1; return dict(status='proved',how=['infeasible'],cands=[])
        if r=='sat':
            st='refuted'; cands=[encode(path,from_model(path,m,L))]
            if L is None or not(L.ax1 or L.ax2): break
    cand=sample_violations(path,pc,FALSE,None,400,4,seed=9)
    cands+=[encode(path,e) for e in cand]
    if not cand and st!='proved':
        cand=descend(path,pc,FALSE,None,[],4.0)
        cands+=[encode(path,e) for e in cand]
    if cand: st='refuted'
    return dict(status=st,how=[],cands=cands)
