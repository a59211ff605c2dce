"""Symbolic executor for LLVM IR.  One Path object = one deterministic run under a list of forced decisions."""
import struct,re,time,math,sys
from terms import *
import llir
from llir import size_align,field_off,PTR
import smt,nf
from lower import Lower
from ival import Ival
class Unsupported(Exception): pass
class Infeasible(Exception): pass
class PathEnd(Exception): pass
class Panic(Exception): pass
class Budget(Exception): pass
class Special:
    __slots__=('k',)
    def __init__(s,k): s.k=k
    def __repr__(s): return '<'+s.k+'>'
INF=Special('inf'); NINF=Special('-inf'); NAN=Special('nan')
class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()
PURE={'fabs','sqrt','fma','fmuladd','sin','cos','tan','exp','log','atan','asin','acos','sinh','cosh','tanh','exp2','log2','log10','atan2','pow','exp10','powi','floor','ceil','trunc','round','rint','nearbyint','roundeven','minnum','maxnum','minimum','maximum','minimumnum','maximumnum','copysign','smax','smin','umax','umin','abs','scmp','ucmp'}
class Ptr:
    __slots__=('obj','off')
    def __init__(s,o,f): s.obj=o; s.off=f
    def __repr__(s): return 'Ptr(%s+%s)'%(s.obj.name if s.obj else None,s.off)
class FnPtr:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __repr__(s): return '@'+s.name
def reltarget(x):
    """target of a relative-pointer table entry trunc(sub(ptrtoint target, ptrtoint table))"""
    if x[0]=='cast' and x[1]=='trunc' and x[3][0]=='bin' and x[3][1]=='sub':
        a,b=x[3][3],x[3][4]
        if a[0]=='cast' and a[1]=='ptrtoint' and b[0]=='cast' and b[1]=='ptrtoint': return a[3],a[2]
    return None
class Raw:
    """bytes of mixed provenance held in an integer register: list of (off,size,value)"""
    __slots__=('n','p')
    def __init__(s,n,p): s.n=n; s.p=p
    def __repr__(s): return 'Raw%d%r'%(s.n,s.p)
class Obj:
    __slots__=('name','size','cells','base','alive','const','heap','rel')
    def __init__(s,name,size,base): s.name=name; s.size=size; s.cells={}; s.base=base; s.alive=True; s.const=False; s.heap=False
MASK=lambda w:(1<<w)-1
def sg(v,w):
    v&=(1<<w)-1
    return v-(1<<w) if v>>(w-1) else v
def isT(x): return isinstance(x,T)
class Program:
    def __init__(s,files):
        s.mods=[llir.Module(f) for f in files]
        s.funcs={}; s.globals={}
        for m in s.mods:
            for n,f in m.funcs.items(): s.funcs.setdefault(n,f)
            for n,g in m.globals.items():
                if n not in s.globals or s.globals[n][1].split()[0:1]==['external']: s.globals[n]=(m,g)
        for m in s.mods:
            for n,a in m.aliases.items():
                if a in s.funcs: s.funcs.setdefault(n,s.funcs[a])
        s.local={}
        for m in s.mods:
            s.local[m]=m
    def find(s,name,mod=None):
        if mod is not None and name in mod.funcs: return mod.funcs[name]
        f=s.funcs.get(name)
        if f is None and mod is not None and name in mod.aliases: f=s.find(mod.aliases[name],mod)
        return f
_polyn={}
def polyn(t):
    r=_polyn.get(t.id)
    if r is None: r=_polyn[t.id]=(all(x.op in('c','v','+','*','neg','<','=','not','and') and x.sort in('R','B') for x in subterms([t])),t)
    return r[0]
def nonneg(t,depth=0):
    """syntactically non-negative"""
    if depth>30: return False
    if t.op=='c': return t.args[0]>=0
    if t.op in('sqrt','exp','pow'): return True
    if t.op=='+': return all(nonneg(a,depth+1) for a in t.args)
    if t.op in('*','/'): return t.op=='*' and t.args[0] is t.args[1] or all(nonneg(a,depth+1) for a in t.args)
    if t.op=='ite':
        c,a,b=t.args
        def under(x,c): return nonneg(x,depth+1) or c.op=='<' and c.args[0] is R0 and c.args[1] is x or c.op=='not' and c.args[0].op=='<' and c.args[0].args[1] is R0 and c.args[0].args[0] is x
        return under(a,c) and under(b,bnot(c))
    return False
class Cfg:
    def __init__(s,**k):
        s.mode='real'      # real | fp
        s.ints='int'       # int | bv
        s.max_steps=2000000
        s.max_dec=400
        s.feas_timeout=1.0
        s.merge=False      # keep float selects as ite
        s.panic_ok=False
        s.goal_timeout=20.0
        s.ctol=None        # relative rounding of constants accepted by the ring normal form
        s.chunk=6
        s.ideal=True
        s.sqrtsimp=True    # resolve radicals of perfect squares
        s.cpu='all'       # detected processor features: all | none
        s.ground=False    # evaluate subterms free of inputs to 35 digits before discharging
        s.simp=False      # ring-simplify compared reals
        s.__dict__.update(k)
PANICRX=re.compile(r'panic|unwrap_failed|expect_failed|_fail|handle_error|handle_alloc_error|capacity_overflow|slice_index|abort|assert_failed|const_panic')
class Path:
    def __init__(s,prog,cfg,prefix=()):
        s.iv=Ival(); s.prog=prog; s.cfg=cfg; s.prefix=list(prefix); s.dec=[]; s.newprefix=[]
        s.pc=[]; s.pcset=set(); s.bounds={}; s.rmemo={}; s.smemo={}; s.unitfacts=[]; s.objs=[]; s.gobj={}; s.steps=0; s.blocks=0
        s.nextbase=0x10000
        s.inputs={}   # name -> dict(kind,lo,hi,term)
        s.order=[]
        s.checks=[]   # dicts
        s.reached=set(); s.funcs=set(); s.assumes=[]; s.depth=0; s.notes=set(); s.obs=[]
        s.feasq=0; s.unknown_forks=0; s.stubs=set(); s.equalities=[]
        s.R=cfg.mode=='real'; s.bv=cfg.ints=='bv'; s.panic_ok=cfg.panic_ok
        s.nsym=0; s.merge=cfg.merge; s.rdepth=0
    # ------------------------------------------------------------------ path condition
    def fact(s,c):
        if c is TRUE: return
        if c is FALSE: raise Infeasible()
        if c.id in s.pcset: return
        if c.op=='and':
            s.pcset.add(c.id); s.fact(c.args[0]); s.fact(c.args[1]); return
        s.pc.append(c); s.pcset.add(c.id)
        s.iv.fact(c)
        s.note_bounds(c)
    def note_bounds(s,c):
        neg=False
        if c.op=='not': neg=True; c=c.args[0]
        if c.op=='i<':
            a,b=c.args
            if not neg: # a<b  -> a<=b-1
                s.bound_le(a,b,-1)
            else: s.bound_le(b,a,0)   # b<=a
        elif c.op=='i=' and not neg:
            s.bound_le(c.args[0],c.args[1],0); s.bound_le(c.args[1],c.args[0],0)
    def bound_le(s,a,b,k):
        """a <= b+k"""
        lb,hb=s.rng(b)
        if hb is not None: s.sethi(a,hb+k)
        la,ha=s.rng(a)
        if la is not None: s.setlo(b,la-k)
        s.rmemo={}
    def sethi(s,t,h):
        if t.op=='c': return
        lo,hi=s.bounds.get(t.id,(None,None))
        if hi is None or h<hi: s.bounds[t.id]=(lo,h)
        if t.op=='i+' and t.args[0].op=='c': s.sethi(t.args[1],h-t.args[0].args[0])
        if t.op=='i*' and t.args[0].op=='c':
            k=t.args[0].args[0]
            if k>0: s.sethi(t.args[1],h//k)
            else: s.setlo(t.args[1],-((h)//(-k)))
        if t.op=='idiv' and t.args[1].op=='c' and t.args[1].args[0]>0:
            s.sethi(t.args[0],h*t.args[1].args[0]+t.args[1].args[0]-1)
    def setlo(s,t,l):
        if t.op=='c': return
        lo,hi=s.bounds.get(t.id,(None,None))
        if lo is None or l>lo: s.bounds[t.id]=(l,hi)
        if t.op=='i+' and t.args[0].op=='c': s.setlo(t.args[1],l-t.args[0].args[0])
        if t.op=='i*' and t.args[0].op=='c':
            k=t.args[0].args[0]
            if k>0: s.setlo(t.args[1],-((-l)//k))
            else: s.sethi(t.args[1],(-l)//(-k))
        if t.op=='idiv' and t.args[1].op=='c' and t.args[1].args[0]>0:
            s.setlo(t.args[0],l*t.args[1].args[0])
    def rng(s,t):
        if not isinstance(t,T): return (t,t)
        if t.op=='c': return (t.args[0],t.args[0])
        r=s.rmemo.get(t.id)
        if r is not None: return r
        lo=hi=None
        op=t.op
        if op=='i+':
            (a,b),(c,d)=s.rng(t.args[0]),s.rng(t.args[1])
            lo=None if a is None or c is None else a+c
            hi=None if b is None or d is None else b+d
            if s.rdepth<2:
                k0,li_=ilin(t)
                ites=[x for x in li_ if x.op=='ite' and x.args[0].op in('i<','i=','not','and')]
                if ites:
                    x=ites[0]; k=li_[x]; rest=dict(li_); del rest[x]
                    R=[]
                    for cond,br in((x.args[0],x.args[1]),(bnot(x.args[0]),x.args[2])):
                        r=s.rng_under(cond,iadd(unlin(k0,dict(rest)),imul(ic(k),br)))
                        if r is not None: R.append(r)
                    if R:
                        l2=None if any(r[0] is None for r in R) else min(r[0] for r in R); h2=None if any(r[1] is None for r in R) else max(r[1] for r in R)
                        if l2 is not None: lo=l2 if lo is None else max(lo,l2)
                        if h2 is not None: hi=h2 if hi is None else min(hi,h2)
        elif op=='i*':
            (a,b),(c,d)=s.rng(t.args[0]),s.rng(t.args[1])
            if None not in(a,b,c,d):
                p=[a*c,a*d,b*c,b*d]; lo,hi=min(p),max(p)
            elif t.args[0].op=='c':
                k=a
                if k>0: lo=None if c is None else k*c; hi=None if d is None else k*d
                else: lo=None if d is None else k*d; hi=None if c is None else k*c
            if t.args[0] is t.args[1]: lo=max(lo or 0,0)
        elif op=='idiv':
            (a,b),(c,d)=s.rng(t.args[0]),s.rng(t.args[1])
            if c is not None and c>0:
                if a is not None: lo=a//c if a<0 or d is None else (a//d)
                if a is not None and a>=0 and d is None: lo=0
                if b is not None: hi=b//c if b>=0 else (b//d if d is not None else -1)
        elif op=='imod':
            (a,b),(c,d)=s.rng(t.args[0]),s.rng(t.args[1])
            if c is not None and c>0:
                lo=0
                if d is not None: hi=d-1
                if a is not None and a>=0 and b is not None: hi=b if hi is None else min(hi,b)
        elif op=='ite':
            if s.rdepth<2 and t.args[0].op in('i<','i=','not','and'):
                R=[r for r in(s.rng_under(t.args[0],t.args[1]),s.rng_under(bnot(t.args[0]),t.args[2])) if r is not None] or [(None,None)]
            else: R=[s.rng(t.args[1]),s.rng(t.args[2])]
            lo=None if any(r[0] is None for r in R) else min(r[0] for r in R)
            hi=None if any(r[1] is None for r in R) else max(r[1] for r in R)
        elif op=='bv2int':
            lo=0; hi=(1<<t.args[0].sort[1])-1
        bl,bh=s.bounds.get(t.id,(None,None))
        if bl is not None: lo=bl if lo is None else max(lo,bl)
        if bh is not None: hi=bh if hi is None else min(hi,bh)
        s.rmemo[t.id]=(lo,hi)
        return (lo,hi)
    def rng_under(s,cond,t):
        """range of t where cond holds; None when cond is impossible"""
        if cond is FALSE: return None
        if cond is not TRUE and s.icmp_by_range(cond) is False: return None
        sb,sm=s.bounds,s.rmemo
        s.bounds=dict(sb); s.rmemo={}; s.rdepth+=1
        try:
            def note(c):
                if c.op=='and': note(c.args[0]); note(c.args[1])
                else: s.note_bounds(c)
            note(cond)
            return s.rng(t)
        finally: s.bounds,s.rmemo=sb,sm; s.rdepth-=1
    def icmp_by_range(s,c):
        """decide an integer atom by intervals -> True/False/None"""
        neg=False
        if c.op=='not': neg=True; c=c.args[0]
        r=None
        if c.op=='i<':
            (a,b),(x,y)=s.rng(c.args[0]),s.rng(c.args[1])
            if b is not None and x is not None and b<x: r=True
            elif a is not None and y is not None and a>=y: r=False
            else:
                (a,b)=s.rng(isub(c.args[0],c.args[1]))
                if b is not None and b<0: r=True
                elif a is not None and a>=0: r=False
        elif c.op=='i=':
            (a,b),(x,y)=s.rng(c.args[0]),s.rng(c.args[1])
            if (b is not None and x is not None and b<x) or (a is not None and y is not None and a>y): r=False
            elif None not in(a,b,x,y) and a==b==x==y: r=True
            else:
                (a,b)=s.rng(isub(c.args[0],c.args[1]))
                if (b is not None and b<0) or (a is not None and a>0): r=False
        elif c.op in('<','=') and isT(c.args[0]) and c.args[0].sort=='R': r=s.iv.decide(c)
        if r is None: return None
        return r!=neg
    def slice(s,roots):
        vs=set()
        for r in roots: vs|=tvars(r)
        vs.discard(PI)
        rest=list(s.pc); out=[]; ch=True
        while ch:
            ch=False; nr=[]
            for c in rest:
                v=tvars(c)
                if v&vs: out.append(c); vs|=(v-{PI}); ch=True
                else: nr.append(c)
            rest=nr
        return out
    def sat(s,cond,timeout=None):
        """feasibility of pc and cond: 'sat','unsat','unknown'"""
        s.feasq+=1
        if cond.op=='<' and nonneg(cond.args[0]) and cond.args[1] is R0: return 'unsat'
        sl=s.slice([cond])
        if polyn(cond) and any(not polyn(c) for c in sl):
            # the polynomial constraints alone often settle it
            r,_=smt.check([c for c in sl if polyn(c)]+[cond],timeout or s.cfg.feas_timeout)
            if r=='unsat': return r
        al=sl+[cond]
        try:
            L=Lower(al)
            lo=[L.low(c) for c in al]; L.finish()
        except RecursionError: return 'unknown'
        ax=L.ax0+L.ax1
        r,_=smt.check(lo+ax,timeout or s.cfg.feas_timeout)
        return r
    def decide(s,c):
        c=lift_b(c)
        if c.op=='c': return c.args[0]
        if c.id in s.pcset: return True
        nc=bnot(c)
        if nc.id in s.pcset: return False
        r=s.icmp_by_range(c)
        if r is not None:
            q=c.args[0] if c.op=='not' else c
            if q.op in('<','=') and q.args[0].sort=='R': s.fact(c if r else nc)
            return r
        if c.op=='and' and not realeqs(c):
            # short-circuit keeps atoms small
            a=s.decide(c.args[0])
            return s.decide(c.args[1]) if a else False
        if c.op=='not' and c.args[0].op=='and' and not realeqs(c.args[0]): return not s.decide(c.args[0])
        i=len(s.dec)
        if i>=s.cfg.max_dec: raise Budget('decisions')
        if i<len(s.prefix):
            b=s.prefix[i]; s.dec.append(b); s.fact(c if b else nc); return b
        r=s.sat(c)
        if r=='unsat':
            s.dec.append(False); s.fact(nc); return False
        q=s.sat(nc)
        if q=='unsat':
            s.dec.append(True); s.fact(c); return True
        if r=='unknown' or q=='unknown': s.unknown_forks+=1
        s.newprefix.append(s.dec+[False])
        s.dec.append(True); s.fact(c)
        return True
    def concretize(s,t,limit=80):
        """fork an integer term over its feasible values"""
        if not isT(t): return t
        if t.op=='c': return t.args[0]
        lo,hi=s.rng(t)
        if lo is not None and lo==hi: return lo
        if t.sort=='I' and t.op=='ite' : 
            return s.concretize(t.args[1] if s.decide(t.args[0]) else t.args[2])
        i=len(s.dec)
        eq=(lambda v: ieq(t,ic(v))) if t.sort=='I' else (lambda v: bveq(t,bvc(v,t.sort[1])))
        if i<len(s.prefix):
            v=s.prefix[i]; s.dec.append(v); s.fact(eq(v[1])); return v[1]
        vals=[]; block=[]
        p=mk('v',('$probe',),t.sort)
        while True:
            al=s.slice([t])+block
            L=Lower(al+[t]); lo_=[L.low(c) for c in al]; tt=L.low(t); L.finish()
            r,m=smt.check(lo_+L.ax0+L.ax1+[ieq(p,tt) if t.sort=='I' else bveq(p,tt)],5.0,['$probe'])
            if r=='unsat': break
            if r!='sat' or m.get('$probe') is None: raise Unsupported('cannot enumerate values of an index')
            v=m['$probe']
            if t.sort!='I': v=sg(v,t.sort[1])
            vals.append(v); block.append(bnot(eq(v)))
            if len(vals)>limit: raise Unsupported('index with too many values')
        if not vals: raise Infeasible()
        for v in vals[1:]: s.newprefix.append(s.dec+[('v',v)])
        s.dec.append(('v',vals[0])); s.fact(eq(vals[0]))
        return vals[0]
    # ------------------------------------------------------------------ memory
    def alloc(s,name,size,align=16):
        base=(s.nextbase+4095)//4096*4096
        s.nextbase=base+size+4096
        o=Obj(name,size,base); s.objs.append(o); return o
    def addr(s,p):
        if isinstance(p,Ptr): return (p.obj.base if p.obj else 0)+p.off
        raise Unsupported('address of '+repr(p))
    def from_addr(s,a):
        for o in reversed(s.objs):
            if o.base<=a<=o.base+o.size: return Ptr(o,a-o.base)
        return Ptr(None,a)
    def access(s,p,n,what):
        if isinstance(p,FnPtr): raise Unsupported('data access to function')
        if not isinstance(p,Ptr): raise Unsupported('deref of '+repr(p))
        if p.obj is None: raise Panic('null or dangling dereference (%s at %s)'%(what,p.off))
        off=p.off
        if isT(off): off=s.concretize(off)
        if off<0 or off+n>p.obj.size: raise Panic('out-of-bounds %s: offset %d size %d of object %s[%d]'%(what,off,n,p.obj.name,p.obj.size))
        if not p.obj.alive: raise Panic('use after free')
        return p.obj,off
    def clear(s,o,off,n):
        cells=o.cells
        if off in cells and cells[off][0]==n: del cells[off]; return
        for k in [k for k in range(max(0,off-32),off+n) if k in cells]:
            sz,v=cells[k]
            if k+sz<=off: continue
            del cells[k]
            if k<off or k+sz>off+n:
                for (b,z,pv) in s.split(sz,v):
                    # keep the bytes outside
                    for j in range(z):
                        pos=k+b+j
                        if pos<off or pos>=off+n:
                            cells[pos]=(1,s.byte(pv,z,j))
    def split(s,sz,v):
        if isinstance(v,Raw): return v.p
        return [(0,sz,v)]
    def byte(s,v,z,j):
        if v is UNDEF: return UNDEF
        if z==1: return v
        if isinstance(v,int): return sg((v>>(8*j))&255,8)
        if isT(v) and v.sort=='I':
            return s.wrap(imod(idiv(s.uns(v,8*z),ic(1<<(8*j))),ic(256)),8)
        if isT(v) and v.sort[0]=='V': return bvextract(v,8*j+7,8*j)
        if isT(v) and v.op=='c' and v.sort=='R':
            b=struct.pack('<d' if z==8 else '<f',float(v.args[0])); return sg(b[j],8)
        if isT(v) and v.op=='c' and v.sort[0]=='F': return sg((v.args[0]>>(8*j))&255,8)
        if isinstance(v,Special):
            b=struct.pack('<d' if z==8 else '<f',{'inf':math.inf,'-inf':-math.inf,'nan':math.nan}[v.k]); return sg(b[j],8)
        if isT(v) and isinstance(v.sort,tuple) and v.sort[0]=='F':
            raise Unsupported('byte of float')
        return ('byteof',v,z,j)
    def store(s,t,v,p):
        if t[0] in('arr','vec','struct'):
            for off,et,ev in s.leaves(t,v): s.store(et,ev,Ptr(p.obj,s.padd(p.off,off)) if off else p)
            return
        n=size_align(t)[0]
        if t[0]=='i' and t[1]%8!=0 and t[1]!=1: n=(t[1]+7)//8
        o,off=s.access(p,n,'store')
        if o.const: raise Panic('store to constant')
        s.clear(o,off,n)
        if isinstance(v,bool): v=1 if v else 0
        if isT(v) and v.sort=='B':
            v=ite(v,ic(1),I0) if not s.bv else bvite(v,bvc(1,8),bvc(0,8))
        elif t[0]=='i' and t[1]==1 and isinstance(v,int): v&=1
        if isinstance(v,Raw):
            for b,z,pv in v.p: o.cells[off+b]=(z,pv)
        else: o.cells[off]=(n,v)
    def leaves(s,t,v):
        if t[0]=='struct':
            for i,e in enumerate(t[1]): yield field_off(t,i),e,(v[i] if v is not UNDEF else UNDEF)
        else:
            z=size_align(t[2])[0]
            if t[0]=='vec' and t[2]==('i',1): raise Unsupported('store of <n x i1>')
            for i in range(t[1]): yield z*i,t[2],(v[i] if v is not UNDEF else UNDEF)
    def padd(s,a,b):
        if isT(a) or isT(b): return iadd(a,b)
        return a+b
    def load(s,t,p):
        if t[0]=='struct': return [s.load(e,Ptr(p.obj,s.padd(p.off,field_off(t,i)))) for i,e in enumerate(t[1])]
        if t[0] in('arr','vec'):
            if t[0]=='vec' and t[2]==('i',1): raise Unsupported('load of <n x i1>')
            z=size_align(t[2])[0]
            return [s.load(t[2],Ptr(p.obj,s.padd(p.off,z*i))) for i in range(t[1])]
        n=size_align(t)[0]
        if t[0]=='i' and t[1]!=1: n=(t[1]+7)//8
        o,off=s.access(p,n,'load')
        c=o.cells.get(off)
        if c is not None and c[0]==n: return s.conv(c[1],t)
        return s.conv(s.gather(o,off,n),t)
    def gather(s,o,off,n):
        pieces=[];k=off
        while k<off+n:
            c=o.cells.get(k)
            if c is not None and k+c[0]<=off+n:
                for b,z,pv in s.split(c[0],c[1]): pieces.append((k-off+b,z,pv))
                k+=c[0]; continue
            # inside or larger cell?
            hit=None
            for b in range(max(0,k-32),k+1):
                c=o.cells.get(b)
                if c is not None and b+c[0]>k: hit=(b,c); break
            if hit is None:
                pieces.append((k-off,1,UNDEF)); k+=1; continue
            b,(sz,v)=hit
            end=min(b+sz,off+n)
            for (pb,z,pv) in s.split(sz,v):
                if b+pb>=k and b+pb+z<=end: pieces.append((b+pb-off,z,pv))
                else:
                    for j in range(z):
                        if k<=b+pb+j<end: pieces.append((b+pb+j-off,1,s.byte(pv,z,j)))
            k=end
        return s.join(n,pieces)
    def join(s,n,pieces):
        if all(p[2] is UNDEF for p in pieces): return UNDEF
        pieces=[p for p in pieces]
        if len(pieces)==1 and pieces[0][1]==n: return pieces[0][2]
        # merge bytes of one value
        if all(isinstance(p[2],tuple) and p[2][0]=='byteof' for p in pieces):
            v=pieces[0][2][1]
            if all(p[2][1] is v and p[2][3]==i for i,p in enumerate(pieces)) and pieces[0][2][2]==n: return v
        if all(isinstance(p[2],int) or (isT(p[2]) and p[2].sort=='I') or (isT(p[2]) and p[2].sort[0]=='V') or isinstance(p[2],bool) for p in pieces):
            if all(isinstance(p[2],int) for p in pieces):
                r=0
                for b,z,v in pieces: r|=(int(v)&MASK(8*z))<<(8*b)
                return sg(r,8*n)
            if s.bv:
                r=None
                for b,z,v in sorted(pieces,key=lambda p:p[0]):
                    x=s.tobv(v,8*z); r=x if r is None else bvconcat(x,r)
                return r
            r=I0
            for b,z,v in pieces: r=iadd(r,imul(ic(1<<(8*b)),s.uns(v,8*z)))
            return s.wrap(r,8*n)
        return Raw(n,pieces)
    def conv(s,v,t):
        """reinterpret a stored value at type t"""
        k=t[0]
        if v is UNDEF: return UNDEF
        if isinstance(v,Raw):
            ps=[p for p in v.p if p[2] is not UNDEF]
            if len(ps)==1 and ps[0][0]==0 and ps[0][1]==v.n: v=ps[0][2]
            elif k=='i': return v
            elif k=='ptr' and len(ps)<len(v.p): return UNDEF      # a pointer with undefined bytes may not be used
            else: raise Unsupported('mixed bytes as %s %s'%(t,[(p[0],p[1],str(p[2])[:40]) for p in v.p]))
        if k=='f':
            if isinstance(v,int): return s.bits2f(v,t[1])
            if isT(v) and v.sort=='I': raise Unsupported('symbolic integer bits as float')
            if isT(v) and v.sort[0]=='V':
                if s.R: raise Unsupported('bits as real')
                return mk('fbits',(v,),('F',t[1]))
            return v
        if k=='i':
            w=t[1]
            if isinstance(v,(Ptr,FnPtr)): return v
            if isT(v) and v.sort=='R' or isinstance(v,Special): return Raw(w//8,[(0,w//8,v)])
            if isT(v) and isinstance(v.sort,tuple) and v.sort[0]=='F':
                if v.op=='c': return sg(v.args[0],w) if not s.bv else bvc(v.args[0],w)
                if v.op=='fbits': return v.args[0]
                return Raw(w//8,[(0,w//8,v)])
            if w==1:
                if isinstance(v,int): return bool(v&1)
                if isT(v) and v.sort=='I':
                    if v.op=='ite' and v.args[1].op=='c' and v.args[2].op=='c':
                        a,b=v.args[1].args[0],v.args[2].args[0]
                        return bor(band(v.args[0],bconst(a&1)),band(bnot(v.args[0]),bconst(b&1)))
                    return bnot(ieq(imod(v,ic(2)),I0))
                if isT(v) and v.sort!='B': return bveq(bvextract(v,0,0),bvc(1,1))
            return v
        if k=='ptr':
            if isinstance(v,int): return s.from_addr(v) if v>=4096 else Ptr(None,v)
            return v
        return v
    def bits2f(s,v,w):
        v&=MASK(w)
        x=struct.unpack('<d' if w==64 else '<f',v.to_bytes(w//8,'little'))[0]
        return s.fconst(x,w)
    def fconst(s,x,w=64):
        if s.R:
            if x!=x: return NAN
            if x in(math.inf,-math.inf): return INF if x>0 else NINF
            if w==32:
                import numpy as np
                return f64lit(float(str(np.float32(x)))) if s.cfg.ideal else rc(Fraction(x))
            return f64lit(x,s.cfg.ideal)
        return mk('c',(struct.unpack('<Q' if w==64 else '<I',struct.pack('<d' if w==64 else '<f',x))[0],),('F',w))
    def memcpy(s,d,sr,n):
        n=s.concretize(n)
        if n==0: return
        so,soff=s.access(sr,n,'memcpy src'); do,doff=s.access(d,n,'memcpy dst')
        cells=[]
        k=soff
        cand=[b for b in so.cells if soff-32<b<soff+n] if len(so.cells)<n+64 else [b for b in range(soff-32,soff+n) if b in so.cells]
        for b in cand:
            sz,v=so.cells[b]
            if b>=soff and b+sz<=soff+n: cells.append((b-soff,sz,v))
            elif b+sz>soff:
                for pb,z,pv in s.split(sz,v):
                    for j in range(z):
                        pos=b+pb+j
                        if soff<=pos<soff+n: cells.append((pos-soff,1,s.byte(pv,z,j)))
        s.clear_range(do,doff,n)
        for b,z,v in cells: do.cells[doff+b]=(z,v)
    def clear_range(s,o,off,n):
        inside=[b for b in o.cells if off-32<b<off+n] if len(o.cells)<n+64 else [b for b in range(off-32,off+n) if b in o.cells]
        for b in inside:
            if b not in o.cells: continue
            sz,v=o.cells[b]
            if b+sz<=off: continue
            if b>=off and b+sz<=off+n: del o.cells[b]
            else: s.clear(o,off,n); 
    def memset(s,d,v,n):
        n=s.concretize(n)
        if n==0: return
        o,off=s.access(d,n,'memset'); s.clear_range(o,off,n)
        if isT(v): v=s.concretize(v)
        v=v&255; k=off; end=off+n
        while k<end:
            z=8 if (k%8==0 and k+8<=end) else 4 if (k%4==0 and k+4<=end) else 1
            o.cells[k]=(z,sg(int.from_bytes(bytes([v])*z,'little'),8*z)); k+=z
    # ------------------------------------------------------------------ globals / constants
    def global_ptr(s,name,mod):
        if name in mod.funcs or (name not in mod.globals and s.prog.find(name,mod)): return FnPtr(name)
        key=(mod.path,name) if name in mod.globals and not mod.globals[name].startswith('external') else None
        if key is None:
            if name in s.prog.globals:
                m2,_=s.prog.globals[name]
                if m2 is not mod and not m2.globals[name].startswith('external'): return s.global_ptr(name,m2)
            if 'std_detect' in name and name.endswith('5CACHE'):
                # detected processor features: all of them, or none
                o=s.gobj.get(name)
                if o is None:
                    o=s.alloc('@cpu features',24); s.gobj[name]=o
                    for k in (0,8,16): s.store(('i',64),-1 if s.cfg.cpu=='all' else -(1<<63),Ptr(o,k))
                    o.const=False
                return Ptr(o,0)
            if name.endswith('GLOBAL_PANIC_COUNT'):
                o=s.gobj.get(name)
                if o is None:
                    o=s.alloc('@panic count',8); s.gobj[name]=o; s.store(('i',64),0,Ptr(o,0)); o.const=False
                return Ptr(o,0)
            if name.endswith('14WHITESPACE_MAP'):
                # Unicode White_Space below U+0100 (bit 0) and in U+2000..U+20FF (bit 1)
                o=s.gobj.get(name)
                if o is None:
                    o=s.alloc('@white space',256); s.gobj[name]=o; o.const=False
                    for k in range(256): s.store(('i',8),(1 if k in(9,10,11,12,13,32,0x85,0xa0) else 0)|(2 if k<=10 or k in(0x28,0x29,0x2f,0x5f) else 0),Ptr(o,k))
                return Ptr(o,0)
            return FnPtr(name)
        o=s.gobj.get(key)
        if o is None:
            text=mod.globals[name]
            k=llir.Tok(text)
            while k.peek() not in('constant','global'):
                x=k.next()
                if k.peek()=='(':
                    while k.next()!=')': pass
            const=k.next()=='constant'
            t=mod.ty(k); v=mod.value(k,t)
            o=s.alloc('@'+name[:40],size_align(t)[0]); s.gobj[key]=o
            o.rel=rel={}
            if v[0]=='agg' and t[0]=='arr' and t[2]==('i',32):
                es=[]
                for n,(et,x) in enumerate(v[1]):
                    r=reltarget(x)
                    if r is not None: rel[4*n]=(r,mod); x=('c',0)
                    es.append((et,x))
                if rel: v=('agg',es)
            s.store(t,s.const(v,t,mod,None),Ptr(o,0))
            o.const=const
        return Ptr(o,0)
    def const(s,v,t,mod,regs):
        k=v[0]
        if k=='r': return regs[v[1]]
        if k=='c':
            w=t[1]
            if w==1: return bool(v[1]&1)
            return sg(v[1],w)
        if k=='fc': return s.fconst(v[1],t[1])
        if k=='g': return s.global_ptr(v[1],mod)
        if k=='null': return Ptr(None,0)
        if k=='undef': return s.undef(t)
        if k=='zero': return s.zero(t)
        if k=='agg': return [s.const(x,et,mod,regs) for et,x in v[1]]
        if k=='splat': return [s.const(v[2],v[1],mod,regs)]*t[1]
        if k=='str': return [sg(b,8) for b in v[1]]
        if k=='gep':
            return s.gep(v[1],[(et,s.const(x,et,mod,regs)) for et,x in v[2]])
        if k=='cast':
            x=s.const(v[3],v[2],mod,regs)
            return s.cast(v[1],x,v[2],v[4],())
        if k=='bin':
            return s.binop(v[1],v[2],s.const(v[3],v[2],mod,regs),s.const(v[4],v[2],mod,regs),())
        raise Unsupported('const '+k)
    def undef(s,t):
        if t[0] in('arr','vec'): return [s.undef(t[2]) for _ in range(t[1])]
        if t[0]=='struct': return [s.undef(e) for e in t[1]]
        return UNDEF
    def zero(s,t):
        if t[0]=='i': return False if t[1]==1 else 0
        if t[0]=='f': return s.fconst(0.0,t[1])
        if t[0]=='ptr': return Ptr(None,0)
        if t[0] in('arr','vec'): return [s.zero(t[2]) for _ in range(t[1])]
        if t[0]=='struct': return [s.zero(e) for e in t[1]]
        raise Unsupported('zero')
    def gep(s,bt,ops):
        p=ops[0][1]
        if isinstance(p,list): raise Unsupported('vector gep')
        if isinstance(p,FnPtr): raise Unsupported('gep on function')
        if not isinstance(p,Ptr):
            if isinstance(p,int): p=s.from_addr(p)
            else: raise Unsupported('gep base %r'%(p,))
        off=p.off; t=bt
        for i,(it,ix) in enumerate(ops[1:]):
            if ix is UNDEF: raise Unsupported('undef index')
            if i==0: z=size_align(t)[0]
            elif t[0]=='struct':
                off=s.padd(off,field_off(t,ix)); t=t[1][ix]; continue
            else: z=size_align(t[2])[0]; t=t[2]
            if isinstance(ix,Raw): raise Unsupported('raw index')
            if isT(ix):
                if ix.op=='c': ix=ix.args[0]
                elif s.bv: ix=s.concretize(ix)
            off=s.padd(off,(imul(ic(z),ix) if isT(ix) else z*ix))
            if isT(off) and off.op=='c': off=off.args[0]
        return Ptr(p.obj,off)
    # ------------------------------------------------------------------ integers
    def uns(s,v,w):
        """unsigned value (int mode)"""
        if isinstance(v,bool): return ic(int(v))
        if isinstance(v,int): return ic(v&MASK(w))
        if v.sort=='B': return ite(v,ic(1),I0)
        lo,hi=s.rng(v)
        if lo is not None and lo>=0: return v
        if hi is not None and hi<0: return iadd(v,ic(1<<w))
        return ite(ilt(v,I0),iadd(v,ic(1<<w)),v)
    def wrap(s,t,w):
        """canonical signed value of the mathematical integer t at width w"""
        if isinstance(t,int): return sg(t,w)
        if t.op=='c': return sg(t.args[0],w)
        lo,hi=s.rng(t)
        h=1<<(w-1)
        if lo is not None and hi is not None:
            if -h<=lo and hi<h: return t
            if 0<=lo and hi<2*h: 
                if t.op=='ite' and t.args[0].op=='i<' : pass
                return ite(ilt(t,ic(h)),t,iadd(t,ic(-2*h)))
            if -3*h<=lo and hi<3*h:
                return ite(ilt(t,ic(-h)),iadd(t,ic(2*h)),ite(ilt(t,ic(h)),t,iadd(t,ic(-2*h))))
        return iadd(imod(iadd(t,ic(h)),ic(2*h)),ic(-h))
    def norm(s,t):
        if isT(t) and t.op=='c' and t.sort=='I': return t.args[0]
        return t
    def tobv(s,v,w):
        if isinstance(v,bool): return bvc(int(v),w)
        if isinstance(v,int): return bvc(v,w)
        if v.sort=='B': return bvite(v,bvc(1,w),bvc(0,w))
        if v.sort=='I': raise Unsupported('int in bv mode')
        return v
    def divsplit(s,a,k):
        """a = k*Q + rest, exactly"""
        Q=I0;R=I0
        st=[a]
        while st:
            x=st.pop()
            if x.op=='i+': st.extend(x.args); continue
            c=x.args[0] if x.op=='c' else x.args[0].args[0] if x.op=='i*' and x.args[0].op=='c' else 1
            t=ic(1) if x.op=='c' else x.args[1] if x.op=='i*' and x.args[0].op=='c' else x
            q,r=divmod(c,k)
            if r>k//2 and x.op!='c': q+=1; r-=k
            if q: Q=iadd(Q,imul(ic(q),t))
            if r: R=iadd(R,imul(ic(r),t))
        return Q,R
    def idiv(s,a,b):
        a=li(a);b=li(b)
        if b.op=='c' and b.args[0]>1 and a.op!='c':
            k=b.args[0]
            if a.op in('i+','i*'):
                Q,R=s.divsplit(a,k)
                if Q is not I0: return iadd(Q,s.idiv(R,b)) if R.op!='ite' or R.args[0].sort!='B' else iadd(Q,idiv(R,b))
            lo,hi=s.rng(a)
            if lo is not None and hi is not None and lo//k==hi//k: return ic(lo//k)
            if a.op=='idiv' and a.args[1].op=='c' and a.args[1].args[0]>0: return s.idiv(a.args[0],ic(k*a.args[1].args[0]))
        return idiv(a,b)
    def imod(s,a,b):
        a=li(a);b=li(b)
        if b.op=='c' and b.args[0]>1 and a.op!='c':
            k=b.args[0]
            if a.op in('i+','i*'):
                Q,R=s.divsplit(a,k)
                if Q is not I0: return s.imod(R,b)
            lo,hi=s.rng(a)
            if lo is not None and hi is not None and lo//k==hi//k: return isub(a,ic(lo//k*k))
        return imod(a,b)
    def tdiv(s,a,b):
        """truncating division, b concrete nonzero or term known nonzero"""
        a=li(a);b=li(b)
        la,ha=s.rng(a); lb,hb=s.rng(b)
        if lb is not None and lb>0: 
            if la is not None and la>=0: return s.idiv(a,b)
            if ha is not None and ha<=0: return ineg(s.idiv(ineg(a),b))
            return ite(s.tcond(a,b),iadd(s.idiv(a,b),ic(1)),s.idiv(a,b))
        if hb is not None and hb<0: return ineg(s.tdiv(a,ineg(b)))
        if s.decide(ilt(I0,b)): return ite(s.tcond(a,b),iadd(s.idiv(a,b),ic(1)),s.idiv(a,b))
        return ineg(s.tdiv(a,ineg(b)))
    def tcond(s,a,b):
        """truncating and flooring division of a by b>0 differ"""
        return band(s.simp(ilt(a,I0)),bnot(s.simp(ieq(s.imod(a,b),I0))))
    def simp(s,c):
        r=s.icmp_by_range(c)
        return c if r is None else bconst(r)
    def cmp_ite(s,f,a,b):
        """comparison f of a and b where one is an ite whose branches decide it"""
        a=li(a);b=li(b)
        d=isub(a,b)
        for x,y in((a,b),(d,I0)):
            if x.op=='ite' and y.op!='ite' and (x is not d or f is not None):
                r=[]
                for br in x.args[1:]:
                    z=f(br,y)
                    if z.op!='c':
                        q=s.icmp_by_range(z)
                        if q is None: z=s.cmp_ite(f,br,y) if br.op=='ite' else z
                        else: z=bconst(q)
                    r.append(z)
                if r[0].op=='c' or r[1].op=='c': return ite(x.args[0],r[0],r[1])
        if b.op=='ite' and a.op!='ite':
            r=[]
            for br in b.args[1:]:
                z=f(a,br)
                if z.op!='c':
                    q=s.icmp_by_range(z)
                    z=z if q is None else bconst(q)
                r.append(z)
            if r[0].op=='c' or r[1].op=='c': return ite(b.args[0],r[0],r[1])
        return s.simp(f(a,b))
    def trem(s,a,b):
        a=li(a);b=li(b)
        la,ha=s.rng(a); lb,hb=s.rng(b)
        if lb is None or lb<=0:
            if hb is not None and hb<0: b=ineg(b)
            elif not s.decide(ilt(I0,b)): b=ineg(b)
        if la is not None and la>=0: return s.imod(a,b)
        if ha is not None and ha<=0: return ineg(s.imod(ineg(a),b))
        return ite(s.tcond(a,b),isub(s.imod(a,b),b),s.imod(a,b))
    def binop(s,op,t,a,b,fl):
        if t[0]=='vec': return [s.binop(op,t[2],x,y,fl) for x,y in zip(a,b)]
        if op[0]=='f' and op!='freeze': return s.fop(op,a,b,t[1])
        w=t[1]
        if a is UNDEF or b is UNDEF:
            x=b if a is UNDEF else a
            if op=='and' and (x is False or x==0 and isinstance(x,int)): return x
            if op=='or' and (x is True or x==-1 and isinstance(x,int) and x is not True): return x
            return UNDEF
        if w==1:
            a=lift_b(a);b=lift_b(b)
            r={'and':band,'or':bor,'xor':bxor,'add':bxor,'sub':bxor,'mul':band}.get(op)
            if not r: raise Unsupported('i1 '+op)
            r=r(a,b)
            return r.args[0] if r.op=='c' else r
        if isinstance(a,Raw) or isinstance(b,Raw): return s.rawop(op,a,b,w)
        if isinstance(a,(Ptr,FnPtr)) or isinstance(b,(Ptr,FnPtr)):
            if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj is b.obj: 
                return s.norm(isub(a.off,b.off)) if isT(a.off) or isT(b.off) else a.off-b.off
            if isinstance(a,Ptr): a=s.addr(a)
            if isinstance(b,Ptr): b=s.addr(b)
        ca,cb=isinstance(a,int),isinstance(b,int)
        if ca and cb:
            ua,ub=a&MASK(w),b&MASK(w)
            if op=='add': return sg(a+b,w)
            if op=='sub': return sg(a-b,w)
            if op=='mul': return sg(a*b,w)
            if op=='and': return sg(ua&ub,w)
            if op=='or': return sg(ua|ub,w)
            if op=='xor': return sg(ua^ub,w)
            if op=='shl': return sg(ua<<ub,w) if ub<w else UNDEF
            if op=='lshr': return sg(ua>>ub,w) if ub<w else UNDEF
            if op=='ashr': return sg(a>>ub,w) if ub<w else UNDEF
            if b==0: raise Panic('division by zero')
            if op=='udiv': return sg(ua//ub,w)
            if op=='urem': return sg(ua%ub,w)
            q=abs(a)//abs(b); q=-q if (a<0)!=(b<0) else q
            if op=='sdiv': return sg(q,w)
            if op=='srem': return sg(a-q*b,w)
            raise Unsupported(op)
        if s.bv: return s.bvop(op,w,a,b)
        if isT(a) and isinstance(b,int) and a.op=='ite' and op in('and','or','xor','shl','lshr','ashr') and a.args[1].op=='c' and a.args[2].op=='c':
            x,y=[s.binop(op,t,z.args[0],b,fl) for z in a.args[1:]]
            if isinstance(x,int) and isinstance(y,int): return s.norm(ite(a.args[0],ic(x),ic(y)))
        return s.norm(s.intop(op,w,a,b,fl))
    def intop(s,op,w,a,b,fl):
        if op=='add': 
            r=iadd(a,b)
            if 'nsw' in fl: return r
            if 'nuw' in fl: return s.wrap(iadd(s.uns(a,w),s.uns(b,w)),w)
            return s.wrap(r,w)
        if op=='sub':
            r=isub(a,b)
            if 'nsw' in fl: return r
            if 'nuw' in fl: return s.wrap(isub(s.uns(a,w),s.uns(b,w)),w)
            return s.wrap(r,w)
        if op=='mul':
            if 'nsw' in fl: return imul(a,b)
            if 'nuw' in fl: return s.wrap(imul(s.uns(a,w),s.uns(b,w)),w)
            return s.wrap(imul(a,b),w)
        if op in('udiv','urem'):
            return s.wrap((s.idiv if op=='udiv' else s.imod)(s.uns(a,w),s.uns(b,w)),w)
        if op=='sdiv': return s.wrap(s.tdiv(a,b),w)
        if op=='srem': return s.trem(a,b)
        if op=='and':
            if isinstance(a,int): a,b=b,a
            if isinstance(b,int):
                u=b&MASK(w)
                if u==0: return 0
                if u==MASK(w): return a
                if (u+1)&u==0: return s.wrap(s.imod(a,ic(u+1)),w)
                # low zeros then ones to the top: a - a mod 2^k
                k=(u&-u).bit_length()-1
                if u==(MASK(w)&~MASK(k)): return s.wrap(isub(a,s.imod(a,ic(1<<k))),w)
                # contiguous field
                v=u>>k
                if (v+1)&v==0: return s.wrap(imul(ic(1<<k),s.imod(s.idiv(s.uns(a,w),ic(1<<k)),ic(v+1))),w)
            return s.bitwise(op,a,b,w)
        if op=='or':
            if 'disjoint' in fl: return s.wrap(iadd(a,b),w)
            if isinstance(a,int) and a==0: return b
            if isinstance(b,int) and b==0: return a
            return s.bitwise(op,a,b,w)
        if op=='xor':
            if isinstance(a,int): a,b=b,a
            if isinstance(b,int):
                if b==-1: return isub(ic(-1),a)
                if b==-(1<<(w-1)): return s.wrap(iadd(a,ic(b)),w)
                if b==0: return a
            lo,hi=s.rng(a)
            if isinstance(b,int) and b==1 and lo is not None and lo>=0 and hi<=1: return isub(ic(1),a)
            return s.bitwise(op,a,b,w)
        if op in('shl','lshr','ashr'):
            if isT(b): b=s.concretize(b)
            if b<0 or b>=w: return UNDEF
            if op=='shl':
                r=imul(ic(1<<b),a)
                return r if 'nsw' in fl else s.wrap(r,w)
            if op=='lshr': return s.wrap(s.idiv(s.uns(a,w),ic(1<<b)),w)
            if b==w-1: return ite(s.cmp_ite(ilt,a,I0),ic(-1),I0)
            return s.idiv(a,ic(1<<b))
        raise Unsupported('int '+op)
    def bitwise(s,op,a,b,w):
        """small non-negative operands, bit by bit"""
        n=0
        for x in (a,b):
            lo,hi=(x,x) if isinstance(x,int) else s.rng(x)
            if lo is None or hi is None or lo<0 or hi>=4096: raise Unsupported('symbolic '+op)
            n=max(n,hi.bit_length())
        bit=lambda x,j: bconst(bool(x>>j&1)) if isinstance(x,int) else ieq(s.imod(s.idiv(x,ic(1<<j)),ic(2)),ic(1))
        f={'and':band,'or':bor,'xor':bxor}[op]; r=I0
        for j in range(n): r=iadd(r,ite(f(bit(a,j),bit(b,j)),ic(1<<j),I0))
        return r
    def bvop(s,op,w,a,b):
        a=s.tobv(a,w);b=s.tobv(b,w)
        n={'add':'bvadd','sub':'bvsub','mul':'bvmul','and':'bvand','or':'bvor','xor':'bvxor','shl':'bvshl','lshr':'bvlshr','ashr':'bvashr','udiv':'bvudiv','urem':'bvurem','sdiv':'bvsdiv','srem':'bvsrem'}[op]
        return bvbin(n,a,b)
    def rawop(s,op,a,b,w):
        if isinstance(a,Raw) and op=='and' and isinstance(b,int) and b==MASK(w)>>1 and len(a.p)==1 and a.p[0][1]*8==w:
            return Raw(a.n,[(0,a.p[0][1],s.fabs(a.p[0][2]))])
        if isinstance(a,Raw) and op=='xor' and isinstance(b,int) and b==-(1<<(w-1)) and len(a.p)==1 and a.p[0][1]*8==w:
            return Raw(a.n,[(0,a.p[0][1],s.fneg(a.p[0][2]))])
        if isinstance(a,Raw) and op=='lshr' and isinstance(b,int) and b%8==0:
            k=b//8; ps=[(o-k,z,v) for o,z,v in a.p if o>=k]
            if any(o<k<o+z for o,z,v in a.p): raise Unsupported('raw lshr')
            return s.join(a.n,ps+[(a.n-k+i,1,0) for i in range(k)])
        if isinstance(a,Raw) and op=='shl' and isinstance(b,int) and b%8==0:
            k=b//8
            return s.join(a.n,[(i,1,0) for i in range(k)]+[(o+k,z,v) for o,z,v in a.p if o+k+z<=a.n])
        if op=='or':
            if isinstance(b,Raw) and not isinstance(a,Raw): a,b=b,a
            da={}
            def expand(v):
                if isinstance(v,Raw): return v.p
                return [(0,w//8,v)]
            pa=[p for p in expand(a) if not(isinstance(p[2],int) and p[2]==0)]; pb=[p for p in expand(b) if not(isinstance(p[2],int) and p[2]==0)]
            occ=set()
            for o,z,v in pa+pb:
                for j in range(o,o+z):
                    if j in occ: raise Unsupported('raw or overlap')
                    occ.add(j)
            ps=pa+pb+[(j,1,0) for j in range(w//8) if j not in occ]
            return s.join(w//8,sorted(ps,key=lambda p:p[0]))
        raise Unsupported('raw '+op)
    def icmp(s,p,t,a,b):
        if t[0]=='vec': return [s.icmp(p,t[2],x,y) for x,y in zip(a,b)]
        if a is UNDEF or b is UNDEF: return UNDEF
        if t[0]=='ptr': return s.ptrcmp(p,a,b)
        w=t[1]
        if w==1:
            a=lift_b(a);b=lift_b(b)
            if p=='eq': r=bnot(bxor(a,b))
            elif p=='ne': r=bxor(a,b)
            elif p in('ult','sgt'): r=band(bnot(a),b)
            elif p in('ugt','slt'): r=band(a,bnot(b))
            elif p in('ule','sge'): r=bor(bnot(a),b)
            else: r=bor(a,bnot(b))
            return r.args[0] if r.op=='c' else r
        if isinstance(a,(Ptr,FnPtr)) or isinstance(b,(Ptr,FnPtr)): return s.ptrcmp(p,s.conv(a,PTR) if isinstance(a,int) else a,s.conv(b,PTR) if isinstance(b,int) else b)
        if isinstance(a,Raw) or isinstance(b,Raw): return s.rawcmp(p,a,b,w)
        if isinstance(a,int) and isinstance(b,int):
            ua,ub=a&MASK(w),b&MASK(w)
            return {'eq':a==b,'ne':a!=b,'slt':a<b,'sle':a<=b,'sgt':a>b,'sge':a>=b,'ult':ua<ub,'ule':ua<=ub,'ugt':ua>ub,'uge':ua>=ub}[p]
        if s.bv:
            a=s.tobv(a,w);b=s.tobv(b,w)
            r={'eq':lambda:bveq(a,b),'ne':lambda:bnot(bveq(a,b)),'slt':lambda:bvlt('bvslt',a,b),'sgt':lambda:bvlt('bvslt',b,a),'sle':lambda:bnot(bvlt('bvslt',b,a)),'sge':lambda:bnot(bvlt('bvslt',a,b)),
               'ult':lambda:bvlt('bvult',a,b),'ugt':lambda:bvlt('bvult',b,a),'ule':lambda:bnot(bvlt('bvult',b,a)),'uge':lambda:bnot(bvlt('bvult',a,b))}[p]()
        else:
            if p[0]=='u':
                a=s.uns(a,w);b=s.uns(b,w)
            k=p if p in('eq','ne') else p[1:]
            if k in('gt','le'): a,b=b,a
            r=s.cmp_ite(ieq if k in('eq','ne') else ilt,a,b)
            if k in('ne','le','ge'): r=bnot(r)
            x=s.icmp_by_range(r)
            if x is not None: return x
        return r.args[0] if r.op=='c' else r
    def ptrcmp(s,p,a,b):
        if isinstance(a,FnPtr) or isinstance(b,FnPtr):
            e=isinstance(a,FnPtr) and isinstance(b,FnPtr) and a.name==b.name
            if p=='eq': return e
            if p=='ne': return not e
            raise Unsupported('fnptr cmp')
        if not isinstance(a,Ptr) or not isinstance(b,Ptr): raise Unsupported('ptrcmp %r %r'%(a,b))
        if a.obj is b.obj:
            return s.icmp('u'+p[1:] if p[0]=='s' else p,('i',64),a.off,b.off)
        if p=='eq': return False
        if p=='ne': return True
        return s.icmp(p,('i',64),s.addr(a),s.addr(b))
    def rawcmp(s,p,a,b,w):
        # sign test of float bits
        if isinstance(a,Raw) and len(a.p)==1 and a.p[0][1]*8==w and isinstance(b,int) and s.R:
            v=a.p[0][2]
            if (p=='slt' and b==0) or (p=='sgt' and b==-1):
                r=s.fcmp('olt',v,s.fconst(0.0)); 
                return r if p=='slt' else (not r if isinstance(r,bool) else bnot(r))
            x=struct.unpack('<d' if w==64 else '<f',(b&MASK(w)).to_bytes(w//8,'little'))[0]
            if p in('eq','ne') and x==x:
                r=s.fcmp('oeq',v,s.fconst(x,w)); 
                return r if p=='eq' else (not r if isinstance(r,bool) else bnot(r))
        if isinstance(a,Raw) and isinstance(b,Raw) and p in('eq','ne') and s.R:
            if len(a.p)==1 and len(b.p)==1:
                r=s.fcmp('oeq',a.p[0][2],b.p[0][2])
                return r if p=='eq' else (not r if isinstance(r,bool) else bnot(r))
        if not s.R and p in('eq','ne') and w in(32,64):
            lift=lambda v: Raw(w//8,[(0,w//8,mk('c',(v&MASK(w),),('F',w)))]) if isinstance(v,int) else v
            a,b=lift(a),lift(b)
        if isinstance(a,Raw) and isinstance(b,Raw) and p in('eq','ne') and len(a.p)==1 and len(b.p)==1 and a.p[0][1]*8==w==b.p[0][1]*8:
            x,y=a.p[0][2],b.p[0][2]
            r=True if x is y else band(mk('f==',(x,y),'B'),bnot(mk('fisnan',(x,),'B')))   # two not-a-numbers count as different bits
            return r if p=='eq' else (not r if isinstance(r,bool) else bnot(r))
        raise Unsupported('raw icmp %s %r %r'%(p,a,b))
    # ------------------------------------------------------------------ floats
    def fneg(s,a):
        if a is UNDEF: return a
        if s.R:
            if isinstance(a,Special): return {'inf':NINF,'-inf':INF,'nan':NAN}[a.k]
            return rneg(a)
        if a.op=='c': return mk('c',(a.args[0]^(1<<(a.sort[1]-1)),),a.sort)
        return mk('fneg',(a,),a.sort)
    def fabs(s,a):
        if s.R:
            if isinstance(a,Special): return INF if a.k!='nan' else NAN
            if a.op=='c': return rc(abs(a.args[0]))
            if a.op=='sqrt' or a.op=='exp': return a
            a=nf.simp(a)
            if a.op=='c': return rc(abs(a.args[0]))
            if s.merge: return ite(rlt(a,R0),rneg(a),a)
            return rneg(a) if s.decide(rlt(a,R0)) else a
        if a.op=='c': return mk('c',(a.args[0]&~(1<<(a.sort[1]-1)),),a.sort)
        return mk('fabs',(a,),a.sort)
    def sign(s,a):
        """sign of a finite real by forking: -1,0,1"""
        if a.op=='c': return (a.args[0]>0)-(a.args[0]<0)
        if s.decide(req(a,R0)): return 0
        return 1 if s.decide(rlt(R0,a)) else -1
    def fop(s,op,a,b,w):
        if a is UNDEF or b is UNDEF: return UNDEF
        if not s.R:
            n={'fadd':'fadd','fsub':'fsub','fmul':'fmul','fdiv':'fdiv'}.get(op)
            if not n: raise Unsupported(op)
            r=fpfold(n,a,b)
            return r if r is not None else mk(n,(a,b),a.sort)
        sa,sb=isinstance(a,Special),isinstance(b,Special)
        if isinstance(a,Raw): a=s.conv(a,('f',w))
        if isinstance(b,Raw): b=s.conv(b,('f',w))
        if not sa and not sb:
            if op=='fadd': return radd(a,b)
            if op=='fsub': return rsub(a,b)
            if op=='fmul': return rmul(a,b)
            if op=='fdiv':
                if b.op=='c':
                    if b.args[0]!=0: return rdiv(a,b)
                    z=True
                else: z=s.decide(req(b,R0))
                if not z: return rdiv(a,b)
                g=s.sign(a)
                return NAN if g==0 else INF if g>0 else NINF
            if op=='frem':
                if b.op=='c' and b.args[0]!=0 or not s.decide(req(b,R0)):
                    q=rdiv(a,b)
                    neg=s.decide(rlt(q,R0))
                    k=i2r(r2i_floor(q)) if not neg else rneg(i2r(r2i_floor(rneg(q))))
                    return rsub(a,rmul(k,b))
                return NAN
            raise Unsupported(op)
        if (sa and a.k=='nan') or (sb and b.k=='nan'): return NAN
        if op=='fsub': return s.fop('fadd',a,s.fneg(b),w)
        if op=='fadd':
            if sa and sb: return a if a.k==b.k else NAN
            return a if sa else b
        sgn=lambda x:(1 if x.k=='inf' else -1) if isinstance(x,Special) else s.sign(x)
        if op=='fmul':
            g=sgn(a)*sgn(b)
            return NAN if g==0 else INF if g>0 else NINF
        if op=='fdiv':
            if sa and sb: return NAN
            if sb: return R0
            g=sgn(a)*(sgn(b) or 1)
            return INF if g>0 else NINF
        if op=='frem': return NAN if sa else a
        raise Unsupported(op)
    def fcmp(s,p,a,b):
        if isinstance(a,list): return [s.fcmp(p,x,y) for x,y in zip(a,b)]
        if a is UNDEF or b is UNDEF: return UNDEF
        if p=='true': return True
        if p=='false': return False
        if not s.R:
            un=bor(mk('fisnan',(a,),'B') if a.op!='c' else bconst(fpnan(a)),mk('fisnan',(b,),'B') if b.op!='c' else bconst(fpnan(b)))
            def lt(x,y): return fpcmp('flt',x,y)
            def le(x,y): return fpcmp('fle',x,y)
            def eq(x,y): return fpcmp('feq',x,y)
            if p=='ord': r=bnot(un)
            elif p=='uno': r=un
            else:
                k=p[1:]
                base={'eq':lambda:eq(a,b),'lt':lambda:lt(a,b),'le':lambda:le(a,b),'gt':lambda:lt(b,a),'ge':lambda:le(b,a),'ne':lambda:band(bnot(eq(a,b)),bnot(un))}[k]()
                r=base if p[0]=='o' else bor(base,un)
            return r.args[0] if r.op=='c' else r
        sa,sb=isinstance(a,Special),isinstance(b,Special)
        nan=(sa and a.k=='nan') or (sb and b.k=='nan')
        if p=='ord': return not nan
        if p=='uno': return nan
        if nan: return p[0]=='u'
        k=p[1:]
        if sa or sb:
            va=(math.inf if a.k=='inf' else -math.inf) if sa else 0.0
            vb=(math.inf if b.k=='inf' else -math.inf) if sb else 0.0
            return {'eq':va==vb,'ne':va!=vb,'lt':va<vb,'le':va<=vb,'gt':va>vb,'ge':va>=vb}[k]
        if s.cfg.simp: a,b=nf.simp(a),nf.simp(b)
        r={'eq':lambda:req(a,b),'ne':lambda:bnot(req(a,b)),'lt':lambda:rlt(a,b),'gt':lambda:rlt(b,a),'le':lambda:rle(a,b),'ge':lambda:rle(b,a)}[k]()
        return r.args[0] if r.op=='c' else r
    # ------------------------------------------------------------------ casts
    def cast(s,op,v,t,t2,fl):
        if t[0]=='vec' and op!='bitcast': return [s.cast(op,x,t[2],t2[2],fl) for x in v]
        if v is UNDEF: return s.undef(t2)
        if op=='bitcast':
            if t==t2: return v
            if t[0]=='vec' or t2[0]=='vec':
                o=s.alloc('bitcast',size_align(t)[0]); s.store(t,v,Ptr(o,0)); r=s.load(t2,Ptr(o,0)); s.objs.pop(); return r
            return s.conv(v,t2)
        if op in('zext','sext','trunc'):
            w,w2=t[1],t2[1]
            if isinstance(v,Raw):
                if op=='trunc' and w2%8==0:
                    ps=[(o,z,x) for o,z,x in v.p if o+z<=w2//8]
                    if any(o<w2//8<o+z for o,z,x in v.p):
                        ps2=[]
                        for o,z,x in v.p:
                            for j in range(z):
                                if o+j<w2//8: ps2.append((o+j,1,s.byte(x,z,j)))
                        ps=ps2
                    return s.join(w2//8,ps)
                if op=='trunc' and w2==1:
                    for o,z,x in v.p:
                        if o==0:
                            return s.cast('trunc',x,('i',8*z),t2,fl)
                if op=='zext':
                    return Raw(w2//8,v.p+[(w//8+i,1,0) for i in range(w2//8-w//8)])
                raise Unsupported('raw '+op)
            if isinstance(v,Ptr): 
                v=s.addr(v)
            if w==1:
                if isinstance(v,bool): return (1 if v else 0) if op=='zext' else (-1 if v else 0)
                k=1 if op=='zext' else -1
                return ite(v,ic(k),I0) if not s.bv else bvite(v,bvc(k,w2),bvc(0,w2))
            if isinstance(v,int):
                if op=='zext': return v&MASK(w)
                if op=='sext': return v
                return bool(v&1) if w2==1 else sg(v,w2)
            if s.bv:
                if op=='trunc':
                    r=bvextract(v,w2-1,0)
                    return bveq(r,bvc(1,1)) if w2==1 else r
                return bvext('zext' if op=='zext' else 'sext',v,w2-w)
            if op=='sext': return v
            if op=='zext': return v if 'nneg' in fl else s.norm(s.uns(v,w))
            if w2==1: 
                r=bnot(ieq(imod(v,ic(2)),I0)); return r.args[0] if r.op=='c' else r
            if v.op=='ite' and v.args[1].op=='c' and v.args[2].op=='c':
                return s.norm(ite(v.args[0],ic(sg(v.args[1].args[0],w2)),ic(sg(v.args[2].args[0],w2))))
            return s.norm(s.wrap(v,w2))
        if op in('sitofp','uitofp'):
            w=t[1]
            if w==1: v=s.cast('zext' if op=='uitofp' else 'sext',v,t,('i',8),()); w=8
            if isinstance(v,int):
                if op=='uitofp': v&=MASK(w)
                return rc(v) if s.R else s.fconst(float(v) if t2[1]==64 else _f32(v),t2[1])
            if s.R:
                if s.bv: return i2r(mk('bv2int',(v,),'I')) if op=='uitofp' else _raise('sitofp bv real')
                return i2r(v if op=='sitofp' or 'nneg' in fl else s.uns(v,w))
            if s.bv: return mk('fubv' if op=='uitofp' else 'fsbv',(v,),('F',t2[1]))
            raise Unsupported('int to fp in fp/int mode')
        if op in('fptosi','fptoui'):
            return s.f2i(v,t,t2,op=='fptosi',False)
        if op in('fpext','fptrunc'):
            if s.R:
                if op=='fptrunc': s.notes.add('f32 rounding idealised')
                return v
            if v.op=='c':
                f=struct.unpack('<d' if v.sort[1]==64 else '<f',v.args[0].to_bytes(v.sort[1]//8,'little'))[0]
                import numpy as np
                return s.fconst(float(np.float32(f)) if t2[1]==32 else f,t2[1])
            return mk('fcvt',(v,),('F',t2[1]))
        if op=='ptrtoint':
            return v
        if op=='inttoptr':
            if isinstance(v,Ptr): return v
            if isinstance(v,int): return s.from_addr(v) if v>=4096 else Ptr(None,v)
            if isinstance(v,(Raw,FnPtr)) or v is UNDEF: return v
            if isinstance(v,tuple): return UNDEF      # one byte of a pointer widened: never dereferenced
            raise Unsupported('inttoptr symbolic')
        if op=='addrspacecast': return v
        raise Unsupported(op)
    def f2i(s,v,t,t2,signed,sat):
        w=t2[1]; lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if signed else (0,(1<<w)-1)
        if s.R:
            if isinstance(v,Special):
                if not sat: return UNDEF
                return 0 if v.k=='nan' else sg(hi if v.k=='inf' else lo,w)
            if v.op=='c':
                x=v.args[0]; n=math.floor(x) if x>=0 else -math.floor(-x)
                return sg(max(lo,min(hi,n)),w)
            if s.decide(rlt(v,R0)):
                n=ineg(r2i_floor(rneg(v)))
            else: n=r2i_floor(v)
            n=s.simp_floor(n)
            if s.decide(ilt(n,ic(lo))): return sg(lo,w)
            if s.decide(ilt(ic(hi),n)): return sg(hi,w)
            return s.norm(s.wrap(n,w))
        if v.op=='c':
            f=struct.unpack('<d' if v.sort[1]==64 else '<f',v.args[0].to_bytes(v.sort[1]//8,'little'))[0]
            if f!=f: return 0
            if f in(math.inf,-math.inf): return sg(hi if f>0 else lo,w)
            return sg(max(lo,min(hi,int(f))),w)
        if not s.bv: raise Unsupported('fp to int outside bv mode')
        fs=v.sort[1]
        if s.decide(mk('fisnan',(v,),'B')): return bvc(0,w)
        flo,fhi=s.fconst(float(lo),fs),s.fconst(float(hi)+ (0 if hi<(1<<53) else 0),fs)
        if s.decide(fpcmp('fle',v,flo)): return bvc(lo,w)
        if s.decide(fpcmp('fle',fhi,v)): return bvc(hi,w)
        return mk('f2sbv' if signed else 'f2ubv',(v,),('V',w))
    def simp_floor(s,n):
        return n
    # ------------------------------------------------------------------ execution
    def run(s,fname):
        f=s.prog.find(fname)
        if f is None: raise Unsupported('no function '+fname)
        return s.call(f,[])
    def call(s,f,args):
        f.parse()
        s.funcs.add(f.name)
        s.depth+=1
        if s.depth>200: raise Budget('recursion')
        regs={}
        for (t,n),a in zip(f.params,args): regs[n]=a
        allocas=[]
        prev=None; cur=f.order[0]; mod=f.mod; cfg=s.cfg
        C=s.const
        try:
          while True:
            blk=f.blocks[cur]; s.blocks+=1
            i=0
            if blk and blk[0][0]=='phi':
                vals=[]
                while i<len(blk) and blk[i][0]=='phi':
                    _,d,t,inc=blk[i]
                    vals.append((d,C(inc[prev],t,mod,regs))); i+=1
                for d,v in vals: regs[d]=v
            n=len(blk)
            while i<n:
                ins=blk[i]; i+=1
                s.steps+=1
                op=ins[0]
                if op in BIN:
                    _,d,t,a,b,fl=ins
                    regs[d]=s.binop(op,t,C(a,t,mod,regs),C(b,t,mod,regs),fl)
                elif op=='load':
                    _,d,t,p,_x=ins
                    pv=C(p,PTR,mod,regs)
                    if isinstance(pv,int): pv=s.from_addr(pv)
                    regs[d]=s.load(t,pv)
                elif op=='store':
                    _,d,t,v,p=ins
                    pv=C(p,PTR,mod,regs)
                    if isinstance(pv,int): pv=s.from_addr(pv)
                    s.store(t,C(v,t,mod,regs),pv)
                elif op=='getelementptr':
                    _,d,bt,ops=ins
                    regs[d]=s.gep(bt,[(t,C(v,t,mod,regs)) for t,v in ops])
                elif op=='icmp':
                    _,d,p,t,a,b=ins
                    regs[d]=s.icmp(p,t,C(a,t,mod,regs),C(b,t,mod,regs))
                elif op=='fcmp':
                    _,d,p,t,a,b=ins
                    regs[d]=s.fcmp(p,C(a,t,mod,regs),C(b,t,mod,regs))
                elif op=='cast':
                    _,d,o,t,v,t2,fl=ins
                    regs[d]=s.cast(o,C(v,t,mod,regs),t,t2,fl)
                elif op=='br':
                    _,_,c,a,b=ins
                    if c is None: nxt=a
                    else:
                        cv=C(c,('i',1),mod,regs)
                        if isinstance(cv,bool): nxt=a if cv else b
                        elif cv is UNDEF: raise Unsupported('branch on undef')
                        else: nxt=a if s.decide(cv) else b
                    prev,cur=cur,nxt
                    break
                elif op=='switch':
                    _,_,t,v,dflt,cases=ins
                    x=C(v,t,mod,regs)
                    nxt=dflt
                    if x is UNDEF: raise Unsupported('switch on undef')
                    for cv,lb in cases:
                        c=s.icmp('eq',t,x,(bool(cv&1) if t[1]==1 else sg(cv,t[1])))
                        if (c if isinstance(c,bool) else s.decide(c)): nxt=lb; break
                    prev,cur=cur,nxt
                    break
                elif op=='ret':
                    _,_,t,v=ins
                    r=None if v is None else C(v,t,mod,regs)
                    for o in allocas: o.alive=False
                    s.depth-=1
                    return r
                elif op=='call':
                    _,d,t,cal,args_=ins
                    r=s.docall(cal,[(at,C(av,at,mod,regs) if at[0]!='meta' else UNDEF) for at,av in args_],t,mod,regs,blk[i][0] if i<n else '')
                    if d is not None: regs[d]=r
                elif op=='select':
                    _,d,(ct,c),(t,a),(t2,b)=ins
                    regs[d]=s.select(C(c,ct,mod,regs),t,C(a,t,mod,regs),C(b,t,mod,regs),ct)
                elif op=='fneg':
                    _,d,t,v=ins
                    x=C(v,t,mod,regs)
                    regs[d]=[s.fneg(y) for y in x] if t[0]=='vec' else s.fneg(x)
                elif op=='alloca':
                    _,d,t,nn=ins
                    o=s.alloc('alloca.'+d,size_align(t)[0]*(nn[1] if nn[0]=='c' else s.concretize(C(nn,('i',64),mod,regs))))
                    allocas.append(o); regs[d]=Ptr(o,0)
                elif op=='extractvalue':
                    _,d,t,v,idx=ins
                    x=C(v,t,mod,regs)
                    for k in idx:
                        if x is UNDEF: break
                        x=x[k]
                    regs[d]=x
                elif op=='insertvalue':
                    _,d,t,v,et,e,idx=ins
                    x=C(v,t,mod,regs); e=C(e,et,mod,regs)
                    regs[d]=s.ins(x,idx,e)
                elif op=='extractelement':
                    _,d,t,v,ix=ins
                    regs[d]=C(v,t,mod,regs)[s.concretize(C(ix,('i',64),mod,regs))]
                elif op=='insertelement':
                    _,d,t,v,e,ix=ins
                    x=list(C(v,t,mod,regs)); x[s.concretize(C(ix,('i',64),mod,regs))]=C(e,t[2],mod,regs); regs[d]=x
                elif op=='shufflevector':
                    _,d,t,a,b,mt,mk_=ins
                    x=list(C(a,t,mod,regs)); y=C(b,t,mod,regs); y=list(y) if y is not UNDEF else [UNDEF]*t[1]
                    m=C(mk_,mt,mod,regs); xy=x+y
                    regs[d]=[UNDEF if k is UNDEF else xy[k] for k in m]
                elif op=='freeze':
                    _,d,t,v=ins
                    x=C(v,t,mod,regs)
                    regs[d]=s.freeze(x,t)
                elif op=='unreachable': raise Panic('unreachable code reached')
                elif op=='fence': pass
                elif op=='atomicrmw':
                    _,d,o,t,p,v=ins
                    pv=C(p,PTR,mod,regs); old=s.load(t,pv); x=C(v,t,mod,regs)
                    if o=='xchg': nw=x
                    elif o in('add','sub','and','or','xor'): nw=s.binop(o,t,old,x,())
                    else: raise Unsupported('atomicrmw '+o)
                    s.store(t,nw,pv); regs[d]=old
                elif op=='cmpxchg':
                    _,d,t,p,c,nw=ins
                    pv=C(p,PTR,mod,regs); old=s.load(t,pv)
                    e=s.icmp('eq',t,old,C(c,t,mod,regs))
                    e=e if isinstance(e,bool) else s.decide(e)
                    if e: s.store(t,C(nw,t,mod,regs),pv)
                    regs[d]=[old,e]
                else:
                    raise Unsupported(op+' '+str(ins[-1])[:100])
            else:
                raise Unsupported('fallthrough')
            if s.steps>cfg.max_steps: raise Budget('steps')
        finally: pass
    def freeze(s,x,t):
        if x is UNDEF: return s.zero(t)
        if isinstance(x,list): return [s.freeze(y,(t[2] if t[0]!='struct' else t[1][i])) for i,y in enumerate(x)]
        return x
    def ins(s,x,idx,e):
        if not idx: return e
        x=list(x); x[idx[0]]=s.ins(x[idx[0]],idx[1:],e); return x
    def select(s,c,t,a,b,ct=('i',1)):
        if isinstance(c,list): return [s.select(x,t[2],y,z) for x,y,z in zip(c,a,b)]
        if isinstance(c,bool): return a if c else b
        if c is UNDEF: return a
        if a is b: return a
        if a is UNDEF: return b
        if b is UNDEF: return a
        if t[0]=='i' and not isinstance(a,(Raw,Ptr,FnPtr)) and not isinstance(b,(Raw,Ptr,FnPtr)):
            if t[1]==1:
                r=ite(c,lift_b(a),lift_b(b)); return r.args[0] if r.op=='c' else r
            if s.bv: return bvite(c,s.tobv(a,t[1]),s.tobv(b,t[1]))
            if isinstance(a,int) and a==b and isinstance(b,int): return a
            return s.norm(ite(c,li(a),li(b)))
        if t[0]=='f' and isT(a) and isT(b) and (s.merge or not s.R): return ite(c,a,b)
        return a if s.decide(c) else b
    def docall(s,cal,args,rt,mod,regs,nextop):
        if cal[0]=='r':
            fp=regs[cal[1]]
            if isinstance(fp,Ptr) or not isinstance(fp,FnPtr): raise Unsupported('indirect call to %r'%(fp,))
            name=fp.name
        elif cal[0]=='g': name=cal[1]
        else: raise Unsupported('callee')
        av=[a for _,a in args]
        h=intrinsics.get(name)
        if h: return h(s,av,args,rt)
        if name.startswith('llvm.'): return s.llvm(name,av,args,rt)
        f=s.prog.find(name,mod)
        if f is not None: return s.call(f,av)
        for rx,h in extern:
            if rx.search(name): return h(s,av,args,rt,name)
        if nextop=='unreachable' or PANICRX.search(name): raise Panic('panic: '+demangle(name))
        raise Unsupported('external function '+name)
    def llvm(s,name,a,args,rt):
        p=name.split('.')
        k=p[1]
        if k in('lifetime','dbg','donothing','prefetch','assume','experimental','invariant','sideeffect'):
            return None
        if rt[0]=='vec':
            if k in VEC1: return [s.llvm1(k,p,[x[i] if isinstance(x,list) else x for x in a],rt[2],args) for i in range(rt[1])]
            raise Unsupported(name)
        if k=='vector' and p[2]=='reduce':
            o=p[3]
            if o in('fadd','fmul'):
                acc=a[0]
                for x in a[1]: acc=s.fop(o,acc,x,rt[1])
                return acc
            if o in('add','mul','and','or','xor'):
                acc=None
                for x in a[0]: acc=x if acc is None else s.binop(o,rt,acc,x,())
                return acc
            raise Unsupported(name)
        return s.llvm1(k,p,a,rt,args)
    def llvm1(s,k,p,a,rt,args):
        if k in PURE and any(x is UNDEF for x in a): return UNDEF      # speculated on an absent value
        if k in('memcpy','memmove'): s.memcpy(a[0],a[1],a[2]); return None
        if k=='load' and p[2]=='relative':
            o=a[1] if isinstance(a[1],int) else s.concretize(a[1])
            (x,t),mod=a[0].obj.rel[a[0].off+o]
            return s.const(x,t,mod,None)
        if k=='memset': s.memset(a[0],a[1],a[2]); return None
        if k in('sadd','uadd','ssub','usub','smul','umul') and p[2]=='with':
            w=rt[1][0][1]; x,y=a
            return s.ovf(k,w,x,y)
        if k in('sadd','uadd','ssub','usub') and p[2]=='sat':
            w=rt[1]
            r,o=s.ovf(k,w,a[0],a[1])
            if isinstance(o,bool): ov=o
            else: ov=s.decide(o)
            if not ov: return r
            if k=='uadd': return -1
            if k=='usub': return 0
            neg=s.icmp('slt',rt,a[0],0); neg=neg if isinstance(neg,bool) else s.decide(neg)
            return -(1<<(w-1)) if neg else (1<<(w-1))-1
        if k in('smax','smin','umax','umin'):
            c=s.icmp(k[0]+('gt' if 'max' in k else 'lt'),rt,a[0],a[1])
            return s.select(c,rt,a[0],a[1])
        if k=='abs':
            c=s.icmp('slt',rt,a[0],0)
            return s.select(c,rt,s.binop('sub',rt,0,a[0],('nsw',) if a[1] is True else ()),a[0])
        if k in('scmp','ucmp'):
            t=args[0][0]; q=k[0]
            lt=s.icmp(q+'lt',t,a[0],a[1]); eq=s.icmp('eq',t,a[0],a[1])
            return s.select(lt,rt,-1,s.select(eq,rt,0,1))
        if k=='fabs': return s.fabs(a[0])
        if k=='sqrt': return s.sqrt(a[0])
        if k in('fma','fmuladd'):
            if not s.R: return mk('ffma',tuple(a),a[0].sort)
            return s.fop('fadd',s.fop('fmul',a[0],a[1],64),a[2],64)
        if k in('sin','cos','tan','exp','log','atan','asin','acos','sinh','cosh','tanh','exp2','log2','log10','atan2','pow','exp10'):
            return s.math(k,a)
        if k=='powi':
            n=s.concretize(a[1]); return s.powint(a[0],n)
        if k in('floor','ceil','trunc','round','rint','nearbyint','roundeven'): return s.rnd(k,a[0])
        if k in('minnum','maxnum','minimum','maximum','minimumnum','maximumnum'):
            x,y=a
            if not s.R:
                lt=fpcmp('flt',x,y)
                if k in('minnum','maxnum','minimumnum','maximumnum'):
                    nx=mk('fisnan',(x,),'B');ny=mk('fisnan',(y,),'B')
                    return ite(nx,y,ite(ny,x,ite(lt,x,y) if 'min' in k else ite(lt,y,x)))
                return mk('fmin' if 'min' in k else 'fmax',(x,y),x.sort)
            if isinstance(x,Special) and x.k=='nan': return y
            if isinstance(y,Special) and y.k=='nan': return x
            c=s.fcmp('olt',x,y)
            return s.select(c,rt,x,y) if 'min' in k else s.select(c,rt,y,x)
        if k=='copysign':
            x=s.fabs(a[0])
            if not s.R:
                c=s.icmp('slt',('i',rt[1]),s.conv(a[1],('i',rt[1])),0)
                return s.select(c,rt,mk('fneg',(x,),x.sort) if x.op!='c' else mk('c',(x.args[0]|(1<<(x.sort[1]-1)),),x.sort),x)
            c=s.fcmp('olt',a[1],R0)
            return s.fneg(x) if (c if isinstance(c,bool) else s.decide(c)) else x
        if k in('fptosi','fptoui') and p[2]=='sat': return s.f2i(a[0],args[0][0],rt,k=='fptosi',True)
        if k=='is' and p[2]=='fpclass':
            m=a[1]; x=a[0]
            return s.fpclass(x,m)
        if k=='expect': return a[0]
        if k=='ctpop' and isinstance(a[0],int): return bin(a[0]&MASK(rt[1])).count('1')
        if k in('ctlz','cttz'):
            if isinstance(a[0],int):
                w=rt[1];u=a[0]&MASK(w)
                return (w-u.bit_length()) if k=='ctlz' else (w if u==0 else (u&-u).bit_length()-1)
            raise Unsupported(k)
        if k in('fshl','fshr'):
            w=rt[1]; n=s.concretize(a[2])%w
            if n==0: return a[0] if k=='fshl' else a[1]
            if k=='fshr': n=w-n
            if s.bv or (isinstance(a[0],int) and isinstance(a[1],int)):
                hi=s.binop('shl',rt,a[0],n,()); lo=s.binop('lshr',rt,a[1],w-n,())
                return s.binop('or',rt,hi,lo,('disjoint',))
            hi=s.binop('shl',rt,a[0],n,()); lo=s.binop('lshr',rt,a[1],w-n,())
            return s.binop('or',rt,hi,lo,('disjoint',))
        if k=='bswap' and isinstance(a[0],int):
            w=rt[1]; return sg(int.from_bytes((a[0]&MASK(w)).to_bytes(w//8,'little'),'big'),w)
        if k=='bswap':
            w=rt[1]//8; o=s.alloc('bswap',w); s.store(rt,a[0],Ptr(o,0)); bs=[s.load(('i',8),Ptr(o,i)) for i in range(w)]
            return s.join(w,[(i,1,bs[w-1-i]) for i in range(w)])
        if k=='threadlocal': return a[0]
        if k=='trap': raise Panic('trap')
        if k=='va_start': raise Unsupported('varargs')
        if k=='x86': return s.x86('.'.join(p[2:]),a,rt)
        raise Unsupported('llvm.'+'.'.join(p[1:]))
    def x86(s,n,a,rt):
        raise Unsupported('llvm.x86.'+n)
    def fpclass(s,x,m):
        # bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -sub 5 -0 6 +0 7 +sub 8 +norm 9 +inf
        if s.R:
            if isinstance(x,Special):
                return bool(m&{'nan':3,'-inf':4,'inf':512}[x.k])
            neg,zero,pos=bool(m&8),bool(m&0x60),bool(m&256)
            if neg and zero and pos: return True
            if not(neg or zero or pos): return False
            g=s.sign(x)
            return {-1:neg,0:zero,1:pos}[g]
        nan=mk('fisnan',(x,),'B'); inf=mk('fisinf',(x,),'B')
        fin=band(bnot(nan),bnot(inf)); z=s.fconst(0.0,x.sort[1])
        negs=fpcmp('flt',x,z); zero=fpcmp('feq',x,z); poss=fpcmp('flt',z,x)
        r=FALSE
        if m&3: r=bor(r,nan)
        if m&4: r=bor(r,band(inf,negs))
        if m&512: r=bor(r,band(inf,poss))
        if m&8: r=bor(r,band(fin,negs))
        if m&0x60: r=bor(r,zero)
        if m&256: r=bor(r,band(fin,poss))
        return r
    def ovf(s,k,w,x,y):
        op={'sadd':'add','uadd':'add','ssub':'sub','usub':'sub','smul':'mul','umul':'mul'}[k]; sgn=k[0]=='s'
        if x is UNDEF or y is UNDEF: return [UNDEF,UNDEF]
        if isinstance(x,(Ptr,)): x=s.addr(x)
        if isinstance(y,(Ptr,)): y=s.addr(y)
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if sgn else (0,MASK(w))
        if isinstance(x,int) and isinstance(y,int):
            if not sgn: x&=MASK(w); y&=MASK(w)
            r={'add':x+y,'sub':x-y,'mul':x*y}[op]
            return [sg(r,w),not(lo<=r<=hi)]
        if s.bv:
            e='sext' if sgn else 'zext'; n=w if op=='mul' else 1
            X=bvext(e,s.tobv(x,w),n+ (0 if sgn else 1));Y=bvext(e,s.tobv(y,w),n+(0 if sgn else 1))
            R=bvbin({'add':'bvadd','sub':'bvsub','mul':'bvmul'}[op],X,Y)
            r=bvextract(R,w-1,0)
            back=bvext(e,r,R.sort[1]-w)
            return [r,bnot(bveq(back,R))]
        if not sgn: x=s.uns(x,w); y=s.uns(y,w)
        r={'add':iadd,'sub':isub,'mul':imul}[op](x,y)
        inr=band(ile(ic(lo),r),ile(r,ic(hi)))
        if s.decide(inr):
            return [s.norm(r if sgn else s.wrap(r,w)),False]
        return [s.norm(s.wrap(r,w)),True]
    # ------------------------------------------------------------------ math library
    def sqrt(s,a):
        if a is UNDEF: return a
        if not s.R:
            if a.op=='c':
                f=_fl(a)
                return s.fconst(math.sqrt(f) if f>=0 else math.nan,a.sort[1])
            return mk('fsqrt',(a,),a.sort)
        if isinstance(a,Special): return INF if a.k=='inf' else NAN
        if a.op=='c':
            if a.args[0]<0: return NAN
            return rsqrt(a)
        q=s.sqrtsimp(a)
        if q is not None: return s.fabs(q)
        if s.nonneg(a): return rsqrt(a)
        if s.decide(rlt(a,R0)): return NAN
        return rsqrt(a)
    def sqrtsimp(s,a):
        """q with q*q = a modulo the unit-vector facts and sin^2+cos^2=1, when a is a perfect square monomial"""
        if not s.cfg.sqrtsimp or s.merge: return None
        key=('sq',a.id)
        if key in s.smemo: return s.smemo[key]
        r=None
        try:
            sub=subterms([a])
            if len(sub)<=600 and not any(t.op in('ite','floor','i2r') for t in sub):
                vs={t.id for t in sub if t.op=='v'}
                eqs=[f for f in s.unitfacts if any(v.id in vs for v in tvars(f))]
                if eqs or any(t.op in('sin','cos') for t in sub) or len(sub)<60:
                    L=Lower([a]+[x for f in eqs for x in f.args]); la=L.low(a)
                    n=L.nfrules([rsub(L.low(f.args[0]),L.low(f.args[1])) for f in eqs])
                    r=sqmono(L,n,la)
        except Exception as e:
            if isinstance(e,(Infeasible,PathEnd,Budget,KeyboardInterrupt)) or type(e).__name__=='Timeout': raise
            r=None
        s.smemo[key]=r
        return r
    def nonneg(s,t,d=0):
        """syntactic nonnegativity"""
        if t.op=='c': return t.args[0]>=0
        if t.op in('sqrt','exp'): return True
        if t.op=='*':
            if t.args[0] is t.args[1]: return True
            return d<30 and s.nonneg(t.args[0],d+1) and s.nonneg(t.args[1],d+1)
        if t.op=='/': return d<30 and s.nonneg(t.args[0],d+1) and s.nonneg(t.args[1],d+1)
        if t.op=='+': return d<30 and s.nonneg(t.args[0],d+1) and s.nonneg(t.args[1],d+1)
        if t is PI: return True
        if t.op=='v': return bnot(rlt(t,R0)).id in s.pcset or rlt(R0,t).id in s.pcset
        return False
    def powint(s,x,n):
        if n==0: return s.fconst(1.0)
        r=None
        if abs(n)>64: raise Unsupported('powi exponent')
        y=x
        k=abs(n); r=None
        for _ in range(k): r=y if r is None else s.fop('fmul',r,y,64)
        return r if n>0 else s.fop('fdiv',s.fconst(1.0),r,64)
    def rnd(s,k,a):
        if not s.R:
            m={'floor':'RTN','ceil':'RTP','trunc':'RTZ','round':'RNA','roundeven':'RNE','rint':'RNE','nearbyint':'RNE'}[k]
            return mk('fround',(a,m),a.sort)
        if isinstance(a,Special): return a
        if k=='floor': return i2r(r2i_floor(a))
        if k=='ceil': return rneg(i2r(r2i_floor(rneg(a))))
        neg=s.decide(rlt(a,R0)); x=rneg(a) if neg else a
        if k=='trunc': r=i2r(r2i_floor(x))
        elif k=='round': r=i2r(r2i_floor(radd(x,rc(Fraction(1,2)))))
        else: raise Unsupported(k)
        return rneg(r) if neg else r
    def math(s,k,a):
        if not s.R: 
            return s.math_fp(k,a)
        x=a[0]
        if x is UNDEF: return x
        if isinstance(x,Special):
            if x.k=='nan' or k in('sin','cos','tan','asin','acos'): return NAN
            if k=='exp': return INF if x.k=='inf' else R0
            if k=='log': return INF if x.k=='inf' else NAN
            if k=='atan': return rmul(PI,rc(Fraction(1,2) if x.k=='inf' else Fraction(-1,2)))
            if k=='pow' and isT(a[1]):
                if x.k=='inf': 
                    g=s.sign(a[1]); return INF if g>0 else R1 if g==0 else R0
            if k=='atan2' and isT(a[1]): return rmul(PI,rc(Fraction(1,2) if x.k=='inf' else Fraction(-1,2)))
            raise Unsupported(k+' of inf')
        if k in('sin','cos'):
            if x.op=='c' and x.args[0]==0: return R0 if k=='sin' else R1
            if x.op=='neg': return rneg(uf('sin',x.args[0])) if k=='sin' else uf('cos',x.args[0])
            return uf(k,x)
        if k=='tan':
            if x.op=='c' and x.args[0]==0: return R0
            c=uf('cos',x)
            if not s.decide(bnot(req(c,R0))): raise Infeasible()
            s.notes.add('tan away from its poles')
            return rdiv(uf('sin',x),c)
        if k=='exp':
            if x.op=='c' and x.args[0]==0: return R1
            return uf('exp',x)
        if k=='exp2': return uf('exp',rmul(x,uf('ln',rc(2))))
        if k=='exp10': return uf('exp',rmul(x,uf('ln',rc(10))))
        if k in('log','log2','log10'):
            if x.op=='c':
                if x.args[0]==1: return R0
                if x.args[0]==0: return NINF
                if x.args[0]<0: return NAN
            elif x.op!='exp' and not(s.decide(rlt(R0,x))):
                return NINF if s.decide(req(x,R0)) else NAN
            l=uf('ln',x)
            return l if k=='log' else rdiv(l,uf('ln',rc(2 if k=='log2' else 10)))
        if k=='atan':
            return R0 if x.op=='c' and x.args[0]==0 else uf('atan',x)
        if k in('asin','acos'):
            if x.op=='c':
                v=x.args[0]
                if abs(v)>1: return NAN
                t={('asin',0):R0,('asin',1):rmul(PI,rc(Fraction(1,2))),('asin',-1):rmul(PI,rc(Fraction(-1,2))),('acos',0):rmul(PI,rc(Fraction(1,2))),('acos',1):R0,('acos',-1):PI}.get((k,v))
                if t is not None: return t
            else:
                if s.decide(rlt(R1,x)): return NAN
                if s.decide(rlt(x,rc(-1))): return NAN
            return uf(k,x)
        if k=='atan2':
            y,x=a
            if isinstance(x,Special):
                if x.k=='nan': return NAN
                if x.k=='inf': return R0
                g=s.sign(y); return PI if g>=0 else rneg(PI)
            if y.op=='c' or x.op=='c':
                if s.decide(req(y,R0)):
                    if s.decide(rlt(x,R0)): return PI
                    return R0
            elif s.decide(band(req(y,R0),req(x,R0))): return R0
            return uf('atan2',y,x)
        if k=='pow':
            y=a[1]
            if isinstance(y,Special): raise Unsupported('pow inf')
            if y.op=='c' and y.args[0].denominator==1 and abs(y.args[0])<=32: return s.powint(x,int(y.args[0]))
            if x.op=='c' and x.args[0]==1: return R1
            if not s.decide(rlt(R0,x)):
                if s.decide(req(x,R0)):
                    g=s.sign(y); return R0 if g>0 else R1 if g==0 else INF
                if y.op=='c': return NAN
                raise Unsupported('pow of negative with symbolic exponent')
            if y.op=='c' and y.args[0]*2==int(y.args[0]*2) and abs(y.args[0])<=16:
                return s.powint(rsqrt(x),int(y.args[0]*2))
            return uf('pow',x,y)
        if k in('sinh','cosh','tanh'): return uf(k,x)
        raise Unsupported(k)
    def math_fp(s,k,a):
        if all(x.op=='c' for x in a):
            f=[_fl(x) for x in a]; w=a[0].sort[1]
            g={'sin':math.sin,'cos':math.cos,'tan':math.tan,'exp':math.exp,'log':math.log,'atan':math.atan,'atan2':math.atan2,'pow':math.pow,'log2':math.log2,'log10':math.log10}.get(k)
            if g:
                try: return s.fconst(g(*f),w)
                except (ValueError,OverflowError): pass
        # uninterpreted in FP mode: result is an arbitrary float
        s.notes.add('%s uninterpreted in FP mode'%k)
        return mk('fp_'+k,tuple(a),a[0].sort)
def _raise(x): raise Unsupported(x)
def _fl(c): return struct.unpack('<d' if c.sort[1]==64 else '<f',c.args[0].to_bytes(c.sort[1]//8,'little'))[0]
def _f32(v):
    import numpy as np
    return float(np.float32(v))
def fpnan(c): 
    f=_fl(c); return f!=f
def fpfold(n,a,b):
    if a.op=='c' and b.op=='c' and a.sort[1]==64:
        x,y=_fl(a),_fl(b)
        try: r={'fadd':lambda:x+y,'fsub':lambda:x-y,'fmul':lambda:x*y,'fdiv':lambda:x/y}[n]()
        except ZeroDivisionError: r=math.nan if x==0 or x!=x else math.copysign(math.inf,x)*math.copysign(1,y)
        return mk('c',(struct.unpack('<Q',struct.pack('<d',r))[0],),a.sort)
    return None
def fpcmp(n,a,b):
    if a.op=='c' and b.op=='c':
        x,y=_fl(a),_fl(b)
        return bconst({'flt':x<y,'fle':x<=y,'feq':x==y}[n])
    return mk(n,(a,b),'B')
# bit-vector terms
def bvc(v,w): return mk('c',(v&MASK(w),),('V',w))
def bvbin(n,a,b):
    w=a.sort[1]
    if a.op=='c' and b.op=='c':
        x,y=a.args[0],b.args[0]
        r={'bvadd':lambda:x+y,'bvsub':lambda:x-y,'bvmul':lambda:x*y,'bvand':lambda:x&y,'bvor':lambda:x|y,'bvxor':lambda:x^y,'bvshl':lambda:x<<y if y<w else 0,'bvlshr':lambda:x>>y if y<w else 0}.get(n)
        if r: return bvc(r(),w)
    if n in('bvadd','bvor','bvxor','bvshl','bvlshr') and b.op=='c' and b.args[0]==0: return a
    if n in('bvadd','bvor','bvxor') and a.op=='c' and a.args[0]==0: return b
    return mk(n,(a,b),('V',w))
def bveq(a,b):
    if a is b: return TRUE
    if a.op=='c' and b.op=='c': return bconst(a.args[0]==b.args[0])
    return mk('bv=',(a,b),'B')
def bvlt(n,a,b):
    if a is b: return FALSE
    if a.op=='c' and b.op=='c':
        w=a.sort[1]
        return bconst(a.args[0]<b.args[0] if n=='bvult' else sg(a.args[0],w)<sg(b.args[0],w))
    return mk(n,(a,b),'B')
def bvite(c,a,b): return ite(c,a,b)
def bvextract(v,h,l):
    if v.op=='c': return bvc(v.args[0]>>l,h-l+1)
    if l==0 and h==v.sort[1]-1: return v
    return mk('extract',(v,h,l),('V',h-l+1))
def bvext(k,v,n):
    if n==0: return v
    if v.op=='c': return bvc(v.args[0] if k=='zext' else sg(v.args[0],v.sort[1]),v.sort[1]+n)
    return mk(k,(v,n),('V',v.sort[1]+n))
def bvconcat(a,b):
    if a.op=='c' and b.op=='c': return bvc((a.args[0]<<b.sort[1])|b.args[0],a.sort[1]+b.sort[1])
    if a.op=='extract' and b.op=='extract' and a.args[0] is b.args[0] and a.args[2]==b.args[1]+1: return bvextract(a.args[0],a.args[1],b.args[2])
    return mk('concat',(a,b),('V',a.sort[1]+b.sort[1]))
BIN={'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
VEC1={'fabs','sqrt','fma','fmuladd','floor','ceil','trunc','minnum','maxnum','sin','cos','exp','smax','smin','umax','umin','abs','copysign','round','sadd','uadd','ssub','usub','fptosi','fptoui','pow','log'}
def demangle(n):
    return re.sub(r'[0-9]+','_',n)[:80] if False else n[:120]
def sqmono(L,n,la):
    """square root of the lowered term la, as an unlowered term, when its normal form is a perfect square monomial"""
    num,den=n.rat(la)
    num=n.reduce(num)
    q=sqpoly(num)
    if q is None: return None
    c,m=q; fs={}
    for f,e in den.items():
        p=n.factl[f]
        if e%2:
            return None
        fs[f]=e//2
    back={}; ids={t.id:t for t in subterms([la])}
    for (mm,u),(S,C) in L.bases.items():
        if S.op=='v' and C.op=='v' and S.args[0].startswith('$s'):
            ang=rmul(rc(u),L.mono(mm)); back[S.id]=uf('sin',ang); back[C.id]=uf('cos',ang)
    def atom(i):
        t=back.get(i) or ids.get(i)
        if t is None or (t.op=='v' and t.args[0].startswith('$')): raise Unsupported('sqrtsimp')
        return t
    def poly(p):
        r=R0
        for m,c in p.items():
            x=rc(c)
            for v,e in m:
                for _ in range(e): x=rmul(x,atom(v))
            r=radd(r,x)
        return r
    r=rc(c)
    for v,e in m:
        for _ in range(e): r=rmul(r,atom(v))
    for f,e in fs.items():
        d=poly(n.factl[f])
        for _ in range(e): r=rdiv(r,d)
    return r
def sqpoly(num):
    """(c, mono) with (c*mono)^2 = num"""
    if not num: return None
    if len(num)!=1: return None
    (m,c),=num.items()
    if c<0 or any(e%2 for _,e in m): return None
    q=rsqrt(rc(c))
    if q.op!='c': return None
    return q.args[0],tuple((v,e//2) for v,e in m)
def realeqs(c):
    """a conjunction of real equations"""
    if c.op=='and': return realeqs(c.args[0]) and realeqs(c.args[1])
    return c.op=='=' and c.args[0].sort=='R'
# ---------------------------------------------------------------------- harness intrinsics and externals
intrinsics={}
extern=[]
def intr(n):
    def d(f): intrinsics[n]=f; return f
    return d
def ext(rx):
    def d(f): extern.append((re.compile(rx),f)); return f
    return d
def getstr(s,p,n):
    n=s.concretize(n)
    return ''.join(chr(s.load(('i',8),Ptr(p.obj,p.off+i))&255) for i in range(n))
def newinput(s,name,kind,lo,hi,sort,extra=None):
    if name in s.inputs: raise Unsupported('duplicate input '+name)
    t=mk('v',(name,),sort)
    s.inputs[name]=dict(kind=kind,lo=lo,hi=hi,term=t); s.order.append(name)
    if extra: s.inputs[name].update(extra)
    return t
def fl_lit(x):
    if isinstance(x,Special): return {'inf':math.inf,'-inf':-math.inf,'nan':math.nan}[x.k]
    if x.sort=='R':
        if x.op!='c': raise Unsupported('symbolic bound')
        return x.args[0]
    return _fl(x)
def _symf(s,av,w):
    name=getstr(s,av[0],av[1]); 
    if s.R:
        lo,hi=av[2],av[3]
        t=newinput(s,name,'f',None if isinstance(lo,Special) else (float(lo.args[0]) if lo.op=='c' else -math.pi*2),None if isinstance(hi,Special) else (float(hi.args[0]) if hi.op=='c' else math.pi*2),'R',dict(w=32) if w==32 else None)
        if not isinstance(lo,Special): s.fact(rle(lo,t))
        if not isinstance(hi,Special): s.fact(rle(t,hi))
        return t
    t=newinput(s,name,'f%d'%w,_fl(av[2]),_fl(av[3]),('F',w))
    if _fl(av[2])==_fl(av[2]):  # nan bound = unconstrained
        s.fact(fpcmp('fle',av[2],t)); s.fact(fpcmp('fle',t,av[3]))
    return t
@intr('__sym_f64')
def _(s,av,args,rt): return _symf(s,av,64)
@intr('__sym_f32')
def _(s,av,args,rt): return _symf(s,av,32)
@intr('__sym_i64')
def _(s,av,args,rt):
    name=getstr(s,av[0],av[1]); lo,hi=av[2],av[3]
    lo=lo if isinstance(lo,int) else lo.args[0]; hi=hi if isinstance(hi,int) else hi.args[0]
    if s.bv:
        t=newinput(s,name,'bv',lo,hi,('V',64))
        if not(lo==-(1<<63) and hi==(1<<63)-1):
            s.fact(bnot(bvlt('bvslt',t,bvc(lo,64)))); s.fact(bnot(bvlt('bvslt',bvc(hi,64),t)))
        return t
    if lo==hi: return lo
    t=newinput(s,name,'i',lo,hi,'I')
    s.fact(ile(ic(lo),t)); s.fact(ile(t,ic(hi)))
    return t
@intr('__sym_u64')
def _(s,av,args,rt):
    name=getstr(s,av[0],av[1]); lo,hi=av[2]&MASK(64),av[3]&MASK(64)
    if s.bv:
        t=newinput(s,name,'bvu',lo,hi,('V',64))
        if lo!=0 or hi!=MASK(64):
            s.fact(bnot(bvlt('bvult',t,bvc(lo,64)))); s.fact(bnot(bvlt('bvult',bvc(hi,64),t)))
        return t
    t=newinput(s,name,'u',lo,hi,'I')
    s.fact(ile(ic(lo),t)); s.fact(ile(t,ic(hi)))
    return s.norm(s.wrap(t,64))
@intr('__sym_bool')
def _(s,av,args,rt):
    name=getstr(s,av[0],av[1])
    return newinput(s,name,'b',False,True,'B')
@intr('__sym_unit')
def _(s,av,args,rt):
    """n real components with squares summing to one, written to out"""
    name=getstr(s,av[0],av[1]); out=av[2]; n=av[3]
    vs=[]
    for i in range(n):
        vs.append(newinput(s,'%s%d'%(name,i),'f',-1.0,1.0,'R',dict(unit=(name,i,n))))
    sm=R0
    for v in vs: sm=radd(sm,rmul(v,v))
    s.fact(req(sm,R1)); s.unitfacts.append(req(sm,R1))
    for i,v in enumerate(vs): s.store(('f',64),v,Ptr(out.obj,out.off+8*i))
    return None
def tobool(s,v):
    if isinstance(v,bool): return bconst(v)
    if isinstance(v,int): return bconst(bool(v&1))
    if isT(v) and v.sort=='B': return v
    if isT(v): return lift_b(s.conv(v,('i',1)))
    raise Unsupported('bool')
@intr('__assume')
def _(s,av,args,rt):
    c=tobool(s,av[0])
    if c is FALSE: raise Infeasible()
    if c is TRUE: return
    s.fact(c)
    if len(s.dec)>=len(s.prefix) and s.sat(c)=='unsat': raise Infeasible()
@intr('__assume_eq')
def _(s,av,args,rt):
    a,b=av[0],av[1]
    if isinstance(a,Special) or isinstance(b,Special): raise Infeasible()
    c=req(a,b)
    if c is FALSE: raise Infeasible()
    s.fact(c)
    if len(s.dec)>=len(s.prefix) and s.sat(c)=='unsat': raise Infeasible()
def addcheck(s,kind,label,*a):
    s.checks.append(dict(kind=kind,label=label,args=a,pc=len(s.pc),dec=len(s.dec)))
@intr('__check')
def _(s,av,args,rt): addcheck(s,'bool',getstr(s,av[1],av[2]),tobool(s,av[0]))
@intr('__check_eq')
def _(s,av,args,rt): addcheck(s,'eq',getstr(s,av[2],av[3]),av[0],av[1],av[4])
@intr('__check_le')
def _(s,av,args,rt): addcheck(s,'le',getstr(s,av[2],av[3]),av[0],av[1])
@intr('__check_lt')
def _(s,av,args,rt): addcheck(s,'lt',getstr(s,av[2],av[3]),av[0],av[1])
@intr('__check_ang')
def _(s,av,args,rt): addcheck(s,'ang',getstr(s,av[2],av[3]),av[0],av[1])
@intr('__check_ieq')
def _(s,av,args,rt): addcheck(s,'ieq',getstr(s,av[2],av[3]),av[0],av[1])
@intr('__reach')
def _(s,av,args,rt): s.reached.add(getstr(s,av[0],av[1]))
@intr('__panic_ok')
def _(s,av,args,rt):
    b=tobool(s,av[0])
    s.panic_ok=b is TRUE or (b is not FALSE and s.decide(b))
@intr('__fin')
def _(s,av,args,rt):
    v=av[0]
    if s.R: return not isinstance(v,Special)
    return band(bnot(mk('fisnan',(v,),'B')),bnot(mk('fisinf',(v,),'B')))
@intr('__split')
def _(s,av,args,rt):
    """force a case split on a condition"""
    return s.decide(tobool(s,av[0]))
for _n in('sin','cos','tan','exp','log','atan','asin','acos','sinh','cosh','tanh','atan2','pow','exp2','log2','log10'):
    def _mkf(n):
        def f(s,av,args,rt): return s.math(n,av)
        return f
    intrinsics[_n]=_mkf(_n); intrinsics[_n+'f']=_mkf(_n)
def _sqrt(s,av,args,rt): return s.sqrt(av[0])
intrinsics['sqrt']=intrinsics['sqrtf']=_sqrt
def _hyp(s,av,args,rt): return s.sqrt(s.fop('fadd',s.fop('fmul',av[0],av[0],64),s.fop('fmul',av[1],av[1],64),64))
intrinsics['hypot']=intrinsics['hypotf']=_hyp
def _cbrt(s,av,args,rt):
    return uf('cbrt',av[0])
intrinsics['cbrt']=_cbrt
def _fmod(s,av,args,rt): return s.fop('frem',av[0],av[1],64)
intrinsics['fmod']=_fmod
def _memcmp(s,av,args,rt):
    n=s.concretize(av[2])
    for i in range(n):
        a=s.load(('i',8),Ptr(av[0].obj,av[0].off+i)); b=s.load(('i',8),Ptr(av[1].obj,av[1].off+i))
        c=s.icmp('eq',('i',8),a,b)
        if not(c if isinstance(c,bool) else s.decide(c)):
            l=s.icmp('ult',('i',8),a,b)
            return -1 if (l if isinstance(l,bool) else s.decide(l)) else 1
    return 0
intrinsics['memcmp']=_memcmp; intrinsics['bcmp']=_memcmp
def _memcpy(s,av,args,rt): s.memcpy(av[0],av[1],av[2]); return av[0]
intrinsics['memcpy']=intrinsics['memmove']=_memcpy
def _memset(s,av,args,rt): s.memset(av[0],av[1],av[2]); return av[0]
intrinsics['memset']=_memset
@ext(r'__rustc\d*1[0-9]_?_?rust_alloc_zeroed$|__rust_alloc_zeroed')
def _(s,av,args,rt,name):
    n=s.concretize(av[0]); o=s.alloc('heap',n); o.heap=True; s.memset(Ptr(o,0),0,n); return Ptr(o,0)
@ext(r'__rust_alloc$|___rust_alloc$')
def _(s,av,args,rt,name):
    n=s.concretize(av[0]); o=s.alloc('heap',n); o.heap=True; return Ptr(o,0)
@ext(r'__rust_dealloc$')
def _(s,av,args,rt,name):
    p=av[0]
    if isinstance(p,Ptr) and p.obj:
        if not p.obj.alive: raise Panic('double free')
        p.obj.alive=False
@ext(r'__rust_realloc$')
def _(s,av,args,rt,name):
    p,old,al,n=av; old=s.concretize(old); n=s.concretize(n)
    o=s.alloc('heap',n); o.heap=True; s.memcpy(Ptr(o,0),p,min(old,n)); p.obj.alive=False; return Ptr(o,0)
@ext(r'__rust_no_alloc_shim_is_unstable')
def _(s,av,args,rt,name): return None
@ext(r'alloc3fmt6format12format_inner|5alloc3fmt6format')
def _(s,av,args,rt,name):
    s.stubs.add('alloc::fmt::format (returns an empty string)')
    o=av[0]
    for i,v in((0,0),(8,1),(16,0)): s.store(('i',64),v,Ptr(o.obj,o.off+i))
    return None
_ELEM={'h':1,'a':1,'b':1,'t':2,'s':2,'m':4,'l':4,'f':4,'j':8,'i':8,'x':8,'y':8,'d':8,'Re':16,'NtNtB7_6string6String':24}
@ext(r'5alloc7raw_vecINtB\w*_6RawVec\w+E8grow_one')
def _(s,av,args,rt,name):
    m=re.search(r'6RawVec(\w+)E8grow_one',name); z=_ELEM.get(m.group(1))
    if z is None: raise Unsupported('external function '+name)
    v=av[0]; cap=s.concretize(s.load(('i',64),v)); new=max(cap*2,cap+1,8 if z==1 else 4)
    o=s.alloc('heap',new*z); o.heap=True
    if cap:
        old=s.load(('ptr',),Ptr(v.obj,v.off+8)); s.memcpy(Ptr(o,0),old,cap*z); old.obj.alive=False
    s.store(('i',64),new,v); s.store(('ptr',),Ptr(o,0),Ptr(v.obj,v.off+8))
@ext(r'4core5slice6memchr14memchr_aligned$')
def _(s,av,args,rt,name):
    n=s.concretize(av[2])
    for i in range(n):
        c=s.icmp('eq',('i',8),s.load(('i',8),Ptr(av[1].obj,av[1].off+i)),av[0])
        if c if isinstance(c,bool) else s.decide(c): return [1,i]
    return [0,0]
@ext(r'4core3num11float_parsedNt\w*7FromStr8from_str$')
def _(s,av,args,rt,name):
    """<f64 as FromStr>::from_str: exact decimal value (mode real); digits may be symbolic."""
    o,p,n=av; n=s.concretize(n); ch=[]
    for i in range(n):
        c=s.load(('i',8),Ptr(p.obj,p.off+i))
        if not isinstance(c,int):
            lo=s.icmp('uge',('i',8),c,48); dg=lo if isinstance(lo,bool) else s.decide(lo)
            if dg:
                hi=s.icmp('ule',('i',8),c,57); dg=hi if isinstance(hi,bool) else s.decide(hi)
            if dg: ch.append(('0',c)); continue
            c=s.concretize(c)
        ch.append((chr(c),c))
    t=''.join(k for k,_ in ch)
    def out(ok,v):
        s.store(('i',8),0 if ok else 1,o)
        if ok: s.store(('f',64),v,Ptr(o.obj,o.off+8))
        else: s.store(('i',8),0 if n==0 else 1,Ptr(o.obj,o.off+1))
    if re.fullmatch(r'[+-]?(inf|infinity|nan)',t,re.I):
        out(True,NAN if 'nan' in t.lower() else NINF if t[0]=='-' else INF); return
    m=re.fullmatch(r'([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?',t)
    if not m or not (m.group(2) or m.group(3)): out(False,0); return
    if all(isinstance(c,int) for _,c in ch): out(True,rc(float(t)) if s.R else s.fconst(float(t),64)); return
    ex=int(m.group(4)) if m.group(4) else 0
    if not s.R or (m.group(4) and not all(isinstance(c,int) for _,c in ch[m.start(4):])): raise Unsupported('symbolic digits in an exponent or in fp mode')
    ip=len(m.group(2)); st=len(m.group(1)); fr=m.group(3) or ''
    ds=[c for _,c in ch[st:st+ip]]+[c for _,c in ch[st+ip+1:st+ip+1+len(fr)]]
    acc=rc(0)
    for c in ds:
        d=s.cast('uitofp',s.binop('sub',('i',8),c,48,()),('i',8),('f',64),('nneg',))
        acc=s.fop('fadd',s.fop('fmul',acc,rc(10),64),d,64)
    ex-=len(fr)
    if ex: acc=s.fop('fmul' if ex>0 else 'fdiv',acc,rc(10**abs(ex)),64)
    if m.group(1)=='-': acc=s.fop('fsub',rc(0),acc,64)
    out(True,acc)
@ext(r'5alloc5boxed7convert\w*BoxDNtNt\w*4core5error5ErrorEL\w*6string6StringE4from$')
def _(s,av,args,rt,name):
    return [Ptr(s.alloc('error text',24),0),Ptr(s.alloc('error vtable',24),0)]
_RND={'floor','ceil','trunc','round','rint'}
@ext(r'3std2io5stdio\d*_?_?e?print$')
def _(s,av,args,rt,name): return None
@ext(r'3std3sys4sync4once5futex\w*4Once4call$')
def _(s,av,args,rt,name):
    once,data,vt=av[0],av[2],av[3]
    if s.load(('i',32),once)==0: return None   # COMPLETE
    st=s.alloc('OnceState',16); s.store(('i',64),0,Ptr(st,0)); s.store(('i',64),3,Ptr(st,8))
    fn=s.load(('ptr',),Ptr(vt.obj,vt.off+32))
    if not isinstance(fn,FnPtr): raise Unsupported('Once closure')
    f=s.prog.find(fn.name,None)
    if f is None: raise Unsupported('Once closure '+fn.name)
    s.call(f,[data,Ptr(st,0)]); s.store(('i',32),0,once)
    return None
@ext(r'4libm4math\d+(\w+?)\d+\w+$')
def _(s,av,args,rt,name):
    n=re.search(r'4libm4math(.*)$',name).group(1)
    k=int(re.match(r'\d+',n).group(0)); n=n[len(str(k)):][:k]
    if n.endswith('f') and n[:-1] in _LIBM: n=n[:-1]
    if n not in _LIBM: raise Unsupported('libm '+n)
    if n in intrinsics: return intrinsics[n](s,av,args,rt)
    return s.llvm1(n,['llvm',n,'f64'],av,rt,args)
_LIBM={'sin','cos','tan','exp','log','atan','asin','acos','sinh','cosh','tanh','atan2','pow','exp2','log2','log10','sqrt','hypot','cbrt','fmod','fabs','floor','ceil','trunc','round','rint','copysign'}
