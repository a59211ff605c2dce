"""Hash-consed term DAG shared by the executor, the ring normaliser and the SMT printer.

Sorts: 'B' Bool, 'I' mathematical Int, 'R' Real, ('V',w) bit-vector, ('F',32|64) IEEE float.
A term is T(op,args,sort); leaves are op 'c' (constant, args=(value,)) and 'v' (variable, args=(name,)).
"""
from fractions import Fraction
import math
from decimal import Decimal

_tab={}
class T:
    __slots__=('op','args','sort','id','_h')
    def __repr__(s): return show(s)
    def __hash__(s): return s.id
    def __eq__(s,o): return s is o
def mk(op,args,sort):
    k=(op,args,sort)
    t=_tab.get(k)
    if t is None:
        t=T(); t.op=op; t.args=args; t.sort=sort; t.id=len(_tab)+1
        _tab[k]=t
    return t
def show(t,d=6):
    if t.op in 'cv': return str(t.args[0])
    if d==0: return '..'
    return '('+t.op+' '+' '.join(show(a,d-1) if isinstance(a,T) else str(a) for a in t.args)+')'

# ---- Bool
TRUE=mk('c',(True,),'B'); FALSE=mk('c',(False,),'B')
def bconst(b): return TRUE if b else FALSE
def lift_b(b):
    return b if isinstance(b,T) else bconst(bool(b))
def bnot(a):
    a=lift_b(a)
    if a.op=='c': return bconst(not a.args[0])
    if a.op=='not': return a.args[0]
    return mk('not',(a,),'B')
def band(a,b):
    a=lift_b(a);b=lift_b(b)
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    if a is bnot(b): return FALSE
    return mk('and',(a,b),'B')
def bor(a,b):
    return bnot(band(bnot(a),bnot(b)))
def bxor(a,b):
    a=lift_b(a);b=lift_b(b)
    if a.op=='c': return bnot(b) if a.args[0] else b
    if b.op=='c': return bnot(a) if b.args[0] else a
    if a is b: return FALSE
    # a quotient by a root has the sign of its numerator (the engine only divides by what it has decided to be nonzero)
    if a is R0 and b.op=='/' and b.args[1].op=='sqrt': return rlt(R0,b.args[0])
    if b is R0 and a.op=='/' and a.args[1].op=='sqrt': return rlt(a.args[0],R0)
    return mk('xor',(a,b),'B')
def ite(c,a,b):
    c=lift_b(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort=='B':
        return bor(band(c,a),band(bnot(c),b))
    if c.op=='not': c=c.args[0]; a,b=b,a
    if a.op=='ite' and a.args[0] is c: a=a.args[1]
    if b.op=='ite' and b.args[0] is c: b=b.args[2]
    if a is b: return a
    return mk('ite',(c,a,b),a.sort)

# ---- Real
def rc(v):
    return mk('c',(Fraction(v),),'R')
R0=rc(0); R1=rc(1)
PI=mk('v',('$pi',),'R')
def rvar(n): return mk('v',(n,),'R')
def isc(t): return t.op=='c'
def radd(a,b):
    if a.op=='c' and b.op=='c': return rc(a.args[0]+b.args[0])
    if a.op=='c' and a.args[0]==0: return b
    if b.op=='c' and b.args[0]==0: return a
    if a.id>b.id: a,b=b,a
    return mk('+',(a,b),'R')
def rneg(a):
    if a.op=='c': return rc(-a.args[0])
    if a.op=='neg': return a.args[0]
    return mk('neg',(a,),'R')
def rsub(a,b):
    if a is b: return R0
    return radd(a,rneg(b))
def rmul(a,b):
    if a.op=='c' and b.op=='c': return rc(a.args[0]*b.args[0])
    for x,y in ((a,b),(b,a)):
        if x.op=='c':
            if x.args[0]==0: return R0
            if x.args[0]==1: return y
            if x.args[0]==-1: return rneg(y)
    if a.op=='neg' and b.op=='neg': return rmul(a.args[0],b.args[0])
    if a.op=='neg': return rneg(rmul(a.args[0],b))
    if b.op=='neg': return rneg(rmul(a,b.args[0]))
    if a.id>b.id: a,b=b,a
    return mk('*',(a,b),'R')
def rdiv(a,b):
    if b.op=='c':
        assert b.args[0]!=0
        return rmul(a,rc(1/b.args[0]))
    if a.op=='c' and a.args[0]==0: return R0
    if a is b: return R1
    return mk('/',(a,b),'R')
def rsqrt(a):
    if a.op=='c':
        v=a.args[0]
        if v>=0:
            n=math.isqrt(v.numerator); d=math.isqrt(v.denominator)
            if n*n==v.numerator and d*d==v.denominator: return rc(Fraction(n,d))
    return mk('sqrt',(a,),'R')
def uf(name,*args,sort='R'): return mk(name,tuple(args),sort)
def rlt(a,b):
    if a.op=='c' and b.op=='c': return bconst(a.args[0]<b.args[0])
    if a is b: return FALSE
    d=_trivial_diff(a,b)
    if d is not None: return bconst(d<0)
    return mk('<',(a,b),'B')
def rle(a,b): return bnot(rlt(b,a))
def req(a,b):
    if a.op=='c' and b.op=='c': return bconst(a.args[0]==b.args[0])
    if a is b: return TRUE
    d=_trivial_diff(a,b)
    if d is not None: return bconst(d==0)
    if a is R0 or b is R0:
        x=b if a is R0 else a
        if x.op=='sqrt': return req(x.args[0],R0)
        if x.op=='+' or x.op=='*' and x.args[0] is x.args[1]:
            q=_sumsq(x)
            if q is not None:
                if not q: return FALSE
                r=TRUE
                for t in q: r=band(r,req(t,R0))
                return r
    if a.id>b.id: a,b=b,a
    return mk('=',(a,b),'B')
def _sumsq(x):
    """the terms whose squares add up to x; [] when x also has a positive constant part; None when not of this form"""
    out=[]; st=[x]; pos=False
    while st:
        t=st.pop()
        if t.op=='+': st+=list(t.args)
        elif t.op=='*' and t.args[0] is t.args[1]: out.append(t.args[0])
        elif t.op=='c' and t.args[0]>0: pos=True
        elif t.op=='c' and t.args[0]==0: pass
        else: return None
    return [] if pos else out
def _trivial_diff(a,b):
    """a-b when it is a syntactic constant (x+c vs x)."""
    def split(t):
        if t.op=='c': return None,t.args[0]
        if t.op=='+':
            x,y=t.args
            if x.op=='c': return y,x.args[0]
            if y.op=='c': return x,y.args[0]
        return t,Fraction(0)
    x,c=split(a); y,d=split(b)
    if x is y: return c-d
    return None

# ---- Int
_ic={}
def ic(v):
    return mk('c',(int(v),),'I')
I0=ic(0)
def ivar(n): return mk('v',(n,),'I')
def li(x): return x if isinstance(x,T) else ic(x)
_lin={}
def ilin(t):
    """(constant, {atom: coefficient}) of an integer term"""
    r=_lin.get(t.id)
    if r is None:
        if t.op=='c': r=(t.args[0],{})
        elif t.op=='i+':
            (c,d),(e,f)=ilin(t.args[0]),ilin(t.args[1])
            g=dict(d)
            for a,k in f.items(): g[a]=g.get(a,0)+k
            r=(c+e,g)
        elif t.op=='i*' and t.args[0].op=='c':
            k=t.args[0].args[0]; c,d=ilin(t.args[1]); r=(c*k,{a:x*k for a,x in d.items()})
        else: r=(0,{t:1})
        _lin[t.id]=r
    return r
def unlin(c,d):
    d={a:k for a,k in d.items() if k}
    ch=len(d)>1
    while ch:
        ch=False
        for t in list(d):
            if t.op=='idiv' and t.args[1].op=='c':
                m=t.args[1].args[0]; C=d[t]
                if m<=0 or C%m: continue
                # q*x - q*m*(x div m) = q*(x mod m)
                q=-C//m
                e,f=ilin(t.args[0])
                if f and all(d.get(a,0)==q*k for a,k in f.items()):
                    del d[t]; c-=q*e
                    for a in f: del d[a]
                    im=imod(t.args[0],t.args[1])
                    c2,d2=ilin(im); c+=q*c2
                    for a,k in d2.items(): d[a]=d.get(a,0)+q*k
                    ch=True; break
                # q*(x mod m) + q*m*(x div m) = q*x
                q=C//m
                im=imod(t.args[0],t.args[1])
                if d.get(im)==q:
                    del d[t]; del d[im]; c+=q*e
                    for a,k in f.items(): d[a]=d.get(a,0)+q*k
                    ch=True; break
        if ch: d={a:k for a,k in d.items() if k}
    if not d: return ic(c)
    if len(d)==1:
        (t,k),=d.items()
        if t.op=='ite':
            f=lambda x: unlin(*_scale(ilin(x),k,c))
            if t.args[1].op=='c' or t.args[2].op=='c' or c==0 or True: return ite(t.args[0],f(t.args[1]),f(t.args[2]))
    else:
        # ites with the same condition are merged
        by={}
        for t in d:
            if t.op=='ite': by.setdefault(t.args[0].id,[]).append(t)
        for l in by.values():
            if len(l)>1:
                x=y=I0
                for t in l:
                    k=d.pop(t); x=iadd(x,imul(ic(k),t.args[1])); y=iadd(y,imul(ic(k),t.args[2]))
                z=ite(l[0].args[0],x,y)
                c2,d2=ilin(z)
                for a,k in d2.items(): d[a]=d.get(a,0)+k
                return unlin(c+c2,d)
    r=None
    for t in sorted(d,key=lambda t:t.id,reverse=True):
        k=d[t]
        m=t if k==1 else mk('i*',(ic(k),t),'I')
        r=m if r is None else mk('i+',(m,r),'I')
    if c: r=mk('i+',(ic(c),r),'I')
    return r
def _scale(l,k,c): return (l[0]*k+c,{a:x*k for a,x in l[1].items()})
def iadd(a,b):
    a=li(a);b=li(b)
    if a.op=='c' and b.op=='c': return ic(a.args[0]+b.args[0])
    if a.op=='c' and a.args[0]==0: return b
    if b.op=='c' and b.args[0]==0: return a
    (c,d),(e,f)=ilin(a),ilin(b)
    g=dict(d)
    for x,k in f.items(): g[x]=g.get(x,0)+k
    return unlin(c+e,g)
def ineg(a): return imul(ic(-1),a)
def isub(a,b):
    a=li(a);b=li(b)
    if a is b: return I0
    return iadd(a,ineg(b))
def imul(a,b):
    a=li(a);b=li(b)
    if a.op=='c' and b.op=='c': return ic(a.args[0]*b.args[0])
    if b.op=='c': a,b=b,a
    if a.op=='c':
        k=a.args[0]
        if k==0: return I0
        if k==1: return b
        return unlin(*_scale(ilin(b),k,0))
    if a.op=='i*' and a.args[0].op=='c': return imul(a.args[0],imul(a.args[1],b))
    if b.op=='i*' and b.args[0].op=='c': return imul(b.args[0],imul(a,b.args[1]))
    if a.id>b.id: a,b=b,a
    return mk('i*',(a,b),'I')
def idiv(a,b):
    """floor division for b>0 (SMT-LIB div)."""
    a=li(a);b=li(b)
    if a.op=='c' and b.op=='c' and b.args[0]>0: return ic(a.args[0]//b.args[0])
    if b.op=='c' and b.args[0]==1: return a
    return mk('idiv',(a,b),'I')
def imod(a,b):
    a=li(a);b=li(b)
    if a.op=='c' and b.op=='c' and b.args[0]>0: return ic(a.args[0]%b.args[0])
    if b.op=='c' and b.args[0]==1: return I0
    return mk('imod',(a,b),'I')
def ilt(a,b):
    a=li(a);b=li(b)
    if a.op=='c' and b.op=='c': return bconst(a.args[0]<b.args[0])
    if a is b: return FALSE
    d=isub(a,b)
    if d.op=='c': return bconst(d.args[0]<0)
    return mk('i<',(a,b),'B')
def ile(a,b): return bnot(ilt(b,a))
def ieq(a,b):
    a=li(a);b=li(b)
    if a.op=='c' and b.op=='c': return bconst(a.args[0]==b.args[0])
    if a is b: return TRUE
    d=isub(a,b)
    if d.op=='c': return bconst(d.args[0]==0)
    if a.id>b.id: a,b=b,a
    return mk('i=',(a,b),'B')
def i2r(a):
    a=li(a)
    if a.op=='c': return rc(a.args[0])
    return mk('i2r',(a,),'R')
def r2i_floor(a):
    if a.op=='c': return ic(math.floor(a.args[0]))
    return mk('floor',(a,),'I')

# ---- f64 literal idealisation (Real mode)
_pi_cache={}
PI_DEC=Fraction(Decimal('3.14159265358979323846264338327950288419716939937510'))
def _pi_multiple(x):
    """Term for a double within 1 ulp of q*pi or q/pi for a small rational q, else None."""
    ax=abs(x)
    if ax==0 or ax>1e6 or ax<1e-8: return None
    for inv in (False,True):
        v=ax/math.pi if not inv else ax*math.pi
        for den in (1,2,3,4,6,8,12,16,180,360):
            n=v*den; rn=round(n)
            if 0<rn<=720 and abs(n-rn)<=4e-16*n*2:
                # demand that x is (within 1ulp) the double of it
                q=Fraction(rn,den)
                ideal=float(q*PI_DEC) if not inv else float(q/PI_DEC)
                if abs(ideal-ax)<=2*math.ulp(ax):
                    if inv and q.denominator==1 and q.numerator not in (1,2,180,360,90): continue
                    s=1 if x>0 else -1
                    return rmul(rc(s*q),PI) if not inv else rdiv(rc(s*q),PI)
    return None
_fcache={}
def f64lit(x,ideal=True):
    """Real-mode term for the double x."""
    t=_fcache.get(x)
    if t is not None: return t
    if x==int(x) if abs(x)<1e15 else False:
        t=rc(int(x))
    elif not ideal: t=rc(Fraction(x))
    else:
        t=_pi_multiple(x) if abs(x)>1e-8 else None
        if t is None:
            d=Fraction(Decimal(repr(x)))
            if len(repr(x).replace('.','').replace('-','').lstrip('0').split('e')[0])>=15:
                f=Fraction(x)
                for den in range(1,2001):
                    n=round(f*den)
                    if n!=0 and abs(n)<10**6 and n/den==x:
                        d=Fraction(n,den); break
                else:
                    # reciprocal-style constants such as 1/6371000
                    if f!=0:
                        g=1/f
                        n=round(g)
                        if n!=0 and abs(n)<10**12 and 1.0/n==x: d=Fraction(1,n)
            t=rc(d)
    _fcache[x]=t
    return t

def subterms(ts):
    seen=set(); st=list(ts); out=[]
    while st:
        t=st.pop()
        if t.id in seen: continue
        seen.add(t.id); out.append(t)
        for a in t.args:
            if isinstance(a,T): st.append(a)
    return out
_vars_cache={}
def tvars(t):
    """frozenset of variable terms of t (iterative)."""
    r=_vars_cache.get(t.id)
    if r is not None: return r
    st=[t]
    while st:
        x=st[-1]
        if x.id in _vars_cache: st.pop(); continue
        pend=[a for a in x.args if isinstance(a,T) and a.id not in _vars_cache]
        if pend: st.extend(pend); continue
        if x.op=='v': s=frozenset((x,))
        else:
            s=frozenset()
            for a in x.args:
                if isinstance(a,T):
                    b=_vars_cache[a.id]
                    s=b if not s else (s if b<=s else s|b)
        _vars_cache[x.id]=s; st.pop()
    return _vars_cache[t.id]

# ---- numeric evaluation (floats / python ints)
class EvalError(Exception): pass
def evalf(t,env,memo=None):
    if memo is None: memo={}
    st=[t]
    while st:
        x=st[-1]
        if x.id in memo: st.pop(); continue
        if x.op=='ite':
            c=x.args[0]
            if c.id not in memo: st.append(c); continue
            b=x.args[1] if memo[c.id] else x.args[2]
            if b.id not in memo: st.append(b); continue
            memo[x.id]=memo[b.id]; st.pop(); continue
        if x.op=='and':
            a=x.args[0]
            if a.id not in memo: st.append(a); continue
            if not memo[a.id]: memo[x.id]=False; st.pop(); continue
        pend=[a for a in x.args if isinstance(a,T) and a.id not in memo]
        if pend: st.extend(pend); continue
        memo[x.id]=_ev(x,[memo[a.id] if isinstance(a,T) else a for a in x.args],env)
        st.pop()
    return memo[t.id]
def _tosigned(v,w):
    v&=(1<<w)-1
    return v-(1<<w) if v>>(w-1) else v
def _ev(x,a,env):
    op=x.op
    try:
        if op=='c':
            return float(x.args[0]) if x.sort=='R' else x.args[0]
        if op=='v':
            if x.args[0]=='$pi': return math.pi
            if x.args[0] not in env: raise EvalError('unbound '+x.args[0])
            return env[x.args[0]]
        if op in('+','i+'): return a[0]+a[1]
        if op in('*','i*'): return a[0]*a[1]
        if op=='neg': return -a[0]
        if op=='/': return a[0]/a[1]
        if op=='sqrt': return math.sqrt(a[0]) if a[0]>=0 else (0.0 if a[0]>-1e-9 else math.nan)
        if op in('<','i<'): return a[0]<a[1]
        if op in('=','i=','f=='): return a[0]==a[1]
        if op=='not': return not a[0]
        if op=='and': return a[0] and a[1]
        if op=='xor': return a[0]!=a[1]
        if op=='idiv': return a[0]//a[1]
        if op=='imod': return a[0]%a[1]
        if op=='i2r': return float(a[0])
        if op=='floor': return math.floor(a[0])
        if op=='ffloor': return float(math.floor(a[0]))
        if op=='sin': return math.sin(a[0])
        if op=='cos': return math.cos(a[0])
        if op=='tan': return math.tan(a[0])
        if op=='atan2': return math.atan2(a[0],a[1])
        if op=='atan': return math.atan(a[0])
        if op=='asin': return math.asin(max(-1.0,min(1.0,a[0])) if abs(a[0])<1+1e-9 else a[0])
        if op=='acos': return math.acos(max(-1.0,min(1.0,a[0])) if abs(a[0])<1+1e-9 else a[0])
        if op=='exp': return math.exp(a[0])
        if op=='ln': return math.log(a[0])
        if op=='pow': return math.pow(a[0],a[1])
        if op=='sinh': return math.sinh(a[0])
        if op=='cosh': return math.cosh(a[0])
        if op=='tanh': return math.tanh(a[0])
        if op=='cbrt': return math.copysign(abs(a[0])**(1/3),a[0])
        if op=='bits': return a[0]
    except (OverflowError,ZeroDivisionError,ValueError):
        return math.nan
    raise EvalError('eval '+op)

# ---- multi-precision evaluation: confirms what double evaluation suggests
def evalmp(t,env,memo):
    import mpmath as mp
    m=mp.mp
    with mp.workdps(60):
        st=[t]
        while st:
            x=st[-1]
            if x.id in memo: st.pop(); continue
            pend=[a for a in x.args if isinstance(a,T) and a.id not in memo]
            if pend: st.extend(pend); continue
            a=[memo[y.id] if isinstance(y,T) else y for y in x.args]; op=x.op
            if op=='c': v=m.mpf(x.args[0].numerator)/x.args[0].denominator if x.sort=='R' else x.args[0]
            elif op=='v':
                if x.args[0]=='$pi': v=m.pi+0
                else:
                    v=env[x.args[0]]
                    if x.sort=='R': v=m.mpf(v)
            elif op=='/': v=a[0]/a[1]
            elif op=='sqrt':
                if a[0]<0: raise EvalError('sqrt')
                v=m.sqrt(a[0])
            elif op in('sin','cos','tan','atan','exp','sinh','cosh','tanh'): v=getattr(m,op)(a[0])
            elif op in('asin','acos'):
                if abs(a[0])>1: raise EvalError(op)
                v=getattr(m,op)(a[0])
            elif op=='atan2': v=m.atan2(a[0],a[1])
            elif op=='ln': v=m.log(a[0])
            elif op=='pow': v=m.power(a[0],a[1])
            elif op=='cbrt': v=m.cbrt(a[0]) if a[0]>=0 else -m.cbrt(-a[0])
            elif op=='i2r': v=m.mpf(a[0])
            elif op=='ite': v=a[1] if a[0] else a[2]
            elif op in('floor','ffloor'): v=m.floor(a[0]); v=int(v) if op=='floor' else v
            else: v=_ev(x,a,env)
            memo[x.id]=v; st.pop()
    return memo[t.id]
