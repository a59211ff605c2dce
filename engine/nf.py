"""Ring normal form: rational functions over atoms modulo the relations of the lowering (s^2+c^2=1, r^2=S, ...)."""
from fractions import Fraction
from math import gcd
from terms import *
class TooBig(Exception): pass
# polynomial: dict mono -> Fraction ; mono: tuple of (atomid,exp) sorted by atomid descending
ONE=()
def pconst(c): return {ONE:Fraction(c)} if c!=0 else {}
def patom(i): return {((i,1),):Fraction(1)}
def mmul(a,b):
    if not a: return b
    if not b: return a
    r=[];i=j=0;la=len(a);lb=len(b)
    while i<la and j<lb:
        x=a[i];y=b[j]
        if x[0]==y[0]: r.append((x[0],x[1]+y[1])); i+=1;j+=1
        elif x[0]>y[0]: r.append(x); i+=1
        else: r.append(y); j+=1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)
def mdiv(a,b):
    """a/b or None"""
    if not b: return a
    d=dict(a)
    for v,e in b:
        x=d.get(v,0)-e
        if x<0: return None
        if x==0: del d[v]
        else: d[v]=x
    return tuple(sorted(d.items(),reverse=True))
def padd(a,b):
    if len(a)<len(b): a,b=b,a
    r=dict(a)
    for m,c in b.items():
        x=r.get(m)
        if x is None: r[m]=c
        else:
            x=x+c
            if x==0: del r[m]
            else: r[m]=x
    return r
def pneg(a): return {m:-c for m,c in a.items()}
def pscale(a,k): return {m:c*k for m,c in a.items()} if k!=0 else {}
LIMIT=400000
MULLIM=[3000000]
def pmul(a,b):
    if len(a)>len(b): a,b=b,a
    if not a: return {}
    if len(a)*len(b)>MULLIM[0]: raise TooBig('mul %d %d'%(len(a),len(b)))
    if len(a)==1:
        (m,c),=a.items()
        return {mmul(m,n):c*d for n,d in b.items()}
    r={}
    for m,c in a.items():
        for n,d in b.items():
            k=mmul(m,n)
            x=r.get(k)
            r[k]=c*d if x is None else x+c*d
    r={m:c for m,c in r.items() if c!=0}
    if len(r)>LIMIT: raise TooBig('poly')
    return r
def lead(a):
    # lex order on monomials keyed by atom id descending
    return max(a,key=mkey)
def mkey(m):
    return _K(m)
class _K:
    __slots__=('m',)
    def __init__(s,m): s.m=m
    def __lt__(s,o):
        a,b=s.m,o.m
        for x,y in zip(a,b):
            if x[0]!=y[0]: return x[0]<y[0]
            if x[1]!=y[1]: return x[1]<y[1]
        return len(a)<len(b)
def pdivexact(a,b,budget=4000):
    """a/b if exact, else None."""
    if not a: return {}
    if len(b)==1:
        (m,c),=b.items(); r={}
        for n,d in a.items():
            q=mdiv(n,m)
            if q is None: return None
            r[q]=d/c
        return r
    lb=lead(b); cb=b[lb]; q={}; a=dict(a); steps=0
    while a:
        la=lead(a)
        m=mdiv(la,lb)
        if m is None: return None
        c=a[la]/cb; q[m]=c
        for n,d in b.items():
            k=mmul(m,n); x=a.get(k,0)-c*d
            if x==0: a.pop(k,None)
            else: a[k]=x
        steps+=len(b)
        if steps>budget: return None
    return q
def pdivrem(a,b,budget=400):
    """quotient and remainder of a by b with respect to the leading monomial of b"""
    lb=lead(b); cb=b[lb]; q={}; r={}; a=dict(a); steps=0
    while a:
        la=lead(a); m=mdiv(la,lb)
        if m is None or steps>budget: r[la]=a.pop(la); continue
        c=a[la]/cb; q[m]=c; steps+=len(b)
        for n,d in b.items():
            k=mmul(m,n); x=a.get(k,0)-c*d
            if x==0: a.pop(k,None)
            else: a[k]=x
    return q,r
class NF:
    """rules: atomid -> ('sq',poly) meaning atom^2=poly ; ('sub',poly) atom=poly ; ('sqr',num,den) atom^2=num/den (final)."""
    iteatom=False
    def __init__(s,rules=None):
        s.rules=rules or {}; s.memo={}; s.fact={}; s.factl=[]
    def reduce(s,p):
        rules=s.rules
        if not rules: return p
        work=p; out={}
        guard=0
        while work:
            nxt={}
            for m,c in work.items():
                hit=None
                for idx,(v,e) in enumerate(m):
                    r=rules.get(v)
                    if r is None: continue
                    if r[0]=='sub' or (r[0]=='sq' and e>=2): hit=(idx,v,e,r); break
                if hit is None:
                    x=out.get(m)
                    if x is None: out[m]=c
                    else:
                        x+=c
                        if x==0: del out[m]
                        else: out[m]=x
                    continue
                idx,v,e,r=hit
                if r[0]=='sub':
                    rest=m[:idx]+m[idx+1:]; q=r[1]
                    qq=q
                    for _ in range(e-1): qq=pmul(qq,q)
                else:
                    k=e//2; rem=e-2*k
                    rest=m[:idx]+(((v,rem),) if rem else ())+m[idx+1:]
                    qq=r[1]
                    for _ in range(k-1): qq=pmul(qq,r[1])
                for n,d in qq.items():
                    key=mmul(rest,n); x=nxt.get(key)
                    nxt[key]=c*d if x is None else x+c*d
            work={m:c for m,c in nxt.items() if c!=0}
            if len(work)+len(out)>LIMIT: raise TooBig('reduce')
            guard+=1
            if guard>400: raise TooBig('reduce loop')
        return out
    def mul(s,a,b): return s.reduce(pmul(a,b))
    def factor(s,p):
        """register polynomial p as denominator factors; returns (const, {fid:exp})"""
        if not p: raise ZeroDivisionError
        # monomial content
        ms=list(p)
        common=dict(ms[0])
        for m in ms[1:]:
            d=dict(m)
            for v in list(common):
                e=min(common[v],d.get(v,0))
                if e==0: del common[v]
                else: common[v]=e
            if not common: break
        fs={}
        if common:
            cm=tuple(sorted(common.items(),reverse=True))
            p={mdiv(m,cm):c for m,c in p.items()}
            for v,e in common.items():
                f=s._fid({((v,1),):Fraction(1)}); fs[f]=fs.get(f,0)+e
        if len(p)==1 and ONE in p: return p[ONE],fs
        c0=p[lead(p)]
        p={m:c/c0 for m,c in p.items()}
        # try known factors
        if len(p)<=200:
            for f,q in enumerate(s.factl):
                if 1<len(q)<=len(p)*2 and len(q)<=40:
                    while True:
                        d=pdivexact(p,q)
                        if d is None: break
                        p=d; fs[f]=fs.get(f,0)+1
                        if len(p)==1 and ONE in p: return c0*p[ONE],fs
        c1=p[lead(p)]
        p={m:c/c1 for m,c in p.items()}
        f=s._fid(p); fs[f]=fs.get(f,0)+1
        return c0*c1,fs
    def _fid(s,p):
        k=frozenset(p.items())
        if k not in s.fact:
            s.fact[k]=len(s.factl); s.factl.append(p)
        return s.fact[k]
    def fpoly(s,fs):
        r=pconst(1)
        for f,e in fs.items():
            for _ in range(e): r=s.mul(r,s.factl[f])
        return r
    def cancel(s,n,fs):
        if not n: return n,{}
        if not fs: return n,fs
        out={}
        for f,e in fs.items():
            q=s.factl[f]
            while e>0 and (len(q)==1 or (len(q)<=24 and len(n)<=600)):
                d=pdivexact(n,q)
                if d is None: break
                n=d; e-=1
            if e: out[f]=e
        return n,out
    def rat(s,t):
        st=[t]; memo=s.memo
        while st:
            x=st[-1]
            if x.id in memo: st.pop(); continue
            op=x.op
            if op=='c': memo[x.id]=(pconst(x.args[0]),{}); st.pop(); continue
            if op in('+','*','/','neg'):
                pend=[a for a in x.args if a.id not in memo]
                if pend: st.extend(pend); continue
                A=[memo[a.id] for a in x.args]
                if op=='neg': r=(pneg(A[0][0]),A[0][1])
                elif op=='+':
                    (n1,d1),(n2,d2)=A
                    if d1==d2: r=(padd(n1,n2),d1)
                    else:
                        l=dict(d1)
                        for f,e in d2.items(): l[f]=max(l.get(f,0),e)
                        m1={f:e-d1.get(f,0) for f,e in l.items() if e>d1.get(f,0)}
                        m2={f:e-d2.get(f,0) for f,e in l.items() if e>d2.get(f,0)}
                        r=(padd(s.mul(n1,s.fpoly(m1)),s.mul(n2,s.fpoly(m2))),l)
                    r=s.cancel(*r)
                elif op=='*':
                    (n1,d1),(n2,d2)=A
                    d=dict(d1)
                    for f,e in d2.items(): d[f]=d.get(f,0)+e
                    r=s.cancel(s.mul(n1,n2),d)
                else:
                    (n1,d1),(n2,d2)=A
                    if not n2: raise ZeroDivisionError
                    c,fs=s.factor(n2)
                    d=dict(d1)
                    for f,e in fs.items(): d[f]=d.get(f,0)+e
                    nn=pscale(n1,1/c)
                    # multiply by den of b, cancelling with d
                    d2=dict(d2)
                    for f in list(d2):
                        k=min(d2[f],d.get(f,0))
                        if k:
                            d2[f]-=k; d[f]-=k
                            if not d2[f]: del d2[f]
                            if not d[f]: del d[f]
                    if d2: nn=s.mul(nn,s.fpoly(d2))
                    r=s.cancel(nn,d)
                memo[x.id]=r; st.pop(); continue
            if op=='ite' and not s.iteatom: raise TooBig('ite')
            # atom
            rr=s.rules.get(x.id)
            if rr and rr[0]=='sub': memo[x.id]=(s.reduce(patom(x.id)),{})
            else: memo[x.id]=(patom(x.id),{})
            st.pop()
        return memo[t.id]
    def final(s,n):
        """apply 'sqr' rules: atom^2 = num/den ; multiplies through by den powers."""
        for v,r in s.rules.items():
            if r[0]!='sqr': continue
            K=0
            for m in n:
                for a,e in m:
                    if a==v: K=max(K,e//2)
            if K==0: continue
            num,den=r[1],r[2]
            pn=[pconst(1)];pd=[pconst(1)]
            for _ in range(K):
                pn.append(s.mul(pn[-1],num)); pd.append(s.mul(pd[-1],den))
            out={}
            for m,c in n.items():
                e=dict(m).get(v,0); k=e//2; rem=e-2*k
                mm=tuple((a,x) for a,x in m if a!=v)
                base={mmul(mm,((v,rem),) if rem else ()):c}
                out=padd(out,s.mul(base,s.mul(pn[k],pd[K-k])))
            n=out
        return n
    def eq_zero(s,a,b,rtol=Fraction(1,10**12)):
        """decide a==b; returns 'exact' , 'coef' (equal up to relative coefficient rounding), or None"""
        na,da=s.rat(a); nb,db=s.rat(b)
        l=dict(da)
        for f,e in db.items(): l[f]=max(l.get(f,0),e)
        P=s.mul(na,s.fpoly({f:e-da.get(f,0) for f,e in l.items() if e>da.get(f,0)}))
        Q=s.mul(nb,s.fpoly({f:e-db.get(f,0) for f,e in l.items() if e>db.get(f,0)}))
        N=s.final(padd(P,pneg(Q)))
        N=s.reduce(N)
        if not N: return 'exact'
        if any(r[0]=='sqr' for r in s.rules.values()):
            return None if not _coef(N,s.reduce(s.final(P)),s.reduce(s.final(Q)),rtol) else 'coef'
        return 'coef' if _coef(N,P,Q,rtol) else None
ABSTOL=[0]
def _coef(N,P,Q,rtol):
    for m,c in N.items():
        a=max(abs(P.get(m,0)),abs(Q.get(m,0)))
        if a<ABSTOL[0]: continue
        if a==0 or abs(c)>rtol*a: return False
    return True

_simp={}
def simp(t,maxmono=3):
    """t with its polynomial normal form when that is much smaller, else t"""
    if t.op not in('+','*','neg'): return t
    r=_simp.get(t.id)
    if r is not None: return r[0]
    seen={};st=[t];n=0
    while st:
        x=st.pop()
        if x.id in seen: continue
        seen[x.id]=x; n+=1
        if n>400: break
        if x.op in('+','*','/','neg'): st.extend(x.args)
    r=t
    if 6<n<=400:
        old=MULLIM[0]; MULLIM[0]=20000
        try:
            z=NF(); z.iteatom=True; p,d=z.rat(t)
            if not d and len(p)<=maxmono:
                q=R0
                for m,c in sorted(p.items()):
                    y=rc(c)
                    for v,e in m:
                        for _ in range(e): y=rmul(y,seen[v])
                    q=radd(q,y)
                r=q
        except (TooBig,ZeroDivisionError): pass
        finally: MULLIM[0]=old
    _simp[t.id]=(r,t)
    return r
