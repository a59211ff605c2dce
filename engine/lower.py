"""Removes transcendental and radical operators: sin/cos/exp/ln/pow/sqrt/atan2/... become fresh variables tied by
polynomial side conditions.  The result feeds the ring normal form and the SMT printer."""
from terms import *
from math import gcd
import math
import nf as NFM
class LowerError(Exception): pass
TRIG=('sin','cos'); ANG=('atan2','asin','acos','atan')
_byid={}
def _lcm(a,b): return a*b//gcd(a,b)
def rawpoly(t,memo):
    """polynomial in raw atoms: {tuple(sorted ids): coef}"""
    if t.id in memo: return memo[t.id]
    if t.op=='c': r={():t.args[0]} if t.args[0]!=0 else {}
    elif t.op=='+':
        a=rawpoly(t.args[0],memo);b=rawpoly(t.args[1],memo); r=dict(a)
        for m,c in b.items():
            x=r.get(m,0)+c
            if x==0: r.pop(m,None)
            else: r[m]=x
    elif t.op=='neg': r={m:-c for m,c in rawpoly(t.args[0],memo).items()}
    elif t.op=='*':
        a=rawpoly(t.args[0],memo);b=rawpoly(t.args[1],memo)
        if len(a)*len(b)>400: _byid[t.id]=t; r={(t.id,):Fraction(1)}
        else:
            r={}
            for m,c in a.items():
                for n,d in b.items():
                    k=tuple(sorted(m+n)); x=r.get(k,0)+c*d
                    if x==0: r.pop(k,None)
                    else: r[k]=x
    elif t.op=='/' and t.args[1] is PI:
        _inv=mk('v',('$invpi',),'R'); _byid[_inv.id]=_inv
        r={}
        for m,c in rawpoly(t.args[0],memo).items():
            if PI.id in m:
                m=list(m); m.remove(PI.id); r[tuple(m)]=c
            else: r[tuple(sorted(m+(_inv.id,)))]=c
    else: _byid[t.id]=t; r={(t.id,):Fraction(1)}
    memo[t.id]=r
    return r
def cancel_pi(p):
    """cancel pi * invpi inside monomials"""
    inv=mk('v',('$invpi',),'R').id
    out={}
    for m,c in p.items():
        m=list(m)
        while PI.id in m and inv in m: m.remove(PI.id); m.remove(inv)
        k=tuple(m); out[k]=out.get(k,0)+c
    return {m:c for m,c in out.items() if c!=0}
_monic={}
def monic(b):
    """(c, [(b_i, e_i)]) with b = c prod b_i^e_i up to the signs of the b_i, c > 0, the same b_i for all positive multiples of b"""
    if b.op=='c' or b.op not in('+','*','neg','/'): return Fraction(1),[(b,1)]
    r=_monic.get(b.id)
    if r is not None: return r
    r=Fraction(1),[(b,1)]
    try:
        seen={};st=[b]
        while st:
            x=st.pop()
            if x.id in seen: continue
            seen[x.id]=x
            if len(seen)>300: raise NFM.TooBig('size')
            if x.op in('+','*','/','neg'): st.extend(x.args)
        z=NFM.NF(); z.iteatom=True; p,d=z.rat(b)
        def build(p):
            c=abs(p[NFM.lead(p)]); q=R0
            for m,k in sorted(p.items(),key=lambda t:t[0]):
                y=rc(coefrep(k/c))
                for v,e in m:
                    for _ in range(e): y=rmul(y,seen[v])
                q=radd(q,y)
            return c,q
        if p and len(p)<=12 and all(len(z.factl[f])<=12 for f in d):
            c,q=build(p); L=[(q,1)]
            for f,e in d.items():
                k,q=build(z.factl[f]); c=c/k**e; L.append((q,-e))
            r=c,L
    except (NFM.TooBig,ZeroDivisionError): pass
    _monic[b.id]=r; monic.keep.append(b)
    return r
monic.keep=[]
def flip(q):
    """q or -q, whichever has a positive leading coefficient"""
    if q.op=='c': return q,False
    z=NFM.NF(); z.iteatom=True; p,d=z.rat(q)
    if not p or d or p[NFM.lead(p)]>0: return q,False
    at={t.id:t for t in subterms([q])}; q=R0
    for m,e in sorted(p.items(),key=lambda t:t[0]):
        y=rc(-e)
        for v,j in m:
            for _ in range(j): y=rmul(y,at[v])
        q=radd(q,y)
    return q,True
_reps=[]
PIQ=Fraction('3.141592653589793238462643383279502884197')
def coefrep(c):
    """coefficients of exponents and bases that differ by rounding are read as the same constant"""
    if c.denominator<=10**4: return c
    if c<0: return -coefrep(-c)
    r=c.limit_denominator(10**4)
    if r!=0 and abs(r.numerator)<=10**8 and abs(c-r)<=abs(r)*Fraction(1,10**14): return r
    import bisect
    f=float(c); i=bisect.bisect_left(_reps,(f,))
    for j in (i-1,i):
        if 0<=j<len(_reps) and abs(_reps[j][0]-f)<=1e-14*abs(f): return _reps[j][1]
    bisect.insort(_reps,(f,c))
    return c
class Lower:
    def __init__(s,roots,pf=False):
        s.pf=pf; s.memo={}; s.ax0=[]; s.ax1=[]; s.ax2=[]; s.rules={}; s.rp={}; s.bases={}; s.ebases={}; s.back=[]; s.fresh={}
        s.sqrts={}; s.finals=[]; s.atoms=[]; s.lnv={}; s.expv=[]
        s.quo=NFM.NF(); s.quo.iteatom=True; s.qat={}
        sub=subterms(roots)
        for t in sub:
            if t.op in('v',) : _byid[t.id]=t
        tr={};ex={}
        for t in sub:
            if t.op in TRIG:
                for m,c in s.lin(t.args[0]).items():
                    if m==(PI.id,): continue
                    tr.setdefault(m,set()).add(c)
            elif t.op in('exp','pow','sinh','cosh','tanh'):
                for m,c in s.elin(t).items(): ex.setdefault(m,set()).add(c)
        s.unit={}
        for m,cs in tr.items(): s.unit[m]=s.mkunit(m,cs,ANG)
        s.eunit={}
        for m,cs in ex.items(): s.eunit[m]=s.mkunit(m,cs,('ln',))
        s.pairs()
    def lin(s,a):
        return cancel_pi(rawpoly(a,s.rp))
    def elin(s,t):
        """linear form of the exponent of exp/pow"""
        if t.op=='pow':
            b,e=t.args
            if e.op!='c':
                return s.lin(rmul(e,mk('ln',(b,),'R')))
            c,L=monic(b); r={}; ex=coefrep(e.args[0])
            if len(L)>1 and ex.denominator<=4: c,L=Fraction(1),[(b,1)]
            for x,k in L+[(rc(c),1)]:
                if x.op=='c' and x.args[0]==1: continue
                if ex.denominator>4: x=flip(x)[0]       # the power of |x|: the base as a whole is positive
                l=mk('ln',(x,),'R'); _byid[l.id]=l
                r[(l.id,)]=r.get((l.id,),0)+ex*k
            return {m:k for m,k in r.items() if k!=0}
        r={}; G={}
        for m,c in s.lin(t.args[0]).items():
            if any(i in _byid and _byid[i].op=='/' for i in m):
                try:
                    x=s.mono(m); q=s.quo.rat(x)
                    for y in subterms([x]): s.qat[y.id]=y
                    for n,k in q[0].items():
                        n,d=s.cancelmono(n,q[1])
                        g=G.setdefault(d,{}); g[n]=g.get(n,0)+c*k
                    continue
                except (NFM.TooBig,ZeroDivisionError): pass
            r[m]=r.get(m,0)+c
        # quotients with the same denominator are one term c P/D with P and D monic
        def build(p):
            c=p[NFM.lead(p)]; q=R0
            for m,k in sorted(p.items(),key=lambda t:t[0]):
                y=rc(coefrep(k/c))
                for v,e in m:
                    for _ in range(e): y=rmul(y,s.qat[v])
                q=radd(q,y)
            return c,q
        if s.pf:        # proper fractions: the part of each numerator divisible by a denominator factor leaves it
            for d in sorted(G,key=len,reverse=True):
                for f,e in sorted(d):
                    p={m:c for m,c in G[d].items() if c!=0}
                    if not p: break
                    q,p=NFM.pdivrem(p,s.quo.factl[f]); G[d]=p
                    if q:
                        h=frozenset((x,k-(x==f)) for x,k in d if k>(x==f)); g=G.setdefault(h,{})
                        for m,c in q.items(): g[m]=g.get(m,0)+c
        for d,p in G.items():
            p={m:c for m,c in p.items() if c!=0}
            if not p: continue
            if not d:
                for m,k in p.items():
                    m=tuple(sorted(v for v,e in m for _ in range(e)))
                    for v in m: _byid[v]=s.qat[v]
                    r[m]=r.get(m,0)+k
                continue
            c,x=build(p)
            for f,e in sorted(d):
                k,q=build(s.quo.factl[f]); c=c/k**e
                for _ in range(e): x=rdiv(x,q)
            if x.op=='c': m,c=(),c*x.args[0]
            else: _byid[x.id]=x; m=(x.id,); monic.keep.append(x)
            r[m]=r.get(m,0)+c
        return {m:coefrep(c) for m,c in r.items() if c!=0}
    def cancelmono(s,n,den):
        """cancel denominator factors that are plain variables against one numerator monomial"""
        n=dict(n); d={}
        for f,e in den.items():
            q=s.quo.factl[f]
            if len(q)==1:
                (m,k),=q.items()
                if k==1 and len(m)==1 and m[0][1]==1:
                    v=m[0][0]; j=min(e,n.get(v,0)); e-=j
                    if j: n[v]-=j
            if e: d[f]=e
        return tuple(sorted((v,e) for v,e in n.items() if e)),frozenset(d.items())
    def mkunit(s,m,cs,natural):
        nat=len(m)==1 and m[0] in _byid and _byid[m[0]].op in natural
        c0=Fraction(1) if nat else min(cs,key=abs)
        if c0<0: c0=-c0
        D=1
        for c in cs: D=_lcm(D,(c/c0).denominator)
        if D<=8 and all(abs(c/c0*D)<=24 for c in cs): return c0/D
        if nat and all(abs(c)<=24 for c in cs) and D<=8: return Fraction(1,D)
        return None
    def mono(s,m):
        r=R1
        for i in m: r=rmul(r,_byid[i])
        return r
    def newvar(s,pfx,key):
        return rvar('$%s%s'%(pfx,key))
    # ---- sqrt
    def lsqrt(s,S):
        S=S
        if S.op=='c':
            q=rsqrt(S)
            if q.op=='c': return q
        if S.id in s.sqrts: return s.sqrts[S.id]
        r=s.newvar('r',S.id)
        s.sqrts[S.id]=r
        s.ax0.append(rle(R0,r)); s.ax0.append(req(rmul(r,r),S))
        s.finals.append((r,S))
        return r
    # ---- trig
    def base(s,m,u):
        k=(m,u)
        if k in s.bases: return s.bases[k]
        at=_byid[m[0]] if len(m)==1 else None
        if at is not None and at.op in ANG and u.numerator==1 and u.denominator in(1,2,4):
            if at.op=='atan2':
                y=s.low(at.args[0]);x=s.low(at.args[1])
                r=s.lsqrt(radd(rmul(x,x),rmul(y,y)))
                S,C=rdiv(y,r),rdiv(x,r)
            elif at.op=='asin':
                S=s.low(at.args[0]); C=s.lsqrt(rsub(R1,rmul(S,S)))
            elif at.op=='acos':
                C=s.low(at.args[0]); S=s.lsqrt(rsub(R1,rmul(C,C)))
            else:
                x=s.low(at.args[0]); r=s.lsqrt(radd(R1,rmul(x,x))); S,C=rdiv(x,r),rdiv(R1,r)
            d=u.denominator; nm=at.op
            while d>1:
                # half angle: t in [-pi,pi] so t/2 in [-pi/2,pi/2], cos(t/2)>=0
                c=s.newvar('hc',(at.id,d)); z=s.newvar('hs',(at.id,d))
                c2=rdiv(radd(R1,C),rc(2)); z2=rdiv(rsub(R1,C),rc(2))
                s.ax0+= [rle(R0,c),req(rmul(c,c),c2),req(rmul(z,z),z2),req(rmul(rc(2),rmul(z,c)),S)]
                s.finals.append((c,c2)); s.finals.append((z,z2))
                if nm=='acos': s.ax0.append(rle(R0,z))
                S,C=z,c; d//=2
            r=(S,C)
        else:
            nm='_'.join(map(str,m))+'@%s'%u
            S=s.newvar('s',nm);C=s.newvar('c',nm)
            s.ax0.append(req(radd(rmul(S,S),rmul(C,C)),R1))
            s.trigrule(S,C)
            s.back.append((m,u,S,C))
            al=s.low(rmul(rc(u),s.mono(m)))
            h=rmul(PI,rc(Fraction(1,2)))
            A=s.ax1
            A+= [rle(S,R1),rle(rc(-1),S),rle(C,R1),rle(rc(-1),C)]
            imp=lambda p,q: bor(bnot(p),q)
            btw=lambda a,x,b: band(rlt(a,x),rlt(x,b))
            A.append(imp(btw(rneg(h),al,h),rlt(R0,C)))
            A.append(imp(btw(R0,al,PI),rlt(R0,S)))
            A.append(imp(btw(rneg(PI),al,R0),rlt(S,R0)))
            A.append(imp(btw(h,al,rmul(rc(3),h)),rlt(C,R0)))
            A.append(imp(btw(rmul(rc(-3),h),al,rneg(h)),rlt(C,R0)))
            A.append(imp(req(al,R0),band(req(S,R0),req(C,R1))))
            A.append(imp(bor(req(al,PI),req(al,rneg(PI))),band(req(S,R0),req(C,rc(-1)))))
            A.append(imp(req(al,h),band(req(S,R1),req(C,R0))))
            A.append(imp(req(al,rneg(h)),band(req(S,rc(-1)),req(C,R0))))
            # |sin a| <= |a|
            s.ax2.append(imp(rlt(R0,al),rlt(S,al))); s.ax2.append(imp(rlt(al,R0),rlt(al,S)))
            r=(S,C)
        s.bases[k]=r
        return r
    def trigrule(s,S,C):
        s.rules[S.id]=('sqt',C)
    def multi(s,S,C,k):
        if k==0: return R0,R1
        if k<0:
            a,b=s.multi(S,C,-k); return rneg(a),b
        if k==1: return S,C
        if k%2==0:
            a,b=s.multi(S,C,k//2)
            return rmul(rc(2),rmul(a,b)), rsub(rmul(b,b),rmul(a,a))
        a,b=s.multi(S,C,k-1)
        return radd(rmul(a,C),rmul(b,S)), rsub(rmul(b,C),rmul(a,S))
    def piang(s,q):
        """sin,cos of q*pi"""
        q=q%2
        t={Fraction(0):(R0,R1),Fraction(1,2):(R1,R0),Fraction(1):(R0,rc(-1)),Fraction(3,2):(rc(-1),R0)}
        if q in t: return t[q]
        h=rc(Fraction(1,2))
        base={}
        r2=rdiv(s.lsqrt(rc(2)),rc(2)); r3=rdiv(s.lsqrt(rc(3)),rc(2))
        base={Fraction(1,4):(r2,r2),Fraction(1,6):(h,r3),Fraction(1,3):(r3,h)}
        for quad in range(4):
            x=q-Fraction(quad,2)
            if x in base:
                S,C=base[x]
                for _ in range(quad): S,C=C,rneg(S)
                return S,C
        S=s.newvar('s','pi@%s'%q); C=s.newvar('c','pi@%s'%q)
        s.ax0.append(req(radd(rmul(S,S),rmul(C,C)),R1)); s.trigrule(S,C)
        import math
        for v,x in((S,math.sin(float(q)*math.pi)),(C,math.cos(float(q)*math.pi))):
            s.ax0.append(rle(rc(Fraction(x)-Fraction(1,10**14)),v)); s.ax0.append(rle(v,rc(Fraction(x)+Fraction(1,10**14))))
        return S,C
    def sincos(s,a):
        key=('sc',a.id)
        if key in s.memo: return s.memo[key]
        S,C=R0,R1
        for m,c in sorted(s.lin(a).items()):
            if m==(PI.id,): z,w=s.piang(c)
            else:
                u=s.unit.get(m)
                if m not in s.unit: raise LowerError('angle outside the scanned set')
                if u is None: z,w=s.base(m,c)
                else: z,w=s.multi(*s.base(m,u),int(c/u))
            S,C=radd(rmul(S,w),rmul(C,z)), rsub(rmul(C,w),rmul(S,z))
        s.memo[key]=(S,C)
        return S,C
    # ---- exp / ln / pow
    def lexp(s,l):
        r=R1
        for m,c in sorted(l.items()):
            u=s.eunit.get(m)
            k=1
            if u is None: u=c
            else: k=int(c/u)
            E=s.ebase(m,u)
            p=R1
            for _ in range(abs(k)): p=rmul(p,E)
            r=rmul(r,p) if k>0 else rdiv(r,p)
        return r
    def ebase(s,m,u):
        k=(m,u)
        if k in s.ebases: return s.ebases[k]
        at=_byid[m[0]] if len(m)==1 else None
        imp=lambda p,q: bor(bnot(p),q)
        if at is not None and at.op=='ln' and u.denominator<=4 and abs(u.numerator)<=4:
            x=s.low(at.args[0])
            p=R1
            for _ in range(abs(u.numerator)): p=rmul(p,x)
            if u.numerator<0: p=rdiv(R1,p)
            if u.denominator==1: E=p
            elif u.denominator==2: E=s.lsqrt(p)
            elif u.denominator==4: E=s.lsqrt(s.lsqrt(p))
            else:
                E=s.newvar('E','_'.join(map(str,m))+'@%s'%u)
                s.ax0+=[rle(R0,E),req(rmul(E,rmul(E,E)),p)]
            s.ebases[k]=E
            return E
        E=s.newvar('E','_'.join(map(str,m))+'@%s'%u)
        s.ebases[k]=E
        s.ax0.append(rlt(R0,E))
        if at is not None and at.op=='ln':
            x=s.low(at.args[0])
            if x.op=='c' and x.args[0]>0: s.enclose(E,lambda m:m.power(m.mpf(x.args[0].numerator)/x.args[0].denominator,m.mpf(u.numerator)/u.denominator))
            lo,hi=(rlt(R0,rc(u)) is TRUE),None
            s.ax1.append(imp(req(x,R1),req(E,R1)))
            for x in [x] if x.op=='c' else [x,rneg(x)]:
                lt1=band(rlt(R0,x),rlt(x,R1))
                if u>0: s.ax1+= [imp(rlt(R1,x),rlt(R1,E)),imp(lt1,rlt(E,R1))]
                else: s.ax1+= [imp(rlt(R1,x),rlt(E,R1)),imp(lt1,rlt(R1,E))]
                s.expv.append(('p',u,x,E))
        else:
            al=s.low(rmul(rc(u),s.mono(m)))
            if al.op=='c' and abs(al.args[0])<700: s.enclose(E,lambda mm:mm.exp(mm.mpf(al.args[0].numerator)/al.args[0].denominator))
            s.ax1+= [imp(rlt(R0,al),rlt(R1,E)),imp(rlt(al,R0),rlt(E,R1)),imp(req(al,R0),req(E,R1)),rle(radd(R1,al),E)]
            s.expv.append(('e',None,al,E))
        return E
    def enclose(s,E,f):
        """numeric bounds of a constant"""
        import mpmath
        with mpmath.workdps(40):
            v=f(mpmath); w=abs(v)*mpmath.mpf(10)**-25
            g=lambda y: Fraction(int(mpmath.floor(y*mpmath.mpf(10)**60)),10**60)
            s.ax0+=[rle(rc(g(v-w)),E),rle(E,rc(g(v+w)+Fraction(1,10**60)))]
    def pairs(s): pass
    def finish(s):
        imp=lambda p,q: bor(bnot(p),q)
        V=s.expv
        for i in range(len(V)):
            for j in range(i):
                a,b=V[i],V[j]
                if a[0]==b[0] and a[1]==b[1]:
                    up=a[0]=='e' or a[1]>0
                    g=(lambda x:rlt(R0,x)) if a[0]=='p' else (lambda x:TRUE)
                    s.ax2+=[imp(band(g(a[2]),rlt(a[2],b[2])),rlt(a[3],b[3]) if up else rlt(b[3],a[3])),imp(band(g(b[2]),rlt(b[2],a[2])),rlt(b[3],a[3]) if up else rlt(a[3],b[3])),imp(req(a[2],b[2]),req(a[3],b[3]))]
        L=list(s.lnv.values())
        for i in range(len(L)):
            for j in range(i):
                a,b=L[i],L[j]
                s.ax2+=[imp(rlt(a[0],b[0]),rlt(a[1],b[1])),imp(rlt(b[0],a[0]),rlt(b[1],a[1])),imp(req(a[0],b[0]),req(a[1],b[1]))]
        s.finish=lambda:None
    def lln(s,t):
        x=t.args[0]
        # ln(exp(a)) = a
        if x.op=='exp': return s.low(x.args[0])
        if x.op=='pow' and x.args[1].op=='c': return rmul(x.args[1],s.lln(mk('ln',(x.args[0],),'R')))
        lx=s.low(x)
        L=s.newvar('L',lx.id)
        if lx.id not in s.lnv:
            s.lnv[lx.id]=(lx,L); s.atoms.append((L,'ln',[lx]))
            imp=lambda p,q: bor(bnot(p),q)
            s.ax1+=[imp(rlt(R1,lx),rlt(R0,L)),imp(band(rlt(R0,lx),rlt(lx,R1)),rlt(L,R0)),imp(req(lx,R1),req(L,R0)),imp(rlt(R0,lx),rle(L,rsub(lx,R1)))]
        return L
    # ---- standalone angles
    def lang(s,t):
        imp=lambda p,q: bor(bnot(p),q)
        A=s.newvar('a',t.id); h=rmul(PI,rc(Fraction(1,2)))
        a=[s.low(x) for x in t.args]
        s.atoms.append((A,t.op,a))
        if t.op=='atan2':
            y,x=a
            s.ax1+=[rle(rneg(PI),A),rle(A,PI),imp(rlt(R0,y),band(rlt(R0,A),rlt(A,PI))),imp(rlt(y,R0),band(rlt(A,R0),rlt(rneg(PI),A))),
              imp(band(req(y,R0),rle(R0,x)),req(A,R0)),imp(band(req(y,R0),rlt(x,R0)),req(A,PI)),
              imp(rlt(R0,x),band(rlt(rneg(h),A),rlt(A,h))),imp(band(rlt(x,R0),rlt(R0,y)),rlt(h,A)),imp(band(rlt(x,R0),rlt(y,R0)),rlt(A,rneg(h))),
              imp(band(req(x,R0),rlt(R0,y)),req(A,h)),imp(band(req(x,R0),rlt(y,R0)),req(A,rneg(h)))]
        elif t.op=='asin':
            x,=a
            s.ax1+=[rle(rneg(h),A),rle(A,h),imp(rlt(R0,x),rlt(R0,A)),imp(rlt(x,R0),rlt(A,R0)),imp(req(x,R0),req(A,R0)),imp(req(x,R1),req(A,h)),imp(req(x,rc(-1)),req(A,rneg(h))),
              imp(band(rlt(x,R1),rlt(rc(-1),x)),band(rlt(A,h),rlt(rneg(h),A)))]
        elif t.op=='acos':
            x,=a
            s.ax1+=[rle(R0,A),rle(A,PI),imp(rlt(R0,x),rlt(A,h)),imp(rlt(x,R0),rlt(h,A)),imp(req(x,R0),req(A,h)),imp(req(x,R1),req(A,R0)),imp(req(x,rc(-1)),req(A,PI)),
              imp(band(rlt(x,R1),rlt(rc(-1),x)),band(rlt(A,PI),rlt(R0,A)))]
        else:
            x,=a
            s.ax1+=[rlt(rneg(h),A),rlt(A,h),imp(rlt(R0,x),band(rlt(R0,A),rlt(A,x))),imp(rlt(x,R0),band(rlt(A,R0),rlt(x,A))),imp(req(x,R0),req(A,R0))]
        return A
    # ---- main
    def low(s,t):
        st=[t]; memo=s.memo
        while st:
            x=st[-1]
            if x.id in memo: st.pop(); continue
            if x.op in 'cv': memo[x.id]=x; st.pop(); continue
            if x.op in TRIG:
                S,C=s.sincos(x.args[0]); memo[x.id]=S if x.op=='sin' else C; st.pop(); continue
            if x.op=='tan':
                S,C=s.sincos(x.args[0]); memo[x.id]=rdiv(S,C); st.pop(); continue
            if x.op in('exp','pow'):
                el=s.elin(x); r=memo[x.id]=s.lexp(el); st.pop()
                if x.op=='exp' and len(el)>1:
                    imp=lambda p,q: bor(bnot(p),q); al=s.low(x.args[0])
                    s.ax1+=[imp(rlt(R0,al),rlt(R1,r)),imp(rlt(al,R0),rlt(r,R1)),imp(req(al,R0),req(r,R1))]; s.expv.append(('e',None,al,r))
                if x.op=='pow' and x.args[1].op=='c' and x.args[1].args[0].denominator>4:
                    k,L=monic(x.args[0])
                    if len(L)>1 or (L and k!=1):
                        e=x.args[1].args[0]; b=s.low(x.args[0]); y=r if e>0 else rdiv(R1,r); e=abs(coefrep(e)); s.expv.append(('p',e,b,y))
                        imp=lambda p,q: bor(bnot(p),q); lt1=band(rlt(R0,b),rlt(b,R1)); gt1=rlt(R1,b)
                        s.ax1+=[imp(req(b,R1),req(y,R1)),imp(lt1,rlt(y,R1)),imp(gt1,rlt(R1,y)),imp(lt1,rlt(y,b) if e>1 else rlt(b,y)),imp(gt1,rlt(b,y) if e>1 else rlt(y,b))]
                continue
            if x.op in('sinh','cosh','tanh'):
                E=s.lexp(s.lin(x.args[0])); I=rdiv(R1,E)
                sh=rdiv(rsub(E,I),rc(2)); ch=rdiv(radd(E,I),rc(2))
                memo[x.id]=sh if x.op=='sinh' else ch if x.op=='cosh' else rdiv(sh,ch); st.pop(); continue
            if x.op=='ln': memo[x.id]=s.lln(x); st.pop(); continue
            if x.op in ANG: memo[x.id]=s.lang(x); st.pop(); continue
            pend=[a for a in x.args if isinstance(a,T) and a.id not in memo]
            if pend: st.extend(pend); continue
            A=[memo[a.id] if isinstance(a,T) else a for a in x.args]
            memo[x.id]=s.rebuild(x,A); st.pop()
        return memo[t.id]
    def rebuild(s,x,A):
        op=x.op
        if op=='sqrt': return s.lsqrt(A[0])
        if op=='cbrt':
            r=s.newvar('cb',A[0].id); s.ax0.append(req(rmul(r,rmul(r,r)),A[0])); return r
        return rebuild(x,A)
    def nfrules(s,eqs=(),sign=None):
        """normal-form engine with the relations of this lowering and equalities eqs (lowered terms = 0).
        sign(t) -> 1/-1/None decides the sign of an unlowered term; used to resolve sqrt(q^2)=|q|"""
        n=NFM.NF({})
        if s.pf and not s.bases: n.rules[PI.id]=('sub',NFM.pconst(PIQ))      # second attempt: pi to 40 digits, equality up to rounding
        for v,r in list(s.rules.items()):
            C=r[1]; n.rules[v]=('sq',{():Fraction(1),((C.id,2),):Fraction(-1)})
        # equality facts: try to orient
        for e in eqs:
            try:
                num,_=n.rat(e); num=n.reduce(num)
            except Exception: continue
            if not num or len(num)>40: continue
            orient(n,num)
            n.memo={}
        if sign is not None and eqs:
            for v,r in list(n.rules.items()):
                if r[0]=='sq':
                    q=sqpoly(n.reduce(r[1]))
                    if q is None: 
                        if not n.reduce(r[1]): n.rules[v]=('sub',{}); n.memo={}
                        continue
                    c,m=q
                    if m: continue
                    try: sg=sign(s.unatom(v))
                    except KeyError: sg=None
                    if sg: n.rules[v]=('sub',NFM.pconst(c*sg)); n.memo={}
        seen={}
        for r,S in s.finals:
            num,den=n.rat(S); num=n.reduce(num); num,den=n.cancel(num,den)
            d=n.fpoly(den)
            if r.id in n.rules: continue
            key=akey(num,d)
            half=str(r.args[0])[:3] in('$hs','$hc')
            if not half and key in seen: n.rules[r.id]=('sub',patom(seen[key])); n.memo={}; continue
            if not half: seen[key]=r.id
            if not num: n.rules[r.id]=('sub',{}); n.memo={}; continue
            q=sqpoly(num)
            if q is None and not half and sign is not None and not den and 3<=len(num)<=30:
                w=polysqrt(n,num)
                if w is not None:
                    t=R0
                    try:
                        for m,c in sorted(w.items()):
                            y=rc(c)
                            for v,e in m:
                                for _ in range(e): y=rmul(y,s.unatom(v))
                            t=radd(t,y)
                        sg=sign(t)
                    except KeyError: sg=None
                    if sg: n.rules[r.id]=('sub',NFM.pscale(w,sg)); n.memo={}; continue
            if not half and q is not None and all(e%2==0 for f,e in den.items()):
                c,m=q
                if not m and not den: n.rules[r.id]=('sub',NFM.pconst(c)); n.memo={}; continue
                if sign is not None and not den:
                    t=rc(c)
                    try:
                        for v,e in m:
                            for _ in range(e): t=rmul(t,s.unatom(v))
                        sg=sign(t)
                    except KeyError: sg=None
                    if sg: n.rules[r.id]=('sub',{m:c*sg}); n.memo={}; continue
            if d=={():Fraction(1)}: n.rules[r.id]=('sq',num)
            else: n.rules[r.id]=('sqr',num,d)
            n.memo={}
        seen={}
        for A,op,args in s.atoms:
            try:
                k=[op]
                for x in args:
                    num,den=n.rat(x); num=n.reduce(num); num,den=n.cancel(num,den); k.append(akey(num,n.fpoly(den)))
            except (NFM.TooBig,ZeroDivisionError): continue
            k=tuple(k)
            if k in seen and seen[k]!=A.id and A.id not in n.rules: n.rules[A.id]=('sub',patom(seen[k])); n.memo={}
            else: seen.setdefault(k,A.id)
        return n
    def unatom(s,v):
        """the unlowered term a lowered atom stands for"""
        if not hasattr(s,'_un') or s._unl!=(len(s.bases),len(s.finals)):
            s._un={}; s._unl=(len(s.bases),len(s.finals))
            for (mm,u),(S,C) in s.bases.items():
                if S.op=='v' and C.op=='v' and S.args[0].startswith('$s'):
                    ang=rmul(rc(u),s.mono(mm)); s._un[S.id]=uf('sin',ang); s._un[C.id]=uf('cos',ang)
            for r,S in s.finals:
                if r.args[0].startswith('$r'):
                    for x in tvars(S): s._un.setdefault(x.id,x) if not x.args[0].startswith('$') else None
                    try: s._un[r.id]=rsqrt(s.unlow(S))
                    except KeyError: pass
            for x in list(s.memo.values()):
                if isinstance(x,T) and x.op=='v' and not x.args[0].startswith('$'): s._un[x.id]=x
        return s._un[v]
    def unlow(s,t):
        memo={}; st=[t]
        while st:
            x=st[-1]
            if x.id in memo: st.pop(); continue
            if x.op=='v': memo[x.id]=s._un[x.id] if x.args[0].startswith('$') else x; st.pop(); continue
            pend=[a for a in x.args if isinstance(a,T) and a.id not in memo]
            if pend: st.extend(pend); continue
            memo[x.id]=x if x.op=='c' else rebuild(x,[memo[a.id] if isinstance(a,T) else a for a in x.args]); st.pop()
        return memo[t.id]
def akey(num,d):
    return frozenset((m,coefrep(c)) for m,c in num.items()),frozenset((m,coefrep(c)) for m,c in d.items())
def patom(i): return {((i,1),):Fraction(1)}
def sqpoly(num):
    """(c, mono) with (c*mono)^2 = num"""
    if not num or len(num)!=1: return None
    (m,c),=num.items()
    if c<0 or any(e%2 for _,e in m): return None
    q=rsqrt(rc(c))
    if q.op!='c': return None
    return q.args[0],tuple((v,e//2) for v,e in m)
def polysqrt(n,p,tol=1e-13):
    """w with w^2 = p up to rounding of the coefficients, else None"""
    l=NFM.lead(p); r=sqpoly({l:p[l]})
    if r is None:
        if any(e%2 for _,e in l) or p[l]<0: return None
        c=Fraction(math.sqrt(p[l])); m=tuple((v,e//2) for v,e in l)
    else: c,m=r
    w={m:c}; done={l}
    for _ in range(8):
        rest=NFM.padd(p,NFM.pneg(NFM.pmul(w,w)))
        rest={k:x for k,x in rest.items() if abs(x)>tol*max(abs(p.get(k,0)),Fraction(1,10**30))}
        if not rest: break
        k=NFM.lead(rest); q=NFM.mdiv(k,m)
        if q is None or q in w: return None
        x=rest[k]/(2*c)
        if k not in p: return None
        w[q]=x
    else: return None
    return w
def orient(n,p,depth=0):
    """turn p=0 into a rewrite rule v->.. or v^2->.. when possible"""
    occ={}
    for m in p:
        for v,e in m: occ.setdefault(v,[]).append((m,e))
    best=None
    for v,l in sorted(occ.items(),reverse=True):
        if v in n.rules: continue
        if len(l)==1:
            m,e=l[0]
            if m==((v,1),): best=('sub',v,m); break
            if m==((v,2),) and best is None: best=('sq',v,m)
    if best is None or best[0]=='sq':
        # an atom with a square rule: substitute it and keep the square rule as a new equation
        for v,l in sorted(occ.items(),reverse=True):
            if v in n.rules and n.rules[v][0]=='sq' and len(l)==1 and l[0][0]==((v,1),) and depth<4:
                c=p[((v,1),)]
                rest={a:-b/c for a,b in p.items() if a!=((v,1),)}
                old=n.rules[v][1]
                if any(x==v for m in old for x,_ in m): continue
                n.rules[v]=('sub',rest)
                try: q=n.reduce(NFM.padd(NFM.pmul(rest,rest),NFM.pneg(old)))
                except NFM.TooBig: n.rules[v]=('sq',old); continue
                if q and len(q)<=40: orient(n,q,depth+1)
                return True
    if best is None: return False
    k,v,m=best; c=p[m]
    rest={a:-b/c for a,b in p.items() if a!=m}
    n.rules[v]=(k,rest)
    return True
_B={'+':radd,'*':rmul,'neg':rneg,'/':None,'<':rlt,'=':req,'i+':iadd,'i*':imul,'idiv':idiv,'imod':imod,'i<':ilt,'i=':ieq,'not':bnot,'and':band,'xor':bxor,'ite':ite,'i2r':i2r,'floor':r2i_floor}
def rebuild(x,A):
    op=x.op
    if op=='/':
        if A[1].op=='c' and A[1].args[0]==0: return mk('/',tuple(A),'R')
        return rdiv(A[0],A[1])
    f=_B.get(op)
    if f: return f(*A)
    return mk(op,tuple(A),x.sort)
