"""Outward-rounded interval evaluation of real terms, from the bounds the path condition puts on terms."""
import math
from terms import *
INF=math.inf
def dn(x): return x if x in(0.0,-INF,INF) else math.nextafter(math.nextafter(x,-INF),-INF)
def up(x): return x if x in(0.0,-INF,INF) else math.nextafter(math.nextafter(x,INF),INF)
def fr(c):
    try: f=float(c)
    except OverflowError: return (math.ulp(0)+1e308,INF) if c>0 else (-INF,-1e308)
    if f in(INF,-INF): return (1e308,INF) if f>0 else (-INF,-1e308)
    if f==0.0 and c!=0: return (0.0,5e-324) if c>0 else (-5e-324,0.0)
    return (f,f) if c==Fraction(f) else (math.nextafter(f,-INF),math.nextafter(f,INF))
def m(x,y): return 0.0 if x==0 or y==0 else x*y
def mul(a,b):
    p=[m(x,y) for x in a for y in b]
    return dn(min(p)),up(max(p))
def div(a,b):
    lo,hi=b
    if lo<0<hi: return -INF,INF
    if lo==hi==0: return -INF,INF
    def inv(x,pos): return (INF if pos else -INF) if x==0 else (0.0 if x in(INF,-INF) else 1/x)
    pos=lo>=0
    u,v=inv(hi,pos),inv(lo,pos)
    return mul(a,(dn(u),up(v)))
def powf(x,e):
    if x<=0: return 0.0 if e>0 else INF
    if x==INF: return INF if e>0 else 0.0
    try: return math.pow(x,e)
    except OverflowError: return INF
class Ival:
    def __init__(s): s.memo={}; s.tb={}; s.keep=[]; s.ver=0
    def bound(s,t,lo,hi):
        a,b=s.tb.get(t.id,(-INF,INF)); a2,b2=max(a,lo),min(b,hi)
        if (a2,b2)!=(a,b): s.tb[t.id]=(a2,b2); s.keep.append(t); s.memo={}
    def fact(s,c):
        neg=False
        if c.op=='not': neg=True; c=c.args[0]
        if c.op not in('<','='): return
        a,b=c.args
        if a.sort!='R': return
        if c.op=='=':
            if neg: return
            if b.op=='c': a,b=b,a
            if a.op=='c': l,h=fr(a.args[0]); s.bound(b,l,h)
            else:
                (l,h),(p,q)=s.get(a),s.get(b); s.bound(b,l,h); s.bound(a,p,q)
            return
        if neg: a,b=b,a   # b<=a
        if a.op=='c': s.bound(b,fr(a.args[0])[0],INF)
        elif b.op=='c': s.bound(a,-INF,fr(b.args[0])[1])
    def get(s,t):
        st=[t]; memo=s.memo
        while st:
            x=st[-1]
            if x.id in memo: st.pop(); continue
            pend=[a for a in x.args if isinstance(a,T) and a.sort=='R' and a.id not in memo]
            if pend: st.extend(pend); continue
            lo,hi=s.ev(x,[memo[a.id] if isinstance(a,T) and a.sort=='R' else None for a in x.args])
            if lo!=lo: lo=-INF
            if hi!=hi: hi=INF
            b=s.tb.get(x.id)
            if b: lo,hi=max(lo,b[0]),min(hi,b[1])
            memo[x.id]=(lo,hi); st.pop()
        return memo[t.id]
    def ev(s,x,A):
        op=x.op
        if op=='c': return fr(x.args[0])
        if x is PI: return 3.141592653589793,3.1415926535897936
        if op=='v': return -INF,INF
        if op=='+': return dn(A[0][0]+A[1][0]),up(A[0][1]+A[1][1])
        if op=='neg': return -A[0][1],-A[0][0]
        if op=='*':
            if x.args[0] is x.args[1]:
                l,h=A[0]; a=max(abs(l),abs(h)); b=0.0 if l<=0<=h else min(abs(l),abs(h))
                return max(0.0,dn(b*b)),up(m(a,a))
            r=mul(*A)
            if r[0]<0<r[1] or r[0]<0 and r[1]<=0:
                # squares hidden in the product tree
                fs={};st=[x];n=0
                while st and n<24:
                    y=st.pop(); n+=1
                    if y.op=='*': st.extend(y.args)
                    else: fs.setdefault(y.id,[0,y])[0]+=1
                if not st and any(k>1 for k,_ in fs.values()):
                    q=(1.0,1.0)
                    for k,y in fs.values():
                        l,h=s.get(y) if y.id not in s.memo else s.memo[y.id]
                        if k%2==0:
                            a=max(abs(l),abs(h)); b=0.0 if l<=0<=h else min(abs(l),abs(h)); l,h=dn(dn(powf(b,k))),up(up(powf(a,k)))
                            q=mul(q,(max(0.0,l),h))
                        else:
                            for _ in range(k): q=mul(q,(l,h))
                    r=max(r[0],q[0]),min(r[1],q[1])
            return r
        if op=='/': return div(*A)
        if op=='ite':
            c=x.args[0]; a,b=A[1],A[2]
            u,v=x.args[1],x.args[2]
            def refine(t,iv,c):
                # c holds: 0<t or not(t<0) or not(0<t)...
                n=c.op=='not'; c=c.args[0] if n else c
                if c.op=='<':
                    p,q=c.args
                    if not n and q is t and p.op=='c' or n and p is t and q.op=='c':
                        k=p if q is t else q; return max(iv[0],fr(k.args[0])[0]),iv[1]
                    if not n and p is t and q.op=='c' or n and q is t and p.op=='c':
                        k=q if p is t else p; return iv[0],min(iv[1],fr(k.args[0])[1])
                return iv
            a=refine(u,a,c); b=refine(v,b,bnot(c))
            return min(a[0],b[0]),max(a[1],b[1])
        if op=='sqrt':
            l,h=A[0]; return max(0.0,dn(math.sqrt(max(0.0,l)))),(up(math.sqrt(h)) if 0<=h<INF else INF)
        if op in('sin','cos'):
            l,h=A[0]
            if h-l>0.5 or max(abs(l),abs(h))>1e6: return -1.0,1.0
            mid=(l+h)/2; g=math.sin if op=='sin' else math.cos; w=(h-l)/2+1e-15*(1+abs(mid))
            return max(-1.0,g(mid)-w),min(1.0,g(mid)+w)
        if op=='exp':
            l,h=A[0]
            def e(v):
                try: return math.exp(v)
                except OverflowError: return INF
            return max(0.0,dn(dn(e(l)))),up(up(e(h)))
        if op=='ln':
            l,h=A[0]; return (dn(dn(math.log(l))) if l>0 else -INF),(up(up(math.log(h))) if 0<h<INF else INF)
        if op=='pow':
            if x.args[1].op!='c': return 0.0,INF
            e=float(x.args[1].args[0]); l,h=max(0.0,A[0][0]),max(0.0,A[0][1])
            a,b=powf(l,e),powf(h,e)
            if e<0: a,b=b,a
            return max(0.0,dn(dn(a))*(1-1e-15)),up(up(b))*(1+1e-15)
        if op=='atan':
            l,h=A[0]; return dn(dn(math.atan(l))),up(up(math.atan(h)))
        if op in('asin','acos') and A[0][0]>=-1 and A[0][1]<=1:
            l,h=A[0]; g=math.asin if op=='asin' else math.acos
            a,b=g(l),g(h); return dn(dn(min(a,b))),up(up(max(a,b)))
        if op=='asin': return -1.5707963267948968,1.5707963267948968
        if op=='acos': return 0.0,3.1415926535897936
        if op=='atan2' and A[1][0]>0:
            l,h=div(A[0],A[1]); return dn(dn(math.atan(l))),up(up(math.atan(h)))
        if op=='atan2': return (0.0 if A[0][0]>=0 else -3.1415926535897936),3.1415926535897936
        if op=='tanh': return -1.0,1.0
        if op=='cosh': return 1.0,INF
        return -INF,INF
    def decide(s,c):
        """truth of a comparison of reals, or None"""
        neg=False
        if c.op=='not': neg=True; c=c.args[0]
        if c.op not in('<','=') or c.args[0].sort!='R': return None
        (a,b),(p,q)=s.get(c.args[0]),s.get(c.args[1])
        if a>b or p>q: return None
        r=None
        if c.op=='<':
            if b<p: r=True
            elif a>=q: r=False
        elif b<p or q<a: r=False
        return None if r is None else r!=neg
