"""SMT-LIB printing and solver portfolio."""
import subprocess,time,os,re,signal,select,tempfile
from terms import *
Z3N=['/usr/local/bin/z3-new']; 
import shutil
Z3N=[shutil.which('z3-new') or 'z3']; Z3O=[shutil.which('z3') or 'z3']; CVC=[shutil.which('cvc5') or 'cvc5']
STAT={'queries':0,'time':0.0,'unsat':0,'sat':0,'unknown':0,'bysolver':{}}
def sortname(s):
    if s=='B': return 'Bool'
    if s=='I': return 'Int'
    if s=='R': return 'Real'
    if s[0]=='V': return '(_ BitVec %d)'%s[1]
    if s[0]=='F': return '(_ FloatingPoint 11 53)' if s[1]==64 else '(_ FloatingPoint 8 24)'
    raise Exception(s)
def const(t):
    v=t.args[0];s=t.sort
    if s=='B': return 'true' if v else 'false'
    if s=='I': return str(v) if v>=0 else '(- %d)'%-v
    if s=='R':
        n,d=v.numerator,v.denominator
        a='%d.0'%abs(n) if d==1 else '(/ %d.0 %d.0)'%(abs(n),d)
        return a if n>=0 else '(- %s)'%a
    if s[0]=='V': return '(_ bv%d %d)'%(v&((1<<s[1])-1),s[1])
    if s[0]=='F':
        w=s[1]
        return '((_ to_fp %s) #x%0*x)'%('11 53' if w==64 else '8 24',w//4,v)
    raise Exception(s)
OPS={'+':'+','*':'*','neg':'-','/':'/','<':'<','=':'=','i+':'+','i*':'*','i<':'<','i=':'=','idiv':'div','imod':'mod','not':'not','and':'and','xor':'xor','ite':'ite','i2r':'to_real','floor':'to_int',
 'bvadd':'bvadd','bvsub':'bvsub','bvmul':'bvmul','bvand':'bvand','bvor':'bvor','bvxor':'bvxor','bvshl':'bvshl','bvlshr':'bvlshr','bvashr':'bvashr','bvudiv':'bvudiv','bvurem':'bvurem','bvsdiv':'bvsdiv','bvsrem':'bvsrem','bvult':'bvult','bvslt':'bvslt','bv=':'=','bvneg':'bvneg','concat':'concat',
 'fadd':'fp.add RNE','fsub':'fp.sub RNE','fmul':'fp.mul RNE','fdiv':'fp.div RNE','fneg':'fp.neg','fabs':'fp.abs','fsqrt':'fp.sqrt RNE','flt':'fp.lt','fle':'fp.leq','feq':'fp.eq','fisnan':'fp.isNaN','fisinf':'fp.isInfinite','fmin':'fp.min','fmax':'fp.max','ffma':'fp.fma RNE','f==':'=','bv2int':'bv2nat'}
def opname(t):
    o=OPS.get(t.op)
    if o: return o
    if t.op=='extract': return '(_ extract %d %d)'%(t.args[1],t.args[2])
    if t.op=='zext': return '(_ zero_extend %d)'%t.args[1]
    if t.op=='sext': return '(_ sign_extend %d)'%t.args[1]
    if t.op=='int2bv': return '(_ int2bv %d)'%t.sort[1]
    if t.op in('fcvt','fubv','fsbv','fbits'):
        eb='11 53' if t.sort[1]==64 else '8 24'
        return {'fcvt':'(_ to_fp %s) RNE','fubv':'(_ to_fp_unsigned %s) RNE','fsbv':'(_ to_fp %s) RNE','fbits':'(_ to_fp %s)'}[t.op]%eb
    if t.op=='fround': return 'fp.roundToIntegral '+t.args[1]
    if t.op=='f2ubv': return '(_ fp.to_ubv %d) RTZ'%t.sort[1]
    if t.op=='f2sbv': return '(_ fp.to_sbv %d) RTZ'%t.sort[1]
    if t.op=='f2real': return 'fp.to_real'
    return None
def q(n): return '|'+n+'|' if n[0]=='$' else '|x.'+n+'|'
def script(asserts,getvals=None,opts=''):
    out=[]; name={}; decl=set(); ufs={}
    refs={}
    order=[]
    st=[(a,False) for a in asserts]; seen=set()
    # topological order
    for a in asserts:
        stack=[a]
        while stack:
            t=stack[-1]
            if t.id in seen: stack.pop(); continue
            p=[x for x in t.args if isinstance(x,T) and x.id not in seen]
            if p: stack.extend(p); continue
            seen.add(t.id); order.append(t); stack.pop()
    for t in order:
        for x in t.args:
            if isinstance(x,T): refs[x.id]=refs.get(x.id,0)+1
    body=[]
    for t in order:
        if t.op=='c': name[t.id]=const(t)
        elif t.op=='v':
            n=t.args[0]
            if n not in decl:
                decl.add(n); out.append('(declare-fun %s () %s)'%(q(n),sortname(t.sort)))
                if n=='$pi': body.append('(assert (and (< 3.14159265358979323 |$pi|) (< |$pi| 3.14159265358979324)))')
                if n=='$invpi':
                    if '$pi' not in decl:
                        decl.add('$pi'); out.append('(declare-fun |$pi| () Real)'); body.append('(assert (and (< 3.14159265358979323 |$pi|) (< |$pi| 3.14159265358979324)))')
                    body.append('(assert (= (* |$pi| |$invpi|) 1.0))')
            name[t.id]=q(n)
        else:
            o=opname(t)
            A=[name[x.id] for x in t.args if isinstance(x,T)]
            if o is None:
                fn='uf_'+t.op+'_%d'%len(A)
                if fn not in ufs:
                    ufs[fn]=1; out.append('(declare-fun %s (%s) %s)'%(fn,' '.join(sortname(x.sort) for x in t.args if isinstance(x,T)),sortname(t.sort)))
                o=fn
            e='(%s %s)'%(o,' '.join(A))
            if refs.get(t.id,0)>1 or len(e)>4000:
                n='t%d'%t.id
                body.append('(define-fun %s () %s %s)'%(n,sortname(t.sort),e)); name[t.id]=n
            else: name[t.id]=e
    # flatten: body defines in topological order already
    res=[opts]+out+body+['(assert %s)'%name[a.id] for a in asserts]+['(check-sat)']
    if getvals:
        gv=[v for v in getvals if v in decl]
        if gv: res.append('(get-value (%s))'%' '.join(q(v) for v in gv))
    return '\n'.join(res)+'\n'
def _run(cmds,text,timeout):
    """race the given solver commands, first decisive wins"""
    procs=[]
    t0=time.time()
    for nm,c,pre in cmds:
        f=tempfile.TemporaryFile('w+')
        f.write(pre+text); f.flush(); f.seek(0)
        o=tempfile.TemporaryFile('w+')
        p=subprocess.Popen(c,stdin=f,stdout=o,stderr=subprocess.DEVNULL,preexec_fn=_lim)
        procs.append((nm,p,o)); f.close()
    left=list(procs); best=('unknown','',None)
    try:
        dl=0.002
        while left and time.time()-t0<timeout:
            for it in list(left):
                nm,p,o=it
                if p.poll() is not None:
                    left.remove(it)
                    o.seek(0); s=o.read()
                    r=s.strip().split('\n',1)[0].strip() if s.strip() else ''
                    if r.startswith('(error'):
                        if nm=='z3-new' and 'memory' not in s and 'timeout' not in s and 'canceled' not in s: raise RuntimeError('solver rejected the query: '+s[:200])
                        continue
                    if r=='unsat': return ('unsat',s,nm)
                    if r=='sat': return ('sat',s,nm)
            time.sleep(dl); dl=min(dl*1.5,0.05)
        return best
    finally:
        for nm,p,o in procs:
            if p.poll() is None:
                p.kill(); p.wait()
            o.close()
def _lim():
    import resource
    resource.setrlimit(resource.RLIMIT_AS,(3<<30,3<<30))
    resource.setrlimit(resource.RLIMIT_CPU,(600,600))
MODEL='(set-option :produce-models true)\n'
def check(asserts,timeout=3.0,getvals=None,portfolio=False,quick=False):
    """-> (verdict, model dict or None)"""
    asserts=[a for a in asserts if a is not TRUE]
    if any(a is FALSE for a in asserts): return 'unsat',None
    if not asserts: return 'sat',{}
    t0=time.time()
    text=script(asserts,getvals)
    fp=any((isinstance(t.sort,tuple)) for t in subterms(asserts))
    z=('z3-new',Z3N+['-in','-T:%d'%(int(timeout)+1)],MODEL+'(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n')
    hard=any(t.op in('idiv','imod') for t in subterms(asserts))
    if hard: portfolio=True
    if not portfolio:
        r,s,nm=_run([z],text,timeout)
    else:
        r,s,nm=_run([z],text,min(timeout,0.15 if hard else 2.5))
        if r=='unknown':
            c=('cvc5',CVC+['--lang=smt2','--tlimit=%d'%int(timeout*1000)],MODEL+'(set-logic ALL)\n')
            o=('z3-4.8',Z3O+['-in','-T:%d'%(int(timeout)+1)],MODEL+'(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n')
            r,s,nm=_run([z,c,o],text,timeout)
    dt=time.time()-t0
    STAT['queries']+=1; STAT['time']+=dt; STAT[r]+=1
    if nm: STAT['bysolver'][nm]=STAT['bysolver'].get(nm,0)+1
    m=None
    if r=='sat' and getvals: m=parse_model(s)
    return r,m
_tokrx=re.compile(r'\(|\)|\|[^|]*\||[^\s()]+')
def sexp(s):
    st=[[]]
    for t in _tokrx.findall(s):
        if t=='(' : st.append([])
        elif t==')':
            x=st.pop(); st[-1].append(x)
        else: st[-1].append(t)
    return st[0]
def val(x):
    if isinstance(x,str):
        if x=='true': return True
        if x=='false': return False
        if x.startswith('#x'): return int(x[2:],16)
        if x.startswith('#b'): return int(x[2:],2)
        y=x.rstrip('?')
        if '.' in y: return Fraction(y)
        try: return int(y)
        except ValueError: return None
    if not x: return None
    if x[0]=='-' and len(x)==2:
        v=val(x[1]); return None if v is None else -v
    if x[0]=='/' and len(x)==3:
        a,b=val(x[1]),val(x[2])
        return None if a is None or b is None or b==0 else Fraction(a)/Fraction(b)
    if x[0]=='fp' and len(x)==4:
        bits=''
        for p in x[1:]:
            bits+= p[2:] if p.startswith('#b') else bin(int(p[2:],16))[2:].zfill(4*(len(p)-2))
        return ('fpbits',int(bits,2),len(bits))
    if x[0]=='_' and len(x)==4 and x[1] in('NaN','+oo','-oo','+zero','-zero'):
        eb,sb=int(x[2]),int(x[3]); w=eb+sb; e=((1<<eb)-1)<<(sb-1)
        return ('fpbits',{'NaN':e|(1<<(sb-2)),'+oo':e,'-oo':e|(1<<(w-1)),'+zero':0,'-zero':1<<(w-1)}[x[1]],w)
    if x[0]=='_' and len(x)==3 and x[1].startswith('bv'): return int(x[1][2:])
    if x[0]=='root-obj': return None
    if x[0]=='_' and x[1]=='real_algebraic_number': return val(x[2])
    return None
def parse_model(s):
    i=s.find('(')
    m={}
    if i<0: return m
    try:
        for blk in sexp(s[i:]):
            for p in blk:
                if isinstance(p,list) and len(p)==2 and isinstance(p[0],str):
                    k=p[0].strip('|'); m[k[2:] if k.startswith('x.') else k]=val(p[1])
    except Exception: pass
    return m
