"""Parser for the textual LLVM IR rustc emits (the subset that occurs in optimised Rust)."""
import re,struct
class ParseError(Exception): pass
# ---------------------------------------------------------------- types
# ('i',w) ('f',32|64) ('ptr',) ('void',) ('arr',n,t) ('struct',[t],packed) ('vec',n,t) ('meta',) ('label',)
PTR=('ptr',); VOID=('void',)
class Tok:
    rx=re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[\w.$-]+)|%?[A-Za-z_][\w.$]*:?|-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|f0x[0-9A-Fa-f]+|u0x[0-9A-Fa-f]+|s0x[0-9A-Fa-f]+|-?\d+|!\d+|!"(?:[^"])*"|!DI\w+|!|\.\.\.|#\d+|[-+*<>{}\[\](),=:|;^$?&/~.])''')
    def __init__(s,text):
        s.t=[]; i=0; n=len(text); rx=s.rx
        while i<n:
            if text[i]==';': break
            m=rx.match(text,i)
            if not m:
                if text[i:].strip()=='' : break
                raise ParseError('tok '+text[i:i+60])
            s.t.append(m.group(1)); i=m.end()
        s.i=0
    def peek(s,k=0): return s.t[s.i+k] if s.i+k<len(s.t) else None
    def next(s):
        x=s.t[s.i]; s.i+=1; return x
    def accept(s,x):
        if s.peek()==x: s.i+=1; return True
        return False
    def expect(s,x):
        y=s.next()
        if y!=x: raise ParseError('expected %r got %r in %s'%(x,y,' '.join(s.t)))
ATTRS={'noundef','signext','zeroext','inreg','nonnull','noalias','nocapture','readonly','writeonly','readnone','returned','nofree','immarg','writable','dead_on_unwind','noreturn','nounwind','swiftself','allocptr','allocalign','dead_on_return'}
PATTRS={'align','dereferenceable','dereferenceable_or_null','sret','byval','range','captures','initializes','nofpclass','elementtype','memory','preallocated','inalloca','byref'}
class Module:
    def __init__(s,path):
        s.path=path; s.types={}; s.globals={}; s.funcs={}; s.decls=set(); s.aliases={}
        s.load(open(path).read())
    def load(s,text):
        lines=text.split('\n'); i=0; n=len(lines)
        while i<n:
            l=lines[i]
            if l.startswith('define '):
                j=i+1
                while lines[j]!='}': j+=1
                m=re.search(r'@("[^"]*"|[\w.$-]+)\(',l)
                name=m.group(1).strip('"')
                s.funcs[name]=Function(s,name,l,lines[i+1:j])
                i=j+1; continue
            if l.startswith('@'):
                m=re.match(r'@("[^"]*"|[\w.$-]+) = (.*)$',l)
                name=m.group(1).strip('"'); rest=m.group(2)
                if re.match(r'(?:[\w_]+ )*alias ',rest):
                    s.aliases[name]=re.search(r'@("[^"]*"|[\w.$-]+)',rest).group(1).strip('"')
                else: s.globals[name]=rest
            elif l.startswith('declare '):
                m=re.search(r'@("[^"]*"|[\w.$-]+)\(',l)
                if m: s.decls.add(m.group(1).strip('"'))
            elif l.startswith('%'):
                m=re.match(r'(%(?:"[^"]*"|[\w.$-]+)) = type (.*)$',l)
                if m: s.types[m.group(1)]=m.group(2)
            i+=1
    def ty(s,k):
        x=k.next()
        if x=='ptr':
            t=PTR
            if k.peek()=='addrspace': k.next();k.expect('(');k.next();k.expect(')')
        elif x=='void': t=VOID
        elif x=='double': t=('f',64)
        elif x=='float': t=('f',32)
        elif x=='half': t=('f',16)
        elif x=='fp128': t=('f',128)
        elif x=='metadata': t=('meta',)
        elif x=='label': t=('label',)
        elif re.fullmatch(r'i\d+',x): t=('i',int(x[1:]))
        elif x=='[':
            n=int(k.next()); k.expect('x'); e=s.ty(k); k.expect(']'); t=('arr',n,e)
        elif x=='<':
            if k.accept('{'):
                es=[]
                if not k.accept('}'):
                    while True:
                        es.append(s.ty(k))
                        if k.accept('}'): break
                        k.expect(',')
                k.expect('>'); t=('struct',tuple(es),True)
            else:
                n=int(k.next()); k.expect('x'); e=s.ty(k); k.expect('>'); t=('vec',n,e)
        elif x=='{':
            es=[]
            if not k.accept('}'):
                while True:
                    es.append(s.ty(k))
                    if k.accept('}'): break
                    k.expect(',')
            t=('struct',tuple(es),False)
        elif x.startswith('%'):
            d=s.types.get(x)
            if d is None: raise ParseError('type '+x)
            if isinstance(d,str):
                d=('struct',(),False) if d=='opaque' else s.ty(Tok(d)); s.types[x]=d
            t=d
        elif x=='target':
            raise ParseError('target type')
        else: raise ParseError('type '+x+' in '+' '.join(k.t))
        while k.peek()=='*': k.next(); t=PTR
        if k.peek()=='(':   # function type
            d=0
            while True:
                y=k.next()
                if y=='(': d+=1
                elif y==')':
                    d-=1
                    if d==0: break
            t=('fn',t)
        return t
    # -------------------------------------------------------- constants/operands
    def value(s,k,t):
        """operand of type t -> ('r',name) | constant tuple"""
        x=k.next()
        if x[0]=='%': return ('r',x[1:].strip('"'))
        if x[0]=='@': return ('g',x[1:].strip('"'))
        if x in('true','false'): return ('c',1 if x=='true' else 0)
        if x=='null': return ('null',)
        if x in('undef','poison'): return ('undef',)
        if x=='zeroinitializer': return ('zero',)
        if x=='none': return ('undef',)
        if x[0]=='c' and x[1:2]=='"': return ('str',unescape(x[2:-1]))
        if re.fullmatch(r'-?\d+',x) and t[0]=='i': return ('c',int(x))
        if t[0]=='f': return ('fc',fconst(x,t))
        if x in('u0x','s0x') : pass
        if x=='[' :
            es=[]
            if not k.accept(']'):
                while True:
                    et=s.ty(k); es.append((et,s.value(k,et)))
                    if k.accept(']'): break
                    k.expect(',')
            return ('agg',es)
        if x=='{' or x=='<':
            close='}' if x=='{' else '>'
            if x=='<' and k.accept('{'): close='}>'
            es=[]
            end=close[0]
            if not k.accept(end):
                while True:
                    et=s.ty(k); es.append((et,s.value(k,et)))
                    if k.accept(end): break
                    k.expect(',')
            if close=='}>': k.expect('>')
            return ('agg',es)
        if x=='splat':
            k.expect('('); et=s.ty(k); v=s.value(k,et); k.expect(')')
            return ('splat',et,v)
        if x=='getelementptr':
            while k.peek() in('inbounds','nuw','nusw'): k.next()
            if k.peek()=='inrange':
                while k.next()!=')': pass
            k.expect('('); bt=s.ty(k); k.expect(',')
            ops=[]
            while True:
                if k.peek()=='inrange': k.next()
                et=s.ty(k); ops.append((et,s.value(k,et)))
                if k.accept(')'): break
                k.expect(',')
            return ('gep',bt,ops)
        if x in('ptrtoint','inttoptr','bitcast','trunc','zext','addrspacecast'):
            k.expect('('); et=s.ty(k); v=s.value(k,et); k.expect('to'); tt=s.ty(k); k.expect(')')
            return ('cast',x,et,v,tt)
        if x in('sub','add','mul','xor','and'):
            while k.peek() in('nuw','nsw'): k.next()
            k.expect('('); a=s.ty(k); va=s.value(k,a); k.expect(','); b=s.ty(k); vb=s.value(k,b); k.expect(')')
            return ('bin',x,a,va,vb)
        raise ParseError('value %r of %r in %s'%(x,t,' '.join(k.t)[:200]))
    def tv(s,k):
        t=s.ty(k); s.attrs(k); return t,s.value(k,t)
    def attrs(s,k):
        r={}
        while True:
            p=k.peek()
            if p in ATTRS: k.next(); continue
            if p=='range' and k.peek(1)=='(':
                k.next();k.next(); d=1; toks=[]
                while d:
                    y=k.next()
                    if y=='(':d+=1
                    elif y==')':d-=1
                    toks.append(y)
                r['range']=toks; continue
            if p in PATTRS:
                k.next()
                if p=='align' and k.peek() is not None and k.peek().isdigit(): k.next(); continue
                if k.accept('('):
                    d=1
                    while d:
                        y=k.next()
                        if y=='(':d+=1
                        elif y==')':d-=1
                continue
            if p is not None and p[0]=='#' : k.next(); continue
            if p is not None and p[0]=='"' :
                k.next()
                if k.accept('='): k.next()
                continue
            return r
def unescape(x):
    out=bytearray(); i=0
    while i<len(x):
        if x[i]=='\\':
            if x[i+1]=='\\': out.append(92); i+=2
            else: out.append(int(x[i+1:i+3],16)); i+=3
        else: out.append(ord(x[i])); i+=1
    return bytes(out)
def fconst(x,t):
    if x.startswith('f0x'):
        h=x[3:]
        if t[1]==64: return struct.unpack('>d',bytes.fromhex(h.rjust(16,'0')))[0]
        return struct.unpack('>f',bytes.fromhex(h.rjust(8,'0')))[0]
    if x.startswith('0x'):
        return struct.unpack('>d',bytes.fromhex(x[2:].rjust(16,'0')))[0]
    if x in('+','-'): raise ParseError('fconst')
    return float(x)

FLAGS={'nuw','nsw','exact','disjoint','inbounds','nusw','nneg','samesign','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','volatile','atomic','tail','musttail','notail','weak'}
class Function:
    def __init__(s,mod,name,header,body):
        s.mod=mod; s.name=name; s.header=header; s.body=body; s.parsed=False
    def parse(s):
        if s.parsed: return s
        k=Tok(s.header[len('define '):]); m=s.mod
        # skip linkage etc. until a type parses followed by @name
        idx=None
        for j,t in enumerate(k.t):
            if t[0]=='@': idx=j; break
        s.params=[]
        k.i=idx+1; k.expect('(')
        if not k.accept(')'):
            while True:
                if k.peek()=='...': k.next(); k.expect(')'); break
                t=m.ty(k); m.attrs(k); nm=k.next()
                s.params.append((t,nm[1:].strip('"')))
                if k.accept(')'): break
                k.expect(',')
        s.blocks={}; s.order=[]; cur=None
        # first block label may be implicit
        lines=s.body; i=0
        while i<len(lines):
            l=lines[i]; i+=1
            if not l or l.isspace(): continue
            if l[0]!=' ':
                m2=re.match(r'("(?:[^"]*)"|[\w.$-]+):',l)
                if m2:
                    cur=m2.group(1).strip('"'); s.blocks[cur]=[]; s.order.append(cur); continue
                if l.startswith(';'): continue
                raise ParseError(l)
            st=l.strip()
            if st.startswith(';') or st.startswith('#dbg'): continue
            if cur is None:
                cur='%entry'; s.blocks[cur]=[]; s.order.append(cur)
            if st.startswith('switch') or re.match(r'%[^ ]+ = switch',st):
                if '[' in st and ']' not in st:
                    while True:
                        st+=' '+lines[i].strip(); i+=1
                        if ']' in lines[i-1]: break
            s.blocks[cur].append(s.inst(st))
        s.parsed=True; s.body=None
        return s
    def inst(s,st):
        k=Tok(st); m=s.mod; dst=None
        if k.peek(1)=='=' and k.peek()[0]=='%':
            dst=k.next()[1:].strip('"'); k.next()
        op=k.next(); flags=[]
        while op in('tail','musttail','notail'): op=k.next()
        while k.peek() in FLAGS: flags.append(k.next())
        f=frozenset(flags)
        if op in('add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'):
            t=m.ty(k); a=m.value(k,t); k.expect(','); b=m.value(k,t)
            return (op,dst,t,a,b,f)
        if op=='fneg':
            t=m.ty(k); return (op,dst,t,m.value(k,t))
        if op in('icmp','fcmp'):
            p=k.next()
            while p in FLAGS: p=k.next()
            t=m.ty(k); a=m.value(k,t); k.expect(','); b=m.value(k,t)
            return (op,dst,p,t,a,b)
        if op in('zext','sext','trunc','fptoui','fptosi','uitofp','sitofp','fpext','fptrunc','bitcast','ptrtoint','inttoptr','addrspacecast'):
            t=m.ty(k); a=m.value(k,t); k.expect('to'); t2=m.ty(k)
            return ('cast',dst,op,t,a,t2,f)
        if op=='alloca':
            t=m.ty(k); n=('c',1)
            if k.accept(','):
                if k.peek() not in('align','addrspace'):
                    nt,n=m.tv(k)
            return (op,dst,t,n)
        if op=='load':
            t=m.ty(k); k.expect(','); pt,p=m.tv(k)
            return (op,dst,t,p,st)
        if op=='store':
            t,v=m.tv(k); k.expect(','); pt,p=m.tv(k)
            return (op,dst,t,v,p)
        if op=='getelementptr':
            bt=m.ty(k); k.expect(','); ops=[]
            while True:
                ops.append(m.tv(k))
                if not k.accept(','): break
                if k.peek() and k.peek()[0]=='!': break
            return (op,dst,bt,ops)
        if op=='select':
            c=m.tv(k); k.expect(','); a=m.tv(k); k.expect(','); b=m.tv(k)
            return (op,dst,c,a,b)
        if op=='phi':
            t=m.ty(k); inc={}
            while True:
                k.expect('['); v=m.value(k,t); k.expect(','); lb=k.next()[1:].strip('"'); k.expect(']')
                inc[lb]=v
                if not k.accept(','): break
                if k.peek() and k.peek()[0]=='!': break
            return (op,dst,t,inc)
        if op=='br':
            if k.peek()=='label':
                k.next(); return (op,dst,None,k.next()[1:].strip('"'),None)
            t=m.ty(k); c=m.value(k,t); k.expect(','); k.expect('label'); a=k.next()[1:].strip('"'); k.expect(','); k.expect('label'); b=k.next()[1:].strip('"')
            return (op,dst,c,a,b)
        if op=='switch':
            t,v=m.tv(k); k.expect(','); k.expect('label'); d=k.next()[1:].strip('"'); k.expect('[')
            cases=[]
            while not k.accept(']'):
                ct=m.ty(k); cv=m.value(k,ct); k.expect(','); k.expect('label'); cases.append((cv[1],k.next()[1:].strip('"')))
            return (op,dst,t,v,d,cases)
        if op=='ret':
            t=m.ty(k)
            return (op,dst,t,None if t==VOID else m.value(k,t))
        if op=='unreachable': return (op,dst)
        if op in('call','invoke'):
            # cconv/attrs
            while True:
                p=k.peek()
                if p in('fastcc','coldcc','ccc','cold') or p in FLAGS: k.next(); continue
                if p.startswith('cc') and p[2:].isdigit(): k.next(); continue
                i0=k.i; m.attrs(k)
                if k.i==i0: break
            t=m.ty(k)
            if t[0]=='fn': t=t[1]
            callee=k.next()
            if callee=='asm':
                return ('asm',dst,st)
            if callee[0]=='@': cal=('g',callee[1:].strip('"'))
            elif callee[0]=='%': cal=('r',callee[1:].strip('"'))
            else:
                k.i-=1; cal=m.value(k,PTR)
            k.expect('('); args=[]
            if not k.accept(')'):
                while True:
                    at=m.ty(k)
                    if at==('meta',):
                        d=0
                        while not(d==0 and k.peek() in(',',')')):
                            y=k.next()
                            if y=='(':d+=1
                            elif y==')':d-=1
                        args.append((at,('undef',)))
                    else:
                        m.attrs(k); args.append((at,m.value(k,at)))
                    if k.accept(')'): break
                    k.expect(',')
            return ('call',dst,t,cal,args)
        if op=='extractvalue':
            t,v=m.tv(k); idx=[]
            while k.accept(','):
                if k.peek()[0]=='!': break
                idx.append(int(k.next()))
            return (op,dst,t,v,idx)
        if op=='insertvalue':
            t,v=m.tv(k); k.expect(','); et,e=m.tv(k); idx=[]
            while k.accept(','):
                if k.peek()[0]=='!': break
                idx.append(int(k.next()))
            return (op,dst,t,v,et,e,idx)
        if op=='extractelement':
            t,v=m.tv(k); k.expect(','); it,i=m.tv(k); return (op,dst,t,v,i)
        if op=='insertelement':
            t,v=m.tv(k); k.expect(','); et,e=m.tv(k); k.expect(','); it,i=m.tv(k); return (op,dst,t,v,e,i)
        if op=='shufflevector':
            t,a=m.tv(k); k.expect(','); t2,b=m.tv(k); k.expect(','); mt,mk=m.tv(k); return (op,dst,t,a,b,mt,mk)
        if op=='freeze':
            t,v=m.tv(k); return (op,dst,t,v)
        if op=='fence': return (op,dst)
        if op=='atomicrmw':
            o=k.next(); pt,p=m.tv(k); k.expect(','); t,v=m.tv(k); return (op,dst,o,t,p,v)
        if op=='cmpxchg':
            pt,p=m.tv(k); k.expect(','); t,c=m.tv(k); k.expect(','); t2,n=m.tv(k); return (op,dst,t,p,c,n)
        return ('unsupported',dst,st)

def size_align(t):
    k=t[0]
    if k=='i':
        w=t[1]; b=(w+7)//8
        a=1
        while a<b: a*=2
        a=min(a,16)
        return ((b+a-1)//a*a,a)
    if k=='f': b=t[1]//8; return b,b
    if k=='ptr': return 8,8
    if k=='arr':
        s,a=size_align(t[2]); return s*t[1],a
    if k=='vec':
        if t[2]==('i',1): b=(t[1]+7)//8
        else: b=size_align(t[2])[0]*t[1]
        a=1
        while a<b: a*=2
        return b,a
    if k=='struct':
        o=0;ma=1
        for e in t[1]:
            s,a=size_align(e)
            if not t[2]: o=(o+a-1)//a*a
            else: a=1
            o+=s; ma=max(ma,a)
        if not t[2]: o=(o+ma-1)//ma*ma
        return o,ma
    raise ParseError('size '+str(t))
def field_off(t,i):
    o=0
    for j,e in enumerate(t[1]):
        s,a=size_align(e)
        if not t[2]: o=(o+a-1)//a*a
        if j==i: return o
        o+=s
    raise ParseError('field')
