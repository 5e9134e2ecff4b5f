"""Parser for the textual LLVM IR subset clang -O0 emits (lazy: a function body is parsed on demand).

Types:   ('i',n) ('ptr',) ('fp',32|64) ('void',) ('arr',n,T) ('struct',(T..),packed) ('named',name) ('label',) ('meta',)
Values:  ('loc',name) ('int',width,val) ('fp',bits,float-bits) ('null',) ('glob',name) ('undef',) ('zero',T)
         ('agg',[(T,V)..]) ('gepc',T,base,idxs) ('cast',op,V,T) ('bool',b) ('cstr',bytes)
"""
import re, struct, subprocess

TOK = re.compile(r'''\s+|(?P<cstr>c"[^"]*")|(?P<str>"[^"]*")|(?P<loc>%(?:"[^"]*"|[\w.$-]+))|(?P<glob>@(?:"[^"]*"|[\w.$-]+))
|(?P<meta>!(?:"[^"]*"|[\w.]*))|(?P<attr>\#\d+)|(?P<num>-?(?:0x[KLMHR]?[0-9A-Fa-f]+|\d+\.\d*(?:e[+-]?\d+)?|\d+))|(?P<id>[A-Za-z_][\w.]*)|(?P<dots>\.\.\.)|(?P<p>[()\[\]{}<>,=*|:])''', re.X)

PARAM_ATTRS = {'noundef','nonnull','signext','zeroext','inreg','noalias','nocapture','readonly','writeonly','readnone','returned',
 'nofree','dead_on_unwind','writable','immarg','swiftself','nest','noext','allocptr','allocalign','inalloca','local_unnamed_addr','dso_local',
 'hidden','internal','linkonce_odr','weak_odr','weak','private','external','available_externally','fastcc','coldcc','ccc','unnamed_addr',
 'tail','notail','musttail','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','inbounds','nuw','nsw','exact','volatile','disjoint','nneg','thread_local','protected','common','linkonce','appending','nonnull','dso_preemptable','nusw','samesign','mustprogress'}
PAREN_ATTRS = {'align','dereferenceable','dereferenceable_or_null','sret','byval','elementtype','range','nofpclass','byref','preallocated','initializes','memory','captures'}

class ParseError(Exception): pass

def tokenize(s):
    out=[]; i=0; n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m: raise ParseError('tok %r'%s[i:i+40])
        i=m.end()
        k=m.lastgroup
        if k: out.append((k,m.group(k)))
    return out

def unq(n):
    # %"a b" -> a b ; %x -> x
    n=n[1:]
    if n.startswith('"'): n=n[1:-1]
    return n

class Toks:
    __slots__=('t','i')
    def __init__(s,t): s.t=t; s.i=0
    def peek(s,k=0):
        j=s.i+k
        return s.t[j] if j<len(s.t) else ('eof','')
    def next(s):
        x=s.peek(); s.i+=1; return x
    def accept(s,v):
        if s.peek()[1]==v: s.i+=1; return True
        return False
    def expect(s,v):
        x=s.next()
        if x[1]!=v: raise ParseError('expected %s got %s near %s'%(v,x,s.t[max(0,s.i-6):s.i+6]))
    def eof(s): return s.i>=len(s.t)

class Type: pass

def parse_type(T):
    k,v=T.next()
    if k=='id':
        if v=='ptr': t=('ptr',)
        elif v=='void': t=('void',)
        elif v=='double': t=('fp',64)
        elif v=='float': t=('fp',32)
        elif v=='x86_fp80': t=('fp',80)
        elif v=='label': t=('label',)
        elif v=='metadata': t=('meta',)
        elif v=='opaque': t=('struct',(),False)
        elif re.match(r'i\d+$',v): t=('i',int(v[1:]))
        else: raise ParseError('type '+v)
    elif k=='loc': t=('named',unq(v))
    elif v=='[':
        n=int(T.next()[1]); T.expect('x'); e=parse_type(T); T.expect(']'); t=('arr',n,e)
    elif v=='{':
        fs=[]
        while not T.accept('}'):
            fs.append(parse_type(T)); T.accept(',')
        t=('struct',tuple(fs),False)
    elif v=='<':
        if T.peek()[1]=='{':
            T.next(); fs=[]
            while not T.accept('}'):
                fs.append(parse_type(T)); T.accept(',')
            T.expect('>'); t=('struct',tuple(fs),True)
        else:
            n=int(T.next()[1]); T.expect('x'); e=parse_type(T); T.expect('>'); t=('vec',n,e)
    else: raise ParseError('type %s %s'%(k,v))
    # function type suffix: T (args...)
    while T.peek()[1]=='(' and t is not None:
        # skip function-type args
        d=0
        while True:
            x=T.next()[1]
            if x=='(': d+=1
            elif x==')':
                d-=1
                if d==0: break
        t=('fn',t)
    return t

def skip_attrs(T):
    while True:
        k,v=T.peek()
        if k=='id' and v in PARAM_ATTRS: T.next(); continue
        if k=='id' and v in PAREN_ATTRS:
            T.next()
            if T.peek()[1]=='(':
                d=0
                while True:
                    x=T.next()[1]
                    if x=='(': d+=1
                    elif x==')':
                        d-=1
                        if d==0: break
            elif T.peek()[0]=='num': T.next()
            continue
        if k=='attr': T.next(); continue
        return

def cbytes(s):
    s=s[2:-1]; out=bytearray(); i=0
    while i<len(s):
        if s[i]=='\\':
            if s[i+1]=='\\': out.append(92); i+=2
            else: out.append(int(s[i+1:i+3],16)); i+=3
        else: out.append(ord(s[i])); i+=1
    return bytes(out)

def parse_val(T,t):
    k,v=T.next()
    if k=='loc': return ('loc',unq(v))
    if k=='glob': return ('glob',unq(v))
    if k=='num':
        if t[0]=='fp':
            if v.startswith('0x'): b=int(v[2:],16)
            else: b=struct.unpack('<Q',struct.pack('<d',float(v)))[0]
            return ('fp',t[1],b)
        return ('int',t[1],int(v)&((1<<t[1])-1)) if t[0]=='i' else ('int',64,int(v))
    if k=='cstr': return ('cstr',cbytes(v))
    if k=='id':
        if v in('true','false'): return ('bool',v=='true')
        if v=='null': return ('null',)
        if v in('undef','poison'): return ('undef',)
        if v=='zeroinitializer': return ('zero',t)
        if v=='none': return ('undef',)
        if v=='getelementptr':
            skip_attrs(T); T.expect('('); et=parse_type(T); T.expect(',')
            bt=parse_type(T); b=parse_val(T,bt); idx=[]
            while T.accept(','):
                skip_attrs(T)
                it=parse_type(T); idx.append((it,parse_val(T,it)))
            T.expect(')')
            return ('gepc',et,b,idx)
        if v in('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
            T.expect('('); ft=parse_type(T); x=parse_val(T,ft); T.expect('to'); tt=parse_type(T); T.expect(')')
            return ('cast',v,ft,x,tt)
        if v in('sub','add','icmp'):
            d=0
            while True:
                x=T.next()[1]
                if x=='(': d+=1
                elif x==')':
                    d-=1
                    if d==0: break
            return ('undef',)
    if v=='{' or v=='[' or v=='<':
        close={'{':'}','[':']','<':'>'}[v]
        if v=='<' and T.peek()[1]=='{':
            T.next(); close='}'
            els=[]
            while not T.accept('}'):
                et=parse_type(T); els.append((et,parse_val(T,et))); T.accept(',')
            T.expect('>'); return ('agg',els)
        els=[]
        while not T.accept(close):
            et=parse_type(T); els.append((et,parse_val(T,et))); T.accept(',')
        return ('agg',els)
    raise ParseError('val %s %s (%s)'%(k,v,t))

BINOPS={'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CASTS={'zext','sext','trunc','fptosi','fptoui','sitofp','uitofp','fpext','fptrunc','bitcast','ptrtoint','inttoptr'}

class Ins:
    __slots__=('op','dst','ty','a','dbg','text')
    def __init__(s,op,dst,ty,a): s.op=op; s.dst=dst; s.ty=ty; s.a=a; s.dbg=None
    def __repr__(s): return '%s=%s %s %s'%(s.dst,s.op,s.ty,s.a)

class Func:
    def __init__(s,name,ret,params,mod,body):
        s.name=name; s.ret=ret; s.params=params; s.mod=mod; s.body=body; s.parsed=False
        s.blocks={}; s.order=[]; s.entry=None; s.demangled=name; s.sub=None; s.sret=False; s.noreturn=False
    def ensure(s):
        if s.parsed: return s
        s.parsed=True
        parse_body(s)
        from . import cfg
        cfg.analyse(s)
        return s

def parse_call(T,op,dst):
    skip_attrs(T)
    rt=parse_type(T)
    if rt[0]=='fn': rt=rt[1]
    skip_attrs(T)
    k,v=T.peek()
    callee=parse_val(T,('ptr',))
    T.expect('(')
    args=[]
    while not T.accept(')'):
        if T.accept('...'): continue
        at=parse_type(T); skip_attrs(T)
        if at[0]=='meta':
            # skip metadata operand
            d=0
            while not (d==0 and T.peek()[1] in(',',')')):
                x=T.next()[1]
                if x in '({': d+=1
                if x in ')}': d-=1
            args.append((at,('undef',)))
        else:
            args.append((at,parse_val(T,at)))
        T.accept(',')
    a={'callee':callee,'args':args}
    # function attributes
    while not T.eof() and T.peek()[0]=='attr': T.next()
    return Ins(op,dst,rt,a),T

def parse_ins(line,mod):
    T=Toks(tokenize(line))
    dst=None
    if T.peek()[0]=='loc' and T.peek(1)[1]=='=':
        dst=unq(T.next()[1]); T.next()
    op=T.next()[1]
    if op in('tail','notail','musttail'): op=T.next()[1]
    if op=='call':
        ins,_=parse_call(T,'call',dst)
    elif op=='invoke':
        ins,_=parse_call(T,'invoke',dst)
        T.expect('to'); T.expect('label'); n=unq(T.next()[1]); T.expect('unwind'); T.expect('label'); u=unq(T.next()[1])
        ins.a['normal']=n; ins.a['unwind']=u
    elif op=='alloca':
        t=parse_type(T); cnt=None
        if T.accept(','):
            if T.peek()[1]!='align':
                ct=parse_type(T); cnt=(ct,parse_val(T,ct))
        ins=Ins(op,dst,('ptr',),(t,cnt))
    elif op=='load':
        skip_attrs(T)
        if T.peek()[1]=='atomic': T.next()
        t=parse_type(T); T.expect(','); pt=parse_type(T); p=parse_val(T,pt)
        ins=Ins(op,dst,t,p)
    elif op=='store':
        skip_attrs(T)
        if T.peek()[1]=='atomic': T.next()
        t=parse_type(T); v=parse_val(T,t); T.expect(','); pt=parse_type(T); p=parse_val(T,pt)
        ins=Ins(op,dst,t,(v,p))
    elif op=='getelementptr':
        skip_attrs(T)
        t=parse_type(T); T.expect(','); bt=parse_type(T); b=parse_val(T,bt); idx=[]
        while T.accept(','):
            if T.peek()[0]=='meta': break
            it=parse_type(T); idx.append((it,parse_val(T,it)))
        ins=Ins(op,dst,('ptr',),(t,b,idx))
    elif op=='br':
        if T.accept('label'): ins=Ins('br',None,None,unq(T.next()[1]))
        else:
            ct=parse_type(T); c=parse_val(T,ct); T.expect(','); T.expect('label'); a=unq(T.next()[1]); T.expect(','); T.expect('label'); b=unq(T.next()[1])
            ins=Ins('condbr',None,None,(c,a,b))
    elif op=='switch':
        ct=parse_type(T); c=parse_val(T,ct); T.expect(','); T.expect('label'); d=unq(T.next()[1]); T.expect('[')
        cs=[]
        while not T.accept(']'):
            t2=parse_type(T); v=parse_val(T,t2); T.expect(','); T.expect('label'); cs.append((v[2] if v[0]=='int' else int(v[1]),unq(T.next()[1])))
        ins=Ins('switch',None,ct,(c,d,cs))
    elif op=='phi':
        skip_attrs(T)
        t=parse_type(T); inc=[]
        while T.accept('['):
            v=parse_val(T,t); T.expect(','); b=unq(T.next()[1]); T.expect(']'); inc.append((v,b))
            if not T.accept(','): break
            if T.peek()[0]=='meta': break
        ins=Ins('phi',dst,t,inc)
    elif op=='ret':
        t=parse_type(T)
        ins=Ins('ret',None,t,None if t[0]=='void' else parse_val(T,t))
    elif op in BINOPS:
        skip_attrs(T)
        t=parse_type(T); a=parse_val(T,t); T.expect(','); b=parse_val(T,t)
        ins=Ins('bin',dst,t,(op,a,b))
    elif op=='fneg':
        skip_attrs(T); t=parse_type(T); ins=Ins('fneg',dst,t,parse_val(T,t))
    elif op in CASTS:
        skip_attrs(T)
        ft=parse_type(T); v=parse_val(T,ft); T.expect('to'); tt=parse_type(T)
        ins=Ins('cast',dst,tt,(op,ft,v))
    elif op in('icmp','fcmp'):
        skip_attrs(T)
        pr=T.next()[1]; t=parse_type(T); a=parse_val(T,t); T.expect(','); b=parse_val(T,t)
        ins=Ins(op,dst,('i',1),(pr,t,a,b))
    elif op=='select':
        skip_attrs(T)
        ct=parse_type(T); c=parse_val(T,ct); T.expect(','); t=parse_type(T); a=parse_val(T,t); T.expect(','); t2=parse_type(T); b=parse_val(T,t2)
        ins=Ins('select',dst,t,(c,a,b))
    elif op=='extractvalue':
        t=parse_type(T); v=parse_val(T,t); ix=[]
        while T.accept(','):
            if T.peek()[0]!='num': break
            ix.append(int(T.next()[1]))
        ins=Ins(op,dst,None,(t,v,ix))
    elif op=='insertvalue':
        t=parse_type(T); v=parse_val(T,t); T.expect(','); t2=parse_type(T); w=parse_val(T,t2); ix=[]
        while T.accept(','):
            if T.peek()[0]!='num': break
            ix.append(int(T.next()[1]))
        ins=Ins(op,dst,t,(v,w,ix))
    elif op=='landingpad':
        t=parse_type(T); cl=[]; cleanup=False
        while not T.eof():
            if T.accept('cleanup'): cleanup=True
            elif T.accept('catch'):
                ct=parse_type(T); cl.append(parse_val(T,ct))
            elif T.accept('filter'):
                cl.append(('filter',)); break
            else: break
        ins=Ins(op,dst,t,(cl,cleanup))
    elif op=='resume':
        t=parse_type(T); ins=Ins(op,None,t,parse_val(T,t))
    elif op=='unreachable': ins=Ins(op,None,None,None)
    elif op=='freeze':
        t=parse_type(T); ins=Ins('freeze',dst,t,parse_val(T,t))
    else:
        ins=Ins('unsupported',dst,None,line.strip())
    return ins

DBG=re.compile(r', !dbg !(\d+)')
MDTAIL=re.compile(r'(, ![\w.]+ !\d+)+\s*$')

def parse_body(f):
    lines=f.body
    # join continuation lines
    joined=[]; i=0
    while i<len(lines):
        l=lines[i]; i+=1
        if not l.strip() or l.lstrip().startswith(';'): continue
        s=l.strip()
        if ' switch ' in l or s.startswith('switch '):
            if '[' in s and ']' not in s:
                while True:
                    s+=' '+lines[i].strip(); i+=1
                    if lines[i-1].strip().startswith(']'): break
        elif (s.startswith('invoke ') or ' = invoke ' in s):
            s+=' '+lines[i].strip(); i+=1
        elif ' = landingpad ' in s:
            while i<len(lines) and re.match(r'\s+(cleanup|catch|filter)',lines[i]):
                s+=' '+lines[i].strip(); i+=1
        joined.append(s)
    cur=None
    nparams=len(f.params)
    for s in joined:
        m=re.match(r'("[^"]*"|[\w.$-]+):(\s|$)',s)
        if m and '=' not in s.split(':')[0]:
            nm=m.group(1)
            if nm.startswith('"'): nm=nm[1:-1]
            cur=nm; f.blocks[cur]=[]; f.order.append(cur); continue
        if cur is None:
            # implicit entry block: number = number of unnamed params
            cur='@entry'; f.blocks[cur]=[]; f.order.append(cur)
        dm=DBG.search(s)
        s2=MDTAIL.sub('',s)
        ins=parse_ins(s2,f.mod); ins.dbg=int(dm.group(1)) if dm else None
        f.blocks[cur].append(ins)
    # entry block name as referenced by phis: clang numbers it (#params); find it
    f.entry=f.order[0]
    f.entry_alias=None
    refs=set()
    for b in f.blocks.values():
        for x in b:
            if x.op=='phi':
                for _,bb in x.a: refs.add(bb)
    un=[r for r in refs if r not in f.blocks]
    f.entry_alias=set(un)

class Module:
    def __init__(s,path):
        s.path=path; s.types={}; s.funcs={}; s.globals={}; s.decls={}; s.md={}; s.alias={}
        s.files={}
        lines=open(path,errors='replace').read().split('\n')
        i=0; n=len(lines)
        while i<n:
            l=lines[i]
            if l.startswith('define '):
                hdr=l; body=[]; i+=1
                while lines[i]!='}':
                    body.append(lines[i]); i+=1
                s._def(hdr,body)
            elif l.startswith('declare '):
                m=re.search(r'@("[^"]+"|[\w.$]+)\(',l)
                if m: s.decls[m.group(1).strip('"')]=l
            elif l.startswith('%'):
                nm,rhs=l.split(' = type ',1)
                s.types[unq(nm)]=rhs
            elif l.startswith('@'):
                m=re.match(r'(@(?:"[^"]*"|[\w.$-]+)) = (.*)$',l)
                if m: s.globals[unq(m.group(1))]=m.group(2)
            elif l.startswith('!'):
                m=re.match(r'!(\d+) = (.*)$',l)
                if m: s.md[int(m.group(1))]=m.group(2)
            i+=1
        s._lay={}
        for g,d in list(s.globals.items()):
            if ' alias ' in ' '+d:
                q=re.search(r'ptr @("[^"]*"|[\w.$-]+)',d)
                if q and unq('@'+q.group(1).strip('"')) in s.funcs: s.alias[g]=q.group(1).strip('"'); del s.globals[g]
        names=list(s.funcs)+list(s.decls)+list(s.alias)
        dem=subprocess.run(['llvm-cxxfilt-18'],input='\n'.join(re.sub(r'\.\d+$','',x) for x in names),capture_output=True,text=True).stdout.split('\n')
        s.dem=dict(zip(names,map(norm_name,dem)))
        for f in s.funcs.values(): f.demangled=s.dem[f.name]
        s.bydem={}
        for k,v in s.dem.items():
            s.bydem.setdefault(v,[]).append(k)
    def _def(s,hdr,body):
        m=re.search(r'@("[^"]+"|[\w.$-]+)\(',hdr)
        name=m.group(1).strip('"')
        f=Func(name,None,None,s,body); f.hdr=hdr
        # parse ret type and params lazily-cheap
        pre=hdr[len('define '):m.start()]
        T=Toks(tokenize(pre)); 
        skip_attrs(T)
        while T.peek()[0]=='id' and T.peek()[1] in('personality',): T.next()
        skip_attrs(T)
        f.ret=parse_type(T)
        depth=0; j=m.end()-1
        k=j
        while True:
            c=hdr[k]
            if c=='(': depth+=1
            elif c==')':
                depth-=1
                if depth==0: break
            elif c=='"':
                k=hdr.index('"',k+1)
            k+=1
        T=Toks(tokenize(hdr[j+1:k]))
        f.params=[]; f.pattrs=[]
        while not T.eof():
            if T.accept('...'): break
            t=parse_type(T)
            st=T.i
            skip_attrs(T)
            at=[x[1] for x in T.t[st:T.i]]
            if 'sret' in at: f.sret=True
            nm=unq(T.next()[1]); f.params.append((t,nm)); f.pattrs.append(at)
            T.accept(',')
        s.funcs[name]=f
    # ---- layout
    def resolve(s,t):
        while t[0]=='named':
            r=s.types[t[1]]
            if isinstance(r,str):
                r=parse_type(Toks(tokenize(r))); s.types[t[1]]=r
            t=r
        return t
    def align(s,t):
        t=s.resolve(t)
        if t[0]=='i': return {1:1,8:1,16:2,32:4,64:8,128:16}.get(t[1],8)
        if t[0]=='ptr': return 8
        if t[0]=='fp': return {32:4,64:8,80:16}[t[1]]
        if t[0]=='arr' or t[0]=='vec': return s.align(t[2])
        if t[0]=='struct':
            if t[2]: return 1
            return max([s.align(x) for x in t[1]] or [1])
        raise ParseError('align %s'%(t,))
    def size(s,t):
        t=s.resolve(t)
        k=t
        if k in s._lay: return s._lay[k][0]
        if t[0]=='i': r=(t[1]+7)//8
        elif t[0]=='ptr': r=8
        elif t[0]=='fp': r={32:4,64:8,80:16}[t[1]]
        elif t[0]=='arr' or t[0]=='vec': r=t[1]*s.size(t[2])
        elif t[0]=='struct':
            s.layout(t); return s._lay[k][0]
        else: raise ParseError('size %s'%(t,))
        s._lay[k]=(r,None)
        return r
    def layout(s,t):
        t=s.resolve(t)
        if t in s._lay: return s._lay[t][1]
        off=0; offs=[]; al=1
        for x in t[1]:
            a=1 if t[2] else s.align(x)
            al=max(al,a)
            off=(off+a-1)//a*a
            offs.append(off); off+=s.size(x)
        if not t[2]: off=(off+al-1)//al*al
        s._lay[t]=(off,offs)
        return offs
    def line(s,dbg):
        """(file,line) for a !dbg id"""
        if dbg is None: return None
        m=s.md.get(dbg,'')
        l=re.search(r'line: (\d+)',m)
        return int(l.group(1)) if l else None

def norm_name(d):
    d=d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>','string')
    d=d.replace('std::basic_string_view<char, std::char_traits<char>>','string_view')
    d=d.replace('GC_namespace::','')
    d=re.sub(r', std::allocator<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>>','>',d)
    d=d.replace('[abi:cxx11]','')
    d=d.replace('std::char_traits<char>','chtr').replace('<char, chtr>','<char>')
    return d
