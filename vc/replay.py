"""Concrete side of the contracts: builds a driver around the real code, runs single calls in arbitrary states (taken from a verifier model or
from a small enumeration) under the sanitizers, and evaluates the contract on what happened."""
import os, re, subprocess, struct, hashlib, itertools, z3, time, shutil, random
from concurrent.futures import ThreadPoolExecutor
from .terms import *
from . import terms, build, spec
from .spec import *
from .machine import *
from .stl import split_args, f_cstr, f_sub

HERE=build.HERE
def cxxtype(t):
    t=t.strip()
    t=t.replace('std::basic_ostream<char>','std::ostream')
    return t
def value_type(t):
    return 'void*' if t.startswith('void*') else base_t(cxxtype(t))
# ------------------------------------------------------------------ driver generation
def call_expr(c):
    if c.call: return c.call
    n=c.name
    if not c.hasthis:
        m=re.match(r'^(?:[\w:&<>\* ]+ )?([\w:]+(?:<[^()]*>)?)\(',n)
        return m.group(1)+'('+','.join('A%d'%i for i in range(len(c.types)))+')'
    m=re.search(r'GenericContainer::((?:operator\s*(?:\(\)|\[\]|[^\s(]+)|~?\w+)(?:<[^()]*>)?)\(',n)
    meth=m.group(1); args=','.join('A%d'%i for i in range(len(c.types)))
    if meth=='GenericContainer': return 'CTOR:'+args
    if meth=='~GenericContainer': return 'self.~GCn()'
    obj='const_cast<GCn const&>(self)' if n.rstrip().endswith('const') else 'self'
    return '%s.%s(%s)'%(obj,('template '+meth) if False else meth,args)
def al_of(v): return v[1] if v and v[0]!='tag' else None
def skips(i,alias): return i==alias or (i==0 and alias in('ein','min'))
PART={'e':'%s.get_vector().back()','m':'%s.get_map().begin()->second'}
def part_of(alias,g):
    """concrete value of the part the aliasing variant designates, None if there is none"""
    if alias[0]=='e': return g[1][-1] if g[0]==19 and g[1] else None
    return sorted(g[1],key=lambda x:x[0])[0][1] if g[0]==20 and g[1] else None
def gen_case(idx,c,alias):
    out=isinstance(alias,str) and alias.endswith('out')
    L=['static void f%d_%s(Tok&t){'%(idx,alias if alias is not None else 'n')]
    posts=[]; own=[]
    if c.hasthis:
        if c.ctor: L.append('  alignas(GCn) static unsigned char mem_[sizeof(GCn)]; GCn&self=*reinterpret_cast<GCn*>(mem_); memset(mem_,0xA5,sizeof(mem_)); g_self=&self;')
        elif not out:
            L.append('  static GCn self_; new(&self_) GCn(); GCn&self=self_; rdgc(t,self); g_self=&self;'); own.append('self')
    for i,t in enumerate(c.types):
        ct=cxxtype(t); b=value_type(t)
        if i==0 and alias in('ein','min'): L.append('  GCn%s &A0=%s;'%(' const' if 'const' in ct else '',PART[alias[0]]%'self')); continue
        if alias==i: L.append('  GCn%s &A%d=self;'%(' const' if 'const' in ct else '',i)); continue
        if t=='string_view': L.append('  Buf B%d(Rd<string>::rd(t),false); string_view A%d=B%d.sv();'%(i,i,i))
        elif t in('char const*','char*'): L.append('  Buf B%d(Rd<string>::rd(t),true); char %s*A%d=B%d.p;'%(i,'const' if 'const' in t else '',i,i))
        elif t.startswith('std::initializer_list<'):
            e=re.match(r'std::initializer_list<(.*)>',t).group(1); L.append('  IL<%s> B%d{Rd<std::vector<%s>>::rd(t)}; auto A%d=B%d.il();'%(e,i,e,i,i))
        elif b=='std::ostream': L.append('  std::ostringstream A%d; A%d<<Rd<string>::rd(t);'%(i,i)); posts.append('wr(A%d.str());'%i)
        elif b=='GenericContainer':
            L.append('  static GCn a%d_; new(&a%d_) GCn(); rdgc(t,a%d_); GCn%s &A%d=a%d_; g_args.push_back({"arg:%d",&a%d_});'%(i,i,i,' const' if 'const' in ct else '',i,i,i,i))
            if out and i==0: L.append('  GCn&self=%s; g_self=&self;'%(PART[alias[0]]%'a0_')); own.append('A0'); continue
            posts.append('wr(A%d);'%i); own.append('A%d'%i)
        elif t.endswith('*') and re.match(r'^(.*?)( const)?\*$',t) and re.match(r'^(.*?)( const)?\*$',t).group(1) in ELT and t!='void*':
            e=re.match(r'^(.*?)( const)?\*$',t).group(1)
            L.append('  std::vector<%s> b%d=Rd<std::vector<%s>>::rd(t); %s*q%d=(%s*)malloc(sizeof(%s)*b%d.size()+!b%d.size()); std::copy(b%d.begin(),b%d.end(),q%d); %s*A%d=q%d;'%(e,i,e,e,i,e,e,i,i,i,i,i,t[:-1],i,i))
            posts.append('wr((unsigned long)b%d.size()); for(size_t k=0;k<b%d.size();++k) wr(q%d[k]);'%(i,i,i))
        else:
            ref=ct.endswith('&')
            L.append('  static %s a%d_; a%d_=Rd<%s>::rd(t); %s &A%d=a%d_; g_args.push_back({"arg:%d",&a%d_});'%(b,i,i,b,(b+(' const' if 'const' in ct else '')) if ref else b,i,i,i,i))
            m=re.match(r'^(std::vector|mat_type)<(?!bool)(.*)>$',b)
            if m: L.append('  g_finders.push_back([](void const*p){ string r=argvec(a%d_,p); return r.empty()?r:"arg:%d:"+r; });'%(i,i))
            if ref: posts.append('wr(A%d);'%i); own.append('A%d'%i)
    e=call_expr(c)
    L.append('  long own0=0; '+' '.join('own0+=owned(%s);'%x for x in own))
    if e.startswith('CTOR:'):
        L.append('  CALL((void)new(mem_) GCn%s);'%('('+e[5:]+')' if e[5:] else '()'))
    else: L.append('  CALL(%s);'%e)
    L.append('  long own1=0; '+' '.join('own1+=owned(%s);'%x for x in ([x for x in own if not(c.dtor and x=='self')]+(['self'] if c.ctor else []))))
    if c.hasthis and not c.dtor: L.append('  o("|"); wr(self);')
    L+=['  o("|"); '+p for p in posts]
    L.append('  o("|"); o(std::to_string(g_live-(own1-own0)));')
    L.append('}')
    return '\n'.join(L)
class BuildFail(Exception): pass
def make_driver(names,outdir,extra_src=''):
    """compiles the driver for the given contracts; returns (exe, [(name,alias)], failures)"""
    os.makedirs(outdir,exist_ok=True)
    flags=['-std=c++17','-O1','-g','-w','-fsanitize=address,undefined','-fno-sanitize=vptr,alignment','-fno-sanitize-recover=all','-fno-omit-frame-pointer','-D_GLIBCXX_ASSERTIONS','-fno-access-control']
    srcs=[os.path.join(build.REPO,'src',s+'.cc') for s in build.SRCS if os.path.exists(os.path.join(build.REPO,'src',s+'.cc'))]
    entries=[]
    for n in names:
        c=spec.REG[n]
        if c.noreplay: continue
        al=set()
        for v in c.variants(): al.add(al_of(v))
        for a in sorted(al,key=str): entries.append((n,a))
    def comp(cmd):
        p=subprocess.run(cmd,capture_output=True,text=True)
        return p.returncode,p.stderr
    CXX=build.CXX
    chunks=[entries[i::6] for i in range(6)] if len(entries)>40 else [entries]
    jobs=[]; objs=[]
    for s in srcs:
        ob=os.path.join(outdir,os.path.basename(s)+'.o'); objs.append(ob)
        if not os.path.exists(ob): jobs.append([CXX]+flags+build.inc()+['-c',s,'-o',ob])
    def wr_chunk(k,ch,bad):
        f=os.path.join(outdir,'drv%d.cc'%k)
        with open(f,'w') as h:
            h.write('#include "%s/harness/driver.hh"\n'%HERE if k==0 else '#define NEWDEFS\n#include "%s"\n'%os.path.join(outdir,'drvx.hh'))
            h.write(extra_src)
            for n,a in ch:
                if (n,a) in bad: continue
                h.write('#line 1 "%s"\n'%('E%d'%entries.index((n,a))))
                h.write(gen_case(entries.index((n,a)),spec.REG[n],a)+'\n')
            h.write('#line 1 "main"\n')
            h.write('void disp%d(int k,std::string const&l){ switch(k){\n'%k)
            for n,a in ch:
                if (n,a) in bad: continue
                i=entries.index((n,a)); h.write('case %d: runner(f%d_%s,l); break;\n'%(i,i,a if a is not None else 'n'))
            h.write('} }\n')
            if k==0:
                for j in range(1,len(chunks)): h.write('void disp%d(int,std::string const&);\n'%j)
                h.write('static int const owner_[]={%s};\n'%','.join(str(next((j for j,ch in enumerate(chunks) if e in ch))) for e in entries))
                h.write('int main(){ string l; while(std::getline(std::cin,l)){ size_t p=l.find(\' \'); int k=atoi(l.c_str()); string r=l.substr(p==string::npos?l.size():p+1); switch(owner_[k]){ %s } } return 0; }\n'%' '.join('case %d: disp%d(k,r); break;'%(j,j) for j in range(len(chunks))))
        return f
    # second and later translation units must not redefine operator new
    t=open(os.path.join(HERE,'harness','driver.hh')).read()
    t2=re.sub(r'void \*?operator (new|delete).*\n','',t).replace('static long g_live=0; static bool g_count=false;','extern long g_live; extern bool g_count;')
    t1=t.replace('static long g_live=0; static bool g_count=false;','long g_live=0; bool g_count=false;')
    open(os.path.join(outdir,'drvx.hh'),'w').write(t2)
    open(os.path.join(outdir,'drv_main.hh'),'w').write(t1)
    bad=set(); dobj=[]
    def one(k):
        ob=os.path.join(outdir,'drv%d.o'%k)
        while True:
            f=wr_chunk(k,chunks[k],bad)
            s=open(f).read().replace('#include "%s/harness/driver.hh"'%HERE,'#include "%s/drv_main.hh"'%outdir); open(f,'w').write(s)
            rc,err=comp([CXX]+flags+build.inc()+['-ferror-limit=0','-c',f,'-o',ob])
            if rc==0: return ob,None
            es=set(int(x) for x in re.findall(r'\bE(\d+):\d+:\d+: (?:fatal )?error',err))|set(int(x) for x in re.findall(r'in instantiation of .*\n.*|\bE(\d+):\d+',err) if x)
            new={entries[i] for i in es}-bad
            if not new: return None,err
            for e in new: FAILS[e[0]]=err[:400]
            bad.update(new)
    with ThreadPoolExecutor(8) as ex:
        fs=[ex.submit(comp,j) for j in jobs]; ds=[ex.submit(one,k) for k in range(len(chunks))]
        for j,f in zip(jobs,fs):
            rc,err=f.result()
            if rc: raise BuildFail(err[-2000:])
        for d in ds:
            ob,err=d.result()
            if ob is None: raise BuildFail(err[-3000:])
            dobj.append(ob)
    exe=os.path.join(outdir,'driver')
    rc,err=comp([CXX]+flags+objs+dobj+['-o',exe])
    if rc: raise BuildFail(err[-2000:])
    return exe,entries,bad
FAILS={}
# ------------------------------------------------------------------ concrete values
# containers are python tuples: (tag, payload); seq: list; mat: (rows,cols,list); map: list of (bytes, container) in key order
def fbits(x): return '%x'%struct.unpack('<Q',struct.pack('<d',x))[0]
def unbits(s): return struct.unpack('<d',struct.pack('<Q',int(s,16)))[0]
def hxs(b): return 'x'+b.hex()
def sgn(x,w): x&=(1<<w)-1; return x-(1<<w) if x>>(w-1) else x
def enc_k(k,v):
    if k=='b': return '1' if v else '0'
    if k in('i','l'): return str(sgn(v,32 if k=='i' else 64))
    if k in('p','u32','u64','u8','i8'): return str(v)
    if k in('r','f32'): return fbits(v) if not isinstance(v,str) else v
    if k in('c','c32'): return enc_k('r',v[0])+' '+enc_k('r',v[1])
    if k=='s': return hxs(v)
    if k=='v': return enc_gc(v)
    raise KeyError(k)
def enc_seq(k,l): return str(len(l))+''.join(' '+enc_k(k,x) for x in l)
def enc_gc(g):
    T,d=g
    if T==0: return '0'
    if T in SCAL: return '%d %s'%(T,enc_k(SCAL[T],d))
    if T in VEC: return '%d %s'%(T,enc_seq(VEC[T],d))
    if T in MAT: return '%d %d %d %s'%(T,d[0],d[1],enc_seq(MAT[T],d[2]))
    return '%d %d%s'%(T,len(d),''.join(' %s %s'%(hxs(k),enc_gc(v)) for k,v in d))
def enc_arg(t,v):
    k=argkind(t)
    if isinstance(k,tuple):
        if k[0]=='vec': return enc_seq(k[1],v)
        return '%d %d %s'%(v[0],v[1],enc_seq(k[1],v[2]))
    return enc_k(k,v)
class Reader:
    def __init__(s,toks): s.t=toks; s.i=0
    def w(s):
        x=s.t[s.i]; s.i+=1; return x
    def k(s,k):
        if k=='b': return int(s.w())&1==1
        if k in('i','l','p','u32','u64','u8','i8'): return int(s.w())
        if k in('r','f32'): return unbits(s.w())
        if k in('c','c32'): return (unbits(s.w()),unbits(s.w()))
        if k=='s': return bytes.fromhex(s.w()[1:])
        if k=='v': return s.gc()
        raise KeyError(k)
    def seq(s,k): return [s.k(k) for _ in range(int(s.w()))]
    def gc(s):
        T=int(s.w())
        if T==0: return (0,None)
        if T==2:
            b=int(s.w()); return (2,bool(b)) if b in(0,1) else (2,True)
        if T in SCAL: return (T,s.k(SCAL[T]))
        if T in VEC: return (T,s.seq(VEC[T]))
        if T in MAT: r,c=int(s.w()),int(s.w()); return (T,(r,c,s.seq(MAT[T])))
        if T==20: return (T,[(s.k('s'),s.gc()) for _ in range(int(s.w()))])
        raise ValueError('type tag %d out of range'%T)
    def arg(s,t):
        k=argkind(t)
        if isinstance(k,tuple):
            if k[0]=='vec': return s.seq(k[1])
            r,c=int(s.w()),int(s.w()); return (r,c,s.seq(k[1]))
        return s.k(k)
def fpv(x,sort=F64):
    if x!=x: return z3.fpNaN(sort)
    if sort==F64:
        u=struct.unpack('<Q',struct.pack('<d',x))[0]
        return z3.simplify(z3.fpBVToFP(BitVecVal(u,64),F64))
    u=struct.unpack('<I',struct.pack('<f',x))[0]
    return z3.simplify(z3.fpBVToFP(BitVecVal(u,32),F32))
def term_k(k,v):
    if k=='b': return BoolVal(bool(v))
    if k=='r': return fpv(v)
    if k=='f32': return fpv(v,F32)
    if k=='c': return (fpv(v[0]),fpv(v[1]))
    if k=='c32': return (fpv(v[0],F32),fpv(v[1],F32))
    if k=='s': return lit(v)
    if k=='v': return term_gc(v)
    return BitVecVal(v,KSORT[k].size())
def term_seq(k,l):
    ts=[term_k(k,x) for x in l]; d=dflt(k)
    def get(i):
        i=b64(i)
        if z3.is_bv_value(i):
            j=i.as_long(); return ts[j] if j<len(ts) else d
        r=d
        for j,x in enumerate(ts): r=ite(i==j,x,r)
        return r
    return Seq(len(l),get)
def seq_s(a,b):
    x,y=lit_bytes(a),lit_bytes(b)
    if x is not None and y is not None: return x==y
    return True if a.eq(b) else a==b
def term_map(l):
    l=sorted(l,key=lambda x:x[0]); ks=[lit(k) for k,_ in l]; vs=[term_gc(v) for _,v in l]
    def val(k):
        r=NOTYPE
        for a,b in zip(ks,vs): r=ite(seq_s(a,k),b,r)
        return r
    def keyat(p):
        p=b64(p)
        if z3.is_bv_value(p) and p.as_long()<len(ks): return ks[p.as_long()]
        r=EMPTY
        for j,a in enumerate(ks): r=If(p==j,a,r)
        return r
    def rank(k):
        r=BitVecVal(len(ks),64)
        for j,a in enumerate(ks): r=ite(seq_s(a,k),BitVecVal(j,64),r)
        return r
    return MapC(lambda k:Or_(*[seq_s(a,k) for a in ks]),val,BitVecVal(len(ks),64),keyat,rank)
def term_gc(g):
    T,d=g
    if T==0: return NOTYPE
    if T in SCAL: return AVRec(T,term_k(SCAL[T],d))
    if T in VEC: return AVRec(T,term_seq(VEC[T],d))
    if T in MAT: return AVRec(T,(term_seq(MAT[T],d[2]),BitVecVal(d[0],32),BitVecVal(d[1],32)))
    return AVRec(T,term_map(d))
def term_arg(t,v):
    k=argkind(t)
    if isinstance(k,tuple):
        if k[0]=='vec': return term_seq(k[1],v)
        return (term_seq(k[1],v[2]),BitVecVal(v[0],32),BitVecVal(v[1],32))
    return term_k(k,v)
class CCtx(Ctx):
    """concrete call"""
    def __init__(s,c,this,args):
        s.types=c.types; s.hasthis=c.hasthis; s.defs=[]; s.defq=[]; s.st=None; s.m=None
        s._this=None if this is None else term_gc(this); s.thisv=this; s.argv=args
        s.cache={i:term_arg(t,v) for i,(t,v) in enumerate(zip(c.types,args))}
        s.concrete=True; s.late=[]; s.hints=[]
        from . import contracts; contracts.CONC_CX[0]=s
    @property
    def this(s): return s._this
    def a(s,i): return s.cache[i]
    def first(s,n,pred,when=True,noix=False,grid=None):
        if tobool(bl(when)) is False: return simp(b64(n))
        n=conc(b64(n))
        if not isinstance(n,int): return Ctx.first(s,n,pred)
        for j in range(n):
            if truth(pred(BitVecVal(j,64))): return BitVecVal(j,64)
        return BitVecVal(n,64)
    def allpairs(s,nr,nc,pred,when=True):
        if tobool(bl(when)) is False: return BoolVal(True)
        nr,nc=conc(simp(nr)),conc(simp(nc))
        return BoolVal(all(truth(pred(BitVecVal(i,32),BitVecVal(j,32))) for j in range(nc) for i in range(nr)))
def truth(g):
    g=bl(g); t=tobool(g)
    if t is True or t is False: return t
    return check_sat([Not(g)])[0]=='unsat'
# concrete meaning of the string helpers on literals
def _lit_ax(app,d):
    if d=='cstr':
        b=lit_bytes(app.arg(0))
        if b is not None: return [app==lit(b.split(b'\0')[0])]
    if d=='ssub':
        b=lit_bytes(app.arg(0)); i,n=conc(app.arg(1)),conc(app.arg(2))
        if b is not None and isinstance(i,int) and isinstance(n,int): return [app==lit(b[i:i+n])]
    if d=='scat':
        a,b=lit_bytes(app.arg(0)),lit_bytes(app.arg(1))
        if a is not None and b is not None: return [app==lit(a+b)]
    if d=='sch':
        b=lit_bytes(app.arg(0)); i=conc(app.arg(1))
        if b is not None and isinstance(i,int): return [app==(b[i] if i<len(b) else 0)]
    return []
class Concrete:
    def __enter__(s): terms.EXTRA_AX.append(_lit_ax); terms.CONCRETE[0]+=1
    def __exit__(s,*a): terms.EXTRA_AX.remove(_lit_ax); terms.CONCRETE[0]-=1

def eval_contract(c,this,args,res):
    """res: parsed driver result. returns None or a description of the mismatch. (kind,text)"""
    cx=CCtx(c,this,args)
    if c.pre:
        for lbl,g in c.pre(cx):
            r,_=check_sat([Not(bl(g))])
            if r!='unsat': return None   # outside the precondition
    if res['kind']=='crash': return ('crash',res['text'])
    try: cases=list(c.spec(cx))
    except Unsupported: return None
    base=cx.defs; bq=cx.defq
    why=None; some=False
    for ci,cs in enumerate(cases):
        t=tobool(cs.guard)
        if t is False: continue
        if t is not True and check_sat(base+[t],bq)[0]=='unsat': continue
        some=True
        w=match(c,cx,cs,this,args,res,base+([] if t is True else [t]),bq)
        if w is None: return leak_of(res)
        why=w if why is None else why
    if not some: return ('uncovered','no case of the contract applies')
    return why
def leak_of(res):
    if res.get('leak',0)!=0: return ('leak','%+d allocations unaccounted for after the call'%res['leak'])
    return None
def match(c,cx,cs,this,args,res,hyp,bq):
    if cs.out!=res['kind']: return ('outcome','%s where the contract requires %s (%s)'%('returned' if res['kind']=='ret' else 'threw','an exception' if cs.out=='throw' else 'a normal return',res.get('ret','')))
    if res['kind']=='throw' and res['ret'] not in('runtime','std'): return ('outcome','threw an unexpected exception type (%s)'%res['ret'])
    def holds(g):
        fl=[]; flatten(g,[],fl,0,'')
        for h,con,name in fl:
            if check_sat(hyp+h+[Not(con)],bq)[0]!='unsat': return name or 'value'
        return None
    if c.hasthis and not c.dtor and cs.this is not ANY:
        if cs.this is None: exp=cx.this
        elif isinstance(cs.this,AnyScal):
            exp=None
            if res['this'][0]!=cs.this.T: return ('this','container type after the call')
        elif isinstance(cs.this,Post): exp=cs.this.fn(term_gc(res['this']))
        else: exp=cs.this
        if exp is not None:
            w=holds(Eq(term_gc(res['this']),exp))
            if w: return ('this','container after the call is %s (differs in %s)'%(show(res['this']),w))
    for i,v in res['args'].items():
        e=cs.eff.get(i,cx.a(i))
        if e is ANY: continue
        w=holds(val_goal(c.types[i],term_arg(c.types[i],v),e))
        if w: return ('arg%d'%i,'argument %d after the call is %s'%(i,show(v)))
    if res['kind']=='ret' and cs.ret is not None:
        g=ret_goal(cs.ret,c,cx,res)
        if g is None: return None
        if g is False: return ('result','returned %s'%res['ret'])
        w=holds(g) if not isinstance(g,bool) else None
        if w: return ('result','returned %s'%res['ret'])
    return None
def ret_goal(r,c,cx,res):
    tk=res['ret'].split(); kind=tk[0] if tk else ''
    if isinstance(r,ROwn): r=r.w()
    if isinstance(r,(RAny,)): return True
    if isinstance(r,RVal):
        if kind=='ref' and r.kind=='p': return None
        if kind!='val': return False
        v=Reader(tk[1:]).k(r.kind)
        return val_eq(r.kind if r.kind not in('u32','u64','f32') else r.kind,term_k(r.kind,v),r.v if r.kind!='b' else bl(r.v))
    if isinstance(r,(RView,RStr,RCStr)): return lit(Reader(tk[1:]).k('s'))==r.v if kind=='val' else False
    if isinstance(r,RStrAny): return r.pred(lit(Reader(tk[1:]).k('s'))) if kind=='val' else False
    if isinstance(r,RVec): return seq_goal(r.k,term_seq(r.k,Reader(tk[1:]).seq(r.k)),r.v) if kind=='val' else False
    loc=tk[1] if len(tk)>1 else ''
    if kind=='bit':
        if not isinstance(r,RElem): return False
        m=re.match(r'elem:(\d+)$',loc); return b64(r.i)==int(m.group(1)) if m else False
    if kind!='ref': return False
    return loc_goal(r,loc)
def loc_goal(r,loc):
    if isinstance(r,ROwn): r=r.w()
    if isinstance(r,RIn):
        if r.step[0]=='e':
            m=re.match(r'elem:(\d+)$',loc)
            if m: return b64(r.step[1])==int(m.group(1)) if isinstance(r.ret,RUnion) else False
            m=re.match(r'in:(\d+):(.*)$',loc)
            if not m: return False
            g=loc_goal(r.ret,m.group(2)); c=b64(r.step[1])==int(m.group(1))
        else:
            m=re.match(r'map:(x\w*)$',loc)
            if m: return lit(bytes.fromhex(m.group(1)[1:]))==r.step[1] if isinstance(r.ret,RUnion) else False
            m=re.match(r'inm:(x\w*?):(.*)$',loc)
            if not m: return False
            g=loc_goal(r.ret,m.group(2)); c=lit(bytes.fromhex(m.group(1)[1:]))==r.step[1]
        if g is None: return None
        return And_(c,g)
    if isinstance(r,RThis): return loc=='self'
    if isinstance(r,RUnion): return loc=='self'     # the union is the first member: same address
    if isinstance(r,RPayload): return loc=='payload' if r.of is None else None
    if isinstance(r,RArgData): return None
    if isinstance(r,RData): return loc in('elem:0','null','other')
    if isinstance(r,RArgElem):
        m=re.match(r'arg:%d:elem:(\d+)$'%r.a,loc); return b64(r.i)==int(m.group(1)) if m else False
    if isinstance(r,RElem):
        m=re.match(r'elem:(\d+)$',loc); return b64(r.i)==int(m.group(1)) if m else False
    if isinstance(r,RMapVal):
        m=re.match(r'map:(x\w*)$',loc); return lit(bytes.fromhex(m.group(1)[1:]))==r.key if m else False
    if isinstance(r,RNull): return loc=='null'
    return None
def show(v):
    if isinstance(v,tuple) and len(v)==2 and isinstance(v[0],int) and 0<=v[0]<=20 and not isinstance(v[0],bool):
        return NAMES[v[0]]+('' if v[1] is None else '(%s)'%show_d(v[0],v[1]))
    return repr(v)
def show_d(T,d):
    if T==19: return '['+', '.join(show(x) for x in d)+']'
    if T==20: return '{'+', '.join('%r: %s'%(k.decode('latin1'),show(x)) for k,x in d)+'}'
    return repr(d)
# ------------------------------------------------------------------ running
def parse_result(c,line,alias):
    if line.startswith('crash'): return {'kind':'crash','text':line}
    parts=[p.split() for p in line.split('|')]
    h=parts.pop(0); res={'kind':h[0],'ret':' '.join(h[1:]),'args':{}}
    try:
        if c.hasthis and not c.dtor: res['this']=Reader(parts.pop(0)).gc()
        for i,t in enumerate(c.types):
            if skips(i,alias) or (i==0 and isinstance(alias,str)) or t in('string_view','char const*','char*') or t.startswith('std::initializer_list'): continue
            m=re.match(r'^(.*?)( const)?\*$',t)
            if t.endswith('&') : res['args'][i]=Reader(parts.pop(0)).arg(t)
            elif m and m.group(1) in ELT and t!='void*': res['args'][i]=Reader(parts.pop(0)).arg('std::vector<%s> const&'%m.group(1))
        res['leak']=int(parts.pop(0)[0])
    except (ValueError,IndexError) as e: return {'kind':'crash','text':'invalid state after the call: %s [%s]'%(e,line[:300])}
    return res
class Driver:
    def __init__(s,names,outdir):
        s.exe,s.entries,s.bad=make_driver(names,outdir)
        s.index={e:i for i,e in enumerate(s.entries) if e not in s.bad}
    def can(s,name,alias=None): return (name,alias) in s.index
    def run(s,name,alias,cases):
        """cases: list of (this,args). returns list of result dicts (with crash text)"""
        c=spec.REG[name]; idx=s.index[(name,alias)]
        if not cases: return []
        lines=[]
        for this,args in cases:
            p=[str(idx)]
            if c.hasthis and not c.ctor and not(isinstance(alias,str) and alias.endswith('out')): p.append(enc_gc(this))
            for i,(t,v) in enumerate(zip(c.types,args)):
                if skips(i,alias): continue
                p.append(enc_arg(t,v))
            lines.append(' '.join(p))
        env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=88:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1',UBSAN_OPTIONS='halt_on_error=1:exitcode=88')
        p=subprocess.run([s.exe],input='\n'.join(lines)+'\n',capture_output=True,text=True,errors='replace',env=env,timeout=900)
        out=p.stdout.split('\n')[:-1]
        if len(out)!=len(lines): 
            out=[l for l in out if l.startswith(('ret ','throw ','crash '))]
            if len(out)!=len(lines): raise BuildFail('driver output out of step (%d/%d): %s'%(len(out),len(lines),p.stderr[-500:]))
        s.stderr=p.stderr
        return [parse_result(c,l,alias) for l in out]
    def crash_text(s,name,alias,case):
        r=s.run(name,alias,[case]); 
        m=re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*|Assertion[^\n]*)',s.stderr)
        t=[l for l in s.stderr.split('\n') if re.match(r'\s+#\d+ ',l) and '/repo/' in l][:4]
        return (m.group(1) if m else r[0].get('text',''))+(' at '+'; '.join(x.strip() for x in t) if t else '')
# ------------------------------------------------------------------ inputs
def pool_gc():
    R=[0.0,1.0,2.5,-3.0]
    P=[(0,None),(1,0),(1,4096),(2,True),(2,False),(3,0),(3,7),(3,-5),(3,-2**31),(4,0),(4,9),(4,-1),(4,2**31),(4,2**32-1),(4,2**32),(4,-2**31-1),(4,2**63-1),
       (5,0.0),(5,2.0),(5,2.5),(5,-1.0),(5,-0.0),(5,4e9),(5,2147483647.0),(5,2147483648.0),(5,-2147483648.0),(5,4294967295.0),(5,1e19),(5,1e300),(5,float('nan')),(5,float('inf')),(5,5e-324),
       (6,(1.0,0.0)),(6,(1.5,2.0)),(6,(3.0,0.0)),(6,(-2.0,0.0)),(6,(1e10,0.0)),(6,(2.5,0.0)),(7,b''),(7,b'a'),(7,b'hello'),(7,b'n\0ul'),
       (8,[]),(8,[0,4096]),(9,[]),(9,[True]),(9,[True,False,True]),(10,[]),(10,[5]),(10,[1,-2,3]),(11,[]),(11,[2**40]),(11,[1,-2,2**33]),
       (12,[]),(12,[2.5]),(12,[1.0,2.0,3.5]),(13,[]),(13,[(1.0,2.0)]),(13,[(1.0,0.0),(2.0,3.0)]),(14,[]),(14,[b'x']),(14,[b'',b'yy',b'a long string beyond the small buffer']),
       (15,(0,0,[])),(15,(1,1,[4])),(15,(2,3,[1,2,3,4,5,6])),(16,(3,1,[1,2**35,3])),(16,(2,2,[1,2,3,4])),(17,(2,2,[1.0,2.5,3.0,4.0])),(17,(1,3,[1.0,2.0,3.0])),(17,(3,2,[1.,2.,3.,4.,5.,6.])),
       (18,(2,1,[(1.0,2.0),(3.0,0.0)])),(18,(2,2,[(1.0,2.0),(3.0,0.0),(4.0,5.0),(6.0,7.0)])),
       (19,[]),(19,[(0,None)]),(19,[(3,1),(5,2.5)]),(19,[(3,1),(3,2),(3,3)]),(19,[(7,b's'),(10,[1,2]),(20,[(b'k',(3,4))])]),(19,[(12,[1.0,2.0]),(10,[3,4])]),(19,[(4,2**40),(6,(1.0,2.0))]),
       (19,[(2,True),(2,False)]),(19,[(19,[(3,1)]),(19,[(3,2)])]),(19,[(3,1),(3,-2),(4,5),(5,3.0)]),(19,[(7,b'p'),(7,b'q')]),
       (19,[(10,[1,2]),(10,[3,4]),(10,[5,6])]),(19,[(13,[(1.0,0.0),(2.0,3.0)]),(12,[1.0,2.0])]),(19,[(10,[1,2]),(10,[3])]),(19,[(10,[]),(10,[])]),(19,[(9,[True,False]),(11,[1,2**40])]),(19,[(15,(1,2,[7,8])),(19,[(3,1),(4,2)])]),(19,[(10,[1,2,3]),(11,[4,5,6])]),(19,[(12,[1.0,2.5])]),
       (20,[]),(20,[(b'a',(3,1))]),(20,[(b'a',(3,1)),(b'b',(7,b'v')),(b'key',(12,[1.0,2.0]))]),(20,[(b'',(2,True)),(b'a',(20,[(b'x',(5,1.5))]))]),
       (20,[(b'a',(5,2.5)),(b'b',(4,2**40)),(b'c',(2,True)),(b'key',(19,[(3,1),(7,b'z')]))]),(20,[(b'ab',(6,(1.0,0.0))),(b'b',(3,-4))]),(20,[(b'key',(7,b'str')),(b'b',(2,False))]),(20,[(b'a\0b',(3,5)),(b'zz',(7,b'q'))]),(14,[b'n\0x',b'n'])]
    return P
POOL=pool_gc()
KEYS=[b'a',b'b',b'key',b'',b'zz',b'ab',b'a\0b']
def pool_arg(t,rich):
    k=argkind(t)
    if t in('string_view','char const*','char*'): 
        return [x for x in KEYS if t=='string_view' or b'\0' not in x]
    if t=='std::initializer_list<string>' : return [[],[b'a'],[b'key',b'a'],[b'a',b'x'],[b'b',b'key']]
    if isinstance(k,tuple):
        e=k[1]
        if k[0]=='vec':
            if e=='s': return [[],[b'a'],[b'zz',b'b'],[b'key',b'a',b'']]
            if e=='v': return [[],[(3,1)],[(0,None),(7,b'q')]]
            return [[]]+[g[1] for g in POOL if VEC.get(g[0])==e and g[1]]+([[1,2,3,4]] if e in('u32','u64','u8') else [])
        return [g[1] for g in POOL if MAT.get(g[0])==e]+[(0,3,[]),(2,0,[])]
    if k=='v': return POOL
    if k=='b': return [False,True]
    if k=='s': return KEYS
    if k=='u32': return [0,1,2,3,5] + ([7,100] if rich else [])+([2**31-1,2**31,2**32-1] if t.endswith('&') else [])
    if k=='u64': return [0,1,2,3,2**40]+([2**63-1,2**63] if t.endswith('&') else [])
    if k in('i',): return [0,1,-1,7,2**31-1,-2**31] if t!='GC_type' else list(range(21))
    if k=='l': return [0,1,-1,2**40,-2**63]
    if k in('r','f32'): return [0.0,1.5,-2.0,float('inf')]
    if k in('c','c32'): return [(0.0,0.0),(1.5,-2.0)]
    if k=='p': return [0,4096]
    raise Unsupported('pool '+t)
def enumerate_cases(c,limit,alias=None,rng=None):
    """bounded enumeration of calls (stated bound: the pools above, at most `limit` combinations, evenly thinned)"""
    pools=[]
    if c.hasthis and not c.ctor: pools.append(POOL)
    first_text=None
    for i,t in enumerate(c.types):
        if skips(i,alias): pools.append([None]); continue
        pl=(c.pool or {}).get(i) or pool_arg(t,True)
        if t=='string_view' and c.isnote(i): pl=pl[:1]
        pools.append(pl)
    tot=1
    for p in pools: tot*=len(p)
    rng=rng or random.Random(1)
    if tot<=limit: combos=itertools.product(*pools)
    else:
        combos=[]
        seen=set()
        # every value of every pool at least once, then random
        for d,p in enumerate(pools):
            for v in range(len(p)):
                combos.append(tuple(v if e==d else rng.randrange(len(q)) for e,q in enumerate(pools)))
        while len(combos)<limit: combos.append(tuple(rng.randrange(len(q)) for q in pools))
        rng.shuffle(combos); combos=combos[:limit]
        combos=[tuple(q[j] for q,j in zip(pools,cb)) for cb in combos]
    out=[]
    for cb in combos:
        cb=list(cb); this=cb.pop(0) if c.hasthis and not c.ctor else None
        for i in range(len(cb)):
            if i==alias: cb[i]=this
        if isinstance(alias,str):
            if alias.endswith('in'):
                cb[0]=part_of(alias,this)
                if cb[0] is None: continue
            else:
                this=part_of(alias,cb[0])
                if this is None: continue
        out.append((this,cb))
    return out

# ------------------------------------------------------------------ directed search (used when a proof fails and no failing input is known)
def mine(ir,fnames,mod):
    """integer, real and text constants in the bodies of the given functions"""
    names={x for n in fnames for x in mod.bydem.get(n,[])}
    ints=set(); reals=set(); on=False; glob=set(); consts={}
    for l in open(ir,errors='replace'):
        if l.startswith('@'):
            m=re.match(r'^@([\w.]+) = .*constant \[\d+ x i8\] c"(.*)\\00"',l)
            if m: consts[m.group(1)]=m.group(2)
            continue
        if l.startswith('define '):
            m=re.search(r'@"?([\w.$]+)"?\(',l); on=bool(m) and m.group(1) in names; continue
        if not on: continue
        if l.startswith('}'): on=False; continue
        l=l.split(', !dbg')[0]
        for x in re.findall(r'\bi(?:8|32|64) (-?\d+)',l): ints.add(int(x))
        if 'icmp' in l: ints.update(int(x) for x in re.findall(r', (-?\d+)\s*$',l))
        for x in re.findall(r'double (-?\d\.\d+e[+-]\d+|0x[0-9A-F]{16})',l): reals.add(unbits(x[2:].lower()) if x.startswith('0x') else float(x))
        glob.update(re.findall(r'@([\w.]+)',l))
    strs=[re.sub(rb'\\([0-9A-F]{2})',lambda m:bytes([int(m.group(1),16)]),consts[g].encode('latin1')) for g in glob if g in consts]
    strs=[x for x in strs if len(x)<=12]
    return sorted(x for x in ints if abs(x)<2**63),sorted(x for x in reals if x==x),strs
class Gen:
    def __init__(s,rng,ints,reals,strs):
        s.r=rng; near=sorted({y for x in ints for y in(x-1,x,x+1)})
        s.ints=[0,1,-1,2,3,5,7,10,255,256,2**31-1,-2**31]+[x for x in near if -2**31<=x<2**31]
        s.longs=s.ints+[2**31,2**32-1,2**32,2**40,-2**31-1,2**53+1,2**63-1,-2**63]
        s.reals=[0.0,-0.0,1.0,2.5,-3.0,0.1,1e10,4e9,2147483647.0,2147483648.0,-2147483648.0,4294967295.0,4294967296.0,9.2233720368547758e18,1e19,1e300,5e-324,float('inf'),float('-inf'),float('nan')]+list(reals)+[float(x) for x in near if abs(x)<2**53]
        s.strs=[b'',b'a',b'b',b'key',b'ab',b'zz',b'a\0b',b'a\0',b'A',b' a',b'a longer text that needs the heap',b'x\0y\0z',b'9',b'1.5',b'\xff\x80']+list(strs)
        s.sizes=[0,1,1,2,2,3,3,4,5,6,8,9]+[x for x in near if 0<=x<=17]
        s.big=[17,33,64,65,100,129,130,257]+[x for x in near+[1<<x for x in ints if 4<x<9] if 17<x<=300]
    def c(s,l): return l[s.r.randrange(len(l))]
    def k(s,k):
        if k=='b': return s.r.random()<.5
        if k=='i': return s.c(s.ints)
        if k=='l': return s.c(s.longs)
        if k=='r': return s.c(s.reals) if s.r.random()<.7 else s.r.randrange(-50,50)/4
        if k=='f32': return struct.unpack('<f',struct.pack('<f',s.r.randrange(-50,50)/4))[0]
        if k in('c','c32'):
            q='r' if k=='c' else 'f32'; return (s.k(q),0.0 if s.r.random()<.5 else s.k(q))
        if k=='s': return s.c(s.strs)
        if k=='p': return s.c([0,4096,8192])
        if k=='u32': return s.c([x for x in s.longs if 0<=x<2**32])
        if k=='u64': return s.c([x for x in s.longs if x>=0])
        if k=='u8': return s.r.randrange(256)
        if k=='i8': return s.r.randrange(-128,128)
        if k=='v': return s.gc(1)
        raise Unsupported('gen '+k)
    def seq(s,k,n=None):
        n=s.c(s.sizes) if n is None else n
        if s.r.random()<.3 and k in('i','l','r'): return [s.r.randrange(-9,30) if k!='r' else float(s.r.randrange(-9,30)) for _ in range(n)]
        return [s.k(k) for _ in range(n)]
    def gc(s,d=0,T=None):
        T=s.r.randrange(21 if d<3 else 19) if T is None else T
        if T==0: return (0,None)
        if T in SCAL: return (T,s.k(SCAL[T]))
        if T==19:
            n=s.c(s.sizes); u=s.r.random()
            if u<.3: t=s.r.randrange(1,8); return (T,[s.gc(d+1,t) for _ in range(n)])
            if u<.45: return (T,[s.gc(d+1,s.c([2,3,4,5])) for _ in range(n)])
            if u<.7:
                m=s.c([x for x in s.sizes if x]+[n or 1]*4); ts=s.c([[10],[11],[12],[13],[9,10,11,12],[12,13],[10,12,15,19]])
                return (T,[s.col(s.c(ts),m) for _ in range(n)])
            return (T,[s.gc(d+1) for _ in range(min(n,6))])
        if T in VEC: return (T,s.seq(VEC[T],s.c(s.big) if d==0 and s.r.random()<.12 else None))
        if T in MAT:
            r,c=s.c([0,1,2,3,4,5]),s.c([0,1,2,3,4,5])
            if d==0 and s.r.random()<.08: r,c=s.c([(1,65),(65,1),(2,33),(17,4),(9,8)])
            return (T,(r,c,s.seq(MAT[T],r*c)))
        ks=sorted({s.c(s.strs) for _ in range(s.c(s.sizes))})[:7]
        return (20,[(k,s.gc(d+1)) for k in ks])
    def col(s,T,m):
        if T==19: return (19,[s.gc(3,s.c([2,3,4,5])) for _ in range(m)])
        if T in MAT: return (T,(m,1,s.seq(MAT[T],m)))
        return (T,s.seq(VEC[T],m))
    def mutate(s,g,d=0):
        """a container that differs from g in one place"""
        T,x=g; u=s.r.random()
        if u<.06: return s.gc(d)
        if T==0: return s.gc(d)
        if T in SCAL: return (T,s.mk(SCAL[T],x))
        if T in VEC:
            l=list(x); k=VEC[T]
            if not l or u<.2: i=s.r.randrange(len(l)+1); l.insert(i,s.k(k) if k!='v' else s.gc(d+1))
            elif u<.35: del l[s.c([0,len(l)-1,s.r.randrange(len(l))])]
            elif u<.45: i,j=s.r.randrange(len(l)),s.r.randrange(len(l)); l[i],l[j]=l[j],l[i]
            else:
                i=s.c([0,len(l)-1,s.r.randrange(len(l))]); l[i]=s.mutate(l[i],d+1) if k=='v' else s.mk(k,l[i])
            return (T,l)
        if T in MAT:
            r,c,l=x; l=list(l)
            if u<.2: return (T,(c,r,l))
            if u<.3 or not l: return s.gc(d,T)
            i=s.c([0,len(l)-1,s.r.randrange(len(l))]); l[i]=s.mk(MAT[T],l[i]); return (T,(r,c,l))
        l=list(x)
        if not l or u<.2: l=[y for y in l]+[(s.c(s.strs),s.gc(d+1))]
        elif u<.35: del l[s.r.randrange(len(l))]
        elif u<.5: i=s.r.randrange(len(l)); l[i]=(s.mk('s',l[i][0]),l[i][1])
        else: i=s.c([0,len(l)-1,s.r.randrange(len(l))]); l[i]=(l[i][0],s.mutate(l[i][1],d+1))
        return (20,sorted(dict(l).items()))
    def mk(s,k,x):
        u=s.r.random()
        if k=='b': return not x
        if k=='s':
            if u<.3: return x+s.c([b'\0',b'a',b'\0x'])
            if u<.5 and x: return x[:-1]
            if u<.8 and x: i=s.r.randrange(len(x)); return x[:i]+bytes([x[i]^s.c([1,32,128])])+x[i+1:]
            return s.k(k)
        if k=='c' and u<.7: return (s.mk('r',x[0]),x[1]) if u<.35 else (x[0],s.mk('r',x[1]))
        if k=='i' and u<.7: return sgn(x+s.c([1,-1,256,2**16,2**31]),32)
        if k=='l' and u<.7: return sgn(x+s.c([1,-1,2**32,2**31,2**63]),64)
        if k=='r' and u<.6: return s.c([-x,x+1,x*(1+1e-12),x+1e-9])
        return s.k(k)
def size_of(g):
    if g is None: return 0
    T,x=g
    if T in VEC or T==20: return len(x)
    if T in MAT: return len(x[2])
    return 1
def keys_of(g):
    if g is None or g[0]!=20:
        return [k for y in g[1] for k in keys_of(y)] if g is not None and g[0]==19 else []
    return [k for k,_ in g[1]]+[k for _,y in g[1] for k in keys_of(y)]
def search_cases(c,n,alias,gen):
    """n random calls: values near the constants of the code, arguments related to the container"""
    out=[]; r=gen.r
    for _ in range(n):
        this=None; args=[]
        if c.hasthis and not c.ctor: this=gen.c(POOL) if r.random()<.25 else gen.gc()
        for i,t in enumerate(c.types):
            if skips(i,alias): args.append(None); continue
            if (c.pool or {}).get(i): args.append(gen.c(c.pool[i])); continue
            k=argkind(t); u=r.random()
            if t=='string_view' and c.isnote(i): args.append(b'w'); continue
            if t in('string_view','char const*','char*') or k=='s':
                ks=keys_of(this); x=gen.c(ks) if ks and u<.5 else gen.k('s')
                if u>.85: x=gen.mk('s',x)
                args.append(x if t not in('char const*','char*') else x.split(b'\0')[0]); continue
            if t=='std::initializer_list<string>' or isinstance(k,tuple) and k==('vec','s'):
                ks=keys_of(this); args.append([gen.c(ks) if ks and r.random()<.6 else gen.k('s') for _ in range(gen.c([0,1,2,2,3,4]))]); continue
            if k=='v':
                if this is not None and u<.6:
                    x=this
                    for _ in range(gen.c([0,1,1,1,2])): x=gen.mutate(x)
                    args.append(x)
                else: args.append(gen.gc(0,this[0] if this is not None and u<.75 else None))
                continue
            if isinstance(k,tuple):
                if k[0]=='vec': args.append(gen.seq(k[1]))
                else: a,b=gen.c([0,1,2,3,5]),gen.c([0,1,2,3,5]); args.append((a,b,gen.seq(k[1],a*b)))
                continue
            if k in('u32','i') and t!='GC_type' and not t.endswith('&') and this is not None and u<.7:
                z=size_of(this); m=this[1] if this[0] in MAT else None
                args.append(max(0,gen.c([0,z-1,z,z//2]+([m[0],m[1],m[0]-1,m[1]-1] if m else [])))); continue
            if t=='GC_type': args.append(r.randrange(21)); continue
            if k in('u32','u64') and not t.endswith('&'): args.append(gen.c(gen.sizes+[100])); continue
            args.append(gen.k(k))
        for i in range(len(args)):
            if i==alias: args[i]=this
        if isinstance(alias,str):
            if alias.endswith('in'): args[0]=part_of(alias,this)
            else: this=part_of(alias,args[0])
            if (args[0] if alias.endswith('in') else this) is None: continue
        out.append((this,args))
    return out
