"""Function contracts: functional case lists over abstract container values.  The same contract object is
 (1) verified against the function body, (2) applied at call sites instead of the body, (3) evaluated concretely by the replay driver."""
import re, z3
from .terms import *
from . import terms
from .machine import *
from . import stl as stlm
from .stl import ELT, IRT, split_args, f_cstr, f_sub
from . import loops

for _k in('u8','u32','u64','i8','f32'):
    if _k not in f_e:
        f_e[_k]=Function('e_'+_k,V,B64,KSORT[_k]); terms.IDXFN.add('e_'+_k)

ANY=object()
class AnyScal:
    """container of scalar type T holding an unspecified value"""
    def __init__(s,T): s.T=T
    def make(s): return AVRec(s.T,fresh_kind(SCAL[s.T],'unspec'))
class Post:
    """container value after the call given through a function of the observed value (None at call sites: fresh choice)"""
    def __init__(s,fn): s.fn=fn
class Case:
    def __init__(s,guard,out='ret',this=None,ret=None,eff=None,note='',keep=False):
        s.keep=keep; s.guard=bl(guard); s.out=out; s.this=this; s.ret=ret; s.eff=eff or {}; s.note=note
def Throw(guard,**k): return Case(guard,'throw',**k)

# ------------------------------------------------------------------ return specifications
class Ret: pass
class RVal(Ret):
    """plain value; kind gives the C type"""
    def __init__(s,kind,v): s.kind=kind; s.v=v
    def make(s,m,st,cx):
        v=s.v
        if s.kind=='c': return v
        if s.kind=='b': return tobool(v)
        if s.kind in('r','f32'): return v
        if s.kind=='p': return OPtr(v)
        return conc(v)
    def check(s,m,st,cx,r):
        k=s.kind
        if r is UNDEF: return BoolVal(False)
        if k=='c': return And_(r[0]==s.v[0],r[1]==s.v[1])
        if k=='b': return bl(m.tobit(r))==bl(s.v)
        if k in('r','f32'): return r==s.v
        if k=='p': return m.typed(st,r,8,'p')==s.v
        if isinstance(r,Scaled): r=r.bv()
        return bv(r,KSORT[k].size())==s.v
class RView(Ret):
    """string_view value"""
    def __init__(s,v): s.v=v
    def make(s,m,st,cx): return (conc(slen(s.v)),m.stl.view(st,s.v,True))
    def check(s,m,st,cx,r): return m.stl.sv(st,r[0],r[1])==s.v
class RCStr(Ret):
    def __init__(s,v): s.v=v
    def make(s,m,st,cx): return m.stl.view(st,s.v,True)
    def check(s,m,st,cx,r): return m.stl.cs(st,r)==s.v
class RStr(Ret):
    """std::string by value (sret)"""
    def __init__(s,v): s.v=v
    def make(s,m,st,cx): m.stl.wr(st,cx.sret,32,StrM(s.v)); return None
    def check(s,m,st,cx,r): return m.stl.gstr(st,cx.sret)==s.v
class RStrAny(Ret):
    """std::string by value with a predicate"""
    def __init__(s,pred): s.pred=pred
    def make(s,m,st,cx):
        v=fresh('rs',S); st.assume(s.pred(v)); m.stl.wr(st,cx.sret,32,StrM(v)); return None
    def check(s,m,st,cx,r): return s.pred(m.stl.gstr(st,cx.sret))
class RThis(Ret):
    def make(s,m,st,cx): return cx.thisp
    def check(s,m,st,cx,r): return isinstance(r,Ptr) and r.rid==cx.thisp.rid and r.inner==cx.thisp.inner
class RUnion(Ret):
    """reference to the scalar stored in the container"""
    def make(s,m,st,cx):
        rid,off=m.gc_loc(st,cx.thisp); m.unfold(st,rid,off)
        c=st.mem[rid].cells[off][1]
        if isinstance(c,Lazy):
            av=c.av; T=m.tag_of(st,av); k=SCAL[T]
            x=av.scal(k)
            if k=='b': st.setcell(rid,off,1,If(bl(x),BitVecVal(1,8),BitVecVal(0,8)))
            elif k=='p': st.setcell(rid,off,8,OPtr(x))
            else: st.setcell(rid,off,4 if k=='i' else 8,x)
        return Ptr(rid,0,off)
    def check(s,m,st,cx,r):
        rid,off=m.gc_loc(st,cx.thisp)
        if isinstance(r,Ptr) and st.mem[r.rid].kind=='arr' and st.mem[r.rid].elt=='v' and r.inner==0:
            m.alive(st,r); r=Ptr(m.focus(st,r.rid,r.idx))
        return isinstance(r,Ptr) and r.rid==rid and r.inner==off
class RPayload(Ret):
    """reference to the owned object (string, complex, vector, matrix, map)"""
    def __init__(s,of=None): s.of=of
    def make(s,m,st,cx):
        T,p,_=m.gc_payload_ptr(st,s.of(m,st,cx) if s.of else cx.thisp)
        return p
    def check(s,m,st,cx,r):
        T,p,_=m.gc_payload_ptr(st,s.of(m,st,cx) if s.of else cx.thisp)
        return isinstance(r,Ptr) and isinstance(p,Ptr) and r.rid==p.rid and r.inner==0 and And_(b64(r.idx)==0)
class RElem(Ret):
    """reference to element i of the owned vector / matrix"""
    def __init__(s,i): s.i=i
    def make(s,m,st,cx):
        T,p,_=m.gc_payload_ptr(st,cx.thisp)
        v=st.mem[p.rid].cells[0][1]
        return m.stl.ref(st,v,s.i)
    def check(s,m,st,cx,r):
        T,p,_=m.gc_payload_ptr(st,cx.thisp)
        v=st.mem[p.rid].cells[0][1]; reg=st.mem[v.rid]
        if isinstance(r,tuple): r=r[0]
        if isinstance(r,BitRef): ok=r.rid==v.rid and r.gen==reg.gen; idx=r.idx
        elif isinstance(r,Ptr):
            ok=(r.rid==v.rid and r.inner==0 and (r.gen is None or r.gen==reg.gen)); idx=r.idx
            if not ok:
                for i,fr in reg.focus:
                    if fr==r.rid and r.inner==0: ok=True; idx=i
        else: return False
        if not ok: return False
        return And_(b64(idx)==b64(s.i),ULT(b64(idx),reg.seq.n))
class RArgElem(Ret):
    """reference to element i of the vector / matrix passed as argument a"""
    def __init__(s,a,i): s.a=a; s.i=i
    def vec(s,m,st,cx):
        b=base_t(cx.types[s.a]); return m.stl.vec(st,cx.ptrs[s.a][0],ELT[re.match(r'^(?:std::vector|mat_type)<(.*)>$',b).group(1)])
    def make(s,m,st,cx): return m.stl.ref(st,s.vec(m,st,cx),s.i)
    def check(s,m,st,cx,r):
        v=s.vec(m,st,cx)
        return isinstance(r,Ptr) and r.rid==v.rid and r.inner==0 and And_(b64(r.idx)==b64(s.i))
class RArgData(RArgElem):
    def __init__(s,a): s.a=a; s.i=0
    def make(s,m,st,cx): v=s.vec(m,st,cx); return Ptr(v.rid,0,0,st.mem[v.rid].gen)
class RData(Ret):
    """pointer to the first element of the owned vector"""
    def make(s,m,st,cx):
        T,p,_=m.gc_payload_ptr(st,cx.thisp); v=st.mem[p.rid].cells[0][1]
        return Ptr(v.rid,0,0,st.mem[v.rid].gen)
    def check(s,m,st,cx,r):
        T,p,_=m.gc_payload_ptr(st,cx.thisp); v=st.mem[p.rid].cells[0][1]
        return isinstance(r,Ptr) and r.rid==v.rid and And_(b64(r.idx)==0)
class RMapVal(Ret):
    """reference to the container stored under key"""
    def __init__(s,key): s.key=key
    def make(s,m,st,cx):
        T,p,_=m.gc_payload_ptr(st,cx.thisp); v=st.mem[p.rid].cells[0][1]
        return Ptr(m.stl.mfocus(st,v.rid,s.key),0,32)
    def check(s,m,st,cx,r):
        T,p,_=m.gc_payload_ptr(st,cx.thisp); v=st.mem[p.rid].cells[0][1]
        if not isinstance(r,Ptr) or r.inner!=32: return False
        for k,fr in st.mem[v.rid].focus:
            if fr==r.rid: return k==s.key
        return False
class SubCtx:
    def __init__(s,cx,p): s.thisp=p; s.sret=cx.sret; s.ptrs=cx.ptrs; s.types=cx.types
class RIn(Ret):
    """location `ret` inside the container stored at `step` = ('e',index) or ('m',key)"""
    def __init__(s,step,ret): s.step=step; s.ret=ret
    def sub(s,m,st,cx):
        T,p,_=m.gc_payload_ptr(st,cx.thisp); v=st.mem[p.rid].cells[0][1]
        if s.step[0]=='e': q=Ptr(v.rid,s.step[1],0,st.mem[v.rid].gen)
        else: q=Ptr(m.stl.mfocus(st,v.rid,s.step[1]),0,32)
        rid,off=m.gc_loc(st,q); return SubCtx(cx,Ptr(rid,0,off))
    def make(s,m,st,cx): return s.ret.make(m,st,s.sub(m,st,cx))
    def check(s,m,st,cx,r): return s.ret.check(m,st,s.sub(m,st,cx),r)
class ROwn(Ret):
    """delegates to .w()"""
    def make(s,m,st,cx): return s.w().make(m,st,cx)
    def check(s,m,st,cx,r): return s.w().check(m,st,cx,r)
class RVec(Ret):
    """std::vector by value (sret) with element kind k"""
    def __init__(s,k,v): s.k=k; s.v=v
    def make(s,m,st,cx):
        d=st.new('arr',elt=s.k,seq=s.v,name='result',own=cx.sret.rid); m.stl.wr(st,cx.sret,40 if s.k=='b' else 24,VecM(s.k,d)); return None
    def check(s,m,st,cx,r):
        v=m.stl.vec(st,cx.sret,s.k); return seq_goal(s.k,m.arr_seq(st,v.rid),s.v)
class RNull(Ret):
    def make(s,m,st,cx): return NULL
    def check(s,m,st,cx,r): return r is NULL
class RAny(Ret):
    def __init__(s,kind=None): s.kind=kind
    def make(s,m,st,cx):
        if s.kind is None: return None
        return fresh_kind(s.kind,'any')
    def check(s,m,st,cx,r): return BoolVal(True)

# ------------------------------------------------------------------ arguments
def base_t(t): return t.replace(' const','').rstrip('&*').strip()
def b64z(x): return ZeroExt(32,x)
class Ctx:
    """abstract view of one call: this (pre value), a[i] (pre values of arguments)"""
    def __init__(s,m,st,types,hasthis): s.m=m; s.st=st; s.types=types; s.hasthis=hasthis; s.cache={}; s.thisp=None; s.sret=None; s.ptrs=[None]*len(types); s._this=None; s.defs=[]; s.defq=[]; s.late=[]; s.hints=[]
    @property
    def this(s):
        if s._this is None: s._this=s.m.gc_get(s.st,s.thisp)
        return s._this
    def first(s,n,pred,when=True,noix=False,grid=None):
        """least j<n with pred(j), or n (definitional extension: it always exists); `when`: the only case in which it matters"""
        j=fresh('first',B64); n=b64(n)
        def mk():
            z=BitVecVal(0,64)
            q=QF(B64,lambda k:Implies(ULT(k,j),Not(bl(pred(k))))); q.noix=noix
            if grid:   # positions k = col*rows+row written as (col,row)
                nr,nc,p2=grid; K=Const('Q!%d'%uid(),B64)
                q=QFN(K,ULT(K,b64z(nc)),QF(B64,lambda i:Implies(And(ULT(i,b64z(nr)),ULT(b64z(f_mul(Extract(31,0,K),nr))+i,j)),Not(bl(p2(K,i))))))
            return [ULE(j,n),Implies(ULT(j,n),bl(pred(j))),Implies(ULT(z,j),Not(bl(pred(z))))],[q]
        if when is True:
            d,q=mk(); s.defs+=d; s.defq+=q
        else: s.late.append((when,mk))
        return j
    def allpairs(s,nr,nc,pred,when=True):
        """truth of: pred(row,col) for all row<nr, col<nc (definitional extension: a mismatch is named by two constants)"""
        b=fresh('all',BoolSort()); wr=fresh('wrow',B32); wc=fresh('wcol',B32)
        def mk():
            K=Const('Q!%d'%uid(),B64); s.hints+=[b64z(wr),b64z(wc)]
            q=QFN(K,And(b,ULT(K,b64z(nc))),QF(B64,lambda i:Implies(ULT(i,b64z(nr)),bl(pred(Extract(31,0,i),Extract(31,0,K))))))
            return [Or(b,And(ULT(wr,nr),ULT(wc,nc),Not(bl(pred(wr,wc)))))],[q]
        if when is True:
            d,q=mk(); s.defs+=d; s.defq+=q
        else: s.late.append((when,mk))
        return b
    def definitions(s,m,st):
        """(facts, quantified facts) of the auxiliary definitions relevant in state st"""
        d=list(s.defs); q=list(s.defq)
        for n,(w,mk) in enumerate(s.late):
            if not m.feasible(st,w): continue
            if callable(mk): mk=mk(); s.late[n]=(w,mk)
            d+=mk[0]; q+=mk[1]
        return d,q
    def a(s,i):
        if i not in s.cache: s.cache[i]=decode(s.m,s.st,s.types[i],s.ptrs[i])
        return s.cache[i]

SCALT={'bool':'b','int':'i','unsigned int':'u32','long':'l','unsigned long':'u64','double':'r','float':'f32','void*':'p','GC_type':'i','TypeAllowed':'i'}
def arrptr(t):
    """element kind of a plain C array argument"""
    mm=re.match(r'^(.*?)( const)?\*$',t)
    if mm and t!='void*' and mm.group(1) in ELT and ELT[mm.group(1)] not in('v','s','b'): return ELT[mm.group(1)]
    return None
def irslots(t):
    if t=='string_view' or t=='std::complex<double>' or t.startswith('std::initializer_list'): return 2
    return 1
def decode(m,st,t,p):
    """abstract value of an argument in state st; p = list of IR values"""
    x=p[0]
    if t in SCALT and not t.endswith('&'):
        k=SCALT[t]
        if k=='b': return bl(m.tobit(x))
        if k=='p': return m.typed(st,x,8,'p')
        if k in('r','f32'): return x
        if isinstance(x,Scaled): x=x.bv()
        return bv(x,KSORT[k].size())
    if t=='std::complex<double>': return (p[0],p[1])
    if t=='string_view': return m.stl.sv(st,p[0],p[1])
    if t=='char const*' or t=='char*': return m.stl.cs(st,x)
    if t.startswith('std::initializer_list<string>'):
        q=m.arr_seq(st,x.rid); return Seq(b64(p[1]),q.get)
    k=arrptr(t)
    if k:
        if not isinstance(x,Ptr) or st.mem[x.rid].kind!='arr' or x.inner!=0 or conc(b64(x.idx))!=0: raise Unsupported('array argument')
        return m.arr_seq(st,x.rid)
    b=base_t(t)
    if b=='GenericContainer': return m.gc_get(st,x)
    if b=='string': return m.stl.gstr(st,x)
    mm=re.match(r'^std::vector<(.*)>$',b)
    if mm: return m.arr_seq(st,m.stl.vec(st,x,ELT[mm.group(1)]).rid)
    mm=re.match(r'^mat_type<(.*)>$',b)
    if mm:
        v=m.stl.vec(st,x,ELT[mm.group(1)]); c=st.mem[x.rid].cells
        return (m.arr_seq(st,v.rid),bv(c[x.inner+24][1],32),bv(c[x.inner+28][1],32))
    if b in SCALT and (t.endswith('&')):
        k=SCALT[b]
        if k=='b': return bl(m.tobit(m.load(st,x,('i',8))))
        if k=='p': return m.typed(st,m.load(st,x,('ptr',)),8,'p')
        v=m.load(st,x,IRT[k]); return v if k in('r','f32') else bv(v,KSORT[k].size())
    if b=='std::complex<double>': return m.stl.cplx(st,x)
    if b=='std::complex<float>': return (m.load(st,x,('fp',32)),m.load(st,Ptr(x.rid,x.idx,x.inner+4,x.gen),('fp',32)))
    if b=='std::ostream' or b=='std::basic_ostream<char>':
        c=m.stl.cell(st,x); return c.v
    raise Unsupported('argument type '+t)
def encode(m,st,t,p,v):
    """write the new abstract value of a reference argument"""
    x=p[0]; b=base_t(t)
    if b=='GenericContainer': m.gc_set(st,x,v); return
    if b=='string': m.stl.sstr(st,x,v); return
    mm=re.match(r'^std::vector<(.*)>$',b)
    if mm: m.stl.put(st,m.stl.vec(st,x,ELT[mm.group(1)]),v); return
    mm=re.match(r'^mat_type<(.*)>$',b)
    if mm:
        m.stl.put(st,m.stl.vec(st,x,ELT[mm.group(1)]),v[0]); st.setcell(x.rid,x.inner+24,4,v[1]); st.setcell(x.rid,x.inner+28,4,v[2]); return
    k=arrptr(t)
    if k: st.upd(x.rid,seq=v); return
    if b in SCALT:
        k=SCALT[b]
        if k=='b': m.store(st,x,('i',8),bv(v,8))
        elif k=='p': m.store(st,x,('ptr',),OPtr(v))
        else: m.store(st,x,IRT[k],v)
        return
    if b=='std::complex<double>':
        m.store(st,x,('fp',64),v[0]); m.store(st,Ptr(x.rid,x.idx,x.inner+8,x.gen),('fp',64),v[1]); return
    if b in('std::ostream','std::basic_ostream<char>'): st.setcell(x.rid,x.inner,8,OstrM(v)); return
    raise Unsupported('write argument '+t)
def argkind(t):
    if t in SCALT: return SCALT[t]
    b=base_t(t)
    if b=='GenericContainer': return 'v'
    if b=='string' or t=='string_view' or b=='char': return 's'
    mm=re.match(r'^std::vector<(.*)>$',b)
    if mm: return ('vec',ELT[mm.group(1)])
    mm=re.match(r'^mat_type<(.*)>$',b)
    if mm: return ('mat',ELT[mm.group(1)])
    if t.startswith('std::initializer_list'): return ('vec','s')
    if arrptr(t): return ('vec',arrptr(t))
    if b in('std::ostream','std::basic_ostream<char>'): return 's'
    if b=='std::complex<double>': return 'c'
    if b=='std::complex<float>': return 'c32'
    return SCALT[b]
def val_goal(t,a,b):
    k=argkind(t)
    if isinstance(k,tuple):
        e=k[1]
        if k[0]=='vec': return seq_goal(e,a,b)
        return Conj(a[1]==b[1],a[2]==b[2],seq_goal(e,a[0],b[0]))
    return val_eq(k,a,b)
def seq_goal(e,a,b):
    if terms.CONCRETE[0]:
        n,m=conc(a.n),conc(b.n)
        if isinstance(n,int) and isinstance(m,int): return Conj(BoolVal(n==m),*([val_eq(e,a.get(BitVecVal(k,64)),b.get(BitVecVal(k,64))) for k in range(n)] if n==m else []))
    return Conj(a.n==b.n,Forall(B64,lambda k:Imp(And_(ULT(k,a.n),ULT(k,b.n)),val_eq(e,a.get(k),b.get(k)))))

def mkarg(m,st,i,t):
    """fresh symbolic argument; returns list of IR values"""
    nm='a%d'%i
    if t in SCALT and not t.endswith('&'):
        k=SCALT[t]
        if k=='b': return [Const(nm,BoolSort())]
        if k=='p': return [OPtr(Const(nm,B64))]
        return [Const(nm,KSORT[k])]
    if t=='std::complex<double>': return [Const(nm+'r',F64),Const(nm+'i',F64)]
    if t=='string_view':
        x=Const(nm,S); return [f_slen(x),Ptr(st.new('strview',s=x,nul=False,name='view'))]
    if t in('char const*','char*'):
        x=Const(nm,S); return [Ptr(st.new('strview',s=x,nul=True,name='cstring'))]
    x=Const(nm,V); av=AVTerm(x)
    if t.startswith('std::initializer_list<string>'):
        rid=st.new('arr',elt='s',seq=av.as_seq('s'),name=nm,ro=True); return [Ptr(rid),f_len(x)]
    mm=re.match(r'^(.*?)( const)?\*$',t)
    if t in('void*',): mm=None
    if mm and mm.group(1) in ELT and ELT[mm.group(1)] not in('v','s','b'):
        # caller-supplied array; its length is av.len()
        k=ELT[mm.group(1)]
        d=st.new('arr',elt=k,seq=av.as_seq(k),name=nm); st.upd(d,ro=bool(mm.group(2)))
        return [Ptr(d)]
    b=base_t(t); ro='const' in t
    if b=='GenericContainer':
        rid=st.cells(16,name=nm); st.setcell(rid,0,16,GCV(av)); st.upd(rid,ro=ro); return [Ptr(rid)]
    if b=='string':
        rid=st.cells(32,name=nm); st.setcell(rid,0,32,StrM(Const(nm,S))); st.upd(rid,ro=ro); return [Ptr(rid)]
    mm=re.match(r'^(std::vector|mat_type)<(.*)>$',b)
    if mm and mm.group(2) in ELT:
        k=ELT[mm.group(2)]
        rid=st.cells(None,name=nm); d=st.new('arr',elt=k,seq=av.as_seq(k),name=nm,own=rid)
        st.setcell(rid,0,40 if k=='b' else 24,VecM(k,d))
        if mm.group(1)=='mat_type':
            T=[q for q,kk in MAT.items() if kk==k][0]
            st.assume(av.tag()==T); st.setcell(rid,24,4,av.rows()); st.setcell(rid,28,4,av.cols())
            st.pc.append(ULE(f_len(x),MAXLEN))
        if ro: st.upd(rid,ro=True); st.upd(d,ro=True)
        return [Ptr(rid)]
    if b in SCALT and t.endswith('&'):
        k=SCALT[b]; rid=st.cells(8,name=nm)
        if k=='b': st.setcell(rid,0,1,If(Const(nm,BoolSort()),BitVecVal(1,8),BitVecVal(0,8)))
        elif k=='p': st.setcell(rid,0,8,OPtr(Const(nm,B64)))
        else: st.setcell(rid,0,ELTSIZE[k],Const(nm,KSORT[k]))
        st.upd(rid,ro=ro); return [Ptr(rid)]
    if b=='std::complex<float>':
        rid=st.cells(8,name=nm); st.setcell(rid,0,4,Const(nm+'r',F32)); st.setcell(rid,4,4,Const(nm+'i',F32)); st.upd(rid,ro=ro); return [Ptr(rid)]
    if b=='std::complex<double>':
        rid=st.cells(16,name=nm); st.setcell(rid,0,8,Const(nm+'r',F64)); st.setcell(rid,8,8,Const(nm+'i',F64)); st.upd(rid,ro=ro); return [Ptr(rid)]
    if b in('std::ostream','std::basic_ostream<char>'):
        rid=st.cells(None,name=nm); st.setcell(rid,0,8,OstrM(Const(nm,S))); return [Ptr(rid)]
    raise Unsupported('cannot build argument '+t)

class Contract:
    def __init__(s,name,spec,props=(),inline=False,inline_in=None,pre=None,alias=None,variants=None,types=None,hasthis=None,group='',callspec=None,static=False,weak=(),call=None,ctor=False,dtor=False,noreplay=False,pool=None,bounded=None,internal=None,nenum=None,prep=None,applyfn=None):
        s.applyfn=applyfn;        s.prep=prep
        s.name=name; s.spec=spec; s.props=set(props); s.inline=inline; s.inline_in=inline_in; s.pre=pre; s.alias=alias; s.group=group
        s.types=split_args(name) if types is None else types
        q=name.split('(')[0] if 'operator()' not in name else name
        s.hasthis=bool(re.search(r'(^|[ &*])GenericContainer::',name)) if hasthis is None else hasthis
        if static: s.hasthis=False
        s.callspec=callspec; s.weak=weak; s._variants=variants or [None]
        s.call=call; s.ctor=ctor; s.dtor=dtor; s.noreplay=noreplay; s.pool=pool; s.bounded=bounded; s.nenum=nenum
        s.internal=bool(re.search(r'::(allocate_\w+|ck|ck_or_set)\(|^isInteger|^to_string\(std::complex',name)) if internal is None else internal
    def isnote(s,i):
        """a trailing string_view that is only quoted in error messages"""
        return s.types[i]=='string_view' and i==len(s.types)-1 and not s.keyargs(i)
    def keyargs(s,i): return bool(re.search(r'(set_string|exists|operator\[\]|operator\(\)|erase|get_map_\w+|::set|operator=|get_if_exists|ck_key|push_string)\(string_view\)',s.name)) or bool(re.search(r'(find|must_exists)',s.name) and i==0)
    def variants(s): return s._variants
    def cost(s,v):
        """scheduling hint: start the slow ones first"""
        if 'compare_content' in s.name: return 3 if v and v[1] in MAT else 1
        return 2 if 'copyto_' in s.name else 0
    # ---------------------------------------------------------------- application at a call site
    def ctx(s,m,st,args):
        cx=Ctx(m,st,s.types,s.hasthis)
        a=list(args)
        n=sum(irslots(t) for t in s.types)+(1 if s.hasthis else 0)
        if len(a)==n+1: cx.sret=a.pop(0)
        if s.hasthis: cx.thisp=a.pop(0)
        for i,t in enumerate(s.types):
            k=irslots(t); cx.ptrs[i]=a[:k]; a=a[k:]
        return cx
    def apply(s,m,st,args):
        if s.applyfn: return s.applyfn(s,m,st,args)
        cx=s.ctx(m,st,args)
        if s.pre:
            for lbl,g in s.pre(cx): m.oblige(st,g,'precondition','precondition of %s: %s'%(s.name,lbl))
        cases=[c for c in (s.callspec or s.spec)(cx)]
        ds,dq=cx.definitions(m,st); st.idx.extend(cx.hints)
        for d in ds: st.assume(d)
        st.qf.extend(dq)
        outs=[]
        live=[]
        for c in cases:
            t=tobool(c.guard)
            if t is False: continue
            if t is not True and not m.feasible(st,t): continue
            live.append((c,t))
        if not live: raise PathDead()
        for c,t in live:
            n=st if len(live)==1 else st.copy()
            try:
                if t is not True: n.assume(t)
                cx2=s.ctx(m,n,args)
                if c.this is ANY:
                    m.gc_set(n,cx2.thisp,AVTerm(fresh('any',V)))
                elif isinstance(c.this,AnyScal): m.gc_set(n,cx2.thisp,c.this.make())
                elif isinstance(c.this,Post): m.gc_set(n,cx2.thisp,c.this.fn(None))
                elif c.this is not None and c.keep: m.gc_update(n,cx2.thisp,c.this)
                elif c.this is not None: m.gc_set(n,cx2.thisp,c.this)
                for i,v in c.eff.items():
                    if v is ANY: v=fresh_arg(s.types[i])
                    encode(m,n,s.types[i],cx2.ptrs[i],v)
                if c.out=='throw': outs.append((n,'throw',RUNTIME))
                else:
                    r=c.ret.make(m,n,cx2) if c.ret is not None else None
                    outs.append((n,'ret',r))
            except PathDead: continue
        return Outcomes(outs)
    # ---------------------------------------------------------------- verification of the body
    def start(s,m,f,variant=None):
        st=State(); cx=Ctx(m,st,s.types,s.hasthis); args=[]
        if f.sret:
            rid=st.cells(None,name='result',kind='stack'); cx.sret=Ptr(rid); args.append(cx.sret)
        part=variant[1] if variant and variant[0]=='part' else ''
        def inside(p):
            T=19 if part[0]=='e' else 20
            rid,off=m.gc_loc(st,p); av=m.gc_av(st,rid,off); st.assume(av.tag()==T)
            _,pay,_=m.gc_payload_ptr(st,p); v=st.mem[pay.rid].cells[0][1]
            if T==19:
                j=Const('part',B64); st.assume(ULT(j,av.len())); return Ptr(v.rid,j,0,st.mem[v.rid].gen)
            k=Const('partk',S); st.assume(av.has(k)); return Ptr(m.stl.mfocus(st,v.rid,k),0,32)
        if part.endswith('out'):
            cx.ptrs[0]=mkarg(m,st,0,s.types[0].replace(' const','')); cx.thisp=inside(cx.ptrs[0][0]); args+=[cx.thisp]+cx.ptrs[0]
        elif s.hasthis:
            rid=st.cells(16,name='this')
            if not s.ctor: st.setcell(rid,0,16,GCV(AVTerm(Const('this',V))))
            cx.thisp=Ptr(rid); args.append(cx.thisp)
        if variant and variant[0]=='tag': st.assume(AVTerm(Const('this',V)).tag()==variant[1]) if variant[1]>=0 else st.assume(AVTerm(Const('this',V)).tag()!=-variant[1])
        for i,t in enumerate(s.types):
            if variant and variant[0]=='alias' and variant[1]==i: p=[cx.thisp]
            elif i==0 and part.endswith('out'): continue
            elif i==0 and part: p=[inside(cx.thisp)]
            else: p=mkarg(m,st,i,t)
            cx.ptrs[i]=p; args+=p
        return st,cx,args
    def verify(s,m,f,variant=None):
        """returns list of Violation (also in m.viol)"""
        m.cur=s.name; m.curvar=variant
        if s.bounded and variant in s.bounded: raise Unsupported(s.bounded[variant])
        st,cx,args=s.start(m,f,variant)
        pre=st.copy(); pcx=Ctx(m,pre,s.types,s.hasthis); pcx.thisp=cx.thisp; pcx.ptrs=cx.ptrs; pcx.sret=cx.sret
        if s.pre:
            for lbl,g in s.pre(pcx): st.assume(g); pre.assume(g)
        if s.prep:       # definitions of ghost functions for the values at hand
            for g in s.prep(m,pcx,st): st.assume(g); pre.assume(g)
        # pre-state abstract values, evaluated once
        prevals={}
        m.push(st,f,args)
        outs=m.run(st,0)
        cases=list(s.spec(pcx))
        for k,q in outs:
            ds,dq=pcx.definitions(m,q); q.idx.extend(pcx.hints)
            for d in ds:
                d=tobool(d)
                if d is not True: q.pc.append(bl(d))
            q.qf.extend(dq)
        for i,t in enumerate(s.types):
            if i==0 and variant and variant[0]=='part': continue     # the argument changes along with the object
            if t not in SCALT and (t.endswith('&') or t.endswith('*')):
                try: prevals[i]=decode(m,pre.copy(),t,cx.ptrs[i])
                except Unsupported: pass
        work=[(k,q) for k,q in outs]; n=0; s.npaths=len(outs)
        while work:
            k,q=work.pop(); n+=1
            if n>4000: raise Unsupported('too many result states')
            snap=q.copy()
            try: s.check_path(m,k,q,cx,pcx,cases,prevals,f)
            except Split as e:
                for c in e.conds:
                    z=snap.copy()
                    try: z.assume(c)
                    except PathDead: continue
                    work.append((k,z))
            except PathDead: continue
        return m.viol
    def check_path(s,m,k,q,cx,pcx,cases,prevals,f):
        out='ret' if k=='ret' else 'throw'
        # everything that may Split first (re-executed from the snapshot)
        post=None
        alive=s.hasthis and not s.dtor and not (s.ctor and out=='throw')
        if alive: post=m.gc_get(q,cx.thisp)
        posts={}
        for i,t in enumerate(s.types):
            if i in prevals: posts[i]=decode(m,q,t,cx.ptrs[i])
        m.settle_tags(q)
        any_live=False
        goals=[]
        for r,av in getattr(m,'walkv',{}).items():
            if r in q.mem: goals.append(('walk',[],Eq(m.gc_get(q,Ptr(r)),av),'container reached through the keys is not changed'))
        if s.dtor:
            # nothing may still be owned by the destroyed object
            r=q.mem[cx.thisp.rid]; c0=r.cells.get(cx.thisp.inner)
            if c0 and isinstance(c0[1],(GCV,Lazy)): goals.append(('leak',[],ULT(c0[1].av.tag(),BitVecVal(6,32)),'the destroyed container still owns storage'))
            q.upd(cx.thisp.rid,kind='stack')
        # an allowed outcome must exist
        for ci,c in enumerate(cases):
            t=tobool(c.guard)
            if t is False: continue
            if t is not True and not m.feasible(q,t): continue
            any_live=True
            lab='case%d%s'%(ci,'('+c.note+')' if c.note else '')
            if c.out!=out and c.out!='either':
                goals.append((lab+':outcome',[c.guard],BoolVal(False),'%s where the contract requires %s'%('returns normally' if out=='ret' else 'throws','an exception' if c.out=='throw' else 'a normal return')))
                continue
            if alive and c.this is not ANY:
                exp=c.this if c.this is not None else pcx.this
                if isinstance(exp,Post): exp=exp.fn(post)
                if isinstance(exp,AnyScal):
                    goals.append((lab+':this',[c.guard],post.tag()==exp.T,'container type after the call')); exp=None
            if alive and c.this is not ANY and exp is not None:
                goals.append((lab+':this',[c.guard],Eq(post,exp),'container value after the call'))
            if alive and c.keep:
                goals.append((lab+':storage',[c.guard],BoolVal(same_object(m,q,cx.thisp,pcx.this)),'the owned map object is not replaced'))
            for i,v in posts.items():
                e=c.eff.get(i,prevals[i])
                if e is ANY: continue
                if callable(e): goals.append((lab+':arg%d'%i,[c.guard],e(v),'argument %d after the call'%i)); continue
                goals.append((lab+':arg%d'%i,[c.guard],val_goal(s.types[i],v,e),'argument %d after the call'%i))
            if out=='ret' and c.ret is not None:
                g=c.ret.check(m,q,cx,q.retval)
                goals.append((lab+':result',[c.guard],g,'returned value'))
        if not any_live:
            goals.append(('uncovered',[],BoolVal(False),'no contract case applies'))
        lk=m.leaks(q,[x for x in [cx.sret,q.retval]+(list(q.exc[:1]) if q.exc else []) if isinstance(x,Ptr)],final=True)
        sh=m.shared(q)
        m.obl_count('shared-ownership',s.name,q)
        if sh:
            r,mod=check_sat(q.pc,q.qf,timeout=m.tmo)
            if r!='unsat': m.viol.append(Violation('shared-ownership',s.name,m.line(q),'two live containers own the same storage',q,[],mod,r,name='shared-ownership'))
        m.obl_count('leak',s.name,q)
        if lk: 
            r,mod=check_sat(q.pc,q.qf,timeout=m.tmo)
            if r!='unsat': m.viol.append(Violation('leak',s.name,m.line(q),'storage %s is no longer reachable and was not released'%','.join(x.name for x in lk),q,[],mod,r,name='leak'))
        for lab,h,g,desc in goals:
            fl=[]
            try: flatten(g,list(h),fl,0,lab)
            except RecursionError: raise Unsupported('deep equality')
            if not fl: m.obl.append((s.name,'post',lab,None)); continue
            for hy,con,name in fl:
                m.obl.append((s.name,'post',name,None))
                r,mod=check_sat(q.pc+hy+[Not(con)],q.qf,timeout=m.tmo,extra_idx=q.idx)
                if r=='unsat': continue
                m.viol.append(Violation('leak' if lab=='leak' else 'post',s.name,None,'%s: %s'%(name,desc),q,hy+[Not(con)],mod,r,name=re.sub(r'case\d+','case',name)))
def same_object(m,q,p,av):
    rid,off=m.gc_loc(q,p); c=q.mem[rid].cells[off][1]
    if isinstance(c,(GCV,Lazy)): return isinstance(c.av,AVTerm) and isinstance(av,AVTerm) and c.av.t.eq(av.t)
    return isinstance(c,Ptr) and isinstance(av,AVTerm) and q.mem[c.rid].orig is not None and q.mem[c.rid].orig.eq(av.t)
def fresh_arg(t):
    k=argkind(t)
    if isinstance(k,tuple):
        v=AVTerm(fresh('anyv',V))
        if k[0]=='vec': return v.as_seq(k[1])
        return (v.as_seq(k[1]),v.rows(),v.cols())
    return fresh_kind(k,'any')

REG={}
def contract(name,spec,**k):
    c=Contract(name,spec,**k); REG[name]=c; return c
