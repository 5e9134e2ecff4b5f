"""Symbolic machine: memory, frames, instruction semantics, forking. STL behaviour comes from stl.py, callee behaviour from contracts."""
import z3, sys
from .terms import *
from . import irparse

class Unsupported(Exception): pass
class PathDead(Exception): pass
class Split(Exception):
    def __init__(s,conds): s.conds=conds

# ------------------------------------------------------------------ values
class Ptr:
    __slots__=('rid','idx','inner','gen')
    def __init__(s,rid,idx=0,inner=0,gen=None): s.rid=rid; s.idx=idx; s.inner=inner; s.gen=gen
    def __repr__(s): return 'Ptr(%s,%s,%s)'%(s.rid,s.idx,s.inner)
    def subst(s,m): return Ptr(s.rid,subst(s.idx,m),s.inner,s.gen)
class NullT:
    def __repr__(s): return 'NULL'
    def subst(s,m): return s
NULL=NullT()
class Raw:
    """8-byte copy of a container's union, whatever member is active"""
    def __init__(s,size,v): s.size=size; s.v=v
    def subst(s,m): return Raw(s.size,subst(s.v,m))
class OPtr:
    """opaque (user supplied / stored) pointer value"""
    __slots__=('t',)
    def __init__(s,t): s.t=t
    def subst(s,m): return OPtr(subst(s.t,m))
class FPtr:
    def __init__(s,n): s.name=n
    def subst(s,m): return s
class MapIt:
    __slots__=('rid','pos','key','gen')
    def __init__(s,rid,pos,key,gen): s.rid=rid; s.pos=pos; s.key=key; s.gen=gen
    def subst(s,m): return MapIt(s.rid,subst(s.pos,m),subst(s.key,m),s.gen)
class BitRef:
    """vector<bool> reference / iterator position"""
    __slots__=('rid','idx','gen')
    def __init__(s,rid,idx,gen): s.rid=rid; s.idx=idx; s.gen=gen
    def subst(s,m): return BitRef(s.rid,subst(s.idx,m),s.gen)
class PInt:
    def __init__(s,p): s.p=p
    def subst(s,m): return PInt(subst(s.p,m))
class Scaled:
    def __init__(s,t,k): s.t=t; s.k=k
    def bv(s): return b64(s.t)*s.k
    def subst(s,m): return Scaled(subst(s.t,m),s.k)
class Undef:
    def __repr__(s): return 'undef'
    def subst(s,m): return s
UNDEF=Undef()
# ---- models held in cells
class VecM:
    def __init__(s,elt,rid): s.elt=elt; s.rid=rid
    def subst(s,m): return s
class StrM:
    def __init__(s,v): s.v=v
    def subst(s,m): return StrM(subst(s.v,m))
class MapM:
    def __init__(s,rid): s.rid=rid
    def subst(s,m): return s
class OstrM:
    def __init__(s,v): s.v=v
    def subst(s,m): return OstrM(subst(s.v,m))
class GCV:
    """abstract GenericContainer cell (16 bytes)"""
    def __init__(s,av): s.av=av
    def subst(s,m): return GCV(subst(s.av,m))
class Lazy:
    """payload of an abstract container, not materialised (object identity = identity of the owned storage)"""
    def __init__(s,av): s.av=av; s.shared=False
    def subst(s,m): return Lazy(subst(s.av,m))
class ExcM:
    def __init__(s,ty,msg=None): s.ty=ty; s.msg=msg
    def subst(s,m): return s
class Opaque:
    def __init__(s,w): s.w=w
    def subst(s,m): return s

class Region:
    __slots__=('rid','kind','alive','cells','elt','seq','focus','gen','name','size','heap','s','nul','mapc','ro','tracked','own','orig')
    def __init__(r,rid,kind,**k):
        r.rid=rid; r.kind=kind; r.alive=True; r.cells=None; r.elt=None; r.seq=None; r.focus=(); r.gen=0; r.name=''
        r.size=None; r.heap=False; r.s=None; r.nul=True; r.mapc=None; r.ro=False; r.tracked=False; r.own=None; r.orig=None
        for a,b in k.items(): setattr(r,a,b)
    def with_(r,**k):
        n=Region.__new__(Region)
        for a in Region.__slots__: setattr(n,a,getattr(r,a))
        for a,b in k.items(): setattr(n,a,b)
        return n

class Frame:
    __slots__=('f','regs','block','prev','ip','dst','inv','depth','line','loopcnt')
    def copy(s):
        n=Frame.__new__(Frame)
        n.f=s.f; n.regs=dict(s.regs); n.block=s.block; n.prev=s.prev; n.ip=s.ip; n.dst=s.dst; n.inv=s.inv; n.depth=s.depth; n.line=s.line; n.loopcnt=s.loopcnt
        return n

class State:
    def __init__(s):
        s.mem={}; s.pc=[]; s.qf=[]; s.frames=[]; s.exc=None; s.known={}; s.caught=[]; s.ghost={}; s.unwinding=False; s.retval=None; s.trace=[]; s.idx=[]
        s.inst=[]; s.lem=frozenset()
    def copy(s):
        n=State.__new__(State)
        n.mem=dict(s.mem); n.pc=list(s.pc); n.qf=list(s.qf); n.frames=[f.copy() for f in s.frames]; n.exc=s.exc; n.known=dict(s.known)
        n.caught=list(s.caught); n.ghost=dict(s.ghost); n.unwinding=s.unwinding; n.retval=s.retval; n.trace=list(s.trace); n.idx=list(s.idx); n.inst=list(s.inst); n.lem=s.lem
        return n
    def assume(s,c):
        c=tobool(bl(c))
        if c is True: return
        if c is False: raise PathDead()
        s._assume(c)
    def _assume(s,c):
        if z3.is_and(c):
            for x in c.children(): s._assume(x)
            return
        s.pc.append(c)
        if z3.is_eq(c):
            a,b=c.children()
            if z3.is_bv_value(b): s.known[a.get_id()]=(a,b.as_long())
            elif z3.is_bv_value(a): s.known[b.get_id()]=(b,a.as_long())
    def val(s,t):
        """python int if the term is known on this path"""
        if isinstance(t,int): return t
        t=conc(t)
        if isinstance(t,int): return t
        k=s.known.get(t.get_id())
        return k[1] if k else t
    def new(self,kind,**k):
        s=self
        rid=uid(); s.mem[rid]=Region(rid,kind,**k); return rid
    def cells(s,size=None,heap=False,name='',kind='cells'):
        return s.new(kind,cells={},size=size,heap=heap,name=name)
    def upd(s,rid,**k): s.mem[rid]=s.mem[rid].with_(**k)
    def setcell(s,rid,off,size,v):
        r=s.mem[rid]; c=dict(r.cells)
        # remove overlaps
        for o in [o for o,(sz,_) in c.items() if o<off+size and off<o+sz]: del c[o]
        c[off]=(size,v); s.mem[rid]=r.with_(cells=c)

MODEL_SIZE={'vec':24,'vecb':40,'str':32,'map':48}

class Violation:
    def __init__(s,kind,func,line,msg,st,extra,model,status,name=None):
        s.kind=kind; s.func=func; s.line=line; s.msg=msg; s.st=st; s.extra=extra; s.model=model; s.status=status; s.name=name
    def key(s): return (s.func,s.kind,s.name or s.msg,s.line)

class Machine:
    def __init__(s,mod,contracts=None,stl=None):
        s.mod=mod; s.contracts=contracts or {}; s.viol=[]; s.limits=[]; s.obl=[]; s.covered=set()
        s.globals={}; s.fuel=200000; s.cur=None; s.inlined=set(); s.used_contracts=set(); s.used_models=set()
        s.max_paths=4000; s.tmo=8000
        from . import stl as stlmod
        s.stl=stlmod.STL(s)
        s.typeids={}
        s.quiet=0
    # ---------------------------------------------------------------- obligations
    def line(s,st):
        for fr in reversed(st.frames):
            if fr.line: return fr.line
        return None
    def oblige(s,st,cond,kind,msg,assume=True):
        """obligation: pc |= cond ; reports and then assumes it"""
        c=tobool(bl(cond))
        fn=st.frames[-1].f.demangled if st.frames else '?'
        if s.quiet==0: s.obl_count(kind,fn,st)
        if c is True: return
        if s.quiet and c is not False:
            # exploratory run of a loop body: assumed here, checked when the body is run from the final closed form
            if assume:
                k=len(st.pc); st.assume(c); st.lem=st.lem|({x.get_id() for x in st.pc[k:]}-{x.get_id() for x in st.pc[:k]})
            return
        res,model=check_sat(st.pc+[Not(bl(c))],st.qf,timeout=s.tmo,extra_idx=st.idx)
        if res!='unsat':
            if s.quiet==0: s.viol.append(Violation(kind,s.cur,s.line(st),msg,st.copy(),[Not(bl(c))],model,res,name=kind))
            else: s.qfail.append((kind,msg))
            if c is False: raise PathDead()
        if assume:
            k=len(st.pc); st.assume(c)
            if res=='unsat': st.lem=st.lem|({x.get_id() for x in st.pc[k:]}-{x.get_id() for x in st.pc[:k]})     # consequences of the path: left out of loop facts
    def obl_count(s,kind,fn,st):
        s.obl.append((s.cur,kind,fn,s.line(st)))
    def fail(s,st,kind,msg):
        if s.quiet==0: s.obl_count(kind,'',st)
        res,model=check_sat(st.pc,st.qf,timeout=s.tmo,extra_idx=st.idx)
        if res!='unsat':
            if s.quiet==0: s.viol.append(Violation(kind,s.cur,s.line(st),msg,st.copy(),[],model,res,name=kind))
            else: s.qfail.append((kind,msg))
        raise PathDead()
    def feasible(s,st,c,full=False):
        c=tobool(bl(c))
        if c is True: return True
        if c is False: return False
        r,_=check_sat(st.pc+[c],st.qf,timeout=3000,rounds=2,exact=False,nested=False,staged=False,defs=full)
        return r!='unsat'
    def valid(s,st,c):
        c=tobool(bl(c))
        if isinstance(c,bool): return c
        r,_=check_sat(st.pc+[Not(c)],st.qf,timeout=s.tmo,extra_idx=st.idx,exact=False,nested=False)
        return r=='unsat'
    def decide(s,st,c):
        """python bool if c decided on this path, else Split"""
        c=tobool(bl(c))
        if isinstance(c,bool): return c
        a=s.feasible(st,c); b=s.feasible(st,Not(c))
        if a and b: raise Split([c,Not(c)])
        if not a and not b: raise PathDead()
        return a
    def tag_of(s,st,av):
        if isinstance(av,AVRec): return av.T
        t=st.val(av.tag())
        if isinstance(t,int): return t
        cs=[t==BitVecVal(i,32) for i in range(21)]
        ok=[c for c in cs if s.feasible(st,c)]
        if len(ok)==1:
            st.assume(ok[0]); return st.val(av.tag())
        if not ok: raise PathDead()
        raise Split(ok)
    # ---------------------------------------------------------------- containers
    def mat_payload(s,st,av,T):
        """materialise the payload object of an abstract container with tag T; returns Ptr"""
        k=SCAL.get(T)
        if k=='c':
            rid=st.cells(16,heap=True,name='complex'); re,im=av.scal('c')
            st.setcell(rid,0,8,re); st.setcell(rid,8,8,im)
        elif k=='s':
            rid=st.cells(32,heap=True,name='string'); st.setcell(rid,0,32,StrM(av.scal('s')))
        elif T in VEC or T in MAT:
            k=VEC.get(T) or MAT[T]
            rid=st.cells(None,heap=True,name=NAMES[T])
            d=st.new('arr',elt=k,seq=(av.seq() if isinstance(av,AVRec) else av.as_seq(k)))
            st.upd(d,own=rid)
            st.setcell(rid,0,40 if k=='b' else 24,VecM(k,d))
            if T in MAT:
                st.setcell(rid,24,4,av.rows()); st.setcell(rid,28,4,av.cols())
        elif T==20:
            rid=st.cells(48,heap=True,name='map')
            d=st.new('map',mapc=av.as_map())
            st.upd(d,own=rid)
            st.setcell(rid,0,48,MapM(d))
        else: raise Unsupported('payload of tag %d'%T)
        st.upd(rid,tracked=True,orig=av.t if isinstance(av,AVTerm) else None)
        return Ptr(rid)
    def gc_loc(s,st,p):
        """canonical cell location (rid,off) of a GC pointer; focuses vector elements"""
        if p is NULL or isinstance(p,(OPtr,)): s.fail(st,'null-deref','container pointer is null/opaque')
        if not isinstance(p,Ptr): raise Unsupported('gc ptr %r'%(p,))
        r=st.mem[p.rid]
        s.alive(st,p)
        if r.kind=='arr':
            if r.elt!='v' or p.inner!=0: s.fail(st,'type-confusion','element of vector<%s> used as container'%r.elt)
            rid=s.focus(st,p.rid,p.idx); return rid,0
        return p.rid,p.inner
    def alive(s,st,p):
        r=st.mem.get(p.rid)
        if r is None: raise Unsupported('unknown region')
        if r.kind=='detached': raise Unsupported('access to a folded object')
        if not r.alive: s.fail(st,'use-after-free','access to released storage %s'%r.name)
        if p.gen is not None and p.gen!=r.gen: s.fail(st,'dangling','access through an invalidated reference (%s reallocated)'%r.name)
    def focus(s,st,rid,idx,need=True):
        r=st.mem[rid]
        idx=st.val(idx)
        for i,fr in r.focus:
            a,b=b64(i),b64(idx)
            if a.eq(b): return fr
            c=tobool(a==b)
            if c is True: return fr
            if c is False: continue
            if s.decide(st,c): return fr
        if not need: return None
        s.oblige(st,ULT(b64(idx),r.seq.n),'out-of-bounds','vector element index within size')
        r=st.mem[rid]
        fr=st.cells(16,name='element',kind='elem'); st.setcell(fr,0,16,GCV(r.seq.get(idx)))
        st.upd(rid,focus=r.focus+((idx,fr),))
        return fr
    def arr_seq(s,st,rid):
        """current contents with focused elements folded (non destructive)"""
        r=st.mem[rid]; q=r.seq
        for i,fr in r.focus: q=q.store(b64(i),s.gc_av(st,fr,0))
        return q
    def map_c(s,st,rid):
        r=st.mem[rid]; m=r.mapc
        for k,fr in r.focus: m=m.setval(k,s.gc_av(st,fr,32))
        return m
    def unfold(s,st,rid,off):
        r=st.mem[rid]; c=r.cells.get(off)
        if c and isinstance(c[1],GCV):
            av=c[1].av
            cc=dict(r.cells); del cc[off]
            cc[off]=(8,Lazy(av)); cc[off+8]=(4,av.tag())
            st.mem[rid]=r.with_(cells=cc)
    def gc_av(s,st,rid,off):
        """abstract value of the container stored at (rid,off) -- no mutation (may Split)"""
        r=st.mem[rid]
        if not r.alive: s.fail(st,'use-after-free','container storage released')
        c=r.cells.get(off)
        if c is None:
            t=r.cells.get(off+8)
            if t is not None and t[0]==4 and t[1] is not UNDEF and st.val(t[1])==0: return NOTYPE   # the union of an untyped container is never set
            s.fail(st,'uninitialised','container never constructed')
        if isinstance(c[1],GCV): return c[1].av
        t=r.cells.get(off+8)
        if t is None: s.fail(st,'uninitialised','container type tag never set')
        t=t[1]; pay=c[1]
        if isinstance(pay,Lazy):
            same = isinstance(t,int)==False and is_expr(t) and t.eq(pay.av.tag())
            if same: return pay.av
        T=st.val(t)
        if not isinstance(T,int):
            cs=[T==BitVecVal(i,32) for i in range(21)]
            ok=[x for x in cs if s.feasible(st,x)]
            if not ok: raise PathDead()
            bad=And_(*[Not(x) for x in cs])
            if s.feasible(st,bad): s.oblige(st,Not(bad),'type-invariant','type tag in range')
            if len(ok)>1: raise Split(ok)
            st.assume(ok[0]); T=st.val(t)
        if T>20: s.fail(st,'type-invariant','type tag %d out of range'%T)
        if T==0: return NOTYPE
        if isinstance(pay,Lazy):
            T0=s.tag_of(st,pay.av)
            if T0==T: return pay.av
            if T0==0 and T<6: return AVRec(T,fresh_kind(SCAL[T],'unspec'))
            if T0 not in(0,) and (T0>=6 or T>=6): s.fail(st,'type-invariant','tag %s but payload is %s'%(NAMES[T],NAMES[T0]))
            s.fail(st,'type-invariant','tag %s but payload is %s'%(NAMES[T],NAMES[T0]))
        if T in SCAL and T<6:
            k=SCAL[T]
            v=s.typed(st,pay,c[0],k)
            return AVRec(T,v)
        if not isinstance(pay,Ptr): s.fail(st,'type-invariant','tag %s but payload pointer is %r'%(NAMES[T],pay))
        return AVRec(T,s.payload(st,pay,T))
    def typed(s,st,v,size,k):
        def bad(): s.fail(st,'type-invariant','payload does not match the type tag (%s)'%k)
        if k=='p':
            if v is NULL: return BitVecVal(0,64)
            if isinstance(v,OPtr): return v.t
            if isinstance(v,Ptr):
                return z3.BitVec('addr_%s'%v.rid,64)
            bad()
        if v is UNDEF or isinstance(v,(Ptr,OPtr,NullT)): bad()
        if k=='b':
            if size!=1: bad()
            return s.tobit(v)
        w={'i':4,'l':8,'r':8}[k]
        if size!=w: bad()
        if k=='r':
            if not (is_expr(v) and z3.is_fp(v)): bad()
            return v
        if is_expr(v) and z3.is_fp(v): bad()
        return bv(v,w*8)
    def tobit(s,v):
        if isinstance(v,bool): return BoolVal(v)
        if isinstance(v,int): return BoolVal(v&1==1)
        if isinstance(v,z3.BoolRef): return v
        return simp(Extract(0,0,v)==1)
    def payload(s,st,p,T):
        if p.inner!=0 or conc(b64(p.idx))!=0: s.fail(st,'type-invariant','payload pointer is not an object start')
        r=st.mem[p.rid]
        if not r.alive: s.fail(st,'use-after-free','container owns released storage')
        if not r.heap: s.fail(st,'type-invariant','payload is not owned heap storage')
        k=SCAL.get(T)
        def cell(off): 
            c=r.cells.get(off)
            return c[1] if c else None
        if k=='c':
            a,b=cell(0),cell(8)
            if not (is_expr(a) and z3.is_fp(a) and is_expr(b) and z3.is_fp(b)): s.fail(st,'type-invariant','tag COMPLEX but payload is not a complex')
            return (a,b)
        if k=='s':
            if not isinstance(cell(0),StrM): s.fail(st,'type-invariant','tag STRING but payload is not a string')
            return cell(0).v
        if T in VEC or T in MAT:
            k=VEC.get(T) or MAT[T]
            v=cell(0)
            ismat=24 in r.cells
            if not isinstance(v,VecM) or v.elt!=k or (T in MAT)!=ismat:
                s.fail(st,'type-invariant','tag %s but payload is %s%s'%(NAMES[T],'matrix ' if ismat else '',getattr(v,'elt',v)))
            q=s.arr_seq(st,v.rid)
            if T in MAT: return (q,bv(cell(24),32),bv(cell(28),32))
            return q
        if T==20:
            if not isinstance(cell(0),MapM): s.fail(st,'type-invariant','tag MAP but payload is not a map')
            return s.map_c(st,cell(0).rid)
        raise Unsupported('payload %d'%T)
    def gc_get(s,st,p):
        if isinstance(p,Ptr) and st.mem[p.rid].kind=='arr':
            s.alive(st,p)
            r=st.mem[p.rid]
            if r.elt!='v' or p.inner!=0: s.fail(st,'type-confusion','element of vector<%s> used as container'%r.elt)
            s.oblige(st,ULT(b64(p.idx),r.seq.n),'out-of-bounds','vector element index within size')
            fr=s.focus(st,p.rid,p.idx,need=False)
            if fr is None: return st.mem[p.rid].seq.get(p.idx)
            return s.gc_av(st,fr,0)
        rid,off=s.gc_loc(st,p)
        return s.gc_av(st,rid,off)
    def gc_release(s,st,rid,off):
        """storage owned by the container at (rid,off) is given up to a callee that will free/reuse it"""
        r=st.mem[rid]; c=r.cells.get(off)
        if c is None or isinstance(c[1],GCV): return
        if isinstance(c[1],Lazy) and c[1].shared:
            d=st.cells(8,name='released payload'); st.upd(d,alive=False); s.settle(st,c[1],Ptr(d))
        if isinstance(c[1],Ptr):
            t=st.val(r.cells[off+8][1])
            if isinstance(t,int) and t==0: return   # tag NOTYPE: callee does not own it
            s.kill_payload(st,c[1].rid)
    def kill_payload(s,st,rid):
        r=st.mem[rid]
        if not r.alive: return
        st.upd(rid,alive=False)
        for sz,v in r.cells.values():
            if isinstance(v,(VecM,MapM)) and v.rid in st.mem:
                for _,fr in st.mem[v.rid].focus:
                    f=st.mem[fr]; st.upd(fr,alive=False)
                    for _,w in (f.cells or {}).values():
                        if isinstance(w,Ptr) and w.rid in st.mem and st.mem[w.rid].heap: s.kill_payload(st,w.rid)
                st.upd(v.rid,alive=False)
    def gc_update(s,st,p,av):
        """new value of a container whose owned map object stays in place (nodes and iterators remain valid)"""
        T,pay,(rid,off)=s.gc_payload_ptr(st,p)
        if T!=20: return s.gc_set(st,p,av)
        v=st.mem[pay.rid].cells[0][1]
        s.stl.mput(st,v.rid,av.as_map())
    def gc_set(s,st,p,av):
        if isinstance(p,Ptr) and st.mem[p.rid].kind=='arr':
            s.alive(st,p)
            fr=s.focus(st,p.rid,p.idx,need=False)
            if fr is None:
                s.oblige(st,ULT(b64(p.idx),st.mem[p.rid].seq.n),'out-of-bounds','vector element index within size')
                r=st.mem[p.rid]; st.upd(p.rid,seq=r.seq.store(b64(p.idx),av)); return
            rid,off=fr,0
        else: rid,off=s.gc_loc(st,p)
        s.gc_release(st,rid,off)
        st.setcell(rid,off,16,GCV(av))
    def gc_payload_ptr(s,st,p):
        """(tag, Ptr) of the container's payload object, materialising it"""
        rid,off=s.gc_loc(st,p)
        s.unfold(st,rid,off)
        r=st.mem[rid]; pay=r.cells[off][1]
        T=st.val(r.cells[off+8][1])
        if isinstance(pay,Lazy):
            T=s.tag_of(st,pay.av)
            if T>=6:
                q=s.mat_payload(st,pay.av,T); st.setcell(rid,off,8,q); s.settle(st,pay,q); pay=q
        if not isinstance(T,int): raise Unsupported('payload of unknown tag')
        return T,pay,(rid,off)
    def reach(s,st,roots):
        seen=set(); w=list(roots)
        def ref(v):
            if isinstance(v,Ptr): w.append(v.rid)
            elif isinstance(v,(VecM,MapM)): w.append(v.rid)
            elif isinstance(v,(MapIt,BitRef)): w.append(v.rid)
            elif isinstance(v,PInt): ref(v.p)
            elif isinstance(v,tuple):
                for x in v: ref(x)
        while w:
            i=w.pop()
            if i in seen or i not in st.mem: continue
            seen.add(i); r=st.mem[i]
            if not r.alive: continue
            if r.cells:
                for o,(sz,v) in r.cells.items():
                    t=r.cells.get(o+8)
                    if isinstance(v,Ptr) and t is not None and t[0]==4 and st.val(t[1])==0 and st.mem[v.rid].heap:
                        continue   # stale payload pointer of a NOTYPE container owns nothing
                    ref(v)
            for _,fr in r.focus: w.append(fr)
        return seen
    def overwritten(s,st,rid,off,size):
        """a payload cell is about to be overwritten: if it still owns storage, give that storage an identity so that losing it is noticed"""
        r=st.mem[rid]; c=r.cells.get(off)
        if c is None or not isinstance(c[1],Lazy) or c[1].shared: return
        T=s.tag_of(st,c[1].av)
        if T>=6:
            q=s.mat_payload(st,c[1].av,T); st.setcell(rid,off,8,q)
    def settle_tags(s,st):
        """containers whose type tag was changed without touching the payload (may Split)"""
        for rid,r in list(st.mem.items()):
            if not r.cells or not r.alive or r.kind=='detached': continue
            for o,(sz,v) in list(r.cells.items()):
                if isinstance(v,Lazy):
                    t=r.cells.get(o+8)
                    if t is None or t[0]!=4: continue
                    tt=t[1]
                    if is_expr(tt) and tt.eq(v.av.tag()): continue
                    if st.val(tt)==0 and not v.shared:
                        T=s.tag_of(st,v.av)
                        if T>=6:
                            q=s.mat_payload(st,v.av,T); st.setcell(rid,o,8,q)
    def shared(s,st):
        """payload storage owned by two live containers"""
        own={}; bad=[]
        for rid,r in st.mem.items():
            if not r.cells or not r.alive or r.kind=='detached': continue
            for o,(sz,v) in r.cells.items():
                t=r.cells.get(o+8)
                if t is None or t[0]!=4: continue
                if isinstance(v,Ptr) and v.rid in st.mem and st.mem[v.rid].heap: k=('r',v.rid)
                elif isinstance(v,Lazy) and v.shared: k=('l',id(v))
                else: continue
                T=st.val(t[1])
                if T==0: continue
                if k in own: bad.append((own[k],(rid,o),v))
                own[k]=(rid,o)
        return bad
    def leaks(s,st,extra=(),final=False):
        roots=[i for i,r in st.mem.items() if r.alive and not r.heap and r.kind in('cells','stack','global','elem','node') ]
        # element/node regions only count when their owner is reachable; stack/global/ext are roots
        roots=[i for i in roots if st.mem[i].kind in(('cells','global') if final else ('cells','stack','global'))]
        for fr in st.frames:
            for v in fr.regs.values():
                if isinstance(v,Ptr): roots.append(v.rid)
        for v in extra:
            if isinstance(v,Ptr): roots.append(v.rid)
        seen=s.reach(st,roots)
        return [r for i,r in st.mem.items() if r.heap and r.alive and r.kind=='cells' and i not in seen]
    # ---------------------------------------------------------------- load / store
    def load(s,st,p,ty):
        mod=s.mod
        if p is NULL: s.fail(st,'null-deref','load through null pointer')
        if isinstance(p,OPtr): raise Unsupported('load through opaque pointer')
        if not isinstance(p,Ptr): raise Unsupported('load through %r'%(p,))
        s.alive(st,p)
        r=st.mem[p.rid]
        if ty[0]=='named' or ty[0]=='struct':
            t=mod.resolve(ty); offs=mod.layout(t)
            return tuple(s.load(st,Ptr(p.rid,p.idx,p.inner+o,p.gen),x) for o,x in zip(offs,t[1]))
        if ty[0]=='arr': raise Unsupported('load array')
        size=mod.size(ty)
        if r.kind=='arr': return s.load_arr(st,p,r,ty,size)
        if r.kind=='strview': return s.load_str(st,p,r,ty)
        if r.kind in('map',): raise Unsupported('raw load from map')
        off=p.inner
        if not isinstance(off,int): raise Unsupported('symbolic offset')
        c=r.cells.get(off)
        if c is None:
            # inner of an abstract container?
            c8=r.cells.get(off-8)
            if c8 and isinstance(c8[1],GCV):
                s.unfold(st,p.rid,off-8); return s.load(st,p,ty)
            v=s.load_bytes(st,r,off,size,ty)
            return v
        v=c[1]
        if isinstance(v,GCV):
            s.unfold(st,p.rid,off); return s.load(st,p,ty)
        if isinstance(v,Lazy): return s.load_lazy(st,p,v,ty,size)
        return s.conv_load(st,r,off,c,ty,size)
    def load_raw(s,st,p):
        """bitwise copy of the 8-byte union of a container (assignment of the union as a whole)"""
        if not isinstance(p,Ptr): return None
        s.alive(st,p)
        r=st.mem[p.rid]
        if r.kind=='arr' and r.elt=='v' and p.inner==0: p=Ptr(s.focus(st,p.rid,p.idx)); r=st.mem[p.rid]
        if r.cells is None: return None
        c=r.cells.get(p.inner)
        if c is None: return None
        if isinstance(c[1],GCV): s.unfold(st,p.rid,p.inner); c=st.mem[p.rid].cells[p.inner]
        v=c[1]
        if isinstance(v,Lazy): v.shared=True; return Raw(8,v)
        if isinstance(v,(Ptr,NullT,OPtr,MapIt,BitRef,VecM,StrM,MapM,OstrM,ExcM)): return None
        if c[0]==8 and (isinstance(v,(int,Scaled,PInt)) or (is_expr(v) and z3.is_bv(v))): return None
        return Raw(c[0],v)
    def settle(s,st,lz,new):
        """the storage behind a (possibly copied) lazy payload becomes known"""
        if not lz.shared: return
        for rid,r in list(st.mem.items()):
            if r.cells:
                for o,(sz,v) in list(r.cells.items()):
                    if v is lz: st.setcell(rid,o,8,new)
        for fr in st.frames:
            for k,v in list(fr.regs.items()):
                if isinstance(v,Raw) and v.v is lz: fr.regs[k]=new
    def load_lazy(s,st,p,v,ty,size):
        T=s.tag_of(st,v.av)
        if ty[0]=='ptr':
            if T==1:
                return OPtr(v.av.scal('p'))
            if T==0: return NULL   # NOTYPE containers hold a null payload pointer by invariant of the model; never dereferenced
            if T<6: s.fail(st,'type-confusion','pointer member of the union read while the container holds %s'%NAMES[T])
            q=s.mat_payload(st,v.av,T)
            st.setcell(p.rid,p.inner,8,q); s.settle(st,v,q)
            return q
        want={('i',8):2,('i',1):2,('i',32):3,('i',64):4,('fp',64):5}.get(ty)
        if want is None: raise Unsupported('payload load %s'%(ty,))
        if T!=want: s.fail(st,'type-confusion','%s member of the union read while the container holds %s'%(NAMES[want],NAMES[T]))
        x=v.av.scal(SCAL[T])
        if want==2: return x if ty==('i',1) else If(x,BitVecVal(1,8),BitVecVal(0,8))
        return x
    def conv_load(s,st,r,off,c,ty,size):
        csz,v=c
        if v is UNDEF: return UNDEF
        if ty[0]=='ptr':
            if isinstance(v,(Ptr,NullT,OPtr,FPtr,MapIt,BitRef)): return v
            if isinstance(v,int) and v==0 and csz==8: return NULL
            if isinstance(v,OstrM): return Ptr(s.vtable(st))
            s.fail(st,'type-confusion','pointer read of non-pointer data (%s)'%type(v).__name__)
        if isinstance(v,(Ptr,NullT,OPtr,MapIt,BitRef)):
            if ty==('i',64): return PInt(v)
            s.fail(st,'type-confusion','integer/real read of a stored pointer')
        if isinstance(v,(VecM,StrM,MapM,OstrM,GCV,ExcM)):
            if isinstance(v,StrM): s.fail(st,'type-confusion','raw read of a string object')
            s.fail(st,'type-confusion','raw read of a library object (%s)'%type(v).__name__)
        if isinstance(v,(PInt,Scaled)): return v
        if ty[0]=='fp':
            if is_expr(v) and z3.is_fp(v) and v.sort().ebits()+v.sort().sbits()==ty[1]: return v
            if csz*8==ty[1] and not(is_expr(v) and z3.is_fp(v)): return z3.fpBVToFP(bv(v,ty[1]),F64 if ty[1]==64 else F32)
            s.fail(st,'type-confusion','real read of non-real data')
        w=ty[1]
        if is_expr(v) and z3.is_fp(v):
            if csz==size: return fpbits(v)
            raise Unsupported('partial fp read')
        if w==1: return s.tobit_or(v)
        if csz==size:
            if isinstance(v,(bool,z3.BoolRef)): return bv(v,w)
            if is_expr(v) and v.size()!=w: v=ZeroExt(w-v.size(),v) if v.size()<w else Extract(w-1,0,v)
            return v
        return s.load_bytes(st,r,off,size,ty)
    def vtable(s,st):
        """virtual table of a stream: the offset of its virtual base is 0 in the model"""
        rid=s.globals.get('$vtable')
        if rid is None or rid not in st.mem:
            rid=rid or uid(); s.globals['$vtable']=rid
            st.mem[rid]=Region(rid,'global',cells={-24:(8,0)},name='vtable',ro=True)
        return rid
    def tobit_or(s,v):
        if isinstance(v,int): return bool(v&1)
        return s.tobit(v)
    def load_bytes(s,st,r,off,size,ty):
        """assemble an integer/fp from neighbouring cells"""
        out=[]
        for k in range(size):
            found=None
            for o,(sz,v) in r.cells.items():
                if o<=off+k<o+sz: found=(o,sz,v); break
            if not found:
                return UNDEF
            o,sz,v=found
            if v is UNDEF: return UNDEF
            if isinstance(v,(Ptr,NullT,OPtr,VecM,StrM,MapM,GCV,Lazy,OstrM,MapIt,BitRef)): s.fail(st,'type-confusion','byte-wise read of a pointer or library object')
            if is_expr(v) and z3.is_fp(v): v=fpbits(v)
            v=bv(v,sz*8); j=off+k-o
            out.append(Extract(8*j+7,8*j,v))
        t=out[0] if len(out)==1 else Concat(*reversed(out))
        t=conc(t)
        if ty[0]=='fp': return z3.fpBVToFP(bv(t,ty[1]),F64 if ty[1]==64 else F32)
        if ty[0]=='ptr': raise Unsupported('ptr from bytes')
        if ty[1]==1: return s.tobit_or(t)
        return t
    def load_arr(s,st,p,r,ty,size):
        s.oblige(st,ULT(b64(p.idx),r.seq.n),'out-of-bounds','element index within the allocated size')
        k=r.elt
        if k=='v':
            fr=s.focus(st,p.rid,p.idx); return s.load(st,Ptr(fr,0,p.inner),ty)
        v=st.mem[p.rid].seq.get(p.idx)
        if k=='c':
            if ty!=('fp',64) or p.inner not in(0,8): s.fail(st,'type-confusion','complex element read as %s'%(ty,))
            return v[0] if p.inner==0 else v[1]
        if p.inner!=0: s.fail(st,'type-confusion','unaligned element read')
        want={'p':('ptr',),'i':('i',32),'l':('i',64),'r':('fp',64),'u8':('i',8),'i8':('i',8),'u32':('i',32),'u64':('i',64),'f32':('fp',32)}.get(k)
        if want!=ty: s.fail(st,'type-confusion','vector<%s> element read as %s'%(k,ty))
        if k=='p': return OPtr(v)
        return conc(v) if z3.is_bv(v) else v
    def load_str(s,st,p,r,ty):
        if ty!=('i',8): raise Unsupported('wide char load')
        lim=slen(r.s)
        s.oblige(st,(ULE if r.nul else ULT)(b64(p.idx),lim),'out-of-bounds','character index within the string')
        lb=lit_bytes(r.s); i=conc(b64(p.idx))
        if lb is not None and isinstance(i,int): return lb[i] if i<len(lb) else 0
        return ite(tobool(b64(p.idx)==lim),BitVecVal(0,8),f_sch(r.s,b64(p.idx))) if r.nul else f_sch(r.s,b64(p.idx))
    def store(s,st,p,ty,v):
        if p is NULL: s.fail(st,'null-deref','store through null pointer')
        if not isinstance(p,Ptr): raise Unsupported('store through %r'%(p,))
        s.alive(st,p)
        r=st.mem[p.rid]
        if r.ro: s.fail(st,'frame','store to read-only storage %s'%r.name)
        if ty[0] in('named','struct'):
            t=s.mod.resolve(ty); offs=s.mod.layout(t)
            if v is UNDEF: v=(UNDEF,)*len(offs)
            for o,x,y in zip(offs,t[1],v): s.store(st,Ptr(p.rid,p.idx,p.inner+o,p.gen),x,y)
            return
        size=s.mod.size(ty)
        if r.kind=='arr':
            s.oblige(st,ULT(b64(p.idx),r.seq.n),'out-of-bounds','store: element index within the allocated size')
            r=st.mem[p.rid]; k=r.elt
            if k=='v':
                fr=s.focus(st,p.rid,p.idx); return s.store(st,Ptr(fr,0,p.inner),ty,v)
            want={'p':('ptr',),'i':('i',32),'l':('i',64),'r':('fp',64),'u8':('i',8),'i8':('i',8),'u32':('i',32),'u64':('i',64),'c':('fp',64),'f32':('fp',32)}.get(k)
            if want!=ty: s.fail(st,'type-confusion','vector<%s> element written as %s'%(k,ty))
            if k=='c':
                re,im=r.seq.get(p.idx)
                nv=(v,im) if p.inner==0 else (re,v)
            elif k=='p': nv=s.typed(st,v,8,'p')
            elif z3.is_expr(v) and z3.is_fp(v): nv=v
            else: nv=bv(v,size*8) if not isinstance(v,Scaled) else v.bv()
            if p.inner!=0 and k!='c': s.fail(st,'type-confusion','unaligned element write')
            st.upd(p.rid,seq=r.seq.store(p.idx,nv)); return
        if r.kind!='cells' and r.kind not in('elem','node','stack','global'): raise Unsupported('store to %s'%r.kind)
        off=p.inner
        # stores inside an abstract container
        for o in (off,off-8):
            c=r.cells.get(o)
            if c and isinstance(c[1],GCV): s.unfold(st,p.rid,o); r=st.mem[p.rid]
        if r.size is not None and isinstance(r.size,int) and (off<0 or off+size>r.size): s.fail(st,'out-of-bounds','store past the end of %s'%r.name)
        # union slot semantics: smaller store replaces the whole previous payload cell
        s.overwritten(st,p.rid,off,size)
        if isinstance(v,Raw):
            st.setcell(p.rid,off,8,UNDEF)
            size,v=v.size,v.v
        st.setcell(p.rid,off,size,v)
    # ---------------------------------------------------------------- arithmetic
    def binop(s,st,op,w,a,b):
        if isinstance(a,Scaled) or isinstance(b,Scaled) or isinstance(a,PInt) or isinstance(b,PInt): return s.pbin(st,op,w,a,b)
        if a is UNDEF or b is UNDEF: return UNDEF
        M=(1<<w)-1
        if w==1:
            A,B=bl(a),bl(b)
            if op=='and': return tobool(And(A,B))
            if op=='or': return tobool(Or(A,B))
            if op=='xor': return tobool(z3.Xor(A,B))
            if op=='add': return tobool(z3.Xor(A,B))
            raise Unsupported('i1 '+op)
        if isinstance(a,int) and isinstance(b,int):
            def sg(x): return x-(1<<w) if x>>(w-1) else x
            if op=='add': return (a+b)&M
            if op=='sub': return (a-b)&M
            if op=='mul': return (a*b)&M
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&M
            if op=='lshr': return a>>b
            if op=='ashr': return (sg(a)>>b)&M
            if b==0 and 'di' in op or b==0 and 're' in op: s.fail(st,'div-by-zero','division by zero')
            if op=='udiv': return a//b
            if op=='urem': return a%b
            if op=='sdiv':
                q=abs(sg(a))//abs(sg(b)); return (q if (sg(a)<0)==(sg(b)<0) else -q)&M
            if op=='srem':
                q=abs(sg(a))%abs(sg(b)); return (q if sg(a)>=0 else -q)&M
        if isinstance(b,int) and b==0 and op in('add','sub','or','xor','shl','lshr','ashr'): return a
        if isinstance(a,int) and a==0 and op in('add','or','xor'): return b
        if isinstance(b,int) and b==1 and op in('mul','udiv','sdiv'): return a
        if isinstance(a,int) and a==1 and op=='mul': return b
        A,B=bv(a,w),bv(b,w)
        if op=='mul' and w==32 and not isinstance(a,int) and not isinstance(b,int): return conc(mul32(A,B))
        if op in('udiv','sdiv','urem','srem'): s.oblige(st,B!=0,'div-by-zero','divisor is nonzero')
        if op=='sdiv' and w==32 and not isinstance(b,int): return conc(f_sdiv(A,B))
        r={'add':lambda:A+B,'sub':lambda:A-B,'mul':lambda:A*B,'and':lambda:A&B,'or':lambda:A|B,'xor':lambda:A^B,'shl':lambda:A<<B,
           'lshr':lambda:z3.LShR(A,B),'ashr':lambda:A>>B,'udiv':lambda:z3.UDiv(A,B),'sdiv':lambda:A/B,'urem':lambda:z3.URem(A,B),'srem':lambda:z3.SRem(A,B)}[op]()
        return conc(r)
    def pbin(s,st,op,w,a,b):
        # a user supplied pointer is a plain 64-bit value: its address may be computed with
        def plain(x): return (conc(x.p.t) if isinstance(x.p,OPtr) else 0 if x.p is NULL else x) if isinstance(x,PInt) else x
        a2,b2=plain(a),plain(b)
        if (a2 is not a or b2 is not b) and not isinstance(a2,PInt) and not isinstance(b2,PInt): return s.binop(st,op,w,a2,b2)
        if op=='sub' and isinstance(a,PInt) and isinstance(b,PInt):
            p,q=a.p,b.p
            if isinstance(p,Ptr) and isinstance(q,Ptr) and p.rid==q.rid:
                r=st.mem[p.rid]; k=ELTSIZE[r.elt] if r.kind=='arr' else 1
                if p.inner==q.inner:
                    return Scaled(s.binop(st,'sub',64,p.idx,q.idx),k)
                if r.kind!='arr': return (p.inner-q.inner)&((1<<64)-1)
            raise Unsupported('pointer difference')
        if isinstance(a,Scaled):
            if op in('sdiv','udiv') and b==a.k: return a.t
            if op in('ashr','lshr') and isinstance(b,int) and (1<<b)==a.k: return a.t
            return s.binop(st,op,w,conc(a.bv()),b.bv() if isinstance(b,Scaled) else b)
        if isinstance(b,Scaled): return s.binop(st,op,w,a,conc(b.bv()))
        if op=='mul' : raise Unsupported('mul on address')
        raise Unsupported('address arithmetic')
    def icmp(s,st,pr,ty,a,b):
        if ty[0]=='ptr' or isinstance(a,(Ptr,NullT,OPtr,MapIt,BitRef)) or isinstance(b,(Ptr,NullT,OPtr)):
            return s.pcmp(st,pr,a,b)
        if a is UNDEF or b is UNDEF: 
            s.fail(st,'uninitialised','branch on uninitialised data')
        if isinstance(a,Scaled): a=conc(a.bv())
        if isinstance(b,Scaled): b=conc(b.bv())
        if isinstance(a,PInt) or isinstance(b,PInt): return s.pcmp(st,pr,a.p if isinstance(a,PInt) else a,b.p if isinstance(b,PInt) else b)
        w=ty[1]
        if w==1:
            A,B=bl(a),bl(b)
            return tobool(A==B) if pr=='eq' else tobool(A!=B)
        if isinstance(a,int) and isinstance(b,int):
            def sg(x): return x-(1<<w) if x>>(w-1) else x
            A,B=(sg(a),sg(b)) if pr[0]=='s' else (a,b)
            o=pr if pr in('eq','ne') else pr[1:]
            return {'eq':A==B,'ne':A!=B,'lt':A<B,'le':A<=B,'gt':A>B,'ge':A>=B}[o]
        A,B=bv(a,w),bv(b,w)
        r={'eq':lambda:A==B,'ne':lambda:A!=B,'ult':lambda:ULT(A,B),'ule':lambda:ULE(A,B),'ugt':lambda:UGT(A,B),'uge':lambda:UGE(A,B),
           'slt':lambda:A<B,'sle':lambda:A<=B,'sgt':lambda:A>B,'sge':lambda:A>=B}[pr]()
        return tobool(r)
    def pcmp(s,st,pr,a,b):
        if pr not in('eq','ne'):
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.rid==b.rid and a.inner==b.inner:
                return s.icmp(st,pr,('i',64),a.idx,b.idx)
            raise Unsupported('pointer order')
        def pos(r): return r if pr=='eq' else (not r if isinstance(r,bool) else Not(r))
        if a is NULL and b is NULL: return pos(True)
        if isinstance(a,int) and a==0: a=NULL
        if isinstance(b,int) and b==0: b=NULL
        if a is NULL or b is NULL:
            o=b if a is NULL else a
            if o is NULL: return pos(True)
            if isinstance(o,OPtr): return pos(tobool(o.t==0))
            return pos(False)
        if isinstance(a,OPtr) and isinstance(b,OPtr): return pos(tobool(a.t==b.t))
        if isinstance(a,MapIt) and isinstance(b,MapIt):
            if a.rid!=b.rid: return pos(False)
            return pos(tobool(b64(a.pos)==b64(b.pos)))
        if isinstance(a,BitRef) and isinstance(b,BitRef):
            return pos(tobool(b64(a.idx)==b64(b.idx)) if a.rid==b.rid else False)
        if isinstance(a,Ptr) and isinstance(b,Ptr):
            if a.rid!=b.rid: return pos(False)
            if a.inner!=b.inner: return pos(False)
            return pos(tobool(b64(a.idx)==b64(b.idx)))
        if isinstance(a,FPtr) and isinstance(b,FPtr): return pos(a.name==b.name)
        return pos(False)
    def fcmp(s,pr,a,b):
        if pr=='oeq': return tobool(z3.fpEQ(a,b))
        if pr=='une': return tobool(Not(z3.fpEQ(a,b)))
        if pr=='one': return tobool(And(Not(z3.fpEQ(a,b)),Not(z3.fpIsNaN(a)),Not(z3.fpIsNaN(b))))
        if pr=='uno': return tobool(Or(z3.fpIsNaN(a),z3.fpIsNaN(b)))
        if pr=='ord': return tobool(And(Not(z3.fpIsNaN(a)),Not(z3.fpIsNaN(b))))
        d={'gt':z3.fpGT,'ge':z3.fpGEQ,'lt':z3.fpLT,'le':z3.fpLEQ}
        if pr[0]=='o' and pr[1:] in d: return tobool(d[pr[1:]](a,b))
        if pr[0]=='u' and pr[1:] in d: return tobool(Or(z3.fpIsNaN(a),z3.fpIsNaN(b),d[pr[1:]](a,b)))
        if pr=='ueq': return tobool(Or(z3.fpIsNaN(a),z3.fpIsNaN(b),z3.fpEQ(a,b)))
        raise Unsupported('fcmp '+pr)
    def cast(s,st,op,ft,tt,v):
        if v is UNDEF: return UNDEF
        if op=='ptrtoint': return PInt(v)
        if op=='inttoptr':
            if isinstance(v,PInt): return v.p
            if isinstance(v,int) and v==0: return NULL
            if isinstance(v,int): return OPtr(BitVecVal(v,64))
            return OPtr(v)
        if op=='bitcast':
            if ft==tt: return v
            if ft[0]=='fp' and tt[0]=='i': return fpbits(v)
            if ft[0]=='i' and tt[0]=='fp': return z3.fpBVToFP(bv(v,ft[1]),F64 if tt[1]==64 else F32)
            raise Unsupported('bitcast')
        if op in('zext','sext','trunc'):
            if isinstance(v,(Scaled,)): v=conc(v.bv())
            if isinstance(v,PInt):
                if isinstance(v.p,OPtr): v=v.p.t
                elif v.p is NULL: v=0
                else: raise Unsupported('trunc of address')
            fw,tw=ft[1],tt[1]
            if fw==1:
                if isinstance(v,(bool,)): return ((1<<tw)-1 if op=='sext' else 1) if v else 0
                return If(v,BitVecVal((1<<tw)-1 if op=='sext' else 1,tw),BitVecVal(0,tw))
            if isinstance(v,int):
                if op=='sext' and v>>(fw-1): v=v-(1<<fw)
                r=v&((1<<tw)-1)
                return bool(r) if tw==1 else r
            if op=='zext': return conc(ZeroExt(tw-fw,v))
            if op=='sext': return conc(SignExt(tw-fw,v))
            r=Extract(tw-1,0,v)
            if tw==1: return tobool(r==1)
            return conc(r)
        if op in('sitofp','uitofp'):
            so=F64 if tt[1]==64 else F32
            if ft[1]==1: v=bv(v,8); op='uitofp'; ft=('i',8)
            x=bv(v,ft[1])
            return simp(z3.fpSignedToFP(RNE,x,so) if op=='sitofp' else z3.fpUnsignedToFP(RNE,x,so))
        if op in('fptosi','fptoui'):
            w=tt[1]
            if op=='fptosi':
                lo,hi=-(2.0**(w-1)),2.0**(w-1)
                okc=And(z3.fpGT(v,z3.FPVal(lo-1,v.sort())) if w<53 else z3.fpGEQ(v,z3.FPVal(lo,v.sort())),z3.fpLT(v,z3.FPVal(hi,v.sort())))
            else:
                hi=2.0**w
                okc=And(z3.fpGT(v,z3.FPVal(-1.0,v.sort())),z3.fpLT(v,z3.FPVal(hi,v.sort())))
            s.oblige(st,okc,'fp-range','real to %d-bit integer conversion is in range'%w)
            return z3.fpToSBV(RTZ,v,BitVecSort(w)) if op=='fptosi' else z3.fpToUBV(RTZ,v,BitVecSort(w))
        if op=='fpext': return simp(z3.fpFPToFP(RNE,v,F64))
        if op=='fptrunc': return simp(z3.fpFPToFP(RNE,v,F32))
        raise Unsupported(op)
    # ---------------------------------------------------------------- operands
    def const_global(s,st,name):
        g=s.globals.get(name)
        if g and g in st.mem: return Ptr(g)
        d=s.mod.globals.get(name)
        if d is None:
            if name in s.mod.funcs or name in s.mod.decls: return FPtr(name)
            raise Unsupported('global '+name)
        rid=s.globals.get(name) or uid()
        s.globals[name]=rid
        if 'constant [' in d and ' c"' in d:
            bs=irparse.cbytes(irparse.re.search(r' (c"[^"]*")',d).group(1))
            st.mem[rid]=Region(rid,'strview',s=lit(bs[:-1]) if bs.endswith(b'\0') else lit(bs),nul=bs.endswith(b'\0'),name=name,ro=True)
        elif irparse.re.search(r'constant \[\d+ x i8\] zeroinitializer',d):
            n=int(irparse.re.search(r'constant \[(\d+) x',d).group(1))
            st.mem[rid]=Region(rid,'strview',s=lit(b'\0'*(n-1)),nul=True,name=name,ro=True)
        else:
            m=irparse.re.match(r'.*?(?:global|constant) (.*)$',d)
            reg=Region(rid,'global',cells={},name=name,ro='constant' in d.split('global')[0])
            st.mem[rid]=reg
            try:
                T=irparse.Toks(irparse.tokenize(m.group(1))); t=irparse.parse_type(T); 
                if not T.eof() and T.peek()[1]!=',' :
                    v=irparse.parse_val(T,t); s.init_global(st,rid,0,t,v)
            except irparse.ParseError: pass
            if reg.ro: st.upd(rid,ro=True)
        return Ptr(rid)
    def init_global(s,st,rid,off,t,v):
        t=s.mod.resolve(t)
        if v[0]=='zero': return
        if t[0] in('i','fp','ptr'):
            st.setcell(rid,off,s.mod.size(t),s.const(st,t,v))
        elif v[0]=='agg':
            if t[0]=='struct':
                for o,(et,ev) in zip(s.mod.layout(t),v[1]): s.init_global(st,rid,off+o,et,ev)
            elif t[0]=='arr':
                for i,(et,ev) in enumerate(v[1]): s.init_global(st,rid,off+i*s.mod.size(et),et,ev)
        elif v[0]=='cstr':
            for i,b in enumerate(v[1]): st.setcell(rid,off+i,1,b)
    def const(s,st,ty,v):
        k=v[0]
        if k=='int': return v[2] if v[1]!=1 else bool(v[2])
        if k=='bool': return v[1]
        if k=='fp':
            if v[1]==64: return z3.simplify(z3.fpBVToFP(BitVecVal(v[2],64),F64))
            import struct
            d=struct.unpack('<d',struct.pack('<Q',v[2]))[0]
            return z3.FPVal(d,F32)
        if k=='null': return NULL
        if k=='undef': return UNDEF
        if k=='zero':
            t=s.mod.resolve(v[1])
            if t[0]=='struct': return tuple(s.const(st,x,('zero',x)) for x in t[1])
            if t[0]=='ptr': return NULL
            if t[0]=='fp': return z3.FPVal(0.0,F64 if t[1]==64 else F32)
            if t[0]=='i': return 0 if t[1]!=1 else False
        if k=='glob': return s.const_global(st,v[1])
        if k=='agg': return tuple(s.const(st,t,x) for t,x in v[1])
        if k=='gepc':
            b=s.const(st,('ptr',),v[2]); return s.gep(st,v[1],b,[(t,s.const(st,t,x)) for t,x in v[3]])
        if k=='cast':
            return s.cast(st,v[1],v[2],v[4],s.const(st,v[2],v[3]))
        raise Unsupported('const %s'%(v,))
    def op(s,st,ty,v):
        if v[0]=='loc':
            r=st.frames[-1].regs
            if v[1] not in r: raise Unsupported('undefined register %s'%v[1])
            return r[v[1]]
        return s.const(st,ty,v)
    def gep(s,st,ty,base,idxs):
        if base is NULL:
            if all(isinstance(i,int) and i==0 for _,i in idxs): return NULL
            s.fail(st,'null-deref','address computed from null')
        if isinstance(base,(OPtr,FPtr,MapIt,BitRef)):
            raise Unsupported('gep on %s'%type(base).__name__)
        if isinstance(base,NullT): return base
        r=st.mem[base.rid]
        t=ty; offc=0; sym=[]
        for n,(it,i) in enumerate(idxs):
            if isinstance(i,Scaled): i=conc(i.bv())
            if n==0: sz=s.mod.size(t)
            else:
                t=s.mod.resolve(t)
                if t[0]=='struct':
                    offc+=s.mod.layout(t)[i]; t=t[1][i]; continue
                t=t[2]; sz=s.mod.size(t)
            if isinstance(i,int):
                w=it[1]
                if i>>(w-1): i-=1<<w
                offc+=i*sz
            else:
                x=i if i.size()==64 else SignExt(64-i.size(),i)
                sym.append((x,sz))
        idx,inner=base.idx,base.inner
        if r.kind in('arr','strview'):
            es=ELTSIZE[r.elt] if r.kind=='arr' else 1
            for x,sz in sym:
                if sz%es==0:
                    k=sz//es
                    idx=s.binop(st,'add',64,idx,x if k==1 else s.binop(st,'mul',64,x,k))
                else: raise Unsupported('gep scale %d on elements of %d'%(sz,es))
            tot=inner+offc
            if tot//es: idx=s.binop(st,'add',64,idx,(tot//es)&((1<<64)-1))
            inner=tot%es
            return Ptr(base.rid,idx,inner,base.gen)
        if sym:
            raise Unsupported('symbolic offset into %s'%r.kind)
        return Ptr(base.rid,idx,inner+offc,base.gen)
    # ---------------------------------------------------------------- execution
    def push(s,st,f,args,dst=None,inv=None):
        f.ensure()
        fr=Frame(); fr.f=f; fr.regs={}; fr.block=f.entry; fr.prev=None; fr.ip=0; fr.dst=dst; fr.inv=inv; fr.depth=len(st.frames); fr.line=None; fr.loopcnt={}
        for (t,n),a in zip(f.params,args): fr.regs[n]=a
        st.frames.append(fr)
    def jump(s,st,target):
        fr=st.frames[-1]; fr.prev=fr.block; fr.block=target; fr.ip=0
        f=fr.f
        # parallel phis
        vals=[]
        for i in f.blocks[target]:
            if i.op!='phi': break
            for v,bb in i.a:
                if bb==fr.prev or (fr.prev==f.entry and bb in f.entry_alias and bb not in f.blocks):
                    vals.append((i.dst,s.op(st,i.ty,v))); break
            else: raise Unsupported('phi')
            fr.ip+=1
        for d,v in vals: fr.regs[d]=v
    def run(s,st,base,loop=None):
        """explore all paths of the frames above `base`; loop=(frame index, header, body) makes block transitions stop.
        returns list of (kind,state): 'ret' | 'unwind' | 'back' | 'exit'"""
        work=[st]; out=[]; npaths=0
        while work:
            st=work.pop()
            while True:
                s.fuel-=1
                if s.fuel<=0: raise Unsupported('step budget exhausted')
                try: r=s.step(st,base,loop)
                except PathDead: break
                if r is None: continue
                if r[0]=='fork':
                    work.extend(reversed(r[1]))
                    if len(work)>s.max_paths: raise Unsupported('too many paths')
                    break
                out.append(r); npaths+=1
                if npaths>s.max_paths: raise Unsupported('too many paths')
                break
        return out
    def goto(s,st,target,base,loop):
        """block transition with loop handling"""
        fr=st.frames[-1]; f=fr.f
        if loop and len(st.frames)-1==loop[0] and fr.f is loop[3]:
            if target==loop[1]:
                s.jump(st,target); return ('back',st)
            if target not in loop[2]:
                s.jump(st,target); return ('exit',st)
        if target in f.loops and fr.block not in f.loops[target]:
            s.jump(st,target)
            from . import loops
            work=[st]; res=[]
            while work:
                q=work.pop()
                try: res+=loops.summarise(s,q.copy(),target)
                except PathDead: continue
                except Split as e:
                    for c in e.conds:
                        n=q.copy()
                        try: n.assume(c)
                        except PathDead: continue
                        work.append(n)
            return ('fork',res)
        s.jump(st,target)
        return None
    def step(s,st,base,loop):
        if st.unwinding: return s.do_unwind(st,base,loop)
        fr=st.frames[-1]
        ins=fr.f.blocks[fr.block][fr.ip]
        if ins.dbg is not None:
            l=s.mod.line(ins.dbg)
            if l: fr.line=l
        op=ins.op
        if op in('call','invoke','load','store','br','condbr','switch','cast','bin','icmp','getelementptr','select'):
            snap=st.copy() if op in('call','invoke','load','store') else None
            try: return s.exec(st,ins,base,loop)
            except Split as e:
                out=[]
                for c in e.conds:
                    n=(snap or st).copy()
                    try: n.assume(c)
                    except PathDead: continue
                    out.append(n)
                return ('fork',out)
        return s.exec(st,ins,base,loop)
    def setr(s,fr,ins,v):
        if ins.dst is not None: fr.regs[ins.dst]=v
    def exec(s,st,ins,base,loop):
        fr=st.frames[-1]; op=ins.op
        if op=='load':
            p=s.op(st,('ptr',),ins.a)
            v=s.load_raw(st,p) if ins.dst and 'copyload' in ins.dst and ins.ty in(('ptr',),('i',64)) else None
            s.setr(fr,ins,s.load(st,p,ins.ty) if v is None else v); fr.ip+=1
        elif op=='store':
            v,p=ins.a; s.store(st,s.op(st,('ptr',),p),ins.ty,s.op(st,ins.ty,v)); fr.ip+=1
        elif op=='getelementptr':
            t,b,ix=ins.a
            s.setr(fr,ins,s.gep(st,t,s.op(st,('ptr',),b),[(it,s.op(st,it,i)) for it,i in ix])); fr.ip+=1
        elif op=='alloca':
            t,cnt=ins.a
            rid=st.cells(s.mod.size(t),name=ins.dst,kind='stack'); s.setr(fr,ins,Ptr(rid)); fr.ip+=1
        elif op=='bin':
            o,a,b=ins.a; A,B=s.op(st,ins.ty,a),s.op(st,ins.ty,b)
            if ins.ty[0]=='fp':
                fn={'fadd':z3.fpAdd,'fsub':z3.fpSub,'fmul':z3.fpMul,'fdiv':z3.fpDiv}[o]
                s.setr(fr,ins,simp(fn(RNE,A,B)))
            else: s.setr(fr,ins,s.binop(st,o,ins.ty[1],A,B))
            fr.ip+=1
        elif op=='fneg': s.setr(fr,ins,z3.fpNeg(s.op(st,ins.ty,ins.a))); fr.ip+=1
        elif op=='cast':
            o,ft,v=ins.a; s.setr(fr,ins,s.cast(st,o,ft,ins.ty,s.op(st,ft,v))); fr.ip+=1
        elif op=='icmp':
            pr,t,a,b=ins.a; s.setr(fr,ins,s.icmp(st,pr,t,s.op(st,t,a),s.op(st,t,b))); fr.ip+=1
        elif op=='fcmp':
            pr,t,a,b=ins.a; s.setr(fr,ins,s.fcmp(pr,s.op(st,t,a),s.op(st,t,b))); fr.ip+=1
        elif op=='select':
            c,a,b=ins.a; C=s.op(st,('i',1),c); A,B=s.op(st,ins.ty,a),s.op(st,ins.ty,b)
            if isinstance(C,bool): v=A if C else B
            elif is_expr(A) or is_expr(B) or (isinstance(A,(int,bool)) and isinstance(B,(int,bool))):
                if isinstance(A,int) and isinstance(B,int) and not isinstance(A,bool): A=BitVecVal(A,ins.ty[1])
                v=ite(C,A,B)
            else:
                v=A if s.decide(st,C) else B
            s.setr(fr,ins,v); fr.ip+=1
        elif op=='extractvalue':
            t,v,ix=ins.a; x=s.op(st,t,v)
            for i in ix: x=x[i]
            s.setr(fr,ins,x); fr.ip+=1
        elif op=='insertvalue':
            v,w,ix=ins.a; t=s.mod.resolve(ins.ty)
            x=s.op(st,ins.ty,v)
            if x is UNDEF: x=(UNDEF,)*len(t[1])
            if len(ix)!=1: raise Unsupported('nested insertvalue')
            x=list(x); x[ix[0]]=s.op(st,t[1][ix[0]],w); s.setr(fr,ins,tuple(x)); fr.ip+=1
        elif op=='freeze': s.setr(fr,ins,s.op(st,ins.ty,ins.a)); fr.ip+=1
        elif op=='br': return s.goto(st,ins.a,base,loop)
        elif op=='condbr':
            c,a,b=ins.a; C=s.op(st,('i',1),c)
            if C is UNDEF: s.fail(st,'uninitialised','branch on uninitialised data')
            C=tobool(C)
            if isinstance(C,bool): return s.goto(st,a if C else b,base,loop)
            fa=s.feasible(st,C); fb=s.feasible(st,Not(C))
            if fa and fb:
                n=st.copy(); n.assume(Not(C)); st.assume(C)
                out=[]
                for q,t in((st,a),(n,b)):
                    try: out.append((q,s.goto(q,t,base,loop)))
                    except PathDead: pass
                return s.merge_forks(out)
            if fa: st.assume(C); return s.goto(st,a,base,loop)
            if fb: st.assume(Not(C)); return s.goto(st,b,base,loop)
            raise PathDead()
        elif op=='switch':
            c,d,cs=ins.a; C=s.op(st,ins.ty,c)
            if C is UNDEF: s.fail(st,'uninitialised','switch on uninitialised data')
            C=st.val(C)
            if isinstance(C,int):
                for v,t in cs:
                    if v==C: return s.goto(st,t,base,loop)
                return s.goto(st,d,base,loop)
            out=[]
            w=ins.ty[1]
            for v,t in cs:
                e=C==BitVecVal(v,w)
                if s.feasible(st,e):
                    n=st.copy(); n.assume(e)
                    try: out.append((n,s.goto(n,t,base,loop)))
                    except PathDead: pass
            e=And_(*[C!=BitVecVal(v,w) for v,_ in cs])
            if s.feasible(st,e):
                n=st.copy(); n.assume(e)
                try: out.append((n,s.goto(n,d,base,loop)))
                except PathDead: pass
            return s.merge_forks(out)
        elif op in('call','invoke'): return s.call(st,ins,base,loop)
        elif op=='ret':
            v=None if ins.a is None else s.op(st,ins.ty,ins.a)
            return s.do_ret(st,v,base,loop)
        elif op=='landingpad': raise Unsupported('landingpad reached normally')
        elif op=='resume':
            v=s.op(st,ins.ty,ins.a)
            st.unwinding=True; s.popframe(st)
            if len(st.frames)<=base: return ('unwind',st)
            return None
        elif op=='unreachable': raise PathDead()
        else: raise Unsupported('%s %s'%(op,ins.a))
        return None
    def merge_forks(s,out):
        fin=[]; 
        for q,r in out:
            if r is None: fin.append(q)
            elif r[0]=='fork': fin.extend(r[1])
            else: 
                q2=r[1]; q2.pending=r; fin.append(Pending(r))
        if any(isinstance(x,Pending) for x in fin): return ('fork',[PState(x.r) if isinstance(x,Pending) else x for x in fin])
        return ('fork',fin)
    def popframe(s,st):
        fr=st.frames.pop()
        return fr
    def do_ret(s,st,v,base,loop):
        fr=s.popframe(st)
        if len(st.frames)<=base:
            st.retval=v; return ('ret',st)
        c=st.frames[-1]
        if fr.dst is not None: c.regs[fr.dst]=v
        if fr.inv is not None: return s.goto(st,fr.inv[0],base,loop)
        c.ip+=1
        return None
    def throw(s,st,ty,obj=None):
        if obj is None:
            rid=st.cells(64,name='exception',kind='cells'); st.setcell(rid,0,16,ExcM(ty)); obj=Ptr(rid)
        st.exc=(obj,ty); st.unwinding=True
    def do_unwind(s,st,base,loop):
        # frames[-1] is at a call/invoke that propagates st.exc
        if len(st.frames)<=base: return ('unwind',st)
        fr=st.frames[-1]
        ins=fr.f.blocks[fr.block][fr.ip]
        if ins.op!='invoke':
            s.popframe(st)
            if len(st.frames)<=base: return ('unwind',st)
            return None
        u=ins.a['unwind']
        blk=fr.f.blocks[u]
        lp=next(i for i in blk if i.op!='phi')
        if lp.op!='landingpad': raise Unsupported('unwind dest')
        cl,cleanup=lp.a
        sel=None
        for c in cl:
            if c[0]=='null': sel=1; break
            if c[0]=='glob' and s.catches(c[1],st.exc[1]): sel=s.typeid(c[1]); break
            if c[0]=='filter': raise Unsupported('filter clause')
        if sel is None and not cleanup:
            s.popframe(st)
            if len(st.frames)<=base: return ('unwind',st)
            return None
        st.unwinding=False
        r=s.goto(st,u,base,loop)
        if r is not None and r[0] in('back','fork'): raise Unsupported('loop at landing pad')
        fr=st.frames[-1]
        fr.regs[lp.dst]=(st.exc[0],sel or 0)
        fr.ip+=1
        return r
    HIER={'_ZTISt13runtime_error':['_ZTISt9exception'],'_ZTISt12out_of_range':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt11logic_error':['_ZTISt9exception'],
          '_ZTISt12length_error':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt16invalid_argument':['_ZTISt11logic_error','_ZTISt9exception'],'_ZTISt9bad_alloc':['_ZTISt9exception']}
    def catches(s,clause,ty): return clause==ty or clause in s.HIER.get(ty,[])
    def typeid(s,g): return s.typeids.setdefault(g,len(s.typeids)+2)
    # ---------------------------------------------------------------- calls
    def call(s,st,ins,base,loop):
        cal=ins.a['callee']
        if cal[0]=='loc':
            fp=s.op(st,('ptr',),cal)
            if isinstance(fp,FPtr): name=fp.name
            else: raise Unsupported('indirect call')
        elif cal[0]=='glob': name=cal[1]
        else: raise Unsupported('callee %s'%(cal,))
        args=[s.op(st,t,v) if t[0]!='meta' else None for t,v in ins.a['args']]
        return s.call_named(st,name,args,ins,base,loop)
    def call_named(s,st,name,args,ins,base,loop):
        dem=s.mod.dem.get(name,name)
        if name.startswith('llvm.'):
            res=s.stl.intrinsic(st,name,args,ins)
        else:
            c=s.contracts.get(dem)
            if c is not None and not c.inline and not (c.inline_in and s.cur in c.inline_in):
                s.used_contracts.add(dem)
                res=c.apply(s,st,args)
            else:
                m=s.stl.lookup(name,dem)
                if m is not None:
                    s.used_models.add(dem)
                    res=m(st,args,ins)
                else:
                    f=s.mod.funcs.get(s.mod.alias.get(name,name))
                    if f is None: raise Unsupported('no model or body for %s'%dem)
                    if sum(1 for fr in st.frames if fr.f is f)>=1 and not c: raise Unsupported('recursion without contract: %s'%dem)
                    if len(st.frames)>40: raise Unsupported('inline depth')
                    s.inlined.add(dem)
                    s.push(st,f,args,ins.dst,(ins.a['normal'],ins.a['unwind']) if ins.op=='invoke' else None)
                    return None
        return s.finish_call(st,ins,res,base,loop)
    def finish_call(s,st,ins,res,base,loop):
        """res: value | Outcomes"""
        if type(res).__name__=='Threw': return None
        if isinstance(res,Outcomes):
            out=[]
            for o in res.l:
                q=o[0]
                if o[1]=='throw':
                    s.throw(q,o[2]); out.append((q,None)); continue
                s.setr(q.frames[-1],ins,o[2])
                if ins.op=='invoke':
                    try: out.append((q,s.goto(q,ins.a['normal'],base,loop)))
                    except PathDead: pass
                else: q.frames[-1].ip+=1; out.append((q,None))
            return s.merge_forks(out)
        s.setr(st.frames[-1],ins,res)
        if ins.op=='invoke': return s.goto(st,ins.a['normal'],base,loop)
        st.frames[-1].ip+=1
        return None

class Outcomes:
    """list of (state,'ret',value) / (state,'throw',typeinfo)"""
    def __init__(s,l): s.l=l
class Pending:
    def __init__(s,r): s.r=r
class PState:
    """a finished result travelling through a fork list"""
    def __init__(s,r): s.r=r
RUNTIME='_ZTISt13runtime_error'
_orig_run=Machine.run
def _run(s,st,base,loop=None):
    work=[st]; out=[]; npaths=0
    while work:
        st=work.pop()
        if isinstance(st,PState):
            out.append(st.r); continue
        while True:
            s.fuel-=1
            if s.fuel<=0: raise Unsupported('step budget exhausted')
            try: r=s.step(st,base,loop)
            except PathDead: break
            if r is None: continue
            if r[0]=='fork':
                work.extend(reversed(r[1]))
                if len(work)>s.max_paths: raise Unsupported('too many paths')
                break
            out.append(r); npaths+=1
            if npaths>s.max_paths: raise Unsupported('too many paths')
            break
    return out
Machine.run=_run
