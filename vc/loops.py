"""Loop rule: state after n iterations is a closed form of a ghost counter n (guessed from one body execution, then proved inductive),
together with the fact that every earlier iteration k<n took a continuing path.  Bodies are executed from an arbitrary iteration."""
import z3
from .terms import *
from . import terms
from .machine import *

class Stale:
    def __repr__(s): return 'stale'
    def subst(s,m): return s
UNROLL=48

class CF:   # closed form of one item
    kind='?'
class Lin(CF):
    def __init__(s,v0,c,w): s.v0=v0; s.c=c; s.w=w
    def at(s,n):
        k=Extract(s.w-1,0,n) if s.w<64 else n
        if isinstance(s.c,int):
            c=s.c if s.c<(1<<(s.w-1)) else s.c-(1<<s.w)
            if c==1: d=k
            elif c==-1: return conc(bv(s.v0,s.w)-k)
            else: d=k*BitVecVal(c,s.w)
        else: d=k*s.c
        if isinstance(s.v0,int) and s.v0==0: return conc(d)
        return conc(bv(s.v0,s.w)+d)
    def same(s,o): return isinstance(o,Lin) and str(s.c)==str(o.c)
class Rec(CF):
    """uninterpreted function of the counter (with recurrence facts added separately)"""
    def __init__(s,v0,kind,like=None):
        s.v0=v0; s.k=kind if isinstance(kind,str) else 'sort'; s.like=like
        sorts=((F64,F64) if kind=='c' else (KSORT[kind],)) if isinstance(kind,str) else (kind,)
        s.F=[Function('loop!%d'%uid(),B64,x) for x in sorts]
    def at(s,n):
        n=b64(n)
        t=tobool(n==0)
        def one(f,v):
            return f(n)
        if isinstance(s.k,str) and s.k=='c': return tuple(f(n) for f in s.F)
        x=s.F[0](n)
        if isinstance(s.k,str) and s.k=='v': return AVTerm(x)
        return x
    def same(s,o): return isinstance(o,Rec)
class Last(CF):
    def __init__(s,v0,e,nv): s.v0=v0; s.e=e; s.nv=nv
    def at(s,n):
        return ite(tobool(b64(n)==0),s.v0,nsub(s.e,s.nv,b64(n)-1))
    def same(s,o): return isinstance(o,Last)
class Wrap(CF):
    def __init__(s,fn,inner): s.fn=fn; s.inner=inner
    def at(s,n): return s.fn(s.inner.at(n))
    def same(s,o): return isinstance(o,Wrap) and s.inner.same(o.inner)
class StaleCF(CF):
    def at(s,n): return Stale()
    def same(s,o): return isinstance(o,StaleCF)
class SeqCF(CF):
    """contents: one element written per iteration at index a+n / a-n; length grows by g per iteration"""
    def __init__(s,base,a,desc,val,nv,grow,cond=None): s.base=base; s.a=a; s.desc=desc; s.val=val; s.nv=nv; s.grow=grow
    def at(s,n):
        n=b64(n); a=b64(s.a)
        ln=conc(s.base.n+n*s.grow) if s.grow else s.base.n
        if s.val is None: return RangeSeq(s.base,ln,lambda k:BoolVal(False),lambda k:None)
        if not s.desc and not s.grow:
            r=RangeSeq(s.base,ln,lambda k:And(ULE(a,k),ULT(simp(k-a),n)),lambda k:nsub(s.val,s.nv,simp(k-a))); r.lo=a; r.cnt=n; return r
        if s.desc:
            return RangeSeq(s.base,ln,lambda k:And(ULE(k,a),ULT(a-k,n)),lambda k:nsub(s.val,s.nv,simp(a-k)))
        return RangeSeq(s.base,ln,lambda k:And(ULE(a,k),ULT(simp(k-a),n)),lambda k:nsub(s.val,s.nv,simp(k-a)))
    def same(s,o): return isinstance(o,SeqCF) and s.desc==o.desc and s.grow==o.grow and (s.val is None)==(o.val is None)
class BlockCF(CF):
    """contents: iteration n writes the block [n*r,n*r+r)"""
    grow=0
    def __init__(s,base,r,val,K,nv): s.base=base; s.r=r; s.val=val; s.K=K; s.nv=nv
    def at(s,n):
        n=b64(n); r=s.r
        return RangeSeq(s.base,s.base.n,lambda k:And(r!=0,ULT(f_div(r,k),n)),lambda k:subst(nsub(s.val,s.nv,f_div(r,k)),[(s.K,k)]))
    def same(s,o): return isinstance(o,BlockCF)
class SeqHavoc(CF):
    def __init__(s,kind,grow,base):
        s.kind=kind
        sorts=(F64,F64) if kind=='c' else (KSORT[kind],)
        u=uid()
        s.F=[Function('e!%d_%d'%(u,i),B64,B64,x) for i,x in enumerate(sorts)]
        s.N=Function('loopn!%d'%u,B64,B64); s.grow=grow; s.base=base
    def at(s,n):
        n=b64(n)
        def g(k):
            if s.kind=='c': return tuple(f(n,k) for f in s.F)
            x=s.F[0](n,k); return AVTerm(x) if s.kind=='v' else x
        ln=s.N(n) if s.grow is None else (conc(s.base.n+n*s.grow) if s.grow else s.base.n)
        return Seq(ln,g)
    def same(s,o): return isinstance(o,SeqHavoc) and s.grow==o.grow
class MapCF(CF):
    """map written at key src.keyat(a+n)"""
    def __init__(s,base,srank,shas,a,val,nv,struct=False): s.base=base; s.srank=srank; s.shas=shas; s.a=a; s.val=val; s.nv=nv; s.struct=struct
    def at(s,n):
        n=b64(n); a=b64(s.a)
        def inr(k): 
            r=s.srank(k); return And_(bl(s.shas(k)),ULE(a,r),ULT(simp(r-a),n))
        if tobool(n==0) is True: return s.base
        if s.struct: return MapC(s.base.has,lambda k:ite(tobool(inr(k)),nsub(s.val,s.nv,simp(s.srank(k)-a)),s.base.val(k)),s.base.card,s.base.keyat,s.base.rank)
        return MapC(lambda k:Or_(inr(k),bl(s.base.has(k))),lambda k:ite(tobool(inr(k)),nsub(s.val,s.nv,simp(s.srank(k)-a)),s.base.val(k)))
    def same(s,o): return isinstance(o,MapCF)
class MapHavoc(CF):
    def __init__(s):
        u=uid(); s.H=Function('mh!%d'%u,B64,S,z3.BoolSort()); s.X=Function('mv!%d'%u,B64,S,V)
    def at(s,n):
        n=b64(n)
        return MapC(lambda k:s.H(n,k),lambda k:AVTerm(s.X(n,k)))
    def same(s,o): return isinstance(o,MapHavoc)
class RecVal(CF):
    """AVRec with closed-form payload"""
    def __init__(s,T,inner,rows=None,cols=None): s.T=T; s.inner=inner; s.rows=rows; s.cols=cols
    def at(s,n):
        d=s.inner.at(n)
        return AVRec(s.T,(d,s.rows,s.cols) if s.T in MAT else d)
    def same(s,o): return isinstance(o,RecVal) and s.T==o.T and s.inner.same(o.inner)

def nsub(x,nv,k):
    """x[n := k]"""
    k=b64(k)
    n32=nv
    return subst(x,[(ZeroExt(32,n32),k),(z3.simplify(ZeroExt(32,n32)),k),(n32,simp(Extract(31,0,k)))])
def mentions(x,c):
    if is_expr(x):
        acc=set(); st=[x]
        while st:
            y=st.pop()
            if y.get_id() in acc: continue
            acc.add(y.get_id())
            if y.eq(c): return True
            st.extend(y.children())
        return False
    if isinstance(x,tuple): return any(mentions(y,c) for y in x)
    if isinstance(x,AVTerm): return mentions(x.t,c)
    return True
def mention_decl(x,d):
    acc=set(); st=[x]
    while st:
        y=st.pop()
        if y.get_id() in acc: continue
        acc.add(y.get_id())
        if z3.is_app(y) and y.decl().eq(d): return True
        st.extend(y.children())
    return False

def fold_all(m,st,rids):
    for rid in rids:
        r=st.mem.get(rid)
        if r is None: continue
        if r.kind=='arr' and r.focus:
            q=m.arr_seq(st,rid)
            for _,fr in r.focus: detach(st,fr)
            st.upd(rid,seq=q,focus=())
        elif r.kind=='map' and r.focus:
            q=m.map_c(st,rid)
            for _,fr in r.focus: detach(st,fr)
            st.upd(rid,mapc=q,focus=())
def detach(st,rid):
    r=st.mem[rid]
    st.mem[rid]=r.with_(kind='detached')
    for sz,v in (r.cells or {}).values():
        if isinstance(v,Ptr) and v.rid in st.mem and st.mem[v.rid].heap:
            h=st.mem[v.rid]; 
            st.mem[v.rid]=h.with_(kind='detached',heap=False)
            for _,w in h.cells.values():
                if isinstance(w,(VecM,MapM)): 
                    d=st.mem[w.rid]; 
                    for _,fr in d.focus: detach(st,fr)
                    st.mem[w.rid]=d.with_(kind='detached')

def kind_of(v):
    if isinstance(v,AV): return 'v'
    if isinstance(v,tuple): return 'c'
    return v.sort()

class Item:
    """location descriptor"""
    def __init__(s,key): s.key=key

def get_item(m,st,key,fidx):
    if key[0]=='reg': return st.frames[fidx].regs[key[1]]
    if key[0]=='cell':
        c=st.mem[key[1]].cells.get(key[2])
        return None if c is None else c[1]
    if key[0]=='arr': return m.arr_seq(st,key[1])
    if key[0]=='map': return m.map_c(st,key[1])
def cell_size(st,key):
    c=st.mem[key[1]].cells.get(key[2]); return c[0]
def set_item(m,st,key,v,fidx,size=None):
    if key[0]=='reg': st.frames[fidx].regs[key[1]]=v
    elif key[0]=='cell':
        if v is None:
            r=st.mem[key[1]]; c=dict(r.cells); c.pop(key[2],None); st.mem[key[1]]=r.with_(cells=c)
        else: st.setcell(key[1],key[2],size,v)
    elif key[0]=='arr': st.upd(key[1],seq=v,focus=())
    elif key[0]=='map': st.upd(key[1],mapc=v,focus=())

def same_val(a,b):
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a,(int,bool)) and isinstance(b,(int,bool)): return a==b
    if is_expr(a) and is_expr(b): return a.eq(b) or (a.sort()==b.sort() and z3.simplify(a).eq(z3.simplify(b)))
    if is_expr(a) or is_expr(b): return False
    if type(a)!=type(b): return False
    if isinstance(a,Ptr): return a.rid==b.rid and a.inner==b.inner and same_val(conc(b64(a.idx)),conc(b64(b.idx))) and a.gen==b.gen
    if isinstance(a,(VecM,MapM)): return a.rid==b.rid
    if isinstance(a,(StrM,OstrM)): return same_val(a.v,b.v)
    if isinstance(a,GCV): return same_val(a.av,b.av)
    if isinstance(a,Lazy): return same_val(a.av,b.av)
    if isinstance(a,AVTerm): return a.t.eq(b.t)
    if isinstance(a,AVRec): return a.T==b.T and same_val(a.d,b.d)
    if isinstance(a,tuple): return len(a)==len(b) and all(same_val(x,y) for x,y in zip(a,b))
    if isinstance(a,OPtr): return same_val(a.t,b.t)
    if isinstance(a,MapIt): return a.rid==b.rid and same_val(conc(b64(a.pos)),conc(b64(b.pos)))
    if isinstance(a,BitRef): return a.rid==b.rid and same_val(conc(b64(a.idx)),conc(b64(b.idx)))
    if isinstance(a,(PInt,Scaled,Opaque,Undef,NullT,Stale,FPtr,ExcM)): return type(a)==type(b) and not isinstance(a,(PInt,Scaled))
    return False

def diff_keys(m,G,B,fidx,header):
    """locations that differ between the iteration start G and the back edge B"""
    keys=[]
    fr=G.frames[fidx]
    for i in fr.f.blocks[header]:
        if i.op!='phi': break
        if not same_val(G.frames[fidx].regs[i.dst],B.frames[fidx].regs[i.dst]): keys.append(('reg',i.dst))
    for rid,r in G.mem.items():
        b=B.mem.get(rid)
        if b is r: continue
        if r.alive!=b.alive:
            # storage released inside the loop
            keys.append(('alive',rid)); continue
        if r.kind in('elem','node','detached'): continue
        if r.kind=='arr':
            if b.seq is not r.seq or any(not _clean_focus(m,G,B,rid) for _ in (1,)): keys.append(('arr',rid))
        elif r.kind=='map':
            if b.mapc is not r.mapc or not _clean_focus(m,G,B,rid): keys.append(('map',rid))
        elif r.cells is not None:
            for o in set(r.cells)|set(b.cells):
                x=r.cells.get(o); y=b.cells.get(o)
                if x is None and y is None: continue
                if x is not None and y is not None and x[0]==y[0] and same_val(x[1],y[1]): continue
                # abstract container merely unfolded / payload materialised without change
                if x is not None and y is not None and isinstance(x[1],GCV) and _same_gc(m,G,B,rid,o,x[1].av): continue
                if x is None and isinstance(r.cells.get(o-8,(0,None))[1],GCV): continue
                if x is not None and isinstance(x[1],Lazy) and y is not None and isinstance(y[1],Ptr) and _same_gc(m,G,B,rid,o,x[1].av): continue
                keys.append(('cell',rid,o))
    return keys
def _same_gc(m,G,B,rid,o,av):
    try: v=m.gc_av(B.copy(),rid,o)
    except (Split,PathDead): return False
    if same_val(v,av): return True
    # materialised but unmodified payloads: contents object still the one derived from av
    if isinstance(v,AVRec) and isinstance(av,AVTerm):
        try: return m.valid_goal(B,Eq(v,av))
        except (Split,PathDead,RecursionError): return False
    return False
def _clean_focus(m,G,B,rid):
    """focused elements of an otherwise unchanged vector/map still hold their original value"""
    r=B.mem[rid]
    g=G.mem[rid]
    for k,fr in r.focus:
        off=0 if r.kind=='arr' else 32
        orig=g.seq.get(k) if r.kind=='arr' else g.mapc.val(k)
        for k2,fr2 in g.focus:
            if fr2==fr: orig=m.gc_av(G.copy(),fr2,off)
        try: v=m.gc_av(B.copy(),fr,off)
        except (Split,PathDead): return False
        if not same_val(v,orig):
            if not (isinstance(orig,AVTerm) and _same_gc(m,G,B,fr,off,orig)): return False
    return True

def path_conds(G,backs,frs):
    """condition under which each continuing path is the one taken; a selector constant when the path condition depends on values chosen inside the body"""
    ids={c.get_id() for c in frs}
    def dep(B):
        if len(B.qf)>len(G.qf): return True
        acc=set(); st=list(B.pc[len(G.pc):])
        while st:
            y=st.pop()
            if y.get_id() in acc: continue
            acc.add(y.get_id())
            if y.get_id() in ids: return True
            st.extend(y.children())
        return False
    sel=None
    if len(backs)>1 and any(dep(B) for B in backs):
        sel=fresh('path',B32); frs.append(sel)
    for i,B in enumerate(backs):
        B.psel=sel is not None
        B.pcond=And_(*B.pc[len(G.pc):]) if sel is None else sel==i

def merged(m,backs,G,key,fidx):
    """value of the item at the back edge, merged over continuing paths"""
    vals=[]
    for B in backs:
        vals.append((And_(*B.pc[len(G.pc):]),get_item(m,B,key,fidx)))
    return vals
def merge_vals(vals):
    v=vals[-1][1]
    for c,x in reversed(vals[:-1]):
        if same_val(x,v): continue
        if x is None or v is None: raise Unsupported('loop item exists on some paths only')
        v=mix(c,x,v)
    return v
def mix(c,a,b):
    if isinstance(a,(Stale,Undef)) or isinstance(b,(Stale,Undef)): return Stale()
    if type(a)!=type(b) and not (isinstance(a,AV) and isinstance(b,AV)) and not ((is_expr(a) or isinstance(a,(int,bool))) and (is_expr(b) or isinstance(b,(int,bool)))): return Stale()
    if isinstance(a,Ptr):
        if not isinstance(b,Ptr) or a.rid!=b.rid or a.inner!=b.inner: raise Unsupported('merge of pointers')
        return Ptr(a.rid,ite(c,b64(a.idx),b64(b.idx)),a.inner,a.gen)
    if isinstance(a,MapIt): return MapIt(a.rid,ite(c,b64(a.pos),b64(b.pos)),ite(c,a.key,b.key),a.gen)
    if isinstance(a,StrM): return StrM(ite(c,a.v,b.v))
    if isinstance(a,OstrM): return OstrM(ite(c,a.v,b.v))
    if isinstance(a,GCV): return GCV(ite(c,a.av,b.av))
    if isinstance(a,OPtr): return OPtr(ite(c,a.t,b.t))
    if isinstance(a,(int,bool)) and isinstance(b,(int,bool)):
        if isinstance(a,bool): return ite(c,BoolVal(a),BoolVal(b))
        raise Unsupported('merge of width-less constants')
    if isinstance(a,Seq): return a   # handled by seq analysis
    return ite(c,a,b)

def width_of(f,key,st):
    return None

def guess_scalar(old,new,w,first):
    d=conc(bv(new,w)-bv(old,w))
    if isinstance(d,int): return Lin(None,d,w)
    return None

class Psum(CF):
    """initial value plus / minus the total size of the items handled so far (ghost sum)"""
    def __init__(s,v0,fn,sign,w): s.v0=v0; s.fn=fn; s.sign=sign; s.w=w
    def at(s,n):
        x=s.fn(simp(b64(n))); x=x if s.w==64 else Extract(s.w-1,0,x)
        v=bv(s.v0,s.w); return simp(v+x if s.sign>0 else v-x)
    def same(s,o): return isinstance(o,Psum) and s.sign==o.sign and s.fn is o.fn
class EncCF(CF): pass   # defined in serial.py
class WalkCF(CF):
    """container reached by a pointer that descends one level per iteration (only read): value given by a ghost function"""
    def __init__(s,fn): s.fn=fn
    def at(s,n): return GCV(AVTerm(s.fn(n)))
    def same(s,o): return isinstance(o,WalkCF)
def gc_ptr(m,st,p):
    if not isinstance(p,Ptr): return False
    r=st.mem.get(p.rid)
    if r is None or not r.cells: return False
    c=r.cells.get(p.inner)
    return c is not None and (isinstance(c[1],(GCV,Lazy)) or (p.inner+8) in r.cells)
def walk_renorm(m,st,fidx,walks,G=None):
    """the walking pointer is renamed to its own region holding the value it points to"""
    for reg,rid in walks.items():
        p=st.frames[fidx].regs[reg]
        if G is not None:
            a,b=m.gc_get(st,Ptr(rid)),m.gc_get(G.copy(),Ptr(rid))
            if not (isinstance(a,AVTerm) and isinstance(b,AVTerm) and a.t.eq(b.t)) and not m.valid_goal(st,Eq(a,b)): raise Unsupported('container written while walking down')
        if isinstance(p,Ptr) and p.rid==rid: continue
        av=m.gc_get(st,p); r=st.mem[rid]; old=st.cells(16,name='walked'); st.mem[old]=st.mem[old].with_(cells=r.cells); st.mem[rid]=r.with_(cells={}); st.setcell(rid,0,16,GCV(av)); st.frames[fidx].regs[reg]=Ptr(rid)
def guess_psum(m,backs,key,fidx,old,new,nv,n,w,first):
    if not getattr(m,'psums',None) or w not in(32,64): return None
    d=bv(new,w)-bv(old,w)
    for fn in m.psums:
        if first: return Psum(None,fn,1,w)
        x=simp(fn(simp(ZeroExt(32,nv+1)))-fn(n)); x=x if w==64 else Extract(w-1,0,x)
        for sg in(1,-1):
            if all(m.valid(B,d==(x if sg>0 else -x)) for B in backs): return Psum(None,fn,sg,w)
    return None
def writes(seq,base):
    """(indices written, pushes) between base and seq, or None"""
    idx=[]; cur=seq
    from .stl import PushSeq
    grow=0
    while cur is not base:
        if isinstance(cur,StoreSeq): idx.append(cur.i); cur=cur.base
        elif isinstance(cur,PushSeq): idx.append(cur.base.n); grow+=1; cur=cur.base
        else: return None
    return idx,grow

def guess_block(m,backs,nv,n,getter,base):
    """every iteration fills one block of r consecutive elements starting at n*r (a nested loop over a column)"""
    val=None; K=Const('K!%d'%uid(),B64); rr=None
    for B in reversed(backs):
        q=getter(B)
        if q is base: return None
        if not isinstance(q,RangeSeq) or q.base is not base or not hasattr(q,'lo'): return None
        acc={}; terms.scan(q.lo,acc); ok=False
        for t in acc.values():
            if t.decl().name()!='mul32' or t.num_args()!=2: continue
            for r in t.children():
                if mentions(r,nv) or rr is not None and not r.eq(rr): continue
                if m.valid(B,And(q.lo==ZeroExt(32,f_mul(nv,r)),q.cnt==ZeroExt(32,r))): ok=True; rr=r; break
            if ok: break
        if not ok: return None
        v=q.fn2(K); val=v if val is None else ite(B.pcond,v,val)
    return BlockCF(None,rr,val,K,nv)

def guess_seq(m,G,backs,key,kind,nv,n,getter,base):
    """closed form for a sequence item"""
    per=[]
    grow=None; cand=None
    for B in backs:
        q=getter(B)
        w=writes(q,base)
        if w is None: return guess_block(m,backs,nv,n,getter,base)
        if grow is None: grow=w[1]
        elif grow!=w[1]: return None
        per.append((B,q,w[0]))
        for i in w[0]:
            if cand is None: cand=i
    if cand is None: return SeqCF(base,0,False,None,nv,grow)
    for B,q,idx in per:
        for i in idx:
            if not i.eq(cand) and not m.valid(B,i==cand): return None
    a=nsub(cand,nv,BitVecVal(0,64)); a=conc(a)
    B0=per[0][0]
    if grow==1 and cand.eq(base.n) and not mentions(cand,nv): desc=False     # first guess for push_back
    elif m.valid(B0,cand==b64(a)+n): desc=False
    elif m.valid(B0,cand==b64(a)-n): desc=True
    else: return None
    val=None
    for B,q,idx in reversed(per):
        v=q.get(cand)
        val=v if val is None else ite(B.pcond,v,val)
    return SeqCF(None,a,desc,val,nv,grow)

def valid_goal(m,st,g):
    out=[]
    flatten(g,[],out)
    for h,c,_ in out:
        r,_m=check_sat(st.pc+h+[Not(c)],st.qf,timeout=m.tmo,extra_idx=st.idx,exact=False,nested=bool(getattr(m,"encbuf",None)))
        if r!='unsat': return False
    return True
Machine.valid_goal=valid_goal

def eq_item(m,st,a,b):
    """goal that two item values agree"""
    if a is b: return True
    if isinstance(a,Stale) or isinstance(b,Stale): return True
    if isinstance(b,(int,bool)) and is_expr(a): b=bv(b,a.size()) if not isinstance(b,bool) else BoolVal(b)
    if isinstance(a,(int,bool)) and is_expr(b): a=bv(a,b.size()) if not isinstance(a,bool) else BoolVal(a)
    if is_expr(a) and is_expr(b):
        if a.sort()!=b.sort():
            if z3.is_bool(a): a=bv(a,b.size())
            elif z3.is_bool(b): b=bv(b,a.size())
            else: return False
        return a==b
    if isinstance(a,(int,bool)): return a==b
    if type(a)!=type(b) and not (isinstance(a,AV) and isinstance(b,AV)) and not (isinstance(a,Seq) and isinstance(b,Seq)): return False
    if isinstance(a,Ptr): return a.rid==b.rid and a.inner==b.inner and And_(b64(a.idx)==b64(b.idx))
    if isinstance(a,MapIt): return a.rid==b.rid and And_(b64(a.pos)==b64(b.pos))
    if isinstance(a,BitRef): return a.rid==b.rid and And_(b64(a.idx)==b64(b.idx))
    if isinstance(a,(StrM,OstrM)): return a.v==b.v
    if isinstance(a,OPtr): return a.t==b.t
    if isinstance(a,tuple): return And_(*[x==y for x,y in zip(a,b)])
    if isinstance(a,GCV): return Eq(a.av,b.av)
    if isinstance(a,AV): return Eq(a,b)
    if isinstance(a,Seq):
        kind=None
        def body(k):
            x,y=a.get(k),b.get(k)
            if isinstance(x,AV): return Imp(And(ULT(k,a.n),ULT(k,b.n)),Eq(x,y))
            if isinstance(x,tuple): return Imp(ULT(k,a.n),And_(*[p==q for p,q in zip(x,y)]))
            return Imp(ULT(k,a.n),x==y)
        return Conj(a.n==b.n,Forall(B64,body))
    if isinstance(a,MapC):
        def body(k): return Conj(bl(a.has(k))==bl(b.has(k)),Imp(bl(a.has(k)),Eq(a.val(k),b.val(k))))
        return Forall(S,body)
    return same_val(a,b)

def guess(m,key,old,new,G,backs,n,nv,fidx,first,prev):
    """closed form for one changed item; old = value at iteration n (G), new = merged value at back edge"""
    v0=None
    if old is None: return StaleCF()
    if isinstance(old,Stale): return StaleCF()
    if isinstance(old,Undef): return StaleCF()
    if key[0]=='arr':
        kind=G.mem[key[1]].elt
        base=G.mem[key[1]].seq
        if getattr(m,'encbuf',None) and m.encbuf[0]==key[1]:
            for cf in m.cur_cfs.values():
                if isinstance(cf,Wrap) and isinstance(cf.at(n),Ptr) and cf.at(n).rid==key[1]:
                    return EncCF(m.encbuf[1],simp(b64(cf.inner.v0)),lambda i,cf=cf:b64(cf.at(i).idx))
        g=guess_seq(m,G,backs,key,kind,nv,n,lambda B:m.arr_seq(B,key[1]),base)
        return g
    if key[0]=='map':
        return guess_map(m,G,backs,key,n,nv,lambda B:m.map_c(B,key[1]),G.mem[key[1]].mapc)
    if isinstance(old,(VecM,MapM)): return None
    if isinstance(old,GCV) and key[0]=='cell' and G.mem[key[1]].name=='walk' and getattr(m,'walkfn',None): return WalkCF(m.walkfn)
    if isinstance(old,Ptr):
        if not isinstance(new,Ptr) or new.rid!=old.rid or new.inner!=old.inner: return None
        g=guess_scalar(old.idx,new.idx,64,first) or guess_psum(m,backs,key,fidx,old.idx,new.idx,nv,n,64,first)
        if g is None: return None
        g.v0=None
        return Wrap(lambda i,o=old:Ptr(o.rid,i,o.inner,o.gen),g)
    if isinstance(old,MapIt):
        if not isinstance(new,MapIt) or new.rid!=old.rid: return None
        g=guess_scalar(old.pos,new.pos,64,first)
        if g is None: return None
        def mk(i,o=old):
            mc=G.mem[o.rid].mapc
            return MapIt(o.rid,i,mc.keyat(b64(i)),o.gen)
        return Wrap(mk,g)
    if isinstance(old,BitRef):
        if not isinstance(new,BitRef) or new.rid!=old.rid: return None
        g=guess_scalar(old.idx,new.idx,64,first)
        if g is None: return None
        return Wrap(lambda i,o=old:BitRef(o.rid,i,o.gen),g)
    if isinstance(old,(int,)) and not isinstance(old,bool) or (is_expr(old) and z3.is_bv(old)):
        w=new.size() if is_expr(new) else (old.size() if is_expr(old) else None)
        if w is None: w=prev
        if w is None: return None
        if isinstance(new,(int,)) or is_expr(new) and z3.is_bv(new):
            g=guess_scalar(old,new,w,first) or guess_psum(m,backs,key,fidx,old,new,nv,n,w,first)
            if g is not None: return g
    return None

def _kapp(t):
    t=simp(t); return z3.is_app(t) and t.decl().name().startswith('keyat')
def guess_map(m,G,backs,key,n,nv,getter,base):
    val=None; kk=None; per=[]; struct=True
    for B in backs:
        q=getter(B)
        if q is base: per.append((B,q,None)); continue
        ks=[]; c=q
        while c is not base:
            w=getattr(c,'wr',None)
            if w is None: return None
            ks.append(w[1]); c=w[0]; struct=struct and w[2]
        per.append((B,q,ks))
        for w in ks:
            if kk is None or (not _kapp(kk) and _kapp(w)): kk=w
    for B,q,ks in per:
        for w in ks or ():
            if not simp(kk).eq(simp(w)) and not m.valid(B,kk==w): return None
    if kk is None: return None
    if any(k is None for _,_,k in per): return None
    kt=simp(kk)
    if not z3.is_app(kt): return None
    d=kt.decl().name()
    if d=='keyat':
        v=kt.arg(0); p=kt.arg(1)
        if mentions(v,nv): return None
        av=AVTerm(v); srank=av.rank; shas=av.has
    elif d.startswith('keyat!'):
        mc=terms.MAPFN[d]; p=kt.arg(0); srank=mc.rank; shas=mc.has
    else: return None
    a=conc(nsub(p,nv,BitVecVal(0,64)))
    if not m.valid(per[0][0],p==b64(a)+n): return None
    for B,q,_ in reversed(per):
        v=q.val(kk)
        val=v if val is None else ite(B.pcond,v,val)
    return MapCF(None,srank,shas,a,val,nv,struct)

def demote(old,key,G,widths):
    """weaker closed form"""
    if key[0]=='arr':
        return SeqHavoc(G.mem[key[1]].elt,0,G.mem[key[1]].seq)
    if key[0]=='map': return MapHavoc()
    if isinstance(old,StrM): return Wrap(StrM,Rec(old.v,S))
    if isinstance(old,OstrM): return Wrap(OstrM,Rec(old.v,S))
    if isinstance(old,GCV): return Wrap(GCV,Rec(old.av,'v'))
    if isinstance(old,OPtr): return Wrap(OPtr,Rec(old.t,B64))
    if isinstance(old,bool): return Rec(BoolVal(old),z3.BoolSort())
    if isinstance(old,int):
        return Rec(BitVecVal(old,widths),z3.BitVecSort(widths)) if widths else None
    if is_expr(old): return Rec(old,old.sort())
    if isinstance(old,Ptr): return Wrap(lambda i,o=old:Ptr(o.rid,i,o.inner,o.gen),Rec(b64(old.idx),B64))
    return None

def rebase(cf,v0):
    """attach the value before the first iteration"""
    if isinstance(cf,Lin): cf.v0=v0
    elif isinstance(cf,(Rec,Psum)): cf.v0=v0
    elif isinstance(cf,Last): cf.v0=v0
    elif isinstance(cf,Wrap):
        if isinstance(v0,Ptr): rebase(cf.inner,v0.idx)
        elif isinstance(v0,MapIt): rebase(cf.inner,v0.pos)
        elif isinstance(v0,BitRef): rebase(cf.inner,v0.idx)
        elif isinstance(v0,(StrM,OstrM)): rebase(cf.inner,v0.v)
        elif isinstance(v0,GCV): rebase(cf.inner,v0.av)
        elif isinstance(v0,OPtr): rebase(cf.inner,v0.t)
    elif isinstance(cf,(SeqCF,MapCF,SeqHavoc,BlockCF,EncCF)): cf.base=v0
    return cf

def zero_eq(m,cf,v0):
    pass

def try_unroll(m,st,header,spec):
    """exact execution when every iteration is decided without reference to symbolic data"""
    fidx=spec[0]
    cur=st; done=[]
    for it in range(UNROLL):
        m.quiet+=1; q0=getattr(m,'qfail',None); m.qfail=[]
        fuel=m.fuel
        try: res=m.run(cur.copy(),fidx,spec)
        finally: m.quiet-=1; m.qfail=q0
        backs=[B for k,B in res if k=='back']; outs=[(k,B) for k,B in res if k!='back']
        if not backs:
            return m.run(cur.copy(),fidx,spec) if m.quiet==0 else res
        if outs or len(backs)>1: return None
        if m.quiet==0:
            res=m.run(cur.copy(),fidx,spec); backs=[B for k,B in res if k=='back']
            if len(backs)!=1: return None
        # progress must come from concrete data, otherwise this is an unbounded loop
        cur=backs[0]
        if it>=2 and not _concrete_progress(m,st,cur,header,fidx): return None
    return None
def _concrete_progress(m,st,cur,header,fidx):
    for i in st.frames[fidx].f.blocks[header]:
        if i.op!='phi': break
        v=cur.frames[fidx].regs[i.dst]
        if isinstance(v,int) or (isinstance(v,Ptr) and isinstance(conc(b64(v.idx)),int)): return True
    return False

def phi_width(m,st,fidx,header,name):
    for i in st.frames[fidx].f.blocks[header]:
        if i.op!='phi': break
        if i.dst==name and i.ty[0]=='i': return i.ty[1]
    return None

def inv_tags(G,backs,nv,S0):
    out=[]; cnt={}
    for B in backs:
        acc={}
        for c in B.pc[len(G.pc):]: terms.scan(c,acc)
        for a in acc.values():
            if a.decl().name()=='tag' and not mentions(a,nv): cnt.setdefault(a.get_id(),[a,0])[1]+=1
    known=set()
    acc={}
    for c in S0.pc: terms.scan(c,acc)
    # only containers known before the loop (fresh terms of the body do not qualify)
    for i,(a,n) in cnt.items():
        if n>=len(backs)-1 and isinstance(S0.val(a),int)==False and z3.is_const(a.arg(0)) and a.arg(0).decl().name() in('this','a0','a1'): out.append(a)
    return out
def summarise(m,st,header,walks=None):
    fidx=len(st.frames)-1
    fr=st.frames[fidx]; f=fr.f
    lspec=(fidx,header,f.loops[header],f)
    un=try_unroll(m,st,header,lspec)
    if un is not None: return [PState(('unwind',q)) if k=='unwind' and False else q for k,q in un]
    nv=fresh('n',B32); n=z3.simplify(ZeroExt(32,nv))
    n1=z3.simplify(ZeroExt(32,nv+1))
    S0=st
    cfs={}      # key -> CF
    sizes={}
    C=None; bound=None
    def generalise(extra=False):
        G=S0.copy()
        fold_all(m,G,[k[1] for k in cfs if k[0] in('arr','map')])
        for k,cf in cfs.items():
            v=cf.at(n)
            set_item(m,G,k,v,fidx,sizes.get(k))
            if k[0] in('arr',): G.upd(k[1],gen=('loop',uid())) if getattr(cf,'regen',False) else None
        G.assume(ULT(nv,BitVecVal(1<<31,32)))
        G.idx.append(n)
        if extra:
            if bound is not None: G.assume(ULE(n,bound))
            G.idx.append(simp(n-1))
            add_facts(G)
        return G
    def add_facts(G):
        G.pc.extend(inv)
        for q in qfacts(): q.grp='loop%s'%nv; G.qf.append(q)
        # initial values of recurrences
        for k,cf in cfs.items():
            for r,val in recs(cf,S0v(k)):
                e=[a==b for a,b in zip(r,val)]
                G.pc.extend(e)
    def S0v(k): return base0.get(k)
    def recs(cf,v0):
        out=[]
        if isinstance(cf,Rec):
            v=cf.v0
            if cf.k=='c': out.append(([x(BitVecVal(0,64)) for x in cf.F],list(v)))
            elif cf.k=='v':
                if isinstance(v,AVTerm): out.append(([cf.F[0](BitVecVal(0,64))],[v.t]))
            else:
                s=cf.F[0](BitVecVal(0,64))
                if isinstance(v,bool): v=BoolVal(v)
                if isinstance(v,int): v=BitVecVal(v,s.size())
                out.append(([s],[v]))
        elif isinstance(cf,Wrap): out+=recs(cf.inner,None)
        return out
    base0={}
    qbody=[]; inv=[]     # inv: signs of counters, proved inductively
    facts=[]     # (template over nv) list of Bool terms true for every completed iteration
    def qfacts():
        qs=[]
        for t in facts:
            qs.append(QF(B64,lambda k,t=t:Implies(ULT(k,n),nsub(t,nv,k))))
            acc={}; terms.scan(t,acc)
            if any(a.decl().name() in IDXFN and a.arg(a.num_args()-1).eq(n1) for a in acc.values() if a.num_args()):
                # the same fact, indexed by the element it speaks about
                qs.append(QF(B64,lambda k,t=t:Implies(And(k!=0,ULE(k,n)),subst(t,[(n1,k),(z3.simplify(nv+1),simp(Extract(31,0,k))),(n,simp(k-1)),(nv,simp(Extract(31,0,k)-1))]))))
        for g,q in qbody:
            if isinstance(q,QFN): continue
            K=Const('Q!%d'%uid(),B64); b=QF.__new__(QF); b.sort=q.sort; b.K=q.K; b.body=nsub(q.body,nv,K)
            qs.append(QFN(K,And_(ULT(K,n),nsub(g,nv,K)),b))
        return qs
    stable=False; tried={}; delayed={}; banned=set(); keepT=[]
    def early_bounds():
        """an iterator over a sequence does not pass its end: assumed while closed forms are guessed, proved inductive before use"""
        if not getattr(m,'caps',None): return []
        out=[]
        for k,cf in cfs.items():
            if isinstance(cf,Wrap) and isinstance(cf.inner,Lin) and cf.inner.c==1 and conc(b64(cf.inner.v0))==0:
                p=cf.at(n)
                if isinstance(p,Ptr) and p.rid in S0.mem and S0.mem[p.rid].kind=='arr':
                    T=simp(S0.mem[p.rid].seq.n)
                    if T.get_id() not in banned and not any(T.eq(x) for x in out): out.append(T)
        return out
    G=None
    for rnd in range(10):
        G=generalise()
        early=early_bounds(); G.pc.extend(ULE(n,T) for T in early)
        mark=len(terms.FRESH)
        m.quiet+=1; q0=getattr(m,'qfail',None); m.qfail=[]
        try: res=m.run(G.copy(),fidx,lspec)
        finally: m.quiet-=1; qf=m.qfail; m.qfail=q0
        frs=terms.FRESH[mark:]
        backs=[B for k,B in res if k=='back']
        if not backs: break
        if getattr(m,'walkfn',None) and not walks:
            for i in f.blocks[header]:
                if i.op!='phi': break
                p=G.frames[fidx].regs.get(i.dst)
                if gc_ptr(m,G,p) and any(isinstance(q,Ptr) and q.rid!=p.rid and gc_ptr(m,B,q) for B in backs for q in [B.frames[fidx].regs[i.dst]]):
                    N=S0.copy(); rid=N.cells(16,name='walk'); N.setcell(rid,0,16,GCV(NOTYPE)); w={i.dst:rid}
                    walk_renorm(m,N,fidx,w)
                    v0=m.gc_get(N,Ptr(rid))
                    if not m.valid_goal(N,Eq(v0,AVTerm(m.walkfn(BitVecVal(0,64))))): raise Unsupported('walk does not start at the given container')
                    return summarise(m,N,header,w)
        if walks:
            for B in backs: walk_renorm(m,B,fidx,walks,G)
        path_conds(G,backs,frs)
        if rnd==0 and len(backs)>3:
            # a body that dispatches on a loop-invariant type tag: one loop per type
            for t in inv_tags(G,backs,nv,S0):
                cs=[t==BitVecVal(i,32) for i in range(21)]
                ok=[c for c in cs if m.feasible(S0,c)]
                if len(ok)>1: raise Split(ok)
        # changed items
        keys=[]
        for B in backs:
            for k in diff_keys(m,G,B,fidx,header):
                if k not in keys: keys.append(k)
        for k in cfs:
            if k not in keys: keys.append(k)
        ok=True; new={}
        for k in keys:
            # a container whose owned object is updated in place by the body: give the object an identity before the loop
            if k[0]=='cell' and k not in cfs and isinstance(get_item(m,S0,k,fidx),(GCV,Lazy)):
                if any(isinstance(get_item(m,B,k,fidx),Ptr) and B.mem[get_item(m,B,k,fidx).rid].kind!='detached' for B in backs):
                    N=S0.copy()
                    av=get_item(m,N,k,fidx).av
                    T=m.tag_of(N,av)
                    if isinstance(T,int) and T>=6:
                        m.gc_payload_ptr(N,Ptr(k[1],0,k[2]))
                        return summarise(m,N,header)
        m.cur_cfs=cfs
        for k in keys:
            if k[0]=='alive': raise Unsupported('storage released inside a loop')
            old=get_item(m,G,k,fidx)
            if k[0]=='cell':
                ex=[x for x in ([cell_size(G,k)] if old is not None else [])+[cell_size(B,k) for B in backs if get_item(m,B,k,fidx) is not None]]
                if old is None:
                    # created inside the body
                    if k in cfs: continue
                    new[k]=StaleCF(); sizes[k]=ex[0]; base0[k]=None; ok=False; continue
                sizes[k]=cell_size(G,k)
                if any(get_item(m,B,k,fidx) is None for B in backs):
                    if isinstance(old,(Stale,)): continue
                    raise Unsupported('loop destroys an object')
            if k not in cfs:
                base0[k]=get_item(m,S0,k,fidx)
            vals=None
            if k[0] in('reg','cell'):
                vals=[(B.pcond,get_item(m,B,k,fidx)) for B in backs]
                try: nvv=merge_vals(vals)
                except Unsupported:
                    if any(isinstance(v,(int,bool)) for _,v in vals) and is_expr(vals[0][1])==False:
                        w=(sizes.get(k) or 0)*8 if k[0]=='cell' else phi_width(m,G,fidx,header,k[1])
                        vals=[(c,(bv(v,w) if w!=1 else bl(v))) for c,v in vals]; nvv=merge_vals(vals)
                    else: raise
            else: nvv=None
            if k in cfs:
                # inductive?
                cf=cfs[k]; good=True
                exp=cf.at(n1)
                if isinstance(cf,SeqHavoc) and cf.grow is not None:
                    if all(m.valid(B,m.arr_seq(B,k[1]).n==exp.n) for B in backs): continue
                    ok=False; new[k]=rebase(SeqHavoc(cf.kind,None,cf.base),folded(m,S0,k,fidx)); continue
                if isinstance(cf,(StaleCF,SeqHavoc,MapHavoc)): continue
                core=cf.inner if isinstance(cf,Wrap) else cf
                if isinstance(core,Rec): continue
                for B in backs:
                    g=eq_item(m,B,get_item(m,B,k,fidx),exp)
                    if g is True: continue
                    if g is False or not m.valid_goal(B,g): good=False; break
                if good: continue
                ok=False
                # try a new guess from the general iteration before giving up
                g=None
                if tried.get(k,0)<2:
                    g=guess(m,k,old,nvv,G,backs,n,nv,fidx,False,(sizes.get(k) or 0)*8 or phi_width(m,G,fidx,header,k[1] if k[0]=='reg' else None))
                    tried[k]=tried.get(k,0)+1
                    if g is not None and g.same(cf): g=None if not isinstance(g,(SeqCF,MapCF)) else g
                if g is None:
                    w=phi_width(m,G,fidx,header,k[1]) if k[0]=='reg' else (sizes.get(k) or 0)*8
                    g=demote(base0[k],k,S0,w)
                    if g is None: raise Unsupported('loop item %s'%(k,))
                new[k]=rebase(g,folded(m,S0,k,fidx)); continue
            ok=False
            w=(sizes.get(k) or 0)*8 if k[0]=='cell' else (phi_width(m,G,fidx,header,k[1]) if k[0]=='reg' else None)
            if k[0] in('arr','map') and not delayed.get(k) and any(q not in cfs for q in keys if q[0] in('reg','cell')):
                delayed[k]=1; continue
            g=guess(m,k,old,nvv,G,backs,n,nv,fidx,True,w)
            if g is None:
                g=demote(base0[k],k,S0,w)
                if g is None: raise Unsupported('loop item %s %r'%(k,old))
            new[k]=rebase(g,folded(m,S0,k,fidx))
        cfs.update(new)
        if ok:
            bad=[T for T in early if not all(m.valid(B,ULE(n1,T)) for B in backs)]
            if bad: banned.update(T.get_id() for T in bad); keepT.extend(bad); continue
            inv.extend(ULE(n,T) for T in early); stable=True; break
    if not backs:
        # body never continues: at most one partial iteration from the start state
        out=m.run(S0.copy(),fidx,lspec)
        return [q for k,q in out]
    if not stable: raise Unsupported('no inductive closed form found')
    # values that do not depend on their predecessor: "last iteration" form
    chg=False
    for k,cf in list(cfs.items()):
        core=cf.inner if isinstance(cf,Wrap) else cf
        if isinstance(core,Rec):
            vals=[(B.pcond,get_item(m,B,k,fidx)) for B in backs]
            try: v=merge_vals(vals)
            except Unsupported: continue
            cv=strip(v)
            if cv is None: continue
            core.step=cv
    # per-iteration facts
    sk=[]
    for c in frs:
        fn=Function('it_'+c.decl().name(),B64,c.sort()); sk.append((c,fn(n)))
    def lift(t): return subst(t,sk) if sk else t
    disj=[]
    for B in backs:
        pcs=[]; seen=set()
        for x in B.pc[len(G.pc):]:
            if x.get_id() in B.lem or x.get_id() in seen: continue
            seen.add(x.get_id()); pcs.append(x)
        disj.append(And_(B.pcond,*pcs) if B.psel else And_(*pcs))
    cont=lift(Or_(*disj))
    facts.append(cont)
    for B in backs:
        for q in B.qf[len(G.qf):]: qbody.append((lift(B.pcond) if B.psel else BoolVal(True),q.subst(sk) if sk else q))
    for k,cf in cfs.items():
        core=cf.inner if isinstance(cf,Wrap) else cf
        if isinstance(core,Rec) and getattr(core,'step',None) is not None:
            nx=core.at(n1); stp=core.step
            if isinstance(nx,tuple): facts.append(lift(And_(*[a==b for a,b in zip(nx,stp)])))
            elif isinstance(nx,AVTerm):
                if isinstance(stp,AVTerm): facts.append(lift(nx.t==stp.t))
            else:
                if isinstance(stp,bool): stp=BoolVal(stp)
                if isinstance(stp,int): stp=BitVecVal(stp,nx.size())
                facts.append(lift(nx==stp))
        if isinstance(core,(SeqCF,MapCF,BlockCF)) and core.val is not None and sk: core.val=subst(core.val,sk)
    extra_rec_facts(m,G,cfs,facts,nv,n,n1,backs,lift,S0,base0,fidx)
    facts0(m,G,cfs,nv,n,n1,backs,S0,inv,fidx)
    # bound on the number of iterations (termination)
    m.more_bounds=[]; bound=find_bound(m,G,backs,cont,n,nv,S0); inv.extend(ULE(n,T) for T in m.more_bounds)
    if m.quiet==0: m.obl_count('termination',f.demangled,S0)
    if bound is None:
        ter=('nontermination','loop at line %s has no provable bound on its iterations'%(m.line(S0),))
        if m.quiet==0:
            m.viol.append(Violation('termination',m.cur,m.line(S0),ter[1],S0.copy(),[],None,'unknown',name='termination'))
        else: m.qfail.append(ter)
    # leaks inside the body
    for B in backs:
        for r in m.leaks(B):
            if r.rid not in G.mem: 
                try: m.fail(B.copy(),'leak','storage %s allocated in a loop iteration is lost'%r.name)
                except PathDead: pass
    G=generalise(True)
    for r in (walks or {}).values():
        m.walkv=dict(getattr(m,'walkv',{})); m.walkv[r]=m.gc_get(G.copy(),Ptr(r))
    for k,cf in cfs.items():
        core=cf.inner if isinstance(cf,Wrap) else cf
        if hasattr(core,'pcfacts'): G.pc.extend(core.pcfacts); G.idx.extend(getattr(core,'ws',[]))
        if hasattr(core,'qffacts'):
            for q in core.qffacts: q.grp='loop%s'%nv
            G.qf.extend(core.qffacts)
    res=m.run(G,fidx,lspec)
    outs=[q for k,q in res if k!='back']
    return outs

def folded(m,S0,k,fidx):
    if k[0]=='arr':
        T=S0.copy(); return m.arr_seq(T,k[1])
    if k[0]=='map':
        T=S0.copy(); return m.map_c(T,k[1])
    return get_item(m,S0,k,fidx)
def strip(v):
    if isinstance(v,(StrM,OstrM)): return v.v
    if isinstance(v,GCV): return v.av
    if isinstance(v,OPtr): return v.t
    if isinstance(v,Ptr): return b64(v.idx)
    if isinstance(v,(Stale,Undef)): return None
    return v

def facts0(m,G,cfs,nv,n,n1,backs,S0,inv,fidx):
    """decreasing 32-bit counters (remaining space) never become negative: proved by induction before use"""
    for k,cf in cfs.items():
        if not(isinstance(cf,Psum) and cf.sign<0 and cf.w==32 or isinstance(cf,Lin) and cf.w==32 and isinstance(cf.c,int) and (cf.c<0 or cf.c>>31)): continue
        if not m.valid(S0,bv(cf.v0,32)>=0): continue
        c=bv(cf.at(n),32)>=0; d=bv(cf.at(n1),32)>=0
        ok=True
        for B in backs:
            H=B.copy(); H.pc.append(c)
            if not m.valid(H,d): ok=False; break
        if ok: inv.append(c)
    # increasing 32-bit counters (bytes consumed) stay below the given limits
    for k,cf in cfs.items():
        if not(isinstance(cf,Psum) and cf.sign>0 and cf.w==32 or isinstance(cf,Lin) and cf.w==32 and isinstance(cf.c,int) and 0<cf.c<(1<<31)): continue
        for cap in getattr(m,'caps',[]):
            def up(i): return ZeroExt(32,bv(cf.v0,32))+(cf.fn(simp(i)) if isinstance(cf,Psum) else i*BitVecVal(cf.c,64))
            if not m.valid(S0,ULE(ZeroExt(32,bv(cf.v0,32)),cap)): continue
            c=ULE(up(n),cap); d=ULE(up(n1),cap)
            if all(m.valid(with_pc(B,c),d) for B in backs): inv.append(c)
    # a position counter and the pointer it goes with (both of unknown stride)
    buf=getattr(m,'capbuf',None)
    if buf is None: return
    for kp,cp in cfs.items():
        if not(isinstance(cp,Wrap) and isinstance(cp.at(n),Ptr) and cp.at(n).rid==buf and isinstance(cp.inner,Rec)): continue
        for k,cf in cfs.items():
            if not(isinstance(cf,Rec) and z3.is_bv(cf.at(n)) and cf.at(n).size()==32): continue
            for cap in m.caps:
                x0=get_item(m,S0,k,fidx); lo=bv(x0,32) if isinstance(x0,int) and x0<1<<31 else BitVecVal(0,32)
                def rel(x,p): x=bv(x,32); return And(x>=lo,SignExt(32,x)<=cap,b64(p.idx)==SignExt(32,x))
                if not m.valid(S0,rel(get_item(m,S0,k,fidx),get_item(m,S0,kp,fidx))): continue
                c=rel(cf.at(n),cp.at(n))
                if all(valid_parts(m,with_pc(B,c),rel(get_item(m,B,k,fidx),get_item(m,B,kp,fidx))) for B in backs): inv.append(c)
def valid_parts(m,B,g):
    """conjunct by conjunct, from the path condition alone if that suffices"""
    for x in (g.children() if z3.is_and(g) else [g]):
        acc={}; terms.scan(x,acc); ids=set(acc)
        def near(c):
            a={}; terms.scan(c,a); return all(i in ids or t.num_args()==0 for i,t in a.items())
        if check_sat([c for c in B.pc if near(c)]+[Not(x)],[],timeout=m.tmo,exact=False)[0]=='unsat': continue
        if check_sat(B.pc+[Not(x)],[],timeout=m.tmo,exact=False)[0]=='unsat' or m.valid(B,x): continue
        return False
    return True
def with_pc(B,c):
    H=B.copy(); H.pc.append(c); return H

def extra_rec_facts(m,G,cfs,facts,nv,n,n1,backs,lift,S0,base0,fidx):
    """derived facts for recurrences: sticky values and monotone maxima, each proved before use"""
    for k,cf in cfs.items():
        core=cf.inner if isinstance(cf,Wrap) else cf
        if not isinstance(core,Rec) or getattr(core,'step',None) is None: continue
        if core.k in('c','v'): continue
        cur=core.at(n); stp=core.step; v0=core.v0
        if isinstance(v0,bool): v0=BoolVal(v0)
        if isinstance(v0,int): v0=BitVecVal(v0,cur.size())
        if isinstance(stp,bool): stp=BoolVal(stp)
        if isinstance(stp,int): stp=BitVecVal(stp,cur.size())
        core.pcfacts=[]; core.qffacts=[]
        H=G.copy()
        # independent of predecessor -> last-iteration form
        if not mention_decl(stp,core.F[0]):
            core.pcfacts.append(Implies(n!=0,cur==nsub(lift(stp),nv,n-1)))
        # sticky: once different from v0 never changes
        if m.valid(H,Implies(cur!=v0,stp==cur)):
            F=core.F[0]
            core.qffacts.append(QF(B64,lambda j:Implies(And(ULE(j,n),cur==v0),F(j)==v0)))
            w=fresh('w',B64); core.ws=getattr(core,'ws',[])+[w]
            core.pcfacts.append(Implies(cur!=v0,And(ULT(w,n),F(w)==v0,nsub(lift(stp),nv,w)==cur,nsub(facts[0],nv,w))))
        elif cur.sort()==S:
            # text that only grows: while its length is the initial one nothing was added, and otherwise some iteration added the first piece
            F=core.F[0]; L=f_slen
            if m.valid(H,UGE(L(stp),L(cur))):
                core.qffacts.append(QF(B64,lambda j:Implies(ULE(j,n),And(ULE(L(F(j)),L(cur)),UGE(L(F(j)),L(v0))))))
                core.qffacts.append(QF(B64,lambda j:Implies(ULT(j,n),ULE(L(nsub(lift(stp),nv,j)),L(cur)))))
                w=fresh('w',B64); core.ws=getattr(core,'ws',[])+[w]
                core.pcfacts.append(Implies(L(cur)!=L(v0),And(ULT(w,n),L(F(w))==L(v0),L(nsub(lift(stp),nv,w))!=L(v0),nsub(facts[0],nv,w))))
        elif z3.is_bv(cur):
            F=core.F[0]
            if m.valid(H,UGE(stp,cur)):
                core.qffacts.append(QF(B64,lambda j:Implies(ULE(j,n),And(ULE(F(j),cur),UGE(F(j),v0)))))
                w=fresh('w',B64); core.ws=getattr(core,'ws',[])+[w]
                core.pcfacts.append(Implies(cur!=v0,And(ULT(w,n),F(w)!=cur,nsub(lift(stp),nv,w)==cur,nsub(facts[0],nv,w))))

def find_bound(m,G,backs,cont,n,nv,S0):
    cands={}; prio=set()
    def top(t):
        # the other side of a comparison with the counter: tried first
        if t.decl().kind() in(z3.Z3_OP_NOT,z3.Z3_OP_AND,z3.Z3_OP_OR):
            for x in t.children(): top(x)
        elif t.num_args()==2 and z3.is_bv(t.arg(0)) and z3.is_bv(t.arg(1)):
            for x,y in((t.arg(0),t.arg(1)),(t.arg(1),t.arg(0))):
                if mentions(x,nv) and not mentions(y,nv) and y.size() in(32,64): prio.add(z3.simplify(y if y.size()==64 else ZeroExt(32,y)).get_id())
    def collect(t):
        st=[t]; seen=set()
        while st:
            y=st.pop()
            if y.get_id() in seen: continue
            seen.add(y.get_id())
            if z3.is_bv(y) and not mentions(y,nv):
                s=y.size()
                if s in(32,64):
                    x=y if s==64 else ZeroExt(32,y)
                    cands.setdefault(z3.simplify(x).get_id(),z3.simplify(x))
            st.extend(y.children())
    for B in backs:
        for c in B.pc[len(G.pc):]: collect(c); top(c)
    cl=list(cands.values())
    # differences of candidates (pointer ranges)
    base=[c for c in cl if not z3.is_bv_value(c)]
    for B in backs:
        for T in cl:
            pass
    def good(T):
        for B in backs:
            g=And(ULT(n,T),ULE(T,BitVecVal((1<<31),64)))
            if m.valid(B,g): continue
            H=B.copy(); H.pc.append(Implies(ULT(T,n),nsub(cont,nv,T)))
            if not m.valid(H,g): return False
        return True
    cl.sort(key=lambda c:(c.get_id() not in prio,z3.is_bv_value(c),len(str(c)[:200])))
    got=[T for T in cl if T.get_id() in prio and good(T)] if getattr(m,'caps',None) else []
    if got:
        m.more_bounds=got[1:]; return got[0]
    for T in cl:
        if good(T): return T
    for a in base:
        for b in cl:
            if a.eq(b): continue
            T=z3.simplify(a-b)
            if good(T): return T
    for a in base:
        T=z3.simplify(a+1)
        if good(T): return T
    return None
