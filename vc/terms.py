"""Logical vocabulary: sorts, abstract container values (AV), sequences, finite maps, axiom instantiation, solver."""
import os,sys,z3, itertools, time
from z3 import (BitVec, BitVecVal, BitVecSort, Bool, BoolVal, And, Or, Not, Implies, If, ULT, ULE, UGT, UGE,
                ZeroExt, SignExt, Extract, Concat, is_expr, is_true, is_false, substitute, Function, DeclareSort, Const, BoolSort)

NAMES=['NOTYPE','POINTER','BOOL','INTEGER','LONG','REAL','COMPLEX','STRING','VEC_POINTER','VEC_BOOL','VEC_INTEGER','VEC_LONG',
 'VEC_REAL','VEC_COMPLEX','VEC_STRING','MAT_INTEGER','MAT_LONG','MAT_REAL','MAT_COMPLEX','VECTOR','MAP']
TAG={n:i for i,n in enumerate(NAMES)}
SCAL={1:'p',2:'b',3:'i',4:'l',5:'r',6:'c',7:'s'}
VEC={8:'p',9:'b',10:'i',11:'l',12:'r',13:'c',14:'s',19:'v'}
MAT={15:'i',16:'l',17:'r',18:'c'}
MAXLEN=(1<<31)-1

V=DeclareSort('V'); S=DeclareSort('S')
B8=BitVecSort(8); B32=BitVecSort(32); B64=BitVecSort(64); F64=z3.Float64(); F32=z3.Float32()
RNE=z3.RNE(); RTZ=z3.RTZ(); RNA=z3.RNA()
f_tag=Function('tag',V,B32)
KSORT={'p':B64,'b':BoolSort(),'i':B32,'l':B64,'r':F64,'s':S,'v':V,'u8':B8,'u32':B32,'u64':B64,'f32':F32,'i8':B8}
ELTSIZE={'p':8,'b':1,'i':4,'l':8,'r':8,'c':16,'s':32,'v':16,'u8':1,'u32':4,'u64':8,'gp':8,'f32':4,'i8':1}
f_s={k:Function('s_'+k,V,KSORT[k]) for k in 'pbilrs'}
f_sc=(Function('s_cr',V,F64),Function('s_ci',V,F64))
f_e={k:Function('e_'+k,V,B64,KSORT[k]) for k in 'pbilrsv'}
f_ec=(Function('e_cr',V,B64,F64),Function('e_ci',V,B64,F64))
f_len=Function('vlen',V,B64); f_rows=Function('rows',V,B32); f_cols=Function('cols',V,B32)
f_card=Function('card',V,B64); f_has=Function('mhas',V,S,BoolSort()); f_val=Function('mval',V,S,V)
f_keyat=Function('keyat',V,B64,S); f_rank=Function('rank',V,S,B64)
f_slen=Function('slen',S,B64); f_sch=Function('sch',S,B64,B8)
f_slt=Function('slt',S,S,BoolSort())
f_cat=Function('scat',S,S,S)
# 32-bit products of two symbolic terms are kept abstract (axioms below) and made exact before a counterexample is believed
f_mul=Function('mul32',B32,B32,B32); f_mulok=Function('mulok',B32,B32,BoolSort())
f_sdiv=Function('sdiv32',B32,B32,B32)     # signed quotient of two symbolic numbers: abstract, with the link to products below
def sdiv_pair(d,a):
    """x <= A/y gives x*y <= A (all non-negative); a = mul32(x,y) or mulok(x,y)"""
    A,B=d.arg(0),d.arg(1); out=[]
    for x,y in((a.arg(0),a.arg(1)),(a.arg(1),a.arg(0))):
        if y.eq(B): out.append(Implies(And(A>=0,B>0,x>=0,x<=d),And(f_mulok(x,y),ULE(f_mul(x,y),A))))
    return out
def fpbits(x):
    """bit pattern of a real (the payload of NaNs is not distinguished)"""
    n=x.sort().ebits()+x.sort().sbits()
    return z3.If(z3.fpIsNaN(x),BitVecVal(0x7ff8<<48 if n==64 else 0x7fc0<<16,n),z3.fpToIEEEBV(x))
def mul32(a,b):
    a,b=(BitVecVal(x,32) if isinstance(x,int) else x for x in(a,b))
    if CONCRETE[0]: a,b=z3.simplify(a),z3.simplify(b)
    if z3.is_bv_value(a) or z3.is_bv_value(b): return z3.simplify(a*b)
    return f_mul(a,b)
def mulok(a,b):
    """a*b does not overflow 32 bits and is a legal container size"""
    a,b=(BitVecVal(x,32) if isinstance(x,int) else x for x in(a,b))
    if CONCRETE[0]: a,b=z3.simplify(a),z3.simplify(b)
    if z3.is_bv_value(a) or z3.is_bv_value(b): return And(z3.BVMulNoOverflow(a,b,False),ULE(a*b,MAXLEN))
    return f_mulok(a,b)
_mul_cache={}
def cached(fn):
    def g(*a):
        k=(fn.__name__,)+tuple(x.get_id() for x in a); r=_mul_cache.get(k)
        if r is None:
            if len(_mul_cache)>100000: _mul_cache.clear()
            r=_mul_cache[k]=(a,fn(*a))
        return r[1]
    return g
def mul_axioms(a,others):
    out=list(mul_one(a))
    if a.decl().name()=='mul32':
        for o in others: out+=mul_pair(a,o)
    return out
@cached
def mul_one(a):
    n=a.decl().name(); x,y=a.arg(0),a.arg(1); out=[]
    if n=='mulok':
        m=f_mul(x,y)
        out+=[a==f_mulok(y,x),Implies(a,ULE(m,MAXLEN))]
        if z3.is_bv_value(x) or z3.is_bv_value(y): out.append(a==And(z3.BVMulNoOverflow(x,y,False),ULE(x*y,MAXLEN)))
        else: out+=[Implies(x==0,a),Implies(y==0,a),Implies(And(x==1,ULE(y,MAXLEN)),a),Implies(And(y==1,ULE(x,MAXLEN)),a)]
        return out
    if z3.is_bv_value(x) or z3.is_bv_value(y): return [a==x*y]
    out+=[a==f_mul(y,x),Implies(x==0,a==0),Implies(y==0,a==0),Implies(x==1,a==y),Implies(y==1,a==x),
          Implies(And(f_mulok(x,y),y!=0),ULE(x,a)),Implies(And(f_mulok(x,y),x!=0),ULE(y,a))]
    return out
@cached
def mul_pair(a,o):
    x,y=a.arg(0),a.arg(1); u,v=o.arg(0),o.arg(1); out=[]
    if v.eq(y) and not any(z3.is_bv_value(t) for t in(x,y)):
        for p,q,P,Q in((x,u,a,o),(u,x,o,a)):
            out.append(Implies(And(ULT(p,q),f_mulok(q,y)),And(ULE(P+y,Q),ULE(P,P+y),f_mulok(p,y),Implies(q==p+1,Q==P+y))))
    return out

# column/row of a column-major position: abstract, characterised by k = q*r + m, m < r
f_div=Function('ix_div',B32,B64,B64); f_mod=Function('ix_mod',B32,B64,B64)
def _ixf(f,op):
    def g(r,k):
        r,k=simp(r),simp(k)
        if z3.is_bv_value(r) and z3.is_bv_value(k) and r.as_long(): return BitVecVal(op(k.as_long(),r.as_long()),64)
        return f(r,k)
    return g
ix_div=_ixf(f_div,lambda a,b:a//b); ix_mod=_ixf(f_mod,lambda a,b:a%b)
def divmod_axioms(app):
    r,k=app.arg(0),app.arg(1); q,m=f_div(r,k),f_mod(r,k); q32=Extract(31,0,q)
    if z3.is_bv_value(r) and z3.is_bv_value(k) and r.as_long(): return [app==(k.as_long()//r.as_long() if app.decl().eq(f_div) else k.as_long()%r.as_long())]
    pr=mul32(q32,r)
    return [Implies(And(r!=0,ULE(k,MAXLEN)),And(k==ZeroExt(32,pr)+m,ULT(m,ZeroExt(32,r)),ULE(q,k),mulok(q32,r)))]
@cached
def divmul_axioms(d,p):
    """position k = q*r+m against a column start x*r (consequences of the above, stated without additions)"""
    r,k=d.arg(0),d.arg(1); q=d; out=[]
    for x,y in((p.arg(0),p.arg(1)),(p.arg(1),p.arg(0))):
        if not y.eq(r) or x.eq(z3.simplify(Extract(31,0,q))) or x.eq(Extract(31,0,q)): continue
        g=And(r!=0,ULE(k,MAXLEN),f_mulok(x,r)); P=ZeroExt(32,p); X=ZeroExt(32,x); o=z3.simplify(k-P)
        out+=[Implies(g,ULE(P,k)==ULE(X,q)),Implies(g,ULT(o,ZeroExt(32,r))==(X==q)),Implies(And(g,X==q),o==f_mod(r,k))]
    return out
# "the real differs from the nearest integer by zero or a subnormal amount": abstract until a counterexample has to be believed
f_isint=Function('isint',z3.Float64(),BoolSort())
def isint_def(x):
    d=z3.fpSub(z3.RNE(),x,z3.fpRoundToIntegral(z3.RNA(),x)); return Or(z3.fpIsZero(d),z3.fpIsSubnormal(d))
def isint_axioms(app):
    x=app.arg(0)
    return [Implies(app,And(Not(z3.fpIsNaN(x)),Not(z3.fpIsInf(x))))]
_ctr=itertools.count(1)
FRESH=[]          # log of fresh constants (name order) so loops can skolemise them
def fresh(name,sort):
    c=Const('%s!%d'%(name,next(_ctr)),sort)
    FRESH.append(c)
    return c
def uid(): return next(_ctr)
def fresh_kind(kind,name):
    if kind=='c': return (fresh(name+'r',F64),fresh(name+'i',F64))
    if kind=='v': return AVTerm(fresh(name,V))
    if kind=='s': return fresh(name,S)
    return fresh(name,KSORT[kind])

def bv(x,w):
    if isinstance(x,bool): return BitVecVal(1 if x else 0,w)
    if isinstance(x,int): return BitVecVal(x,w)
    if isinstance(x,z3.BoolRef): return If(x,BitVecVal(1,w),BitVecVal(0,w))
    return x
def b64(x): return bv(x,64)
def bl(x): return BoolVal(x) if isinstance(x,bool) else x
def simp(x):
    return z3.simplify(x) if is_expr(x) else x
def tobool(x):
    """z3/py bool -> python bool if decided syntactically"""
    if isinstance(x,bool): return x
    x=z3.simplify(x)
    if is_true(x): return True
    if is_false(x): return False
    return x
def conc(x):
    """BV expr -> python int if literal"""
    if isinstance(x,int): return x
    if z3.is_bv_value(x): return x.as_long()
    y=z3.simplify(x)
    if z3.is_bv_value(y): return y.as_long()
    return y
def And_(*a):
    a=[bl(x) for x in a if x is not True]
    if any(is_false(x) for x in a): return BoolVal(False)
    a=[x for x in a if not is_true(x)]
    if not a: return BoolVal(True)
    return a[0] if len(a)==1 else And(*a)
def Or_(*a):
    a=[bl(x) for x in a]
    if any(is_true(x) for x in a): return BoolVal(True)
    a=[x for x in a if not is_false(x)]
    if not a: return BoolVal(False)
    return a[0] if len(a)==1 else Or(*a)

def subst(x,m):
    if x is None or isinstance(x,(int,bool,str,float)): return x
    if is_expr(x): return substitute(x,*m)
    if isinstance(x,tuple): return tuple(subst(y,m) for y in x)
    if hasattr(x,'subst'): return x.subst(m)
    raise TypeError('subst %r'%(x,))
def ite(c,a,b):
    if isinstance(c,bool): return a if c else b
    if is_true(c): return a
    if is_false(c): return b
    if a is b: return a
    if isinstance(a,tuple): return tuple(ite(c,x,y) for x,y in zip(a,b))
    if isinstance(a,AV) or isinstance(b,AV):
        if isinstance(a,AVTerm) and isinstance(b,AVTerm):
            if a.t.eq(b.t): return a
            return AVTerm(If(c,a.t,b.t))
        return AVIte(c,a,b)
    if is_expr(a) and is_expr(b) and a.eq(b): return a
    if isinstance(a,bool) and isinstance(b,bool):
        return c if a and not b else (Not(c) if b and not a else a)
    if isinstance(a,bool): a=BoolVal(a)
    if isinstance(b,bool): b=BoolVal(b)
    if isinstance(a,int): a=BitVecVal(a,b.size())
    if isinstance(b,int): b=BitVecVal(b,a.size())
    return If(c,a,b)

# ---------------------------------------------------------------- strings
LITS={}
def lit(bs):
    """S constant for a literal byte string"""
    if isinstance(bs,str): bs=bs.encode('latin1')
    if bs not in LITS: LITS[bs]=Const('lit%d_%s'%(len(LITS),''.join(chr(c) if 32<c<127 and c not in(124,92) else '_' for c in bs[:24])),S)
    return LITS[bs]
LITINV={}
def lit_bytes(t):
    for k,v in LITS.items():
        if v.eq(t): return k
    return None
EMPTY=lit(b'')
def slen(s):
    b=lit_bytes(s)
    return BitVecVal(len(b),64) if b is not None else f_slen(s)

# ---------------------------------------------------------------- sequences
class Seq:
    """n elements; get(k) element value (z3 term / (re,im) / AV)"""
    def __init__(s,n,fn,tag=None): s.n=b64(n); s.fn=fn; s.tag=tag
    def get(s,k): return s.fn(b64(k))
    def store(s,i,v): return StoreSeq(s,b64(i),v)
    def with_len(s,n,pad): return PadSeq(s,n,pad)
    def subst(s,m): return SubSeq(s,m)
class StoreSeq(Seq):
    def __init__(s,base,i,v): s.base=base; s.i=i; s.v=v; s.n=base.n
    def get(s,k):
        k=b64(k)
        c=tobool(k==s.i)
        if c is True: return s.v
        if c is False: return s.base.get(k)
        return ite(c,s.v,s.base.get(k))
class PadSeq(Seq):
    """resize: old elements kept below old length, pad value above"""
    def __init__(s,base,n,pad): s.base=base; s.n=b64(n); s.pad=pad
    def get(s,k):
        k=b64(k)
        c=tobool(ULT(k,s.base.n))
        if c is True: return s.base.get(k)
        if c is False: return s.pad
        return ite(c,s.base.get(k),s.pad)
class SubSeq(Seq):
    def __init__(s,base,m): s.base=base; s.m=m; s.n=subst(base.n,m); s.K=None
    def get(s,k):
        if s.K is None:
            s.K=Const('K!%d'%uid(),B64); s.body=subst(s.base.get(s.K),s.m)
        return subst(s.body,[(s.K,b64(k))])
class RangeSeq(Seq):
    """elements in [lo,lo+cnt) come from fn(k-lo) (or descending), the rest from base"""
    def __init__(s,base,n,cond,fn): s.base=base; s.n=b64(n); s.cond=cond; s.fn2=fn
    def get(s,k):
        k=b64(k)
        c=tobool(s.cond(k))
        if c is True: return s.fn2(k)
        if c is False: return s.base.get(k)
        return ite(c,s.fn2(k),s.base.get(k))

# ---------------------------------------------------------------- maps
MAPFN={}   # decl name -> MapC (fresh versions)
class MapC:
    def __init__(s,has,val,card=None,keyat=None,rank=None):
        s.has=has; s.val=val
        if card is None:
            u=uid(); s.u=u
            card=fresh('mcard',B64)
            fk=Function('keyat!%d'%u,B64,S); fr=Function('rank!%d'%u,S,B64)
            keyat=lambda p:fk(b64(p)); rank=lambda k:fr(k)
            MAPFN['keyat!%d'%u]=s; MAPFN['rank!%d'%u]=s
        s.card=card; s.keyat=keyat; s.rank=rank
    def store(s,key,v):
        h=s.has(key)
        n=MapC(lambda k:Or_(k==key,s.has(k)), lambda k:ite(tobool(k==key),v,s.val(k)))
        n.card=simp(If(bl(h),s.card,s.card+1))
        # value-only update keeps the order
        hb=tobool(bl(h))
        n.kept=(s,key); n.wr=(s,key,False)
        return n
    def setval(s,key,v):
        """update the value of an existing key (structure unchanged)"""
        n=MapC(s.has,lambda k:ite(tobool(k==key),v,s.val(k)),s.card,s.keyat,s.rank)
        n.wr=(s,key,True)
        return n
    def erase(s,key):
        n=MapC(lambda k:And_(Not(k==key),s.has(k)), s.val)
        n.card=simp(If(bl(s.has(key)),s.card-1,s.card))
        return n
    def subst(s,m):
        def wrap(fn,sort):
            K=Const('K!%d'%uid(),sort); body=fn(K); b=subst(body,m)
            return lambda k:subst(b,[(K,k if is_expr(k) else b64(k))])
        return MapC(wrap(s.has,S),wrap(s.val,S),subst(s.card,m),wrap(s.keyat,B64),wrap(s.rank,S))
def empty_map():
    return MapC(lambda k:BoolVal(False),lambda k:AVTerm(Const('noval',V)),BitVecVal(0,64),lambda p:EMPTY,lambda k:BitVecVal(0,64))

# ---------------------------------------------------------------- abstract container values
class AV:
    def is_tag(s,t): return tobool(s.tag()==BitVecVal(t,32))
    def as_map(s): return MapC(s.has,s.val,s.card(),s.keyat,s.rank)
    def as_seq(s,kind): return Seq(s.len(),lambda k:s.elem(kind,k))
class AVTerm(AV):
    def __init__(s,t): s.t=t
    def tag(s): return f_tag(s.t)
    def scal(s,k):
        if k=='c': return (f_sc[0](s.t),f_sc[1](s.t))
        return f_s[k](s.t)
    def len(s): return f_len(s.t)
    def elem(s,kind,k):
        k=b64(k)
        if kind=='c': return (f_ec[0](s.t,k),f_ec[1](s.t,k))
        r=f_e[kind](s.t,k)
        return AVTerm(r) if kind=='v' else r
    def rows(s): return f_rows(s.t)
    def cols(s): return f_cols(s.t)
    def has(s,k): return f_has(s.t,k)
    def val(s,k): return AVTerm(f_val(s.t,k))
    def card(s): return f_card(s.t)
    def keyat(s,p): return f_keyat(s.t,b64(p))
    def rank(s,k): return f_rank(s.t,k)
    def subst(s,m): return AVTerm(substitute(s.t,*m))
    def __repr__(s): return 'AV(%s)'%s.t
DEF={'b':BoolVal(False),'r':z3.FPVal(0.0,F64),'s':EMPTY,'c':(z3.FPVal(0.0,F64),z3.FPVal(0.0,F64))}
def dflt(kind):
    if kind in DEF: return DEF[kind]
    if kind=='v': return NOTYPE
    if kind=='f32': return z3.FPVal(0.0,F32)
    if kind=='gp': raise TypeError('gp')
    return BitVecVal(0,KSORT[kind].size())
class AVRec(AV):
    """concrete tag; payload: scalar value | Seq | (Seq,rows,cols) | MapC"""
    def __init__(s,tag,data=None): s.T=tag; s.d=data
    def tag(s): return BitVecVal(s.T,32)
    def scal(s,k): return s.d if SCAL.get(s.T)==k else dflt(k)
    def seq(s):
        if s.T in VEC: return s.d
        if s.T in MAT: return s.d[0]
        return None
    def len(s):
        q=s.seq(); return q.n if q is not None else BitVecVal(0,64)
    def elem(s,kind,k):
        if VEC.get(s.T)==kind or MAT.get(s.T)==kind: return s.seq().get(k)
        return dflt(kind)
    def rows(s): return s.d[1] if s.T in MAT else BitVecVal(0,32)
    def cols(s): return s.d[2] if s.T in MAT else BitVecVal(0,32)
    def _m(s): return s.d if s.T==20 else empty_map()
    def has(s,k): return s._m().has(k)
    def val(s,k): return s._m().val(k)
    def card(s): return s._m().card
    def keyat(s,p): return s._m().keyat(b64(p))
    def rank(s,k): return s._m().rank(k)
    def as_map(s): return s._m()
    def subst(s,m): return AVRec(s.T,None if s.d is None else subst(s.d,m))
    def __repr__(s): return 'AVRec(%s)'%NAMES[s.T]
NOTYPE=AVRec(0)
class AVIte(AV):
    def __init__(s,c,a,b): s.c=c; s.a=a; s.b=b
    def tag(s): return ite(s.c,s.a.tag(),s.b.tag())
    def scal(s,k): return ite(s.c,s.a.scal(k),s.b.scal(k))
    def len(s): return ite(s.c,s.a.len(),s.b.len())
    def elem(s,kind,k): return ite(s.c,s.a.elem(kind,k),s.b.elem(kind,k))
    def rows(s): return ite(s.c,bv(s.a.rows(),32),bv(s.b.rows(),32))
    def cols(s): return ite(s.c,bv(s.a.cols(),32),bv(s.b.cols(),32))
    def has(s,k): return ite(s.c,bl(s.a.has(k)),bl(s.b.has(k)))
    def val(s,k): return ite(s.c,s.a.val(k),s.b.val(k))
    def card(s): return ite(s.c,s.a.card(),s.b.card())
    def keyat(s,p): return ite(s.c,s.a.keyat(p),s.b.keyat(p))
    def rank(s,k): return ite(s.c,s.a.rank(k),s.b.rank(k))
    def subst(s,m): return AVIte(substitute(s.c,*m),subst(s.a,m),subst(s.b,m))

# ---------------------------------------------------------------- quantified facts and goals
def at64(K,k):
    if K.sort()==B64:
        x=z3.simplify(Extract(31,0,k))
        return [(z3.simplify(Extract(31,0,K)),x),(K,k)]
    return [(K,k)]
class QF:
    """forall k (sort B64 or S): body(k)"""
    def __init__(s,sort,body): s.sort=sort; s.K=Const('Q!%d'%uid(),sort); s.body=body(s.K)
    def inst(s,k): return substitute(s.body,*at64(s.K,k))
    def subst(s,m):
        q=QF.__new__(QF); q.sort=s.sort; q.K=s.K; q.body=substitute(s.body,*m); q.noix=getattr(s,'noix',False); q.grp=getattr(s,'grp',None); return q

class QFN:
    """forall k (B64): guard(k) implies the one-variable fact q(k)"""
    def __init__(s,K,guard,q): s.sort=B64; s.K=K; s.guard=guard; s.q=q; s.body=BoolVal(True)
    def inst_q(s,k):
        n=QF.__new__(QF); n.sort=s.q.sort; n.K=s.q.K; n.body=Implies(substitute(s.guard,*at64(s.K,k)),substitute(s.q.body,*at64(s.K,k))); return n
    def subst(s,m): return QFN(s.K,substitute(s.guard,*m),s.q.subst(m))

class Goal: pass
# goals are nested structures built by these helpers and flattened to (hyps, z3 conclusion)
class Forall(Goal):
    def __init__(s,sort,body,guard=None): s.sort=sort; s.body=body
class Eq(Goal):
    """AV equality (structural)"""
    def __init__(s,a,b): s.a=a; s.b=b
class Conj(Goal):
    def __init__(s,*gs): s.gs=gs
class Imp(Goal):
    def __init__(s,h,g): s.h=h; s.g=g

def val_eq(kind,a,b):
    if kind in('c','c32'): return And_(a[0]==b[0],a[1]==b[1])
    if kind=='v': return Eq(a,b)
    return bl(a)==bl(b) if kind=='b' else a==b

CONCRETE=[0]     # >0: contract evaluated on a concrete call (index ranges are enumerated)
def flatten(g,hyps,out,depth=0,name=''):
    """list of (hyps, conclusion, label)"""
    if isinstance(g,(list,tuple)):
        for x in g: flatten(x,hyps,out,depth,name)
    elif isinstance(g,Conj):
        for x in g.gs: flatten(x,hyps,out,depth,name)
    elif isinstance(g,Imp):
        h=g.h
        t=tobool(bl(h))
        if t is False: return
        flatten(g.g,hyps+([] if t is True else [t]),out,depth,name)
    elif isinstance(g,Forall):
        k=fresh('sk',g.sort)
        flatten(g.body(k),hyps,out,depth,name)
    elif isinstance(g,Eq):
        eq_goal(g.a,g.b,hyps,out,depth,name)
    else:
        t=tobool(bl(g)) if not isinstance(g,bool) else g
        if t is True: return
        out.append((hyps,bl(t),name))

def eq_goal(a,b,hyps,out,depth,name):
    if a is b: return
    if isinstance(a,AVTerm) and isinstance(b,AVTerm):
        if a.t.eq(b.t): return
        out.append((hyps,a.t==b.t,name+'.value')); return
    if isinstance(a,AVIte) and not (isinstance(b,AVIte) and a.c.eq(b.c)):
        eq_goal(a.a,b,hyps+[a.c],out,depth,name); eq_goal(a.b,b,hyps+[Not(a.c)],out,depth,name); return
    if isinstance(b,AVIte):
        eq_goal(ite(b.c,a,a) if not isinstance(a,AVIte) else a.a,b.a,hyps+[b.c],out,depth,name)
        eq_goal(a if not isinstance(a,AVIte) else a.b,b.b,hyps+[Not(b.c)],out,depth,name); return
    if depth>6: raise RecursionError('eq depth')
    flatten(a.tag()==b.tag(),hyps,out,depth,name+'.type')
    tags=[a.T] if isinstance(a,AVRec) else ([b.T] if isinstance(b,AVRec) else range(21))
    for T in tags:
        h=hyps
        for x in (a,b):
            if not isinstance(x,AVRec):
                t=x.is_tag(T)
                if t is False: h=None; break
                if t is not True: h=h+[t]
            elif x.T!=T: h=None; break
        if h is None: continue
        if T in SCAL: flatten(val_eq(SCAL[T],a.scal(SCAL[T]),b.scal(SCAL[T])),h,out,depth+1,name+'.'+NAMES[T].lower())
        elif T in VEC or T in MAT:
            k=VEC.get(T) or MAT.get(T)
            nm=name+'.'+NAMES[T].lower()
            if T in MAT:
                flatten(bv(a.rows(),32)==bv(b.rows(),32),h,out,depth,nm+'.rows'); flatten(bv(a.cols(),32)==bv(b.cols(),32),h,out,depth,nm+'.cols')
            flatten(a.len()==b.len(),h,out,depth,nm+'.size')
            if CONCRETE[0]:
                n,m=conc(b64(a.len())),conc(b64(b.len()))
                if isinstance(n,int) and isinstance(m,int):
                    for q in range(n if n==m else 0): flatten(val_eq(k,a.elem(k,BitVecVal(q,64)),b.elem(k,BitVecVal(q,64))),h,out,depth+1,nm+'.elem')
                    continue
            sk=fresh('sk',B64)
            h2=h+[ULT(sk,a.len()),ULT(sk,b.len())]
            flatten(val_eq(k,a.elem(k,sk),b.elem(k,sk)),h2,out,depth+1,nm+'.elem')
        elif T==20:
            sk=fresh('sk',S)
            flatten(bl(a.has(sk))==bl(b.has(sk)),h,out,depth,name+'.map.keys')
            flatten(val_eq('v',a.val(sk),b.val(sk)),h+[bl(a.has(sk)),bl(b.has(sk))],out,depth+1,name+'.map.value')

# ---------------------------------------------------------------- axioms by term scan
IDXFN={'e_'+k for k in 'pbilrsv'}|{'e_cr','e_ci','keyat','sch'}
_scan_cache={}
def scan(f,acc):
    """collect applications of interpreted vocabulary in f (cached per ast)"""
    i=f.get_id()
    r=_scan_cache.get(i)
    if r is None:
        seen=set(); apps=[]; st=[f]
        while st:
            x=st.pop()
            j=x.get_id()
            if j in seen: continue
            seen.add(j)
            if z3.is_app(x):
                n=x.num_args()
                if n:
                    d=x.decl()
                    if d.kind()==z3.Z3_OP_UNINTERPRETED: apps.append(x)
                    st.extend(x.children())
                elif x.sort()==S: apps.append(x)
            elif z3.is_quantifier(x): st.append(x.body())
        r=(f,apps); _scan_cache[i]=r
        if len(_scan_cache)>200000: _scan_cache.clear()
    for a in r[1]: acc[a.get_id()]=a

DEFS={}       # decl name -> (app -> defining axioms): used only when a query is not settled without them
USEDEFS=[True]
EXTRA_AX=[]   # callables (app,name)->list of axioms, registered by spec modules
WF_LEN=True
_ax_cache={}
def axioms_for(app):
    key=(app.get_id(),USEDEFS[0],len(EXTRA_AX)); r=_ax_cache.get(key)
    if r is None:
        if len(_ax_cache)>100000: _ax_cache.clear()
        r=_ax_cache[key]=(app,axioms_for1(app))
    return r[1]
def axioms_for1(app):
    d=app.decl().name(); out=[]
    if d=='tag': out.append(ULE(app,20))
    elif d=='vlen':
        v=app.arg(0)
        out.append(ULE(app,MAXLEN))
        t=f_tag(v)
        out.append(Implies(And(UGE(t,15),ULE(t,18)),And(app==ZeroExt(32,f_mul(f_rows(v),f_cols(v))),f_mulok(f_rows(v),f_cols(v)))))
    elif d in('rows','cols'):
        v=app.arg(0); out.append(ULE(app,MAXLEN)); out.append(ULE(f_len(v),MAXLEN))
    elif d=='card':
        out.append(ULE(app,MAXLEN))
    elif d=='mhas':
        v,k=app.arg(0),app.arg(1)
        out.append(Implies(app,And(ULT(f_rank(v,k),f_card(v)),f_keyat(v,f_rank(v,k))==k)))
    elif d=='rank':
        v,k=app.arg(0),app.arg(1)
        out.append(Implies(f_has(v,k),And(ULT(app,f_card(v)),f_keyat(v,app)==k)))
    elif d=='keyat':
        v,p=app.arg(0),app.arg(1)
        out.append(Implies(ULT(p,f_card(v)),And(f_has(v,app),f_rank(v,app)==p)))
    elif d.startswith('keyat!'):
        m=MAPFN[d]; p=app.arg(0)
        out.append(Implies(ULT(p,m.card),And_(m.has(app),m.rank(app)==p))); out.append(ULE(m.card,MAXLEN))
    elif d.startswith('rank!'):
        m=MAPFN[d]; k=app.arg(0)
        out.append(Implies(bl(m.has(k)),And(ULT(app,m.card),m.keyat(app)==k)))
    elif d=='slen': out.append(ULE(app,MAXLEN))
    elif d in('ix_div','ix_mod'): out.extend(divmod_axioms(app))
    elif d=='isint': out.extend(isint_axioms(app))
    elif d=='scat':
        out.append(f_slen(app)==f_slen(app.arg(0))+f_slen(app.arg(1)))
    if USEDEFS[0] and d in DEFS: out.extend(DEFS[d](app))
    for fn in EXTRA_AX: out.extend(fn(app,d))
    return out

def litax(terms):
    ls=[(b,c) for b,c in LITS.items() if c.get_id() in terms]
    out=[]
    if len(ls)>1: out.append(z3.Distinct(*[c for _,c in ls]))
    for b,c in ls:
        out.append(f_slen(c)==len(b))
    return out

class Stats: 
    queries=0; time=0.0; obligations=0; discharged=0; unknown=0
STATS=Stats()
SLOW=os.environ.get('GC_SLOW')

def has_ix(t):
    acc={}; scan(t,acc); return any(a.decl().name().startswith('ix_') for a in acc.values())
def gid(q): return getattr(q,'grp',None) or id(q)
def plain(t):
    """index terms used for the outer variable of two-variable facts: constants and values of uninterpreted functions"""
    while z3.is_app(t) and t.decl().kind() in(z3.Z3_OP_ZERO_EXT,z3.Z3_OP_EXTRACT,z3.Z3_OP_CONCAT): t=t.arg(t.num_args()-1)
    return z3.is_app(t) and t.decl().kind()==z3.Z3_OP_UNINTERPRETED
_trig_cache={}
def triggers(K,*bodies):
    """functions that take the bound variable K as an element index"""
    key=(K.get_id(),)+tuple(b.get_id() for b in bodies)
    r=_trig_cache.get(key)
    if r is None:
        acc={}; ns=set()
        for b in bodies: scan(b,acc)
        k=simp(K); e=z3.simplify(Concat(BitVecVal(0,32),Extract(31,0,K))) if K.sort()==B64 else K
        for a in acc.values():
            if a.num_args() and (a.decl().name() in IDXFN or a.decl().name().startswith(('e!','ix_'))):
                t=a.arg(a.num_args()-1)
                if t.eq(K) or t.eq(e) : ns.add(a.decl().name())
            if a.num_args() and a.decl().name()=='mul32' and K.sort()==B64 and any(t.eq(z3.simplify(Extract(31,0,K))) for t in a.children()): ns.add('mul32')
        r=(ns,K,bodies); _trig_cache[key]=r
    return r[0]
def instantiate(formulas,qfs,extra_idx=(),extra_keys=(),rounds=3,maxidx=40,limit=False,eqs=(),trig=False):
    """returns list of ground formulas incl. axiom instances and qfact instances
    limit: a fact is not instantiated with terms that an instance of that same fact introduced"""
    fs=list(formulas); done=set(); axd=set(); out=list(fs)
    idx={}; keys={}; muls=[]; mulks=[]; sdivs=[]; divs=[]; nested=[]; nestset=set(); anc={}; E=frozenset()
    by={}; visited={}
    def fits(q,t,*bodies):
        if not trig or q.sort!=B64: return True
        tr=triggers(q.K,*bodies)
        return not tr or any(t.get_id() in by.get(n,()) for n in tr)
    def addi(t,o,fn=None):
        t=simp(t); i=t.get_id()
        if fn: by.setdefault(fn,set()).add(i)
        if i not in idx: idx[i]=t; anc[i]=o
    def addk(t,o):
        i=t.get_id()
        if i not in keys: keys[i]=t; anc[i]=o
    for t in extra_idx: addi(t,E)
    mt=trig and any(isinstance(q,QFN) and 'mul32' in triggers(q.K,q.guard,q.q.body) for q in qfs)
    for t in extra_keys: addk(t,E)
    work=[(f,E) for f in fs]
    for r in range(rounds):
        apps={}; org={}
        for f,o in work:
            st=[f]
            while st:
                x=st.pop(); j=x.get_id()
                if j in visited: continue
                visited[j]=x
                if z3.is_quantifier(x): st.append(x.body()); continue
                if x.num_args():
                    if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: apps[j]=x; org.setdefault(j,o)
                    st.extend(x.children())
                elif x.sort()==S: apps[j]=x; org.setdefault(j,o)
        new=[]
        for i,a in apps.items():
            if i in axd: continue
            axd.add(i); o=org.get(i,E)
            nm=a.decl().name()
            if a.num_args()==0:
                if a.sort()==S: addk(a,o)
                continue
            if a.sort()==S: addk(a,o)
            if nm in IDXFN or nm.startswith('e!') : 
                t=a.arg(a.num_args()-1)
                if t.sort()==B64: addi(t,o,nm)
            elif nm.startswith('keyat!'): addi(a.arg(0),o)
            elif nm.startswith('ix_'): 
                addi(a.arg(a.num_args()-1),o,nm); addi(a,o)
            if nm=='sdiv32':
                sdivs.append(a)
                for p in muls+mulks: new.extend((x,o) for x in sdiv_pair(a,p))
                new.append((Implies(And(a.arg(0)>=0,a.arg(1)>0),And(a>=0,a<=a.arg(0))),o)); continue
            if nm in('mul32','mulok'):
                new.extend((x,o) for x in mul_axioms(a,muls))
                for d in sdivs: new.extend((x,o) for x in sdiv_pair(d,a))
                if nm=='mulok': mulks.append(a)
                if nm=='mul32':
                    muls.append(a)
                    if mt:
                        for x in a.children(): addi(ZeroExt(32,x),o,nm)
                    for d in divs: new.extend((x,o) for x in divmul_axioms(d,a))
                continue
            if nm=='ix_div':
                divs.append(a)
                for p in muls: new.extend((x,o) for x in divmul_axioms(a,p))
            new.extend((x,o) for x in axioms_for(a))
        for q in qfs:
            if isinstance(q,QFN):
                for t in list(idx.values()):
                    if not plain(t): continue
                    key=(id(q),t.get_id())
                    if key in done or limit and gid(q) in anc[t.get_id()] or not fits(q,t,q.guard,q.q.body): continue
                    done.add(key); nq=q.inst_q(t); nq.org=anc[t.get_id()]|{gid(q)}; nested.append(nq); nestset.add(nq)
        for q in itertools.chain(qfs,nested):
            if isinstance(q,QFN): continue
            pool=idx if q.sort==B64 else keys
            for t in list(pool.values())[:maxidx]:
                if q in nestset and q.sort==B64 and not plain(t): continue
                if getattr(q,'noix',False) and has_ix(t): continue
                key=(id(q),t.get_id())
                if key in done or not fits(q,t,q.body): continue
                o=anc[t.get_id()]
                if limit:
                    w=getattr(q,'org',E)
                    if gid(q) in o or o&w: continue
                    if getattr(q,'grp',None) is not None and not plain(t): continue
                    o=o|w|{gid(q)}
                done.add(key); new.append((q.inst(t),o))
        if not new: break
        if eqs: new=[(substitute(f,*eqs),o) for f,o in new]
        out.extend(f for f,_ in new); work=new
    st=[f for f,_ in work]
    while st:
        x=st.pop(); j=x.get_id()
        if j in visited: continue
        visited[j]=x; st.extend(x.children())
    out.extend(litax(visited))
    return out

def quick(g,timeout):
    s=z3.Solver(); s.set('timeout',timeout); s.add(*g); r=s.check()
    return r,(s.model() if r==z3.sat else None),s
SEED=[0]
def solve(g,timeout):
    """(result, model, solver): a short portfolio, because run time depends on term numbering in a large context"""
    s=z3.Solver(); s.set('timeout',min(timeout,1500)); s.add(*g)
    if SEED[0]: s.set('random_seed',SEED[0])
    r=s.check()
    if r==z3.sat: return r,s.model(),s
    if r==z3.unsat: return r,None,s
    left=timeout
    for k,(mk,tm) in enumerate(((lambda c: z3.SolverFor('QF_UFBV',ctx=c),3000),(lambda c: z3.SimpleSolver(ctx=c),3000),(lambda c: z3.Solver(ctx=c),timeout))):
        try:
            c=z3.Context(); q=mk(c); q.set('timeout',tm)
            if k==2 or SEED[0]: q.set('random_seed',7+SEED[0])
            q.add(*[f.translate(c) for f in g])
            r=q.check()
        except z3.Z3Exception: continue
        if r==z3.sat: return r,q.model().translate(z3.main_ctx()),q
        if r==z3.unsat: return r,None,q
    return r,None,q

_fix_cache={}
def fix_tags(fs,qfs):
    """equalities tag(x)=c on the path are substituted everywhere (equivalent formulas, smaller terms)"""
    sub={}; rhs=set()
    for f in fs:
        if z3.is_eq(f):
            a,b=f.arg(0),f.arg(1)
            if z3.is_bv_value(a): a,b=b,a
            if z3.is_bv_value(b) and z3.is_app(a) and a.num_args()==1 and a.decl().name()=='tag': sub[a.get_id()]=(a,b)
            elif z3.is_app(a) and z3.is_app(b) and a.num_args()==1 and b.num_args()==1 and a.decl().name() in('rows','cols') and b.decl().name() in('rows','cols'):
                if a.get_id() not in sub and b.get_id() not in rhs and b.get_id() not in sub: sub[a.get_id()]=(a,b); rhs.add(b.get_id()); rhs.add(a.get_id())
    if not sub: return fs,qfs,[]
    key=tuple(sorted((i,v[1].get_id()) for i,v in sub.items())); ps=list(sub.values())
    if len(_fix_cache)>60000: _fix_cache.clear()
    def fx(f):
        k=(f.get_id(),key); r=_fix_cache.get(k)
        if r is None:
            acc={}; scan(f,acc)
            if any(i in acc for i in sub): g=z3.simplify(substitute(f,*ps))
            else: g=f
            r=(f,g,ps); _fix_cache[k]=r
        return r[1]
    out=[]
    for f in fs:
        g=fx(f)
        if is_true(g) and not is_true(f): out.append(f)     # keep the defining equality itself
        else: out.append(g)
    qs=[]
    for q in qfs:
        if isinstance(q,QFN):
            g=fx(q.guard); b=fx(q.q.body)
            if is_false(g) or is_true(b): continue
            n=QF.__new__(QF); n.sort=q.q.sort; n.K=q.q.K; n.body=b; z=QFN(q.K,g,n); z.grp=getattr(q,'grp',None); qs.append(z); continue
        b=fx(q.body)
        if b is q.body: qs.append(q)
        elif not is_true(b):
            n=QF.__new__(QF); n.sort=q.sort; n.K=q.K; n.body=b; n.noix=getattr(q,'noix',False); n.grp=getattr(q,'grp',None); qs.append(n)
    return out,qs,[v for v in ps if v[0].decl().name()!='tag']
def uses_defs(fs,qfs):
    acc={}
    for f in fs: scan(f,acc)
    for q in qfs:
        if isinstance(q,QFN): scan(q.guard,acc); scan(q.q.body,acc)
        else: scan(q.body,acc)
    return any(a.decl().name() in DEFS for a in acc.values())
def check_sat(formulas,qfs=(),exact=True,defs=True,**kw):
    if USEDEFS[0] and DEFS:
        fs=[bl(f) for f in formulas]
        if uses_defs(fs,qfs):
            USEDEFS[0]=False
            try: r=check_sat1(fs,qfs,exact=False,**kw)
            finally: USEDEFS[0]=True
            if r[0]=='unsat' or not defs: return r
    return check_sat1(formulas,qfs,exact=exact,**kw)
def check_sat1(formulas,qfs=(),timeout=8000,extra_idx=(),rounds=3,want_model=False,exact=True,nested=True,staged=True):
    fs=[bl(f) for f in formulas]
    for f in fs:
        if is_false(f): return ('unsat',None)
    t0=time.time()
    fs,qfs,eqs=fix_tags(fs,qfs)
    for f in fs:
        if is_false(f): return ('unsat',None)
    r=None
    if any(isinstance(q,QFN) for q in qfs):
        # cheap attempts first: without facts about earlier iterations, then without the two-variable ones
        q1=[q for q in qfs if not isinstance(q,QFN)]
        if staged:
            g=instantiate(fs,[],extra_idx,rounds=rounds,eqs=eqs); r,mod,s=quick(g,1500)
            if r==z3.unsat: qfs=[]
        if r!=z3.unsat and not nested:
            g=instantiate(fs,q1,extra_idx,rounds=rounds,eqs=eqs,trig=True,limit=True); r,mod,s=quick(g,1500)
            if r==z3.unsat: qfs=[]
        if r!=z3.unsat:
            g=instantiate(fs,q1,extra_idx,rounds=rounds,eqs=eqs)
            r,mod,s=solve(g,timeout) if not nested else quick(g,1500)
            if r!=z3.unsat and nested: r=None
        if r is None:
            g=instantiate(fs,qfs,extra_idx,rounds=rounds,eqs=eqs,trig=True,limit=True); r,mod,s=solve(g,timeout)
            if r!=z3.unsat: r=None
        if r is None:
            g=instantiate(fs,qfs,extra_idx,rounds=rounds,eqs=eqs,limit=True); r,mod,s=solve(g,20000)
            if r!=z3.unsat: r=None
    if r is None:
        g=instantiate(fs,qfs,extra_idx,rounds=rounds,eqs=eqs)
        r,mod,s=solve(g,timeout)
    if r==z3.sat and exact:
        acc={}
        for f in g: scan(f,acc)
        ms=[a for a in acc.values() if a.decl().name() in('mul32','mulok','isint','sdiv32') and a.num_args()]
        if ms:
            ex=[]; small=[]
            for a in ms:
                if a.decl().name()=='isint': ex.append(a==isint_def(a.arg(0))); continue
                x,y=a.arg(0),a.arg(1)
                if a.decl().name()=='sdiv32': ex.append(a==x/y); continue
                ex.append(a==(x*y if a.decl().name()=='mul32' else And(z3.BVMulNoOverflow(x,y,False),ULE(x*y,MAXLEN))))
                small+=[ULE(x,6),ULE(y,6)]
            r,mod,s=solve(g+ex+small,timeout)
            if r!=z3.sat: r,mod,s=solve(g+ex,timeout)
    dt=time.time()-t0
    STATS.queries+=1; STATS.time+=dt
    if SLOW and (dt>1 or r==z3.unknown):
        st=s.statistics(); rl=st.get_key_value('rlimit count') if 'rlimit count' in st.keys() else 0
        sys.stderr.write('SLOW %s %.2fs rlimit %s\n'%(r,dt,rl))
    if r==z3.unsat: return ('unsat',None)
    if r==z3.sat: return ('sat',mod)
    STATS.unknown+=1
    return ('unknown',None)
