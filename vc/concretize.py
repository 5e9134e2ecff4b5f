"""Turns a verifier counterexample (state + failing formula) into a concrete call: (this, args) for the replay driver."""
import struct, z3
from .terms import *
from . import terms
from .spec import argkind, SCALT, base_t
SMALL=4
def resolve(pc,qf,idx,args_u,timeout=6000):
    """a model with small sizes if there is one"""
    g=instantiate([bl(f) for f in pc],qf,idx,rounds=4)
    acc={}
    for f in g: scan(f,acc)
    ex=[]; sm=[]
    for a in acc.values():
        n=a.decl().name()
        if a.num_args()==0: continue
        if n in('vlen','card','slen'): sm.append(ULE(a,SMALL))
        elif n in('rows','cols'): sm.append(ULE(a,3))
        elif n=='isint': ex.append(a==isint_def(a.arg(0)))
        elif n=='mul32': ex.append(a==a.arg(0)*a.arg(1)); sm+=[ULE(a.arg(0),5),ULE(a.arg(1),5)]
        elif n=='mulok': ex.append(a==And(z3.BVMulNoOverflow(a.arg(0),a.arg(1),False),ULE(a.arg(0)*a.arg(1),MAXLEN)))
    us=[ULE(u,6) for u in args_u]
    for extra in(ex+sm+us,ex+sm,ex+[ULE(x.arg(0),64) if False else x for x in sm][:0]+us,ex):
        s=z3.Solver(); s.set('timeout',timeout); s.add(*g); s.add(*extra)
        if s.check()==z3.sat: return s.model()
    return None
class Conc:
    def __init__(s,model): s.m=model; s.strs={}; s.nl=0; s.lits=None
    def ev(s,t): return s.m.eval(t,model_completion=True)
    def int_(s,t):
        v=s.ev(t); return v.as_long() if z3.is_bv_value(v) else 0
    def fp(s,t):
        v=z3.simplify(s.ev(t))
        b=z3.simplify(z3.fpToIEEEBV(v)) if not (z3.is_fprm(v)) else None
        if z3.fpIsNaN(v) is not None and z3.is_true(z3.simplify(z3.fpIsNaN(v))): return float('nan')
        if b is None or not z3.is_bv_value(b): return 0.0
        if b.size()==32: return struct.unpack('<f',struct.pack('<I',b.as_long()))[0]
        return struct.unpack('<d',struct.pack('<Q',b.as_long()))[0]
    def str_(s,t):
        w=s.ev(t)
        if s.lits is None:
            s.lits={}
            decls={str(d) for d in s.m.decls()}
            for b,c in LITS.items():
                if str(c.decl()) in decls or b==b'': s.lits.setdefault(s.ev(c).get_id(),b)
        i=w.get_id()
        if i in s.lits: return s.lits[i]
        if i in s.strs: return s.strs[i][1]
        n=min(s.int_(f_slen(t)),64)
        s.nl+=1; c='bcdefghijklmnopqrstuvwxyz'[s.nl%25].encode()
        r=(c*n)
        s.strs[i]=(w,r); return r
    def k(s,k,t):
        if k=='b': return z3.is_true(s.ev(bl(t)))
        if k in('r','f32'): return s.fp(t)
        if k=='c': return (s.fp(t[0]),s.fp(t[1]))
        if k=='s': return s.str_(t)
        if k=='v': return s.gc(t.t if isinstance(t,AV) else t,1)
        v=s.int_(t); w=KSORT[k].size()
        if k in('i','l') and v>>(w-1): v-=1<<w
        return v
    def seq(s,x,k,depth=0):
        n=min(s.int_(f_len(x)),8)
        av=AVTerm(x)
        if k=='v': return [s.gc(av.elem('v',i).t,depth+1) for i in range(n)]
        return [s.k(k,av.elem(k,i)) for i in range(n)]
    def gc(s,x,depth=0):
        T=s.int_(f_tag(x)); av=AVTerm(x)
        if T>20 or depth>4: T=0
        if T==0: return (0,None)
        if T in SCAL: return (T,s.k(SCAL[T],av.scal(SCAL[T])))
        if T in VEC: return (T,s.seq(x,VEC[T],depth))
        if T in MAT: return (T,s.mat(x,MAT[T]))
        d={}
        for p in range(min(s.int_(f_card(x)),6)):
            key=s.str_(f_keyat(x,BitVecVal(p,64)))
            if key not in d: d[key]=s.gc(f_val(x,f_keyat(x,BitVecVal(p,64))),depth+1)
        return (T,sorted(d.items()))
    def mat(s,x,k):
        r,c=s.int_(f_rows(x)),s.int_(f_cols(x))
        if r*c>64: r,c=min(r,4),min(c,4)
        av=AVTerm(x); return (r,c,[s.k(k,av.elem(k,i)) for i in range(r*c)])
    def arg(s,i,t):
        nm='a%d'%i; k=argkind(t)
        if isinstance(k,tuple):
            x=Const(nm,V)
            return s.seq(x,k[1]) if k[0]=='vec' else s.mat(x,k[1])
        if k=='c': return (s.fp(Const(nm+'r',F64)),s.fp(Const(nm+'i',F64)))
        if k=='c32': return (s.fp(Const(nm+'r',F32)),s.fp(Const(nm+'i',F32)))
        if k=='v': return s.gc(Const(nm,V))
        if k=='b': return s.k('b',Const(nm,BoolSort()))
        return s.k(k,Const(nm,KSORT[k]))
def concretize(c,v,variant=None):
    """(this,args) or None"""
    us=[Const('a%d'%i,BitVecSort(32)) for i,t in enumerate(c.types) if t=='unsigned int']
    m=resolve(v.st.pc+v.extra,v.st.qf,v.st.idx,us)
    if m is None: return None
    q=Conc(m)
    part=variant[1] if variant and variant[0]=='part' else ''
    this=q.gc(Const('this',V)) if c.hasthis and not c.ctor else None
    args=[]
    for i,t in enumerate(c.types):
        if variant and variant[0]=='alias' and variant[1]==i: args.append(this)
        elif i==0 and part.endswith('in'): args.append(None)
        else: args.append(q.arg(i,t))
    if part:
        from .replay import part_of
        if part.endswith('in'):
            args[0]=part_of(part,this)
            if args[0] is None: return None
        else:
            this=part_of(part,args[0])
            if this is None: return None
    return this,args
