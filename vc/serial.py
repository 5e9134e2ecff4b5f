"""Binary serialisation: ghost functions and contracts.
 gsize(v)   number of bytes of the encoding of v (natural number; the contracts require it to be below 2^31)
 psum(v,n)  bytes of the first n items of a container whose items have individual sizes (strings, nested containers, map entries)
 encb(v,k)  byte k of the encoding of v
They are recursive definitions: unfolded once for the container under consideration, opaque for nested ones."""
from .contracts import *
from . import terms, loops
from .stl import CopySeq
from .terms import f_ec, fpbits

f_gsz=Function('gsize',V,B64); f_psum=Function('psum',V,B64,B64); f_enc=Function('encb',V,B64,B8)
terms.IDXFN.add('psum'); terms.IDXFN.add('encb')
LIMIT=BitVecVal((1<<31)-1,64)
BIG=BitVecVal(1<<62,64)   # natural numbers: no sum of sizes reaches this
VARLEN=(VS,VEC_,MAP_)
def count_of(v,T): return f_card(v) if T==MAP_ else f_len(v)
def item_size(v,T,n):
    if T==VS: return f_slen(f_e['s'](v,n))+5
    if T==VEC_: return f_gsz(f_e['v'](v,n))
    k=f_keyat(v,n); return f_slen(k)+5+f_gsz(f_val(v,k))
def pred(m):
    """m = p+1 : p"""
    m=simp(m)
    if z3.is_bv_value(m): return BitVecVal(m.as_long()-1,64) if m.as_long() else None
    if m.decl().kind()==z3.Z3_OP_BADD and m.num_args()==2 and z3.is_bv_value(m.arg(0)) and m.arg(0).as_long()==1: return m.arg(1)
    if m.decl().kind()==z3.Z3_OP_ZERO_EXT or (m.decl().kind()==z3.Z3_OP_CONCAT and m.num_args()==2 and z3.is_bv_value(m.arg(0)) and m.arg(0).as_long()==0):
        x=m.arg(m.num_args()-1)
        if x.size()==32 and x.decl().kind()==z3.Z3_OP_BADD and x.num_args()==2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long()==1: return simp(ZeroExt(32,x.arg(1)))
    return None
def axioms(app,d):
    out=[]
    if d=='gsize':
        out.append(And(UGE(app,4),ULE(app,BIG)))
        x=app.arg(0)      # an item is part of its container
        if x.decl().name()=='e_v': v,n,T=x.arg(0),x.arg(1),VEC_
        elif x.decl().name()=='mval' and x.arg(1).decl().name()=='keyat' and x.arg(1).arg(0).eq(x.arg(0)): v,n,T=x.arg(0),x.arg(1).arg(1),MAP_
        else: return out
        c=count_of(v,T); tot=f_psum(v,c); out.append(Implies(And(f_tag(v)==T,ULT(n,c)),ULE(item_size(v,T,n),tot-f_psum(v,n))))
    elif d=='psum':
        v,m=app.arg(0),app.arg(1); z=BitVecVal(0,64)
        out.append(Implies(m==0,app==0))
        p=pred(m); t=f_tag(v)
        for T in VARLEN:
            c=count_of(v,T); tot=f_psum(v,c)
            g=[t==T]
            out.append(Implies(And(t==T,ULE(m,c)),And(ULE(app,tot),ULE(tot,BIG))))
            out.append(Implies(And(t==T,ULT(m,c)),ULE(item_size(v,T,m),tot-app)))
            out.append(Implies(And(t==T,ULE(m,c)),UGE(app,m*4)))       # every item takes at least four bytes
            if p is not None:
                out.append(Implies(And(t==T,m!=0,ULT(p,c)),app==f_psum(v,p)+item_size(v,T,p)))
    return out
terms.EXTRA_AX.append(axioms)

FIX={NT:4,BOOL:5,INT:8,LONG:12,REAL:12,PTR:12,CPX:20}
ESZ={'p':8,'b':1,'i':4,'l':8,'r':8,'c':16}
def size_def(av):
    """definition of gsize for one container"""
    v=av.t; s=f_gsz(v); t=av.tag(); out=[]
    for T,n in FIX.items(): out.append(Implies(t==T,s==n))
    out.append(Implies(t==STR,s==9+f_slen(av.scal('s'))))
    for T,k in VEC.items():
        if k in ESZ: out.append(Implies(t==T,s==8+ESZ[k]*av.len()))
    for T,k in MAT.items(): out.append(Implies(t==T,s==12+ESZ[k]*av.len()))
    for T in VARLEN: out.append(Implies(t==T,s==8+f_psum(v,count_of(v,T))))
    return out
def need_term(av):
    if not isinstance(av,AVTerm): raise Unsupported('serialisation of a container that is being modified')
    return av
def prep_size(m,cx,st):
    av=need_term(cx.this); m.psums=[lambda n,v=av.t:f_psum(v,n)]
    return size_def(av)
def mem_size(cx): return [Case(True,ret=RVal('i',lo32(f_gsz(need_term(cx.this).t))))]
def fits(cx): return [('the encoding is smaller than 2^31 bytes',ULE(f_gsz(need_term(cx.this).t),LIMIT))]
contract(G+'mem_size() const',mem_size,pre=fits,prep=prep_size,noreplay=True,variants=[('tag',T) for T in range(21)],props=['P08'])

# ------------------------------------------------------------------ the encoding
def byte(x,j):
    """byte j (symbolic 64-bit index) of a bit vector"""
    n=x.size()//8; r=Extract(8*n-1,8*n-8,x)
    for i in range(n-2,-1,-1): r=If(j==i,Extract(8*i+7,8*i,x),r)
    return r
def bits(k,x):
    if k=='r': return fpbits(x)
    return x
# bit patterns of real elements, as functions of the position (linked to the elements by axioms)
f_rb=Function('ebits_r',V,B64,B64); f_rebits=Function('ebits_re',V,B64,B64); f_imbits=Function('ebits_im',V,B64,B64)
terms.IDXFN.update(('ebits_r','ebits_re','ebits_im'))
def bit_axioms(app,d):
    if d not in('ebits_r','ebits_re','ebits_im'): return []
    x=f_e['r'](app.arg(0),app.arg(1)) if d=='ebits_r' else (f_ec[0] if d=='ebits_re' else f_ec[1])(app.arg(0),app.arg(1))
    return [app==fpbits(x),x==z3.fpBVToFP(app,F64)]
terms.EXTRA_AX.append(bit_axioms)
def elem_byte_at(av,k,i,j):
    if k=='r': return byte(f_rb(av.t,i),j)
    if k=='c': return If(ULT(j,8),byte(f_rebits(av.t,i),j),byte(f_imbits(av.t,i),j-8))
    return elem_byte(k,av.elem(k,i),j)
def elem_byte(k,x,j):
    if k=='b': return If(bl(x),BitVecVal(1,8),BitVecVal(0,8))
    if k=='c': return If(ULT(j,8),byte(fpbits(x[0]),j),byte(fpbits(x[1]),j-8))
    return byte(bits(k,x),j)
SHIFT={'b':0,'i':2,'p':3,'l':3,'r':3,'c':4}
def str_byte(s,j):
    """length word, characters, terminating zero"""
    L=slen(s); return If(ULT(j,4),byte(lo32(L+1),j),If(j-4==L,BitVecVal(0,8),f_sch(s,simp(j-4))))
def item_byte(v,T,n,j):
    if T==VS: return str_byte(f_e['s'](v,n),j)
    if T==VEC_: return f_enc(f_e['v'](v,n),j)
    k=f_keyat(v,n); h=f_slen(k)+5
    return If(ULT(j,h),str_byte(k,j),f_enc(f_val(v,k),simp(j-h)))
def split_index(q,sh):
    """(element, byte) of an offset c + 2^sh*x with x a 32-bit number (no overflow possible), general form otherwise"""
    if sh:
        args=q.children() if z3.is_app(q) and q.decl().kind()==z3.Z3_OP_BADD else [q]; c=0; x=None
        for a in args:
            if z3.is_bv_value(a): c+=a.as_long()
            elif x is None: x=a
            else: x=False; break
        if x is not None and x is not False and c<1<<20:
            f=1
            if x.decl().kind()==z3.Z3_OP_BMUL and x.num_args()==2 and z3.is_bv_value(x.arg(0)): f=x.arg(0).as_long(); x=x.arg(1)
            z=x.decl().kind()==z3.Z3_OP_CONCAT and x.num_args()==2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long()==0 and x.arg(1).size()<=32
            if z and f%(1<<sh)==0 and f<1<<20: return simp(BitVecVal(f>>sh,64)*x+BitVecVal(c>>sh,64)),BitVecVal(c&((1<<sh)-1),64)
        elif x is None: return BitVecVal(c>>sh,64),BitVecVal(c&((1<<sh)-1),64)
    return (z3.LShR(q,sh) if sh else q),q&BitVecVal((1<<sh)-1,64)
def enc_of(av,T,k):
    """byte k of the encoding of av, a container of type T"""
    k=b64(k); tag=byte(BitVecVal(T,32),k); body=BitVecVal(0,8); j=simp(k-4)
    if T in SCAL and T!=STR: body=elem_byte(SCAL[T],av.scal(SCAL[T]),j)
    elif T==STR: body=str_byte(av.scal('s'),j)
    elif T in VARLEN:
        c=count_of(av.t,T); body=If(ULT(j,4),byte(lo32(c),j),f_enc(av.t,k))
    elif T in VEC or T in MAT:
        e=VEC.get(T) or MAT[T]; h=8 if T in VEC else 12; q=simp(k-h); sh=SHIFT[e]
        i,jj=split_index(q,sh)
        el=elem_byte_at(av,e,i,jj)
        body=If(ULT(j,4),byte(lo32(av.len()) if T in VEC else bv(av.rows(),32),j),el)
        if T in MAT: body=If(And(UGE(j,4),ULT(j,8)),byte(bv(av.cols(),32),simp(j-4)),body)
    return If(ULT(k,4),tag,body)
def items_def(v,T):
    """definition of the encoding of the items of a container with variable-size items"""
    K=Const('Q!%d'%uid(),B64); c=count_of(v,T)
    def at(k):
        a=f_psum(v,K)+8
        return Implies(And(UGE(k,a),ULT(k-a,item_size(v,T,K))),f_enc(v,k)==item_byte(v,T,K,simp(k-a)))
    return QFN(K,ULT(K,c),QF(B64,at))

class EncCF(loops.CF):
    """output buffer: the encoding has been written up to the current position"""
    def __init__(s,enc,start,pos): s.enc=enc; s.start=start; s.pos=pos; s.base=None
    def at(s,n):
        p=simp(s.pos(n)); st=s.start
        return RangeSeq(s.base,s.base.n,lambda k:And(UGE(k,st),ULT(k,p)),lambda k:s.enc(k))
    def same(s,o): return isinstance(o,EncCF) and s.start.eq(o.start) and s.pos is o.pos
loops.EncCF=EncCF

def prep_ser(m,cx,st):
    av=need_term(cx.this); T=tag_known(m,st,av); v=av.t
    d=size_def(av)
    if T in VARLEN:
        m.psums=[lambda n:f_psum(v,n)]; q=items_def(v,T); cx.defq.append(q); st.qf.append(q)
    m.encbuf=(cx.ptrs[1][0].rid,lambda k:enc_of(av,T,k))
    return d
def tag_known(m,st,av):
    for T in range(21):
        if m.valid(st,av.tag()==T): return T
    raise Unsupported('tag not known')
def dim_ok(cx):
    d=cx.a(0); n=cx.a(1).n
    return fits(cx)+[('the buffer has at least the given number of bytes',And(d>=0,ULE(SignExt(32,d),n)))]
def serialize(cx):
    av=need_term(cx.this); d=SignExt(32,cx.a(0)); T=tag_known(cx.m,cx.st,av); old=cx.a(1); sz=f_gsz(av.t)
    return [Case(ULE(sz,d),eff={1:Seq(old.n,lambda k:If(ULT(k,sz),enc_of(av,T,k),old.get(k)))},ret=RVal('i',lo32(sz))),
            Throw(ULT(d,sz),eff={1:lambda new:Conj(new.n==old.n,Forall(B64,lambda k:Imp(And_(UGE(k,d),ULT(k,old.n)),new.get(k)==old.get(k))))})]
def apply_ser(s,m,st,args):
    this,dim,p=args; q=Ctx(m,st,[],True); q.thisp=this; av=need_term(q.this)
    if not isinstance(p,Ptr) or st.mem[p.rid].kind!='arr' or st.mem[p.rid].elt!='u8': raise Unsupported('buffer argument')
    m.alive(st,p); d=bv(dim,32); off=b64(p.idx); seq=st.mem[p.rid].seq; sz=f_gsz(av.t); dd=SignExt(32,d)
    m.oblige(st,ULE(sz,LIMIT),'precondition','precondition of %s: the encoding is smaller than 2^31 bytes'%s.name)
    m.oblige(st,And(d>=0,ULE(off,seq.n),ULE(dd,seq.n-off)),'precondition','precondition of %s: the buffer has at least the given number of bytes'%s.name)
    if st.mem[p.rid].ro: m.fail(st,'frame','write to read-only storage')
    outs=[]
    for g,out in((ULE(sz,dd),'ret'),(ULT(dd,sz),'throw')):
        if not m.feasible(st,g): continue
        n=st.copy()
        try:
            n.assume(g); sq=n.mem[p.rid].seq
            if out=='ret':
                n.upd(p.rid,seq=CopySeq(sq,off,sz,lambda k:f_enc(av.t,k))); outs.append((n,'ret',conc(lo32(sz))))
            else:
                F=Function('junk!%d'%uid(),B64,B8); n.upd(p.rid,seq=CopySeq(sq,off,dd,lambda k:F(k))); outs.append((n,'throw',RUNTIME))
        except PathDead: continue
    if not outs: raise PathDead()
    return Outcomes(outs)
LOOPLESS='not proved for vectors of strings and maps: the loop over items of individual size is out of the verifier\'s reach'
contract(G+'serialize(int, unsigned char*) const',serialize,pre=dim_ok,prep=prep_ser,applyfn=apply_ser,noreplay=True,bounded={('tag',T):LOOPLESS for T in(VS,MAP_)},variants=[('tag',T) for T in range(21)],props=['P08'])
def ser_vec(cx):
    av=need_term(cx.this); old=cx.a(0); sz=f_gsz(av.t); d=old.n
    return [Case(ULE(sz,d),eff={0:Seq(old.n,lambda k:If(ULT(k,sz),f_enc(av.t,k),old.get(k)))},ret=RVal('i',lo32(sz))),
            Throw(ULT(d,sz),eff={0:lambda new:new.n==old.n})]
contract(G+'serialize(std::vector<unsigned char>&) const',ser_vec,pre=fits,noreplay=True,props=['P08'])

# ------------------------------------------------------------------ reading
# variant ('enc',T): the buffer holds (at least a beginning of) the encoding of a ghost container W of type T; the call restores W
# variant ('bad',T): the buffer starts with type word T and is otherwise arbitrary; the call refuses or returns a count within the buffer
W=AVTerm(Const('W',V))
class RBetween(Ret):
    def __init__(s,lo,hi): s.lo=lo; s.hi=hi
    def make(s,m,st,cx):
        r=fresh('nread',B32); st.assume(And(r>=s.lo,r<=s.hi)); return r
    def check(s,m,st,cx,r):
        r=bv(r,32); return And(r>=s.lo,r<=s.hi)
def rd_pre(cx):
    d=cx.a(0); n=cx.a(1).n
    return [('the buffer has at least the given number of bytes',And(d>=0,ULE(SignExt(32,d),n)))]
def rd_prep(m,cx,st):
    kind,T=m.curvar; rid=cx.ptrs[1][0].rid; seq=st.mem[rid].seq; out=[]
    m.caps=[SignExt(32,cx.a(0))]; m.capbuf=rid
    if kind=='enc':
        sz=f_gsz(W.t); out=[W.tag()==T,ULE(sz,LIMIT)]+size_def(W)
        for q in(st,cx.st): q.upd(rid,seq=Seq(seq.n,lambda k:If(ULT(k,sz),enc_of(W,T,k),seq.get(k))))
        if T in VARLEN:
            m.psums=[lambda n:f_psum(W.t,n)]; q=items_def(W.t,T); st.qf.append(q)
        if T==STR: m.strhints=lambda st:[W.scal('s')]
        elif T==VS: m.strhints=lambda st:[f_e['s'](W.t,i) for i in hint_idx(st)]
        elif T==MAP_: m.strhints=lambda st:[f_keyat(W.t,i) for i in hint_idx(st)]
    else:
        tw=z3.Concat(*[seq.get(BitVecVal(i,64)) for i in(3,2,1,0)])
        out=[tw==T] if T>=0 else [UGT(tw,20)]
    return out
def hint_idx(st):
    out={}
    for i in reversed(st.idx):
        if i.sort()==B64: out.setdefault(i.get_id(),i)
    return list(out.values())[:4]
def apply_rd(s,m,st,args):
    this,dim,p=args
    if not isinstance(p,Ptr) or st.mem[p.rid].kind!='arr' or st.mem[p.rid].elt!='u8': raise Unsupported('buffer argument')
    m.alive(st,p); d=bv(dim,32); off=b64(p.idx); seq=st.mem[p.rid].seq; dd=SignExt(32,d)
    m.oblige(st,And(d>=0,ULE(off,seq.n),ULE(dd,seq.n-off)),'precondition','precondition of %s: the buffer has at least the given number of bytes'%s.name)
    m.gc_loc(st,this); m.gc_get(st,this)
    kind,T=m.curvar if m.curvar and m.curvar[0] in('enc','bad') else ('bad',None); outs=[]
    def branch(g,fn):
        if not m.feasible(st,g): return
        q=st.copy()
        try: q.assume(g); fn(q)
        except PathDead: pass
    if kind=='enc' and p.rid==m.capbuf:
        for i in hint_idx(st):
            c=count_of(W.t,T); it=f_e['v'](W.t,i) if T==VEC_ else f_val(W.t,f_keyat(W.t,i))
            pos=f_psum(W.t,i)+8+(f_slen(f_keyat(W.t,i))+5 if T==MAP_ else 0)
            if not m.valid(st,And(ULT(i,c),off==pos)): continue
            sz=f_gsz(it)
            # the bytes at this position are the encoding of item i, by definition of the encoding of W
            def ok(q): m.gc_set(q,this,AVTerm(it)); outs.append((q,'ret',conc(lo32(sz))))
            def no(q): m.gc_set(q,this,AVTerm(fresh('any',V))); outs.append((q,'throw',RUNTIME))
            branch(ULE(sz,dd),ok); branch(ULT(dd,sz),no)
            if not outs: raise PathDead()
            return Outcomes(outs)
    def ok(q):
        r=fresh('nread',B32); q.assume(And(r>=4,r<=d)); m.gc_set(q,this,AVTerm(fresh('any',V))); outs.append((q,'ret',r))
    def no(q): m.gc_set(q,this,AVTerm(fresh('any',V))); outs.append((q,'throw',RUNTIME))
    branch(d>=4,ok); branch(BoolVal(True),no)
    return Outcomes(outs)
def read(cx):
    kind,T=cx.m.curvar; d=cx.a(0)
    if kind=='enc':
        sz=f_gsz(W.t); dd=SignExt(32,d)
        return [Case(ULE(sz,dd),this=W,ret=RVal('i',lo32(sz))),Throw(ULT(dd,sz),this=ANY)]
    return [Case(True,'either',this=ANY,ret=RBetween(BitVecVal(4,32),d))]
contract(G+'de_serialize(int, unsigned char const*)',read,pre=rd_pre,prep=rd_prep,applyfn=apply_rd,noreplay=True,variants=[('enc',T) for T in range(21)]+[('bad',T) for T in range(-1,21)],bounded={('enc',VS):LOOPLESS,('enc',MAP_):LOOPLESS,('bad',MAP_):LOOPLESS},props=['P08'])
def rd_vec(cx):
    d=cx.a(0).n
    return [Case(True,'either',this=ANY,ret=RBetween(BitVecVal(4,32),lo32(d)))]
contract(G+'de_serialize(std::vector<unsigned char> const&)',rd_vec,pre=lambda cx:[('fewer than 2^31 bytes',ULE(cx.a(0).n,LIMIT))],noreplay=True,props=['P08'])
