"""The contracts of GenericContainer's functions (one entry per function of /repo under contract)."""
from .spec import *

G='GenericContainer::'
NT,PTR,BOOL,INT,LONG,REAL,CPX,STR,VP,VB,VI,VL,VR,VC,VS,MI,ML,MR,MC,VEC_,MAP_=range(21)
CT={'p':'void*','b':'bool','i':'int','l':'long','r':'double','c':'std::complex<double>','s':'string','v':'GenericContainer'}
VNAME={VP:'pointer',VB:'bool',VI:'int',VL:'long',VR:'real',VC:'complex',VS:'string'}
MNAME={MI:'int',ML:'long',MR:'real',MC:'complex'}
VMEMB={VP:'p',VB:'b',VI:'i',VL:'l',VR:'r',VC:'c',VS:'s'}

def isT(av,*ts):
    if isinstance(av,AVRec) and isinstance(av.T,int): return BoolVal(av.T in ts)
    return Or_(*[av.tag()==BitVecVal(t,32) for t in ts])
def notT(av,*ts):
    if isinstance(av,AVRec) and isinstance(av.T,int): return BoolVal(av.T not in ts)
    return Not(isT(av,*ts))
def rec(T,d=None): return AVRec(T,d)
def u64(x): return ZeroExt(32,x) if x.size()==32 else x
def pad(T,seq,n): return AVRec(T,PadSeq(seq,n,dflt(VEC[T])))
def fill(T,n):
    d=dflt(VEC.get(T) or MAT[T]); return Seq(n,lambda k:d)
def mat(T,seq,r,c): return AVRec(T,(seq,r,c))
EMPTYMAP=AVRec(20,empty_map())
def mkvec(T,n,fn): return AVRec(T,Seq(n,fn))

# ------------------------------------------------------------------ type names, tags
TNAMES=['NOTYPE','pointer','bool_type','int_type','long_type','real_type','complex_type','string_type','vec_pointer_type','vec_bool_type','vec_int_type',
 'vec_long_type','vec_real_type','vec_complex_type','vec_string_type','mat_int_type','mat_long_type','mat_real_type','mat_complex_type','vector_type','map_type']
def tyname(t):
    r=lit('')
    for i,n in enumerate(TNAMES): r=If(t==i,lit(n),r)
    return r
contract('to_string(GC_type)',lambda cx:[Case(True,ret=RView(tyname(cx.a(0))))],props=['P01'])
contract(G+'ck(GC_type) const',lambda cx:[Case(True,ret=RVal('i',If(cx.this.tag()==cx.a(0),BitVecVal(0,32),If(cx.a(0)==0,BitVecVal(1,32),BitVecVal(2,32)))))],props=['P03'])
contract(G+'ck(string_view, GC_type) const',lambda cx:[Case(cx.this.tag()==cx.a(1)),Throw(cx.this.tag()!=cx.a(1))],props=['P03'])

# ------------------------------------------------------------------ lifetime and allocation
contract('to_string(std::complex<double> const&)',lambda cx:[Case(True,ret=RStrAny(lambda v:BoolVal(True)))],props=['P05'])
contract(G+'clear()',lambda cx:[Case(True,this=NOTYPE)],props=['P01','P02'])
def alloc(T,d,*ex):
    def spec(cx):
        return [Case(isT(cx.this,T)),Case(notT(cx.this,T),this=AVRec(T,d))]
    return spec
contract(G+'allocate_string()',alloc(STR,EMPTY),props=['P02'])
contract(G+'allocate_complex()',alloc(CPX,DEF['c']),props=['P02'])
contract(G+'allocate_map()',alloc(MAP_,EMPTYMAP.d),props=['P02'])
def sized(T,ret):
    """sized allocation: type T; a positive size gives exactly that many elements (old ones kept, new ones zero); size 0 keeps same-type content"""
    def spec(cx):
        n=u64(cx.a(0)); same=isT(cx.this,T); k=VEC[T]
        return [Case(And_(same,n==0),ret=ret),
                Case(And_(same,n!=0),this=pad(T,cx.this.as_seq(k),n),ret=ret),
                Case(Not(same),this=AVRec(T,fill(T,n)),ret=ret)]
    return spec
def setvec(T,ret):
    def spec(cx): return [Case(True,this=AVRec(T,cx.a(0)),ret=ret)]
    return spec
def sizedmat(T,ret):
    def spec(cx):
        r,c=cx.a(0),cx.a(1); n=u64(mul32(r,c)); k=MAT[T]; same=isT(cx.this,T)
        return [Case(same,this=mat(T,PadSeq(cx.this.as_seq(k),n,dflt(k)),r,c),ret=ret),
                Case(Not(same),this=mat(T,fill(T,n),r,c),ret=ret)]
    return spec
def smallmat(cx):
    r,c=cx.a(0),cx.a(1)
    return [('matrix dimensions do not overflow',And(mulok(r,c),ULE(r,MAXLEN),ULE(c,MAXLEN)))]
def setmat(T,ret):
    def spec(cx):
        q,r,c=cx.a(0); return [Case(True,this=mat(T,q,r,c),ret=ret)]
    return spec
for T,nm in list(VNAME.items())+[(VEC_,'vector')]:
    fn='vec_'+nm if T!=VEC_ else nm
    contract(G+'allocate_%s(unsigned int)'%fn,sized(T,None),props=['P02'])
    contract(G+'set_%s(unsigned int)'%fn,sized(T,RPayload()),props=['P02'])
    if T!=VEC_: contract(G+'set_%s(std::vector<%s> const&)'%(fn,CT[VEC[T]]),setvec(T,RPayload()),props=['P02'])
    if T not in(VEC_,VP): contract(G+'operator=(std::vector<%s> const&)'%CT[VEC[T]],setvec(T,RThis()),props=['P02'])
for T,nm in MNAME.items():
    contract(G+'allocate_mat_%s(unsigned int, unsigned int)'%nm,sizedmat(T,None),pre=smallmat,props=['P02'])
    contract(G+'set_mat_%s(unsigned int, unsigned int)'%nm,sizedmat(T,RPayload()),pre=smallmat,props=['P02'])
    contract(G+'set_mat_%s(mat_type<%s> const&)'%(nm,CT[MAT[T]]),setmat(T,RPayload()),props=['P02'])
    contract(G+'operator=(mat_type<%s> const&)'%CT[MAT[T]],setmat(T,RThis()),props=['P02'])
for T,nm in [(PTR,'pointer'),(BOOL,'bool'),(INT,'int'),(LONG,'long'),(REAL,'real')]:
    contract(G+'set_%s(%s)'%(nm,CT[SCAL[T]]),(lambda T:lambda cx:[Case(True,this=AVRec(T,cx.a(0)),ret=RUnion())])(T),props=['P02'])
contract(G+'set_complex(std::complex<double> const&)',lambda cx:[Case(True,this=AVRec(CPX,cx.a(0)),ret=RPayload())],props=['P02'])
contract(G+'set_complex(double, double)',lambda cx:[Case(True,this=AVRec(CPX,(cx.a(0),cx.a(1))),ret=RPayload())],props=['P02'])
contract(G+'set_string(string_view)',lambda cx:[Case(True,this=AVRec(STR,cx.a(0)),ret=RPayload())],props=['P02'])
contract(G+'set_map()',lambda cx:[Case(isT(cx.this,MAP_),ret=RPayload()),Case(notT(cx.this,MAP_),this=EMPTYMAP,ret=RPayload())],props=['P02'])
contract(G+'free_pointer()',lambda cx:[Case(isT(cx.this,NT,PTR),this=NOTYPE,ret=RThis()),Throw(notT(cx.this,NT,PTR))],props=['P03'])

# ------------------------------------------------------------------ size queries
f_nel=Function('nelem',V,B64)     # opaque at nested values (terms.DEFS: expanded only when needed)
def nested_av(av): return isinstance(av,AVTerm) and av.t.num_args()>0
def nelem(av):
    return f_nel(av.t) if nested_av(av) else nelem_def(av)
terms.DEFS['nelem']=lambda a:[a==nelem_def(AVTerm(a.arg(0)))]
terms.EXTRA_AX.append(lambda a,d:[ULE(a,terms.MAXLEN)] if d=='nelem' else [])
def nelem_def(av):
    r=BitVecVal(0,64)
    for T in list(VEC)+list(MAT): r=If(isT(av,T),av.len(),r)
    r=If(isT(av,MAP_),av.card(),r)
    r=If(isT(av,*SCAL),BitVecVal(1,64),r)
    return r
lo32=lambda x:Extract(31,0,x)
def nrows(av): return If(isT(av,*MAT),bv(av.rows(),32),If(isT(av,NT),BitVecVal(0,32),BitVecVal(1,32)))
def ncols(av): return If(isT(av,*MAT),bv(av.cols(),32),lo32(nelem(av)))
contract(G+'get_num_elements() const',lambda cx:[Case(True,ret=RVal('u32',lo32(nelem(cx.this))))],props=['P15'])
contract(G+'num_rows() const',lambda cx:[Case(True,ret=RVal('u32',nrows(cx.this)))],props=['P15'])
contract(G+'num_cols() const',lambda cx:[Case(True,ret=RVal('u32',ncols(cx.this)))],props=['P15'])
contract(G+'get_numRows() const',lambda cx:[Case(True,ret=RVal('u32',nrows(cx.this)))],props=['P15'])
contract(G+'get_numCols() const',lambda cx:[Case(True,ret=RVal('u32',ncols(cx.this)))],props=['P15'])
contract(G+'get_type() const',lambda cx:[Case(True,ret=RVal('i',cx.this.tag()))],props=['P02'])

# ------------------------------------------------------------------ value conversions
FZ=z3.FPVal(0.0,F64); F1=z3.FPVal(1.0,F64)
def cv(kf,v,kt):
    """widening conversion of a scalar value"""
    if kf==kt: return v
    if kt=='c': return (cv(kf,v,'r'),FZ)
    if kf=='b': return If(v,F1,FZ) if kt=='r' else If(v,BitVecVal(1,KSORT[kt].size()),BitVecVal(0,KSORT[kt].size()))
    if kt=='r': return z3.fpSignedToFP(RNE,v,F64)
    if kf=='i' and kt=='l': return SignExt(32,v)
    raise TypeError((kf,kt))
def subnorm_or_zero(x): return Or(z3.fpIsZero(x),z3.fpIsSubnormal(x))
def integer_valued(x):
    """the library's notion: x differs from the nearest integer by zero or a subnormal amount"""
    return f_isint(x)
contract('isInteger(double)',lambda cx:[Case(True,ret=RVal('b',integer_valued(cx.a(0))))],props=['P05','P13'],static=True,noreplay=True)
RANGE={'i':(-2.0**31,2.0**31,True),'u32':(0.0,2.0**32,False),'l':(-2.0**63,2.0**63,True),'u64':(0.0,2.0**64,False)}
def from_real(x,k):
    """(exactly convertible, value)"""
    lo,hi,sg=RANGE[k]; w=KSORT[k].size()
    ok=And(integer_valued(x),z3.fpGEQ(x,z3.FPVal(lo,F64)),z3.fpLT(x,z3.FPVal(hi,F64)))
    return ok,(z3.fpToSBV if sg else z3.fpToUBV)(RTZ,x,BitVecSort(w))
def from_int(v,k):
    """v: signed bit-vector (32 or 64)"""
    w=KSORT[k].size(); sg=RANGE[k][2]
    x=SignExt(64,v) if v.size()==64 else SignExt(96,v)
    lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if sg else (0,(1<<w)-1)
    return And(x>=BitVecVal(lo,128),x<=BitVecVal(hi,128)),simp(Extract(w-1,0,x))
def numeric_cases(av,k):
    """list of (guard, ok, value) for conversion of a scalar container to C kind k"""
    out=[]
    one=BitVecVal(1,KSORT[k].size()) if k not in('r','f32') else None
    if k in RANGE:
        out.append((isT(av,BOOL),True,If(av.scal('b'),one,one-one)))
        for T,kk in((INT,'i'),(LONG,'l')):
            ok,v=from_int(av.scal(kk),k); out.append((isT(av,T),ok,v))
        ok,v=from_real(av.scal('r'),k); out.append((isT(av,REAL),ok,v))
        re_,im=av.scal('c'); ok,v=from_real(re_,k)
        out.append((isT(av,CPX),And(subnorm_or_zero(im),ok),v))
    else:
        srt=KSORT[k]
        one=z3.FPVal(1.0,srt); zero=z3.FPVal(0.0,srt)
        dn=lambda x:x if k=='r' else z3.fpFPToFP(RNE,x,F32)
        out.append((isT(av,BOOL),True,If(av.scal('b'),one,zero)))
        out.append((isT(av,INT),True,z3.fpSignedToFP(RNE,av.scal('i'),srt)))
        out.append((isT(av,LONG),True,z3.fpSignedToFP(RNE,av.scal('l'),srt)))
        out.append((isT(av,REAL),True,dn(av.scal('r'))))
        re_,im=av.scal('c'); out.append((isT(av,CPX),subnorm_or_zero(im),dn(re_)))
    return out
NUMT=[BOOL,INT,LONG,REAL,CPX]
def get_value_spec(k):
    def spec(cx):
        cs=[Throw(notT(cx.this,*NUMT),eff={0:ANY})]
        for g,ok,v in numeric_cases(cx.this,k):
            cs.append(Case(And_(g,ok),eff={0:v}))
            if ok is not True: cs.append(Throw(And_(g,Not(ok)),eff={0:ANY}))
        return cs
    return spec
KC={'i':'int','u32':'unsigned int','l':'long','u64':'unsigned long','f32':'float','r':'double'}
for k,c in KC.items():
    contract('void %sget_value<%s>(%s&, string_view) const'%(G,c,c),get_value_spec(k),props=['P05'])
for k,nm in(('i','int'),('u32','uint'),('l','long'),('u64','ulong')):
    def spec(cx,k=k):
        cs=[Throw(notT(cx.this,*NUMT))]
        for g,ok,v in numeric_cases(cx.this,k):
            cs.append(Case(And_(g,ok),ret=RVal(k,v)))
            if ok is not True: cs.append(Throw(And_(g,Not(ok))))
        return cs
    contract(G+'get_as_%s(string_view) const'%nm,spec,props=['P05'])
REALT=[BOOL,INT,LONG,REAL]
def asreal(av):
    r=av.scal('r')
    for T in(LONG,INT,BOOL): r=If(isT(av,T),cv(SCAL[T],av.scal(SCAL[T]),'r'),r)
    return r
def ascplx(av):
    re_,im=av.scal('c'); c=isT(av,CPX)
    return (If(c,re_,asreal(av)),If(c,im,FZ))
contract(G+'get_number(string_view) const',lambda cx:[Case(isT(cx.this,*REALT),ret=RVal('r',asreal(cx.this))),Throw(notT(cx.this,*REALT))],props=['P05'])
contract(G+'get_complex_number(string_view) const',lambda cx:[Case(isT(cx.this,*NUMT),ret=RVal('c',ascplx(cx.this))),Throw(notT(cx.this,*NUMT))],props=['P05'])
contract(G+'get_complex_number(double&, double&) const',lambda cx:[Case(isT(cx.this,*NUMT),eff=dict(enumerate(ascplx(cx.this)))),Throw(notT(cx.this,*NUMT))],props=['P05'])
# numbers read from position i of a vector / matrix / generic vector
def elem_k(av,T,i,kt): return cv(VEC.get(T) or MAT.get(T),av.elem(VEC.get(T) or MAT.get(T),i),kt)
def number_at(kt,srcs,types,fn,ret):
    def spec(cx):
        av=cx.this; i=u64(cx.a(0)); cs=[]; n=av.len()
        cs.append(Throw(notT(av,VEC_,*srcs)))
        cs.append(Throw(And_(isT(av,VEC_,*srcs),UGE(i,n))))
        for T in srcs: cs.append(Case(And_(isT(av,T),ULT(i,n)),**ret(elem_k(av,T,i,kt))))
        e=av.elem('v',i)
        cs.append(Case(And_(isT(av,VEC_),ULT(i,n),isT(e,*types)),**ret(fn(e))))
        cs.append(Throw(And_(isT(av,VEC_),ULT(i,n),notT(e,*types))))
        return cs
    return spec
contract(G+'get_number_at(unsigned int, string_view) const',number_at('r',[VB,VI,VL,VR,MI,ML,MR],REALT,asreal,lambda v:dict(ret=RVal('r',v))),props=['P04','P05'])
CSRC=[VB,VI,VL,VR,VC,MI,ML,MR,MC]
contract(G+'get_complex_number_at(unsigned int, string_view) const',number_at('c',CSRC,NUMT,ascplx,lambda v:dict(ret=RVal('c',v))),props=['P04','P05'])
contract(G+'get_complex_number_at(unsigned int, double&, double&, string_view) const',number_at('c',CSRC,NUMT,ascplx,lambda v:dict(eff={1:v[0],2:v[1]})),props=['P04','P05'])

# ------------------------------------------------------------------ promotions
def one_elem(v): return Seq(1,lambda k:v)
def seq_cv(av,kf,kt): return Seq(av.len(),lambda k:cv(kf,av.elem(kf,k),kt))
def prom_scal(kt,srcs):
    """scalar promotion: [(source type, new value)]"""
    T=[t for t,k in SCAL.items() if k==kt][0]
    def f(av): return [(NT,rec(T,dflt(kt)))]+[(t,rec(T,cv(SCAL[t],av.scal(SCAL[t]),kt))) for t in srcs]+[(T,av)]
    return f
def prom_vec(T,ss,vs):
    kt=VEC[T]
    def f(av):
        o=[(NT,rec(T,one_elem(dflt(kt))))]
        o+=[(t,rec(T,one_elem(cv(SCAL[t],av.scal(SCAL[t]),kt)))) for t in ss]
        o+=[(t,rec(T,seq_cv(av,VEC[t],kt))) for t in vs]
        return o+[(T,av)]
    return f
def prom_mat(T,ss,vs,ms):
    kt=MAT[T]; i1=BitVecVal(1,32)
    def f(av):
        o=[(NT,mat(T,one_elem(dflt(kt)),i1,i1))]
        o+=[(t,mat(T,one_elem(cv(SCAL[t],av.scal(SCAL[t]),kt)),i1,i1)) for t in ss]
        o+=[(t,mat(T,seq_cv(av,VEC[t],kt),lo32(av.len()),i1)) for t in vs]
        o+=[(t,mat(T,seq_cv(av,MAT[t],kt),bv(av.rows(),32),bv(av.cols(),32))) for t in ms]
        return o+[(T,av)]
    return f
def prom_vector(av):
    o=[(NT,rec(VEC_,one_elem(NOTYPE)))]
    o+=[(t,rec(VEC_,one_elem(rec(t,av.scal(k))))) for t,k in SCAL.items()]
    st={k:t for t,k in SCAL.items()}
    for t,k in VEC.items():
        if t!=VEC_: o.append((t,rec(VEC_,Seq(av.len(),(lambda t,k:lambda j:rec(st[k],av.elem(k,j)))(t,k)))))
    return o+[(VEC_,av)]
PROM={'int':prom_scal('i',[BOOL]),'long':prom_scal('l',[BOOL,INT]),'real':prom_scal('r',[BOOL,INT,LONG]),
 'vec_int':prom_vec(VI,[BOOL,INT],[VB]),'vec_long':prom_vec(VL,[BOOL,INT,LONG],[VB,VI]),'vec_real':prom_vec(VR,[BOOL,INT,LONG,REAL],[VB,VI,VL]),
 'vec_complex':prom_vec(VC,[BOOL,INT,LONG,REAL,CPX],[VB,VI,VL,VR]),
 'mat_int':prom_mat(MI,[BOOL,INT],[VB,VI],[]),'mat_long':prom_mat(ML,[BOOL,INT],[VB,VI,VL],[MI]),'mat_real':prom_mat(MR,[BOOL,INT,REAL],[VB,VI,VL,VR],[MI,ML]),
 'mat_complex':prom_mat(MC,[BOOL,INT,LONG,REAL],[VB,VI,VL,VR],[MI,ML,MR]),'vector':prom_vector}
def prom_cplx(av):
    return prom_scal('c',[BOOL,INT,LONG,REAL])(av)+[(t,n) for t,n in PROM['vec_complex'](av) if t in(VB,VI,VL,VR)]
PROM['complex']=prom_cplx
def prom_spec(nm):
    def spec(cx):
        o=PROM[nm](cx.this)
        return [Case(isT(cx.this,t),this=n,ret=RThis()) for t,n in o]+[Throw(notT(cx.this,*[t for t,_ in o]))]
    return spec
for nm in PROM: contract(G+'promote_to_%s()'%nm,prom_spec(nm),props=['P09'])

# ------------------------------------------------------------------ typed access
SNAME={BOOL:'bool',INT:'int',LONG:'long',REAL:'real'}
SV='(string_view)'
def typed(T,ret): return lambda cx:[Case(isT(cx.this,T),ret=ret(cx)),Throw(notT(cx.this,T))]
for T,nm in SNAME.items():
    contract(G+'get_%s(string_view) const'%nm,typed(T,lambda cx:RUnion()),props=['P03'])
    contract(G+'get_%s(string_view)'%nm,(lambda T:lambda cx:[Case(isT(cx.this,NT),this=rec(T,dflt(SCAL[T])),ret=RUnion()),Case(isT(cx.this,T),ret=RUnion()),Throw(notT(cx.this,NT,T))])(T),props=['P03'])
for T,nm in((CPX,'complex'),(STR,'string')):
    contract(G+'get_%s(string_view)'%nm,(lambda T:lambda cx:[Case(isT(cx.this,NT),this=rec(T,dflt(SCAL[T])),ret=RPayload()),Case(isT(cx.this,T),ret=RPayload()),Throw(notT(cx.this,NT,T))])(T),props=['P03'])
contract(G+'get_complex(string_view) const',typed(CPX,lambda cx:RPayload()),props=['P03'])
contract(G+'get_string(string_view) const',typed(STR,lambda cx:RView(cx.this.scal('s'))),props=['P03'])
contract(G+'get_pvoid(string_view) const',typed(PTR,lambda cx:RVal('p',cx.this.scal('p'))),props=['P03'])
contract(G+'get_ppvoid(string_view) const',typed(PTR,lambda cx:RUnion()),props=['P03'])
contract('void* %sget_pointer<void*>() const'%G,typed(PTR,lambda cx:RVal('p',cx.this.scal('p'))),props=['P03'])
contract('void*& %sget_pointer<void*>()'%G,typed(PTR,lambda cx:RUnion()),props=['P03'])
ALLV={VP:'vec_pointer',VB:'vec_bool',VI:'vec_int',VL:'vec_long',VR:'vec_real',VC:'vec_complex',VS:'vec_string',MI:'mat_int',ML:'mat_long',MR:'mat_real',MC:'mat_complex',VEC_:'vector',MAP_:'map'}
GPROM={VI:[VB],VL:[VB,VI],VR:[VB,VI,VL],VC:[VB,VI,VL,VR],MI:[VB,VI,VL,VR],ML:[VB,VI,VL,VR,MI],MR:[VB,VI,VL,VR,MI,ML],MC:[VB,VI,VL,VR,MR,VC]}
def empty_of(T):
    z=BitVecVal(0,32)
    return mat(T,fill(T,0),z,z) if T in MAT else rec(T,fill(T,0))
def get_promoting(T,nm):
    def spec(cx):
        av=cx.this; pr=dict(PROM[nm](av))
        ok=[NT,T]; cs=[Case(isT(av,NT),this=empty_of(T),ret=RPayload()),Case(isT(av,T),ret=RPayload())]
        for t in GPROM[T]:
            if t in pr: cs.append(Case(isT(av,t),this=pr[t],ret=RPayload())); ok.append(t)
        return cs+[Throw(notT(av,*ok))]
    return spec
for T,nm in ALLV.items():
    contract(G+'get_%s(string_view) const'%nm,typed(T,lambda cx:RPayload()),props=['P03'])
    contract(G+'get_%s(string_view)'%nm,get_promoting(T,nm) if T in GPROM else typed(T,lambda cx:RPayload()),props=['P03']+(['P09'] if T in GPROM else []))
class ROwnScalar(ROwn):
    """pointer to the numbers held: the scalar itself, or the first element"""
    def __init__(s,T): s.T=T
    def w(s): return RUnion() if s.T in(INT,LONG,REAL) else (RPayload() if s.T==CPX else RData())
for nm,ts in(('int',(INT,VI,MI)),('long',(LONG,VL,ML)),('real',(REAL,VR,MR)),('complex',(CPX,VC,MC))):
    for c in('',' const'):
        contract(G+'get_%s_pointer()%s'%(nm,c),(lambda ts:lambda cx:[Case(isT(cx.this,t),ret=ROwnScalar(t)) for t in ts]+[Throw(notT(cx.this,*ts))])(ts),props=['P03'])

# ------------------------------------------------------------------ matrices
def mem(cls,meth,const,a,spec_,**k):
    """member of mat_type: the matrix is argument 0"""
    types=['%s%s&'%(cls,' const' if const else '')]+a
    nm='%s::%s(%s)%s'%(cls,meth,', '.join(a),' const' if const else '')
    call='A0.%s(%s)'%(meth,','.join('A%d'%(i+1) for i in range(len(a))))
    return contract(nm,spec_,types=types,hasthis=False,call=call,**k)
def midx(i,j,rows): return u64(i+mul32(j,rows))
def m_call(cx):
    q,r,c=cx.a(0); i,j=cx.a(1),cx.a(2); ok=And(ULT(i,r),ULT(j,c))
    return [Case(ok,ret=RArgElem(0,midx(i,j,r))),Throw(Not(ok))]
def m_col(cx):
    q,r,c=cx.a(0); j=cx.a(1); ok=ULT(j,c)
    return [Case(ok,eff={2:Seq(u64(r),lambda k:q.get(midx(lo32(k),j,r)))}),Throw(Not(ok))]
def m_row(cx):
    q,r,c=cx.a(0); i=cx.a(1); ok=ULT(i,r)
    return [Case(ok,eff={2:Seq(u64(c),lambda k:q.get(midx(i,lo32(k),r)))}),Throw(Not(ok))]
def over(base,n,fn): return RangeSeq(base,base.n,lambda k:ULT(k,n),fn)
def m_colp(cx):
    q,r,c=cx.a(0); j=cx.a(1); ok=ULT(j,c)
    return [Case(ok,eff={2:over(cx.a(2),u64(r),lambda k:q.get(midx(lo32(k),j,r)))}),Throw(Not(ok))]
def m_rowp(cx):
    q,r,c=cx.a(0); i=cx.a(1); ok=ULT(i,r)
    return [Case(ok,eff={2:over(cx.a(2),u64(c),lambda k:q.get(midx(i,lo32(k),r)))}),Throw(Not(ok))]
U='unsigned int'
for T,kk in MAT.items():
    e=CT[kk]; cls='mat_type<%s>'%e
    for cst in(True,False):
        mem(cls,'operator()',cst,[U,U],m_call,props=['P12','P04'])
        mem(cls,'data',cst,[],lambda cx:[Case(True,ret=RArgData(0))],props=['P12'])
    for nm in('get_column','getColumn'):
        mem(cls,nm,True,[U,'std::vector<%s>&'%e],m_col,props=['P12'])
        mem(cls,nm,True,[U,e+'*'],m_colp,props=['P12'],pre=lambda cx:[('the output array holds a column',ULE(u64(cx.a(0)[1]),cx.a(2).n))])
    for nm in('get_row','getRow'):
        mem(cls,nm,True,[U,'std::vector<%s>&'%e],m_row,props=['P12'])
        mem(cls,nm,True,[U,e+'*'],m_rowp,props=['P12'],pre=lambda cx:[('the output array holds a row',ULE(u64(cx.a(0)[2]),cx.a(2).n))])
    for nm in('num_rows','numRows'): mem(cls,nm,True,[],lambda cx:[Case(True,ret=RVal('u32',cx.a(0)[1]))],props=['P12','P15'])
    for nm in('num_cols','numCols'): mem(cls,nm,True,[],lambda cx:[Case(True,ret=RVal('u32',cx.a(0)[2]))],props=['P12','P15'])
    def m_resize(cx,kk=kk):
        q,r,c=cx.a(0); nr,nc=cx.a(1),cx.a(2)
        return [Case(True,eff={0:(PadSeq(q,u64(mul32(nr,nc)),dflt(kk)),nr,nc)})]
    mem(cls,'resize',False,[U,U],m_resize,props=['P12'],pre=lambda cx:[('matrix dimensions do not overflow',And(mulok(cx.a(1),cx.a(2)),ULE(cx.a(1),MAXLEN),ULE(cx.a(2),MAXLEN)))])

# ------------------------------------------------------------------ indexed access
def grow(q,i,d):
    n=If(ULT(i,q.n),q.n,i+1); return PadSeq(q,simp(n),d)
def small_index(cx): return [('the position is below 2^31-1',ULT(cx.a(0),MAXLEN))]
VT_OF={'bool':VB,'int':VI,'long':VL,'real':VR,'complex':VC,'string':VS}
ST_OF={'bool':BOOL,'int':INT,'long':LONG,'real':REAL,'complex':CPX,'string':STR}
AT_SRC={'bool':[],'int':[BOOL,INT,VB],'long':[BOOL,INT,LONG,VB,VI],'real':[VB,VI,VL],'complex':[VB,VI,VL,VR],'string':[]}
def at_spec(nm):
    T=VT_OF[nm]; S_=ST_OF[nm]; k=VEC[T]; d=dflt(k)
    def spec(cx):
        av=cx.this; i=u64(cx.a(0)); cs=[]; done=[NT,T]+AT_SRC[nm]
        r=lambda q:dict(this=AVRec(T,grow(q,i,d)),ret=RVal('b',grow(q,i,d).get(i)) if nm=='bool' else RElem(i))
        cs.append(Case(isT(av,NT),**r(fill(T,0)))); cs.append(Case(isT(av,T),**r(av.as_seq(k))))
        pr=dict(PROM['vec_'+nm](av)) if AT_SRC[nm] else {}
        for t in AT_SRC[nm]: cs.append(Case(isT(av,t),**r(pr[t].seq())))
        for t,n in PROM['vector'](av):
            if t in done: continue
            done.append(t)
            q=av.as_seq('v') if t==VEC_ else n.seq()
            new=AVRec(VEC_,grow(q,i,NOTYPE).store(i,AVRec(S_,d)))
            ret=RVal('b',BoolVal(False)) if nm=='bool' else RIn(('e',i),RPayload() if nm in('complex','string') else RUnion())
            cs.append(Case(isT(av,t),this=new,ret=ret))
        cs.append(Throw(notT(av,*done)))
        return cs
    return spec
def cat_spec(nm):
    T=VT_OF[nm]
    def spec(cx):
        av=cx.this; i=u64(cx.a(0)); ok=And_(isT(av,T),ULT(i,av.len()))
        ret=RVal('b',av.elem('b',i)) if nm=='bool' else (RView(av.elem('s',i)) if nm=='string' else RElem(i))
        return [Case(ok,ret=ret),Throw(Not(ok))]
    return spec
MAT_SRC={'int':[VB,VI],'long':[VB,VI,VL],'real':[VB,VI,VL,VR],'complex':[VB,VI,VL,VR,MR]}
MT_OF={'int':MI,'long':ML,'real':MR,'complex':MC}
def mat_at(nm):
    T=MT_OF[nm]; k=MAT[T]
    def spec(cx):
        av=cx.this; i,j=cx.a(0),cx.a(1); one=BitVecVal(1,32); cs=[]
        cs.append(Case(isT(av,NT),this=mat(T,fill(T,u64(mul32(i+1,j+1))),i+1,j+1),ret=RElem(midx(i,j,i+1))))
        pr=dict(PROM['mat_'+nm](av)); ok=[NT,T]
        for t in [T]+MAT_SRC[nm]:
            if t not in pr: continue
            ok.append(t); n=pr[t]; R,C=bv(n.rows(),32),bv(n.cols(),32); inb=And(ULT(i,R),ULT(j,C))
            cs.append(Case(And_(isT(av,t),inb),this=n,ret=RElem(midx(i,j,R))))
            cs.append(Throw(And_(isT(av,t),Not(inb)),this=n))
        cs.append(Throw(notT(av,*ok)))
        return cs
    return spec
def cmat_at(nm):
    T=MT_OF[nm]
    def spec(cx):
        av=cx.this; i,j=cx.a(0),cx.a(1); R,C=bv(av.rows(),32),bv(av.cols(),32); ok=And_(isT(av,T),ULT(i,R),ULT(j,C))
        return [Case(ok,ret=RElem(midx(i,j,R))),Throw(Not(ok))]
    return spec
def small_mat_index(cx):
    i,j=cx.a(0),cx.a(1)
    return [('a matrix created for (i,j) does not overflow',Or_(notT(cx.this,NT),And(ULT(i,MAXLEN),ULT(j,MAXLEN),mulok(i+1,j+1))))]
for nm in VT_OF:
    contract(G+'get_%s_at(unsigned int)'%nm,at_spec(nm),pre=small_index,props=['P04'])
    contract(G+'get_%s_at(unsigned int, string_view) const'%nm,cat_spec(nm),props=['P04'])
    if nm!='string': contract('%s %sget_%s_at<int, 0>(int)'%({'bool':'bool','int':'int&','long':'long&','real':'double&','complex':'std::complex<double>&'}[nm],G,nm),at_spec(nm),pre=small_index,props=['P04'])
for nm in MT_OF:
    contract(G+'get_%s_at(unsigned int, unsigned int)'%nm,mat_at(nm),pre=small_mat_index,props=['P04'])
    contract(G+'get_%s_at(unsigned int, unsigned int, string_view) const'%nm,cmat_at(nm),props=['P04'])
def idx_new(cx):
    av=cx.this; i=u64(cx.a(0))
    return [Case(isT(av,VEC_),this=AVRec(VEC_,grow(av.as_seq('v'),i,NOTYPE)),ret=RElem(i)),Case(notT(av,VEC_),this=AVRec(VEC_,grow(fill(VEC_,0),i,NOTYPE)),ret=RElem(i))]
def idx_old(cx):
    av=cx.this; i=u64(cx.a(0)); ok=And_(isT(av,VEC_),ULT(i,av.len()))
    return [Case(ok,ret=RElem(i)),Throw(Not(ok))]
contract(G+'operator[](unsigned int)',idx_new,pre=small_index,props=['P04'])
contract(G+'get_gc_at(unsigned int)',idx_new,pre=small_index,props=['P04'])
contract(G+'operator[](unsigned int) const',idx_old,props=['P04'])
for c in('',' const'): contract(G+'operator()(unsigned int, string_view)'+c,idx_old,props=['P04'])
contract(G+'get_gc_at(unsigned int, string_view) const',idx_old,props=['P04'])
def idx_ptr(const):
    def spec(cx):
        av=cx.this; i=u64(cx.a(0)); n=av.len(); e=av.elem('v',i); inb=And_(isT(av,VEC_),ULT(i,n)); isp=And_(inb,isT(e,PTR))
        if const: return [Case(isp,ret=RVal('p',e.scal('p'))),Throw(Not(isp))]
        return [Case(isp,ret=RIn(('e',i),RUnion()))]+[Throw(And_(c.guard,Not(isp)),this=c.this) for c in idx_new(cx)]
    return spec
for c in('',' const'): contract('void*%s %sget_pointer_at<void*>(unsigned int)%s'%('' if c else '&',G,c),idx_ptr(bool(c)),pre=None if c else small_index,props=['P04'])

# ------------------------------------------------------------------ keyed access
def sv_first(cx,i):
    """(has any, key) for the first string of argument i that is a key of this"""
    q=cx.a(i); j=cx.first(q.n,lambda k:cx.this.has(q.get(k))); return ULT(j,q.n),q.get(j)
def mapwith(av,key,v): return AVRec(MAP_,av.as_map().setval(key,v))
class Fake:
    def __init__(s,this,a=()): s.this=this; s._a=a
    def a(s,i): return s._a[i]
def under(cx,g,key,cases):
    """the cases of an operation applied to the container stored under key"""
    av=cx.this; out=[]
    for c in cases:
        t=c.this
        if isinstance(t,AnyScal):
            T=t.T; k=SCAL[T]
            t=Post(lambda p,T=T,k=k:mapwith(av,key,AVRec(T,p.val(key).scal(k) if p is not None else fresh_kind(k,'unspec'))))
        elif t is not None: t=mapwith(av,key,t)
        r=c.ret
        if isinstance(r,(RUnion,RPayload,RElem,RThis)): r=RIn(('m',key),r)
        out.append(Case(And_(g,c.guard),out=c.out,this=t,ret=r,eff=c.eff))
    return out
def has_spec(cx): return [Case(True,ret=RVal('b',And_(isT(cx.this,MAP_),cx.this.has(cx.a(0)))))]
contract(G+'exists(string_view) const',has_spec,props=['P10'])
contract(G+'exists(std::vector<string> const&) const',lambda cx:[Case(True,ret=RVal('b',And_(isT(cx.this,MAP_),sv_first(cx,0)[0])))],props=['P10'])
def must(cx):
    h,key=sv_first(cx,0); m=isT(cx.this,MAP_)
    return [Case(And_(m,h),ret=RStr(key)),Throw(Not(And_(m,h)))]
contract(G+'must_exists(std::vector<string> const&, string_view) const',must,props=['P10'])
def call_key(cx):
    av=cx.this; k=cx.a(0); ok=And_(isT(av,MAP_),av.has(k)); return [Case(ok,ret=RMapVal(k)),Throw(Not(ok))]
def call_keys(cx):
    h,k=sv_first(cx,0); ok=And_(isT(cx.this,MAP_),h); return [Case(ok,ret=RMapVal(k)),Throw(Not(ok))]
for c in('',' const'):
    contract(G+'operator()(string_view, string_view)'+c,call_key,props=['P10'])
    contract(G+'operator()(std::vector<string> const&, string_view)'+c,call_keys,props=['P10'])
def sub_new(cx):
    av=cx.this; k=cx.a(0); m=isT(av,MAP_)
    return [Case(And_(m,av.has(k)),ret=RMapVal(k)),Case(And_(m,Not(bl(av.has(k)))),this=AVRec(MAP_,av.as_map().store(k,NOTYPE)),ret=RMapVal(k),keep=True),
            Case(Not(m),this=AVRec(MAP_,empty_map().store(k,NOTYPE)),ret=RMapVal(k))]
def sub_const(cx):
    c=sub_new(cx); return c[:2]+[Throw(c[2].guard)]
contract(G+'operator[](string_view)',sub_new,props=['P10'])
contract(G+'operator[](string_view) const',sub_const,props=['P10'])
def erase(cx):
    av=cx.this; k=cx.a(0); m=isT(av,MAP_)
    return [Case(And_(m,Not(bl(av.has(k))))),Case(And_(m,av.has(k)),this=AVRec(MAP_,av.as_map().erase(k))),Throw(Not(m))]
contract(G+'erase(string_view) const',erase,props=['P10'])
contract(G+'get_keys(std::vector<string>&) const',lambda cx:[Case(isT(cx.this,MAP_),eff={0:Seq(cx.this.card(),lambda p:cx.this.keyat(p))}),Case(notT(cx.this,MAP_),eff={0:Seq(0,lambda p:EMPTY)})],props=['P10'])
contract(G+'get_keys() const',lambda cx:[Case(True,ret=RStrAny(lambda v:BoolVal(True)))],props=['P10'])
# optional reads
def opt_cases(e,k):
    """[(guard,value)]: which contents of e can be read as kind k"""
    if k=='b': return [(isT(e,BOOL),e.scal('b'))]
    if k=='s': return [(isT(e,STR),e.scal('s'))]
    if k=='c': return [(isT(e,*NUMT),ascplx(e))]
    return [(And_(g,ok),v) for g,ok,v in numeric_cases(e,k)]
def opt_read(k):
    def spec(cx):
        av=cx.this; key=cx.a(0); e=av.val(key); has=And_(isT(av,MAP_),av.has(key)); o=opt_cases(e,k)
        return [Case(And_(has,g),eff={1:v},ret=RVal('b',BoolVal(True))) for g,v in o]+[Case(Not(And_(has,Or_(*[g for g,_ in o]))),ret=RVal('b',BoolVal(False)))]
    return spec
def opt_read_first(k):
    def spec(cx):
        av=cx.this; q=cx.a(0); m=isT(av,MAP_)
        def good(i):
            e=av.val(q.get(i)); return And_(av.has(q.get(i)),Or_(*[g for g,_ in opt_cases(e,k)]))
        j=cx.first(q.n,good); h=And_(m,ULT(j,q.n)); e=av.val(q.get(j))
        return [Case(And_(h,g),eff={1:v},ret=RVal('b',BoolVal(True))) for g,v in opt_cases(e,k)]+[Case(Not(h),ret=RVal('b',BoolVal(False)))]
    return spec
OPT={'b':'bool','i':'int','u32':'unsigned int','l':'long','u64':'unsigned long','r':'double','c':'std::complex<double>','s':'string'}
for k,c in OPT.items():
    contract(G+'get_if_exists(string_view, %s&) const'%c,opt_read(k),props=['P10','P05'])
    contract('bool %sget_if_exists<%s>(char const*, %s&) const'%(G,c,c),opt_read(k),props=['P10'])
    contract(('bool %sget_if_exists<%s>(std::vector<string> const&, %s&) const'%(G,c,c)) if k!='b' else G+'get_if_exists(std::vector<string> const&, bool&) const',opt_read_first(k),props=['P10'])
# required reads
def via(fn): return lambda e:fn(Fake(e,(lit(''),)))
def get_scalar_ret(T):
    def f(e): return [Case(isT(e,NT),this=rec(T,dflt(SCAL[T])),ret=RVal(SCAL[T],dflt(SCAL[T]))),Case(isT(e,T),ret=RVal(SCAL[T],e.scal(SCAL[T]))),Throw(notT(e,NT,T))]
    return f
def get_str_ret(e): return [Case(isT(e,NT),this=rec(STR,EMPTY),ret=RView(EMPTY)),Case(isT(e,STR),ret=RView(e.scal('s'))),Throw(notT(e,NT,STR))]
def spec_of(nm): return lambda e:REG[G+nm].spec(Fake(e,(lit(''),)))
MAPGET={'bool':get_scalar_ret(BOOL),'int':spec_of('get_as_int(string_view) const'),'number':spec_of('get_number(string_view) const'),'string':get_str_ret,
 'vec_real':spec_of('get_vec_real(string_view)'),'vec_complex':spec_of('get_vec_complex(string_view)'),'vec_string':spec_of('get_vec_string(string_view)')}
def map_get(f):
    def spec(cx):
        av=cx.this; k=cx.a(0); h=And_(isT(av,MAP_),av.has(k)); return [Throw(Not(h))]+under(cx,h,k,f(av.val(k)))
    return spec
def map_get_first(f):
    def spec(cx):
        h0,k=sv_first(cx,0); h=And_(isT(cx.this,MAP_),h0); return [Throw(Not(h))]+under(cx,h,k,f(cx.this.val(k)))
    return spec
def pred1(m):
    """m = p+1 : p"""
    m=simp(m)
    if z3.is_bv_value(m): return BitVecVal(m.as_long()-1,64) if m.as_long() else None
    if m.decl().kind()==z3.Z3_OP_BADD and m.num_args()==2 and z3.is_bv_value(m.arg(0)) and m.arg(0).as_long()==1: return m.arg(1)
    if m.decl().kind()==z3.Z3_OP_ZERO_EXT or (m.decl().kind()==z3.Z3_OP_CONCAT and m.num_args()==2 and z3.is_bv_value(m.arg(0)) and m.arg(0).as_long()==0):
        x=m.arg(m.num_args()-1)
        if x.size()==32 and x.decl().kind()==z3.Z3_OP_BADD and x.num_args()==2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long()==1: return simp(ZeroExt(32,x.arg(1)))
    return None
# key paths: descend key by key
f_walk=Function('walk',V,V,B64,V)
def _walk_ax(app,d):
    if d!='walk': return []
    v,q,n=app.arg(0),app.arg(1),app.arg(2); out=[Implies(n==0,app==v)]
    p=pred1(n)
    if p is not None: out.append(Implies(n!=0,app==f_val(f_walk(v,q,p),f_e['s'](q,p))))
    return out
terms.EXTRA_AX.append(_walk_ax)
class RSame(Ret):
    """reference to a vector with the given elements"""
    def __init__(s,k,v): s.k=k; s.v=v
    def make(s,m,st,cx): raise Unsupported('reference obtained through a key path')
    def check(s,m,st,cx,r): return seq_goal(s.k,m.arr_seq(st,m.stl.vec(st,r,s.k).rid),s.v)
def only(T,ret): return lambda e:[Case(isT(e,T),ret=ret(e)),Throw(notT(e,T))]
PATHGET={'bool':only(BOOL,lambda e:RVal('b',e.scal('b'))),'int':only(INT,lambda e:RVal('i',e.scal('i'))),'number':spec_of('get_number(string_view) const'),'string':only(STR,lambda e:RView(e.scal('s'))),
 'vec_real':only(VR,lambda e:RSame('r',e.as_seq('r'))),'vec_complex':only(VC,lambda e:RSame('c',e.as_seq('c'))),'vec_string':only(VS,lambda e:RSame('s',e.as_seq('s')))}
def path_prep(m,cx,st):
    t=cx.this.t; m.walkfn=lambda n:f_walk(t,Const('a0',V),n); return []
def path_get(f):
    def spec(cx):
        q=cx.a(0)
        if terms.CONCRETE[0]:
            def at(i):
                e=cx.this
                for j in range(conc(i)): e=e.val(q.get(BitVecVal(j,64)))
                return e
        else:
            def at(i): return AVTerm(f_walk(cx.this.t,Const('a0',V),i))
        j=cx.first(q.n,lambda i:Not(And_(isT(at(i),MAP_),at(i).has(q.get(i)))))
        ok=Not(bl(ULT(j,b64(q.n))))
        if terms.CONCRETE[0] and tobool(ok) is False: return [Throw(True)]
        return [Throw(Not(ok))]+[Case(And_(ok,c.guard),c.out,ret=c.ret) for c in f(at(simp(b64(q.n))))]
    return spec
for nm,f in PATHGET.items(): contract(G+'get_map_%s(std::initializer_list<string>) const'%nm,path_get(f),prep=path_prep,props=['P10'])
for nm,f in MAPGET.items():
    contract(G+'get_map_%s(string_view, string_view) const'%nm,map_get(f),props=['P10'])
    contract(G+'get_map_%s(std::vector<string> const&, string_view) const'%nm,map_get_first(f),props=['P10'])

# ------------------------------------------------------------------ appending
def app(q,v): return RangeSeq(q,simp(q.n+1),lambda k:k==q.n,lambda k:v)
def room(cx): return [('the vector holds fewer than 2^31-1 elements',ULT(cx.this.len(),MAXLEN))]
PUSHV={'bool':('b',[VB,VI,VL,VR,VC]),'int':('i',[VI,VL,VR,VC]),'long':('l',[VL,VR,VC]),'real':('r',[VR,VC]),'complex':('c',[VC])}
def push(nm,val):
    k,direct=PUSHV[nm]; S_=ST_OF[nm]
    def spec(cx):
        av=cx.this; v=val(cx); done=list(direct)+[VEC_]
        cs=[Case(isT(av,t),this=AVRec(t,app(av.as_seq(VEC[t]),cv(k,v,VEC[t])))) for t in direct]
        cs.append(Case(isT(av,VEC_),this=AVRec(VEC_,app(av.as_seq('v'),AVRec(S_,v)))))
        if nm!='bool':
            for t,n in PROM['vec_'+nm](av):
                if t in done: continue
                done.append(t); cs.append(Case(isT(av,t),this=AVRec(VT_OF[nm],app(n.seq(),v))))
        return cs+[Throw(notT(av,*done))]
    return spec
contract(G+'push_bool(bool) const',push('bool',lambda cx:cx.a(0)),pre=room,props=['P11'])
for nm in('int','long'): contract(G+'push_%s(%s)'%(nm,nm),push(nm,lambda cx:cx.a(0)),pre=room,props=['P11'])
contract(G+'push_real(double)',push('real',lambda cx:cx.a(0)),pre=room,props=['P11'])
contract(G+'push_complex(std::complex<double>&)',push('complex',lambda cx:cx.a(0)),pre=room,props=['P11'])
contract(G+'push_complex(double, double)',push('complex',lambda cx:(cx.a(0),cx.a(1))),pre=room,props=['P11'])
def push_str(cx):
    av=cx.this; s_=AVRec(STR,cx.a(0)); done=[VS]
    cs=[Case(isT(av,VS),this=AVRec(VS,app(av.as_seq('s'),cx.a(0))))]
    for t,n in PROM['vector'](av):
        if t==VS: continue
        done.append(t); q=av.as_seq('v') if t==VEC_ else n.seq()
        cs.append(Case(isT(av,t),this=AVRec(VEC_,app(q,s_))))
    return cs+[Throw(notT(av,*done))]
contract(G+'push_string(string_view)',push_str,pre=room,props=['P11'])

# ------------------------------------------------------------------ inline setters, assignments, constructors
WIDE=lambda x:z3.fpFPToFP(RNE,x,F64)
def put_u32(v):
    big=ULT(BitVecVal((1<<31)-1,32),v); return [(big,AVRec(LONG,u64(v))),(Not(big),AVRec(INT,v))]
PUT={'bool const&':lambda v:[(True,AVRec(BOOL,v))],'int const&':lambda v:[(True,AVRec(INT,v))],'long const&':lambda v:[(True,AVRec(LONG,v))],
 'unsigned int const&':put_u32,'unsigned long const&':lambda v:[(True,AVRec(LONG,v))],'double const&':lambda v:[(True,AVRec(REAL,v))],'float const&':lambda v:[(True,AVRec(REAL,WIDE(v)))],
 'std::complex<double> const&':lambda v:[(True,AVRec(CPX,v))],'std::complex<float> const&':lambda v:[(True,AVRec(CPX,(WIDE(v[0]),WIDE(v[1]))))],
 'char const*':lambda v:[(True,AVRec(STR,v))],'string_view':lambda v:[(True,AVRec(STR,v))],'string const&':lambda v:[(True,AVRec(STR,v))],'void*':lambda v:[(True,AVRec(PTR,v))]}
def put(f,ret=None): return lambda cx:[Case(g,this=n,ret=ret) for g,n in f(cx.a(0))]
for t,f in PUT.items():
    if t!='string const&': contract(G+'set(%s)'%t,put(f),props=['P02'])
    contract(G+'operator=(%s)'%t,put(f,RThis()),props=['P02'])
    contract(G+'GenericContainer(%s)'%t,put(f),props=['P02'],ctor=True)
contract(G+'GenericContainer()',lambda cx:[Case(True,this=NOTYPE)],props=['P02'],ctor=True)
contract(G+'~GenericContainer()',lambda cx:[Case(True,this=NOTYPE)],props=['P01'],dtor=True)

# ------------------------------------------------------------------ copies
def copy_of(ret=None): return lambda cx:[Case(True,this=cx.a(0),ret=ret)]
GCA='(GenericContainer const&)'
AL=[None,('alias',0)]
PART=[('part',x) for x in('ein','min','eout','mout')]
ALP=AL+PART
contract(G+'from_gc'+GCA,copy_of(),variants=ALP,props=['P06'])
contract(G+'load'+GCA,copy_of(),variants=ALP,props=['P06'])
contract(G+'operator='+GCA,copy_of(RThis()),variants=ALP,props=['P06'])
contract(G+'GenericContainer'+GCA,copy_of(),ctor=True,props=['P06'])
contract(G+'to_gc(GenericContainer&) const',lambda cx:[Case(True,eff={0:cx.this})],variants=AL,props=['P06'])
def merge(cx):
    av=cx.this; g=cx.a(0); am=av.as_map(); gm=g.as_map()
    both=lambda a:AVRec(MAP_,MapC(lambda k:Or_(bl(gm.has(k)),bl(a.has(k))),lambda k:ite(tobool(bl(gm.has(k))),gm.val(k),a.val(k))))
    gmap=isT(g,MAP_)
    return [Case(isT(g,NT)),Throw(notT(g,NT,MAP_)),
            Case(And_(gmap,isT(av,NT)),this=both(empty_map())),Case(And_(gmap,isT(av,MAP_)),this=both(am)),Throw(And_(gmap,notT(av,NT,MAP_)))]
contract(G+'merge(GenericContainer const&, string_view)',merge,variants=AL,props=['P06'])

# ------------------------------------------------------------------ export to plain vectors and matrices
def conv1(kf,x,k):
    """(exactly convertible, value) of one number of kind kf to kind k"""
    if k in RANGE:
        one=BitVecVal(1,KSORT[k].size())
        if kf=='b': return True,If(x,one,one-one)
        if kf in('i','l'): return from_int(x,k)
        if kf=='r': return from_real(x,k)
        ok,v=from_real(x[0],k); return And(subnorm_or_zero(x[1]),ok),v
    if k=='r' and kf=='c': return subnorm_or_zero(x[1]),x[0]
    return True,cv(kf,x,k)
NUMK=('b','i','l','r','c')
f_xok={}; f_xv={}
def _xdef(k,j):
    def ax(a):
        o,v=export_def(AVTerm(a.arg(0)),a.arg(1),k)
        return [a==(bl(o) if j is None else v[j] if k=='c' else v)]
    return ax
for _k in('i','u32','l','u64','r','c'):
    f_xok[_k]=Function('xok_'+_k,V,B64,BoolSort()); terms.DEFS['xok_'+_k]=_xdef(_k,None)
    f_xv[_k]=[Function('xv%d_%s'%(j,_k),V,B64,F64 if _k=='c' else KSORT[_k]) for j in range(2 if _k=='c' else 1)]
    for j,_f in enumerate(f_xv[_k]): terms.DEFS[_f.name()]=_xdef(_k,j); terms.IDXFN.add(_f.name())
    terms.IDXFN.add('xok_'+_k)
def export_elem(av,i,k):
    if not nested_av(av): return export_def(av,i,k)
    i=b64(i); v=[f(av.t,i) for f in f_xv[k]]
    return f_xok[k](av.t,i),(tuple(v) if k=='c' else v[0])
def export_def(av,i,k):
    """(convertible, value) of element i of a container exported as a vector of kind k"""
    ok=BoolVal(False); v=dflt(k)
    def add(g,o,x):
        nonlocal ok,v
        ok=If(g,bl(o),ok); v=ite(tobool(g),x,v)
    for T in SCAL:
        if SCAL[T] in NUMK: add(isT(av,T),*conv1(SCAL[T],av.scal(SCAL[T]),k))
    for T,kf in list(VEC.items())+list(MAT.items()):
        if kf in NUMK: add(isT(av,T),*conv1(kf,av.elem(kf,i),k))
    e=av.elem('v',i)
    if k=='r': add(isT(av,VEC_),isT(e,*REALT),asreal(e))
    elif k=='c': add(isT(av,VEC_),isT(e,*NUMT),ascplx(e))
    else:
        o=BoolVal(False); x=dflt(k)
        for g,oo,xx in numeric_cases(e,k): o=If(g,bl(oo),o); x=If(g,xx,x)
        add(isT(av,VEC_),o,x)
    return ok,v
def export_vec(k):
    def spec(cx):
        av=cx.this; n=nelem(av)
        j=cx.first(n,lambda i:Not(export_elem(av,i,k)[0]))
        return [Case(j==n,eff={0:Seq(n,lambda i:export_elem(av,i,k)[1])}),Throw(j!=n,eff={0:ANY})]
    return spec
EXPK={'int':'i','uint':'u32','long':'l','ulong':'u64','real':'r','complex':'c'}
ECT={'i':'int','u32':'unsigned int','l':'long','u64':'unsigned long','r':'double','c':'std::complex<double>'}
for nm,k in EXPK.items(): contract(G+'copyto_vec_%s(std::vector<%s>&, string_view) const'%(nm,ECT[k]),export_vec(k),props=['P13'])
def export_str(cx):
    av=cx.this; n=av.len(); j=cx.first(n,lambda i:notT(av.elem('v',i),STR))
    return [Case(isT(av,STR),eff={0:Seq(1,lambda i:av.scal('s'))}),Case(isT(av,VS),eff={0:av.as_seq('s')}),
            Case(And_(isT(av,VEC_),j==n),eff={0:Seq(n,lambda i:av.elem('v',i).scal('s'))}),
            Throw(Not(Or_(isT(av,STR,VS),And_(isT(av,VEC_),j==n))),eff={0:ANY})]
contract(G+'copyto_vec_string(std::vector<string>&, string_view) const',export_str,props=['P13'])
def export_mat(T,ss,vs,ms):
    kt=MAT[T]; i1=BitVecVal(1,32)
    def spec(cx):
        av=cx.this; cs=[]
        cs.append(Case(isT(av,NT),eff={0:(one_elem(dflt(kt)),i1,i1)}))
        for t in ss: cs.append(Case(isT(av,t),eff={0:(one_elem(cv(SCAL[t],av.scal(SCAL[t]),kt)),i1,i1)}))
        for t in vs: cs.append(Case(isT(av,t),eff={0:(seq_cv(av,VEC[t],kt),lo32(av.len()),i1)}))
        for t in ms: cs.append(Case(isT(av,t),eff={0:(seq_cv(av,MAT[t],kt),av.rows(),av.cols())}))
        # generic vector: its elements are the columns
        v=isT(av,VEC_); nc=lo32(av.len()); nr=lo32(nelem(av.elem('v',0)))
        ragged=cx.first(av.len(),lambda j:lo32(nelem(av.elem('v',j)))!=nr,when=v)
        N=u64(mul32(nr,nc)); col=lambda k:ix_div(nr,k); row=lambda k:ix_mod(nr,k)
        el=lambda k:export_elem(av.elem('v',col(k)),row(k),kt)
        bad=cx.first(N,lambda k:Not(el(k)[0]),when=v,grid=(nr,nc,lambda c,r:Not(export_elem(av.elem('v',c),r,kt)[0])))
        ok=And_(v,nc!=0,ragged==av.len(),bad==N)
        cs.append(Case(ok,eff={0:(Seq(N,lambda k:el(k)[1]),nr,nc)}))
        cs.append(Throw(Or_(And_(v,Not(ok)),notT(av,NT,VEC_,*(ss+vs+ms))),eff={0:ANY}))
        return cs
    return spec
def columns_fit(cx):
    av=cx.this; return [('the matrix of columns does not overflow',Or_(notT(av,VEC_),av.len()==0,mulok(lo32(nelem(av.elem('v',0))),lo32(av.len()))))]
for T,a in {MI:([BOOL,INT],[VB,VI],[MI]),ML:([BOOL,INT,LONG],[VB,VI,VL],[MI,ML]),MR:([BOOL,INT,LONG,REAL],[VB,VI,VL,VR],[MI,ML,MR]),MC:([BOOL,INT,LONG,REAL,CPX],[VB,VI,VL,VR,VC],[MI,ML,MR,MC])}.items():
    contract(G+'copyto_mat_%s(mat_type<%s>&, string_view) const'%(MNAME[T],CT[MAT[T]]),export_mat(T,*a),pre=columns_fit,variants=[('tag',-VEC_),('tag',VEC_)],props=['P13'])

# ------------------------------------------------------------------ comparison
CONC_CX=[None]
f_same=Function('same',V,V,BoolSort())   # the recursive relation defined by same_def: used for nested values and at call sites
def same_av(a,b):
    if isinstance(a,AVTerm) and isinstance(b,AVTerm): return f_same(a.t,b.t)
    if terms.CONCRETE[0]: return Or_(*[And_(g,e) for g,e in same_def(CONC_CX[0],a,b)])
    raise Unsupported('comparison of a container value that is being modified')
def cmp_eq(k,x,y):
    """the C++ == of two stored values"""
    if k=='c': return And_(z3.fpEQ(x[0],y[0]),z3.fpEQ(x[1],y[1]))
    if k=='r': return z3.fpEQ(x,y)
    if k=='v': return same_av(x,y)
    return bl(x)==bl(y) if k=='b' else x==y
def same_def(cx,a,b):
    """[(both of type T, equal content)]"""
    o=[(And_(isT(a,NT),isT(b,NT)),BoolVal(True))]
    for T,k in SCAL.items(): o.append((And_(isT(a,T),isT(b,T)),cmp_eq(k,a.scal(k),b.scal(k))))
    for T,k in VEC.items():
        g=And_(isT(a,T),isT(b,T)); n=a.len()
        j=cx.first(n,lambda i,k=k:Not(bl(cmp_eq(k,a.elem(k,i),b.elem(k,i)))),when=And_(g,n==b.len()))
        o.append((g,And_(n==b.len(),j==n)))
    for T,k in MAT.items():
        g=And_(isT(a,T),isT(b,T)); n=a.len(); r=bv(a.rows(),32); sh=And_(r==bv(b.rows(),32),bv(a.cols(),32)==bv(b.cols(),32))
        at=lambda i,j,r=r:u64(i+mul32(j,r))      # column-major position
        e=cx.allpairs(r,bv(a.cols(),32),lambda i,j,k=k,at=at:bl(cmp_eq(k,a.elem(k,at(i,j)),b.elem(k,at(i,j)))),when=And_(g,sh))
        o.append((g,And_(sh,e)))
    g=And_(isT(a,MAP_),isT(b,MAP_)); n=a.card()
    j=cx.first(n,lambda p:Not(And_(a.keyat(p)==b.keyat(p),same_av(a.val(a.keyat(p)),b.val(b.keyat(p))))),when=And_(g,n==b.card()))
    o.append((g,And_(n==b.card(),j==n)))
    return o
def report(same): return [Case(same,ret=RStrAny(lambda v:f_slen(v)==0)),Case(Not(bl(same)),ret=RStrAny(lambda v:f_slen(v)!=0))]
def compare(cx):
    a,b=cx.this,cx.a(0); o=same_def(cx,a,b); cs=[Case(a.tag()!=b.tag(),ret=RStrAny(lambda v:f_slen(v)!=0))]
    for g,e in o: cs+=[Case(And_(g,c.guard),ret=c.ret) for c in report(e)]
    return cs
contract(G+'compare_content(GenericContainer const&, string_view) const',compare,callspec=lambda cx:report(same_av(cx.this,cx.a(0))),variants=[('tag',T) for T in range(21)],props=['P07'])
