"""CFG, dominators, natural loops."""
def succs(b):
    t=b[-1]
    if t.op=='br': return [t.a]
    if t.op=='condbr': return [t.a[1],t.a[2]]
    if t.op=='switch': return [t.a[1]]+[x[1] for x in t.a[2]]
    if t.op=='invoke': return [t.a['normal'],t.a['unwind']]
    return []
class Loop:
    __slots__=('header','body','parent','exits')
def analyse(f):
    S={n:list(dict.fromkeys(succs(b))) for n,b in f.blocks.items()}
    P={n:[] for n in f.blocks}
    for n,ss in S.items():
        for x in ss: P[x].append(n)
    f.succ=S; f.pred=P
    # rpo
    seen=set(); order=[]
    st=[(f.entry,iter(S[f.entry]))]; seen.add(f.entry)
    while st:
        n,it=st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x,iter(S[x]))); break
        else:
            order.append(n); st.pop()
    rpo=order[::-1]; num={n:i for i,n in enumerate(rpo)}
    idom={f.entry:f.entry}
    ch=True
    while ch:
        ch=False
        for n in rpo[1:]:
            ps=[p for p in P[n] if p in idom]
            if not ps: continue
            d=ps[0]
            for p in ps[1:]:
                a,b=p,d
                while a!=b:
                    while num[a]>num[b]: a=idom[a]
                    while num[b]>num[a]: b=idom[b]
                d=a
            if idom.get(n)!=d: idom[n]=d; ch=True
    def dom(a,b):
        while True:
            if a==b: return True
            if b==f.entry: return False
            b=idom[b]
    loops={}
    for n in rpo:
        for x in S[n]:
            if x in num and dom(x,n):
                L=loops.setdefault(x,set([x]))
                w=[n]
                while w:
                    y=w.pop()
                    if y in L: continue
                    L.add(y); w.extend(P[y])
    f.loops=loops; f.rpo=rpo
