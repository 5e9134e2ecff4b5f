#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]   decides one property by verifying every contract it rests on against /repo's current source.
   check.py --replay FILE                      re-runs the concrete call recorded in a replay file on the current tree.
exit 0: every obligation discharged (or, where a function is out of the verifier's reach, its bounded stand-in passed); exit 1: VIOLATION."""
import os, sys
if os.environ.get('PYTHONHASHSEED')!='0':      # runs are repeatable term by term
    os.environ['PYTHONHASHSEED']='0'; os.execv(sys.executable,[sys.executable]+sys.argv)
import sys, os, time, json, re, signal, collections, traceback, shutil, tempfile
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE); sys.setrecursionlimit(20000)
sys.dont_write_bytecode=True
import multiprocessing as mp
from vc import build as irbuild, terms, spec, contracts, replay, concretize
from vc.irparse import Module
from vc.machine import Machine, Unsupported
from vc.replay import al_of, Driver, Concrete, eval_contract, enumerate_cases, show, mine, Gen, search_cases

SAFETY={'out-of-bounds','use-after-free','double-free','null-deref','type-invariant','type-confusion','uninitialised','dangling','frame','leak','bad-free','precondition','shared-ownership','termination','overflow','crash'}
MOD=None; DROP=set(); LIMIT=120
class Timeout(Unsupported): pass
def _alarm(*a): raise Timeout('time limit')
def verify_one(job):
    """verify all bodies and variants of one contract; runs in a worker process"""
    name,limit,variants=job[:3]; terms.SEED[0]=job[3] if len(job)>3 else 0
    c=spec.REG[name]; t0=time.time(); terms.STATS.queries=0; terms.STATS.time=0.0; terms.STATS.unknown=0
    R=dict(name=name,status='proved',reason='',obl={},viol=[],used=set(),models=set(),inlined=set(),paths=0)
    mg=[x for x in MOD.bydem.get(name,[]) if x in MOD.funcs]
    if not mg:
        R.update(status='absent',reason='no such function in the current source',time=0,queries=0,stime=0); return R
    signal.signal(signal.SIGALRM,_alarm); signal.alarm(limit)
    cons={k:v for k,v in spec.REG.items() if k not in DROP}
    obl=collections.Counter(); seen=set()
    try:
        for f in [MOD.funcs[x] for x in mg]:
            for variant in variants:
                M=Machine(MOD,cons)
                if terms.SEED[0]: M.tmo=25000
                try:
                    c.verify(M,f,variant)
                except Unsupported as e: R['status']='unproven'; R['reason']='%s'%e
                except MemoryError: raise
                except Exception as e:
                    R['status']='unproven'; R['reason']='verifier: %r at %s'%(e,traceback.format_exc(limit=-1).split('\n')[1].strip())
                R['used']|=M.used_contracts; R['models']|=M.used_models; R['inlined']|=M.inlined; R['paths']+=getattr(c,'npaths',0) or 0
                for o in M.obl: obl[o[1]]+=1
                for v in M.viol:
                    if v.key() in seen: continue
                    seen.add(v.key())
                    d=dict(kind=v.kind,name=v.name,line=v.line,msg=v.msg,status=v.status,variant=variant,input=None)
                    if v.status=='sat' and len(R['viol'])<8:
                        try:
                            with_time=max(1,limit-int(time.time()-t0))
                            d['input']=concretize.concretize(c,v,variant)
                        except Timeout: pass
                        except Exception as e: d['cerr']=repr(e)[:200]
                    R['viol'].append(d)
    except Timeout: R['status']='unproven'; R['reason']='time limit %ds'%limit
    finally: signal.alarm(0)
    if terms.STATS.unknown:       # a solver timeout may have cost an invariant: an unconfirmed counterexample is then no evidence
        for v in R['viol']:
            if v['status']=='sat': v['status']='sat?'
    if R['viol'] and any(v['status'].startswith('sat') for v in R['viol']): R['status']='failed'
    elif R['viol']: R['status']='unproven'; R['reason']=R['reason'] or 'solver gave no answer on '+'; '.join('%s'%v['msg'] for v in R['viol'][:3])
    R['obl']=dict(obl); R['time']=time.time()-t0; R['queries']=terms.STATS.queries; R['stime']=terms.STATS.time
    return R
def verify_job(j): return j,verify_one(j)
def run_pool(names,limit,procs,deadline=None):
    out={}; jobs=[]
    for n in names: jobs+=[(n,limit,[v]) for v in spec.REG[n].variants()]
    jobs.sort(key=lambda j:-spec.REG[j[0]].cost(j[2][0]))
    def results():
        # one fresh process per job: the run of a job does not depend on what ran before it
        again=[]
        with mp.Pool(procs,maxtasksperchild=1) as p:
            for j,r in p.imap_unordered(verify_job,jobs,chunksize=1):
                if r['status']=='unproven' and r['reason'].startswith(('time limit','solver gave')): again.append((j,r))
                else: yield r
        if os.environ.get('GC_DEBUG'):
            for j,r in again: sys.stderr.write('again %s %s %.1fs\n'%(j,r['reason'],r['time']))
        if again and (deadline is None or deadline-time.time()>2*limit+60):
            with mp.Pool(procs,maxtasksperchild=1) as p:
                for j,r in p.imap_unordered(verify_job,[(n,2*l,v,11) for (n,l,v),_ in again],chunksize=1): yield r
        else:
            for j,r in again: yield r
    if True:
        for r in results():
            o=out.get(r['name'])
            if o is None: out[r['name']]=r; continue
            rank=['proved','absent','unproven','failed']
            if rank.index(r['status'])>rank.index(o['status']): o['status']=r['status']; o['reason']=r['reason']
            for k,v in r['obl'].items(): o['obl'][k]=o['obl'].get(k,0)+v
            ks={(v['kind'],v['name'],v['line'],v['msg']) for v in o['viol']}
            o['viol']+=[v for v in r['viol'] if (v['kind'],v['name'],v['line'],v['msg']) not in ks]
            for k in('used','models','inlined'): o[k]|=r[k]
            for k in('paths','time','queries','stime'): o[k]+=r.get(k,0)
    return out
def relevant(P,kind):
    return kind in SAFETY if P=='P01' else kind!='leak'
def internal(n): return spec.REG[n].internal
def fmt_in(inp):
    if not inp: return None
    th,ar=inp
    return dict(this=None if th is None else show(th),args=[show(a) if isinstance(a,tuple) and len(a)==2 and isinstance(a[0],int) else repr(a) for a in ar])
def known():
    out=[]
    p=os.path.join(HERE,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'^finding: property=(\w+) function="([^"]*)" obligation="([^"]*)"\s*(.*)$',l.strip())
            if m: out.append(m.groups())
    return out
def tool_versions():
    import z3
    return ['z3 %s (python API)'%z3.get_version_string(),'clang++-18 / opt-18 (-O0, SROA) front end']
ASSUME=['machine integers are bit-vectors of their real width and floating point is IEEE-754 binary64 (no mathematical idealisation); the rounding mode is round-to-nearest',
 'vectors, matrices, maps and strings hold fewer than 2^31 elements, matrix payload length equals rows*cols on entry (re-established by every function that builds a matrix)',
 'memory allocation does not fail (std::bad_alloc is not modelled)',
 'arguments passed by reference do not point into the object they are applied to, except for the aliasing variants listed per function',
 'libstdc++ containers, strings and streams behave as the models in vc/stl.py (assumed contracts, listed under trusted_models)',
 'containers are finite trees; recursion over nested containers terminates with depth (structural)']
def serial_on():
    """contracts of the binary format (only P08 rests on them)"""
    from vc import serial, serialrun
    return serialrun
def main():
    ap=sys.argv[1:]
    if ap and ap[0]=='--replay': return do_replay(ap[1])
    P=ap[0]; tier=os.environ.get('VERIF_TIER','quick')
    if '--tier' in ap: tier=ap[ap.index('--tier')+1]
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    t0=time.time(); budget=800 if tier=='quick' else 3000
    limit=110 if tier=='quick' else 600
    procs=min(8,os.cpu_count() or 1)
    ev=os.path.join(HERE,'evidence'); os.makedirs(ev,exist_ok=True)
    global MOD
    sr=serial_on() if P=='P08' else None
    try: MOD=Module(irbuild.get())
    except irbuild.BuildError as e:
        print('ERROR: the current source does not compile: %s'%e); return 2
    own=[n for n,c in spec.REG.items() if P in c.props or P=='P01']
    if not own: print('no contracts for '+P); return 2
    res={}; todo=list(own)
    def close():
        while True:
            nonlocal todo
            todo=[n for n in todo if n not in res and n not in DROP]
            if not todo: break
            left=budget-(time.time()-t0)
            if left<60:
                for n in todo: res[n]=dict(name=n,status='unproven',reason='check time budget',obl={},viol=[],used=set(),models=set(),inlined=set(),paths=0,time=0,queries=0,stime=0)
                break
            r=run_pool(todo,min(limit,int(left)),procs,t0+budget)
            res.update(r); nxt=set()
            for x in r.values(): nxt|=x['used']
            todo=sorted(nxt)
    close()
    # contracts of private helpers state what today's callers need; if a helper no longer meets its contract the callers are verified against its body instead
    for rnd in range(3):
        bad=set()
        for n,r in res.items():
            if r['status'] in('failed','unproven') and n not in DROP:
                if internal(n): bad.add(n)
                elif P=='P01' and r['status']=='failed' and any(not relevant(P,v['kind']) for v in r['viol']) : bad.add(n)
        if not bad: break
        DROP.update(bad)
        redo=[n for n,r in res.items() if (r['used']&bad) and n not in bad]
        for n in list(res):
            if n in redo or (n in bad and internal(n)): del res[n]
        todo=redo; close()
    # ---------------------------------------------------------------- obligations that failed, functions out of reach
    viols=[]; bounded=[]; known_hit=[]; kf=known()
    need=[]
    for n,r in res.items():
        if r['status']=='failed':
            vs=[v for v in r['viol'] if relevant(P,v['kind'])]
            if vs: need.append(n)
            elif r['reason']: need.append(n)
        elif r['status']=='unproven': need.append(n)
    drv=None; err=None; evals=0
    cross=[]
    if tier=='thorough': cross=[n for n in res if not spec.REG[n].noreplay and res[n]['status']!='absent']
    work=sorted(set([n for n in need if not spec.REG[n].noreplay])|set(cross))
    tmp=tempfile.mkdtemp(prefix='gcvc-drv')
    try:
        if work:
            try: drv=Driver(work,tmp)
            except Exception as e: err='%s'%e
        jobs=[(n,res[n]['viol'] if n in need else [],tier,seed,P) for n in work]
        outc={}
        if drv:
            global DRV; DRV=drv
            with mp.Pool(procs) as p:
                for n,o in p.imap_unordered(replay_one,jobs): outc[n]=o
            # proof failed, no failing input yet: directed random search on the real code with the contract as oracle
            hard=[n for n in need if n in outc and not outc[n]['confirmed'] and not spec.REG[n].noreplay]
            left=min(200 if tier=='quick' else 900,budget+20-(time.time()-t0))
            if hard and left>20:
                per=max(1,procs//len(hard)); sl=left if len(hard)<=procs else left*procs/len(hard)
                js=[(n,seed*1000+k,min(sl,90 if tier=='quick' else 600),P,sorted(res[n]['inlined'])) for n in hard for k in range(per)]
                with mp.Pool(procs) as p:
                    for n,o in p.imap_unordered(search_one,js):
                        outc[n]['evals']+=o['evals']
                        if o.get('error'): outc[n]['error']=o['error']
                        if o['confirmed'] and not outc[n]['confirmed']: outc[n]['confirmed']=o['confirmed']
                        if all(outc[x]['confirmed'] for x in hard): break
        for n in set(need)|set(cross):
            r=res[n]; o=outc.get(n)
            conf=o['confirmed'] if o else None
            if o: evals+=o['evals']
            if conf:
                viols.append(dict(function=n,obligation=conf['obligation'],confirmed=True,input=conf['input'],raw=conf['raw'],detail=conf['detail'],obligations=[v['msg'] for v in r['viol']]))
                continue
            if n not in need: continue
            sat=[v for v in r['viol'] if v['status']=='sat' and relevant(P,v['kind'])]
            if not sat: r['reason']=r['reason'] or 'solver gave no answer on some query'
            if sat:
                viols.append(dict(function=n,obligation=sat[0]['msg'],confirmed=False,input=fmt_in(sat[0]['input']),raw=None,detail='%s at %s'%(sat[0]['kind'],sat[0]['line']),obligations=['%s: %s (%s)'%(v['kind'],v['msg'],v['line']) for v in sat]))
            else:
                bounded.append(dict(function=n,reason=r['reason'],bound=('%d concrete calls over the value pools of vc/replay.py (containers of at most 4 elements, depth 3)'%o['evals']) if o else 'none (%s)'%(err or 'not callable from outside')))
    finally: shutil.rmtree(tmp,ignore_errors=True)
    if sr:      # reading the binary format is checked within bounds on the real code, and so is the writing the verifier did not close
        G='GenericContainer::'
        fs=[n for n in MOD.bydem if re.match(r'^GC_namespace::(GenericContainer::(serialize|de_serialize|mem_size)\(|\w+_to_\w+\(|\(anonymous namespace\)::)',n)]
        ncase=500 if tier=='quick' else 6000
        try: k,calls,bad=sr.check(seed,ncase,procs,tier=='thorough',mine(MOD.path,fs,MOD))
        except replay.BuildFail as e: print('ERROR: the serialisation harness does not compile: %s'%e); return 2
        evals+=calls; bound='%d calls on %d generated containers (at most 17 elements, depth 4): exact size, every shorter buffer, round trip into arbitrary content, every truncation, single-byte corruption; address and undefined-behaviour sanitizers'%(calls,k)
        if bad:
            other=['%s: %s'%(v['function'],v['obligation']) for v in viols]; viols=[v for v in viols if v['confirmed']]
            fn=G+('de_serialize' if re.search(r'de_serialize|read back',bad[1]) else 'serialize')
            viols.append(dict(function=fn,obligation=bad[1],confirmed=True,input=None if bad[0] is None else dict(written=show(bad[0][0]),read_into=show(bad[0][1])),raw=bad[0],detail=bad[1],obligations=other))
        for b in bounded: b['bound']=bound
    # ---------------------------------------------------------------- report
    rc=0; nviol=0; rdir=os.path.join(ev,'replay'); os.makedirs(rdir,exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(P+'-'): os.unlink(os.path.join(rdir,f))
    viols.sort(key=lambda v:(not v['confirmed'],v['function']))
    for v in viols:
        k=[x for x in kf if x[0]==P and x[1]==v['function'] and x[2] in str(v['obligation'])]
        if k:
            print('KNOWN-FINDING: property=%s %s: %s'%(P,v['function'],k[0][3])); known_hit.append(v['function']); continue
        nviol+=1; rc=1
        path=os.path.join(rdir,'%s-%d.json'%(P,nviol))
        json.dump(dict(property=P,function=v['function'],failed_obligation=v['obligation'],other_obligations=v['obligations'],input=v['input'],raw=v['raw'],detail=v['detail'],
            how_to_rerun='python3-vt check.py --replay '+path if v['confirmed'] else 'no concrete input; rerun the check to see the obligation fail again'),open(path,'w'),indent=1,default=str)
        print('  %s: %s%s'%(v['function'],v['detail'],' | input '+str(v['input']) if v['input'] else ''))
        print('VIOLATION property=%s replay=%s%s'%(P,path,'' if v['confirmed'] else ' no-failing-input-found'))
    done=[r for r in res.values() if r['status']!='absent']
    nob=sum(sum(r['obl'].values()) for r in done)
    nf=sum(len(r['viol']) for r in done)
    kinds=collections.Counter()
    for r in done:
        for k,x in r['obl'].items(): kinds[k]+=x
    models=sorted(set().union(*[r['models'] for r in done])) if done else []
    cov=dict(obligations=nob,discharged=nob-nf,checker_cmd='python3-vt check.py %s --tier %s'%(P,tier),
        trusted_base=tool_versions()+['vc/ (IR parser, symbolic machine, loop rule, contract language)','%d assumed contracts of standard-library functions (trusted_models)'%len(models)],
        functions_under_contract=len([r for r in done if r['status'] in('proved','failed')]),functions_proved=len([r for r in done if r['status']=='proved']),
        functions=[dict(function=r['name'],status=r['status'],obligations=sum(r['obl'].values()),paths=r['paths'],queries=r['queries'],solver_s=round(r['stime'],2),own=P in spec.REG[r['name']].props) for r in sorted(done,key=lambda r:r['name'])],
        obligations_by_kind=dict(kinds),back_end='z3 (SMT, quantifier-free after explicit instantiation)',solver_s=round(sum(r['stime'] for r in done),2),solver_queries=sum(r['queries'] for r in done),
        bounded=bounded,concrete_calls_replayed=evals,inlined_helpers=sorted(set().union(*[r['inlined'] for r in done])) if done else [],trusted_models=models,
        verified_through_body=sorted(DROP),absent=[r['name'] for r in res.values() if r['status']=='absent'],known_findings=known_hit)
    json.dump(dict(property=P,tier=tier,seed=seed,level='proof',coverage=cov,assumptions=ASSUME+['bounded, not proved: '+b['function']+' ('+b['reason']+')' for b in bounded],wall_s=round(time.time()-t0,1),violations=nviol),open(os.path.join(ev,P+'.json'),'w'),indent=1)
    print('%s: %d functions, %d obligations, %d discharged, %d bounded stand-ins, %d concrete calls, %.1fs'%(P,len(done),nob,nob-nf,len(bounded),evals,time.time()-t0))
    for b in bounded: print('  bounded: %s (%s); %s'%(b['function'],b['reason'],b['bound']))
    if tier=='thorough' and err: print('  driver: '+err[:300])
    return rc
DRV=None
def replay_one(job):
    """replays verifier counterexamples, then a bounded enumeration, of one function on the real code; contract as oracle"""
    name,viol,tier,seed,P=job
    c=spec.REG[name]; D=DRV; ev=0
    import random
    try:
        with Concrete():
            for v in viol:
                if not v['input']: continue
                al=al_of(v['variant'])
                if not D.can(name,al): continue
                r=D.run(name,al,[v['input']])[0]; ev+=1
                w=eval_contract(c,v['input'][0],v['input'][1],r)
                if w and relevant(P,w[0]): return name,dict(evals=ev,confirmed=conf(D,name,al,v['input'],w,v['msg']))
            for al in dict.fromkeys(al_of(v) for v in c.variants()):
                if not D.can(name,al): continue
                cases=enumerate_cases(c,(c.nenum or 500) if tier=='quick' else 1500,al,random.Random(seed))
                rs=D.run(name,al,cases); ev+=len(cases); t=time.time()
                for cs,r in zip(cases,rs):
                    w=eval_contract(c,cs[0],cs[1],r)
                    if w and relevant(P,w[0]): return name,dict(evals=ev,confirmed=conf(D,name,al,cs,w,viol[0]['msg'] if viol else w[0]))
                    if time.time()-t>120: break
    except Exception as e: return name,dict(evals=ev,confirmed=None,error=repr(e))
    return name,dict(evals=ev,confirmed=None)
def search_one(job):
    name,seed,secs,P,inl=job; c=spec.REG[name]; D=DRV; ev=0; t=time.time()
    import random
    rng=random.Random(seed)
    try:
        k=mine(MOD.path,[name]+inl,MOD); g=Gen(rng,*k)
        als=[a for a in dict.fromkeys(al_of(v) for v in c.variants()) if D.can(name,a)]
        with Concrete():
            while als and time.time()-t<secs:
                al=als[rng.randrange(len(als))]; cases=search_cases(c,60,al,g); rs=D.run(name,al,cases)
                for cs,r in zip(cases,rs):
                    ev+=1; w=eval_contract(c,cs[0],cs[1],r)
                    if w and relevant(P,w[0]): return name,dict(evals=ev,confirmed=conf(D,name,al,cs,w,w[0]))
                    if time.time()-t>secs: break
    except Exception as e: return name,dict(evals=ev,confirmed=None,error=repr(e)+traceback.format_exc(limit=-2)[-300:])
    return name,dict(evals=ev,confirmed=None)
def conf(D,name,al,case,w,obl):
    txt=w[1]
    if w[0]=='crash': txt=D.crash_text(name,al,case)
    return dict(obligation=obl,input=fmt_in(case),raw=dict(alias=al,case=case),detail='%s: %s'%w if w[0]!='crash' else 'crash: '+txt)
def untuple(x):
    return x
def do_replay(path):
    d=json.load(open(path)); name=d['function']
    if not d.get('raw'): print('no concrete input recorded'); return 2
    tmp=tempfile.mkdtemp(prefix='gcvc-drv')
    try:
        def fixgc(g):
            T,x=g
            if x is None: return (T,None)
            if T==6: return (T,tuple(x))
            if T==7: return (T,fb(x))
            if T==14: return (T,[fb(y) for y in x])
            if T==13: return (T,[tuple(y) for y in x])
            if T in(15,16,17): return (T,(x[0],x[1],x[2]))
            if T==18: return (T,(x[0],x[1],[tuple(y) for y in x[2]]))
            if T==19: return (T,[fixgc(y) for y in x])
            if T==20: return (T,[(fb(k),fixgc(v)) for k,v in x])
            return (T,x)
        import ast
        fb=lambda s:ast.literal_eval(s) if isinstance(s,str) and s.startswith(("b'",'b"')) else s
        def fixa(t,v):
            k=spec.argkind(t)
            if k=='v': return fixgc(v)
            if k=='s': return fb(v)
            if isinstance(k,tuple):
                e=k[1]; f=(lambda y:fb(y)) if e=='s' else ((lambda y:fixgc(y)) if e=='v' else ((lambda y:tuple(y)) if e=='c' else (lambda y:y)))
                return [f(y) for y in v] if k[0]=='vec' else (v[0],v[1],[f(y) for y in v[2]])
            return tuple(v) if k=='c' else v
        if d['property']=='P08':
            w=serial_on().one(tuple(fixgc(g) for g in d['raw'])); print(name,d['input']); print('result:',w[1] if w else 'as specified'); return 1 if w else 0
        D=Driver([name],tmp); c=spec.REG[name]; th,ar=d['raw']['case']; th=None if th is None else fixgc(th); ar=[fixa(t,v) for t,v in zip(c.types,ar)]
        with Concrete():
            r=D.run(name,d['raw']['alias'],[(th,ar)])[0]; w=eval_contract(c,th,ar,r)
        print(name,d['input']); print('result:',r); print('contract:', w or 'met')
        return 1 if w else 0
    finally: shutil.rmtree(tmp,ignore_errors=True)
if __name__=='__main__': sys.exit(main())
