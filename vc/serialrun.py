"""Bounded stand-in for the reading half of the binary format (and for the writing of the two container kinds whose loop is
out of the verifier's reach): the real code is compiled with address and undefined-behaviour sanitizers and run on generated
containers; see harness/serial.cc for what is compared."""
import os,re,random,subprocess,tempfile,shutil
from concurrent.futures import ThreadPoolExecutor
from . import build,replay
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS=['-std=c++17','-O1','-g','-w','-fsanitize=address,undefined','-fno-sanitize=vptr,alignment','-fno-sanitize-recover=all','-fno-omit-frame-pointer','-D_GLIBCXX_ASSERTIONS','-fno-access-control']
def compile_(out):
    srcs=[os.path.join(build.REPO,'src',s+'.cc') for s in build.SRCS if os.path.exists(os.path.join(build.REPO,'src',s+'.cc'))]+[os.path.join(HERE,'harness','serial.cc')]
    def one(s):
        o=os.path.join(out,os.path.basename(s)+'.o'); p=subprocess.run([build.CXX]+FLAGS+build.inc()+['-I'+os.path.join(HERE,'harness'),'-c',s,'-o',o],capture_output=True,text=True)
        if p.returncode: raise replay.BuildFail(p.stderr[-2000:])
        return o
    with ThreadPoolExecutor(8) as ex: objs=list(ex.map(one,srcs))
    exe=os.path.join(out,'serial'); p=subprocess.run([build.CXX]+FLAGS+objs+['-o',exe],capture_output=True,text=True)
    if p.returncode: raise replay.BuildFail(p.stderr[-2000:])
    return exe
ENV=dict(os.environ,ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=88:detect_stack_use_after_return=0:handle_abort=1',UBSAN_OPTIONS='halt_on_error=1:exitcode=88')
def run(exe,cases,full=False,timeout=600):
    """(calls, None) or (calls,(case,text))"""
    lines=[replay.enc_gc(a)+' '+replay.enc_gc(b) for a,b in cases]
    p=subprocess.run([exe]+(['f'] if full else []),input='\n'.join(lines)+'\n',capture_output=True,text=True,errors='replace',env=ENV,timeout=timeout)
    calls=0; cur=-1
    for l in p.stdout.split('\n'):
        if l.startswith('begin '): cur=int(l[6:])
        elif l.startswith('ok '): calls+=int(l[3:])
        elif l.startswith('fail '): return calls,(cases[cur],l[5:])
    if p.returncode:
        m=re.search(r'(ERROR: AddressSanitizer: [^\n]*|ERROR: LeakSanitizer[^\n]*|runtime error: [^\n]*|terminate called[^\n]*|Assertion[^\n]*)',p.stderr)
        t=[l.strip() for l in p.stderr.split('\n') if re.match(r'\s+#\d+ ',l) and '/src/' in l][:3]
        return calls,(cases[cur] if cur>=0 else None,'crash: '+(m.group(1) if m else 'exit code %d'%p.returncode)+' '+'; '.join(t))
    return calls,None
def cases(seed,n,ints=(),reals=(),strs=()):
    r=random.Random(seed); g=replay.Gen(r,list(ints),list(reals),list(strs)); pool=replay.POOL; out=[]
    for i,x in enumerate(pool): out.append((x,pool[(7*i+3)%len(pool)]))
    for i in range(n):
        T=i%21 if i<63 else None
        out.append((g.gc(0,T) if T is not None else g.gc(0),g.gc(1)))
    return out
def check(seed,n,procs,full=False,mine=((),(),())):
    """returns (number of cases, calls, failure or None)"""
    out=tempfile.mkdtemp(prefix='gcvc-ser')
    try:
        exe=compile_(out); cs=cases(seed,n,*mine); parts=[cs[i::procs] for i in range(procs)]
        with ThreadPoolExecutor(procs) as ex: res=list(ex.map(lambda c:run(exe,c,full),[p for p in parts if p]))
        calls=sum(c for c,_ in res); bad=[f for _,f in res if f]
        return len(cs),calls,(bad[0] if bad else None)
    finally: shutil.rmtree(out,ignore_errors=True)
def one(case):
    out=tempfile.mkdtemp(prefix='gcvc-ser')
    try: return run(compile_(out),[case],True)[1]
    finally: shutil.rmtree(out,ignore_errors=True)
