"""Regenerates LLVM IR from /repo's working tree (plus the instantiation harness) into a scratch directory; cached by content hash."""
import os, subprocess, hashlib, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('GC_REPO','/repo')
SRCS=['GenericContainer','GenericContainerCollapse','GenericContainerInterface_C','GenericContainerPromote','GenericContainerSerialize','GenericContainerSupport','GenericContainerTables']
CXX='/usr/bin/clang++-18'
class BuildError(Exception): pass
def inc(repo=None):
    r=repo or REPO
    return ['-I%s/include'%r,'-I%s/src_yaml_interface'%r,'-I%s/src_json_interface'%r]
def digest(repo=None):
    r=repo or REPO; h=hashlib.sha256()
    fs=[]
    for d in('include','src'):
        for p,_,ns in os.walk(os.path.join(r,d)):
            fs+= [os.path.join(p,n) for n in ns if n.endswith(('.hh','.cc','.h','.hxx','.c'))]
    for p,_,ns in os.walk(os.path.join(HERE,'harness')): fs+=[os.path.join(p,n) for n in ns]
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f,'rb').read())
    return h.hexdigest()[:20]
def sh(cmd):
    p=subprocess.run(cmd,capture_output=True,text=True)
    if p.returncode: raise BuildError('%s\n%s'%(' '.join(cmd),p.stderr[-3000:]))
def build(outdir,repo=None):
    """returns path of the linked, promoted IR module"""
    os.makedirs(outdir,exist_ok=True)
    out=os.path.join(outdir,'all.opt')
    r=repo or REPO
    jobs=[]
    for s in SRCS:
        p='%s/src/%s.cc'%(r,s)
        if os.path.exists(p): jobs.append((p,os.path.join(outdir,s+'.ll')))
    jobs.append((os.path.join(HERE,'harness','inst.cc'),os.path.join(outdir,'inst.ll')))
    def one(j): sh([CXX,'-std=c++17','-O0','-Xclang','-disable-O0-optnone','-gline-tables-only','-fno-discard-value-names' if 0 else '-w','-S','-emit-llvm']+inc(r)+[j[0],'-o',j[1]])
    with ThreadPoolExecutor(8) as ex: list(ex.map(one,jobs))
    l=os.path.join(outdir,'all.l')
    sh(['llvm-link-18','-S']+[j[1] for j in jobs]+['-o',l])
    sh(['opt-18','-passes=sroa,loop-simplify','-S',l,'-o',out])
    for _,f in jobs: os.unlink(f)
    os.unlink(l)
    return out
def get(cache='/tmp/gcvc-ir'):
    """IR for the current tree: a scratch cache keyed by the content of every source and header"""
    d=digest(); p=os.path.join(cache,d); out=os.path.join(p,'all.opt')
    if os.path.exists(out) and os.environ.get('GC_NOCACHE')!='1': return out
    tmp=p+'.%d'%os.getpid()
    build(tmp)
    os.makedirs(cache,exist_ok=True)
    try: os.rename(tmp,p)
    except OSError: shutil.rmtree(tmp,ignore_errors=True)
    return out
