#!/usr/bin/env python3
"""Confirm a planted bug and write /verif/seeded/<id>/.
usage: mkseed.py SEEDFILE [ID...]   SEEDFILE: python file defining SEEDS={id:dict(prop,file,edits=[(old,new)],demo,needs,what)}
Applies the edit to /repo, builds, runs the stable tests, runs the demo on both trees, reverts."""
import sys,os,json,subprocess,shutil,tempfile
ROOT='/verif/seeded'
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property holds on the demonstrated input
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
for f in src/GenericContainer*.cc; do
  g++ -std=c++17 -w -O0 -Iinclude -Isrc -c "$f" -o "$W/$(basename "$f").o" & P="$P $!"
done
g++ -std=c++17 -w -O0 -Iinclude -Isrc -c "$D/demo.cc" -o "$W/demo.o" & P="$P $!"
for p in $P; do wait "$p" || exit 4; done
g++ "$W"/*.o -o "$W/demo" || exit 5
cd "$W" && timeout 60 ./demo
'''
PRE='''#include "GenericContainer/GenericContainer.hh"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <exception>
using namespace GC_namespace;
#define EXPECT(c) do { if(!(c)) { std::printf("FAILED line %d: %s\\n",__LINE__,#c); std::exit(1);} } while(0)
#define THROWS(e) do { bool t_=false; try { e; } catch(std::exception const &) { t_=true; } EXPECT(t_ && #e); } while(0)
'''
def sh(*c,**k): return subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
BASE='a99f380'
def orig():
    """removed lines of the working tree diff which are not lines of the base commit"""
    import re
    bad=[]; f=None
    for l in sh('git','-C','/repo','diff','-U0').stdout.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            a=int(m.group(1)); n=int(m.group(2) or 1)
            if n:
                b=sh('git','-C','/repo','blame','-s','-L%d,%d'%(a,a+n-1),BASE+'..HEAD','--',f).stdout
                bad+=[x[:60] for x in b.splitlines() if not x.startswith('^')]
    return bad
def main():
    ns={}; exec(open(sys.argv[1]).read(),ns); S=ns['SEEDS']; ids=sys.argv[2:] or list(S)
    assert not sh('git','-C','/repo','status','--short').stdout.strip()
    for i in ids:
        s=S[i]; d=os.path.join(ROOT,i); os.makedirs(d,exist_ok=True)
        open(d+'/demo.cc','w').write(PRE+s['demo']); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['what']},open(d+'/meta.json','w'),indent=1)
        r0=sh('bash',d+'/demo.sh',cwd='/repo')
        ok=False; why=''
        try:
            for e in s['edits']:
                old,new=e[0],e[1]; f='/repo/'+(e[2] if len(e)>2 else s['file']); t=open(f).read()
                after=s.get('after'); p=t.index(after) if after and len(e)<=2 else 0
                q=t.find(old,p)
                if q<0: why='pattern not found: '+old; break
                t=t[:q]+new+t[q+len(old):]; open(f,'w').write(t)
            else:
                open(d+'/patch.diff','w').write(sh('git','-C','/repo','diff').stdout)
                bad=orig()
                ct=sh('bash','/verif/tools/buildtest.sh')
                r1=sh('bash',d+'/demo.sh',cwd='/repo')
                ok=not bad and r0.returncode==0 and r1.returncode!=0 and 'TESTS OK' in ct.stdout
                why=('CHANGES LINES OF FIX COMMITS: '+str(bad)+' ' if bad else '')+'demo clean=%d mutated=%d %s | %s | %s'%(r0.returncode,r1.returncode,ct.stdout.strip()[-200:],r0.stdout.strip()[-300:] if r0.returncode else '',r1.stdout.strip()[-150:])
        finally:
            sh('git','-C','/repo','checkout','--','.')
        print(i,'OK' if ok else 'BAD',why,flush=True)
        if not ok: shutil.rmtree(d)
    sh('bash','/opt/vp/build.sh')
main()
