"""seed.py SPEC.py [ids] : create + verify /verif/seeded/<id>. SPEC defines SEEDS=[dict(id,prop,needs,breaks,edits=[(path,old,new[,nth])],demo='C++ body')].
Applies in /repo, builds, runs tests and demo, reverts; keeps the seed only if confirmed (demo 0 clean, nonzero patched, 205 tests pass)."""
import sys,os,json,subprocess,runpy,shutil
PRE='''#include "gdx.hpp"
#include "gclgms.h"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <array>
using namespace gdx;
#define CHECK(c) do { if(!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while(0)
'''
SH='''#!/bin/bash
# exit 0: property holds for this history; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
R=/repo
g++ -std=c++17 -O1 -g %s-I$R/zlib -I$R/src -I$R/generated -I$R/src/gdlib -I$R/src/global -I$R/src/rtl "$here/demo.cpp" %s -o "$t/demo" -lz -ldl -lpthread || exit 4
cd "$t" || exit 5
unset GDXCOMPRESS GDXCONVERT
timeout 120 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
base=set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json')).get('tests') or [])
ns=runpy.run_path(sys.argv[1]); sel=sys.argv[2:]
assert not sh('git -C /repo status --porcelain').stdout.strip()
def clean():
    sh('git -C /repo checkout -- .'); 
for s in ns['SEEDS']:
    if sel and s['id'] not in sel: continue
    d='/verif/seeded/'+s['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    srcs=s.get('srcs')
    libs='$R/build/libgdx-static.a'
    if s.get('san'): libs='-fsanitize=address,undefined -fno-sanitize-recover=all $R/src/gxfile.cpp $R/src/gdlib/*.cpp $R/src/rtl/*.cpp '+(s['san'] if isinstance(s['san'],str) else '')+' $R/build/libgdx-static.a'
    open(d+'/demo.cpp','w').write((PRE if not s.get('nopre') else '')+s['demo'])
    open(d+'/demo.sh','w').write(s.get('sh') or SH%(s.get('cflags',''),libs)); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    try:
        sh('bash /opt/vp/build.sh')
        r0=sh('bash %s/demo.sh'%d,cwd='/repo')
        err=None
        for e in s['edits']:
            p='/repo/'+e[0]; t=open(p).read()
            if e[1] not in t: err='EDIT NOT FOUND '+e[1][:60]; break
            i=-1
            for _ in range(e[3] if len(e)>3 else 1): i=t.index(e[1],i+1)
            open(p,'w').write(t[:i]+e[2]+t[i+len(e[1]):])
        if err: print(s['id'],err); clean(); shutil.rmtree(d); continue
        open(d+'/patch.diff','w').write(subprocess.run('git -C /repo diff',shell=True,stdout=subprocess.PIPE,text=True).stdout)
        b=sh('bash /opt/vp/test.sh /tmp/seedt.json')
        j=json.load(open('/tmp/seedt.json'))
        fl=[x for x in j['failed']]
        r1=sh('timeout 280 bash %s/demo.sh'%d,cwd='/repo')
        ok=r0.returncode==0 and r1.returncode!=0 and len(j['passed'])>=205 and not fl
        print(s['id'],'OK' if ok else 'BAD','clean rc=%d patched rc=%d passed=%d failed=%s'%(r0.returncode,r1.returncode,len(j['passed']),fl[:3]),(r1.stdout.strip()[-160:] if r0.returncode==0 else r0.stdout[-700:])[-300:].replace("\n"," / "),flush=True)
        if b.returncode and not j['passed']: print(b.stdout[-800:])
        if not ok: shutil.rmtree(d)
    finally: clean()
sh('bash /opt/vp/build.sh')
