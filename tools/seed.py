#!/usr/bin/env python3
"""seed.py new ID PROP SPEC.py   - SPEC defines: edits=[(file,old,new)...], demo (C++ text), needs, breaks
   seed.py test ID...            - in a scratch copy (/tmp/sr): build+stable tests+demo with the patch, demo without, check of the property
   seed.py check ID...           - only run the property's check against the patched copy
results appended to /tmp/seed.log"""
import sys,os,json,subprocess as sp,shutil,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SR='/tmp/sr'
DEMO='''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
r=$PWD; inc=""; for x in $(find "$r/core/lib" "$r/ext/lib" -type d); do inc="$inc -I$x"; done
g++ -std=c++11 -w -I"$r/_build/generated" $inc "$d/demo.cpp" -o "$w/demo" -L"$r/_build" -lgpstk -Wl,-rpath,"$r/_build" || exit 3
cd "$w" && timeout 250 ./demo
'''
def sh(c,**k): return sp.run(c,shell=True,stdout=sp.PIPE,stderr=sp.STDOUT,text=True,**k)
def sync():
    if not os.path.isdir(SR): sh('cp -a /repo '+SR)
    sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD'%(SR,SR,SR))
def ns(c,t=1500):
    try: return sp.run(['bash',V+'/tools/ns.sh',SR,'bash','-c',c],stdout=sp.PIPE,stderr=sp.STDOUT,text=True,timeout=t)
    except sp.TimeoutExpired as e:
        class R: returncode=99; stdout='timeout'
        return R
def log(s):
    print(s,flush=True); open('/tmp/seed.log','a').write(s+'\n')
def new(id,prop,spec):
    g={}; exec(open(spec).read(),g); sync()
    for f,a,b in g['edits']:
        p=os.path.join(SR,f); s=open(p).read(); assert s.count(a)==1,(f,a,s.count(a)); open(p,'w').write(s.replace(a,b))
    d=os.path.join(V,'seeded',id); os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(sh('git -C %s diff'%SR).stdout); sh('git -C %s checkout -q -- .'%SR)
    open(d+'/demo.cpp','w').write(g['demo'].lstrip()); open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=g['needs'],what_it_breaks=g['breaks']),open(d+'/meta.json','w'),indent=1)
def check(id):
    d=os.path.join(V,'seeded',id); prop=json.load(open(d+'/meta.json'))['property']
    t=time.time(); r=sh('cd %s && VERIF_REPO=%s VERIF_BUILD=/tmp/srb VERIF_EVIDENCE=/tmp/sre VERIF_TIER=quick python3 run_check.py %s'%(V,SR,prop))
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s '%prop)]
    return '%s rc=%d %d violations %.0fs %s'%('CAUGHT' if r.returncode==1 and v else 'MISSED',r.returncode,len(v),time.time()-t,'' if v else r.stdout[-300:])
def test(id,only=False):
    d=os.path.join(V,'seeded',id); sync(); r=sh('git -C %s apply %s/patch.diff'%(SR,d))
    if r.returncode: log(id+' patch does not apply '+r.stdout); return
    msg=id+': '+check(id)
    if not only:
        r=ns('bash /opt/vp/test.sh /tmp/srt.json')
        b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/srt.json'))['passed']); f=[x for x in b if x not in t]
        msg+=' | stable failing %d %s'%(len(f),f[:4])
        shutil.copytree(d,'/tmp/srdemo',dirs_exist_ok=True)
        r=ns('bash /tmp/srdemo/demo.sh',320); msg+=' | demo patched rc=%d'%r.returncode
        if r.returncode==0 or r.returncode==3: msg+=' BAD '+r.stdout[-300:]
    sh('git -C %s checkout -q -- .'%SR)
    if not only:
        sp.run(['cp','-r',d+'/.','/tmp/srdemo']); r=sp.run(['bash','/tmp/srdemo/demo.sh'],cwd='/repo',stdout=sp.PIPE,stderr=sp.STDOUT,text=True); msg+=' | demo clean rc=%d'%r.returncode
        if r.returncode: msg+=' BAD '+r.stdout[-500:]
        shutil.rmtree('/tmp/srdemo')
    log(msg)
if __name__=='__main__':
    if sys.argv[1]=='new': new(*sys.argv[2:5])
    else:
        for i in sys.argv[2:]: test(i,sys.argv[1]=='check')
