#!/usr/bin/env python3
"""development aid: measure how many small source mutations a check notices.
usage: mutate.py ID n file[:lo-hi] ...   (files relative to /repo). Works in copies under /tmp/mut."""
import os,re,sys,random,shutil,subprocess,threading,queue
ID,n,files=sys.argv[1],int(sys.argv[2]),sys.argv[3:]
NW=int(os.environ.get('NW','4'))
OPS=[(r'(?<![<>=!\-])<(?![<=])','<='),(r'(?<![<>\-=])>(?![>=])','>='),(r'<=','<'),(r'>=','>'),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),
 (r'(?<![+\w"(,=])\s\+\s',' - '),(r'\s-\s',' + '),(r'\+=','-='),(r'-=','+='),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'\+\+','--'),(r'(?<![\w.])(\d+)(?![\w.])',lambda m:str(int(m.group(1))+1)),
 (r'(\d+\.\d*)',lambda m:m.group(1)+'1' if '.' in m.group(1) else m.group(1)),(r'\*(?!\w*/)\s','/ '),(r'!(?=[a-z(])',''),(r'\bif\s*\(','if (!('),(r'^\s+[\w.\->\[\]()]+\s*(=|\+=|-=)[^=].*;\s*$','DEL'),(r'^\s+[\w.\->]+\(.*\);\s*$','DEL'),(r'\bbreak;',';'),(r'\bcontinue;',';'),(r'% ','/ ')]
cands=[]
for f in files:
    lo,hi=1,10**9
    if ':' in f: f,r=f.split(':'); lo,hi=map(int,r.split('-'))
    incom=False
    for k,l in enumerate(open('/repo/'+f,errors='replace').read().split('\n'),1):
        s=l.strip()
        if s.startswith('/*'): incom=True
        if incom:
            if '*/' in s: incom=False
            continue
        if not(lo<=k<=hi) or s.startswith('//') or s.startswith('*') or s.startswith('#') or 'GPSTK_THROW' in s or s.startswith('throw') or s.startswith('template') or 'operator' in s or 'std::cout' in s: continue
        code=l.split('//')[0]
        spans=[(m.start(),m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"',code)]
        for pat,rep in OPS:
            for m in re.finditer(pat,code):
                if any(a<=m.start()<b for a,b in spans): continue
                if rep=='DEL': new=re.match(r'\s*',l).group(0)+';'
                elif rep=='if (!(':
                    # negate: find matching paren
                    d=0;e=None
                    for q in range(m.end()-1,len(code)):
                        if code[q]=='(':d+=1
                        if code[q]==')':
                            d-=1
                            if d==0:e=q;break
                    if e is None: continue
                    new=code[:m.start()]+'if (!('+code[m.end():e]+'))'+code[e+1:]
                else:
                    r=rep(m) if callable(rep) else rep
                    new=code[:m.start()]+r+code[m.end():]
                if new!=l: cands.append((f,k,l,new))
random.seed(int(os.environ.get('SEED','1'))); random.shuffle(cands)
print(len(cands),'candidates');cands=cands[:n]
q=queue.Queue()
for c in cands:q.put(c)
res=[];lock=threading.Lock()
def worker(w):
    d='/tmp/mut/%d'%w
    os.makedirs(d,exist_ok=True)
    subprocess.run(['rsync','-a','--delete','--exclude=.git','--exclude=_build','/repo/',d+'/repo/']) if shutil.which('rsync') else (shutil.rmtree(d+'/repo',ignore_errors=True),subprocess.run('mkdir -p %s/repo && cd /repo && tar cf - --exclude=.git --exclude=_build . | (cd %s/repo && tar xf -)'%(d,d),shell=True))
    env=dict(os.environ,VERIF_REPO=d+'/repo',VERIF_BUILD=d+'/build',VERIF_EVIDENCE=d+'/ev',MC_JOBS='2')
    while True:
        try:f,k,old,new=q.get_nowait()
        except queue.Empty:return
        p=d+'/repo/'+f
        src=open('/repo/'+f,'rb').read().decode('latin1').split('\n'); src[k-1]=new
        open(p,'wb').write('\n'.join(src).encode('latin1'))
        try:
            r=subprocess.run(['python3','/verif/run_check.py',ID],env=env,capture_output=True,text=True,timeout=600); rc=r.returncode; out=(r.stdout+r.stderr)
        except subprocess.TimeoutExpired: rc='TO';out=''
        shutil.copy('/repo/'+f,p)
        st={0:'SURVIVED',1:'killed'}.get(rc,'err')
        if st=='err' and ('build of check' in out or 'error:' in out): st='nobuild'
        with lock:
            res.append(st)
            if st in('SURVIVED','err'): print(st,'%s:%d\n   - %s\n   + %s'%(f,k,old.strip(),new.strip()),'' if st!='err' else out[-300:],flush=True)
ts=[threading.Thread(target=worker,args=(w,)) for w in range(NW)]
[t.start() for t in ts];[t.join() for t in ts]
print({s:res.count(s) for s in set(res)})
