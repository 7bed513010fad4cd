import sys,os,json,subprocess,shutil
sys.path.insert(0,'/tmp/w/seedgen')
from lib import *
import glob
only=set(sys.argv[1:])
for f in sorted(glob.glob('/tmp/w/seedgen/s_*.py')): exec(open(f).read())
def sh(c,cwd=None,t=900):
    return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,timeout=t)
R='/tmp/w/seedrepo'
if not os.path.isdir(R): sh('cp -a /repo '+R)
for s in SEEDS:
    if only and s['id'] not in only: continue
    sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -qfd',R)
    ok=True
    for fn,subs in s['files'].items():
        p=R+'/'+fn; t=open(p).read()
        for old,new in subs:
            if t.count(old)!=1: print(s['id'],'MATCH',t.count(old),fn,repr(old)[:80]); ok=False
            t=t.replace(old,new)
        open(p,'w').write(t)
    if not ok: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    diff=sh('git diff',R).stdout
    # original lines
    orig=0
    for fn in s['files']:
        bl=sh(f'git -C /repo blame -s -l HEAD -- {fn}').stdout.split('\n')
        for h in sh(f'git diff -U0 {fn}',R).stdout.split('\n'):
            if h.startswith('@@'):
                a=h.split()[1][1:].split(',');st=int(a[0]);n=int(a[1]) if len(a)>1 else 1
                for i in range(st,st+n):
                    if bl[i-1].lstrip('^')[:12]==BASE[:12] or bl[i-1].startswith('^'): orig+=1
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(HEAD+s['demo'].lstrip('\n'))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    b=sh('GOFLAGS=-mod=mod GOPROXY=off go build -o oct . ',R)
    if b.returncode: print(s['id'],'BUILD',b.stderr); continue
    t=sh('GOFLAGS=-mod=mod GOPROXY=off go test -vet=off ./... 2>&1 | grep -E "^(FAIL|---|panic)"',R).stdout
    demo='/tmp/w/democopy'; shutil.rmtree(demo,ignore_errors=True); shutil.copytree(d,demo)
    for x in ('patch.diff','meta.json'): os.remove(demo+'/'+x)
    dp=sh('bash %s/demo.sh'%demo,R,300)
    dc=sh('bash %s/demo.sh'%demo,'/repo',300)
    print(s['id'],s['prop'],'orig=%d'%orig,'tests=%r'%t.strip(),'demo patched=%d clean=%d'%(dp.returncode,dc.returncode),'' if dp.returncode and not dc.returncode and orig else 'BAD '+dp.stdout[-300:]+dp.stderr[-300:]+dc.stdout[-300:]+dc.stderr[-600:],flush=True)
