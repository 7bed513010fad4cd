import sys,os,json,subprocess,time
R='/tmp/w/seedrepo'
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d='/verif/seeded/'+i
    m=json.load(open(d+'/meta.json'))
    subprocess.run('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -qfd && git apply %s/patch.diff'%d,shell=True,cwd=R,check=True)
    t=time.time()
    p=subprocess.run('bash /verif/check.sh '+m['property'],shell=True,cwd='/verif',env=dict(os.environ,OCT_REPO=R,VERIF_SEED='1',VERIF_TIER='quick'),capture_output=True,text=True)
    v=[l for l in p.stdout.split('\n') if l.startswith('VIOLATION')]
    print(i,m['property'],'rc=%d'%p.returncode,'%.0fs'%(time.time()-t),'CAUGHT' if p.returncode==1 and v and 'property='+m['property'] in v[0] else 'MISSED '+p.stdout[-200:]+p.stderr[-300:],flush=True)
