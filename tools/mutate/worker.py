import json,sys,subprocess,os,fcntl,time
w=int(sys.argv[1]); N=int(sys.argv[2])
B=f'/tmp/mut/w{w}'; repo=B+'/repo'
muts=json.load(open('/tmp/mut/all.json'))
base=set((lambda d:d.get('stable') or d.get('passed') or d.get('tests'))(json.load(open('/opt/vp/BASELINE.json'))))
ORDER=['C01','C03','C04','C12','C19','C22','C11','C23','C14','C15','C02','C05','C08','C07','C21','C09','C18','C10','C06','C13','C20']
def claim():
    with open('/tmp/mut/next','a+') as f:
        fcntl.flock(f,fcntl.LOCK_EX); f.seek(0); n=int(f.read() or 0); f.truncate(0); f.write(str(n+1)); return n
def log(r):
    with open('/tmp/mut/res.jsonl','a') as f: fcntl.flock(f,fcntl.LOCK_EX); f.write(json.dumps(r)+'\n')
while True:
    if os.path.exists('/tmp/mut/stop'): break
    while os.path.exists('/tmp/mut/pause'): time.sleep(2)
    n=claim()
    if n>=len(muts) or n>=N: break
    m=muts[n]; p=f"{repo}/{m['file']}"; src=open(p).read(); L=src.split('\n')
    assert L[m['line']]==m['old']; L[m['line']]=m['new']; open(p,'w').write('\n'.join(L))
    r=dict(n=n,**m)
    try:
        try:
            x=subprocess.run(['unshare','-Urm','bash','-c',f'mount --bind {repo} /repo && exec timeout 120 bash /opt/vp/test.sh {B}/out.json'],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=150)
            ps=set(json.load(open(f'{B}/out.json')).get('passed') or [])
        except Exception as e: ps=set()
        finally:
            try: os.remove(f'{B}/out.json')
            except: pass
        if base-ps: r['res']='tests'; log(r); continue
        r['res']='survived'; env=dict(os.environ,MC_OUT=B+'/b',MC_REPO=repo,VERIF_BUDGET='120')
        t=time.time()
        for c in ORDER:
            y=subprocess.run(['bash',B+'/verif/mc/check.sh',c,'--stride','20','--jobs','3','--first'],stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=env,text=True)
            if y.returncode==1: r['res']='caught'; r['by']=c; r['what']=[l for l in y.stdout.split('\n') if 'VIOLATION' in l][:1]; break
            if y.returncode>1: r['res']='noanswer'; r['by']=c; r['what']=y.stderr[-300:]; break
        r['t']=time.time()-t; log(r)
    finally:
        open(p,'w').write(src)
