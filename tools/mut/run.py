import json, os, random, subprocess, sys, threading, time, hashlib
NW=int(sys.argv[1]); OUT=sys.argv[2]; ONLY=sys.argv[3] if len(sys.argv)>3 else ''
env=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', VERIF_SEED='1', VERIF_TIER='quick')
MAP=[('database/files/internal/meta','C01'),
 ('database/files/convert.go','C10 C09'),('database/files/db_read.go','C09 C02 C10 C01 C06 C11 C29'),
 ('database/files/db_write.go','C05 C09 C03 C01 C06 C11 C29'),('database/files/db.go','C05 C29 C09 C27 C03 C01 C11 C06'),
 ('database/files/metric.go','C01 C03 C04 C02 C08 C11 C07 C10'),('database/files/file','C03 C01 C08 C11 C04 C07 C05 C09 C06'),
 ('database/files/record.go','C01 C08 C03 C07'),('database/files/cache.go','C11 C27 C01 C05 C06'),('database/files/lock_pool.go','C06 C05 C11'),
 ('database/files/internal','C09 C10 C03 C01 C11 C08 C07'),('database/files','C27 C01'),
 ('data/load','C25 C23 C20 C14 C21'),('data','C13 C14 C12 C15 C16 C18'),('dump','C16 C18'),('listener','C17 C27 C18'),
 ('merge','C19 C20 C25'),('dist','C21 C14 C27 C19 C23'),('api/query','C24'),('api','C22 C25 C23'),
 ('draw','C26 C25'),('config','C27'),('internal/typeassert','C27'),('registry','C28 C27'),('internal/junk','C29 C18'),
 ('internal/tgzfs','C30'),('internal/tmplfs','C30'),('run.go','C18 C27'),('init.go','C31'),('demo.go','C31'),('main.go','C31 C18'),('utils.go','C31 C18'),('internal/pcg','C21 C19 C14'),('external','C27 C18'),('bin','C18')]
def props(f):
    for k,v in MAP:
        if f.startswith(k): return v.split()
    return []
M=[m for m in json.load(open('/tmp/mut/all.json')) if props(m['file'])]
if ONLY: M=[m for m in M if any(m['file'].startswith(o) for o in ONLY.split(','))]
random.Random(7).shuffle(M)
# round robin over files, weighted by square root
by={}
for m in M: by.setdefault(m['file'],[]).append(m)
order=[]
while any(by.values()):
    for f in sorted(by):
        k=max(1,int(len(by[f])**.5/3)) if by[f] else 0
        for _ in range(k):
            if by[f]: order.append(by[f].pop())
done=set()
def key(m): return '%s:%d:%d:%s'%(m['file'],m['S'],m['E'],m['new'])
if os.path.exists(OUT):
    for l in open(OUT): done.add(json.loads(l)['key'])
order=[m for m in order if key(m) not in done]
lock=threading.Lock()
def worker(i):
    R=f'/tmp/mut/w{i}'
    if not os.path.isdir(R): subprocess.run(['cp','-a','/repo',R],check=True)
    subprocess.run('git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD',shell=True,cwd=R,check=True)
    V=f'/tmp/mut/v{i}'
    subprocess.run(f'rm -rf {V}; cp -a /tmp/mut/v {V}',shell=True)
    e=dict(env,VERIF_REPO=R)
    while True:
        with lock:
            if not order or os.path.exists('/tmp/mut/stop'): return
            m=order.pop(0)
        p=f"{R}/{m['file']}"
        src=open(p,'rb').read()
        new=src[:m['S']]+m['new'].encode()+src[m['E']:]
        open(p,'wb').write(new)
        res=dict(m,key=key(m)); t0=time.time()
        try:
            b=subprocess.run('go build ./... ',shell=True,cwd=R,env=env,capture_output=True,text=True)
            if b.returncode: res['r']='build'
            else:
                try: t=subprocess.run('go test -vet=off -timeout 60s ./...',shell=True,cwd=R,env=env,capture_output=True,text=True,timeout=200).returncode
                except subprocess.TimeoutExpired: t=1
                if t: res['r']='tests'
                else:
                    res['r']='SURVIVED'; res['by']=[]
                    for c in props(m['file']):
                        try: q=subprocess.run(['bash','run.sh','check',c,'quick'],cwd=V,env=e,capture_output=True,text=True,timeout=900); rc=q.returncode; o=q.stdout
                        except subprocess.TimeoutExpired: rc=99;o=''
                        if rc==1: res['r']='killed'; res['by']=c; res['how']=[l for l in o.split('\n') if 'KNOWN' not in l][0][:200]; break
                        if rc!=0: res['by'].append((c,rc,o[-300:]))
        finally:
            open(p,'wb').write(src)
        res['t']=round(time.time()-t0,1)
        with lock: open(OUT,'a').write(json.dumps(res)+'\n')
ts=[threading.Thread(target=worker,args=(i,)) for i in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
