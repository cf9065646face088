import sys, os, subprocess, threading, importlib.util, json, time
spec=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
NW=int(sys.argv[2]); want=set(sys.argv[3:])
env=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', VERIF_SEED=os.environ.get('SEED','1'), VERIF_TIER='quick')
todo=[b for b in m.B if not want or b[0] in want]
lock=threading.Lock()
def worker(i):
    R=f'/tmp/bat/w{i}'; V=f'/tmp/bat/v{i}'
    if not os.path.isdir(R): subprocess.run(['cp','-a','/repo',R],check=True)
    subprocess.run('git checkout -q -- . && git clean -fdq; git fetch -q /repo HEAD && git checkout -q FETCH_HEAD',shell=True,cwd=R,check=True)
    subprocess.run(f'rm -rf {V}; mkdir {V}; cd /verif && cp -a $(ls -A | grep -v "^.git$\\|^seeded$\\|^replays$") {V}/',shell=True)
    e=dict(env,VERIF_REPO=R)
    while True:
        with lock:
            if not todo: return
            id,checks,edits=todo.pop(0)
        bad=''
        for f,old,new in edits:
            p=f'{R}/{f}'; t=open(p).read()
            if t.count(old)!=1: bad=f'{f}: {t.count(old)} matches {old[:50]!r}'; break
            open(p,'w').write(t.replace(old,new))
        t0=time.time()
        if bad: out='BAD '+bad
        else:
            b=subprocess.run('go build ./...',shell=True,cwd=R,env=env,capture_output=True,text=True)
            if b.returncode: out='BUILD '+b.stderr[:400]
            else:
                try: t=subprocess.run('go test -vet=off -timeout 90s ./... 2>&1 | grep -E "^(---|\\s+---|FAIL|panic)" | head -5',shell=True,cwd=R,env=env,capture_output=True,text=True,timeout=200).stdout.strip()
                except subprocess.TimeoutExpired: t='timeout'
                out=('TESTS['+t.replace('\n',' ')[:120]+'] ' if t else '')
                res=[]
                for c in checks.split():
                    try: q=subprocess.run(['bash','run.sh','check',c,'quick'],cwd=V,env=e,capture_output=True,text=True,timeout=900); rc=q.returncode; o=q.stdout
                    except subprocess.TimeoutExpired: rc=99;o=''
                    res.append(f'{c}={rc}')
                    if rc==1:
                        ls=[l for l in o.split('\n') if 'KNOWN' not in l and 'VIOLATION' not in l]
                        res.append((ls or [''])[0][:160])
                    elif rc: res.append(o[-200:].replace('\n',' '))
                    if rc==1 and not os.environ.get('ALL'): break
                ok=any(r.endswith('=1') for r in res)
                out+=('caught ' if ok else '**MISSED** ')+' '.join(res)
        subprocess.run('git checkout -q -- . && git clean -fdq',shell=True,cwd=R)
        with lock: print(f'{id} [{time.time()-t0:.0f}s] {out}',flush=True)
ts=[threading.Thread(target=worker,args=(i,)) for i in range(NW)]
[t.start() for t in ts]; [t.join() for t in ts]
