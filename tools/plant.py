#!/usr/bin/env python3
"""plant.py specfile [id...]: makes and confirms planted bugs from a spec module (SEEDS)."""
import sys, os, subprocess, json, shutil, importlib.util
BASE='5a56f98'
R='/tmp/plant/repo'
env=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off')
def sh(cmd, cwd=R, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, **kw)
spec=importlib.util.spec_from_file_location('s',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
want=sys.argv[2:]
stable=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
if not stable:
    b=json.load(open('/opt/vp/BASELINE.json')); stable=set(b.get('passed') or b.get('tests') or [])
DEMO='''#!/bin/bash
# exit 0: the property held; otherwise it did not
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test FLAGS-vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./PKG
'''
def fresh():
    if not os.path.isdir(R):
        subprocess.run(['cp','-a','/repo',R],check=True)
    sh('git checkout -q -- . && git clean -fdq && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD')
for s in m.SEEDS:
    if want and s['id'] not in want: continue
    fresh()
    bad=None
    for f,old,new in s['edits']:
        p=f'{R}/{f}'; t=open(p).read()
        if t.count(old)!=1: bad=f'{f}: {t.count(old)} matches of {old[:60]!r}'; break
        open(p,'w').write(t.replace(old,new))
    if bad: print(s['id'],'BAD',bad); continue
    sh('gofmt -w '+' '.join({f for f,_,_ in s['edits']}))
    diff=sh('git diff').stdout
    # lines removed must be of the original
    own=0
    for f in {f for f,_,_ in s['edits']}:
        orig=sh(f'git show {BASE}:{f}').stdout.split('\n')
        fd=sh(f'git diff -- {f}').stdout
        own+=sum(1 for l in fd.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] in orig)
    r=sh('go build ./...')
    if r.returncode: print(s['id'],'BUILD',r.stderr[:600]); continue
    r=sh('go test -json -vet=off -count=1 -timeout 5m ./...')
    passed=set()
    fails=[]
    for l in r.stdout.split('\n'):
        try: e=json.loads(l)
        except: continue
        if e.get('Action')=='fail' and e.get('Test'): fails.append(e['Package']+'.'+e['Test'])
    if fails: print(s['id'],'TESTS FAIL',fails[:5]); continue
    d=f"/verif/seeded/{s['id']}"; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    if 'demo_sh' in s: open(d+'/demo.sh','w').write(s['demo_sh'])
    else: open(d+'/demo.sh','w').write(DEMO.replace('PKG',s['pkg']).replace('FLAGS',s.get('flags','')))
    for n,c in s.get('files',{}).items(): open(d+'/'+n,'w').write(c)
    if 'demo' in s: open(d+'/demo_test.go','w').write(s['demo'])
    json.dump({"property":s['property'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    os.chmod(d+'/demo.sh',0o755)
    b=[sh(f'bash {d}/demo.sh',timeout=300) for _ in range(s.get('reps',2))]
    sh('git checkout -q -- .')
    sh('go build ./...')
    g=[sh(f'bash {d}/demo.sh',timeout=300) for _ in range(s.get('reps',2))]
    ok=all(x.returncode==0 for x in g) and all(x.returncode!=0 for x in b) and own>0
    comp=any('[build failed]' in x.stdout or '[setup failed]' in x.stdout for x in b+g)
    print(s['id'],'OK' if ok and not comp else 'PROBLEM','good',[x.returncode for x in g],'bad',[x.returncode for x in b],'own',own)
    if not ok or comp:
        print(' good:',g[0].stdout[-600:],g[0].stderr[-300:]); print(' bad:',b[0].stdout[-600:],b[0].stderr[-300:])
    else:
        print('   ',[l for l in b[0].stdout.split('\n') if 'demo_test.go' in l][:2])
    sys.stdout.flush()
