#!/bin/bash
# commit with tests
cd /repo && gofmt -l $(git diff --name-only | grep '\.go$') && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { cat /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print({k:(len(v) if isinstance(v,list) else v) for k,v in t.items()})
st=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
ps=set(t.get('passed') or [])
print('missing', sorted(st-ps)[:10], len(st))
P
git commit -qam "$1" && git log --oneline | head -1
