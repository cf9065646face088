# b.sh group [-race]; V and R choose the trees
V=${V:-/verif} R=${R:-/repo}; export V R
python3 - "$1" > /tmp/ov_$1.json <<'P'
import sys,os,json
V,R=os.environ['V'],os.environ['R']
g=sys.argv[1]; r={}
for d in ('hk',g):
    for f in os.listdir(V+'/harness/'+d):
        if f.endswith('.go'): r[f'{R}/internal/zzverif/{d}/{f}']=f'{V}/harness/{d}/{f}'
print(json.dumps({"Replace":r}))
P
cd $R && go build $2 -tags verif -overlay /tmp/ov_$1.json -o /tmp/h_$1 ./internal/zzverif/$1
