# seeds.sh group prop from to [race]
for s in $(seq $3 $4); do d=/tmp/s_$2_$s; rm -rf $d; mkdir -p $d
GOTRACEBACK=all GORACE="log_path=$d/race exitcode=0" VERIF_SEED=$s timeout 600 /tmp/h_$1 -prop $2 -scratch $d -out /tmp/v_$2_$s.json >/tmp/o_$2_$s 2>&1
python3 - $2 $s <<'P'
import json,sys,os
p,s=sys.argv[1:]
try:
    d=json.load(open(f'/tmp/v_{p}_{s}.json'))
    if d['status']!='done' or d['violations']: print(p,s,d['status'],[(v['section'],v['case'],v['kind'],v['what'][:300]) for v in d['violations'] or []])
except Exception as e: print(p,s,'NO',e, open(f'/tmp/o_{p}_{s}').read()[-500:])
if any(x.startswith('race') for x in os.listdir(f'/tmp/s_{p}_{s}')): print(p,s,'RACE')
P
rm -rf $d /tmp/v_$2_$s.json /tmp/o_$2_$s; done; echo end $2
