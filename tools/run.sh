# run.sh group prop seed [race]
rm -rf /tmp/s; mkdir -p /tmp/s; ( time GOTRACEBACK=all GORACE="log_path=/tmp/s/race exitcode=0" VERIF_VERBOSE=1 VERIF_SEED=$3 timeout ${T:-600} /tmp/h_$1 -prop $2 -scratch /tmp/s -out /tmp/v.json ) 2>&1 | tail -${L:-14}; python3 -c "
import json;d=json.load(open('/tmp/v.json'));print(d['status'],d['evaluations'],d['distinct_nontrivial'],d['counters']);[print(v['section'],v['case'],v['kind'],v['what'][:600]) for v in d['violations'] or []]"; ls /tmp/s | head -5
