# as.sh group prop seed : run as uid 65534
rm -rf /tmp/sn; mkdir -m 777 /tmp/sn; cp /tmp/h_$1 /tmp/sn/h; cd /tmp/sn; VERIF_VERBOSE=1 VERIF_SEED=$3 setpriv --reuid 65534 --regid 65534 --clear-groups env TMPDIR=/tmp/sn HOME=/tmp/sn timeout ${T:-600} ./h -prop $2 -scratch /tmp/sn -out /tmp/sn/v.json 2>&1 | tail -${L:-14}; python3 -c "
import json;d=json.load(open('/tmp/sn/v.json'));print(d['status'],d['evaluations'],d['distinct_nontrivial'],d['counters']);[print(v['section'],v['case'],v['kind'],v['what'][:900],v['log'][-5:]) for v in d['violations'] or []]"
