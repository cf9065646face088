# chk.sh ID tier seed : run a check from a clone of /verif working tree
rm -rf /tmp/chk_$1; mkdir /tmp/chk_$1; cd /verif && cp -a $(ls -A | grep -v "^.git$\|^seeded$\|^replays$") /tmp/chk_$1/; cd /tmp/chk_$1; time VERIF_SEED=${3:-1} VERIF_TIER=${2:-quick} VERIF_REPO=/repo bash run.sh check $1 ${2:-quick}; python3 -c "
import json;d=json.load(open('/tmp/chk_$1/evidence/$1.json'));print(json.dumps(d)[:1800])"; rm -rf /tmp/chk_$1
