# run all checks with VERIF_REPO=$1, from a copy of /verif
V=/tmp/rfv; rm -rf $V; mkdir $V; cd /verif && cp -a $(ls -A | grep -v "^.git$\|^seeded$\|^replays$") $V/; cd $V
for i in $(seq -w 1 31); do
 [ -n "$2" ] && ! echo "$2" | grep -q "C$i" && continue
 out=$(VERIF_REPO=$1 VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 bash run.sh check C$i quick 2>&1); rc=$?
 [ $rc != 0 ] && { echo "C$i rc=$rc"; echo "$out" | tail -5 | cut -c1-300; }
done; echo done
