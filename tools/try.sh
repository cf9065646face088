#!/bin/bash
# try.sh id... : run the check of its property against each planted bug
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 bash run.sh check $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION) :: $(echo "$out" | grep -v VIOLATION | grep -i -m1 'violation\|race\|panic\|exit' | cut -c1-200)"
done
