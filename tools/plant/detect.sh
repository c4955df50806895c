#!/bin/bash
# detect.sh ID... : apply, run the property's check, undo
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  t0=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "== $id $p rc=$rc $(( $(date +%s) - t0 ))s"
  echo "$out" | grep -v '^VIOLATION' | cut -c1-400 | head -4
done
