#!/bin/bash
# development tool: apply each seeded bug to /repo, run its check, undo
cd /verif
for d in ${@:-seeded/*/}; do
  id=$(basename $d); pid=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 timeout 900 /opt/venv/bin/python check.py $pid --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $pid rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION | head -2 | cut -c1-200)"
done
