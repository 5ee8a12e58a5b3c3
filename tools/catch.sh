#!/bin/bash
# catch.sh <id>...: runs the property's check against each planted bug in /repo.
for id in "$@"; do
  S=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run/check.py $p > /tmp/catch.out 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): rc=$rc $(( $(date +%s)-s ))s $(grep -E '^failed obl|^VIOLATION' /tmp/catch.out | tail -2 | tr '\n' ' ')"
done
