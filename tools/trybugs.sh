#!/bin/bash
# applies each planted bug (or those named) to /repo, runs its property's quick check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  s=$(date +%s); out=$(timeout 900 python3 tools/check.py $p 2>&1); rc=$?; e=$(( $(date +%s) - s ))
  git -C /repo checkout -q -- .
  n=$(echo "$out" | grep -c "^VIOLATION property=$p ")
  echo "$d rc=$rc violations=$n ${e}s $(echo "$out" | grep -m1 VIOLATION | sed 's/.*# //' | cut -c1-150)"
done
