#!/bin/bash
# Developer tool, not a check: runs the quick check of each planted bug's property against it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY-FAILED"; continue; }
  s=$(date +%s)
  out=$(./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c "VIOLATION property=$p")"
done
