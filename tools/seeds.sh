#!/bin/bash
# seeds.sh [ID...]: apply each planted change to /repo, run the check of its property, undo it.
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
  t0=$(date +%s); out=$(python3 check.py $p quick 2>&1); rc=$?; t1=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $((t1-t0))s $(echo "$out" | grep -m1 VIOLATION)"
done
