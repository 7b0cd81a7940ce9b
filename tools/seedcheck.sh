#!/bin/bash
# seedcheck.sh [ids]: runs the property's check with each planted bug applied to /repo, and undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch"; continue; }
  t0=$(date +%s); o=$(timeout 900 python3-vt check.py $p 2>&1); rc=$?; t1=$(date +%s)
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $((t1-t0))s $(echo "$o" | grep -c VIOLATION) violations, $(echo "$o" | grep VIOLATION | grep -vc no-failing) with input"
done
