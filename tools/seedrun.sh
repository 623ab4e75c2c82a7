#!/bin/bash
# applies each seeded change to /repo in turn, runs its property's check, undoes it
cd "$(dirname "$0")/.." || exit 1
for d in ${@:-seeded/*/}; do d=${d%/}; id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$id/patch.diff || { echo "$id DOES-NOT-APPLY"; continue; }
  out=$(python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION | cut -c1-160)"
done
