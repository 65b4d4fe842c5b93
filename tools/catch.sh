#!/bin/bash
# catch.sh <id>... : (development) runs the property's check against each seeded change applied to /repo
cd "$(dirname "$0")/.."
for i in "$@"; do
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  o=$(python3 check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(echo "$o" | grep -c VIOLATION) $(echo "$o" | grep VIOLATION | head -1) | $(echo "$o" | tail -1)"
done
