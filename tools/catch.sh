#!/bin/bash
# catch.sh [ID...]: applies each planted change to /repo, runs the check of its property, undoes it.
V=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls $V/seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(cd $V && python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | grep -v VIOLATION | grep -m1 undecided)"
done
