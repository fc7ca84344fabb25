#!/bin/bash
# development: apply each planted bug to /repo, run its property's quick check, undo it. usage: runseeds.sh [ids]
cd "$(dirname "$0")"
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s); timeout 900 python3 check.py $p --tier quick > /tmp/runseed.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id rc=$rc $(( $(date +%s) - s ))s $(grep -h -m1 -E 'VIOLATION|incomplete|error' /tmp/runseed.out | cut -c1-200)"
done
