#!/bin/bash
# Run each planted bug's own check against it.  usage: tryseeds.sh [ID...]
cd "$(dirname "$0")/.."
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id APPLY FAILED"; continue; }
  t=$SECONDS
  python3 check.py $p quick > /tmp/try.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/try.$id.log) $((SECONDS-t))s"
done
