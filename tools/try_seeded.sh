#!/bin/bash
# tools/try_seeded.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V"
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 2; }
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  s=$SECONDS
  VERIF_SEED=${VERIF_SEED:-1} ./check $p >/tmp/try_$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 -A1 VIOLATION /tmp/try_$id.log | tr '\n' ' ' | cut -c1-220)"
done
