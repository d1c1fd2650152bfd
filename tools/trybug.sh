#!/bin/bash
# tools/trybug.sh ID...: runs the check of each planted bug's property on a scratch copy of /repo with the bug applied
v=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=/tmp/trybug.$$.$id; cp -a /repo $d; git -C $d checkout -q -- .
  p=$(python3 -c "import json;print(json.load(open('$v/seeded/$id/meta.json'))['property'])")
  git -C "$d" apply $v/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf "$d"; continue; }
  s=$(date +%s); out=$(cd $v && VT_REPO=$d python3 vt/check.py $p 2>&1); rc=$?; e=$(date +%s)
  echo "$id $p rc=$rc $((e-s))s"; echo "$out" | grep -E "VIOLATION|^  " | cut -c1-200 | head -6
  rm -rf "$d"
done
