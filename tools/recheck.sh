#!/bin/bash
# usage: recheck.sh ID...   apply each planted change to /repo, run its property's quick check, revert
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(timeout 900 python3 check.py $p quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION) $(grep -m1 '^\[' evidence/$p.replay.txt 2>/dev/null | cut -c1-110)"
done
