#!/bin/bash
# Applies each given planted bug to /repo, runs the quick check of its property
# (and others given in CHECKS), and undoes it.
cd "$(dirname "$0")/.."
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  for p in ${CHECKS:-$prop}; do
    s=$(date +%s.%N)
    out=$(./check "$p" quick 2>&1); rc=$?
    printf '%s %s rc=%s %.1fs %s\n' "$id" "$p" "$rc" "$(echo "$(date +%s.%N) - $s" | bc)" "$(echo "$out" | grep -m1 -E 'VIOLATION|HARNESS' )"
  done
  git -C /repo checkout -q -- .
done
