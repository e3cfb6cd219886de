#!/bin/bash
# tools/matrix.sh [id...]: applies every planted bug to /repo in turn, runs the check of its property, and undoes it
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d $p DOES NOT APPLY"; continue; }
  out=$(bin/check $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations$(echo "$out" | grep -q no-failing-input && echo ' (no-failing-input-found)') $(echo "$out" | grep '^FAILED' | head -2 | tr '\n' ' ' | cut -c1-220)"
done
