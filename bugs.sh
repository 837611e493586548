#!/bin/bash
# development helper: applies each planted bug to /repo and runs the check of its property (BUGS=ids, or all)
cd "$(dirname "$0")"
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  [ -f harness/$p.py ] || { echo "$d $p no-check"; continue; }
  git -C /repo apply $PWD/seeded/$d/patch.diff || { echo "$d no-apply"; continue; }
  t=$SECONDS; ./check.sh $p quick > /tmp/bug.$d 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$r $((SECONDS-t))s $(grep -m1 VIOLATION /tmp/bug.$d)"
done
