#!/bin/bash
# tools/catch.sh NAME...   applies each planted bug to /repo, runs the quick check of its property, undoes it
cd /verif
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$n/patch.diff
  s=$(date +%s); timeout 900 ./check $p > /tmp/w/catch.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$n: $p exit=$r $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/w/catch.out) $(grep -c NOTE /tmp/w/catch.out) notes"
done
