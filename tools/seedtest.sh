#!/bin/bash
# seedtest.sh [ids...]: run each planted bug's check on /repo with the bug applied
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  out=$(timeout 900 bash check.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | grep ^VIOLATION | cut -c1-160 | tail -1)"
  echo "$out" | grep "^failed" | cut -c1-200 | head -3
done
