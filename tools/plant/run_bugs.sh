#!/bin/bash
# run_bugs.sh [ID...]: runs the check of each planted bug's property against it.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  out=$(timeout 900 ./run.sh check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p exit $rc: $(echo "$out" | grep -v '^VIOLATION' | head -1 | cut -c1-150)"
done
