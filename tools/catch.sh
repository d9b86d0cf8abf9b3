#!/bin/bash
# catch.sh [ID...]: run the check of each planted bug's property with the bug applied to /repo (undone afterwards).
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick bash -c "$(python3 -c "
import json
m=json.load(open('MANIFEST.json'))
print('cd /verif; '+[c for c in m['checks'] if c['property']=='$p'][0]['quick_cmd'])")" > /tmp/catch.$i 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$r $(grep -c VIOLATION /tmp/catch.$i) $(grep VIOLATION /tmp/catch.$i | head -1 | cut -c1-150)"
done
