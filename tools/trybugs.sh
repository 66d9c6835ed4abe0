#!/bin/bash
# trybugs.sh [ID...]: run the quick check of each planted bug's property with the bug applied to /repo
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for b in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  C=$(python3 -c "import json;print(*[c['quick']['command'] if isinstance(c.get('quick'),dict) else c.get('quick_cmd',c.get('quick')) for c in json.load(open('MANIFEST.json'))['checks'] if c['property_id' if 'property_id' in c else 'property']=='$P'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$C" > /tmp/try.$b.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $P rc=$rc $(grep -c ^VIOLATION /tmp/try.$b.log) $(grep -m1 'violated' /tmp/try.$b.log | cut -c1-150)"
done
