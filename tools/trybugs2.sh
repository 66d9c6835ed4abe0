#!/bin/bash
# trybugs2.sh ID...: as trybugs.sh, but with the bug applied to a scratch copy (VF_REPO) instead of /repo
cd /verif
W=/tmp/vb; rm -rf /tmp/vb; mkdir -p $W; (cd /repo && git ls-files -z | xargs -0 cp --parents -a -t $W 2>/dev/null); mkdir -p $W/deps; cp -a /repo/deps/. $W/deps/
(cd $W && git init -q . && git add -A -f >/dev/null 2>&1 && git -c user.name=x -c user.email=x@x commit -qm x)
for b in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  C=$(python3 -c "import json;print(*[c['quick']['command'] if isinstance(c.get('quick'),dict) else c.get('quick_cmd',c.get('quick')) for c in json.load(open('MANIFEST.json'))['checks'] if c['property_id' if 'property_id' in c else 'property']=='$P'])")
  git -C $W apply "$PWD/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
  VF_REPO=$W VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$C" > /tmp/try.$b.log 2>&1; rc=$?
  git -C $W checkout -q -- .
  echo "$b $P rc=$rc $(grep -c ^VIOLATION /tmp/try.$b.log) $(grep -m1 'violated' /tmp/try.$b.log | cut -c1-150)"
done
