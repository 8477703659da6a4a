#!/bin/bash
# apply each planted bug to /repo, run its property's check, undo; writes tools/caught.json
cd "$(dirname "$0")/.."
for n in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$n/patch.diff" || { echo "$n does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p > /tmp/try.$n.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c '^VIOLATION' /tmp/try.$n.log)
  echo "$n $p rc=$rc violations=$v"
  python3 - "$n" "$p" "$rc" <<'P'
import json, os, sys
f = "tools/caught.json"
d = json.load(open(f)) if os.path.exists(f) else {}
d[sys.argv[1]] = {"property": sys.argv[2], "caught": sys.argv[3] == "1"}
json.dump(d, open(f, "w"), indent=1, sort_keys=True)
P
done
