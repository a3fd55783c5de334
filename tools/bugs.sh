#!/bin/bash
# bugs.sh [ID...]: which check reports each planted bug (its own property's check, then any others)
cd /verif
for d in ${@:-$(ls seeded)}; do
  rm -rf /tmp/bugs/repo; mkdir -p /tmp/bugs; git clone -q /repo /tmp/bugs/repo; cp /repo/Cargo.lock /tmp/bugs/repo/ 2>/dev/null
  git -C /tmp/bugs/repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  ids=${ALL:+$(python3 -c "import json;print(' '.join(c['id'] if 'id' in c else c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))")}
  hit=
  for i in ${ids:-$p}; do
    COLA_REPO=/tmp/bugs/repo timeout 900 python3 sa/check.py $i > /tmp/bugs/$d.$i.log 2>&1; rc=$?
    [ $rc = 1 ] && hit="$hit $i"; [ $rc -gt 1 ] && hit="$hit $i!$rc"
  done
  echo "$d property=$p reported-by:$hit"
  python3 - "$d" $hit <<'P'
import json, os, sys
f = "/verif/tools/caught.json"
r = json.load(open(f)) if os.path.exists(f) else {}
r[sys.argv[1]] = sorted(set(sys.argv[2:]) | (set(r.get(sys.argv[1], [])) if not os.environ.get("ALL") else set()))
json.dump(r, open(f, "w"), indent=1, sort_keys=True)
P
done
rm -rf /tmp/bugs/repo
