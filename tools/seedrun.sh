#!/bin/bash
# seedrun.sh [ids]: applies each planted bug to a scratch copy of /repo and runs its property's check against the copy (development only)
cd /verif
wt=/tmp/seedrun; [ -d $wt ] || cp -a /repo $wt
git -C $wt fetch -q /repo HEAD && git -C $wt checkout -q -f FETCH_HEAD
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C $wt checkout -q -- . && git -C $wt apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  out=$(VF_REPO=$wt timeout 900 ./run.sh $p 2>&1); rc=$?
  v=$(echo "$out" | grep "^VIOLATION" | head -1)
  echo "$d $p rc=$rc $v"
  python3 - "$d" "$p" "$rc" "$v" <<'P'
import json,sys,os
f="/verif/docs/catches.json"; c=json.load(open(f)) if os.path.exists(f) else {}
d,p,rc,v=sys.argv[1:5]
c[d]=(f"{p}, failing input replayed" if rc=="1" and "no-failing-input" not in v else f"{p}, no failing input" if rc=="1" else "missed")
json.dump(c,open(f,"w"),indent=1,sort_keys=True)
P
done
git -C $wt checkout -q -- .
