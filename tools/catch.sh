#!/bin/bash
# catch.sh id...: applies each seeded bug in a copy and runs the check of its property
S=/tmp/w/catchcopy
[ -d $S ] || cp -a /repo $S
cd $S && git fetch -q /repo && git reset -q --hard FETCH_HEAD
for id in "$@"; do
  git checkout -q -- .
  git apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  out=$(cd /verif && VERIF_SRC=$S/src timeout 900 /opt/venv/bin/python run.py --property ${P:-$p} --tier quick --no-evidence 2>&1); rc=$?
  [ -z "$P" ] && I="$id" R=$rc L="$(echo "$out" | grep -m1 "^${P:-$p}: ")" python3 - <<'PY'
import json,os,re
f='/verif/tools/catches.json'; d=json.load(open(f))
l=os.environ['L']; p=l[:3]
d[os.environ['I']]={"text": f"{p} ({l[5:].split(':')[0]})" if os.environ['R']=='1' else "missed"}
json.dump(d,open(f,'w'),indent=1,sort_keys=True); open(f,'a').write("\n")
PY
  echo "$id ${P:-$p} rc=$rc $(( $(date +%s)-s ))s :: $(echo "$out" | grep -m1 "^${P:-$p}: " | cut -c1-160)"
done
git checkout -q -- .
