#!/bin/bash
# tools/plant.sh ID [notest]: tries /verif/seeded/ID in the scratch copy /tmp/mut/repo: build, demonstration, tests
set -u
ID=$1; S=/verif/seeded/$ID; R=/tmp/mut/repo
[ -d $R ] || { mkdir -p /tmp/mut; cp -a /repo $R; }
git -C $R fetch -q /repo HEAD && git -C $R checkout -qf FETCH_HEAD && git -C $R checkout -q -- .
bash /tmp/mut/build.sh >/tmp/mut/b0.log 2>&1 || { echo "$ID: unpatched build failed"; exit 1; }
(cd $R && timeout 300 bash $S/demo.sh >/tmp/mut/d0.log 2>&1); d0=$?
git -C $R apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
bash /tmp/mut/build.sh >/tmp/mut/b1.log 2>&1 || { echo "$ID: build failed"; tail -20 /tmp/mut/b1.log; git -C $R checkout -q -- .; exit 1; }
(cd $R && timeout 300 bash $S/demo.sh >/tmp/mut/d1.log 2>&1); d1=$?
echo "$ID: demo unpatched=$d0 patched=$d1"; [ $d0 != 0 ] && tail -5 /tmp/mut/d0.log; tail -3 /tmp/mut/d1.log
if [ "${2:-}" != notest ]; then
  bash /tmp/mut/test.sh /tmp/mut/out.json > /tmp/mut/t.log 2>&1
  python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("/tmp/mut/out.json"))
names=b if isinstance(b,list) else b.get("passed") or b.get("tests") or b.get("stable")
print("$ID: tests broken:", sorted(set(names)-set(o["passed"])))
P
fi
git -C $R checkout -q -- .
