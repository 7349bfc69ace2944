#!/bin/bash
# tools/check1.sh ID [PROP...]: do the checks catch /verif/seeded/ID?  Uses a copy of the repository and of /verif.
ID=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
R=/tmp/mut/crepo; V=/tmp/mut/cverif
mkdir -p /tmp/mut $R $V
rsync -a --delete --exclude _build --exclude .git /repo/ $R/ 2>/dev/null || { rm -rf /tmp/mut/crepo; cp -a /repo /tmp/mut/crepo; }
mkdir -p $V; for d in harness spec run.py known-findings.json properties.jsonl MANIFEST.json; do rm -rf /tmp/mut/cverif/$d; cp -a /verif/$d $V/; done
(cd $R && patch -s -p1 < /verif/seeded/$ID/patch.diff) || exit 1
for p in $P; do FMQ_REPO=$R python3 $V/run.py --property $p --tier quick --seed ${SEED:-1} > /tmp/mut/c.log 2>&1; echo "$ID $p exit=$? $(grep -c VIOLATION /tmp/mut/c.log) $(grep rejected /tmp/mut/c.log | head -1 | cut -c1-200) $(tail -1 /tmp/mut/c.log | cut -c1-150)"; done
