#!/bin/bash
# seed.sh ID PROPERTY: /repo carries an uncommitted change, /verif/seeded/ID/demo.cpp exists.
# Records the change as a planted bug, confirms it (build, stable tests, demo) and runs the property's check.
set -u
id=$1; prop=$2; d=/verif/seeded/$id
[ -f $d/demo.sh ] || { cp /verif/tools/demo_template.sh $d/demo.sh; chmod +x $d/demo.sh; }
if [ "${3:-}" = re ]; then git -C /repo apply $d/patch.diff || exit 3; else git -C /repo diff > $d/patch.diff; fi
[ -s $d/patch.diff ] || { echo "no change"; exit 3; }
bash /opt/vp/test.sh /tmp/seed_$id.json >/tmp/seed_$id.log 2>&1
python3 - /tmp/seed_$id.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=set(json.load(open(sys.argv[1]))['passed'])
print("stable tests:", "PASS" if b<=r else "FAIL %s" % sorted(b-r)[:5])
P
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/seed_$id.demo 2>&1); echo "demo with patch: $?"; tail -3 /tmp/seed_$id.demo
(cd /verif && timeout 900 python3 check.py $prop quick | grep -v "^ *#" | head -${LINES_MAX:-6})
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $d/demo.sh > /tmp/seed_$id.demo0 2>&1); echo "demo without patch: $?"; tail -3 /tmp/seed_$id.demo0
[ -f $d/meta.json ] && python3 -m json.tool $d/meta.json >/dev/null && echo meta ok
