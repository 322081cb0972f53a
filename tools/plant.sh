#!/bin/bash
# plant.sh <id> : /repo's working tree carries the change, /verif/seeded/<id>/ holds demo.sh and meta.json.
# Saves the change as patch.diff, confirms build, stable tests and demo, undoes it, and runs the demo on the clean tree.
id=$1; d=/verif/seeded/$id
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/plant.build; git -C /repo checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
/opt/venv/bin/python - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
st=b.get('stable') or b.get('passed') or b
bad=[t for t in st if t not in r['passed']]
print('stable tests broken:', bad)
P
(cd /repo && timeout 300 bash $d/demo.sh) > /tmp/plant.demo 2>&1; rc=$?; echo "demo with the change: exit $rc"; tail -3 /tmp/plant.demo
if [ -n "$2" ]; then for p in $2; do (cd /verif && ./check $p quick | grep -v UNDECIDED | tail -12 | cut -c1-300); done; fi
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/plant.build 2>&1
(cd /repo && timeout 300 bash $d/demo.sh) > /tmp/plant.demo 2>&1; rc=$?; echo "demo on the clean tree: exit $rc"; tail -1 /tmp/plant.demo
