#!/bin/bash
# plant.sh ID [notest] : confirm a seeded change (builds, passes the tests, demo fails with it and passes without)
# and run its property's quick check against it. Leaves /repo as it was.
cd /verif
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
git -C /repo apply $d/patch.diff || { echo "NO APPLY"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" = notest ]; then
	bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "$id: BUILD FAILED"; tail -5 /tmp/plant.log; exit 2; }
else
	bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.log 2>&1
	python3 - <<E2 || { echo "$id: TESTS FAIL"; exit 2; }
import json,sys
a=json.load(open('/tmp/plant.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('passed') or b.get('stable') or b
miss=[t for t in (base if isinstance(base,list) else list(base)) if t not in a['passed']]
print('tests:',len(a['passed']),'passed, missing',miss); sys.exit(bool(miss))
E2
fi
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/plant.demo 2>&1); echo "$id: demo with patch -> $? (want nonzero): $(tail -1 /tmp/plant.demo | cut -c1-150)"
timeout 900 python3 run.py $prop >/tmp/plant.check 2>&1; echo "$id: check $prop -> $? : $(grep -c '^VIOLATION' /tmp/plant.check) violations; $(grep -A1 '^VIOLATION' /tmp/plant.check | sed -n 2p | cut -c1-200)"
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/tmp/plant.log 2>&1
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/plant.demo 2>&1); echo "$id: demo without -> $? (want 0): $(tail -1 /tmp/plant.demo | cut -c1-150)"
