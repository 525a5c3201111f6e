#!/bin/bash
# try_seed.sh ID [quick]: apply /verif/seeded/ID/patch.diff to /repo, build, run the tests, the demo and the property's check, undo
id=$1; D=/verif/seeded/$id
cd /repo || exit 9
git diff --quiet || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash $D/demo.sh > /tmp/seed_demo0 2>&1; d0=$?
git apply $D/patch.diff || exit 8
if [ "$2" != quick ]; then
bash /opt/vp/test.sh /tmp/seed_out.json > /tmp/seed_test.log 2>&1
t=$(python3 - <<'P'
import json
o=json.load(open('/tmp/seed_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('passed') or b.get('stable') or b
base=set(base if isinstance(base,list) else list(base))
print(len(o['passed']) if isinstance(o['passed'],list) else o['passed'], 'failed', o['failed'])
P
)
fi
bash $D/demo.sh > /tmp/seed_demo1 2>&1; d1=$?
cd /verif && python3-vt engine/check.py $prop > /tmp/seed_check_$id.log 2>&1; c=$?
echo "$id prop=$prop demo_clean=$d0 demo_bug=$d1 tests=$t check=$c $(grep -a VIOLATION /tmp/seed_check_$id.log | head -1)"
grep -a '^failed:' /tmp/seed_check_$id.log | head -3 | cut -c1-250
