#!/bin/bash
# seedtest.sh <seed id> [check]: confirm a planted bug (builds, tests pass, demo fails) and optionally run its check
id=$1; S=/verif/seeded/$id; cd /repo
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(bash $S/demo.sh >/tmp/demo_clean.log 2>&1); clean=$?
git apply --check $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
git apply $S/patch.diff
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed_test.json >/dev/null 2>&1
t=$(python3 -c "
import json;d=json.load(open('/tmp/seed_test.json'));base=json.load(open('/opt/vp/BASELINE.json'))
p=set(d['passed']);b=base.get('passed',base.get('stable',base.get('tests',[])))
print('ok' if set(b)<=p else 'FAIL '+str(set(b)-p))")
(timeout 300 bash $S/demo.sh >/tmp/demo_bug.log 2>&1); bug=$?
res=-
if [ -n "$2" ]; then (cd /verif; timeout 900 python3 tools/check.py $prop >/tmp/seed_check.log 2>&1); res=$?; grep -q "VIOLATION property=$prop" /tmp/seed_check.log && res="$res:VIOLATION"; fi
git checkout -q -- .
echo "$id prop=$prop demo_clean=$clean build=$b tests=$t demo_bug=$bug check=$res"
