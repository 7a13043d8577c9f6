#!/bin/bash
# tryseed.sh <id> : patch applies, builds, passes the tests; demo 0/1; and what the property's check says
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 1; }
if [ "$2" != nodemo ]; then bash $d/demo.sh | tail -1; echo "demo clean: ${PIPESTATUS[0]}"; fi
git apply $d/patch.diff || exit 1
if [ "$2" != nodemo ]; then bash $d/demo.sh | tail -1; echo "demo patched: ${PIPESTATUS[0]}"; fi
if [ "$2" = full ]; then bash /opt/vp/build.sh >/tmp/bb.log 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh /tmp/oo.json >/dev/null 2>&1; python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/oo.json'))['passed']);print('stable tests failing:',sorted(b-o))"; fi
(cd /verif && python3 run/check.py $p quick | tail -3; echo "check $p: ${PIPESTATUS[0]}")
git -C /repo checkout -- .
if [ "$2" = full ]; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
