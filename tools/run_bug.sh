#!/bin/bash
# run_bug.sh ID...: applies each planted change to /repo, builds, runs the stable tests, runs its property's check, undoes it.
for id in "$@"; do
    D=/verif/seeded/$id
    P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    git -C /repo apply $D/patch.diff || { echo "$id: does not apply"; continue; }
    if [ -z "$NOTEST" ]; then
        bash /opt/vp/build.sh >/tmp/rb_build.log 2>&1 || echo "$id: DOES NOT BUILD"
        bash /opt/vp/test.sh /tmp/rb_test.json >/dev/null 2>&1
        python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/rb_test.json'))
bad=[x for x in b if x not in t['passed']]
print("$id: tests", "pass" if not bad else "FAIL %s"%bad)
P
    fi
    cd /verif
    for p in $P $EXTRA; do
        python3 tools/check.py $p quick >/tmp/rb_check.log 2>&1; rc=$?
        echo "$id: check $p exit $rc: $(grep -a VIOLATION /tmp/rb_check.log)"
        grep -a -A3 "^failure:" /tmp/rb_check.log | head -3
    done
    git -C /repo checkout -- .
done
