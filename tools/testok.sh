#!/bin/bash
# builds /repo and compares the test results with the stable baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
bad=[x for x in b['stable'] if x not in set(t['passed'])]
print('stable tests failing:',bad)
P
