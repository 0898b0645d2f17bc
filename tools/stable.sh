#!/bin/bash
# build /repo and compare stable tests with the baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json'))
f=[x for x in b if x not in set(t['passed'])]
print('stable failing:',len(f),f[:20])
P
