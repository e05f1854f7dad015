#!/bin/sh
# build /repo and compare the test result with the baseline
bash /opt/vp/build.sh >/tmp/bt.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/bt.log; exit 1; }
bash /opt/vp/test.sh /tmp/bt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bt.json'))
base=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
print('missing:', sorted(base-set(o['passed']))[:10], len(base), len(o['passed']))
P
