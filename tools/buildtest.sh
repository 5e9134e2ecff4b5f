#!/bin/bash
# build + test repo; prints failing stable tests
bash /opt/vp/build.sh >/tmp/seed-build.log 2>&1 || { echo BUILD FAIL; tail -20 /tmp/seed-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed-o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed-o.json'))
bad=[x for x in b['stable'] if x not in o['passed']]
print('TESTS OK' if not bad else 'FAIL %s'%bad)
P
