#!/bin/bash
# build /repo, run its tests, report stable tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
miss=[t for t in b['stable'] if t not in set(o['passed'])]
print("stable tests:",len(b['stable']),"not passing:",miss)
P
