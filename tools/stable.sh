#!/bin/bash
# stable.sh: build /repo, run its tests, report stable tests that do not pass
cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))
bad=[x for x in b if x not in t['passed']]
print("stable tests:", len(b), "not passing:", bad)
P
