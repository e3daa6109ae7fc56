#!/bin/bash
# Builds /repo and checks that the stable tests still pass.
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/stable.json'))
miss=[t for t in b if t not in r['passed']]
print('stable ok: %d'%len(b) if not miss else 'MISSING: %s'%miss)
import sys; sys.exit(1 if miss else 0)
P
