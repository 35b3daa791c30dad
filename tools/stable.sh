#!/bin/bash
# build + stable tests of /repo; prints OK or the missing tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1
python3 -c "
import json;d=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=sorted(set(b['stable'])-set(d['passed']));print('OK' if not m else 'MISSING %s'%m)"
