#!/bin/bash
# tryseed.sh ID...: confirms planted bugs in a scratch copy: demo passes clean, fails patched, tests pass patched; then runs the property's check against it
for id in "$@"; do
S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd /repo && bash $S/demo.sh >/tmp/ts.out 2>&1); clean=$?
git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
(cd /repo && bash $S/demo.sh >/tmp/ts.out2 2>&1); bad=$?
t=skip; [ -n "$TESTS" ] && t=$(/verif/tools/stable.sh 2>&1 | tail -1)
c=skip; [ -z "$NOCHECK" ] && { (cd /verif && VERIF_SEED=1 python3-vt check.py $P > /tmp/ts.check 2>&1); c="exit $? $(grep -h VIOLATION /tmp/ts.check)"; }
git -C /repo checkout -q -- .
echo "$id [$P] clean=$clean patched=$bad ($(tail -1 /tmp/ts.out2 | cut -c1-80)) tests=$t check=$c"
done
[ -n "$TESTS" ] && bash /opt/vp/build.sh >/dev/null 2>&1
true
