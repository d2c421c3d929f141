#!/bin/bash
# tools_seed.sh <seeded id>: confirm a planted bug in a scratch copy (applies, builds, tests pass, demo discriminates), then run its check on it
set -u
id=$1; D=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
( cd /repo && bash $D/demo.sh >/tmp/demo.clean 2>&1 ); clean=$?
git -C /repo apply $D/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
print(len(set(b.get('stable',b.get('passed',[])))-set(r.get('passed',[]))))
P
)
( cd /repo && bash $D/demo.sh >/tmp/demo.bug 2>&1 ); bug=$?
out=$(cd /verif && python3 check.py $prop quick 2>&1); rc=$?
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$id: property $prop build=$b tests-lost=$t demo clean=$clean bug=$bug | check rc=$rc $(echo "$out" | grep -c VIOLATION) :: $(echo "$out" | head -1 | cut -c1-150)"
