#!/bin/bash
# tryseed.sh [-c] ID... : demo on the clean tree, then with the patch: build, tests, demo, check.  -c: only the check
only=; [ "$1" = -c ] && { only=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -z "$only" ]; then (cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); echo "$id demo clean: $?"; fi
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$only" ]; then
    bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo "$id: BUILD FAILS"
    bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
    python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json'))
p=set(t.get('passed',t.get('pass',[])))
print('$id: stable tests failing:', sorted(b-p)[:5])
P
    (cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); echo "$id demo patched: $?"; tail -3 /tmp/demo1.log
  fi
  (cd /verif && python3 check.py $prop | tail -12 | cut -c1-500); 
  git -C /repo checkout -q -- .
done
