#!/bin/bash
# Stable tests with each planted bug applied to /repo (undone straight afterwards).
cd /repo || exit 1
for id in ${@:-$(ls /verif/seeded)}; do
  git apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
  git checkout -q -- .
  python3 - $id <<'P'
import json,sys
o=json.load(open('/tmp/seedtest.json')); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
res=o.get('passed') if isinstance(o,dict) and 'passed' in o else None
if res is None: print(sys.argv[1],'??',str(o)[:200])
else:
    bad=[t for t in s if t not in res]
    if bad: print(sys.argv[1],'TESTS FAIL',bad[:3])
P
done
git status --short
