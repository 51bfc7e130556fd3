#!/bin/bash
# run the repository's tests and commit the working tree as a fix: commit when none of the stable tests fails
set -e
cd /repo
bash /opt/vp/test.sh /tmp/fix_out.json > /tmp/fix_test.log 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fix_out.json'))
def passed(d):
    for k in ('passed','stable','stable_passed','tests'):
        if k in d: return set(d[k]) if not isinstance(d[k],dict) else {t for t,r in d[k].items() if r in ('passed','pass',True)}
    return None
pb,po=passed(b),passed(o)
m=pb-po
print(len(pb),len(po),'missing',sorted(m)[:5])
sys.exit(1 if m else 0)
P
git add -u && git commit -q -m "$1" && git log --oneline | head -1
