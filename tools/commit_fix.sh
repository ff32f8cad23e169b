#!/bin/bash
# fix.sh "message" : test and commit in /repo
cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/o.json'))['passed'])
m=b-o
print("missing:",m)
sys.exit(1 if m else 0)
P
git add -A && git commit -qm "$1" && git log --oneline | head -1
