#!/bin/sh
# builds /repo and runs its stable tests; prints regressions
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
p=set(o['passed']); m=[t for t in b['stable'] if t not in p]
print('stable',len(b['stable']),'missing',len(m),m[:20])"
