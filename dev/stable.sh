#!/bin/bash
# dev helper: run the stable tests on /repo and list which baseline tests do not pass
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(x):
    for k in ('passed','pass','tests','stable'):
        if k in x: return x[k]
    return x
bp=set(names(b)); op=set(o.get('passed',o.get('pass',[])))
print('baseline',len(bp),'passed',len(op),'missing',sorted(bp-op)[:10])
P
