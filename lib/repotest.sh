#!/bin/bash
# rebuild + run the repository's tests; lists baseline tests that fail
bash /opt/vp/build.sh >/tmp/rb.log 2>&1 || { tail -5 /tmp/rb.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
bp=b.get('passed') or b.get('stable') or b
def names(x):
    if isinstance(x,dict):
        for k in('passed','pass','stable'):
            if k in x: return set(x[k])
    return set(x)
B=names(b);R=names(r)
print('baseline',len(B),'passed now',len(R),'missing',sorted(B-R)[:20])
import sys; sys.exit(1 if B-R else 0)
P
