#!/bin/bash
# build + run tests and compare to baseline
bash /opt/vp/build.sh || { echo BUILD FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def s(d):
    for k in('passed','stable','pass','tests'):
        if k in d: return set(d[k])
    print(d.keys()); return set()
B,T=s(b),s(t)
print('base',len(B),'now',len(T),'missing',sorted(B-T)[:10])
P
git -C /repo status --short
