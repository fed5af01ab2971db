#!/bin/sh
# rebuild /repo and compare its test results with the baseline (development helper)
bash /opt/vp/build.sh >/tmp/rbuild.log 2>&1 || { tail -20 /tmp/rbuild.log | cut -c1-300; exit 1; }
bash /opt/vp/test.sh /tmp/rtest.json >/tmp/rtest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rtest.json'))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x:
            v=x[k]; return set(v if isinstance(v,list) else [t for t,s in v.items() if s in ('pass','passed',True)])
    return set(t for t,s in x.items() if s in ('pass','passed',True))
bs,rs=passed(b),passed(r)
print(len(bs),'baseline',len(rs),'now; missing:',sorted(bs-rs)[:20],len(bs-rs))
P
