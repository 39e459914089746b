#!/bin/bash
# build the tree in ${1:-/repo} and run its tests, quietly
cd ${1:-/repo}
bash /opt/vp/build.sh >/tmp/rt.log 2>&1 || { echo BUILD-FAILED; tail -5 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt2.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); d=json.load(open('/tmp/rt.json'))
def names(x):
    return set(x) if isinstance(x,list) else set(k for k,v in x.items() if v in('passed',True,'pass'))
print(str(d)[:150]); print(str(b)[:300])
P
tail -1 /tmp/rt2.log
