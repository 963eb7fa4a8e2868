#!/bin/bash
# builds /repo, runs its tests and compares with the stable list
bash /opt/vp/build.sh >/tmp/vp-build.log 2>&1 || { tail -30 /tmp/vp-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp-test.json >/tmp/vp-test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/vp-test.json'))
st=b.get('stable') or b.get('stable_tests') or b['tests']
ps=set(t['passed'])
miss=[x for x in st if x not in ps]
print('stable',len(st),'missing',len(miss)); print('\n'.join(map(str,miss[:20])))
P
