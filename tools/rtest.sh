#!/bin/bash
# runs the repository's tests and lists baseline tests that fail
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
base=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
p=set(t['passed']); print(len(p),'passed;', 'baseline missing:',[x for x in base if x not in p][:12])
P
