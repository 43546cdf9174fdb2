#!/bin/bash
# builds /repo and runs its stable tests
bash /opt/vp/build.sh >/tmp/rt_b.log 2>&1 || { tail -20 /tmp/rt_b.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt_o.json >/dev/null 2>&1
python3 -c "
import json;o=json.load(open('/tmp/rt_o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']);print(len(o['passed']),'passed; stable missing:',sorted(m))"
