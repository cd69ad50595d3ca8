#!/bin/bash
# builds /repo and compares its tests with the stable list
bash /opt/vp/build.sh 2>&1 | grep -E "^(error|warning: unused)" ; bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
python3 -c "
import json
o=json.load(open('/tmp/rt.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(o['passed']),'passed; stable missing:',[x for x in b['stable'] if x not in o['passed']])"
