#!/bin/bash
# Run the repository's tests and report stable ones that failed.
bash /opt/vp/test.sh /tmp/t1.json >/tmp/t1.log 2>&1
/opt/venv/bin/python -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/t1.json'))
m=[x for x in b if x not in t['passed']];print(len(b),'missing',m)
"
