#!/bin/bash
# development aid: run the repository's tests, list stable ones that fail
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/o.json'))
print(len(b),'stable; failing:',[t for t in b if t not in o['passed']])"
