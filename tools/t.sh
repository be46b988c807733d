#!/bin/bash
# development aid: do the stable tests still pass?
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('broken:',set(b['stable'])-set(o['passed']))"
