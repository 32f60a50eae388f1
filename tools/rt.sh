#!/bin/bash
# run the repository's tests, print what is not passing
. /opt/vp/env.sh
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/o.json'))
ids=[x if isinstance(x,str) else x.get('id') for x in b]
print('missing', [x for x in ids if x not in set(o['passed'])][:10], 'failed', o['failed'][:10])
P
