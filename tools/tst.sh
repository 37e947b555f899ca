bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json')); print('STABLE FAIL', [x for x in b['stable'] if x not in o['passed']])"
cd /repo; git status --short | head -3
