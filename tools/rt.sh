#!/bin/bash
# Rebuild and run the repository's own tests; prints the number passed and any failure.
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print(len(o['passed']),'passed; missing:',sorted(set(b['stable'])-set(o['passed'])))
P
