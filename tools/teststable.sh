#!/bin/bash
# runs the repository's tests and reports stable tests that did not pass
O=$(mktemp /tmp/ts.XXXXXX); bash /opt/vp/test.sh $O >/dev/null 2>&1
python3 - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
s=set(b['stable']); p=set(t['passed'])
m=sorted(s-p); print('stable %d passed %d missing %d'%(len(s),len(p),len(m))); print('\n'.join(m[:20])); sys.exit(bool(m))
P
rc=$?; rm -f $O; exit $rc
