#!/bin/sh
# run /repo's tests and report stable ones that no longer pass
o=$(mktemp); bash /opt/vp/test.sh "$o" >/dev/null 2>&1
python3 - "$o" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(b-o); print("stable",len(b),"missing",len(m)); print("\n".join(m[:20])); sys.exit(bool(m))
P
