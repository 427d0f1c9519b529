#!/bin/bash
# Builds /repo, runs its tests, and names the stable ones that do not pass.
o=$(mktemp); bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "build fails"; exit 1; }
bash /opt/vp/test.sh "$o" >/dev/null 2>&1
python3 - "$o" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
m=sorted(set(b['stable'])-set(o['passed']));print("not passing:",m);sys.exit(bool(m))
P
r=$?; rm -f "$o"; exit $r
