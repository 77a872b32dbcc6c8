#!/bin/bash
# run every registered check; print the summary lines
cd "$(dirname "$0")/.."
for i in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do timeout 900 python3 engine/check.py $i > /tmp/all.$i 2>&1; echo "rc $? $(grep "^$i:" /tmp/all.$i)"; done
