#!/bin/bash
# every check must be decided by proof on the unchanged tree (no bounded stand-in); sequential, ~10 min
cd "$(dirname "$0")/.."
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  o=$(VC_NOREPLAY=1 python3-vt check.py $p 2>&1); r=$?
  echo "$p exit $r $(echo "$o" | grep -E "^C[0-9]+: " )"; echo "$o" | grep -E "NOT DECIDED|BOUNDED|VIOLATION|FAILED" | cut -c1-200
done
