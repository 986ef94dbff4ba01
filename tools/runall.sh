#!/bin/bash
# runs every claimed check once on /repo's current tree: tools/runall.sh [ids...]
cd "$(dirname "$0")/.."
ids="$@"; [ -z "$ids" ] && ids=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
for i in $ids; do o=$(python3 check.py $i 2>&1); rc=$?; echo "$i rc=$rc $(echo "$o" | tail -1)"; done
