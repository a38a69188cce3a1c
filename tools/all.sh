#!/bin/bash
# all.sh [SEED]: every check, one line each
set -o pipefail; cd /verif; export VERIF_SEED=${1:-1}
for p in $(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  python3 checks/run.py $p 2>/tmp/all.$p.err | grep -a '^OK\|^VIOL' | cut -c1-200 || { echo "NO ANSWER $p"; tail -3 /tmp/all.$p.err | cut -c1-300; }
done
