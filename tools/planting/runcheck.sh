#!/bin/bash
# runcheck.sh ID...: run the property's check against the patched copy in /tmp/w/ID
for id in "$@"; do
  prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  out=$(cd /verif && VERIF_REPO=/tmp/w/$id timeout 800 /opt/venv/bin/python run.py check $prop 2>&1); rc=$?
  echo "$id $prop rc=$rc $(echo "$out" | grep -E '^violated' | head -1 | cut -c1-160) $(echo "$out" | head -1 | grep -oE '[0-9]+/[0-9]+ runs in [0-9.]+ s')"
  [ $rc -ne 1 ] && echo "$out" | tail -5
done
