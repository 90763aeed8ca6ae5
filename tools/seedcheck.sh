#!/bin/bash
# seedcheck.sh id... : apply each seed on /repo, run its property check, undo
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id apply failed"; continue; }
(cd /verif; ./check $p > /tmp/sc_$id.log 2>&1; echo "$id rc=$? $(grep -c '^VIOLATION' /tmp/sc_$id.log) $(grep '^VIOLATION' /tmp/sc_$id.log | head -1) $(tail -1 /tmp/sc_$id.log)")
git -C /repo checkout -- .
done
