#!/bin/bash
# usage: catch.sh id... : applies each planted bug to /repo, runs its property's quick check, undoes it.
for id in "$@"; do
    p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
    cd /verif; s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick > /tmp/catch.$id 2>&1; rc=$?
    git -C /repo checkout -q -- .
    echo "$id: $p rc=$rc $(( $(date +%s) - s ))s :: $(grep -m1 VIOLATION /tmp/catch.$id | cut -c1-150)"
done
