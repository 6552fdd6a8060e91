#!/bin/bash
# run the check(s) for seeds: try.sh id [props...]
id=$1; shift; cd /repo; git diff --quiet || { echo dirty; exit 1; }
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git apply /verif/seeded/$id/patch.diff || exit 1
for p in $props; do (cd /verif; s=$(date +%s); VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 bin/check $p > /tmp/sd/$id.$p.out 2>&1; rc=$?; echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/sd/$id.$p.out) $(grep -m1 -A1 '^VIOLATION' /tmp/sd/$id.$p.out | tail -1 | cut -c1-200)"); done
git checkout -q -- .
