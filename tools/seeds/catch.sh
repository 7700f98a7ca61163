#!/bin/bash
# catch.sh ID...: run the check of each planted bug's property against it, in /repo
cd /verif
for id in "$@"; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; continue; }
    s=$(date +%s)
    out=$(VERIF_SEED=1 VERIF_TIER=quick ./check.sh $prop 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " <<<"$out"; then r=caught; else r="MISSED rc=$rc"; fi
    echo "$id $prop $r $(( $(date +%s) - s ))s $(grep -a -m1 -E 'what:|^case ' <<<"$out" | cut -c1-160)"
done
