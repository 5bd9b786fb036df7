#!/bin/bash
# runs the check of each planted bug's property on /repo with the bug applied
cd /verif; for d in ${@:-seeded/*/}; do id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff 2>/dev/null || (cd /repo && git apply /verif/seeded/$id/patch.diff) || continue
s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $p quick >/tmp/bug.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/bug.log) $(grep -m1 -E '^(UNDECIDED|VIOLATION)' /tmp/bug.log | cut -c1-200)"; done
