#!/bin/bash
# catch.sh ID...: does the check of the bug's property report it?
for b in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
    out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $p quick 2>&1); r=$?
    git -C /repo checkout -- .
    echo "$b $p exit=$r $(echo "$out" | grep -E 'VIOLATION|ERROR' | head -1) | $(echo "$out" | tail -1 | cut -c1-200)"
done
