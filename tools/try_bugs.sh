#!/bin/bash
# Maintenance: apply each planted bug to /repo in turn and run checks on it (its own property's, or those given by CHECKS)
cd /verif
for id in "${@:-$(ls seeded)}"; do for i in $id; do
    p=$(python3 -c "import json;print(json.load(open('${DIR:-/verif/seeded}/$i/meta.json'))['property'])")
    git -C /repo apply ${DIR:-/verif/seeded}/$i/patch.diff || { echo "$i: does not apply"; continue; }
    for c in ${CHECKS:-$p}; do
        s=$(date +%s); out=$(./check.sh $c 2>&1); rc=$?
        echo "$i ($p) $c: exit $rc, $(( $(date +%s) - s )) s: $(echo "$out" | grep -v ^VIOLATION | head -1 | cut -c1-160)"
    done
    git -C /repo checkout -q -- .
done; done
rm -f /verif/replays/*.json
