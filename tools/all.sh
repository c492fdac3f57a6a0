#!/bin/bash
# all.sh <tier> <seed>...: runs every registered check and reports the ones that do not exit 0.
cd /verif || exit 1
tier=$1; shift
./check.sh --build >/dev/null 2>&1
for p in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))"); do
    for s in "$@"; do
        t0=$(date +%s)
        VERIF_SEED=$s VERIF_TIER=$tier ./check.sh $p >/tmp/all-$p-$s.log 2>&1; c=$?
        echo "$p seed $s exit $c $(( $(date +%s) - t0 )) s $([ $c != 0 ] && grep -m1 VIOLATION /tmp/all-$p-$s.log)"
    done
done
