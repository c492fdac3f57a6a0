#!/bin/bash
# tryseed.sh <bug>...: applies each planted bug to /repo's working tree, then builds, runs the
# tests, the demonstration and the check of its property, and puts the tree back.
REPO="${REPO:-/repo}"; VERIF="${VERIF:-/verif}"
cd "$REPO" || exit 1
export REPO
build() { sed "s#/repo#$REPO#g" /opt/vp/build.sh | bash; }
for b in "$@"; do
    s=$VERIF/seeded/$b
    p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    build >/dev/null 2>&1
    bash $s/demo.sh >/tmp/demo0.log 2>&1; d0=$?
    git apply $s/patch.diff || { echo "$b: does not apply"; continue; }
    build >/tmp/seedbuild.log 2>&1 || { echo "$b: does not build"; tail -20 /tmp/seedbuild.log; git checkout -q -- .; continue; }
    t=$(bash $VERIF/tools/repotest.sh)
    bash $s/demo.sh >/tmp/demo1.log 2>&1; d1=$?
    r=""
    for seed in 1 2 3; do
        (cd $VERIF && VERIF_SEED=$seed VERIF_TIER=quick ./check.sh $p >/tmp/seedcheck.log 2>&1); c=$?
        r="$r $c"
    done
    git checkout -q -- .
    echo "$b ($p): demo clean $d0, demo broken $d1 [$(tail -1 /tmp/demo1.log | cut -c1-150)], tests: $t, check:$r [$(grep -m1 "^property .*\[" /tmp/seedcheck.log | cut -c1-160)]"
    if [ "$ALL" ]; then
        git apply $s/patch.diff
        others=""
        for q in $(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('$VERIF/MANIFEST.json'))['checks']))"); do
            (cd $VERIF && VERIF_SEED=1 VERIF_TIER=quick ./check.sh $q >/dev/null 2>&1) || others="$others $q"
        done
        git checkout -q -- .
        echo "   caught by:$others"
    fi
done
build >/dev/null 2>&1
