#!/bin/bash
# Builds the repository ($REPO, or /repo), runs its tests and says whether the stable
# baseline still passes.
REPO="${REPO:-/repo}"
t="$(mktemp -d)" || exit 1
trap 'rm -rf "$t"' EXIT
sed "s#/repo#$REPO#g" /opt/vp/build.sh | bash >"$t/build.log" 2>&1 || { tail -30 "$t/build.log"; exit 1; }
sed "s#/repo#$REPO#g" /opt/vp/test.sh | bash -s "$t/out.json" >"$t/test.log" 2>&1
python3 - "$t/out.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open(sys.argv[1]))
miss=b-set(t['passed']); print('stable',len(b),'missing',sorted(miss)); sys.exit(1 if miss else 0)
P
