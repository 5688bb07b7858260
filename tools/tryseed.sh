#!/bin/bash
# Development: tryseed.sh ID [CHECK...] applies a planted bug to /repo, builds, runs the stable
# tests, the demonstration and the checks (default: the property's), and undoes the change.
id=$1; shift
V=/verif; D=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
checks=${*:-$prop}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git -C /repo apply --check "$D/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
T=$(mktemp -d)
bash /opt/vp/build.sh >"$T/b" 2>&1
( cd /repo && bash "$D/demo.sh" >"$T/d0" 2>&1 ); d0=$?
git -C /repo apply "$D/patch.diff"
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >"$T/b" 2>&1 || { echo "$id: does not build"; tail -5 "$T/b"; exit 1; }
bash /opt/vp/test.sh "$T/out.json" >"$T/t" 2>&1
lost=$(python3 - "$T/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open(sys.argv[1]))['passed']
l=[x for x in b if x not in o]; print(len(l), l[:2])
P
)
( cd /repo && bash "$D/demo.sh" >"$T/d1" 2>&1 ); d1=$?
echo "$id ($prop): demo unpatched=$d0 patched=$d1 lost tests=$lost"
for c in $checks; do
  ( cd $V && VERIF_SEED=1 VERIF_TIER=quick ./run.sh check $c >"$T/c" 2>&1 ); rc=$?
  echo "   check $c: rc=$rc $(grep -c '^VIOLATION' "$T/c") $(grep -m1 '^VIOLATION' "$T/c")"
done
