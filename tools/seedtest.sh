#!/bin/bash
# usage: seedtest.sh <seed id> [property ...]   checks a planted bug in a scratch copy of /repo
# and runs the quick checks of its property (and of the others named) against the copy.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd); R=${VERIF_REPO:-/repo}; S=$V/seeded/$id
D=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$D"' EXIT
cp -a "$R" "$D/repo"
cp -r "$S" "$D/demo"; rm -f "$D/demo"/*.diff "$D/demo"/meta.json
cd "$D/repo" || exit 2
timeout 300 bash "$D/demo/demo.sh" >"$D/o1" 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
timeout 300 bash "$D/demo/demo.sh" >"$D/o2" 2>&1; b=$?
[ $a = 0 ] || tail -5 "$D/o1"
t=$(/opt/venv/bin/python - <<P
import json,subprocess,sys
b=json.load(open('/opt/vp/BASELINE.json'))
names=b.get('stable') or b.get('tests') or b
print(len(names))
P
)
r=$(cd "$D/repo" && PYTHONHASHSEED=0 HOME=$D/h /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests --ignore=tests/end_to_end_tests --ignore=tests/core_tests --ignore=tests/utils_tests/test_edgar.py --ignore=tests/utils_tests/test_print_facts.py 2>&1 | tail -1)
echo "$id: demo clean=$a patched=$b tests: $r"
P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for p in $P "$@"; do
  VERIF_REPO=$D/repo VERIF_EVIDENCE=$D/ev timeout 900 /opt/venv/bin/python $V/mc/main.py $p --tier quick >"$D/c" 2>&1; rc=$?
  echo "  $p exit $rc: $(grep -A1 '^VIOLATION' "$D/c" | sed -n 2p | cut -c1-200) $(tail -1 "$D/c" | cut -c1-200)"
done
