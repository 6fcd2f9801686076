#!/bin/bash
# tools/try_bug.sh ID [check...]: tries the planted bug seeded/ID in a scratch copy of /repo:
# demo without and with the patch, the test suite with it, and the check(s) of its property.
ID=$1; shift
S=/verif/seeded/$ID
W=$(mktemp -d /tmp/bug.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 2
mkdir "$W/demo"; cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PATH=/opt/venv/bin:$PATH
(timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1); a=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
(timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1); b=$?
[ $a = 0 ] && [ $b != 0 ] && echo "$ID: demo ok ($a/$b): $(tail -1 "$W/d1")" || { echo "$ID: DEMO BAD $a/$b"; tail -5 "$W/d0" "$W/d1"; }
if [ -z "$SKIPTESTS" ]; then
PYTHONPATH="$W/repo:/opt/vp/pyplugin" OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -W ignore -p no:cacheprovider -p vp_isolate -n 4 --timeout=300 --tb=no "$W/repo/tests" "$W/repo/examples" > "$W/t" 2>&1
echo "$ID: tests: $(tail -1 "$W/t")  $(grep -E '^(FAILED|ERROR)' "$W/t" | cut -c1-150 | head -5)"
fi
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /verif
for p in $P; do
  PBT_REPO="$W/repo" VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py "$p" > "$W/c" 2>&1; r=$?
  echo "$ID: check $p exit $r: $(grep VIOLATION "$W/c" | head -1 | cut -c1-150)"
done
