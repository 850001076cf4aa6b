#!/bin/bash
# tools/try_bug.sh ID [seed...]: apply seeded/ID/patch.diff to a scratch copy, confirm demo + tests, run its check there
ID=$1; shift
D=/verif/seeded/$ID
W=/tmp/x/bug_$ID
rm -rf "$W"; cp -a /repo "$W"
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
( cd "$W" && timeout 300 bash "$D/demo.sh" >"$W.demo0" 2>&1 ); A=$?
git -C "$W" apply "$D/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
( cd "$W" && timeout 300 bash "$D/demo.sh" >"$W.demo1" 2>&1 ); B=$?
if [ -z "$NOTEST" ]; then
( cd "$W" && PYTHONHASHSEED=0 flock /tmp/x/tests.lock /opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir="$W" --timeout=300 unit_tests >"$W.tests" 2>&1 )
T=$(tail -1 "$W.tests")
fi
R=""
for s in "${@:-1}"; do
  VERIF_SEED=$s VERIF_REPO="$W" timeout 900 ./run.sh $PROP >"$W.check" 2>&1; C=$?
  R="$R seed$s:exit$C $(grep -c VIOLATION "$W.check")($(grep '^  - ' "$W.check" | head -2 | cut -c5-40 | tr '\n' ';'))"
done
echo "$ID [$PROP] demo clean=$A bug=$B | tests: $T | check:$R"
rm -rf "$W"
