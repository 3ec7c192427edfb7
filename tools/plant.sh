#!/bin/bash
# plant.sh ID [--notests]: validates a planted bug of /verif/seeded/ID in a scratch copy and runs its check there
id=$1; d=/verif/seeded/$id
t=/tmp/plant-$id; rm -rf "$t"; mkdir -p "$t"; cp -a /repo "$t/repo"; cp -a "$d" "$t/demo"; rm -f "$t"/demo/*.diff "$t"/demo/meta.json
cd "$t/repo" || exit 9
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
export PYTHONPATH=$t/repo/src PYTHONDONTWRITEBYTECODE=1
timeout 300 bash "$t/demo/demo.sh" >"$t/clean.txt" 2>&1; a=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$t"; exit 9; }
timeout 300 bash "$t/demo/demo.sh" >"$t/bug.txt" 2>&1; b=$?
[ $a -ne 0 ] && tail -5 "$t/clean.txt"
r=skipped
if [ "$2" != --notests ]; then
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x tests/test_crudedataset.py tests/test_epathlib.py tests/test_transforms.py >"$t/tests.txt" 2>&1; r=$?
fi
VT_REPO=$t/repo VT_OUT=$t/out /verif/check $prop quick >"$t/check.txt" 2>&1; c=$?
echo "$id ($prop): demo clean=$a bug=$b tests=$r check=$c $(grep -c ^VIOLATION "$t/check.txt") violations; $(grep 'counterexample in' "$t/check.txt" | head -2 | tr '\n' ';') $(grep ^ERROR "$t/check.txt" | head -2 | cut -c1-300)"
rm -rf "$t"
