#!/bin/bash
# meta/trybug.sh <bug id>... : applies the patch to /repo, runs its property's check, undoes it.
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
R=${DEV:-/repo}; export VERIF_DEV_REPO=$R
git -C $R apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
/verif/check.sh $p > /tmp/try.$id 2>&1; rc=$?
git -C $R checkout -q -- .
python3 /verif/meta/record.py $id $rc /tmp/try.$id
echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/try.$id)"
done
