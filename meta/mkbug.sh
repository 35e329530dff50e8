#!/bin/bash
# meta/mkbug.sh <bug id> : the scratch copy $WT (cp -a /repo) holds the planted change,
# seeded/<id>/ the demo files; validates and writes patch.diff. NOTESTS=1 skips the stable tests.
id=$1; d=/verif/seeded/$id
WT=${WT:-/tmp/wt}; export WT
cd $WT || exit 1
. /opt/vp/env.sh
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
go build ./... || { echo BUILD-FAILS; exit 1; }
chmod +x $d/demo.sh
bash $d/demo.sh > /tmp/demo.buggy 2>&1 && { echo "demo PASSES with the bug"; tail -20 /tmp/demo.buggy; exit 1; }
if [ -z "$NOTESTS" ]; then
  go test -json -vet=off -count=1 -timeout 10m ./... > $WT.log.json 2>/dev/null
  python3 /opt/vp/results.py $WT.res.json gojson:$WT.log.json >/dev/null 2>&1
  python3 - <<P
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(__import__('os').environ['WT']+'.log.json'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
print('missing stable tests:', sorted(st-ok))
P
fi
git checkout -q -- .
bash $d/demo.sh > /tmp/demo.clean 2>&1 || { echo "demo FAILS on clean tree"; tail -30 /tmp/demo.clean; exit 1; }
git -C /repo apply --check $d/patch.diff && echo "$id ok"
