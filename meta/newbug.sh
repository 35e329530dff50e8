#!/bin/bash
# meta/newbug.sh <bug id> <property> <pkg> <needs> <breaks>
d=/verif/seeded/$1; mkdir -p $d
cat > $d/demo.sh <<D
#!/bin/bash
# run in the repository; adds the test beside this script to $3 by overlay
d="\$(cd "\$(dirname "\$0")" && pwd)"
. /opt/vp/env.sh
t=\$(mktemp -d)
cp "\$d/demo_test.go.txt" "\$t/demo_test.go"
echo "{\"Replace\":{\"\$PWD/$3/zz_planted_demo_test.go\":\"\$t/demo_test.go\"}}" > "\$t/o.json"
go test -overlay "\$t/o.json" -vet=off -count=1 -run 'TestPlantedDemo\$' -timeout 240s ./$3
rc=\$?
rm -rf "\$t"
exit \$rc
D
python3 - "$@" <<'P'
import json,sys
_,i,p,k,n,b=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
