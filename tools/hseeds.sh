#!/bin/bash
# run the harness tests under many seeds, to find false alarms: tools/hseeds.sh N 'regexp' [repo]
. /opt/vp/env.sh
R=${3:-/repo}
O=$(mktemp)
python3 - "$R" > $O <<'P'
import glob,json,sys,os
r=sys.argv[1]
print(json.dumps({"Replace":{f"{r}/mat/zzverif/{os.path.basename(f)}":f for f in glob.glob("/verif/replay/*.go")}}))
P
D=$(mktemp -d)
cd $R && go test -overlay $O -vet=off -c -o $D/t ./mat/zzverif || exit 2
cd $D
seq 1 $1 | xargs -P 8 -I{} sh -c "VERIF_SEED={} ./t -test.run '$2' 2>&1 | grep -a 'FAILING\|^panic\|fatal\|error during' | cut -c1-300 | sed 's/^/seed {} /'"
rm -rf $O $D
