#!/bin/bash
# run one harness test by hand: tools/h.sh TestReplayC05 [repo]
. /opt/vp/env.sh
R=${2:-/repo}
O=$(mktemp)
python3 - "$R" > $O <<'P'
import glob,json,sys,os
r=sys.argv[1]
print(json.dumps({"Replace":{f"{r}/mat/zzverif/{os.path.basename(f)}":f for f in glob.glob("/verif/replay/*.go")}}))
P
D=$(mktemp -d)
cd $R && go test -overlay $O -vet=off -c -o $D/t ./mat/zzverif && (cd $D && ./t -test.run "^$1\$" -test.v 2>&1 | cut -c1-${W:-500})
rm -rf $O $D
