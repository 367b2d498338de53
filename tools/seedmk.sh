#!/bin/bash
# tools/seedmk.sh <id> : validate a seeded change in a scratch copy: applies, builds, passes tests, demo passes without and fails with
id=$1; S=/verif/seeded/$id
. /opt/vp/env.sh
W=/tmp/seedwork-$id; rm -rf $W; cp -a /repo $W
D=/tmp/seeddemo-$id; rm -rf $D; mkdir $D; cp -r $S/. $D/; rm -f $D/*.diff $D/meta.json
cd $W || exit 1
(bash $D/demo.sh >/tmp/seed-$id.clean 2>&1) || { echo "$id: demo FAILS on clean tree"; tail -5 /tmp/seed-$id.clean; rm -rf $W $D; exit 1; }
git apply $S/patch.diff || { echo "$id: patch does not apply"; rm -rf $W $D; exit 1; }
go build ./... || { echo "$id: no build"; rm -rf $W $D; exit 1; }
go test ./... >/tmp/seed-$id.test 2>&1 || { echo "$id: existing tests FAIL"; grep -- "--- FAIL" /tmp/seed-$id.test | head -5; rm -rf $W $D; exit 1; }
if bash $D/demo.sh >/tmp/seed-$id.bad 2>&1; then echo "$id: demo PASSES with patch"; rm -rf $W $D; exit 1; fi
echo "$id: ok"; rm -rf $W $D
