#!/bin/bash
# tools/seedrun.sh <id>... : run the property's quick check with the change applied to /repo, then undo
for id in "$@"; do
S=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo apply $S/patch.diff || exit 1
timeout 900 bash /verif/check.sh $P quick > /tmp/seedrun-$id.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id ($P): rc=$rc $(grep -a VIOLATION /tmp/seedrun-$id.out) | $(grep -a 'failed obligation' /tmp/seedrun-$id.out | head -2 | cut -c1-160) | $(grep -a 'wall' /tmp/seedrun-$id.out | grep -o 'wall.*')"
done
