#!/bin/bash
# verify every contract: tools/regress.sh
cd /verif; . /opt/vp/env.sh
exec bin/gocv verify $(grep -ho '^fn [a-z0-9]*\.' contracts/*.gcv contracts/*/*.gcv 2>/dev/null | awk '{print $2"*"}' | sort -u) 2>&1 | cut -c1-${COLS:-200} | grep -v ^OK | grep -v "^SLOW\|^=> false"
