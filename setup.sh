#!/bin/bash
# warms the Go build cache used by the checks
. /opt/vp/env.sh
cd /repo && go build ./... >/dev/null 2>&1
exit 0
