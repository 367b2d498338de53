#!/bin/bash
# decides one property: check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
bash gocv/build.sh >&2 || exit 2
. /opt/vp/env.sh
exec bin/gocv check -prop "$1" -tier "$2"
