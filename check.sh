#!/bin/sh
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
if [ -n "$2" ]; then VERIF_TIER="$2"; export VERIF_TIER; fi
exec python3 tools/run.py "$1"
