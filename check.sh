#!/bin/sh
# check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec python3-vt engine/check.py "$@"
