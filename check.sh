#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")"
[ -x .build/irdump ] || bash setup.sh >/dev/null || exit 2
exec python3-vt engine/check.py "$@"
