#!/bin/bash
# bash bin/check.sh <property> [quick|thorough]
cd "$(dirname "$0")/.." || exit 2
exec python3-vt vg/check.py "$@"
