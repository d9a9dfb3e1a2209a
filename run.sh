#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0
exec python3-vt "checks/$1.py"
