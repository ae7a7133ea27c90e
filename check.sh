#!/bin/bash
# bash check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -m jgmon.run "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
