#!/bin/bash
# usage: ./replay.sh replays/C01/quick-00.json   (re-executes one recorded case, without the explorer)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore LANG="${LANG:-C.UTF-8}"
exec /opt/venv/bin/python -c 'import sys; from mc.core import replay; sys.exit(replay(sys.argv[1]))' "$(realpath "$1")"
