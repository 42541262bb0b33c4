#!/bin/bash
# usage: ./check.sh C01 [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore LANG="${LANG:-C.UTF-8}"
unset PYCAPTION_DEFAULT_LANG
exec /opt/venv/bin/python -c "import sys; from mc.core import main; sys.exit(main(sys.argv[1:]))" "$@"
