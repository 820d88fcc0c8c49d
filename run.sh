#!/bin/bash
# run.sh <property> [quick|thorough] [--replay FILE] [--only WORKLOAD] [--seed N]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
unset PYTHONPATH PYTHONOPTIMIZE PYTHONSTARTUP
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c 'import sys; sys.path.insert(0, "."); from vf.core import main; sys.exit(main(sys.argv[1:]))' "$@"
