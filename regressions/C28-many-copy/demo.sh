#!/bin/bash
# cwd: the repository. Exit 0 when the property holds on this history, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
timeout 120 /opt/venv/bin/python "$here/demo.py"
