#!/bin/bash
# bash /verif/run.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs one check against the working tree of /repo (pure Python: importing it is the build).
export TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
unset PYTHONPATH
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python check.py "$@"
