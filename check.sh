#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay FILE] [--facet NAME]
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
unset PYTHONPATH PYTHONHOME
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m pvcheck "$@"
