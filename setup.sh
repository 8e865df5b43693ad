#!/bin/bash
# Nothing to build: the checks are Python and import pvfactors from /repo's working tree.
# This only confirms, offline, that the interpreter and tools the checks need are there.
set -eu
cd "$(dirname "$0")"
unset PYTHONPATH PYTHONHOME || true
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'PY'
import shutil
from pvcheck import boot
import hypothesis, numpy, pandas, shapely, pvlib, matplotlib, pvfactors
print('ok', hypothesis.__version__, numpy.__version__, pvfactors.__file__)
shutil.rmtree(boot.SCRATCH, ignore_errors=True)
PY
