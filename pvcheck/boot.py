"""Process bootstrap: environment, import paths, where the code under test lives.

The interpreter is the one the repository itself runs in (/opt/venv); hypothesis is
taken from the pre-installed tool environment, appended *after* everything else so that
numpy, pandas, shapely, pvlib are the repository's own.
"""
import os
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PVCHECK_REPO', '/repo')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

_ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'MPLBACKEND': 'Agg',
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1'}
for _k, _v in _ENV.items():
    os.environ[_k] = _v
sys.dont_write_bytecode = True
SCRATCH = os.environ.get('PVCHECK_SCRATCH')
if not SCRATCH:
    SCRATCH = tempfile.mkdtemp(prefix='pvcheck-')
    os.environ['PVCHECK_SCRATCH'] = SCRATCH
    OWN_SCRATCH = True
else:
    OWN_SCRATCH = False
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(SCRATCH, 'hyp')

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)

warnings.filterwarnings('ignore')
import numpy as np  # noqa: E402
np.seterr(all='ignore')
import pvfactors  # noqa: E402
assert os.path.realpath(pvfactors.__file__).startswith(
    os.path.realpath(REPO) + os.sep), pvfactors.__file__
import logging  # noqa: E402
logging.disable(logging.CRITICAL)
