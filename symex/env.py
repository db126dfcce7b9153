"""Process set-up: make /repo importable with the pure-python implementations, z3 from the tool venv."""
import os
import sys
import warnings

REPO = os.environ.get('PYGSTI_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
FAST = ['pygsti.objects.replib.fastreplib', 'pygsti.objects.opcalc.fastopcalc',
        'pygsti.io.circuitparser.fastcircuitparser', 'pygsti.tools.fastcalc']


def setup(fast=False):
    sys.dont_write_bytecode = True
    for k, v in (('MPLBACKEND', 'Agg'), ('OMP_NUM_THREADS', '1'), ('PYGSTI_NO_CYTHON_WARNING', '1')):
        os.environ[k] = v
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VT not in sys.path:
        sys.path.append(VT)
    warnings.filterwarnings('ignore')
    if not fast:
        for m in FAST:
            sys.modules[m] = None
