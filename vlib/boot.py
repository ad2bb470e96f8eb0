"""Import the code under test from its working tree, in a clean environment.

Import this module before anything else: it fixes the environment (one thread
per process, no display, no progress bars), makes a scratch folder that is
removed at the end, and ignores any byte code left in the repository.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['TQDM_DISABLE'] = '1'

SCRATCH = tempfile.mkdtemp(prefix='verif-dorado-')
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
os.makedirs(os.environ['MPLCONFIGDIR'])
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)

# byte code is looked up in an empty folder only, so always from source
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(SCRATCH, 'pyc')
sys.path.insert(0, REPO)

import warnings  # noqa: E402
warnings.simplefilter('ignore')

import matplotlib  # noqa: E402
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
np.seterr(all='ignore')

import dorado  # noqa: E402
import dorado.particle_track as pt  # noqa: E402
import dorado.lagrangian_walker as lw  # noqa: E402
import dorado.routines as routines  # noqa: E402
import dorado.spatial as spatial  # noqa: E402
import dorado.parallel_routing as pr  # noqa: E402

for _m in (dorado, pt, lw, routines, spatial, pr):
    _f = os.path.realpath(_m.__file__)
    if not _f.startswith(REPO + os.sep):
        sys.stderr.write('module %s is not from %s\n' % (_f, REPO))
        sys.exit(2)
