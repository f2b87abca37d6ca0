"""Process environment for phasor at this commit: same shims and settings as the repository's own test run."""
import os
import sys
import warnings

REPO = os.environ.get('PHASOR_REPO', '/repo')
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env(hashseed='0'):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
             PYTHONPATH=HERE, PYTHONWARNINGS='ignore')
    return e


def compat():
    import collections
    import collections.abc
    import numpy
    for name in collections.abc.__all__:
        if not hasattr(collections, name):
            setattr(collections, name, getattr(collections.abc, name))
    for t in (bool, int, float, complex, object, str):
        if t.__name__ not in vars(numpy):
            setattr(numpy, t.__name__, t)


def load(seamed=True):
    warnings.simplefilter('ignore')
    compat()
    import numpy
    numpy.seterr(all='ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if seamed:
        from . import seam
        seam.install()
    import phasor
    assert os.path.abspath(phasor.__file__).startswith(os.path.abspath(REPO) + '/'), phasor.__file__
    import phasor.system, phasor.optics, phasor.electronics, phasor.mechanical, phasor.signals, phasor.readouts
    return phasor
