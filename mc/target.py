"""Imports the code under test from /repo's working tree (VERIF_REPO)."""
import os, sys
os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("TQDM_DISABLE", "1")
sys.dont_write_bytecode = True
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, REPO)

import inspect, functools
import numpy as np
import matplotlib
matplotlib.use("Agg")
import cuprates_transport
if not os.path.realpath(cuprates_transport.__path__[0]).startswith(REPO + os.sep):
    raise SystemExit("wrong tree: %s" % cuprates_transport.__path__)
import cuprates_transport.bandstructure as bs
import cuprates_transport.conductivity as co
import cuprates_transport.scattering as sc
import cuprates_transport.admr as ad
from cuprates_transport.bandstructure import BandStructure
from cuprates_transport.conductivity import Conductivity
from cuprates_transport.scattering import Scattering
from cuprates_transport.admr import ADMR

# Own the nondeterminism of uninitialised memory: arrays that were never
# written hold NaN, so that reading one shows and states compare reliably.
_empty, _empty_like = np.empty, np.empty_like


def _poison(a):
    if a.dtype.kind in "fc":
        a.fill(np.nan)
    elif a.dtype.kind in "iu":
        a.fill(99)
    return a


def empty(*args, **kw):
    return _poison(_empty(*args, **kw))


def empty_like(*args, **kw):
    return _poison(_empty_like(*args, **kw))


if os.environ["NUMBA_DISABLE_JIT"] == "1":      # numba compiles only its own
    np.empty, np.empty_like = empty, empty_like

# The default grid of the filling is 500^3 points (several GB): the grids of
# the filling are capped per axis, which leaves the algorithm as it is.
CAP = 60


def _capped(f):
    sig = inspect.signature(f)

    @functools.wraps(f)
    def g(*args, **kw):
        ba = sig.bind(*args, **kw)
        ba.apply_defaults()
        for k, v in ba.arguments.items():
            if k.startswith("res") and isinstance(v, (int, np.integer)):
                ba.arguments[k] = min(int(v), sys.modules[__name__].CAP)
        return f(*ba.args, **ba.kwargs)
    return g


for _n in ("update_filling", "doping", "filling", "doping_per_kz"):
    if hasattr(BandStructure, _n):
        setattr(BandStructure, _n, _capped(getattr(BandStructure, _n)))
