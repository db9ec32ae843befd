"""Process set-up: shims, the tree under test, Hypothesis, state isolation."""
import copy
import importlib
import importlib.abc
import importlib.machinery
import os
import shutil
import sys
import tempfile
import types
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PY = os.environ.get("QSONIC_PY", "/repo/py")
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HYP_NAMES = {"hypothesis", "sortedcontainers", "attr", "attrs",
             "_hypothesis_globals", "_hypothesis_ftz_detector"}

sys.dont_write_bytecode = True


class _HypFinder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name in HYP_NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [self.path])
        return None


def _hyp_path():
    if os.path.isdir(os.path.join(HYP_SITE, "hypothesis")):
        return HYP_SITE
    wheels = "/opt/veriftools/wheels"
    tmp = tempfile.mkdtemp(prefix="vp-hyp-")
    for w in sorted(os.listdir(wheels)):
        if w.split("-")[0].lower() in ("hypothesis", "sortedcontainers",
                                       "attrs"):
            zipfile.ZipFile(os.path.join(wheels, w)).extractall(tmp)
    import atexit
    atexit.register(shutil.rmtree, tmp, True)
    return tmp


def setup():
    if getattr(setup, "done", False):
        return
    setup.done = True
    # hermetic: the shims come first, then the tree under test
    sys.path.insert(0, REPO_PY)
    sys.path.insert(0, os.path.join(VERIF, "shims"))
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_HypFinder(_hyp_path()))
        import hypothesis  # noqa: F401
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    install_poison()


def import_qsonic():
    """Import every module of the package under test."""
    import qsonic
    here = os.path.realpath(os.path.dirname(qsonic.__file__))
    want = os.path.realpath(os.path.join(REPO_PY, "qsonic"))
    if here != want:
        raise RuntimeError(f"qsonic imported from {here}, wanted {want}")
    for m in ("catalog", "mpi_utils", "mathtools", "spectrum", "io", "masks",
              "calibration", "picca_continuum", "continuum_models",
              "continuum_models.base_continuum_model",
              "continuum_models.picca_continuum_model",
              "continuum_models.true_continuum_model",
              "continuum_models.input_continuum_model",
              "scripts.qsonic_fit", "scripts.qsonic_calib",
              "scripts.qsonic_coadd_deltas"):
        importlib.import_module("qsonic." + m)
    if _SNAP is None:
        take_snapshot()


# --------------------------------------------------------------------------
# uninitialised memory: np.empty returns poison so that reading it shows
# --------------------------------------------------------------------------
def install_poison():
    import numpy as np
    real_empty, real_empty_like = np.empty, np.empty_like
    if getattr(real_empty, "_vp", False):
        return

    def fill(a):
        try:
            k = a.dtype.kind
            if k == "f" or k == "c":
                a.fill(np.nan)
            elif k == "i":
                a.fill(np.iinfo(a.dtype).min // 3)
            elif k == "V" and a.dtype.names and not a.dtype.hasobject:
                for nm in a.dtype.names:
                    f = a[nm]
                    if f.dtype.kind in "fi":
                        fill(f)
        except Exception:
            pass
        return a

    def empty(*a, **k):
        return fill(real_empty(*a, **k))

    def empty_like(*a, **k):
        return fill(real_empty_like(*a, **k))

    empty._vp = empty_like._vp = True
    np.empty, np.empty_like = empty, empty_like


# --------------------------------------------------------------------------
# class / module level state of the package, restored before every case
# --------------------------------------------------------------------------
_SNAP = None
_DATA = (dict, list, set, tuple, str, bytes, int, float, complex, bool,
         frozenset, type(None))


def _is_data(v):
    import numpy as np
    return isinstance(v, _DATA) or isinstance(v, (np.ndarray, np.generic))


def _try_copy(v):
    try:
        return copy.deepcopy(v)
    except Exception:
        return v


def take_snapshot():
    global _SNAP
    _SNAP = []
    for mname, mod in sorted(sys.modules.items()):
        if mname != "qsonic" and not mname.startswith("qsonic."):
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith("__"):
                continue
            if _is_data(v):
                _SNAP.append((mod, k, _try_copy(v)))
            elif isinstance(v, type) and v.__module__ == mname:
                for kk, vv in list(vars(v).items()):
                    if kk.startswith("__"):
                        continue
                    if _is_data(vv):
                        _SNAP.append((v, kk, _try_copy(vv)))


def restore_state():
    if _SNAP is None:
        return
    for owner, k, v in _SNAP:
        cur = vars(owner).get(k, _SNAP)
        if isinstance(v, (str, bytes, int, float, bool, type(None), complex)):
            if cur is v:
                continue
            setattr(owner, k, v)
        else:
            setattr(owner, k, _try_copy(v))


class Scratch:
    """Per-case scratch directory."""
    def __init__(self, base=None):
        self.base = base

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="vpcase-", dir=self.base)
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)
