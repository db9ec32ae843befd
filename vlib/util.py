"""Helpers shared by the property modules."""
import math
import warnings

import numpy as np

from .engine import Violation


def check(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def rng_of(seed):
    if isinstance(seed, (list, tuple)):
        return np.random.default_rng([int(x) for x in seed])
    return np.random.default_rng(int(seed))


def close(a, b, what, rtol=1e-9, atol=0.0, scale=None):
    """Arrays equal within tolerance, NaN never acceptable."""
    a = np.asarray(a, dtype='f8')
    b = np.asarray(b, dtype='f8')
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != expected {b.shape}")
    if a.size == 0:
        return
    if not np.all(np.isfinite(b)):
        raise RuntimeError(f"oracle produced non-finite values for {what}")
    if not np.all(np.isfinite(a)):
        i = np.argwhere(~np.isfinite(a))[0]
        raise Violation(f"{what}: non-finite value {a[tuple(i)]} at {i} "
                        f"(expected {b[tuple(i)]})")
    tol = atol + rtol * np.abs(b)
    if scale is not None:
        tol = tol + rtol * scale
    bad = np.abs(a - b) > tol
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        raise Violation(
            f"{what}: {a[i]!r} != expected {b[i]!r} at index {i} "
            f"({int(bad.sum())} of {a.size} differ)")


def same(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != expected {b.shape}")
    if not np.array_equal(a, b):
        i = tuple(np.argwhere(a != b)[0])
        raise Violation(f"{what}: {a[i]!r} != expected {b[i]!r} at {i}")


def must_raise(fn, what, *types):
    """fn must raise an Exception (of one of types, when given)."""
    try:
        with quiet():
            fn()
    except Exception as e:
        if types and not isinstance(e, types):
            raise Violation(f"{what}: raised {type(e).__name__} ({e}), "
                            f"expected {[t.__name__ for t in types]}")
        return e
    raise Violation(f"{what}: accepted without an error")


class quiet:
    """Silences and records warnings."""
    def __enter__(self):
        self._cm = warnings.catch_warnings(record=True)
        self.w = self._cm.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        return self._cm.__exit__(*a)

    def runtime(self):
        return [w for w in self.w
                if issubclass(w.category, RuntimeWarning)
                and 'numpy' not in str(w.filename)
                and '/repo/' in str(w.filename)]


def isnan(x):
    return isinstance(x, float) and math.isnan(x)
