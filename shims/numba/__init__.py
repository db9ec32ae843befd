"""Stand-in for numba (which is not installed here and cannot be fetched).

``njit("sig")`` runs the decorated function in pure Python, but enforces the
part of numba's contract that a caller can observe: with an explicit signature
an array argument must have exactly the declared native dtype and number of
dimensions (and be writeable), otherwise numba raises ``TypeError: No matching
definition``.  Scalars are converted to the declared scalar type.  Index errors
surface as IndexError instead of silent out-of-bounds memory access.
"""
import functools
import re

import numpy as np

__version__ = "0.0-shim"
prange = range

_DT = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32,
       "u8": np.uint64, "u4": np.uint32, "b1": np.bool_,
       "float64": np.float64, "float32": np.float32, "int64": np.int64,
       "int32": np.int32, "boolean": np.bool_, "c16": np.complex128,
       "intp": np.intp, "uint8": np.uint8, "int_": np.int_}


def _parse(sig):
    m = re.match(r"^\s*(.*?)\((.*)\)\s*$", sig, re.S)
    if not m:
        return None
    body = m.group(2)
    toks, depth, cur = [], 0, ""
    for ch in body:
        if ch in "[(":
            depth += 1
        elif ch in "])":
            depth -= 1
        if ch == "," and depth == 0:
            toks.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        toks.append(cur)
    out = []
    for t in toks:
        t = t.strip()
        mm = re.match(r"^(\w+)\s*(\[(.*)\])?$", t, re.S)
        if not mm or mm.group(1) not in _DT:
            out.append(None)        # unknown type: not enforced
            continue
        ndim = mm.group(3).count(":") if mm.group(2) else 0
        if mm.group(2) and "::1" in mm.group(3):
            ndim = mm.group(3).count(",") + 1
        out.append((np.dtype(_DT[mm.group(1)]), ndim))
    return out


def _no_match(fn, args):
    raise TypeError(
        f"No matching definition for argument type(s) "
        f"{[getattr(a, 'dtype', type(a)) for a in args]} in {fn.__name__}")


def _enforce(fn, spec):
    @functools.wraps(fn)
    def wrapper(*args):
        if len(args) != len(spec):
            raise TypeError(f"not enough arguments: expected {len(spec)}, "
                            f"got {len(args)}")
        new = []
        for a, s in zip(args, spec):
            if s is None:
                new.append(a)
                continue
            dt, ndim = s
            if ndim:
                if (not isinstance(a, np.ndarray) or a.ndim != ndim
                        or a.dtype != dt or not a.dtype.isnative
                        or not a.flags.writeable):
                    _no_match(fn, args)
                new.append(a.view(np.ndarray))
            else:
                if isinstance(a, np.ndarray) and a.ndim != 0:
                    _no_match(fn, args)
                try:
                    new.append(dt.type(a))
                except (TypeError, ValueError):
                    _no_match(fn, args)
        return fn(*new)
    wrapper.py_func = fn
    return wrapper


def njit(*dargs, **dkw):
    if len(dargs) == 1 and not dkw and callable(dargs[0]):
        fn = dargs[0]
        try:
            fn.py_func = fn
        except AttributeError:
            pass
        return fn
    sig = dargs[0] if dargs else dkw.get("signature_or_function")

    def deco(fn):
        spec = _parse(sig) if isinstance(sig, str) else None
        if spec is None:
            fn.py_func = fn
            return fn
        return _enforce(fn, spec)
    return deco


jit = njit


def vectorize(*a, **k):
    if len(a) == 1 and callable(a[0]):
        return np.vectorize(a[0])
    return lambda fn: np.vectorize(fn)


float64 = f8 = np.float64
int64 = i8 = np.int64
