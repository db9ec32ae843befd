"""C15 interpolators."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

from qsonic.mathtools import (
    FastCubic1DInterp, FastLinear1DInterp, mypoly1d)
from vlib.engine import Sub
from vlib.util import close, must_raise, rng_of, same


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(2, 8), st.integers(2, 60),
                       st.sampled_from([15, 16, 17, 18, 19, 20, 21, 33])))
    return dict(
        n=n, x0=draw(st.sampled_from([0.0, -5.0, 3600.0, 7.5])),
        dx=draw(st.sampled_from([1.0, 0.5, 2.0, 100.0, 0.3, 1e-3])),
        kind=draw(st.sampled_from(['rand', 'const', 'line', 'unit', 'poly'])),
        amp=draw(st.sampled_from([1.0, 1e-3, 1e4])),
        seed=draw(st.integers(0, 99999)),
        model=draw(st.sampled_from(['lin', 'not-a-knot', 'natural',
                                    'default'])),
        where=draw(st.sampled_from(['in', 'in', 'nodes', 'out', 'ends'])),
        copy=draw(st.booleans()), resets=draw(st.integers(0, 2)),
        ep=draw(st.booleans()))


def table(case, k):
    rng = rng_of(case['seed'] + 1000003 * k)
    n = case['n']
    t = np.arange(n, dtype='f8')
    if case['kind'] == 'rand':
        y = rng.normal(size=n)
    elif case['kind'] == 'const':
        y = np.full(n, rng.normal())
    elif case['kind'] == 'line':
        y = rng.normal() + rng.normal() * t / n
    elif case['kind'] == 'unit':
        y = np.zeros(n)
        y[rng.integers(n)] = 1
    else:
        y = np.polyval(rng.normal(size=4), t / n)
    return case['amp'] * y


def points(case, rng):
    n, x0, dx = case['n'], case['x0'], case['dx']
    if case['where'] == 'nodes':
        return x0 + dx * np.arange(n)
    if case['where'] == 'out':
        return x0 + dx * np.array([-2.0, -1.0, -0.25, n - 0.75, n, n + 1.0])
    if case['where'] == 'ends':
        return x0 + dx * np.array([0, 0.5, n - 1.5, n - 1.0, n - 1 - 1e-6,
                                   1e-6])
    return x0 + dx * rng.uniform(0, n - 1, 25)


def oracle(case, y, x):
    n = case['n']
    xx = (x - case['x0']) / case['dx']
    if case['model'] == 'lin':
        k = np.clip(np.floor(xx).astype(int), 0, n - 2)
        return y[k] + (y[k + 1] - y[k]) * (xx - k)
    bc = 'not-a-knot' if case['model'] == 'default' else case['model']
    # in grid units: avoids ill conditioning of the oracle
    return CubicSpline(np.arange(n, dtype='f8'), y, bc_type=bc,
                       extrapolate=True)(xx)


def make(case, y):
    kw = dict(copy=True) if case['copy'] else {}
    if case['ep']:
        kw['ep'] = np.ones(y.size)
    if case['model'] == 'lin':
        return FastLinear1DInterp(case['x0'], case['dx'], y, **kw)
    if case['model'] != 'default':
        kw['bc_type'] = case['model']
    return FastCubic1DInterp(case['x0'], case['dx'], y, **kw)


def run(case, tmp):
    rng = rng_of(case['seed'] + 5)
    y = table(case, 0)
    y0 = y.copy()
    f = make(case, y)
    same(y, y0, "input table")
    for k in range(case['resets']):
        y = table(case, k + 1)
        y0 = y.copy()
        if case['copy']:
            f.reset(y, copy=True)
        else:
            f.reset(y)
        same(y, y0, "input table")
    # rounding of x itself
    x = points(case, rng)
    amp = np.abs(y0).max() + 1e-300
    tol = 1e-9 + 1e-13 * (abs(case['x0']) / case['dx'] + case['n'])
    if case['where'] in ('out', 'ends'):
        tol *= 30
    xs = x.copy()
    got = f(x)
    same(x, xs, "evaluation points")
    close(got, oracle(case, y0, x), "interpolated values", rtol=tol,
          atol=tol * amp)
    if case['where'] == 'nodes':
        close(got, y0, "table values at nodes", rtol=tol, atol=tol * amp)
    # one point at a time, repeated calls
    j = int(rng.integers(x.size))
    close(f(x[j:j + 1]), got[j:j + 1], "single point", rtol=1e-12,
          atol=1e-12 * amp)
    if case['copy']:
        y[:] = 1e6
        close(f(x), got, "values after the caller changed its table",
              rtol=1e-14, atol=1e-14 * amp)
    return dict(nontrivial=case['kind'] != 'const',
                tags=[case['model'], case['where']])


@st.composite
def poly_cases(draw):
    return dict(coef=draw(st.lists(st.floats(-5, 5), min_size=1, max_size=6)),
                x=draw(st.lists(st.floats(-3, 3), min_size=1, max_size=12)))


def run_poly(case, tmp):
    c, x = np.array(case['coef']), np.array(case['x'])
    c0, x0 = c.copy(), x.copy()
    got = mypoly1d(c, x)
    want = [sum(a * v**i for i, a in enumerate(case['coef']))
            for v in case['x']]
    close(got, want, "polynomial", rtol=1e-10, atol=1e-9)
    same(c, c0, "coefficients")
    same(x, x0, "x")
    return len(case['coef']) > 1


@st.composite
def bc_cases(draw):
    return dict(bc=draw(st.sampled_from(['clamped', '', 'Natural', 'none'])))


def run_bc(case, tmp):
    must_raise(lambda: FastCubic1DInterp(0., 1., np.ones(5),
                                         bc_type=case['bc']),
               "unknown boundary condition")
    return True


SUBS = [
    Sub("interp", cases, run, quick=2400, thorough=120000, shards=6,
        rule="table is not constant"),
    Sub("poly", poly_cases, run_poly, quick=300, thorough=10000,
        rule="more than one coefficient"),
    Sub("bc", bc_cases, run_bc, quick=10, thorough=10, tshards=1,
        rule="every case"),
]
