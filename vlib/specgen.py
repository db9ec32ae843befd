"""Generation of pixel arrays / catalogue rows for Spectrum-level checks."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .util import rng_of

# every value is a dyadic rational where possible: edges computed from them
# are exact, so boundary pixels can be decided strictly
ZPOOL = [2.0, 2.5, 2.25, 2.4375, 3.0, 2.1, 2.73, 3.4142]
DWPOOL = [0.75, 1.0, 0.8, 0.5]


@st.composite
def layouts(draw, max_arms=3, min_pix=8, max_pix=60, gaps=True):
    """Arms on one common grid; (name, offset, npix) per arm."""
    narm = draw(st.sampled_from(
        [n for n in (1, 2, 3, 2, 3) if n <= max_arms]))
    names = ['B', 'R', 'Z'][:narm]
    off, arms = 0, []
    for nm in names:
        n = draw(st.integers(min_pix, max_pix))
        arms.append([nm, off, n])
        lo = -min(n, 10) + 1
        off = off + n + draw(st.sampled_from(
            ([0, 3, 1] if gaps else [0]) + [lo, -1, max(lo, -4)]))
    order = draw(st.permutations(list(range(narm))))
    return dict(w0=draw(st.sampled_from([3600.0, 4000.0, 3648.5])),
                dw=draw(st.sampled_from(DWPOOL)),
                arms=[arms[i] for i in order])


def waves(lay):
    return {nm: lay['w0'] + (off + np.arange(n)) * lay['dw']
            for nm, off, n in lay['arms']}


@st.composite
def spectra(draw, max_arms=3, max_spec=3, max_pix=60, gaps=True,
            reso=('none', 'shared', 'per'), minsize=8):
    lay = draw(layouts(max_arms, minsize, max_pix, gaps))
    nspec = draw(st.integers(1, max_spec))
    # neighbouring identifiers beyond 2**53 as well
    base, top = draw(st.sampled_from([(0, 10**15), (39627939372861215, 9)]))
    ids = [base + i for i in draw(st.lists(
        st.integers(1, top), min_size=nspec, max_size=nspec, unique=True))]
    return dict(
        lay=lay, ids=ids,
        z=[draw(st.sampled_from(ZPOOL)) for _ in range(nspec)],
        seed=draw(st.integers(0, 10**6)),
        dtype=draw(st.sampled_from(['f8', 'f8', 'f4'])),
        pbad=draw(st.sampled_from([0.0, 0.05, 0.3, 0.8])),
        kinds=draw(st.lists(st.sampled_from(
            ['mask', 'bigmask', 'nanf', 'nani', 'neg', 'zero', 'combo',
             'zflux']),
            min_size=1, max_size=8, unique=True)),
        dead=[draw(st.sampled_from([None] * 4 + ['B', 'R', 'Z']))
              for _ in range(nspec)],
        snr=draw(st.sampled_from([0.3, 3.0, 30.0])),
        amp=draw(st.sampled_from([1.0, 1e-3, 50.0])),
        # odd: the resolution matrices are symmetric bands
        ndia=[draw(st.sampled_from([5, 7, 9])) for _ in range(3)],
        reso=draw(st.sampled_from(list(reso))))


def set_window(s, lay, win):
    """Forest of win = (first pixel, size), the same size for all spectra, or
    of all pixels."""
    if win is None:
        s.set_forest_region(0., 1e5, 100., 1e4)
    else:
        k, size = win
        s.set_forest_region(lay['w0'] + lay['dw'] * (k - 0.5),
                            lay['w0'] + lay['dw'] * (k + size - 0.5),
                            100., 1e4)


def build(case):
    """Returns (cat, data) in the form Spectrum.from_dictionary takes."""
    rng = rng_of(case['seed'])
    lay = case['lay']
    wave = waves(lay)
    n = len(case['ids'])
    dt = case['dtype']
    flux, ivar, mask, reso = {}, {}, {}, {}
    for k, (nm, off, npix) in enumerate(lay['arms']):
        sig = case['amp'] / case['snr'] * rng.uniform(0.5, 2., (n, npix))
        f = case['amp'] * (1 + 0.3 * rng.normal(size=(n, npix))) \
            + sig * rng.normal(size=(n, npix))
        i = 1 / sig**2
        m = np.zeros((n, npix), dtype='u4')
        for a in range(n):
            bad = np.nonzero(rng.random(npix) < case['pbad'])[0]
            if case['dead'][a] == nm:
                bad = np.arange(npix)
            kk = rng.integers(0, len(case['kinds']), size=bad.size)
            for b, q in zip(bad, kk):
                kind = case['kinds'][q]
                if kind in ('mask', 'combo'):
                    m[a, b] = 1 << int(rng.integers(0, 8))
                if kind == 'bigmask':
                    m[a, b] = 2**31
                if kind in ('nanf', 'combo'):
                    f[a, b] = np.nan
                if kind == 'nani':
                    i[a, b] = np.nan
                if kind in ('neg', 'combo'):
                    i[a, b] = -i[a, b]
                if kind == 'zero':
                    i[a, b] = 0.0
                if kind == 'zflux':     # a valid pixel without flux
                    f[a, b] = 0.0
        flux[nm], ivar[nm], mask[nm] = f.astype(dt), i.astype(dt), m
        nd = case['ndia'][k]
        x = np.arange(nd) - nd // 2
        if case['reso'] == 'shared':
            s = rng.uniform(0.8, 1.6, size=npix)
            r = np.exp(-x[:, None]**2 / 2 / s[None, :]**2)
            reso[nm] = (r / r.sum(0)).astype(dt)
        elif case['reso'] == 'per':
            s = rng.uniform(0.8, 1.6, size=(n, npix))
            r = np.exp(-x[None, :, None]**2 / 2 / s[:, None, :]**2)
            reso[nm] = (r / r.sum(1)[:, None, :]).astype(dt)
    return catalog(case, rng), dict(wave=wave, flux=flux, ivar=ivar,
                                    mask=mask, reso=reso)


def catalog(case, rng):
    n = len(case['ids'])
    cat = np.zeros(n, dtype=[
        ('TARGETID', 'i8'), ('Z', 'f8'), ('RA', 'f8'), ('DEC', 'f8'),
        ('HPXPIXEL', 'i8'), ('SURVEY', 'U8'), ('LASTNIGHT', 'i8'),
        ('VMIN_CIV_450', 'f8', 3), ('VMAX_CIV_450', 'f8', 3),
        ('VMIN_CIV_2000', 'f8', 2), ('VMAX_CIV_2000', 'f8', 2)])
    cat['TARGETID'] = case['ids']
    cat['Z'] = case['z']
    cat['RA'] = rng.uniform(0, 360, n)
    cat['DEC'] = rng.uniform(-89, 89, n)
    cat['HPXPIXEL'] = rng.integers(0, 4000, n)
    cat['SURVEY'] = 'main'
    cat['LASTNIGHT'] = 20210601
    for c in BALCOLS:
        cat[c] = -1
    return cat


BALCOLS = ['VMIN_CIV_450', 'VMAX_CIV_450', 'VMIN_CIV_2000', 'VMAX_CIV_2000']


def clean(data, arm, idx):
    """The naive model of ingestion: (flux, ivar) of one row."""
    f = np.array(data['flux'][arm][idx])
    i = np.array(data['ivar'][arm][idx])
    m = data['mask'][arm][idx]
    for k in range(f.size):
        if m[k] != 0 or np.isnan(f[k]) or np.isnan(i[k]) or i[k] < 0:
            f[k] = 0
            i[k] = 0
    return f, i


def get_reso(data, arm, idx):
    r = data['reso'].get(arm)
    if r is None:
        return None
    return r if r.ndim == 2 else r[idx]


@st.composite
def windows(draw, lay, z):
    """Forest window (w1, w2, lya1, lya2) in an interesting place."""
    lo = lay['w0'] + lay['dw'] * min(a[1] for a in lay['arms'])
    hi = lay['w0'] + lay['dw'] * max(a[1] + a[2] for a in lay['arms'])
    span = hi - lo

    def edge(a, b):
        kind = draw(st.sampled_from(['grid', 'any']))
        x = lo + span * draw(st.integers(a, b)) / 16.0
        if kind == 'grid':
            x = lo + lay['dw'] * round((x - lo) / lay['dw'])
        return x
    w1 = draw(st.sampled_from([lo - 50., edge(-1, 7), edge(0, 3)]))
    w2 = draw(st.sampled_from([hi + 50., edge(8, 17), edge(12, 16)]))
    l1 = draw(st.sampled_from([edge(-2, 7), edge(0, 4)])) / (1 + z)
    l2 = draw(st.sampled_from([edge(9, 18), edge(12, 16)])) / (1 + z)
    return [w1, w2, l1, l2]


def prod_exact(a, b, p):
    """True when the float p is exactly a*b."""
    return Fraction(a) * Fraction(b) == Fraction(p)


def band(wave, lo, hi, lo_exact=True, hi_exact=True):
    """(must, may) masks of lo <= wave < hi.

    Pixels equal to an edge are decided strictly when the edge is exact;
    pixels within rounding of an edge may go either way."""
    eps = 1e-11 * np.abs(wave)
    must = (wave >= lo + eps) & (wave < hi - eps)
    may = (wave >= lo - eps) & (wave < hi + eps)
    if lo_exact:
        eq = (wave == lo) & (wave < hi - eps)
        must |= eq
        may &= ~((wave < lo))
    if hi_exact:
        may &= wave < hi
    return must, may


def forest_band(wave, z, win):
    """must/may masks for the forest window and validity of exact edges."""
    w1, w2, a1, a2 = win
    b1, b2 = (1 + z) * a1, (1 + z) * a2
    lo, hi = max(w1, b1), min(w2, b2)
    return band(wave, lo, hi,
                lo == w1 and w1 != b1 or prod_exact(1 + z, a1, b1),
                hi == w2 and w2 != b2 or prod_exact(1 + z, a2, b2))


FOREST = ['forestwave', 'forestflux', 'forestivar', 'forestivar_sm',
          'forestweight', 'forestreso']


def snapshot(spec):
    """Deep copy of everything observable in a spectrum."""
    out = {}
    for k in FOREST + ['wave', 'flux', 'ivar', 'reso']:
        out[k] = {a: np.array(v) for a, v in getattr(spec, k).items()}
    out['cont'] = {a: np.array(v)
                   for a, v in spec.cont_params['cont'].items()}
    for k in ('valid', 'chi2', 'dof', 'x', 'xcov', 'method'):
        out['p_' + k] = np.array(spec.cont_params[k])
    out['rsnr'] = spec.rsnr
    out['mean_snr'] = dict(spec.mean_snr or {})
    return out


def same_snapshot(a, b):
    """None when equal, else the name of the differing item."""
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, dict):
            if list(x) != list(y):
                return f"{k} arms {list(x)} -> {list(y)}"
            for arm in x:
                if not np.array_equal(np.asarray(x[arm]),
                                      np.asarray(y[arm]), equal_nan=True):
                    return f"{k}[{arm}]"
        else:
            try:
                eq = np.array_equal(np.asarray(x), np.asarray(y),
                                    equal_nan=True)
            except TypeError:
                eq = np.array_equal(np.asarray(x), np.asarray(y))
            if not eq:
                return k
    return None
