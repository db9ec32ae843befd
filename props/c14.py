"""C14 smoothed inverse variance, weights and chi2."""
import numpy as np
from hypothesis import strategies as st

from qsonic.mathtools import get_median_outlier_mask, get_smooth_ivar
from qsonic.spectrum import Spectrum
from vlib import specgen as sg
from vlib.engine import Known, Skip, Sub
from vlib.util import check, close, quiet, rng_of, same


def kernel_smooth(x, s):
    """Direct-space Gaussian convolution with spread s, edges repeated."""
    pad = int(np.ceil(10 * s)) + 40
    p = np.concatenate([np.full(pad, x[0]), x, np.full(pad, x[-1])])
    m = p.size
    # band-limited Gaussian kernel on the integer grid
    k = np.fft.rfftfreq(m)
    g = np.fft.irfft(np.exp(-(2 * np.pi * k * s)**2 / 2), n=m)
    return np.array([np.dot(g[(np.arange(m) - (pad + i)) % m], p)
                     for i in range(x.size)])


def expect(ivar, sigma, s):
    """Smoothed ivar for an effective spread s; None if undecidable."""
    iv = np.asarray(ivar, dtype='f8')
    v = iv > 0
    e = np.zeros(iv.size)
    e[v] = 1 / np.sqrt(iv[v])
    med = np.median(e[v])
    e[~v] = med
    thr = 3.5 * 1.4826 * np.median(np.abs(e[v] - med))
    d = e - med
    if np.any(np.abs(d - thr) < 1e-5 * med * (thr > 1e-5 * med)):
        return None, None
    out = (d > thr) & (d > 1e-6 * med)
    e2 = np.where(out, med, e)
    sm = kernel_smooth(e2, s)
    res = 1 / np.where(out, e, sm)**2
    res[~v] = 0
    return res, out


def compare(got, ivar, sigma, what, rtol):
    """Compares with smoothing of the requested spread. Returns True when it
    only agrees with the listed known finding (spread / 2 pi)."""
    ivar = np.asarray(ivar)
    v = ivar > 0
    check(np.asarray(got).shape == ivar.shape, "%s shape", what)
    check(np.all(np.asarray(got)[~v] == 0), "%s: masked pixel got weight",
          what)
    g = np.asarray(got)[v]
    check(np.all(np.isfinite(g)) and np.all(g > 0),
          "%s: valid pixel is %s", what, g[~(np.isfinite(g) & (g > 0))][:1])
    if not v.any():
        return False
    want, out = expect(ivar, sigma, sigma)
    if want is None:
        raise Skip()
    close(np.asarray(got)[out], ivar[out], what + ": restored outliers",
          rtol=max(1e-9, rtol))
    # noise is smooth or not; spread of errors sets the scale of padding
    if np.all(np.abs(np.asarray(got) - want)
              <= max(rtol, 1e-2) * np.abs(want)):
        return False
    # the implementation pads by 3 sigma, i.e. 19 effective spreads
    want, out = expect(ivar, sigma, sigma / (2 * np.pi))
    close(got, want, what, rtol=max(rtol, 1e-3))
    return True


@st.composite
def iv_cases(draw):
    return dict(n=draw(st.integers(2, 120)), seed=draw(st.integers(0, 99999)),
                sigma=draw(st.sampled_from([8.0, 10.5, 20.0, 30.0])),
                kind=draw(st.sampled_from(['const', 'slope', 'rand', 'edge',
                                           'outl', 'steep', 'calm'])),
                pbad=draw(st.sampled_from([0.0, 0.1, 0.6, 1.0])),
                amp=draw(st.sampled_from([1.0, 1e-4, 1e5])),
                dtype=draw(st.sampled_from(['f8', 'f4'])))


def make_ivar(case):
    rng = rng_of(case['seed'])
    n = case['n']
    t = np.linspace(0, 1, n)
    k = case['kind']
    if k == 'const':
        e = np.ones(n) * 1.37
    elif k == 'slope':
        e = 1 + t
    elif k == 'rand':
        e = 1 + 0.2 * rng.uniform(-1, 1, n)
    elif k == 'edge':
        e = 1 + 2 * np.exp(-t * 10) + 0.05 * rng.uniform(-1, 1, n)
    elif k == 'outl':
        e = 1 + 0.05 * rng.uniform(-1, 1, n)
        e[rng.random(n) < 0.1] *= 20
    elif k == 'calm':
        # outliers that are small but far beyond the scatter
        e = 1 + 0.002 * rng.uniform(-1, 1, n)
        e[rng.random(n) < 0.1] *= 1 + rng.uniform(0.02, 0.06)
    else:
        e = np.where(t < 0.5, 1.0, 1.5) + 0.1 * rng.uniform(-1, 1, n)
    iv = case['amp'] / e**2
    iv[rng.random(n) < case['pbad']] = 0
    return iv.astype(case['dtype'])


def run_iv(case, tmp):
    iv = make_ivar(case)
    orig = iv.copy()
    rtol = 1e-6 if case['dtype'] == 'f8' else 1e-4
    with quiet():
        got = get_smooth_ivar(iv, case['sigma'])
        same(iv, orig, "input ivar")
        known = compare(got, iv, case['sigma'], "smoothed ivar", rtol)
        if case['kind'] == 'const':
            close(got, iv, "smoothed constant noise", rtol=max(rtol, 1e-8))
        g4 = get_smooth_ivar(iv * iv.dtype.type(4), case['sigma'])
        close(g4, 4 * np.asarray(got, dtype='f8'), "scaling", rtol=rtol)
    info = dict(nontrivial=bool((iv > 0).sum() > 3), tags=[case['kind']])
    if known:
        raise Known("smoothing-2pi", info)
    return info


# ---- histories on a spectrum ------------------------------------------------
OPS = ['weight', 'cont', 'smooth', 'unsmooth', 'invalid', 'weight0', 'chi2',
       'region', 'cont', 'weight', 'chi2', 'mask']


@st.composite
def hist_cases(draw):
    ops = draw(st.lists(st.sampled_from(OPS), min_size=2, max_size=8))
    return dict(sp=draw(sg.spectra(max_spec=2, max_pix=50)),
                pre=draw(st.booleans()),
                coadd=draw(st.sampled_from([False, True])),
                ops=[[o, draw(st.integers(0, 3))] for o in ops])


def run_hist(case, tmp):
    sp = case['sp']
    cat, data = sg.build(sp)
    dw = sp['lay']['dw']
    rtol = 1e-6 if sp['dtype'] == 'f8' else 1e-4
    with quiet():
        specs = [Spectrum.from_dictionary(cat[i], data, i)
                 for i in range(cat.size)]
        for s in specs:
            s.set_forest_region(0., 1e5, 100., 1e4)
        s = specs[0]
        if not s.forestwave:
            return False
        other = sg.snapshot(specs[-1]) if len(specs) > 1 else None
        scale, weight, chi2 = 0, None, None   # model state
        known, did, interesting = False, set(), False
        base = first = sg.snapshot(s)
        for op, k in ([['cont', 1]] if case['pre'] else []) + case['ops']:
            prev = sg.snapshot(s)
            vl = [0.0, 0.02, 0.3, 2.0][k]
            et = [1.0, 1.0, 0.7, 1.4][k]

            def fv(w):
                return vl * (w / 3800.)**2

            def fe(w):
                return et + 1e-5 * (w - 3600.)
            if op == 'smooth':
                scale = [8.0, 12.0, 16.0, 20.0][k]
                s.set_smooth_forestivar(scale)
            elif op == 'unsmooth':
                s.set_smooth_forestivar([0, -1.0, 0.0, -16][k])
                scale = 0
            elif op == 'cont':
                s.cont_params['valid'] = True
                s.cont_params['cont'] = {
                    a: sp['amp'] * (1.2 + 0.1 * k + 0.3 * np.sin(w / 41.))
                    for a, w in s.forestwave.items()}
            elif op == 'invalid':
                if k % 2:
                    s.cont_params['valid'] = False
                else:
                    s.cont_params['cont'] = {}
            elif op in ('weight', 'weight0'):
                if op == 'weight':
                    s.set_forest_weight(fv, fe)
                else:
                    s.set_forest_weight()
                now = sg.snapshot(s)
                ok = now['p_valid'] and now['cont']
                for a, w in now['forestwave'].items():
                    i = now['forestivar_sm'][a].astype('f8')
                    if ok:
                        v, e = (fv(w), fe(w)) if op == 'weight' else (0., 1.)
                        want = i / (e + i * v * now['cont'][a]**2)
                    else:
                        want = i
                    close(now['forestweight'][a], want, "weight", rtol=rtol)
                    same(now['forestweight'][a] > 0,
                         now['forestivar'][a] > 0, "weighted pixels")
                interesting |= bool(ok)
            elif op == 'chi2':
                got = s.calc_continuum_chi2()
                now = sg.snapshot(s)
                if now['p_valid'] and now['cont']:
                    want = 0.0
                    for a in now['forestwave']:
                        for q, f, c in zip(now['forestweight'][a],
                                           now['forestflux'][a],
                                           now['cont'][a]):
                            want += float(q) * (float(f) - c)**2
                    close(got, want, "chi2", rtol=max(rtol, 1e-8))
                    close(now['p_chi2'], want, "stored chi2",
                          rtol=max(rtol, 1e-8))
                else:
                    check(got == -1 and now['p_chi2'] == -1,
                          "chi2 %s without a continuum", got)
            elif op == 'mask':
                # more pixels are masked, then the same smoothing again
                for a in s.forestwave:
                    w = slice(2 * k, 2 * k + 3)
                    s.forestflux[a][w] = 0
                    s.forestivar[a][w] = 0
                base = sg.snapshot(s)
                s.set_smooth_forestivar(scale)
            elif op == 'region':
                base = first
                s.set_forest_region(0., 1e5, 100., 1e4)
                scale = 0
            now = sg.snapshot(s)
            for q in ('forestivar', 'forestflux', 'forestwave'):
                for a in base[q]:
                    check(a in now[q], "%s lost arm %s by %s", q, a, op)
                    same(now[q][a], base[q][a], f"{q} after {op}")
            if op in ('smooth', 'unsmooth', 'region', 'mask'):
                for a, iv in now['forestivar'].items():
                    if scale == 0:
                        same(now['forestivar_sm'][a], iv, "undone smoothing")
                    else:
                        known |= compare(now['forestivar_sm'][a], iv,
                                         scale / dw, "forestivar_sm", rtol)
                    same(now['forestweight'][a], now['forestivar_sm'][a],
                         "weight after " + op)
            else:
                for a, iv in prev['forestivar_sm'].items():
                    same(now['forestivar_sm'][a], iv, "ivar_sm after " + op)
        now = sg.snapshot(s)
        asked = [o for o, _ in case['ops'] if 'smooth' in o or o == 'region']
        if case['coadd'] and asked[-1:] != ['region'] and \
                now['p_valid'] and \
                now['cont'] and set(now['cont']) == set(now['forestwave']):
            # the smoothing last asked for is the one of the coadded arms
            s.coadd_arms_forest(lambda w: 0.1 + 0 * w)
            now = sg.snapshot(s)
            for a, iv in now['forestivar'].items():
                if scale == 0:
                    close(now['forestivar_sm'][a], iv, "smoothed ivar of the "
                          "coadd without smoothing", rtol=1e-12)
                else:
                    known |= compare(now['forestivar_sm'][a], iv, scale / dw,
                                     "forestivar_sm of the coadd", rtol)
                check(np.all((now['forestivar_sm'][a] > 0) == (iv > 0)),
                      "pixels of the smoothed coadd")
        if other is not None:
            d = sg.same_snapshot(other, sg.snapshot(specs[-1]))
            check(d is None, "other spectrum changed: %s", d)
    info = dict(nontrivial=interesting)
    if known:
        raise Known("smoothing-2pi", info)
    return info


# ------------------------------------------------- running-median outliers
@st.composite
def out_cases(draw):
    return dict(n=draw(st.integers(1, 60)), seed=draw(st.integers(0, 99999)),
                pbad=draw(st.sampled_from([0.0, 0.2, 0.7])),
                err=draw(st.sampled_from([1.0, 1.0, 3.0, 0.1])),
                peak=draw(st.sampled_from([0, 1, 3])),
                es=draw(st.sampled_from([None, 3.5, 2.0, 6.0])),
                nw=draw(st.sampled_from([None, 11, 5, 3])))


def running_median(x, n):
    h, m = n // 2, x.size
    k = np.arange(-h, m + h) % (2 * m)
    k = np.where(k >= m, 2 * m - 1 - k, k)      # edges are reflected
    y = x[k]
    return np.array([np.sort(y[i:i + n])[h] for i in range(m)])


def run_out(case, tmp):
    rng = rng_of(case['seed'])
    n = case['n']
    e = case['err'] * rng.uniform(1, 2, n)
    flux = np.cumsum(rng.normal(size=n)) + e * rng.normal(size=n)
    for k in rng.integers(0, n, case['peak']):
        flux[k] += rng.choice([-1, 1]) * rng.uniform(2, 30) * e[k]
    bad = rng.random(n) < case['pbad']
    ivar = np.where(bad, 0., 1 / e**2)
    flux[bad] = 1e6
    f0, i0 = flux.copy(), ivar.copy()
    kw = {}
    if case['es'] is not None:
        kw['esigma'] = case['es']
    if case['nw'] is not None:
        kw['nwindow'] = case['nw']
    got = get_median_outlier_mask(flux, ivar, **kw)
    same(flux, f0, "flux")
    same(ivar, i0, "ivar")
    check(got.shape == (n,) and got.dtype == bool, "mask %s %s", got.dtype,
          got.shape)
    check(np.all(got[bad]), "bad pixels are not masked")
    if bad.all():
        return False
    nw, es = case['nw'] or 11, case['es'] or 3.5
    g = ~bad
    d = np.abs(flux[g] - running_median(flux[g], nw))
    t = es * np.maximum(1.4826 * running_median(d, nw), e[g])
    far = np.abs(d - t) > 1e-6 * t
    # errors below one: only the stated threshold is a lower limit
    check(not np.any(got[g] & far & (d < t)), "pixel masked at %s of its "
          "threshold", (d / t)[got[g] & (d < t)][:1])
    if case['err'] >= 1:
        check(not np.any(~got[g] & far & (d > t)), "pixel kept at %s times "
              "its threshold", (d / t)[~got[g] & (d > t)][:1])
    return bool(np.any(got[g]))


SUBS = [
    Sub("outlier", out_cases, run_out, quick=400, thorough=20000,
        rule="at least one valid pixel is masked"),
    Sub("ivar", iv_cases, run_iv, quick=500, thorough=20000, shards=3,
        rule="more than three valid pixels"),
    Sub("history", hist_cases, run_hist, quick=700, thorough=20000, shards=5,
        rule="weights set with a valid continuum"),
]
