"""C09 noise and flux calibration."""
import fitsio
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

from qsonic import QsonicException
from qsonic.calibration import FluxCalibrator, NoiseCalibrator
from qsonic.spectrum import Spectrum
from vlib import specgen as sg
from vlib.engine import Sub
from vlib.util import check, close, must_raise, quiet, rng_of, same


@st.composite
def cases(draw):
    sp = draw(sg.spectra(max_spec=3))
    lay = sp['lay']
    span = lay['dw'] * max(a[1] + a[2] for a in lay['arms'])
    n = draw(st.sampled_from([2, 3, 4, 5, 8, 25, 40]))
    cover = draw(st.sampled_from(['full', 'full', 'inner', 'wide']))
    lo = dict(full=0., inner=0.3, wide=-1.)[cover] * span + lay['w0']
    hi = dict(full=1., inner=0.6, wide=2.)[cover] * span + lay['w0']
    size = draw(st.integers(6, 40))
    return dict(
        win=draw(st.sampled_from([None, [
            [draw(st.integers(0, 20)), size] for _ in sp['ids']]])),
        sp=sp, n=n, lo=lo, step=(hi - lo) / (n - 1),
        zeros=draw(st.lists(st.integers(0, n - 1), max_size=2)),
        small=draw(st.lists(st.integers(0, n - 1), max_size=1)),
        smooth=draw(st.sampled_from([0, 0, 3.5])),
        smallv=draw(st.sampled_from([0.05, 0.2, 1e-3, 5., -0.6])),
        tseed=draw(st.integers(0, 9999)),
        cont=[draw(st.booleans()) for _ in sp['ids']],
        allcont=draw(st.sampled_from([True, True, False])),
        lamdt=draw(st.sampled_from(['f8', 'f8', 'f4'])),
        coldt=draw(st.sampled_from(['f8', 'f4'])),
        uneven=draw(st.sampled_from([0, 0, 0, 0, 1])),
        upos=draw(st.integers(1, 39)),
        ub=draw(st.sampled_from([1e-2, 0.3])),
        neg=draw(st.booleans()),
        flags=[draw(st.booleans()) for _ in range(2)])


def table(case, names, rngs):
    rng = rng_of(case['tseed'])
    if case['lamdt'] == 'f4':   # exactly representable wavelengths
        case['lo'] = float(round(case['lo']))
        case['step'] = max(0.25, round(case['step'] * 4) / 4)
    lam = (case['lo'] + case['step'] * np.arange(case['n'])).astype(
        case['lamdt'])
    if case['uneven'] and case['n'] > 2:
        pos = 1 + (case['upos'] - 1) % (case['n'] - 1)
        lam[pos] += case['ub'] * case['step']
    out = {'lambda': lam}
    for nm, (a, b) in zip(names, rngs):
        out[nm] = rng.uniform(a, b, case['n']).astype(case['coldt'])
    return out


def write(path, cols, ext):
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write(list(cols.values()), names=list(cols), extname=ext)


def spline(lam, y):
    x = lam.astype('f8')
    x0, dx = x[0], x[1] - x[0]
    xs = x0 + dx * np.arange(x.size)
    y = y.astype('f8')
    if x.size == 2:
        return lambda w: y[0] + (w - x0) / dx * (y[1] - y[0])
    return CubicSpline(xs, y, bc_type='not-a-knot')


def linear(lam, y):
    x = lam.astype('f8')
    x0, dx = x[0], x[1] - x[0]
    y = y.astype('f8')

    def f(w):
        i = np.clip(np.floor((w - x0) / dx), 0, y.size - 2).astype(int)
        t = (w - x0) / dx - i
        return y[i] * (1 - t) + y[i + 1] * t
    return f


def setup(case):
    sp = case['sp']
    cat, data = sg.build(sp)
    specs = [Spectrum.from_dictionary(cat[i], data, i)
             for i in range(cat.size)]
    rng = rng_of(case['tseed'] + 7)
    out = []
    for i, s in enumerate(specs):
        sg.set_window(s, sp['lay'], case['win'] and case['win'][i])
        if not s.forestwave:
            continue
        if case['allcont'] or case['cont'][i]:
            s.cont_params['valid'] = True
            s.cont_params['cont'] = {
                a: rng.uniform(0.5, 2., w.size) * sp['amp']
                for a, w in s.forestwave.items()}
        if case['smooth']:
            s.set_smooth_forestivar(case['smooth'])
        out.append(s)
    return out


def others_same(b, a, names, what):
    for k in names:
        d = sg.same_snapshot({k: b[k]}, {k: a[k]})
        check(d is None, "%s changed %s", what, d)


def rt(case):
    return 1e-8 if case['sp']['dtype'] == 'f8' else 2e-5


def run_noise(case, tmp):
    t = table(case, ['var_lss', 'eta'], [(0.02, 0.3), (0.6, 1.6)])
    for k in case['small']:
        t['eta'][k] = case['smallv']
    for k in case['zeros']:
        t['eta'][k] = 0
    if case['neg'] and case['n'] >= 4:
        t['var_lss'][0] = -3.0
    write(tmp + "/n.fits", t, "VAR_FUNC")
    add, noeta = case['flags']
    uneven = case['uneven'] and case['n'] > 2
    with quiet():
        specs = setup(case)
        if uneven:
            must_raise(lambda: NoiseCalibrator(tmp + "/n.fits"),
                       "unequally spaced noise calibration",
                       QsonicException)
            return True
        cal = NoiseCalibrator(tmp + "/n.fits", add_varlss=add, no_eta=noeta)
        before = [sg.snapshot(s) for s in specs]
        eta = t['eta'].copy()
        eta[eta == 0] = 1
        fe, fv = spline(t['lambda'], eta), spline(t['lambda'], t['var_lss'])
        if add and any(not s.cont_params['cont'] for s in specs):
            must_raise(lambda: cal.apply(specs), "additive calibration of a "
                       "spectrum without continuum")
            for b, s in zip(before, specs):
                d = sg.same_snapshot(b, sg.snapshot(s))
                check(d is None, "refused calibration changed %s", d)
            return True
        cal.apply(specs)
    for b, s in zip(before, specs):
        a = sg.snapshot(s)
        others_same(b, a, ['forestwave', 'forestflux', 'forestreso', 'flux',
                           'ivar', 'reso', 'cont', 'rsnr', 'mean_snr'],
                    "noise calibration")
        for arm, w in b['forestwave'].items():
            i0 = b['forestivar'][arm].astype('f8')
            e = np.ones(w.size) if noeta else fe(w)
            den = e
            if add:
                den = e + i0 * fv(w) * b['cont'][arm]**2
            ok = np.abs(den) > 1e-3 * (np.abs(e) + 1)
            want = np.zeros(w.size)
            want[ok] = i0[ok] / den[ok]
            if add:
                want[want < 0] = 0
            close(a['forestivar'][arm][ok], want[ok],
                  f"calibrated ivar {arm}", rtol=max(rt(case), 1e-6 if add
                                                     else 0))
            if add:
                check(np.all(a['forestivar'][arm] >= 0), "negative ivar")
    return dict(nontrivial=bool(specs), tags=["add%d eta%d" % (
        add, not noeta)])


def run_flux(case, tmp):
    t = table(case, ['stacked_flux'], [(0.7, 1.4)])
    for k in case['small']:
        t['stacked_flux'][k] = case['smallv']
    for k in case['zeros']:
        t['stacked_flux'][k] = 0
    write(tmp + "/f.fits", t, "STACKED_FLUX")
    with quiet():
        specs = setup(case)
        if case['uneven'] and case['n'] > 2:
            must_raise(lambda: FluxCalibrator(tmp + "/f.fits"),
                       "unequally spaced flux calibration", QsonicException)
            return True
        cal = FluxCalibrator(tmp + "/f.fits")
        before = [sg.snapshot(s) for s in specs]
        cal.apply(specs)
    y = t['stacked_flux'].astype('f8')
    y[y == 0] = 1
    fs = linear(t['lambda'], y)
    for b, s in zip(before, specs):
        a = sg.snapshot(s)
        others_same(b, a, ['forestwave', 'forestreso', 'flux', 'ivar',
                           'reso', 'cont', 'rsnr', 'mean_snr'],
                    "flux calibration")
        for arm, w in b['forestwave'].items():
            f0 = b['forestflux'][arm].astype('f8')
            i0 = b['forestivar'][arm].astype('f8')
            v = fs(w)
            ok = np.abs(v) > 1e-2
            close(a['forestflux'][arm][ok], f0[ok] / v[ok],
                  f"calibrated flux {arm}", rtol=rt(case) * 10)
            close(a['forestivar'][arm][ok], i0[ok] * v[ok]**2,
                  f"calibrated ivar {arm}", rtol=rt(case) * 10)
            same(a['forestivar'][arm] > 0, b['forestivar'][arm] > 0,
                 "masked pixels") if ok.all() else None
            pos = ok & (v > 0)
            close((a['forestflux'][arm] * np.sqrt(
                a['forestivar'][arm]))[pos],
                (f0 * np.sqrt(i0))[pos], "S/N", rtol=rt(case) * 10,
                atol=1e-12)
    return bool(specs)


SUBS = [
    Sub("noise", cases, run_noise, quick=600, thorough=20000, shards=4,
        rule="at least one forest was calibrated or refused"),
    Sub("flux", cases, run_flux, quick=400, thorough=15000, shards=4,
        rule="at least one forest was calibrated or refused"),
]
