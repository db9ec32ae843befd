"""C06 forest window, SNR, length cuts, slicing."""
import numpy as np
from hypothesis import strategies as st

from qsonic.spectrum import Spectrum
from vlib import specgen as sg
from vlib.engine import Sub
from vlib.util import check, close, quiet, same


@st.composite
def cases(draw):
    sp = draw(sg.spectra(max_spec=1))
    nwin = draw(st.integers(1, 3))
    return dict(sp=sp, wins=[draw(sg.windows(sp['lay'], sp['z'][0]))
                             for _ in range(nwin)],
                prep=draw(st.lists(st.sampled_from(
                    ['smooth', 'weight', 'cont']), max_size=2)),
                skip=draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 1.0])),
                tune=draw(st.sampled_from([None, None, 0, 1, -1])),
                dforest=draw(st.sampled_from([1.0, 5.0, 12.5, 30.0])),
                ldrop=draw(st.sampled_from([[1040., 1200.], [1050., 1052.],
                                            [0., 0.], [1040., 1048.]])))


def verify_region(s, data, z, win):
    """Compares the forest with the definition; returns the arms expected."""
    exp_arms = []
    for arm, w in data['wave'].items():
        f, iv = sg.clean(data, arm, 0)
        must, may = sg.forest_band(w, z, win)
        if arm in s.forestwave:
            fw = s.forestwave[arm]
            check(fw.size > 0, "empty forest in arm %s", arm)
            i1 = int(np.searchsorted(w, fw[0]))
            sel = np.zeros(w.size, bool)
            sel[i1:i1 + fw.size] = True
            same(fw, w[sel][:fw.size] if sel.sum() == fw.size else fw[:0],
                 f"forest wavelengths of arm {arm}")
            check(np.all(sel[must]) and not np.any(sel & ~may),
                  "arm %s: forest %g..%g (%d pix) does not match window %s "
                  "at z=%g (%d..%d pixels)", arm, fw[0], fw[-1], fw.size,
                  win, z, must.sum(), may.sum())
            check(np.any(iv[sel] > 0), "arm %s kept without a valid pixel",
                  arm)
            same(s.forestflux[arm], f[sel], f"forest flux {arm}")
            same(s.forestivar[arm], iv[sel], f"forest ivar {arm}")
            same(s.forestivar_sm[arm], iv[sel], f"smoothed ivar {arm}")
            same(s.forestweight[arm], iv[sel], f"weight {arm}")
            r = sg.get_reso(data, arm, 0)
            if r is not None:
                same(s.forestreso[arm], r[:, sel], f"forest reso {arm}")
            exp_arms.append(arm)
        else:
            check(not np.any(iv[must] > 0),
                  "arm %s absent although it has %d valid forest pixels",
                  arm, int((iv[must] > 0).sum()))
    for k in sg.FOREST:
        if k == 'forestreso' and not data['reso']:
            check(not s.forestreso, "forest resolution from nowhere")
            continue
        check(set(getattr(s, k)) == set(exp_arms), "%s has arms %s, "
              "expected %s", k, set(getattr(s, k)), exp_arms)
    return exp_arms


def verify_snr(s, data):
    snrs = []
    check(set(s.mean_snr) >= set(s.forestwave), "mean SNR missing for arms")
    for arm in s.forestwave:
        iv = s.forestivar[arm].astype('f8')
        f = s.forestflux[arm].astype('f8')
        w = iv > 0
        v = float(np.mean(f[w] * np.sqrt(iv[w])))
        close(s.mean_snr[arm], v, f"mean SNR of arm {arm}", rtol=2e-5,
              atol=1e-5)
        snrs.append(v)
    den = sum(v**2 for v in snrs)
    if den > 1e-2:
        close(s.get_effective_meansnr(), sum(v**3 for v in snrs) / den,
              "effective SNR", rtol=1e-4, atol=1e-4)
    check(int(s.get_real_size()) == sum(
        int((s.forestivar[a] > 0).sum()) for a in s.forestwave),
        "real size %d", s.get_real_size())


def prepare(s, op):
    if op == 'smooth':
        s.set_smooth_forestivar(2.5)
    elif op == 'weight':
        s.set_forest_weight(lambda x: 0.1 + 0 * x)
    else:
        s.cont_params['valid'] = True
        s.cont_params['cont'] = {a: 1. + 0 * w
                                 for a, w in s.forestwave.items()}


def run(case, tmp):
    sp = case['sp']
    cat, data = sg.build(sp)
    z = sp['z'][0]
    with quiet():
        s = Spectrum.from_dictionary(cat[0], data, 0)
        for win in case['wins']:
            if s.forestwave:    # what was derived from the last window
                s.cont_params['cont'] = {}
                for op in case['prep']:
                    prepare(s, op)
            s.set_forest_region(*win)
            arms = verify_region(s, data, z, win)
            verify_snr(s, data)
    dw = s.dwave
    npix = s.get_real_size()
    dforest, (l1, l2) = case['dforest'], case['ldrop']
    # thresholds that are whole numbers, without any rounding
    exact = (case['tune'] is not None and dw in (0.5, 1.0)
             and z in (2.0, 3.0, 2.5) and case['skip'] in (0.5, 1.0)
             and bool(arms))
    if exact:
        step = dw / case['skip']
        dforest = (npix + case['tune']) * step / 4
        a = arms[sp['seed'] % len(arms)]
        l2 = l1 + (int((s.forestivar[a] > 0).sum())
                   + case['tune']) * step / 4
        z = 3.0
        s.catrow['Z'] = z
    lim = case['skip'] * (1 + z) * dforest / dw
    if exact or abs(npix - lim) > 1e-6 * (1 + lim):
        check(bool(s.is_long(dforest, case['skip'])) == (npix > lim),
              "is_long is %s for %d pixels, limit %g",
              s.is_long(dforest, case['skip']), npix, lim)
    elif lim == 0:
        check(not s.is_long(dforest, case['skip']),
              "a spectrum with no valid pixel is long enough")
    # short arms
    x = case['skip'] * (1 + z) * (l2 - l1) / dw
    if abs(x - round(x)) < 1e-9 and x != 0 and not exact:
        return bool(arms)
    need = int(x) + 1
    s.cont_params['cont'] = {a: 1.0 + 0 * w for a, w in s.forestwave.items()}
    if s.forestwave:
        with quiet():
            for op in case['prep']:
                prepare(s, op)
            if sp['seed'] % 2:
                s.cont_params['valid'] = True
                prepare(s, 'weight')
    snap = sg.snapshot(s)
    s.drop_short_arms(l1, l2, case['skip'])
    left = [a for a in arms if (snap['forestivar'][a] > 0).sum() >= need]
    for k in sg.FOREST:
        got = getattr(s, k)
        if k == 'forestreso' and not data['reso']:
            continue
        check(set(got) == set(left), "%s keeps arms %s after dropping arms "
              "with fewer than %d pixels, expected %s", k, set(got), need,
              left)
        for a in left:
            same(got[a], snap[k][a], f"{k} {a} after dropping others")
    check(set(s.cont_params['cont']) == set(left), "continuum arms %s",
          set(s.cont_params['cont']))
    return dict(nontrivial=bool(arms),
                tags=["narms%d" % len(arms), "rewin%d" % len(case['wins'])])


@st.composite
def slice_cases(draw):
    sp = draw(sg.spectra(max_spec=1, minsize=14))
    return dict(sp=sp, prep=draw(st.sampled_from(
        ['none', 'smooth', 'weight', 'smoothweight', 'unsmooth'])),
        cont=draw(st.booleans()),
        cuts=[draw(st.tuples(st.integers(0, 2), st.integers(0, 5),
                             st.integers(0, 5)).map(list))
              for _ in range(draw(st.integers(1, 3)))])


def run_slice(case, tmp):
    sp = case['sp']
    cat, data = sg.build(sp)
    with quiet():
        s = Spectrum.from_dictionary(cat[0], data, 0)
        s.set_forest_region(0., 1e5, 100., 1e4)
        if not s.forestwave:
            return False
        rng = np.random.default_rng(sp['seed'])
        if case['cont']:
            s.cont_params['valid'] = True
            s.cont_params['cont'] = {a: rng.uniform(1, 2, w.size)
                                     for a, w in s.forestwave.items()}
        if 'smooth' in case['prep']:
            s.set_smooth_forestivar(2.5)
        if case['prep'] == 'unsmooth':
            s.set_smooth_forestivar(0)
        if 'weight' in case['prep']:
            s.set_forest_weight(lambda x: 0.1 + 0 * x)
        snap = sg.snapshot(s)
        arms = list(s.forestwave)
        rngs = {a: (0, s.forestwave[a].size) for a in arms}
        for k, lo, hi in case['cuts']:
            a = arms[k % len(arms)]
            b, e = rngs[a]
            n = e - b
            if n - lo - hi < 2:
                continue
            s.slice(a, lo, n - hi)
            rngs[a] = (b + lo, e - hi)
    for k in sg.FOREST + ['cont']:
        got = s.cont_params['cont'] if k == 'cont' else getattr(s, k)
        for a in snap[k]:
            b, e = rngs[a]
            same(got[a], snap[k][a][..., b:e], f"{k} of arm {a} after "
                 f"slicing to {b}:{e}")
    return dict(nontrivial=any(v[1] - v[0] != snap['forestwave'][a].size
                               for a, v in rngs.items()),
                tags=[case['prep']])


SUBS = [
    Sub("region", cases, run, quick=900, thorough=40000, shards=5,
        rule="at least one arm has forest pixels"),
    Sub("slice", slice_cases, run_slice, quick=350, thorough=15000, shards=3,
        rule="at least one slice cut something"),
]
