"""C04 ingestion of pixel arrays; isolation of spectra; red-side SNR."""
import copy

import numpy as np
from hypothesis import strategies as st

from qsonic.spectrum import Spectrum, generate_spectra_list_from_data
from vlib import specgen as sg
from vlib.engine import Sub
from vlib.util import check, close, quiet, same

LYA = 1215.67


def deep(data):
    return copy.deepcopy(data)


def same_data(a, b):
    for k in a:
        for arm in a[k]:
            if not np.array_equal(a[k][arm], b[k][arm],
                                  equal_nan=a[k][arm].dtype.kind == 'f'):
                return f"{k}[{arm}]"
            if a[k][arm].dtype != b[k][arm].dtype:
                return f"{k}[{arm}] dtype"
    return None


def ingest_cases():
    return st.tuples(sg.spectra(max_spec=4), st.booleans()).map(
        lambda t: dict(sp=t[0], listfn=t[1]))


def run_ingest(case, tmp):
    sp = case['sp']
    cat, data = sg.build(sp)
    if sp['seed'] % 3 == 0:     # let Ly-alpha fall inside the arms
        cat['Z'] = (sp['lay']['w0'] + sp['lay']['dw'] * (
            3 + sp['seed'] % 40)) / LYA - 1
    elif sp['seed'] % 3 == 1:   # ... on a pixel, exactly
        cat['Z'] = 3.0
        for nm, off, n in sp['lay']['arms']:
            data['wave'][nm] = 4 * LYA + sp['lay']['dw'] * (
                off + np.arange(n) - sp['seed'] % 40)
    inf = sp['seed'] % 5 == 0
    if inf:     # neither NaN nor negative, hence kept as it is
        arm = sp['lay']['arms'][0][0]
        which = data['ivar' if sp['seed'] % 2 else 'flux'][arm]
        which[0, 3] = np.inf
    keep = deep(data)
    catkeep = cat.copy()
    with quiet():
        if case['listfn']:
            specs = generate_spectra_list_from_data(cat, data)
        else:
            specs = [Spectrum.from_dictionary(cat[i], data, i)
                     for i in range(cat.size)]
    check(len(specs) == cat.size, "%d spectra for %d rows", len(specs),
          cat.size)
    d = same_data(keep, data)
    check(d is None, "input %s modified by building spectra", d)
    check(np.array_equal(catkeep, cat), "catalogue modified")
    bad = 0
    for i, s in enumerate(specs):
        check(int(s.targetid) == sp['ids'][i], "row %d has TARGETID %d", i,
              s.targetid)
        check(set(s.flux) == set(data['wave']), "arms %s", set(s.flux))
        num, cnt, amb = 0.0, 0, False
        edge = (1 + cat['Z'][i]) * LYA
        for arm in data['wave']:
            f, iv = sg.clean(keep, arm, i)
            same(s.wave[arm], keep['wave'][arm], f"wave {arm}")
            same(s.flux[arm], f, f"spectrum {i} flux {arm}")
            same(s.ivar[arm], iv, f"spectrum {i} ivar {arm}")
            r = sg.get_reso(keep, arm, i)
            if r is None:
                check(not s.reso, "resolution appeared from nowhere")
            else:
                same(s.reso[arm], r, f"spectrum {i} reso {arm}")
            bad += int((iv != keep['ivar'][arm][i]).sum())
            w = keep['wave'][arm]
            amb |= cat['Z'][i] != 3 and bool(
                np.any(np.abs(w - edge) < 1e-9 * edge))
            red = (w >= edge) & (iv > 0)
            amb |= not np.all(np.isfinite(f * iv))
            num += float(np.sum(f[red].astype('f8')
                                * np.sqrt(iv[red].astype('f8'))))
            cnt += int(red.sum())
        want = num / cnt if cnt else 0.0
        if not amb:
            close(s.rsnr, want, f"rsnr of spectrum {i}", rtol=2e-5,
                  atol=2e-5 * sp['snr'])
    return dict(nontrivial=bad > 0, tags=[sp['reso'], sp['dtype']])


# ---------------------------------------------------------------- histories
OPS = ['forest', 'smooth', 'unsmooth', 'weight', 'cont', 'zero', 'drop',
       'short', 'slice', 'coadd', 'simple', 'remove', 'chi2']


@st.composite
def history_cases(draw):
    sp = draw(sg.spectra(max_spec=3))
    n = len(sp['ids'])
    win = [draw(sg.windows(sp['lay'], z)) for z in sp['z']]
    ops = draw(st.lists(st.tuples(st.integers(0, n - 1),
                                  st.sampled_from(OPS),
                                  st.integers(0, 3)), min_size=1,
                        max_size=12))
    return dict(sp=sp, win=win, ops=[list(o) for o in ops])


def run_history(case, tmp):
    """Whatever is done to one spectrum, the input arrays and every other
    spectrum (and what would be built from the input later) stay the same."""
    sp = case['sp']
    cat, data = sg.build(sp)
    keep = deep(data)
    from qsonic.masks import BALMask
    cat['VMIN_CIV_450'][:, 0] = 500.
    cat['VMAX_CIV_450'][:, 0] = 3000.
    specs = [Spectrum.from_dictionary(cat[i], data, i)
             for i in range(cat.size)]
    done = 0
    for i, s in enumerate(specs):
        s.set_forest_region(*case['win'][i])
    orig = [{a: (np.array(s.flux[a]), np.array(s.ivar[a]))
             for a in s.flux} for s in specs]
    touched = [False] * len(specs)
    for who, op, par in case['ops']:
        s = specs[who]
        if not s.forestwave:
            continue
        arms = list(s.forestwave)
        arm = arms[par % len(arms)]
        snaps = [sg.snapshot(x) for x in specs]
        with quiet():
            if op == 'forest' and s.flux:
                s.cont_params.update(cont={}, valid=False)
                s.set_forest_region(*case['win'][who])
            elif op == 'smooth':
                s.set_smooth_forestivar(2.0 + par)
            elif op == 'unsmooth':
                s.set_smooth_forestivar(0)
            elif op == 'weight':
                s.set_forest_weight(lambda x: 0.1 + 0 * x,
                                    lambda x: 1.5 + 0 * x)
            elif op == 'cont':
                s.cont_params['valid'] = True
                s.cont_params['cont'] = {
                    a: 1.0 + 0 * w for a, w in s.forestwave.items()}
            elif op == 'zero':
                BALMask.apply(s)
            elif op == 'drop':
                if len(arms) > 1:
                    s.drop_arm(arm)
            elif op == 'short':
                s.drop_short_arms(1040, 1050, 0.1 * par)
            elif op == 'slice':
                n = s.forestwave[arm].size
                if n > 6:
                    s.slice(arm, par % 3, n - par % 2)
            elif op == 'coadd':
                s.coadd_arms_forest()
            elif op == 'simple':
                if s.flux and par == 3:
                    s.simple_coadd()
                    touched[who] = True
                    s.cont_params.update(cont={}, valid=False)
                    s.set_forest_region(*case['win'][who])
            elif op == 'remove':
                if par == 3:
                    s.remove_nonforest_pixels()
            elif op == 'chi2':
                s.calc_continuum_chi2()
        done += 1
        for j, x in enumerate(specs):
            if j == who:
                continue
            d = sg.same_snapshot(snaps[j], sg.snapshot(x))
            check(d is None, "%s on spectrum %d changed %s of spectrum %d",
                  op, who, d, j)
        if s.flux and not touched[who]:
            for a in orig[who]:
                same(s.flux[a], orig[who][a][0],
                     f"{op} changed the full-range flux {a}")
                same(s.ivar[a], orig[who][a][1],
                     f"{op} changed the full-range ivar {a}")
    d = same_data(keep, data)
    check(d is None, "input %s modified by operations on spectra", d)
    again = [Spectrum.from_dictionary(cat[i], data, i)
             for i in range(cat.size)]
    for i, s in enumerate(again):
        for arm in data['wave']:
            f, iv = sg.clean(keep, arm, i)
            same(s.flux[arm], f, "rebuilt flux")
            same(s.ivar[arm], iv, "rebuilt ivar")
            same(s.wave[arm], keep['wave'][arm], "rebuilt wave")
    return done >= 2 and len(specs) > 1


SUBS = [
    Sub("ingest", ingest_cases, run_ingest, quick=500, thorough=20000,
        shards=4, rule="at least one pixel was cleaned"),
    Sub("history", history_cases, run_history, quick=500, thorough=20000,
        shards=4, rule="two or more operations and several spectra"),
]
