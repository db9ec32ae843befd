"""C19 stacking, mean-continuum update, normalisation and eta calibration."""
import fitsio
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline
from scipy.special import eval_legendre

from qsonic import QsonicException
from qsonic.picca_continuum import FluxStacker
from vlib import e2e
from vlib import fitgen as fg
from vlib import simmpi
from vlib.engine import Sub
from vlib.meancont import legs, variants as smooth_variants
from vlib.util import check, close, quiet, rng_of, same


def bins_of(w, w1, w2, n):
    """Bin of each wavelength; None where an inner edge makes it ambiguous."""
    u = (np.asarray(w, dtype='longdouble') - w1) * n / (np.longdouble(w2) - w1)
    r = np.rint(u)
    tie = (np.abs(u - r) < 1e-8) & (r > 0) & (r < n)
    return np.clip(np.floor(u + 0), 0, n - 1).astype(int), tie


def weighted(idx, w, x, n):
    """Loop-free but independent: dense membership matrix."""
    m = (idx[None, :] == np.arange(n)[:, None])
    den = m @ w
    num = m @ (w * x)
    return np.where(den > 0, num / np.where(den > 0, den, 1), 0.0), den


# -------------------------------------------------------------- FluxStacker
@st.composite
def stack_cases(draw):
    return dict(
        w1=draw(st.sampled_from([3600.0, 3600.5, 3571.7])),
        span=draw(st.sampled_from([400.0, 613.3, 90.0, 8.0])),
        dw=draw(st.sampled_from([8.0, 0.8, 30.0])),
        r1=draw(st.sampled_from([1040.0, 700.3])),
        rspan=draw(st.sampled_from([160.0, 33.0])),
        nrf=draw(st.sampled_from([1, 3, 40, 200])),
        nspec=draw(st.sampled_from([6, 3, 12, 1, 0])),
        npix=draw(st.sampled_from([20, 5, 60, 1])),
        edge=draw(st.sampled_from(['none', 'hi', 'hi', 'lo', 'both'])),
        hole=draw(st.booleans()),
        zero=draw(st.sampled_from([0.3, 0.0, 0.3, 1.0])),
        twice=draw(st.booleans()),
        size=draw(st.integers(1, 4)),
        none=draw(st.booleans()),
        seed=draw(st.integers(0, 10**6)))


def run_stack(case, tmp):
    rng = rng_of(case['seed'])
    w1, w2 = case['w1'], case['w1'] + case['span']
    n = int(round((w2 - w1) / case['dw']))
    if n == 0:
        return False
    r1, r2 = case['r1'], case['r1'] + case['rspan']
    e = np.linspace(r1, r2, case['nrf'] + 1)
    rfw, drf = (e[1:] + e[:-1]) / 2, e[1] - e[0]

    def lams(a, b, k):
        x = np.sort(rng.uniform(a, b, k))
        if case['hole']:
            x = x[(x < a + 0.3 * (b - a)) | (x > a + 0.55 * (b - a))]
        if x.size and case['edge'] in ('hi', 'both'):
            x[-1] = [b, np.nextafter(b, 0), b * (1 - 3e-16)][rng.integers(3)]
        if x.size and case['edge'] in ('lo', 'both'):
            x[0] = [a, np.nextafter(a, 1e9)][rng.integers(2)]
        return x
    items = []
    for _ in range(case['nspec']):
        w = lams(w1, w2, case['npix'])
        r = lams(r1, r2, w.size)
        if r.size != w.size or w.size == 0:
            k = min(r.size, w.size)
            w, r = w[:k], r[:k]
        wt = rng.exponential(size=w.size) * (rng.random(w.size)
                                             >= case['zero'])
        f = rng.normal(1, 0.5, w.size)
        c = rng.exponential(size=w.size)
        ok = ~bins_of(w, w1, w2, n)[1] & ~bins_of(r, r1, r2, rfw.size)[1]
        items.append([x[ok] for x in (w, r, f, c, wt)])
    size = 1 if case['none'] else case['size']

    def fn(comm, rank, nr):
        s = FluxStacker(w1, w2, case['dw'], rfw, drf,
                        comm=None if case['none'] else comm)
        out = dict(wave=s.waveobs, one=s.stacked_flux.copy())
        mine = items[rank::nr]
        with quiet():
            for rep in range(2 if case['twice'] else 1):
                # an earlier iteration with other data leaves nothing
                if case['twice'] and rep == 0:
                    s.reset()
                    for w, r, f, c, wt in mine:
                        s.add(w, r, wt * 3 + 1, c, wt + 1)
                    s.calculate()
                    continue
                s.reset()
                keep = [[x.copy() for x in i] for i in mine]
                for w, r, f, c, wt in mine:
                    s.add(w, r, wt * f, wt * c, wt)
                s.calculate()
                for a, b in zip(keep, mine):
                    for x, y in zip(a, b):
                        same(y, x, "input arrays of add")
        out.update(f=s.stacked_flux.copy(), w=s.weights.copy(),
                   rf=s.stacked_flux_rf.copy(), std=s.std_flux_rf.copy(),
                   at=s(s.waveobs) if n > 1 else s.stacked_flux.copy())
        return out
    vals = simmpi.collect(fn, size)
    W, R, F, C, WT = [np.concatenate([i[k] for i in items])
                      if items else np.zeros(0) for k in range(5)]
    fo, den = weighted(bins_of(W, w1, w2, n)[0], WT, F, n)
    fr, denr = weighted(bins_of(R, r1, r2, rfw.size)[0], WT, C, rfw.size)
    std = np.where(denr > 0, 1 / np.sqrt(np.where(denr > 0, denr, 1)), 0)
    edges = np.linspace(w1, w2, n + 1)
    for k, o in enumerate(vals):
        close(o['wave'], (edges[1:] + edges[:-1]) / 2, "bin centres",
              rtol=1e-12)
        same(o['one'], np.ones(n), "stack before any data")
        close(o['f'], fo, f"rank {k}: stacked flux", rtol=1e-9, scale=1)
        close(o['w'], den, f"rank {k}: weights", rtol=1e-9, atol=1e-12)
        same(o['f'] == 0, den == 0, "bins without data")
        close(o['rf'], fr, f"rank {k}: rest-frame stack", rtol=1e-9, scale=1)
        close(o['std'], std, f"rank {k}: rest-frame error", rtol=1e-8)
        close(o['at'], fo, "stack at bin centres", rtol=1e-7, scale=1)
        for q in o:
            same(o[q], vals[0][q], f"{q} on ranks {k} and 0")
    return dict(nontrivial=int((den > 0).sum()) > 1, tags=[
        case['edge'], f'ranks{size}', 'empty' if (den == 0).any() else 'full'])


# --------------------------------------------------- mean continuum update
@st.composite
def mean_cases(draw):
    sm = draw(fg.samples(nspec=(1, 12), npix=(60, 150), zs=(2.1, 3.3),
                         dws=(2.4, 1.6)))
    return dict(
        sm=sm, model=draw(st.sampled_from(['picca'] * 4 + ['true', 'input'])),
        order=draw(st.integers(0, 3)),
        nrf=draw(st.sampled_from([0.8, 2.0, 8.0, 20.0])),
        win=draw(st.sampled_from([[3600.5, 4600.25], [3700.0, 4204.0],
                                  [3650.3, 3990.9]])),
        rf=draw(st.sampled_from([[1040.0, 1200.0], [1050.5, 1180.0]])),
        edge=draw(st.booleans()),
        bad=[draw(st.integers(0, 4)) == 0 for _ in range(12)],
        wig=draw(st.sampled_from([0.0, 0.3])),
        cscat=draw(st.sampled_from([0.0, 0.05, 0.3])),
        size=draw(st.integers(1, 3)), perm=draw(st.integers(0, 99)),
        vl=draw(st.sampled_from([0.0, 0.1])))


def edge_z(wave, lya2, rng):
    """A redshift for which a grid pixel sits at the upper forest edge."""
    w = wave[rng.integers(wave.size // 3, wave.size)]
    z = w / lya2 - 1
    for _ in range(rng.integers(0, 4)):
        z = np.nextafter(z, 9)
    return float(z)


def specs_of(case):
    sm = dict(case['sm'])
    rng = rng_of(sm['seed'] + 5)
    win = (*case['win'], *case['rf'])
    if case['edge']:
        wv = np.concatenate([sm['w0'] + (o + np.arange(k)) * sm['dw']
                             for _, o, k in sm['lay']])
        wv = wv[(wv > win[0]) & (wv < win[1]) & (wv / win[3] > 3.05)]
        if wv.size > 3:
            sm['z'] = [edge_z(wv, win[3], rng) for _ in sm['z']]
    return [s for s in fg.spectra_of(sm, win) if s.forestwave]


def run_mean(case, tmp):
    specs = specs_of(case)
    if not specs:
        return False
    rng = rng_of(case['sm']['seed'] + 9)
    win, rfr = case['win'], case['rf']
    n = int(round((win[1] - win[0]) / 8.0))
    nrf = int(round((rfr[1] - rfr[0]) / case['nrf']))
    e = np.linspace(rfr[0], rfr[1], nrf + 1)
    rfw = (e[1:] + e[:-1]) / 2
    old = 1 + case['wig'] * np.sin(np.arange(nrf) * 7. / nrf)
    P = [[] for _ in range(5)]
    nv = 0
    for k, s in enumerate(specs):
        s.cont_params['valid'] = not case['bad'][k % 12]
        s.cont_params['cont'] = {}
        wt = {}
        for arm, w in s.forestwave.items():
            amp = case['sm']['amp'][0]
            c = amp * np.exp(rng.normal(scale=case['cscat'], size=w.size))
            s.cont_params['cont'][arm] = c
            i = s.forestivar_sm[arm]
            wt[arm] = i / (1 + i * case['vl'] * c**2)
            if not s.cont_params['valid']:
                continue
            r = w / (1 + s.z_qso)
            if bins_of(w, *win, n)[1].any() or bins_of(r, *rfr, nrf)[1].any():
                return False
            f = s.forestflux[arm]
            for a, b in zip(P, (w, r, f / c, c, wt[arm] * c**2)):
                a.append(b)
        if not s.cont_params['valid']:
            s.cont_params['cont'] = None
        else:
            nv += 1
        with quiet():
            s.set_forest_weight(lambda x: np.full_like(x, case['vl']))
        for arm in wt:
            if s.cont_params['valid']:
                close(s.forestweight[arm], wt[arm], "weights", rtol=1e-12)
    if nv == 0:
        return False
    W, R, F, C, WT = map(np.concatenate, P)
    fo, den = weighted(bins_of(W, *win, n)[0], WT, F, n)
    fr, denr = weighted(bins_of(R, *rfr, nrf)[0], WT,
                        F if case['model'] == 'picca' else C, nrf)
    good = denr > 0
    std = np.where(good, 1 / np.sqrt(np.where(good, denr, 1)), 0)
    order = [int(i) for i in
             rng_of(case['perm']).permutation(len(specs))]

    def fn(comm, rank, nr):
        with quiet():
            ft = fg.fitter_of(
                wave1=win[0], wave2=win[1], forest_w1=rfr[0],
                forest_w2=rfr[1], rfdwave=case['nrf'],
                cont_order=case['order'], continuum_model=case['model'],
                input_continuum_dir=f"{tmp}/none")
            ft.meancont_interp.reset(old.copy(), ep=np.zeros(nrf))
            mine = [specs[i] for i in order[rank::nr]]
            try:
                conv = bool(ft.update_mean_cont(mine))
            except Exception as ex:
                # smoothing spline may refuse; decided below
                conv = type(ex).__name__ + ': ' + str(ex)
        return dict(
            conv=conv, f=ft.flux_stacker.stacked_flux.copy(),
            rf=ft.flux_stacker.stacked_flux_rf.copy(),
            std=ft.flux_stacker.std_flux_rf.copy(),
            mc=ft.meancont_interp.fp.copy(), emc=ft.meancont_interp.ep.copy(),
            at=ft.meancont_interp(rfw))
    vals = simmpi.collect(fn, case['size'])
    # the number of knots of the smoothing spline can hinge on rounding:
    # smooth the measured stack (compared with the reference below) with a
    # jitter of a few ulp, and compare tightly only when that is immaterial
    nf, ns = vals[0]['rf'].copy(), vals[0]['std'].copy()
    try:
        nf[~good], ns[~good] = nf[good].mean(), 10 * ns[good].mean()
        variants, warned = smooth_variants(rfw, nf, ns, case['perm'])
        new = variants[0]
        bad = not np.all(np.isfinite(variants)) or warned
        stable = not bad and np.ptp(variants, axis=0).max() < 1e-8 * np.abs(
            new).max()
    except Exception:
        bad = True
    tags = [case['model'], 'extrapolated' if not good.all() else 'full',
            f"order{case['order']}", 'edge' if case['edge'] else 'inside']
    for k, o in enumerate(vals):
        check(not isinstance(o['conv'], str) or bad, "update failed: %s",
              o['conv'])
        close(o['f'], fo, f"rank {k}: stacked flux", rtol=1e-8,
              scale=np.abs(fo).max())
        close(o['rf'], fr, f"rank {k}: rest-frame stack", rtol=1e-8,
              scale=np.abs(fr).max())
        close(o['std'], std, f"rank {k}: error of the stack", rtol=1e-8)
        for q in o:
            if isinstance(o[q], np.ndarray):
                # an update that refuses is looked at below
                if isinstance(o['conv'], str):
                    continue
                same(o[q], vals[0][q], f"{q} on ranks {k} and 0")
            else:
                check(o[q] == vals[0][q], "%s on ranks %d and 0: %s %s", q,
                      k, o[q], vals[0][q])
    if bad:
        return dict(nontrivial=False, tags=['unsmoothable'])
    if case['model'] == 'picca':
        new = new * old
    x = np.log(rfw / rfw[0]) / np.log(rfw[-1] / rfw[0])
    kmax = case['order'] if case['model'] == 'picca' else 0
    raw = new
    new, mean, integral = legs(x, kmax, raw)
    if abs(mean) < 1e-3 * np.abs(raw).max():
        return dict(nontrivial=False, tags=['zero-mean'])
    o = vals[0]
    sc = np.abs(new).max()
    if stable:
        close(o['mc'], new, "mean continuum", rtol=1e-6, scale=sc)
    else:
        # same curve within the scatter of equally valid smoothings
        tags.append('knots-unstable')
        v = np.array([legs(x, kmax, y * old if case['model'] == 'picca'
                           else y)[0] for y in variants])
        dev = np.abs(v - o['mc']).max(axis=1).min()
        check(dev <= 3 * np.ptp(v, axis=0).max() + 1e-6 * sc,
              "mean continuum is %g away from every smoothing", dev)
    close(o['at'], o['mc'], "interpolated mean continuum", rtol=1e-7,
          scale=sc)
    if stable:
        close(o['emc'], ns / mean, "error of the mean continuum", rtol=1e-6)
    else:
        mean = ns[0] / o['emc'][0]
    # the semantic conditions, up to the quadrature error of the grid
    y = o['mc']
    close(integral(y), 1.0, "mean of the mean continuum", rtol=1e-8)
    if nrf >= 80:
        xx = np.linspace(0, 1, 20001)
        yy = CubicSpline(x, y, bc_type='natural')(xx)
        for k in range(1, kmax + 1):
            b = (2 * k + 1) * np.trapz(yy * eval_legendre(k, 2 * xx - 1), xx)
            check(abs(b) < 3e-3 * sc, "order %d remains: %g", k, b)
    up = y / old - 1
    es = ns / mean
    chi2 = np.sum((up / es)**2) / nrf
    a, b = np.max(np.abs(up) / es), chi2
    if abs(a / 0.33 - 1) > 1e-3 and abs(b / 1e-3 - 1) > 1e-3 and mean > 0:
        check(o['conv'] == bool(a < 0.33 or b < 1e-3), "converged: %s with "
              "largest update %g sigma, chi2 %g", o['conv'], a, b)
        tags.append('converged' if o['conv'] else 'moving')
    return dict(nontrivial=True, tags=tags)


# -------------------------------------------------- iterate, last steps
@st.composite
def norm_cases(draw):
    return dict(
        sm=draw(fg.samples(nspec=(6, 12), npix=(110, 150), zs=(2.2, 2.6),
                           dws=(2.4, 3.2), pbads=(0.0, 0.05))),
        win=draw(st.sampled_from([[3600.5, 4300.25], [3603.0, 4100.7]])),
        norm=draw(st.sampled_from([True, True, False])),
        eta=draw(st.sampled_from([True, True, False])),
        fiteta=draw(st.booleans()), fid=draw(st.sampled_from([True, False,
                                                              False])),
        hole=draw(st.booleans()), niter=draw(st.integers(1, 3)),
        mf=draw(st.sampled_from([0.0, 0.3])),
        size=draw(st.integers(1, 2)), neg=draw(st.booleans()))


def run_norm(case, tmp):
    if not (case['norm'] or case['eta']):
        return False
    win = (*case['win'], 1040.0, 1200.0)
    sm = case['sm']
    specs = None

    def make():
        out = [s for s in fg.spectra_of(sm, win) if s.forestwave]
        for k, s in enumerate(out):
            for arm, w in s.forestwave.items():
                if case['hole']:
                    s.forestivar[arm][(w > win[0] + 120)
                                      & (w < win[0] + 180)] = 0
                if case['neg'] and k == 0:
                    s.forestflux[arm][:] = -np.abs(s.forestflux[arm]) - 1
            s.set_forest_weight()
        return out
    if len(make()) < 3:
        return False
    e2e.cheap_variance(10, 1, 1)
    fid = None
    if case['fid']:
        fid = f"{tmp}/fid.fits"
        lam = np.linspace(3500, 4500, 21)
        with fitsio.FITS(fid, 'rw', clobber=True) as f:
            f.write([lam, np.full(21, 0.07)], names=['LAMBDA', 'VAR_LSS'],
                    extname='STATS')

    def go(norm, eta, out):
        def fn(comm, rank, nr):
            specs = make()[rank::nr]
            with quiet():
                ft = fg.fitter_of(
                    outdir=out, wave1=win[0], wave2=win[1],
                    forest_w1=win[2], forest_w2=win[3],
                    num_iterations=case['niter'], rfdwave=4.0,
                    var_fit_eta=case['fiteta'], fiducial_varlss=fid,
                    normalize_stacked_flux=norm, eta_calib_ivar=eta)
                try:
                    ft.iterate(specs)
                except QsonicException as ex:
                    return str(ex)
            return [(s.targetid, s.cont_params['valid'],
                     s.cont_params['cont'], s.forestivar, s.forestwave,
                     s.forestflux) for s in specs], (
                         ft.eta_interp.xp0, ft.eta_interp.dxp,
                         ft.eta_interp.fp.copy())
        return simmpi.run_mpi(fn, case['size'])
    import os
    os.makedirs(f"{tmp}/a")
    os.makedirs(f"{tmp}/b")
    A = go(False, False, f"{tmp}/a")
    B = go(case['norm'], case['eta'], f"{tmp}/b")
    fail = any(r.kind != 'ok' or isinstance(r.value, str) for r in A)
    failb = any(r.kind != 'ok' or isinstance(r.value, str) for r in B)
    if fail:
        return dict(nontrivial=False, tags=['A:' + str(A[0])[:60] + str(A[0].value)[:90]])
    if failb:
        # a variance fit over changed deltas may lack statistics
        msgs = [r.value if r.kind == 'ok' else f"{r.etype}: {r.msg}"
                for r in B]
        check(case['fid'] and all('variance' in str(m).lower()
                                  or 'var' in str(m).lower() for m in msgs),
              "run with normalisation failed: %s", msgs)
        return False
    if not os.path.exists(f"{tmp}/b/attributes.fits"):
        check(False, "no attributes file")
    with fitsio.FITS(f"{tmp}/a/attributes.fits") as f:
        sa = f['STACKED_FLUX'].read()
    with fitsio.FITS(f"{tmp}/b/attributes.fits") as f:
        sb = f['STACKED_FLUX'].read()
    same(sa['stacked_flux'], sb['stacked_flux'], "STACKED_FLUX table")
    lam, fl = sa['lambda'], sa['stacked_flux'].copy()
    empty = fl == 0
    fl[empty] = 1

    def interp(w):
        # linear, extrapolated half a bin at both ends
        u = (w - lam[0]) / (lam[1] - lam[0])
        k = np.clip(u.astype(int), 0, lam.size - 2)
        return fl[k] + (u - k) * (fl[k + 1] - fl[k])
    x0, dx, eta = A[0].value[1]
    if case['fid']:
        eta = np.ones_like(eta)
    from scipy.interpolate import CubicSpline as CS
    et = CS(x0 + dx * np.arange(eta.size), eta)
    far, etfar, n = 0.0, 0.0, 0
    for ra, rb in zip(A, B):
        for a, b in zip(ra.value[0], rb.value[0]):
            check(a[0] == b[0] and a[1] == b[1], "validity changed")
            for arm, w in a[4].items():
                same(b[5][arm], a[5][arm], "flux")
                ev = et(w) if case['eta'] else np.ones(w.size)
                close(b[3][arm], a[3][arm] / ev, f"ivar of {a[0]}",
                      rtol=1e-6)
                etfar = max(etfar, np.abs(ev - 1).max())
                if not a[1]:
                    check(b[2] is None, "continuum of an invalid fit")
                    continue
                r = interp(w) if case['norm'] else np.ones(w.size)
                close(b[2][arm], a[2][arm] * r, f"continuum of {a[0]}",
                      rtol=1e-7)
                far = max(far, np.abs(r - 1).max())
                n += 1
    return dict(
        nontrivial=bool(n > 2 and (far > 1e-3 or etfar > 1e-3)),
        tags=['norm' if case['norm'] else '-', 'etacal' if case['eta'] else
              '-', 'holes' if empty.any() else 'full',
              'eta-moved' if etfar > 1e-3 else 'eta-one'])


SUBS = [
    Sub('stack', stack_cases, run_stack, quick=300, thorough=8000, shards=2,
        rule="at least two bins hold weight"),
    Sub('mean', mean_cases, run_mean, quick=240, thorough=5000, shards=4,
        rule="stack smoothable, mean continuum compared with the reference"),
    Sub('norm', norm_cases, run_norm, quick=60, thorough=1200, shards=4,
        rule="three valid arms whose continuum or ivar changed by > 0.1%"),
]
