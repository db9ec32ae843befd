"""C17 variance statistics and the var_lss / eta fit."""
import fitsio
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import UnivariateSpline
from scipy.optimize import lsq_linear

from qsonic import QsonicException
from qsonic.mpi_utils import MPISaver
from qsonic.picca_continuum import VarLSSFitter
from vlib import fitgen as fg
from vlib import e2e, simmpi
from vlib.engine import Skip, Sub
from vlib.util import check, close, must_raise, quiet, rng_of, same


# ---------------------------------------------------------------- oracle
class Bins:
    """Naive binning: keeps the members of every bin."""
    def __init__(self, c):
        self.c = c
        self.we = np.linspace(c['w1'], c['w2'], c['nw'] + 1)
        # ivar edges ascending, equal steps in log10
        self.ie = 10**np.linspace(-np.log10(c['var2']), -np.log10(c['var1']),
                                  c['nv'] + 1)

    def where(self, wave, ivar):
        """bin of each pixel or -1; None when a pixel sits on an edge."""
        nw, nv = self.c['nw'], self.c['nv']
        out = np.full(wave.size, -1)
        for k in range(wave.size):
            if not ivar[k] > 0:
                continue
            w, i = wave[k], ivar[k]
            if np.any(np.abs(self.we - w) < 1e-7) or np.any(
                    np.abs(self.ie / i - 1) < 1e-9):
                return None
            if not (self.we[0] < w < self.we[-1]
                    and self.ie[0] < i < self.ie[-1]):
                continue
            a = int(np.sum(self.we < w)) - 1
            b = int(np.sum(self.ie < i)) - 1
            out[k] = a * nv + b
        return out


def stats(c, specs, ns, streams=None):
    """Expected statistics per bin. streams: list of (start, spec numbers)."""
    b = Bins(c)
    nb = c['nw'] * c['nv']
    mem = []
    for w, d, i in specs:
        k = b.where(w, i)
        if k is None:
            raise Skip()
        mem.append(k)
    npix, nqso = np.zeros(nb, int), np.zeros(nb, int)
    one = np.zeros((len(specs), 4, nb))     # sums of d, d2, d4, var
    cnt = np.zeros((len(specs), nb))
    for s, (w, d, i) in enumerate(specs):
        for n in range(nb):
            m = mem[s] == n
            if not m.any():
                continue
            npix[n] += m.sum()
            nqso[n] += 1
            cnt[s, n] = m.sum()
            one[s, :, n] = (d[m].sum(), (d[m]**2).sum(), (d[m]**4).sum(),
                            (1 / i[m]).sum())
    tot, N = one.sum(0), cnt.sum(0)
    has = N > 0
    mean = np.where(has, tot / np.where(has, N, 1), 0)
    var = mean[1] - mean[0]**2
    var2 = np.where(has, (mean[2] - var**2) / np.where(has, N, 1), 0)
    if streams is None:
        streams = [(0, list(range(len(specs))))]
    gx, gn = np.zeros((ns, 4, nb)), np.zeros((ns, nb))
    for start, idx in streams:
        for k, s in enumerate(idx):
            gx[(start + k) % ns] += one[s]
            gn[(start + k) % ns] += cnt[s]
    ok = (gn > 0).sum(0) >= 2
    den = np.where(ok, N - gn, 1)
    jack = np.where(ok, (tot - gx) / den[:, None, :], 0)
    dj = jack - jack.mean(0)
    jv = (dj**2).sum(0) * (ns - 1) / ns
    jc = [np.einsum('ki,kj->ij', dj[:, t], dj[:, t]) * (ns - 1) / ns
          for t in (0, 1)]
    return dict(npix=npix, nqso=nqso, mean=mean[0], var=var, var2=var2,
                vc=mean[3], jv=jv, jc=jc, ok=ok, m4=mean[2])


def compare(f, c, s, errors=True, what=''):
    nb = c['nw'] * c['nv']
    same(f.num_pixels, s['npix'], what + "num_pixels")
    same(f.num_qso, s['nqso'], what + "num_qso")
    close(f.mean_delta, s['mean'], what + "mean_delta", rtol=1e-9, scale=1)
    close(f.var_delta, s['var'], what + "var_delta", rtol=1e-9, scale=1)
    close(f.var2_delta, s['var2'], what + "var2_delta", rtol=1e-8,
          scale=1 + np.abs(s['m4']).max())
    close(f.var_centers, s['vc'], what + "var_centers", rtol=1e-9)
    check(f.var_delta.size == nb, "%d bins", f.var_delta.size)
    if not errors:
        return
    ok = s['ok']
    close(f.e_var_centers[ok]**2, s['jv'][3][ok], what + "e_var_centers^2",
          rtol=1e-6, scale=1e-6 * c['var2'])
    if not f.use_cov:
        e2 = s['jv'][1] + 4 * s['mean']**2 * s['jv'][0] + 2 * s['jv'][0]**2
        e2 = np.maximum(e2, s['var2'])
        close(f.e_var_delta[ok]**2, e2[ok], what + "e_var_delta^2",
              rtol=1e-6, atol=1e-10)
        return
    nv = c['nv']
    for w in range(c['nw']):
        sl = slice(w * nv, (w + 1) * nv)
        g = ok[sl]
        m, v = s['mean'][sl], s['jv'][0][sl]
        c0, c1 = s['jc'][0][sl, sl], s['jc'][1][sl, sl]
        want = c1 + want_square(m, v, c0)
        close(f.cov_var_delta[w][np.ix_(g, g)], want[np.ix_(g, g)],
              what + "cov_var_delta", rtol=1e-6, scale=1e-3 + np.abs(
                  want[np.ix_(g, g)]).max(initial=0))


def want_square(m, v, c0):
    out = np.zeros_like(c0)
    for i in range(m.size):
        for j in range(m.size):
            out[i, j] = (v[i] * v[j] + c0[i, j]**2
                         + 2 * c0[i, j] * m[i] * m[j]
                         + v[i] * m[j]**2 + v[j] * m[i]**2)
    return out


# ------------------------------------------------------------- generator
@st.composite
def configs(draw, nw=(1, 4), nv=(2, 7), nspec=(1, 14), npix=(1, 80)):
    n = draw(st.integers(*nspec))
    w1 = draw(st.sampled_from([3600.0, 4000.25]))
    return dict(
        w1=w1, w2=w1 + draw(st.sampled_from([120.0, 240.0, 601.0])),
        nw=draw(st.integers(*nw)), nv=draw(st.integers(*nv)),
        var1=draw(st.sampled_from([1e-4, 0.02])),
        var2=draw(st.sampled_from([20.0, 1.5])),
        cov=draw(st.booleans()),
        ns=draw(st.sampled_from([None, 3, 10])),
        n=n, npix=[draw(st.integers(*npix)) for _ in range(n)],
        # part of the range each spectrum covers, may stick out
        lo=[draw(st.sampled_from([-0.1, 0.0, 0.3, 0.6])) for _ in range(n)],
        hi=[draw(st.sampled_from([1.1, 1.0, 0.7])) for _ in range(n)],
        pmask=draw(st.sampled_from([0.0, 0.2, 0.7])),
        off=draw(st.sampled_from([0.0, 0.5, -2.0])),
        vlss=draw(st.sampled_from([0.1, 0.01, 0.6])),
        eta=draw(st.sampled_from([1.0, 0.8, 1.4, 2.7])),
        seed=draw(st.integers(0, 10**6)))


def make(c):
    rng = rng_of(c['seed'])
    out = []
    L = c['w2'] - c['w1']
    for k in range(c['n']):
        a = c['w1'] + L * c['lo'][k] + 0.0317
        b = c['w1'] + L * c['hi'][k] - 0.0213
        w = np.linspace(min(a, b), max(a, b), c['npix'][k])
        # variances reach beyond both limits
        lv = rng.uniform(np.log(c['var1'] / 2), np.log(c['var2'] * 2), w.size)
        var = np.exp(lv)
        d = c['off'] + rng.normal(size=w.size) * np.sqrt(
            c['eta'] * var + c['vlss'])
        i = 1 / var
        bad = rng.random(w.size) < c['pmask']
        i[bad] = 0
        d[bad] = rng.choice([-1., 0., 1e6], size=int(bad.sum()))
        out.append((w, d, i))
    return out


def fitter(c, comm=None):
    return VarLSSFitter(c['w1'], c['w2'], nwbins=c['nw'], var1=c['var1'],
                        var2=c['var2'], nvarbins=c['nv'],
                        nsubsamples=c['ns'], use_cov=c['cov'], comm=comm)


def ns_of(c):
    return c['nv']**2 if c['ns'] is None else c['ns']


# ------------------------------------------------------------- sub-checks
@st.composite
def bin_cases(draw):
    c = draw(configs())
    return dict(c=c, perm=draw(st.integers(0, 10**6)),
                reuse=draw(st.booleans()), twice=draw(st.booleans()))


def run_bins(case, tmp):
    c = case['c']
    specs = make(c)
    keep = [tuple(x.copy() for x in s) for s in specs]
    f = fitter(c)
    if case['reuse']:
        # an earlier use followed by reset leaves nothing behind
        for w, d, i in specs[::-1]:
            f.add(w, d + 3, i)
        if case['twice']:
            with quiet():
                f.calculate_subsampler_stats()
        f.reset()
    for s in specs:
        f.add(*s)
    with quiet():
        f.calculate_subsampler_stats()
        if case['twice']:
            f.calculate_subsampler_stats()
    for a, b in zip(keep, specs):
        for x, y, nm in zip(a, b, ('wave', 'delta', 'ivar')):
            same(y, x, "caller's " + nm)
    s = stats(c, specs, ns_of(c))
    compare(f, c, s)
    close(f.waveobs, 0.5 * (Bins(c).we[1:] + Bins(c).we[:-1]), "waveobs")
    # another order of spectra: same counts, means, variances
    p = rng_of(case['perm']).permutation(len(specs))
    g = fitter(c)
    for k in p:
        g.add(*specs[k])
    with quiet():
        g.calculate_subsampler_stats()
    compare(g, c, s, errors=len(specs) <= ns_of(c), what='permuted: ')
    # VAR_STATS table
    fn = tmp + '/v.fits'
    sv = MPISaver(fn, 0)
    f.write(sv, 0.5, 7.0)
    sv.close()
    with fitsio.FITS(fn) as h:
        t, hd = h['VAR_STATS'].read(), h['VAR_STATS'].read_header()
    same(t['num_pixels'], s['npix'], "VAR_STATS num_pixels")
    same(t['num_qso'], s['nqso'], "VAR_STATS num_qso")
    close(t['wave'], np.repeat(f.waveobs, c['nv']), "VAR_STATS wave")
    for col, key in (('mean_delta', 'mean'), ('var_delta', 'var'),
                     ('var_pipe', 'vc')):
        close(t[col], s[key], "VAR_STATS " + col, rtol=1e-9, scale=1)
    for col in ('e_var_delta', 'e_var_pipe', 'var2_delta'):
        got = {'e_var_delta': f.e_var_delta, 'e_var_pipe': f.e_var_centers,
               'var2_delta': f.var2_delta}[col]
        same(t[col], got, "VAR_STATS " + col)
    check(('cov_var_delta' in t.dtype.names) == c['cov'], "cov column")
    if c['cov']:
        same(t['cov_var_delta'].reshape(f.cov_var_delta.shape),
             f.cov_var_delta, "VAR_STATS cov_var_delta")
    check(hd['MINSNR'] == 0.5 and hd['MAXSNR'] == 7.0
          and hd['NWBINS'] == c['nw'] and hd['NVARBINS'] == c['nv'],
          "VAR_STATS header")
    return dict(nontrivial=int((s['npix'] > 1).sum()) > 1 and s['ok'].any(),
                tags=['cov' if c['cov'] else 'diag',
                      'wrap' if len(specs) > ns_of(c) else 'single'])


@st.composite
def rank_cases(draw):
    c = draw(configs(nspec=(1, 10), npix=(4, 40)))
    size = draw(st.integers(2, 4))
    return dict(c=c, size=size, deal=[draw(st.integers(0, size - 1))
                                      for _ in range(c['n'])])


def run_ranks(case, tmp):
    c, size = case['c'], case['size']
    specs = make(c)
    s = stats(c, specs, ns_of(c))

    def fn(comm, rank, n):
        f = fitter(c, comm)
        for k, r in enumerate(case['deal']):
            if r == rank:
                f.add(*specs[k])
        with quiet():
            f.calculate_subsampler_stats()
        f.comm = None
        return f
    vals = simmpi.collect(fn, size)
    most = max(case['deal'].count(r) for r in range(size))
    single = most <= ns_of(c) // size       # one spectrum per subsample
    for r, f in enumerate(vals):
        compare(f, c, s, errors=single, what=f"rank {r} of {size}: ")
        same(f.e_var_delta, vals[0].e_var_delta, f"rank {r} e_var_delta")
    return dict(nontrivial=len(set(case['deal'])) > 1
                and int((s['npix'] > 1).sum()) > 1,
                tags=['jackknife' if single else 'counts'])


@st.composite
def fit_cases(draw):
    c = draw(configs(nw=(4, 7), nv=(5, 9), nspec=(8, 22), npix=(90, 200)))
    c['off'] = draw(st.sampled_from([0.0, 0.0, 0.3]))
    c['lo'] = [draw(st.sampled_from([0.0, 0.0, 0.0, 0.35]))
               for _ in range(c['n'])]
    c['hi'] = [draw(st.sampled_from([1.0, 1.0, 1.0, 0.7, 0.55]))
               for _ in range(c['n'])]
    if draw(st.integers(0, 3)) == 0:
        h = draw(st.sampled_from([0.55, 0.62, 0.7]))
        c['hi'] = [h] * c['n']
    c['pmask'] = draw(st.sampled_from([0.0, 0.1]))
    return dict(c=c, eta=draw(st.booleans()),
                guess=draw(st.sampled_from([[0.1, 1.0], [0.6, 0.5],
                                            [0.01, 1.9]])),
                npix=draw(st.sampled_from([8, 20, 50])),
                nqso=draw(st.sampled_from([2, 5, 9])))


def expected_fit(c, s, f, case, iw):
    """None (not fittable), 'skip', or a list of acceptable
    (p, cost, cost function, std)."""
    nv = c['nv']
    sl = slice(iw * nv, (iw + 1) * nv)
    g = (s['npix'][sl] >= case['npix']) & (s['nqso'][sl] >= case['nqso'])
    if g.sum() < 5:
        g = (s['npix'][sl] >= case['npix'] // 2) & (
            s['nqso'][sl] >= case['nqso'] // 2)
    if g.sum() < 5:
        return None
    if not np.all(s['ok'][sl][g]):
        return 'skip'
    x, y = s['vc'][sl][g], s['var'][sl][g]
    e = f.e_var_delta[sl][g]
    if c['cov']:
        C = f.cov_var_delta[iw][np.ix_(g, g)]
        d = np.sqrt(np.abs(np.diag(C)))
        ev = np.linalg.eigvalsh(C)
        evn = np.linalg.eigvalsh(C / d[:, None] / d)
        if evn[0] < -1e-6 and ev[0] < -1e-9 * ev[-1]:
            # clearly not positive-definite: the diagonals are used, which
            # are those of the covariance or its errors before propagation
            if not (np.all(e > 0) and np.all(np.diag(C) > 0)):
                return 'skip'
            ws = [np.diag(1 / e), np.diag(1 / d)]
        elif abs(ev[0]) < 1e-9 * ev[-1] or evn[0] < 1e-3:
            return 'skip'
        else:
            ws = [np.linalg.inv(np.linalg.cholesky(C))]
    else:
        ws = [np.diag(1 / e)]
    A = np.stack([np.ones_like(x), x], 1)
    if not case['eta']:
        A, y = A[:, :1], y - x
    return [solve(w @ A, w @ y) for w in ws]


def solve(A, y):
    r = lsq_linear(A, y, bounds=(0, 2), method='bvls')

    def cost(p):
        return float(np.sum((A @ np.atleast_1d(p) - y)**2))
    inside = np.all((r.x > 0.01) & (r.x < 1.99))
    std = np.sqrt(np.diag(np.linalg.inv(A.T @ A))) if inside else None
    return r.x, cost(r.x), cost, std


def run_fit(case, tmp):
    c = case['c']
    specs = make(c)
    s = stats(c, specs, ns_of(c))
    VarLSSFitter.min_num_pix = case['npix']
    VarLSSFitter.min_num_qso = case['nqso']
    nw = c['nw']
    guess = np.ones((nw, 2)) * case['guess']
    if not case['eta']:
        guess = guess[:, 0].copy()
    g0 = guess.copy()

    def go(smooth):
        f = fitter(c)
        for x in specs:
            f.add(*x)
        with quiet():
            return f, f.fit(guess, smooth=smooth)
    ref = fitter(c)
    for x in specs:
        ref.add(*x)
    with quiet():
        ref.calculate_subsampler_stats()
    want = [expected_fit(c, s, ref, case, i) for i in range(nw)]
    nfail = sum(w is None for w in want)
    if 'skip' in [w for w in want if isinstance(w, str)]:
        raise Skip()
    if nfail / nw > 0.4 + 1e-9:
        e = must_raise(lambda: go(False), f"{nfail} of {nw} bins without "
                       "statistics", QsonicException)
        return dict(nontrivial=True, tags=['refused'])
    f, (y, ep) = go(False)
    same(guess, g0, "initial guess of the caller")
    y, ep = np.array(y), np.array(ep)
    check(y.shape == guess.shape and ep.shape == guess.shape, "shape %s",
          y.shape)
    nfall = 0
    for i, w in enumerate(want):
        if w is None:
            check(np.all(y[i] == 0), "bin %d without statistics: %s", i,
                  y[i])
            continue
        check(np.all(y[i] >= 0) and np.all(y[i] <= 2), "bin %d: %s outside "
              "bounds", i, y[i])
        if len(w) > 1:
            nfall += 1
        w.sort(key=lambda w: w[2](y[i]) - w[1])
        p, c0, cost, std = w[0]
        c1 = cost(y[i])
        check(c1 <= c0 + 0.01 + 1e-3 * c0, "bin %d: %s has chi2 %.5f, the "
              "minimum %s has %.5f", i, y[i], c1, p, c0)
        if std is not None and np.all(y[i] > 0.005) and len(w) == 1:
            close(np.atleast_1d(ep[i]), std, f"bin {i} error", rtol=2e-2)
    # smoothed
    good = (y[:, 0] if case['eta'] else y) > 0
    tags = ['eta' if case['eta'] else 'fixed', 'cov' if c['cov'] else 'diag']
    if nfall:
        tags.append('not-pd')
    if good.sum() > 3 and (np.asarray(ep)[good] > 0).all():
        try:
            with quiet() as q:
                exp = np.array([
                    UnivariateSpline(f.waveobs[good], a[good],
                                     w=1 / b[good])(f.waveobs)
                    for a, b in zip(np.atleast_2d(y.T), np.atleast_2d(ep.T))])
        except Exception:
            return dict(nontrivial=True, tags=tags)
        if np.all(np.isfinite(exp)):
            _, (ys, es) = go(True)
            close(np.atleast_2d(np.asarray(ys).T), exp, "smoothed results",
                  rtol=1e-5, scale=np.abs(exp).max())
            close(es, ep, "errors after smoothing", rtol=1e-9)
            tags.append('smoothed' + ('-extrapolated' if nfail else ''))
    return dict(nontrivial=True, tags=tags)


@st.composite
def update_cases(draw):
    return dict(sm=draw(fg.samples(nspec=(4, 14), npix=(90, 130), zs=(2.2, 2.8))),
                eta=draw(st.booleans()), cov=draw(st.booleans()),
                size=draw(st.integers(1, 3)),
                bad=[draw(st.integers(0, 4)) == 0 for _ in range(12)],
                smooth=draw(st.sampled_from([0.0, 12.0])))


WIN = (3700.0, 4300.0, 1040.0, 1200.0)


def run_update(case, tmp):
    sm = case['sm']
    specs = [s for s in fg.spectra_of(sm, WIN, case['smooth'])
             if s.forestwave]
    rng = rng_of(sm['seed'] + 1)
    data = []
    for k, s in enumerate(specs):
        s.cont_params['valid'] = not case['bad'][k % 12]
        s.cont_params['cont'] = {}
        for arm, w in s.forestwave.items():
            cont = sm['amp'][0] * np.exp(rng.normal(scale=0.2, size=w.size))
            s.cont_params['cont'][arm] = cont
            if s.cont_params['valid']:
                f, i = s.forestflux[arm], s.forestivar[arm]
                d = f / cont - 1
                data.append((w, d, i * cont**2))
    if not data:
        return False
    before = [{a: v.copy() for a, v in s.forestivar.items()} for s in specs]
    # the default of 100 variance bins keeps 10^4 subsamples; use 10
    e2e.cheap_variance(10, 3, 2)
    c = dict(w1=WIN[0], w2=WIN[1], nw=5, nv=10, var1=1e-4, var2=20.0,
             cov=case['cov'], ns=None)
    b = Bins(c)
    npix, nqso = np.zeros(50, int), np.zeros(50, int)
    sums = np.zeros((3, 50))
    for w, d, i in data:
        k = b.where(w, i)
        if k is None:
            raise Skip()
        npix += np.bincount(k[k >= 0], minlength=50)
        nqso[np.unique(k[k >= 0])] += 1
        for t, v in enumerate((d, d**2, np.where(i > 0, 1 / np.where(
                i > 0, i, 1), 0))):
            sums[t] += np.bincount(k[k >= 0], weights=v[k >= 0],
                                   minlength=50)

    def fn(comm, rank, n):
        ft = fg.fitter_of(wave1=WIN[0], wave2=WIN[1], var_fit_eta=case['eta'],
                          var_use_cov=case['cov'])
        mine = specs[rank::n]
        # statistics of an earlier iteration must not remain
        for s in mine[:1]:
            for arm, w in s.forestwave.items():
                ft.varlss_fitter.add(w, np.ones_like(w), np.ones_like(w))
        with quiet():
            try:
                ft.update_var_lss_eta(mine)
                res = (ft.varlss_interp.fp.copy(), ft.eta_interp.fp.copy(),
                       ft.varlss_interp.ep.copy(), ft.eta_interp.ep.copy())
            except QsonicException:
                res = None
            except Exception as e:
                res = type(e).__name__
        v = ft.varlss_fitter
        out = dict(npix=v.num_pixels, nqso=v.num_qso, m=v.mean_delta,
                   v=v.var_delta, vc=v.var_centers, res=res)
        # twin: the statistics fitted from the same starting point
        if res is not None and not isinstance(res, str):
            g = np.full(5, 0.1)
            if case['eta']:
                g = np.stack([g, np.ones(5)], 1)
            with quiet():
                out['twin'] = v.fit(g)
        return out
    vals = simmpi.collect(fn, case["size"])
    N = np.maximum(npix, 1)
    for r, o in enumerate(vals):
        same(o['npix'], npix, f"rank {r}: pixels used for the variance")
        same(o['nqso'], nqso, f"rank {r}: spectra used for the variance")
        close(o['m'], sums[0] / N, "mean delta", rtol=1e-8, scale=1)
        close(o['v'], sums[1] / N - (sums[0] / N)**2, "variance of delta",
              rtol=1e-7, scale=np.abs(sums[1] / N).max())
        close(o['vc'], sums[2] / N, "pipeline variance", rtol=1e-8)
        if 'twin' in o:
            y, e = o['twin']
            vl, et, evl, eet = o['res']
            if case['eta']:
                same(vl, y[:, 0], "var_lss interpolator")
                same(et, y[:, 1], "eta interpolator")
                same(evl, e[:, 0], "error of var_lss")
                same(eet, e[:, 1], "error of eta")
            else:
                same(vl, y, "var_lss interpolator")
                same(et, np.ones(5), "eta interpolator")
                same(evl, e, "error of var_lss")
        check((o['res'] is None) == (vals[0]['res'] is None),
              "ranks disagree about the failure")
        if 'twin' in o:
            for x, y in zip(o['res'], vals[0]['res']):
                same(x, y, f"rank {r}: interpolators")
    # spectra are only read
    for s, b0 in zip(specs, before):
        for a in b0:
            same(s.forestivar[a], b0[a], "forestivar after the fit")
    return dict(nontrivial=int(npix.sum()) > 20, tags=[
        'fit' if 'twin' in vals[0] else 'nofit', f"ranks{case['size']}"])


SUBS = [
    Sub('bins', bin_cases, run_bins, quick=250, thorough=6000, shards=2,
        rule="at least two bins hold several pixels and a jackknife error"),
    Sub('ranks', rank_cases, run_ranks, quick=80, thorough=1500, shards=2,
        rule="spectra on several ranks, two bins with several pixels"),
    Sub('fit', fit_cases, run_fit, quick=120, thorough=3000, shards=4,
        rule="fit compared with the bounded least-squares optimum, or "
        "refusal for lack of statistics"),
    Sub('update', update_cases, run_update, quick=60, thorough=1200, shards=2,
        rule="more than 20 pixels entered the statistics"),
]
