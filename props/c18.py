"""C18 continuum fit of single quasars."""
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline
from scipy.optimize import minimize

from qsonic import QsonicException
from qsonic.continuum_models.picca_continuum_model import PiccaContinuumModel
from qsonic.mathtools import FastCubic1DInterp, FastLinear1DInterp
from vlib import fitgen as fg
from vlib import simmpi
from vlib import specgen as sg
from vlib.engine import Skip, Sub
from vlib.util import check, close, quiet, rng_of, same

WIN = (3600.5, 5400.25, 1040.0, 1200.0)


# ----------------------------------------------------------- the functions
@st.composite
def functions(draw):
    return dict(
        nrf=draw(st.sampled_from([8, 20, 200])),
        wig=draw(st.sampled_from([0.0, 0.2])),
        mf=draw(st.sampled_from([None, 0.2])),
        vl=draw(st.sampled_from([0.1, 0.02, 0.0])),
        vlkind=draw(st.sampled_from(['linear', 'cubic'])),
        eta=draw(st.sampled_from([1.0, 0.7])),
        etaslope=draw(st.sampled_from([0.0, 0.2])),
        order=draw(st.sampled_from([0, 1, 1, 2])))


class Functions:
    """Tables of the fit, evaluated without the package."""
    def __init__(self, f):
        e = np.linspace(WIN[2], WIN[3], f['nrf'] + 1)
        self.rf = (e[1:] + e[:-1]) / 2
        self.drf = e[1] - e[0]
        self.mc = 1 + f['wig'] * np.sin(np.arange(f['nrf']) * 9. / f['nrf'])
        self.ow = np.linspace(3500, 5500, 21)
        x = (self.ow - 3500) / 2000
        self.mf = np.ones(21) if f['mf'] is None else 1 - f['mf'] * x
        self.vl = f['vl'] * (1 + x)
        self.et = f['eta'] * (1 + f['etaslope'] * x)
        self.denom = np.log(self.rf[-1] / self.rf[0])
        self.f = f

    def model(self, minimizer):
        lin = FastLinear1DInterp if self.f['vlkind'] == 'linear' \
            else FastCubic1DInterp
        return PiccaContinuumModel(
            FastCubic1DInterp(self.rf[0], self.drf, self.mc),
            FastLinear1DInterp(3500., 100., self.mf),
            lin(3500., 100., self.vl),
            FastCubic1DInterp(3500., 100., self.et),
            self.f['order'], self.rf[0], self.denom, minimizer)

    def shape(self, w, z):
        """Mean continuum, Legendre-like abscissa, mean flux."""
        rf = w / (1 + z)
        s = CubicSpline(self.rf, self.mc, bc_type='not-a-knot')
        t = 2 * np.log(rf / self.rf[0]) / self.denom - 1
        return s(rf), t, np.interp(w, self.ow, self.mf)

    def cont(self, x, w, z):
        m, t, g = self.shape(w, z)
        p = np.zeros_like(t)
        for k, a in enumerate(x):
            p = p + a * t**k
        return m * p * g

    def vleta(self, w):
        if self.f['vlkind'] == 'linear':
            v = np.interp(w, self.ow, self.vl)
        else:
            v = CubicSpline(self.ow, self.vl)(w)
        return v, CubicSpline(self.ow, self.et)(w)


class Cost:
    """Cost over the valid pixels of all arms (arrays taken beforehand)."""
    def __init__(self, fn, spec):
        W, F, I = [], [], []
        for a, w in spec.forestwave.items():
            g = spec.forestivar_sm[a] > 0
            W.append(w[g])
            F.append(spec.forestflux[a][g])
            I.append(spec.forestivar_sm[a][g])
        self.w, self.f, self.i = map(np.concatenate, (W, F, I))
        self.z = spec.z_qso
        m, t, g = fn.shape(self.w, self.z)
        self.base, self.t = m * g, t
        self.v, self.eta = fn.vleta(self.w)
        self.n = fn.f['order'] + 1
        self.A = self.base * np.array([t**k for k in range(self.n)])

    def __call__(self, x):
        c = np.asarray(x) @ self.A
        w = self.i / (self.eta + self.i * self.v * c**2)
        return float(np.sum(w * (self.f - c)**2) - np.sum(np.log(w)))

    def grad(self, x):
        c = np.asarray(x) @ self.A
        w = self.i / (self.eta + self.i * self.v * c**2)
        dw = -w**2 * 2 * self.v * c
        d = dw * (self.f - c)**2 - 2 * w * (self.f - c) - dw / w
        return self.A @ d

    def hess(self, x):
        n, h = self.n, np.zeros((self.n, self.n))
        s = 1e-5 * max(1e-3, np.abs(x).max())
        for k in range(n):
            e = np.zeros(n)
            e[k] = s
            h[k] = (self.grad(x + e) - self.grad(x - e)) / 2 / s
        return (h + h.T) / 2

    def polish(self, x):
        r = minimize(self, x, jac=self.grad, method='BFGS',
                     options=dict(gtol=1e-9, maxiter=400))
        return r.x if r.fun <= self(x) else np.asarray(x)


# ------------------------------------------------------------------- fit
@st.composite
def fit_cases(draw):
    f = draw(functions())
    sm = draw(fg.samples(nspec=(1, 1), npix=(60, 110), dws=(2.4, 4.8),
                         pbads=(0.0, 0.05, 0.3), zs=(2.2, 3.1)))
    return dict(f=f, sm=sm, kind=draw(st.sampled_from(
        ['normal'] * 5 + ['noiseless', 'noiseless', 'negative', 'crossing',
                          'hidden', 'zero'])),
        mini=draw(st.sampled_from(['iminuit', 'l_bfgs_b'])),
        smooth=draw(st.sampled_from([0.0, 16.0])),
        tilt=draw(st.sampled_from([0.0, 0.2, -0.3])),
        curve=draw(st.sampled_from([0.0, 0.1])),
        scale=draw(st.sampled_from([0.5, 2.0, 4.0, 0.02, 100.0, 1000.0])),
        junk=draw(st.booleans()),
        stale=draw(st.booleans()))


def truth(case, fn, k=0):
    amp = case['sm']['amp'][k]
    x = np.array([amp, amp * case['tilt'], amp * case['curve']])
    if case['kind'] == 'negative':
        x = -x
    if case['kind'] == 'crossing':
        x = amp * np.array([0.3, 1.5, 0.0])
    if case['kind'] == 'hidden':
        x = amp * np.array([0.8, 1.1, 0.0])
    if case['kind'] == 'zero':
        x = np.zeros(3)
    return x[:fn.f['order'] + 1]


def build(case, fn):
    x = truth(case, fn)
    noise = case['kind'] not in ('noiseless', 'zero')
    s, = fg.spectra_of(case['sm'], WIN, case['smooth'], noise=noise,
                       model=lambda k, w, z: fn.cont(x, w, z))
    if case['kind'] == 'hidden':
        # the continuum is negative in masked pixels only
        for a, w in s.forestwave.items():
            g = fn.cont(x, w, s.z_qso) < 0.1 * x[0]
            s.forestflux[a][g] = 0
            s.forestivar[a][g] = 0
        if not any(np.any(i > 0) for i in s.forestivar.values()):
            raise Skip()
        with quiet():
            s.set_smooth_forestivar(case['smooth'])
    return s, x


def scaled(case, fn, s):
    t, _ = build(case, fn)
    for a in t.forestwave:
        t.forestflux[a][:] = t.forestflux[a] * s
        t.forestivar[a][:] = t.forestivar[a] / s**2
    with quiet():
        t.set_smooth_forestivar(case['smooth'])
    return t


def always_fails(case, fn, model):
    """L-BFGS-B may end abnormally by rounding when started at the minimum;
    then the same data in other flux units must be fitted."""
    if case['mini'] == 'iminuit':
        return True
    for s in (0.5, 1.7, 4.0, 0.3):
        t = scaled(case, fn, s)
        model.init_spectra([t])
        with quiet():
            model.fit_continuum(t)
        if t.cont_params['valid']:
            return False
    return True


def sigma_dist(C, x, y):
    """Distance of two parameter vectors in standard deviations."""
    h = C.hess(x) / 2
    d = np.asarray(y) - np.asarray(x)
    return float(np.sqrt(max(d @ h @ d, 0)))


def verify(spec, fn, C, what, order):
    """A fitted spectrum against the model; returns parameters or None."""
    p = spec.cont_params
    check(p['method'] == 'picca', "%s method %r", what, p['method'])
    nreal = sum(int((i > 0).sum()) for i in spec.forestivar.values())
    check(p['dof'] == nreal - order - 1, "%s: dof %s, %d valid pixels", what,
          p['dof'], nreal)
    check(np.shape(p['x']) == (order + 1,), "%s: parameters %s", what, p['x'])
    if not p['valid']:
        check(p['cont'] is None, "%s: invalid fit with a continuum", what)
        check(p['chi2'] == -1, "%s: invalid fit with chi2 %s", what,
              p['chi2'])
        return None
    x = np.asarray(p['x'], dtype='f8')
    check(np.all(np.isfinite(x)), "%s: parameters %s", what, x)
    check(set(p['cont']) == set(spec.forestwave), "%s: continuum arms", what)
    chi2 = 0.
    for a, w in spec.forestwave.items():
        want = fn.cont(x, w, spec.z_qso)
        got = np.asarray(p['cont'][a])
        check(np.all(got > 0), "%s: valid continuum with values down to %s",
              what, got.min())
        close(got, want, f"{what} continuum {a}", rtol=1e-7,
              scale=np.abs(want).max())
        v, e = fn.vleta(w)
        i = spec.forestivar_sm[a]
        wt = i / (e + i * v * want**2)
        close(spec.forestweight[a], wt, f"{what} weight {a}", rtol=1e-6)
        g = i > 0
        chi2 += float(np.sum((wt * (spec.forestflux[a] - want)**2)[g]))
    close([p['chi2']], [chi2], what + " chi2", rtol=1e-6, atol=1e-8)
    return x


def run_fit(case, tmp):
    fn = Functions(case['f'])
    order = case['f']['order']
    spec, x_true = build(case, fn)
    if not spec.forestwave:
        return False
    model = fn.model(case['mini'])
    if case['junk']:
        # values behind masked pixels are irrelevant
        rng = rng_of(7)
        for a in spec.forestwave:
            g = spec.forestivar[a] == 0
            spec.forestflux[a][g] = rng.normal(size=int(g.sum())) * 100
    C = Cost(fn, spec)
    if C.w.size < 8 * (order + 1):
        return False
    model.init_spectra([spec])
    before = {a: [np.array(d[a]) for d in (
        spec.forestwave, spec.forestflux, spec.forestivar,
        spec.forestivar_sm)] for a in spec.forestwave}
    if case['stale']:
        # an earlier fit with other functions leaves nothing behind
        g = dict(case['f'], vl=0.3, mf=0.1)
        with quiet():
            Functions(g).model(case['mini']).fit_continuum(spec)
    with quiet():
        model.fit_continuum(spec)
    for a, arrs in before.items():
        for d, b, nm in zip((spec.forestwave, spec.forestflux,
                             spec.forestivar, spec.forestivar_sm), arrs,
                            ('wave', 'flux', 'ivar', 'smoothed ivar')):
            same(d[a], b, f"{nm} of {a} after the fit")
    what = f"{case['kind']} {case['mini']}"
    if case['kind'] == 'zero':
        # no signal at all: whatever is decided, a valid one is positive
        x = verify(spec, fn, C, what, order)
        return dict(nontrivial=True, tags=['zero'])
    x = verify(spec, fn, C, what, order)
    snr = case['sm']['snr'][0]
    tags = [case['kind'], case['mini'], f"order{order}",
            'valid' if x is not None else 'invalid']
    # reference minimum reached from the truth
    ref = C.polish(x_true)
    H = C.hess(ref)
    if np.linalg.eigvalsh(H)[0] <= 0:
        return dict(nontrivial=False, tags=tags)
    allw = np.concatenate([w for w in spec.forestwave.values()])
    cref = fn.cont(ref, allw, spec.z_qso)
    # spread of the continuum under the parameter errors
    m, t, g = fn.shape(allw, spec.z_qso)
    B = m * g * np.array([t**k for k in range(order + 1)])
    sig = np.sqrt(np.einsum('ki,kl,li->i', B, 2 * np.linalg.inv(H), B))
    strong = snr >= 3 and C.w.size >= 20 * (order + 1)
    if x is not None:
        y = C.polish(x)
        check(C(x) <= C(y) + 0.02, "%s: cost %.6f at %s, but %.6f at %s",
              what, C(x), x, C(y), y)
        if strong and np.all(cref > 5 * sig):
            check(C(x) <= C(ref) + 0.02, "%s: cost %.6f at %s, but %.6f at "
                  "%s", what, C(x), x, C(ref), ref)
            cov = np.asarray(spec.cont_params['xcov'])
            check(cov.shape == (order + 1,) * 2, "xcov shape %s", cov.shape)
        check(not np.any(y @ B < -0.1 * sig), "%s: minimum %s is negative "
              "but the fit is valid", what, y)
    elif strong and np.all(cref > 5 * sig) and always_fails(
            case, fn, model):
        check(False, "%s: fit invalid, the minimum is at %s with positive "
              "continuum %.3g +- %.3g", what, ref, cref.min(), sig.max())
    if case['kind'] == 'noiseless' and case['f']['vl'] == 0 and snr >= 3 \
            and strong and x is not None:
        check(sigma_dist(C, x_true, x) < 0.2, "%s: %s fitted, truth is %s",
              what, x, x_true)
    if case['kind'] == 'negative' and strong and np.all(cref < -5 * sig):
        check(x is None or C(x) < C(ref) - 1, "%s: negative spectrum has a "
              "valid continuum", what)
    # scaling
    if strong and x is not None and np.all(cref > 5 * sig):
        s = case['scale']
        t = scaled(case, fn, s)
        model.init_spectra([t])
        with quiet():
            model.fit_continuum(t)
        if case['mini'] == 'l_bfgs_b' and not t.cont_params['valid']:
            return dict(nontrivial=True, tags=tags + ['abnormal'])
        check(t.cont_params['valid'], "%s: not fitted after scaling by %s",
              what, s)
        check(sigma_dist(C, x, t.cont_params['x'] / s) < 0.2,
              "%s: parameters %s become %s when scaled by %s", what, x,
              t.cont_params['x'], s)
        if case['mini'] == 'iminuit' and not 0.05 < s < 20:
            # errors scale as well, up to the accuracy of minuit
            r = [np.sqrt(np.diag(u.cont_params['xcov'])) for u in (spec, t)]
            check(np.all(np.abs(np.log10(r[1] / r[0] / s)) < 1), "%s: errors "
                  "%s become %s when scaled by %s", what, r[0], r[1], s)
        # the other minimiser
        other = 'iminuit' if case['mini'] != 'iminuit' else 'l_bfgs_b'
        u, _ = build(case, fn)
        m2 = fn.model(other)
        m2.init_spectra([u])
        with quiet():
            m2.fit_continuum(u)
        if other == 'l_bfgs_b' and not u.cont_params['valid']:
            return dict(nontrivial=True, tags=tags + ['abnormal'])
        check(u.cont_params['valid'] and sigma_dist(
            C, x, u.cont_params['x']) < 0.25, "minimisers disagree: %s and "
            "%s %s", x, u.cont_params['valid'], u.cont_params['x'])
        tags.append('scaled')
    return dict(nontrivial=x is not None or case['kind'] in (
        'negative', 'crossing'), tags=tags)


# ------------------------------------------------------------------ lists
@st.composite
def list_cases(draw):
    # nearly all of a larger sample fail
    few = draw(st.integers(0, 7)) == 0
    nmax = 17 if few else 7
    return dict(sm=draw(fg.samples(nspec=(13, 17) if few else (1, 7), npix=(50, 80),
                                   dws=(4.8,), zs=(2.2, 3.1),
                                   near=True)),
                neg=[few and k != 4 or not few and draw(st.integers(0, 3))
                     == 0 for k in range(nmax)],
                allneg=draw(st.integers(0, 5)) == 0,
                size=draw(st.integers(1, 3)),
                order=draw(st.integers(0, 2)),
                perm=draw(st.integers(0, 9999)),
                mini=draw(st.sampled_from(['iminuit', 'l_bfgs_b'])))


def run_list(case, tmp):
    sm = case['sm']
    n = len(sm['z'])
    neg = [case['allneg'] or b for b in case['neg'][:n]]

    def make():
        out = fg.spectra_of(sm, WIN, 16.0, model=lambda k, w, z: (
            -1. if neg[k] else 1.) * sm['amp'][k] * np.ones_like(w))
        return [s for s in out if s.forestwave]
    specs = make()
    if not specs:
        return False
    kw = dict(wave1=WIN[0], wave2=WIN[1], cont_order=case['order'],
              minimizer=case['mini'])
    # each spectrum alone
    alone = make()
    for s in alone:
        f = fg.fitter_of(**kw)
        f.model.init_spectra([s])
        with quiet():
            f.model.fit_continuum(s)
    p = list(rng_of(case['perm']).permutation(len(specs)))

    def fn(comm, rank, size):
        f = fg.fitter_of(**kw)
        mine = [specs[k] for k in p[rank::size]]
        f.model.init_spectra(mine)
        err = None
        with quiet():
            try:
                f.fit_continua(mine)
            except QsonicException:
                err = True
        return [(k, sg.snapshot(s) if s.cont_params['cont'] is not None
                 else None) for k, s in zip(p[rank::size], mine)], err
    vals = simmpi.collect(fn, case['size'])
    none = not any(s.cont_params['valid'] for s in alone)
    for r, (res, err) in enumerate(vals):
        check(bool(err) == none, "rank %d: %s although %d of %d fits are "
              "valid", r, 'error' if err else 'no error',
              sum(s.cont_params['valid'] for s in alone), len(alone))
        for k, snap in res:
            a = alone[k]
            check((snap is not None) == a.cont_params['valid'],
                  "quasar %d valid alone: %s, in a list: %s", k,
                  a.cont_params['valid'], snap is not None)
            if snap is not None:
                d = sg.same_snapshot(sg.snapshot(a), snap)
                check(d is None, "quasar %d: %s depends on the others", k, d)
    return dict(nontrivial=len(specs) > 1, tags=[
        'none' if none else 'some', f"ranks{case['size']}"])


SUBS = [
    Sub('fit', fit_cases, run_fit, quick=900, thorough=12000, shards=6,
        rule="a continuum was fitted, or had to be refused"),
    Sub('list', list_cases, run_list, quick=240, thorough=3000, shards=4,
        rule="more than one quasar"),
]
