"""Reference for the update of the mean continuum."""
import numpy as np
from scipy.interpolate import CubicSpline, UnivariateSpline
from scipy.special import eval_legendre

from .util import close, quiet, rng_of


def legs(x, order, y):
    """Project out Legendre orders and normalise (reference)."""
    y = y.copy()

    def integral(v):
        return float(CubicSpline(x, v, bc_type='natural').integrate(0, 1))
    for k in range(1, order + 1):
        p = eval_legendre(k, 2 * x - 1)
        y = y - (2 * k + 1) * integral(y * p) * p
    m = integral(y)
    return y / m, m, integral


def variants(rfw, nf, ns, seed, n=8, eps=4e-16):
    """Smoothing splines of the stack with a jitter of a few ulp: the number
    of knots can hinge on rounding."""
    jit = rng_of(seed)
    out = []
    with quiet() as q:
        for t in range(n):
            j = 1 + eps * jit.normal(size=(2, rfw.size)) * (t > 0)
            out.append(UnivariateSpline(rfw, nf * j[0], w=j[1] / ns)(rfw))
    return np.array(out), len(q.w) > 0


def chain(att, names, order, residual):
    """Each saved mean continuum is the update of the one before it with the
    saved rest-frame stack. Returns the number of compared updates."""
    n = 0
    for prev, cur in zip(names, names[1:]):
        old = att['CONT' + prev]['mean_cont']
        t, rf = att['CONT' + cur], att['STACKED_FLUX_RF' + cur]
        rfw = t['lambda_rf']
        nf = rf['stacked_flux_rf'].copy()
        ns = rf['e_stacked_flux_rf'].copy()
        good = ns > 0
        if not good.any():
            continue
        nf[~good], ns[~good] = nf[good].mean(), 10 * ns[good].mean()
        try:
            v, bad = variants(rfw, nf, ns, 1)
        except Exception:
            continue
        if bad or not np.all(np.isfinite(v)):
            continue
        if np.ptp(v, axis=0).max() > 1e-8 * np.abs(v).max():
            continue
        raw = v[0] * old if residual else v[0]
        x = np.log(rfw / rfw[0]) / np.log(rfw[-1] / rfw[0])
        new, mean, _ = legs(x, order, raw)
        if abs(mean) < 1e-3 * np.abs(raw).max():
            continue
        what = f"CONT{cur} from CONT{prev} and STACKED_FLUX_RF{cur}"
        close(t['mean_cont'], new, what, rtol=1e-6, scale=np.abs(new).max())
        close(t['e_mean_cont'], ns / mean, "error in " + what, rtol=1e-6)
        n += 1
    return n
