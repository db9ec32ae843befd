"""Fitters, arguments and spectra for the continuum-fitting checks."""
import numpy as np
from hypothesis import strategies as st

from .util import quiet, rng_of


def args_of(outdir=None, **kw):
    """Parsed qsonic-fit options, overridden by attribute name."""
    from qsonic.scripts.qsonic_fit import get_parser
    a = get_parser().parse_args(
        ['--input-dir', 'in', '--catalog', 'c.fits', '--outdir', 'out'])
    a.outdir = outdir
    for k, v in kw.items():
        if not hasattr(a, k):
            raise RuntimeError("no option " + k)
        setattr(a, k, v)
    return a


def fitter_of(**kw):
    from qsonic.picca_continuum import PiccaContinuumFitter
    return PiccaContinuumFitter(args_of(**kw))


@st.composite
def samples(draw, nspec=(1, 8), arms=(1, 2, 3), npix=(40, 90), dws=(2.4, 4.8),
            pbads=(0.0, 0.05, 0.4), zs=(2.0, 3.2), near=False):
    """Quasar sample: grids on one lattice, forests inside the window.

    near: redshifts may be drawn close to each other, so that forests share
    their number of pixels and nearly their wavelengths."""
    n = draw(st.integers(*nspec))
    dw = draw(st.sampled_from(list(dws)))
    narm = draw(st.sampled_from(list(arms)))
    nb = draw(st.integers(*npix))
    lay, off = [], 0
    for nm in ['B', 'R', 'Z'][:narm]:
        k = nb + draw(st.integers(0, 20))
        lay.append([nm, off, k])
        off += k - draw(st.sampled_from([0, 6, -5]))
    z = [round(draw(st.floats(*zs)), 3) + 0.000137 for _ in range(n)]
    if near and draw(st.booleans()):
        z = [z[0] + draw(st.integers(-20, 20)) * 2e-4 for _ in range(n)]
    return dict(
        dw=dw, w0=3601.13, lay=lay, z=z,
        amp=[draw(st.sampled_from([1.0, 0.2, 6.0])) for _ in range(n)],
        tilt=[draw(st.sampled_from([0.0, 0.25, -0.4])) for _ in range(n)],
        snr=[draw(st.sampled_from([0.8, 3.0, 20.0])) for _ in range(n)],
        pbad=draw(st.sampled_from(list(pbads))),
        seed=draw(st.integers(0, 10**6)))


def spectra_of(c, win, smooth=0.0, noise=True, model=None):
    """Spectrum objects of a sample with forests set.

    model(k, wave, z) is the noiseless flux of quasar k."""
    from qsonic.spectrum import Spectrum
    rng = rng_of(c['seed'])
    out = []
    cat = np.zeros(len(c['z']), dtype=[
        ('TARGETID', 'i8'), ('Z', 'f8'), ('RA', 'f8'), ('DEC', 'f8'),
        ('HPXPIXEL', 'i8'), ('SURVEY', 'U8'), ('LASTNIGHT', 'i8')])
    cat['TARGETID'] = 1001 + 7 * np.arange(cat.size)
    cat['Z'] = c['z']
    cat['RA'] = rng.uniform(0, 360, cat.size)
    cat['DEC'] = rng.uniform(-80, 80, cat.size)
    cat['SURVEY'] = 'main'
    for k in range(cat.size):
        wave, flux, ivar, mask = {}, {}, {}, {}
        for nm, off, n in c['lay']:
            w = c['w0'] + (off + np.arange(n)) * c['dw']
            if model is None:
                x = np.log(w / (1 + c['z'][k]) / 1120.)
                t = c['amp'][k] * (1 + c['tilt'][k] * x / 0.08)
            else:
                t = model(k, w, c['z'][k])
            sig = np.abs(c['amp'][k]) / c['snr'][k] * np.exp(
                rng.normal(scale=0.3, size=n))
            f = t + noise * (sig * rng.normal(size=n) + 0.2 * t * rng.normal(
                size=n))
            m = (rng.random(n) < c['pbad']).astype(int)
            f[m > 0] = rng.normal(size=int(m.sum())) * 1e4
            wave[nm], flux[nm], ivar[nm], mask[nm] = (
                w, f[None], 1 / sig[None]**2, m[None])
        s = Spectrum(cat[k], wave, flux, ivar, mask, {}, 0)
        s.set_forest_region(*win)
        with quiet():
            s.set_smooth_forestivar(smooth)
        out.append(s)
    return out
