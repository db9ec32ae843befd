"""Delta tables written independently of the package."""
import numpy as np
import fitsio


def make_delta(rng, i0, n, snr, vlss, pbad, nd, w00=3600., dw=0.8, eta=1.0):
    """One delta on the common grid w00 + dw*k, k = i0 .. i0+n-1."""
    wave = w00 + dw * (i0 + np.arange(n))
    ivar = (snr * rng.uniform(0.5, 2.0, n))**2
    vl = vlss * (wave / 4000.)**3
    weight = ivar / (eta + ivar * vl)
    delta = rng.normal(size=n) * 0.4
    cont = rng.uniform(0.5, 3.0, n)
    bad = rng.random(n) < pbad
    if bad.all():
        bad[rng.integers(n)] = False
    ivar[bad] = 0
    weight[bad] = 0
    delta[bad] = 0
    reso = None
    if nd:
        x = np.arange(nd) - nd // 2
        s = rng.uniform(0.8, 1.6, n)
        reso = np.exp(-x[:, None]**2 / 2 / s[None, :]**2)
        reso = reso / reso.sum(0)
    return dict(wave=wave, delta=delta, ivar=ivar, weight=weight, cont=cont,
                reso=reso)


def header(tid, ra, dec, z, blinding='none', extra=None, msnr=1.5, dw=0.8):
    h = {'LOS_ID': tid, 'TARGETID': tid, 'RA': np.radians(ra),
         'DEC': np.radians(dec), 'Z': z, 'BLINDING': blinding,
         'WAVE_SOLUTION': 'lin', 'MEANSNR': msnr, 'RSNR': 2.5,
         'DELTA_LAMBDA': dw, 'SMSCALE': 16.}
    h.update(extra or {})
    return h


def write_file(path, items, blind=False):
    """items: list of (header, delta dict, extname)."""
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        if not items:
            f.write(None)
        for h, d, ext in items:
            cols = [d['wave'], d['delta'], d['ivar'], d['weight'], d['cont']]
            names = ['LAMBDA', 'DELTA_BLIND' if blind else 'DELTA', 'IVAR',
                     'WEIGHT', 'CONT']
            if d['reso'] is not None:
                cols.append(np.ascontiguousarray(d['reso'].T))
                names.append('RESOMAT')
            f.write(cols, names=names, header=h, extname=ext)
