"""Writers of DESI-like spectra files used by several checks."""
import os

import fitsio
import numpy as np


def write_spectra(path, fibermap, wave, flux, ivar, mask, reso=None):
    """fibermap: dict of columns; flux/ivar/mask: dict arm -> (n, npix)."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write([np.asarray(v) for v in fibermap.values()],
                names=list(fibermap), extname='FIBERMAP')
        for arm in wave:
            f.write(np.asarray(wave[arm]), extname=f'{arm}_WAVELENGTH')
            f.write(np.asarray(flux[arm]), extname=f'{arm}_FLUX')
            f.write(np.asarray(ivar[arm]), extname=f'{arm}_IVAR')
            f.write(np.asarray(mask[arm]), extname=f'{arm}_MASK')
            if reso and arm in reso:
                f.write(np.asarray(reso[arm]), extname=f'{arm}_RESOLUTION')


def write_truth(path, ids, cont, wmin, dwave, reso):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    n = cont.shape[1]
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write([np.asarray(ids), np.asarray(cont)],
                names=['TARGETID', 'TRUE_CONT'], extname='TRUE_CONT',
                header=dict(WMIN=wmin, WMAX=wmin + dwave * (n - 1),
                            DWAVE=dwave))
        for arm, r in (reso or {}).items():
            f.write(np.asarray(r), extname=f'{arm}_RESOLUTION')


def coadd_path(root, survey, pix, kind='coadd', program='dark'):
    return (f"{root}/{survey}/{program}/{pix // 100}/{pix}/"
            f"{kind}-{survey}-{program}-{pix}.fits")


def tile_path(root, tile, night, petal):
    return f"{root}/{tile}/{night}/coadd-{petal}-{tile}-thru{night}.fits"


def mock_path(root, pix, kind='spectra', nside=16):
    return f"{root}/{pix // 100}/{pix}/{kind}-{nside}-{pix}.fits"
