"""Whole-survey generation, running qsonic-fit on simulated ranks, and a
reference model of everything before the continuum fit.

Nothing here imports spectrum/io/mask/calibration code of the package except
through ``run_fit`` (the reference is written from the documentation)."""
import os
import sys

import fitsio
import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline
from healpy import ang2pix

from . import filegen as fg
from . import simmpi
from .util import rng_of

CKMS = 299792.458
LYA = 1215.67
SURVEYS = ['main', 'sv1', 'sv3']
NVAR = 10
EXPCOLS = ['NIGHT', 'EXPID', 'TILEID', 'FIBER', 'PETAL_LOC']


# ------------------------------------------------------------------ generator
@st.composite
def surveys(draw, kinds=('data', 'tile', 'mock'), max_qso=8, small=False,
            exposures=False, min_qso=3, rich=False, npos=(1, 4)):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(min_qso, max_qso))
    base = draw(st.sampled_from([0, 39627000000000000, 2**33]))
    ids = draw(st.lists(st.integers(1, 9999), min_size=n, max_size=n,
                        unique=True))
    npos = draw(st.integers(*npos))
    pos = [[draw(st.integers(0, 359)) + 0.25, draw(st.integers(-80, 80))
            + 0.25] for _ in range(npos)]
    nsurv = draw(st.sampled_from([1, 1, 2, 3]))
    if kind == 'mock':
        nsurv = 1
    hpxcol = draw(st.booleans())
    qso = []
    for i in range(n):
        p = draw(st.integers(0, npos - 1))
        qso.append(dict(
            tid=base + ids[i],
            z=draw(st.sampled_from(
                [2.2, 2.35, 2.5, 2.6, 2.75, 2.41, 2.3, 2.7, 2.45, 2.55]
                if rich else \
                 [2.2, 2.35, 2.5, 2.6, 2.75, 2.41, 2.3, 2.7, 2.05, 2.9, 1.9,
                 3.3])) + 0.00137,
            pos=p, survey=draw(st.integers(0, nsurv - 1)),
            petal=draw(st.integers(0, 3)),
            night=20210101 + p,
            amp=draw(st.sampled_from([1.0, 5.0, 0.3])),
            snr=draw(st.sampled_from([2.0, 5.0, 0.7, 10.0])),
            tilt=draw(st.sampled_from([0.0, 0.2, -0.3])),
            dead=draw(st.sampled_from([None] * (12 if rich else 6)
                                      + ['B', 'R'])),
            absent=draw(st.sampled_from([False] * (19 if rich else 9)
                                        + [True])),
            bal=draw(st.sampled_from([0, 0, 0, 1])),
            redneg=draw(st.sampled_from([False] * (29 if rich else 14)
                                        + [True])),
            nexp=draw(st.integers(1, 3)) if exposures else 1))
    dw = draw(st.sampled_from([2.4, 2.0, 3.0] if small else
                              [2.4, 2.0, 1.6]))
    nb = draw(st.integers(140, 200))
    return dict(
        kind=kind, qso=qso, pos=pos, seed=draw(st.integers(0, 99999)),
        dw=dw, nb=nb, overlap=draw(st.sampled_from([0, 1, 9, 20, -3])),
        pbad=draw(st.sampled_from([0.0, 0.02, 0.1])), hpxcol=hpxcol,
        extra=draw(st.integers(0, 2)), exposures=bool(exposures),
        order=draw(st.integers(0, 999)),
        dtype=draw(st.sampled_from(['f8', 'f4'])))


def hpx(sv, q):
    """Healpixel number of a quasar as the catalogue or position gives it."""
    if sv['hpxcol']:
        # an arbitrary but valid number per position
        return 100 + 37 * q['pos']
    ra, dec = sv['pos'][q['pos']]
    return int(ang2pix(16 if sv['kind'] == 'mock' else 64, ra, dec,
                       lonlat=True, nest=True))


def tile(q):
    return 1000 + q['pos']


def group(sv, q):
    return tile(q) if sv['kind'] == 'tile' else hpx(sv, q)


def ngroups(sv, qsos):
    return len({group(sv, q) for q in qsos})


def waves(sv):
    """Arms on one grid starting at 3600 A."""
    nb = sv['nb']
    n2 = int(round(1000. / sv['dw'])) - nb + sv['overlap']
    b = np.arange(nb)
    r = nb - sv['overlap'] + np.arange(n2)
    z = r[-1] - 4 + np.arange(60)
    return {'B': 3600. + sv['dw'] * b, 'R': 3600. + sv['dw'] * r,
            'Z': 3600. + sv['dw'] * z}


def row_data(sv, i, iexp=None):
    """Pixel arrays of quasar i (its coadd, or exposure iexp)."""
    q = sv['qso'][i]
    rng = rng_of([sv['seed'], i, 0 if iexp is None else 1 + iexp])
    wv = waves(sv)
    out = dict(flux={}, ivar={}, mask={}, reso={})
    for k, arm in enumerate('BRZ'):
        w = wv[arm]
        x = np.log(w / 4000.)
        cont = q['amp'] * (1 + q['tilt'] * 5 * x) * (
            1 + 0.1 * np.sin(w / (1 + q['z']) / 15.))
        # a wide spread of noise levels: fills the variance bins
        sig = cont / q['snr'] * 10**rng.uniform(-0.9, 0.7, w.size)
        f = cont * (1 + 0.3 * rng.normal(size=w.size)) \
            + sig * rng.normal(size=w.size)
        if q.get('redneg'):     # oversubtracted sky
            f[w > (1 + q['z']) * 1215.67] *= -1
        iv = 1 / sig**2
        m = np.zeros(w.size, 'i4')
        bad = rng.random(w.size) < sv['pbad']
        if arm in (q['dead'], q.get('dcoadd') if iexp is None
                   else q.get('dexp', {}).get(str(iexp))):
            bad[:] = True
        for b in np.nonzero(bad)[0]:
            c = rng.integers(3)
            if c == 0:
                m[b] = 1 << int(rng.integers(0, 8))
            elif c == 1:
                iv[b] = 0
            else:
                f[b] = np.nan
        nd = 7 + 2 * (k % 2)
        d = np.arange(nd) - nd // 2
        s = rng.uniform(0.9, 1.4, w.size)
        r = np.exp(-d[:, None]**2 / 2 / s[None, :]**2)
        out['flux'][arm] = f.astype(sv['dtype'])
        out['ivar'][arm] = iv.astype(sv['dtype'])
        out['mask'][arm] = m
        out['reso'][arm] = (r / r.sum(0)).astype('f4')
    return out


def mock_reso(sv):
    wv = waves(sv)
    out = {}
    for k, arm in enumerate('BRZ'):
        d = np.arange(9) - 4
        s = 1 + 0.2 * np.sin(wv[arm] / 200. + k)
        r = np.exp(-d[:, None]**2 / 2 / s[None, :]**2)
        out[arm] = r / r.sum(0)
    return out


TCW1, TCDW, TCN = 3500., 10., 130


def true_cont(sv, i):
    w = TCW1 + TCDW * np.arange(TCN)
    q = sv['qso'][i]
    return q['amp'] * (1.2 + 0.3 * np.sin(w / 90. + i))


def expinfo(sv, i, k):
    """FIBERMAP values of exposure k of quasar i."""
    e = 10 * i + k
    return dict(NIGHT=20210100 + e % 28, EXPID=70000 + 13 * e,
                TILEID=500 + e % 7, FIBER=(97 * e) % 5000, PETAL_LOC=e % 10)


def write_survey(sv, root, opt):
    """Writes catalogue, spectra and all auxiliary files."""
    wv = waves(sv)
    files = {}
    for i, q in enumerate(sv['qso']):
        files.setdefault(
            (group(sv, q), q['petal'] if sv['kind'] == 'tile' else
             q['survey'] if sv['kind'] == 'data' else 0), []).append(i)
    for (g, sub), members in sorted(files.items()):
        rng = rng_of([sv['seed'], g, sub, 77])
        for mode in (['coadd', 'expo'] if sv['exposures'] else ['coadd']):
            rows, ids, info = [], [], []
            for i in members:
                q = sv['qso'][i]
                if q['absent']:
                    continue
                for k in ([None] if mode == 'coadd' else range(q['nexp'])):
                    rows.append(row_data(sv, i, k))
                    ids.append(q['tid'])
                    info.append(expinfo(sv, i, k or 0))
            for k in range(sv['extra'] or (0 if rows else 1)):
                rows.append(row_data(dict(sv, seed=sv['seed'] + 5), 0, 9))
                ids.append(max(q['tid'] for q in sv['qso']) + 1 + k)
                info.append(expinfo(sv, 99, k))
            perm = rng.permutation(len(ids))
            rows = [rows[j] for j in perm]
            ids = np.array(ids, 'i8')[perm]
            info = [info[j] for j in perm]
            fm = dict(TARGETID=ids)
            for c in EXPCOLS:
                fm[c] = np.array([x[c] for x in info], 'i4')

            def stack(key):
                return {a: np.stack([r[key][a] for r in rows]) for a in 'BRZ'}
            kw = dict(reso=None if sv['kind'] == 'mock' else stack('reso'))
            night = sv['qso'][members[0]]['night']
            if sv['kind'] == 'data':
                path = fg.coadd_path(opt.input_dir, SURVEYS[sub], g,
                                     'coadd' if mode == 'coadd'
                                     else 'spectra')
            elif sv['kind'] == 'tile':
                path = fg.tile_path(opt.input_dir, g, tile_night(sv, g), sub)
            else:
                path = fg.mock_path(opt.input_dir, g)
                tc = [true_cont(sv, [m for m in members
                                     if sv['qso'][m]['tid'] == t][0])
                      if t in [sv['qso'][m]['tid'] for m in members]
                      else np.ones(TCN) for t in ids]
                p2 = rng.permutation(len(ids))
                fg.write_truth(fg.mock_path(opt.input_dir, g, 'truth'),
                               ids[p2], np.array(tc)[p2], TCW1, TCDW,
                               mock_reso(sv))
            del night
            fg.write_spectra(path, fm, wv, stack('flux'), stack('ivar'),
                             stack('mask'), **kw)
    write_catalog(sv, opt)
    for f in opt.aux:
        f()


def tile_night(sv, t):
    return max(q['night'] for q in sv['qso'] if tile(q) == t)


def night_of(sv, q):
    return tile_night(sv, tile(q)) if sv['kind'] == 'tile' else q['night']


def write_catalog(sv, opt):
    n = len(sv['qso'])
    dt = [('Z', 'f8'), ('TARGETID', 'i8'), ('RA', 'f8'), ('DEC', 'f8')]
    if sv['kind'] != 'mock':
        dt += [('SURVEY', 'U6'), ('LASTNIGHT', 'i4')]
    if sv['kind'] == 'tile':
        dt += [('TILEID', 'i4'), ('PETAL_LOC', 'i2')]
    if sv['hpxcol']:
        dt += [('HPXPIXEL', 'i8')]
    dt += [('VMIN_CIV_450', 'f8', 2), ('VMAX_CIV_450', 'f8', 2),
           ('VMIN_CIV_2000', 'f8', 3), ('VMAX_CIV_2000', 'f8', 3)]
    cat = np.zeros(n, dtype=dt)
    for i, q in enumerate(sv['qso']):
        cat['Z'][i] = q['z']
        cat['TARGETID'][i] = q['tid']
        cat['RA'][i], cat['DEC'][i] = sv['pos'][q['pos']]
        if sv['kind'] != 'mock':
            cat['SURVEY'][i] = SURVEYS[q['survey']]
            cat['LASTNIGHT'][i] = night_of(sv, q)
        if sv['kind'] == 'tile':
            cat['TILEID'][i], cat['PETAL_LOC'][i] = tile(q), q['petal']
        if sv['hpxcol']:
            cat['HPXPIXEL'][i] = hpx(sv, q)
        if q['bal']:
            cat['VMIN_CIV_450'][i] = [3000., 0.]
            cat['VMAX_CIV_450'][i] = [6000., 0.]
    cat = cat[rng_of(sv['order']).permutation(n)]
    with fitsio.FITS(opt.catalog, 'rw', clobber=True) as f:
        f.write(cat, extname='QSO_CAT')


# ------------------------------------------------------------------ options
class Options:
    """All qsonic-fit options of a run. Unset ones keep their default."""
    def __init__(self, sv, root, win=(1040., 1200.), wave=(3600., 4320.),
                 keep=None, **kw):
        self.input_dir = os.path.join(root, 'in')
        os.makedirs(self.input_dir, exist_ok=True)
        self.catalog = os.path.join(root, 'cat.fits')
        self.outdir = os.path.join(root, 'out')
        self.kind = sv['kind']
        self.win, self.wave = list(win), list(wave)
        self.keep = keep
        self.skip = kw.pop('skip', 0.2)
        self.coadd_arms = kw.pop('coadd_arms', 'before')
        self.arms = kw.pop('arms', ['B', 'R'])
        self.min_rsnr = kw.pop('min_rsnr', None)
        self.min_forestsnr = kw.pop('min_forestsnr', None)
        self.smoothing_scale = kw.pop('smoothing_scale', 16.)
        self.skip_resomat = kw.pop('skip_resomat', False)
        self.save_by_hpx = kw.pop('save_by_hpx', False)
        self.exposures = kw.pop('exposures', 'disable')
        self.num_iterations = kw.pop('num_iterations', 2)
        self.more = kw.pop('more', [])
        self.aux = kw.pop('aux', [])
        self.cont_order = kw.pop('cont_order', 1)
        self.rfdwave = kw.pop('rfdwave', 4.0)
        assert not kw, kw
        self.root = root

    def argv(self, outdir=None):
        a = ['qsonic-fit', '--input-dir', self.input_dir, '--catalog',
             self.catalog, '--outdir', outdir or self.outdir,
             '--wave1', self.wave[0], '--wave2', self.wave[1],
             '--forest-w1', self.win[0], '--forest-w2', self.win[1],
             '--skip', self.skip, '--coadd-arms', self.coadd_arms,
             '--smoothing-scale', self.smoothing_scale,
             '--num-iterations', self.num_iterations,
             '--cont-order', self.cont_order, '--rfdwave', self.rfdwave,
             '--exposures', self.exposures, '--arms'] + list(self.arms)
        if self.kind == 'mock':
            a.append('--mock-analysis')
        if self.kind == 'tile':
            a.append('--tile-format')
        a += ['--keep-surveys'] + (self.keep or SURVEYS)
        if self.skip_resomat:
            a.append('--skip-resomat')
        if self.save_by_hpx:
            a.append('--save-by-hpx')
        if self.min_rsnr is not None:
            a += ['--min-rsnr', self.min_rsnr]
        if self.min_forestsnr is not None:
            a += ['--min-forestsnr', self.min_forestsnr]
        return [str(x) for x in a + list(self.more)]


def zrange(opt):
    tol = (opt.win[1] - opt.win[0]) * opt.skip
    return (opt.wave[0] / (opt.win[1] - tol) - 1,
            opt.wave[1] / (opt.win[0] + tol) - 1)


def selected(sv, opt):
    """Quasars of the catalogue inside the redshift and survey selection."""
    z1, z2 = zrange(opt)
    keep = opt.keep or SURVEYS
    return [q for q in sv['qso'] if z1 <= q['z'] <= z2 and (
        sv['kind'] == 'mock' or SURVEYS[q['survey']] in keep)]


def cheap_variance(nvar=NVAR, npix=1, nqso=1):
    """Fewer variance bins than the default 100, and no minimum statistics,
    so that a small generated survey can be analysed."""
    from qsonic.picca_continuum import VarLSSFitter
    VarLSSFitter.min_num_pix, VarLSSFitter.min_num_qso = npix, nqso
    real = VarLSSFitter.__init__
    if getattr(real, '_vp', False):
        return

    def init(self, *a, **k):
        if len(a) < 6:
            k.setdefault('nvarbins', nvar)
        real(self, *a, **k)
    init._vp = True
    VarLSSFitter.__init__ = init


class capture:
    """Records the exception the script logs before it ends."""
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        import logging
        path = self.path

        class H(logging.Handler):
            def emit(self, rec):
                if rec.exc_info and rec.exc_info[1] is not None:
                    import traceback
                    with open(path, 'w') as f:
                        f.write("".join(traceback.format_exception(
                            rec.exc_info[1]))[-600:])
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        self.old = list(root.handlers)
        root.handlers[:] = [H()]

    def __exit__(self, *a):
        import logging
        logging.disable(logging.CRITICAL)
        logging.getLogger().handlers[:] = self.old


def run_fit(opt, size, argv=None, before=None):
    """Runs the qsonic-fit script on simulated ranks."""
    from qsonic.picca_continuum import VarLSSFitter
    import qsonic.scripts.qsonic_fit as script
    argv = argv or opt.argv()
    real = VarLSSFitter.__init__

    def job(comm, rank, n):
        cheap_variance()
        if before:
            before(comm, rank, n)
        sys.argv = list(argv)
        with capture(os.path.join(opt.root, f'err-{rank}.txt')):
            return script.main()
    old = sys.argv
    try:
        res = simmpi.run_mpi(job, size, fork=True)
        for r, x in enumerate(res):
            fn = os.path.join(opt.root, f'err-{r}.txt')
            if os.path.exists(fn):
                x.msg += open(fn).read()
                os.remove(fn)
        return res
    finally:
        sys.argv = old
        VarLSSFitter.__init__ = real


def read_out(outdir):
    """All delta extensions: list of dict(file, ext, header, columns)."""
    import glob
    out = []
    for fn in sorted(glob.glob(outdir + '/delta-*.fits*')):
        with fitsio.FITS(fn) as f:
            for hdu in f:
                if hdu.get_exttype() != 'BINARY_TBL':
                    continue
                h = hdu.read_header()
                d = hdu.read()
                cols = {c.upper(): np.array(d[c]) for c in d.dtype.names}
                out.append(dict(file=os.path.basename(fn),
                                ext=hdu.get_extname(), header=h, cols=cols))
    return out


# ------------------------------------------------------------------ reference
def spline(x, y):
    """Cubic not-a-knot spline, extrapolating."""
    return CubicSpline(x, y, bc_type='not-a-knot', extrapolate=True)


def linear(x, y):
    """Linear interpolation extrapolating the end pieces."""
    x, y = np.asarray(x, 'f8'), np.asarray(y, 'f8')

    def f(w):
        k = np.clip(np.searchsorted(x, w, side='right') - 1, 0, x.size - 2)
        t = (w - x[k]) / (x[k + 1] - x[k])
        return y[k] * (1 - t) + y[k + 1] * t
    return f


class Ref:
    """One spectrum in the reference pipeline (plain float64 arrays)."""
    def __init__(self, sv, opt, i, iexp=None):
        q = sv['qso'][i]
        self.i, self.q, self.iexp = i, q, iexp
        self.tid, self.z = q['tid'], q['z']
        wv, d = waves(sv), row_data(sv, i, iexp)
        mr = mock_reso(sv) if sv['kind'] == 'mock' else None
        self.arms, rs, rn = {}, 0., 0
        lo = max(opt.wave[0], (1 + self.z) * opt.win[0])
        hi = min(opt.wave[1], (1 + self.z) * opt.win[1])
        for a in dict.fromkeys(opt.arms):
            f, v = d['flux'][a].astype('f8'), d['ivar'][a].astype('f8')
            bad = (d['mask'][a] != 0) | np.isnan(f) | np.isnan(v) | (v < 0)
            f[bad] = 0
            v[bad] = 0
            red = wv[a] >= (1 + self.z) * LYA
            rs += np.sum(f[red] * np.sqrt(v[red]))
            rn += np.sum(v[red] > 0)
            s = (wv[a] >= lo) & (wv[a] < hi)
            if not np.any(v[s] > 0):
                continue
            r = (mr[a] if mr else d['reso'][a].astype('f8'))[:, s]
            self.arms[a] = dict(w=wv[a][s], f=f[s], v=v[s],
                                r=None if opt.skip_resomat else r)
        self.rsnr = rs / max(rn, 1e-6)
        self.nored = rn == 0
        self.dw = sv['dw']
        self.snr = {a: self._snr(x) for a, x in self.arms.items()}

    @staticmethod
    def _snr(x):
        g = x['v'] > 0
        return np.sum(x['f'][g] * np.sqrt(x['v'][g])) / max(1, g.sum())

    def coadd(self, weights=None, cont=None):
        """Weighted coaddition onto the union grid."""
        ws = {a: x['v'] if weights is None else weights[a]
              for a, x in self.arms.items()}
        lo = min(x['w'][0] for x in self.arms.values())
        hi = max(x['w'][-1] for x in self.arms.values())
        n = int(round((hi - lo) / self.dw)) + 1
        grid = lo + self.dw * np.arange(n)
        sw, sf, s2 = np.zeros(n), np.zeros(n), np.zeros(n)
        cov = np.zeros(n, bool)
        cc = np.zeros(n)
        reso = [x['r'] for x in self.arms.values()]
        nd = max(r.shape[0] for r in reso) if reso[0] is not None else 0
        rr, rw = np.zeros((nd, n)), np.zeros(n)
        for a, x in self.arms.items():
            k = np.round((x['w'] - lo) / self.dw).astype(int)
            g = x['v'] > 0
            sw[k] += ws[a]
            sf[k] += ws[a] * x['f']
            t = np.zeros(k.size)
            t[g] = ws[a][g]**2 / x['v'][g]
            s2[k] += t
            cov[k] = True
            if cont is not None:
                cc[k] = cont[a]
            if nd:
                wr = np.where(ws[a] > 0, ws[a], 1e-8)
                p = (nd - x['r'].shape[0]) // 2
                rr[:, k] += wr * np.pad(x['r'], ((p, p), (0, 0)))
                rw[k] += wr
        g = sw > 0
        f, v = np.zeros(n), np.zeros(n)
        f[g] = sf[g] / sw[g]
        v[g] = sw[g]**2 / s2[g]
        rr[:, rw > 0] /= rw[rw > 0]
        self.arms = {'brz': dict(w=grid, f=f, v=v, r=rr if nd else None,
                                 covered=cov, c=cc)}
        self.snr = {'brz': self._snr(self.arms['brz'])}

    def size(self):
        return sum(int(np.sum(x['v'] > 0)) for x in self.arms.values())

    def drop(self, nmin):
        for a in [a for a, x in self.arms.items()
                  if np.sum(x['v'] > 0) < nmin]:
            del self.arms[a]

    def effsnr(self, fresh=False):
        s = np.array([self._snr(x) for x in self.arms.values()]
                     if fresh else list(self.snr.values()))
        return np.sum(s**3) / max(np.sum(s**2), 1e-300)


class Cuts:
    """Outcome of the pre-fit selection for one spectrum: 'in', 'out' or
    'edge' (within rounding of a threshold)."""


def prepare(sv, opt, i, iexp=None, tools=()):
    """Reads, coadds, calibrates, masks and cuts one spectrum.

    tools: callables (Ref -> None) for calibration then masking.
    Returns (Ref, verdict)."""
    r = Ref(sv, opt, i, iexp)
    if not r.arms:
        return r, 'out'
    edge = False
    cut = opt.min_rsnr if opt.min_rsnr is not None else 0.
    if r.nored and cut == 0:
        pass        # exactly zero is not below the limit
    elif abs(r.rsnr - cut) < 1e-5 * (abs(cut) + 1e-3):
        edge = True
    elif r.rsnr < cut:
        return r, 'out'
    if opt.coadd_arms == 'before' or (
            opt.exposures == 'after' and iexp is not None
            and opt.coadd_arms != 'disable'):
        r.coadd()
    masked = False
    for t in tools:
        t(r)
        masked = masked or getattr(t, 'masks', False)
    if masked:
        r.drop(1)
        if not r.arms:
            return r, 'out'
    if opt.skip > 0:
        need = opt.skip * (1 + r.z) * (opt.win[1] - opt.win[0]) / r.dw
        n = r.size()
        if abs(n - need) < 1e-6 * max(1., need):
            edge = True
        elif not n > need:
            return r, 'out'
    c2 = opt.min_forestsnr if opt.min_forestsnr is not None else 0.
    s1, s2 = r.effsnr(), r.effsnr(True) if r.arms else 0.
    tol = 1e-5 * (abs(c2) + 1e-3)
    if s1 < c2 - tol and s2 < c2 - tol:
        return r, 'out'
    if s1 < c2 + tol or s2 < c2 + tol:
        edge = True
    return r, 'edge' if edge else 'in'


# ---------------------------------------------------------- auxiliary files
BALLINES = [1549, 1403, 1394, 1240.81, 1216.1, 1175, 1128, 1117, 1074, 1062,
            1031, 1037, 1039, 1025.7, 972.5, 977.0, 989.9, 949.7]


def tool_noise(opt, fname, spec):
    """spec: [ampl, zero_at]; writes a noise calibration table."""
    w = np.linspace(3500., 4700., 25)
    eta = 1 + spec[0] * np.sin(w / 170.)
    if spec[1]:
        eta[7] = 0
    vl = 0.05 + 0.02 * np.cos(w / 200.)

    def write():
        with fitsio.FITS(fname, 'rw', clobber=True) as f:
            f.write([w, eta, vl], names=['lambda', 'eta', 'var_lss'],
                    extname='VAR_FUNC')
    opt.aux.append(write)
    eta2 = np.where(eta == 0, 1., eta)
    s = spline(w, eta2)

    def tool(r):
        for x in r.arms.values():
            x['v'] = x['v'] / s(x['w'])
    tool.varlss = spline(w, vl)
    return tool


def tool_flux(opt, fname, spec):
    w = np.linspace(3550., 4650., 111)
    sf = 1 + spec[0] * np.sin(w / 40.)
    if spec[1]:
        sf[30] = 0

    def write():
        with fitsio.FITS(fname, 'rw', clobber=True) as f:
            f.write([w, sf], names=['lambda', 'stacked_flux'],
                    extname='STACKED_FLUX')
    opt.aux.append(write)
    s = linear(w, np.where(sf == 0, 1., sf))

    def tool(r):
        for x in r.arms.values():
            c = s(x['w'])
            x['f'] = x['f'] / c
            x['v'] = x['v'] * c**2
    return tool


def tool_sky(opt, fname, rows):
    """rows: [[frame, lo, hi], ...]"""
    def write():
        with open(fname, 'w') as f:
            f.write("type wave_min wave_max frame\n")
            for k, (fr, a, b) in enumerate(rows):
                f.write(f"l{k} {a!r} {b!r} {fr}\n")
    opt.aux.append(write)

    def tool(r):
        for x in r.arms.values():
            for fr, a, b in rows:
                q = x['w'] if fr == 'OBS' else x['w'] / (1 + r.z)
                m = (q >= a) & (q < b)
                x['f'] = np.where(m, 0, x['f'])
                x['v'] = np.where(m, 0, x['v'])
    tool.masks = True
    return tool


def tool_bal():
    def tool(r):
        if not r.q['bal']:
            return
        for x in r.arms.values():
            for line in BALLINES:
                a = line * (1 + r.z) * (1 - 6000. / CKMS)
                b = line * (1 + r.z) * (1 - 3000. / CKMS)
                m = (x['w'] >= a) & (x['w'] < b)
                x['f'] = np.where(m, 0, x['f'])
                x['v'] = np.where(m, 0, x['v'])
    tool.masks = True
    return tool


def tool_dla(opt, fname, dlas):
    """dlas: [[tid, z, nhi], ...]"""
    def write():
        with fitsio.FITS(fname, 'rw', clobber=True) as f:
            f.write([np.array([d[0] for d in dlas], 'i8'),
                     np.array([d[1] for d in dlas]),
                     np.array([d[2] for d in dlas])],
                    names=['TARGETID', 'Z_DLA', 'NHI'], extname='DLACAT')
    opt.aux.append(write)

    def tool(r):
        from qsonic.masks import DLAMask
        mine = [d for d in dlas if d[0] == r.tid]
        for x in r.arms.values():
            t = np.ones(x['w'].size)
            for d in mine:
                t = t * DLAMask.get_dla_flux(x['w'], d[1], d[2])
            t[x['w'] >= (1 + r.z) * LYA] = 1
            m = t < 0.8
            x['f'] = np.where(m, 0, x['f'] / t)
            x['v'] = np.where(m, 0, x['v'] * t**2)
    tool.masks = True
    return tool


def write_fiducial(opt, fname, mf=0.0, vl=0.0):
    """Mean flux and var_lss tables; returns both interpolators."""
    w = np.linspace(3500., 4700., 61)
    m = 0.8 - 0.2 * (w - 3500.) / 1200. + 0.05 * mf * np.sin(w / 60.)
    v = 0.08 + 0.03 * vl * np.cos(w / 120.)

    def write():
        with fitsio.FITS(fname, 'rw', clobber=True) as f:
            f.write([w, m, v], names=['LAMBDA', 'MEANFLUX', 'VAR_LSS'],
                    extname='STATS')
    opt.aux.append(write)
    return linear(w, m), linear(w, v)


INW1, INDW, INN = 1000., 2.5, 105


def input_cont(sv, i, fate):
    """Rest-frame continuum handed to the run (None: not in the file)."""
    w = INW1 + INDW * np.arange(INN)
    y = sv['qso'][i]['amp'] * (1.1 + 0.2 * np.sin(w / 25. + i))
    if fate == 'missing':
        return None
    if fate == 'negative':
        y[15:80] -= 1.5 * y.max()
    if fate == 'nan':
        y[40] = np.nan
    return y


def write_input_continua(sv, opt, dirname, fates):
    def write():
        os.makedirs(dirname)
        pix = {}
        for i, q in enumerate(sv['qso']):
            ra, dec = sv['pos'][q['pos']]
            pix.setdefault(int(ang2pix(8, ra, dec, lonlat=True, nest=True)),
                           []).append(i)
        for p, members in pix.items():
            rows, ids = [], []
            for i in members[::-1]:
                y = input_cont(sv, i, fates[i % len(fates)])
                if y is not None:
                    rows.append(y)
                    ids.append(sv['qso'][i]['tid'])
            if not rows:
                continue
            d = np.zeros(len(ids), dtype=[('Z', 'f8'), ('TARGETID', 'i8')])
            d['TARGETID'] = ids
            with fitsio.FITS(f"{dirname}/input-continuum-8-{p}.fits", 'rw',
                             clobber=True) as f:
                f.write(None)
                f.write(d, extname='FIBERMAP')
                f.write(np.array(rows), extname='CONTINUA',
                        header=dict(WAVE1=INW1, DWAVE=INDW))
    opt.aux.append(write)
