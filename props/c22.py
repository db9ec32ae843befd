"""C22 qsonic-calib: selection of deltas, statistics, stacked flux."""
import glob
import os
import sys

import fitsio
import numpy as np
from hypothesis import strategies as st

import qsonic.scripts.qsonic_calib as script
from props.c17 import stats
from vlib import deltagen as dg
from vlib import e2e, simmpi
from vlib.engine import Skip, Sub
from vlib.util import check, close, quiet, rng_of, same

SURV = ['main', 'sv1', 'sv3']


@st.composite
def samples(draw, nfiles=(1, 9)):
    n = draw(st.integers(*nfiles))
    tid = 0
    files = []
    for _ in range(n):
        nd = draw(st.integers(1, 4)) if draw(st.integers(0, 9)) else 0
        items = []
        for _ in range(nd):
            tid += 1
            items.append(dict(
                tid=tid, snr=draw(st.sampled_from([1.6, 1.5, 1.7, 1.8, 0.5, 2.0, 4.0, 9.0])),
                surv=draw(st.sampled_from([0, 0, 2, 1])),
                bal=draw(st.sampled_from([None] * 4 + ['ai', 'bi', 'both'])),
                arms=draw(st.sampled_from([1, 1, 2])),
                i0=draw(st.integers(0, 25)), len=draw(st.integers(150, 260)),
                cat=draw(st.sampled_from([True] * 6 + [False])),
                rm=draw(st.sampled_from([False] * 5 + [True]))))
        files.append(items)
    return dict(files=files, dw=draw(st.sampled_from([2.4, 0.8, 3.0])),
                base=draw(st.sampled_from([0, 39627000000000000])),
                pbad=draw(st.sampled_from([0.05, 0.0, 0.4])),
                blind=draw(st.booleans()), log=draw(st.integers(0, 5)) == 0,
                gz=draw(st.integers(0, 5)) == 0,
                idkey=draw(st.sampled_from(['TARGETID', 'TARGETID', 'MOCKID',
                                            'THING_ID'])),
                reso=draw(st.booleans()),
                seed=draw(st.integers(0, 10**6)))


@st.composite
def cases(draw, **kw):
    return dict(
        sm=draw(samples(**kw)),
        size=draw(st.integers(1, 4)),
        cut=draw(st.sampled_from([[0., 100.], [1.0, 5.0], [1.5, 9.0],
                                  [0.3, 2.0]])),
        catalog=draw(st.sampled_from([True, True, False])),
        keep=draw(st.sampled_from([None, None, None, ['main'], ['main', 'sv3'],
                                   ['sv1']])),
        rmbal=draw(st.booleans()),
        rmlist=draw(st.sampled_from([None, 'some', 'some', 'one', 'empty'])),
        nw=draw(st.integers(4, 5)), nv=draw(st.integers(5, 7)),
        cov=draw(st.integers(0, 3)) == 0,
        w1=draw(st.sampled_from([3600.1, 3580.3, 3640.1])),
        span=draw(st.sampled_from([240.0, 200.3, 180.1])),
        extra=draw(st.booleans()),
        exist=draw(st.sampled_from(['no', 'no', 'dir', 'stale'])),
        fault=draw(st.sampled_from([None] * 20 + [
            'nobal', 'norm', 'nocat', 'nofiles', 'cut'])))


def build(case, root):
    sm = case['sm']
    rng = rng_of(sm['seed'])
    ind = os.path.join(root, 'in')
    os.makedirs(ind)
    recs = []
    for k, items in enumerate(sm['files']):
        out = []
        for it in items:
            for a in range(it['arms']):
                d = dg.make_delta(rng, it['i0'] + a * 40, int(it['len'] / sm['dw']), 1.0, 0.1,
                                  sm['pbad'], 3 if sm['reso'] else 0,
                                  w00=3600., dw=sm['dw'])
                # widely spread noise fills the variance bins
                ok = d['ivar'] > 0
                d['ivar'] = np.where(ok, 10**rng.uniform(-1, 3, ok.size), 0)
                d['weight'] = np.where(ok, d['ivar'] / (
                    1 + 0.1 * d['ivar']), 0)
                d['delta'] = np.where(ok, rng.normal(size=ok.size) * np.sqrt(
                    0.1 + 1 / np.where(ok, d['ivar'], 1)), 0)
                tid = sm['base'] + it['tid']
                h = dg.header(tid, 10., 5., 2.5, msnr=it['snr'], dw=sm['dw'])
                if sm['idkey'] != 'TARGETID':
                    h[sm['idkey']] = h.pop('TARGETID')
                ext = f"{tid}-{'BR'[a]}"
                if it['arms'] == 1 and sm['seed'] % 2:
                    ext = str(tid)
                out.append((h, d, ext))
                recs.append((it, tid, d))
        fn = f"{ind}/delta-{[k, 'r%d' % k][sm['seed'] % 3 == 0]}.fits" + (
            '.gz' if sm['gz'] and k % 2 else '')
        with fitsio.FITS(fn, 'rw', clobber=True) as f:
            f.write(None)
            for h, d, ext in out:
                wv = np.log10(d['wave']) if sm['log'] else d['wave']
                cols = [wv, d['delta'], d['ivar'], d['weight'], d['cont']]
                names = ['LOGLAM' if sm['log'] else 'LAMBDA',
                         'DELTA_BLIND' if sm['blind'] else 'DELTA', 'IVAR',
                         'WEIGHT', 'CONT']
                if d['reso'] is not None:
                    cols.append(np.ascontiguousarray(d['reso'].T))
                    names.append('RESOMAT')
                f.write(cols, names=names, header=h, extname=ext)
    if case['extra']:
        # files of other kinds in the same directory are not deltas
        for x in ('attributes.fits', 'continuum_chi2_catalog.fits'):
            with fitsio.FITS(f"{ind}/{x}", 'rw', clobber=True) as f:
                f.write([np.ones(3)], names=['lambda'], extname='CONT')
    # catalogue
    its = [i for f in sm['files'] for i in f]
    cat = [i for i in its if i['cat']]
    n = len(cat) + 1
    t = np.zeros(n, dtype=[
        ('TARGETID', 'i8'), ('Z', 'f8'), ('RA', 'f8'), ('DEC', 'f8'),
        ('SURVEY', 'U8'), ('LASTNIGHT', 'i8'), ('HPXPIXEL', 'i8'),
        ('VMIN_CIV_450', 'f8', (3,)), ('VMAX_CIV_450', 'f8', (3,)),
        ('VMIN_CIV_2000', 'f8', (2,)), ('VMAX_CIV_2000', 'f8', (2,))])
    t['Z'], t['SURVEY'] = 2.5, 'main'
    for c in t.dtype.names[-4:]:
        t[c] = -1
    for r, i in zip(t, cat):
        r['TARGETID'] = sm['base'] + i['tid']
        r['SURVEY'] = SURV[i['surv']]
        r['HPXPIXEL'] = i['tid'] % 5
        if i['bal'] in ('ai', 'both'):
            r['VMIN_CIV_450'][i['tid'] % 3] = [500., 0.6][i['tid'] % 2]
            r['VMAX_CIV_450'][i['tid'] % 3] = 2500.
        if i['bal'] in ('bi', 'both'):
            r['VMIN_CIV_2000'][1] = [0.4, 3500., 3500.][i['tid'] % 3]
            r['VMAX_CIV_2000'][1] = [0.9, 9500.][i['tid'] % 2]
    t[-1]['TARGETID'] = sm['base'] + 999
    t = t[rng.permutation(n)]
    with fitsio.FITS(f"{root}/cat.fits", 'rw', clobber=True) as f:
        f.write(t, extname='ZCATALOG')
    rm = [i['tid'] for i in its if i['rm']]
    if case['rmlist'] == 'one':
        rm = rm[:1]
    elif case['rmlist'] == 'empty':
        rm = []
    with open(f"{root}/rm.txt", 'w') as f:
        for x in rm:
            f.write(f"{sm['base'] + x}\n")
    use = dict(cat=case['catalog'], rm=rm if case['rmlist'] else [])

    def kept(i):
        if not case['cut'][0] < i['snr'] < case['cut'][1]:
            return False
        if i['tid'] in use['rm']:
            return False
        if use['cat'] and i['cat']:
            if case['rmbal'] and i['bal']:
                return False
            if case['keep'] and SURV[i['surv']] not in case['keep']:
                return False
        return True
    return ind, [(tid, d) for i, tid, d in recs if kept(i)], len(recs)


def run_case(case, tmp):
    sm = case['sm']
    w1, w2 = case['w1'], case['w1'] + case['span']
    ind, kept, nall = build(case, tmp)
    out = os.path.join(tmp, 'out')
    argv = ['qsonic-calib', '-i', ind, '-o', out, '--wave1', repr(w1),
            '--wave2', repr(w2), '--nwbins', str(case['nw']),
            '--nvarbins', str(case['nv']), '--var1', '1e-4', '--var2', '20',
            '--min-snr', str(case['cut'][0]), '--max-snr',
            str(case['cut'][1])]
    if case['catalog']:
        argv += ['--catalog', f"{tmp}/cat.fits"]
    if case['keep']:
        argv += ['--keep-surveys', *case['keep']]
    if case['rmbal']:
        argv += ['--remove-bal-qsos']
    if case['rmlist']:
        argv += ['--remove-targetid-list', f"{tmp}/rm.txt"]
    fault = case['fault']
    fn = f"{out}/qsonic-eta-fits-snr{case['cut'][0]:.1f}-" \
         f"{case['cut'][1]:.1f}-variance-stats.fits"
    stale = case['exist'] == 'stale' and not fault
    if case['exist'] != 'no':
        os.mkdir(out)
    if stale:
        # left by an earlier run
        with fitsio.FITS(fn, 'rw', clobber=True) as f:
            for nm in ('VAR_STATS', 'VAR_FUNC', 'STACKED_FLUX', 'OLD'):
                f.write(np.zeros(3, dtype=[('lambda', 'f8')]), extname=nm)
    if fault == 'nobal':
        # BAL removal asked, catalogue without BAL columns
        t = fitsio.read(f"{tmp}/cat.fits", ext=1)
        t = t[[c for c in t.dtype.names if 'CIV' not in c]]
        t = np.array(t.tolist(), dtype=[(c, t.dtype[c])
                                        for c in t.dtype.names])
        with fitsio.FITS(f"{tmp}/cat2.fits", 'rw', clobber=True) as f:
            f.write(t, extname='ZCATALOG')
        argv += ['--remove-bal-qsos', '--catalog', f"{tmp}/cat2.fits"]
    elif fault == 'norm':
        argv += ['--remove-targetid-list', f"{tmp}/absent.txt"]
    elif fault == 'nocat':
        argv += ['--catalog', f"{tmp}/absent.fits"]
    elif fault == 'nofiles':
        for f in glob.glob(f"{ind}/*"):
            os.remove(f)
    elif fault == 'cut':
        f = sorted(glob.glob(f"{ind}/delta*"))[-1]
        with open(f, 'r+b') as g:
            g.truncate(100)
    if case['cov']:
        argv += ['--var-use-cov']

    def job(comm, rank, n):
        from qsonic.picca_continuum import VarLSSFitter
        VarLSSFitter.min_num_pix, VarLSSFitter.min_num_qso = 1, 1
        made = []
        real = VarLSSFitter.__init__

        def init(self, *a, **k):
            made.append(self)
            real(self, *a, **k)
        VarLSSFitter.__init__ = init
        sys.argv = list(argv)
        try:
            with e2e.capture(f"{tmp}/err-{rank}.txt"), quiet():
                script.main()
            twin = None
            if len(made) == 1:
                g = np.ones((made[0].nwbins, 2))
                g[:, 0] = 0.1
                with quiet():
                    twin = made[0].fit(g)
            return twin
        finally:
            VarLSSFitter.__init__ = real
    old = sys.argv
    try:
        res = simmpi.run_mpi(job, case['size'], fork=True)
    finally:
        sys.argv = old
    errs = [open(f).read() for f in sorted(glob.glob(f"{tmp}/err-*"))]
    tags = [f"ranks{case['size']}", 'more-ranks' if case['size'] > len(
        sm['files']) else 'enough',
        'remainder' if len(sm['files']) % case['size'] else 'even']
    c = dict(w1=w1, w2=w2, nw=case['nw'], nv=case['nv'], var1=1e-4, var2=20.)
    with quiet():
        try:
            s = stats(c, [(d['wave'], d['delta'], d['ivar'])
                          for _, d in kept], 10)
        except Skip:
            return False
    bad = [r for r in res if r.kind != 'ok']
    check(not any(r.kind == 'exit' and r.value in (None, 0) for r in res),
          "stopped early with an exit status of success: %s", res)
    if fault:
        # every rank ends with an error (or MPI aborts all of them), and no
        # result is left that looks complete
        check(bad and (len(bad) == len(res) or any(
            r.kind == 'abort' for r in res)), "fault %s: %s", fault, res)
        check(not any(r.kind == 'deadlock' for r in res), "fault %s: %s",
              fault, res)
        check(not glob.glob(f"{out}/*-variance-stats.fits"),
              "output after fault %s", fault)
        return dict(nontrivial=True, tags=['fault-' + fault])
    if bad:
        # too little statistics is a legitimate refusal, on all ranks
        txt = " ".join(errs)
        per = s['ok'].reshape(case['nw'], case['nv']).sum(1)
        poor = (per < 5).sum() >= 1 or len(kept) < 6
        check(poor, "script failed: %s %s", bad, txt[-500:])
        check('IndexError' not in txt and 'KeyError' not in txt
              and 'concatenat' not in txt, "script failed: %s", txt[-500:])
        check(stale or not glob.glob(f"{out}/*-variance-stats.fits"),
              "output after a failure")
        return dict(nontrivial=False, tags=['refused'])
    check(os.path.exists(fn), "no file %s", fn)
    with fitsio.FITS(fn) as f:
        check('OLD' not in [h.get_extname() for h in f], "results were added "
              "to those of an earlier run")
        vs = f['VAR_STATS'].read()
        h = f['VAR_STATS'].read_header()
        vf = f['VAR_FUNC'].read()
        sf = f['STACKED_FLUX'].read()
    what = f"{len(kept)} of {nall} deltas kept, {len(sm['files'])} files: "
    same(vs['num_pixels'], s['npix'], what + "num_pixels")
    same(vs['num_qso'], s['nqso'], what + "num_qso")
    close(vs['mean_delta'], s['mean'], "mean_delta", rtol=1e-9, scale=1)
    close(vs['var_delta'], s['var'], "var_delta", rtol=1e-8, scale=1)
    close(vs['var_pipe'], s['vc'], "var_pipe", rtol=1e-9)
    check(abs(h['MINSNR'] - case['cut'][0]) < 1e-9
          and abs(h['MAXSNR'] - case['cut'][1]) < 1e-9, "SNR keys")
    we = np.linspace(w1, w2, case['nw'] + 1)
    cen = (we[1:] + we[:-1]) / 2
    close(vs['wave'], np.repeat(cen, case['nv']), "wave", rtol=1e-12)
    close(vf['lambda'], cen, "lambda", rtol=1e-12)
    for r in res:
        if r.value is None:
            continue
        y, e = r.value
        same(vf['var_lss'], y[:, 0], "var_lss column")
        same(vf['eta'], y[:, 1], "eta column")
        same(vf['e_var_lss'], e[:, 0], "e_var_lss column")
        same(vf['e_eta'], e[:, 1], "e_eta column")
    # stacked flux
    lam, fl = sf['lambda'], sf['stacked_flux']
    close(lam[0], w1, "first wavelength", rtol=1e-12)
    close(np.diff(lam), np.full(lam.size - 1, sm['dw']), "steps", rtol=1e-6)
    check(w2 - sm['dw'] - 1e-6 < lam[-1] < w2 + sm['dw'],
          "stack ends at %g", lam[-1])
    num, den = np.zeros(lam.size), np.zeros(lam.size)
    for _, d in kept:
        for w, x, t in zip(d['wave'], d['delta'], d['weight']):
            u = (w - lam[0]) / sm['dw']
            k = int(np.floor(u + 0.5))
            if abs(u + 0.5 - np.rint(u + 0.5)) < 1e-6:
                return False
            if 0 <= k < lam.size:
                num[k] += t * (1 + x)
                den[k] += t
    exp = np.where(den > 0, num / np.where(den > 0, den, 1), 0)
    close(fl, exp, "stacked flux", rtol=1e-8, scale=1)
    return dict(nontrivial=len(kept) < nall and len(kept) > 3, tags=tags + [
        'kept-all' if len(kept) == nall else 'removed'])


SUBS = [
    Sub('script', lambda: cases(nfiles=(3, 9)), run_case, quick=240,
        thorough=5000, shards=8,
        rule="some deltas removed, more than three kept, output compared; or "
        "an unreadable or incomplete input refused"),
    Sub('few', lambda: cases(nfiles=(1, 3)), run_case, quick=60,
        thorough=1000, shards=4,
        rule="some deltas removed, more than three kept, output compared; or "
        "an unreadable or incomplete input refused"),
]
