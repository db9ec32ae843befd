"""C12 delta files round-trip."""
import argparse
import glob
import os

import fitsio
import numpy as np
from hypothesis import strategies as st

import qsonic.io as qio
from qsonic import QsonicException
from qsonic.spectrum import Spectrum
from vlib import specgen as sg
from vlib.engine import Sub
from vlib.util import check, close, must_raise, quiet, rng_of, same

EXPCOLS = ['TILEID', 'FIBER', 'PETAL_LOC', 'EXPID', 'NIGHT']


@st.composite
def cases(draw):
    sp = draw(sg.spectra(max_spec=5, max_pix=40))
    n = len(sp['ids'])
    return dict(
        sp=sp, hpx=[draw(st.sampled_from([3, 11, 259, 2047, 4100, 32771, 40003])) for _ in range(n)],
        valid=[draw(st.sampled_from([True, True, True, False]))
               for _ in range(n)],
        drop=[draw(st.sampled_from([None, None, None, 'B', 'R']))
              for _ in range(n)],
        zeroarm=[draw(st.sampled_from([None, None, None, 'B', 'Z']))
                 for _ in range(n)],
        byhpx=draw(st.booleans()), rank=draw(st.sampled_from([0, 3])),
        smooth=draw(st.sampled_from([None, None, 0, 4.0, 7.5])),
        presmooth=draw(st.sampled_from([None, None, 5.0])),
        vlss=draw(st.sampled_from([0.0, 0.1])),
        expo=draw(st.sampled_from([[], [], EXPCOLS, ['EXPID'],
                                   ['TILEID', 'PETAL_LOC']])),
        sameid=draw(st.booleans()),
        coadd=draw(st.booleans()), blind=draw(st.booleans()),
        skip=draw(st.booleans()), cseed=draw(st.integers(0, 999)),
        again=draw(st.sampled_from([False, False, True])))


def smoothings(case):
    return [x for x in (case['presmooth'], case['smooth']) if x is not None]


def prepare(case):
    cat, data = sg.build(case['sp'])
    if case['expo']:
        dt = cat.dtype.descr + [(c, 'i4') for c in case['expo']]
        c2 = np.zeros(cat.size, dtype=dt)
        for k in cat.dtype.names:
            c2[k] = cat[k]
        for j, c in enumerate(case['expo']):
            c2[c] = 1000 * j + 7 * np.arange(cat.size) + (
                case['cseed'] % 2 * 5)
        cat = c2
        if case['sameid'] and 'EXPID' in case['expo']:
            cat['TARGETID'] = cat['TARGETID'][0]
    cat['HPXPIXEL'] = case['hpx']
    for i, arm in enumerate(case['zeroarm']):
        if arm in data['flux']:
            data['flux'][arm][i] = 0
    specs = []
    for i in range(cat.size):
        s = Spectrum.from_dictionary(cat[i], data, i)
        s.set_forest_region(0., 1e5, 100., 1e4)
        if case['drop'][i]:
            s.drop_arm(case['drop'][i])
        for x in smoothings(case):
            s.set_smooth_forestivar(x)
        if case['valid'][i]:
            s.cont_params['valid'] = True
            s.cont_params['cont'] = {
                a: case['sp']['amp'] * (1.3 + 0.2 * np.sin(
                    w / 31. + case['cseed'] + i))
                for a, w in s.forestwave.items()}
            s.set_forest_weight(lambda w: case['vlss'] + 0 * w)
            if case['coadd'] and s.forestwave:
                s.coadd_arms_forest(lambda w: case['vlss'] + 0 * w)
        specs.append(s)
    return specs


def expected(specs, case):
    out = {}
    for i, s in enumerate(specs):
        if not case['valid'][i]:
            continue
        b = sg.snapshot(s)
        for a in b['forestwave']:
            if b['mean_snr'][a] == 0:
                continue
            c = b['cont'][a]
            iv = b['forestivar'][a].astype('f8') * c**2
            d = b['forestflux'][a].astype('f8') / c - 1
            d[iv == 0] = 0
            ext = f"{s.targetid}-{a}"
            if 'EXPID' in case['expo']:
                ext += f"-{s.catrow['EXPID']}"
            fn = s.catrow['HPXPIXEL'] if case['byhpx'] else case['rank']
            hdr = dict(TARGETID=s.targetid, LOS_ID=s.targetid,
                       RA=np.radians(s.catrow['RA']),
                       DEC=np.radians(s.catrow['DEC']), Z=s.catrow['Z'],
                       MEANSNR=b['mean_snr'][a], RSNR=b['rsnr'],
                       DELTA_LAMBDA=case['sp']['lay']['dw'],
                       SMSCALE=([0] + smoothings(case))[-1])
            for k in case['expo']:
                hdr[k] = s.catrow[k]
            check((fn, ext) not in out, "harness: duplicate key")
            out[fn, ext] = dict(
                wave=b['forestwave'][a], delta=d, ivar=iv,
                weight=b['forestweight'][a].astype('f8') * c**2, cont=c,
                reso=b['forestreso'].get(a), hdr=hdr,
                radec=(s.catrow['RA'], s.catrow['DEC']))
    return out


def run(case, tmp):
    with quiet():
        specs = prepare(case)
        want = expected(specs, case)
        before = [sg.snapshot(s) for s in specs]
        must_raise(lambda: qio.save_deltas(specs, tmp, True),
                   "saving without blinding set", QsonicException)
        args = argparse.Namespace(
            mock_analysis=False, forest_w1=1050.,
            skip_resomat=case['skip'] and case['sp']['reso'] == 'none')
        Spectrum.set_blinding(20210601 if case['blind'] else 20200101, args)
        must_raise(lambda: qio.save_deltas(specs, tmp),
                   "saving without healpix or rank", QsonicException)
        check(not glob.glob(tmp + '/*'), "refused saving left files")
        qio.save_deltas(specs, None, True)
        check(not glob.glob(tmp + '/*'), "saved without output directory")
        for _ in range(2 if case['again'] else 1):
            # a later run replaces the files of an earlier one
            qio.save_deltas(specs, tmp, save_by_hpx=case['byhpx'],
                            mpi_rank=case['rank'])
        for b, s in zip(before, specs):
            d = sg.same_snapshot(b, sg.snapshot(s))
            check(d is None, "saving changed %s", d)
        seen = set()
        for fn in sorted(glob.glob(tmp + '/*')):
            num = int(os.path.basename(fn).split('-')[1].split('.')[0])
            check(os.path.basename(fn) == f"delta-{num}.fits", "file %s", fn)
            with fitsio.FITS(fn) as f:
                exts = [h.get_extname() for h in f[1:]]
            ds = qio.read_deltas(fn)
            check(len(ds) == len(exts), "read %d of %d", len(ds), len(exts))
            for ext, d in zip(exts, ds):
                key = (num, ext)
                check(key in want, "unexpected delta %s in file %s", ext, num)
                check(key not in seen, "%s saved twice", key)
                seen.add(key)
                w = want[key]
                same(d.wave, w['wave'], "LAMBDA")
                close(d.delta, w['delta'], "DELTA", rtol=1e-6, atol=1e-6)
                check(np.all(d.delta[w['ivar'] == 0] == 0), "masked delta")
                close(d.ivar, w['ivar'], "IVAR", rtol=1e-6)
                close(d.weight, w['weight'], "WEIGHT", rtol=1e-6)
                close(d.cont, w['cont'], "CONT", rtol=1e-12)
                check((d.reso is None) == (w['reso'] is None),
                      "resolution present: %s", d.reso is not None)
                if w['reso'] is not None:
                    close(d.reso, w['reso'], "RESOMAT", rtol=1e-12)
                h = w['hdr']
                check(d.targetid == h['TARGETID'], "TARGETID %s", d.targetid)
                close(d.mean_snr, h['MEANSNR'], "mean_snr", rtol=1e-6)
                close(d.ra, w['radec'][0], "ra in degrees", rtol=1e-9)
                close(d.dec, w['radec'][1], "dec in degrees", rtol=1e-9)
                for k, v in h.items():
                    check(k in d.header, "header lacks %s", k)
                    close(float(d.header[k]), float(v), "header " + k,
                          rtol=1e-6 if k in ('MEANSNR', 'RSNR') else 1e-12)
                for k in set(EXPCOLS) - set(case['expo']):
                    check(k not in d.header, "unexpected header %s", k)
        check(seen == set(want), "not saved: %s", sorted(
            map(str, set(want) - seen))[:3])
    return dict(nontrivial=len(want) > 1,
                tags=["hpx" if case['byhpx'] else "rank",
                      "reso" if case['sp']['reso'] != 'none' else "noreso",
                      "someinvalid" if not all(case['valid']) else "allvalid",
                      "none" if not want else "some"])


# ---- mean resolution ------------------------------------------------------
@st.composite
def reso_cases(draw):
    return dict(n=draw(st.integers(4, 30)), seed=draw(st.integers(0, 9999)),
                nd=draw(st.sampled_from([5, 7, 11])),
                s=draw(st.floats(0.6, 1.6)), s2=draw(st.one_of(
                    st.none(), st.floats(0.6, 1.6))), pbad=draw(st.sampled_from(
                    [0, 0.4])), dw=draw(st.sampled_from([0.8, 1.0])),
                pfaint=draw(st.sampled_from([0, 0, 0.3, 0.6])))


def run_reso(case, tmp):
    rng = rng_of(case['seed'])
    n = case['n']
    x = np.arange(case['nd']) - case['nd'] // 2
    W, I, R, C, want = {}, {}, {}, {}, {}
    vlss = 1.0 if case['pfaint'] else 0.0
    anybad = False
    for k, sig in enumerate([case['s'], case['s2']]):
        if sig is None:
            continue
        arm = 'BR'[k]
        wave = 3700. + 1200. * k + case['dw'] * np.arange(n)
        r = np.exp(-x**2 / 2 / sig**2)
        r = np.repeat((r / r.sum())[:, None], n, axis=1)
        ivar = rng.uniform(1, 3, n)
        bad = rng.random(n) < case['pbad']
        bad[0] = False
        ivar[bad] = 0
        r[:, bad] = rng.random((case['nd'], bad.sum()))
        anybad |= bool(bad.any())
        # pixels that intrinsic variance leaves with no say in the average
        cont = np.ones(n)
        faint = (rng.random(n) < case['pfaint']) & ~bad
        faint[0] = False
        cont[faint] = 1e5
        r2 = np.exp(-x**2 / 2 / (2.2 - sig)**2)
        r[:, faint] = (r2 / r2.sum())[:, None]
        W[arm], I[arm], R[arm] = wave, ivar[None, :], r[None]
        C[arm] = cont
        anybad |= bool(faint.any())
        wt = ivar / (1 + vlss * ivar * cont**2)
        lam = (wave * wt).sum() / wt.sum()
        want[arm] = sig * case['dw'] / lam * 299792.458
    cat = np.zeros(1, dtype=[('TARGETID', 'i8'), ('Z', 'f8'), ('RA', 'f8'),
                             ('DEC', 'f8'), ('HPXPIXEL', 'i8')])
    cat['TARGETID'] = 9
    cat['Z'] = 2.4
    with quiet():
        s = Spectrum(cat[0], W, {a: np.ones((1, n)) for a in W}, I,
                     {a: np.zeros((1, n), int) for a in W}, R, 0)
        s.set_forest_region(0., 1e5, 100., 1e4)
        s.cont_params['valid'] = True
        s.cont_params['cont'] = C
        s.set_forest_weight(lambda w: vlss + 0 * w)
        Spectrum.set_blinding(20200101, argparse.Namespace(
            mock_analysis=True, forest_w1=1050., skip_resomat=False))
        qio.save_deltas([s], tmp, mpi_rank=0)
        ds = qio.read_deltas(tmp + '/delta-0.fits')
    check(len(ds) == len(W), "%d deltas for %d arms", len(ds), len(W))
    for d in ds:
        arm = 'B' if d.wave[0] < 4500. else 'R'
        close(d.header['MEANRESO'], want[arm],
              f"MEANRESO of a Gaussian resolution, arm {arm}", rtol=2e-3)
    return dict(nontrivial=anybad or len(W) > 1, tags=[f"{len(W)} arms"])


# ---- reading foreign tables -----------------------------------------------
@st.composite
def read_cases(draw):
    return dict(
        n=draw(st.integers(1, 12)), seed=draw(st.integers(0, 9999)),
        wcol=draw(st.sampled_from(['LAMBDA', 'LOGLAM', None, 'WAVE'])),
        dcol=draw(st.sampled_from(['DELTA', 'DELTA_BLIND', None, 'DELT'])),
        key=draw(st.sampled_from(['TARGETID', 'MOCKID', 'THING_ID', None])),
        dtype=draw(st.sampled_from(['f8', 'f4'])),
        perm=draw(st.permutations(list(range(6)))),
        nd=draw(st.sampled_from([0, 5])), extra=draw(st.booleans()))


def run_read(case, tmp):
    rng = rng_of(case['seed'])
    n = case['n']
    wave = 3600. + 0.8 * np.arange(n)
    ivar = rng.uniform(0.1, 3, n) * (rng.random(n) < 0.7)
    # weights of files written by others need not vanish with ivar
    weight = ivar / (1 + ivar)
    odd = rng.random(n) < 0.2
    weight[odd] = np.where(weight[odd] > 0, 0., 0.4)
    cols = [(case['wcol'], np.log10(wave) if case['wcol'] == 'LOGLAM'
             else wave), (case['dcol'], rng.normal(size=n)), ('IVAR', ivar),
            ('WEIGHT', weight), ('CONT', rng.uniform(1, 2, n)),
            ('RESOMAT' if case['nd'] else None,
             rng.random((n, max(1, case['nd']))))]
    cols = [cols[k] for k in case['perm']]
    cols = [(c, v.astype(case['dtype'] if c not in ('LAMBDA', 'LOGLAM')
                         else 'f8')) for c, v in cols if c]
    if case['extra']:
        cols.append(('EXTRA', np.arange(n)))
    h = {'MEANSNR': 1.25, 'RA': 0.5, 'DEC': -0.25}
    if case['key']:
        h[case['key']] = 4321
    fn = tmp + '/delta-1.fits'
    with fitsio.FITS(fn, 'rw', clobber=True) as f:
        f.write([v for _, v in cols], names=[c for c, _ in cols], header=h)
    ok = case['wcol'] in ('LAMBDA', 'LOGLAM') and \
        case['dcol'] in ('DELTA', 'DELTA_BLIND') and case['key']
    if not ok:
        must_raise(lambda: qio.read_deltas(fn), "table lacking a wavelength, "
                   "delta or identifier", RuntimeError)
        return dict(nontrivial=True, tags=["rejected"])
    d, = qio.read_deltas(fn)
    c = dict(cols)
    close(d.wave, wave, "wavelength", rtol=1e-13)
    w = c[case['dcol']].astype('f8')
    w[ivar == 0] = 0
    same(d.delta, w, "delta")
    same(d.ivar, c['IVAR'].astype('f8'), "ivar")
    same(d.weight, c['WEIGHT'].astype('f8'), "weight")
    same(d.cont, c['CONT'].astype('f8'), "cont")
    check((d.reso is None) == (not case['nd']), "reso presence")
    if case['nd']:
        same(d.reso, c['RESOMAT'].T.astype('f8'), "reso")
    check(d.targetid == 4321 and d.mean_snr == 1.25, "header")
    return dict(nontrivial=True, tags=["read"])


SUBS = [
    Sub("roundtrip", cases, run, quick=500, thorough=15000, shards=5,
        rule="more than one delta saved"),
    Sub("meanreso", reso_cases, run_reso, quick=120, thorough=4000,
        rule="some pixels masked"),
    Sub("read", read_cases, run_read, quick=300, thorough=10000,
        shards=2, rule="every case"),
]
