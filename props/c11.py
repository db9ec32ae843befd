"""C11 coaddition of delta files."""
import glob
import itertools
import os
import sys

import fitsio
import healpy
import numpy as np
from hypothesis import strategies as st

import qsonic.io as qio
from qsonic.scripts import qsonic_coadd_deltas as script
from vlib import deltagen as dg
from vlib.engine import Sub, Violation
from vlib.util import check, close, quiet, rng_of, same

W00, DW = 3600., 0.8


def pair(a, b):
    """Naive pixel-by-pixel coaddition of two deltas."""
    i1, i2 = a['i0'], b['i0']
    lo = min(i1, i2)
    n = max(i1 + a['wave'].size, i2 + b['wave'].size) - lo
    out = dict(i0=lo, wave=W00 + DW * (lo + np.arange(n)),
               cov=np.zeros(n, bool))
    for k in ('delta', 'ivar', 'weight', 'cont'):
        out[k] = np.zeros(n)
    nd = 0
    if a['reso'] is not None:
        nd = max(a['reso'].shape[0], b['reso'].shape[0])
        out['reso'] = np.zeros((nd, n))
    else:
        out['reso'] = None
    for j in range(n):
        here = [(d, j + lo - d['i0']) for d in (a, b)
                if 0 <= j + lo - d['i0'] < d['wave'].size]
        here = [(d, k) for d, k in here if 'cov' not in d or d['cov'][k]]
        if not here:
            continue
        out['cov'][j] = True
        v = [(d, k) for d, k in here if d['weight'][k] > 0]
        if v:
            sw = sum(d['weight'][k] for d, k in v)
            for q in ('delta', 'cont'):
                out[q][j] = sum(d['weight'][k] * d[q][k] for d, k in v) / sw
            iv = sw**2 / sum(d['weight'][k]**2 / d['ivar'][k] for d, k in v)
            lss = sum(1 - d['weight'][k] / d['ivar'][k] for d, k in v) / sw
            out['ivar'][j] = iv
            out['weight'][j] = iv / (1 + iv * lss)
        if nd:
            use = v if v else here
            ww = [d['weight'][k] if v else 1.0 for d, k in use]
            for (d, k), w in zip(use, ww):
                p = (nd - d['reso'].shape[0]) // 2
                r = np.pad(d['reso'][:, k], (p, p))
                out['reso'][:, j] += w * r / sum(ww)
    return out


def compare(got, m, what, wmin, chain=False):
    close(got['wave'], m['wave'], what + " wavelengths", rtol=1e-9)
    same(got['ivar'] > 0, m['ivar'] > 0, what + " valid pixels")
    close(got['ivar'], m['ivar'], what + " ivar", rtol=1e-7)
    close(got['weight'], m['weight'], what + " weight", rtol=1e-6)
    v = m['ivar'] > 0
    close(got['delta'], m['delta'] * v, what + " delta", rtol=1e-8,
          atol=1e-8)
    check(np.all(np.isfinite(got['cont'])), "%s continuum not finite", what)
    close(got['cont'][v], m['cont'][v], what + " continuum", rtol=1e-8)
    check((got['reso'] is None) == (m['reso'] is None), "%s: resolution", what)
    if m['reso'] is not None:
        check(np.all(np.isfinite(got['reso'])), "%s reso not finite", what)
        c = m.get('cov', np.ones(v.size, bool))
        if chain:       # gaps of an intermediate coadd have no resolution
            c = v
        check(got['reso'].shape == m['reso'].shape, "%s reso shape %s", what,
              got['reso'].shape)
        close(got['reso'][:, c], m['reso'][:, c], what + " resolution",
              rtol=0, atol=1e-8 + 4e-8 / wmin)


def as_dict(d):
    return dict(wave=d.wave, delta=d.delta, ivar=d.ivar, weight=d.weight,
                cont=d.cont, reso=d.reso)


@st.composite
def one(draw):
    return dict(i0=draw(st.integers(0, 40)), n=draw(st.integers(2, 30)),
                snr=draw(st.sampled_from([0.5, 2.0, 10.0, 2e-4])),
                vlss=draw(st.sampled_from([0.0, 0.1, 0.5])),
                pbad=draw(st.sampled_from([0.0, 0.2, 0.7])))


def gen(spec, rng, nd):
    d = dg.make_delta(rng, spec['i0'], spec['n'], spec['snr'], spec['vlss'],
                      spec['pbad'], nd, W00, DW)
    d['i0'] = spec['i0']
    return d


@st.composite
def pair_cases(draw):
    return dict(a=draw(one()), b=draw(one()), seed=draw(st.integers(0, 9999)),
                nd=draw(st.sampled_from([[0, 0], [5, 5], [7, 5], [5, 9]])),
                blind=draw(st.booleans()))


def run_pair(case, tmp):
    rng = rng_of(case['seed'])
    a = gen(case['a'], rng, case['nd'][0])
    b = gen(case['b'], rng, case['nd'][1])
    if case['seed'] % 4 == 0 and a['wave'].size > 3:
        a['weight'][rng.integers(1, a['wave'].size)] = 0
        if not a['weight'].any():
            return False
    h = dg.header(77, 12., 3., 2.3)
    path = os.path.join(tmp, 'delta-1.fits')
    dg.write_file(path, [(h, a, '77-B'), (h, b, '77-R')], case['blind'])
    m = pair(a, b)
    wmin = min(d['weight'][d['weight'] > 0].min() for d in (a, b))
    with quiet():
        for order in (0, 1):
            ds = qio.read_deltas(path)
            x, y = ds[::-1] if order else ds
            x.coadd(y)
            compare(as_dict(x), m, "coadd" + (" reversed" if order else ""),
                    wmin)
            iv = m['ivar']
            want = (np.sqrt(iv) * (1 + m['delta'])).sum() / (iv > 0).sum()
            close(x.mean_snr, want, "mean SNR", rtol=1e-6, atol=1e-7)
            close(x.header['MEANSNR'], want, "MEANSNR", rtol=1e-6, atol=1e-7)
            check(x.targetid == 77 and abs(x.ra - 12.) < 1e-9
                  and abs(x.dec - 3) < 1e-9, "identity changed")
    over = not (a['wave'][-1] < b['wave'][0] or b['wave'][-1] < a['wave'][0])
    return dict(nontrivial=over and (case['a']['pbad'] > 0
                                     or case['b']['pbad'] > 0),
                tags=["overlap" if over else "disjoint"])


@st.composite
def script_cases(draw):
    nt = draw(st.integers(1, 6))
    ids = draw(st.lists(st.integers(1, 10**16), min_size=nt, max_size=nt,
                        unique=True))
    ndir = draw(st.integers(1, 3))
    tg = []
    for t in ids:
        k = draw(st.sampled_from([1, 1, 2, 2, 3]))
        # a few sky regions so that healpixels hold several targets
        tg.append(dict(
            tid=t, ra=draw(st.sampled_from([10.0, 10.5, 200.0, 355.0])),
            dec=draw(st.sampled_from([-60.0, 0.5, 1.0, 44.0])),
            msnr=draw(st.sampled_from([1.5, 1.5, 0.0, -0.4])),
            parts=[dict(one=draw(one()), dir=draw(st.integers(0, ndir - 1)),
                        file=draw(st.integers(0, 2))) for _ in range(k)]))
    return dict(targets=tg, ndir=ndir, nside=draw(st.sampled_from(
        [None, 1, 4, 16])), nest=draw(st.booleans()),
        nproc=draw(st.sampled_from([1, 2, 3])),
        seed=draw(st.integers(0, 9999)), nd=draw(st.sampled_from([0, 5, 7])),
        blind=draw(st.booleans()), empty=draw(st.booleans()),
        again=draw(st.sampled_from([False, False, True])))


def lay_out(case, tmp):
    rng = rng_of(case['seed'])
    files, truth = {}, {}
    for i, t in enumerate(case['targets']):
        h0 = dg.header(t['tid'], t['ra'], t['dec'], 2.1 + 0.01 * i,
                       'desi_y1' if case['blind'] else 'none',
                       msnr=t['msnr'])
        truth[t['tid']] = dict(parts=[], hdr=h0, ra=t['ra'], dec=t['dec'])
        for k, p in enumerate(t['parts']):
            d = gen(p['one'], rng, case['nd'])
            truth[t['tid']]['parts'].append(d)
            files.setdefault((p['dir'], p['file']), []).append(
                (h0, d, f"{t['tid']}-{'BRZ'[k]}"))
    dirs = []
    for i in range(case['ndir']):
        dirs.append(os.path.join(tmp, f"in{i}"))
        os.mkdir(dirs[-1])
        if case['empty']:
            dg.write_file(os.path.join(dirs[-1], 'delta-777.fits'), [])
    for (i, f), items in files.items():
        dg.write_file(os.path.join(dirs[i], f"delta-{f}.fits"), items,
                      case['blind'])
    return dirs, truth


def call_script(argv):
    old = sys.argv
    sys.argv = ['qsonic-coadd'] + argv
    try:
        with quiet():
            script.main()
    finally:
        sys.argv = old


def run_script(case, tmp):
    dirs, truth = lay_out(case, tmp)
    out = os.path.join(tmp, 'out')
    os.mkdir(out)
    argv = ['-i'] + dirs + ['-o', out, '--nproc', str(case['nproc'])]
    nside = case['nside'] or 8
    if case['nside']:
        argv += ['--nside', str(nside)]
    if case['nest']:
        argv += ['--nest']
    for _ in range(2 if case['again'] else 1):
        # a later run replaces the files of an earlier one
        call_script(argv)
    seen = set()
    for fn in sorted(glob.glob(os.path.join(out, '*'))):
        base = os.path.basename(fn)
        with fitsio.FITS(fn) as f:
            for hdu in f[1:]:
                h = hdu.read_header()
                tid = h['TARGETID']
                check(tid in truth, "unknown TARGETID %s", tid)
                check(tid not in seen, "TARGETID %s written twice", tid)
                seen.add(tid)
                t = truth[tid]
                px = healpy.ang2pix(nside, t['ra'], t['dec'], lonlat=True,
                                    nest=case['nest'])
                check(base == f"delta-{px}.fits",
                      "TARGETID %s is in %s instead of healpixel %s", tid,
                      base, px)
                check(hdu.get_extname() == str(tid), "extension %s",
                      hdu.get_extname())
                for k in ('LOS_ID', 'RA', 'DEC', 'Z', 'BLINDING', 'RSNR',
                          'DELTA_LAMBDA', 'WAVE_SOLUTION'):
                    kk = k if k in h else k[:8]
                    if isinstance(t['hdr'][k], float):
                        close(h[kk], t['hdr'][k], "header " + k, rtol=1e-12)
                    else:
                        check(h[kk] == t['hdr'][k], "header %s: %s", k, h[kk])
                names = hdu.get_colnames()
                dcol = 'DELTA_BLIND' if case['blind'] else 'DELTA'
                want = ['LAMBDA', dcol, 'IVAR', 'WEIGHT', 'CONT'] + \
                    (['RESOMAT'] if case['nd'] else [])
                check(sorted(names) == sorted(want), "columns %s", names)
                dat = hdu.read()
                got = dict(wave=dat['LAMBDA'], delta=dat[dcol],
                           ivar=dat['IVAR'], weight=dat['WEIGHT'],
                           cont=dat['CONT'],
                           reso=dat['RESOMAT'].T if case['nd'] else None)
                parts = t['parts']
                wmin = min(d['weight'][d['weight'] > 0].min() for d in parts)
                err = None
                for perm in itertools.permutations(parts):
                    m = perm[0]
                    for q in perm[1:]:
                        m = pair(m, q)
                    try:
                        compare(got, m, f"TARGETID {tid}", wmin,
                                len(parts) > 2)
                        err = None
                        break
                    except Violation as e:
                        err = err or e
                if err is not None:
                    raise err
    check(seen == set(truth), "lost TARGETIDs %s", set(truth) - seen)
    return dict(nontrivial=any(len(t['parts']) > 1 for t in truth.values())
                and len(truth) > 1,
                tags=[f"nproc{case['nproc']}", f"dirs{case['ndir']}"])


SUBS = [
    Sub("pair", pair_cases, run_pair, quick=900, thorough=30000, shards=4,
        rule="overlapping inputs with masked pixels"),
    Sub("script", script_cases, run_script, quick=160, thorough=3000,
        shards=4, rule="several targets, one of them with several inputs"),
]
