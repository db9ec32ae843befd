"""C23 true continua, input continua and fiducial tables."""
import os

import fitsio
import numpy as np
from healpy import ang2pix
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

from qsonic import QsonicException
from vlib import fitgen as fg
from vlib import simmpi
from vlib.engine import Skip, Sub
from vlib.util import check, close, must_raise, quiet, rng_of, same

WIN = (3600.5, 4800.25, 1040.0, 1200.0)


def table(c, lo, hi):
    """A fiducial table: wavelengths and values (None: not given)."""
    if c is None:
        return None
    n = c['n']
    lam = np.linspace(lo - c['pad'], hi + c['pad'], n)
    x = np.arange(n)
    return lam, c['a'] * (1 + c['b'] * np.sin(1.3 * x + c['ph']))


@st.composite
def tables(draw, a):
    if draw(st.integers(0, 3)) == 0:
        return None
    return dict(n=draw(st.sampled_from([2, 3, 9, 50, 300])), a=a,
                b=draw(st.sampled_from([0.0, 0.3, 0.6])),
                pad=draw(st.sampled_from([0.0, 7.3, 300.0])),
                ph=draw(st.integers(0, 6)),
                f4=draw(st.booleans()))


def write_table(fn, cols, extname='STATS'):
    with fitsio.FITS(fn, 'rw', clobber=True) as f:
        f.write(None)
        f.write([np.zeros(2)], names=['OTHER'], extname='FIRST')
        f.write([v for _, v in cols], names=[k for k, _ in cols],
                extname=extname)


def fiducials(case, tmp):
    """Option values and reference functions."""
    opt, ref = {}, {}
    one = case['onefile']
    cols = {}
    for key, col, o in (('mf', 'MEANFLUX', 'fiducial_meanflux'),
                        ('vl', 'VAR_LSS', 'fiducial_varlss')):
        t = table(case[key], WIN[0], WIN[1])
        if t is None:
            ref[key] = None
            continue
        v = t[1].astype('f4') if case[key]['f4'] else t[1]
        ref[key] = (t[0], np.asarray(v, dtype='f8'))
        cols[col] = (t[0], v)
        opt[o] = f"{tmp}/{col}.fits"
        other = 'VAR_LSS' if col == 'MEANFLUX' else 'MEANFLUX'
        write_table(opt[o], [('LAMBDA', t[0]), (other, 7 + t[1]), (col, v)])
    if one and len(cols) == 2 and np.array_equal(
            cols['MEANFLUX'][0], cols['VAR_LSS'][0]):
        fn = f"{tmp}/both.fits"
        write_table(fn, [('VAR', np.ones_like(cols['MEANFLUX'][0])),
                         ('VAR_LSS', cols['VAR_LSS'][1]),
                         ('MEANFLUX', cols['MEANFLUX'][1]),
                         ('LAMBDA', cols['MEANFLUX'][0])])
        opt = dict(fiducial_meanflux=fn, fiducial_varlss=fn)
    return opt, ref


def at(t, w, default):
    return np.full(w.shape, default) if t is None else np.interp(w, *t)


# ----------------------------------------------------------- true and input
@st.composite
def cases(draw, model):
    return dict(
        model=model, onefile=draw(st.booleans()),
        sm=draw(fg.samples(nspec=(1, 9), npix=(50, 90), zs=(2.1, 3.2))),
        mf=draw(tables(0.7)), vl=draw(tables(0.1)),
        smooth=draw(st.sampled_from([0.0, 12.0])),
        size=draw(st.integers(1, 3)),
        npos=draw(st.integers(1, 4)),
        step=draw(st.sampled_from([0.8, 2.0, 5.0])),
        f4=draw(st.booleans()), perm=draw(st.integers(0, 99)),
        nextra=draw(st.integers(0, 3)),
        fate=[draw(st.sampled_from(['ok'] * 6 + [
            'missing', 'negative', 'nan', 'zero', 'nofile', 'wrongpix',
            'outside', 'dip', 'dip'])) for _ in range(9)],
        corrupt=draw(st.sampled_from([False] * 5 + [True])),
        dup=draw(st.booleans()),
        iters=draw(st.integers(1, 2)))


def specs_of(case):
    specs = fg.spectra_of(case['sm'], WIN, case['smooth'])
    rng = rng_of(case['sm']['seed'] + 3)
    pos = [(rng.uniform(0, 360), rng.uniform(-85, 85))
           for _ in range(case['npos'])]
    for s in specs:
        p = pos[rng.integers(case['npos'])]
        s.catrow['RA'], s.catrow['DEC'] = p
        s.catrow['HPXPIXEL'] = int(rng.integers(0, 700))
    specs = [s for s in specs if s.forestwave]
    if case['dup'] and case['model'] == 'input':
        # several exposures of the same quasar
        for k in range(1, len(specs)):
            if k % 3:
                for c in ('TARGETID', 'RA', 'DEC'):
                    specs[k].catrow[c] = specs[k - k % 3].catrow[c]
    return specs


def curve(rng, lam, scale):
    return scale * (1.5 + 0.5 * np.sin(lam / scale_len(lam) + rng.uniform(
        0, 6)) + rng.uniform(0, 1))


def scale_len(lam):
    return (lam[-1] - lam[0]) / 9.


def expected(case, specs, tmp):
    """Sets inputs on disk or on the spectra; returns function|None by index."""
    rng = rng_of(case['sm']['seed'] + 11)
    exp = {}
    if case['model'] == 'true':
        # every mock has its own grid (observed frame)
        for k, s in enumerate(specs):
            w1 = 3400. + rng.uniform(0, 50)
            dw = case['step'] * rng.uniform(0.8, 1.2)
            lam = w1 + dw * np.arange(int(1900 / dw))
            y = curve(rng, lam, rng.uniform(0.5, 4))
            s.cont_params['true_data_w1'] = w1
            s.cont_params['true_data_dwave'] = dw
            s.cont_params['true_data'] = y.copy()
            sp = CubicSpline(lam, y, bc_type='not-a-knot')
            exp[k] = lambda w, z, sp=sp: sp(w)
        return exp
    ind = f"{tmp}/cont"
    os.makedirs(ind)
    pix, lows = {}, []
    for k, s in enumerate(specs):
        p = int(ang2pix(8, float(s.ra), float(s.dec), lonlat=True, nest=True))
        pix.setdefault(p, []).append((k, s))
    for p, lst in pix.items():
        w1 = 1020. + rng.uniform(0, 10)
        lam = w1 + case['step'] * np.arange(int(200 / case['step']))
        rows, ids = [], []
        nofile = any(case['fate'][k % 9] == 'nofile' for k, _ in lst)
        for k, s in lst:
            first = [j for j in range(k) if specs[j].targetid == s.targetid]
            if first:
                exp[k] = exp[first[0]]
                continue
            fate = case['fate'][k % 9]
            y = curve(rng, lam, rng.uniform(0.5, 4))
            y = (y.astype('f4') if case['f4'] else y).astype('f8')
            fw = np.concatenate([w / (1 + x.z_qso) for x in specs
                                 for w in x.forestwave.values()
                                 if x.targetid == s.targetid])
            mid = (lam > fw.min()) & (lam < fw.max())
            ok = True
            if fate == 'negative':
                y[mid] -= y.max() * 1.2
            elif fate == 'nan':
                # the spline through it is undefined everywhere
                y[np.nonzero(mid)[0][mid.sum() // 2] if mid.any() else 0] = \
                    np.nan
                ok = False
            elif fate == 'zero':
                y[:] = 0
                ok = False
            elif fate == 'outside':
                # what lies beyond the forest of this quasar does not
                # invalidate it
                far = lam > fw.max() + 6 * case['step']
                y[far] = -y[far] / 50
            elif fate == 'dip':
                # not positive in a part of the forest only
                j = np.nonzero(mid)[0]
                if j.size:
                    j = j[int(rng.integers(j.size)):]
                    y[j[:1 + int(rng.integers(max(1, j.size // 3)))]] *= -1
            elif fate in ('missing', 'nofile', 'wrongpix'):
                ok = False
            y = (y.astype('f4') if case['f4'] else y).astype('f8')
            if nofile:
                ok = False
            if ok:
                sp = CubicSpline(lam, y, bc_type='not-a-knot')
                exp[k] = lambda w, z, sp=sp: sp(w / (1 + z))
                if sp(fw).min() < 1e-3 * y.max():
                    lows.append(k)
            else:
                exp[k] = None
            if fate not in ('missing', 'wrongpix'):
                rows.append(y)
                ids.append(s.targetid)
            elif fate == 'wrongpix':
                # its continuum lies in the file of another pixel
                fn = f"{ind}/input-continuum-8-{(p + 1) % 768}.fits"
                if (p + 1) % 768 not in pix:
                    write_cont(fn, lam, [s.targetid], [y], w1, case)
        for j in range(case['nextra']):
            rows.append(curve(rng, lam, 9.0))
            ids.append(900000 + j)
        if nofile:
            continue
        fn = f"{ind}/input-continuum-8-{p}.fits"
        if case['corrupt'] and p == min(pix):
            with open(fn, 'wb') as f:
                f.write(b'SIMPLE')
            for k, s in lst:
                exp[k] = None
            continue
        if not rows:
            continue
        o = rng.permutation(len(rows))
        write_cont(fn, lam, [ids[i] for i in o], [rows[i] for i in o], w1,
                   case)
    # continua with low values: decided at the pixels of each spectrum
    low = {specs[k].targetid for k in lows}
    for k, s in enumerate(specs):
        if s.targetid in low and exp[k] is not None:
            c = np.concatenate([exp[k](w, s.z_qso)
                                for w in s.forestwave.values()])
            if abs(c.min()) < 1e-6 * np.abs(c).max():
                raise Skip()
            if c.min() < 0:
                exp[k] = None
    return exp


def write_cont(fn, lam, ids, rows, w1, case):
    with fitsio.FITS(fn, 'rw', clobber=True) as f:
        f.write(None)
        n = len(ids)
        d = np.zeros(n, dtype=[('Z', 'f8'), ('TARGETID', 'i8'),
                               ('RA', 'f8')])
        d['TARGETID'] = ids
        f.write(d, extname='FIBERMAP')
        f.write(np.array(rows, dtype='f4' if case['f4'] else 'f8'),
                extname='CONTINUA', header=dict(WAVE1=w1,
                                                DWAVE=case['step']))


def run_model(case, tmp):
    specs = specs_of(case)
    if not specs:
        return False
    opt, ref = fiducials(case, tmp)
    exp = expected(case, specs, tmp)
    if case['model'] == 'input':
        opt['input_continuum_dir'] = f"{tmp}/cont"
    order = [int(i) for i in rng_of(case['perm']).permutation(len(specs))]
    before = {i: ({a: v.copy() for a, v in s.forestflux.items()},
                           {a: v.copy() for a, v in s.forestivar.items()},
                           s.z_qso, s.catrow.copy()) for i, s in enumerate(
                               specs)}

    def fn(comm, rank, nr):
        idx = order[rank::nr]
        mine = [specs[i] for i in idx]
        with quiet():
            ft = fg.fitter_of(wave1=WIN[0], wave2=WIN[1], forest_w1=WIN[2],
                              forest_w2=WIN[3], rfdwave=4.0,
                              continuum_model=case['model'], **opt)
            ft.model.init_spectra(mine)
            n = None
            for _ in range(case['iters']):
                try:
                    ft.fit_continua(mine)
                except QsonicException as e:
                    n = str(e)
                    break
        out = []
        for i, s in zip(idx, mine):
            cp = s.cont_params
            out.append((i, cp['valid'], cp['cont'],
                        s.forestweight, cp['chi2'], cp['method'], s.catrow,
                        cp['dof']))
        return n, out
    vals = simmpi.collect(fn, case['size'])
    anyok = any(exp[i] is not None for i in range(len(specs)))
    for n, _ in vals:
        check((n is None) == anyok, "fit_continua: %s with %s", n,
              'valid continua' if anyok else 'no valid continuum')
    by = specs
    tags, npix, nbad = [], 0, 0
    for _, out in vals:
        for tid, valid, cont, wt, chi2, method, row, dof in out:
            s = by[tid]
            b = before[tid]
            check(row == b[3], "catalogue row of %d changed", tid)
            check(method == case['model'], "method %s", method)
            f = exp[tid]
            if f is None:
                check(not valid, "quasar %d is valid without a usable "
                      "continuum (%s)", tid, case['fate'])
                check(cont is None and chi2 == -1, "continuum or chi2 %s of "
                      "an invalid quasar", chi2)
                nbad += 1
                continue
            check(valid, "quasar %d is invalid", tid)
            c2, nreal = 0.0, 0
            check(set(cont) == set(s.forestwave), "arms")
            for arm, w in s.forestwave.items():
                c = f(w, b[2]) * at(ref['mf'], w, 1.0)
                close(cont[arm], c, f"continuum of {tid}",
                      rtol=1e-8, scale=np.abs(c).max())
                i = s.forestivar_sm[arm]
                vl = at(ref['vl'], w, 0.1)
                e = i / (1 + i * vl * c**2)
                close(wt[arm], e, f"weight of {tid}", rtol=1e-7)
                c2 += np.sum(e * (b[0][arm] - c)**2)
                nreal += int(np.sum(b[1][arm] > 0))
                same(s.forestflux[arm], b[0][arm], "flux")
                npix += w.size
            close(chi2, c2, f"chi2 of {tid}", rtol=1e-6, atol=1e-9)
            check(dof == nreal, "dof %s != %s", dof, nreal)
    tags = [f"ranks{case['size']}", 'mf' if ref['mf'] else 'nomf',
            'vl' if ref['vl'] else 'novl', 'some-invalid' if nbad else
            'all-valid', 'none' if not anyok else 'some']
    return dict(nontrivial=npix > 20, tags=tags)


# -------------------------------------------------------------- fiducials
@st.composite
def fid_cases(draw):
    return dict(
        mf=draw(tables(0.7)), vl=draw(tables(0.1)),
        onefile=draw(st.booleans()),
        fault=draw(st.sampled_from([None] * 4 + [
            'unequal', 'log', 'nocol', 'nolambda', 'noext', 'nofile',
            'garbage'])),
        which=draw(st.sampled_from(['mf', 'vl'])),
        size=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10**6)))


def run_fid(case, tmp):
    opt, ref = fiducials(case, tmp)
    rng = rng_of(case['seed'])
    fault = case['fault']
    if fault:
        col = 'MEANFLUX' if case['which'] == 'mf' else 'VAR_LSS'
        fn = f"{tmp}/bad.fits"
        lam = np.linspace(3500, 5000, 31)
        y = np.full(31, 0.3)
        if fault == 'unequal':
            lam = lam + np.where(np.arange(31) == rng.integers(1, 30), 7, 0)
            write_table(fn, [('LAMBDA', lam), (col, y)])
        elif fault == 'log':
            write_table(fn, [('LAMBDA', np.geomspace(3500, 5000, 31)),
                             (col, y)])
        elif fault == 'nocol':
            write_table(fn, [('LAMBDA', lam), ('VAR', y), ('FLUX', y)])
        elif fault == 'nolambda':
            write_table(fn, [('WAVE', lam), (col, y)])
        elif fault == 'noext':
            write_table(fn, [('LAMBDA', lam), (col, y)], extname='TABLE')
        elif fault == 'garbage':
            with open(fn, 'w') as f:
                f.write('x' * 5000)
        opt['fiducial_meanflux' if case['which'] == 'mf'
            else 'fiducial_varlss'] = fn

    w = np.sort(rng.uniform(WIN[0], WIN[1], 200))
    w = np.concatenate([w, [WIN[0] + 1e-9, WIN[1] - 1e-9]])
    for t in (ref['mf'], ref['vl']):
        if t is not None:
            g = t[0][(t[0] >= WIN[0]) & (t[0] < WIN[1])]
            w = np.concatenate([w, g])

    def fn_(comm, rank, nr):
        with quiet():
            try:
                ft = fg.fitter_of(wave1=WIN[0], wave2=WIN[1], **opt)
            except QsonicException as e:
                return 'refused', str(e)
            return (ft.meanflux_interp(w), ft.varlss_interp(w),
                    ft.eta_interp(w), ft.varlss_fitter is None)
    res = simmpi.run_mpi(fn_, case['size'])
    if fault:
        for r in res:
            check(r.kind == 'ok' and r.value[0] is not None
                  and isinstance(r.value[0], str), "table with fault %s: %s",
                  fault, r)
        return dict(nontrivial=True, tags=['fault-' + fault])
    for k, r in enumerate(res):
        check(r.kind == 'ok' and not isinstance(r.value[0], str),
              "good tables: %s %s", r, r.value if r.kind == 'ok' else '')
        m, v, e, none = r.value
        close(m, at(ref['mf'], w, 1.0), f"rank {k}: mean flux", rtol=1e-9,
              scale=1)
        close(v, at(ref['vl'], w, 0.1), f"rank {k}: var_lss", rtol=1e-9,
              scale=0.1)
        close(e, np.ones(w.size), f"rank {k}: eta", rtol=1e-9)
        check(none == (ref['vl'] is not None), "var_lss is %sfitted",
              '' if not none else 'not ')
    return dict(nontrivial=ref['mf'] is not None or ref['vl'] is not None,
                tags=['good'])



# ------------------------------------------------- inconsistent input files
@st.composite
def mis_cases(draw):
    return dict(n=draw(st.integers(2, 9)), k=draw(st.integers(1, 12)),
                more=draw(st.booleans()), npix=draw(st.integers(20, 60)),
                pos=[draw(st.integers(0, 359)), draw(st.integers(-85, 85))],
                sm=draw(fg.samples(nspec=(1, 4), npix=(50, 90),
                                   zs=(2.1, 3.2))))


def run_mis(case, tmp):
    """FIBERMAP and CONTINUA of different lengths: which continuum belongs to
    which quasar is unknown, and using the file would mix them up."""
    specs = fg.spectra_of(case['sm'], WIN, 0.0)
    if not specs:
        return False
    for s in specs:
        s.catrow['RA'], s.catrow['DEC'] = case['pos']
    rng = rng_of(case['sm']['seed'])
    n = max(case['n'], len(specs))
    m = n + case['k'] if case['more'] else max(1, n - case['k'])
    if n == m:
        return False
    ids = [int(s.targetid) for s in specs]
    ids += [800000 + j for j in range(n - len(ids))]
    ids = [ids[i] for i in rng.permutation(n)]
    p = int(ang2pix(8, *map(float, case['pos']), lonlat=True, nest=True))
    with fitsio.FITS(f"{tmp}/input-continuum-8-{p}.fits", 'rw') as f:
        f.write(None)
        d = np.zeros(n, dtype=[('TARGETID', 'i8')])
        d['TARGETID'] = ids
        f.write(d, extname='FIBERMAP')
        f.write(rng.uniform(1, 2, (m, case['npix'])), extname='CONTINUA',
                header=dict(WAVE1=1000., DWAVE=300. / case['npix']))
    with quiet():
        ft = fg.fitter_of(wave1=WIN[0], wave2=WIN[1], forest_w1=WIN[2],
                          forest_w2=WIN[3], rfdwave=4.0,
                          continuum_model='input', input_continuum_dir=tmp)
        must_raise(lambda: ft.model.init_spectra(specs),
                   "input continua of %d quasars for %d rows" % (m, n))
    return dict(nontrivial=True, tags=['more' if m > n else 'fewer'])


SUBS = [
    Sub('true', lambda: cases('true'), run_model, quick=120, thorough=2500,
        shards=3, rule="continua of more than 20 pixels compared"),
    Sub('input', lambda: cases('input'), run_model, quick=240, thorough=5000,
        shards=3, rule="continua of more than 20 pixels compared"),
    Sub('fiducial', fid_cases, run_fid, quick=200, thorough=5000, shards=2,
        rule="a table was given, or a malformed table refused on all ranks"),
    Sub('mismatch', mis_cases, run_mis, quick=40, thorough=400, shards=1,
        rule="an input file with more or fewer continua than quasars"),
]
