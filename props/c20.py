"""C20 whole qsonic-fit runs: reference pipeline, any number of ranks."""
import os

import fitsio
import numpy as np
from hypothesis import strategies as st

from vlib import e2e
from vlib import fitgen as fg
from vlib import meancont
from vlib import simmpi
from vlib import specgen as sg
from vlib.engine import Sub
from vlib.util import check, close, quiet, rng_of


@st.composite
def options(draw, sv, full=True):
    mock = sv['kind'] == 'mock'
    o = dict(
        coadd=draw(st.sampled_from(['before', 'after', 'disable'])),
        skip=draw(st.sampled_from([0.2, 0.2, 0.0, 0.5])),
        arms=draw(st.sampled_from([['B', 'R'], ['B', 'R'], ['R', 'B', 'R'],
                                   ['B'], ['B', 'R', 'Z']])),
        rsnr=draw(st.sampled_from([None, None, None, 1.0, 2.0])),
        fsnr=draw(st.sampled_from([None, None, None, 0.7, 1.5])),
        smooth=draw(st.sampled_from([16.1, 0., 30.3])),
        skipreso=draw(st.booleans()),
        byhpx=draw(st.booleans()) and sv['kind'] != 'tile',
        expo=draw(st.sampled_from(['disable', 'disable', 'before']))
        if sv['exposures'] else 'disable',
        nit=draw(st.integers(1, 3)), order=draw(st.sampled_from(
            [1, 1, 0, 2])),
        win=draw(st.sampled_from([[1040., 1200.], [1050., 1180.]])),
        keep=draw(st.sampled_from([None, None, ['main'],
                                   ['main', 'sv3']])),
        mini=draw(st.sampled_from(['iminuit', 'iminuit', 'l_bfgs_b'])),
        noise=draw(st.sampled_from([None, None, [0.2, 0], [0.1, 1]])),
        flux=draw(st.sampled_from([None, None, [0.2, 0], [0.1, 1]])),
        additive=draw(st.booleans()),
        sky=draw(st.sampled_from(
            [None, None, [['OBS', 3800.3, 3850.7]],
             [['OBS', 3929.7, 3934.3], ['RF', 1100.07, 1120.03]],
             [['RF', 1040.07, 1100.03]], [['OBS', 3590.1, 3850.3]]])),
        bal=draw(st.booleans()),
        dla=[[q['tid'], q['z'] - draw(st.sampled_from([0.1, 0.2])),
              draw(st.sampled_from([20.3, 21.0]))] for q in sv['qso']
             if draw(st.sampled_from([True, False, False]))]
        if draw(st.booleans()) else [],
        fidmf=draw(st.sampled_from([None, None, 1.0])),
        fidvl=draw(st.sampled_from([None, None, 1.0])),
        fiteta=draw(st.booleans()), cov=draw(st.sampled_from(
            [False, False, True])),
        norm=draw(st.booleans()), etacal=draw(st.sampled_from(
            [False, False, True])),
        model=draw(st.sampled_from(['picca'] * 5 + ['input'] + (
            ['true', 'true'] if mock else []))),
        fates=draw(st.lists(st.sampled_from(
            ['ok'] * 6 + ['missing', 'negative', 'nan']), min_size=3,
            max_size=7)))
    if draw(st.integers(0, 5)) == 0:
        # additive noise on a sample of which some quasars failed
        o.update(noise=o['noise'] or [0.1, 0], additive=True)
        if not mock:
            o.update(model='input', fates=['ok', 'ok', 'ok'] + [
                draw(st.sampled_from(['missing', 'negative', 'nan', 'ok']))
                for _ in range(2)])
    if o['model'] == 'true':
        o['fidmf'] = o['fidmf'] or 0.5
        o['fidvl'] = o['fidvl'] or 0.5
    return o


def build(sv, o, root):
    """Options object, tools and the functions the run is given."""
    opt = e2e.Options(
        sv, root, win=o['win'], keep=o['keep'], skip=o['skip'],
        coadd_arms=o['coadd'], arms=o['arms'], min_rsnr=o['rsnr'],
        min_forestsnr=o['fsnr'], smoothing_scale=o['smooth'],
        skip_resomat=o['skipreso'], save_by_hpx=o['byhpx'],
        exposures=o['expo'], num_iterations=o['nit'],
        cont_order=o['order'], aux=[], more=[])
    more, tools = opt.more, []
    opt.varadd = None
    p = root + '/'
    if o['noise']:
        t = e2e.tool_noise(opt, p + 'noise.fits', o['noise'])
        tools.append(t)
        more += ['--noise-calibration', p + 'noise.fits']
        if o['additive']:
            more += ['--varlss-as-additive-noise']
            opt.varadd = t.varlss
    if o['flux']:
        tools.append(e2e.tool_flux(opt, p + 'flux.fits', o['flux']))
        more += ['--flux-calibration', p + 'flux.fits']
    if o['sky']:
        tools.append(e2e.tool_sky(opt, p + 'sky.txt', o['sky']))
        more += ['--sky-mask', p + 'sky.txt']
    if o['bal']:
        tools.append(e2e.tool_bal())
        more += ['--bal-mask']
    if o['dla']:
        tools.append(e2e.tool_dla(opt, p + 'dla.fits', o['dla']))
        more += ['--dla-mask', p + 'dla.fits']
    opt.mf = opt.vl = None
    if o['fidmf'] is not None:
        opt.mf, _ = e2e.write_fiducial(opt, p + 'mf.fits', o['fidmf'], 0.3)
        more += ['--fiducial-meanflux', p + 'mf.fits']
    if o['fidvl'] is not None:
        _, opt.vl = e2e.write_fiducial(opt, p + 'vl.fits', 0.3, o['fidvl'])
        more += ['--fiducial-varlss', p + 'vl.fits']
    for k, v in (('fiteta', '--var-fit-eta'), ('cov', '--var-use-cov'),
                 ('norm', '--normalize-stacked-flux'),
                 ('etacal', '--eta-calib-ivar')):
        if o[k]:
            more.append(v)
    more += ['--minimizer', o['mini']]
    if o['model'] == 'true':
        more += ['--true-continuum']
    if o['model'] == 'input':
        e2e.write_input_continua(sv, opt, p + 'cont', o['fates'])
        more += ['--input-continuum-dir', p + 'cont']
    return opt, tools


def fate(o, r):
    """What a given continuum allows: True, False, None (fit decides)."""
    if o['model'] == 'true':
        return True
    if o['model'] == 'input':
        return o['fates'][r.i % len(o['fates'])] == 'ok'
    return None


@st.composite
def cases(draw):
    sv = draw(e2e.surveys(kinds=('data', 'data', 'mock', 'tile'),
                          exposures=draw(st.booleans()), min_qso=8,
                          max_qso=16, rich=True))
    if sv['kind'] != 'data':
        sv['exposures'] = False
    return dict(sv=sv, o=draw(options(sv)), size=draw(st.integers(1, 4)),
                stale=draw(st.sampled_from([False, False, True])))


def leave_stale(opt):
    """Files of an earlier run, which a new run must replace."""
    os.mkdir(opt.outdir)
    t = np.zeros(2, dtype=[('TARGETID', 'i8'), ('Z', 'f8'),
                           ('meanflux', 'f8')])
    for fn, exts in (('attributes', ['CONT-7', 'CONT', 'VAR_STATS']),
                     ('continuum_chi2_catalog', ['CHI2_CAT']),
                     ('delta-0', ['5-B', '6-B'])):
        if fn == 'delta-0' and opt.save_by_hpx:
            continue
        with fitsio.FITS(f"{opt.outdir}/{fn}.fits", 'rw', clobber=True) as f:
            for nm in exts:
                f.write(t, extname=nm, header=dict(TARGETID=5))


def key_of(d):
    h = d['header']
    e = h['EXPID'] if 'EXPID' in h else None
    return int(h['TARGETID']), None if e is None else int(e), \
        d['ext'].split('-')[1]


def attributes(outdir):
    out = {}
    with fitsio.FITS(outdir + '/attributes.fits') as f:
        for hdu in f:
            if hdu.get_exttype() == 'BINARY_TBL':
                d = hdu.read()
                out[hdu.get_extname()] = {
                    c.lower(): np.array(d[c], 'f8') for c in d.dtype.names
                    if d[c].ndim == 1}
    return out


def reference(sv, opt, o, tools):
    refs = []
    sel = [q['tid'] for q in e2e.selected(sv, opt)]
    for i, q in enumerate(sv['qso']):
        if q['tid'] not in sel or q['absent']:
            continue
        exps = range(q['nexp']) if o['expo'] == 'before' else [None]
        for k in exps:
            r, verdict = e2e.prepare(sv, opt, i, k, tools)
            refs.append((r, verdict))
    return refs


def sound(eta, vl, w, i_s, c):
    e, v = eta(w), i_s * vl(w) * c**2
    return bool(np.all(e + v > 0.7 * (np.abs(e) + np.abs(v)))
                and np.all(e > 0.02))


def variance_stats(t, pixels):
    """VAR_STATS against the pixels of the last fit. Pixels within rounding
    of a bin edge may be on either side."""
    w, d, iv, amp = map(np.concatenate, zip(*pixels))
    nv = e2e.NVAR
    nw = t['wave'].size // nv
    check(t['wave'].size == nw * nv, "VAR_STATS has %d rows",
          t['wave'].size)
    step = 720. / nw
    close(t['wave'], np.repeat(3600. + step * (np.arange(nw) + 0.5), nv),
          "VAR_STATS wavelengths", rtol=1e-9)
    edges = np.logspace(-np.log10(20.), 4, nv + 1)
    kw = np.floor((w - 3600.) / step).astype(int)
    kv = np.searchsorted(edges, iv) - 1
    near = np.abs(np.log(iv[:, None] / edges[None, :])).min(1) < 1e-4 * amp
    near |= np.abs((w - 3600.) / step - np.round((w - 3600.) / step)) < 1e-6
    inside = (kw >= 0) & (kw < nw) & (kv >= 0) & (kv < nv)
    for k in range(nw):
        for b in range(nv):
            s = inside & ~near & (kw == k) & (kv == b)
            u = near & (np.abs(kw - k) <= 1) & (np.abs(kv - b) <= 1)
            n = int(t['num_pixels'][k * nv + b])
            check(s.sum() <= n <= s.sum() + u.sum(), "%d pixels in variance "
                  "bin %d of wavelength bin %d, expected %d", n, b, k,
                  s.sum())
            if u.any() or not s.any():
                continue
            tol = 1e-5 * amp[s].max() * (1 + np.abs(d[s]).max())
            close(t['mean_delta'][k * nv + b], d[s].mean(),
                  f"mean delta in bin {k},{b}", rtol=0, atol=tol)
            close(t['var_pipe'][k * nv + b], (1 / iv[s]).mean(),
                  f"mean pipeline variance in bin {k},{b}",
                  rtol=1e-4 * amp[s].max())


def variance_errors(t, v, o):
    """The errors of the variance functions are those of the weighted
    straight-line fit to the saved variances."""
    nv = e2e.NVAR
    for k in range(v['lambda'].size):
        s = slice(k * nv, (k + 1) * nv)
        g = (t['num_pixels'][s] >= 1) & (t['num_qso'][s] >= 1)
        e = t['e_var_delta'][s][g]
        if g.sum() < 5 or not np.all(e > 0):
            continue
        A = np.stack([np.ones(e.size), t['var_pipe'][s][g]], 1)
        A = (A if o['fiteta'] else A[:, :1]) / e[:, None]
        d = np.abs(A).max(0)
        if np.linalg.cond(A / d) > 1e5:
            continue
        std = np.sqrt(np.diag(np.linalg.inv((A / d).T @ (A / d)))) / d
        got = [v['e_var_lss'][k], v['e_eta'][k]][:std.size]
        if got[0] == 0:     # fit failed
            continue
        close(got, std, "errors of var_lss%s at %.1f" % (
            " and eta" if o['fiteta'] else "", v['lambda'][k]), rtol=0.03)


def flux_stack(name, centres, got, w, f, wt, amp):
    """Weighted mean of flux/continuum in each bin of the last iteration.
    Bins with a pixel within rounding of their edge are left out."""
    step = centres[1] - centres[0]
    y = (w - centres[0]) / step + 0.5
    k = np.floor(y).astype(int)
    near = np.abs(y - np.round(y)) < 1e-6
    bad = set(np.round(y[near]).astype(int))
    for b in range(centres.size):
        if b in bad or b + 1 in bad:
            continue
        s = (k == b) & (wt > 0)
        want = np.average(f[s], weights=wt[s]) if s.any() else 0.
        tol = 1e-5 * (amp[s] * (1 + np.abs(f[s]))).max() if s.any() else 0
        close(got[b], want, f"{name} at {centres[b]:.2f}", rtol=0, atol=tol)


def compare(sv, opt, o, tools, size):
    """Checks the output directory against the reference."""
    from qsonic.mathtools import get_smooth_ivar
    rtol = 2e-5 if sv['dtype'] == 'f4' else 2e-6
    refs = reference(sv, opt, o, tools)
    att = attributes(opt.outdir)
    nit = sum(1 for k in att if k.startswith('CONT-') and k[5:].isdigit())
    check(1 <= nit <= o['nit'], "%d iterations saved", nit)
    for it in range(1, nit + 1):
        for nm in ['CONT', 'STACKED_FLUX', 'STACKED_FLUX_RF'] + (
                [] if opt.vl else ['VAR_FUNC']):
            check(f"{nm}-{it}" in att, "%s-%d missing in attributes", nm, it)
    for nm in ('CONT', 'STACKED_FLUX', 'STACKED_FLUX_RF', 'VAR_STATS'):
        check(nm in att, "%s missing in attributes", nm)
    with fitsio.FITS(opt.outdir + '/continuum_chi2_catalog.fits') as f:
        chi = f['CHI2_CAT'].read()
    deltas = {}
    for d in e2e.read_out(opt.outdir):
        k = key_of(d)
        check(k not in deltas, "%s saved twice (in %s)", k, d['file'])
        deltas[k] = d
    # --- every fitted quasar once in the chi2 catalogue
    n_in, n_edge = {}, {}
    for r, v in refs:
        n_in[r.tid] = n_in.get(r.tid, 0) + (v == 'in')
        n_edge[r.tid] = n_edge.get(r.tid, 0) + (v == 'edge')
    got = {}
    for t in chi['TARGETID']:
        got[int(t)] = got.get(int(t), 0) + 1
    for t in set(got) | set(n_in):
        lo = n_in.get(t, 0)
        hi = lo + n_edge.get(t, 0)
        check(lo <= got.get(t, 0) <= hi, "chi2 catalogue lists quasar %d %d "
              "times, %d spectra pass the cuts", t, got.get(t, 0), lo)
    # --- continuum functions used in the last iteration
    last = att[f'CONT-{nit}']
    mc = e2e.spline(last['lambda_rf'], last['mean_cont'])
    x1, x2 = last['lambda_rf'][0], last['lambda_rf'][-1]
    mf = opt.mf or (lambda w: np.ones(w.size))

    def varfun(name):
        if opt.vl is not None:
            return opt.vl, lambda w: np.ones(w.size)
        t = att[name]
        return (e2e.spline(t['lambda'], t['var_lss']),
                e2e.spline(t['lambda'], t['eta']))
    vl, eta = varfun(f'VAR_FUNC-{nit}')
    vl2, eta2 = varfun('VAR_FUNC')
    if o['model'] == 'true':
        eta = lambda w: np.ones(w.size)                         # noqa: E731
    sf = att['STACKED_FLUX']
    # bins without data do not normalise
    stack = e2e.linear(sf['lambda'], np.where(
        sf['stacked_flux'] == 0, 1., sf['stacked_flux']))

    def sm(v):
        if o['smooth'] <= 0 or not np.any(v > 0):
            return v
        return get_smooth_ivar(v.copy(), o['smooth'] / sv['dw'])

    late = o['coadd'] == 'after' or opt.varadd is not None
    used, nt = set(), 0
    pixels, stk = [], []
    for r, verdict in refs:
        exp = None if r.iexp is None else \
            e2e.expinfo(sv, r.i, r.iexp)['EXPID']
        mine = {k[2]: d for k, d in deltas.items()
                if k[:2] == (r.tid, exp)}
        used |= {(r.tid, exp, a) for a in mine}
        what = f"quasar {r.tid}" + (f" exposure {exp}" if exp else "")
        rows = chi[chi['TARGETID'] == r.tid]
        if verdict == 'out':
            check(not mine, "%s does not pass the cuts but is saved", what)
            continue
        if rows.size == 0:
            check(not mine, "%s saved but not in chi2 catalogue", what)
            continue
        row = None
        if r.iexp is None:
            row = rows[0]
        elif rows.size == 1 and sv['qso'][r.i]['nexp'] == 1:
            row = rows[0]
        if fate(o, r) is not None:
            check(np.all(rows['CONT_valid'] == fate(o, r)), "%s: a given "
                  "continuum that is %s is marked valid=%s", what, fate(o, r),
                  rows['CONT_valid'])
        if row is not None:
            if not row['CONT_valid']:
                check(not mine, "%s has no valid fit but is saved", what)
                check(row['CONT_chi2'] == -1, "%s: chi2 %s of an invalid "
                      "fit", what, row['CONT_chi2'])
                continue
            close(row['Z'], r.z, what + " Z", rtol=1e-6)
            close(row['RSNR'], r.rsnr, what + " RSNR", rtol=1e-4, atol=1e-6)
            check(int(row['HPXPIXEL']) == e2e.hpx(sv, r.q), "%s HPXPIXEL",
                  what)
            if set(r.snr) == set(r.arms) and (
                    o['coadd'] != 'after'):
                arms = str(row['ARMS']).strip().split(',')
                check(sorted(arms) == sorted(r.snr), "%s: ARMS %s, "
                      "expected %s", what, arms, sorted(r.snr))
                close(row['MEANSNR'][:len(arms)], [r.snr[a] for a in arms],
                      what + " MEANSNR", rtol=1e-4, atol=1e-5)
            ndof = r.size() - (o['order'] + 1 if o['model'] == 'picca'
                               else 0)
            check(int(row['CONT_dof']) == ndof, "%s: dof %s, expected %d",
                  what, row['CONT_dof'], ndof)
        elif not mine:
            # it may have been fitted, and dropped when saving
            pixels, stk = None, None
            continue

        # continuum of every arm, before and after normalisation
        def model(w):
            if o['model'] == 'true':
                c = e2e.spline(
                    e2e.TCW1 + e2e.TCDW * np.arange(e2e.TCN),
                    e2e.true_cont(sv, r.i))(w)
                r.cscale = 0.
                return c * mf(w)
            if o['model'] == 'input':
                c = e2e.spline(
                    e2e.INW1 + e2e.INDW * np.arange(e2e.INN),
                    e2e.input_cont(sv, r.i, 'ok'))(w / (1 + r.z))
                r.cscale = 0.
                return c * mf(w)
            t = np.log(w / (1 + r.z) / x1) / np.log(x2 / x1) * 2 - 1
            x = np.array(row['CONT_x'], 'f8').ravel()
            # parameters are stored in single precision
            r.cscale = np.max(np.abs(mc(w / (1 + r.z))) * sum(
                np.abs(x) * mf(w).max()))
            return mc(w / (1 + r.z)) * sum(
                c * t**k for k, c in enumerate(x)) * mf(w)

        if row is None:
            pixels = None
        elif pixels is not None:
            for a, x in r.arms.items():
                c = model(x['w']) * (stack(x['w']) if o['norm'] and opt.vl
                                     else 1.)
                g = x['v'] > 0
                pixels.append((x['w'][g], x['f'][g] / c[g] - 1,
                               x['v'][g] * c[g]**2,
                               1 + r.cscale / np.maximum(np.abs(c[g]),
                                                         1e-30)))
        cont0, cont, wgt = {}, {}, {}
        if row is None:
            # parameters of this exposure are not identified in the
            # catalogue: take the saved continuum as given
            base = {a: d['cols']['CONT'] for a, d in mine.items()}
        for a, x in r.arms.items():
            if row is None:
                if a not in base or base[a].size != x['w'].size:
                    cont0 = None
                    break
                cont0[a] = base[a] / (stack(x['w']) if o['norm'] else 1.)
            else:
                cont0[a] = model(x['w'])
            cont[a] = cont0[a] * (stack(x['w']) if o['norm'] else 1.)
            i_s = sm(x['v'])
            den = eta(x['w']) + i_s * vl(x['w']) * cont0[a]**2
            # variance functions extrapolated to negative values from a
            # tiny sample: weights have no meaning
            if not sound(eta, vl, x['w'], i_s, cont0[a]) or (
                    late and not sound(eta2, vl2, x['w'], 4 * i_s, cont[a])
                    ) or (o['etacal'] and np.min(eta2(x['w'])) < 0.05):
                cont0 = None
                break
            wgt[a] = i_s / den
        if cont0 is None or row is None:
            stk = None
        if cont0 is None:
            continue
        if stk is not None:
            stk += [(x['w'], x['w'] / (1 + r.z), x['f'] / cont0[a],
                     wgt[a] * cont0[a]**2, 1 + r.cscale / np.maximum(
                         np.abs(cont0[a]), 1e-30), x['f'] / cont[a],
                     wgt[a] * cont[a]**2)
                    for a, x in r.arms.items()]
        if row is not None and not o['etacal'] and o['coadd'] != 'after' \
                and opt.varadd is None:
            c2 = sum(np.dot(wgt[a], (x['f'] - cont0[a])**2)
                     for a, x in r.arms.items())
            close(row['CONT_chi2'], c2, what + " chi2", rtol=1e-3, atol=1e-6)
        if o['etacal']:
            for a, x in r.arms.items():
                x['v'] = x['v'] / eta2(x['w']) if opt.vl is None else x['v']
        if opt.varadd is not None:
            for a, x in r.arms.items():
                x['v'] = x['v'] / (1 + x['v'] * opt.varadd(x['w'])
                                   * cont[a]**2)
                i_s = sm(x['v'])
                wgt[a] = i_s / (eta2(x['w']) + i_s * vl2(x['w'])
                                * cont[a]**2)
        for a, x in r.arms.items():
            x['c'], x['wt'] = cont[a], wgt[a]
        if o['coadd'] == 'after':
            if not r.arms:
                check(not mine, "%s saved without pixels", what)
                continue
            r.coadd(wgt, cont)
            x = r.arms['brz']
            i_s = sm(x['v'])
            x['wt'] = i_s / (eta2(x['w']) + i_s * vl2(x['w']) * x['c']**2)
            if row is not None and not o['etacal'] and opt.varadd is None:
                c2 = np.dot(x['wt'], (x['f'] - x['c'])**2)
                close(row['CONT_chi2'], c2, what + " chi2 of the coadd",
                      rtol=1e-3, atol=1e-6)
        nreal = o['skip'] * (1 + r.z) * (o['win'][1] - o['win'][0]) / r.dw
        if abs(nreal - round(nreal)) < 1e-6 and any(
                np.sum(x['v'] > 0) == round(nreal)
                for x in r.arms.values()):
            continue        # undecidable within rounding
        r.drop(int(nreal) + 1)
        want = {a for a in r.arms if r.snr.get(a) != 0}
        check(set(mine) == want, "%s: arms %s saved, expected %s", what,
              sorted(mine), sorted(want))
        for a in want:
            x, d = r.arms[a], mine[a]
            c = d['cols']
            nm = f"{what} arm {a}"
            close(c['LAMBDA'], x['w'], nm + " wavelength", rtol=1e-9)
            cov = x.get('covered', np.ones(x['w'].size, bool))
            if row is not None:
                close(c['CONT'][cov], x['c'][cov], nm + " continuum",
                      rtol=rtol, scale=np.abs(x['c'][cov]).max()
                      + r.cscale)
            cc = c['CONT']
            # parameters are stored in single precision
            amp = 1 + (np.abs(x['c'][cov]).max() + getattr(
                r, 'cscale', 0.)) / np.maximum(np.abs(cc), 1e-30)
            dcol = 'DELTA' if 'DELTA' in c else 'DELTA_BLIND'
            good = x['v'] > 0
            check(np.array_equal(c['IVAR'] > 0, good), "%s: valid pixels "
                  "differ at %s", nm, x['w'][(c['IVAR'] > 0) != good][:4])
            check(np.all(c[dcol][~good] == 0) and np.all(
                c['WEIGHT'][~good] == 0), "%s: masked pixel has signal", nm)
            close(c[dcol][good], x['f'][good] / cc[good] - 1, nm + " delta",
                  rtol=10 * rtol, scale=1 + np.abs(x['f'] / cc).max())
            iv = (x['v'] * cc**2)[good]
            close(c['IVAR'][good], iv, nm + " ivar",
                  rtol=10 * rtol, scale=iv * amp[good])
            if not (o['etacal'] and (o['coadd'] == 'after'
                                     or opt.varadd is not None)):
                wt = (x['wt'] * cc**2)[good]
                close(c['WEIGHT'][good], wt, nm + " weight", rtol=1e-4,
                      scale=wt * amp[good])
            if o['skipreso']:
                check('RESOMAT' not in c, "%s: resolution saved", nm)
            else:
                close(c['RESOMAT'][good], x['r'].T[good], nm
                      + " resolution", rtol=1e-4, scale=1.)
            h = d['header']
            close(h['MEANSNR'], r.snr[a], nm + " MEANSNR", rtol=1e-4)
            close(h['RSNR'], r.rsnr, nm + " RSNR", rtol=1e-4, atol=1e-6)
            if o['byhpx']:
                check(d['file'] == f"delta-{e2e.hpx(sv, r.q)}.fits",
                      "%s saved in %s", nm, d['file'])
            nt += 1
    names = [f"-{k + 1}" for k in range(nit)] + [''] + (
        ['-fit'] if opt.vl else [])
    meancont.chain(att, names, o['order'] if o['model'] == 'picca' else 0,
                   o['model'] == 'picca')
    if pixels:
        variance_stats(att['VAR_STATS'], pixels)
    if not o['cov']:
        variance_errors(att['VAR_STATS'], att['VAR_FUNC-fit' if opt.vl else
                                              'VAR_FUNC'], o)
    if stk and o['model'] == 'picca':
        w, wrf, f, wt, amp, f2, wt2 = map(np.concatenate, zip(*stk))
        flux_stack('STACKED_FLUX', att['STACKED_FLUX']['lambda'],
                   att['STACKED_FLUX']['stacked_flux'], w, f, wt, amp)
        flux_stack('STACKED_FLUX_RF', att['STACKED_FLUX_RF']['lambda_rf'],
                   att['STACKED_FLUX_RF']['stacked_flux_rf'], wrf, f, wt,
                   amp)
        if opt.vl:      # of the normalised continua
            flux_stack('STACKED_FLUX-fit', att['STACKED_FLUX-fit']['lambda'],
                       att['STACKED_FLUX-fit']['stacked_flux'], w, f2, wt2,
                       amp)
    rest = set(deltas) - used
    check(not rest, "deltas %s belong to no selected quasar", sorted(
        map(str, rest))[:3])
    return nt, deltas, chi, att


def enough(res):
    return {r.kind for r in res} == {'ok'}


def run(case, tmp):
    sv, o = case['sv'], case['o']
    opt, tools = build(sv, o, tmp)
    e2e.write_survey(sv, tmp, opt)
    sel = e2e.selected(sv, opt)
    if not sel:
        return False
    size = min(case['size'], e2e.ngroups(sv, sel))
    if case['stale']:
        leave_stale(opt)
    with quiet():
        res = e2e.run_fit(opt, size)
    kinds = {r.kind for r in res}
    check('deadlock' not in kinds and 'killed' not in kinds,
          "ranks left waiting: %r", res)
    if kinds != {'ok'}:
        # Abort ends the whole job, whatever the other ranks have done
        check('ok' not in kinds or 'abort' in kinds, "some ranks "
              "finished, others failed: %r", res)
        refs = reference(sv, opt, o, tools)
        refs = [(r, v) for r, v in refs if fate(o, r) is not False]
        n = sum(v == 'in' for _, v in refs)
        # only too little statistics may end a run
        stat = opt.vl is None and any('QsonicException' in r.msg for r in res)
        check(stat or not plenty(refs) or degenerate(opt, o), "run with %d "
              "good spectra ended with %r %s", n, res, case['o'])
        return dict(nontrivial=False, tags=['failed'])
    nt, deltas, chi, att = compare(sv, opt, o, tools, size)
    tags = [sv['kind'], o['coadd'], o['model'], f"ranks{size}",
            f"expo-{o['expo']}"]
    return dict(nontrivial=nt > 1, tags=tags)


def plenty(refs):
    """Every wavelength bin of the variance fit is well populated: a run has
    no statistical reason to fail."""
    ins = [r for r, v in refs if v == 'in']
    if len(ins) < 5:
        return False
    n = np.zeros((6, 10))
    for r in ins:
        amp = np.mean(np.concatenate([x['f'][x['v'] > 0]
                                      for x in r.arms.values()]))
        for x in r.arms.values():
            g = x['v'] > 0
            var = 1 / (x['v'][g] * amp**2)
            n += np.histogram2d(
                x['w'][g], np.log10(var),
                [np.linspace(3600., 4320., 7),
                 np.linspace(-4, np.log10(20), 11)])[0] > 0
    return bool(np.all(np.sum(n >= 2, axis=1) >= 6))


def degenerate(opt, o):
    """The smoothed variance functions went negative (extrapolation on tiny
    samples): weights have no meaning."""
    if opt.vl is not None:
        return False
    try:
        att = attributes(opt.outdir)
    except OSError:
        return False
    w = np.linspace(3600., 4320., 100)
    for k, t in att.items():
        if k.startswith('VAR_FUNC-') or k == 'VAR_FUNC' and (
                o['coadd'] == 'after' or o['etacal'] or opt.varadd):
            for c in ('var_lss', 'eta'):
                if np.min(e2e.spline(t['lambda'], t[c])(w)) < 1e-4:
                    return True
    return False


# ------------------------------------------------------- number of ranks
@st.composite
def rank_cases(draw):
    sv = draw(e2e.surveys(kinds=('data', 'data', 'mock', 'tile'),
                          exposures=draw(st.booleans()), min_qso=8,
                          max_qso=14, rich=True, npos=(2, 8)))
    if sv['kind'] != 'data':
        sv['exposures'] = False
    o = draw(options(sv))
    # the jackknife covariance of so few quasars is nearly singular: its
    # inverse is rounding
    o['cov'] = False
    o['coadd'] = draw(st.sampled_from(['before', 'before', 'disable',
                                       'after']))
    if sv['exposures'] and draw(st.booleans()):
        o['expo'] = 'after'
    return dict(sv=sv, o=o, size=draw(st.integers(2, 6)))


def tables(opt):
    out = {}
    for d in e2e.read_out(opt.outdir):
        out[key_of(d)] = d
    with fitsio.FITS(opt.outdir + '/continuum_chi2_catalog.fits') as f:
        chi = f['CHI2_CAT'].read()
    return out, np.sort(chi, order=['TARGETID', 'RSNR']), \
        attributes(opt.outdir)


def run_ranks(case, tmp):
    sv, o = case['sv'], case['o']
    opt, tools = build(sv, o, tmp)
    e2e.write_survey(sv, tmp, opt)
    sel = e2e.selected(sv, opt)
    if not sel:
        return False
    size = min(case['size'], e2e.ngroups(sv, sel))
    if size < 2:
        return False
    out1, out2 = opt.outdir, opt.outdir + '-n'
    with quiet():
        r1 = e2e.run_fit(opt, 1)
        rn = e2e.run_fit(opt, size, argv=opt.argv(out2))
    kinds = {r.kind for r in rn}
    check('deadlock' not in kinds and 'killed' not in kinds,
          "ranks left waiting: %r", rn)
    # jackknife groups stay one measurement each
    nmeas = sum(2 * (q['nexp'] if o['expo'] == 'before' else 1)
                for q in sel)
    same_err = nmeas <= e2e.NVAR**2 // size
    if degenerate(opt, o):
        return dict(nontrivial=False, tags=['degenerate'])
    if r1[0].kind != 'ok':
        check(kinds != {'ok'} or not same_err, "one rank ends with %r, %d "
              "ranks finish", r1, size)
        return dict(nontrivial=False, tags=['failed'])
    if not same_err:
        check('ok' not in kinds or kinds == {'ok'} or 'abort' in kinds,
              "%r", rn)
        if kinds != {'ok'}:
            return False
        a, b = e2e.read_out(out1), e2e.read_out(out2)
        return dict(nontrivial=len(a) > 0 and len(b) > 0,
                    tags=['other-jackknife'])
    check(kinds == {'ok'}, "one rank finishes, %d ranks end with %r", size,
          rn)
    d1, c1, a1 = tables(opt)
    opt.outdir = out2
    d2, c2, a2 = tables(opt)
    opt.outdir = out1
    check(set(d1) == set(d2), "deltas differ with %d ranks: %s", size,
          sorted(map(str, set(d1) ^ set(d2)))[:3])
    tol = 2e-4
    for k, d in d1.items():
        e = d2[k]
        check(set(d['cols']) == set(e['cols']), "%s: columns differ", k)
        for c, v in d['cols'].items():
            if v.ndim == 1:
                close(e['cols'][c], v, f"{k} {c} with {size} ranks",
                      rtol=tol, scale=np.abs(v).max())
            else:
                close(e['cols'][c], v, f"{k} {c}", rtol=tol, scale=1.)
        h, g = d['header'], e['header']
        for c in ('TARGETID', 'RA', 'DEC', 'Z', 'MEANSNR', 'RSNR', 'MEANRESO',
                  'BLINDING'):
            if c in h:
                check(c in g and (h[c] == g[c] or isinstance(h[c], float)
                      and abs(h[c] - g[c]) <= tol * abs(h[c])),
                      "%s header %s", k, c)
        if o['byhpx']:
            check(d['file'] == e['file'], "%s in %s and %s", k, d['file'],
                  e['file'])
    check(c1.size == c2.size, "chi2 catalogue has %d and %d rows", c1.size,
          c2.size)
    for c in ('TARGETID', 'HPXPIXEL', 'CONT_valid', 'CONT_dof', 'ARMS'):
        check(np.array_equal(c1[c], c2[c]), "chi2 catalogue %s differs", c)
    for c in ('RSNR', 'MEANSNR', 'CONT_x'):
        v = c1['CONT_valid']
        close(c2[c][v], c1[c][v], "chi2 catalogue " + c, rtol=20 * tol,
              atol=1e-6, scale=np.abs(c1[c]).max())
    check(set(np.unique(c2['MPI_RANK'])) <= set(range(size)), "MPI_RANK")
    check(set(a1) == set(a2), "attributes extensions differ: %s",
          set(a1) ^ set(a2))
    for k, t in a1.items():
        for c, v in t.items():
            close(a2[k][c], v, f"attributes {k} {c} with {size} ranks",
                  rtol=20 * tol, scale=np.abs(v).max() + 1e-12)
    return dict(nontrivial=len(d1) > 1 and size > 1, tags=[
        f"ranks{size}", sv['kind'], o['coadd'], o['expo']])


# ------------------------------------------------------- faults
FAULTS = ['catalog', 'spectra', 'spectra-cut', 'noise', 'flux', 'sky', 'dla',
          'mf', 'vl', 'outdir', 'nocol', 'bal']


@st.composite
def fault_cases(draw):
    sv = draw(e2e.surveys(kinds=('data', 'mock', 'tile'), exposures=False,
                          min_qso=6, max_qso=10, rich=True, npos=(2, 6)))
    o = draw(options(sv))
    o.update(noise=[0.1, 0], flux=[0.1, 0], sky=[['OBS', 3800., 3810.]],
             dla=[[sv['qso'][0]['tid'], sv['qso'][0]['z'] - 0.2, 20.5]],
             fidmf=1.0, fidvl=1.0, keep=None)
    return dict(sv=sv, o=o, size=draw(st.integers(1, 4)),
                fault=draw(st.sampled_from(FAULTS)),
                pick=draw(st.integers(0, 99)), how=draw(st.integers(0, 1)))


def spoil(path, how):
    """how 0: remove; 1: not a FITS file any more."""
    if how == 0:
        os.remove(path)
    else:
        with open(path, 'wb') as f:
            f.write(b'garbage' * 11)


def run_fault(case, tmp):
    import glob
    sv, o, f = case['sv'], case['o'], case['fault']
    if f == 'bal':
        o['bal'] = True
    opt, tools = build(sv, o, tmp)
    e2e.write_survey(sv, tmp, opt)
    sel = e2e.selected(sv, opt)
    if not sel:
        return False
    size = min(case['size'], e2e.ngroups(sv, sel))
    how = case['how']
    if f == 'catalog':
        spoil(opt.catalog, how)
    elif f in ('spectra', 'spectra-cut'):
        # a file that holds a selected quasar
        q = sel[case['pick'] % len(sel)]
        names = sorted(glob.glob(opt.input_dir + '/**/*.fits*',
                                 recursive=True))
        names = [n for n in names if 'truth' not in n and str(
            e2e.group(sv, q)) in os.path.basename(n)]
        if sv['kind'] == 'data':
            names = [n for n in names
                     if f"-{e2e.SURVEYS[q['survey']]}-" in n]
        elif sv['kind'] == 'tile':
            names = [n for n in names if f"-{q['petal']}-" in
                     os.path.basename(n)]
        if not names:
            raise RuntimeError("no file of the quasar")
        if f == 'spectra':
            spoil(names[0], how)
        else:
            # cut where the flux of an arm that is read begins
            from astropy.io import fits
            with fits.open(names[0]) as h:
                ext = f"{sorted(o['arms'])[0]}_FLUX"
                n = h[ext].fileinfo()['datLoc']
            with open(names[0], 'r+b') as h:
                h.truncate(n)
    elif f in ('noise', 'flux', 'mf', 'vl', 'dla'):
        spoil(f"{tmp}/{f}.fits", how)
    elif f == 'sky':
        os.remove(tmp + '/sky.txt')
    elif f == 'outdir':
        with open(opt.outdir, 'w') as h:
            h.write('not a directory')
    else:
        with fitsio.FITS(opt.catalog) as h:
            d = h[1].read()
        drop = ['Z'] if f == 'nocol' else [
            c for c in d.dtype.names if c.startswith('V')]
        keep = [c for c in d.dtype.names if c not in drop]
        with fitsio.FITS(opt.catalog, 'rw', clobber=True) as h:
            h.write([d[c] for c in keep], names=keep, extname='QSO_CAT')
    with quiet():
        res = e2e.run_fit(opt, size)
    kinds = {r.kind for r in res}
    check(kinds <= {'exit', 'abort'}, "fault %s: ranks ended with %r", f,
          res)
    check(all(r.value not in (None, 0) for r in res if r.kind == 'exit'),
          "fault %s: exit status of success %r", f, [r.value for r in res])
    return dict(nontrivial=True, tags=[f, f"ranks{size}"])


# ------------------------------------------------- chi2 catalogue on its own
@st.composite
def chi2_cases(draw):
    sp = draw(sg.spectra(max_spec=6, max_pix=30))
    n = len(sp['ids'])
    return dict(
        sp=sp, order=draw(st.sampled_from([0, 1, 1, 2, 3])),
        seed=draw(st.integers(0, 9999)), size=draw(st.integers(1, 3)),
        hpx=[draw(st.sampled_from([0, 7, 40000, 12 * 64**2 - 1]))
             for _ in range(n)],
        valid=[draw(st.booleans()) for _ in range(n)],
        drop=[draw(st.sampled_from([None, None, 'B', 'R', 'Z']))
              for _ in range(n)],
        coadd=[draw(st.sampled_from([False, False, True]))
               for _ in range(n)])


def run_chi2(case, tmp):
    from qsonic.spectrum import Spectrum
    cat, data = sg.build(case['sp'])
    rng = rng_of(case['seed'])
    k = case['order'] + 1
    specs = []
    with quiet():
        cat['HPXPIXEL'] = case['hpx']
        for i in range(cat.size):
            s = Spectrum.from_dictionary(cat[i], data, i)
            s.set_forest_region(0., 1e5, 100., 1e4)
            if case['drop'][i]:
                s.drop_arm(case['drop'][i])
            m = rng.normal(size=(k, k))
            s.cont_params.update(
                valid=case['valid'][i], x=rng.normal(size=k),
                xcov=m @ m.T + np.eye(k) + np.triu(m, 1),
                chi2=rng.uniform(1, 900), dof=int(rng.integers(1, 99999)))
            if case['coadd'][i] and s.forestwave:
                s.coadd_arms_forest()
            specs.append(s)

    def fn(comm, rank, nr):
        with quiet():
            ft = fg.fitter_of(outdir=tmp, cont_order=case['order'])
            ft.save_contchi2_catalog(specs[rank::nr])
    simmpi.collect(fn, case['size'])
    with fitsio.FITS(tmp + '/continuum_chi2_catalog.fits') as f:
        t = f['CHI2_CAT'].read()
    check(t.size == len(specs), "%d rows for %d spectra", t.size, len(specs))
    want = {s.targetid: (s, i % case['size']) for i, s in enumerate(specs)}
    check(set(t['TARGETID'].tolist()) == set(want), "TARGETIDs")
    for row in t:
        s, rank = want[row['TARGETID']]
        cp = s.cont_params
        check(row['MPI_RANK'] == rank, "MPI_RANK %s != %s", row['MPI_RANK'],
              rank)
        check(row['HPXPIXEL'] == s.catrow['HPXPIXEL'], "HPXPIXEL %s",
              row['HPXPIXEL'])
        check(bool(row['CONT_valid']) == cp['valid'], "CONT_valid")
        check(row['CONT_dof'] == cp['dof'], "CONT_dof %s != %s",
              row['CONT_dof'], cp['dof'])
        arms = list(s.mean_snr)
        got = [x for x in str(row['ARMS']).strip().split(',') if x]
        check(got == arms, "ARMS %s, not %s", got, arms)
        close(row['MEANSNR'], ([s.mean_snr[a] for a in arms] + [0.] * 3)[:3],
              "MEANSNR", rtol=1e-5, atol=1e-12)
        for c, v in (('Z', s.catrow['Z']), ('RSNR', s.rsnr),
                     ('CONT_chi2', cp['chi2'])):
            close(float(row[c]), float(v), c, rtol=1e-5)
        close(np.ravel(row['CONT_x']), cp['x'], 'CONT_x', rtol=1e-5)
        close(np.ravel(row['CONT_xcov']), cp['xcov'].ravel(), 'CONT_xcov',
              rtol=1e-5)
    return dict(nontrivial=len(specs) > 1,
                tags=["%d arms" % max(len(s.mean_snr) for s in specs)])


SUBS = [
    Sub('chi2cat', chi2_cases, run_chi2, quick=150, thorough=5000, shards=2,
        rule="more than one spectrum"),
    Sub('reference', cases, run, quick=160, thorough=4000, shards=8,
        rule="at least two delta extensions compared"),
    Sub('ranks', rank_cases, run_ranks, quick=60, thorough=2500, shards=8,
        rule="one and several ranks both finished with deltas"),
    Sub('faults', fault_cases, run_fault, quick=60, thorough=1500, shards=4,
        rule="a file the run needs is missing or damaged"),
]


def probe(case, tmp):
    sv, o = case['sv'], case['o']
    opt, tools = build(sv, o, tmp)
    e2e.write_survey(sv, tmp, opt)
    sel = e2e.selected(sv, opt)
    if not sel:
        return 'nosel'
    with quiet():
        res = e2e.run_fit(opt, 1)
    if res[0].kind == 'ok':
        try:
            return 'ok %d' % min(3, compare(sv, opt, o, tools, 1)[0])
        except AssertionError as e:
            import re
            return 'VIOL ' + re.sub(r'\d+', 'N', str(e))[:150]
    refs = reference(sv, opt, o, tools)
    n = sum(v == 'in' for _, v in refs)
    return res[0].kind + (' PLENTY ' if plenty(refs) and not degenerate(opt, o) else '') + ' n=%d ' % min(5, n) + res[0].msg.strip()[-110:]
