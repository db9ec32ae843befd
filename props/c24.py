"""C24 exposures read after continuum fitting."""

import fitsio
import numpy as np
from hypothesis import strategies as st

from props.c20 import build, key_of, options
from vlib import e2e
from vlib.engine import Sub
from vlib.util import check, close, quiet


@st.composite
def cases(draw):
    sv = draw(e2e.surveys(kinds=('data',), exposures=True, min_qso=9,
                          max_qso=14, rich=True, npos=(1, 3)))
    for q in sv['qso']:
        # arms dead in the coadd only, or in single exposures
        q['dcoadd'] = draw(st.sampled_from([None] * 8 + ['B', 'R']))
        q['dexp'] = {str(k): draw(st.sampled_from(['B', 'R']))
                     for k in range(q['nexp'])
                     if draw(st.integers(0, 3)) == 0}
    o = draw(options(sv))
    o.update(expo='after', etacal=False, additive=False, model='picca',
             nit=draw(st.integers(1, 2)), coadd=draw(st.sampled_from(
                 ['before', 'disable', 'after'])))
    return dict(sv=sv, o=o, size=draw(st.integers(1, 3)))


def run(case, tmp):
    sv, o = case['sv'], case['o']
    rtol = 2e-5 if sv['dtype'] == 'f4' else 2e-6
    # coadded spectra only
    o1 = dict(o, expo='disable')
    opt1, _ = build(sv, o1, tmp)
    opt1.outdir = tmp + '/coadd'
    opt, tools = build(sv, o, tmp)
    e2e.write_survey(sv, tmp, opt)
    sel = e2e.selected(sv, opt)
    if not sel:
        return False
    size = min(case['size'], e2e.ngroups(sv, sel))
    with quiet():
        r1 = e2e.run_fit(opt1, size)
    if {r.kind for r in r1} != {'ok'}:
        return dict(nontrivial=False, tags=['coadd-fit-failed'])
    with quiet():
        r2 = e2e.run_fit(opt, size)
    check({r.kind for r in r2} == {'ok'}, "fit of coadds finishes, with "
          "exposures after it ends with %r", r2)
    cont = {}
    for d in e2e.read_out(opt1.outdir):
        k = key_of(d)
        cont[k[0], k[2]] = d['cols']
    with fitsio.FITS(opt1.outdir + '/continuum_chi2_catalog.fits') as f:
        chi1 = f['CHI2_CAT'].read()
    with fitsio.FITS(opt.outdir + '/continuum_chi2_catalog.fits') as f:
        chi = f['CHI2_CAT'].read()
    for c in ('TARGETID', 'CONT_valid', 'CONT_chi2', 'CONT_x'):
        check(np.array_equal(np.sort(chi1, order='TARGETID')[c],
                             np.sort(chi, order='TARGETID')[c]),
              "chi2 catalogue %s differs from the fit of coadds", c)
    valid = {int(r['TARGETID']) for r in chi if r['CONT_valid']}
    deltas = {}
    for d in e2e.read_out(opt.outdir):
        k = key_of(d)
        check(k not in deltas, "%s saved twice", k)
        check(k[1] is not None, "%s has no exposure number", k)
        deltas[k] = d
    used, nt, nsl, tags = set(), 0, 0, set()
    tids = [q['tid'] for q in sel]
    for i, q in enumerate(sv['qso']):
        if q['tid'] not in tids or q['absent']:
            continue
        for kx in range(q['nexp']):
            e = e2e.expinfo(sv, i, kx)
            mine = {k[2]: d for k, d in deltas.items()
                    if k[:2] == (q['tid'], e['EXPID'])}
            used |= {(q['tid'], e['EXPID'], a) for a in mine}
            what = f"quasar {q['tid']} exposure {e['EXPID']}"
            if q['tid'] not in valid:
                check(not mine, "%s saved, the coadd has no valid fit", what)
                continue
            r, verdict = e2e.prepare(sv, opt, i, kx, tools)
            if verdict == 'out':
                check(not mine, "%s does not pass the cuts but is saved",
                      what)
                continue
            if verdict == 'edge' and not mine:
                continue
            ambiguous = False
            for a in list(r.arms):
                x = r.arms[a]
                if (q['tid'], a) not in cont:
                    # the arm has no continuum, or it was too short for the
                    # coadd to be saved: decide with the coadd's own cuts
                    ambiguous = True
                    if a in mine:
                        tags.add('unknown-cont')
                    del r.arms[a]
                    continue
                cc = cont[q['tid'], a]
                lo = max(x['w'][0], cc['LAMBDA'][0]) - 0.3 * r.dw
                hi = min(x['w'][-1], cc['LAMBDA'][-1]) + 0.3 * r.dw
                s = (x['w'] > lo) & (x['w'] < hi)
                if not s.all():
                    nsl += 1
                for k in ('w', 'f', 'v', 'covered', 'c'):
                    if k in x:
                        x[k] = x[k][s]
                if x['r'] is not None:
                    x['r'] = x['r'][:, s]
                m = (cc['LAMBDA'] > lo) & (cc['LAMBDA'] < hi)
                x['cc'] = cc['CONT'][m]
                check(x['cc'].size == x['w'].size, "grids of %s", what)
            nreal = o['skip'] * (1 + r.z) * (o['win'][1] - o['win'][0]) / r.dw
            if abs(nreal - round(nreal)) < 1e-6 and any(
                    np.sum(x['v'] > 0) == round(nreal)
                    for x in r.arms.values()):
                continue
            r.drop(int(nreal) + 1)
            want = {a for a in r.arms if r.snr.get(a) != 0}
            if ambiguous:
                check(want <= set(mine), "%s: arms %s saved, expected %s",
                      what, sorted(mine), sorted(want))
            else:
                check(set(mine) == want, "%s: arms %s saved, expected %s",
                      what, sorted(mine), sorted(want))
            for a in want:
                x, d = r.arms[a], mine[a]
                c = d['cols']
                nm = f"{what} arm {a}"
                close(c['LAMBDA'], x['w'], nm + " wavelength", rtol=1e-9)
                close(c['CONT'], x['cc'], nm + " continuum", rtol=1e-12)
                good = x['v'] > 0
                check(np.array_equal(c['IVAR'] > 0, good), "%s: valid pixels "
                      "differ", nm)
                dc = 'DELTA' if 'DELTA' in c else 'DELTA_BLIND'
                ex = x['f'][good] / x['cc'][good] - 1
                close(c[dc][good], ex, nm + " delta", rtol=10 * rtol,
                      scale=1 + np.abs(ex).max(initial=0))
                check(np.all(c[dc][~good] == 0), "%s: masked pixel", nm)
                close(c['IVAR'][good], (x['v'] * x['cc']**2)[good],
                      nm + " ivar", rtol=10 * rtol)
                if o['skipreso']:
                    check('RESOMAT' not in c, "%s: resolution saved", nm)
                else:
                    close(c['RESOMAT'][good], x['r'].T[good],
                          nm + " resolution", rtol=1e-4, scale=1.)
                h = d['header']
                for k in ('NIGHT', 'EXPID', 'TILEID', 'FIBER', 'PETAL_LOC'):
                    if k in h:
                        check(int(h[k]) == e[k], "%s header %s: %s != %s",
                              nm, k, h[k], e[k])
                close(h['RSNR'], r.rsnr, nm + " RSNR", rtol=1e-4, atol=1e-6)
                nt += 1
    rest = set(deltas) - used
    check(not rest, "deltas %s belong to no exposure of a fitted quasar",
          sorted(map(str, rest))[:3])
    return dict(nontrivial=nt > 2, tags=[
        o['coadd'], f"ranks{size}", 'sliced' if nsl else 'same-range'
    ] + sorted(tags))


SUBS = [
    Sub('script', cases, run, quick=100, thorough=2000, shards=8,
        rule="more than two exposure arms compared with the fit of coadds"),
]
