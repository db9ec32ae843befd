"""C05 every quasar is read from its own rows of the right file."""
import numpy as np
from hypothesis import strategies as st

import qsonic.io as qio
from qsonic.spectrum import Spectrum
from vlib import filegen as fg
from vlib.engine import Sub
from vlib.util import check, quiet, rng_of, same

SURVEYS = ['main', 'special', 'SV3']


@st.composite
def cases(draw, modes=('coadd', 'expo', 'tile', 'mock')):
    mode = draw(st.sampled_from(modes))
    n = draw(st.integers(1, 8))
    base = draw(st.sampled_from([0, 39627000000000000, 2**31,
                                 5 * 2**31 - 50, 2**53 - 50]))
    ids = draw(st.lists(st.integers(1, 99), min_size=n, max_size=n,
                        unique=True))
    ngrp = draw(st.integers(1, 3))
    rows = []
    some = draw(st.booleans())
    for i in ids:
        rows.append(dict(tid=base + i, grp=draw(st.integers(0, ngrp - 1)),
                         absent=some and draw(st.sampled_from(
                             [False, False, True])),
                         nexp=draw(st.integers(1, 4)),
                         elsewhere=draw(st.booleans())))
    return dict(
        mode=mode, rows=rows, pix=draw(st.sampled_from([7, 123, 25999])),
        extra=draw(st.integers(0, 4)), fseed=draw(st.integers(0, 99999)),
        arms=draw(st.sampled_from([['B'], ['R'], ['B', 'R'], ['Z', 'B'],
                                   ['B', 'R', 'Z']])),
        npix=[draw(st.integers(12, 20)) for _ in range(3)],
        skip_reso=draw(st.booleans()), noreso=draw(st.booleans()),
        truth=draw(st.booleans()), tileinfo=draw(st.booleans()),
        mocksurvey=draw(st.booleans()),
        w0=draw(st.sampled_from([3600., 3600.0137])),
        dtype=draw(st.sampled_from(['f4', 'f8'])),
        night=draw(st.sampled_from([20210601, 20230101])))


def make_rows(rng, case, ids):
    """Contents for a file: list of ids -> dict of arrays."""
    out = dict(flux={}, ivar={}, mask={}, reso={})
    n = len(ids)
    for k, arm in enumerate('BRZ'):
        npix = case['npix'][k]
        out['flux'][arm] = rng.normal(size=(n, npix)).astype(case['dtype'])
        out['ivar'][arm] = rng.uniform(0, 2, (n, npix)).astype(case['dtype'])
        # flag bits up to the highest of a 32-bit integer
        out['mask'][arm] = np.where(
            rng.random((n, npix)) < 0.1,
            1 << rng.integers(0, 31, (n, npix)), 0).astype('i4')
        out['reso'][arm] = rng.uniform(0, 1, (n, 5 + 2 * (k % 2), npix)
                                       ).astype(case['dtype'])
    return out


def waves(case):
    return {a: case['w0'] + 800. * k + 0.8 * np.arange(case['npix'][k])
            for k, a in enumerate('BRZ')}


def catalogue(case):
    rows = case['rows']
    mode = case['mode']
    dt = [('TARGETID', 'i8'), ('Z', 'f8'), ('RA', 'f8'), ('DEC', 'f8'),
          ('HPXPIXEL', 'i8')]
    if mode in ('coadd', 'expo', 'tile') or case['mocksurvey']:
        dt.append(('SURVEY', 'U8'))
    if mode != 'mock':
        dt.append(('LASTNIGHT', 'i4'))
    if mode == 'tile' or (case['tileinfo'] and mode != 'mock'):
        dt += [('TILEID', 'i4'), ('PETAL_LOC', 'i2')]
    cat = np.zeros(len(rows), dtype=dt)
    for i, r in enumerate(rows):
        cat['TARGETID'][i] = r['tid']
        cat['Z'][i] = 2.0 + 0.013 * i
        cat['RA'][i] = 10 + i
        cat['DEC'][i] = -5 + i
        cat['HPXPIXEL'][i] = case['pix']
        if 'SURVEY' in cat.dtype.names:
            cat['SURVEY'][i] = SURVEYS[r['grp'] if mode != 'tile' else 0]
        if 'LASTNIGHT' in cat.dtype.names:
            cat['LASTNIGHT'][i] = case['night']
        if 'TILEID' in cat.dtype.names:
            cat['TILEID'][i] = 1234
            cat['PETAL_LOC'][i] = 2 * r['grp'] + 1
    if mode == 'tile':
        cat.sort(order=['TILEID', 'PETAL_LOC', 'TARGETID'])
    elif 'SURVEY' in cat.dtype.names:
        cat.sort(order=['HPXPIXEL', 'SURVEY', 'TARGETID'])
    else:
        cat.sort(order=['HPXPIXEL', 'TARGETID'])
    return cat


def lay_out(case, tmp):
    """Writes the files. Returns (truth keyed by targetid, missing ids)."""
    rng = rng_of(case['fseed'])
    mode = case['mode']
    truth, missing = {}, set()
    groups = sorted({r['grp'] for r in case['rows']}) if mode != 'mock' \
        else [0]
    for g in groups:
        ids = []
        for r in case['rows']:
            own = mode == 'mock' or r['grp'] == g
            if own and r['absent']:
                missing.add(r['tid'])
            if (own and not r['absent']) or (not own and r['elsewhere']):
                ids += [r['tid']] * (r['nexp'] if mode == 'expo' else 1)
        base = max(r['tid'] for r in case['rows'])
        ids += [base + 1 + k for k in range(case['extra'])] or \
            ([base + 1] if not ids else [])
        ids = [ids[k] for k in rng.permutation(len(ids))]
        c = make_rows(rng, case, ids)
        fm = dict(JUNK=np.arange(len(ids)), TARGETID=np.array(ids, 'i8'))
        if mode == 'expo':
            n = len(ids)
            fm.update(PETAL_LOC=rng.integers(0, 10, n).astype('i2'),
                      FIBER=rng.integers(0, 5000, n).astype('i4'),
                      NIGHT=rng.integers(20210101, 20230101, n).astype('i4'),
                      EXPID=(1000 + rng.permutation(n)).astype('i4'),
                      TILEID=rng.integers(1, 9999, n).astype('i4'))
        if mode in ('coadd', 'expo'):
            path = fg.coadd_path(tmp, SURVEYS[g], case['pix'],
                                 'coadd' if mode == 'coadd' else 'spectra')
        elif mode == 'tile':
            path = fg.tile_path(tmp, 1234, case['night'], 2 * g + 1)
        else:
            path = fg.mock_path(tmp, case['pix'])
        reso = None if (mode == 'mock' or case['noreso']) else c['reso']
        fg.write_spectra(path, fm, waves(case), c['flux'], c['ivar'],
                         c['mask'], reso)
        mreso, cont = None, {}
        if mode == 'mock':
            mreso = {a: c['reso'][a][0] for a in 'BRZ'}
            perm = rng.permutation(len(ids))
            tc = rng.uniform(1, 2, (len(ids), 9))
            fg.write_truth(fg.mock_path(tmp, case['pix'], 'truth'),
                           np.array(ids)[perm], tc[perm], 3000., 50., mreso)
            cont = {t: tc[k] for k, t in enumerate(ids)}
        for k, t in enumerate(ids):
            own = [r for r in case['rows'] if r['tid'] == t
                   and (mode == 'mock' or r['grp'] == g)]
            if not own or own[0]['absent']:
                continue
            rec = dict(
                flux={a: c['flux'][a][k] for a in 'BRZ'},
                ivar={a: c['ivar'][a][k] for a in 'BRZ'},
                mask={a: c['mask'][a][k] for a in 'BRZ'},
                reso=mreso or ({a: c['reso'][a][k] for a in 'BRZ'}
                               if reso else None),
                cont=cont.get(t))
            if mode == 'expo':
                rec['meta'] = {q: int(fm[q][k]) for q in (
                    'NIGHT', 'EXPID', 'TILEID', 'FIBER', 'PETAL_LOC')}
            truth.setdefault(t, []).append(rec)
    return truth, missing


def run(case, tmp):
    mode = case['mode']
    cat = catalogue(case)
    truth, missing = lay_out(case, tmp)
    keep = cat.copy()
    read = qio.get_spectra_reader_function(
        tmp, case['arms'], mode == 'mock', case['skip_reso'],
        case['truth'] and mode == 'mock', mode == 'tile', mode == 'expo')
    with quiet() as q:
        specs = read(cat)
    check(np.array_equal(cat, keep), "catalogue modified")
    warned = any(issubclass(w.category, RuntimeWarning) for w in q.w)
    check(warned == bool(missing), "%d quasars absent from the files but "
          "RuntimeWarning=%s", len(missing), warned)
    want = sorted(t for t, v in truth.items() for _ in v)
    got = sorted(int(s.targetid) for s in specs)
    check(got == want, "read targets %s, expected %s", got, want)
    wv = waves(case)
    used = set()
    for s in specs:
        t = int(s.targetid)
        recs = truth[t]
        if mode == 'expo':
            m = [r for r in recs if r['meta']['EXPID']
                 == int(s.catrow['EXPID'])]
            check(len(m) == 1, "target %d: unknown exposure %s", t,
                  s.catrow['EXPID'])
            rec = m[0]
            check((t, rec['meta']['EXPID']) not in used,
                  "exposure %s of %d read twice", rec['meta']['EXPID'], t)
            used.add((t, rec['meta']['EXPID']))
            for k, v in rec['meta'].items():
                check(int(s.catrow[k]) == v, "target %d exposure %d: %s is "
                      "%s, file says %s", t, rec['meta']['EXPID'], k,
                      s.catrow[k], v)
        else:
            rec = recs[0]
        row = keep[keep['TARGETID'] == t][0]
        for k in keep.dtype.names:
            if mode == 'expo' and k in ('TILEID', 'PETAL_LOC'):
                continue
            check(s.catrow[k] == row[k], "target %d: catalogue %s is %s, "
                  "expected %s", t, k, s.catrow[k], row[k])
        check(set(s.wave) == set(case['arms']), "arms %s", list(s.wave))
        for a in case['arms']:
            same(s.wave[a], wv[a], f"wavelength {a}")
            bad = rec['mask'][a] != 0
            same(s.flux[a], np.where(bad, 0, rec['flux'][a]),
                 f"flux {a} of target {t}")
            same(s.ivar[a], np.where(bad, 0, rec['ivar'][a]),
                 f"ivar {a} of target {t}")
            if case['skip_reso'] or rec['reso'] is None:
                check(a not in s.reso, "resolution read although skipped")
            else:
                same(s.reso[a], rec['reso'][a], f"reso {a} of target {t}")
        if mode == 'mock' and case['truth']:
            same(s.cont_params['true_data'], rec['cont'],
                 f"true continuum of {t}")
            check(s.cont_params['true_data_w1'] == 3000.
                  and s.cont_params['true_data_dwave'] == 50.,
                  "true continuum grid")
    return dict(nontrivial=len(want) > 1,
                tags=[mode, 'missing' if missing else 'complete'])


def reso_cases():
    return cases(modes=('coadd',))


def run_reso(case, tmp):
    """Late reading of resolution matrices into the forest region."""
    case = dict(case, noreso=False)
    for r in case['rows']:
        r['absent'] = False
    cat = catalogue(case)
    truth, _ = lay_out(case, tmp)
    read = qio.get_spectra_reader_function(
        tmp, case['arms'], False, True, False, False, False)
    with quiet():
        specs = read(cat)
        for s in specs:
            s.set_forest_region(3603., 5206., 100., 1e4)
        out = qio.read_resolution_matrices_onehealpix_data(cat, tmp, specs)
    wv = waves(case)
    for s in out:
        for a in s.forestwave:
            sel = (wv[a] >= 3603.) & (wv[a] < 5206.)
            same(s.forestreso[a], truth[int(s.targetid)][0]['reso'][a][
                :, sel], f"forest resolution {a} of {s.targetid}")
    return len(specs) > 1


SUBS = [
    Sub("read", cases, run, quick=2400, thorough=40000, shards=6,
        rule="more than one spectrum read"),
    Sub("latereso", reso_cases, run_reso, quick=300, thorough=6000, shards=2,
        rule="more than one spectrum read"),
]
