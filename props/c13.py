"""C13 blinding is never skipped for data that must be blinded."""
import argparse
import glob
import os

import fitsio
import numpy as np
from hypothesis import strategies as st

import qsonic.io as qio
from qsonic.spectrum import Spectrum
from vlib import e2e
from vlib import specgen as sg
from vlib.engine import Sub
from vlib.util import check, quiet

EDGES = [20210514, 20210801, 20220801]
LYA = 1215.67


def strategy_of(night, mock, fw1):
    """The documented decision."""
    if mock or fw1 > LYA:
        return 'none'
    for name, first in (('desi_y3', 20220801), ('desi_y1', 20210801),
                        ('desi_m2', 20210514)):
        if night >= first:
            return name
    return 'none'


nights = st.one_of(
    st.sampled_from([e + d for e in EDGES for d in (-1, 0, 1)]),
    st.integers(20201201, 20260101))

wins = st.sampled_from([
    [1040., 1200.], [1040., 1205.], [LYA, 1300.],
    [float(np.nextafter(LYA, 0)), 1300.], [float(np.nextafter(LYA, 9999)),
                                           1300.],
    [1268., 1380.], [1040., 1500.], [1205., 1230.]])


def look(path, want, what):
    """Every extension of a delta file agrees with the wanted strategy."""
    n = 0
    with fitsio.FITS(path) as f:
        for hdu in f:
            if hdu.get_exttype() != 'BINARY_TBL':
                continue
            n += 1
            h = hdu.read_header()
            cols = [c.upper() for c in hdu.get_colnames()]
            got = str(h['BLINDING']).strip()
            check(got == want, "%s: BLINDING is %s, expected %s", what, got,
                  want)
            col = 'DELTA' if want == 'none' else 'DELTA_BLIND'
            other = 'DELTA_BLIND' if want == 'none' else 'DELTA'
            check(col in cols and other not in cols,
                  "%s: columns %s for blinding %s", what, cols, want)
    return n


@st.composite
def unit_cases(draw):
    return dict(
        sp=draw(sg.spectra(max_spec=2, max_pix=12)),
        steps=draw(st.lists(st.fixed_dictionaries(dict(
            night=nights, mock=st.booleans(), win=wins,
            skip=st.booleans(),
            dt=st.sampled_from(['int', 'i4', 'i8']))),
            min_size=1, max_size=4)),
        byhpx=draw(st.booleans()))


def run_unit(case, tmp):
    from qsonic.spectrum import Delta
    check(Spectrum.blinding_not_set(), "blinding is set before any decision")
    cat, data = sg.build(case['sp'])
    specs = []
    for i in range(cat.size):
        s = Spectrum.from_dictionary(cat[i], data, i)
        s.set_forest_region(0., 1e5, 100., 1e4)
        s.cont_params['valid'] = True
        s.cont_params['cont'] = {a: case['sp']['amp'] * np.ones(w.size)
                                 for a, w in s.forestwave.items()}
        s.set_forest_weight()
        specs.append(s)
    tags, n = set(), 0
    for k, stp in enumerate(case['steps']):
        night = stp['night']
        if stp['dt'] != 'int':
            night = np.dtype(stp['dt']).type(night)
        if stp['mock']:
            night = None
        args = argparse.Namespace(
            mock_analysis=stp['mock'], forest_w1=stp['win'][0],
            forest_w2=stp['win'][1], skip_resomat=stp['skip'])
        Spectrum.set_blinding(night, args)
        check(not Spectrum.blinding_not_set(), "blinding reported as not set "
              "after the decision")
        want = strategy_of(stp['night'], stp['mock'], stp['win'][0])
        d = os.path.join(tmp, str(k))
        os.mkdir(d)
        with quiet():
            qio.save_deltas(specs, d, save_by_hpx=case['byhpx'], mpi_rank=0)
            for fn in glob.glob(d + '/delta-*.fits*'):
                n += look(fn, want, f"step {k} {stp}")
                for x in qio.read_deltas(fn):
                    check(isinstance(x, Delta), "not a delta")
        tags.add(want)
    return dict(nontrivial=n > 0, tags=sorted(tags))


@st.composite
def run_cases(draw):
    sv = draw(e2e.surveys(kinds=('data', 'data', 'tile', 'mock'),
                          max_qso=7, small=True))
    late = draw(nights)
    early = draw(st.integers(20201214, 20210513))
    n = len(sv['qso'])
    # the latest night belongs to some quasars only, possibly on one rank
    who = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2))
    for i, q in enumerate(sv['qso']):
        q['night'] = max(early, late) if i in who else min(early, late)
    forest = draw(st.sampled_from(['lya', 'lya', 'lya', 'red']))
    return dict(sv=sv, forest=forest,
                size=draw(st.integers(1, 4)),
                coadd=draw(st.sampled_from(['before', 'after', 'disable'])),
                skipreso=draw(st.booleans()),
                save=draw(st.booleans()) and sv['kind'] != 'tile')


def run_whole(case, tmp):
    sv = case['sv']
    win = [1040., 1200.] if case['forest'] == 'lya' else [1216., 1400.]
    opt = e2e.Options(sv, tmp, win=win, num_iterations=1,
                      coadd_arms=case['coadd'],
                      skip_resomat=case['skipreso'],
                      save_by_hpx=case['save'])
    e2e.write_survey(sv, tmp, opt)
    exp = e2e.selected(sv, opt)          # in the redshift range
    if not exp:
        return False
    size = min(case['size'], e2e.ngroups(sv, exp))
    res = e2e.run_fit(opt, size)
    kinds = {r.kind for r in res}
    if kinds != {'ok'}:
        # too little statistics is reported by an error on every rank
        check(kinds == {'exit'}, "run ended with %r", res)
        return False
    night = max(e2e.night_of(sv, q) for q in exp)
    want = strategy_of(night, sv['kind'] == 'mock', win[0])
    n = 0
    for fn in sorted(glob.glob(opt.outdir + '/delta-*.fits*')):
        n += look(fn, want, f"{os.path.basename(fn)} (latest selected night "
                  f"{night}, {size} ranks)")
    nn = {e2e.night_of(sv, q) for q in exp}
    return dict(nontrivial=n > 0 and len(nn) > 1,
                tags=[want, f"ranks{size}", sv['kind']])


SUBS = [
    Sub('decision', unit_cases, run_unit, quick=150, thorough=4000, shards=3,
        rule="at least one delta extension was written"),
    Sub('whole_run', run_cases, run_whole, quick=40, thorough=1200, shards=5,
        rule="deltas were written and the selected quasars differ in night"),
]
