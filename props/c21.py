"""C21 option consistency of qsonic-fit."""
import os
import subprocess
import sys

from hypothesis import strategies as st

from vlib import env
from vlib.engine import Sub
from vlib.simmpi import run_mpi
from vlib.util import check, quiet

SKIPS = [('0.2', 0.2), ('0', 0.), ('1', 1.), ('1.0', 1.), ('1e-3', 1e-3),
         ('0.999', 0.999), ('1.0001', None), ('2', None), ('-0.1', None),
         ('-1e-9', None), ('nan', None), ('NaN', None), ('inf', None),
         ('-inf', None), ('abc', None), ('', None), ('-nan', None)]


@st.composite
def cases(draw):
    # mostly one group of options away from a plain acceptable set
    some = st.sampled_from([False, False, True])
    win = st.sampled_from([
        [None, None], [None, None], [3600., 6000.], [4000., 4000.],
        [5000., 4999.9], [None, 3600.], [6000., None], [None, 3600.1],
        [7000., None]])
    fwin = st.sampled_from([
        [None, None], [None, None], [1040., 1205.], [1100., 1100.],
        [1180., None], [1181., 1180.5], [None, 1050.], [None, 1049.],
        [1250., 1400.]])
    o = dict(
        tc=draw(some), model=draw(st.sampled_from(
            [None, None, 'picca', 'true', 'input'])),
        mock=draw(st.booleans()), mf=draw(st.booleans()),
        vl=draw(st.booleans()), idir=draw(some), tile=draw(some),
        byhpx=draw(some), expo=draw(st.sampled_from(
            [None, None, 'disable', 'before', 'after'])),
        win=draw(win), fwin=draw(fwin),
        skip=draw(st.one_of(st.none(), st.none(),
                            st.integers(0, len(SKIPS) - 1))),
        skipf=draw(st.one_of(st.none(), st.none(), st.floats(-0.5, 1.5))),
        arms=draw(st.one_of(st.none(), st.lists(
            st.sampled_from(['B', 'R', 'Z']), min_size=1, max_size=6))),
        other=draw(st.lists(st.sampled_from(
            ['coadd', 'smooth', 'snr', 'masks', 'eta', 'norm', 'order',
             'keep', 'reso', 'mini', 'outdir', 'calib']), unique=True,
            max_size=4)),
        order=draw(st.integers(0, 9999)),
        size=draw(st.sampled_from([1, 1, 1, 1, 2, 3])))
    mode = draw(st.sampled_from(['free', 'fixed', 'fixed', 'one', 'one']))
    if mode == 'free':
        return o
    # repair all inconsistencies, then possibly introduce exactly one
    o.update(win=[None, None], fwin=[None, None], skipf=None)
    if o['skip'] is not None:
        o['skip'] %= 6
    tc = o['tc'] or o['model'] == 'true'
    if tc:
        o.update(mock=True, mf=True, vl=True, idir=False)
    if o['tile'] and not o['mock']:
        o.update(byhpx=False, expo=draw(st.sampled_from([None, 'disable'])))
    if o['mock']:
        o['tile'] = False
    if mode == 'one':
        k = draw(st.integers(0, 6))
        if k == 0:
            o['win'] = draw(win)
        elif k == 1:
            o['fwin'] = draw(fwin)
        elif k == 2:
            o['skip'] = draw(st.integers(0, len(SKIPS) - 1))
        elif tc and k < 5:
            b = draw(st.sampled_from(['mock', 'mf', 'vl', 'idir']))
            o[b] = b == 'idir'
        else:
            b = draw(st.sampled_from(['mock', 'byhpx', 'expo']))
            o['tile'] = True
            o.update(tc=False, model=None, mock=b == 'mock',
                     byhpx=b == 'byhpx', expo=draw(st.sampled_from(
                         ['before', 'after'])) if b == 'expo' else None)
    return o


OTHER = {
    'coadd': ['--coadd-arms', 'disable'], 'smooth': ['--smoothing-scale', '0'],
    'snr': ['--min-rsnr', '1.5', '--min-forestsnr', '0.3'],
    'masks': ['--sky-mask', 'x.txt', '--bal-mask', '--dla-mask', 'd.fits'],
    'eta': ['--var-fit-eta', '--eta-calib-ivar', '--var-use-cov'],
    'norm': ['--normalize-stacked-flux'], 'order': ['--cont-order', '2'],
    'keep': ['--keep-surveys', 'main', 'sv1'], 'reso': ['--skip-resomat'],
    'mini': ['--minimizer', 'l_bfgs_b'], 'outdir': ['-o', 'some/dir'],
    'calib': ['--noise-calibration', 'n.fits', '--flux-calibration',
              'f.fits', '--varlss-as-additive-noise']}
EXPECT = {
    'coadd': dict(coadd_arms='disable'), 'smooth': dict(smoothing_scale=0.),
    'snr': dict(min_rsnr=1.5, min_forestsnr=0.3),
    'masks': dict(sky_mask='x.txt', bal_mask=True, dla_mask='d.fits'),
    'eta': dict(var_fit_eta=True, eta_calib_ivar=True, var_use_cov=True),
    'norm': dict(normalize_stacked_flux=True), 'order': dict(cont_order=2),
    'keep': dict(keep_surveys=['main', 'sv1']),
    'reso': dict(skip_resomat=True), 'mini': dict(minimizer='l_bfgs_b'),
    'outdir': dict(outdir='some/dir'),
    'calib': dict(noise_calibration='n.fits', flux_calibration='f.fits',
                  varlss_as_additive_noise=True)}


def argv_of(o):
    groups = [['--input-dir', 'in'], ['--catalog', 'cat.fits']]
    for k, v in (('tc', '--true-continuum'), ('mock', '--mock-analysis'),
                 ('tile', '--tile-format'), ('byhpx', '--save-by-hpx')):
        if o[k]:
            groups.append([v])
    for k, v in (('mf', '--fiducial-meanflux'), ('vl', '--fiducial-varlss'),
                 ('idir', '--input-continuum-dir')):
        if o[k]:
            groups.append([v, k + '.x'])
    if o['model']:
        groups.append(['--continuum-model', o['model']])
    if o['expo']:
        groups.append(['--exposures', o['expo']])
    for k, n in (('win', 'wave'), ('fwin', 'forest-w')):
        for i in (0, 1):
            if o[k][i] is not None:
                groups.append([f'--{n}{i + 1}', repr(o[k][i])])
    if o['skip'] is not None:
        groups.append(['--skip=' + SKIPS[o['skip']][0]])
    elif o['skipf'] is not None:
        groups.append(['--skip=' + repr(o['skipf'])])
    if o['arms']:
        groups.append(['--arms'] + o['arms'])
    for k in o['other']:
        groups.append(OTHER[k])
    import random
    random.Random(o['order']).shuffle(groups)
    return [x for g in groups for x in g]


def verdict(o):
    """(accepted?, expected derived options)"""
    w1 = 3600. if o['win'][0] is None else o['win'][0]
    w2 = 6000. if o['win'][1] is None else o['win'][1]
    f1 = 1050. if o['fwin'][0] is None else o['fwin'][0]
    f2 = 1180. if o['fwin'][1] is None else o['fwin'][1]
    skip = 0.2
    if o['skip'] is not None:
        skip = SKIPS[o['skip']][1]
    elif o['skipf'] is not None:
        skip = o['skipf'] if 0 <= o['skipf'] <= 1 else None
    tc = o['tc'] or o['model'] == 'true'
    expo = o['expo'] or 'disable'
    bad = (skip is None or w2 <= w1 or f2 <= f1
           or tc and not (o['mock'] and o['mf'] and o['vl'])
           or tc and o['idir'] or o['mock'] and o['tile']
           or o['tile'] and o['byhpx'] or o['tile'] and expo != 'disable')
    model = 'true' if tc else 'input' if o['idir'] else o['model'] or 'picca'
    exp = dict(true_continuum=tc, continuum_model=model,
               arms=sorted(set(o['arms'] or ['B', 'R'])), skip=skip,
               wave1=w1, wave2=w2, forest_w1=f1, forest_w2=f2,
               mock_analysis=o['mock'], tile_format=o['tile'],
               save_by_hpx=o['byhpx'], exposures=expo,
               fiducial_meanflux='mf.x' if o['mf'] else None,
               fiducial_varlss='vl.x' if o['vl'] else None,
               input_continuum_dir='idir.x' if o['idir'] else None)
    for k in o['other']:
        exp.update(EXPECT[k])
    return not bad, exp


def run(case, tmp):
    from qsonic.mpi_utils import mpi_parse
    from qsonic.scripts.qsonic_fit import (
        args_logic_fnc_qsonic_fit, get_parser)
    argv = argv_of(case)
    ok, exp = verdict(case)

    def job(comm, rank, size):
        old = sys.stdout, sys.stderr
        with open(os.devnull, 'w') as f:
            sys.stdout = sys.stderr = f
            try:
                return vars(mpi_parse(
                    get_parser(), comm, rank, options=argv,
                    args_logic_fnc=args_logic_fnc_qsonic_fit))
            finally:
                sys.stdout, sys.stderr = old
    with quiet():
        res = run_mpi(job, case['size'])
    for r, x in enumerate(res):
        if not ok:
            check(x.kind == 'exit', "inconsistent options %s accepted or "
                  "not refused cleanly on rank %d: %r", argv, r, x)
            continue
        check(x.kind == 'ok', "acceptable options %s refused on rank %d: %r",
              argv, r, x)
        for k, v in exp.items():
            got = x.value.get(k)
            check(got == v and type(got) is type(v) or (
                isinstance(v, float) and got == v),
                "options %s: %s is %r, expected %r", argv, k, got, v)
    return dict(nontrivial=not ok or bool(case['other']) or exp[
        'continuum_model'] != 'picca', tags=['ok' if ok else 'refused'])


# order of arms must not depend on the hash seed of the process
PROG = '''
import sys
sys.path[:0] = [%r, %r]
from qsonic.scripts.qsonic_fit import args_logic_fnc_qsonic_fit, get_parser
out = []
for line in sys.stdin:
    a = get_parser().parse_args(['--input-dir', 'i', '--catalog', 'c',
                                 '--arms'] + line.split())
    args_logic_fnc_qsonic_fit(a)
    print(','.join(a.arms))
'''


@st.composite
def hash_cases(draw):
    return dict(
        arms=draw(st.lists(st.sampled_from(
            ['B R Z', 'Z R B', 'R B', 'B R', 'R Z', 'Z B', 'B B R', 'Z Z B',
             'R B R', 'Z R R B']).map(str.split), min_size=10, max_size=24)),
        seeds=draw(st.lists(st.integers(0, 1000), min_size=2, max_size=2,
                            unique=True)))


def run_hash(case, tmp):
    out = []
    prog = PROG % (os.path.join(env.VERIF, "shims"), env.REPO_PY)
    for s in case['seeds']:
        e = dict(os.environ, PYTHONHASHSEED=str(s))
        p = subprocess.run(
            [sys.executable, '-c', prog], env=e, capture_output=True,
            text=True, input="\n".join(' '.join(a) for a in case['arms']))
        check(p.returncode == 0, "parsing failed: %s", p.stderr[-300:])
        out.append([x.split(',') for x in p.stdout.split()])
    for a, x, y in zip(case['arms'], *out):
        check(x == y, "--arms %s read as %s or %s", a, x, y)
        check(sorted(x) == sorted(set(a)), "--arms %s read as %s", a, x)
    return dict(nontrivial=any(len(set(a)) > 1 for a in case['arms']))


SUBS = [
    Sub('combinations', cases, run, quick=1500, thorough=60000, shards=4,
        rule="options are inconsistent, select another continuum model, or "
             "carry further options"),
    Sub('hashseed', hash_cases, run_hash, quick=3, thorough=60, shards=3,
        rule="at least two different arms are asked for"),
]
