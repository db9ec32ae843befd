"""C03 broadcast of master-side work and of its failure."""
import argparse
import functools
import os

import fitsio
import numpy as np
from hypothesis import strategies as st

import qsonic.mpi_utils as qmpi
from qsonic import QsonicException
from qsonic.calibration import FluxCalibrator, NoiseCalibrator
from qsonic.masks import DLAMask, SkyMask
from vlib.engine import Sub
from vlib.simmpi import run_mpi
from vlib.util import check, quiet, rng_of

VALUES = [None, False, True, 0, -1, 0.0, '', 'x', [], [1, 2], {}, {'a': 1},
          'NDARRAY', 'NDARRAY0', 'EXCOBJ', (), 'NAN']


class Obj:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def meth(self, *a, **k):
        return self.f(*a, **k)


class Silly(Exception):
    pass


def bcast_cases():
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(['func', 'lambda', 'partial', 'callable',
                              'method', 'builtin', 'class', 'ufunc']),
        fail=st.one_of(st.none(), st.sampled_from(
            ['ValueError', 'OSError', 'KeyError', 'Silly', 'AttributeError',
             'StopIteration', 'QsonicException', 'TypeError'])),
        value=st.integers(0, len(VALUES) - 1),
        size=st.sampled_from([2, 3, 4, 5, 1]), msg=st.sampled_from(
            ['', 'boom', 'Error with spaces: %s {x}']),
        extra=st.integers(0, 3),
        serial=st.sampled_from([False, False, False, True])))


def mkval(i):
    v = VALUES[i]
    if v == 'NDARRAY':
        return np.arange(5.)
    if v == 'NDARRAY0':
        return np.zeros(0)
    if v == 'EXCOBJ':
        return ValueError('I am a result')
    if v == 'NAN':
        return float('nan')
    return v


def eq(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and np.array_equal(a, b)
    if isinstance(b, Exception):
        return type(a) is type(b) and a.args == b.args
    if isinstance(b, float) and b != b:
        return isinstance(a, float) and a != a
    return type(a) is type(b) and a == b


EXC = dict(ValueError=ValueError, OSError=OSError, KeyError=KeyError,
           Silly=Silly, AttributeError=AttributeError, TypeError=TypeError,
           StopIteration=StopIteration, QsonicException=QsonicException)


def run_bcast(case, tmp):
    want = mkval(case['value'])
    log = tmp + "/calls"

    def work(*a, **k):
        with open(log, "ab", 0) as f:
            f.write(b"%d\n" % os.getpid())
        if a != tuple(range(case['extra'])) or k != {'key': 'v'}:
            raise RuntimeError("arguments not forwarded")
        if case['fail']:
            raise EXC[case['fail']]('failing')
        return want
    kind = case['kind']
    args, kw = tuple(range(case['extra'])), {'key': 'v'}
    if kind == 'func':
        fn = work
    elif kind == 'lambda':
        fn = lambda *a, **k: work(*a, **k)      # noqa: E731
    elif kind == 'partial':
        fn = functools.partial(work, key='v')
        kw = {}
    elif kind == 'callable':
        fn = Obj(work)
    elif kind == 'method':
        fn = Obj(work).meth
    elif kind == 'builtin':
        fn, args, kw = int, ('12',) if not case['fail'] else ('zz',), {}
        want = 12
    elif kind == 'ufunc':
        fn, kw = np.sqrt, {}
        args = (4.0,) if not case['fail'] else ('zz', 'yy')
        want = np.float64(2.0)
    else:
        fn, args, kw = fitsio.FITS, (tmp + "/missing.fits",), {}
        if not case['fail']:
            fn, args, want = list, ('ab',), ['a', 'b']
    size = 1 if case['serial'] else case['size']

    def rank(comm, r, n):
        with quiet():
            if case['serial']:
                return qmpi.mpi_fnc_bcast(fn, None, 0, case['msg'], *args,
                                          **kw)
            return qmpi.mpi_fnc_bcast(fn, comm, r, case['msg'], *args, **kw)
    res = run_mpi(rank, size)
    for r, x in enumerate(res):
        if case['fail']:
            check(x.kind == 'exc' and 'QsonicException' in x.mro,
                  "rank %d of %d: failing %s callable gave %r instead of "
                  "QsonicException", r, size, kind, x)
            check(x.msg == case['msg'], "rank %d: message %r instead of %r",
                  r, x.msg, case['msg'])
        else:
            check(x.kind == 'ok', "rank %d of %d: %r", r, size, x)
            check(eq(x.value, want), "rank %d of %d got %r instead of %r", r,
                  size, x.value, want)
    if kind in ('func', 'lambda', 'partial', 'callable', 'method'):
        n = len(open(log).read().split())
        check(n == 1, "evaluated %d times on %d ranks", n, size)
    return dict(nontrivial=size > 1, tags=[kind, 'fail' if case['fail']
                                           else 'ok'])


# ------------------------------------------------------------------ files
FAULTS = dict(
    sky=['none', 'missing', 'cols', 'dir'],
    dla=['none', 'missing', 'noext', 'noz', 'nonhi', 'trunc', 'noid'],
    noise=['none', 'missing', 'noext', 'nocol', 'uneven', 'trunc', 'nolam'],
    flux=['none', 'missing', 'noext', 'nocol', 'uneven', 'trunc', 'nolam'],
    bal=['none'])


@st.composite
def file_cases(draw):
    what = draw(st.sampled_from(['sky', 'dla', 'noise', 'flux', 'fiducial']))
    fault = draw(st.sampled_from(
        FAULTS.get(what) or ['none', 'missing', 'noext', 'nocol', 'uneven',
                             'trunc', 'nolam']))
    return dict(what=what, fault=fault, size=draw(st.integers(1, 4)),
                n=draw(st.integers(5, 12)), seed=draw(st.integers(0, 9999)),
                which=draw(st.sampled_from(['meanflux', 'varlss'])),
                drop=draw(st.integers(0, 5)))


def write_table(case, path):
    rng = rng_of(case['seed'])
    n = case['n']
    lam = 3600. + 50. * np.arange(n)
    if case['fault'] == 'uneven':
        lam[n // 2] += 17.0
    ext, cols = dict(
        noise=('VAR_FUNC', ['lambda', 'var_lss', 'eta']),
        flux=('STACKED_FLUX', ['lambda', 'stacked_flux']),
        fiducial=('STATS', ['LAMBDA', 'MEANFLUX', 'VAR_LSS']))[case['what']]
    data = {cols[0]: lam}
    for c in cols[1:]:
        data[c] = rng.uniform(0.5, 1.5, n)
    if case['fault'] == 'nocol':
        if case['what'] == 'fiducial':
            data.pop('MEANFLUX' if case['which'] == 'meanflux' else 'VAR_LSS')
        else:
            data.pop(cols[1 + case['drop'] % (len(cols) - 1)])
    if case['fault'] == 'nolam':
        data.pop(cols[0])
    if case['fault'] == 'noext':
        ext = 'SOMETHING'
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write([data[k] for k in data], names=list(data), extname=ext)
    return data


def run_files(case, tmp):
    from qsonic.picca_continuum import PiccaContinuumFitter
    rng = rng_of(case['seed'])
    path = tmp + "/input.dat"
    what, fault = case['what'], case['fault']
    if what == 'sky':
        lines = ["L%d %.1f %.1f %s" % (
            i, 3600 + 10 * i, 3605 + 10 * i, ['OBS', 'RF'][i % 2])
            for i in range(case['n'])]
        if fault == 'cols':
            lines = [ln.rsplit(None, 1)[0] for ln in lines]
        open(path, "w").write("\n".join(lines) + "\n")
    elif what == 'dla':
        names = ['TARGETID', 'Z_DLA', 'NHI']
        d = dict(TARGETID=np.arange(case['n']) + 5,
                 Z_DLA=rng.uniform(2, 3, case['n']),
                 NHI=rng.uniform(20, 21, case['n']))
        if fault == 'noz':
            d['ZZ'] = d.pop('Z_DLA')
        if fault == 'nonhi':
            d.pop('NHI')
        if fault == 'noid':
            d.pop('TARGETID')
        names = list(d)
        with fitsio.FITS(path, 'rw', clobber=True) as f:
            f.write([d[k] for k in names], names=names,
                    extname='OTHER' if fault == 'noext' else 'DLACAT')
    else:
        write_table(case, path)
    if fault == 'trunc':
        os.truncate(path, 3000)
    if fault == 'missing':
        os.remove(path)
    if fault == 'dir':
        os.remove(path)
        os.mkdir(path)
    probe = np.linspace(3650., 3700., 7)

    def rank(comm, r, n):
        with quiet():
            if what == 'sky':
                o = SkyMask(path, comm, r)
                return [list(map(float, m[c])) for m in
                        (o.mask_obs_frame, o.mask_rest_frame)
                        for c in ('wave_min', 'wave_max')]
            if what == 'dla':
                o = DLAMask(path, None, comm, r)
                return [o.unique_targetids.tolist(),
                        [s['NHI'].tolist() for s in o.split_catalog]]
            if what == 'noise':
                o = NoiseCalibrator(path, comm, r, True)
                return [o.eta_interp(probe).tolist(),
                        o.varlss_interp(probe).tolist()]
            if what == 'flux':
                o = FluxCalibrator(path, comm, r)
                return o.stacked_flux_interp(probe).tolist()
            if case['which'] == 'meanflux':
                a = fiducial_args(meanflux=path)
            else:
                a = fiducial_args(varlss=path)
            o = PiccaContinuumFitter(a)
            f = (o.meanflux_interp if case['which'] == 'meanflux'
                 else o.varlss_interp)
            return np.asarray(f(probe)).tolist()
    res = run_mpi(rank, case['size'])
    for r, x in enumerate(res):
        if fault == 'none':
            check(x.kind == 'ok', "%s: rank %d: %r %s", what, r, x,
                  x.tb[-600:])
            check(x.value == res[0].value,
                  "%s: rank %d sees different tables than the master", what,
                  r)
        else:
            check(x.kind == 'exc' and 'QsonicException' in x.mro,
                  "%s with fault %s: rank %d of %d: %r instead of "
                  "QsonicException %s", what, fault, r, case['size'], x,
                  x.tb[-600:])
    return dict(nontrivial=fault != 'none' or case['size'] > 1,
                tags=[what + '-' + fault])


def fiducial_args(meanflux="", varlss="", **kw):
    from qsonic.scripts.qsonic_fit import get_parser
    opts = ["-i", "/nonexistent", "--catalog", "/nonexistent.fits"]
    if meanflux:
        opts += ["--fiducial-meanflux", meanflux]
    if varlss:
        opts += ["--fiducial-varlss", varlss]
    a = get_parser().parse_args(opts)
    for k, v in kw.items():
        setattr(a, k, v)
    return a


# ------------------------------------------------------------------ parse
def parse_cases():
    return st.fixed_dictionaries(dict(
        argv=st.lists(st.sampled_from(
            ['--num', '3', '-5', '2.5', '--flag', '--name', 'abc', '--bogus',
             '--help', '--choice', 'a', 'z']), max_size=5),
        accept=st.booleans(), size=st.integers(1, 5)))


def make_parser():
    p = argparse.ArgumentParser()
    p.add_argument('--num', type=float, default=1.0)
    p.add_argument('--flag', action='store_true')
    p.add_argument('--name')
    p.add_argument('--choice', choices=['a', 'b'])
    return p


def run_parse(case, tmp):
    try:
        want = make_parser().parse_args(case['argv'])
        want.derived = 7
    except SystemExit:
        want = None
    log = tmp + "/calls"

    def logic(a):
        with open(log, "ab", 0) as f:
            f.write(b"x\n")
        a.derived = 7
        return case['accept']

    def rank(comm, r, n):
        return vars(qmpi.mpi_parse(make_parser(), comm, r, case['argv'],
                                   logic))
    import contextlib
    import io
    with contextlib.redirect_stderr(io.StringIO()), \
            contextlib.redirect_stdout(io.StringIO()):
        res = run_mpi(rank, case['size'])
    for r, x in enumerate(res):
        if want is None or not case['accept']:
            check(x.kind == 'exit', "rank %d of %d: %r instead of exiting "
                  "for rejected options %s", r, case['size'], x,
                  case['argv'])
        else:
            check(x.kind == 'ok', "rank %d: %r", r, x)
            check(x.value == vars(want), "rank %d parsed %s, expected %s", r,
                  x.value, vars(want))
    return case['size'] > 1


SUBS = [
    Sub("bcast", bcast_cases, run_bcast, quick=350, thorough=10000, shards=3,
        rule="more than one rank"),
    Sub("files", file_cases, run_files, quick=300, thorough=8000, shards=3,
        rule="faulty file or more than one rank"),
    Sub("parse", parse_cases, run_parse, quick=200, thorough=4000, shards=2,
        rule="more than one rank"),
]
