"""C02 work distribution."""
import numpy as np
from hypothesis import strategies as st

import qsonic.catalog as qcat
import qsonic.mpi_utils as qmpi
from vlib import catgen
from vlib.engine import Sub
from vlib.simmpi import run_mpi
from vlib.util import check, quiet


def queue_cases():
    return st.fixed_dictionaries(dict(
        cat=catgen.catalogs(max_rows=30, big=True),
        size=st.integers(1, 6)))


def run_queue(case, tmp):
    c, size = case['cat'], case['size']
    path = tmp + "/cat.fits"
    arr = catgen.write_catalog(c, path)
    want = catgen.model(c, arr)

    def rank(comm, r, n):
        with quiet():
            lq = qcat.mpi_get_local_queue(
                path, comm, r, n, c['mode'] == 'mock', c['mode'] == 'tile',
                c['keep'], c['zmin'], c['zmax'])
        return [np.array(x) for x in lq]
    res = run_mpi(rank, size)
    if want == 'error':
        for r, x in enumerate(res):
            check(x.kind == 'exc' and 'QsonicException' in x.mro,
                  "rank %d of %d: %r instead of QsonicException for an "
                  "unusable catalogue", r, size, x)
        return dict(nontrivial=size > 1, tags=['rejected'])
    for r, x in enumerate(res):
        check(x.kind == 'ok', "rank %d of %d: %r %s", r, size, x, x.tb[-800:])
    verify([x.value for x in res], want, c['mode'], size)
    key = 'TILEID' if c['mode'] == 'tile' else 'HPXPIXEL'
    ngroups = len({int(d[key]) for d in want})
    return dict(nontrivial=size > 1 and ngroups > 1,
                tags=[c['mode'], f"size{size}"])


def verify(queues, want, mode, size):
    names = set(want[0])
    key = 'TILEID' if mode == 'tile' else 'HPXPIXEL'
    seen_keys = {}
    got = []
    for r, lq in enumerate(queues):
        for part in lq:
            keys = {int(k) for k in part[key]}
            check(len(keys) == 1, "rank %d holds a part mixing %s %s", r, key,
                  keys)
            k = keys.pop()
            check(k not in seen_keys, "%s %d is split over several parts "
                  "(ranks %s and %d)", key, k, seen_keys.get(k), r)
            seen_keys[k] = r
            rows = [catgen.row_tuple(x, names) for x in part]
            got += rows
            order = [catgen.sort_key(mode, x) for x in part]
            if not (mode == 'mock' and 'SURVEY' in names):
                check(order == sorted(order), "part %s %d not in documented "
                      "order: %s", key, k, order)
    exp = sorted(catgen.row_tuple(d, names) for d in want)
    got.sort()
    check(len(got) == len(exp), "%d quasars distributed, catalogue has %d",
          len(got), len(exp))
    check(got == exp, "distributed quasars differ from the catalogue's")
    loads = [sum(len(p) for p in lq) for lq in queues]
    biggest = max(len([d for d in want if int(d[key]) == k])
                  for k in seen_keys)
    check(max(loads) - min(loads) <= biggest,
          "unbalanced: loads %s with largest group %d", loads, biggest)


def balance_cases():
    return st.fixed_dictionaries(dict(
        sizes=st.lists(st.integers(1, 40), min_size=1, max_size=40),
        # real surveys have thousands of quasars per group and rank
        unit=st.sampled_from([1, 1, 7, 60, 1500]),
        repeat=st.sampled_from([1, 1, 5]),
        nranks=st.one_of(st.integers(1, 12), st.sampled_from([32, 64]))))


def run_balance(case, tmp):
    parts, off = [], 0
    sizes = [s * case['unit'] for s in case['sizes']] * case['repeat']
    for s in sizes:
        parts.append(np.arange(off, off + s))
        off += s
    q = qmpi.balance_load(list(parts), case['nranks'])
    check(len(q) == case['nranks'], "%d queues for %d ranks", len(q),
          case['nranks'])
    owned = sorted((int(p[0]), p.size) for lq in q for p in lq)
    check(owned == sorted((int(p[0]), p.size) for p in parts),
          "groups lost, duplicated or split")
    for lq in q:
        for p in lq:
            check(np.array_equal(p, np.arange(p[0], p[0] + p.size)),
                  "members of a group changed")
    loads = [sum(p.size for p in lq) for lq in q]
    check(max(loads) - min(loads) <= max(sizes),
          "unbalanced loads %s for groups %s", loads, sizes[:40])
    return len(sizes) > case['nranks'] > 1


def serial_cases():
    return st.fixed_dictionaries(dict(cat=catgen.catalogs(max_rows=20),
                                      form=st.sampled_from(['kw', 'default'])))


def run_serial(case, tmp):
    """Documented MPI-free use: comm=None."""
    c = case['cat']
    path = tmp + "/cat.fits"
    arr = catgen.write_catalog(c, path)
    want = catgen.model(c, arr)
    kw = dict(is_mock=c['mode'] == 'mock', is_tile=c['mode'] == 'tile',
              keep_surveys=c['keep'], zmin=c['zmin'], zmax=c['zmax'])
    if case['form'] == 'kw':
        kw.update(comm=None, mpi_rank=0, mpi_size=1)
    from qsonic import QsonicException
    from vlib.util import must_raise

    def call():
        with quiet():
            return qcat.mpi_get_local_queue(path, **kw)

    def call2():
        kw2 = {k: v for k, v in kw.items() if k != 'mpi_size'}
        with quiet():
            return qcat.mpi_read_quasar_catalog(path, **kw2)
    if want == 'error':
        must_raise(call, "unusable catalogue", QsonicException)
        must_raise(call2, "unusable catalogue", QsonicException)
        return True
    verify([call()], want, c['mode'], 1)
    cat = call2()
    names = set(want[0])
    check(sorted(catgen.row_tuple(x, names) for x in cat)
          == sorted(catgen.row_tuple(d, names) for d in want),
          "mpi_read_quasar_catalog rows differ")
    return len(want) > 1


SUBS = [
    Sub("queue", queue_cases, run_queue, quick=240, thorough=8000, shards=6,
        rule="more than one rank and more than one healpixel/tile, or a "
             "rejected catalogue on more than one rank"),
    Sub("balance", balance_cases, run_balance, quick=600, thorough=40000,
        shards=1, tshards=4, rule="more groups than ranks, several ranks"),
    Sub("serial", serial_cases, run_serial, quick=200, thorough=5000,
        shards=1, rule="more than one row"),
]
