"""C01 catalogue reading."""
from hypothesis import strategies as st

import qsonic.catalog as qcat
from vlib.engine import Sub
from vlib.util import check, must_raise, quiet
from vlib import catgen


def read(case, path):
    with quiet() as q:
        cat = qcat.read_quasar_catalog(
            path, is_mock=case['mode'] == 'mock',
            is_tile=case['mode'] == 'tile', keep_surveys=case['keep'],
            zmin=case['zmin'], zmax=case['zmax'])
    return cat, q


def run(case, tmp):
    path = tmp + "/cat.fits"
    arr = catgen.write_catalog(case, path)
    want = catgen.model(case, arr)
    if want == 'error':
        must_raise(lambda: read(case, path),
                   f"catalogue that must be rejected ({case['fault']}, "
                   f"mode {case['mode']})")
        return dict(nontrivial=case['fault'] != 'none',
                    tags=[case['fault'], case['mode']])
    cat, q = read(case, path)
    mode = case['mode']
    check(len(cat) == len(want), "%d rows returned, %d expected", len(cat),
          len(want))
    names = set(want[0])
    missing = names - set(cat.dtype.names)
    check(not missing, "columns %s missing from the result", sorted(missing))
    got = [catgen.row_tuple(r, names) for r in cat]
    exp = [catgen.row_tuple(d, names) for d in want]
    for i, (g, e) in enumerate(zip(got, exp)):
        check(g == e, "row %d is %s, expected %s", i, dict(g), dict(e))
    if case['ext'] == 'OTHER':
        check(any(issubclass(w.category, RuntimeWarning) for w in q.w),
              "unnamed catalogue extension used without a warning")
    groups = len({catgen.sort_key(mode, d)[0] for d in want})
    return dict(nontrivial=len(want) >= 3 and len(want) < len(arr)
                or groups > 1,
                tags=[mode, f"keep{0 if case['keep'] is None else len(case['keep'])}"])


SUBS = [
    Sub("read", lambda: catgen.catalogs(), run, quick=900, thorough=60000,
        shards=6,
        rule="at least three surviving rows with some row cut, or more than "
             "one healpixel/tile; or a rejected file with an injected fault"),
    Sub("read_multi",
        lambda: catgen.catalogs(max_rows=40,
                                faults=False, min_rows=8),
        run, quick=200, thorough=10000, shards=2,
        rule="as above with 8-40 rows, several surveys per healpixel"),
]
