"""Quasar catalogue generation and the naive catalogue model."""
import fitsio
import numpy as np
from hypothesis import strategies as st
from healpy import ang2pix

# 'sv' and 'main2' contain or extend other names on purpose
SURVEYS = ['main', 'sv1', 'sv3', 'sv', 'main2', 'special', 'Main']
KNOWN = ['TARGETID', 'Z', 'TARGET_RA', 'RA', 'TARGET_DEC', 'DEC', 'SURVEY',
         'COADD_LASTNIGHT', 'LAST_NIGHT', 'LASTNIGHT', 'TILEID', 'PETAL_LOC',
         'HPXPIXEL', 'PROGRAM', 'VMIN_CIV_450', 'VMAX_CIV_450',
         'VMIN_CIV_2000', 'VMAX_CIV_2000']


@st.composite
def catalogs(draw, modes=('data', 'mock', 'tile'), max_rows=14, faults=True,
             min_rows=1, big=False):
    mode = draw(st.sampled_from(modes))
    n = draw(st.integers(min_rows, max_rows))
    base = draw(st.sampled_from([0, 39627939372861215, 2**40, 2305843000000]))
    ids = draw(st.lists(st.integers(1, 60), min_size=n, max_size=n,
                        unique=(mode != 'tile')))
    pool = draw(st.lists(st.sampled_from(SURVEYS), min_size=1, max_size=4,
                         unique=True))
    rows = []
    pixpool = draw(st.lists(st.integers(0, 49151), min_size=1, max_size=4,
                            unique=True))
    # sometimes small and adjacent, so that different pairs look alike
    tilepool = draw(st.lists(st.integers(*draw(st.sampled_from(
        [(1, 90000), (1, 9)]))), min_size=1, max_size=3, unique=True))
    # keys and identifiers that agree in their low bits or digits
    alias = draw(st.sampled_from([0, 0, 0, 100, 4096, 2**15, 2**16]))
    if alias:
        pixpool += [p + alias for p in pixpool
                    if p + alias < 49152 and p + alias not in pixpool]
        tilepool += [p + alias for p in tilepool if p + alias not in tilepool]
    high = draw(st.sampled_from([0, 0, 0, 2**32, 2**31]))
    seen = set()
    wrap = draw(st.sampled_from([0., 0., 180.]))    # RA from -180
    for i in range(n):
        tile = draw(st.sampled_from(tilepool))
        tid = base + ids[i]
        if high and i and draw(st.booleans()):
            # the same low bits as an earlier quasar
            tid = rows[draw(st.integers(0, i - 1))]['tid'] + high
            if mode != 'tile':
                while tid in seen:
                    tid += high
                seen.add(tid)
        if mode == 'tile':
            while (tid, tile) in seen:
                tid += 61
            seen.add((tid, tile))
        rows.append(dict(
            tid=tid,
            # cuts fall on the grid; some redshifts only just miss it
            z=draw(st.integers(1, 64)) / 16.0 + draw(st.sampled_from(
                [0.0, 0.0, 0.0, 0.0, 1e-9, -1e-9])),
            # few distinct sky positions so that healpixels hold many quasars
            ra=draw(st.integers(0, 7)) * 45.0 + draw(
                st.sampled_from([0.0, 0.3, 1.7, 20.1])) - wrap,
            dec=draw(st.integers(-8, 8)) * 10.0 + draw(
                st.sampled_from([0.0, 0.3, 1.7])),
            survey=draw(st.sampled_from(pool)),
            tile=tile, petal=draw(st.integers(0, 9)),
            hpx=draw(st.sampled_from(pixpool)),
            night=draw(st.integers(20201201, 20231231)),
            bal=draw(st.sampled_from([0.0, 0.0, -1.0, 450.5, 12000.0]))))
    cols = dict(
        ra=draw(st.sampled_from(['RA', 'TARGET_RA', 'both'])),
        dec=draw(st.sampled_from(['DEC', 'TARGET_DEC', 'both'])),
        night=draw(st.sampled_from(
            ['LASTNIGHT', 'COADD_LASTNIGHT', 'LAST_NIGHT', 'COADD+LAST',
             'LAST+COADD+LASTNIGHT'])),
        hpx=draw(st.booleans()), bal=draw(st.booleans()),
        program=draw(st.booleans()), junk=draw(st.booleans()),
        survey=True if mode != 'mock' else draw(st.booleans()),
        tilecols=True if mode == 'tile' else draw(st.booleans()),
        zdtype=draw(st.sampled_from(['f8', 'f4'])),
        order=draw(st.integers(0, 1000)))
    ext = draw(st.sampled_from(['QSO_CAT', 'ZCATALOG', 'METADATA', 'OTHER']))
    keep = draw(st.one_of(st.none(), st.lists(
        st.one_of(st.sampled_from(pool), st.sampled_from(SURVEYS)),
        min_size=1, max_size=3, unique=True)))
    zlo = draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 2.0]))
    zhi = draw(st.sampled_from([100.0, 3.0, 2.0, 1.5]))
    fault = 'none'
    if faults:
        opts = ['none'] * 6 + ['nocol:TARGETID', 'nocol:Z', 'nocol:RA',
                               'nocol:DEC', 'dup']
        if mode != 'mock':
            opts += ['nocol:SURVEY', 'nocol:LASTNIGHT']
        if mode == 'tile':
            opts += ['nocol:TILEID', 'nocol:PETAL_LOC']
        fault = draw(st.sampled_from(opts))
    bulk = draw(st.sampled_from([0] * 12 + [150, 700, 2500])) if big else 0
    return dict(mode=mode, rows=rows, cols=cols, ext=ext, keep=keep,
                bulk=[bulk, draw(st.integers(0, 99))],
                other=draw(st.sampled_from([None, None, 'before', 'after'])),
                zmin=zlo, zmax=zhi, fault=fault)


def bulk_rows(case):
    """More rows than are worth drawing one by one."""
    n, seed = case.get('bulk', (0, 0))
    if not n:
        return []
    rng = np.random.default_rng(seed)
    rows = case['rows']
    top = max(r['tid'] for r in rows) + 61 * (len(rows) + 2)
    ids = top + rng.permutation(3 * n)[:n]
    pick = rng.integers(0, len(rows), (n, 4))
    return [dict(rows[int(k[0])], tid=int(ids[i]),
                 z=rows[int(k[1])]['z'], survey=rows[int(k[2])]['survey'],
                 petal=int(rng.integers(0, 10)), hpx=rows[int(k[3])]['hpx'],
                 night=20201201 + int(rng.integers(0, 30)))
            for i, k in enumerate(pick)]


def build_table(case):
    rows, cols = case['rows'] + bulk_rows(case), case['cols']
    if case['fault'] == 'dup':
        rows = rows + [dict(rows[0])]
    c = {}
    c['TARGETID'] = ('i8', [r['tid'] for r in rows])
    c['Z'] = (cols['zdtype'], [r['z'] for r in rows])
    for x in ('RA', 'DEC'):
        v = [r[x.lower()] for r in rows]
        which = cols[x.lower()]
        if which in (x, 'both'):
            c[x] = ('f8', v)
        if which in ('TARGET_' + x, 'both'):
            off = 0.001 if which == 'both' else 0.0
            c['TARGET_' + x] = ('f8', [q - off for q in v])
    if case['mode'] != 'mock':
        v = [r['night'] for r in rows]
        w = cols['night']
        if w in ('LASTNIGHT', 'COADD_LASTNIGHT', 'LAST_NIGHT'):
            c[w] = ('i4', v)
        elif w == 'COADD+LAST':
            c['COADD_LASTNIGHT'] = ('i4', v)
            c['LAST_NIGHT'] = ('i4', [q - 1 for q in v])
        else:
            c['LAST_NIGHT'] = ('i4', [q - 1 for q in v])
            c['COADD_LASTNIGHT'] = ('i4', [q - 2 for q in v])
            c['LASTNIGHT'] = ('i4', v)
    if cols['survey']:
        c['SURVEY'] = ('U8', [r['survey'] for r in rows])
    if cols['tilecols']:
        c['TILEID'] = ('i4', [r['tile'] for r in rows])
        c['PETAL_LOC'] = ('i2', [r['petal'] for r in rows])
    if cols['hpx']:
        c['HPXPIXEL'] = ('i8', [r['hpx'] for r in rows])
    if cols['program']:
        c['PROGRAM'] = ('U6', ['dark'] * len(rows))
    if cols['bal']:
        for k, nm in enumerate(KNOWN[-4:]):
            c[nm] = ('f4', [[r['bal'] + k, 0.0, r['bal'] * 2]
                            for r in rows], 3)
    if cols['junk']:
        c['DUMMY'] = ('f4', [1.5] * len(rows))
    f = case['fault']
    if f.startswith('nocol:'):
        nm = f[6:]
        drop = {'RA': ['RA', 'TARGET_RA'], 'DEC': ['DEC', 'TARGET_DEC'],
                'LASTNIGHT': ['LASTNIGHT', 'LAST_NIGHT', 'COADD_LASTNIGHT']
                }.get(nm, [nm])
        for d in drop:
            c.pop(d, None)
    names = list(c)
    np.random.default_rng(cols['order']).shuffle(names)
    dt = [(nm, c[nm][0]) if len(c[nm]) == 2 else (nm, c[nm][0], c[nm][2])
          for nm in names]
    arr = np.zeros(len(rows), dtype=dt)
    for nm in names:
        arr[nm] = np.array(c[nm][1]).reshape(arr[nm].shape)
    return arr


def write_catalog(case, path):
    arr = build_table(case)
    other = case.get('other')
    decoy = arr[:1].copy()
    decoy['Z' if 'Z' in arr.dtype.names else arr.dtype.names[0]] = 2
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        if other == 'before' and case['ext'] != 'OTHER':
            f.write(decoy, extname='EXPOSURES')
        f.write(arr, extname=case['ext'])
        if other == 'after':
            f.write(decoy, extname='EXPOSURES')
    return arr


def model(case, arr):
    """Expected rows (list of dict name->value), in documented order, or an
    error marker."""
    mode = case['mode']
    if case['fault'] != 'none':
        return 'error'
    out = []
    hascol = set(arr.dtype.names)
    nside = 16 if mode == 'mock' else 64
    for row in arr:
        z = float(row['Z'])
        if not (case['zmin'] <= z <= case['zmax']):
            continue
        if 'SURVEY' in hascol and case['keep'] is not None:
            if str(row['SURVEY']) not in case['keep']:
                continue
        d = {nm: row[nm] for nm in arr.dtype.names if nm in KNOWN}
        for x in ('RA', 'DEC'):
            if x not in d:
                d[x] = d.pop('TARGET_' + x)
        if 'LASTNIGHT' not in d:
            for alt in ('COADD_LASTNIGHT', 'LAST_NIGHT'):
                if alt in d:
                    d['LASTNIGHT'] = d.pop(alt)
                    break
        if 'HPXPIXEL' not in d:
            d['HPXPIXEL'] = int(ang2pix(nside, float(d['RA']),
                                        float(d['DEC']), lonlat=True,
                                        nest=True))
        out.append(d)
    if not out:
        return 'error'
    if mode == 'tile':
        def key(d):
            return (int(d['TILEID']), int(d['PETAL_LOC']), int(d['TARGETID']))
    else:
        def key(d):
            return (int(d['HPXPIXEL']), str(d.get('SURVEY', '')),
                    int(d['TARGETID']))
    out.sort(key=key)
    return out


def sort_key(mode, row):
    if mode == 'tile':
        return (int(row['TILEID']), int(row['PETAL_LOC']),
                int(row['TARGETID']))
    if mode == 'data':
        return (int(row['HPXPIXEL']), str(row['SURVEY']),
                int(row['TARGETID']))
    return (int(row['HPXPIXEL']), int(row['TARGETID']))


def row_tuple(row, names):
    out = []
    for nm in sorted(names):
        v = row[nm]
        if isinstance(v, np.ndarray) and v.ndim:
            out.append((nm, tuple(float(q) for q in v)))
        elif isinstance(v, (str, bytes, np.str_, np.bytes_)):
            out.append((nm, v.decode() if isinstance(v, bytes) else str(v)))
        else:
            out.append((nm, float(v) if float(v) != int(v) else int(v)))
    return tuple(out)
