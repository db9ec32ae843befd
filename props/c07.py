"""C07 sky and BAL masks."""
import numpy as np
from hypothesis import strategies as st

from qsonic import QsonicException
from qsonic.masks import BALMask, SkyMask
from qsonic.spectrum import Spectrum
from vlib import specgen as sg
from vlib.engine import Sub
from vlib.util import check, must_raise, quiet, same

CKMS = 299792.458
# rest wavelengths listed in the documentation of the BAL mask
LINES = [1549, 1403, 1394, 1240.81, 1216.1, 1175, 1128, 1117, 1074, 1062,
         1031, 1037, 1039, 1025.7, 972.5, 977.0, 989.9, 949.7]


@st.composite
def sky_cases(draw):
    sp = draw(sg.spectra(max_spec=2))
    lay = sp['lay']
    span = max(a[1] + a[2] for a in lay['arms'])
    rows = []
    for _ in range(draw(st.integers(1, 5))):
        frame = draw(st.sampled_from(['OBS', 'RF']))
        i = draw(st.integers(-5, span + 5))
        n = draw(st.integers(0, 12))
        frac = draw(st.sampled_from([0.0, 0.0, 0.25, 0.5, -0.25]))
        frac2 = draw(st.sampled_from([0.0, 0.0, 0.25, 0.5]))
        a = lay['w0'] + lay['dw'] * (i + frac)
        b = lay['w0'] + lay['dw'] * (i + n + frac2)
        if frame == 'RF':
            z = draw(st.sampled_from(sp['z']))
            a, b = a / (1 + z), b / (1 + z)
        rows.append([frame, a, b])
    # line lists of real surveys hold hundreds of ranges
    many = draw(st.sampled_from([0, 0, 0, 0, 90, 400]))
    step = lay['dw'] * draw(st.sampled_from([2.5, 4.0]))
    if many:
        f = draw(st.sampled_from(['OBS', 'RF']))
        z = sp['z'][0] if f == 'RF' else 0
        rows = [[f, (lay['w0'] + (k - 9.3) * step) / (1 + z),
                 (lay['w0'] + (k - 9.3) * step + lay['dw']) / (1 + z)]
                for k in range(many)] + rows
    return dict(sp=sp, rows=rows,
                header=draw(st.sampled_from(['no', 'plain', 'hash'])),
                sep=draw(st.sampled_from([' ', '\t ', '  '])),
                nwin=[draw(sg.windows(lay, z)) for z in sp['z']],
                repeat=draw(st.integers(1, 3)), order=draw(st.booleans()),
                prep=draw(st.sampled_from(['none', 'smooth'])))


def write_sky(path, case, rows):
    out = []
    if case['header'] == 'plain':
        out.append(case['sep'].join(['type', 'wave_min', 'wave_max',
                                     'frame']))
    elif case['header'] == 'hash':
        out.append('#' + case['sep'].join(['type', 'wave_min', 'wave_max',
                                           'frame']))
    for i, (fr, a, b) in enumerate(rows):
        out.append(case['sep'].join(["line%d" % i, repr(float(a)),
                                     repr(float(b)), fr]))
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


def sky_model(wave, z, rows):
    must = np.zeros(wave.size, bool)
    may = np.zeros(wave.size, bool)
    for fr, a, b in rows:
        if fr == 'OBS':
            x, exa, exb = wave, True, True
        else:
            x = wave / (1 + z)
            exa = bool(np.any([sg.prod_exact(1 + z, a, v) for v in wave
                               if abs(v - a * (1 + z)) < 1e-6]))
            exb = bool(np.any([sg.prod_exact(1 + z, b, v) for v in wave
                               if abs(v - b * (1 + z)) < 1e-6]))
        m1, m2 = sg.band(x, a, b, exa, exb)
        must |= m1
        may |= m2
    return must, may


def verify(s, before, models, what):
    after = sg.snapshot(s)
    hit = part = 0
    for arm in before['forestwave']:
        must, may = models[arm]
        f0, i0 = before['forestflux'][arm], before['forestivar'][arm]
        f1, i1 = after['forestflux'][arm], after['forestivar'][arm]
        check(f1.shape == f0.shape, "%s: shape changed", what)
        bad = must & ((f1 != 0) | (i1 != 0))
        check(not bad.any(), "%s: arm %s pixel at %s not masked", what, arm,
              before['forestwave'][arm][bad][:3])
        out = ~may & ((f1 != f0) | (i1 != i0))
        check(not out.any(), "%s: arm %s pixel at %s outside every range was "
              "changed", what, arm, before['forestwave'][arm][out][:3])
        mid = may & ~must
        ok = ((f1 == f0) & (i1 == i0)) | ((f1 == 0) & (i1 == 0))
        check(ok[mid].all(), "%s: boundary pixel altered", what)
        hit += int(must.sum())
        part += int((~may).sum())
    for k in ('forestwave', 'forestreso', 'wave', 'flux', 'ivar', 'reso'):
        d = sg.same_snapshot({k: before[k]}, {k: after[k]})
        check(d is None, "%s changed %s", what, d)
    return after, hit > 0 and part > 0


def run_sky(case, tmp):
    sp = case['sp']
    cat, data = sg.build(sp)
    write_sky(tmp + "/m.txt", case, case['rows'])
    with quiet():
        mask = SkyMask(tmp + "/m.txt")
        specs = [Spectrum.from_dictionary(cat[i], data, i)
                 for i in range(cat.size)]
        nt = False
        for s, w in zip(specs, case['nwin']):
            s.set_forest_region(*w)
            if case['prep'] == 'smooth' and s.forestwave:
                s.set_smooth_forestivar(3.0)
        for i, s in enumerate(specs):
            before = [sg.snapshot(x) for x in specs]
            mask.apply(s)
            models = {a: sky_model(v, sp['z'][i], case['rows'])
                      for a, v in s.forestwave.items()}
            after, n1 = verify(s, before[i], models, "sky mask")
            nt |= n1
            for j, x in enumerate(specs):
                if j != i:
                    d = sg.same_snapshot(before[j], sg.snapshot(x))
                    check(d is None, "masking spectrum %d changed %s of %d",
                          i, d, j)
            for _ in range(case['repeat'] - 1):
                mask.apply(s)
                d = sg.same_snapshot(after, sg.snapshot(s))
                check(d is None, "masking twice changed %s", d)
        if case['order'] and len(case['rows']) > 1:
            write_sky(tmp + "/m2.txt", case, case['rows'][::-1])
            mask2 = SkyMask(tmp + "/m2.txt")
            for i in range(cat.size):
                s2 = Spectrum.from_dictionary(cat[i], data, i)
                s2.set_forest_region(*case['nwin'][i])
                mask2.apply(s2)
                for a in s2.forestwave:
                    same(s2.forestivar[a], specs[i].forestivar[a],
                         "ivar after reversing the order of ranges")
    return nt


# -------------------------------------------------------------------- BAL
@st.composite
def bal_cases(draw):
    sp = draw(sg.spectra(max_spec=2, max_pix=60))
    lay = sp['lay']
    n = len(sp['ids'])
    if n > 1 and draw(st.booleans()):   # nearly the same redshift
        sp['z'][1] = sp['z'][0] + draw(st.sampled_from(
            [0.004, -0.003, 4e-4]))
    vel = []
    for i in range(n):
        z = sp['z'][i]
        row = []
        for _ in range(5):
            kind = draw(st.sampled_from(
                ['off', 'off', 'neg', 'half', 'aim', 'aim', 'rand', 'swap']))
            if kind == 'off':
                row.append([0.0, 0.0])
            elif kind == 'neg':
                row.append([-1.0, -1.0])
            elif kind == 'half':
                row.append(draw(st.sampled_from(
                    [[0.0, 5000.0], [5000., 0.0], [-3.0, 800.]])))
            elif kind == 'rand':
                a = draw(st.integers(1, 25000))
                row.append([float(a), float(a + draw(
                    st.integers(0, 3000)))])
            else:
                # aim one line at a pixel of the spectrum
                line = draw(st.sampled_from(LINES))
                arm = draw(st.sampled_from(lay['arms']))
                k = draw(st.integers(0, arm[2] - 1))
                wv = lay['w0'] + lay['dw'] * (arm[1] + k + 0.5)
                v = CKMS * (1 - wv / (line * (1 + z)))
                dv = draw(st.integers(1, 1500))
                p = [round(v, 3), round(v, 3) + dv]
                if v <= 0:
                    p = [0.0, 0.0]
                row.append(p[::-1] if kind == 'swap' else p)
        vel.append(row)
    return dict(sp=sp, vel=vel, nwin=[draw(sg.windows(lay, z))
                                      for z in sp['z']],
                drop=draw(st.integers(-1, 3)))


def run_bal(case, tmp):
    sp = case['sp']
    cat, data = sg.build(sp)
    for i, row in enumerate(case['vel']):
        v = np.array(row)
        cat['VMIN_CIV_450'][i], cat['VMAX_CIV_450'][i] = v[:3, 0], v[:3, 1]
        cat['VMIN_CIV_2000'][i], cat['VMAX_CIV_2000'][i] = v[3:, 0], v[3:, 1]
    with quiet():
        BALMask.check_catalog(cat)
        if case['drop'] >= 0:
            from numpy.lib.recfunctions import drop_fields
            must_raise(lambda: BALMask.check_catalog(
                drop_fields(cat, sg.BALCOLS[case['drop']])),
                "catalogue without " + sg.BALCOLS[case['drop']],
                QsonicException)
        specs = [Spectrum.from_dictionary(cat[i], data, i)
                 for i in range(cat.size)]
        for s, w in zip(specs, case['nwin']):
            s.set_forest_region(*w)
        nt = False
        for i, s in enumerate(specs):
            before = [sg.snapshot(x) for x in specs]
            BALMask.apply(s)
            models = {}
            for a, w in s.forestwave.items():
                must = np.zeros(w.size, bool)
                may = np.zeros(w.size, bool)
                for vmin, vmax in case['vel'][i]:
                    if not (vmin > 0 and vmax > 0):
                        continue
                    for ln in LINES:
                        e = sorted([ln * (1 + sp['z'][i]) * (1 - v / CKMS)
                                    for v in (vmin, vmax)])
                        m1, m2 = sg.band(w, e[0], e[1], False, False)
                        must |= m1
                        may |= m2
                models[a] = (must, may)
            after, n1 = verify(s, before[i], models, "BAL mask")
            nt |= n1
            BALMask.apply(s)
            d = sg.same_snapshot(after, sg.snapshot(s))
            check(d is None, "masking twice changed %s", d)
            for j, x in enumerate(specs):
                if j != i:
                    d = sg.same_snapshot(before[j], sg.snapshot(x))
                    check(d is None, "masking spectrum %d changed %s of %d",
                          i, d, j)
    return nt


SUBS = [
    Sub("sky", sky_cases, run_sky, quick=500, thorough=15000, shards=4,
        rule="some forest pixels masked and some not"),
    Sub("bal", bal_cases, run_bal, quick=500, thorough=15000, shards=4,
        rule="some forest pixels masked and some not"),
]
