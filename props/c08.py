"""C08 DLA masking."""
import fitsio
import numpy as np
from hypothesis import strategies as st
from scipy.special import wofz

from qsonic.masks import DLAMask
from qsonic.spectrum import Spectrum
from vlib import specgen as sg
from vlib.engine import Sub
from vlib.util import check, close, quiet, same

CKMS = 299792.458
QE, ME = 4.803204e-10, 9.109384e-28
LINES = [(1215.67, 4.1641e-01, 6.2648e+08), (1025.7220, 7.9142e-02,
                                             1.6725e+08)]


def exact_tau(wave, zdla, nhi, b=10.):
    tau = 0
    for lam, f, A in LINES:
        x = wave / (1 + zdla) / lam - 1
        s = b / CKMS
        g = A * lam * 1e-8 / (4 * np.pi * CKMS * 1e5)
        H = wofz(x / s + 1j * g / s).real
        tau = tau + (np.pi * QE**2 / (ME * CKMS * 1e5) * f
                     * 10**(nhi - 13) * lam / b / np.sqrt(np.pi) * H)
    return tau


@st.composite
def flux_cases(draw):
    return dict(
        z=draw(st.sampled_from([2.0, 2.5, 1.9, 3.25, 2.718])),
        nhi=draw(st.one_of(
            st.sampled_from([17.2, 19.0, 20.0, 20.3, 21.0, 22.4]),
            st.integers(17000, 22500).map(lambda x: x / 1000))),
        dn=draw(st.sampled_from([0.1, 0.5, 1.0])),
        where=draw(st.lists(st.tuples(
            st.integers(0, 1), st.sampled_from(
                ['exact', 'ulp', 'tiny', 'core', 'wing', 'far']),
            st.integers(-1000, 1000)), min_size=1, max_size=12)))


def run_flux(case, tmp):
    wave = []
    for k, kind, n in case['where']:
        c = LINES[k][0] * (1 + case['z'])
        if kind == 'exact':
            w = c
        elif kind == 'ulp':
            w = c
            for _ in range(abs(n) % 5 + 1):
                w = np.nextafter(w, np.inf if n > 0 else 0)
        else:
            w = c * (1 + n * dict(tiny=1e-12, core=3e-8, wing=1e-5,
                                  far=1e-4)[kind])
        wave.append(w)
    wave = np.array(sorted(wave))
    keep = wave.copy()
    with quiet():
        t = DLAMask.get_dla_flux(wave, case['z'], case['nhi'])
        t2 = DLAMask.get_dla_flux(wave, case['z'], case['nhi'] + case['dn'])
    same(wave, keep, "wavelength array")
    check(np.all(np.isfinite(t)), "transmission %s at %s", t, wave)
    check(np.all((t >= 0) & (t <= 1 + 1e-12)), "transmission %s outside "
          "[0, 1] at %s", t, wave)
    check(np.all(t2 <= t + 1e-12), "transmission rises with column density: "
          "%s -> %s", t, t2)
    want = np.exp(-exact_tau(wave, case['z'], case['nhi']))
    close(t, want, "transmission vs exact Voigt at " + str(wave), rtol=0,
          atol=1e-3 if case['nhi'] >= 20 else 2e-2)
    return True


@st.composite
def apply_cases(draw):
    sp = draw(sg.spectra(max_spec=3, max_arms=2, max_pix=60))
    lay = sp['lay']
    n = len(sp['ids'])
    if draw(st.sampled_from([False, False, True])):
        sp['ids'] = [sp['ids'][0]] * n      # exposures of one quasar
    extra = draw(st.lists(st.integers(1, 5), max_size=3, unique=True))
    dlas = []
    ids = sorted(set(sp['ids'])) + [max(sp['ids']) + e for e in extra]
    for tid in ids:
        num = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3, 6, 20]))
        # many narrow systems can be told apart
        grid = [18.2, 18.8, 19.4] if num > 3 else [20.0, 20.3, 20.7, 21.0,
                                                   21.6, 18.2, 22.3, 17.0]
        for _ in range(num):
            k = draw(st.integers(0, 1))
            arm = draw(st.sampled_from(lay['arms']))
            pix = draw(st.integers(-20, arm[2] + 20))
            # centre a line on a pixel (exactly, when frac is 0)
            frac = draw(st.sampled_from([0.0, 0.0, 0.37]))
            wv = lay['w0'] + lay['dw'] * (arm[1] + pix + frac)
            dlas.append([tid, wv / LINES[k][0] - 1,
                         draw(st.sampled_from(grid)) if num > 3
                         else draw(st.one_of(
                             st.sampled_from(grid),
                             st.integers(20000, 21800).map(
                                 lambda x: x / 1000)))])
    order = draw(st.permutations(list(range(len(dlas)))))
    # put Ly-alpha of the quasar inside the spectrum for some
    zq = [draw(st.sampled_from(
        [None, None, draw(st.integers(0, 60)) + 0.5,
         draw(st.integers(0, 60))])) for _ in range(n)]
    size = draw(st.integers(6, 40))
    return dict(sp=sp, win=draw(st.sampled_from([None, None, [
        [draw(st.integers(0, 20)), size] for _ in range(n)]])),
        dlas=[dlas[i] for i in order], zq=zq,
                zcol=draw(st.sampled_from(['Z', 'Z_DLA', 'both', 'both2'])),
                limit=draw(st.sampled_from([0.8, 0.8, 0.5, 0.9, 1.0])),
                local=draw(st.sampled_from(['none', 'all', 'some'])),
                f4=draw(st.booleans()), extra=draw(st.booleans()))


def at_edge(wave, z):
    """Pixels that every way of writing the cut puts outside the forest."""
    lam = LINES[0][0]
    return ((wave >= (1 + z) * lam) & (wave / (1 + z) >= lam)
            & (wave / lam >= 1 + z) & (wave / lam - 1 >= z))


def lya_at(wave):
    """Redshift that puts Ly-alpha at wave, exactly when there is one."""
    z = wave / LINES[0][0] - 1
    near = z
    for _ in range(6):
        near = np.nextafter(near, 0.)
    for _ in range(12):
        if at_edge(wave, near) and (1 + near) * LINES[0][0] == wave:
            return near
        near = np.nextafter(near, 9.)
    return z


def run_apply(case, tmp):
    sp = case['sp']
    lay = sp['lay']
    cat, data = sg.build(sp)
    for i, q in enumerate(case['zq']):
        if q is not None:
            cat['Z'][i] = lya_at(lay['w0'] + lay['dw'] * q)
    if not case['dlas']:
        return False
    d = case['dlas']
    zz = np.array([x[1] for x in d])
    nh = np.array([x[2] for x in d], dtype='f4' if case['f4'] else 'f8')
    cols = [('NHI', nh), ('TARGETID', np.array([x[0] for x in d],
                                               dtype='i8'))]
    if case['zcol'] == 'Z':
        cols.append(('Z', zz))
    elif case['zcol'] == 'Z_DLA':
        cols.append(('Z_DLA', zz))
    else:
        cols.append(('Z_DLA', zz))
        cols.append(('Z', zz * 0 + 4.44))
        if case['zcol'] == 'both2':
            cols = cols[::-1]
    if case['extra']:
        cols.append(('DLA_CONFIDENCE', zz * 0 + 0.9))
    with fitsio.FITS(tmp + "/dla.fits", 'rw', clobber=True) as f:
        f.write([c[1] for c in cols], names=[c[0] for c in cols],
                extname='DLACAT')
    loc = None
    if case['local'] == 'all':
        loc = np.array(sp['ids'])
    elif case['local'] == 'some':
        loc = np.array(sp['ids'][:1])
    with quiet():
        mask = DLAMask(tmp + "/dla.fits", loc, dla_mask_limit=case['limit'])
        specs = [Spectrum.from_dictionary(cat[i], data, i)
                 for i in range(cat.size)]
        for i, s in enumerate(specs):
            sg.set_window(s, lay, case['win'] and case['win'][i])
        nt = False
        for i, s in enumerate(specs):
            before = [sg.snapshot(x) for x in specs]
            mask.apply(s)
            mine = [x for x, n_ in zip(d, nh) if x[0] == sp['ids'][i]]
            if loc is not None and sp['ids'][i] not in loc:
                mine = []
            after = sg.snapshot(s)
            for j, x in enumerate(specs):
                if j != i:
                    q = sg.same_snapshot(before[j], sg.snapshot(x))
                    check(q is None, "masking %d changed %s of %d", i, q, j)
            for k in ('forestwave', 'forestreso', 'flux', 'ivar', 'reso'):
                q = sg.same_snapshot({k: before[i][k]}, {k: after[k]})
                check(q is None, "DLA mask changed %s", q)
            edge = (1 + cat['Z'][i]) * LINES[0][0]
            for a, w in before[i]['forestwave'].items():
                f0 = before[i]['forestflux'][a]
                i0 = before[i]['forestivar'][a]
                f1, i1 = after['forestflux'][a], after['forestivar'][a]
                if not mine:
                    same(f1, f0, "flux of a spectrum without DLAs")
                    same(i1, i0, "ivar of a spectrum without DLAs")
                    continue
                check(np.all(np.isfinite(f1)) and np.all(np.isfinite(i1)),
                      "non-finite pixel after DLA masking")
                t = np.exp(-sum(exact_tau(w, x[1], float(np.array(
                    x[2], dtype=nh.dtype))) for x in mine))
                sure = np.abs(w - edge) > 1e-9 * edge
                blue = (w < edge) & sure
                red = ((w > edge) & sure) | at_edge(w, cat['Z'][i])
                same(f1[red], f0[red], "flux redward of Ly-alpha")
                same(i1[red], i0[red], "ivar redward of Ly-alpha")
                lim = case['limit']
                # the approximation is worse for narrow profiles
                nlow = sum(x[2] < 19.99 for x in mine)
                dt = 2e-3 + 2.5e-2 * nlow
                low = blue & (t < lim - dt)
                check(np.all(f1[low] == 0) and np.all(i1[low] == 0),
                      "saturated pixels at %s not masked (transmission %s)",
                      w[low & ((f1 != 0) | (i1 != 0))][:3],
                      t[low & ((f1 != 0) | (i1 != 0))][:3])
                hi = blue & (t > lim + dt)
                tol = 6e-4 + 5e-2 * nlow
                close(f1[hi], f0[hi] / t[hi], f"corrected flux arm {a}",
                      rtol=tol)
                close(i1[hi], i0[hi] * t[hi]**2, f"corrected ivar arm {a}",
                      rtol=2 * tol)
                far = hi & (t > 0.999) & (nlow == 0)
                close(f1[far], f0[far] / t[far], f"wing flux {a}", rtol=1e-5)
                nt |= bool(low.any() and hi.any())
    return dict(nontrivial=nt, tags=[case['zcol'], case['local']])


SUBS = [
    Sub("profile", flux_cases, run_flux, quick=500, thorough=20000, shards=3,
        rule="all"),
    Sub("apply", apply_cases, run_apply, quick=600, thorough=20000, shards=5,
        rule="some pixels masked and some corrected"),
]
