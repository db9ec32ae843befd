"""C10 arm coaddition."""
import numpy as np
from hypothesis import strategies as st

from qsonic.spectrum import Spectrum
from vlib import env, specgen as sg
from vlib.engine import Sub
from vlib.util import check, close, quiet, rng_of, same


def pad(r, nd):
    k = (nd - r.shape[0]) // 2
    return np.pad(r, ((k, k), (0, 0))) if k else r


def model(wave, flux, ivar, weight, cont, reso, dw):
    """Naive per-pixel coaddition on the union grid."""
    lo = min(w[0] for w in wave.values())
    hi = max(w[-1] for w in wave.values())
    n = int(round((hi - lo) / dw)) + 1
    cells = [[] for _ in range(n)]
    for a, w in wave.items():
        for k, x in enumerate(w):
            cells[int(round((x - lo) / dw))].append((a, k))
    nd = max([r.shape[0] for r in reso.values()]) if reso else 0
    rp = {a: pad(r, nd) for a, r in reso.items()}
    out = dict(wave=lo + dw * np.arange(n), flux=np.zeros(n),
               ivar=np.zeros(n), cont=np.zeros(n), cov=np.zeros(n, bool),
               reso=np.zeros((nd, n)), nover=0)
    for j, c in enumerate(cells):
        out['cov'][j] = bool(c)
        v = [(a, k) for a, k in c if ivar[a][k] > 0]
        if len(v) > 1:
            out['nover'] += 1
        if v:
            sw = sum(float(weight[a][k]) for a, k in v)
            out['flux'][j] = sum(float(weight[a][k]) * float(flux[a][k])
                                 for a, k in v) / sw
            out['ivar'][j] = sw**2 / sum(
                float(weight[a][k])**2 / float(ivar[a][k]) for a, k in v)
        if cont and c:
            out['cont'][j] = np.mean([cont[a][k] for a, k in c])
        if reso and c:
            if v:
                out['reso'][:, j] = sum(
                    float(weight[a][k]) * rp[a][:, k] for a, k in v) / sw
            else:
                out['reso'][:, j] = sum(rp[a][:, k] for a, k in c) / len(c)
    return out


def compare(wave, flux, ivar, cont, reso, m, what, rtol, wmin):
    close(wave, m['wave'], what + " wavelength grid", rtol=1e-9)
    close(ivar, m['ivar'], what + " ivar", rtol=rtol,
          scale=None)
    same(np.asarray(ivar) > 0, m['ivar'] > 0, what + " masked pixels")
    close(flux, m['flux'], what + " flux", rtol=rtol,
          atol=rtol * np.abs(m['flux']).max())
    if cont is not None:
        check(np.all(np.isfinite(cont)), "%s continuum is not finite", what)
        close(np.asarray(cont)[m['cov']], m['cont'][m['cov']],
              what + " continuum", rtol=rtol)
        # gaps lie between covered pixels; a delta needs a continuum there
        c = m['cont'][m['cov']]
        check(cont.min() >= c.min() * (1 - 1e-5) and cont.max() <= c.max()
              * (1 + 1e-5), "%s continuum reaches from %s to %s, those of the"
              " arms from %s to %s", what, cont.min(), cont.max(), c.min(),
              c.max())
    if reso is not None:
        check(np.asarray(reso).shape == m['reso'].shape, "%s reso shape %s",
              what, np.asarray(reso).shape)
        check(np.all(np.isfinite(reso)), "%s resolution is not finite", what)
        # masked pixels keep a token weight of 1e-8
        close(np.asarray(reso)[:, m['cov']], m['reso'][:, m['cov']],
              what + " resolution", rtol=0, atol=rtol + 2e-8 / wmin)


@st.composite
def forest_cases(draw):
    sp = draw(sg.spectra(max_spec=1, max_pix=50))
    return dict(sp=sp, cont=draw(st.sampled_from([True, True, False])),
                cseed=draw(st.integers(0, 999)),
                smooth=draw(st.sampled_from([0, 0, 2.0, 5.0])),
                vlss=draw(st.sampled_from([0.0, 0.05, 0.5])),
                eta=draw(st.sampled_from([1.0, 1.3])),
                setw=draw(st.booleans()),
                drop=draw(st.sampled_from([None, None, None, 'B', 'R'])))


def cont_fn(case, w):
    return case['sp']['amp'] * (1.2 + 0.3 * np.sin(w / 37.0
                                                   + case['cseed']))


def build_forest(case, perm=False):
    sp = dict(case['sp'])
    cat, data = sg.build(sp)
    if perm:
        data['wave'] = dict(list(data['wave'].items())[::-1])
    s = Spectrum.from_dictionary(cat[0], data, 0)
    s.set_forest_region(0., 1e5, 100., 1e4)
    if case['drop'] and case['drop'] in s.forestwave \
            and len(s.forestwave) > 1:
        s.drop_arm(case['drop'])
    if not s.forestwave:
        return None, None, None
    vl = case['vlss']

    def fv(w):
        return vl * (w / 4000.0)**3

    def fe(w):
        return case['eta'] + 0 * w
    if case['smooth']:
        s.set_smooth_forestivar(case['smooth'])
    if case['cont']:
        s.cont_params['valid'] = True
        s.cont_params['cont'] = {a: cont_fn(case, w)
                                 for a, w in s.forestwave.items()}
    if case['setw'] or not case['cont']:
        s.set_forest_weight(fv, fe)
    return s, fv, fe


def run_forest(case, tmp):
    with quiet():
        s, fv, fe = build_forest(case)
        if s is None:
            return False
        b = sg.snapshot(s)
        dw = case['sp']['lay']['dw']
        m = model(b['forestwave'], b['forestflux'], b['forestivar'],
                  b['forestweight'], b['cont'], b['forestreso'], dw)
        s.coadd_arms_forest(fv, fe)
        a = sg.snapshot(s)
    for k in ('forestwave', 'forestflux', 'forestivar', 'forestivar_sm',
              'forestweight', 'mean_snr'):
        check(list(a[k]) == ['brz'], "%s has arms %s after coaddition", k,
              list(a[k]))
    rtol = 1e-8 if case['sp']['dtype'] == 'f8' else 3e-5
    wmin = min(float(w[w > 0].min()) for w in b['forestweight'].values()
               if np.any(w > 0))
    compare(a['forestwave']['brz'], a['forestflux']['brz'],
            a['forestivar']['brz'], a['cont'].get('brz'),
            a['forestreso'].get('brz'), m, "coadded", rtol, wmin)
    check(bool(a['cont']) == case['cont'], "continuum arms %s",
          list(a['cont']))
    check(bool(a['forestreso']) == bool(b['forestreso']), "resolution lost")
    iv, f = m['ivar'], m['flux']
    close(a['mean_snr']['brz'], np.mean((f * np.sqrt(iv))[iv > 0]),
          "mean SNR", rtol=10 * rtol, atol=1e-6)
    w = a['forestwave']['brz']
    ism = a['forestivar_sm']['brz']
    if case['cont']:
        c = a['cont']['brz']
        want = ism / (fe(w) + ism * fv(w) * c**2)
    else:
        want = ism
    close(a['forestweight']['brz'], want, "weight after coaddition",
          rtol=1e-8)
    same(a['forestweight']['brz'] > 0, iv > 0, "weighted pixels")
    if not case['smooth']:
        same(ism, a['forestivar']['brz'], "unsmoothed ivar")
    # arm order
    if len(case['sp']['lay']['arms']) > 1:
        env.restore_state()
        with quiet():
            s2, fv, fe = build_forest(case, perm=True)
            s2.coadd_arms_forest(fv, fe)
        for k in ('forestflux', 'forestivar', 'forestweight', 'forestwave',
                  'forestreso'):
            if not a[k]:
                continue
            x, y = getattr(s2, k)['brz'], a[k]['brz']
            close(x, y, k + " with arms in another order", rtol=1e-7,
                  atol=1e-7 * np.abs(y).max())
    return dict(nontrivial=len(b['forestwave']) > 1,
                tags=["overlap" if m['nover'] else "disjoint",
                      "gap" if not m['cov'].all() else "nogap"])


@st.composite
def simple_cases(draw):
    return dict(sp=draw(sg.spectra(max_spec=2, max_pix=50)),
                then=draw(st.booleans()), shift=draw(st.booleans()))


def run_simple(case, tmp):
    sp = case['sp']
    cat, data = sg.build(sp)
    dw = sp['lay']['dw']
    arms = list(data['wave'])
    shifted = case['shift'] and len(arms) > 1
    first = min(arms, key=lambda a: data['wave'][a][0])
    last = max(arms, key=lambda a: data['wave'][a][-1])
    shifted = shifted and first != last
    if shifted:         # mock Z arms are shifted by half a pixel
        data['wave'][last] = data['wave'][last] + 0.5 * dw
    rtol = 1e-9 if sp['dtype'] == 'f8' else 3e-5
    nt = False
    with quiet():
        specs = [Spectrum.from_dictionary(cat[i], data, i)
                 for i in range(cat.size)]
        fresh = sg.snapshot(specs[0])
        for i, s in enumerate(specs):
            others = [sg.snapshot(x) for x in specs]
            wv = {a: np.array(w) for a, w in s.wave.items()}
            fl = {a: np.array(v) for a, v in s.flux.items()}
            iv = {a: np.array(v) for a, v in s.ivar.items()}
            rs = {a: np.array(v) for a, v in s.reso.items()}
            s.simple_coadd()
            for j, x in enumerate(specs):
                if j != i:
                    d = sg.same_snapshot(others[j], sg.snapshot(x))
                    check(d is None, "coadding %d changed %s of %d", i, d, j)
            check(list(s.flux) == ['brz'] and list(s.wave) == ['brz'],
                  "arms %s", list(s.flux))
            if shifted:
                g = s.wave['brz']
                close(np.diff(g), np.full(g.size - 1, dw), "grid step",
                      rtol=1e-9)
                tot = sum(float((iv[a].astype('f8') * fl[a]).sum())
                          for a in iv)
                close((s.flux['brz'] * s.ivar['brz']).sum(), tot,
                      "total signal", rtol=rtol * 100,
                      atol=1e-6 * sum(float((iv[a] * np.abs(fl[a])).sum())
                                      for a in iv) + 1e-30)
                close(s.ivar['brz'].sum(), sum(
                    float(v.astype('f8').sum()) for v in iv.values()),
                    "total ivar", rtol=1e-5)
                nt = True
                continue
            m = model(wv, fl, iv, iv, {}, rs, dw)
            pos = [float(v[v > 0].min()) for v in iv.values()
                   if np.any(v > 0)]
            compare(s.wave['brz'], s.flux['brz'], s.ivar['brz'], None,
                    s.reso.get('brz'), m, "simple coadd", rtol,
                    min(pos) if pos else 1.0)
            check(bool(s.reso) == bool(rs), "resolution lost")
            if case['then']:
                s.set_forest_region(0., 1e5, 100., 1e4)
                if (m['ivar'] > 0).any():
                    check(list(s.forestflux) == ['brz'], "forest arms %s",
                          list(s.forestflux))
                    same(s.forestflux['brz'], s.flux['brz'], "forest flux")
                    same(s.forestivar['brz'], s.ivar['brz'], "forest ivar")
            nt |= len(wv) > 1
        # others still read what is in their files
        again = Spectrum.from_dictionary(cat[0], data, 0)
        d = sg.same_snapshot(fresh, sg.snapshot(again))
        check(d is None, "after coadding others, a new spectrum differs in "
              "%s", d)
    return nt


SUBS = [
    Sub("forest", forest_cases, run_forest, quick=600, thorough=20000,
        shards=5, rule="several arms in the forest"),
    Sub("simple", simple_cases, run_simple, quick=400, thorough=12000,
        shards=3, rule="several arms"),
]
