"""C16 subsample (jackknife) statistics."""
import numpy as np
from hypothesis import strategies as st

from qsonic.mathtools import SubsampleCov, block_covariance_of_square
from vlib import simmpi
from vlib.engine import Sub
from vlib.util import check, close, must_raise, quiet, rng_of, same


class Model:
    """Keeps raw measurements; computes the jackknife naively."""
    def __init__(self, nset, nd, ns, istart):
        self.nset, self.nd, self.ns, self.i0 = nset, nd, ns, istart % ns
        self.items = []

    def add(self, x, w):
        self.items.append((np.array(x), np.array(w)))

    def stats(self, bias, streams=None):
        """streams: list of (istart, items), one per rank."""
        streams = streams or [(self.i0, self.items)]
        sx = np.zeros((self.ns, self.nset, self.nd))
        sw = np.zeros((self.ns, self.nd))
        for i0, items in streams:
            for k, (x, w) in enumerate(items):
                j = (i0 + k) % self.ns
                sx[j] += x
                sw[j] += w
        W = sw.sum(0)
        X = sx.sum(0)
        mean = np.where(W > 0, X / np.where(W > 0, W, 1), 0)
        jack = np.zeros((self.ns, self.nset, self.nd))
        for i in range(self.ns):
            Wi = W - sw[i]
            jack[i] = np.where(Wi > 1e-10 * W, (X - sx[i]) / np.where(
                Wi > 1e-10 * W, Wi, 1), 0)
        mj = jack.mean(0)
        if bias:
            mean = mean - (self.ns - 1) * (mj - mean)
        d = jack - mj
        cov = np.array([d[:, s].T @ d[:, s] * (self.ns - 1) / self.ns
                        for s in range(self.nset)])
        good = (sw > 0).sum(0) >= 2     # deletion leaves something
        return mean, cov, good


@st.composite
def streams(draw, ns, lo=0):
    return dict(n=draw(st.integers(lo, 3 * ns + 2)),
                seed=draw(st.integers(0, 99999)))


@st.composite
def cases(draw):
    ns = draw(st.integers(2, 7))
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        calls = draw(st.lists(st.sampled_from(
            ['mean', 'var', 'varb', 'cov', 'covb', 'block', 'idx', 'add']),
            min_size=1, max_size=5))
        rounds.append(dict(st=draw(streams(ns, 2)), calls=calls))
    return dict(ns=ns, nd=draw(st.sampled_from([1, 4, 6])),
                nset=draw(st.sampled_from([0, 1, 3])),
                istart=draw(st.integers(0, 9)), rounds=rounds,
                sparse=draw(st.sampled_from([0.0, 0.3])),
                nrank=draw(st.integers(1, 3)))


def items_of(s, nset, nd, sparse):
    rng = rng_of(s['seed'])
    heavy = [0, 0, 3e3][s['seed'] % 3]
    out = []
    for _ in range(s['n']):
        w = rng.uniform(0.2, 3, nd) * (rng.random(nd) >= sparse)
        if heavy and rng.random() < 0.15:
            w *= heavy      # a subsample that outweighs the others
        x = rng.normal(size=(nset, nd)) * 3 + 1
        out.append((w * x, w))
    return out


def compare_mean(got, m, good, nset):
    mean = np.asarray(got)
    check(mean.shape == m.shape, "mean shape %s", mean.shape)
    check(np.all(np.isfinite(mean)), "non-finite mean")
    close(mean[:, good], m[:, good], "mean", rtol=1e-8, atol=1e-8)


def ask(sub, call, model, streams=None):
    """Performs one query and compares it."""
    nd, nset = model.nd, model.nset
    bias = call in ('varb', 'covb')
    m, cov, good = model.stats(bias, streams)
    g2 = np.ix_(good, good)
    if call == 'mean':
        m, _, _ = model.stats(False, streams)
        # a weighted mean needs only one sample
        compare_mean(sub.get_mean(), m, np.ones(nd, bool), nset)
        return
    if call in ('var', 'varb'):
        a, v = sub.get_mean_n_var(bias_correct=True) if bias \
            else sub.get_mean_n_var()
        compare_mean(a, m, good, nset)
        for s in range(nset):
            close(np.asarray(v)[s][good], np.diag(cov[s])[good], "variance",
                  rtol=1e-6, atol=1e-9)
        return
    if call == 'block':
        b = {1: 1, 4: 2, 6: 3}[nd]
        a, c = sub.get_mean_n_cov(blockdim=b)
        compare_mean(a, m, good, nset)
        check(len(c) == nset, "number of covariances")
        for s in range(nset):
            check(np.asarray(c[s]).shape == (nd // b, b, b), "block shape")
            for q in range(nd // b):
                sl = slice(q * b, (q + 1) * b)
                gg = np.ix_(good[sl], good[sl])
                close(c[s][q][gg], cov[s][sl, sl][gg], "block covariance",
                      rtol=1e-6, atol=1e-9)
        return
    kw = {}
    if bias:
        kw['bias_correct'] = True
    idx = range(nset)
    if call == 'idx':
        idx = [nset - 1]
        kw['indices'] = [nset - 1]
    a, c = sub.get_mean_n_cov(**kw)
    compare_mean(a, m, good, nset)
    for s in idx:
        close(np.asarray(c[s])[g2], cov[s][g2], "covariance", rtol=1e-6,
              atol=1e-9)


def run(case, tmp):
    nset, nd, ns = max(1, case['nset']), case['nd'], case['ns']
    shape = nd if case['nset'] == 0 else (case['nset'], nd)
    nt = False
    with quiet():
        sub = SubsampleCov(shape, ns, case['istart'])
        for r in case['rounds']:
            model = Model(nset, nd, ns, case['istart'])
            for x, w in items_of(r['st'], nset, nd, case['sparse']):
                x0, w0 = x.copy(), w.copy()
                sub.add_measurement(x[0] if case['nset'] == 0 else x, w)
                same(x, x0, "xvec")
                same(w, w0, "wvec")
                model.add(x, w)
            asked = False
            for call in r['calls']:
                if call == 'add':
                    if asked:
                        must_raise(lambda: sub.add_measurement(
                            np.ones((nset, nd)), np.ones(nd)),
                            "adding after a result was taken", RuntimeError)
                    continue
                ask(sub, call, model)
                asked = True
            nt |= len(set(r['calls']) - {'add'}) > 1
            sub.reset()
    return dict(nontrivial=nt, tags=[f"rounds{len(case['rounds'])}"])


@st.composite
def mpi_cases(draw):
    ns = draw(st.integers(2, 6))
    nr = draw(st.integers(1, 4))
    return dict(ns=ns, nd=draw(st.sampled_from([1, 4, 6])),
                nset=draw(st.sampled_from([0, 3])),
                ranks=[dict(st=draw(streams(ns)), i0=draw(st.integers(0, 8)),
                            pre=draw(st.integers(0, 3)))
                       for _ in range(nr)],
                rounds=draw(st.integers(1, 3)),
                call=draw(st.sampled_from(['mean', 'var', 'varb', 'cov',
                                           'block'])))


def run_mpi(case, tmp):
    from mpi4py import MPI
    nset, nd, ns = max(1, case['nset']), case['nd'], case['ns']
    shape = nd if case['nset'] == 0 else (case['nset'], nd)
    strm = [(r['i0'] % ns, items_of(r['st'], nset, nd, 0.0))
            for r in case['ranks']]

    def body(comm, k, size):
        with quiet():
            sub = SubsampleCov(shape, ns, case['ranks'][k]['i0'])
            if case['ranks'][k]['pre']:
                # abandoned accumulation
                for x, w in strm[k][1][:case['ranks'][k]['pre']]:
                    sub.add_measurement(x[0] if case['nset'] == 0 else x, w)
                sub.reset()
            for _ in range(case['rounds']):
                for x, w in strm[k][1]:
                    sub.add_measurement(x[0] if case['nset'] == 0 else x, w)
                sub.allreduce(comm, MPI.IN_PLACE)
                ask(sub, case['call'], Model(nset, nd, ns, 0), strm)
                sub.reset()
        return True
    simmpi.collect(body, len(strm))
    return dict(nontrivial=len(strm) > 1, tags=[f"ranks{len(strm)}"])


@st.composite
def sq_cases(draw):
    return dict(nb=draw(st.integers(1, 3)), nd=draw(st.integers(1, 4)),
                seed=draw(st.integers(0, 9999)))


def run_sq(case, tmp):
    rng = rng_of(case['seed'])
    nb, nd = case['nb'], case['nd']
    mean, var = rng.normal(size=nb * nd), rng.uniform(0.5, 2, nb * nd)
    cov = rng.normal(size=(nb, nd, nd))
    cov = cov + cov.transpose(0, 2, 1)
    c0 = cov.copy()
    got = block_covariance_of_square(mean, var, cov)
    same(cov, c0, "input covariance")
    for b in range(nb):
        for i in range(nd):
            for j in range(nd):
                p, q = b * nd + i, b * nd + j
                want = var[p] * var[q] + c0[b, i, j]**2 \
                    + 2 * c0[b, i, j] * mean[p] * mean[q] \
                    + var[p] * mean[q]**2 + var[q] * mean[p]**2
                close(got[b, i, j], want, "covariance of squares", rtol=1e-9,
                      atol=1e-9)
    return nd > 1


SUBS = [
    Sub("history", cases, run, quick=1500, thorough=60000, shards=4,
        rule="at least two kinds of result asked of one object"),
    Sub("mpi", mpi_cases, run_mpi, quick=300, thorough=8000, shards=2,
        rule="more than one rank"),
    Sub("square", sq_cases, run_sq, quick=200, thorough=5000,
        rule="blocks larger than one"),
]
