"""C14: higher order Gaussian moments and their derivatives."""
import numpy as np

from .. import gens as G, refs
from ..core import Workload

from src.var_bayes.gaussian_moments import GaussianMoments

RULE = ("random mean / variance arrays (floating point and integers) over many magnitudes (zero, negative, tiny, huge, zero variance), lengths 1..70000, "
        "orders 0..8; compared with the long double moment recursion. Non-trivial: distinct arrays.")
ASSUMPTIONS = []


def arrays(r):
    n = int(G.pick(r, 1, 1, 2, 7, 50, 300) if r.random() < .9 else G.pick(r, 1001, 4096, 5000, 12001, 70000))
    m = r.standard_normal(n) * float(G.pick(r, 1e-8, .01, 1., 1., 10., 1e4))
    v = G.logu(r, 1e-6, 1., n) * float(G.pick(r, 1e-8, 1., 1., 100., 1e6))
    if r.random() < .3:
        m[r.random(n) < .4] = 0.0
        v[r.random(n) < .4] = 0.0
    return m, v


def integers(r):
    n = int(G.pick(r, 1, 2, 30))
    top = int(G.pick(r, 3, 40, 400, 5000))
    t = G.pick(r, np.int64, np.int64, np.int32)
    return r.integers(-top, top + 1, n).astype(t), r.integers(0, 2 * top, n).astype(t)


def moments(T, r, i):
    m, v = arrays(r) if r.random() < .85 else integers(r)
    shape = int(r.integers(3))
    if shape == 0 and m.size == 1:
        g = GaussianMoments(m[0].item(), v[0].item())
    elif shape == 1:
        g = GaussianMoments(m.tolist(), v.tolist()) if m.size > 1 else GaussianMoments(m, v)
    else:
        g = GaussianMoments(m, v)
    T.note(n=m.size, m=m[:3], v=v[:3])
    km, kv = m.copy(), v.copy()
    m, v, given = m.astype(float), v.astype(float), (m, v)
    for k in r.permutation(9):
        k = int(k)
        # The magnitude of the terms: the moment of |m|.
        mag = lambda q: np.maximum(np.asarray(refs.gauss_moment(q, np.abs(m), v), dtype=float), 1e-300)

        def cmp(what, got, want, scale):
            got = np.asarray(got, dtype=float)
            T.check(what + ": shape", got.shape == m.shape, got.shape)
            err = np.abs(got - np.asarray(want, dtype=float)) / scale
            T.check(what, np.all(err <= 1e-12), {"order": k, "worst": float(err.max()), "m": m[int(err.argmax())], "v": v[int(err.argmax())]})
        cmp("moment", g(order=k) if r.random() < .5 else g(k), refs.gauss_moment(k, m, v), mag(k))
        if k % 2 == 0:
            T.check("even moments are not negative", np.all(np.asarray(g(k)) >= 0))
        if k >= 1:
            cmp("derivative wrt the mean", g.dm(order=k), k * refs.gauss_moment(k - 1, m, v), k * mag(k - 1))
            want = k * (k - 1) / 2 * refs.gauss_moment(k - 2, m, v) if k >= 2 else 0 * m
            cmp("derivative wrt the variance", g.ds(order=k), want, k * k * mag(max(k - 2, 0)))
    T.check("inputs untouched", np.array_equal(given[0], km) and np.array_equal(given[1], kv))
    # Cauchy-Schwarz.
    for a, b in ((1, 3), (2, 4), (2, 6), (3, 5)):
        lhs, rhs = np.asarray(g((a + b) // 2)) ** 2, np.asarray(g(a)) * np.asarray(g(b))
        if (a + b) % 4 == 0 and a % 2 == 0:
            T.check("moment inequality", np.all(lhs <= rhs * (1 + 1e-9) + 1e-300))
    lhs = np.asarray(g(4)) ** 2
    T.check("moment inequality", np.all(lhs <= np.asarray(g(8)) * (1 + 1e-9) + 1e-300))
    T.event("array entries compared", 26 * m.size)
    T.case(m, v)


def rejects(T, r, i):
    m, v = arrays(r)
    g = GaussianMoments(m, v)
    for k in (-1, 9, 10, 100, -8):
        T.raises("order out of bounds", ValueError, lambda: g(k))
        T.raises("order out of bounds (dm)", ValueError, lambda: g.dm(k))
        T.raises("order out of bounds (ds)", ValueError, lambda: g.ds(k))
    T.raises("order 0 has no derivative (dm)", ValueError, lambda: g.dm(0))
    T.raises("order 0 has no derivative (ds)", ValueError, lambda: g.ds(0))
    T.raises("shape mismatch", RuntimeError, lambda: GaussianMoments(m, np.r_[v, 1.0]))
    T.raises("shape mismatch", RuntimeError, lambda: GaussianMoments(np.ones(3), np.ones((3, 1))))
    T.case(m)


def sampled(T, r, i):
    """Gauss-Hermite expectations of the monomials themselves."""
    m, v = r.standard_normal(20) * 2, G.logu(r, .01, 4, 20)
    g = GaussianMoments(m, v)
    x, w = refs.gh_nodes(1, 12)
    X = m[:, None] + np.sqrt(v)[:, None] * x[:, 0][None]
    for k in range(9):
        T.close("expectation of the monomial", g(k), (X ** k) @ w, rtol=1e-9)
    h = 1e-4
    for k in range(1, 9):
        fd = (np.asarray(GaussianMoments(m + h, v)(k)) - np.asarray(GaussianMoments(m - h, v)(k))) / (2 * h)
        T.close("dm vs central difference", g.dm(k), fd, rtol=1e-5)
        fd = (np.asarray(GaussianMoments(m, v + h)(k)) - np.asarray(GaussianMoments(m, v - h)(k))) / (2 * h)
        T.close("ds vs central difference", g.ds(k), fd, rtol=1e-5, scale=np.abs(fd).max() + 1)
    T.case(m)


WORKLOADS = [
    Workload("moments", moments, 600, 30000, must=["moment", "derivative wrt the mean", "derivative wrt the variance"]),
    Workload("sampled", sampled, 40, 1000),
    Workload("rejects", rejects, 20, 200),
]
