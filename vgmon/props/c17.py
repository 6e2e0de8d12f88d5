"""C17: the unscented transformation."""
import numpy as np

from .. import gens as G, refs
from ..core import Workload

from src.numerics.utilities import ut_approx

RULE = ("random Gaussians (dimension 1..40, condition up to 1e6) pushed through linear, quadratic and smooth nonlinear "
        "maps; the function's input points are recorded and judged. Non-trivial: distinct Gaussian and map.")


def gauss(r, d):
    lo, hi = G.pick(r, (.1, 2.), (1e-5, 1e-2), (1e-3, 1e3))
    return r.standard_normal(d) * float(G.pick(r, 0., 1., 30.)), G.spd(r, d, lo, hi)


def exactness(T, r, i):
    d = int(G.pick(r, 1, 2, 3, 5, 10, 40)) if i % 50 != 23 else int(r.integers(60, 140))
    k = int(G.pick(r, 1, 2, 4, d))
    m, S = gauss(r, d)
    A, b = r.standard_normal((k, d)), r.standard_normal(k)
    seen = []

    def lin(x, *a):
        seen.append(np.array(x))
        return x @ A.T + b
    km, kS = m.copy(), S.copy()
    y, C = ut_approx(lin, m, S) if r.random() < .5 else ut_approx(lin, m.tolist(), S.tolist())
    T.note(d=d, k=k)
    sy = np.abs(A).max() * (np.abs(m).max() + np.sqrt(np.abs(S).max() * 3 * d)) * d + np.abs(b).max()
    T.close("linear map: mean", y, A @ m + b, rtol=1e-10, scale=sy)
    want = A @ S @ A.T
    T.close("linear map: covariance", C, want, rtol=1e-9, scale=np.abs(want).max() + 1e-3 * np.abs(want).max() + sy ** 2 * 1e-4)
    X = seen[0]
    T.check("points handed to the function", len(seen) == 1 and X.shape == (2 * d + 1, d), [q.shape for q in seen])
    T.close("points are centred", X.mean(0), m, rtol=1e-9, scale=sy + np.abs(m).max())
    Z = X - m
    ratio = (Z.T @ Z)
    T.close("points spread along the covariance", ratio / np.trace(ratio), S / np.trace(S), rtol=1e-8, scale=1, atol=1e-9 * (1 + np.abs(
        m).max() ** 2 / np.trace(S)) ** .5)
    # Quadratic forms: the mean is exact.
    Qs = np.array([r.standard_normal((d, d)) for _ in range(k)])
    y, _ = ut_approx(lambda x: np.einsum("nq,kqp,np->nk", x, Qs, x), m, S)
    want = np.einsum("kqp,pq->k", Qs, S + np.outer(m, m))
    T.close("quadratic map: mean", y, want, rtol=1e-9, scale=np.abs(Qs).max() * (np.trace(S) * 3 + m @ m + 1) * d)
    T.check("inputs untouched", np.array_equal(m, km) and np.array_equal(S, kS))
    T.case(m, S)


def nonlinear(T, r, i):
    d = int(G.pick(r, 1, 2, 3, 6, 12))
    m, S = r.standard_normal(d), G.spd(r, d, .05, 2)
    B, c = r.standard_normal((3, d)), r.standard_normal(3)
    f = lambda x, s=1.0: s * np.column_stack((np.sin(x @ B.T + c), np.exp(-.1 * (x ** 2).sum(1)), (x ** 3).sum(1)))
    s = float(r.uniform(.5, 2))
    y, C = ut_approx(f, m, S, s)
    X, w = refs.ut_points(m, S)
    Y = f(X, s)
    mu = w @ Y
    cov = (Y - mu).T @ ((Y - mu) * w[:, None])
    T.close("weighted mean of the transformed points", y, mu, rtol=1e-9, scale=np.abs(Y).max())
    T.close("weighted covariance of the transformed points", C, cov, rtol=1e-8, scale=np.abs(Y).max() ** 2)
    T.check("covariance is symmetric", np.abs(C - C.T).max() <= 1e-9 * (1 + np.abs(Y).max() ** 2))
    T.check("covariance is positive semi-definite", np.linalg.eigvalsh(.5 * (C + C.T)).min() >= -1e-8 * np.abs(Y).max() ** 2)
    y0, C0 = ut_approx(lambda x: np.full((x.shape[0], 2), 3.25), m, S)
    T.close("constants are kept", y0, [3.25, 3.25], rtol=1e-12)
    T.close("constants have no spread", C0, np.zeros((2, 2)), atol=1e-10)
    o = object()
    got = []
    ut_approx(lambda x, *a: (got.append(a), x)[1], m, S, o, 2, "z")
    T.check("extra arguments are forwarded", all(len(a) == 3 and a[0] is o and a[1] == 2 and a[2] == "z" for a in got), len(got))
    T.case(m, S)


def accuracy(T, r, i):
    """Close to the exact expectation for mildly nonlinear maps (Gauss-Hermite)."""
    d = int(G.pick(r, 1, 2, 3))
    m, S = r.standard_normal(d), G.spd(r, d, 1e-4, 1e-2)
    B, c = r.standard_normal((2, d)), r.standard_normal(2)
    f = lambda x: np.sin(x @ B.T + c)
    y, C = ut_approx(f, m, S)
    X, w = refs.gh_nodes(d, 8)
    Y = f(m + X @ np.linalg.cholesky(S).T)
    mu = w @ Y
    T.close("mean of a mildly nonlinear map", y, mu, rtol=1e-3, scale=1)
    T.close("covariance of a mildly nonlinear map", C, (Y - mu).T @ ((Y - mu) * w[:, None]), rtol=1e-3, scale=1,
            atol=.05 * np.abs(S).max() * np.abs(B).max() ** 2 * d)
    T.case(m, S)


def degenerate(T, r, i):
    """A covariance that is not positive definite falls back to its diagonal."""
    d = int(G.pick(r, 2, 3, 8))
    m = r.standard_normal(d)
    s = G.logu(r, .2, 2, d)
    S = np.diag(s)
    if r.random() < .5:
        S[0, 1] = S[1, 0] = 3 * np.sqrt(s[0] * s[1])
    else:
        # Barely indefinite: the covariance of a singular factor, less a little.
        L = r.standard_normal((d, d - 1))
        S = L @ L.T
        v = np.linalg.eigh(S)[1][:, 0]
        S -= float(G.logu(r, 1e-7, .1)) * np.trace(S) / d * np.outer(v, v)
        if np.diag(S).min() <= 1e-3 or np.linalg.eigvalsh(S)[0] >= -1e-9:
            return
        s = np.diag(S).copy()
    A = r.standard_normal((2, d))
    y, C = ut_approx(lambda x: x @ A.T, m, S)
    T.close("fallback: mean", y, A @ m, rtol=1e-9, scale=np.abs(A).max() * 20 * d)
    T.close("fallback: covariance of the diagonal part", C, A @ np.diag(s) @ A.T, rtol=1e-9, scale=np.abs(A).max() ** 2 * 10 * d)
    T.case(m, S)


WORKLOADS = [
    Workload("exactness", exactness, 400, 12000, must=["linear map: covariance", "quadratic map: mean"]),
    Workload("nonlinear", nonlinear, 200, 8000, must=["weighted covariance of the transformed points"]),
    Workload("accuracy", accuracy, 80, 2000),
    Workload("degenerate", degenerate, 40, 800, must=["fallback: covariance of the diagonal part"]),
]
