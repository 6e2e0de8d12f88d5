"""C15: matrix inverse, log-determinant and guarded logarithm."""
import numpy as np

from .. import gens as G
from ..core import Workload

from src.numerics.utilities import chol_inv, log_det, safe_log

RULE = ("random SPD matrices (size 1..60, condition up to 1e10, scales 1e-12..1e12, integer / Fortran-ordered / sliced), "
        "scalars, vectors and positive arrays; judged by residuals and identities with tolerances from the condition "
        "number. Non-trivial: distinct matrix.")


def warmup():
    G.warm_numba()


def mat(r):
    d = int(G.pick(r, 1, 2, 3, 3, 5, 10, 40, 60))
    if r.random() < .03:
        d = int(G.pick(r, 100, 129, 200, 257))
    cond = float(G.pick(r, 1., 10., 1e3, 1e6, 1e10))
    sc = float(G.pick(r, 1e-12, 1e-4, 1., 1., 1e5, 1e12))
    X = G.spd(r, d, sc, sc * cond)
    k = int(r.integers(5))
    if k == 0:
        X = np.asfortranarray(X)
    elif k == 1:
        big = np.zeros((2 * d, 2 * d))
        big[::2, ::2] = X
        X = big[::2, ::2]
    elif k == 2 and d <= 10:
        B = r.integers(-3, 4, (d, d))
        X = B @ B.T + (d + 1) * np.eye(d, dtype=int)
        cond, sc = np.linalg.cond(X), 1.
    return d, X, cond


def inverse(T, r, i):
    d, X, cond = mat(r)
    keep = np.array(X)
    P, C = chol_inv(X)
    T.note(d=d, cond=cond)
    Xf = np.array(X, dtype=float)
    tol = 1e-14 * cond * d * 20 + 1e-12
    if tol > 1e-2:
        tol = 1e-2
    T.check("shapes", P.shape == (d, d) and C.shape == (d, d))
    T.check("inverse", np.abs(P @ Xf - np.eye(d)).max() <= tol, {"err": np.abs(P @ Xf - np.eye(d)).max(), "tol": tol})
    T.check("inverse is symmetric", np.abs(P - P.T).max() <= 1e-10 * np.abs(P).max())
    T.check("factor reproduces the inverse", np.abs(C.T @ C - P).max() <= 1e-10 * np.abs(P).max())
    T.check("factor whitens the matrix", np.abs(C @ Xf @ C.T - np.eye(d)).max() <= tol)
    T.check("factor is lower triangular", np.abs(np.triu(C, 1)).max() <= 1e-10 * np.abs(C).max() if d > 1 else True)
    T.check("input untouched", np.array_equal(keep, X))
    a = float(G.logu(r, 1e-10, 1e10))
    p, c = chol_inv(a)
    T.check("scalar inverse", abs(float(p) * a - 1) <= 1e-12 and abs(float(c) ** 2 * a - 1) <= 1e-12, {"a": a, "p": p, "c": c})
    T.case(X)


def logdet(T, r, i):
    d, X, cond = mat(r)
    Xf = np.array(X, dtype=float)
    keep = np.array(X)
    want = np.linalg.slogdet(Xf)[1]
    T.note(d=d, cond=cond)
    T.close("log-determinant", log_det(X), want, rtol=1e-9, scale=abs(want) + d, atol=1e-14 * cond * d)
    v = G.logu(r, 1e-8, 1e8, int(r.integers(1, 30)))
    T.close("log-determinant of a diagonal", log_det(v), np.log(v).sum(), rtol=1e-10, scale=np.abs(np.log(v)).sum())
    T.close("log-determinant of a list", log_det(list(v)), np.log(v).sum(), rtol=1e-10, scale=np.abs(np.log(v)).sum())
    a = float(G.logu(r, 1e-100, 1e100))
    T.close("log-determinant of a scalar", log_det(a), np.log(a), rtol=1e-12)
    # Large matrices overflow the determinant, not its logarithm.
    n = 400
    T.close("no overflow", log_det(np.full(n, 1e5)), n * np.log(1e5), rtol=1e-10)
    T.close("no underflow", log_det(1e-5 * np.eye(n)), -n * np.log(1e5), rtol=1e-10)
    if cond < 1e4 and d > 1:
        B = r.standard_normal((d, d)) + 3 * np.eye(d)
        M = B @ Xf @ B.T
        T.close("multiplicative", log_det(.5 * (M + M.T)), want + 2 * np.linalg.slogdet(B)[1], rtol=1e-6,
                scale=abs(want) + 10 * d)
        T.close("inverse has the opposite sign", log_det(chol_inv(X)[0]), -want, rtol=1e-7, scale=abs(want) + d)
    T.check("input untouched", np.array_equal(keep, X))
    T.case(X)


def rejects(T, r, i):
    d = int(r.integers(2, 8))
    T.raises("non-square", RuntimeError, lambda: log_det(r.standard_normal((d, d + 1))))
    X = G.spd(r, d)
    w, q = np.linalg.eigh(X)
    w[0] = -w[0]
    bad = (q * w) @ q.T
    T.raises("indefinite matrix (log_det)", np.linalg.LinAlgError, lambda: log_det(bad))
    T.raises("indefinite matrix (chol_inv)", np.linalg.LinAlgError, lambda: chol_inv(bad))
    T.case(X)


def guarded(T, r, i):
    n = int(G.pick(r, 1, 2, 17, 300))
    x = G.logu(r, 1e-290, 1e290, n)
    if r.random() < .5:
        x = G.logu(r, .1, 10, n)
    keep = x.copy()
    T.close("logarithm inside the range", safe_log(x), np.log(x), rtol=1e-12, scale=1 + np.abs(np.log(x)).max())
    T.check("input untouched", np.array_equal(x, keep))
    y = np.r_[0.0, 1e-310, -1.0, -1e200, 5e-324, 1e-300, 1e300, 1e305, 1.7e308]
    z = safe_log(y)
    T.check("finite outside the range", np.all(np.isfinite(z)), z)
    lo, hi = np.log(1e-300), np.log(1e300)
    T.close("clipped to the documented bounds", z, [lo] * 6 + [hi] * 3, rtol=1e-12)
    s = np.sort(np.r_[x, y])
    T.check("monotone", np.all(np.diff(safe_log(s)) >= 0))
    M = G.logu(r, 1e-3, 1e3, (3, 4))
    T.close("arrays of any shape", safe_log(M), np.log(M), rtol=1e-12, scale=10)
    a = float(x[0])
    T.close("scalars", float(safe_log(a)), np.log(a), rtol=1e-12, scale=1 + abs(np.log(a)))
    T.close("scalar zero", float(safe_log(0.0)), lo, rtol=1e-12)
    T.case(x)


WORKLOADS = [
    Workload("inverse", inverse, 400, 20000, must=["inverse", "factor whitens the matrix"]),
    Workload("logdet", logdet, 200, 6000, must=["log-determinant", "multiplicative"]),
    Workload("rejects", rejects, 30, 400),
    Workload("guarded", guarded, 80, 2000, must=["clipped to the documented bounds"]),
]
