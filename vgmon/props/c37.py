"""C37: the optimiser's way does not depend on the coordinate system."""
import numpy as np

from .. import gens as G
from ..core import Workload

from src.numerics.optim_scg import SCG

RULE = ("the same objective in two coordinate systems (permuted, reflected, rotated, shifted, embedded in more dimensions, "
        "with a constant added, started from the same point in another layout): the points at which objective and gradient "
        "are evaluated, the returned point and value and the statistics map onto each other over the first iterations, and "
        "the converged answers over all of them. Non-trivial: at least three accepted or rejected steps; distinct by objective.")
ASSUMPTIONS = ["rounding grows along the run: visited points are compared over the first six iterations"]


def objective(r, n):
    """Smooth function with gradient and a scale of its values."""
    k = int(r.integers(4))
    Q, c = G.spd(r, n, .5, float(G.pick(r, 2., 20., 200.))), r.standard_normal(n)
    W = r.standard_normal((n, n)) / np.sqrt(n)
    if k == 0:
        f = lambda x: float(.5 * (x - c) @ Q @ (x - c))
        g = lambda x: Q @ (x - c)
    elif k == 1:
        f = lambda x: float(np.sum(np.log(np.cosh(W @ x))) + .05 * (x - c) @ (x - c))
        g = lambda x: W.T @ np.tanh(W @ x) + .1 * (x - c)
    elif k == 2:
        f = lambda x: float(np.sum(np.sqrt(1 + (W @ x - c) ** 2)) + .1 * x @ x)
        g = lambda x: W.T @ ((W @ x - c) / np.sqrt(1 + (W @ x - c) ** 2)) + .2 * x
    else:
        f = lambda x: float(.25 * np.sum((W @ x) ** 4) + .5 * (x - c) @ (x - c))
        g = lambda x: W.T @ (W @ x) ** 3 + (x - c)
    return k, f, g


def start(r, n, *scales):
    """A starting point; some of them have coordinates that are exactly zero."""
    x0 = r.standard_normal(n) * float(G.pick(r, *scales))
    u = r.random()
    if u < .3:
        x0[r.random(n) < .5] = 0.0
    return np.zeros(n) if u < .06 else x0


def run(f, g, x0, its, tol=0.0, f_tol=None):
    """The optimiser with a log of its evaluations."""
    log = []

    def ff(x):
        v = f(np.array(x))
        log.append(("f", np.array(x), v))
        return v

    def gg(x, eval_fun=False):
        v = g(np.array(x))
        log.append(("g+" if eval_fun else "g", np.array(x), v))
        return v
    with G.silent():
        o = SCG(ff, gg, {"max_it": its, "x_tol": tol, "f_tol": tol if f_tol is None else f_tol})
        x, fx = o(x0)
    return np.array(x), float(np.ravel(fx)[0]), o.statistics, log


def compare(T, what, A, B, there, shift=0.0, tol=1e-6, dims=None):
    """B is the run in other coordinates; there: points of A -> points of B."""
    sc = 1.0 + max(np.max(np.abs(p)) for _, p, _ in B[3])
    T.check(what + ": same sequence of evaluations", [k for k, _, _ in A[3]] == [k for k, _, _ in B[3]],
            {"here": "".join(k for k, _, _ in A[3]), "there": "".join(k for k, _, _ in B[3])})
    for j, ((_, p, _), (_, q, _)) in enumerate(zip(A[3], B[3])):
        T.close(what + ": visited points", q, there(p), rtol=tol, scale=sc, detail={"call": j})
    T.close(what + ": returned point", B[0], there(A[0]), rtol=tol, scale=sc)
    T.close(what + ": returned value", B[1] - shift, A[1], rtol=tol, scale=1.0 + abs(A[1]) + abs(shift))
    T.check(what + ": counters", (A[2]["f_eval"], A[2]["df_eval"], A[2]["MaxIt"]) == (B[2]["f_eval"], B[2]["df_eval"], B[2]["MaxIt"]))
    T.close(what + ": values on the way", np.asarray(B[2]["fx"]) - np.where(np.asarray(B[2]["fx"]) != 0, shift, 0.0), A[2]["fx"],
            rtol=tol, scale=1.0 + abs(A[1]) + abs(shift) + np.abs(A[2]["fx"]).max())
    T.event("evaluations compared", len(A[3]))


def rotation(r, n):
    q, u = np.linalg.qr(r.standard_normal((n, n)))
    return q * np.sign(np.diag(u))


def moved(T, r, i):
    n = int(G.pick(r, 2, 3, 5, 8, 13, 30, 100))
    k, f, g = objective(r, n)
    x0 = start(r, n, .5, 2., 6., 60.)
    A = run(f, g, x0, 6)
    kind = ("permuted", "reflected", "rotated", "shifted")[i % 4]
    if kind == "shifted":
        s = r.standard_normal(n) * float(G.pick(r, .1, 1., 30.))
        B = run(lambda z: f(z - s), lambda z: g(z - s), x0 + s, 6)
        there = lambda p: p + s
    else:
        if kind == "permuted":
            Q = np.eye(n)[r.permutation(n)]
        elif kind == "reflected":
            Q = np.diag(np.where(r.random(n) < .5, -1.0, 1.0)) if r.random() < .7 else -np.eye(n)
        else:
            Q = rotation(r, n)
        B = run(lambda z: f(Q.T @ z), lambda z: Q @ g(Q.T @ z), Q @ x0, 6)
        there = lambda p: Q @ p
    T.note(objective=k, n=n, kind=kind, evaluations=len(A[3]))
    compare(T, kind, A, B, there)
    T.case(kind, k, x0)


def lifted(T, r, i):
    """Constants, ignored coordinates, repeated use of the same start in other clothes."""
    n = int(G.pick(r, 7, 8, 13, 30))
    k, f, g = objective(r, n)
    x0 = start(r, n, .5, 2., 20.)
    A = run(f, g, x0, 6)
    kind = ("constant", "ignored coordinates", "layout")[i % 3]
    T.note(objective=k, n=n, kind=kind, evaluations=len(A[3]))
    if kind == "constant":
        c = float(G.pick(r, -1, 1) * G.logu(r, .1, 1e3))
        B = run(lambda z: f(z) + c, g, x0, 6)
        compare(T, kind, A, B, lambda p: p, shift=c)
    elif kind == "ignored coordinates":
        m = int(G.pick(r, 1, 3, 40))
        e = r.standard_normal(m) * float(G.pick(r, 0., 1., 100.))
        at = np.sort(r.permutation(n + m)[:n])
        rest = np.setdiff1d(np.arange(n + m), at)

        def there(p):
            z = np.empty(n + m)
            z[at], z[rest] = p, e
            return z

        def gz(z):
            out = np.zeros(n + m)
            out[at] = g(z[at])
            return out
        B = run(lambda z: f(z[at]), gz, there(x0), 6)
        compare(T, kind, A, B, there)
    else:
        other = G.pick(r, x0[::-1][::-1], np.repeat(x0, 2)[::2], x0.reshape(-1, 1), x0.reshape(1, -1), np.asfortranarray(x0[:, None]))
        B = run(f, g, other, 6)
        compare(T, kind, A, B, lambda p: p)
    T.case(kind, k, x0)


def converged(T, r, i):
    """All the way: the answers of strictly convex problems map onto each other."""
    n = int(G.pick(r, 2, 3, 8, 20))
    k, f, g = objective(r, n)
    x0 = r.standard_normal(n) * 2
    Q, s = rotation(r, n), r.standard_normal(n) * float(G.pick(r, 1., 50.))
    A = run(f, g, x0, 1500, 1e-9)
    B = run(lambda z: f(Q.T @ (z - s)), lambda z: Q @ g(Q.T @ (z - s)), Q @ x0 + s, 1500, 1e-9)
    T.note(objective=k, n=n, its=int(A[2]["MaxIt"]))
    T.close("converged point", B[0], Q @ A[0] + s, rtol=2e-3, scale=1 + np.abs(A[0]).max())
    T.close("converged value", B[1], A[1], rtol=1e-6, scale=1 + abs(A[1]))
    T.event("iterations of converged runs", int(A[2]["MaxIt"]) + int(B[2]["MaxIt"]))
    T.case(k, x0, s)


def stopping(T, r, i):
    """The moment of the stop does not depend on origin, order, signs and constant either."""
    n = int(G.pick(r, 1, 2, 3, 8, 30))
    k, f, g = objective(r, n)
    x0 = start(r, n, .5, 2.)
    xt, ft = float(G.logu(r, 1e-3, .3)), float(G.logu(r, 1e-3, .3))
    if r.random() < .3:
        xt = 1e3
    elif r.random() < .3:
        ft = 1e3
    A, lo, hi = (run(f, g, x0, 60, xt * q, ft * q) for q in (1.0, .9, 1.1))
    its = int(A[2]["MaxIt"])
    if not its == int(lo[2]["MaxIt"]) == int(hi[2]["MaxIt"]) or its > 12:
        T.event("borderline or long runs left out")
        return
    kind = ("shifted", "permuted", "reflected", "constant")[i % 4]
    T.note(objective=k, n=n, kind=kind, its=its, x_tol=xt, f_tol=ft)
    if kind == "shifted":
        s = r.choice([-1.0, 1.0], n) * float(G.pick(r, 3., 50., 1e3))
        B = run(lambda z: f(z - s), lambda z: g(z - s), x0 + s, 60, xt, ft)
        back = B[0] - s
    elif kind == "constant":
        c = float(G.pick(r, -1, 1) * G.logu(r, 1., 1e4))
        B = run(lambda z: f(z) + c, g, x0, 60, xt, ft)
        back = B[0]
    else:
        Q = np.eye(n)[r.permutation(n)] if kind == "permuted" else np.diag(r.choice([-1.0, 1.0], n))
        B = run(lambda z: f(Q.T @ z), lambda z: Q @ g(Q.T @ z), Q @ x0, 60, xt, ft)
        back = Q.T @ B[0]
    T.check("stops at the same iteration: " + kind, int(B[2]["MaxIt"]) == its, {"here": its, "there": int(B[2]["MaxIt"])})
    T.close("stops at the same point: " + kind, back, A[0], rtol=1e-3, scale=1 + np.abs(A[0]).max() + np.abs(x0).max())
    T.event("stops compared")
    T.case(kind, k, x0, xt, ft)


WORKLOADS = [
    Workload("stopping", stopping, 2400, 24000, must=["stops at the same iteration: " + k for k in ("shifted", "permuted", "reflected", "constant")]),
    Workload("moved", moved, 2400, 24000, must=["permuted: visited points", "rotated: visited points", "shifted: visited points", "reflected: visited points"]),
    Workload("lifted", lifted, 1500, 15000, must=["constant: visited points", "ignored coordinates: visited points", "layout: visited points"]),
    Workload("converged", converged, 300, 4000, must=["converged point"]),
]
