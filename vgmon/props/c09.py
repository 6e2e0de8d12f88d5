"""C09: the optimiser converges, and stops early only at convergence."""
import numpy as np

from .. import gens as G
from ..core import Workload

from src.numerics.optim_scg import SCG

RULE = ("strictly convex quadratics (N 1..60, condition up to 1e3), smooth convex and nonconvex functions, random starts "
        "and tolerances; the recorded call log decides whether an early stop was justified and how many iterations were "
        "needed. Non-trivial: start point not stationary; distinct by problem.")
ASSUMPTIONS = ["a squared gradient norm below 1e-8 counts as stationary (the optimiser's own criterion)"]


def quadratic(T, r, i):
    n = int(G.pick(r, 1, 2, 3, 5, 8, 20, 60))
    cond = float(G.pick(r, 1., 10., 100., 1000.))
    sc = float(G.logu(r, .1, 10))
    Q = G.spd(r, n, sc, sc * cond)
    c = r.standard_normal(n) * 2
    x0 = c + r.standard_normal(n) * float(G.pick(r, .5, 3.))
    cnt = [0]

    def f(x):
        cnt[0] += 1
        if cnt[0] > 5000:
            raise RuntimeError("runaway")
        z = x - c
        return .5 * z @ Q @ z

    g = lambda x, eval_fun=False: Q @ (x - c)
    with G.silent():
        o = SCG(f, g, {"max_it": 2000, "x_tol": 1e-12, "f_tol": 1e-16})
        x, fx = o(x0)
    its = int(o.statistics["MaxIt"])
    T.note(n=n, cond=cond, its=its)
    T.event("iterations observed", its)
    gn = np.linalg.norm(g(x))
    T.check("stationary point of a convex quadratic", gn <= 2.5e-4, {"grad": gn, "its": its})
    T.check("close to the minimum value", float(np.ravel(fx)[0]) <= 1e-7 / sc, {"fx": fx, "sc": sc})
    T.check("conjugate gradient speed", its <= 25 + 4 * min(n, 3 * np.sqrt(cond)), {"its": its, "n": n, "cond": cond})
    T.case(Q, x0)


def slow(T, r, i):
    """Badly scaled quadratics of many dimensions: many iterations are needed, and made good use of."""
    n = int(G.pick(r, 150, 300, 400))
    cond = float(G.pick(r, 1e4, 1e5))
    ev = np.exp(np.linspace(0., np.log(cond), n))
    c = r.standard_normal(n)
    x0 = c + r.standard_normal(n)
    with G.silent():
        o = SCG(lambda x: float(.5 * ev @ (x - c) ** 2), lambda x, eval_fun=False: ev * (x - c), {"max_it": 6000, "x_tol": 1e-12, "f_tol": 1e-16})
        x, fx = o(x0)
    its = int(o.statistics["MaxIt"])
    T.note(n=n, cond=cond, its=its)
    T.check("stationary point of a badly scaled quadratic", np.linalg.norm(ev * (x - c)) <= 2.5e-4, {"its": its, "fx": fx})
    T.check("conjugate gradient speed for a badly scaled quadratic", its <= 12 * np.sqrt(cond), {"its": its, "n": n, "cond": cond})
    T.event("iterations of slow problems", its)
    T.case(x0, cond)


def distant(T, r, i):
    """Minimisers far away, in flat bowls: nothing but the tolerances limits the way."""
    n = int(G.pick(r, 1, 2, 3, 8))
    far = float(G.logu(r, 1e3, 1e7))
    q = float(G.logu(r, 1e-6, 1e2))
    Q = G.spd(r, n, q, q * float(G.pick(r, 1., 4., 20.)))
    c = far * r.standard_normal(n)
    x0 = r.standard_normal(n) * float(G.pick(r, 0., 1.))
    g = lambda x, eval_fun=False: Q @ (x - c)
    with G.silent():
        o = SCG(lambda x: float(.5 * (x - c) @ Q @ (x - c)), g, {"max_it": 1000, "x_tol": 0., "f_tol": 0.})
        x, fx = o(x0)
    its, g0 = int(o.statistics["MaxIt"]), np.linalg.norm(g(x0))
    T.note(n=n, far=far, q=q, its=its)
    T.check("distant minimiser is reached", np.linalg.norm(g(x)) <= 1.1e-4 + 1e-6 * g0, {"grad": np.linalg.norm(g(x)), "start": g0, "its": its})
    T.case(Q, c)


def convex(T, r, i):
    """Non-quadratic convex functions."""
    n = int(G.pick(r, 1, 2, 4, 10, 30))
    B = r.standard_normal((n + 3, n))
    c = r.standard_normal(n + 3)
    kind = i % 3
    if kind == 0:
        f = lambda x: float(np.sum(np.logaddexp(B @ x - c, -(B @ x - c))) + .05 * x @ x)
        g = lambda x, eval_fun=False: B.T @ np.tanh(B @ x - c) + .1 * x
    elif kind == 1:
        f = lambda x: float(.25 * np.sum((B @ x - c) ** 4) + .5 * x @ x)
        g = lambda x, eval_fun=False: B.T @ (B @ x - c) ** 3 + x
    else:
        f = lambda x: float(np.sum(np.sqrt(1 + (B @ x - c) ** 2)) + .05 * x @ x)
        g = lambda x, eval_fun=False: B.T @ ((B @ x - c) / np.sqrt(1 + (B @ x - c) ** 2)) + .1 * x
    x0 = r.standard_normal(n) * 2
    with G.silent():
        o = SCG(f, g, {"max_it": 3000, "x_tol": 1e-12, "f_tol": 1e-15})
        x, fx = o(x0)
    its = int(o.statistics["MaxIt"])
    T.note(n=n, kind=kind, its=its)
    T.check("stationary point of a convex function", np.linalg.norm(g(x)) <= 1e-3 * (1 + np.linalg.norm(g(x0))) ** .5,
            {"grad": np.linalg.norm(g(x)), "its": its})
    T.check("iterations for convex functions", its <= 80 + 20 * n, {"its": its, "n": n})
    T.case(x0, B)


def rosenbrock(T, r, i):
    n = int(G.pick(r, 2, 2, 4))
    f = lambda x: float(np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2))

    def g(x, eval_fun=False):
        o = np.zeros_like(x)
        o[:-1] = -400 * x[:-1] * (x[1:] - x[:-1] ** 2) - 2 * (1 - x[:-1])
        o[1:] += 200 * (x[1:] - x[:-1] ** 2)
        return o
    x0 = r.uniform(-2, 2, n)
    with G.silent():
        o = SCG(f, g, {"max_it": 3000, "x_tol": 1e-10, "f_tol": 1e-14})
        x, fx = o(x0)
    its = int(o.statistics["MaxIt"])
    T.note(n=n, its=its)
    T.check("Rosenbrock valley", np.linalg.norm(g(x)) <= 1e-3, {"grad": np.linalg.norm(g(x)), "its": its, "x": x})
    T.check("Rosenbrock iterations", its <= 1200, its)
    T.case(x0)


def honest(T, r, i):
    """Whenever the optimiser stops before its budget, its own criteria hold at the returned point."""
    n = int(G.pick(r, 1, 2, 5, 15))
    cond = float(G.pick(r, 1., 30., 1e3))
    Q = G.spd(r, n, 1., cond)
    c = r.standard_normal(n)
    amp = float(G.pick(r, 0., .5, 3.))
    f0 = lambda x: float(.5 * (x - c) @ Q @ (x - c) + amp * np.sum(np.sin(2 * x)))
    g0 = lambda x: Q @ (x - c) + 2 * amp * np.cos(2 * x)
    x_tol, f_tol = float(G.pick(r, 1e-6, 1e-3, 1e-1)), float(G.pick(r, 1e-8, 1e-3, 1e-1))
    nit = int(G.pick(r, 5, 30, 400))
    log = []

    def f(x):
        v = f0(x)
        log.append((np.array(x), v))
        return v
    x0 = c + r.standard_normal(n) * 3
    with G.silent() as out:
        o = SCG(f, lambda x, eval_fun=False: g0(x), {"max_it": nit, "x_tol": x_tol, "f_tol": f_tol})
        x, fx = o(x0)
    T.note(n=n, cond=cond, x_tol=x_tol, f_tol=f_tol, nit=nit)
    T.case(Q, x0)
    if "Maximum number of iterations" in out.getvalue():
        T.event("budget exhausted")
        return
    T.event("early stop")
    # Accepted points: strict improvements (or ties) of the running best, in order.
    acc = [log[0]]
    for p in log[1:]:
        if p[1] <= acc[-1][1] and not np.array_equal(p[0], acc[-1][0]):
            acc.append(p)
    gn2 = float(g0(x) @ g0(x))
    small_step = len(acc) > 1 and np.abs(acc[-1][0] - acc[-2][0]).max() <= x_tol * (1 + 1e-9) + 1e-15 and \
        abs(acc[-1][1] - acc[-2][1]) <= f_tol * (1 + 1e-9) + 1e-15
    null_step = len(log) > 1 and np.array_equal(log[-1][0], x) and np.array_equal(log[-2][0], x)
    T.check("early stop is justified", gn2 <= 1.1e-8 or small_step or null_step,
            {"grad2": gn2, "step": float(np.abs(acc[-1][0] - acc[-2][0]).max()) if len(acc) > 1 else None,
             "df": acc[-1][1] - acc[-2][1] if len(acc) > 1 else None, "x_tol": x_tol, "f_tol": f_tol})
    T.check("iterations reported", int(o.statistics["MaxIt"]) <= nit)


def stationary_start(T, r, i):
    n = int(r.integers(1, 10))
    Q, c = G.spd(r, n, .5, 5), r.standard_normal(n)
    with G.silent():
        o = SCG(lambda x: float((x - c) @ Q @ (x - c)), lambda x, eval_fun=False: 2 * Q @ (x - c), {"max_it": 50})
        x, fx = o(c.copy())
    T.check("a stationary start is returned at once", np.array_equal(x, c) and int(o.statistics["MaxIt"]) == 1 and
            float(np.ravel(fx)[0]) == 0.0)
    T.case(c)


def verdict(T, r, i):
    """The gradient check reports PASSED for a correct and FAILED for a wrong gradient."""
    n = int(G.pick(r, 2, 5, 12))
    Q, c = G.spd(r, n, .5, 5), r.standard_normal(n)
    f = lambda x: float(.5 * (x - c) @ Q @ (x - c) + np.sum(np.sin(x)))
    g = lambda x, eval_fun=False: Q @ (x - c) + np.cos(x)
    x = c + r.standard_normal(n) * 2
    keep = x.copy()
    with G.silent() as out:
        SCG(f, g).check_gradient_function(x)
    T.check("correct gradient passes", "PASSED" in out.getvalue() and "FAILED" not in out.getvalue(), out.getvalue())
    T.check("point untouched", np.array_equal(x, keep))
    bad = r.standard_normal(n)
    bad *= .05 * n / np.linalg.norm(bad)
    with G.silent() as out:
        SCG(f, lambda q, eval_fun=False: g(q) + bad).check_gradient_function(x, tol=1e-3)
    T.check("wrong gradient fails", "FAILED" in out.getvalue() and "PASSED" not in out.getvalue(), out.getvalue())
    with G.silent() as out:
        SCG(f, lambda q, eval_fun=False: g(q) + bad).check_gradient_function(x, tol=1.0)
    T.check("tolerance is respected", "PASSED" in out.getvalue(), out.getvalue())
    T.case(x)


def buffers(T, r, i):
    """The gradient function may hand out the same array again and again, and a new one at other times."""
    n = int(r.integers(2, 12))
    Q, c = G.spd(r, n, .5, 20), r.standard_normal(n)
    amp = float(G.pick(r, 0., .5))
    f = lambda x: float(.5 * (x - c) @ Q @ (x - c) + amp * np.sum(np.cos(x)))
    g = lambda x, eval_fun=False: Q @ (x - c) - amp * np.sin(x)
    buf = np.empty(n)

    def g_buf(x, eval_fun=False):
        buf[:] = g(x)
        return buf

    def g_mixed(x, eval_fun=False):
        return g(x) if r.random() < .5 else g_buf(x)
    x0 = c + r.standard_normal(n) * 3
    opts = {"max_it": int(G.pick(r, 3, 200)), "x_tol": 1e-8, "f_tol": 1e-12}
    with G.silent():
        want = SCG(f, g, opts)
        a = want(x0)
        for other in (g_buf, g_mixed):
            o = SCG(f, other, opts)
            b = o(x0)
            T.check("re-used gradient arrays do not matter", np.allclose(a[0], b[0], rtol=1e-9, atol=1e-9) and
                    int(o.statistics["MaxIt"]) == int(want.statistics["MaxIt"]), {"its": [want.statistics["MaxIt"], o.statistics["MaxIt"]]})
    T.case(Q, x0)


def reuse(T, r, i):
    """The same optimiser object solves problem after problem as a fresh one would."""
    n = int(r.integers(2, 8))
    Q = G.spd(r, n, .5, 20)
    f = lambda x, c: float(.5 * (x - c) @ Q @ (x - c))
    g = lambda x, c, eval_fun=False: Q @ (x - c)
    opts = {"max_it": 100}
    with G.silent():
        o = SCG(f, g, opts)
        for _ in range(3):
            c, x0 = r.standard_normal(n), r.standard_normal(n)
            a, b = o(x0, c), SCG(f, g, opts)(x0, c)
            T.check("reused optimiser gives the same result", np.array_equal(a[0], b[0]) and a[1] == b[1])
    T.case(Q)


WORKLOADS = [
    Workload("quadratic", quadratic, 200, 8000, must=["conjugate gradient speed"]),
    Workload("slow", slow, 12, 200, must=["iterations of slow problems"]),
    Workload("distant", distant, 60, 2000, must=["distant minimiser is reached"]),
    Workload("convex", convex, 90, 3000, must=["stationary point of a convex function"]),
    Workload("rosenbrock", rosenbrock, 30, 800),
    Workload("honest", honest, 240, 10000, must=["early stop is justified"]),
    Workload("stationary_start", stationary_start, 16, 100),
    Workload("verdict", verdict, 24, 400),
    Workload("buffers", buffers, 24, 400, must=["re-used gradient arrays do not matter"]),
    Workload("reuse", reuse, 24, 400),
]
