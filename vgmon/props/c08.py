"""C08: contract between the optimiser, its result and the functions it drives."""
import numpy as np

from .. import gens as G
from ..core import Workload

from src.numerics.optim_scg import SCG

RULE = ("random objectives (convex and indefinite quadratics, Rosenbrock, double-well chains, log-sum-exp, bounded waves, "
        "nearly flat, NaN outside a ball), start points, budgets and tolerances; an online monitor records every call of "
        "the objective and the gradient and judges the returned point against the whole log. Non-trivial: at least one "
        "iteration; distinct by objective and start.")


class Objective:
    def __init__(self, r):
        self.kind = k = G.pick(r, "quad", "quad", "indef", "rosen", "wells", "lse", "waves", "flat", "nanball", "wronggrad", "linear")
        self.n = n = int(G.pick(r, 1, 2, 3, 5, 12, 40)) if k != "rosen" else int(G.pick(r, 2, 4, 8))
        self.Q = G.spd(r, n, *G.pick(r, (.5, 5.), (1e-2, 1e2), (1e-5, 1e-3), (10., 1e4)))
        if k == "indef":
            e = r.standard_normal(n)
            self.Q = self.Q - 1.5 * np.outer(e, e) / n
        self.c = r.standard_normal(n) * float(G.pick(r, 0., 1., 10.))
        self.x0 = r.standard_normal(n) * float(G.pick(r, 0., .1, 1., 5.)) + self.c * float(G.pick(r, 0., 1.))
        self.sgn = r.choice([-1., 1.], n)
        if k == "nanball":  # the start is finite, distant trial points are not
            z = self.x0 - self.c
            self.x0 = self.c + z * min(1.0, 6.0 / (np.linalg.norm(z) + 1e-9))

    def f(self, x):
        k, z = self.kind, x - self.c
        if k in ("quad", "wronggrad"):
            return .5 * z @ self.Q @ z + 3.0
        if k == "indef":
            return .5 * z @ self.Q @ z + .1 * np.sum(z ** 4)
        if k == "rosen":
            return float(np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2))
        if k == "wells":
            return float(np.sum((x ** 2 - 1) ** 2) + .5 * np.sum(np.diff(x) ** 2))
        if k == "lse":
            return float(np.sum(np.logaddexp(z, -z)))
        if k == "waves":
            return float(np.sum(np.sin(3 * x)) + .01 * x @ x)
        if k == "flat":
            return 1.0 + 1e-14 * float(z @ z)
        if k == "linear":
            return float(self.sgn @ x) * 1e-3
        r2 = z @ z
        return float(r2) if r2 < 50. else float("nan")

    def g(self, x):
        k, z = self.kind, x - self.c
        if k == "quad":
            return self.Q @ z
        if k == "wronggrad":
            return self.Q @ z * (1 + .5 * self.sgn)
        if k == "indef":
            return self.Q @ z + .4 * z ** 3
        if k == "rosen":
            o = np.zeros_like(x)
            o[:-1] = -400 * x[:-1] * (x[1:] - x[:-1] ** 2) - 2 * (1 - x[:-1])
            o[1:] += 200 * (x[1:] - x[:-1] ** 2)
            return o
        if k == "wells":
            o = 4 * x * (x ** 2 - 1)
            dd = np.diff(x)
            o[1:] += dd
            o[:-1] -= dd
            return o
        if k == "lse":
            return np.tanh(z)
        if k == "waves":
            return 3 * np.cos(3 * x) + .02 * x
        if k == "flat":
            return 2e-14 * z
        if k == "linear":
            return self.sgn * 1e-3
        return 2 * z


class Budget(Exception):
    pass


class Monitor:
    """Online checker of the call protocol."""

    def __init__(self, T, obj, args, cap):
        self.T, self.o, self.args, self.cap = T, obj, args, cap
        self.slopes, self.points, self.values, self.nf, self.ndf, self.nev, self.last = [], [], [], 0, 0, 0, None

    def _args(self, a):
        self.T.check("extra arguments reach every call", len(a) == len(self.args) and all(p is q for p, q in zip(a, self.args)),
                     {"got": len(a), "want": len(self.args)})

    def f(self, x, *a):
        self._args(a)
        self.nf += 1
        if self.nf > self.cap:
            raise Budget("f")
        v = self.o.f(np.array(x, dtype=float))
        self.points.append(np.array(x, dtype=float))
        self.values.append(float(v))
        self.last = np.array(x, dtype=float)
        return v

    def df(self, x, *a, eval_fun=False):
        self._args(a)
        self.ndf += 1
        if self.ndf > self.cap:
            raise Budget("df")
        if eval_fun:
            self.nev += 1
            self.last = np.array(x, dtype=float)
        else:
            # A stateful objective serves the gradient of the point evaluated last.
            self.T.check("gradient is asked at the point evaluated last", self.last is not None and
                         np.array_equal(self.last, x), {"ndf": self.ndf})
        g = self.o.g(np.array(x, dtype=float))
        self.slopes.append(float(np.abs(g).sum()))
        return g


class Level:
    """An objective on another scale and level."""

    def __init__(self, o, gain, shift):
        self.kind, self.n, self.x0, self.Q, self.o, self.gain, self.shift = o.kind, o.n, o.x0, o.Q, o, gain, shift

    def f(self, x):
        return self.gain * self.o.f(x) + self.shift

    def g(self, x):
        return self.gain * self.o.g(x)


def levels(T, r, i):
    o = Objective(r)
    if i % 8 == 3:      # thousands of calls
        while o.kind not in ("rosen", "linear", "quad"):
            o = Objective(r)
    gain, shift = float(G.pick(r, 1e-6, 1., 1e6)), float(G.pick(r, -1e9, -1e6, 1e4, 1e9, 0.))
    contract(T, r, i, Level(o, gain, shift), 2500 if i % 8 == 3 else None)


def contract(T, r, i, o=None, nit=None):
    o = o or Objective(r)
    nit = nit or int(G.pick(r, 1, 2, 3, 10, 60, 300))
    opts = {"max_it": nit, "x_tol": float(G.pick(r, 1e-6, 1e-3, 1e-12, .5)), "f_tol": float(G.pick(r, 1e-8, 1e-2, 1e-12))}
    args = [(), (object(),), (1.5, "x", np.ones(2))][int(r.integers(3))]
    mon = Monitor(T, o, args, 4 * nit + 8)
    T.note(kind=o.kind, n=o.n, **opts)
    x0 = o.x0.copy()
    shaped = x0.reshape(-1, 1) if r.random() < .2 else x0
    if r.random() < .2:     # starts of any shape and layout mean their elements row by row
        k = int(G.pick(r, *[q for q in range(1, o.n + 1) if o.n % q == 0]))
        shaped = x0.reshape(k, -1)
        shaped = G.pick(r, shaped, np.asfortranarray(shaped), np.repeat(shaped, 2, axis=1)[:, ::2])
    keep = shaped.copy()
    with G.silent() as out:
        opt = SCG(mon.f, mon.df, opts)
        try:
            x, fx = opt(shaped, *args)
        except Budget as e:
            T.check("iteration budget is respected", False, {"calls": str(e), "nf": mon.nf, "ndf": mon.ndf})
    T.check("start point untouched", np.array_equal(shaped, keep))
    T.check("the search begins at the start point", np.array_equal(mon.points[0], x0), {"first": mon.points[0][:6], "x0": x0[:6]})
    T.check("result is detached from the start point", not np.shares_memory(np.asarray(x), shaped))
    x = np.array(x, dtype=float)
    fx = float(np.ravel(fx)[0])
    T.check("result has the size of the start point", x.shape == (o.n,), x.shape)
    T.check("value belongs to the returned point", fx == float(o.f(x)) or abs(fx - float(o.f(x))) <= 1e-13 * (1 + abs(fx)),
            {"fx": fx, "f(x)": float(o.f(x))})
    T.check("never worse than the start", fx <= o.f(x0), {"fx": fx, "f0": float(o.f(x0))})
    vals = [v for v in mon.values if not np.isnan(v)]
    T.check("best point evaluated is the one returned", fx <= min(vals) + 1e-13 * (1 + abs(fx)), {"fx": fx, "best": min(vals)})
    T.check("returned point was evaluated", any(np.array_equal(p, x) for p in mon.points))
    T.check("iteration budget is respected", mon.nf <= 2 * nit + 1 and mon.ndf <= 2 * nit + 1, {"nf": mon.nf, "ndf": mon.ndf, "nit": nit})
    s = opt.statistics
    T.check("function evaluation counter", int(s["f_eval"]) == mon.nf + mon.nev, {"stat": s["f_eval"], "seen": [mon.nf, mon.nev]})
    T.check("gradient evaluation counter", int(s["df_eval"]) == mon.ndf, {"stat": s["df_eval"], "seen": mon.ndf})
    its = int(s["MaxIt"])
    T.check("iteration counter", 1 <= its <= nit, its)
    h = np.asarray(s["fx"], dtype=float)[:its]
    if its > 1 and h[-1] == 0.0 and fx != 0.0:
        h = h[:-1]  # stopped before the last iteration recorded anything
    T.check("recorded values never increase", np.all(np.diff(h) <= 1e-13 * (1 + np.abs(h[:-1]))), {"fx": h[:8]})
    if h.size and not (its == 1 and h[-1] == 0.0):
        T.check("recorded values end at the result", abs(h[-1] - fx) <= 1e-13 * (1 + abs(fx)), {"h": h[-1], "fx": fx})
        T.check("recorded values were observed", np.all([np.any(np.abs(np.array(vals) - q) <= 1e-13 * (1 + abs(q))) for q in h]))
    sl = np.array(mon.slopes)
    slopes = np.asarray(s["dfx"], dtype=float)[:h.size]
    if not (its == 1 and h.size and h[-1] == 0.0):
        T.check("recorded slopes were observed", all(np.any(np.abs(sl - q) <= 1e-9 * (np.abs(sl) + abs(q))) for q in slopes),
                {"dfx": slopes[:5], "seen": sl[:5]})
    if "Maximum number of iterations" not in out.getvalue():
        T.event("stopped early")
    else:
        T.event("budget exhausted")
        T.check("exhaustion is reported only at the budget", its == nit, {"its": its, "nit": nit})
    T.event("objective calls watched", mon.nf + mon.ndf)
    T.case(o.x0, o.kind, o.Q)
    # Deterministic: the same problem gives the same answer.
    with G.silent():
        x2, f2 = SCG(lambda q, *a: o.f(q), lambda q, *a, eval_fun=False: o.g(q), opts)(x0, *args)
    T.check("same problem, same answer", np.array_equal(x2, x) and float(np.ravel(f2)[0]) == fx)


def defaults(T, r, i):
    """Options are optional; every option is respected on its own."""
    o = Objective(r)
    o.kind = "quad"
    mon = Monitor(T, o, (), 10 ** 6)
    with G.silent():
        x, fx = SCG(mon.f, mon.df)(o.x0)
    T.check("default budget", mon.nf <= 301, mon.nf)
    for nit in (1, 4, 17):
        mon = Monitor(T, o, (), 10 ** 6)
        with G.silent():
            SCG(mon.f, mon.df, {"max_it": nit, "x_tol": 0.0, "f_tol": 0.0})(o.x0)
        T.check("max_it on its own", mon.nf <= 2 * nit + 1, mon.nf)
    with G.silent() as out:
        SCG(o.f, lambda q, eval_fun=False: o.g(q), {"max_it": 3, "display": True})(o.x0)
        shown = out.getvalue()
    with G.silent() as out:
        SCG(o.f, lambda q, eval_fun=False: o.g(q), {"max_it": 3, "display": False})(o.x0)
        quiet = out.getvalue()
    if np.abs(o.g(o.x0)).max() > 1e-3:
        T.check("display option", "fx=" in shown and "fx=" not in quiet, {"shown": shown[:80], "quiet": quiet[:80]})
    T.case(o.x0)


WORKLOADS = [
    Workload("contract", contract, 600, 30000, must=["best point evaluated is the one returned", "stopped early",
                                                     "budget exhausted"]),
    Workload("levels", levels, 160, 6000, must=["best point evaluated is the one returned"]),
    Workload("defaults", defaults, 24, 400),
]
