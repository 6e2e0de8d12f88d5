"""C26: independent problems evaluated concurrently do not interfere."""
import json
import sys
import threading
import time

import numpy as np

from .. import gens as G
from .. import sims
from ..baton import Baton
from ..core import Workload

RULE = ("threads evaluating problems of their own (also when solvers, likelihood, prior and model are shared), running whole "
        "simulations and drawing paths, with a switch interval of microseconds and injected yields; every result is compared "
        "with the sequential one, and the hand-overs between threads are counted. Non-trivial: at least one hand-over inside "
        "an evaluation sequence; distinct by problem and schedule.")
KEYS = ("mt", "st", "Efx", "Edf", "lamt", "psit")


def warmup():
    G.warm_numba()


class Fast:
    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)


def together(fns):
    """Run fns in threads from a common start; returns results, exceptions and the log of steps."""
    log, res, exc = [], [None] * len(fns), [None] * len(fns)
    bar = threading.Barrier(len(fns))

    def go(k):
        bar.wait()
        try:
            res[k] = fns[k](lambda: log.append(k))
        except BaseException as e:
            exc[k] = repr(e)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(fns))]
    with Fast(), G.silent():
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    return res, exc, log


def judge_log(T, log):
    sw = sum(a != b for a, b in zip(log, log[1:]))
    T.event("steps by threads", len(log))
    T.event("hand-overs between threads", sw)
    return sw


def evaluations(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    shared = bool((i // 4) % 2)
    c = G.Case(r, name, G.METHODS[(i // 8) % 4], n=int(G.pick(r, 5, 12)) if name != "L96" else 3)
    k = 4
    cases = [c if shared else G.Case(r, G.pick(r, "DW", "OU", "L63") if name != "L96" else "L96", G.pick(r, *G.METHODS), n=6 if name != "L96" else 3)
             for _ in range(k)]
    probs = [q.build() for q in cases]
    pts = [[q.random_x(r, .5) for _ in range(4)] for q in cases]
    want = []
    for q, xs in zip(cases, pts):
        v = q.build()
        want.append([(v.free_energy(x), np.array(v.gradient(x)), {s: np.array(v.arg_out[s]) for s in KEYS}) for x in xs])
    orders = [r.integers(0, 4, size=10) for _ in range(k)]
    naps = [r.random(10) < .2 for _ in range(k)]

    def work(j):
        def fn(step):
            out = []
            for s, nap in zip(orders[j], naps[j]):
                step()
                F = probs[j].free_energy(pts[j][s])
                step()
                if nap:
                    time.sleep(0)
                g = probs[j].gradient(pts[j][s])
                step()
                out.append((F, np.array(g), {q: np.array(probs[j].arg_out[q]) for q in KEYS}))
            return out
        return fn
    res, exc, log = together([work(j) for j in range(k)])
    T.check("concurrent evaluations do not fail", exc == [None] * k, exc)
    sw = judge_log(T, log)
    for j in range(k):
        for s, (F, g, out) in zip(orders[j], res[j]):
            if not np.isfinite(want[j][s][0]):
                continue
            T.close("free energy equals the sequential one", F, want[j][s][0], rtol=1e-10)
            T.close("gradient equals the sequential one", g, want[j][s][1], rtol=1e-9)
            for q in KEYS:
                T.close("moments and multipliers equal the sequential ones", np.asarray(out[q], float), np.asarray(want[j][s][2][q], float),
                        rtol=1e-9, detail=q)
    if sw:
        T.case(pts[0][0], log[:200])


def simulations(T, r, i):
    ps = [sims.params(r, G.pick(r, "DW", "OU", "DW", "OU", "L63"), n=7) for _ in range(4)]
    want = [sims.simulate(p).output for p in ps]
    def work(p):
        def fn(step):
            step()
            s = sims.Simulation("x")
            s.setup(p, None)
            step()
            s.run()
            step()
            return s.output
        return fn
    text = json.dumps(ps)
    res, exc, log = together([work(p) for p in ps])
    T.check("concurrent simulations do not fail", exc == [None] * 4, exc)
    judge_log(T, log)
    T.check("parameters untouched", json.dumps(ps) == text)
    for a, b in zip(res, want):
        for q in sims.OUT_KEYS:
            T.close("concurrent simulations equal sequential ones", np.asarray(a[q], float), np.asarray(b[q], float), rtol=1e-10, detail=q)
    T.event("simulations in threads", 4)
    T.case(text)


def draws(T, r, i):
    specs = []
    for _ in range(4):
        name = G.pick(r, "DW", "OU", "L63", "L96")
        th = {"DW": 1., "OU": 1.5, "L63": np.array([10., 28., 8 / 3]), "L96": 8.}[name]
        specs.append((name, 1.0, th, int(r.integers(2 ** 31))))

    def one(spec, step=lambda: None):
        M = G.MODELS[spec[0]](*spec[1:], *((10,) if spec[0] == "L96" else ()))
        out = []
        for k in range(3):
            step()
            M.make_trajectory(0., .3, .01)
            step()
            t, y, R = M.collect_obs(10, .1)
            out += [np.array(M.sample_path), np.array(t), np.array(y)]
        return out
    with G.silent():
        want = [one(s) for s in specs]
    res, exc, log = together([lambda step, s=s: one(s, step) for s in specs])
    T.check("concurrent draws do not fail", exc == [None] * 4, exc)
    judge_log(T, log)
    for a, b in zip(res, want):
        for p, q in zip(a, b):
            T.close("concurrent draws equal sequential ones", p, q, rtol=1e-10)
    T.case([s[3] for s in specs])


def evaluate(v, x):
    F = v.free_energy(x)
    g = np.array(v.gradient(x))
    return F, g, {q: np.array(v.arg_out[q]) for q in KEYS}


def judge(T, got, want, detail):
    if not np.isfinite(want[0]):
        return
    T.close("scheduled evaluations: free energy", got[0], want[0], rtol=1e-10, detail=detail)
    T.close("scheduled evaluations: gradient", got[1], want[1], rtol=1e-9, detail=detail)
    for q in KEYS:
        T.close("scheduled evaluations: moments and multipliers", np.asarray(got[2][q], float), np.asarray(want[2][q], float), rtol=1e-9,
                detail=(q, detail))


def schedule(T, B, what):
    T.event("switch points passed", B.points)
    T.event("forced hand-overs inside the code", len(B.log))
    T.event("schedules " + what)
    if B.slips:
        T.event("schedules that slipped")


def interleaved(T, r, i):
    """Two or three evaluations under a drawn schedule that switches between any two lines (or bytecodes)."""
    name = ("DW", "OU", "L63", "DW", "L96", "OU", "L63")[i % 7]
    method = G.METHODS[(i // 7) % 4]
    mode = i % 3  # same parts, same sizes, anything
    n = 3 if name == "L96" else int(G.pick(r, 3, 5, 8))
    c = G.Case(r, name, method, n=n, operator=bool(i % 2))
    k = int(G.pick(r, 2, 2, 3))
    if mode == 0:
        cases = [c] * k
    elif mode == 1:
        cases = [G.Case(r, name, method, n=n, dt=c.dt, operator=bool(i % 2)) for _ in range(k)]
    else:
        cases = [G.Case(r, G.pick(r, "DW", "OU", "L63"), G.pick(r, *G.METHODS), n=int(G.pick(r, 3, 6))) for _ in range(k)]
    xs = [q.random_x(r, .5) for q in cases]
    want = [evaluate(q.build(), x) for q, x in zip(cases, xs)]
    again = [evaluate(q.build(), x) for q, x in zip(cases, xs)]
    for a, b in zip(again, want):
        judge(T, a, b, "sequential")
    for s in range(4 if name != "L96" else 1):
        op = bool(r.random() < .35)
        B = Baton(r, k, float(G.pick(r, .05, .2, .6)) * (.2 if op else 1.), op)
        probs = [q.build() for q in cases]
        with G.silent():
            res, exc = B.run([lambda v=v, x=x: evaluate(v, x) for v, x in zip(probs, xs)])
        T.check("scheduled evaluations do not fail", exc == [None] * k, exc)
        schedule(T, B, "of evaluations")
        for a, b in zip(res, want):
            judge(T, a, b, {"model": name, "method": method, "mode": mode})
        if B.log:
            T.case(xs[0], B.log)


def rings(T, r, i):
    """Lorenz-96 systems of different dimensions, by two threads under a drawn schedule."""
    ds = [int(q) for q in r.choice([10, 11, 12, 14], 2, replace=False)]
    Ms = [G.model("L96", float(G.logu(r, .5, 2)), float(r.uniform(0, 9)), 3, d) for d in ds]
    mts = [r.standard_normal(d) * 3 for d in ds]
    sts = [G.spd(r, d) for d in ds]
    A = [np.array([G.spd(r, d, 1., 4.) for _ in range(2)]) for d in ds]
    b = [r.standard_normal((2, d)) for d in ds]
    for M in Ms:
        G.set_grid(M, 2, .01, d=M.dim_d if hasattr(M, "dim_d") else 2)
    full = i % 3 == 2

    def work(k):
        def fn():
            M, out = Ms[k], []
            for _ in range(1 if full else 4):
                out += [np.array(M.E96_drift(mts[k], sts[k])), np.array(M.E96_drift_dm(mts[k]))] if hasattr(M, "E96_drift_dm") else \
                    [np.array(M.E96_drift(mts[k], sts[k]))]
            if full:
                e, fx, _ = M.energy(A[k], b[k], np.array([mts[k]] * 2), np.array([sts[k]] * 2), [1])[:3]
                out += [np.array(e), np.array(fx[0] if isinstance(fx, tuple) else fx)]
            return out
        return fn
    with G.silent():
        want = [work(k)() for k in range(2)]
    for s in range(1 if full else 6):
        op = bool(r.random() < .5)
        B = Baton(r, 2, float(G.pick(r, .1, .3, .6)) * (.1 if full else 1.) * (.4 if op else 1.), op)
        with G.silent():
            res, exc = B.run([work(0), work(1)])
        T.check("scheduled evaluations do not fail", exc == [None] * 2, exc)
        schedule(T, B, "of rings of different size")
        for p, q in zip(res, want):
            for u, v in zip(p or [], q):
                T.close("scheduled rings equal sequential ones", u, v, rtol=1e-10)
        T.case(mts[0], B.log[:500])


def scheduled_runs(T, r, i):
    """Whole simulations, draws and saved problems under a drawn schedule."""
    ps = [sims.params(r, G.pick(r, "DW", "OU"), n=int(G.pick(r, 12, 15))) for _ in range(2)]
    want = [sims.simulate(p).output for p in ps]
    B = Baton(r, 2, float(G.pick(r, .002, .02)), False)

    def work(p):
        s = sims.Simulation("x")
        s.setup(p, None)
        s.run()
        return s.output
    with G.silent():
        res, exc = B.run([lambda p=p: work(p) for p in ps])
    T.check("scheduled simulations do not fail", exc == [None] * 2, exc)
    schedule(T, B, "of simulations")
    for a, b in zip(res, want):
        for q in sims.OUT_KEYS:
            T.close("scheduled simulations equal sequential ones", np.asarray(a[q], float), np.asarray(b[q], float), rtol=1e-10, detail=q)
    T.case(json.dumps(ps), B.log[:500])


def scheduled_tools(T, r, i):
    """Draws of paths and observations, optimisations and the numerical tools, by two threads under a drawn schedule."""
    from src.numerics.optim_scg import SCG
    from src.numerics.utilities import chol_inv, finite_diff, log_det, my_trapz, safe_log, ut_approx
    from src.var_bayes.gaussian_moments import GaussianMoments

    def draw(spec):
        def fn():
            M = G.MODELS[spec[0]](*spec[1:], *((10,) if spec[0] == "L96" else ()))
            out = []
            for dens in (10, 7):
                M.make_trajectory(0., .4, .01)
                t, y, R = M.collect_obs(dens, .1)
                out += [np.array(M.sample_path), np.array(t), np.array(y)]
            return out
        return fn

    def optim(Q, z, x0, shared):
        def fn():
            opt = shared or SCG(lambda q: .5 * q @ Q @ q - z @ q, lambda q, eval_fun=False: Q @ q - z, {"max_it": 8})
            x, f = opt(x0.copy())
            return [np.array(x), np.array(f)]
        return fn

    def tools(X, m, a, k):
        def fn():
            y, Y = ut_approx(lambda z: np.sin(z), m, X)
            P, C = chol_inv(X)
            g = GaussianMoments(m, np.diag(X).copy())
            return [np.array(q) for q in (y, Y, P, C, log_det(X), safe_log(a), my_trapz(a, .1, [1, 3]), g(k), g.dm(max(1, k)), g.ds(max(1, k)),
                                          finite_diff(lambda z: float(np.sin(z).sum()), m))]
        return fn
    fns = []
    kind = i % 3
    for _ in range(2):
        if kind == 0:
            name = G.pick(r, "DW", "OU", "L63", "L96")
            th = {"DW": 1., "OU": 1.5, "L63": np.array([10., 28., 8 / 3]), "L96": 8.}[name]
            fns.append(draw((name, 1.0, th, int(r.integers(2 ** 31)))))
        elif kind == 1:
            d = 5
            fns.append(optim(G.spd(r, d), r.standard_normal(d), r.standard_normal(d), None))
        else:
            d = 4
            fns.append(tools(G.spd(r, d), r.standard_normal(d), G.logu(r, .1, 9, 6), int(r.integers(0, 9))))
    with G.silent():
        want = [f() for f in fns]
    for s in range(1 if kind == 0 else 4):
        op = kind > 0 and bool(r.random() < .4)
        B = Baton(r, 2, float(G.pick(r, .02, .1, .5)) * (.02 if kind == 0 else 1.) * (.3 if op else 1.), op)
        with G.silent():
            res, exc = B.run(fns)
        T.check("scheduled tools do not fail", exc == [None] * 2, exc)
        schedule(T, B, ("of draws", "of optimisations", "of numerical tools")[kind])
        for a, b in zip(res, want):
            for p, q in zip(a, b):
                T.close("scheduled tools equal sequential ones", p, q, rtol=1e-9)
        T.case(i, s, B.log[:500])


WORKLOADS = [
    Workload("interleaved", interleaved, 84, 4200, must=["scheduled evaluations: gradient", "forced hand-overs inside the code"]),
    Workload("rings", rings, 48, 2000, must=["scheduled rings equal sequential ones"]),
    Workload("scheduled_runs", scheduled_runs, 8, 160, must=["scheduled simulations equal sequential ones"]),
    Workload("scheduled_tools", scheduled_tools, 36, 900, must=["scheduled tools equal sequential ones"]),
    Workload("evaluations", evaluations, 64, 1600, must=["hand-overs between threads", "gradient equals the sequential one"]),
    Workload("simulations", simulations, 8, 120, must=["concurrent simulations equal sequential ones"]),
    Workload("draws", draws, 24, 400, must=["concurrent draws equal sequential ones"]),
]
