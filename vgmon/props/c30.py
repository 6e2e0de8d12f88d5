"""C30: repeated use accumulates neither memory nor open files, threads or processes."""
import gc
import os
import sys
import tempfile
import threading
import tracemalloc

import numpy as np

from .. import fault
from .. import gens as G
from .. import sims
from ..core import Workload

from src.numerics.optim_scg import SCG
from src.var_bayes.simulation import Simulation, load

RULE = ("the same operation repeated many times on live objects; traced memory after garbage collection, open file "
        "descriptors, threads and child processes are compared between an early and a late repetition. Non-trivial: the "
        "operation allocates at least a kilobyte each time; distinct by operation and inputs.")
ASSUMPTIONS = ["growth is judged against the size of the results of one repetition; saturating caches pass once warm"]


def warmup():
    G.warm_numba()


def held():
    gc.collect()
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def fds():
    return len(os.listdir("/proc/self/fd"))


def children():
    with open("/proc/self/task/%d/children" % os.getpid()) as f:
        return f.read().split()


def watch(T, what, fn, size, warm, reps):
    """fn() repeated: nothing may pile up. size: bytes of the results of one repetition."""
    def quiet(k):
        for _ in range(k):
            with G.silent():
                fn()
    quiet(warm)
    f0, t0, c0 = fds(), threading.active_count(), children()
    tracemalloc.start()
    try:
        quiet(1)
        a = held()
        quiet(reps)
        b = held()
        if b - a > .2 * size * reps:  # settled caches: look again
            a = b
            quiet(reps)
            b = held()
    finally:
        tracemalloc.stop()
    grow = (b - a) / reps
    T.note(operation=what, bytes_per_repetition=grow, result_bytes=size)
    T.check("memory does not pile up", grow <= .2 * size + 64, {"what": what, "grows per repetition by": grow, "results of one": size})
    T.check("files are closed", fds() <= f0, {"what": what, "open": fds(), "before": f0})
    T.check("no threads or processes are left", threading.active_count() <= t0 and children() == c0, what)
    T.event("repetitions watched", reps)
    T.event("growth below 2% of a result" if grow < .02 * size else "growth below 20% of a result", 1)
    T.event("operation " + what)
    T.case(what, grow, size)


def evaluations(T, r, i):
    name = ("DW", "OU", "L63", "DW", "OU", "L63", "L96")[i % 7]
    c = G.Case(r, name, G.METHODS[(i // 7) % 4], n=3 if name == "L96" else (25 if name == "L63" else 120), dt=.001, operator=bool(i % 2))
    k = [0]

    def fn():
        k[0] += 1
        x = c.random_x(r, .3)  # never the same point again
        c.vgp.free_energy(x)
        c.vgp.gradient(x)
        c.vgp.gradient(x, eval_fun=True)
        c.vgp.initialization() if not c.like.operator.shape or c.H.shape[0] == c.d else None
    watch(T, name + " evaluations", fn, 8 * c.n * c.d * (c.d + 1), 4, 12 if name == "L96" else 40)


def models(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = G.dims(name)
    M = G.model(name, 1.0 if d == 1 else np.eye(d), G.rand_theta(r, name) if name != "L63" else np.array([10., 28., 8 / 3]), 3)

    def draw():
        M.make_trajectory(0., 2., .01)
        M.collect_obs(10, .1)
    watch(T, name + " draws", draw, 8 * 201 * d, 3, 20)

    def assign():
        M.sigma = 1.5 if d == 1 else 1.5 * np.eye(d)
        M.theta = M.theta
    watch(T, name + " assignments", assign, 8 * d * d, 20, 300)

    def build():
        G.model(name, .5, M.theta, 1)
    watch(T, name + " construction", build, 1024, 20, 200)


def tools(T, r, i):
    """The numerical tools, the likelihood and the prior, every time on new numbers."""
    from src.numerics.utilities import chol_inv, finite_diff, log_det, my_trapz, safe_log, ut_approx
    from src.var_bayes.gaussian_moments import GaussianMoments
    d, n = 12, 40
    y, R = r.standard_normal((4, d)), G.spd(r, d)
    like = G.GaussianLikelihood(y, [3, 9, 20, 39], R, None, False)
    kl = G.PriorKL0(r.standard_normal(d), G.spd(r, d), False)
    one = G.GaussianLikelihood(r.standard_normal(4), [3, 9, 20, 39], .3, None, True)

    def linear():
        S = G.spd(r, d)
        chol_inv(S)
        log_det(S)
        safe_log(np.diag(S))
    watch(T, "linear algebra", linear, 8 * d * d, 10, 300)

    def quadrature():
        f = r.standard_normal((n, d))
        my_trapz(f, .1, [3, 7])
        finite_diff(lambda z: float(np.sin(z).sum()), f[0])
    watch(T, "quadrature and differences", quadrature, 8 * n * d, 10, 200)

    def transform():
        ut_approx(np.sin, r.standard_normal(d), G.spd(r, d))
    watch(T, "unscented transforms", transform, 8 * d * d, 10, 100)

    def moments():
        g = GaussianMoments(r.standard_normal(n), G.logu(r, .1, 3, n))
        for k in range(1, 9):
            g(k), g.dm(k), g.ds(k)
    watch(T, "moments", moments, 8 * n, 10, 100)

    def energies():
        m, s = r.standard_normal((n, d)), np.array([G.spd(r, d)] * n)
        like(m, s), like.gradients(m, s), kl(m[0], s[0]), kl.gradients(m[0], s[0], m[1], s[1])
        one(m[:, 0], s[:, 0, 0]), one.gradients(m[:, 0], s[:, 0, 0])
    watch(T, "likelihood and prior", energies, 8 * n * d, 5, 60)

    def objects():
        G.GaussianLikelihood(r.standard_normal((4, d)), [3, 9, 20, 39], G.spd(r, d), None, False)(np.zeros((n, d)), np.zeros((n, d, d)))
        G.PriorKL0(r.standard_normal(d), G.spd(r, d), False)(np.zeros(d), np.eye(d))
    watch(T, "new likelihoods and priors", objects, 8 * d * d, 10, 100)

    def solvers():
        for q in G.METHODS:
            A, b = np.array([G.spd(r, 3)] * n), r.standard_normal((n, 3))
            m, S = G.FwdOde(.01, q, False)(A, b, b[0], A[0], np.eye(3))
            G.BwdOde(.01, q, False)(A, b, A, b, A)
    watch(T, "solvers", solvers, 8 * n * 9, 4, 20)


def optimiser(T, r, i):
    d = int(G.pick(r, 20, 200))
    Q = G.spd(r, d)
    z, x0 = r.standard_normal(d), r.standard_normal(d)
    opt = SCG(lambda q: .5 * q @ Q @ q - z @ q, lambda q, eval_fun=False: Q @ q - z, {"max_it": 8})
    watch(T, "optimisations", lambda: opt(x0), 8 * d, 5, 60)


def results(T, r, i):
    with tempfile.TemporaryDirectory(prefix="vgmon_c30_") as tmp:
        old = os.getcwd()
        os.chdir(tmp)
        try:
            s = Simulation("run %d" % i)
            s.output = {"a": r.standard_normal((50, 4)), "b": r.standard_normal(300), "c": np.array([1.5])}

            def fn():
                s.save()
                load("run_%d.h5" % i)
            watch(T, "save and load", fn, 8 * 500, 10, 60)

            def bad():
                try:
                    load("missing.h5")
                except Exception:
                    pass
                with open("damaged.h5", "wb") as f:
                    f.write(b"\x89HDF\r\n\x1a\n" + bytes(40))
                try:
                    load("damaged.h5")
                except Exception:
                    pass
            watch(T, "failed loads", bad, 1024, 10, 60)
            T.check("one file per name", sorted(os.listdir(".")) == ["damaged.h5", "run_%d.h5" % i], os.listdir("."))
        finally:
            os.chdir(old)


def failures(T, r, i):
    """Operations that fail or are interrupted, again and again."""
    if i % 3 == 0:
        p = dict(sims.params(r, "L63", n=15), Prior={"tau0": -1.0, "mu0": 0.0})
        s = Simulation("fails")
        s2 = sims.simulate(sims.params(r, "OU", n=31, dt=.01))

        def fn():
            s.setup(p, None)
            try:
                s.run()
            except Exception:
                T.event("failed runs")
            if fault.interrupt(s2.run, int(G.logu(r, 40, 4000)), G.pick(r, fault.Injected, fault.Interrupted))[1] is not None:
                T.event("interrupted runs")
        watch(T, "failing simulations", fn, 8 * 15 * 60, 3, 12)
    elif i % 3 == 1:
        d = 120
        n = [0]

        def f(x):
            n[0] += 1
            if n[0] % 7 == 0:
                raise OSError("out of luck")
            return float(np.sum(x ** 2 + .1 * x ** 4))
        opt = SCG(f, lambda x, eval_fun=False: 2 * x + .4 * x ** 3, {"max_it": 40})

        def fn():
            try:
                opt(r.standard_normal(d))
            except OSError:
                T.event("failed optimisations")
        watch(T, "failing optimisations", fn, 8 * d, 10, 100)
    else:
        name = ("DW", "OU", "L63")[(i // 3) % 3]
        c = G.Case(r, name, G.METHODS[i % 4], n=30)

        def fn():
            x = c.random_x(r)
            for bad in (x * np.nan, x * 1e200, x[:-3]):
                try:
                    with np.errstate(all="ignore"):
                        c.vgp.gradient(bad, eval_fun=True)
                except Exception:
                    T.event("failed evaluations")
            if fault.interrupt(lambda: c.vgp.gradient(x, eval_fun=True), int(r.integers(1, 300)), fault.Injected)[1] is not None:
                T.event("interrupted evaluations")
            for bad in (lambda: setattr(c.model, "sigma", -np.eye(c.d) if c.d > 1 else -1.), lambda: G.FwdOde(-1., "Euler", True),
                        lambda: c.model.collect_obs(10 ** 9, .1), lambda: c.like(np.zeros(1), np.zeros(1))):
                try:
                    bad()
                except Exception:
                    T.event("failed operations")
        watch(T, "failing evaluations", fn, 8 * c.n * c.d * (c.d + 1), 4, 30)


def simulations(T, r, i):
    p = sims.params(r, ("DW", "OU")[i % 2], n=61, dt=.01)
    s = Simulation("again")

    def same():
        s.setup(p, None)
        s.run()

    k = [0]

    def fresh():
        k[0] += 1  # a name of its own every time
        sims.simulate(dict(p, Output_Name="run %d" % k[0]))
    watch(T, "a re-used simulation", same, 8 * 61 * 8, 1, 5)
    watch(T, "fresh simulations", fresh, 8 * 61 * 8, 1, 5)


WORKLOADS = [
    Workload("evaluations", evaluations, 28, 280, must=["memory does not pile up"], timeout=400),
    Workload("models", models, 8, 80, must=["no threads or processes are left"]),
    Workload("tools", tools, 4, 60, must=["memory does not pile up"], timeout=400),
    Workload("optimiser", optimiser, 4, 40),
    Workload("results", results, 4, 40, must=["files are closed"]),
    Workload("failures", failures, 6, 60, must=["failed runs", "interrupted runs", "failed optimisations"], timeout=400),
    Workload("simulations", simulations, 4, 60, timeout=400),
]
