"""C31: an operation that is interrupted, or fails on the way, leaves everything it used fit for use."""
import copy
import gc
import json
import os
import tempfile

import numpy as np

from .. import fault
from .. import gens as G
from .. import sims
from ..core import Workload

from src.numerics.optim_scg import SCG
from src.numerics.utilities import chol_inv, finite_diff, log_det, my_trapz, ut_approx
from src.var_bayes.gaussian_moments import GaussianMoments
from src.var_bayes.simulation import Simulation, load

RULE = ("faults injected before a source line drawn at random among all the lines an operation executes (an exception, or "
        "an interrupt that no `except Exception` stops), and raised by user callbacks at a random call; afterwards the same "
        "objects, and others that share their parts, must answer like untouched ones and the caller's arrays must be as "
        "before. Non-trivial: the fault was raised; distinct by operation, input and place.")
ASSUMPTIONS = ["assignments of parameters and trajectories are only judged after they were repeated",
               "what arg_out holds between an interrupted evaluation and the next one is not judged"]
KEYS = ("m0", "s0", "mt", "st", "Efx", "Edf", "lamt", "psit")
EXC = (fault.Injected, fault.Interrupted, MemoryError, KeyboardInterrupt)


def warmup():
    G.warm_numba()


def place(r, n):
    """A line among n: anywhere, the first ones, the last ones."""
    k = int(r.integers(4))
    return int(r.integers(1, n + 1)) if k < 2 else (int(r.integers(1, min(n, 12) + 1)) if k == 2 else int(r.integers(max(1, n - 12), n + 1)))


def parts(c):
    out = [c.m0, c.S0, c.y, c.obs_t, c.mu0, c.tau0, c.model.sigma, c.model.theta, c.model.inverse_sigma, c.model.time_window,
           c.model.sample_path, c.like.values, c.like.times, c.like.noise, c.like.operator, c.kl.mu0, c.kl.tau0]
    return [np.array(v) for v in out]


def fresh(c, x):
    v = c.build()
    F = v.free_energy(x)
    return F, np.array(v.gradient(x)), {k: np.array(v.arg_out[k]) for k in KEYS}


def hit(T, r, fn, n=None, k=None):
    """Interrupt fn() at a random (or the given) line; False if the fault was never raised."""
    if n is None and k is None:
        n, _ = fault.lines(fn)
    if k is None and n < 1:
        return False
    k, exc = place(r, n) if k is None else k, EXC[int(r.integers(len(EXC)))]
    where, e = fault.interrupt(fn, k, exc)
    stopped = isinstance(e, exc)
    del e
    gc.collect()  # an interrupt between the last statement of a `with` block and its exit is nobody's fault
    if where is None:
        return False
    T.event("faults injected")
    T.event("faults that stopped the operation" if stopped else "faults the operation survived")
    T.note(where=where, exc=exc.__name__)
    return True


def evaluation(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    method = G.METHODS[(i // 4) % 4]
    c = G.Case(r, name, method, n=int(G.pick(r, 2, 5, 12)) if name != "L96" else 2, operator=name != "L96" and bool(r.random() < .4))
    pts = [c.random_x(r) for _ in range(3)]
    truth = [fresh(c, x) for x in pts]
    if not all(np.isfinite(t[0]) for t in truth):
        return
    before = parts(c)
    a, b = c.vgp, c.build()
    a.free_energy(pts[0])
    # Another problem of the same shape: whatever is remembered between calls then belongs to that one.
    decoy = G.Case(r, name, method, n=c.n, dt=c.dt, obs=c.idx, operator=c.H.shape[0] != c.d)
    xd = decoy.random_x(r)
    T.note(model=name, method=method, n=c.n)
    nF, _ = fault.lines(lambda: c.build().free_energy(pts[1]))
    nG, _ = fault.lines(lambda: c.build().gradient(pts[1], eval_fun=True))
    for rep in range(4):
        a.free_energy(pts[0])
        held = [(v, np.array(v)) for v in (a.arg_out[k] for k in KEYS)]
        x = pts[1].copy()
        op = (rep + i) % 3
        if r.random() < .6:
            decoy.vgp.free_energy(xd)
            decoy.vgp.gradient(xd)
        if op == 0:
            ok = hit(T, r, lambda: a.free_energy(x), nF)
        elif op == 1:
            ok = hit(T, r, lambda: a.gradient(x, eval_fun=True), nG)
        else:  # the gradient itself changes nothing: everything still belongs to the first point
            ok = hit(T, r, lambda: a.gradient(pts[0]), nG - nF)
            T.close("an interrupted gradient can be asked again", a.gradient(pts[0]), truth[0][1], rtol=1e-11)
            for k in KEYS:
                T.close("an interrupted gradient leaves the reported state", np.asarray(a.arg_out[k], dtype=float), truth[0][2][k], rtol=1e-11, detail=k)
        if not ok:
            continue
        T.check("point untouched", np.array_equal(x, pts[1]))
        T.check("parts of the problem untouched", all(np.array_equal(p, q) for p, q in zip(parts(c), before)), op)
        T.check("results handed out stay as they were", all(np.array_equal(v, w) for v, w in held))
        k = int(r.integers(3))
        if r.random() < .5:
            T.close("gradient after a fault", a.gradient(pts[k], eval_fun=True), truth[k][1], rtol=1e-11)
        else:
            T.close("free energy after a fault", a.free_energy(pts[k]), truth[k][0], rtol=1e-11)
            T.close("gradient after a fault", a.gradient(pts[k]), truth[k][1], rtol=1e-11)
        for q in KEYS:
            T.close("reported state after a fault", np.asarray(a.arg_out[q], dtype=float), truth[k][2][q], rtol=1e-11, detail=q)
        T.close("a problem that shares the parts", b.free_energy(pts[k]), truth[k][0], rtol=1e-11)
        T.case(name, method, pts[0], op, T.info.get("where"))


SLICES = 4


def sweep(T, r, i):
    """A fault before every distinct source line that an evaluation executes, after a use of the same code for another problem."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    part = (i // 4) % SLICES
    op = (i // (4 * SLICES)) % 3
    method = G.METHODS[int(r.integers(4))]
    c = G.Case(r, name, method, n=3 if name != "L96" else 2, obs=[1], operator=name != "L96" and op < 2 and bool(r.random() < .5))
    decoy = G.Case(r, name, method, n=c.n, dt=c.dt, obs=[1], operator=c.H.shape[0] != c.d)
    x, x0 = c.random_x(r), c.random_x(r)
    xd = decoy.random_x(r)
    truth = fresh(c, x)
    if not np.isfinite(truth[0]) or not np.isfinite(fresh(c, x0)[0]):
        return
    before = parts(c)
    a, b = c.vgp, c.build()
    want = c.build().initialization() if op == 2 else None

    def run():
        if op == 0:
            a.free_energy(x)
        elif op == 1:
            a.gradient(x, eval_fun=True)
        else:
            a.initialization()

    def others():
        decoy.vgp.free_energy(xd)
        decoy.vgp.gradient(xd)
        if op == 2:
            decoy.vgp.initialization()
    run()
    others()
    ks = fault.places(r, run)
    T.event("distinct lines of an operation", len(ks))
    for k in ks[part::SLICES]:
        a.free_energy(x0)
        others()
        if not hit(T, r, run, k=k):
            continue
        T.check("parts of the problem untouched", all(np.array_equal(p, q) for p, q in zip(parts(c), before)), op)
        v = b if r.random() < .5 else a
        if op == 2:
            T.close("initialisation after a fault", v.initialization(), want, rtol=1e-11)
        T.close("free energy after a fault", v.free_energy(x), truth[0], rtol=1e-11)
        T.close("gradient after a fault", v.gradient(x), truth[1], rtol=1e-11)
        for q in KEYS:
            T.close("reported state after a fault", np.asarray(v.arg_out[q], dtype=float), truth[2][q], rtol=1e-11, detail=q)
        T.event("lines swept")
    T.case(name, method, op, part, x)


def initial(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    c = G.Case(r, name, "Euler", n=20 if name != "L96" else 6)
    want = c.build().initialization()
    before = parts(c)
    for _ in range(4):
        if hit(T, r, c.vgp.initialization):
            T.check("parts of the problem untouched", all(np.array_equal(p, q) for p, q in zip(parts(c), before)))
            T.close("initialisation after a fault", c.vgp.initialization(), want, rtol=1e-11)
            T.case(name, c.y, T.info.get("where"))


class Boom(Exception):
    pass


def optimiser(T, r, i):
    d = int(r.integers(2, 9))
    B, p = G.spd(r, d, .2, 20), r.standard_normal(d)
    nc = [0, None]

    def call(v):
        nc[0] += 1
        if nc[0] == nc[1]:
            raise Boom() if i % 2 else KeyboardInterrupt()
        return v

    def f(x, *a):
        return call(float(.5 * (x - p) @ B @ (x - p) + np.sum(np.cos(x))))

    def g(x, *a, eval_fun=False):
        return call(B @ (x - p) - np.sin(x))
    opt = {"max_it": int(G.pick(r, 3, 20, 60)), "x_tol": 1e-9, "f_tol": 1e-12}
    x0 = r.standard_normal(d) * 3
    with G.silent():
        xw, fw = SCG(f, g, dict(opt))(x0.copy())
    total = nc[0]
    S = SCG(f, g, opt)
    for rep in range(4):
        x1 = x0.copy() if rep % 2 else r.standard_normal(d)
        keep = x1.copy()
        if rep % 2:
            nc[0], nc[1] = 0, int(r.integers(1, total + 1))
            try:
                with G.silent():
                    S(x1)
                raised = False
            except (Boom, KeyboardInterrupt):
                raised = True
            T.check("errors of the callbacks reach the caller", raised or nc[0] < nc[1])
            T.event("faults injected", int(raised))
            nc[1] = None
        else:
            nc[1] = None
            with G.silent():
                hit(T, r, lambda: S(x1))
        T.check("start point untouched", np.array_equal(x1, keep))
        with G.silent():
            x, fx = S(x0.copy())
        T.close("optimised point after a fault", x, xw, rtol=1e-10)
        T.close("optimised value after a fault", float(np.ravel(fx)[0]), float(np.ravel(fw)[0]), rtol=1e-10, atol=1e-300)
        T.check("options untouched", set(opt) == {"max_it", "x_tol", "f_tol"})
        # the optimiser's own gradient test after a fault
        T.case(B, x0, rep, T.info.get("where"), nc[0])


def processes(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = G.dims(name)
    sig = float(G.logu(r, .3, 3)) if d == 1 else G.spd(r, d, .5, 4)
    th = G.rand_theta(r, name) if name != "L96" else 8.0
    M = G.model(name, sig, th, 7)
    t0, dt, n = float(G.pick(r, 0., 2.)), .01, int(r.integers(120, 160))
    M.make_trajectory(t0, t0 + (n - 1) * dt, dt)
    path, win = M.sample_path, M.time_window
    kp, kw = path.copy(), win.copy()
    Rn = .3 if d == 1 else .3 * np.eye(d)
    dens = int(G.pick(r, 10, 50, 100))
    mask = None if d == 1 or i % 3 else np.arange(d) < 2
    state = copy.deepcopy(M.rng.bit_generator.state)
    want = M.collect_obs(dens, Rn if mask is None else .3, mask)
    for rep in range(5):
        M.rng.bit_generator.state = copy.deepcopy(state)
        if hit(T, r, lambda: M.collect_obs(dens, Rn if mask is None else .3, mask)):
            T.check("the path is untouched by an interrupted observation", M.sample_path is path and np.array_equal(path, kp) and
                    np.array_equal(M.time_window, kw))
            M.rng.bit_generator.state = copy.deepcopy(state)
            got = M.collect_obs(dens, Rn if mask is None else .3, mask)
            T.check("observations after a fault", all(np.array_equal(a, b) for a, b in zip(got, want)))
            T.case(name, kp, T.info.get("where"))
    # a new trajectory, interrupted
    n2 = int(r.integers(5, 40))
    state = copy.deepcopy(M.rng.bit_generator.state)
    M.make_trajectory(0., (n2 - 1) * dt, dt)
    w2 = M.sample_path.copy()
    lines_ = None
    for rep in range(3):
        M.rng.bit_generator.state = copy.deepcopy(state)
        if lines_ is None:
            lines_, _ = fault.lines(lambda: M.make_trajectory(0., (n2 - 1) * dt, dt))
        old = M.sample_path
        ko = old.copy()
        if not hit(T, r, lambda: M.make_trajectory(0., (n2 - 1) * dt, dt), lines_):
            continue
        T.check("paths handed out stay as they were", np.array_equal(old, ko))
        T.check("parameters untouched by an interrupted trajectory", np.array_equal(np.asarray(M.theta), np.asarray(th)) and
                np.array_equal(np.asarray(M.sigma), np.asarray(sig)))
        M.rng.bit_generator.state = copy.deepcopy(state)
        M.make_trajectory(0., (n2 - 1) * dt, dt)
        T.close("trajectory after a fault", M.sample_path, w2, rtol=1e-12)
        T.check("time grid after a fault", M.time_window.size == n2)
        T.case(name, w2, T.info.get("where"))
    # ... while the new path is still being computed: the model keeps its path and the window that belongs to it.
    for rep in range(3):
        state = copy.deepcopy(M.rng.bit_generator.state)
        n3 = int(G.pick(r, n + 30, 60, 45))
        new = lambda: M.make_trajectory(t0 + 1., t0 + 1. + (n3 - 1) * dt / 2, dt / 2)
        total, _ = fault.lines(new)
        M.make_trajectory(t0, t0 + (n - 1) * dt, dt)
        kp, kw = M.sample_path.copy(), M.time_window.copy()
        M.rng.bit_generator.state = copy.deepcopy(state)
        want = M.collect_obs(dens, .3 if d == 1 else .3 * np.eye(d))
        if total < 90 or not hit(T, r, new, k=int(r.integers(total // 5, total - total // 5))):
            continue
        T.check("an unfinished trajectory leaves the path and its window", np.array_equal(M.sample_path, kp) and np.array_equal(M.time_window, kw),
                {"model": name, "path": M.sample_path.shape, "window": M.time_window.shape, "before": kw.size})
        M.rng.bit_generator.state = copy.deepcopy(state)
        T.check("observations after an unfinished trajectory", all(np.array_equal(a, b) for a, b in zip(
            M.collect_obs(dens, .3 if d == 1 else .3 * np.eye(d)), want)))
        T.case(name, kp, T.info.get("where"))


def routines(T, r, i):
    d, n = int(r.integers(2, 7)), int(r.integers(3, 30))
    X, S = r.standard_normal(d), G.spd(r, d)
    fx, obs = r.standard_normal((n, d)), G.obs_pattern(r, n)
    m, s = r.standard_normal(n), G.logu(r, .1, 2, n)
    kl = G.PriorKL0(r.standard_normal(d), G.spd(r, d), False)
    like = G.GaussianLikelihood(r.standard_normal((len(obs), d)), obs, G.spd(r, d), r.standard_normal((d, d)), False)
    mt, st = r.standard_normal((n, d)), np.array([G.spd(r, d) for _ in range(n)])
    gm = GaussianMoments(m, s)
    A, b = np.array([2 * np.eye(d) + .1 * r.standard_normal((d, d)) for _ in range(n)]), r.standard_normal((n, d))
    fw = [(G.FwdOde(.01, q, False), G.BwdOde(.01, q, False)) for q in G.METHODS]
    args = dict(X=X, S=S, fx=fx, m=m, s=s, mt=mt, st=st, A=A, b=b)
    keep = {k: v.copy() for k, v in args.items()}
    count = [0, None]
    # A second set of the same shapes, to be used between the reference and the fault.
    X2, S2, fx2, m2, s2 = r.standard_normal(d), G.spd(r, d), r.standard_normal((n, d)), r.standard_normal(n), G.logu(r, .1, 2, n)
    gm2, kl2 = GaussianMoments(m2, s2), G.PriorKL0(r.standard_normal(d), G.spd(r, d), False)
    like2 = G.GaussianLikelihood(r.standard_normal((len(obs), d)), obs, G.spd(r, d), r.standard_normal((d, d)), False)

    def others():
        my_trapz(fx2, .1, obs), chol_inv(S2), log_det(S2), gm2(6), gm2.dm(5), gm2.ds(8), kl2(X2, S2), kl2.gradients(X2, S2, X2, S2)
        like2(mt, st), like2.gradients(mt, st), ut_approx(np.sin, X2, S2)

    def user(x):
        count[0] += 1
        if count[0] == count[1]:
            raise Boom()
        return np.sum(np.sin(x), axis=-1) if np.ndim(x) == 1 else np.sin(x)
    ops = [lambda: finite_diff(user, X), lambda: ut_approx(user, X, S), lambda: my_trapz(fx, .1, obs), lambda: chol_inv(S)[0],
           lambda: log_det(S), lambda: gm(6), lambda: gm.dm(5), lambda: gm.ds(8), lambda: kl(X, S), lambda: kl.gradients(X, S, X, S)[1],
           lambda: like(mt, st), lambda: like.gradients(mt, st)[2]]
    ops += [lambda q=q: q[0](A, b, X, S, np.eye(d))[1] for q in fw] + [lambda q=q: q[1](A, b, st, b, st)[1] for q in fw]
    for k in r.permutation(len(ops))[:10]:
        op = ops[int(k)]
        count[:] = [0, None]
        want = op()
        want = np.array(want[1] if isinstance(want, tuple) else want, dtype=float)
        calls = count[0]
        if r.random() < .6:
            others()
        if calls and r.random() < .5:
            count[:] = [0, int(r.integers(1, calls + 1))]
            T.raises("errors of the callbacks reach the caller", Boom, op)
            T.event("faults injected")
        else:
            count[:] = [0, None]
            hit(T, r, op)
        T.check("arguments untouched", all(np.array_equal(args[q], keep[q]) for q in keep), int(k))
        count[:] = [0, None]
        got = op()
        T.close("routine after a fault", np.array(got[1] if isinstance(got, tuple) else got, dtype=float), want, rtol=1e-12, detail=int(k))
        T.case(X, int(k), T.info.get("where"))


def simulations(T, r, i):
    p = sims.params(r, ("OU", "DW", "L63", "OU")[i % 4], ("Heun", "RK2", "RK4", "Euler")[(i // 4) % 4], n=int(r.integers(7, 12)))
    text = json.dumps(p, sort_keys=True)
    T.note(params=p)
    want = sims.simulate(p).output
    sim = Simulation("interrupted")

    def full():
        with G.silent():
            sim.setup(p, None)
            sim.run()
    n, _ = fault.lines(full)
    for rep in range(3):
        if not hit(T, r, full, n if rep else 60):
            continue
        T.check("parameters untouched", json.dumps(p, sort_keys=True) == text)
        full()
        for k in want:
            T.close("simulation after a fault", np.asarray(sim.output[k], dtype=float), np.asarray(want[k], dtype=float), rtol=1e-9, detail=k)
        T.case(text, T.info.get("where"))
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="vgmon_") as tmp:
        os.chdir(tmp)
        try:
            out = {k: np.array(v) for k, v in sim.output.items()}
            for rep in range(4):
                def save():
                    with G.silent():
                        sim.save()
                if not hit(T, r, save):
                    continue
                for k in out:
                    T.check("output untouched by an interrupted save", np.array_equal(np.ravel(sim.output[k]), np.ravel(out[k])), k)
                save()
                got = load("interrupted.h5")
                T.check("a save after an interrupted one is complete", set(got) == set(out) and
                        all(np.array_equal(np.ravel(got[k]), np.ravel(out[k])) for k in out), sorted(got))

                def read():
                    load("interrupted.h5")
                if hit(T, r, read):
                    got = load("interrupted.h5")
                    T.check("a file can be read after an interrupted load", all(np.array_equal(np.ravel(got[k]), np.ravel(out[k])) for k in out))
                    save()
                T.case(text, "save", T.info.get("where"))
        finally:
            os.chdir(cwd)


WORKLOADS = [
    Workload("evaluation", evaluation, 128, 4000, must=["gradient after a fault", "free energy after a fault",
                                                       "an interrupted gradient can be asked again", "faults that stopped the operation"]),
    Workload("sweep", sweep, 48, 960, must=["lines swept"], timeout=400),
    Workload("initial", initial, 32, 400, must=["initialisation after a fault"]),
    Workload("optimiser", optimiser, 64, 1200, must=["optimised point after a fault", "errors of the callbacks reach the caller"]),
    Workload("processes", processes, 32, 600, must=["observations after a fault", "trajectory after a fault",
                                                     "an unfinished trajectory leaves the path and its window"]),
    Workload("routines", routines, 64, 1200, must=["routine after a fault"]),
    Workload("simulations", simulations, 16, 200, must=["simulation after a fault", "a save after an interrupted one is complete"]),
]
