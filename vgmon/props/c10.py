"""C10: evaluations of the variational problem do not depend on what was evaluated before."""
import numpy as np

from .. import gens as G
from ..core import Workload

from src.numerics.optim_scg import SCG

RULE = ("random histories of free_energy(x), gradient(x) (after free_energy at x), gradient(x, eval_fun=True) and reading "
        "arg_out over a pool of points, on one or two problems sharing their parts; every answer is compared with the "
        "answer of a fresh problem. Non-trivial: at least one revisit after a different point; distinct by history.")

KEYS = ("m0", "s0", "mt", "st", "Efx", "Edf", "lamt", "psit")


def warmup():
    G.warm_numba()


def fresh(c, x):
    v = c.build()
    F = v.free_energy(x)
    return F, np.array(v.gradient(x)), {k: np.array(v.arg_out[k]) for k in KEYS}


def history(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    method = G.METHODS[(i // 4) % 4]
    c = G.Case(r, name, method, n=int(G.pick(r, 2, 5, 20) if r.random() < .9 else 150) if name != "L96" else 3, operator=name != "L96" and bool(r.random() < .4))
    pts = [c.random_x(r) for _ in range(4)]
    if r.random() < .6:  # points next to each other, as the optimiser's probes are
        eps = float(G.pick(r, 1e-5, 1e-6, 1e-8))
        pts[1] = pts[0] * (1 + eps)
        pts[3] = pts[2].copy()
        k = r.integers(pts[3].size, size=max(1, pts[3].size // 50))
        pts[3][k] += float(G.pick(r, 1e-3, 1e-5, 1e-7))
    truth = [fresh(c, x) for x in pts]
    a, b = c.vgp, c.build()  # two problems sharing model, solvers, likelihood and prior
    cur = {0: None, 1: None}
    ops, held = [], []
    T.note(model=name, method=method, n=c.n)
    for _ in range(24):
        w, k, op = int(r.integers(2)), int(r.integers(4)), int(r.integers(5))
        v = (a, b)[w]
        x, (F, g, out) = pts[k], truth[k]
        if not np.isfinite(F):
            continue
        keep = x.copy()
        if op in (0, 1):
            got = v.free_energy(x)
            T.check("free energy is a float", isinstance(got, float), type(got).__name__)
            T.close("free energy independent of history", got, F, rtol=1e-11, detail={"ops": ops})
            cur[w] = k
        elif op == 2:
            T.close("gradient(eval_fun) independent of history", v.gradient(x, eval_fun=True), g, rtol=1e-11, detail={"ops": ops})
            cur[w] = k
        elif op == 3 and cur[w] is not None:
            k = cur[w]
            keep, x = pts[k].copy(), pts[k]
            got = v.gradient(x)
            T.close("gradient of the current point independent of history", got, truth[k][1], rtol=1e-11, detail={"ops": ops})
            held.append((got, got.copy()))
        elif op == 4 and cur[w] is not None:
            for q in KEYS:
                T.close("arg_out belongs to the point evaluated last", np.asarray(v.arg_out[q], dtype=float),
                        truth[cur[w]][2][q], rtol=1e-11, detail={"key": q, "ops": ops})
            held.append((v.arg_out["mt"], np.array(v.arg_out["mt"])))
            held.append((v.arg_out["psit"], np.array(v.arg_out["psit"])))
        T.check("point untouched", np.array_equal(keep, x))
        ops.append((w, op, k))
        T.event("history steps")
    for got, copy in held:
        T.check("results handed out stay as they were", np.array_equal(got, copy))
    T.case(tuple(ops), pts[0])


def extremes(T, r, i):
    """Points whose energy overflows or is not a number are points like any other: they are reported as evaluated, and
    leave nothing behind."""
    name = ("DW", "OU", "L63", "DW", "OU", "L63", "L96")[i % 7]
    c = G.Case(r, name, G.METHODS[(i // 7) % 4], n=int(G.pick(r, 2, 5, 20)) if name != "L96" else 3)
    x, bad = c.random_x(r), c.random_x(r)
    k = int(r.integers(5))
    if k == 0:
        bad = bad * float(G.pick(r, 1e30, 1e100, 1e180, 1e300))
    else:
        j = r.integers(bad.size, size=int(r.integers(1, 4))) if r.random() < .7 else np.arange(bad.size)
        bad[j] = (np.nan, np.inf, -np.inf, float(G.pick(r, 1e160, -1e300)))[k - 1]

    def attempt(v, p):
        try:
            return "answer", v.free_energy(p)
        except Exception as e:  # (L96 factorises the covariances)
            return "raised", type(e).__name__
    same = lambda a, b: np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol=1e-9, atol=0, equal_nan=True)
    T.note(model=name, method=c.method, n=c.n, kind=k)
    with np.errstate(all="ignore"):
        F, g, out = fresh(c, x)
        w = c.build()
        want = attempt(w, bad)
        v = c.build()
        v.free_energy(x)
        if r.random() < .5:
            v.gradient(x)
        got = attempt(v, bad)
        T.check("extreme points are answered the same way on old and fresh problems",
                got[0] == want[0] and (same(got[1], want[1]) if got[0] == "answer" else True), (got, want))
        if got[0] == "answer":
            if not np.isfinite(want[1]):
                T.event("evaluations that are not finite")
            for q in KEYS[:6]:
                T.check("arg_out belongs to the extreme point evaluated last", same(v.arg_out[q], w.arg_out[q]), {"key": q})
            try:
                gw = w.gradient(bad)
            except Exception:
                gw = None
            if gw is not None:
                T.check("gradient belongs to the extreme point evaluated last", same(v.gradient(bad), gw))
                T.check("multipliers belong to the extreme point", all(same(v.arg_out[q], w.arg_out[q]) for q in KEYS))
        if np.isfinite(F):
            T.close("free energy after an extreme point", v.free_energy(x), F, rtol=1e-11)
            T.close("gradient after an extreme point", v.gradient(x), g, rtol=1e-11)
            for q in KEYS:
                T.close("arg_out after an extreme point", np.asarray(v.arg_out[q], dtype=float), out[q], rtol=1e-11, detail={"key": q})
    T.case(x, bad)


def retarget(T, r, i):
    """Changing drift or noise through the model's setters takes effect at once and can be taken back."""
    name = ("DW", "OU", "L63")[i % 3]
    c = G.Case(r, name, G.METHODS[(i // 3) % 4], n=8)
    x = c.random_x(r)
    F0, g0, _ = fresh(c, x)
    if not np.isfinite(F0):
        return
    v = c.vgp
    v.free_energy(x)
    th0, s0 = c.model.theta, c.model.sigma
    old = (c.theta, c.Sig)
    c.theta = G.rand_theta(r, name, wild=True)
    c.Sig = np.diag(G.logu(r, .3, 5, c.d))
    c.model.theta, c.model.sigma = c.theta, (float(c.Sig[0, 0]) if c.d == 1 else c.Sig)
    ref = c.ref(x)
    if i % 2:
        T.close("gradient follows the model's parameters", v.gradient(x, eval_fun=True), ref["g"], rtol=1e-8)
    F1 = v.free_energy(x)
    T.close("energy follows the model's parameters", F1, ref["F"], rtol=1e-9, scale=ref["mag"])
    T.close("gradient follows the model's parameters", v.gradient(x), ref["g"], rtol=1e-8)
    c.model.theta, c.model.sigma = th0, s0
    c.theta, c.Sig = old
    T.close("restoring the parameters restores the energy", v.free_energy(x), F0, rtol=1e-11)
    T.close("restoring the parameters restores the gradient", v.gradient(x), g0, rtol=1e-10)
    # A model that lived on other windows before is like a new one.
    M = c.model
    tk, path = np.array(M.time_window), np.array(M.sample_path)
    o = c.vgp.arg_out
    A, b = (x[:c.n], x[c.n:]) if c.single else c.unpack(x)
    mt, st = np.array(o["mt"]), np.array(o["st"])
    E0 = M.energy(A, b, mt, st, c.obs_t)
    q = float(G.pick(r, .5, 2., 4.))
    if r.random() < .5:
        M.time_window = tk[0] + q * (tk - tk[0])
    else:
        with np.errstate(all="ignore"):
            M.make_trajectory(0., q * c.dt * (c.n - 1), q * c.dt)
        M.time_window = np.arange(c.n) * q * c.dt
    T.close("time step of the new window", M.time_step, q * c.dt, rtol=1e-9)
    E1 = M.energy(A, b, mt, st, c.obs_t)
    T.close("energy follows the window", E1[0], q * E0[0], rtol=1e-9)
    for j in range(2):
        T.close("gradients follow the window", E1[2][j], np.asarray(E0[2][j]), rtol=1e-9, detail={"part": j})
    for j in range(2, 4):
        T.close("parameter gradients follow the window", E1[2][j], q * np.asarray(E0[2][j]), rtol=1e-9, detail={"part": j})
    M.time_window, M.sample_path = tk, path
    T.close("restoring the window restores the energy", v.free_energy(x), F0, rtol=1e-11)
    T.case(x)


def protocol(T, r, i):
    """Driven by the optimiser, every gradient belongs to the point it is used for."""
    name = ("DW", "OU", "L63")[i % 3]
    c = G.Case(r, name, G.METHODS[(i // 3) % 4], n=12, dt=.01)
    x0 = c.vgp.initialization() if len(c.idx) > 1 else c.random_x(r)
    ref = c.build()
    n = [0]

    def f(x):
        v = c.vgp.free_energy(x)
        if n[0] < 60:
            T.close("energy seen by the optimiser", v, ref.free_energy(x), rtol=1e-11)
        return v

    def g(x, eval_fun=False):
        v = c.vgp.gradient(x, eval_fun)
        n[0] += 1
        if n[0] < 60:
            T.close("gradient seen by the optimiser belongs to its point", v, ref.gradient(x, eval_fun=True), rtol=1e-10)
        return v
    with G.silent():
        x, fx = SCG(f, g, {"max_it": 40})(x0.copy())
    F = ref.free_energy(x)
    T.close("optimised value belongs to the optimised point", float(np.ravel(fx)[0]), F, rtol=1e-11)
    T.check("optimisation does not increase the free energy", F <= ref.free_energy(x0) + 1e-12 * abs(F))
    # The optimiser's own gradient test must not depend on how it is asked.
    T.event("optimiser calls watched", n[0])
    T.case(x)


WORKLOADS = [
    Workload("history", history, 128, 4000, must=["gradient of the current point independent of history",
                                                 "arg_out belongs to the point evaluated last"]),
    Workload("extremes", extremes, 84, 2100, must=["arg_out belongs to the extreme point evaluated last"]),
    Workload("retarget", retarget, 48, 1200, must=["energy follows the model's parameters"]),
    Workload("protocol", protocol, 24, 480, must=["gradient seen by the optimiser belongs to its point"]),
]
