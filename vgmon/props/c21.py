"""C21: parameter validation, and models whose parameters stay consistent."""
import numpy as np

from .. import gens as G
from .. import refs
from ..core import Workload

from src.dynamics.lorenz_96 import Lorenz96

RULE = ("random histories of accepted and rejected assignments of noise and drift on every model, checked after each step "
        "against a shadow copy and a freshly built model; plus rejected constructions of models and ODE solvers. "
        "Non-trivial: at least one accepted and one rejected assignment; distinct by history.")
ASSUMPTIONS = ["NaN parameters and asymmetric noise matrices are outside the property (the code does not claim to detect them)"]
BAD = (ValueError, RuntimeError)


def warmup():
    G.warm_numba()


def good_sigma(r, d):
    if d == 1:
        return float(G.logu(r, 1e-6, 1e6))
    k = int(r.integers(4))
    if k == 0:
        return np.diag(G.logu(r, 1e-3, 1e3, d))
    if k == 1:
        return G.spd(r, d, .05, 20.)
    if k == 2:
        return np.eye(d) * float(G.logu(r, 1e-5, 1e5))
    a = r.standard_normal((d, d))
    return a @ a.T + .1 * np.eye(d)


def bad_sigma(r, d):
    if d == 1:
        return G.pick(r, 0.0, -1e-12, -3.0, float("-inf"), 0, -1, np.float64(-2.), -1e300)
    k = int(r.integers(7))
    if k == 0:
        return np.zeros((d, d))
    if k == 1:
        return -good_sigma(r, d)
    if k == 2:
        return G.pick(r, np.ones(d), np.eye(d - 1), np.ones((d, d + 1)), np.eye(d)[None], np.eye(d + 1))
    s = np.linalg.eigh(G.spd(r, d, .5, 3.))
    w = s[0].copy()
    w[int(r.integers(d))] = -float(G.logu(r, 1e-2, 10))
    if k == 3:  # two negative eigenvalues: positive determinant
        w[:2] = [-.5, -.3]
    if k == 4:  # indefinite with a positive diagonal
        a = np.eye(d)
        p, q = r.choice(d, 2, replace=False)
        a[p, q] = a[q, p] = float(r.uniform(1.2, 5))
        return a
    if k == 5:
        v = G.logu(r, .1, 3, d)
        v[int(r.integers(d))] = G.pick(r, 0.0, -1.0)
        return np.diag(v)
    a = (s[1] * w) @ s[1].T
    return .5 * (a + a.T)


def probe_args(r, name, d):
    n = 4
    if d == 1:
        return r.standard_normal(n), r.standard_normal(n), r.standard_normal(n), G.logu(r, .1, 1, n)
    S = np.array([G.spd(r, d, .3, 1.) for _ in range(n)])
    return 4 * np.array([np.eye(d)] * n) + .2 * r.standard_normal((n, d, d)), r.standard_normal((n, d)), r.standard_normal((n, d)), S


def consistent(T, r, M, name, d, sig, th, args, ops):
    s = np.reshape(np.asarray(M.sigma, dtype=float), (d, d))
    T.close("noise is what was accepted last", s, np.reshape(sig, (d, d)), rtol=1e-14, detail=ops)
    T.check("drift is what was accepted last", np.array_equal(np.asarray(M.theta), np.asarray(th)), ops)
    w = np.reshape(np.asarray(M.inverse_sigma, dtype=float), (d, d))
    e = np.linalg.eigvalsh(s)
    T.close("inverse noise belongs to the noise", w @ s, np.eye(d), atol=1e-10 * max(1., e[-1] / e[0]), detail=ops)
    T.close("inverse noise belongs to the noise", s @ w, np.eye(d), atol=1e-10 * max(1., e[-1] / e[0]), detail=ops)
    F = G.model(name, sig, th, 1, d)
    G.set_grid(F, 4, .01, 0., d)
    a, b = M.energy(*args, [1]), F.energy(*args, [1])
    T.close("energy is that of a fresh model with the same parameters", float(np.ravel(a[0])[0]), float(np.ravel(b[0])[0]), rtol=1e-9, detail=ops)
    T.close("energy gradient is that of a fresh model", a[2][0], b[2][0], rtol=1e-9, detail=ops)


def close_sigma(r, d, sig):
    """Accepted noise that differs little, or in one place only, from the current one."""
    eps = float(G.logu(r, 1e-8, .1)) * G.pick(r, -1, 1)
    if d == 1:
        return sig * (1 + eps)
    sig = np.array(sig, dtype=float)
    k = int(r.integers(5))
    if k == 0:
        return sig * (1 + eps)
    if k == 1:  # one variance
        p = int(r.integers(d))
        sig[p, p] *= 1 + abs(eps)
        return sig
    if k == 2:  # the same entries on other axes: equal trace, determinant and spectrum
        q = r.permutation(d)
        return sig[np.ix_(q, q)]
    if k == 3:  # the same diagonal, other correlations
        v = np.sqrt(np.diag(sig))
        c = G.spd(r, d, .3, 3.)
        c /= np.sqrt(np.outer(np.diag(c), np.diag(c)))
        return c * np.outer(v, v)
    return sig


def extremes(T, r, i):
    """Long histories over extreme magnitudes: the inverse belongs to the noise after every single assignment."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[name]
    M = G.model(name, good_sigma(r, d), G.rand_theta(r, name), 1, d)
    log = []
    for q in range(40 if d < 10 else 15):
        w = 300 if d == 1 else 140
        e = 10.0 ** float(G.pick(r, r.uniform(-3, 3), r.uniform(-80, 80), r.uniform(-w, w), w, -w))
        log.append(e)
        if d == 1:
            M.sigma = e
            T.close("inverse noise after extreme histories", float(M.inverse_sigma) * e, 1.0, rtol=1e-12, detail=log[-4:])
            T.check("noise after extreme histories", float(M.sigma) == e, log[-4:])
        else:
            B = G.spd(r, d, .2, 5.) if q % 2 else np.diag(G.logu(r, .1, 10, d))
            M.sigma = B * e
            T.close("inverse noise after extreme histories", np.asarray(M.inverse_sigma) * e, np.linalg.inv(B), rtol=1e-10, detail=log[-4:])
        if q % 5 == 4:
            T.raises("bad noise is rejected", BAD, lambda: setattr(M, "sigma", bad_sigma(r, d)))
            T.event("rejected assignments")
    if name == "OU":
        for q in range(20):
            e = float(10.0 ** r.uniform(-100, 100))
            M.theta = e
            T.check("drift after extreme histories", float(M.theta) == e)
    T.case(log)


def histories(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[name]
    sig, th = good_sigma(r, d), G.rand_theta(r, name)
    M = G.model(name, sig, th, 1, d)
    G.set_grid(M, 4, .01, 0., d)
    args = probe_args(r, name, d)
    ops = ["new"]
    T.note(model=name)
    consistent(T, r, M, name, d, sig, th, args, ops)
    for _ in range(16 if d < 10 else 6):
        k = int(r.integers(6))
        if k == 0 or k == 4:
            new = good_sigma(r, d) if k == 0 else close_sigma(r, d, sig)
            keep = np.array(new)
            M.sigma = new
            T.check("assigned value untouched", np.array_equal(new, keep))
            sig = np.array(keep) if d > 1 else new
            ops.append("sigma ok")
        elif k == 1:
            new = bad_sigma(r, d)
            ops.append(("sigma bad", np.asarray(new)))
            T.raises("bad noise is rejected", BAD, lambda: setattr(M, "sigma", new), ops[-1])
            T.event("rejected assignments")
        elif k == 5:
            th = th * (1 + float(G.logu(r, 1e-7, .1))) if np.ndim(th) == 0 else th * (1 + G.logu(r, 1e-7, .1) * np.eye(3)[int(r.integers(3))])
            M.theta = th
            ops.append("theta close")
        elif k == 2 or name != "OU":
            th = G.rand_theta(r, name)
            M.theta = th
            ops.append("theta ok")
        else:
            new = G.pick(r, 0.0, -1.0, -1e-9, 0, float("-inf"))
            T.raises("bad drift is rejected", BAD, lambda: setattr(M, "theta", new), new)
            ops.append(("theta bad", new))
            T.event("rejected assignments")
        consistent(T, r, M, name, d, sig, th, args, ops)
    T.case(ops, i)


def constructions(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[name]
    th = G.rand_theta(r, name)
    for _ in range(4):
        bad = bad_sigma(r, d)
        if d > 1 and np.shape(bad) == (d,):
            bad = G.pick(r, np.zeros(d), -np.ones(d), np.r_[-1., np.ones(d - 1)], np.ones(d - 1), np.ones(d + 1))
        T.raises("bad noise is rejected at construction", BAD, lambda: G.model(name, bad, th, 1, d), bad)
    if d > 1:
        for bad in (0.0, -2.0, np.ones((2, d, d))):
            T.raises("bad noise is rejected at construction", BAD, lambda: G.model(name, bad, th, 1, d), bad)
        # Scalars, vectors and matrices describe the same noise.
        v = G.logu(r, .1, 5, d)
        a, b = G.model(name, v, th, 1, d), G.model(name, np.diag(v), th, 1, d)
        T.close("vector noise is a diagonal matrix", a.sigma, b.sigma, rtol=1e-14)
        T.close("vector noise is a diagonal matrix (inverse)", a.inverse_sigma, np.diag(1 / v), rtol=1e-10)
        a, b = G.model(name, float(v[0]), th, 1, d), G.model(name, v[0] * np.eye(d), th, 1, d)
        T.close("scalar noise is a multiple of the identity", a.sigma, b.sigma, rtol=1e-14)
        T.close("scalar noise is a multiple of the identity (inverse)", a.inverse_sigma, np.eye(d) / v[0], rtol=1e-10)
        T.check("dimensions", not a.single_dim and np.shape(a.sigma) == (d, d))
    else:
        T.check("dimensions", G.model(name, .5, 1., 1).single_dim)
    if name == "OU":
        for bad in (0.0, -1.0, 0):
            T.raises("bad drift is rejected at construction", BAD, lambda: G.model("OU", .5, bad, 1))
    if name == "L96":
        for k in (-1, 0, 1, 4, 9):
            def call():
                with G.silent():
                    return Lorenz96(1.0, 8.0, 1, k)
            T.raises("too few dimensions are rejected", BAD, call, k)
        for k in (10, 11, 17, 40):
            M = G.model("L96", 2.0, 8.0, 1, k)
            M.make_trajectory(0., .02, .01)
            T.check("any dimension from ten on", np.shape(M.sample_path)[1] == k)
    T.case(name, i)


def solvers(T, r, i):
    sd = bool(i % 2)
    for cls in (G.FwdOde, G.BwdOde):
        for dt in (0.0, -0.01, -1, 0, float("-inf"), -1e-300):
            T.raises("bad time step is rejected", BAD, lambda: cls(dt, G.pick(r, *G.METHODS), sd), dt)
        for m in ("RK3", "", None, "rk", "euler2", "RK44", " heun", 2, "runge_kutta"):
            T.raises("unknown method is rejected", BAD, lambda: cls(.01, m, sd), m)
        for m in G.METHODS:  # names are accepted in any case, and name the same method
            word = "".join(c.upper() if r.random() < .5 else c.lower() for c in m)
            a, b = cls(.02, word, sd), cls(.02, m, sd)
            n, d = 5, 1 if sd else 2
            A = r.standard_normal((n, d, d))
            B = r.standard_normal((n, d))
            if sd:
                A, B = A.ravel(), B.ravel()
            if cls is G.FwdOde:
                args = (A, B, .3, .5, .7) if sd else (A, B, np.ones(2), np.eye(2), np.diag([.5, .7]))
                ref = refs.fwd_ode(m, .02, A.reshape(n, d, d), B.reshape(n, d), np.reshape(args[2], d), np.reshape(args[3], (d, d)),
                                   np.reshape(args[4], (d, d)))
                T.close("the named method is used", a(*args)[1].reshape(n, d, d), ref[1], rtol=1e-10, detail=word)
            else:
                args = (A, B, A + 1, B * .5, A * .5)
            for p, q in zip(a(*args), b(*args)):
                T.close("method names ignore case", p, q, rtol=1e-14, detail=word)
    T.case(i)


WORKLOADS = [
    Workload("histories", histories, 96, 4000, must=["bad noise is rejected", "inverse noise belongs to the noise", "bad drift is rejected"]),
    Workload("extremes", extremes, 40, 1000, must=["inverse noise after extreme histories"]),
    Workload("constructions", constructions, 48, 1000, must=["bad noise is rejected at construction", "too few dimensions are rejected"]),
    Workload("solvers", solvers, 16, 400, must=["unknown method is rejected", "method names ignore case"]),
]
