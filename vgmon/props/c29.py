"""C29: for the linear process, inference gives the exact smoother."""
import numpy as np

from .. import gens as G
from .. import sims
from ..core import Workload
from .c22 import Problem, SCG, resolved

RULE = ("random OU inference problems; reported means, variances, expectations and multipliers at the parameters of the exact "
        "posterior process, at the end of an optimisation from the code's own initialisation, and in the output of whole "
        "simulations are compared with the smoothing distribution computed in closed form (Gaussian-process regression). "
        "Non-trivial: at least one observation; distinct by problem.")
ASSUMPTIONS = ["up to the error of the time grid, measured by halving the step",
               "explicit Euler lets the optimiser leave the region where the grid resolves the process: optimised results are "
               "judged for Heun, RK2 and RK4"]


def smoother(t, T, y, th, sg, h, R, m0, s0):
    """Mean and variance of x(t) given y, x(0) ~ N(m0, s0) kept fixed."""
    k = lambda a, b: sg / (2 * th) * (np.exp(-th * np.abs(a[:, None] - b)) - np.exp(-th * (a[:, None] + b)))
    C = h * h * k(T, T) + R * np.eye(len(T))
    K = h * k(t, T)
    W = np.linalg.solve(C, K.T).T
    al = np.exp(-th * t) - W @ (h * np.exp(-th * T))
    return al * m0 + W @ y, np.diag(k(t, t)) - np.einsum("ij,ij->i", W, K) + al ** 2 * s0


def of(P, t):
    return smoother(t, P.slots / 20. * P.tf, P.y, P.theta, P.sigma, P.h, P.R, P.m0, P.s0)


def scalars(v):
    return {q: np.array(v.arg_out[q], dtype=float).ravel() for q in ("mt", "st", "Efx", "Edf", "lamt", "psit")}


def exact(T, r, i):
    P = Problem(r, "OU", G.METHODS[i % 4])
    N = int(G.pick(r, 200, 400))
    got = []
    for n in (N, 2 * N):
        v, dt = P.build(n)
        x = P.best_ou(n)
        v.free_energy(x)
        o = scalars(v)
        o["A"], o["b"] = x[:n + 1], x[n + 1:]
        g = v.gradient(x) / dt
        o["gA"], o["gb"] = g[:n + 1], g[n + 1:]
        got.append(o)
    c, f = got[0], {q: w[::2] for q, w in got[1].items()}
    t = np.arange(N + 1) * (P.tf / N)
    m, S = of(P, t)
    T.note(method=P.method, theta=P.theta, sigma=P.sigma, obs=P.slots)
    sd = np.sqrt(S.max())

    def near(what, key, want, scale, keep=None):
        a, b, w = (c[key], f[key], want) if keep is None else (c[key][keep], f[key][keep], want[keep])
        err = np.abs(a - b).max()
        tol = .8 * err + 5e-3 * scale
        T.check(what, np.abs(b - w).max() <= 1.6 * err + 5e-3 * scale, {"err": float(np.abs(b - w).max()), "halved": float(err), "scale": float(scale)})
        T.check(what + " (extrapolated)", np.abs(2 * b - a - w).max() <= tol, {"err": float(np.abs(2 * b - a - w).max()), "halved": float(err)})

    near("means are those of the smoother", "mt", m, np.abs(m).max() + sd)
    near("variances are those of the smoother", "st", S, S.max())
    near("mean drift", "Efx", -P.theta * m, P.theta * (np.abs(m).max() + sd))
    T.close("mean Jacobian", c["Edf"], np.full(N + 1, -P.theta), rtol=1e-12)
    # At the optimum the multipliers are the backward information: psi = p / 2, lam = p m - q, with A = theta + sigma p, b = sigma q.
    # Observation times carry a jump and are left out.
    keep = np.ones(N + 1, dtype=bool)
    keep[P.slots * N // 20] = False
    p, q = (c["A"] - P.theta) / P.sigma, c["b"] / P.sigma
    jump = max(np.abs(p).max(), 1e-3)
    near("covariance multipliers are the backward information", "psit", .5 * p, .5 * jump, keep)
    lam = p * m - q
    near("mean multipliers are the backward information", "lamt", lam, np.abs(p * m).max() + np.abs(q).max() + 1e-3, keep)
    T.event("exact posteriors compared")
    T.case(P.y, P.theta, P.method)


def one_optimised(T, r, i):
    """From the code's own initialisation: (reached, means fine, variances fine, details) or None."""
    P = Problem(r, "OU", ("heun", "rk2", "rk4")[i % 3])
    P.sigma = float(G.logu(r, .3, 2))
    P.R = float(G.logu(r, .1, .8))
    P.h = 1.0
    N = 100
    v, dt = P.build(N)
    xb = P.best_ou(N)
    Fb = v.free_energy(xb)
    b = scalars(v)
    m, S = of(P, v.model.time_window)
    Se = np.maximum(S, 2e-2 * S.max())
    em = np.abs(b["mt"] - m).max()
    es = np.abs(b["st"] / Se - S / Se).max()
    with G.silent():
        x, fx = SCG(v.free_energy, v.gradient, {"max_it": 500, "x_tol": 1e-6, "f_tol": 1e-8})(v.initialization())
    F = v.free_energy(x)
    o = scalars(v)
    if not resolved(v, x) or not resolved(v, xb) or np.abs(xb[:N + 1]).max() * dt > .12:
        T.event("optimiser left the resolved region")
        return None
    T.event("optimisations compared")
    sc = abs(Fb) + 1
    vf, _ = P.build(2 * N)
    grid = abs(vf.free_energy(P.best_ou(2 * N)) - Fb)
    zm, zs = np.abs((o["mt"] - m) / np.sqrt(Se)).max(), np.abs((o["st"] - S) / Se).max()
    return (F <= Fb + 1e-2 * sc + 2 * grid, zm <= .2 + 4 * em / np.sqrt(Se.min()), zs <= .3 + 4 * es,
            {"method": P.method, "F": F, "best": Fb, "mean error": float(zm), "variance error": float(zs)})


def one_simulated(T, r, i):
    """The output of a whole simulation of the linear process."""
    long = i // 8 % 2
    p = sims.params(r, "OU", ("heun", "rk2", "rk4")[i % 3], n=int(r.integers(250, 401)) if long else int(r.integers(60, 101)), dt=.01)
    p["Observations"]["density"] = int(G.pick(r, 4, 8, 12))
    p["Noise"]["obs"] = float(G.logu(r, .1, .6))
    p["Noise"]["sys"] = float(G.logu(r, .3, 1.5))
    sim = sims.simulate(p)
    o = {q: np.asarray(sim.output[q], dtype=float).ravel() for q in sims.OUT_KEYS}
    c = sims.problem(p, o["m0"].item(), o["s0"].item())
    t = np.arange(c.n) * c.dt
    m, S = smoother(t, t[c.idx], c.y.ravel(), c.theta, float(c.Sig[0, 0]), 1.0, float(c.R[0, 0]), c.m0, c.S0)
    if not (np.min(o["st"]) > 0 and np.abs(o["at"]).max() * c.dt < .15):
        T.event("optimiser left the resolved region")
        return None
    T.event("simulations compared")
    Se = np.maximum(S, 2e-2 * S.max())
    zm, zs = np.abs((o["mt"] - m) / np.sqrt(Se)).max(), np.abs((o["st"] - S) / Se).max()
    return True, zm <= .4, zs <= .5, {"mean error": float(zm), "variance error": float(zs), "params": p}


def batch(one, what, size):
    """An optimiser may rarely be slow: at most a quarter of a batch may miss."""
    def fn(T, r, i):
        res = [one(T, r, size * i + q) for q in range(size)]
        res = [q for q in res if q is not None]
        if len(res) < size // 2:
            return
        allowed = max(2, size // 4)
        for k, name in enumerate(("%s free energies reach the evidence", "%s means are those of the smoother", "%s variances are those of the smoother")):
            bad = [q[3] for q in res if not q[k]]
            T.event((name + ": missed") % what, len(bad))
            T.check(name % what, len(bad) <= allowed, bad[:3])
        T.case(i, [q[3] for q in res])
    return fn


WORKLOADS = [
    Workload("exact", exact, 320, 8000, must=["means are those of the smoother (extrapolated)"]),
    Workload("optimised", batch(one_optimised, "optimised", 8), 24, 480, must=["optimisations compared"], timeout=400),
    Workload("simulated", batch(one_simulated, "simulated", 8), 16, 240, must=["simulations compared"], timeout=400),
]
