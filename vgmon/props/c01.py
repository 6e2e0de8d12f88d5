"""C01: the gradient is the derivative of the free energy."""
import numpy as np

from .. import gens as G
from ..core import Workload

RULE = ("assembled: random model (DW, OU, L63), integrator, grid, observation layout, operator, noise and rough/smooth "
        "variational functions; directional: smooth functions on one window at dt, dt/2, dt/4, dt/8, random direction; "
        "componentwise: single-coordinate finite differences. A case is non-trivial when the derivative is finite "
        "and not zero; distinct by its variational parameters.")
ASSUMPTIONS = ["L96 is not covered: its gradient is a sampled (unscented) estimate by design, see C03",
               "the backward sweep discretises the continuous adjoint, so agreement with the discrete free energy is "
               "to first order in dt; the directional monitor extrapolates dt -> 0"]


def combo(i, names=("DW", "OU", "L63")):
    return names[i % len(names)], G.METHODS[(i // len(names)) % 4]


def assembled(T, r, i):
    name, method = combo(i)
    n = G.pick(r, 2, 3, 4, 9, 33, 70) if name == "L63" else G.pick(r, 2, 3, 7, 33, 128, 401)
    obs = G.repeated(r, G.obs_pattern(r, n)) if r.random() < .4 else None
    c = G.Case(r, name, method, n=n, obs=obs, operator=bool(r.random() < .5), noise_full=bool(r.random() < .5))
    x = c.random_x(r, scale=float(G.logu(r, .1, 3)))
    T.note(model=name, method=method, n=c.n, dt=c.dt, obs=c.idx[:10], theta=c.theta, sigma=c.sigma_arg)
    ref = c.ref(x)
    if not np.isfinite(ref["F"]) or ref["mag"] > 1e8:
        return
    F = c.vgp.free_energy(x)
    g = c.vgp.gradient(x)
    T.event("gradient components compared", g.size)
    T.close("free energy equals its definition", F, ref["F"], rtol=1e-9, scale=ref["mag"])
    k = c.n * c.d * c.d
    T.close("gradient wrt A(t) matches the adjoint assembly", g[:k], ref["g"][:k], rtol=1e-8)
    T.close("gradient wrt b(t) matches the adjoint assembly", g[k:], ref["g"][k:], rtol=1e-8)
    g2 = c.vgp.gradient(x, eval_fun=True)
    T.close("gradient(eval_fun=True) agrees", g2, g, rtol=1e-12)
    T.case(x)


def long_window(T, r, i):
    """Windows as long as those of the shipped parameter files, and longer."""
    name, method = combo(i)
    c = G.Case(r, name, method, n=int(G.pick(r, 251, 501, 701, 1201) if name == "L63" else G.pick(r, 1001, 1601, 4001)), dt=float(G.pick(r, .001, .01)),
               operator=bool(r.random() < .5), noise_full=bool(r.random() < .5))
    x = c.random_x(r, scale=float(G.logu(r, .1, 1)))
    T.note(model=name, method=method, n=c.n, dt=c.dt, obs=c.idx[:10])
    ref = c.ref(x)
    if not np.isfinite(ref["F"]) or ref["mag"] > 1e8:
        return
    T.close("free energy equals its definition", c.vgp.free_energy(x), ref["F"], rtol=1e-9, scale=ref["mag"])
    T.close("gradient over a long window", c.vgp.gradient(x), ref["g"], rtol=1e-8)
    T.case(x)


def _window(r, name, method, N, base_dt, seed):
    """The same continuous problem on a grid of N * 2^k steps."""
    out = []
    for k in range(4):
        rr = np.random.default_rng(seed)
        frac = (.25, .5, .75) if rr.random() < .5 else (.5, 1.0)
        n = N * 2 ** k + 1
        idx = [int(round(f * (n - 1))) for f in frac]
        c = G.Case(rr, name, method, n=n, dt=base_dt / 2 ** k, obs=idx, t0=0.0, operator=bool(seed % 2),
                   noise_full=bool(seed % 3))
        # Positive damping keeps the covariance positive definite.
        t = np.arange(n) * c.dt
        d = c.d
        A = 2.0 * np.eye(d) + .3 * G.smooth(rr, (d, d), t) / np.sqrt(d)
        b = G.smooth(rr, (d,), t)
        dA, db = .5 * G.smooth(rr, (d, d), t), G.smooth(rr, (d,), t)
        out.append((c, c.pack(A, b), c.pack(dA, 0 * db), c.pack(0 * dA, db)))
    return out


def directional(T, r, i):
    name, method = combo(i)
    seed = int(r.integers(1, 2 ** 31))
    grids = _window(r, name, method, 16, .32 / 16 if name == "L63" else .8 / 16, seed)
    T.note(model=name, method=method, seed=seed, n=[c.n for c, *_ in grids])
    for which in (2, 3):
        err, fds, mags = [], [], []
        for row in grids:
            c, x, v = row[0], row[1], row[which]
            h = 1e-4
            f = [c.vgp.free_energy(x + s * h * v) for s in (1, -1, 2, -2)]
            fd = (8 * (f[0] - f[1]) - (f[2] - f[3])) / (12 * h)
            g = c.vgp.gradient(x, eval_fun=True)
            err.append(float(g @ v - fd))
            fds.append(fd)
            mags.append(float(np.abs(g * v).sum()))
            T.event("directional derivatives", 1)
        err = np.array(err)
        scale = max(mags[-1], abs(fds[-1]), 1e-6)
        if not np.all(np.isfinite(err)):
            T.check("finite directional derivatives", False, {"err": err, "fd": fds})
        # Richardson: eliminate the dt and dt^2 terms.
        r1 = 2 * err[1:] - err[:-1]
        r2 = (4 * r1[1:] - r1[:-1]) / 3
        T.check(("d/dA" if which == 2 else "d/db") + " error vanishes with dt",
                abs(r2[-1]) <= 2e-3 * scale and abs(err[-1]) <= .25 * scale,
                {"err": err, "limit": r2[-1], "scale": scale, "fd": fds})
        T.case(seed, which)


def componentwise(T, r, i):
    """Single coordinates on a very fine grid: |g_k - FD_k| must be of the order of dt."""
    name, method = combo(i)
    res = []
    seed = int(r.integers(1, 2 ** 31))
    for dt in (2e-4, 1e-4):
        rr = np.random.default_rng(seed)
        n = 24
        c = G.Case(rr, name, method, n=n, dt=dt, t0=0.0)
        t = np.arange(n) * .05
        A = 2. * np.eye(c.d) + .3 * G.smooth(rr, (c.d, c.d), t)
        b = G.smooth(rr, (c.d,), t)
        x = c.pack(A, b)
        comp = rr.choice(x.size, size=6, replace=False)
        # End points carry O(1) quadrature weights and are left to the assembled monitor.
        per = np.concatenate((np.repeat(np.arange(n), c.d * c.d), np.repeat(np.arange(n), c.d)))
        comp = [k for k in comp if 0 < per[k] < n - 1]
        g = c.vgp.gradient(x, eval_fun=True)
        fd = []
        for k in comp:
            h = 1e-2
            e = np.zeros_like(x)
            e[k] = h
            f = [c.vgp.free_energy(x + s * e) for s in (1, -1, 2, -2)]
            fd.append((8 * (f[0] - f[1]) - (f[2] - f[3])) / (12 * h))
        res.append((g[comp] / dt, np.array(fd) / dt, np.abs(g).max() / dt, per[comp], c))
    T.note(model=name, method=method, seed=seed)
    for q in range(len(res[0][0])):
        e1, e2 = (res[0][0][q] - res[0][1][q]), (res[1][0][q] - res[1][1][q])
        scale = max(res[1][2], 1e-9)
        # Coordinates next to a jump see it half a step early or late: use the smooth ones.
        k = res[0][3][q]
        if any(abs(k - o) <= 1 for o in res[0][4].idx):
            continue
        T.event("single coordinates compared")
        T.check("coordinate derivative", abs(2 * e2 - e1) <= 1e-3 * scale + 1e-6 and abs(e2) <= .05 * scale + 1e-6,
                {"k": int(k), "e": [e1, e2], "scale": scale})
    T.case(seed)


WORKLOADS = [
    Workload("assembled", assembled, 400, 20000, must=["gradient wrt A(t) matches the adjoint assembly"]),
    Workload("long_window", long_window, 24, 240, must=["gradient over a long window"]),
    Workload("directional", directional, 24, 720, must=["directional derivatives"]),
    Workload("componentwise", componentwise, 24, 480, must=["single coordinates compared"]),
]
