"""C11: simulated trajectories follow the stochastic differential equation."""
import numpy as np
from scipy import stats

from .. import gens as G, refs
from ..core import Workload

RULE = ("trajectories of all four systems for random drift parameters, noise (scalar / vector / full SPD matrix), windows "
        "(also negative and non-zero start) and seeds; the increments minus drift, whitened with the noise covariance, "
        "must be standard normal and independent (6.5 sigma tests, fixed seeds). Non-trivial: at least 200 increments; "
        "distinct by trajectory.")
ASSUMPTIONS = ["a correct generator fails a 6.5 sigma test with probability below 1e-10 per decision"]
Z = 6.5


def warmup():
    G.warm_numba()


def setup(r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": int(G.pick(r, 10, 17, 40, 10, 17, 40, 150))}[name]
    dt = float(G.pick(r, .001, .005, .01))
    if name == "DW":
        th = float(G.pick(r, 1.0, .5, 1.7, 4.0, 9.0, 16.0, 40.0))
        sig = float(G.logu(r, .05, 6))
        dt = min(dt, .05 / max(1.0, th * th, 4 * np.sqrt(sig)))  # the Euler scheme must be stable (paths start at +-theta)
        Sig = np.array([[sig]])
    elif name == "OU":
        th, sig = float(G.logu(r, .02, 20)), float(G.logu(r, 1e-4, 500))
        dt = float(G.pick(r, dt, .02, .05))
        Sig = np.array([[sig]])
    else:
        th = G.rand_theta(r, name) if name == "L63" else float(r.uniform(4, 9))
        if name == "L63":
            th = np.array([10., 28., 8 / 3]) + r.uniform(-.5, .5, 3)
        else:  # the Euler scheme of L96 is only stable for small steps
            dt = min(dt, .003)
        hi = 20 if name == "L63" else 4
        k = int(r.integers(4))
        if k < 2:
            sig, Sig = G.diag_noise(r, d, .5, hi)
        else:
            sig = Sig = G.spd(r, d, .5, hi)
    return name, d, dt, th, sig, Sig


def zcheck(T, name, z, detail=None):
    T.check(name, abs(z) <= Z, {"z": float(z), "more": detail})


def law(T, r, i):
    name, d, dt, th, sig, Sig = setup(r, i)
    seed = int(r.integers(0, 2 ** 32))
    n = {1: 40001, 3: 60001, 10: 20001, 17: 12001, 40: 6001, 150: 3001}[d]
    if r.random() < .2:  # short paths as well
        n = int(G.pick(r, 1001, 501, 2001))
    t0 = float(G.pick(r, 0., 0., -3., 7.5))
    M = G.model(name, sig, th, seed, d)
    kw = {}
    mu = 0.0
    if name == "OU" and r.random() < .5:
        mu = float(r.uniform(-3, 3))
        kw = {"mu": mu}
    with G.silent():
        M.make_trajectory(t0, t0 + (n - 1) * dt, dt, **kw)
    x, tk = np.asarray(M.sample_path, dtype=float), np.asarray(M.time_window)
    T.note(model=name, d=d, dt=dt, theta=th, sigma=sig, seed=seed, t0=t0, mu=mu)
    T.check("path and grid have the same length", x.shape == ((n,) if d == 1 else (n, d)) and tk.shape == (n,), (x.shape, tk.shape, n))
    T.close("grid", tk, t0 + dt * np.arange(n), rtol=1e-9, scale=abs(t0) + n * dt)
    T.check("finite path", np.all(np.isfinite(x)))
    x = x.reshape(n, d)
    f = refs.drift(name, x - mu, th) if name == "OU" else refs.drift(name, x, th)
    w = np.linalg.solve(np.linalg.cholesky(Sig * dt), (x[1:] - x[:-1] - f[:-1] * dt).T).T
    N = n - 1
    T.event("increments observed", N * d)
    T.close("driven by noise of this size", np.log(np.mean(w ** 2)), 0.0, atol=Z * np.sqrt(2 / (N * d)) + 1e-3)
    C = w.T @ w / N
    # Few tail events make the normal approximation poor only for very short paths, which are not generated.
    for p in range(d):
        zcheck(T, "increments have zero mean", w[:, p].mean() * np.sqrt(N), {"component": p})
        zcheck(T, "increments have the noise variance", (C[p, p] - 1) * np.sqrt(N / 2), {"component": p})
        zcheck(T, "increments are independent in time", (w[1:, p] * w[:-1, p]).mean() * np.sqrt(N - 1), {"component": p})
        zcheck(T, "increments are Gaussian (4th moment)", ((w[:, p] ** 4).mean() - 3) * np.sqrt(N / 96), {"component": p})
        zcheck(T, "increments are symmetric", ((w[:, p] ** 3).mean()) * np.sqrt(N / 15), {"component": p})
        xs = (x[:-1, p] - x[:-1, p].mean()) / (x[:-1, p].std() + 1e-12)
        zcheck(T, "increments are independent of the state", (w[:, p] * xs).mean() * np.sqrt(N), {"component": p})
        zcheck(T, "noise size does not depend on the state", ((w[:, p] ** 2 - 1) * xs).mean() * np.sqrt(N / 2), {"component": p})
        # ... nor on nonlinear features of the state (bounded, so that the normal law applies).
        for nm, q in (("size", np.tanh(np.abs(xs) - 1)), ("tail", (np.abs(xs) > 1.5) * 1.0), ("sign", np.sign(x[:-1, p])),
                      ("neighbour", np.tanh(np.roll(x, 1, axis=1)[:-1, p] / (np.abs(x).mean() + 1e-12)))):
            q2 = np.sqrt((q ** 2).mean())
            if q2 > .05:
                zcheck(T, "increments are independent of the state", (w[:, p] * q).mean() / q2 * np.sqrt(N), {"component": p, "of": nm})
                zcheck(T, "noise size does not depend on the state", ((w[:, p] ** 2 - 1) * q).mean() / q2 * np.sqrt(N / 2),
                       {"component": p, "of": nm})
        # First and second half.
        h = N // 2
        zcheck(T, "noise variance is constant in time", ((w[:h, p] ** 2).mean() - (w[h:, p] ** 2).mean()) * np.sqrt(h / 4), {"component": p})
    off = C - np.diag(np.diag(C))
    if d > 1:
        T.check("noise covariance between components", np.abs(off).max() * np.sqrt(N) <= Z, {"worst": np.abs(off).max() * np.sqrt(N)})
        lag = w[1:].T @ w[:-1] / (N - 1)
        T.check("no lagged cross-correlation", np.abs(lag).max() * np.sqrt(N - 1) <= Z, {"worst": np.abs(lag).max() * np.sqrt(N)})
    # No stretch of the noise comes back later, in the same component or in another one: autocorrelation at every lag.
    for q in [w.ravel()] + ([w[:, int(r.integers(d))]] if d > 1 else []):
        F = np.fft.rfft(q, 2 * q.size)
        acf = np.fft.irfft(F * F.conj())[1:q.size] / np.sqrt(q.size)
        T.check("no repetition in the noise, at any lag", np.abs(acf).max() <= 8.5,
                {"lag": int(np.abs(acf).argmax()) + 1, "z": float(np.abs(acf).max())})
        T.event("lags inspected", acf.size)
    ks = stats.kstest(w.ravel()[:20000], "norm")
    T.check("increments are normal (KS)", ks.pvalue > 1e-10, ks.pvalue)
    T.check("no increment is missing", np.abs(w).min(axis=1).max() > 0 and np.all(np.abs(w).max(axis=1) > 1e-9))
    T.case(x)


def initial(T, r, i):
    """Initial values over many seeds."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    dt = .01
    if name == "DW":
        th, sg = float(G.pick(r, 1.0, .7, 1.6)), float(G.logu(r, .1, 2))
        v = []
        base, again = int(r.integers(1, 10 ** 6)), bool((i // 4) % 2)
        M = G.model(name, sg, th, base)
        for s in range(400):   # new processes, or one process again and again
            if not again:
                M = G.model(name, sg, th, base + s)
            M.make_trajectory(0., .02, dt)
            v.append(M.sample_path[0])
        v = np.array(v)
        side = v > 0
        T.event("initial values observed", v.size)
        far = th > 4 * np.sqrt(.5 * sg * dt)
        if far:
            zcheck(T, "both wells are equally likely", (side.mean() - .5) * 2 * np.sqrt(v.size))
            e = (np.abs(v) - th) / np.sqrt(.5 * sg * dt)
            zcheck(T, "initial values centred on the wells", e.mean() * np.sqrt(v.size))
            zcheck(T, "initial spread", ((e ** 2).mean() - 1) * np.sqrt(v.size / 2))
            es = e * np.where(side, 1, -1)
            zcheck(T, "initial spread is symmetric", es.mean() * np.sqrt(v.size))
        T.case(base)
        return
    if name == "OU":
        mu = float(r.uniform(-5, 5))
        M = G.model(name, .5, 1.2, 3)
        M.make_trajectory(0., .1, dt, mu)
        T.check("OU starts at its mean", M.sample_path[0] == mu, M.sample_path[0])
        M.make_trajectory(0., .1, dt)
        T.check("OU starts at zero by default", M.sample_path[0] == 0.0)
        M.make_trajectory(-1., 2., dt, -mu)
        M.make_trajectory(0., .1, dt, mu)
        T.check("OU starts at its mean", M.sample_path[0] == mu, M.sample_path[0])
        T.case(mu)
        return
    if name == "L63":
        th = np.array([10., 28., 8 / 3]) + r.uniform(-1, 1, 3)
        x = np.ones(3)
        for _ in range(5000):
            x = x + 1e-3 * refs.drift("L63", x, th)
        M = G.model(name, float(r.uniform(1, 9)), th, int(r.integers(99)))
    else:
        d = int(G.pick(r, 10, 13, 40))
        th = float(r.uniform(3, 8))
        x = np.full(d, th)
        x[d // 2] += 1e-3
        for _ in range(5000):
            x = x + 1e-3 * refs.drift("L96", x, th)
        M = G.model(name, float(r.uniform(1, 9)), th, int(r.integers(99)), d)
    M.make_trajectory(0., .02, dt)
    T.close("starts on the attractor (noise-free spin-up)", M.sample_path[0], x, rtol=1e-5)
    for _ in range(3):
        M.make_trajectory(float(r.uniform(-3, 3)), 4., .01)
        T.close("further paths start there as well", M.sample_path[0], x, rtol=1e-5)
    M.sample_path = np.array(M.sample_path) * 1.5
    M.make_trajectory(0., .02, dt)
    T.close("further paths start there as well", M.sample_path[0], x, rtol=1e-5)
    T.case(th)


def grids(T, r, i):
    """The grid covers [t0, tf] in steps of dt without overshooting."""
    for _ in range(20):
        name = G.pick(r, "DW", "OU")
        dt = float(G.pick(r, .1, .01, .05, .001, .02, .3, .007))
        steps = int(r.integers(1, 400))
        t0 = float(G.pick(r, 0., 1., -2., .3, 10.))
        M = G.model(name, .5, 1., 1)
        M.make_trajectory(t0, t0 + steps * dt, dt)
        tk = M.time_window
        T.check("number of grid points", tk.size == steps + 1 == M.sample_path.size, {"dt": dt, "t0": t0, "steps": steps, "n": tk.size})
        T.close("grid ends at the final time", tk[-1], t0 + steps * dt, rtol=1e-9, scale=abs(t0) + steps * dt)
        T.close("grid starts at the initial time", tk[0], t0, rtol=1e-12)
        T.close("time step", M.time_step, dt, rtol=1e-6)
        T.case(dt, t0, steps)
    # Final times between two grid points: the grid ends at the last one before.
    for k in range(12):
        name = ("DW", "OU", "L63", "L96")[k % 4]
        d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[name]
        dt = float(G.pick(r, .1, .01, .05, .001, .02, .3, .007, .25))
        steps, frac = int(r.integers(1, 60)), float(r.uniform(.02, .98))
        t0 = float(G.pick(r, 0., 1., -2., .3, 10.))
        M = G.model(name, .5 if d == 1 else .5 * np.eye(d), np.array([10., 28., 8 / 3]) if name == "L63" else 1., 1, d)
        with np.errstate(all="ignore"):
            M.make_trajectory(t0, t0 + (steps + frac) * dt, dt)
        tk = M.time_window
        T.check("the grid never passes the final time", tk.size == steps + 1 == len(M.sample_path) and tk[-1] <= t0 + (steps + frac) * dt,
                {"model": name, "dt": dt, "t0": t0, "steps": steps, "frac": frac, "n": tk.size})
        T.case(name, dt, t0, steps, frac)


def noise_free(T, r, i):
    """With vanishing noise the path is the Euler solution of the drift."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 12}[name]
    th = {"DW": .8, "OU": 1.5, "L63": np.array([10., 28., 8 / 3]), "L96": 8.0}[name]
    s = 1e-18
    M = G.model(name, s if d == 1 else s * np.eye(d), th, int(r.integers(99)), d)
    dt = .002
    M.make_trajectory(0., .2, dt, *([2.0] if name == "OU" else []))
    x = M.sample_path.reshape(-1, d)
    y = [x[0]]
    for _ in range(len(x) - 1):
        z = y[-1] - (2.0 if name == "OU" else 0.0)
        y.append(y[-1] + dt * refs.drift(name, z, th))
    T.close("noise-free limit is the deterministic flow", x, np.array(y), rtol=1e-6)
    T.case(x)


def short(T, r, i):
    """Windows of a few points, over many seeds: every step has the drift and the noise it should have."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[name]
    n = int(G.pick(r, 2, 3, 4, 5))
    reps = 400 if d == 1 else 60
    th = {"DW": float(r.uniform(.5, 1.5)), "OU": float(r.uniform(.5, 3)), "L63": np.array([10., 28., 8 / 3]), "L96": 8.0}[name]
    dt = .002
    sig, Sig = (float(r.uniform(.3, 3)),) * 2 if d == 1 else G.diag_noise(r, d, .5, 4)
    var = np.atleast_1d(Sig) if d == 1 else np.diag(Sig)
    base = int(r.integers(1, 10 ** 6))
    M = G.model(name, sig, th, base, d)
    again, w = r.random() < .5, []
    for s in range(reps):   # new processes, or one process again and again
        if d == 1 and not again:
            M = G.model(name, sig, th, base + s, d)
        M.make_trajectory(0., (n - 1) * dt, dt)
        x = np.asarray(M.sample_path, dtype=float).reshape(-1, d)
        T.check("short windows have all their points", len(x) == n == len(M.time_window), (len(x), n))
        w.append((x[1:] - x[:-1] - dt * refs.drift(name, x[:-1], th)) / np.sqrt(dt * var))
    w = np.array(w)
    T.note(model=name, n=n, reps=reps, again=again)
    T.event("steps of short windows", w.size // d)
    for k in range(n - 1):
        N = reps * d
        q = w[:, k].ravel()
        T.check("every step of a short window is driven", np.all(q != 0), {"step": k})
        zcheck(T, "short windows: zero mean in every step", q.mean() * np.sqrt(N), {"step": k})
        # (chi-square with few hundred degrees of freedom: the cube root is normal to high accuracy)
        zcheck(T, "short windows: noise variance in every step", ((q @ q / N) ** (1 / 3) - (1 - 2 / (9 * N))) / np.sqrt(2 / (9 * N)), {"step": k})
        for j in range(k):
            zcheck(T, "short windows: independent steps", (q * w[:, j].ravel()).mean() * np.sqrt(N), {"steps": (j, k)})
    lag = w[1:].reshape(reps - 1, -1) * w[:-1].reshape(reps - 1, -1)
    zcheck(T, "short windows: independent paths", lag.mean() * np.sqrt(lag.size))
    T.case(w)


def setters(T, r, i):
    """Parameters changed after construction drive the next trajectory."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[name]
    M = G.model(name, 9.0 if d == 1 else 9.0 * np.eye(d), {"L63": np.array([1., 2., 3.])}.get(name, 3.), 5, d)
    th = {"DW": .8, "OU": 2.5, "L63": np.array([10., 28., 8 / 3]), "L96": 8.0}[name]
    Sig = np.diag(G.logu(r, .5, 4, d))
    M.theta = th
    M.sigma = float(Sig[0, 0]) if d == 1 else Sig
    dt, n = .002, 4001
    M.make_trajectory(0., (n - 1) * dt, dt)
    x = M.sample_path.reshape(n, d)
    w = (x[1:] - x[:-1] - dt * refs.drift(name, x[:-1], th)) / np.sqrt(dt * np.diag(Sig))
    for p in range(d):
        zcheck(T, "noise setter drives the next path", ((w[:, p] ** 2).mean() - 1) * np.sqrt((n - 1) / 2))
        zcheck(T, "drift setter drives the next path", w[:, p].mean() * np.sqrt(n - 1))
        xs = (x[:-1, p] - x[:-1, p].mean()) / (x[:-1, p].std() + 1e-12)
        zcheck(T, "drift setter: residual independent of the state", (w[:, p] * xs).mean() * np.sqrt(n - 1))
    T.case(x)


WORKLOADS = [
    Workload("law", law, 48, 1200, must=["increments have the noise variance", "noise covariance between components"]),
    Workload("initial", initial, 16, 200, must=["both wells are equally likely", "starts on the attractor (noise-free spin-up)"]),
    Workload("grids", grids, 24, 400, must=["number of grid points", "the grid never passes the final time"]),
    Workload("noise_free", noise_free, 8, 40),
    Workload("short", short, 24, 400, must=["short windows: noise variance in every step", "every step of a short window is driven"]),
    Workload("setters", setters, 12, 200, must=["noise setter drives the next path"]),
]
