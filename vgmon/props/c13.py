"""C13: synthetic observations."""
import numpy as np

from .. import gens as G
from ..core import Workload

RULE = ("random paths (simulated or set by the user), densities, noise given as scalar / vector / matrix, masks; the "
        "returned times, values and noise are judged against the path. Non-trivial: at least one observation; distinct by "
        "inputs.")
ASSUMPTIONS = ["density * window within 1e-6 of an integer means that integer"]
Z = 6.5


def warmup():
    G.warm_numba()


def path(r, d, n, dt, t0=0.0):
    name = {1: G.pick(r, "DW", "OU"), 3: "L63"}.get(d, "L96")
    M = G.model(name, .5 if d == 1 else .5 * np.eye(d), {"L63": np.array([10., 28., 2.6])}.get(name, 1.), int(r.integers(2 ** 31)), d)
    G.set_grid(M, n, dt, t0, d)
    x = float(G.pick(r, 1., 50.)) * (r.standard_normal(n) if d == 1 else r.standard_normal((n, d)))
    if r.random() < .15:  # a path of whole numbers
        x = np.rint(5 * x).astype(G.pick(r, np.int64, np.int32))
    M.sample_path = x
    return M, x


def noise(r, d):
    v = G.logu(r, 1e-4, 3, d)
    if d == 1:
        return float(v[0]), np.array([[v[0]]])
    k = int(r.integers(3))
    return (float(v[0]), v[0] * np.eye(d)) if k == 0 else ((v if k == 1 else np.diag(v)), np.diag(v))


def rounded_line(t):
    """Whether some equidistant real sequence has `t` as its rounding: all slopes allowed by pairs of points intersect."""
    t = np.asarray(t, dtype=float)
    lo, hi = -np.inf, np.inf
    for g in range(1, t.size):
        q = t[g:] - t[:-g]
        lo, hi = max(lo, (q.max() - 1) / g), min(hi, (q.min() + 1) / g)
    return lo <= hi + 1e-9


def layout(T, r, i):
    d = (1, 1, 3, 10)[i % 4]
    dt = float(G.pick(r, .01, .02, .05, .1, .001))
    n = int(G.pick(r, 3, 11, 57, 101, 400, 701, 1024, 1001 if d < 10 else 200, 3001 if d < 10 else 250, int(r.integers(20, 1500))))
    M, x = path(r, d, n, dt, float(G.pick(r, 0., 0., 5., -4., 1., .3, -.5, 100.)))
    top = int(round(1.0 / dt))
    dens = int(G.pick(r, 1, 2, 5, 8, max(1, top // 2), max(1, top // 3), top, max(1, top - 1), int(r.integers(1, top + 1))))
    dens = min(dens, top)
    if r.random() < .15:
        dens = float(G.pick(r, .5, 2.5, 1 / 3, 7.25))
        dens = dens if dens <= top else 1
    rn, R = noise(r, d)
    keep_x, keep_t = x.copy(), np.array(M.time_window)
    span = (n - 1) * dt * dens
    mask, cols = None, np.arange(d)
    if d > 1 and r.random() < .4:
        cols = np.sort(r.choice(d, size=int(r.integers(1, d)), replace=False))
        bm = np.zeros(d, dtype=bool)
        bm[cols] = True
        mask = G.pick(r, bm, bm.tolist())
        rn, R = noise(r, len(cols)) if len(cols) > 1 else noise(r, 1)
    T.note(d=d, n=n, dt=dt, density=dens, mask=None if mask is None else cols)
    if span < 1 + 1e-6:
        return
    obs_t, obs_y, obs_R = M.collect_obs(dens, rn, mask) if mask is not None else M.collect_obs(dens, rn)
    t, y = np.asarray(obs_t), np.asarray(obs_y, dtype=float)
    T.case(x, dens, cols)
    m = np.floor(span + 1e-7)
    T.check("number of observations", t.size == m, {"got": t.size, "want": m, "span": span})
    T.check("times are valid indices of the path", np.issubdtype(t.dtype, np.integer) and t.min() >= 0 and t.max() < n, t[:5])
    T.check("times strictly increase", np.all(np.diff(t) > 0))
    if t.size > 1:
        T.check("times are equidistant", np.ptp(np.diff(t)) <= 1, np.unique(np.diff(t)))
        T.check("times are an equidistant sequence, rounded", rounded_line(t), t[:20])
    gaps = np.r_[t[0], n - t[-1]]
    step = n / (t.size + 1)
    T.check("times spread over the window", np.all(np.abs(gaps - step) <= 1.001), {"gaps": gaps, "step": step})
    single = mask is not None and len(cols) == 1
    want_shape = (t.size,) if d == 1 else (t.size, len(cols))
    T.check("shape of the values", y.shape == want_shape or (single and y.size == t.size), (y.shape, want_shape))
    T.close("noise covariance returned", np.reshape(obs_R, R.shape) if d == 1 or single else obs_R, R, rtol=1e-12)
    T.check("the path is untouched", np.array_equal(M.sample_path, keep_x) and np.array_equal(M.time_window, keep_t))
    base = (x[t] if d == 1 else x[t][:, cols]).reshape(t.size, len(cols))
    z = (y.reshape(base.shape) - base) / np.sqrt(np.diag(R))
    T.check("values are the path plus noise of the given size", np.abs(z).max() <= 7.5, np.abs(z).max())
    T.check("every value carries its own noise", np.all(z != 0) and np.unique(np.round(z, 10)).size >= z.size - 2)
    T.event("observations watched", t.size)
    if z.size >= 200:
        T.check("noise variance", abs((z ** 2).mean() - 1) * np.sqrt(z.size / 2) <= Z, (z ** 2).mean())
        T.check("noise mean", abs(z.mean()) * np.sqrt(z.size) <= Z, z.mean())


def law(T, r, i):
    """Noise law over many observations."""
    d = (1, 3, 10)[i % 3]
    dt, n = .01, 20001 if d == 1 else 8001
    M, x = path(r, d, n, dt)
    rn, R = noise(r, d)
    t, y, _ = M.collect_obs(50, rn)
    t = np.asarray(t)
    z = (np.asarray(y).reshape(t.size, d) - x[t].reshape(t.size, d)) / np.sqrt(np.diag(R))
    N = t.size
    T.event("noise samples", N * d)
    for p in range(d):
        T.check("noise is centred", abs(z[:, p].mean()) * np.sqrt(N) <= Z)
        T.check("noise has the given variance", abs((z[:, p] ** 2).mean() - 1) * np.sqrt(N / 2) <= Z, (z[:, p] ** 2).mean())
        T.check("noise is Gaussian", abs((z[:, p] ** 4).mean() - 3) * np.sqrt(N / 96) <= Z)
        T.check("noise is independent in time", abs((z[1:, p] * z[:-1, p]).mean()) * np.sqrt(N) <= Z)
    C = z.T @ z / N
    T.check("noise is independent between components", np.abs(C - np.diag(np.diag(C))).max() * np.sqrt(N) <= Z)
    # A second set carries fresh noise.
    t2, y2, _ = M.collect_obs(50, rn)
    T.check("a second set has fresh noise", not np.any(np.asarray(y2) == np.asarray(y)))
    T.check("same layout again", list(t2) == list(t))
    T.case(x[:50])


def rejects(T, r, i):
    d = (1, 3)[i % 2]
    dt = float(G.pick(r, .01, .05, .1))
    M, x = path(r, d, 101, dt)
    top = int(round(1.0 / dt))
    for k in (1, 2, 10, 1000):
        T.raises("more observations than samples are rejected", ValueError, lambda: M.collect_obs(top + k, .1))
    E = G.model("DW" if d == 1 else "L63", .5, 1. if d == 1 else np.array([10., 28., 2.]), 1)
    T.raises("no path, no observations", NotImplementedError, lambda: E.collect_obs(2, .1))
    T.raises("no path to read", NotImplementedError, lambda: E.sample_path)
    T.raises("no window to read", NotImplementedError, lambda: E.time_window)
    T.raises("no step to read", NotImplementedError, lambda: E.time_step)
    T.case(dt, i)


WORKLOADS = [
    Workload("layout", layout, 500, 16000, must=["times are equidistant", "values are the path plus noise of the given size"]),
    Workload("law", law, 24, 400, must=["noise has the given variance"]),
    Workload("rejects", rejects, 12, 60),
]
