"""C25: the initialisation of the variational parameters."""
import numpy as np
from scipy.interpolate import make_interp_spline

from .. import gens as G
from ..core import Workload

RULE = ("random problems (all models, windows, observation layouts including the end points, one observation, all points); "
        "the returned parameters are judged against an independently built interpolation of the observations. "
        "Non-trivial: at least one observation; distinct by problem.")


def warmup():
    G.warm_numba()


def curve(t, idx, y):
    """Spline through the observations, held at the first / last value at the window's ends."""
    idx = [int(q) for q in idx]
    tx, yx = list(t[idx]), [y[k] for k in range(len(idx))]
    if idx[0] != 0:
        tx, yx = [t[0]] + tx, [y[0]] + yx
    if idx[-1] != len(t) - 1:
        tx, yx = tx + [t[-1]], yx + [y[-1]]
    k = min(3, len(tx) - 1)  # not-a-knot cubic; parabola / line for three / two points
    return make_interp_spline(np.array(tx), np.array(yx), k=k)(t)


def start(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    n = int(G.pick(r, 2, 3, 4, 7, 40, 101) if name != "L96" else G.pick(r, 3, 8, 20))
    if i % 100 in (40, 41, 42):
        n = int(r.integers(3500, 6000)) if name != "L63" else 2000
    c = G.Case(r, name, G.METHODS[int(r.integers(4))], n=n, dt=float(G.pick(r, .01, .001, .05, 1e-5, 1e-6)),
               d96=int(G.pick(r, 10, 11, 14)))
    if n == 2 and len(c.idx) == 0:
        return
    t = np.array(c.model.time_window)
    keep = (np.array(c.y), list(c.idx), t.copy())
    x = c.vgp.initialization()
    T.note(model=name, n=n, idx=c.idx[:12])
    T.case(c.y, c.idx, n)
    d = c.d
    T.check("one vector of the right size", isinstance(x, np.ndarray) and x.shape == (n * d * (d + 1),), np.shape(x))
    T.check("finite", np.all(np.isfinite(x)))
    A, b = c.unpack(x)
    T.close("stationary variance is a quarter in every dimension", A, np.broadcast_to(np.diag(2. * np.diag(c.Sig)), A.shape), rtol=1e-12)
    ref = curve(t, c.idx, c.y)
    span = max(1e-3, np.abs(ref).max(), np.abs(c.y).max())
    if d == 1:
        T.close("offset interpolates the observations", b[c.idx, 0], c.y, rtol=1e-10, scale=span)
        T.close("offset is the spline of the observations", b[:, 0], ref, rtol=1e-7, scale=span)
    else:
        m = np.zeros((n, d))
        m[0] = ref[0]
        for k in range(n - 1):  # the mean process these parameters describe
            m[k + 1] = m[k] + c.dt * (b[k] - A[k] @ m[k])
        T.close("mean process passes through the observations", m[c.idx], c.y, rtol=1e-7, scale=span)
        T.close("mean process is the spline of the observations", m, ref, rtol=1e-6, scale=span)
        T.close("the last point is at rest", b[-1] - A[-1] @ ref[-1], np.zeros(d), atol=1e-8 * span * max(1., np.abs(A).max()))
    T.event("observations interpolated", len(c.idx))
    x2 = c.vgp.initialization()
    T.check("repeatable", np.array_equal(x, x2) and x2 is not x)
    x2[:] = 7.
    T.check("returned vector is the caller's own", np.array_equal(c.vgp.initialization(), x))
    T.check("observations and window untouched", np.array_equal(c.y, keep[0]) and list(c.idx) == keep[1] and
            np.array_equal(c.model.time_window, keep[2]))
    # After evaluations elsewhere the start is still the same.
    if name in ("DW", "OU"):
        c.vgp.free_energy(c.random_x(r, .1))
        T.check("independent of evaluations", np.array_equal(c.vgp.initialization(), x))
        T.check("admissible start", np.isfinite(c.vgp.free_energy(x)))


def correlated(T, r, i):
    """System noise with correlations."""
    name = ("L63", "L96")[i % 2]
    c = G.Case(r, name, "Euler", n=int(G.pick(r, 4, 9, 30)), dt=.01, d96=int(G.pick(r, 10, 11)), sigma_full=True)
    x = c.vgp.initialization()
    A, b = c.unpack(x)
    T.close("stationary variance is a quarter in every dimension", A, np.broadcast_to(np.diag(2. * np.diag(c.Sig)), A.shape), rtol=1e-12)
    ref = curve(np.array(c.model.time_window), c.idx, c.y)
    m = np.zeros((c.n, c.d))
    m[0] = ref[0]
    for k in range(c.n - 1):
        m[k + 1] = m[k] + c.dt * (b[k] - A[k] @ m[k])
    T.close("mean process is the spline of the observations", m, ref, rtol=1e-6, scale=max(1e-3, np.abs(ref).max()))
    T.event("problems with correlated noise")
    T.case(c.y, c.idx, name)


def simulated(T, r, i):
    """Observations drawn by the model itself."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    th = {"DW": 1., "OU": 1.5, "L63": np.array([10., 28., 8 / 3]), "L96": 8.}[name]
    d = G.dims(name)
    sg = float(G.logu(r, .3, 3))
    M = G.model(name, sg, th, int(r.integers(2 ** 31)))
    t0 = float(G.pick(r, 0., 2., -1.))
    M.make_trajectory(t0, t0 + float(G.pick(r, 1., 1.3)), float(G.pick(r, .01, .005)))
    obs_t, y, R = M.collect_obs(int(G.pick(r, 3, 4, 10, 33)), .1)
    sd = d == 1
    n = len(M.time_window)
    v = G.VarGP(M, 0. if sd else np.zeros(d), .2 if sd else .2 * np.eye(d), G.FwdOde(.01, "Euler", sd), G.BwdOde(.01, "Euler", sd),
                G.GaussianLikelihood(y, obs_t, R, None, sd), G.PriorKL0(0. if sd else np.zeros(d), 1. if sd else np.eye(d), sd), y, obs_t)
    x = v.initialization()
    T.check("one vector of the right size", x.shape == (n * d * (d + 1),), x.shape)
    A, b = x[:n * d * d].reshape(n, d, d), x[n * d * d:].reshape(n, d)
    ref = curve(np.array(M.time_window), obs_t, np.asarray(y))
    T.close("stationary variance is a quarter in every dimension", A, np.broadcast_to(2 * sg * np.eye(d), A.shape), rtol=1e-12)
    if d == 1:
        T.close("offset is the spline of the observations", b[:, 0], ref, rtol=1e-7)
    else:
        dt = float(np.diff(M.time_window[:2])[0])
        want = np.r_[np.diff(ref, axis=0) / dt, np.zeros((1, d))] + 2 * sg * ref
        T.close("offset follows the slope of the spline", b, want, rtol=1e-6)
    T.case(y)


WORKLOADS = [
    Workload("start", start, 400, 12000, must=["mean process passes through the observations", "offset interpolates the observations"]),
    Workload("correlated", correlated, 48, 1000, must=["problems with correlated noise"]),
    Workload("simulated", simulated, 48, 1000, must=["offset follows the slope of the spline"]),
]
