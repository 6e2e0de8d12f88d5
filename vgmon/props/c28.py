"""C28: windows compose, and refining the grid converges to one limit for every method."""
import numpy as np

from .. import gens as G
from .. import refs
from ..core import Workload
from .c27 import KEYS, Spec, random_spec

RULE = ("split: random problems are cut at a grid point, the second half starting from the moments the first half ends with, "
        "and the parts are compared with the whole; refine: one continuous problem on grids of step dt, dt/2, dt/4, dt/8 by "
        "all four methods. Non-trivial: both halves hold observations / the differences are above rounding; distinct by "
        "problem.")
ASSUMPTIONS = ["convergence is judged for smooth coefficients and resolved steps"]


def warmup():
    G.warm_numba()


def split(T, r, i):
    name, method = (("DW", "OU", "L63")[i % 3], G.METHODS[(i // 3) % 4]) if i % 10 else ("L96", G.METHODS[(i // 10) % 4])
    n = 5 if name == "L96" else int(G.pick(r, 5, 9, 24, 80))
    s = random_spec(r, name, method, n=n, d=10 if name == "L96" else None)
    d = s.b.shape[1]
    M = int(r.integers(2, min(n, 7)))
    s.idx = sorted(int(q) for q in r.choice(n, M, replace=False))
    s.y = 2 * r.standard_normal((M, s.H.shape[0]))
    whole = s.solve()
    if not np.isfinite(whole["F"]) or abs(whole["F"]) > 1e9 or np.abs(whole["mt"]).max() > 1e4:
        T.event("left the finite region")
        return
    # Cut at k: observations up to (or before) k belong to the first part.
    own = bool(r.random() < .5)
    ks = [k for k in range(1, n - 1) if any(q < k + (not own) for q in s.idx) and any(q >= k + (not own) for q in s.idx)]
    if not ks:
        return
    k = int(G.pick(r, *ks))
    left = [j for j, q in enumerate(s.idx) if q < k + (not own)]
    right = [j for j, q in enumerate(s.idx) if q >= k + (not own)]
    m, S = whole["mt"][k], whole["st"][k]
    if np.linalg.eigvalsh(S).min() <= 1e-8:
        return
    S = .5 * (S + S.T)
    a = s.but(n=k + 1, idx=[s.idx[j] for j in left], y=s.y[left], A=s.A[:k + 1], b=s.b[:k + 1])
    # The second part starts where the first ends, with no divergence of its own.
    b = s.but(n=n - k, t0=s.t0 + k * s.dt, idx=[s.idx[j] - k for j in right], y=s.y[right], A=s.A[k:], b=s.b[k:], m0=m, S0=S, mu0=m, tau0=S)
    T.note(model=name, method=method, n=n, cut=k, obs=s.idx)
    ra, rb = a.solve(), b.solve()
    tol = 1e-7 if name != "L96" else 1e-6
    T.close("free energies of the parts add up", ra["F"] + rb["F"], whole["F"], rtol=tol, scale=abs(ra["F"]) + abs(rb["F"]) + 10)
    for q in ("mt", "st", "Efx", "Edf"):
        T.close("moments and expectations of the parts join", np.concatenate([ra[q][:-1], rb[q]]), whole[q], rtol=tol, detail=q)
    # Multipliers look ahead only: from the cut on (own: the observation at the cut is in the second part) they are the same.
    f = 0 if own or k not in s.idx else 1
    for q in ("lamt", "psit"):
        T.close("multipliers after the cut belong to the second part", rb[q][f:], whole[q][k + f:], rtol=1e-6,
                scale=np.abs(whole[q]).max() + 1e-3, detail=q)
    for q in ("gA", "gb"):
        T.close("the gradient after the cut belongs to the second part", rb[q][f:], whole[q][k + f:], rtol=1e-6,
                scale=np.abs(whole[q]).max() + 1e-6, detail=q)
    # The first part, told the multipliers at the cut, is the start of the whole sweep.
    end = whole["lamt"][k], whole["psit"][k]
    sd = d == 1
    bwd = G.BwdOde(s.dt, method, sd)
    src = _sources(a, ra)
    if src is not None:
        jm, jS, dm, dS = src
        jm[k], jS[k] = end
        fl = (lambda v: v.reshape(-1)) if sd else (lambda v: v)
        lam, psi = bwd(fl(a.A), fl(dm), fl(dS), fl(jm), fl(jS))
        T.close("multipliers before the cut continue from it", lam.reshape(k + 1, d), whole["lamt"][:k + 1], rtol=1e-6,
                scale=np.abs(whole["lamt"]).max() + 1e-3)
        T.close("multipliers before the cut continue from it", psi.reshape(k + 1, d, d), whole["psit"][:k + 1], rtol=1e-6,
                scale=np.abs(whole["psit"]).max() + 1e-3)
    T.event("cuts compared")
    T.case(s.A, k)


def _sources(a, ra):
    """Sources of the first part's backward sweep, as the code reports them."""
    d = a.b.shape[1]
    sd = d == 1
    sc = (lambda v: float(np.ravel(v)[0])) if sd else (lambda v: np.array(v))
    fl = (lambda v: v.reshape(-1)) if sd else (lambda v: v)
    M = G.model(a.name, sc(a.Sig), a.theta, 1, d)
    M.time_window = a.t0 + np.arange(a.n) * a.dt
    M.sample_path = np.zeros(a.n) if sd else np.zeros((a.n, d))
    _, _, g = M.energy(fl(a.A), fl(a.b), fl(ra["mt"]), fl(ra["st"]), list(a.idx))
    like = G.GaussianLikelihood(a.y.ravel() if sd else a.y, list(a.idx), sc(a.R), sc(a.H), sd)
    jm, jS, *_ = like.gradients(fl(ra["mt"]), fl(ra["st"]))
    v = lambda q: np.array(q, dtype=float).reshape(a.n, d)
    m = lambda q: np.array(q, dtype=float).reshape(a.n, d, d)
    return v(jm), m(jS), v(g[0]), m(g[1])


def limit(f):
    """Extrapolation to step zero (errors in powers of the step), with an error estimate."""
    R = [list(map(float, f))]
    for p in range(1, len(f)):
        q = R[-1]
        R.append([q[k + 1] + (q[k + 1] - q[k]) / (2 ** p - 1) for k in range(len(q) - 1)])
    return R[-1][-1], abs(R[-1][-1] - R[-2][-1]) + abs(R[-2][-1] - R[-2][-2])


def refine(T, r, i):
    name = ("DW", "OU", "L63")[i % 3]
    seed = int(r.integers(2 ** 31))
    base = int(G.pick(r, 10, 20, 40)) if name != "L63" else 20
    span = float(G.pick(r, .4, 1.0)) if name != "L63" else .4
    d = G.dims(name)
    F = {m: [] for m in G.METHODS}
    for level in range(5):
        n = base * 2 ** level + 1
        for method in G.METHODS:
            q = np.random.default_rng(seed)
            s = random_spec(q, name, method, n=3)
            dt = span / (n - 1)
            t = np.arange(n) * dt
            frac = np.sort(q.choice(np.arange(1, 11), int(q.integers(1, 5)), replace=False)) / 10.
            idx = [int(round(f * (n - 1))) for f in frac]
            y = 2 * q.standard_normal((len(idx), s.H.shape[0]))
            A = 2.0 * np.eye(d) + .4 * G.smooth(q, (d, d), t) / np.sqrt(d)
            b = 2 * G.smooth(q, (d,), t)
            o = s.but(n=n, dt=dt, idx=idx, y=y, A=A, b=b).solve()
            F[method].append(o["F"])
    T.note(model=name, F=F)
    if not np.all(np.isfinite(list(F.values()))):
        return
    sc = abs(F["rk4"][-1]) + 1
    lim, err = {}, {}
    for method in G.METHODS:
        lim[method], err[method] = limit(F[method])
    for method in G.METHODS:
        D = np.abs(np.diff(F[method]))
        tol = 4 * (err[method] + err["rk4"]) + 1e-7 * sc
        T.check("all methods tend to the same free energy", abs(lim[method] - lim["rk4"]) <= tol,
                {"method": method, "limit": lim[method], "rk4": lim["rk4"], "tol": tol, "F": F[method]})
        T.event("limits pinned down to 1e-4" if tol < 1e-4 * sc else ("limits pinned down to 1e-2" if tol < 1e-2 * sc else "limits vague"))
        if method != "euler":
            T.check("refinement converges at the order of the method", D[-1] <= .4 * D.max() + 1e-9 * sc, {"method": method, "F": F[method]})
    T.event("refinements followed")
    T.case(seed)


WORKLOADS = [
    Workload("split", split, 160, 6000, must=["free energies of the parts add up", "multipliers before the cut continue from it"]),
    Workload("refine", refine, 24, 600, must=["all methods tend to the same free energy"]),
]
