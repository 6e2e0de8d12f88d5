"""C35: the same numbers give the same results in whatever numeric type they are given."""
import json
import os
import tempfile
import warnings

import numpy as np

from .. import gens as G, sims
from ..core import Workload
from .c23 import flat, routines

from src.numerics.utilities import chol_inv, finite_diff, log_det, my_trapz, ut_approx
from src.var_bayes.gaussian_moments import GaussianMoments

RULE = ("whole numbers given as floats and again as Python / NumPy integers (int64, int32), zero-dimensional arrays, NumPy "
        "scalars and (nested) lists where sequences of parameters are taken: routines, priors, likelihoods, models, paths, "
        "observations, whole problems and parameter files must give the results of the float version. Non-trivial: the "
        "float version gave finite results; distinct by numbers and type.")
ASSUMPTIONS = ["signed integers of at least 32 bits; other floating point widths and byte orders are not covered",
               "optimised outputs agree to 1e-6 of their scale"]


def warmup():
    G.warm_numba()


SCALARS = {"int": int, "np.int64": np.int64, "np.int32": np.int32, "np.float64": np.float64, "0-d float": lambda v: np.array(float(v)),
           "0-d int": lambda v: np.array(int(v))}
ARRAYS = {"int64": lambda a: np.asarray(a).astype(np.int64), "int32": lambda a: np.asarray(a).astype(np.int32)}
LISTS = {"list of ints": lambda a: np.asarray(a).astype(np.int64).tolist(), "list of floats": lambda a: np.asarray(a, dtype=float).tolist(),
         "tuple": lambda a: tuple(np.asarray(a).astype(np.int64).tolist()) if np.ndim(a) == 1 else np.asarray(a).astype(np.int64).tolist()}


def whole(a):
    """A nearby admissible argument of whole numbers (as floats)."""
    if isinstance(a, np.ndarray):
        if a.ndim >= 2 and a.shape[-1] == a.shape[-2] > 1 and np.allclose(a, np.swapaxes(a, -1, -2)):
            q = np.rint(a)
            return q + (np.abs(q).sum(-1).max() + 1) * np.eye(a.shape[-1])
        return np.ceil(a) if np.all(a > 0) else np.rint(a)
    return float(max(1, round(a))) if a > 0 else float(round(a))


def equal(T, what, got, want, detail, rtol=1e-9):
    fg, fw = flat(got), flat(want)
    T.check("same structure", len(fg) == len(fw) and all(p.shape == q.shape for p, q in zip(fg, fw)), detail)
    for p, q in zip(fg, fw):
        fin = np.isfinite(q)
        T.check("same finite entries", np.array_equal(fin, np.isfinite(p)), detail)
        if fin.any():
            T.close(what, p[fin], q[fin], rtol=rtol, atol=1e-300, scale=np.abs(q[fin]).max(), detail=detail)
            T.event("numbers compared", int(fin.sum()))


def attempt(fn):
    """None if the float version is not admissible."""
    try:
        with np.errstate(all="ignore"):
            out = fn()
        return out if any(np.isfinite(q).any() for q in flat(out)) else None
    except Exception:
        return None


def routine(T, r, i):
    for name, fn, args in routines(r):
        if name in ("safe_log/bounds", "my_trapz/marks", "my_trapz/given marks", "ut_approx/indefinite"):
            continue    # (not whole numbers, or indices)
        args = [whole(a) for a in args]
        want = attempt(lambda: fn(*[np.copy(a) if isinstance(a, np.ndarray) else a for a in args]))
        if want is None:
            continue
        want = [q.copy() for q in flat(want)]
        kinds = dict(ARRAYS)
        if name.split("/")[0] in ("chol_inv", "log_det", "moments", "ut_approx"):
            kinds.update(LISTS)
        for kind, conv in kinds.items():
            sc = SCALARS[G.pick(r, *SCALARS)] if kind != "int64" else int
            got = fn(*[conv(a) if isinstance(a, np.ndarray) else (sc(a) if name != "finite_diff" else int(a)) for a in args])
            equal(T, "same results from routines", got, want, {"routine": name, "type": kind})
        T.case(name, *args)


def large(T, r, i):
    """Whole numbers whose powers leave the range of integers."""
    n = int(r.integers(2, 40))
    m, v = r.integers(-2000, 2000, n).astype(float), r.integers(0, 3000, n).astype(float)
    m[0], v[0] = 1999, 2999
    g = GaussianMoments(m, v)
    ask = lambda q: [q(k) for k in range(9)] + [q.dm(k) for k in range(1, 9)] + [q.ds(k) for k in range(1, 9)]
    want = [np.array(q, dtype=float) for q in ask(g)]
    for kind, conv in {**ARRAYS, **LISTS}.items():
        equal(T, "same moments", ask(GaussianMoments(conv(m), conv(v))), want, {"type": kind})
    d = int(r.integers(2, 9))
    B = r.integers(-300, 300, (d, d)).astype(float)
    X = B @ B.T + 1e5 * np.eye(d)
    f = r.integers(1, 2 ** 20, (64, 2)).astype(float)
    x = r.integers(-1000, 1000, d).astype(float)
    fun = lambda q: np.array([np.sum(q ** 2), np.sum(q ** 3)])
    for kind, conv in ARRAYS.items():
        equal(T, "same inverse", chol_inv(conv(X)), chol_inv(X), {"type": kind})
        equal(T, "same log determinant", log_det(conv(X)), log_det(X), {"type": kind})
        equal(T, "same time integral", [my_trapz(conv(f), 2), my_trapz(conv(f), .5, [3, 7])], [my_trapz(f, 2.), my_trapz(f, .5, [3, 7])], {"type": kind})
        equal(T, "same expectations", ut_approx(lambda q: q @ np.ones((d, 2)), conv(x), conv(X)), ut_approx(lambda q: q @ np.ones((d, 2)), x, X), {"type": kind})
        equal(T, "same finite differences", finite_diff(lambda q: float(np.sum(np.asarray(q, dtype=float) ** 2)), conv(x)),
              finite_diff(lambda q: float(np.sum(q ** 2)), x), {"type": kind})
    T.case(m, X)


def numbers(r, name, d):
    """A problem of whole numbers only (as floats)."""
    w = lambda lo, hi, *s: r.integers(lo, hi + 1, s).astype(float) if s else float(r.integers(lo, hi + 1))
    n = int(r.integers(4, 12)) if d < 10 else 3
    q = {"n": n, "dt": float(G.pick(r, .01, .005)), "idx": sorted({int(k) for k in r.integers(0, n, 3)})}
    M = len(q["idx"])
    q["x"] = None
    if d == 1:
        q.update(sigma=w(1, 5), theta=w(1, 3), m0=w(-3, 3), S0=w(1, 3), R=w(1, 4), H=G.pick(r, None, w(1, 3)), mu0=w(-3, 3), tau0=w(1, 5),
                 y=w(-4, 4, M))
    else:
        o = int(r.integers(1, d + 1))
        H = None if r.random() < .5 else w(-2, 2, o, d)
        o = d if H is None else o
        full = lambda k: (lambda B: B @ B.T + 5 * np.eye(k))(w(-1, 1, k, k))
        q.update(sigma=G.pick(r, w(1, 6), w(1, 6, d), np.diag(w(1, 6, d))), theta=np.array([10., 28., 3.]) if name == "L63" else 8., m0=w(-3, 3, d),
                 S0=full(d), R=full(o), H=H, mu0=w(-3, 3, d), tau0=G.pick(r, np.diag(w(1, 5, d)), full(d)), y=w(-5, 5, M, o))
    A = 2 * np.eye(d) + np.array([w(-1, 1, d, d) for _ in range(n)])
    q["x"] = np.concatenate((A.ravel(), w(-3, 3, n * d)))
    return q


def evaluate(name, method, q, d):
    from src.var_bayes.gaussian_like import GaussianLikelihood
    from src.var_bayes.prior_kl0 import PriorKL0
    from src.var_bayes.variational import VarGP
    M = G.model(name, q["sigma"], q["theta"], 5, d)
    G.set_grid(M, q["n"], q["dt"], 0., d)
    sd = d == 1
    fwd, bwd = G.FwdOde(q["dt"], method, sd), G.BwdOde(q["dt"], method, sd)
    like, kl = GaussianLikelihood(q["y"], q["idx"], q["R"], q["H"], sd), PriorKL0(q["mu0"], q["tau0"], sd)
    v = VarGP(M, q["m0"], q["S0"], fwd, bwd, like, kl, q["y"], q["idx"])
    F = v.free_energy(q["x"])
    g = v.gradient(q["x"])
    return {"free energy": F, "gradient": g, "kl0": kl(q["m0"], q["S0"]), "noise": M.sigma, "inverse noise": M.inverse_sigma,
            **{k: np.array(v.arg_out[k]) for k in ("mt", "st", "Efx", "Edf", "lamt", "psit")}}


def problem(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    method = G.METHODS[(i // 4) % 4]
    d = G.dims(name)
    q = numbers(r, name, d)
    want = evaluate(name, method, q, d)
    T.note(model=name, method=method)
    if not np.isfinite(want["free energy"]):
        return
    T.case(q["x"], name, method)
    # Which of the problem's numbers may come as lists.
    seqs = {"sigma", "theta", "y", "R", "H", "mu0", "tau0"}
    for key in ("sigma", "theta", "m0", "S0", "R", "H", "mu0", "tau0", "y", "x", "idx", "all"):
        changed = dict(q)
        kinds = []
        for k in (key,) if key != "all" else ("sigma", "theta", "m0", "S0", "R", "H", "mu0", "tau0", "y", "x"):
            v = q[k]
            if v is None:
                continue
            if k == "idx":
                options = {"list": list, "np.int64": lambda a: np.array(a, dtype=np.int64), "np.int32": lambda a: np.array(a, dtype=np.int32),
                           "list of np.int32": lambda a: [np.int32(z) for z in a]}
            elif np.ndim(v) == 0:
                options = SCALARS
            else:
                options = {**ARRAYS, **(LISTS if k in seqs and not (k in ("mu0", "tau0") and False) else {})}
            kind = G.pick(r, *options)
            changed[k] = options[kind](v)
            kinds.append((k, kind))
        if not kinds:
            continue
        got = evaluate(name, method, changed, d)
        for k in want:
            equal(T, "same problem", got[k], want[k], {"result": k, "types": kinds, "model": name, "method": method})
        T.event("typed problems compared")


def paths(T, r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = G.dims(name)
    sigma, theta = float(r.integers(1, 5)), (np.array([10., 28., 3.]) if name == "L63" else float(r.integers(1, 8)))
    t0, tf = float(r.integers(-2, 3)), None
    tf = t0 + float(r.integers(1, 4))
    dt = .02 if d > 1 else float(G.pick(r, .01, .05, .1))
    seed = int(r.integers(1, 2 ** 31 - 1))
    dens, rn = float(r.integers(1, 9)), float(r.integers(1, 4))

    def play(sigma, theta, seed, t0, tf, dt, dens, rn):
        M = G.model(name, sigma, theta, seed, d)
        M.make_trajectory(t0, tf, dt)
        t, y, R = M.collect_obs(dens, rn)
        return {"window": M.time_window, "path": M.sample_path, "times": t, "values": y, "noise": R, "sigma": M.sigma,
                "inverse": M.inverse_sigma, "step": M.time_step}
    want = play(sigma, theta, seed, t0, tf, dt, dens, rn)
    T.note(model=name, window=(t0, tf, dt), density=dens)
    T.case(want["path"])
    for s in SCALARS:
        c = SCALARS[s]
        th = G.pick(r, *{**ARRAYS, **LISTS}.values())(theta) if d == 3 else c(theta)
        sg = c(sigma) if d == 1 or r.random() < .5 else G.pick(r, *{**ARRAYS, **LISTS}.values())(sigma * G.pick(r, np.ones(d), np.eye(d)))
        sd = seed if s.endswith("float64") or s.startswith("0-d") else c(seed)
        got = play(sg, th, sd, c(t0), c(tf), np.float64(dt) if r.random() < .5 else dt, int(dens) if s.startswith("0-d") else c(dens), c(rn))
        for k in want:
            equal(T, "same path and observations", got[k], want[k], {"type": s, "result": k, "model": name}, 1e-10)
        T.event("typed paths compared")
    # A sample path of whole numbers set by the user.
    M = G.model(name, sigma, theta, seed, d)
    n = 201
    G.set_grid(M, n, .01, 0., d)
    X = r.integers(-9, 10, n if d == 1 else (n, d))
    res = []
    for P in (X.astype(float), X.astype(np.int64), X.astype(np.int32)):
        B = G.model(name, sigma, theta, seed, d)
        G.set_grid(B, n, .01, 0., d)
        B.sample_path = P
        t, y, _ = B.collect_obs(5, .5)
        res.append((t, y))
    for q in res[1:]:
        equal(T, "same observations of a whole-number path", q, res[0], {"model": name}, 1e-12)


def whole_params(r, name):
    d = {"DW": 1, "OU": 1, "L63": 3}[name]
    dt = float(G.pick(r, .1, .05)) if d == 1 else .02
    p = {"Output_Name": "Sim", "Model": name, "Ode-method": G.pick(r, *G.METHODS), "Random-Seed": int(r.integers(2 ** 31)),
         "Time-window": {"t0": float(r.integers(-1, 2)), "tf": 0., "dt": dt}, "Noise": {"sys": float(r.integers(1, 3)), "obs": 1.0},
         "Observations": {"density": float(G.pick(r, 2, 3, 4)), "operator": None},
         "Drift": {"theta": [10., 28., 3.] if d == 3 else float(r.integers(1, 3))}, "Prior": {"tau0": float(r.integers(1, 4)), "mu0": float(r.integers(-1, 3))}}
    p["Time-window"]["tf"] = p["Time-window"]["t0"] + (1. if d == 3 else 2.)
    if d == 3:
        p["Noise"]["sys"] = float(r.integers(4, 12))
        p["Noise"]["obs"] = G.pick(r, 2.0, [2., 1., 3.], [[2., 0., 0.], [0., 1., 0.], [0., 0., 3.]])
        if r.random() < .5:
            p["Noise"]["sys"] = G.pick(r, [5., 6., 4.], [[4., 0., 0.], [0., 6., 0.], [0., 0., 5.]])
        if r.random() < .5:
            p["Prior"] = {"tau0": [1., 2., 1.], "mu0": [1., 0., -2.]}
    return p


def as_ints(v):
    if isinstance(v, dict):
        return {k: as_ints(q) for k, q in v.items()}
    if isinstance(v, list):
        return [as_ints(q) for q in v]
    return int(v) if isinstance(v, float) and v == int(v) else v


def files(T, r, i):
    """Parameter files that write 1 or 1.0."""
    name = ("DW", "OU", "L63")[i % 3] if i % 6 else "OU"
    p = whole_params(r, name)
    outs = []
    with tempfile.TemporaryDirectory(prefix="vgmon_") as tmp:
        for k, q in enumerate((p, as_ints(p))):
            f = os.path.join(tmp, f"p{k}.json")
            with open(f, "w") as h:
                json.dump(q, h)
            with open(f) as h:
                s = sims.simulate(json.load(h))
            outs.append({k: np.array(s.output[k], dtype=float) for k in sims.OUT_KEYS})
    T.note(params=p)
    for k in sorted(sims.OUT_KEYS):
        equal(T, "same output from a file of whole numbers", outs[1][k], outs[0][k], {"key": k, "model": name}, 1e-6)
    T.event("files compared")
    T.case(json.dumps(p))


WORKLOADS = [
    Workload("routine", routine, 25, 700, must=["same results from routines"]),
    Workload("large", large, 40, 1500, must=["same moments", "same inverse"]),
    Workload("problem", problem, 96, 4000, must=["same problem"]),
    Workload("paths", paths, 40, 1200, must=["same path and observations", "same observations of a whole-number path"]),
    Workload("files", files, 12, 200, must=["same output from a file of whole numbers"], timeout=600),
]
