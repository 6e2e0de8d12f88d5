"""Workload of C24, run in a process of its own under one numba mode: python -m vgmon.jitdrv SEED FIRST COUNT OUT"""
import pickle
import sys
import warnings

sys.path.insert(0, "/repo")

import numpy as np  # noqa: E402

from vgmon import gens as G  # noqa: E402
from vgmon.core import case_rng  # noqa: E402
from src.numerics.utilities import chol_inv, log_det, safe_log, ut_approx  # noqa: E402


def special(r, n):
    """States with exact zeros, repeated and signed values, extreme magnitudes."""
    k = int(r.integers(7))
    if k == 0:
        x = np.zeros(n)
        x[int(r.integers(n))] = float(r.normal())
    elif k == 1:
        x = r.standard_normal(n)
        x[int(r.integers(n))] = G.pick(r, 0.0, -0.0)
    elif k == 2:
        x = r.integers(-2, 3, n).astype(float)
    elif k == 3:
        x = np.full(n, G.pick(r, 0.0, -0.0, 1.0, -3.5, 8.0))
    elif k == 4:
        x = r.standard_normal(n) * G.logu(r, 1e-60, 1e60)
    elif k == 5:
        x = r.standard_normal(n) * G.logu(r, 1e-200, 1e-100, n)
    else:
        x = np.where(r.random(n) < .5, 0.0, r.standard_normal(n))
    return x


def call(out, label, mod, name, *args):
    """A kernel called by its name, if the module still has it with these arguments."""
    f = getattr(mod, name, None)
    if f is None:
        return
    try:
        v = f(*args)
    except TypeError:
        return
    for q, w in enumerate(v if isinstance(v, tuple) else (v,)):
        out["%s %d" % (label, q)] = np.array(w)


def job(r, i):
    """Labelled results of one random problem."""
    out = {}
    kind = i % 8
    if kind == 6:
        import src.dynamics.lorenz_63 as K3
        import src.dynamics.lorenz_96 as K9
        out["kernel states"] = 0.0
        for q in range(12):
            x = special(r, 3)
            u = G.pick(r, np.array([10., 28., 8 / 3]), special(r, 3) if q % 3 else r.uniform(-5, 30, 3))
            if np.abs(u).max() < 1e10 or np.abs(x).max() < 1e10:
                call(out, "l63 %d" % q, K3, "l63", x, u)
            d = int(G.pick(r, 10, 11, 12, 16, 23, 40, 65))
            x = special(r, d)
            call(out, "l96 %d" % q, K9, "l96", x, np.asarray(float(G.pick(r, 8.0, 0.0, -2.0))))
            call(out, "l96 jacobian %d" % q, K9, "E96_drift_dx", x)
            for name in ("fwd_1", "bwd_1", "bwd_2", "shift_vectors"):
                call(out, "%s %d" % (name, q), K9, name, x)
            if q % 2:  # strided and Fortran-ordered memory
                z = np.zeros((3, d))
                z[1] = x
                call(out, "l96 strided %d" % q, K9, "l96", np.asfortranarray(z)[1], np.asarray(8.0))
                call(out, "l96 jacobian strided %d" % q, K9, "E96_drift_dx", np.asfortranarray(z)[1])
        return out
    if kind == 7:
        # Marginals centred on special states, evaluated through the public energies.
        d = int(G.pick(r, 10, 12, 15))
        M = G.model("L96", float(G.logu(r, .1, 2)), float(G.pick(r, 8.0, 0.0, -1.0)), 1, d)
        G.set_grid(M, 3, .01, 0., d)
        m = np.array([special(r, d) for _ in range(3)])
        m[np.abs(m) > 1e3] = 1e3
        S = np.array([G.pick(r, np.eye(d), G.spd(r, d, .1, 2.)) for _ in range(3)])
        A, b = np.array([G.pick(r, np.zeros((d, d)), np.eye(d)) for _ in range(3)]), np.zeros((3, d))
        E, (f, J), g = M.energy(A, b, m, S, [1])
        out["L96 energy"], out["L96 mean drift"], out["L96 mean jacobian"] = E, np.array(f), np.array(J)
        out["L96 dm"], out["L96 dS"] = np.array(g[0]), np.array(g[1])
        th = G.pick(r, np.zeros(3), np.array([10., 0., 0.]), np.array([0., 28., 2.]), np.array([1., 1., 1.]))
        M = G.model("L63", float(G.logu(r, 1e-6, 1.)), th, int(r.integers(2 ** 31)))
        M.make_trajectory(0., .2, .01)
        out["L63 special path"] = np.array(M.sample_path)
        M = G.model("L96", float(G.logu(r, 1e-6, .1)), 0.0, int(r.integers(2 ** 31)), d)
        M.make_trajectory(0., .05, .01)
        out["L96 special path"] = np.array(M.sample_path)
        return out
    if kind == 0:
        d = int(G.pick(r, 10, 11, 12, 13, 17, 40, 64, 101))
        M = G.model("L96", float(G.logu(r, .1, 2)), float(r.uniform(-2, 9)), int(r.integers(2 ** 31)), d)
        M.make_trajectory(0., .05, .005)
        out["L96 path d=%d" % d] = np.array(M.sample_path)
    elif kind == 1:
        M = G.model("L63", float(G.logu(r, .1, 5)), np.array([10., 28., 8 / 3]) * r.uniform(.9, 1.1, 3), int(r.integers(2 ** 31)))
        M.make_trajectory(0., .3, .01)
        out["L63 path"] = np.array(M.sample_path)
        t, y, R = M.collect_obs(10, 1.0)
        out["L63 obs"] = np.array(y)
    elif kind == 2:
        d = int(G.pick(r, 10, 11, 14))
        c = G.Case(r, "L96", G.pick(r, *G.METHODS), n=3, dt=.002, d96=d)
        x = c.random_x(r, .3)
        out["L96 free energy"] = c.vgp.free_energy(x)
        out["L96 gradient"] = np.array(c.vgp.gradient(x))
        out["L96 drift"] = np.array(c.vgp.arg_out["Efx"])
        out["L96 jacobian"] = np.array(c.vgp.arg_out["Edf"])
    elif kind == 3:
        name = G.pick(r, "DW", "OU", "L63")
        c = G.Case(r, name, G.pick(r, *G.METHODS), n=int(G.pick(r, 2, 9)), dt=.005)
        x = c.random_x(r, .3)
        out[name + " free energy"] = c.vgp.free_energy(x)
        out[name + " gradient"] = np.array(c.vgp.gradient(x))
    elif kind == 4:
        d = int(G.pick(r, 1, 2, 3, 7, 20, 33, 64))
        X = G.spd(r, d, .01, 100.)
        P, C = chol_inv(X)
        out["chol_inv"], out["chol factor"], out["log_det"] = np.array(P), np.array(C), log_det(X)
        y, Y = ut_approx(lambda z: np.tanh(z), r.standard_normal(d), X)
        out["ut mean"], out["ut covariance"] = np.array(y), np.array(Y)
    else:
        for shape in ((5,), (3, 4), (2, 3, 2)):
            a = G.logu(r, 1e-12, 1e12, shape)
            a.ravel()[0] = G.pick(r, 1.0, 1e-300, 1e300, 1e-8)
            out["safe_log %d" % len(shape)] = np.array(safe_log(a))
        out["safe_log scalar"] = np.array(safe_log(float(G.logu(r, 1e-5, 1e5))))
    return out


def main():
    seed, first, count, path = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    res = []
    warnings.simplefilter("error", RuntimeWarning)
    with np.errstate(divide="raise", over="raise", invalid="raise"):
        for i in range(first, first + count):
            try:
                res.append(("ok", job(case_rng(seed, "jit", i), i)))
            except Exception as e:
                import traceback
                res.append(("error", repr(e)[:300] + traceback.format_exc()[-900:]))
    import numba
    with open(path, "wb") as f:
        pickle.dump({"mode": (bool(numba.config.DISABLE_JIT), bool(numba.config.BOUNDSCHECK)), "results": res}, f)


main()
