"""Workload of C33, run in a process of its own: python -m vgmon.envdrv SEED COUNT OUT ORDER.  Writes labelled results."""
import importlib
import os
import pickle
import sys
import threading
import warnings

sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")
seed, count, out_path, order = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
ALL = ["src.numerics.utilities", "src.numerics.optim_scg", "src.dynamics.lorenz_96", "src.dynamics.lorenz_63", "src.var_bayes.simulation",
       "src.var_bayes.gaussian_like", "src.var_bayes.prior_kl0", "src.dynamics.double_well", "src.var_bayes.variational", "vgpa_main"]
for k in order.split(","):
    if k:
        importlib.import_module(ALL[int(k) % len(ALL)])

import numpy as np  # noqa: E402

from vgmon import gens as G  # noqa: E402
from vgmon import sims  # noqa: E402
from vgmon.core import case_rng  # noqa: E402
from src.numerics.optim_scg import SCG  # noqa: E402
from src.numerics.utilities import chol_inv, finite_diff, log_det, my_trapz, safe_log, ut_approx  # noqa: E402
from src.var_bayes.gaussian_moments import GaussianMoments  # noqa: E402
from src.var_bayes.simulation import Simulation, load  # noqa: E402

RES = {}


def put(label, v):
    if isinstance(v, (tuple, list)) and any(np.ndim(q) for q in v):
        for k, q in enumerate(v):
            put(f"{label}/{k}", q)
    else:
        RES[label] = np.array(v)


def attempt(label, fn):
    try:
        v = fn()
    except Exception as e:
        RES[label] = "raises " + type(e).__name__
        return
    if v is None:
        RES[label] = "accepted"
    else:
        put(label, v)


def job(r, i, L):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = G.dims(name)
    c = G.Case(r, name, G.METHODS[(i // 4) % 4], n=8 if name != "L96" else 2, operator=name != "L96" and bool(r.random() < .4))
    x = c.random_x(r)
    put(L + "free energy", c.vgp.free_energy(x))
    put(L + "gradient", c.vgp.gradient(x))
    for k in ("mt", "st", "Efx", "Edf", "lamt", "psit"):
        put(L + k, c.vgp.arg_out[k])
    put(L + "energy gradients", c.model.energy(*[np.reshape(q, (c.n,) if d == 1 else s) for q, s in
                                                 zip(c.unpack(x), ((c.n, d, d), (c.n, d)))], c.vgp.arg_out["mt"], c.vgp.arg_out["st"], c.idx)[2])
    put(L + "likelihood gradients", c.like.gradients(c.vgp.arg_out["mt"], c.vgp.arg_out["st"]))
    put(L + "divergence", c.kl(c.m0, c.S0))
    for disp in (False, True):
        q = c.build()
        put(L + "optimised", SCG(q.free_energy, q.gradient, {"max_it": 6 if d < 10 else 2, "display": disp})(x.copy())[1])
    M = G.model(name, c.sigma_arg, c.theta, 11)
    M.make_trajectory(.5, .9, .01)
    put(L + "path", M.sample_path)
    put(L + "window", M.time_window)
    put(L + "observations", M.collect_obs(20, .2))
    if d > 1:
        put(L + "masked observations", M.collect_obs(10, .2, np.arange(d) < 2))
    n = max(d, 2)
    S, v = G.spd(r, n), r.standard_normal(n)
    put(L + "chol_inv", chol_inv(S))
    put(L + "log_det", log_det(S))
    put(L + "safe_log", safe_log(np.array([0., 1e-320, 1e308, 2.])))
    put(L + "my_trapz", my_trapz(x, .1, [0, 3, 4]))
    put(L + "ut_approx", ut_approx(np.sin, v, S))
    put(L + "finite_diff", finite_diff(lambda q: float(np.sum(np.cos(q))), v))
    put(L + "moments", [GaussianMoments(v, v ** 2)(k) for k in range(9)])
    # rejections
    cls = G.MODELS[name]
    extra = {"L96": {"dim_d": 10}}.get(name, {})
    bads = [-1.0, 0.0] if d == 1 else [-np.eye(d), np.diag([1.0] * (d - 1) + [-1e-3]), np.eye(d + 1), np.ones((d, d, d)), np.ones(d + 1), -1.0]
    for k, b in enumerate(bads):
        attempt(f"{L}bad noise {k}", lambda: cls(b, c.theta, 1, **extra) and None)
        if d == 1 or np.ndim(b) == 2:
            attempt(f"{L}bad noise assigned {k}", lambda: setattr(c.model, "sigma", b))
            put(f"{L}noise after {k}", c.model.sigma)
    if name == "OU":
        attempt(L + "bad drift", lambda: cls(1.0, -1.0, 1) and None)
        attempt(L + "bad drift assigned", lambda: setattr(c.model, "theta", 0.0))
    if name == "L96":
        attempt(L + "few dimensions", lambda: cls(1.0, 8.0, 1, 9) and None)
    fresh = G.model(name, c.sigma_arg, c.theta, 2)
    attempt(L + "no path", lambda: fresh.sample_path)
    attempt(L + "no window", lambda: fresh.time_window)
    attempt(L + "no observations", lambda: fresh.collect_obs(5, .1))
    attempt(L + "too dense", lambda: M.collect_obs(1000, .1))
    attempt(L + "unknown method", lambda: G.FwdOde(.1, "rk17", True) and None)
    attempt(L + "unknown method backwards", lambda: G.BwdOde(.1, "rk17", True) and None)
    attempt(L + "wrong order", lambda: GaussianMoments(v, v ** 2)(9))
    attempt(L + "wrong order dm", lambda: GaussianMoments(v, v ** 2).dm(0))
    attempt(L + "wrong order ds", lambda: GaussianMoments(v, v ** 2).ds(9))
    attempt(L + "wrong shapes", lambda: GaussianMoments(v, np.ones(n + 1)) and None)
    attempt(L + "indefinite", lambda: chol_inv(-S)[0])
    attempt(L + "indefinite determinant", lambda: log_det(-S))
    attempt(L + "rectangular determinant", lambda: log_det(np.ones((2, 3))))
    attempt(L + "degenerate ut", lambda: ut_approx(np.sin, v, -S)[0])


def simulation(r, i, L):
    p = sims.params(r, ("OU", "DW", "L63")[i % 3], ("Heun", "RK2", "RK4")[i % 3], n=int(r.integers(7, 10)), out="Env run")
    s = sims.simulate(p)
    put(L + "optimum", s.output["fx"])
    s.save()
    put(L + "files", sorted(os.listdir(".")))
    data = load("Env_run.h5")
    put(L + "saved arrays", sorted(data))
    put(L + "saved optimum", data["fx"])
    put(L + "saved means", data["mt"])
    attempt(L + "unknown model", lambda: Simulation("x").setup(dict(p, Model="none"), None))
    q = dict(p)
    del q["Prior"]
    attempt(L + "missing part", lambda: Simulation("x").setup(q, None))
    attempt(L + "no file", lambda: load("nothing.h5"))
    attempt(L + "no name", lambda: load())


def main():
    for i in range(count):
        with G.silent():
            if i % 5 == 4:
                simulation(case_rng(seed, "envsim", i), i // 5, f"s{i} ")
            else:
                job(case_rng(seed, "env", i), i, f"{i} ")


if os.environ.get("VGMON_THREAD"):
    t = threading.Thread(target=main)
    t.start()
    t.join()
else:
    main()
with open(out_path, "wb") as f:
    pickle.dump({k: (v if isinstance(v, str) else (v.dtype.kind, v)) for k, v in RES.items()}, f)
