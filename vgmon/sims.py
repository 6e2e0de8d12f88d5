"""End-to-end simulations: parameter sets and a black-box description of the problem they define."""
import copy
import json
import os

import numpy as np

from . import gens as G
from . import refs
from .core import REPO

from src.var_bayes.simulation import Simulation

OUT_KEYS = {"at", "bt", "fx", "m0", "s0", "mt", "st", "Efx", "Edf", "lamt", "psit"}


def params(r, name=None, method=None, n=None, dt=None, seed=None, out="Sim"):
    """Random admissible parameter set, as a json file would give it."""
    name = name or G.pick(r, "DW", "OU", "L63")
    method = method or G.pick(r, *G.METHODS)
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[name]
    dt = dt or float(G.pick(r, .01, .02, .01, .005, .01, G.logu(r, .004, .02)))
    n = n or int(r.integers(12, 25))
    t0 = float(G.pick(r, 0., 0., 1.0, -.5))
    tf = t0 + (n - 1) * dt
    top = int(1.0 / dt) - 1
    least = 1.001 / ((n - 1) * dt)
    dens = int(min(top, np.ceil(least * G.pick(r, 1.01, 2, 3))))
    if d == 1:
        sys = float(G.logu(r, .2, 2))
        theta = float(G.logu(r, .5, 2))
        obs = float(G.logu(r, .02, .5))
    elif d == 3:
        sys = G.pick(r, 10., 5, G.logu(r, 2, 12, 3).tolist(), np.diag(G.logu(r, 2, 12, 3)).tolist())
        theta = G.pick(r, [10., 28., 2.667], r.uniform([8, 20, 2], [12, 30, 3]).tolist())
        obs = G.pick(r, 2.0, 1, G.logu(r, .5, 3, 3).tolist(), np.diag(G.logu(r, .5, 3, 3)).tolist())
    else:
        sys, theta, obs = float(G.pick(r, 4.0, 2.0)), 8.0, float(G.pick(r, 1.0, .5))
    mu0 = float(r.normal())
    tau0 = float(G.logu(r, .2, 2))
    if d == 3 and r.random() < .5:
        mu0, tau0 = r.normal(size=3).tolist(), G.pick(r, G.logu(r, .2, 2, 3).tolist(), np.diag(G.logu(r, .2, 2, 3)).tolist(), G.spd(r, 3, .2, 2.).tolist())
    return {"Output_Name": out, "Model": G.pick(r, name, name.lower()), "Ode-method": G.pick(r, method, method.upper(), method.lower()),
            "Random-Seed": int(seed if seed is not None else G.pick(r, 0, 7, 31415926535, int(r.integers(2 ** 31)))),
            "Time-window": {"t0": t0, "tf": tf, "dt": dt}, "Noise": {"sys": sys, "obs": obs},
            "Observations": {"density": dens, "operator": None}, "Drift": {"theta": theta},
            "Prior": {"tau0": tau0, "mu0": mu0}}


def shipped(which):
    with open(os.path.join(REPO, f"sim_params_{which}.json")) as f:
        return json.load(f)


def simulate(p, sim=None):
    sim = sim or Simulation(p["Output_Name"])
    with G.silent():
        sim.setup(p, None)
        sim.run()
    return sim


def problem(p, m0, s0):
    """The variational problem the parameters define, rebuilt outside of Simulation (same seed)."""
    c = G.Case.__new__(G.Case)
    name = c.name = p["Model"].upper()
    c.method = {m.lower(): m for m in G.METHODS}[p["Ode-method"].lower()]
    d = c.d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[name]
    c.d96 = 40
    c.theta = np.array(p["Drift"]["theta"], dtype=float) if d == 3 else float(p["Drift"]["theta"])
    c.sigma_arg = p["Noise"]["sys"]

    def mat(v, k=d):
        v = np.asarray(v, dtype=float)
        return v * np.eye(k) if v.ndim == 0 else (np.diag(v) if v.ndim == 1 else np.diag(np.diag(v)))
    c.Sig = mat(c.sigma_arg)
    M = c.model = G.model(name, p["Noise"]["sys"], p["Drift"]["theta"], p["Random-Seed"], 40)
    tw = p["Time-window"]
    M.make_trajectory(tw["t0"], tw["tf"], tw["dt"])
    c.dt = float(tw["dt"])
    c.n = len(M.time_window)
    t, y, _ = M.collect_obs(p["Observations"]["density"], p["Noise"]["obs"])
    c.obs_t = list(t)
    c.idx = [int(q) for q in t]
    c.y = np.asarray(y, dtype=float)
    c.R, c.H = mat(p["Noise"]["obs"]), np.eye(d)
    if d == 1:
        c.m0, c.S0 = float(m0), float(s0)
        c.mu0, c.tau0 = float(p["Prior"]["mu0"]), float(p["Prior"]["tau0"])
        Rarg = float(c.R[0, 0])
    else:
        c.m0, c.S0 = np.array(m0, dtype=float), np.array(s0, dtype=float)
        c.mu0 = np.asarray(p["Prior"]["mu0"], dtype=float) * np.ones(d)
        tau0 = np.array(p["Prior"]["tau0"], dtype=float)
        c.tau0 = tau0 if tau0.ndim == 2 else mat(tau0)
        Rarg = c.R
    sd = c.single = d == 1
    c.fwd, c.bwd = G.FwdOde(c.dt, c.method, sd), G.BwdOde(c.dt, c.method, sd)
    c.like = G.GaussianLikelihood(c.y, c.obs_t, Rarg, None, sd)
    c.kl = G.PriorKL0(c.mu0, c.tau0, sd)
    c.vgp = c.build()
    return c


def check_output(T, p, out, strict=True):
    """Judge the output of a simulation against the parameters alone."""
    T.check("output has every documented array", OUT_KEYS <= set(out), sorted(OUT_KEYS - set(out)))
    o = {k: np.array(out[k], dtype=float) for k in OUT_KEYS}
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[p["Model"].upper()]
    c = problem(p, o["m0"] if d > 1 else o["m0"].item(), o["s0"] if d > 1 else o["s0"].item())
    n = c.n
    vec, mat = ((n,), (n,)) if d == 1 else ((n, d), (n, d, d))
    for k, shp in (("at", mat), ("bt", vec), ("mt", vec), ("st", mat), ("Efx", vec), ("Edf", mat), ("lamt", vec), ("psit", mat)):
        T.check("shapes match the time grid", o[k].shape == shp, {"key": k, "got": o[k].shape, "want": shp})
        T.check("output is finite", np.all(np.isfinite(o[k])), k)
    x0 = np.asarray(c.model.sample_path[0], dtype=float)
    T.check("m0 is the perturbed true state", np.all(np.abs(np.reshape(o["m0"], -1) - x0.reshape(-1)) <= .75) and
            np.all(np.reshape(o["m0"], -1) != x0.reshape(-1)), {"m0": o["m0"], "x0": x0})
    T.close("s0 is 0.2", np.reshape(o["s0"], (d, d)), .2 * np.eye(d), rtol=1e-12)
    if d > 1:
        z = np.reshape(o["m0"], -1) - x0.reshape(-1)
        T.check("every component is perturbed on its own", np.unique(np.round(z, 9)).size == d, z)
    T.close("moments start at m0", o["mt"][0], o["m0"].reshape(o["mt"][0].shape), rtol=1e-12)
    T.close("covariances start at s0", o["st"][0], o["s0"].reshape(o["st"][0].shape), rtol=1e-12)
    S = o["st"].reshape(n, d, d)
    T.close("covariances symmetric", S, S.swapaxes(1, 2), rtol=1e-9)
    pd = np.linalg.eigvalsh(S).min() > 0
    # An unconstrained optimiser can leave the stable region of an explicit ODE method: counted, not judged.
    T.event("positive definite posterior" if pd else "optimiser left the stable region")
    x = c.pack(o["at"], o["bt"])
    if not pd:
        A, b = c.unpack(x)
        m_, S_ = refs.fwd_ode(c.method, c.dt, A, b, np.reshape(c.m0, (d,)), np.reshape(c.S0, (d, d)), c.Sig)
        T.close("mt belongs to the returned parameters", o["mt"], np.reshape(m_, o["mt"].shape), rtol=1e-6)
        T.close("st belongs to the returned parameters", o["st"], np.reshape(S_, o["st"].shape), rtol=1e-6)
        T.close("fx is the free energy of the returned parameters (fresh problem)", o["fx"].ravel()[0], c.vgp.free_energy(x), rtol=1e-6)
        return c, {"F": float(o["fx"].ravel()[0])}, np.nan
    ref = c.ref(x)
    T.close("fx is the free energy of the returned parameters", o["fx"].ravel()[0], ref["F"], rtol=1e-8, scale=ref["mag"])
    tol = 1e-8 if d < 40 else 1e-6
    T.close("mt belongs to the returned parameters", o["mt"], np.reshape(ref["m"], o["mt"].shape), rtol=tol)
    T.close("st belongs to the returned parameters", o["st"], np.reshape(ref["S"], o["st"].shape), rtol=tol)
    T.close("Efx belongs to the returned parameters", o["Efx"], np.reshape(ref["Ef"], o["Efx"].shape), rtol=tol)
    T.close("Edf belongs to the returned parameters", o["Edf"], np.reshape(ref["Edf"], o["Edf"].shape), rtol=tol)
    if d < 40 and pd:
        T.close("lamt belongs to the returned parameters", o["lamt"], np.reshape(ref["lam"], o["lamt"].shape), rtol=1e-6,
                scale=np.r_[np.ravel(ref["lam"]), np.ravel(ref["dm"]) * c.dt, np.ravel(ref["jm"])])
        T.close("psit belongs to the returned parameters", o["psit"], np.reshape(ref["psi"], o["psit"].shape), rtol=1e-6,
                scale=np.r_[np.ravel(ref["psi"]), np.ravel(ref["dS"]) * c.dt, np.ravel(ref["jS"])])
    xi = c.vgp.initialization()
    Fi = c.ref(xi, with_gradient=False)["F"]
    if np.isfinite(Fi):
        T.check("optimisation improves on the initialisation", ref["F"] <= Fi + 1e-9 * ref["mag"], {"F": ref["F"], "F0": Fi})
        if np.linalg.norm(c.ref(xi)["g"]) > 1e-2:
            T.check("optimisation moves", ref["F"] < Fi, {"F": ref["F"], "F0": Fi})
    return c, ref, Fi


def frozen(p):
    return json.dumps(p, sort_keys=True), copy.deepcopy(p)
