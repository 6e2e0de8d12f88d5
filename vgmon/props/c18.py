"""C18: an end-to-end simulation solves the problem its parameters describe."""
import json

import numpy as np

from .. import gens as G
from .. import sims
from ..core import Workload

from src.var_bayes.simulation import Simulation

RULE = ("complete setup/run cycles of Simulation over random admissible parameter sets (every model, every ODE method, "
        "scalar / vector / matrix noise and prior, shifted windows) and the shipped files with shortened windows; the "
        "output is judged against a problem rebuilt outside of Simulation from the parameters and the seed. Non-trivial: "
        "the optimiser ran; distinct by parameter set.")
ASSUMPTIONS = ["windows are short (L96: 3-5 points, L63: at most 160); the multipliers of L96 are judged in C07/C01, not here"]


def warmup():
    G.warm_numba()


def pipeline(T, r, i):
    name = ("DW", "OU", "L63")[i % 3]
    method = G.METHODS[(i // 3) % 4]
    p = sims.params(r, name, method, n=int(r.integers(8, 16)) if name == "L63" else None)
    text = json.dumps(p, sort_keys=True)
    T.note(params=p)
    sim = sims.simulate(p)
    T.check("parameters untouched", json.dumps(p, sort_keys=True) == text)
    c, ref, Fi = sims.check_output(T, p, sim.output)
    T.event("simulations judged")
    T.event("free energy dropped" if ref["F"] < Fi else "free energy equal")
    T.case(text)


def long(T, r, i):
    """Windows of the length the shipped files use."""
    name = ("DW", "OU", "L63", "OU", "DW", "DW")[i % 6]
    method = G.METHODS[int(r.integers(4))]
    n = int(r.integers(60, 160)) if name == "L63" else int(r.integers(400, 1201))
    p = sims.params(r, name, method, n=n, dt=.01 if name != "L63" else .01)
    p["Observations"]["density"] = int(G.pick(r, 2, 5, 2))
    T.note(params=p)
    sim = sims.simulate(p)
    c, ref, Fi = sims.check_output(T, p, sim.output)
    T.event("long simulations judged")
    T.event("observations in long simulations", len(c.idx))
    T.case(json.dumps(p, sort_keys=True))


def as_arrays(r, v):
    """The same parameters given as numpy values (integers where they are whole)."""
    if isinstance(v, dict):
        return {k: (as_arrays(r, w) if k not in ("Time-window", "Observations") else dict(w)) for k, w in v.items()}
    if isinstance(v, list):
        a = np.array(v)
        if r.random() < .3:
            a.setflags(write=False)
        return a
    return v


def snapshot(v):
    return {k: snapshot(w) for k, w in v.items()} if isinstance(v, dict) else (v.copy() if isinstance(v, np.ndarray) else v)


def unchanged(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(unchanged(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def arrays(T, r, i):
    """Parameters given as arrays: same answer as lists, and the caller's arrays stay as they are."""
    p = sims.params(r, ("L63", "L63", "OU", "DW")[i % 4], n=int(r.integers(7, 11)))
    if p["Model"].upper() == "L63":
        k = i % 3
        p["Prior"]["mu0"] = r.normal(size=3).tolist() if k else [1, -2, 0]
        p["Prior"]["tau0"] = G.logu(r, .2, 2, 3).tolist() if k == 1 else (G.spd(r, 3, .2, 2.).tolist() if k else [1, 2, 1])
        p["Noise"]["sys"] = G.logu(r, 2, 12, 3).tolist() if k else [4, 8, 6]
        p["Noise"]["obs"] = np.diag(G.logu(r, .5, 3, 3)).tolist() if k else [1, 2, 3]
    q = as_arrays(r, p)
    if p["Model"].upper() != "L63":
        q["Prior"] = {k: np.float64(v) for k, v in q["Prior"].items()}
        q["Noise"] = {k: np.float64(v) for k, v in q["Noise"].items()}
    text, keep = json.dumps(p, sort_keys=True), snapshot(q)
    want = sims.simulate(p).output
    s = Simulation("arrays")
    for run in range(2):
        sims.simulate(q, s)
        T.check("parameters untouched", unchanged(q, keep), {"now": q, "before": keep})
        T.check("parameters untouched", json.dumps(p, sort_keys=True) == text)
        for k in sims.OUT_KEYS:
            T.close("arrays describe the same simulation", np.asarray(s.output[k], dtype=float), np.asarray(want[k], dtype=float), rtol=1e-10, detail=k)
    T.event("simulations with array parameters")
    T.case(text)


def shipped(T, r, i):
    which = ("DW", "L3D", "L40D")[i % 3]
    p = sims.shipped(which)
    n = {"DW": 101, "L3D": 41, "L40D": 3}[which]
    if i >= 3:  # thorough: other seeds and lengths
        n = {"DW": int(r.integers(101, 202)), "L3D": int(r.integers(31, 61)), "L40D": int(r.integers(3, 5))}[which]
        p["Random-Seed"] = int(r.integers(2 ** 31))
    p["Time-window"]["tf"] = (n - 1) * p["Time-window"]["dt"]
    if which == "L40D":
        p["Observations"]["density"] = 99
    if which == "DW" and i < 3:
        p["Observations"]["density"] = 5
    T.note(which=which, n=n)
    sim = sims.simulate(p)
    sims.check_output(T, p, sim.output)
    T.event("simulations judged")
    T.case(json.dumps(p, sort_keys=True))


def interplay(T, r, i):
    """Several simulations set up, run and re-run in arbitrary order equal fresh ones."""
    ps = [sims.params(r, ("DW", "OU")[k % 2], n=9) for k in range(3)]
    want = [sims.simulate(p).output for p in ps]
    obj = [Simulation("s%d" % k) for k in range(3)]
    with G.silent():
        for k in r.permutation(3):
            obj[k].setup(ps[k], None)
        for k in r.permutation(3):
            obj[k].run()
    for k in range(3):
        for q in sims.OUT_KEYS:
            T.close("simulations do not interfere", np.asarray(obj[k].output[q], dtype=float), np.asarray(want[k][q], dtype=float), rtol=1e-12,
                    detail={"key": q})
    # One object re-used for another problem.
    k = int(r.integers(1, 3))
    again = sims.simulate(ps[k], obj[0])
    for q in sims.OUT_KEYS:
        T.close("a re-used simulation forgets the previous problem", np.asarray(again.output[q], dtype=float),
                np.asarray(want[k][q], dtype=float), rtol=1e-12, detail={"key": q})
    T.check("no stale output", set(again.output) == set(want[k]), sorted(again.output))
    T.case(json.dumps(ps, sort_keys=True))


WORKLOADS = [
    Workload("pipeline", pipeline, 72, 900, must=["fx is the free energy of the returned parameters"], timeout=400),
    Workload("long", long, 12, 120, must=["fx is the free energy of the returned parameters"], timeout=800),
    Workload("arrays", arrays, 12, 160, must=["arrays describe the same simulation"], timeout=400),
    Workload("shipped", shipped, 3, 24, must=["st belongs to the returned parameters"], timeout=800),
    Workload("interplay", interplay, 8, 80, timeout=400),
]
