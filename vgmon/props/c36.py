"""C36: copies (deepcopy, pickle, forked and spawned processes) behave like the original and are independent of it."""
import copy
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .. import gens as G
from .. import sims
from ..core import REPO, VERIF, Workload

from src.numerics.optim_scg import SCG
from src.var_bayes.gaussian_moments import GaussianMoments
from src.var_bayes.simulation import Simulation, load

RULE = ("objects in random states (before and after use) are copied by copy.deepcopy, by pickle (protocols 2 to 5), into a "
        "forked child and into a fresh interpreter; the copy's answers and random draws are compared with the original's, "
        "then either side is used and changed and the other must not notice. Non-trivial: the object holds state; distinct "
        "by object, way of copying and history.")
ASSUMPTIONS = ["pickle protocols 0 and 1 cannot store classes with __slots__ and are left out"]
KEYS = ("m0", "s0", "mt", "st", "Efx", "Edf", "lamt", "psit")


def warmup():
    G.warm_numba()


def ways(r):
    p = int(r.integers(2, 6))
    return (("deepcopy", copy.deepcopy), (f"pickle protocol {p}", lambda o: pickle.loads(pickle.dumps(o, p))))


def quiet(f, *a, **k):
    with G.silent():
        return f(*a, **k)


def state(v):
    return {q: np.array(v.arg_out[q], dtype=float) for q in KEYS if q in v.arg_out}


def same_state(T, what, got, want, detail=None):
    T.check(what + ": names", set(got) == set(want), {"got": sorted(got), "want": sorted(want)})
    for q in want:
        T.close(what, got[q], want[q], rtol=1e-12, detail={"key": q, "more": detail})


def problems(T, r, i):
    """A variational problem with all its parts."""
    name = ("DW", "OU", "L63", "DW", "OU", "L63", "L96")[i % 7]
    c = G.Case(r, name, G.METHODS[(i // 7) % 4], n=int(G.pick(r, 2, 9, 25)) if name != "L96" else 3, operator=bool(r.random() < .3),
               sigma_full=name == "L63" and bool(r.random() < .6))
    x, y = c.random_x(r), c.random_x(r)
    used = int(r.integers(3))
    v = c.vgp
    if used:
        v.free_energy(x)
    if used == 2:
        v.gradient(x)
    T.note(model=name, method=c.method, used=used)
    for way, cp in ways(r):
        w = cp(v)
        same_state(T, "state of the copy", state(w), state(v), way)
        if used:
            T.close("gradient of the copied state", w.gradient(x), v.gradient(x), rtol=1e-12, detail=way)
        before = state(v)
        Fy, gy = w.free_energy(y), np.array(w.gradient(y))
        same_state(T, "original unaffected by its copy", state(v), before, way)
        F, g = v.free_energy(y), np.array(v.gradient(y))
        T.close("free energy of the copy", Fy, F, rtol=1e-12, detail=way)
        T.close("gradient of the copy", gy, g, rtol=1e-12, detail=way)
        # Changes of one side.
        held = state(w)
        M = v.model
        old = np.array(M.sigma, dtype=float)
        M.sigma = 2.0 * old if np.ndim(old) else float(2.0 * old)
        with np.errstate(all="ignore"):
            v.free_energy(x)
        same_state(T, "copy unaffected by the original", state(w), held, way)
        T.close("copy keeps its parameters", w.free_energy(y), Fy, rtol=1e-12, detail=way)
        M.sigma = old if np.ndim(old) else float(old)
        w.model.theta = np.asarray(w.model.theta) * 1.25 if name in ("L63", "L96") else float(w.model.theta) * 1.25
        if w.likelihood.noise is not None:
            w.likelihood.noise = np.asarray(w.likelihood.noise) * 3.0
        w.free_energy(x)
        T.close("original keeps its parameters", v.free_energy(y), F, rtol=1e-12, detail=way)
        T.close("original keeps its gradient", v.gradient(y), g, rtol=1e-12, detail=way)
        T.event("copies of problems")
        T.event("way " + way)
        if used:
            v.free_energy(x)
        T.case(name, way, used, x)


def parts(T, r, i):
    """Solvers, likelihood, prior, moments and optimiser on their own."""
    name = ("DW", "L63", "OU")[i % 3]
    c = G.Case(r, name, G.METHODS[(i // 3) % 4], n=9, operator=bool(r.random() < .5), sigma_full=bool(r.random() < .6))
    if r.random() < .4:   # correlated noise given later
        c.model.sigma = G.spd(r, c.d, .5, 5.) if c.d > 1 else 1.75
    x = c.random_x(r)
    c.vgp.free_energy(x)
    o = c.vgp.arg_out
    A, b = (x[:c.n], x[c.n:]) if c.single else c.unpack(x)
    mt, st = np.array(o["mt"]), np.array(o["st"])
    dm, ds = r.standard_normal(mt.shape), r.standard_normal(st.shape)
    jm, js = c.like.gradients(mt, st)[:2]
    sig = c.model.sigma
    z = np.abs(r.standard_normal(6)) + .1
    gm = GaussianMoments(r.standard_normal(6), z)
    for way, cp in ways(r):
        for what, obj, use in (
                ("forward solver", c.fwd, lambda k: k(A, b, c.m0, c.S0, sig)),
                ("backward solver", c.bwd, lambda k: k(A, dm, ds, jm, js)),
                ("likelihood", c.like, lambda k: (k(mt, st),) + tuple(k.gradients(mt, st))),
                ("prior", c.kl, lambda k: (k(c.m0, c.S0),) + tuple(k.gradients(c.m0, c.S0, mt[0], st[0]))),
                ("moments", gm, lambda k: [k(q) for q in range(9)] + [k.dm(q) for q in range(1, 9)] + [k.ds(q) for q in range(1, 9)]),
                ("model", c.model, lambda k: (lambda e: (e[0],) + tuple(e[1]) + tuple(e[2]))(k.energy(A, b, mt, st, c.obs_t)))):
            w = cp(obj)
            T.check("a copy is another object", w is not obj, what)
            for k, (p, q) in enumerate(zip(use(w), use(obj))):
                T.close("copied " + what, np.asarray(p, dtype=float), np.asarray(q, dtype=float), rtol=1e-12, detail={"way": way, "part": k})
            T.event("copies of parts")
        T.case(name, way, x)
        # The optimiser with the problem it works on.
        s = SCG(c.vgp.free_energy, c.vgp.gradient, {"max_it": 4, "x_tol": 1e-7, "f_tol": 1e-9})
        w = cp(s)
        p, q = quiet(w, x), quiet(s, x)
        T.close("copied optimiser: point", p[0], q[0], rtol=1e-10, detail=way)
        T.close("copied optimiser: value", np.ravel(p[1])[0], np.ravel(q[1])[0], rtol=1e-10, detail=way)
        for k in ("fx", "dfx", "beta", "f_eval", "df_eval", "MaxIt"):
            T.close("copied optimiser: statistics", np.asarray(w.statistics[k], dtype=float), np.asarray(s.statistics[k], dtype=float),
                    rtol=1e-8, detail={"key": k, "way": way})
        a = np.array(s.statistics["fx"])
        quiet(w, x * 1.5)
        T.check("statistics are not shared with the copy", np.array_equal(a, s.statistics["fx"]), way)
        c.vgp.free_energy(x)
        held = state(c.vgp)
        quiet(w, x * .9)
        same_state(T, "problem unaffected by the copied optimiser", state(c.vgp), held, way)
        T.close("gradient unaffected by the copied optimiser", c.vgp.gradient(x), c.build().gradient(x, eval_fun=True), rtol=1e-10)


def window(r):
    return 0.0, float(G.pick(r, .5, 1.0)), float(G.pick(r, .01, .02))


def noises(M, dens, R):
    t, y, _ = quiet(M.collect_obs, dens, R)
    return np.asarray(t, dtype=float), np.asarray(y, dtype=float)


def draws(T, r, i):
    """Random draws to come belong to the object: a copy made at any moment draws what the original would."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = G.dims(name)
    th = G.rand_theta(r, name) if name != "L63" else np.array([10., 28., 8 / 3])
    seed = G.pick(r, 0, 5, int(r.integers(2 ** 31)), None)
    M = G.model(name, .7 if d == 1 else G.diag_noise(r, d, .5, 2.)[0], th, seed)
    tw = window(r)
    k = int(r.integers(4))
    if k:
        quiet(M.make_trajectory, *tw)
    if k > 1:
        noises(M, 6, .2)
    if k > 2:
        M.rng.standard_normal(3)
    T.note(model=name, seed=seed, history=k)
    for way, cp in ways(r):
        twin, third = cp(M), cp(M)
        if k:
            T.check("path and window are copied", np.array_equal(twin.sample_path, M.sample_path) and np.array_equal(twin.time_window, M.time_window))
            keep = np.array(M.sample_path)
        quiet(third.make_trajectory, *tw)  # must not advance the others
        got = []
        for o in (twin, M):
            quiet(o.make_trajectory, *tw)
            p = np.array(o.sample_path)
            t, y = noises(o, 8, .3)
            got.append((p, t, y, np.array(o.rng.standard_normal(4))))
        for part, a, b in zip(("path", "times", "observations", "generator"), *got):
            T.close("draws of a copy: " + part, a, b, rtol=1e-12, detail=way)
        T.close("draws of another copy", third.sample_path, got[0][0], rtol=1e-12, detail=way)
        if k:
            fresh = cp(M)
            fresh.sample_path[...] = 0.0
            T.check("paths are not shared with the copy", np.array_equal(M.sample_path, got[1][0]))
            T.check("a new path is another array", keep.shape == M.sample_path.shape)
        T.event("copies that draw")
        T.case(name, way, k, str(seed))


def simulations(T, r, i):
    """Copies before setup, between setup and run, and after the run."""
    p = sims.params(r, ("OU", "DW", "L63")[i % 3], n=int(r.integers(8, 13)))
    s = Simulation(p["Output_Name"])
    T.note(params=p)
    way, cp = ways(r)[i % 2]
    early = cp(s)
    quiet(s.setup, p, None)
    ready = cp(s)
    quiet(s.run)
    quiet(ready.run)
    done = cp(s)
    quiet(early.setup, p, None)
    quiet(early.run)
    want = {k: np.array(a, dtype=float) for k, a in s.output.items()}
    for what, o in (("copied before setup", early), ("copied before the run", ready), ("copied after the run", done)):
        T.check("simulation " + what + ": names", set(o.output) == set(want), sorted(o.output))
        for k in want:
            T.close("simulation " + what, np.asarray(o.output[k], dtype=float), want[k], rtol=1e-7, atol=1e-9, detail={"key": k, "way": way})
    done.output["mt"][...] = 0.0
    done.output["extra"] = np.ones(2)
    T.check("output is not shared with the copy", "extra" not in s.output and np.array_equal(s.output["mt"], want["mt"]), way)
    with tempfile.TemporaryDirectory(prefix="vgmon_") as tmp:
        here = os.getcwd()
        os.chdir(tmp)
        try:
            quiet(ready.save)
            got = load(os.listdir(".")[0])
        finally:
            os.chdir(here)
    T.check("a copy saves its results", set(got) == set(want), sorted(got))
    T.close("saved by a copy", got["mt"], want["mt"], rtol=1e-7, atol=1e-9)
    T.event("copies of simulations")
    T.case(way, repr(p))


def answers(v, M, pts):
    """What is asked of the objects in the other process."""
    out = []
    for x in pts:
        out.append(np.array([v.free_energy(x)]))
        out.append(np.array(v.gradient(x)))
    s = SCG(v.free_energy, v.gradient, {"max_it": 3})
    x, fx = quiet(s, pts[0])
    out += [np.array(x), np.ravel(np.asarray(fx, dtype=float))]
    quiet(M.make_trajectory, 0.0, .4, .02)
    out.append(np.array(M.sample_path))
    out.append(noises(M, 5, .1)[1])
    return out


def forked(job):
    """answers(*job) in a forked child."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            with os.fdopen(wr, "wb") as f:
                pickle.dump(answers(*job), f)
            os._exit(0)
        finally:
            os._exit(1)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    return st, data


MAIN = ("import pickle, sys; sys.path[:0] = [%r, %r]\n"
        "from vgmon.props import c36\n"
        "job = pickle.load(open(sys.argv[1], 'rb'))\n"
        "pickle.dump(c36.answers(*job), open(sys.argv[2], 'wb'))\n") % (REPO, VERIF)


def spawned(job):
    with tempfile.TemporaryDirectory(prefix="vgmon_") as tmp:
        a, b = os.path.join(tmp, "in"), os.path.join(tmp, "out")
        with open(a, "wb") as f:
            pickle.dump(job, f)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", MAIN, a, b], capture_output=True, text=True, timeout=200)
        data = open(b, "rb").read() if os.path.exists(b) else b""
        return p.returncode, data, p.stderr[-600:]


def processes(T, r, i):
    """The objects go to a worker process, forked or started anew, as process pools do it."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    c = G.Case(r, name, G.METHODS[(i // 4) % 4], n=9 if name != "L96" else 3)
    pts = [c.random_x(r, .5) for _ in range(2)]
    if r.random() < .5:
        c.vgp.free_energy(pts[1])
    th = np.array([10., 28., 8 / 3]) if name == "L63" else c.theta
    M = G.model(name, .7 if c.d == 1 else .7 * np.eye(c.d), th, int(r.integers(1000)))
    M.rng.standard_normal(2)
    job = (c.vgp, M, pts)
    before = state(c.vgp)
    T.note(model=name, method=c.method)
    st, data = forked(job)
    T.check("forked worker succeeds", st == 0 and data, {"status": st})
    kids = [("forked", pickle.loads(data))]
    code, data, err = spawned(job)
    T.check("spawned worker succeeds", code == 0 and data, {"status": code, "stderr": err})
    kids.append(("spawned", pickle.loads(data)))
    same_state(T, "original unaffected by workers", state(c.vgp), before)
    want = answers(*job)
    for way, got in kids:
        T.check("number of answers", len(got) == len(want))
        for k, (a, b) in enumerate(zip(got, want)):
            T.close("answers of the " + way + " worker", a, b, rtol=1e-9, atol=1e-12, detail={"answer": k})
        T.event("way " + way)
        T.case(name, way, pts[0])


WORKLOADS = [
    Workload("problems", problems, 84, 560, must=["free energy of the copy", "copy keeps its parameters", "original keeps its parameters"]),
    Workload("parts", parts, 48, 360, must=["copied optimiser: point", "copied model"]),
    Workload("draws", draws, 40, 320, must=["draws of a copy: path", "draws of a copy: observations"]),
    Workload("simulations", simulations, 12, 90, must=["simulation copied before the run"]),
    Workload("processes", processes, 8, 48, must=["answers of the forked worker", "answers of the spawned worker"]),
]
