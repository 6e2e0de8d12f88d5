"""C12: reproducibility of random paths and observations."""
import subprocess
import sys

import numpy as np

from .. import gens as G
from ..core import Workload, REPO

RULE = ("random seeds (0, 1, huge, random), systems and histories of trajectory / observation draws, interleaved with "
        "other instances and with the global generator; recorded draws of equal seeds must be identical, of different "
        "seeds different. Non-trivial: at least one draw; distinct by seed and history.")


def warmup():
    G.warm_numba()


def spec(r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 10}[name]
    th = {"DW": 1., "OU": 1.5, "L63": np.array([10., 28., 8 / 3]), "L96": 8.0}[name]
    sg = .7 if d == 1 else G.pick(r, 2.0, 2.0 * np.eye(d))
    seed = G.pick(r, 0, 1, 2, 42, 31415926535, 2 ** 64 + 3, int(r.integers(2 ** 31)), np.int64(7))
    return name, d, th, sg, seed


def script(r, d):
    return [(G.pick(r, "path", "path", "obs", "draw"), float(G.pick(r, 0., 0., 2., -.7, 0., 10., 365., -20.)), float(G.pick(r, .2, .5, .2, .5, 1., .63, 1.27, 2.55, 2.56, 5.11, 5.12, 9.99, 10.23, 20.47, float(r.integers(5, 1000)) / 100)), int(G.pick(r, 5, 10, 20)),
             G.logu(r, 1e-3, 5, 1 if d == 1 else d)) for _ in range(6)]


def play(M, ops, d, between=lambda: None):
    out, have = [], False
    for op, t0, tf, k, rn in ops:
        if op == "path" or not have:
            M.make_trajectory(t0, t0 + tf, .01)
            have = True
            out += [np.array(M.sample_path), np.array(M.time_window)]
        elif op == "obs":
            t, y, R = M.collect_obs(k, float(rn[0]) if d == 1 else rn)
            out += [np.array(t), np.array(y), np.array(R)]
        else:
            out.append(M.rng.standard_normal(3))
        between()
    return out


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b))


def histories(T, r, i):
    name, d, th, sg, seed = spec(r, i)
    ops = script(r, d)
    T.note(model=name, seed=str(seed), ops=ops)
    one = play(G.model(name, sg, th, seed, d), ops, d)
    two = play(G.model(name, sg, th, seed, d), ops, d)
    T.check("equal seeds give equal draws", same(one, two))
    # The seed is a number, whatever integer type carries it.
    for kind in (int, np.int8, np.int16, np.int32, np.uint32, np.int64, np.uint64):
        v = int(seed)
        if kind is int or v <= np.iinfo(kind).max:
            alike = play(G.model(name, sg, th, kind(v), d), ops[:2], d)
            T.check("equal seeds of other integer types give equal draws", same(alike, one[:len(alike)]), {"type": kind.__name__, "seed": str(v)})
    # Interleaving with another instance and the global generators changes nothing.
    other = G.model(name, sg, th, 99, d)
    oth_ops = script(r, d)

    def noise():
        np.random.rand(3)
        np.random.seed(int(r.integers(1000)))
        play(other, oth_ops[:1], d)
        G.model("DW", 1., 1., 5).make_trajectory(0., .1, .01)
    three = play(G.model(name, sg, th, seed, d), ops, d, noise)
    T.check("draws do not depend on other instances or global state", same(one, three))
    st = np.random.get_state()
    play(G.model(name, sg, th, seed, d), ops, d)
    st2 = np.random.get_state()
    T.check("global generator untouched", st[0] == st2[0] and np.array_equal(st[1], st2[1]) and st[2:] == st2[2:])
    diff = play(G.model(name, sg, th, int(seed) + 1, d), ops, d)
    T.check("different seeds give different noise", not np.array_equal(one[0][1:], diff[0][1:]))
    M = G.model(name, sg, th, seed, d)
    M.make_trajectory(0., .3, .01)
    p1 = np.array(M.sample_path)
    M.make_trajectory(0., .3, .01)
    T.check("consecutive paths differ", not np.array_equal(p1[1:], M.sample_path[1:]))
    M2 = G.model(name, sg, th, seed, d)
    M2.make_trajectory(0., .3, .01)
    T.check("first path is the seed's first path", np.array_equal(M2.sample_path, p1))
    # Observing again, on the same path or the next one.
    k, R = int(G.pick(r, 5, 20)), float(G.logu(r, .01, 2))
    M.make_trajectory(0., 2., .01)
    e, held = [], []
    for q in range(6):
        t, y, _ = M.collect_obs(k, R if d == 1 or q % 2 else np.full(d, R))
        e.append(np.round((np.asarray(y) - np.asarray(M.sample_path)[t]).ravel(), 11).tobytes())
        held.append((y, np.array(y)))
        if q == 3:
            M.make_trajectory(0., 2., .01)
        elif q == 4:
            M.rng.standard_normal(2)
    T.check("consecutive observations have other noise", len(set(e)) == len(e), len(set(e)))
    T.check("observations handed out stay as they were", all(np.array_equal(p, q) for p, q in held))
    T.event("draw histories compared", 4)
    T.case(seed, ops)


def collisions(T, r, i):
    """Different seeds, however close or far apart, drive different noise (also on long paths and large states)."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": int(G.pick(r, 10, 40))}[name]
    th = {"DW": 1., "OU": 1.5, "L63": np.array([10., 28., 8 / 3]), "L96": 4.0}[name]
    base = int(r.integers(2 ** 31))
    steps = [1, 2, 10, 2 ** 8, 2 ** 15, 2 ** 16, 10 ** 6, 2 ** 24, 10 ** 9, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32,
             2 ** 53, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 128]
    if d > 1:
        steps = [int(q) for q in r.permutation(len(steps))[:5]]
        steps = [1] + [[2, 2 ** 16, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64, 10, 10 ** 9,
                        2 ** 8, 2 ** 15, 10 ** 6, 2 ** 64 - 1, 2 ** 128, 3][q] for q in steps]
    seeds = [0, base] + [base + q for q in steps] + [q for q in steps if q != base]
    seeds = list(dict.fromkeys(seeds))
    n = int(G.pick(r, 20, 300, 700, 1500 if d < 10 else 900))
    dt = .005
    T.note(model=name, d=d, n=n, base=base)
    seen, values = {}, []
    for s in seeds:
        M = G.model(name, .5 if d == 1 else .5 * np.eye(d), th, s, d)
        M.make_trajectory(0., n * dt, dt)
        x = np.array(M.sample_path)
        k = np.round(x[1:], 12).tobytes()
        T.check("different seeds give different noise", k not in seen, {"seeds": [str(s), str(seen.get(k))]})
        seen[k] = s
        t, y, _ = M.collect_obs(20, .09)
        e = (np.asarray(y) - x[np.asarray(t)]).ravel()
        values.append(np.round(e, 11))
        if len(values) % 4 == 1:  # and the same seed repeats itself
            M2 = G.model(name, .5 if d == 1 else .5 * np.eye(d), th, s, d)
            M2.make_trajectory(0., n * dt, dt)
            T.check("equal seeds give equal draws", np.array_equal(M2.sample_path, x))
            M2.make_trajectory(0., n * dt, dt)
            T.check("consecutive paths differ", not np.array_equal(np.asarray(M2.sample_path)[1:], x[1:]))
        T.event("seeds compared")
    if values[0].size:
        T.check("observation noise differs between seeds", len({v.tobytes() for v in values}) == len(values))
    T.case(base, n)


def unseeded(T, r, i):
    name, d, th, sg, _ = spec(r, i)
    a, b = (G.model(name, sg, th, None, d) for _ in range(2))
    np.random.seed(1)
    a.make_trajectory(0., .3, .01)
    np.random.seed(1)
    b.make_trajectory(0., .3, .01)
    T.check("no seed: independent instances", not np.array_equal(a.sample_path[1:], b.sample_path[1:]))
    T.case(name, i)


def zero_seed(T, r, i):
    name, d, th, sg, _ = spec(r, i)
    a, b = G.model(name, sg, th, 0, d), G.model(name, sg, th, 0, d)
    a.make_trajectory(0., .3, .01)
    b.make_trajectory(0., .3, .01)
    T.check("seed 0 is a seed", np.array_equal(a.sample_path, b.sample_path))
    T.case(name, i)


def processes(T, r, i):
    """A fresh interpreter (other hash seed, other import order) draws the same numbers."""
    name, d, th, sg, seed = spec(r, i)
    seed = int(seed)
    code = (f"import sys, numpy as np; sys.path.insert(0, {REPO!r}); import random; random.seed(); np.random.seed()\n"
            f"from src.dynamics.lorenz_63 import Lorenz63\nfrom src.dynamics.double_well import DoubleWell\n"
            f"from src.dynamics.ornstein_uhlenbeck import OrnsteinUhlenbeck\nfrom src.dynamics.lorenz_96 import Lorenz96\n"
            f"import io, contextlib\n"
            f"with contextlib.redirect_stdout(io.StringIO()):\n"
            f"    m = {{'DW': DoubleWell, 'OU': OrnsteinUhlenbeck, 'L63': Lorenz63, 'L96': Lorenz96}}[{name!r}]"
            f"({np.asarray(sg).tolist()!r}, {np.asarray(th).tolist()!r}, {seed!r}{', ' + str(d) if name == 'L96' else ''})\n"
            f"    m.make_trajectory(0., .3, .01)\n    t, y, R = m.collect_obs(10, {.04 if d == 1 else [.04] * d!r})\n"
            f"print(np.asarray(m.sample_path).tobytes().hex()); print(np.asarray(y).tobytes().hex())")
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True,
                       env={"PYTHONHASHSEED": str(int(r.integers(1, 999))), "PYTHONDONTWRITEBYTECODE": "1",
                            "HOME": "/tmp", "PATH": "/usr/bin:/bin"}, timeout=120)
    if p.returncode:
        T.check("fresh process runs", False, p.stderr[-500:])
    M = G.model(name, sg, th, seed, d)
    M.make_trajectory(0., .3, .01)
    t, y, R = M.collect_obs(10, .04 if d == 1 else .04 * np.ones(d))
    a, b = p.stdout.split()
    x2 = np.frombuffer(bytes.fromhex(a)).reshape(np.shape(M.sample_path))
    T.close("path of a fresh process", x2, M.sample_path, rtol=1e-9)
    T.close("observations of a fresh process", np.frombuffer(bytes.fromhex(b)).reshape(np.shape(y)), y, rtol=1e-9)
    T.case(name, seed)


WORKLOADS = [
    Workload("histories", histories, 64, 1600, must=["equal seeds give equal draws"]),
    Workload("collisions", collisions, 16, 320, must=["different seeds give different noise"]),
    Workload("unseeded", unseeded, 8, 40),
    Workload("zero_seed", zero_seed, 8, 20),
    Workload("processes", processes, 4, 24, must=["path of a fresh process"]),
]
