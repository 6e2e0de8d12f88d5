"""C34: work and memory grow in proportion to the number of time points."""
import gc
import json
import os
import subprocess
import sys
import tempfile
import tracemalloc

import numpy as np

from .. import fault
from .. import gens as G
from ..core import REPO, VERIF, Workload

from src.numerics.optim_scg import SCG
from src.numerics.utilities import finite_diff, my_trapz
from src.var_bayes.gaussian_moments import GaussianMoments

RULE = ("each operation is run on windows of n, 2n, 4n and 8n points; the peak of traced memory, the number of executed source "
        "lines of the code under test and the number of calls of user functions are recorded and their growth is judged. "
        "Non-trivial: the largest run takes at least twice the lines or memory of the smallest; distinct by operation and "
        "problem.")
ASSUMPTIONS = ["time spent inside a single NumPy call is not observed, except through the memory it requests"]


def warmup():
    G.warm_numba()


def peak(fn):
    gc.collect()
    tracemalloc.start()
    base = tracemalloc.get_traced_memory()[0]
    out = fn()
    top = tracemalloc.get_traced_memory()[1] - base
    tracemalloc.stop()
    del out
    return top


def judge(T, what, make, sizes, lines=True):
    """`make(n)` returns a callable that does the operation on a window of n points."""
    mem, cnt = [], []
    for n in sizes:
        fn = make(n)
        if n == sizes[0]:
            fn()  # warm
        mem.append(peak(fn))
        if lines:
            cnt.append(fault.lines(fn)[0])
    ratio = sizes[-1] / sizes[0]
    # quadratic growth would multiply by ratio**2; proportional growth by at most ratio
    T.check("memory in proportion to the window", mem[-1] <= 3 * ratio * mem[0] and
            mem[-1] - mem[-2] <= 3 * (mem[-2] - mem[-3]) + 20000 + .5 * mem[-2], {"operation": what, "sizes": sizes, "bytes": mem})
    if lines:
        T.check("lines in proportion to the window", cnt[-1] <= 1.5 * ratio * cnt[0] + 200 and
                cnt[-1] - cnt[-2] <= 2.6 * (cnt[-2] - cnt[-3]) + 200, {"operation": what, "sizes": sizes, "lines": cnt})
    T.event("operations judged")
    T.event("bytes at the peak", mem[-1])
    T.event("lines counted", sum(cnt))


def operations(r, i, note=lambda **k: None):
    """(model, method, observations), sizes, and the operations as functions of the window's size."""
    name = ("DW", "OU", "L63", "L96")[i % 4]
    method = G.METHODS[(i // 4) % 4]
    sizes = (500, 1000, 2000, 4000) if G.dims(name) == 1 else ((100, 200, 400, 800) if name == "L63" else (4, 8, 16, 32))
    obs = G.pick(r, "few", "tenth", "all")
    seed = int(r.integers(1 << 30))
    note(model=name, method=method, observations=obs)

    def build(n):
        q = np.random.default_rng(seed)
        n = int(n)
        idx = {"few": [1, n // 2, n - 2], "tenth": list(range(2, n - 1, 10)), "all": list(range(n))}[obs]
        if name == "L96" and obs == "tenth":
            idx = list(range(0, n, 3))
        return G.Case(q, name, method, n=n, dt=.002, obs=idx)

    def x_of(c):
        A = np.array([2 * np.eye(c.d)] * c.n)
        return c.pack(A, np.full((c.n, c.d), .3))

    def free(n):
        c = build(n)
        x = x_of(c)
        return lambda: c.vgp.free_energy(x)

    def grad(n):
        c = build(n)
        x = x_of(c)
        c.vgp.free_energy(x)
        return lambda: c.vgp.gradient(x)

    def init(n):
        c = build(n)
        return c.vgp.initialization

    def traj(n):
        c = build(n)
        return lambda: c.model.make_trajectory(0., n * .002, .002)

    def observe(n):
        c = build(n)
        c.model.make_trajectory(0., n * .002, .002)
        return lambda: c.model.collect_obs(25 if name != "L96" else 200, .2)

    def opt(n):
        c = build(n)
        x = c.vgp.initialization() if name in ("DW", "OU") and obs != "all" else x_of(c)

        def go():
            with G.silent():
                return SCG(c.vgp.free_energy, c.vgp.gradient, {"max_it": 3, "x_tol": 0., "f_tol": 0.})(x)
        return go
    return (name, method, obs, seed), sizes, {"free_energy": free, "gradient": grad, "initialization": init, "optimisation step": opt,
                                             "trajectory": traj, "observations": observe}


def problem(T, r, i):
    key, sizes, ops = operations(r, i, T.note)
    name = key[0]
    judge(T, "free_energy", ops["free_energy"], sizes)
    judge(T, "gradient", ops["gradient"], sizes)
    judge(T, "initialization", ops["initialization"], sizes)
    judge(T, "optimisation step", ops["optimisation step"], sizes[:3], lines=False)
    # burn-in has a constant cost: large windows
    big = tuple(8 * s for s in sizes) if name in ("DW", "OU") else (1000, 2000, 4000, 8000)
    judge(T, "trajectory", ops["trajectory"], big, lines=name in ("DW", "OU"))
    judge(T, "observations", ops["observations"], big if name != "L96" else (500, 1000, 2000, 4000))
    T.case(*key)


COUNTER = r"""
#include <stddef.h>
#include <stdatomic.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
static _Atomic unsigned long long total, blocks;
static void seen(size_t n) { if (n >= 2048) { total += n; blocks++; } }
void *malloc(size_t n) { seen(n); return __libc_malloc(n); }
void *calloc(size_t k, size_t n) { seen(k * n); return __libc_calloc(k, n); }
void *realloc(void *p, size_t n) { seen(n); return __libc_realloc(p, n); }
unsigned long long vg_total(void) { return total; }
unsigned long long vg_blocks(void) { return blocks; }
"""


def driver(seed, i):
    """In the process with the counting allocator: bytes requested by every operation, window by window."""
    import ctypes
    from ..core import case_rng
    lib = ctypes.CDLL(None)
    lib.vg_total.restype = lib.vg_blocks.restype = ctypes.c_ulonglong
    with G.silent():
        warmup()
        key, sizes, ops = operations(case_rng(seed, "bytes", i), i)
        sizes = {"L63": (400, 800, 1600, 3200), "L96": (32, 64, 128, 256)}.get(key[0], (1000, 2000, 4000, 8000))
        out = {}
        for what, make in ops.items():
            used = []
            for n in sizes if what != "optimisation step" else sizes[:3]:
                fn = make(n)
                if not used:
                    fn()
                gc.collect()
                a, b = lib.vg_total(), lib.vg_blocks()
                fn()
                used.append((lib.vg_total() - a, lib.vg_blocks() - b))
            out[what] = used
    return {"key": [str(k) for k in key], "sizes": sizes, "used": out}


def bytes_requested(T, r, i):
    """Total of the memory requested (not only its peak), seen by a counting allocator: copies of whole arrays at every
    time point or observation are work that no source line shows."""
    with tempfile.TemporaryDirectory(prefix="vgmon_") as tmp:
        src, so = os.path.join(tmp, "count.c"), os.path.join(tmp, "count.so")
        with open(src, "w") as f:
            f.write(COUNTER)
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", src, "-o", so], check=True, capture_output=True)
        code = ("import json, sys; sys.path[:0] = [%r, %r]\nfrom vgmon.props import c34\n"
                "print(); print(json.dumps(c34.driver(%d, %d)))" % (REPO, VERIF, T.seed, i))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=500, cwd=tmp,
                           env=dict(os.environ, LD_PRELOAD=so))
    T.check("the observed process succeeds", p.returncode == 0, {"status": p.returncode, "stderr": p.stderr[-600:]})
    got = json.loads(p.stdout.strip().splitlines()[-1])
    T.note(problem=got["key"], sizes=got["sizes"])
    for what, used in got["used"].items():
        u = [k[0] for k in used]
        # proportional: the differences double; quadratic: they grow by four
        T.check("bytes requested in proportion to the window", u[-1] - u[-2] <= 2.6 * max(u[-2] - u[-3], 0) + 1e5 + .1 * u[-2],
                {"operation": what, "sizes": got["sizes"], "bytes, blocks": used})
        T.event("bytes requested", sum(u))
        T.event("operations judged by their allocations")
    T.case(*got["key"])


def routines(T, r, i):
    d = int(r.integers(1, 5))
    sizes = (1000, 2000, 4000, 8000)

    def trap(n):
        fx, obs = np.ones((n, d)), list(range(0, n, 7))
        return lambda: my_trapz(fx, .1, obs)

    def mom(n):
        g = GaussianMoments(np.ones(n), np.ones(n))
        return lambda: (g(8), g.dm(8), g.ds(8))
    judge(T, "my_trapz", trap, sizes)
    judge(T, "moments", mom, sizes)
    # iterations of the optimiser take no memory
    B = G.spd(r, 40, .01, 100)

    def steps(n):
        def go():
            with G.silent():
                return SCG(lambda x: float(.5 * x @ B @ x + np.cos(x).sum()), lambda x, eval_fun=False: B @ x - np.sin(x),
                           {"max_it": n, "x_tol": 0., "f_tol": 0.})(np.ones(40))
        return go
    mem = [peak(steps(n)) for n in (40, 40, 400, 1600)]
    T.check("iterations of the optimiser take no memory", mem[-1] <= mem[1] + 40000 + 60 * 1600, {"bytes": mem})
    # the same in a long valley, where thousands of iterations are needed, with a long vector
    m = 3000

    def valley(n):
        f = lambda x: float(np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2))

        def g(x, eval_fun=False):
            o = np.zeros_like(x)
            o[:-1] = -400 * x[:-1] * (x[1:] - x[:-1] ** 2) - 2 * (1 - x[:-1])
            o[1:] += 200 * (x[1:] - x[:-1] ** 2)
            return o

        def go():
            with G.silent():
                o = SCG(f, g, {"max_it": n, "x_tol": 0., "f_tol": 0.})
                o(np.linspace(-1.5, 1.2, m))
            T.event("iterations watched for memory", int(o.statistics["MaxIt"]))
            return o.statistics
        return go
    mem = [peak(valley(n)) for n in (30, 30, 300, 1200)]
    T.check("iterations of the optimiser take no memory", mem[-1] <= mem[1] + 40000 + 60 * 1200, {"bytes": mem, "vector": 8 * m})
    calls = []
    for n in (5, 10, 20, 40):
        c = [0]

        def f(x):
            c[0] += 1
            return float(np.sum(x ** 2))
        finite_diff(f, np.ones(n))
        calls.append(c[0])
    T.check("calls of the function by the numerical derivative", all(k <= 3 * n + 3 for k, n in zip(calls, (5, 10, 20, 40))), calls)
    T.case(d, B)


WORKLOADS = [
    Workload("problem", problem, 16, 160, must=["memory in proportion to the window", "lines in proportion to the window"], timeout=600),
    Workload("bytes", bytes_requested, 8, 48, must=["bytes requested in proportion to the window"], timeout=600),
    Workload("routines", routines, 8, 80, must=["iterations of the optimiser take no memory", "iterations watched for memory"]),
]
