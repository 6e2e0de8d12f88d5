"""C33: results do not depend on how and where the interpreter was started."""
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from ..core import VERIF, Workload

RULE = ("one seeded program over the public interface (evaluations, optimisation, paths, observations, numerical routines, "
        "rejections of bad input, whole simulations with files) run in fresh interpreters that differ in optimisation level, "
        "hash seed, order of imports, locale, time zone, working directory, BLAS threads, development mode, thread and "
        "standard streams; every labelled result must agree with the plain run. Non-trivial: the interpreter got the "
        "variation; distinct by variation and seed.")
ASSUMPTIONS = ["numbers may differ by rounding (other BLAS paths), at most 1e-6 of their scale"]

VARIANTS = {
    "optimised": dict(flags=["-O"]), "optimised twice": dict(flags=["-OO"]), "hash seed 1": dict(env={"PYTHONHASHSEED": "1"}),
    "hash seed 77": dict(env={"PYTHONHASHSEED": "77"}), "random hashes": dict(env={"PYTHONHASHSEED": "random"}),
    "reversed imports": dict(order="9,8,7,6,5,4,3,2,1,0"), "optimiser first": dict(order="1"), "L96 first": dict(order="2,8"), "program first": dict(order="9"),
    "C locale": dict(env={"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0"}), "time zone": dict(env={"TZ": "Pacific/Kiritimati"}),
    "deep folder": dict(deep=True), "more BLAS threads": dict(env={"OPENBLAS_NUM_THREADS": "4", "OMP_NUM_THREADS": "4", "NUMBA_NUM_THREADS": "4"}),
    "development mode": dict(flags=["-X", "dev"]), "other thread": dict(env={"VGMON_THREAD": "1"}), "closed input": dict(stdin=True),
    "optimised, other hashes and imports": dict(flags=["-O"], env={"PYTHONHASHSEED": "5"}, order="7,3,1"),
    "closed output": dict(env={"VGMON_LOUD": "1"}, closed=(1,)), "closed streams": dict(env={"VGMON_LOUD": "1"}, closed=(0, 1, 2)),
    "isolated streams": dict(env={"VGMON_LOUD": "1", "PYTHONIOENCODING": "ascii:strict", "PYTHONUNBUFFERED": "", "COLUMNS": "20"}),
}
NAMES = sorted(VARIANTS)


def play(tmp, seed, count, flags=(), env=None, order="", deep=False, stdin=False, closed=()):
    out = os.path.join(tmp, "out.pkl")
    cwd = os.path.join(tmp, "run", *(["a b", "c"] if deep else []))
    os.makedirs(cwd)
    e = dict(os.environ, NUMBA_CACHE_DIR=os.path.join(tmp, "nb"), PYTHONPATH=VERIF, **(env or {}))
    args = [sys.executable, "-W", "ignore", *flags, "-m", "vgmon.envdrv", str(seed), str(count), out, order]
    if closed:
        args = ["/bin/sh", "-c", 'exec "$@" ' + " ".join(f"{k}>&-" for k in closed), "sh"] + args
    q = subprocess.run(args, cwd=cwd, env=e,
                       stdin=subprocess.DEVNULL if stdin else None, capture_output=True, text=True, timeout=600)
    if q.returncode or not os.path.exists(out):
        return None, q.stderr[-1500:]
    with open(out, "rb") as f:
        return pickle.load(f), ""


def variation(T, r, i):
    name = NAMES[i % len(NAMES)]
    # The plain run of this seed is repeated by every case: results of equal runs are compared as well.
    seed, count = T.seed * 100 + i // len(NAMES), 15
    T.note(variation=name, seed=seed)
    with tempfile.TemporaryDirectory(prefix="vgmon_") as tmp, tempfile.TemporaryDirectory(prefix="vgmon_") as tmp2:
        want, err = play(tmp, seed, count)
        T.check("the plain run ends", want is not None, err)
        got, err = play(tmp2, seed, count, **VARIANTS[name])
    T.check("the program runs under the variation", got is not None, {"variation": name, "err": err})
    T.check("same results exist", set(got) == set(want), {"variation": name, "differ": sorted(set(got) ^ set(want))[:6]})
    for k in want:
        a, b = got[k], want[k]
        det = {"variation": name, "result": k}
        if isinstance(b, str) or isinstance(a, str):
            T.check("same acceptance and rejection", isinstance(a, str) and isinstance(b, str) and a == b, {**det, "got": repr(a)[:100], "want": repr(b)[:100]})
            T.event("rejections compared" if isinstance(b, str) and b != "accepted" else "acceptances compared")
        elif b[0] in "US":
            T.check("same names and files", np.array_equal(a[1], b[1]), {**det, "got": a[1], "want": b[1]})
        else:
            g, w = np.asarray(a[1], dtype=float), np.asarray(b[1], dtype=float)
            T.check("same shape", g.shape == w.shape, det)
            fin = np.isfinite(w)
            T.check("same finite results", np.array_equal(np.isfinite(g), fin), det)
            if fin.any():
                T.close("same numbers", g[fin], w[fin], rtol=1e-6, atol=1e-12, detail=det)
            T.event("arrays compared")
    T.event("variations compared")
    T.case(name, seed)


WORKLOADS = [Workload("variation", variation, len(NAMES), 6 * len(NAMES), must=["same numbers", "same acceptance and rejection", "rejections compared"], timeout=900)]
