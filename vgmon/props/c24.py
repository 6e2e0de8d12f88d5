"""C24: compiled kernels are memory safe and mean what their source says."""
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .. import core
from ..core import Workload

RULE = ("batches of random problems that reach every compiled kernel, run in three processes: compiled, compiled with bounds "
        "checking (sanitizer), and interpreted with floating-point traps (division by zero, overflow, invalid operation); no "
        "mode may fail and all must agree. Non-trivial: all three modes answered; distinct by problem.")
ASSUMPTIONS = ["bounds checking and floating-point traps see the kernels written in Python, not NumPy's own C code"]
MODES = {"compiled": {}, "bounds-checked": {"NUMBA_BOUNDSCHECK": "1"}, "interpreted": {"NUMBA_DISABLE_JIT": "1"}}


def batch(T, r, i):
    size = 32
    got = {}
    with tempfile.TemporaryDirectory(prefix="vgmon_c24_") as tmp:
        procs = {}
        for mode, extra in MODES.items():
            env = {"PATH": "/usr/bin:/bin", "HOME": tmp, "PYTHONPATH": core.VERIF, "PYTHONDONTWRITEBYTECODE": "1",
                   "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", **extra}
            path = os.path.join(tmp, mode)
            procs[mode] = (path, subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vgmon.jitdrv", str(T.seed), str(i * size),
                                                   str(size), path], env=env, cwd=tmp, stdout=subprocess.DEVNULL,
                                                  stderr=subprocess.PIPE, text=True))
        for mode, (path, p) in procs.items():
            err = p.communicate(timeout=500)[1]
            T.check("the process survives", p.returncode == 0, {"mode": mode, "status": p.returncode, "err": err[-600:]})
            got[mode] = pickle.load(open(path, "rb"))
    T.check("sanitizers were on", got["bounds-checked"]["mode"][1] and got["interpreted"]["mode"][0] and
            got["compiled"]["mode"] == (False, False), {m: g["mode"] for m, g in got.items()})
    for k in range(size):
        for mode in MODES:
            st, val = got[mode]["results"][k]
            T.check("no sanitizer report", st == "ok", {"mode": mode, "problem": i * size + k, "what": val})
            T.event("problems run " + mode)
        base = got["compiled"]["results"][k][1]
        for mode in ("bounds-checked", "interpreted"):
            other = got[mode]["results"][k][1]
            T.check("same results present", set(other) == set(base))
            for q in base:
                sc = np.abs(np.asarray(base[q], float)).max() + 1e-12
                T.close("modes agree", other[q], base[q], rtol=1e-7, scale=sc, detail={"mode": mode, "what": q})
        T.event("problem kind " + sorted(base)[0])
        T.case(i * size + k, T.seed)


WORKLOADS = [Workload("batch", batch, 5, 60, must=["modes agree", "no sanitizer report"], timeout=700)]
