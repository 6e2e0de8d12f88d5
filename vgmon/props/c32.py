"""C32: settings of the process that belong to the caller are left alone."""
import contextlib
import builtins
import decimal
import faulthandler
import gc
import io
import json
import locale
import logging
import os
import random
import resource
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import warnings

import h5py
import numba
import numpy as np
import pandas

from .. import fault
from .. import gens as G
from .. import sims
from ..core import REPO, VERIF, Workload

from src.numerics.optim_scg import SCG
from src.numerics.utilities import chol_inv, finite_diff, log_det, my_trapz, safe_log, ut_approx
from src.var_bayes.gaussian_moments import GaussianMoments
from src.var_bayes.simulation import Simulation, load

RULE = ("the caller's settings (floating-point error handling, print options, warning filters, both global random generators, "
        "working directory, environment, import path, standard streams, signal handlers, hooks, recursion limit, garbage "
        "collection, locale, umask, limits, logging, thread switch interval, files) are set to unusual values and compared "
        "before and after every public operation, also after operations that fail or are interrupted, and after importing "
        "each module in a fresh process. Non-trivial: the operation ran under unusual settings; distinct by operation.")
ASSUMPTIONS = ["third-party packages are imported before the settings are recorded", "standard output is written to by design"]


def warmup():
    G.warm_numba()


def _called(kind, flag):
    pass


def state():
    st = np.random.get_state()
    pr = random.getstate()
    mask = os.umask(0)
    os.umask(mask)
    log = logging.getLogger()
    return {
        "floating point errors": repr(sorted(np.geterr().items())), "error callback": id(np.geterrcall()),
        "print options": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        "warning filters": repr(warnings.filters), "warning output": id(warnings.showwarning),
        "global numpy generator": (st[0], st[1].tobytes(), st[2:]), "global generator": repr(pr)[:20000],
        "working directory": os.getcwd(), "files": sorted(os.listdir(".")), "environment": dict(os.environ),
        "import path": list(sys.path), "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "signals": {s: id(signal.getsignal(s)) for s in signal.valid_signals()},
        "timers": signal.getitimer(signal.ITIMER_VIRTUAL), "hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.displayhook)),
        "tracing": id(sys.getprofile()), "recursion": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "locale": locale.setlocale(locale.LC_ALL),
        "decimals": repr(decimal.getcontext())[:200], "umask": mask, "limits": resource.getrlimit(resource.RLIMIT_NOFILE),
        "stack": resource.getrlimit(resource.RLIMIT_STACK), "address space": resource.getrlimit(resource.RLIMIT_AS),
        "logging": (log.level, len(log.handlers), logging.root.manager.disable), "argv": list(sys.argv),
        "threads": threading.stack_size(), "nice": os.nice(0), "affinity": sorted(os.sched_getaffinity(0)),
        "integer digits": sys.get_int_max_str_digits(), "json": (id(json.dumps), id(json.load)), "numpy": (id(np.dot), id(np.random.standard_normal)),
        "builtins": {k: id(v) for k, v in vars(builtins).items() if k != "_"}, "numba threads": numba.get_num_threads(), "jit": numba.config.DISABLE_JIT,
        "h5py": repr((h5py.get_config().track_order, h5py.get_config().complex_names)), "fault handler": faulthandler.is_enabled(),
        "table options": repr([pandas.get_option(k) for k in ("display.max_rows", "display.precision", "mode.chained_assignment")]),
        "sockets": socket.getdefaulttimeout(), "bytecode": sys.dont_write_bytecode, "traceback limit": getattr(sys, "tracebacklimit", None),
    }


class unusual:
    """Settings no library default equals."""

    def __init__(self, r):
        self.r = r

    def __enter__(self):
        r = self.r
        self.np, self.call = np.geterr(), np.seterrcall(_called)
        np.seterr(**{k: G.pick(r, "ignore", "warn", "call") for k in ("divide", "over", "under", "invalid")})
        self.po = np.get_printoptions()
        np.set_printoptions(precision=int(r.integers(3, 15)), threshold=int(r.integers(5, 900)))
        self.wf = warnings.filters[:]
        warnings.simplefilter(G.pick(r, "ignore", "default", "once"))
        np.random.seed(int(r.integers(1 << 30)))
        random.seed(int(r.integers(1 << 30)))
        self.gc = gc.get_threshold()
        gc.set_threshold(int(r.integers(300, 3000)), 10, 10)
        self.gce = gc.isenabled()
        if r.random() < .5:
            gc.disable()
        self.hooks = sys.excepthook, threading.excepthook, warnings.showwarning, signal.getsignal(signal.SIGUSR1)
        sys.excepthook, threading.excepthook = (lambda *a: None), (lambda *a: None)
        warnings.showwarning = lambda *a, **k: None
        signal.signal(signal.SIGUSR1, _called)
        self.umask = os.umask(int(G.pick(r, 0o27, 0o77, 0o22)))
        self.log = logging.getLogger().level
        logging.getLogger().setLevel(int(r.integers(5, 60)))
        self.rl = sys.getrecursionlimit()
        sys.setrecursionlimit(int(r.integers(1500, 3000)))
        self.si = sys.getswitchinterval()
        sys.setswitchinterval(float(r.uniform(.002, .02)))
        os.environ["VGMON_PROBE"] = str(int(r.integers(99)))
        self.cwd = os.getcwd()
        self.tmp = tempfile.TemporaryDirectory(prefix="vgmon_")
        os.chdir(self.tmp.name)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        self.tmp.cleanup()
        np.seterr(**self.np)
        np.seterrcall(self.call)
        self.po.pop("override_repr", None)
        np.set_printoptions(**self.po)
        warnings.filters[:] = self.wf
        warnings._filters_mutated()
        gc.set_threshold(*self.gc)
        gc.enable() if self.gce else gc.disable()
        sys.excepthook, threading.excepthook, warnings.showwarning, h = self.hooks
        signal.signal(signal.SIGUSR1, h)
        os.umask(self.umask)
        logging.getLogger().setLevel(self.log)
        sys.setrecursionlimit(self.rl)
        sys.setswitchinterval(self.si)
        os.environ.pop("VGMON_PROBE", None)


def watch(T, what, fn, files=()):
    a = state()
    try:
        fn()
    except (Exception, fault.Interrupted):
        T.event("operations that failed")
    b = state()
    for k in a:
        x, y = a[k], b[k]
        if k == "files":
            y = [q for q in y if q not in files]
            x = [q for q in x if q not in files]
        T.check(f"{k} left alone", x == y, {"operation": what, "before": repr(x)[:200], "after": repr(y)[:200]})
    T.event("operations watched")


def operations(r, i):
    name = ("DW", "OU", "L63", "L96")[i % 4]
    method = G.METHODS[(i // 4) % 4]
    n = 8 if name != "L96" else 2
    c = G.Case(r, name, method, n=n, obs=[0, n - 1] if name == "L96" else None)
    x = c.random_x(r)
    d = c.d
    S, v = G.spd(r, max(d, 2)), r.standard_normal(max(d, 2))
    bad = -np.eye(max(d, 2))
    ops = {
        "initialization": c.vgp.initialization, "free_energy": lambda: c.vgp.free_energy(x),
        "gradient": lambda: c.vgp.gradient(x, eval_fun=True),
        "free energy at a hopeless point": lambda: c.build().free_energy(x * 1e200),
        "free energy of NaN": lambda: c.build().free_energy(x * np.nan),
        "construction": lambda: G.MODELS[name](c.sigma_arg, c.theta, 3),
        "bad construction": lambda: G.MODELS[name](-1.0, c.theta, 3),
        "trajectory": lambda: G.model(name, c.sigma_arg, c.theta, 5).make_trajectory(0., .3, .01),
        "bad trajectory": lambda: G.model(name, c.sigma_arg, None, 5).make_trajectory(0., .3, .01),
        "unseeded model": lambda: G.MODELS[name](c.sigma_arg, c.theta, None).make_trajectory(0., .1, .01),
        "assignment": lambda: setattr(c.model, "sigma", c.model.sigma),
        "bad assignment": lambda: setattr(c.model, "sigma", -1.0 if d == 1 else -np.eye(d)),
        "unknown method": lambda: G.FwdOde(.1, "rk17", True),
        "likelihood": lambda: c.like.gradients(np.zeros((c.n, d)) if d > 1 else np.zeros(c.n), np.array([np.eye(d)] * c.n) if d > 1 else np.ones(c.n)),
        "divergence": lambda: c.kl(c.m0, c.S0), "hopeless divergence": lambda: c.kl(c.m0, np.asarray(c.S0) * -1),
        "chol_inv": lambda: chol_inv(S), "bad chol_inv": lambda: chol_inv(bad), "log_det": lambda: log_det(S), "bad log_det": lambda: log_det(bad),
        "safe_log": lambda: safe_log(np.array([0., 1e-320, np.inf])), "log of zero": lambda: log_det(0.0),
        "my_trapz": lambda: my_trapz(x, .1, [0, 2]), "ut_approx": lambda: ut_approx(np.sin, v, S), "degenerate ut_approx": lambda: ut_approx(np.sin, v, np.diag([1.] + [0.] * (v.size - 1))),
        "finite_diff": lambda: finite_diff(lambda q: float(np.sum(q ** 2)), v), "bad finite_diff": lambda: finite_diff(lambda q: 1 / 0, v),
        "moments": lambda: GaussianMoments(v, v ** 2)(8), "bad moments": lambda: GaussianMoments(v, v ** 2)(9),
        "overflowing moments": lambda: GaussianMoments(v * 1e100, v ** 2)(8),
    }

    def traj_obs():
        M = G.model(name, c.sigma_arg, c.theta, 5)
        M.make_trajectory(0., .5, .01)
        M.collect_obs(int(G.pick(r, 10, 30)), .3)
        M.collect_obs(5000, .3)
    ops["observations"] = traj_obs

    def printed():
        q = c.build()
        for o in (SCG(q.free_energy, q.gradient), q, c.model, c.like, c.kl, G.FwdOde(.1, method, d == 1), G.BwdOde(.1, method, d == 1),
                  GaussianMoments(v, v ** 2), Simulation("printed"), G.MODELS[name], SCG):
            for use in (str, repr, format, dir, lambda u: u == c):
                with contextlib.suppress(Exception):
                    use(o)
            for k in dir(type(o)):
                if isinstance(getattr(type(o), k, None), property):
                    with contextlib.suppress(Exception):
                        getattr(o, k)
    ops["descriptions and attributes"] = printed

    def optimise():
        q = c.build()
        SCG(q.free_energy, q.gradient, {"max_it": 12 if name != "L96" else 2, "display": bool(i % 2)})(x.copy())
    ops["optimisation"] = optimise
    ops["gradient test"] = lambda: SCG(lambda q: float(np.sum(q ** 2)), lambda q, eval_fun=False: 2 * q).check_gradient_function(v)

    def hopeless():
        SCG(lambda q: np.log(-1.0 - q @ q), lambda q, eval_fun=False: 2 * q / 0.0, {"max_it": 5})(v.copy())
    ops["hopeless optimisation"] = hopeless
    return name, method, ops


def settings(T, r, i):
    name, method, ops = operations(r, i)
    T.note(model=name, method=method)
    with unusual(r), G.silent(), contextlib.redirect_stderr(io.StringIO()):
        for k in r.permutation(sorted(ops)):
            watch(T, str(k), ops[str(k)])
            fn = ops[str(k)]
            if r.random() < .5:
                try:
                    n, _ = fault.lines(fn)
                except Exception:
                    continue
                if n:
                    at = int(r.integers(1, n + 1))
                    exc = G.pick(r, fault.Injected, fault.Interrupted)
                    watch(T, f"{k} interrupted at {at}", lambda: fault.interrupt(fn, at, exc))
                    T.event("interrupted operations")
            T.case(name, method, str(k))


def complete(T, r, i):
    p = sims.params(r, ("OU", "L63", "DW")[i % 3], n=7)
    if i % 4 == 3:
        p["Ode-method"] = "none"
    s = Simulation("left alone")
    with unusual(r), G.silent(), contextlib.redirect_stderr(io.StringIO()):
        watch(T, "setup", lambda: s.setup(p, None))
        watch(T, "run", s.run)
        bad = dict(sims.params(r, "L63", n=7), Prior={"tau0": -1.0, "mu0": 0.0})
        b = Simulation("bad")
        watch(T, "setup of a bad prior", lambda: b.setup(bad, None))
        watch(T, "run that fails", b.run)
        watch(T, "run again", s.run)
        for k in range(3):  # stopped in the middle of the optimisation
            watch(T, "run interrupted", lambda: fault.interrupt(s.run, int(G.logu(r, 40, 3000)), G.pick(r, fault.Injected, fault.Interrupted)))
            T.event("interrupted runs")
        watch(T, "save", s.save, files=("left_alone.h5",))
        watch(T, "load", lambda: load("left_alone.h5"), files=("left_alone.h5",))
        watch(T, "load of nothing", lambda: load("nothing.h5"), files=("left_alone.h5",))
        watch(T, "save of nothing", Simulation("none").save)
        import vgpa_main
        with open("p.json", "w") as f:
            json.dump(p, f)
        argv = sys.argv
        watch(T, "program", lambda: _main(vgpa_main), files=("Sim.h5", "left_alone.h5"))
        sys.argv = argv
    T.case(json.dumps(p, sort_keys=True))


def _main(mod):
    try:
        mod.main("p.json")
    except SystemExit as e:
        raise RuntimeError(e)


MODULES = ["src.numerics." + m for m in ("euler", "heun", "ode_solver", "optim_scg", "runge_kutta2", "runge_kutta4", "utilities")] + \
          ["src.dynamics." + m for m in ("double_well", "lorenz_63", "lorenz_96", "ornstein_uhlenbeck", "stochastic_process")] + \
          ["src.var_bayes." + m for m in ("bwd_ode", "fwd_ode", "gaussian_like", "gaussian_moments", "likelihood", "prior_kl0", "simulation", "variational")] + \
          ["vgpa_main"]

CHILD = """
import sys, os, io
sys.path[:0] = ["/repo", %r]
import argparse, json, pathlib, time, decimal, locale, logging, random, resource, signal, threading, warnings, gc
import numpy, numpy.linalg, numpy.random, scipy, scipy.integrate, scipy.interpolate, scipy.linalg, scipy.special, scipy.optimize, scipy.stats, h5py, pandas
import numba
numba.njit(lambda x: numpy.roll(x, 1).sum() + numpy.linalg.cholesky(numpy.eye(2))[0, 0])(numpy.ones(3))
import importlib
src = open(%r).read()
ns = {}
a = src.index("def state()"); b = src.index("class unusual")
exec("import builtins, faulthandler, socket, h5py, numba, pandas, decimal, gc, json, locale, logging, os, random, resource, signal, sys, threading, warnings\\nimport numpy as np\\n" + src[a:b], ns)
numpy.seterr(divide="ignore", over="warn"); numpy.set_printoptions(precision=5)
importlib.import_module("src")
before = ns["state"]()
out = io.StringIO(); real = sys.stdout
n0 = len(os.listdir("."))
importlib.import_module(%r)
after = ns["state"]()
bad = {k: (repr(before[k])[:200], repr(after[k])[:200]) for k in before if before[k] != after[k]}
print(json.dumps({"bad": bad, "threads": threading.active_count()}))
"""


def imports(T, r, i):
    m = MODULES[i % len(MODULES)]
    with tempfile.TemporaryDirectory(prefix="vgmon_") as tmp:
        env = dict(os.environ, NUMBA_CACHE_DIR=tmp + "/nb")
        q = subprocess.run([sys.executable, "-c", CHILD % (VERIF, __file__, m)], cwd=tmp, env=env, capture_output=True, text=True, timeout=200)
        T.check("each module can be imported first", q.returncode == 0, {"module": m, "err": q.stderr[-800:]})
        lines = q.stdout.strip().splitlines()
        T.check("importing prints nothing", len(lines) == 1, {"module": m, "out": q.stdout[:300]})
        res = json.loads(lines[-1])
        T.check("importing leaves the settings alone", not res["bad"], {"module": m, **res["bad"]})
        T.check("importing starts no thread", res["threads"] == 1, res)
    T.case(m)


WORKLOADS = [
    Workload("settings", settings, 32, 600, must=["floating point errors left alone", "operations that failed", "interrupted operations"]),
    Workload("complete", complete, 8, 120, must=["global numpy generator left alone"]),
    Workload("imports", imports, len(MODULES), len(MODULES), must=["each module can be imported first"]),
]
