"""C20: the command-line program."""
import io
import contextlib
import copy
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import gens as G
from .. import sims
from ..core import REPO, Workload

from src.var_bayes.simulation import load

import vgpa_main

RULE = ("runs of the program (as a process and through main) in scratch directories with good, damaged, incomplete and "
        "inadmissible parameter files, with and without results of earlier runs; exit status, messages and the directory's "
        "contents are recorded and judged. Non-trivial: the program was started; distinct by parameter file.")
KEYS = ["Output_Name", "Model", "Ode-method", "Time-window", "Noise", "Observations", "Drift", "Prior", "Random-Seed"]


def warmup():
    G.warm_numba()


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="vgmon_c20_")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def snapshot(d):
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def in_process(params, data=None):
    """(exit status, printed text); exceptions count like in an interpreter."""
    txt = io.StringIO()
    with contextlib.redirect_stdout(txt), contextlib.redirect_stderr(txt):
        try:
            vgpa_main.main(params, data)
            code = 0
        except SystemExit as e:
            code = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
        except Exception as e:
            code = 1
            print(repr(e))
    return code, txt.getvalue()


def process(*args, cwd):
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(REPO, "vgpa_main.py"), *args], capture_output=True,
                       text=True, cwd=cwd, timeout=300,
                       env={"PATH": "/usr/bin:/bin", "HOME": cwd, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
                            "OPENBLAS_NUM_THREADS": "1"})
    return p.returncode, p.stdout, p.stderr


def small(r, **kw):
    return sims.params(r, G.pick(r, "DW", "OU"), n=8, **kw)


def write(p, name="p.json"):
    with open(name, "w") as f:
        f.write(p if isinstance(p, str) else json.dumps(p))
    return name


def result_name(p):
    n = p["Output_Name"]
    return ("Sim_00" if n is None else str(n).strip().replace(" ", "_")) + ".h5"


def good(T, r, i):
    with Scratch() as d:
        p = small(r, out=G.pick(r, "Sim", "my sim 1", " padded ", None, "x.y", "Results-7"))
        if i % 8 == 3:
            p = sims.params(r, "L63", n=7, out="L63 run")
        items = list(p.items()) + [("Info", "text"), ("Extra", [1, 2])]
        q = dict(items[k] for k in r.permutation(len(items)))
        os.makedirs("in put")
        f = write(q, G.pick(r, "p.json", "in put/pa rams.json", "noext"))
        before = snapshot(d)
        arg = G.pick(r, f, os.path.join(d, f), pathlib.Path(f))
        T.note(params=p)
        code, txt = in_process(arg)
        after = snapshot(d)
        T.check("a good parameter file succeeds", code == 0, {"code": code, "txt": txt[-400:]})
        T.check("exactly the result file is written", set(after) - set(before) == {result_name(p)}, sorted(set(after) - set(before)))
        T.check("other files untouched", all(after[k] == v for k, v in before.items()))
        out = load(result_name(p))
        sims.check_output(T, p, out)
        want = sims.simulate(copy.deepcopy(p)).output
        for k in sims.OUT_KEYS:
            T.close("the result file holds the simulation of the parameters", np.asarray(out[k], dtype=float).ravel(),
                    np.asarray(want[k], dtype=float).ravel(), rtol=1e-12, detail={"key": k})
        # Running again replaces the file by the same results; also when another run, or anything else, has left a
        # younger file of that name.
        k = int(r.integers(4))
        if k == 1:
            p2 = copy.deepcopy(p)
            p2["Random-Seed"] += 1
            code, _ = in_process(write(p2, "other.json"))
            T.check("a good parameter file succeeds", code == 0)
        elif k == 2:
            with open(result_name(p), "wb") as g:
                g.write(b"damaged" * 9)
        if k and r.random() < .5:
            t = os.stat(f).st_mtime + float(G.pick(r, -1e6, 5., 1e6))
            os.utime(result_name(p), (t, t))
        T.note(params=p, before=("own", "another run's", "damaged", "own, dated")[k])
        code, _ = in_process(f)
        again = load(result_name(p))
        T.check("running again succeeds", code == 0)
        for k in sims.OUT_KEYS:
            T.close("running again gives the same results", np.asarray(again[k], dtype=float), np.asarray(out[k], dtype=float), rtol=1e-12)
        T.event("successful runs", 2)
        T.case(json.dumps(p, sort_keys=True))


def damage(r, p):
    """One inadmissible change; returns its description."""
    def at(path, v):
        o = p
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] = v
    top = int(1 / p["Time-window"]["dt"])
    opts = [(("Model",), v) for v in ("XX", "", "L64", "DW ", None, 3)]
    opts += [(("Ode-method",), v) for v in ("RK3", "", "euler ", None, 4)]
    opts += [(("Noise", "sys"), v) for v in (0.0, -1.0, 0, "a", None)]
    opts += [(("Drift", "theta"), v) for v in (0.0, -1.0, None, "q") if p["Model"].upper() == "OU" or v in (None, "q")]
    opts += [(("Observations", "density"), v) for v in (top + 2, 10 * top, "x", None)]
    opts += [(("Time-window", "dt"), v) for v in (0.0, -.01, None)]
    opts += [(("Time-window", "tf"), v) for v in (p["Time-window"]["t0"], None)]
    opts += [((k,), v) for k in ("Time-window", "Noise", "Observations", "Drift", "Prior") for v in (None, 5)]
    opts += [(("Random-Seed",), v) for v in (-3, "seed", 1.5)]
    opts += [(("Prior", "mu0"), "m")]
    k = int(r.integers(len(opts)))
    at(*opts[k])
    return opts[k]


def drop(r, p):
    a, b = G.pick(r, ("Noise", "sys"), ("Noise", "obs"), ("Drift", "theta"), ("Prior", "mu0"), ("Prior", "tau0"),
                  ("Time-window", "t0"), ("Time-window", "tf"), ("Time-window", "dt"), ("Observations", "density"),
                  ("Observations", "operator"))
    del p[a][b]
    return ("no " + a + "/" + b,)


def bad(T, r, i):
    with Scratch() as d:
        p = small(r, out=G.pick(r, "Sim", "my sim"))
        existing = r.random() < .6
        if existing:  # results of an earlier, successful run
            code, _ = in_process(write(p, "old.json"))
            T.check("a good parameter file succeeds", code == 0)
        name = result_name(p)
        kind = i % 5
        if kind == 0:
            gone = [k for k in KEYS if r.random() < .2] or [KEYS[(i // 5) % len(KEYS)]]
            gone = gone if i % 2 else [KEYS[(i // 5) % len(KEYS)]]
            for k in gone:
                del p[k]
            what = ("missing", gone)
            if r.random() < .3:
                p[gone[0].lower()] = 1  # a near miss does not count
        elif kind in (1, 2):
            what = damage(r, p)
        elif kind == 3:
            what = drop(r, p)
        else:
            text = json.dumps(p)
            p = G.pick(r, "", "not json", text[:-2], text[:len(text) // 2], "[]", "{}", "null", "3", "\"x\"")
            what = ("text", p)
        f = write(p)
        before = snapshot(d)
        T.note(what=what, existing=existing)
        code, txt = in_process(f)
        after = snapshot(d)
        T.check("inadmissible parameters fail with status 1", code == 1, {"code": code, "what": what})
        T.check("a failed run writes no results and spoils none", after == before,
                {"what": what, "new": sorted(set(after) - set(before)), "file": name})
        T.check("a failed run says why", txt.strip() != "", what)
        T.event("failing runs")
        T.case(what, existing, i)


def unwritable(T, r, i):
    """Good parameters, but the results cannot be written: the status must say so."""
    with Scratch() as d:
        p = small(r, out="Sim %d" % i)
        kind = i % 3
        if kind == 0:
            os.makedirs(result_name(p))  # a folder of that name is in the way
            with open(os.path.join(result_name(p), "keep"), "w") as f:
                f.write("x")
        elif kind == 1:
            p["Output_Name"] = "no/such/folder/run"
        else:
            p["Output_Name"] = "x" * 300
        f = write(p)
        before = snapshot(d)
        T.note(kind=kind)
        if i % 2:
            code, txt = in_process(f)
        else:
            code, out, err = process("--params", f, cwd=d)
            T.check("a failed run is not reported as completed", "completed" not in out, out[-300:])
            txt = out + err
        T.check("results that cannot be written are no success", code != 0, {"code": code, "kind": kind})
        T.check("a failed run writes no results and spoils none", snapshot(d) == before, kind)
        T.check("a failed run says why", txt.strip() != "", kind)
        T.event("runs whose results could not be written")
        T.case(kind, i)


def validate(T, r, i):
    with Scratch():
        p = small(r)
        f = pathlib.Path(write(p))
        with G.silent():
            got = vgpa_main.validate_input_parameters_file(f)
        T.check("validation returns the parameters", got == p)
        sub = [k for k in KEYS if r.random() < .5]
        if i < len(KEYS):
            sub = [k for k in KEYS if k != KEYS[i]]
        q = {k: G.pick(r, p[k], None, 0, "") for k in sub}
        q["Other"] = 1
        f = pathlib.Path(write(q))

        def call():
            with G.silent():
                return vgpa_main.validate_input_parameters_file(f)
        if len(sub) < len(KEYS):
            T.raises("any missing key is reported", ValueError, call, sub)
        else:
            T.check("values are not judged by the key check", call() == q)
        T.case(sub, i)


def shell(T, r, i):
    """The program as a process."""
    with Scratch() as d:
        if i % 5 == 0:
            code, out, err = process(cwd=d)
            T.check("no arguments: error", code == 1 and "Completed" not in out and "completed" not in out, (code, out, err))
            T.check("no arguments: message", "Error" in err, err)
            code, out, err = process("--data", "x.csv", cwd=d)
            T.check("no parameters: error", code == 1 and "completed" not in out, (code, out, err))
            code, out, err = process("--params", "missing.json", cwd=d)
            T.check("missing file: error", code != 0 and "completed" not in out, (code, out))
            code, out, err = process("--unknown", cwd=d)
            T.check("unknown option: error", code != 0 and "completed" not in out, (code, out))
            T.check("nothing was written", os.listdir(d) == [], os.listdir(d))
        elif i % 5 in (1, 2):
            p = small(r, out="the run") if i % 5 == 1 else sims.params(r, "L63", n=6, out=None)
            f = write(p)
            res = []
            for _ in range(2):
                code, out, err = process("--params", f, cwd=d)
                T.check("a good parameter file succeeds", code == 0 and "Simulation completed" in out, (code, out[-300:], err[-300:]))
                T.check("only the result file is written", sorted(os.listdir(d)) == sorted([f, result_name(p)]), os.listdir(d))
                res.append(load(result_name(p)))
            for k in sims.OUT_KEYS:
                T.close("processes agree", np.asarray(res[0][k], dtype=float), np.asarray(res[1][k], dtype=float), rtol=1e-12)
            sims.check_output(T, p, res[0])
        else:
            p = small(r)
            what = damage(r, p) if i % 5 == 3 else p.pop(KEYS[int(r.integers(9))]) and ("missing",)
            f = write(p)
            code, out, err = process("--params", f, cwd=d)
            T.check("inadmissible parameters fail with status 1", code == 1, {"code": code, "what": what})
            T.check("a failed run is not reported as completed", "completed" not in out, out[-300:])
            T.check("only the parameter file is there", os.listdir(d) == [f], os.listdir(d))
        T.event("processes run")
        T.case(i, sorted(os.listdir(d)))


def probes(T, r, i):
    """Listed findings: advertised inputs that cannot work yet."""
    with Scratch() as d:
        p = sims.params(r, "DW", n=12)
        c = sims.simulate(copy.deepcopy(p))
        t, y = np.asarray(c.m_data["obs_t"]), np.asarray(c.m_data["obs_y"])
        with open("d.csv", "w") as f:
            f.writelines(f"{int(a)},{float(b)!r}\n" for a, b in zip(t, y))
        code, txt = in_process(write(p), "d.csv")
        T.check("a failed run writes no results", code == 0 or not [f for f in os.listdir(d) if f.endswith(".h5")])
        T.known("observations-from-a-file", code == 0, "always-rejected", txt[-300:])
    with Scratch() as d:
        p = sims.params(r, "L63", n=8)
        p["Observations"]["operator"] = [True, True, False]
        p["Noise"]["obs"] = 1.0
        code, txt = in_process(write(p))
        T.check("a failed run writes no results", code == 0 or not [f for f in os.listdir(d) if f.endswith(".h5")])
        T.known("observation-operator", code == 0, "always-rejected", txt[-300:])
    with Scratch() as d:
        p = small(r)
        p["Output_Name"] = "zero\0byte"  # no file can have this name
        f = write(p)
        code, txt = in_process(f)
        new = sorted(set(os.listdir(d)) - {f})
        T.known("name-with-nul", code != 0 and new == [], "cut-at-nul" if code == 0 and new == ["zero"] else "other", {"code": code, "new": new})
    T.case(i)


WORKLOADS = [
    Workload("good", good, 32, 500, must=["the result file holds the simulation of the parameters"], timeout=400),
    Workload("bad", bad, 160, 3000, must=["a failed run writes no results and spoils none"], timeout=400),
    Workload("unwritable", unwritable, 8, 60, must=["results that cannot be written are no success"], timeout=400),
    Workload("validate", validate, 60, 600, must=["any missing key is reported"]),
    Workload("shell", shell, 10, 60, must=["no arguments: error", "processes agree"], timeout=600),
    Workload("probes", probes, 1, 4),
]
