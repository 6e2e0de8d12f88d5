"""C19: saved results can be loaded back, exactly and completely."""
import os
import shutil
import tempfile

import h5py
import numpy as np

from .. import gens as G
from .. import sims
from ..core import Workload

from src.var_bayes.simulation import Simulation, load

RULE = ("histories of save / load / overwrite / empty save in a scratch directory, with outputs of every numeric type, "
        "shape, memory layout and special value, and with outputs of real simulations; loaded arrays are compared bit for "
        "bit. Non-trivial: at least one file written; distinct by contents.")


def warmup():
    G.warm_numba()


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="vgmon_c19_")
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)


def rand_array(r):
    shape = tuple(int(q) for q in r.integers(1, 9, size=int(r.integers(1, 5))))
    if r.random() < .05:
        return np.zeros(G.pick(r, (0,), (3, 0), (0, 2)))
    if r.random() < .1:
        shape = G.pick(r, (3000,), (200, 31), (70, 12, 12), (40001,))
    k = int(r.integers(10))
    if k == 0:
        a = r.integers(-2 ** 62, 2 ** 62, size=shape)
    elif k == 1:
        a = r.standard_normal(shape).astype(np.float32)
    elif k == 2:
        a = r.integers(-2 ** 15, 2 ** 15, size=shape).astype(np.int16)
    elif k == 3:
        a = r.integers(0, 255, size=shape).astype(np.uint8)
    elif k == 4:
        a = np.exp(r.uniform(-700, 700, shape)) * r.choice([-1, 1], shape)
    else:
        a = r.standard_normal(shape)
    if k == 9:
        a = r.random(shape) < .5
    elif k >= 6:
        f = a.reshape(-1)
        for v in (np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7976931348623157e308):
            if r.random() < .5:
                f[int(r.integers(f.size))] = v
    m = int(r.integers(5))
    if m == 0:
        a = np.asfortranarray(a)
    elif m == 1:
        a = np.repeat(a, 2, axis=0)[::2]  # strided view
    elif m == 2:
        a = a.T
    elif m == 3:
        a = a[::-1]  # negative strides
    return a


def rand_scalar(r):
    return G.pick(r, 3.25, -7, 0, np.float64(r.standard_normal()), np.int32(5), float("nan"), float("inf"), 0.1 + 0.2,
                  2 ** 53 + 1, np.float32(.1), np.array(1.5), np.array(-3), np.array(np.inf))


def same(a, b):
    """Same shape, same values (NaN included, sign of zero included)."""
    a, b = np.asarray(a), np.atleast_1d(np.asarray(b))
    if a.shape != b.shape:
        return False
    for p, q in zip(a.ravel(), b.ravel()):
        if isinstance(q, (float, np.floating)):
            p, q = float(p), float(q)
            if not ((p == q and np.signbit(p) == np.signbit(q)) or (p != p and q != q)):
                return False
        elif int(p) != int(q):
            return False
    return True


def compare(T, got, want, what):
    T.check("loaded keys are the saved keys", set(got) == set(want), {"got": sorted(got), "want": sorted(want), "what": what})
    for k in want:
        T.check("loaded values equal the saved values", same(got[k], want[k]),
                {"key": k, "what": what, "want": np.asarray(want[k]), "got": np.asarray(got[k])})
        T.event("arrays compared")


NAMES = ["Sim", "a name with spaces", " padded ", "x.y", "UPPER lower", "Ünïcode", "double  space", "dash-_1", "7", "data.h5"]


def filename(name):
    return name.strip().replace(" ", "_") + ".h5"


def histories(T, r, i):
    with Scratch() as d:
        disk, ops = {}, []
        objs = []
        for _ in range(10):
            op = int(r.integers(4))
            if op == 0 or not objs:
                name = G.pick(r, *NAMES, None, 12)
                objs.append(Simulation(name) if name is not None else Simulation())
                T.check("name of the simulation", objs[-1].name == (str(name) if name is not None else "ID_None"), objs[-1].name)
            s = objs[int(r.integers(len(objs)))]
            before = sorted(os.listdir(d))
            if op == 1 and r.random() < .3:
                s.output = {}
                with G.silent() as txt:
                    s.save()
                T.check("empty output creates nothing", sorted(os.listdir(d)) == before)
                T.check("empty output is reported", "empty" in txt.getvalue())
                ops.append(("empty", s.name))
                continue
            out = {}
            for k in range(int(r.integers(1, 8))):
                key = G.pick(r, "at", "bt", "fx", "mt", "st", "Efx", "m0", "s0", "lamt", "psit", "k%d" % k, "key with space", "K", "k")
                out[key] = rand_scalar(r) if r.random() < .25 else rand_array(r)
            keep = {k: np.array(v) for k, v in out.items()}
            s.output = out
            with G.silent():
                s.save()
            f = filename(s.name)
            T.check("file is named after the simulation", set(os.listdir(d)) == set(before) | {f},
                    {"have": sorted(os.listdir(d)), "want": f})
            for k in keep:
                T.check("saving leaves the output's values", same(np.atleast_1d(np.asarray(s.output[k])), keep[k]), k)
            disk[f] = keep
            ops.append(("save", f, tuple(sorted(keep))))
            for g, want in disk.items():  # everything on disk, including files of other simulations
                compare(T, load(G.pick(r, g, os.path.join(d, g))), want, {"file": g, "ops": ops})
            if r.random() < .5:  # saving again is idempotent
                with G.silent():
                    s.save()
                compare(T, load(f), keep, {"file": f, "again": True})
        T.note(ops=ops)
        T.case(ops, i)


def real(T, r, i):
    with Scratch() as d:
        name = ("DW", "OU", "L63")[i % 3]
        p = sims.params(r, name, n=9, out=G.pick(r, "Sim run", "Sim_x", "r"))
        s = sims.simulate(p)
        keep = {k: np.array(v) for k, v in s.output.items()}
        with G.silent():
            s.save()
        T.check("one file per simulation", os.listdir(d) == [filename(p["Output_Name"])], os.listdir(d))
        got = load(filename(p["Output_Name"]))
        compare(T, got, keep, "simulation")
        sims.check_output(T, p, got)  # what was loaded is still a solution of the problem
        with h5py.File(filename(p["Output_Name"]), "r") as f:
            T.check("file is plain hdf5 with numeric data", all(f[k].dtype.kind in "fiub" for k in f), {k: str(f[k].dtype) for k in f})
        # A second, smaller result under the same name replaces the first completely.
        q = sims.params(r, "OU", n=7, out=p["Output_Name"])
        s2 = sims.simulate(q)
        keep2 = {k: np.array(v) for k, v in s2.output.items()}
        with G.silent():
            s2.save()
        compare(T, load(filename(p["Output_Name"])), keep2, "overwritten")
        T.case(keep["at"], name)


def large(T, r, i):
    """Outputs of realistic size (several compressed chunks)."""
    with Scratch():
        n, d = (int(r.integers(300, 500)), 40) if i % 2 else (int(r.integers(2000, 5000)), 3)
        s = Simulation("big one")
        s.output = {"at": r.standard_normal((n, d, d)), "bt": r.standard_normal((n, d)), "fx": float(r.standard_normal()),
                    "st": np.broadcast_to(np.eye(d), (n, d, d)).copy()}
        if i % 2 == 0:   # many names
            s.output.update({f"extra {k}": r.standard_normal(k % 5 + 1) for k in range(int(r.integers(60, 300)))})
        keep = {k: np.array(v) for k, v in s.output.items()}
        with G.silent():
            s.save()
        got = load("big_one.h5")
        T.check("loaded keys are the saved keys", set(got) == set(keep))
        for k in keep:
            T.check("large arrays survive", np.array_equal(np.asarray(got[k], dtype=float), np.atleast_1d(keep[k])), k)
        T.case(n, d, i)


def errors(T, r, i):
    with Scratch() as d:
        T.raises("no file name is rejected", RuntimeError, lambda: load())
        T.raises("no file name is rejected", RuntimeError, lambda: load(None))
        T.raises("missing files are reported", (OSError, KeyError), lambda: load("nothing_here.h5"))
        T.check("loading creates nothing", os.listdir(d) == [])
        with open("bad.h5", "wb") as f:
            f.write(r.bytes(300))
        T.raises("damaged files are reported", (OSError, KeyError), lambda: load("bad.h5"))
        s = Simulation("never run")
        with G.silent() as txt:
            s.save()
        T.check("empty output creates nothing", os.listdir(d) == ["bad.h5"])
        T.check("empty output is reported", "empty" in txt.getvalue())
        s.output = {"a": r.standard_normal(4)}
        with G.silent():
            s.save()
        body = open("never_run.h5", "rb").read()
        load("never_run.h5")
        T.check("loading leaves the file alone", open("never_run.h5", "rb").read() == body)
        s.output = {}
        with G.silent():
            s.save()
        T.check("an empty save keeps the earlier file", open("never_run.h5", "rb").read() == body)
        # What load returns is detached from the file.
        got = load("never_run.h5")
        got["a"][0] = 12345.0
        T.check("loaded arrays are detached from the file", float(load("never_run.h5")["a"][0]) != 12345.0)
        with open("cut.h5", "wb") as f:
            f.write(body[:len(body) // 2])
        T.raises("truncated files are reported", (OSError, KeyError), lambda: load("cut.h5"))
        T.case(i)


WORKLOADS = [
    Workload("histories", histories, 160, 4000, must=["loaded values equal the saved values", "empty output creates nothing"]),
    Workload("real", real, 9, 90, must=["file is plain hdf5 with numeric data"]),
    Workload("large", large, 4, 40, must=["large arrays survive"]),
    Workload("errors", errors, 8, 60, must=["missing files are reported"]),
]
