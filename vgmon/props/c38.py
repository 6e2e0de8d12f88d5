"""C38: what is displayed is true."""
import os
import re
import tempfile

import numpy as np

from .. import gens as G
from .. import sims
from ..core import Workload
from .c08 import Objective

from src.numerics.optim_scg import SCG
from src.var_bayes.gaussian_moments import GaussianMoments
from src.var_bayes.simulation import Simulation, load

RULE = ("everything printed is captured and read back: progress lines against the statistics and the log of calls, the notice of "
        "the iteration limit against a run with a higher limit, the verdict of the gradient check against an independent "
        "difference quotient, file names against the directory, descriptions and error messages against the values they concern. "
        "Non-trivial: something was displayed; distinct by objective, point, name or value.")
ASSUMPTIONS = ["numbers are looked for in the text, the wording around them is free"]
NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf)"
LINE = re.compile(rf"^\s*(\d+)\s*:\s*fx\s*=\s*({NUM})\s+sum\(gx\)\s*=\s*({NUM})\s*$", re.M)


def warmup():
    G.warm_numba()


def lines(text):
    return [(int(a), float(b), float(c)) for a, b, c in LINE.findall(text)]


def limit_notice(text):
    return "maximum number of iterations" in text.lower()


def near(a, b, digits=3):
    return a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= .51 * 10. ** -digits + 1e-9 * abs(b)


def progress(T, r, i):
    o = Objective(r)
    nit = int(G.pick(r, 1, 2, 9, 10, 11, 20, 21, 35, 60, 101, 150))
    show = bool(i % 3)
    opt = {"max_it": nit, "x_tol": float(G.pick(r, 1e-6, 1e-3, 1e-9)), "f_tol": float(G.pick(r, 1e-8, 1e-3, 1e-12)), "display": show}
    if not show and r.random() < .5:
        del opt["display"]
    df = lambda x, eval_fun=False: o.g(x)
    T.note(kind=o.kind, n=o.n, options=opt)
    s = SCG(o.f, df, opt)
    with G.silent() as out:
        x, fx = s(o.x0.copy())
    text, st = out.getvalue(), s.statistics
    seen, did = lines(text), int(st["MaxIt"])
    if show:
        js = [j for j, _, _ in seen]
        want = [j for j in range(0, did, 10)]
        # The last iteration may have ended before there was anything to show.
        T.check("every tenth iteration is shown, in order", js in (want, [j for j in want if j != did - 1]), {"shown": js, "iterations": did})
        for j, f, g in seen:
            T.check("the objective shown is that of the iteration", near(f, float(st["fx"][j])), {"line": (j, f, g), "recorded": float(st["fx"][j])})
            T.check("the gradient shown is that of the iteration", near(g, float(st["dfx"][j])), {"line": (j, f, g), "recorded": float(st["dfx"][j])})
        if seen and np.isfinite(seen[0][1]) and o.kind != "nanball":
            T.check("progress starts no higher than the start", seen[0][1] <= o.f(o.x0) + 6e-4 + 1e-9 * abs(o.f(o.x0)))
            T.check("what is shown does not increase", all(b[1] <= a[1] + 1.1e-3 + 1e-9 * abs(a[1]) for a, b in zip(seen, seen[1:])), seen)
            T.check("the result is no higher than what was shown last", float(np.ravel(fx)[0]) <= seen[-1][1] + 6e-4 + 1e-9 * abs(seen[-1][1]))
        T.event("progress lines read", len(seen))
    else:
        T.check("no progress unless asked for", "fx=" not in text and not seen, text[:300])
    more = SCG(o.f, df, dict(opt, max_it=nit + 5, display=False))
    with G.silent():
        more(o.x0.copy())
    reached = int(more.statistics["MaxIt"]) > nit
    T.check("the limit is announced when it ends the run, and only then", limit_notice(text) == reached,
            {"limit": nit, "iterations without it": int(more.statistics["MaxIt"]), "text": text[-200:]})
    T.event("limits announced" if reached else "runs that ended before the limit")
    T.case(o.kind, o.x0)


def long(T, r, i):
    """Runs of many iterations with rejected steps among them."""
    n, nit = int(G.pick(r, 4, 6, 8, 12)), int(G.pick(r, 150, 220, 400))

    def f(x):
        return float(np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2 + (1 - x[:-1]) ** 2))

    def df(x, eval_fun=False):
        o = np.zeros_like(x)
        o[:-1] = -400 * x[:-1] * (x[1:] - x[:-1] ** 2) - 2 * (1 - x[:-1])
        o[1:] += 200 * (x[1:] - x[:-1] ** 2)
        return o

    s = SCG(f, df, {"max_it": nit, "x_tol": 1e-12, "f_tol": 1e-14, "display": True})
    with G.silent() as out:
        s(r.standard_normal(n) * 2)
    seen, did, st = lines(out.getvalue()), int(s.statistics["MaxIt"]), s.statistics
    js, want = [j for j, _, _ in seen], list(range(0, did, 10))
    T.check("every tenth iteration is shown, in order", js in (want, [j for j in want if j != did - 1]), {"shown": js, "iterations": did})
    for j, a, b in seen:
        T.check("the objective shown is that of the iteration", near(a, float(st["fx"][j])), {"line": (j, a, b), "recorded": float(st["fx"][j])})
        T.check("the gradient shown is that of the iteration", near(b, float(st["dfx"][j])), {"line": (j, a, b), "recorded": float(st["dfx"][j])})
    T.event("progress lines of long runs", len(seen))
    T.case(n, nit, st["fx"][:did])


def quotient(f, x, h):
    e = np.eye(x.size)
    return np.array([(f(x + h * k) - f(x - h * k)) / (2 * h) for k in e])


def verdict(T, r, i):
    n = int(G.pick(r, 1, 2, 3, 5, 12, 40))
    Q, c = G.spd(r, n, .5, 5), r.standard_normal(n)
    w = float(G.pick(r, 0., 1., 3.))
    f = lambda x: float(.5 * (x - c) @ Q @ (x - c) + np.sum(np.sin(w * x)))
    g0 = lambda x: Q @ (x - c) + w * np.cos(w * x)
    x = c + r.standard_normal(n) * float(G.pick(r, .1, 1., 3.))
    tol = G.pick(r, None, 1e-4, 1e-2, 1e-3, 1.0)
    t = 1e-4 if tol is None else tol
    rel = float(G.pick(r, 0., .3, .7, .95, 1.05, 1.5, 3., 30., 1e4))
    bad = r.standard_normal(n)
    if r.random() < .5:     # the whole difference in one coordinate
        bad = np.zeros(n)
        bad[int(r.integers(n))] = G.pick(r, 1., -1.)
    bad *= rel * t * n / np.linalg.norm(bad)
    how = int(r.integers(4))
    if how == 3 and rel > 1:
        bad = -2 * g0(x) if r.random() < .5 else 1.0 * g0(x)  # sign or factor two
    calls = []

    def df(q, eval_fun=False):
        calls.append((np.array(q), eval_fun))
        return g0(q) + bad
    kw = {} if tol is None else {"tol": tol}
    T.note(n=n, tol=tol, error=rel)
    keep = x.copy()
    with G.silent() as out:
        SCG(f, df).check_gradient_function(x, **kw)
    text = out.getvalue()
    diff = np.linalg.norm(bad) / n
    rest = np.linalg.norm(quotient(f, x, 1e-6) - g0(x)) / n + 2e-8 * (1 + abs(f(x)))    # rounding of the quotient
    said = ("PASSED" in text, "FAILED" in text)
    T.check("one verdict", sum(said) == 1, text)
    if abs(diff - t) > 5 * rest:
        T.check("the verdict is that of the tolerance", said[0] == (diff <= t), {"error per coordinate": diff, "tol": t, "text": text})
        T.event("gradients passed" if said[0] else "gradients failed")
    m = re.search(rf"ifference is:\s*({NUM})", text)
    T.check("the relative difference is stated", m is not None, text)
    v = float(m.group(1).rstrip("."))
    scale = np.linalg.norm(g0(x) + bad) + np.linalg.norm(g0(x))
    T.close("the relative difference is that of the gradients", v, np.linalg.norm(bad) / scale, rtol=2e-3, atol=5 * n * rest / scale)
    T.check("the point is the one asked about", all(np.array_equal(q, keep) for q, _ in calls) and calls and np.array_equal(x, keep))
    T.check("the gradient is asked for with re-evaluation", all(e is True for _, e in calls))
    # A gradient that is not a number never passes.
    k = int(r.integers(n))
    h = g0(x) + bad
    h[k] = G.pick(r, np.nan, np.inf, -np.inf)
    with G.silent() as out, np.errstate(all="ignore"):
        SCG(f, lambda q, eval_fun=False: h.copy()).check_gradient_function(x, **kw)
    T.check("undefined gradients do not pass", "PASSED" not in out.getvalue(), out.getvalue())
    T.case(x)


def problems(T, r, i):
    """The check of a variational problem: the code's own gradient against differences of its own free energy."""
    name = ("DW", "OU", "L63")[i % 3]
    c = G.Case(r, name, G.METHODS[(i // 3) % 4], n=int(G.pick(r, 3, 6)))
    x = c.random_x(r)
    v = c.vgp
    s = SCG(v.free_energy, v.gradient)
    with G.silent() as out:
        s.check_gradient_function(x.copy())
    text = out.getvalue()
    u = c.build()
    g = np.array(u.gradient(x, eval_fun=True))
    q = quotient(u.free_energy, x, 1e-6)
    d = np.linalg.norm(g - q) / x.size
    noise = 1e-9 * (1 + abs(u.free_energy(x))) + 1e-6 * np.linalg.norm(q) / x.size
    T.note(model=name, method=c.method, difference=d)
    if abs(d - 1e-4) > .02 * d + 50 * noise:
        T.check("the verdict is that of the tolerance", ("PASSED" in text) == (d <= 1e-4) and ("FAILED" in text) == (d > 1e-4), {"d": d, "text": text})
        T.event("problems checked")
    T.case(x)


NAMES = ("Sim", "the run", " ends ", "a  b", "x.y", "7 up", "name-with-dash", "Ä run", "UPPER lower", "a.h5", "very " * 12 + "long")


def saving(T, r, i):
    name = NAMES[i % len(NAMES)]
    s = Simulation(name)
    with tempfile.TemporaryDirectory(prefix="vgmon_") as tmp:
        back = os.getcwd()
        os.chdir(tmp)
        try:
            with G.silent() as out:
                s.save()
            T.check("nothing to save is said", out.getvalue().strip() != "" and os.listdir(".") == [] and ".h5" not in out.getvalue(), out.getvalue())
            s.output = {"fx": np.arange(3.), "v": r.standard_normal((2, 2))}
            with G.silent() as out:
                s.save()
            files = os.listdir(".")
            T.check("the message names the file that is written", len(files) == 1 and files[0] in out.getvalue(), {"text": out.getvalue(), "files": files})
            T.check("the file named holds the results", np.array_equal(load(files[0])["fx"], np.arange(3.)))
            T.event("messages read")
        finally:
            os.chdir(back)
    T.case(name)


def run(T, r, i):
    p = sims.params(r, ("OU", "DW", "L63")[i % 3], n=int(r.integers(8, 14)))
    s = Simulation("displayed")
    with G.silent() as out:
        s.setup(p, None)
    first = out.getvalue()
    want = {"DW": "well", "OU": "ornstein", "L63": "lorenz-63"}
    k = p["Model"].upper()
    T.check("the model created is announced", want[k] in first.lower() and not any(v in first.lower() for q, v in want.items() if q != k), first)
    with G.silent() as out:
        s.run()
    text = out.getvalue()
    seen = lines(text)
    fx = float(np.ravel(s.output["fx"])[0])
    T.note(params=p, shown=len(seen))
    T.check("a simulation shows its progress", len(seen) >= 1 and [j for j, _, _ in seen] == list(range(0, 10 * len(seen), 10)), [j for j, _, _ in seen])
    T.check("what is shown does not increase", all(b[1] <= a[1] + 1.1e-3 + 1e-9 * abs(a[1]) for a, b in zip(seen, seen[1:])), seen[:20])
    T.check("the result is no higher than what was shown last", fx <= seen[-1][1] + 6e-4 + 1e-9 * abs(fx), (fx, seen[-1]))
    T.check("the limit is announced only after that many iterations", not limit_notice(text) or len(seen) >= 50, len(seen))
    if len(seen) < 50:
        T.check("fewer iterations than the limit: no announcement", not limit_notice(text))
    m = re.findall(rf"({NUM}) seconds", text)
    T.check("the duration is stated once", len(m) == 1 and float(m[0]) >= 0.0, m)
    T.event("simulations read")
    T.case(repr(p))


def says(T, what, fn, *values):
    """The error's text names every one of the values."""
    try:
        with G.silent():
            fn()
    except Exception as e:
        for v in values:
            T.check(f"errors name the value: {what}", str(v) in str(e), {"text": str(e)[:300], "value": str(v)})
        T.event("error messages read")
        return
    T.check("inadmissible values are rejected", False, what)


def descriptions(T, r, i):
    it = int(r.integers(1, 900))
    xt, ft, dt = (float("%.3g" % G.logu(r, 1e-9, .5)) for _ in range(3))
    s = SCG(None, None, {"max_it": it, "x_tol": xt, "f_tol": ft})
    for q in (str(s), f"{s}"):
        nums = [float(k) for k in re.findall(NUM, q)]
        T.check("a description shows the settings", all(any(k == v for k in nums) for v in (float(it), xt, ft)), {"text": q, "settings": (it, xt, ft)})
        for label, v in (("x_tol", xt), ("f_tol", ft), ("Max-It", float(it))):
            m = re.search(rf"{label}\W{{0,4}}?({NUM})", q, re.I)  # where the text names it
            T.check("a description gives each setting its own value", m is None or float(m[1]) == v, {"text": q, "setting": label, "value": v})
    T.check("a default optimiser describes its defaults", all(any(float(k) == v for k in re.findall(NUM, str(SCG(None, None)))) for v in (150., 1e-6, 1e-8)))
    for cls in (G.FwdOde, G.BwdOde):
        m = G.pick(r, *G.METHODS)
        m = G.pick(r, m, m.lower(), m.upper())
        q = str(cls(dt, m, bool(i % 2)))
        T.check("a description shows step and method", m.lower() in q.lower() and any(float(k) == dt for k in re.findall(NUM, q)), {"text": q, "dt": dt, "method": m})
        other = str(cls(2 * dt, m, bool(i % 2)))
        T.check("a description shows step and method", any(float(k) == 2 * dt for k in re.findall(NUM, other)), other)
        says(T, "unknown method", lambda: cls(dt, "rk17x", True), "rk17x")
        says(T, "step", lambda: cls(-dt, m, True), -dt)
    D = int(r.integers(10, 60))
    with G.silent() as out:
        G.MODELS["L96"](1.0, 8.0, 1, D)
    T.check("the model created is announced", "96" in out.getvalue() and re.search(rf"\b{D}\b", out.getvalue()), out.getvalue())
    bad = -float("%.3g" % G.logu(r, 1e-3, 1e3))
    for name in ("DW", "OU"):
        says(T, "noise", lambda: G.MODELS[name](bad, 1.0, 1), bad)
        M = G.model(name, 1.0, 1.0, 1)
        says(T, "noise", lambda: setattr(M, "sigma", bad), bad)
    says(T, "drift", lambda: G.MODELS["OU"](1.0, bad, 1), bad)
    M = G.model("OU", 1.0, 1.0, 1)
    says(T, "drift", lambda: setattr(M, "theta", bad), bad)
    k = int(r.integers(9, 99))
    says(T, "order", lambda: GaussianMoments(np.ones(2), np.ones(2))(k), k)
    a, b = int(r.integers(2, 5)), int(r.integers(5, 9))
    says(T, "shapes", lambda: GaussianMoments(np.ones(a), np.ones(b)), (a,), (b,))
    p = sims.params(r, "OU")
    says(T, "model", lambda: Simulation("x").setup(dict(p, Model="zz17"), None), "ZZ17")
    T.case(it, xt, ft, dt)


WORKLOADS = [
    Workload("progress", progress, 240, 6000, must=["progress lines read", "limits announced", "runs that ended before the limit"]),
    Workload("long", long, 64, 2000, must=["progress lines of long runs"]),
    Workload("verdict", verdict, 240, 8000, must=["gradients passed", "gradients failed"]),
    Workload("problems", problems, 24, 400, must=["problems checked"]),
    Workload("saving", saving, 2 * len(NAMES), 10 * len(NAMES), must=["messages read"]),
    Workload("run", run, 12, 160, must=["simulations read"], timeout=400),
    Workload("descriptions", descriptions, 40, 600, must=["error messages read"]),
]
