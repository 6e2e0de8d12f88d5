"""C16: quadrature between the observations and numerical differentiation."""
import numpy as np

from .. import gens as G, refs
from ..core import Workload

from src.numerics.utilities import finite_diff, my_trapz

RULE = ("random integrands (scalar, vector, matrix valued; rough, jumping), steps and observation layouts (none, first, "
        "last, adjacent, dense); random smooth functions for the differences. Non-trivial: at least two points; distinct.")


def quadrature(T, r, i):
    n = int(G.pick(r, 2, 3, 5, 40, 333))
    if i % 17 == 5:
        n = int(r.integers(900, 20000)) if i % 13 != 4 else n
    shape = G.pick(r, (), (), (3,), (2, 2), (4, 1), (10,))
    if i % 13 == 4:     # wide values: as many components as points, or more
        shape = G.pick(r, (40,), (65,), (100,), (129,), (300,), (40, 40), (n,), (n, n) if n < 50 else (n,), (1, 70), (1,))
    y = r.standard_normal((n,) + shape) * float(G.pick(r, 1e-6, 1., 1e6)) + float(G.pick(r, 0., 3.))
    dx = float(G.pick(r, 1., .01, 1e-5, 7.))
    want = refs.trapz(y, dx)
    top = np.abs(y).sum() * dx + 1e-300
    obs = G.obs_pattern(r, n)
    if n > 800 and r.random() < .7:  # few observations, long intervals
        obs = sorted({int(q) for q in r.integers(0, n, int(r.integers(1, 5)))})
    keep = y.copy()
    T.note(n=n, shape=shape, dx=dx, obs=obs[:8])
    T.close("plain rule", my_trapz(y, dx), want, rtol=1e-12, scale=top)
    got = my_trapz(y, dx, G.obs_as(r, obs))
    T.close("split at the observations", got, want, rtol=1e-12, scale=top)
    T.close("default step is one", my_trapz(y), refs.trapz(y, 1.0), rtol=1e-12, scale=top / dx)
    T.close("empty layout", my_trapz(y, dx, []), want, rtol=1e-12, scale=top)
    T.close("keyword arguments", my_trapz(fx=y, dx=dx, obs_t=obs), want, rtol=1e-12, scale=top)
    t = np.arange(n) * dx
    T.close("exact for linear functions", my_trapz(2.0 - 3.0 * t, dx, obs), 2 * t[-1] - 1.5 * t[-1] ** 2, rtol=1e-10,
            scale=2 * t[-1] + 1.5 * t[-1] ** 2)
    z = r.standard_normal(y.shape)
    T.close("linear in the integrand", my_trapz(y + 2 * z, dx, obs), got + 2 * my_trapz(z, dx, obs), rtol=1e-10, scale=top + np.abs(z).sum() * dx)
    T.check("not negative for non-negative integrands", np.all(np.asarray(my_trapz(np.abs(y), dx, obs)) >= 0))
    T.check("integrand untouched", np.array_equal(y, keep))
    T.event("points integrated", n)
    T.case(y)


def differences(T, r, i):
    n = int(G.pick(r, 1, 2, 3, 8, 30, 30, 75)) if i % 40 != 17 else int(r.integers(150, 700))
    Q, c = r.standard_normal((n, n)), r.standard_normal(n)
    Q = Q + Q.T
    k = float(r.uniform(.5, 2))
    seen = []

    def f(x, *a):
        seen.append(a)
        s = a[0] if a else 1.0
        return float(s * (.5 * x @ Q @ x + np.sum(np.sin(k * x + c))))
    g = lambda x, s=1.0: s * (Q @ x + k * np.cos(k * x + c))
    x = r.standard_normal(n) * float(G.pick(r, .1, 2.))
    if r.random() < .3:     # coordinates that are exactly zero, equal, or whole numbers
        k0 = int(r.integers(4))
        x = (np.where(r.random(n) < .5, 0.0, x), np.zeros(n), np.full(n, float(x[0])), np.round(3 * x))[k0]
    keep = x.copy()
    got = finite_diff(f, x)
    sc = np.abs(g(x)).max() + np.abs(f(x)) + 1
    T.note(n=n)
    T.check("shape of the gradient", np.shape(got) == (() if n == 1 else (n,)), np.shape(got))
    T.close("gradient", np.reshape(got, n), g(x), rtol=1e-7, scale=sc * 10)
    T.check("point untouched", np.array_equal(keep, x))
    s = float(r.uniform(-3, 3))
    T.close("extra arguments are forwarded", np.reshape(finite_diff(f, x, s), n), g(x, s), rtol=1e-7, scale=sc * 10 * (1 + abs(s)))
    # Any number of extra arguments, used or defaulted by the function.
    ex = [float(q) for q in r.uniform(-2, 2, int(r.integers(0, 7)))]
    many = lambda q, *a: float((1 + sum((j + 1) * v for j, v in enumerate(a))) * np.sum(q ** 2))
    fac = 1 + sum((j + 1) * v for j, v in enumerate(ex))
    T.close("extra arguments are forwarded", np.reshape(finite_diff(many, x, *ex), n), 2 * fac * x, rtol=1e-7,
            scale=(1 + abs(fac)) * (1 + np.abs(x).max() + x @ x))
    o = object()
    seen.clear()
    finite_diff(lambda q, a, b: (seen.append((a, b)), float(q @ q))[1], x, o, 3)
    T.check("arguments reach every call", len(seen) >= 2 * n and all(a is o and b == 3 for a, b in seen), len(seen))
    if n == 1:
        v = float(x[0])
        T.close("scalar point", finite_diff(lambda q: float(np.sin(q[0]) if np.ndim(q) else np.sin(q)), v), np.cos(v), rtol=1e-7, scale=1)
    # Central: quadratic functions are differentiated exactly (up to rounding) in every coordinate.
    T.close("central difference", np.reshape(finite_diff(lambda q: float(.5 * q @ Q @ q), x), n), Q @ x, rtol=1e-8, scale=sc * 10)
    # Second order, not first: a strongly curved function.
    K = float(G.logu(r, 10, 1e4))
    T.close("no first order error", np.reshape(finite_diff(lambda q: float(K * (q - x) @ (q - x)), x), n), np.zeros(n), atol=1e-8 * K)
    # Large coordinates (rounding of the function values allowed for).
    for m in (30., 200., 3e3, 1e5):
        z = r.standard_normal(n) * m + G.pick(r, 0., m)
        h = lambda q: float(.5 * q @ Q @ q)
        noise = 1e-16 * np.abs(z) @ np.abs(Q) @ np.abs(z) * 1e6
        T.close("gradient at large coordinates", np.reshape(finite_diff(h, z), n), Q @ z, rtol=1e-5, atol=2 * noise, scale=np.abs(Q @ z).max())
        w = r.standard_normal(n)
        T.close("gradient at large coordinates", np.reshape(finite_diff(lambda q: float(w @ q), z), n), w, rtol=1e-5,
                atol=1e-9 * np.abs(w) @ np.abs(z), scale=np.abs(w).max())
    T.case(x, Q)


WORKLOADS = [
    Workload("quadrature", quadrature, 1200, 60000, must=["split at the observations"]),
    Workload("differences", differences, 240, 8000, must=["gradient", "no first order error"]),
]
