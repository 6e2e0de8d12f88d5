"""C07: backward integration of the Lagrange multipliers."""
import numpy as np

from .. import gens as G, refs
from ..core import Workload

from src.var_bayes.bwd_ode import BwdOde
from src.var_bayes.fwd_ode import FwdOde

RULE = ("random A(t), energy gradients, observation jumps (first / last / adjacent / dense / none), dt, 1-D and n-D, four "
        "methods; compared with an independent adjoint integrator, structural laws and the duality with the forward "
        "sweep. Non-trivial: at least one step with non-zero input; distinct by inputs.")


def sym(X):
    return .5 * (X + np.swapaxes(X, -1, -2))


def problem(r, d, n):
    t = np.arange(n) * .05
    A = float(G.pick(r, 0., 1., 4.)) * np.eye(d) + float(G.pick(r, 0., .5, 3.)) * G.smooth(r, (d, d), t) / np.sqrt(d)
    if r.random() < .5:
        A = A + r.standard_normal(A.shape)
    gm = float(G.pick(r, 0., 1., 30.)) * r.standard_normal((n, d))
    gS = float(G.pick(r, 0., 1., 30.)) * sym(r.standard_normal((n, d, d)))
    jm, jS = np.zeros((n, d)), np.zeros((n, d, d))
    if r.random() < .9:
        idx = G.obs_pattern(r, n)
        jm[idx] = float(G.pick(r, 1., 10.)) * r.standard_normal((len(idx), d))
        jS[idx] = sym(r.standard_normal((len(idx), d, d)))
    return A, gm, gS, jm, jS


def call(r, method, dt, A, gm, gS, jm, jS):
    n, d = gm.shape
    name = G.pick(r, method, method.upper(), method.capitalize())
    if d == 1 and r.random() < .8:
        q = BwdOde(dt, name, *((True,) if r.random() < .6 else ()))(*(x.reshape(n) for x in (A, gm, gS, jm, jS)))
        return np.asarray(q[0]), np.asarray(q[1]), True
    q = BwdOde(dt, name, False)(A, gm, gS, jm, jS)
    return np.asarray(q[0]), np.asarray(q[1]), False


def scheme(T, r, i):
    method = G.METHODS[i % 4]
    d = (1, 1, 2, 3, 5, 10)[(i // 4) % 6]
    n = int(G.pick(r, 2, 3, 4, 9, 60, 300 if d < 5 else 40) if r.random() < .96 else 1501 if d < 5 else 101)
    if i % 240 in (4, 5, 6, 7):   # (one dimension)
        n = int(r.integers(5000, 9000))
    elif i % 240 in (128, 129, 130, 131):
        n = int(r.integers(2100, 3500))
    dt = float(G.pick(r, 1e-4, .001, .01, .05, .2))
    P = problem(r, d, n)
    lam, psi, single = call(r, method, dt, *P)
    T.note(method=method, d=d, n=n, dt=dt)
    T.check("shapes", lam.shape == ((n,) if single else (n, d)) and psi.shape == ((n,) if single else (n, d, d)))
    lr, pr = refs.bwd_ode(method, dt, *P)
    lam, psi = lam.reshape(n, d), psi.reshape(n, d, d)
    T.close("final value is the final jump (mean)", lam[-1], P[3][-1], rtol=1e-13, atol=1e-300)
    T.close("final value is the final jump (covariance)", psi[-1], P[4][-1], rtol=1e-13, atol=1e-300)
    if not (np.all(np.isfinite(lr)) and np.all(np.isfinite(pr)) and np.abs(pr).max() < 1e12):
        return
    rl = rp = 1e-300
    for k in range(n - 1, -1, -1):
        rl, rp = max(rl, np.abs(lr[k]).max()), max(rp, np.abs(pr[k]).max())
        T.close("lambda recursion", lam[k], lr[k], rtol=1e-9, scale=max(rl, dt * np.abs(P[1]).max()), detail={"k": k})
        T.close("psi recursion", psi[k], pr[k], rtol=1e-9, scale=max(rp, dt * np.abs(P[2]).max()), detail={"k": k})
    T.event("steps compared", n - 1)
    T.check("psi stays symmetric", np.abs(psi - np.swapaxes(psi, 1, 2)).max() <= 1e-10 * (1 + np.abs(psi).max()))
    T.case(P[0], P[1])


def laws(T, r, i):
    method = G.METHODS[i % 4]
    d = (1, 2, 4)[(i // 4) % 3]
    n = int(r.integers(3, 50))
    dt = .01
    P = problem(r, d, n)
    A = P[0]
    f = BwdOde(dt, method, False)
    lam, psi = f(*P)
    sl, sp = np.abs(lam).max() + 1, np.abs(psi).max() + 1
    # Anti-causality: what happens before a time does not change the multipliers from it on.
    k = int(r.integers(0, n - 1))
    Q = [x.copy() for x in P]
    for x in Q:
        x[:k + 1] = x[:k + 1] * .3 + 1.0 * np.eye(d) if x.ndim == 3 else x[:k + 1] * .3 - 1.0
    l2, p2 = f(*Q)
    T.close("multipliers are anti-causal", np.r_[l2[k + 1:].ravel(), p2[k + 1:].ravel()],
            np.r_[lam[k + 1:].ravel(), psi[k + 1:].ravel()], rtol=1e-12)
    # Superposition.
    P2 = problem(r, d, n)
    c = float(r.uniform(-2, 2))
    l3, p3 = f(A, *P2[1:])
    l4, p4 = f(A, *(x + c * y for x, y in zip(P[1:], P2[1:])))
    T.close("lambda is linear in the forcing", l4, lam + c * l3, rtol=1e-10, scale=sl + 2 * np.abs(l3).max())
    T.close("psi is linear in the forcing", p4, psi + c * p3, rtol=1e-10, scale=sp + 2 * np.abs(p3).max())
    z = [0 * x for x in P[1:]]
    l5, p5 = f(A, *z)
    T.check("no forcing, no multipliers", not np.any(l5) and not np.any(p5))
    # lambda ignores the covariance forcing and vice versa.
    l6, p6 = f(A, P[1], P2[2], P[3], P2[4])
    T.close("lambda ignores the covariance forcing", l6, lam, rtol=1e-12)
    l7, p7 = f(A, P2[1], P[2], P2[3], P[4])
    T.close("psi ignores the mean forcing", p7, psi, rtol=1e-12)
    # A jump enters additively and is then transported.
    q = int(r.integers(0, n))
    jm = [x.copy() for x in P]
    dj, dJ = r.standard_normal(d), sym(r.standard_normal((d, d)))
    jm[3][q] += dj
    jm[4][q] += dJ
    l8, p8 = f(*jm)
    T.close("jump of lambda", l8[q] - lam[q], dj, rtol=1e-9, scale=sl)
    T.close("jump of psi", p8[q] - psi[q], dJ, rtol=1e-9, scale=sp)
    T.close("no change after the jump time", l8[q + 1:], lam[q + 1:], rtol=1e-12)
    # Change of coordinates.
    C = r.standard_normal((d, d)) + 2 * np.eye(d)
    if np.linalg.cond(C) < 50:
        Ci = np.linalg.inv(C)
        l9, p9 = f(C @ A @ Ci, P[1] @ Ci, Ci.T @ P[2] @ Ci, P[3] @ Ci, Ci.T @ P[4] @ Ci)
        T.close("equivariant lambda", l9, lam @ Ci, rtol=1e-8, scale=np.abs(Ci).max() * sl)
        T.close("equivariant psi", p9, Ci.T @ psi @ Ci, rtol=1e-8, scale=np.abs(Ci).max() ** 2 * sp)
    if d == 1:
        g = BwdOde(dt, method, True)(*(x.reshape(n) for x in P))
        T.close("1-D agrees with n-D", np.r_[g[0], g[1]], np.r_[lam.ravel(), psi.ravel()], rtol=1e-10)
    T.case(A, P[1])


def duality(T, r, i):
    """<lam0, dm0> + int lam . b = sum of jumps.m + int gm.m up to the order of the scheme."""
    method = G.METHODS[i % 4]
    d = (1, 3)[(i // 4) % 2]
    seed = int(r.integers(1, 2 ** 31))
    gaps = []
    for N in (40, 80, 160):
        rr = np.random.default_rng(seed)
        t = np.arange(N + 1) / N
        dt = 1 / N
        A = 1.2 * np.eye(d) + .5 * G.smooth(rr, (d, d), t)
        b, gm = G.smooth(rr, (d,), t), G.smooth(rr, (d,), t)
        gS = sym(G.smooth(rr, (d, d), t))
        m0, S0, Sig = rr.standard_normal(d), G.spd(rr, d), G.spd(rr, d)
        jm, jS = np.zeros((N + 1, d)), np.zeros((N + 1, d, d))
        for fr in (.25, .5, 1.0):
            k = int(round(fr * N))
            jm[k], jS[k] = rr.standard_normal(d), sym(rr.standard_normal((d, d)))
        m, S = FwdOde(dt, method, False)(A, b, m0, S0, Sig)
        lam, psi = BwdOde(dt, method, False)(A, gm, gS, jm, jS)
        lt = lam - .5 * jm  # multiplier at a jump: mean of both sides for the quadrature
        pt = psi - .5 * jS
        lt[-1], pt[-1] = lam[-1], psi[-1]
        lhs = lam[0] @ m0 + refs.trapz((lt * b).sum(1), dt)
        rhs = refs.trapz((gm * m).sum(1), dt) + (jm * m).sum()
        lhS = np.sum(psi[0] * S0) + refs.trapz((pt * Sig).sum((1, 2)), dt)
        rhS = refs.trapz((gS * S).sum((1, 2)), dt) + (jS * S).sum()
        gaps.append((lhs - rhs, lhS - rhS, abs(lhs) + abs(rhs) + 1, abs(lhS) + abs(rhS) + 1))
    for q in (0, 1):
        e = np.array([g[q] for g in gaps])
        sc = gaps[-1][2 + q]
        lim = 2 * e[2] - e[1]
        T.check(("mean" if q == 0 else "covariance") + " sweep is the adjoint of the forward sweep",
                abs(lim) <= 5e-3 * sc and abs(e[2]) <= .1 * sc, {"e": e, "scale": sc, "method": method})
        if method != "euler":
            T.check("duality gap of second order schemes", abs(e[2]) <= 2e-2 * sc, {"e": e, "scale": sc, "method": method})
    T.case(seed)


def validation(T, r, i):
    for dt in (0.0, -0.01):
        for me in G.METHODS:
            T.raises("dt <= 0 is rejected", ValueError, lambda: BwdOde(dt, me, True))
    for me in ("rk3", "", None, 4):
        T.raises("unknown method is rejected", ValueError, lambda: BwdOde(.01, me, True))
    for me in ("Euler", "HEUN", "rK2", "RK4"):
        T.check("names are case-insensitive", BwdOde(.01, me, False) is not None)
    T.case(i)


WORKLOADS = [
    Workload("scheme", scheme, 500, 16000, must=["lambda recursion", "psi recursion"]),
    Workload("laws", laws, 120, 4000, must=["multipliers are anti-causal", "jump of lambda"]),
    Workload("duality", duality, 32, 800, must=["mean sweep is the adjoint of the forward sweep"]),
    Workload("validation", validation, 1, 1),
]
