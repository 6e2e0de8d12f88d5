"""C06: forward integration of the marginal moments."""
import numpy as np
from scipy.linalg import expm

from .. import gens as G, refs
from ..core import Workload

from src.var_bayes.fwd_ode import FwdOde

RULE = ("random A(t), b(t), m0, S0, noise, dt and number of points (smooth / rough / jumping / constant coefficients), "
        "1-D and n-D, four methods; compared with an independent Butcher-tableau integrator, closed-form solutions, and "
        "structural laws. Non-trivial: at least one step and finite moments; distinct by inputs.")


def problem(r, d, n, rough=True):
    t = np.arange(n) * .05
    A = float(G.pick(r, 0., 1., 4.)) * np.eye(d) + float(G.pick(r, 0., .5, 3.)) * G.smooth(r, (d, d), t) / np.sqrt(d)
    b = float(G.pick(r, 0., 1., 20.)) * G.smooth(r, (d,), t)
    if rough and r.random() < .5:
        A, b = A + r.standard_normal(A.shape), b + 3 * r.standard_normal(b.shape)
    m0 = float(G.pick(r, 0., 1., 20.)) * r.standard_normal(d)
    S0 = G.spd(r, d, *G.pick(r, (1e-4, 1e-2), (.1, 2.)))
    Sig = G.spd(r, d, *G.pick(r, (1e-3, .1), (.2, 10.)))
    return A, b, m0, S0, Sig


def call(r, method, dt, A, b, m0, S0, Sig):
    n, d = b.shape
    name = G.pick(r, method, method.upper(), method.capitalize())
    if d == 1 and r.random() < .8:
        f = FwdOde(dt, name, True) if r.random() < .6 else FwdOde(dt, name)
        m, S = f(A.reshape(n), b.reshape(n), G.pick(r, float, np.float64)(m0[0]), float(S0[0, 0]), float(Sig[0, 0]))
        return np.asarray(m), np.asarray(S), True
    f = FwdOde(dt, name, False) if r.random() < .5 else FwdOde(dt=dt, method=name, single_dim=False)
    m, S = f(A, b, m0, S0, Sig)
    return np.asarray(m), np.asarray(S), False


def scheme(T, r, i):
    method = G.METHODS[i % 4]
    d = (1, 1, 2, 3, 5, 10)[(i // 4) % 6]
    n = int(G.pick(r, 1, 2, 3, 4, 9, 60, 300 if d < 5 else 40) if r.random() < .96 else 1501 if d < 5 else 101)
    if i % 240 in (4, 5, 6, 7):   # (one dimension)
        n = int(r.integers(5000, 9000))
    elif i % 240 in (128, 129, 130, 131):
        n = int(r.integers(2100, 3500))
    dt = float(G.pick(r, 1e-4, .001, .01, .05, .2))
    A, b, m0, S0, Sig = problem(r, d, n)
    m, S, single = call(r, method, dt, A, b, m0, S0, Sig)
    T.note(method=method, d=d, n=n, dt=dt)
    T.check("shapes", m.shape == ((n,) if single else (n, d)) and S.shape == ((n,) if single else (n, d, d)), (m.shape, S.shape))
    mr, Sr = refs.fwd_ode(method, dt, A, b, m0, S0, Sig)
    m, S = m.reshape(n, d), S.reshape(n, d, d)
    T.close("initial mean", m[0], m0, rtol=0)
    T.close("initial covariance", S[0], S0, rtol=0)
    run_m, run_S = 1e-300, 1e-300
    if not (np.all(np.isfinite(mr)) and np.all(np.isfinite(Sr)) and np.abs(Sr).max() < 1e12):
        return
    for k in range(n):
        run_m, run_S = max(run_m, np.abs(mr[k]).max()), max(run_S, np.abs(Sr[k]).max())
        T.close("mean recursion", m[k], mr[k], rtol=1e-9, scale=max(run_m, dt * np.abs(b).max()), detail={"k": k})
        T.close("covariance recursion", S[k], Sr[k], rtol=1e-9, scale=run_S, detail={"k": k})
    T.event("steps compared", n - 1)
    asym = np.abs(S - np.swapaxes(S, 1, 2)).max() / np.abs(S).max()
    T.check("covariance stays symmetric", asym <= 1e-10, asym)
    T.case(A, m0)


def order(T, r, i):
    """Closed form for constant coefficients, with the documented order of convergence."""
    method = G.METHODS[i % 4]
    d = (1, 2, 3)[(i // 4) % 3]
    A0 = 1.2 * np.eye(d) + .6 * r.standard_normal((d, d)) / np.sqrt(d)
    b0, m0, S0, Sig = r.standard_normal(d), r.standard_normal(d), G.spd(r, d, .3, 2), G.spd(r, d, .3, 2)
    tf = 1.0
    E = expm(-A0 * tf)
    mx = E @ m0 + np.linalg.solve(A0, (np.eye(d) - E) @ b0)
    K = np.kron(A0, np.eye(d)) + np.kron(np.eye(d), A0)
    Sx = np.linalg.solve(K, Sig.ravel())
    Sx = (expm(-K * tf) @ (S0.ravel() - Sx) + Sx).reshape(d, d)
    err = []
    for N in (20, 40, 80):
        A, b = np.array([A0] * (N + 1)), np.array([b0] * (N + 1))
        m, S, _ = call(r, method, tf / N, A, b, m0, S0, Sig)
        err.append(max(np.abs(m[-1].reshape(d) - mx).max(), np.abs(S[-1].reshape(d, d) - Sx).max()))
    p = refs.ORDER[method]
    rate = np.log2(err[1] / err[2]) if err[2] > 1e-12 else p
    T.note(method=method, err=err)
    T.check("order of convergence", rate >= p - .35 or err[2] < 1e-10, {"err": err, "rate": rate, "expected": p})
    T.check("accuracy", err[2] <= {1: .15, 2: .01, 4: 1e-5}[p] * (1 + np.abs(Sx).max() + np.abs(mx).max() + np.abs(A0).max() ** 4), err)
    T.case(A0)


def varying(T, r, i):
    """Smooth time-dependent coefficients: all methods converge to one solution."""
    d = (1, 3)[i % 2]
    seed = int(r.integers(1, 2 ** 31))
    sol = {}
    for method in G.METHODS:
        for N in (64, 128):
            rr = np.random.default_rng(seed)
            t = np.arange(N + 1) / N
            A = 1.5 * np.eye(d) + .4 * G.smooth(rr, (d, d), t)
            b = G.smooth(rr, (d,), t)
            m0, S0, Sig = rr.standard_normal(d), G.spd(rr, d, .3, 2), G.spd(rr, d, .3, 2)
            m, S, _ = call(rr, method, 1 / N, A, b, m0, S0, Sig)
            sol[method, N] = np.r_[m[-1].ravel(), S[-1].ravel()]
    best = refs.fwd_ode("rk4", 1 / 2048, *_fine(seed, d, 2048))
    best = np.r_[best[0][-1], best[1][-1].ravel()]
    sc = np.abs(best).max()
    for method in G.METHODS:
        e1, e2 = np.abs(sol[method, 64] - best).max(), np.abs(sol[method, 128] - best).max()
        p = min(2, refs.ORDER[method])
        T.check("converges for varying coefficients", e2 <= max(e1 / 2 ** (p - .45), 1e-7 * sc) or e2 < 1e-4 * sc,
                {"method": method, "e": [e1, e2]})
        T.check("close to the exact solution", e2 <= {1: .1, 2: 2e-3}[p] * (1 + sc), {"method": method, "e": e2})
    T.case(seed)


def _fine(seed, d, N):
    rr = np.random.default_rng(seed)
    t = np.arange(N + 1) / N
    A = 1.5 * np.eye(d) + .4 * G.smooth(rr, (d, d), t)
    b = G.smooth(rr, (d,), t)
    return A, b, rr.standard_normal(d), G.spd(rr, d, .3, 2), G.spd(rr, d, .3, 2)


def laws(T, r, i):
    method = G.METHODS[i % 4]
    d = (1, 2, 4)[(i // 4) % 3]
    n = int(r.integers(3, 50))
    dt = .01
    A, b, m0, S0, Sig = problem(r, d, n)
    f = FwdOde(dt, method, False)
    m, S = f(A, b, m0, S0, Sig)
    sm, sS = np.abs(m).max() + 1, np.abs(S).max()
    # Causality: coefficients after a time do not change the moments up to it.
    k = int(r.integers(1, n))
    A2, b2 = A.copy(), b.copy()
    A2[k:], b2[k:] = A2[k:] + 1.0, b2[k:] - 2.0
    m2, S2 = f(A2, b2, m0, S0, Sig)
    T.close("moments are causal", np.r_[m2[:k].ravel(), S2[:k].ravel()], np.r_[m[:k].ravel(), S[:k].ravel()], rtol=1e-12)
    if k < n - 1:
        T.check("later moments react", not np.allclose(m2[k + 1:], m[k + 1:], rtol=1e-9))
    # Superposition in (m0, b) and in (S0, Sigma); the mean ignores the noise, the covariance ignores b.
    c = float(r.uniform(-2, 2))
    m0b, bb = r.standard_normal(d), r.standard_normal(b.shape)
    ma = f(A, b + c * bb, m0 + c * m0b, S0, Sig)
    mb = f(A, bb, m0b, 2.5 * S0, .3 * Sig)
    T.close("mean is linear in (m0, b)", ma[0], m + c * mb[0], rtol=1e-10, scale=sm + np.abs(mb[0]).max() * 2)
    T.close("covariance ignores m0, b", ma[1], S, rtol=1e-12)
    Sc = f(A, b, m0, G_ := G.spd(r, d), Q_ := G.spd(r, d))[1]
    Sd = f(A, b, m0, S0 + 2 * G_, Sig + 2 * Q_)[1]
    T.close("covariance is linear in (S0, Sigma)", Sd, S + 2 * Sc, rtol=1e-10, scale=sS + 2 * np.abs(Sc).max())
    # Change of coordinates.
    Cm = r.standard_normal((d, d)) + 2 * np.eye(d)
    if np.linalg.cond(Cm) < 50:
        Ci = np.linalg.inv(Cm)
        m3, S3 = f(Cm @ A @ Ci, b @ Cm.T, Cm @ m0, Cm @ S0 @ Cm.T, Cm @ Sig @ Cm.T)
        T.close("equivariant mean", m3, m @ Cm.T, rtol=1e-8, scale=np.abs(Cm).max() * sm)
        T.close("equivariant covariance", S3, Cm @ S @ Cm.T, rtol=1e-8, scale=np.abs(Cm).max() ** 2 * sS)
    # A window that starts later continues the same solution.
    q = int(r.integers(0, n - 1))
    m4, S4 = f(A[q:], b[q:], m[q], S[q], Sig)
    T.close("restart from an intermediate time", np.r_[m4.ravel(), S4.ravel()], np.r_[m[q:].ravel(), S[q:].ravel()], rtol=1e-10)
    if d == 1:
        g = FwdOde(dt, method, True)
        m5, S5 = g(A.reshape(n), b.reshape(n), float(m0[0]), float(S0[0, 0]), float(Sig[0, 0]))
        T.close("1-D agrees with n-D", np.r_[m5, S5], np.r_[m.ravel(), S.ravel()], rtol=1e-10)
    T.case(A, m0)


def positive(T, r, i):
    """Damped processes with a resolved time step keep the covariance positive definite."""
    method = G.METHODS[i % 4]
    d = (1, 3, 6)[(i // 4) % 3]
    n, dt = 200, .01
    t = np.arange(n) * dt
    A = float(G.pick(r, .5, 2., 8.)) * np.eye(d) + .5 * G.smooth(r, (d, d), t) / np.sqrt(d)
    S0, Sig = G.spd(r, d, .05, 2), G.spd(r, d, .05, 5)
    m, S = FwdOde(dt, method, False)(A, np.zeros((n, d)), np.zeros(d), S0, Sig)
    T.check("covariance is positive definite", np.linalg.eigvalsh(S).min() > 0, np.linalg.eigvalsh(S).min())
    T.check("zero mean stays zero", not np.any(m))
    # Stationary solution of the constant problem is a fixed point of every method.
    A0 = A[0]
    K = np.kron(A0, np.eye(d)) + np.kron(np.eye(d), A0)
    Ss = np.linalg.solve(K, Sig.ravel()).reshape(d, d)
    ms = r.standard_normal(d)
    m, S = FwdOde(dt, method, False)(np.array([A0] * 30), np.array([A0 @ ms] * 30), ms, Ss, Sig)
    T.close("stationary mean is kept", m, np.array([ms] * 30), rtol=1e-9)
    T.close("stationary covariance is kept", S, np.array([Ss] * 30), rtol=1e-9)
    T.case(A)


def validation(T, r, i):
    for dt in (0.0, -0.01, -1e-12):
        for me in G.METHODS:
            T.raises("dt <= 0 is rejected", ValueError, lambda: FwdOde(dt, me, True))
    for me in ("rk3", "", "eulerr", None, 4, "leapfrog"):
        T.raises("unknown method is rejected", ValueError, lambda: FwdOde(.01, me, True))
    for me in ("Euler", "HEUN", "rK2", "RK4"):
        T.check("names are case-insensitive", FwdOde(.01, me, False) is not None)
    T.case(i)


WORKLOADS = [
    Workload("scheme", scheme, 500, 16000, must=["mean recursion", "covariance recursion"]),
    Workload("order", order, 48, 900, must=["order of convergence"]),
    Workload("varying", varying, 12, 200, must=["converges for varying coefficients"]),
    Workload("laws", laws, 120, 4000, must=["moments are causal", "restart from an intermediate time"]),
    Workload("positive", positive, 24, 600, must=["covariance is positive definite"]),
    Workload("validation", validation, 1, 1),
]
