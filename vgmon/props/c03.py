"""C03: L96 energy, expectations and gradient estimates."""
import numpy as np

from .. import gens as G, refs
from ..core import Workload

RULE = ("random L96 states (D in 10..64), marginals, variational functions and noise; <f>, <df/dx> against the exact "
        "Gaussian expectations, the energy and its gradients against an independent unscented transform, ring-shift "
        "equivariance and the deterministic limit. Non-trivial: finite positive energy; distinct by inputs.")
ASSUMPTIONS = ["the energy of L96 is by design the unscented-transform estimate with 2D+1 points and kappa=1.05 D",
               "system noise is diagonal (see KNOWN_FINDINGS)"]


def warmup():
    G.warm_numba()


def make(r, D, n):
    theta = float(G.rand_theta(r, "L96"))
    arg, Sig = G.diag_noise(r, D, .2, 10)
    M = G.model("L96", arg, theta, 3, D)
    dt = float(G.pick(r, .001, .01, .05))
    G.set_grid(M, n, dt, float(G.pick(r, 0., 2.)), D)
    return M, theta, Sig, float(np.diff(M.time_window[:2])[0])


def fields(r, D, n, full=True):
    A = float(G.pick(r, .1, 1., 5.)) * r.standard_normal((n, D, D)) / np.sqrt(D) + 3 * np.eye(D)
    b = float(G.pick(r, 0., 2., 30.)) * r.standard_normal((n, D))
    m = float(G.pick(r, 0., 1., 4.)) * r.standard_normal((n, D))
    lo, hi = G.pick(r, (1e-4, 1e-2), (.05, .5), (.5, 4.))
    S = np.array([G.spd(r, D, lo, hi) if full else np.diag(G.logu(r, lo, hi, D)) for _ in range(n)])
    return A, b, m, S


def estimators(T, r, i):
    D = int(G.pick(r, 10, 11, 13, 16, 24, 40, 41, int(r.integers(42, 65)))) if r.random() < .9 else 10
    n = int(G.pick(r, 2, 3, 6)) if D < 24 else 2
    if D < 12 and r.random() < .3:
        n = int(G.pick(r, 20, 60))
    if i % 164 == 33:    # a long window
        D, n = 10, int(r.integers(300, 700))
    if i % 328 == 20:    # costs gigabytes: one at a time
        D, n = int(G.pick(r, 129, 130, 133, 140)), 2
    M, theta, Sig, dt = make(r, D, n)
    A, b, m, S = fields(r, D, n)
    obs = G.obs_pattern(r, n)
    T.note(D=D, n=n, theta=theta, dt=dt)
    E, (ef, edf), (gm, gS, gth, gsig) = M.energy(A, b, m, S, G.obs_as(r, obs))

    def judge(tag, theta, Sig, E, ef, edf, gm, gS, gth, gsig):
        dw = 1 / np.diag(Sig)
        e, comp, dm, dS = refs.l96_ut(theta, dw, A, b, m, S)
        T.close(tag + "<f>", ef, refs.l96_mean_drift(theta, m, S), rtol=1e-9, scale=np.abs(m).max() ** 2 * 4 + np.abs(
            S).max() * 2 + abs(theta) + 1)
        T.close(tag + "<df/dx>", edf, refs.drift_jac("L96", m, theta), rtol=1e-9, scale=np.abs(m).max() * 4 + 1)
        T.close(tag + "energy estimate", E, refs.trapz(e, dt), rtol=1e-9)
        T.check(tag + "energy is not negative", E >= 0, E)
        for t in range(n):
            P = np.abs(np.linalg.inv(S[t])).max()
            T.close(tag + "dE/dm estimate", gm[t], dm[t], rtol=1e-8, scale=e[t] * np.sqrt(P) + np.abs(dm[t]).max())
            T.close(tag + "dE/dS estimate", gS[t], dS[t], rtol=1e-8, scale=e[t] * P + np.abs(dS[t]).max())
        Ef = refs.l96_mean_drift(theta, m, S)
        dth = dw * refs.trapz(Ef + np.einsum("tij,tj->ti", A, m) - b, dt)
        T.close(tag + "dE/dtheta", gth, dth, rtol=1e-8, scale=dw.max() * dt * n * (np.abs(Ef).max() + np.abs(b).max() + 5))
        W = np.diag(dw)
        T.close(tag + "dE/dSigma", gsig, -.5 * W @ np.diag(refs.trapz(comp, dt)) @ W, rtol=1e-8)

    judge("", theta, Sig, E, ef, edf, gm, gS, gth, gsig)
    T.event("time points compared", n)
    T.case(A[0], m)
    if r.random() < .5:
        th2, S2 = float(r.uniform(-2, 9)), np.diag(G.logu(r, .5, 5, D))
        M.theta, M.sigma = th2, S2
        E, (ef, edf), (gm, gS, gth, gsig) = M.energy(A, b, m, S, obs)
        judge("after setters: ", th2, S2, E, ef, edf, gm, gS, gth, gsig)


def ring(T, r, i):
    """Renaming the sites around the ring renames the results (diagonal S: the sigma points rotate along)."""
    D = int(G.pick(r, 10, 12, 15, 20))
    n, k = 2, 0
    M, theta, _, dt = make(r, D, n)
    sig = np.diag(np.full(D, float(G.logu(r, .5, 5))))
    M.sigma = sig
    A, b, m, S = fields(r, D, n, full=False)
    k = int(r.integers(1, D))
    p = np.roll(np.arange(D), k)
    one = M.energy(A, b, m, S, [1])
    two = M.energy(A[:, p][:, :, p], b[:, p], m[:, p], S[:, p][:, :, p], [1])
    T.note(D=D, shift=k)
    T.close("energy is ring-shift invariant", two[0], one[0], rtol=1e-9)
    T.close("<f> is equivariant", two[1][0], one[1][0][:, p], rtol=1e-9)
    T.close("<df/dx> is equivariant", two[1][1], one[1][1][:, p][:, :, p], rtol=1e-9)
    T.close("dE/dm is equivariant", two[2][0], one[2][0][:, p], rtol=1e-8)
    T.close("dE/dS is equivariant", two[2][1], one[2][1][:, p][:, :, p], rtol=1e-8)
    T.close("dE/dtheta is equivariant", two[2][2], one[2][2][p], rtol=1e-8)
    T.case(m, k)


def deterministic_limit(T, r, i):
    D = int(G.pick(r, 10, 14, 40))
    n = 2
    M, theta, Sig, dt = make(r, D, n)
    A, b, m, S = fields(r, D, n)
    eps = 1e-8
    S = np.array([eps * np.eye(D)] * n)
    E, (ef, _), (_, _, gth, _) = M.energy(A, b, m, S, [0])
    f = refs.drift("L96", m, theta)
    res = f + np.einsum("tij,tj->ti", A, m) - b
    want = refs.trapz(.5 * (res ** 2 / np.diag(Sig)).sum(1), dt)
    T.close("energy tends to the deterministic action", E, want, rtol=1e-4, atol=1e-4 * dt * n)
    T.close("<f> tends to the drift", ef, f, rtol=1e-6, scale=np.abs(f).max() + 1)
    T.case(m)


def accuracy(T, r, i):
    """For weakly nonlinear residuals (small S) the estimate is close to the exact expectation (Monte Carlo free:
    second-order expansion of the exact expectation)."""
    D, n = 10, 2
    M, theta, Sig, dt = make(r, D, n)
    A, b, m, _ = fields(r, D, n)
    hi = float(G.pick(r, 1e-4, 1e-4, 1e-6, 1e-8))
    S = np.array([G.spd(r, D, .1 * hi, hi) for _ in range(n)])
    if hi < 1e-5 and r.random() < .7:   # the residual nearly vanishes at the mean: the covariance is all there is
        b = refs.l96_mean_drift(theta, m, S) + np.einsum("tij,tj->ti", A, m)
    E = M.energy(A, b, m, S, [0])[0]
    f = refs.drift("L96", m, theta)
    J = refs.drift_jac("L96", m, theta) + A
    w = 1 / np.diag(Sig)
    res = refs.l96_mean_drift(theta, m, S) + np.einsum("tij,tj->ti", A, m) - b
    cov = np.einsum("tij,tjk,tik->ti", J, S, J)
    want = refs.trapz(.5 * ((res ** 2 + cov) * w).sum(1), dt)
    if hi > 1e-5:
        T.close("energy to second order in S", E, want, rtol=1e-5, atol=1e-8)
    else:
        T.close("energy of tiny covariances", E, want, rtol=1e-4)
    T.case(m)


WORKLOADS = [
    Workload("estimators", estimators, 64, 2400, must=["dE/dS estimate"], timeout=150),
    Workload("ring", ring, 32, 800, must=["energy is ring-shift invariant"]),
    Workload("deterministic_limit", deterministic_limit, 24, 600, must=["energy tends to the deterministic action"]),
    Workload("accuracy", accuracy, 24, 600, must=["energy to second order in S", "energy of tiny covariances"]),
]
