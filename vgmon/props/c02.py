"""C02: SDE energies, expectations and their gradients are the exact Gaussian expectations (DW, OU, L63)."""
import numpy as np

from .. import gens as G, refs
from ..core import Workload

RULE = ("random marginals m(t), S(t), linear/offset functions, grid, observation layout, parameters (also changed through "
        "the setters); compared with Gauss-Hermite quadrature (exact for these polynomials) and Price/Bonnet gradients. "
        "A case is non-trivial when the energy is positive and finite; distinct by its inputs.")
ASSUMPTIONS = ["system noise is diagonal for L63 (only the diagonal of its inverse enters the energy: see KNOWN_FINDINGS)"]


def inputs(r, n, d, single):
    sc = float(G.pick(r, 1e-3, .1, 1., 1., 3., 30.))
    A = sc * r.standard_normal((n, d, d))
    b = float(G.pick(r, 0., 1., 1., 40.)) * r.standard_normal((n, d))
    m = float(G.pick(r, 0., .3, 2., 2., 20.)) * r.standard_normal((n, d))
    S = np.array([G.spd(r, d, *G.pick(r, (1e-6, 1e-3), (.01, .5), (.2, 3.), (1., 30.))) for _ in range(n)])
    if r.random() < .15:
        # Tiny units: everything is small, and the energy is dominated by the spread.
        u = float(G.logu(r, 1e-6, 1e-2))
        m, b = u * m, u * b
        S = np.array([G.spd(r, d, .05 * u * u, 2 * u * u) for _ in range(n)])
    return A, b, m, S


def exact(T, r, i):
    name = ("DW", "OU", "L63")[i % 3]
    d = G.dims(name)
    n = int(G.pick(r, 2, 3, 4, 11, 40, 151) if r.random() < .95 else G.pick(r, 301, 1001, 2001))
    if i % 120 in (36, 37):   # DW and OU on long windows
        n = int(r.integers(4000, 30000))
    dt = float(G.pick(r, 1e-3, .01, .05, .5, G.logu(r, 1e-5, .5), 1 / 300, 1e-6))
    theta = G.rand_theta(r, name, wild=True)
    sig, Sig = (float(G.logu(r, .01, 20)),) * 2 if d == 1 else G.diag_noise(r, 3, .05, 20)
    Sig = np.reshape(np.diag(np.atleast_1d(Sig)) if d == 1 else Sig, (d, d))
    M = G.model(name, sig, theta, 5)
    G.set_grid(M, n, dt, float(G.pick(r, 0., 3., -1.)), d)
    dt = float(np.diff(M.time_window[:2])[0])
    A, b, m, S = inputs(r, n, d, d == 1)
    obs = G.obs_pattern(r, n)
    squeeze = (lambda q: q.reshape(n)) if d == 1 else (lambda q: q)
    T.note(model=name, n=n, dt=dt, theta=theta, sigma=sig, obs=obs[:8])
    args = [squeeze(q) for q in (A, b, m, S)]

    def judge(tag, theta, Sig):
        W = np.diag(1.0 / np.diag(Sig))
        e, Ef, Edf, dm, dS, dth, mag = refs.sde_energy_t(name, theta, W, A, b, m, S)
        E, (ef, edf), (gm, gS, gth, gsig) = M.energy(*args, G.obs_as(r, obs))
        top = refs.trapz(mag, dt)
        T.event("time points compared", n)
        T.close(tag + "energy", E, refs.trapz(e, dt), rtol=1e-9, scale=top)
        T.check(tag + "energy is not negative", float(E) >= -1e-9 * top, E)
        sc = lambda q: np.max(np.abs(q))
        T.close(tag + "<f>", np.reshape(ef, (n, d)), Ef, rtol=1e-9, scale=sc(np.abs(refs.drift(name, np.abs(m) + np.sqrt(
            np.einsum("tii->ti", S)), np.abs(theta)))) + sc(Ef))
        T.close(tag + "<df/dx>", np.reshape(edf, (n, d, d)), Edf, rtol=1e-9)
        for k, (got, want) in {"dE/dm": (gm, dm), "dE/dS": (gS, dS)}.items():
            got = np.reshape(got, want.shape)
            # Per time point: the magnitudes of different times may be far apart.
            for t in range(n):
                # what the terms of the derivative amount to before they cancel
                steep = sc(A[t]) + sc(Edf[t])
                terms = steep * np.sqrt(mag[t] * sc(W)) if k == "dE/dm" else steep ** 2 * sc(W)
                T.close(tag + k, got[t], want[t], rtol=1e-8, scale=max(sc(want[t]), mag[t] / max(
                    1.0, sc(m[t])) * 1e-3, terms, 1e-12), detail={"t": t})
        T.close(tag + "dE/dtheta", np.ravel(gth), refs.trapz(dth, dt), rtol=1e-8,
                scale=max(sc(refs.trapz(np.abs(dth), dt)), top * 1e-3))
        if d == 1:
            T.close(tag + "dE/dsigma", np.ravel(gsig), [-refs.trapz(e, dt) / Sig[0, 0]], rtol=1e-8, scale=top / Sig[0, 0])
        else:
            comp = np.array([refs.trapz(refs.sde_energy_t(name, theta, np.diag(np.eye(3)[q]), A, b, m, S)[0], dt)
                             for q in range(3)])
            T.close(tag + "dE/dSigma", gsig, -W @ np.diag(comp) @ W, rtol=1e-8, scale=top * sc(W))
        return float(E), float(top)

    E0, top = judge("", theta, Sig)
    T.case(args[0], args[2], E0)
    # The partition at the observation times does not change the integral.
    for other in ([], G.obs_pattern(r, n)):
        E2 = M.energy(*args, other)[0]
        T.close("independent of the observation layout", E2, E0, rtol=1e-9, scale=top)
    # Parameters changed through the setters take effect.
    th2 = G.rand_theta(r, name, wild=True)
    M.theta = th2
    judge("after theta setter: ", th2, Sig)
    S2 = float(G.logu(r, .05, 5)) if d == 1 else np.diag(G.logu(r, .2, 9, 3))
    M.sigma = S2
    judge("after sigma setter: ", th2, np.reshape(S2, (d, d)))


def zero_gap(T, r, i):
    """The energy is zero iff the linear process equals the model: OU with A = theta, b = 0."""
    n = int(r.integers(2, 60))
    th = float(G.logu(r, .1, 5))
    M = G.model("OU", float(G.logu(r, .05, 5)), th)
    G.set_grid(M, n, .01)
    m, s = r.standard_normal(n), G.logu(r, .01, 2, n)
    E, _, (gm, gs, gt, gsg) = M.energy(np.full(n, th), np.zeros(n), m, s, [0])
    T.close("energy of the exact process is zero", E, 0.0, atol=1e-12)
    T.close("gradients vanish there", np.concatenate((gm, gs, [gt, gsg])), np.zeros(2 * n + 2), atol=1e-10)
    k = int(r.integers(n))
    a = np.full(n, th)
    a[k] += float(G.logu(r, .01, 1))
    E2 = M.energy(a, np.zeros(n), m, s, [0])[0]
    T.check("any departure costs energy", E2 > 0, E2)
    T.case(m)


def noise_full(T, r, i):
    """Known finding: off-diagonal entries of the inverse system noise do not enter the energy."""
    n = 5
    Sig = G.spd(r, 3, 1., 8.)
    th = np.array([10., 28., 2.6])
    M = G.model("L63", Sig, th)
    G.set_grid(M, n, .01, 0., 3)
    A, b, m, S = (r.standard_normal((n, 3, 3)), r.standard_normal((n, 3)), r.standard_normal((n, 3)),
                  np.array([G.spd(r, 3) for _ in range(n)]))
    E = float(M.energy(A, b, m, S, [2])[0])
    P = np.linalg.inv(Sig)
    full = refs.trapz(refs.sde_energy_t("L63", th, P, A, b, m, S)[0], .01)
    dg = refs.trapz(refs.sde_energy_t("L63", th, np.diag(np.diag(P)), A, b, m, S)[0], .01)
    if abs(full - dg) < 1e-3 * dg:
        return
    ok = abs(E - full) <= 1e-8 * dg
    T.known("nondiagonal-system-noise", ok, "diagonal-only" if abs(E - dg) <= 1e-8 * dg else "other",
            {"E": E, "full": full, "diag": dg})
    T.case(Sig)


WORKLOADS = [
    Workload("exact", exact, 360, 12000, must=["energy", "dE/dS"]),
    Workload("zero_gap", zero_gap, 60, 1500, must=["any departure costs energy"]),
    Workload("noise_full", noise_full, 8, 200),
]
