"""Independent reference computations (oracles).

Nothing here imports /repo.  Everything is written from the mathematics:
Runge-Kutta tableaux for the ODEs, Gauss-Hermite quadrature (exact for the
polynomial drifts) and Price's / Bonnet's theorems for the SDE energies,
Gaussian KL and likelihood formulas in matrix form.
"""
import numpy as np

METHODS = ("euler", "heun", "rk2", "rk4")

# Butcher tableaux: nodes c, matrix a (rows), weights w.
TABLEAU = {
    "euler": ([0.0], [[]], [1.0]),
    "heun": ([0.0, 1.0], [[], [1.0]], [0.5, 0.5]),
    "rk2": ([0.0, 0.5], [[], [0.5]], [0.0, 1.0]),
    "rk4": ([0.0, 0.5, 0.5, 1.0], [[], [0.5], [0.0, 0.5], [0.0, 0.0, 1.0]],
            [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
}
ORDER = {"euler": 1, "heun": 2, "rk2": 2, "rk4": 4}


def lift(x, lead, d):
    """1-D quantities as d x d (lead=2) / d (lead=1) arrays with d = 1."""
    x = np.asarray(x, dtype=float)
    return x.reshape(x.shape + (1,) * lead) if d == 1 and x.ndim <= 1 else x


def fwd_ode(method, dt, A, b, m0, S0, Sig):
    """m' = -A m + b, S' = -A S - S A' + Sig; coefficients linear between grid points."""
    c, a, w = TABLEAU[method]
    n, d = b.shape
    m, S = np.zeros((n, d)), np.zeros((n, d, d))
    m[0], S[0] = m0, S0
    for k in range(n - 1):
        km, kS = [], []
        for i, ci in enumerate(c):
            Ac, bc = (1 - ci) * A[k] + ci * A[k + 1], (1 - ci) * b[k] + ci * b[k + 1]
            mi = m[k] + dt * sum((aij * kj for aij, kj in zip(a[i], km)), np.zeros(d))
            Si = S[k] + dt * sum((aij * kj for aij, kj in zip(a[i], kS)), np.zeros((d, d)))
            km.append(bc - Ac @ mi)
            kS.append(Sig - Ac @ Si - Si @ Ac.T)
        m[k + 1] = m[k] + dt * sum(wi * ki for wi, ki in zip(w, km))
        S[k + 1] = S[k] + dt * sum(wi * ki for wi, ki in zip(w, kS))
    return m, S


def bwd_ode(method, dt, A, gm, gS, jm, jS):
    """-lam' = gm - A' lam, -psi' = gS - psi A - A' psi, jumps j at the grid points, from t=tf down."""
    c, a, w = TABLEAU[method]
    n, d = gm.shape
    lam, psi = np.zeros((n, d)), np.zeros((n, d, d))
    lam[-1], psi[-1] = jm[-1], jS[-1]
    for k in range(n - 1, 0, -1):
        kl, kp = [], []
        for i, ci in enumerate(c):
            mix = lambda q: (1 - ci) * q[k] + ci * q[k - 1]
            Ac = mix(A)
            li = lam[k] + dt * sum((aij * kj for aij, kj in zip(a[i], kl)), np.zeros(d))
            pi = psi[k] + dt * sum((aij * kj for aij, kj in zip(a[i], kp)), np.zeros((d, d)))
            kl.append(mix(gm) - Ac.T @ li)
            kp.append(mix(gS) - pi @ Ac - Ac.T @ pi)
        lam[k - 1] = lam[k] + dt * sum(wi * ki for wi, ki in zip(w, kl)) + jm[k - 1]
        psi[k - 1] = psi[k] + dt * sum(wi * ki for wi, ki in zip(w, kp)) + jS[k - 1]
    return lam, psi


# ------------------------------------------------------------------ drifts
def drift(name, x, theta):
    """x: (..., d) -> (..., d)"""
    if name == "DW":
        return 4.0 * x * (theta - x ** 2)
    if name == "OU":
        return -theta * x
    if name == "L63":
        s, r, b = theta
        X, Y, Z = x[..., 0], x[..., 1], x[..., 2]
        return np.stack([s * (Y - X), X * (r - Z) - Y, X * Y - b * Z], axis=-1)
    if name == "L96":
        d = x.shape[-1]
        i = np.arange(d)
        return (x[..., (i + 1) % d] - x[..., (i - 2) % d]) * x[..., (i - 1) % d] - x + theta
    raise KeyError(name)


def drift_jac(name, x, theta):
    """x: (..., d) -> (..., d, d)"""
    d = x.shape[-1]
    J = np.zeros(x.shape + (d,))
    if name == "DW":
        J[..., 0, 0] = 4.0 * theta - 12.0 * x[..., 0] ** 2
    elif name == "OU":
        J[..., 0, 0] = -theta
    elif name == "L63":
        s, r, b = theta
        X, Y, Z = x[..., 0], x[..., 1], x[..., 2]
        J[..., 0, 0], J[..., 0, 1] = -s, s
        J[..., 1, 0], J[..., 1, 1], J[..., 1, 2] = r - Z, -1.0, -X
        J[..., 2, 0], J[..., 2, 1], J[..., 2, 2] = Y, X, -b
    else:
        for i in range(d):
            J[..., i, i] += -1.0
            J[..., i, (i + 1) % d] += x[..., (i - 1) % d]
            J[..., i, (i - 2) % d] += -x[..., (i - 1) % d]
            J[..., i, (i - 1) % d] += x[..., (i + 1) % d] - x[..., (i - 2) % d]
    return J


def drift_theta(name, x, theta):
    """df/dtheta: (..., d, p)"""
    if name == "DW":
        return (4.0 * x)[..., None]
    if name == "OU":
        return (-x)[..., None]
    if name == "L63":
        X, Y, Z = x[..., 0], x[..., 1], x[..., 2]
        o = np.zeros_like(X)
        return np.stack([np.stack([Y - X, o, o], -1), np.stack([o, X, o], -1), np.stack([o, o, -Z], -1)], -2)
    raise KeyError(name)


_GH = {}


def gh_nodes(d, k):
    if (d, k) not in _GH:
        x1, w1 = np.polynomial.hermite_e.hermegauss(k)
        w1 = w1 / w1.sum()
        G = np.stack(np.meshgrid(*[x1] * d, indexing="ij"), -1).reshape(-1, d)
        W = np.prod(np.stack(np.meshgrid(*[w1] * d, indexing="ij"), -1).reshape(-1, d), axis=1)
        _GH[d, k] = (G, W)
    return _GH[d, k]


def sde_energy_t(name, theta, W, A, b, m, S):
    """Per time point: e, <f>, <f'>, de/dm, de/dS (symmetric matrix derivative), de/dtheta
    with e = 0.5 <(f-g)' W (f-g)>, g = -A x + b.  Exact (polynomials)."""
    d = b.shape[1]
    G, w = gh_nodes(d, 8 if d == 1 else 5)
    L = np.linalg.cholesky(S)
    x = m[:, None, :] + np.einsum("tij,qj->tqi", L, G)
    f, J = drift(name, x, theta), drift_jac(name, x, theta)
    r = f + np.einsum("tij,tqj->tqi", A, x) - b[:, None, :]
    Wr = r @ W
    e = 0.5 * np.einsum("q,tqi,tqi->t", w, r, Wr)
    mag = 0.5 * np.einsum("q,tqi,i->t", w, (np.abs(f) + np.abs(np.einsum("tij,tqj->tqi", A, x)) +
                                           np.abs(b[:, None, :])) ** 2, np.abs(W).sum(0))
    Ef = np.einsum("q,tqi->ti", w, f)
    Edf = np.einsum("q,tqij->tij", w, J)
    Jr = J + A[:, None]
    grad = np.einsum("tqij,tqi->tqj", Jr, Wr)
    dm = np.einsum("q,tqj->tj", w, grad)
    # Price: de/dS = 0.5 <Hess(phi)>;  <Hess> = <grad (x-m)'> S^-1 (Stein), symmetric.
    Hs = np.einsum("q,tqj,qk->tjk", w, grad, G)
    Hs = np.linalg.solve(np.swapaxes(L, -1, -2), np.swapaxes(Hs, -1, -2))
    dS = 0.25 * (Hs + np.swapaxes(Hs, -1, -2))
    dth = np.einsum("q,tqi,tqip->tp", w, Wr, drift_theta(name, x, theta))
    return e, Ef, Edf, dm, dS, dth, mag


def l96_mean_drift(theta, m, S):
    n, d = m.shape
    i = np.arange(d)
    p, q, r = (i + 1) % d, (i - 1) % d, (i - 2) % d
    return (m[:, p] - m[:, r]) * m[:, q] + S[:, p, q] - S[:, r, q] - m + theta


def ut_points(m, S, kappa_per_dim=1.05):
    d = m.size
    k = kappa_per_dim * d
    L = np.linalg.cholesky((d + k) * S)
    X = np.vstack([m, m + L.T, m - L.T])
    w = np.r_[k / (d + k), np.full(2 * d, 0.5 / (d + k))]
    return X, w


def l96_ut(theta, dw, A, b, m, S):
    """UT estimates: e = 0.5 sum w_i <(f-g)_i^2>, component means, and the Stein estimators of its gradients."""
    n, d = m.shape
    e, comp = np.zeros(n), np.zeros((n, d))
    dm, dS = np.zeros((n, d)), np.zeros((n, d, d))
    for t in range(n):
        X, w = ut_points(m[t], S[t])
        r2 = (drift("L96", X, theta) + X @ A[t].T - b[t]) ** 2
        comp[t] = w @ r2
        v = 0.5 * (r2 @ dw)
        e[t] = w @ v
        Z = X - m[t]
        P = np.linalg.inv(S[t])
        dm[t] = P @ (Z.T @ (w * v))
        M2 = (Z * (w * v)[:, None]).T @ Z
        dS[t] = 0.5 * (P @ M2 @ P - e[t] * P)
    return e, comp, dm, dS


def trapz(y, dt):
    y = np.asarray(y, dtype=float)
    return dt * (y.sum(axis=0) - 0.5 * (y[0] + y[-1]))


def kl_gauss(m0, S0, mu, tau):
    m0, mu = np.atleast_1d(m0), np.atleast_1d(mu)
    S0, tau = np.atleast_2d(S0), np.atleast_2d(tau)
    P = np.linalg.inv(tau)
    z = m0 - mu
    return 0.5 * (np.linalg.slogdet(tau)[1] - np.linalg.slogdet(S0)[1] - m0.size + np.trace(P @ S0) + z @ P @ z)


def obs_energy(y, H, R, m, S):
    """y (M,o), H (o,d), R (o,o), m (M,d), S (M,d,d) at the observation times -> E, dE/dm, dE/dS, dE/dR per obs."""
    P = np.linalg.inv(R)
    E, dm, dS, dR = 0.0, [], [], []
    o = y.shape[1]
    ld = np.linalg.slogdet(R)[1]
    for k in range(len(y)):
        w = y[k] - H @ m[k]
        C = np.outer(w, w) + H @ S[k] @ H.T
        E += 0.5 * (np.sum(P * C) + o * np.log(2 * np.pi) + ld)
        dm.append(-H.T @ P @ w)
        dS.append(0.5 * H.T @ P @ H)
        dR.append(0.5 * (P - P @ C @ P))
    return E, np.array(dm), np.array(dS), np.array(dR)


def assemble_gradient(dt, A, b, m, S, W, Ef, Edf, lam, psi):
    db = np.einsum("ij,tj->ti", W, b - Ef - np.einsum("tij,tj->ti", A, m))
    dA = np.einsum("ij,tjk,tkl->til", W, Edf + A, S) - np.einsum("ti,tj->tij", db, m)
    gA = dA - np.einsum("ti,tj->tij", lam, m) - 2.0 * np.einsum("tij,tjk->tik", psi, S)
    return dt * gA, dt * (db + lam)


def gauss_moment(n, m, v):
    """<x^n> by the recursion E_n = m E_{n-1} + (n-1) v E_{n-2} in long double."""
    m, v = np.asarray(m, np.longdouble), np.asarray(v, np.longdouble)
    e = [np.ones_like(m), m]
    for k in range(2, n + 1):
        e.append(m * e[-1] + (k - 1) * v * e[-2])
    return e[n]
