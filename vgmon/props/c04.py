"""C04: observation energy and its gradients."""
import numpy as np

from .. import gens as G, refs
from ..core import Workload

from src.var_bayes.gaussian_like import GaussianLikelihood

RULE = ("random observation times, values, noise (scalar / diagonal / full SPD), linear operators (identity, scalar, "
        "rectangular) and marginals, 1-D and n-D, also several at one time; compared with the expected Gaussian log-likelihood. Non-trivial: at "
        "least one observation, finite energy; distinct by inputs.")


def make(r, d, o, n, idx, with_op):
    M = len(idx)
    H = r.standard_normal((o, d)) * float(G.pick(r, .3, 1., 5.)) if with_op else np.eye(d)
    o = H.shape[0]
    lo, hi = G.pick(r, (1e-3, 1e-1), (.1, 3.), (1., 60.))
    R = G.pick(r, np.diag(G.logu(r, lo, hi, o)), G.spd(r, o, lo, hi), float(G.logu(r, lo, hi)) * np.eye(o))
    y = r.standard_normal((M, o)) * float(G.pick(r, .1, 2., 30.))
    m = r.standard_normal((n, d)) * float(G.pick(r, .1, 2., 20.))
    S = np.array([G.spd(r, d, *G.pick(r, (1e-3, 1e-1), (.1, 2.))) for _ in range(n)])
    k = r.random()
    if k < .06:         # observations without a scale of their own
        y = np.zeros((M, o))
    elif k < .1:
        y = np.tile(y[:1], (M, 1))
    elif k < .13:
        y[:, int(r.integers(o))] = 0.
    elif k < .16:
        m = np.zeros((n, d))
    # The units of the state and of the observations are the user's.
    if r.random() < .35:
        u, v = (float(10. ** r.integers(-6, 6)) for _ in range(2))
        u = u if with_op else v
        return H * (v / u), R * v ** 2, y * v, m * u, S * u ** 2
    return H, R, y, m, S


def build(r, d, H, R, y, idx, with_op):
    if d == 1:
        vals = y[:, 0] if r.random() < .7 else list(map(float, y[:, 0]))
        return GaussianLikelihood(vals, G.obs_as(r, idx), float(R[0, 0]) if r.random() < .5 else np.array(R[0, 0]),
                                  float(H[0, 0]) if with_op else None, *((True,) if r.random() < .6 else ()))  # one dimension is the default
    return GaussianLikelihood(y, G.obs_as(r, idx), R, H if with_op else None, False)


def formula(T, r, i):
    d = (1, 1, 2, 3, 3, 5, 12)[i % 7] if i % 23 else 40
    with_op = bool(r.random() < .6)
    o = 1 if d == 1 else int(G.pick(r, int(r.integers(1, d + 3)), int(r.integers(1, d + 3)), 2 * d + 1))
    n = int(G.pick(r, 2, 3, 10, 57, 200)) if d < 40 else 9
    if d == 1 and r.random() < .1:
        n = 3000
    many = i % 100 in (37, 38)
    if many:
        d, n = min(d, 5), int(r.integers(600, 1200))
        o = min(o, d)
    idx = G.repeated(r, G.obs_pattern(r, n), .2)
    if many:
        idx = sorted(int(q) for q in r.choice(n, n // 2, replace=False))
    H, R, y, m, S = make(r, d, o, n, idx, with_op)
    T.note(d=d, o=H.shape[0], n=n, obs=idx[:8], op=with_op)
    L = build(r, d, H, R, y, idx, with_op)
    sq = (lambda q: q.reshape(n)) if d == 1 else (lambda q: q)
    E0, dm0, dS0, dR0 = refs.obs_energy(y, H, R, m[idx], S[idx])
    P = np.linalg.inv(R)
    top = float(sum(np.abs(P).sum() * (np.abs(y[k]).max() + np.abs(H @ m[t]).max()) ** 2 +
                    np.abs(np.trace(P @ H @ S[t] @ H.T)) for k, t in enumerate(idx))) + abs(E0) + len(idx)
    E = L(sq(m), sq(S))
    T.check("energy is a scalar", np.size(E) == 1, np.shape(E))
    T.close("energy", E, E0, rtol=1e-9, scale=top)
    gm, gS, *rest = L.gradients(sq(m), sq(S))
    gm, gS = np.reshape(gm, (n, d)), np.reshape(gS, (n, d, d))
    dm, dS = np.zeros((n, d)), np.zeros((n, d, d))
    np.add.at(dm, idx, dm0)
    np.add.at(dS, idx, dS0)
    T.close("dE/dm", gm, dm, rtol=1e-9, scale=np.abs(P).max() * np.abs(H).max() * (np.abs(y).max() + np.abs(H @ m.T).max()) * d)
    T.close("dE/dS", gS, dS, rtol=1e-9, scale=np.abs(P).max() * np.abs(H).max() ** 2 * d)
    off = np.setdiff1d(np.arange(n), idx)
    T.check("no contribution away from the observation times", not np.any(gm[off]) and not np.any(gS[off]))
    dr = np.zeros((n,) + R.shape)
    np.add.at(dr, idx, dR0)
    T.close("dE/dR", np.reshape(rest[0], dr.shape), dr, rtol=1e-8, scale=np.abs(dr).max() + np.abs(P).max())
    T.event("observations compared", len(idx))
    T.case(y, m)
    # The energy only sees the moments at the observation times.
    if off.size:
        m2, S2 = m.copy(), S.copy()
        m2[off] += 5.0
        S2[off] *= 3.0
        T.close("moments elsewhere do not matter", L(sq(m2), sq(S2)), E, rtol=1e-12)
    # Order of the observations is irrelevant.
    p = r.permutation(len(idx))
    L2 = build(r, d, H, R, y[p], [idx[k] for k in p], with_op)
    T.close("order of the observations does not matter", L2(sq(m), sq(S)), E, rtol=1e-9, scale=top)
    T.close("gradient: order does not matter", np.reshape(L2.gradients(sq(m), sq(S))[0], (n, d)), gm, rtol=1e-10)
    # Two disjoint sets add up.
    if len(idx) > 1:
        k = int(r.integers(1, len(idx)))
        La, Lb = build(r, d, H, R, y[:k], idx[:k], with_op), build(r, d, H, R, y[k:], idx[k:], with_op)
        T.close("additive over observations", La(sq(m), sq(S)) + Lb(sq(m), sq(S)), E, rtol=1e-9, scale=top)


def derivative(T, r, i):
    """Central differences of the energy itself."""
    d = (1, 3, 4)[i % 3]
    with_op = bool(i % 2)
    o = 1 if d == 1 else int(r.integers(1, d + 1))
    n = 6
    idx = G.repeated(r, G.obs_pattern(r, n), .2)
    H, R, y, m, S = make(r, d, o, n, idx, with_op)
    L = build(r, d, H, R, y, idx, with_op)
    sq = (lambda q: q.reshape(n)) if d == 1 else (lambda q: q)
    gm, gS, *_ = L.gradients(sq(m), sq(S))
    gm, gS = np.reshape(gm, (n, d)), np.reshape(gS, (n, d, d))
    vm = r.standard_normal((n, d))
    vS = r.standard_normal((n, d, d))
    vS = vS + np.swapaxes(vS, 1, 2)
    um, uS = np.abs(m).max(), np.abs(S).max()
    vm, vS = vm * um, vS * uS
    h = 1e-3
    sc = np.abs(np.linalg.inv(R)).max() * (np.abs(y).max() + np.abs(H).max() * (np.abs(m).max() + np.abs(S).max())) ** 2 * d * n
    fd = (L(sq(m + h * vm), sq(S)) - L(sq(m - h * vm), sq(S))) / (2 * h)
    T.close("dE/dm vs central difference", np.sum(gm * vm), fd, rtol=1e-7, scale=sc)
    fd = (L(sq(m), sq(S + h * vS)) - L(sq(m), sq(S - h * vS))) / (2 * h)
    T.close("dE/dS vs central difference", np.sum(gS * vS), fd, rtol=1e-7, scale=sc)
    T.case(m)


def perfect(T, r, i):
    """With exact moments (S=0, y=Hm) only the normalisation is left; scaling R moves the energy accordingly."""
    d = (1, 3)[i % 2]
    n, idx = 8, G.obs_pattern(r, 8)
    H, R, y, m, S = make(r, d, d, n, idx, False)
    L = build(r, d, H, R, m[idx], idx, False)
    sq = (lambda q: q.reshape(n)) if d == 1 else (lambda q: q)
    want = .5 * len(idx) * (d * np.log(2 * np.pi) + np.linalg.slogdet(R)[1])
    T.close("normalisation constant", L(sq(m), sq(0 * S)), want, rtol=1e-9, scale=abs(want) + len(idx) * d)
    T.close("values accessor", np.reshape(L.values, (len(idx), d)), m[idx], rtol=0)
    T.check("times accessor", list(np.asarray(L.times)) == idx)
    # The noise setter is respected.
    R2 = R * 2.5
    L.noise = float(R2[0, 0]) if d == 1 else R2
    want = .5 * len(idx) * (d * np.log(2 * np.pi) + np.linalg.slogdet(R2)[1])
    T.close("after noise setter", L(sq(m), sq(0 * S)), want, rtol=1e-9, scale=abs(want) + len(idx) * d)
    T.case(m)


WORKLOADS = [
    Workload("formula", formula, 700, 30000, must=["energy", "dE/dm", "dE/dS", "dE/dR"]),
    Workload("derivative", derivative, 120, 4000, must=["dE/dS vs central difference"]),
    Workload("perfect", perfect, 60, 1000, must=["normalisation constant"]),
]
