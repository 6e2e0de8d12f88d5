"""C05: the KL divergence at t=0."""
import numpy as np

from .. import gens as G, refs
from ..core import Workload

from src.var_bayes.prior_kl0 import PriorKL0

RULE = ("random Gaussian pairs, dimensions 1..40, condition numbers up to 1e4; compared with the closed form, its "
        "invariances and its own finite differences. Non-trivial: distinct pair of Gaussians.")


def warmup():
    G.warm_numba()


def pair(r, d):
    lo, hi = G.pick(r, (.5, 2.), (.01, 1.), (1e-3, 10.), (5., 50.), (1e-9, 1e-8), (1e7, 1e8))
    sc = float(G.pick(r, .1, 1., 10.))
    off = 0.
    if r.random() < .3:
        # Means a few standard deviations apart, but far away from zero.
        sc = float(G.pick(r, .3, 3.)) * np.sqrt(hi)
        off = sc * float(G.pick(r, 1e2, 1e4, 1e6, 1e8)) * r.standard_normal(d)
    m0, S0, mu, tau = (off + sc * r.standard_normal(d), G.spd(r, d, lo, hi), off + sc * r.standard_normal(d), G.spd(r, d, lo, hi))
    k = r.random()
    if k < .08:     # the Gaussians differ in one of their two parts only, or in some coordinates
        mu = m0.copy()
    elif k < .16:
        tau = S0.copy()
    elif k < .22:
        mu = np.where(r.random(d) < .5, m0, mu)
    elif k < .26:
        tau = S0 * float(G.pick(r, .5, 2., 1.001))
    return m0, S0, mu, tau


def kl(r, m0, S0, mu, tau):
    d = m0.size
    if d == 1:
        f = G.pick(r, float, np.float64, np.asarray)
        q = PriorKL0(f(mu[0]), f(tau[0, 0]), True) if r.random() < .6 else PriorKL0(f(mu[0]), f(tau[0, 0]))  # the default is one dimension
        return q, f(m0[0]), f(S0[0, 0])
    q = PriorKL0(mu, tau, False) if r.random() < .7 else PriorKL0(mu.tolist(), tau.tolist(), False)
    return q, m0, S0


def formula(T, r, i):
    d = (1, 1, 2, 3, 3, 7, 10, 40)[i % 8]
    m0, S0, mu, tau = pair(r, d)
    T.note(d=d)
    q, a, b = kl(r, m0, S0, mu, tau)
    want = refs.kl_gauss(m0, S0, mu, tau)
    top = abs(want) + np.abs(np.linalg.slogdet(S0)[1]) + np.abs(np.linalg.slogdet(tau)[1]) + d
    v = np.asarray(q(a, b), dtype=float)
    T.check("scalar", v.size == 1, v.shape)
    v = float(v.ravel()[0])
    T.close("value", v, want, rtol=1e-8, scale=top)
    T.check("not negative", v >= -1e-9 * top, v)
    q0, a0, b0 = kl(r, mu, tau, mu, tau)
    T.close("zero for equal Gaussians", float(np.ravel(q0(a0, b0))[0]), 0.0, atol=1e-8 * (d + abs(np.linalg.slogdet(tau)[1])))
    if want > 1e-6 * top:
        T.check("positive for different Gaussians", v > 0, v)
    # Invariance under an affine change of the state.
    C = r.standard_normal((d, d)) + 2 * np.eye(d)
    C = C if abs(np.linalg.det(C)) > 1e-3 and np.linalg.cond(C) < 1e3 else np.eye(d) * 2.
    s = r.standard_normal(d)
    sy = lambda X: .5 * (X + X.T)
    c = np.round(mu)    # (far from zero the map itself would round the distance of the means away)
    q2, a2, b2 = kl(r, C @ (m0 - c) + s, sy(C @ S0 @ C.T), C @ (mu - c) + s, sy(C @ tau @ C.T))
    T.close("invariant under affine maps", float(np.ravel(q2(a2, b2))[0]), v, rtol=1e-6, scale=top + np.linalg.cond(C))
    # Gradients with the Lagrange multipliers of the initial time.
    lam, psi = r.standard_normal(d), G.spd(r, d)
    P, Q = np.linalg.inv(tau), np.linalg.inv(S0)
    if d == 1:
        gm, gs = q.gradients(a, b, float(lam[0]), float(psi[0, 0]))
    else:
        gm, gs = q.gradients(a, b, lam, psi)
    T.close("d/dm0", np.reshape(gm, d), lam + P @ (m0 - mu), rtol=1e-8, scale=np.abs(P).max() * np.abs(m0 - mu).max() * d + 5)
    T.close("d/dS0", np.reshape(gs, (d, d)), psi + .5 * (P - Q), rtol=1e-8, scale=np.abs(P).max() + np.abs(Q).max() + 5)
    T.case(m0, S0)


def derivative(T, r, i):
    d = (1, 2, 3, 6)[i % 4]
    m0, S0, mu, tau = (r.standard_normal(d), G.spd(r, d, .3, 3), r.standard_normal(d), G.spd(r, d, .3, 3))
    q = PriorKL0(float(mu[0]), float(tau[0, 0]), True) if d == 1 else PriorKL0(mu, tau, False)
    w = (lambda m, S: float(np.ravel(q(float(m[0]), float(S[0, 0])))[0])) if d == 1 else (lambda m, S: float(np.ravel(q(m, S))[0]))
    vm, vS = r.standard_normal(d), r.standard_normal((d, d))
    vS = vS + vS.T
    h = 1e-4
    gm, gs = q.gradients(*((float(m0[0]), float(S0[0, 0]), 0., 0.) if d == 1 else (m0, S0, np.zeros(d), np.zeros((d, d)))))
    fd = (w(m0 + h * vm, S0) - w(m0 - h * vm, S0)) / (2 * h)
    T.close("d/dm0 vs central difference", np.sum(np.reshape(gm, d) * vm), fd, rtol=1e-5, scale=20 * d)
    fd = (w(m0, S0 + h * vS) - w(m0, S0 - h * vS)) / (2 * h)
    T.close("d/dS0 vs central difference", np.sum(np.reshape(gs, (d, d)) * vS), fd, rtol=1e-5, scale=20 * d)
    T.case(m0, S0)


def blocks(T, r, i):
    """Independent blocks add up; 1-D and n-D agree on a 1 x 1 block."""
    d1, d2 = int(r.integers(1, 5)), int(r.integers(2, 6))
    p1, p2 = pair(r, d1), pair(r, d2)
    bl = lambda a, b: np.block([[a, np.zeros((len(a), len(b)))], [np.zeros((len(b), len(a))), b]])
    big = PriorKL0(np.r_[p1[2], p2[2]], bl(p1[3], p2[3]), False)(np.r_[p1[0], p2[0]], bl(p1[1], p2[1]))
    one = PriorKL0(p1[2], p1[3], False)(p1[0], p1[1])
    two = PriorKL0(p2[2], p2[3], False)(p2[0], p2[1])
    T.close("additive over independent blocks", big, one + two, rtol=1e-7, scale=abs(one) + abs(two) + 30)
    if d1 == 1:
        s = PriorKL0(float(p1[2][0]), float(p1[3][0, 0]), True)(float(p1[0][0]), float(p1[1][0, 0]))
        T.close("1-D agrees with n-D", s, one, rtol=1e-8, scale=abs(one) + 30)
    T.case(p1[0], p2[0])


WORKLOADS = [
    Workload("formula", formula, 800, 30000, must=["value", "d/dm0", "d/dS0"]),
    Workload("derivative", derivative, 120, 3000, must=["d/dS0 vs central difference"]),
    Workload("blocks", blocks, 120, 3000, must=["additive over independent blocks"]),
]
