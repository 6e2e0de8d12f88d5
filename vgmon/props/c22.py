"""C22: the free energy bounds the evidence, and is tight for linear systems."""
import numpy as np

from .. import gens as G
from .. import refs
from ..core import Workload

from src.numerics.optim_scg import SCG

RULE = ("random OU and double-well inference problems on fine grids; the free energy of random, perturbed, optimised and "
        "exactly optimal parameters is compared with the evidence computed independently (closed-form Gaussian for OU, "
        "transition densities on a state grid for the double well). Non-trivial: at least one observation; distinct by problem.")
ASSUMPTIONS = ["the bound holds up to the O(dt) error of the time grid, which is estimated by halving the step"]


class Problem:
    """Scalar problem with observation times k*stride of a base grid; can be built at any refinement."""

    def __init__(self, r, name, method, obs_end=None, dense=False):
        self.name, self.method = name, method
        self.tf = 1.0
        self.theta = float(G.logu(r, .3, 3)) if name == "OU" else float(G.logu(r, .5, 1.3))
        self.sigma = float(G.logu(r, .2, 2))
        self.cut = 100 if dense else 20
        k = int(r.integers(40, 99)) if dense else int(r.integers(1, 6))
        self.slots = np.sort(r.choice(np.arange(1, self.cut), k, replace=False))  # parts of the window
        end = r.random() < .3 if obs_end is None else obs_end
        if end:
            self.slots = np.r_[self.slots, self.cut]
        self.y = r.normal(0, 1.2, len(self.slots))
        self.h = float(G.pick(r, 1., 1., .5, -1.5))
        self.R = float(G.logu(r, .05, .6)) * (k / 3. if dense else 1.)
        self.m0, self.s0 = float(r.normal(0, 1)), float(G.logu(r, .05, .6))
        self.mu0, self.tau0 = float(r.normal()), float(G.logu(r, .2, 2))

    def build(self, n_steps):
        dt = self.tf / n_steps
        M = G.model(self.name, self.sigma, self.theta, 1)
        G.set_grid(M, n_steps + 1, dt)
        idx = [int(q) for q in self.slots * n_steps // self.cut]
        fwd, bwd = G.FwdOde(dt, self.method, True), G.BwdOde(dt, self.method, True)
        like = G.GaussianLikelihood(self.y, idx, self.R, None if self.h == 1. else self.h, True)
        return G.VarGP(M, self.m0, self.s0, fwd, bwd, like, G.PriorKL0(self.mu0, self.tau0, True), self.y, idx), dt

    def kl0(self):
        return refs.kl_gauss(self.m0, self.s0, self.mu0, self.tau0)

    def bound_ou(self):
        """KL(q0|p0) + E_q0[-log p(Y|x0)], exact."""
        t = self.slots / self.cut * self.tf
        th, sg, h = self.theta, self.sigma, self.h
        a = h * np.exp(-th * t)
        K = h * h * sg / (2 * th) * (np.exp(-th * np.abs(t[:, None] - t)) - np.exp(-th * (t[:, None] + t)))
        C = K + self.R * np.eye(len(t))
        Ci = np.linalg.inv(C)
        e = self.y - a * self.m0
        q = e @ Ci @ e + self.s0 * a @ Ci @ a
        return self.kl0() + .5 * (q + np.linalg.slogdet(C)[1] + len(t) * np.log(2 * np.pi))

    def best_ou(self, n_steps):
        """Parameters of the exact posterior process: A = theta + sigma p(t), b = sigma q(t)."""
        th, sg, h, R = self.theta, self.sigma, self.h, self.R
        dt = self.tf / n_steps
        p, q = np.zeros(n_steps + 1), np.zeros(n_steps + 1)
        P = Q = 0.0
        at = dict(zip((self.slots * n_steps // self.cut).tolist(), self.y))
        sub = 4
        for k in range(n_steps, -1, -1):
            if k < n_steps:
                d = dt / sub
                for _ in range(sub):  # RK4, backward in time
                    def f(P, Q):
                        return -2 * th * P - sg * P * P, -(th + sg * P) * Q
                    k1 = f(P, Q)
                    k2 = f(P + .5 * d * k1[0], Q + .5 * d * k1[1])
                    k3 = f(P + .5 * d * k2[0], Q + .5 * d * k2[1])
                    k4 = f(P + d * k3[0], Q + d * k3[1])
                    P += d / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0])
                    Q += d / 6 * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1])
            P0, Q0 = P, Q
            if k in at:
                P += h * h / R
                Q += h * at[k] / R
            # At an observation the drift just after it counts for a forward step.
            p[k], q[k] = P0, Q0
        return np.r_[th + sg * p, sg * q]

    def bound_dw(self, n_steps=400):
        dt = self.tf / n_steps
        L = 4.5
        g = np.linspace(-L, L, 901)
        w = g[1] - g[0]
        f = 4 * g * (self.theta - g ** 2)
        mean = np.clip(g + f * dt, -L, L)
        Kt = np.exp(-.5 * (g[None] - mean[:, None]) ** 2 / (self.sigma * dt))
        Kt /= Kt.sum(1, keepdims=True)
        at = dict(zip((self.slots * n_steps // self.cut).tolist(), self.y))
        v, logc = np.ones_like(g), 0.0
        for k in range(n_steps, -1, -1):
            if k < n_steps:
                v = Kt @ v
            if k in at:
                v = v * np.exp(-.5 * (at[k] - self.h * g) ** 2 / self.R) / np.sqrt(2 * np.pi * self.R)
            c = v.max()
            v, logc = v / c, logc + np.log(c)
        q0 = np.exp(-.5 * (g - self.m0) ** 2 / self.s0)
        q0 /= q0.sum()
        ok = q0 > 1e-14
        return self.kl0() - (q0[ok] * (np.log(v[ok] + 1e-300) + logc)).sum()


def coarse(x, f=2):
    """Every f-th point of packed scalar parameters."""
    n = x.size // 2
    return np.r_[x[:n][::f], x[n:][::f]]


def dense(T, r, i):
    """Observations at up to every second or every point of the grid."""
    tight(T, r, i, Problem(r, "OU", G.METHODS[i % 4], dense=True), int(G.pick(r, 200, 400)))


def tight(T, r, i, P=None, N=800):
    P = P or Problem(r, "OU", G.METHODS[i % 4])
    bound = P.bound_ou()
    xf = P.best_ou(N)
    vf, dtf = P.build(N)
    vc, dtc = P.build(N // 2)
    Ff, Fc = vf.free_energy(xf), vc.free_energy(P.best_ou(N // 2))
    err = abs(Ff - Fc)
    scale = abs(bound) + abs(P.kl0()) + 1
    T.note(method=P.method, theta=P.theta, sigma=P.sigma, bound=bound, F=Ff, halved=Fc)
    T.check("the exact posterior attains the evidence", abs(Ff - bound) <= 3 * err + 2e-3 * scale, {"F": Ff, "bound": bound, "coarse": Fc})
    # Extrapolation in the step removes the first-order error.
    T.check("tight in the limit of the step", abs(2 * Ff - Fc - bound) <= .6 * err + 2e-3 * scale, {"F": Ff, "bound": bound, "coarse": Fc})
    T.event("tightness measured")
    # Any other parameters are no better.
    t = vf.model.time_window
    for _ in range(6):
        s = float(G.logu(r, .01, 3))
        d = np.r_[s * G.smooth(r, (), t), s * G.smooth(r, (), t)]
        F = vf.free_energy(xf + d)
        if np.isfinite(F):
            T.check("no parameters beat the exact posterior", F >= bound - 3 * err - 2e-3 * scale, {"F": F, "bound": bound, "size": s})
            T.event("parameters compared with the bound")
    # The gradient vanishes there, relative to the gradient nearby.
    g0 = np.linalg.norm(vf.gradient(xf, eval_fun=True))
    d = np.r_[.3 * G.smooth(r, (), t), .3 * G.smooth(r, (), t)]
    g1 = np.linalg.norm(vf.gradient(xf + d, eval_fun=True))
    T.event("gradient ratio %s" % ("< .1" if g0 < .1 * g1 else ">= .1"))
    T.case(P.y, P.theta, P.method)


def resolved(v, x):
    """The grid resolves the process: positive variances and a drift that is slow on the scale of the step."""
    n = x.size // 2
    return np.min(v.arg_out["st"]) > 0 and np.abs(x[:n]).max() * float(v.model.time_step) < .15


def optimised(T, r, i):
    P = Problem(r, "OU", G.METHODS[i % 4])
    bound = P.bound_ou()
    N = 160
    vc, dtc = P.build(N)
    vf, _ = P.build(2 * N)
    xb = P.best_ou(N)
    Fb = vc.free_energy(xb)
    err = abs(Fb - vf.free_energy(P.best_ou(2 * N)))
    scale = abs(bound) + abs(P.kl0()) + 1
    t = vc.model.time_window
    near = bool(i % 2)
    x0 = xb if near else vc.initialization()
    F0 = vc.free_energy(x0)
    with G.silent():
        x, fx = SCG(vc.free_energy, vc.gradient, {"max_it": 300, "x_tol": 1e-7, "f_tol": 1e-9})(x0.copy())
    F = vc.free_energy(x)
    T.note(bound=bound, F=F, F0=F0, err=err)
    T.case(P.y, P.theta, P.method)
    T.check("optimisation does not increase the free energy", F <= F0 + 1e-9 * scale, {"F": F, "F0": F0})
    if not resolved(vc, x):
        T.event("optimiser left the resolved region")
        return
    T.event("optimised parameters compared with the bound")
    T.check("optimisation does not beat the bound", F >= bound - 5 * err - 1e-2 * scale, {"F": F, "bound": bound, "err": err})
    if near:
        T.check("the exact posterior is (nearly) optimal", F >= Fb - 5 * err - 1e-2 * scale, {"F": F, "Fb": Fb, "err": err})
    T.event("optimiser reached the evidence" if F <= bound + 5 * err + 1e-2 * scale else "optimiser stopped above the evidence")


def well(T, r, i):
    """Double well: optimised and random parameters stay above the evidence."""
    P = Problem(r, "DW", G.METHODS[i % 4])
    bound = P.bound_dw()
    N = 160
    vc, dtc = P.build(N)
    vf, _ = P.build(2 * N)
    with G.silent():
        x, fx = SCG(vc.free_energy, vc.gradient, {"max_it": 120})(vc.initialization())
    n = N + 1
    F = vc.free_energy(x)
    t = vc.model.time_window
    tf = vf.model.time_window
    xf = np.r_[np.interp(tf, t, x[:n]), np.interp(tf, t, x[n:])]
    err = abs(F - vf.free_energy(xf))
    scale = abs(bound) + abs(P.kl0()) + 1
    T.note(bound=bound, F=F, err=err)
    T.case(P.y, P.theta, P.method)
    if not resolved(vc, x):
        T.event("optimiser left the resolved region")
        return
    T.check("the double well stays above the evidence", F >= bound - 4 * err - 1e-2 * scale, {"F": F, "bound": bound, "err": err})
    T.event("gap below 10%" if F < bound + .1 * scale else "gap above 10%")
    for _ in range(4):
        s = float(G.logu(r, .05, 2))
        d = np.r_[s * G.smooth(r, (), t), s * G.smooth(r, (), t)]
        F2 = vc.free_energy(x + d)
        if np.isfinite(F2) and resolved(vc, x + d):
            T.check("other parameters stay above the evidence", F2 >= bound - 4 * err - 1e-2 * scale, {"F": F2, "bound": bound})


WORKLOADS = [
    Workload("tight", tight, 96, 2400, must=["tight in the limit of the step", "no parameters beat the exact posterior"]),
    Workload("dense", dense, 48, 1000, must=["tight in the limit of the step"]),
    Workload("optimised", optimised, 24, 480, must=["optimised parameters compared with the bound"]),
    Workload("well", well, 24, 400, must=["the double well stays above the evidence"]),
]
