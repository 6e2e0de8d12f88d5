"""Workload generators: hostile but admissible inputs for the public API of /repo."""
import contextlib
import io
import os
import sys

import numpy as np

from . import refs

from src.dynamics.double_well import DoubleWell
from src.dynamics.lorenz_63 import Lorenz63
from src.dynamics.lorenz_96 import Lorenz96
from src.dynamics.ornstein_uhlenbeck import OrnsteinUhlenbeck
from src.var_bayes.bwd_ode import BwdOde
from src.var_bayes.fwd_ode import FwdOde
from src.var_bayes.gaussian_like import GaussianLikelihood
from src.var_bayes.prior_kl0 import PriorKL0
from src.var_bayes.variational import VarGP

METHODS = refs.METHODS


@contextlib.contextmanager
def silent():
    if os.environ.get("VGMON_LOUD"):
        yield io.StringIO()
        return
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


def pick(r, *xs):
    return xs[int(r.integers(len(xs)))]


def logu(r, lo, hi, size=None):
    return np.exp(r.uniform(np.log(lo), np.log(hi), size))


def spd(r, d, lo=0.1, hi=3.0):
    """SPD with eigenvalues in [lo, hi]: dense, now and then with structure (diagonal, multiple of I, blocks)."""
    q, _ = np.linalg.qr(r.standard_normal((d, d)))
    k = r.random()
    if d > 1 and k < .2:
        if k < .12:
            return np.diag(logu(r, lo, hi, d))
        if k < .15:
            return float(logu(r, lo, hi)) * np.eye(d)
        c = int(r.integers(1, d))
        q = np.zeros((d, d))
        q[:c, :c] = np.linalg.qr(r.standard_normal((c, c)))[0]
        q[c:, c:] = np.linalg.qr(r.standard_normal((d - c, d - c)))[0]
    s = (q * logu(r, lo, hi, d)) @ q.T
    return 0.5 * (s + s.T)


def dims(name, d96=10):
    return {"DW": 1, "OU": 1, "L63": 3, "L96": d96}[name]


def model(name, sigma, theta, seed=1, d96=10):
    with silent():
        if name == "DW":
            return DoubleWell(sigma, theta, seed)
        if name == "OU":
            return OrnsteinUhlenbeck(sigma, theta, seed)
        if name == "L63":
            return Lorenz63(sigma, theta, seed)
        return Lorenz96(sigma, theta, seed, d96)


def rand_theta(r, name, wild=False):
    """`wild`: any real parameters (trajectories may then explode)."""
    if name == "DW":
        return pick(r, 1.0, float(logu(r, .2, 3)), -float(logu(r, .2, 2)), 0.0)
    if name == "OU":
        return float(logu(r, .05, 6))
    if name == "L63":
        if wild and r.random() < .3:
            return r.standard_normal(3) * logu(r, .1, 20, 3) * (r.random(3) < .8)
        return np.array([10., 28., 8 / 3]) if r.random() < .3 else r.uniform([2, 5, .5], [14, 35, 5])
    return 0.0 if r.random() < .1 else float(pick(r, 8.0, r.uniform(-3, 12)))


def diag_noise(r, d, lo=.2, hi=8.0):
    """Diagonal system noise as scalar, vector or matrix; returns (argument, matrix)."""
    k = int(r.integers(3))
    if k == 0:
        s = float(logu(r, lo, hi))
        return s, s * np.eye(d)
    v = logu(r, lo, hi, d)
    return (v, np.diag(v)) if k == 1 else (np.diag(v), np.diag(v))


def set_grid(m, n, dt, t0=0.0, d=1):
    m.time_window = t0 + np.arange(n) * dt
    m.sample_path = np.zeros(n) if d == 1 else np.zeros((n, d))


def obs_pattern(r, n):
    """Sorted unique indices in [0, n)."""
    k = int(r.integers(8))
    if k == 0:
        out = [n - 1]
    elif k == 1:
        out = [0]
    elif k == 2:
        out = [0, n - 1]
    elif k == 3:
        out = list(range(n))
    elif k == 4:
        c = int(r.integers(0, n))
        out = [c, min(c + 1, n - 1)]
    elif k == 5:
        out = list(range(1, n - 1, 2)) or [0]
    else:
        out = r.choice(n, size=int(r.integers(1, max(2, min(n, 8)))), replace=False)
    return sorted({int(q) for q in out})


def repeated(r, idx, p=.15):
    """The same indices, in some cases with two or three observations at one time."""
    if r.random() < p:
        idx = sorted(list(idx) + [int(q) for q in r.choice(idx, size=int(r.integers(1, 4)))])
    return list(idx)


def obs_as(r, idx):
    """The index container the API is used with: list of numpy ints, list, array."""
    k = int(r.integers(3))
    return [np.int64(q) for q in idx] if k == 0 else (list(idx) if k == 1 else np.array(idx))


def smooth(r, shape, t, terms=4):
    c = r.standard_normal((terms,) + shape)
    ph, om = r.uniform(0, 6, terms), r.uniform(.2, 3.0, terms)
    return sum(c[k].reshape((1,) + shape) * np.cos(om[k] * t + ph[k]).reshape((-1,) + (1,) * len(shape))
               for k in range(terms)) / np.sqrt(terms)



class Case:
    """One assembled VarGP problem and its reference description."""

    def __init__(self, r, name, method, n=None, dt=None, d96=10, obs=None, operator=False, noise_full=False,
                 t0=None, sigma_full=False):
        self.name, self.method, self.d96 = name, method, d96
        d = self.d = dims(name, d96)
        self.n = n = int(n if n is not None else pick(r, 2, 3, 5, 12, 33))
        self.dt = dt = float(dt if dt is not None else pick(r, .001, .01, .02, .005, logu(r, 5e-4, .02)))
        self.theta = rand_theta(r, name, wild=True)
        if d == 1:
            self.sigma_arg = float(logu(r, .05, 5))
            self.Sig = np.array([[self.sigma_arg]])
        elif sigma_full:
            self.sigma_arg = self.Sig = spd(r, d, 1., 8.)
        else:
            self.sigma_arg, self.Sig = diag_noise(r, d)
        self.model = model(name, self.sigma_arg, self.theta, int(r.integers(1, 9999)), d96)
        self.t0 = float(pick(r, 0., 0., 1.5, -2.)) if t0 is None else t0
        set_grid(self.model, n, dt, self.t0, d)
        self.dt = float(np.diff(self.model.time_window[:2])[0])
        self.idx = obs_pattern(r, n) if obs is None else list(obs)
        self.obs_t = obs_as(r, self.idx)
        M = len(self.idx)
        if d == 1:
            self.H = np.array([[float(logu(r, .3, 2)) * pick(r, 1, -1)]]) if operator else np.eye(1)
            self.R = np.array([[float(logu(r, *pick(r, (.02, 2), (.02, 2), (.02, 2), (.02, 2), (1e-4, .02), (2, 100))))]])
            self.y = r.standard_normal(M) * 1.5
            self.m0, self.S0 = float(r.standard_normal()), float(logu(r, .02, 2))
            self.mu0, self.tau0 = float(r.standard_normal()), float(logu(r, .05, 3))
            op = None if not operator else float(self.H[0, 0])
            Rarg = float(self.R[0, 0])
        else:
            o = int(r.integers(1, d + 1)) if operator else d
            self.H = r.standard_normal((o, d)) if operator else np.eye(d)
            self.R = spd(r, o, .1, 3.) if noise_full else np.diag(logu(r, .1, 3., o))
            self.y = r.standard_normal((M, o)) * 2
            self.m0, self.S0 = r.standard_normal(d) * 2, spd(r, d, .1, 2.)
            self.mu0, self.tau0 = r.standard_normal(d), spd(r, d, .2, 2.)
            op = self.H if operator else None
            Rarg = self.R
        sd = self.single = d == 1
        self.fwd, self.bwd = FwdOde(self.dt, method, sd), BwdOde(self.dt, method, sd)
        self.like = GaussianLikelihood(self.y, self.obs_t, Rarg, op, sd)
        self.kl = PriorKL0(self.mu0, self.tau0, sd)
        self.vgp = self.build()

    def build(self, mdl=None):
        return VarGP(mdl or self.model, self.m0, self.S0, self.fwd, self.bwd, self.like, self.kl, self.y, self.obs_t)

    def pack(self, A, b):
        return np.concatenate((np.ravel(A), np.ravel(b)))

    def unpack(self, x):
        k = self.n * self.d * self.d
        return x[:k].reshape(self.n, self.d, self.d), x[k:].reshape(self.n, self.d)

    def random_x(self, r, scale=1.0):
        t = self.model.time_window
        d = self.d
        kind = int(r.integers(3))
        A = pick(r, .5, 2., 8.) * np.eye(d) + scale * smooth(r, (d, d), t) / np.sqrt(d)
        b = scale * smooth(r, (d,), t) * 2
        if kind == 1:  # rough
            A = A + .3 * scale * r.standard_normal(A.shape)
            b = b + scale * r.standard_normal(b.shape)
        elif kind == 2:  # jump
            k = int(r.integers(self.n))
            A[k:] = A[k:] + scale * .5 * r.standard_normal((d, d))
            b[k:] = b[k:] + scale * r.standard_normal(d)
        return self.pack(A, b)

    def ref(self, x, with_gradient=True):
        """Reference free energy (and gradient, multipliers) assembled from independent pieces.
        Not for L96 (estimated expectations) unless with_gradient handles it."""
        A, b = self.unpack(x)
        d, n, dt = self.d, self.n, self.dt
        S0 = np.reshape(self.S0, (d, d))
        m, S = refs.fwd_ode(self.method, dt, A, b, np.reshape(self.m0, (d,)), S0, self.Sig)
        dw = 1.0 / np.diag(self.Sig)
        W = np.diag(dw)
        if self.name == "L96":
            e, comp, dm, dS = refs.l96_ut(self.theta, dw, A, b, m, S)
            Ef, Edf = refs.l96_mean_drift(self.theta, m, S), refs.drift_jac("L96", m, self.theta)
            mag = e
        else:
            e, Ef, Edf, dm, dS, _, mag = refs.sde_energy_t(self.name, self.theta, W, A, b, m, S)
        y = np.reshape(self.y, (len(self.idx), -1))
        Eo, jm_, jS_, _ = refs.obs_energy(y, self.H, self.R, m[self.idx], S[self.idx])
        E0 = refs.kl_gauss(self.m0, self.S0, self.mu0, self.tau0)
        out = {"m": m, "S": S, "Esde": refs.trapz(e, dt), "Eobs": Eo, "E0": E0, "Ef": Ef, "Edf": Edf,
               "mag": abs(refs.trapz(mag, dt)) + abs(Eo) + abs(E0)}
        out["F"] = out["Esde"] + Eo + E0
        if with_gradient:
            jm, jS = np.zeros((n, d)), np.zeros((n, d, d))
            np.add.at(jm, self.idx, jm_)
            np.add.at(jS, self.idx, jS_)
            lam, psi = refs.bwd_ode(self.method, dt, A, dm, dS, jm, jS)
            gA, gb = refs.assemble_gradient(dt, A, b, m, S, W, Ef, Edf, lam, psi)
            out.update(lam=lam, psi=psi, g=self.pack(gA, gb), dm=dm, dS=dS, jm=jm, jS=jS)
        return out


def warm_numba():
    with silent():
        m = Lorenz63(np.eye(3), np.array([10., 28., 2.6]), 1)
        m.make_trajectory(0., .05, .01)
        m = Lorenz96(np.eye(10), 8.0, 1, 10)
        m.make_trajectory(0., .02, .01)
        n = 3
        m.energy(np.array([np.eye(10)] * n), np.zeros((n, 10)), np.zeros((n, 10)), np.array([np.eye(10)] * n), [1])


MODELS = {"DW": DoubleWell, "OU": OrnsteinUhlenbeck, "L63": Lorenz63, "L96": Lorenz96}
