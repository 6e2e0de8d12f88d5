"""C27: the free energy respects units, origin of time and the symmetries of the models."""
import numpy as np

from .. import gens as G
from ..core import Workload

RULE = ("pairs of problems that describe the same inference in other coordinates (shifted time, reflected state, other units "
        "of state, time and observations, mixed or reordered observations, rotated ring), both evaluated by the real code; "
        "free energies must agree up to the known constant, gradients, moments, expectations and multipliers must be "
        "carried along. Non-trivial: finite free energy and a change of coordinates that is not the identity; distinct by "
        "problem and transformation.")
ASSUMPTIONS = ["Lorenz-96 is rotated with diagonal covariances only (unscented points depend on the axes otherwise)"]
KEYS = ("mt", "st", "Efx", "Edf", "lamt", "psit")


def warmup():
    G.warm_numba()


class Spec:
    """All numbers that define one variational problem and one point (A, b), always in matrix form."""
    FIELDS = ("name", "method", "theta", "Sig", "t0", "dt", "n", "idx", "y", "H", "R", "m0", "S0", "mu0", "tau0", "A", "b")

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def but(self, **kw):
        s = Spec(**self.__dict__)
        s.__dict__.update(kw)
        return s

    def solve(self):
        """Everything the code computes at (A, b), in matrix form."""
        d = self.b.shape[1]
        sd = d == 1
        sc = (lambda v: float(np.ravel(v)[0])) if sd else (lambda v: np.array(v))
        M = G.model(self.name, sc(self.Sig), self.theta, 1, d)
        M.time_window = self.t0 + np.arange(self.n) * self.dt
        self.step = float(M.time_step)
        M.sample_path = np.zeros(self.n) if sd else np.zeros((self.n, d))
        y = self.y.ravel() if sd else self.y
        like = G.GaussianLikelihood(y, list(self.idx), sc(self.R), sc(self.H), sd)
        v = G.VarGP(M, sc(self.m0), sc(self.S0), G.FwdOde(self.dt, self.method, sd), G.BwdOde(self.dt, self.method, sd), like,
                    G.PriorKL0(sc(self.mu0), sc(self.tau0), sd), y, list(self.idx))
        x = np.r_[self.A.ravel(), self.b.ravel()]
        F = v.free_energy(x)
        g = np.array(v.gradient(x))
        k = self.n * d * d
        o = {q: np.array(v.arg_out[q], dtype=float) for q in KEYS}
        vec, mat = (self.n, d), (self.n, d, d)
        out = {"F": F, "gA": g[:k].reshape(mat), "gb": g[k:].reshape(vec)}
        for q in KEYS:
            out[q] = o[q].reshape(mat if q in ("st", "Edf", "psit") else vec)
        return out


def random_spec(r, name, method, n=None, d=None, diagonal=False):
    d = d or G.dims(name)
    n = int(n or G.pick(r, 2, 3, 7, 20, 61))
    dt = float(G.pick(r, .001, .005, .01, .02))
    idx = G.obs_pattern(r, n)
    M = len(idx)
    o = d if diagonal else int(r.integers(1, d + 1))
    t = np.arange(n) * dt
    A = G.pick(r, 1., 3., 8.) * np.eye(d) + .5 * G.smooth(r, (d, d), t)
    b = 2 * G.smooth(r, (d,), t) + .3 * r.standard_normal((n, d))
    if diagonal:
        A = A * np.eye(d)
    return Spec(name=name, method=method, theta=G.rand_theta(r, name), Sig=np.diag(G.logu(r, .2, 6, d)), t0=0.0, dt=dt, n=n, idx=idx,
                y=2 * r.standard_normal((M, o)), H=np.eye(d) if diagonal else r.standard_normal((o, d)) + np.eye(d)[:o],
                R=np.diag(G.logu(r, .1, 2, o)) if diagonal else G.spd(r, o, .1, 3.),
                m0=r.standard_normal(d), S0=np.diag(G.logu(r, .2, 1, d)) if diagonal else G.spd(r, d, .2, 1.5),
                mu0=r.standard_normal(d), tau0=np.diag(G.logu(r, .2, 2, d)) if diagonal else G.spd(r, d, .2, 2.), A=A, b=b)


def same(T, what, a, b, const=0.0, P=None, c=1.0, k=1.0, rtol=1e-8):
    """b solves the problem of a in coordinates x' = c P x, t' = t / k; F_b = F_a + const."""
    d = a["gb"].shape[1]
    P = np.eye(d) if P is None else P
    if not (np.isfinite(a["F"]) and abs(a["F"]) < 1e9) or np.abs(a["mt"]).max() > 1e4:
        T.event("left the finite region")
        return False
    cm = abs(const)
    T.close(what + ": free energy", b["F"], a["F"] + const, rtol=rtol, scale=abs(a["F"]) + cm + 10)
    vec = lambda q: np.einsum("ij,tj->ti", P, q)
    mat = lambda q: np.einsum("ij,tjk,lk->til", P, q, P)
    T.close(what + ": gradient of A", b["gA"], mat(a["gA"]) / k, rtol=rtol)
    T.close(what + ": gradient of b", b["gb"], vec(a["gb"]) / (c * k), rtol=rtol)
    T.close(what + ": means", b["mt"], c * vec(a["mt"]), rtol=rtol)
    T.close(what + ": covariances", b["st"], c * c * mat(a["st"]), rtol=rtol)
    T.close(what + ": mean drift", b["Efx"], c * k * vec(a["Efx"]), rtol=rtol)
    T.close(what + ": mean Jacobian", b["Edf"], k * mat(a["Edf"]), rtol=rtol)
    T.close(what + ": multipliers of the mean", b["lamt"], vec(a["lamt"]) / c, rtol=rtol, atol=1e-9)
    T.close(what + ": multipliers of the covariance", b["psit"], mat(a["psit"]) / (c * c), rtol=rtol, atol=1e-9)
    T.event("pairs compared: " + what)
    return True


def names(i):
    return ("DW", "OU", "L63")[i % 3], G.METHODS[(i // 3) % 4]


def time_origin(T, r, i):
    name, method = names(i) if i % 9 else ("L96", G.METHODS[(i // 9) % 4])
    s = random_spec(r, name, method, n=3 if name == "L96" else None, d=10 if name == "L96" else None)
    a = s.solve()
    t0 = float(G.pick(r, 1.0, -3.0, 17.5, 100.0, -64.0, float(r.uniform(-20, 20)), -s.dt * float(r.uniform(.05, .95)),
                     -s.dt * float(r.uniform(.05, .95)), -s.dt, -s.dt * (s.n - 1) * float(r.uniform(.1, .9))))
    T.note(model=name, method=method, t0=t0)
    # The step the models read off the grid carries the rounding of the shifted times.
    u = s.but(t0=t0)
    b = u.solve()
    T.close("step of a shifted window", [s.step, u.step], [s.dt] * 2, rtol=1e-9, atol=1e-14 * (1 + abs(t0)))
    if same(T, "shifted time", a, b, rtol=1e-7 if name != "L96" else 1e-6):
        T.case(s.A, t0)


def reflection(T, r, i):
    name, method = names(i)
    s = random_spec(r, name, method)
    d = G.dims(name)
    P = -np.eye(1) if d == 1 else np.diag([-1., -1., 1.])
    tr = lambda q: np.einsum("ij,tj->ti", P, q)
    u = s.but(A=np.einsum("ij,tjk,lk->til", P, s.A, P), b=tr(s.b), m0=P @ s.m0, mu0=P @ s.mu0, S0=P @ s.S0 @ P.T, tau0=P @ s.tau0 @ P.T, H=s.H @ P.T)
    T.note(model=name, method=method)
    if same(T, "reflected state", s.solve(), u.solve(), P=P):
        T.case(s.A, s.b)


def observation_units(T, r, i):
    """y' = Q y + q-free: the same information in other units or combinations."""
    name, method = names(i)
    s = random_spec(r, name, method)
    o = s.H.shape[0]
    k = i % 3
    Q = np.diag(G.logu(r, .01, 100, o) * r.choice([-1., 1.], o)) if k == 0 else (
        np.eye(o)[r.permutation(o)] if k == 1 else r.standard_normal((o, o)) + 2 * np.eye(o))
    if np.linalg.cond(Q) > 1e4:
        return
    u = s.but(y=s.y @ Q.T, H=Q @ s.H, R=Q @ s.R @ Q.T)
    if o > 1:
        u.R = .5 * (u.R + u.R.T)
    T.note(model=name, method=method, Q=Q)
    if same(T, "other observation units", s.solve(), u.solve(), const=len(s.idx) * np.linalg.slogdet(Q)[1], rtol=1e-7):
        T.case(s.A, Q)


def state_units(T, r, i):
    """Linear model: any unit of the state and of time. Double well: x' = c x needs t' = t / c^2."""
    name, method = ("OU", "DW")[i % 2], G.METHODS[(i // 2) % 4]
    s = random_spec(r, name, method)
    c = float(G.logu(r, .05, 20)) if name == "OU" else float(G.logu(r, .4, 2.5))
    k = float(G.logu(r, .05, 20)) if name == "OU" else c * c
    if name == "OU" and i % 4 == 0:
        k = 1.0
    u = s.but(theta=s.theta * k, Sig=s.Sig * c * c * k, dt=s.dt / k, y=s.y * c, R=s.R * c * c, m0=s.m0 * c, S0=s.S0 * c * c,
              mu0=s.mu0 * c, tau0=s.tau0 * c * c, A=s.A * k, b=s.b * c * k)
    T.note(model=name, method=method, c=c, k=k)
    # The gradient carries the step: dt' g'(A') = dt g(A) / k.
    if same(T, "other units of state and time", s.solve(), u.solve(), const=len(s.idx) * np.log(c), c=c, k=k):
        T.case(s.A, c, k)


def ring(T, r, i):
    d = int(G.pick(r, 10, 11, 13))
    s = random_spec(r, "L96", G.METHODS[i % 4], n=int(G.pick(r, 2, 4)), d=d, diagonal=True)
    k = int(r.integers(1, d))
    P = np.roll(np.eye(d), k, axis=0)
    tr = lambda q: np.einsum("ij,tj->ti", P, q)
    w = lambda q: P @ q @ P.T
    u = s.but(A=np.einsum("ij,tjk,lk->til", P, s.A, P), b=tr(s.b), m0=P @ s.m0, mu0=P @ s.mu0, S0=w(s.S0), tau0=w(s.tau0), Sig=w(s.Sig),
              y=s.y @ P.T, R=w(s.R))
    T.note(d=d, shift=k)
    if same(T, "rotated ring", s.solve(), u.solve(), P=P, rtol=1e-6):
        T.case(s.A, k)


def constants(T, r, i):
    """The prior moves the free energy by its own divergence only; the data by the observation energy only."""
    name, method = names(i)
    s = random_spec(r, name, method)
    d = G.dims(name)
    kl = lambda q: _kl(q.m0, q.S0, q.mu0, q.tau0)
    a = s.solve()
    u = s.but(mu0=r.standard_normal(d), tau0=G.spd(r, d, .2, 2.))
    if same(T, "another prior", a, u.solve(), const=kl(u) - kl(s)):
        T.case(s.A, u.mu0)
    # Observations told apart only by a constant: H x = 0 in every direction.
    z = s.but(H=0 * s.H)
    z2 = z.but(A=s.A, y=z.y * -1.0)
    b, c = z.solve(), z2.solve()
    same(T, "uninformative observations", b, c)


def _kl(m0, S0, mu, tau):
    P = np.linalg.inv(tau)
    z = m0 - mu
    return .5 * (np.linalg.slogdet(tau)[1] - np.linalg.slogdet(S0)[1] - m0.size + np.trace(P @ S0) + z @ P @ z)


WORKLOADS = [
    Workload("time_origin", time_origin, 90, 3000, must=["pairs compared: shifted time"]),
    Workload("reflection", reflection, 96, 4000, must=["pairs compared: reflected state"]),
    Workload("observation_units", observation_units, 96, 4000, must=["pairs compared: other observation units"]),
    Workload("state_units", state_units, 96, 4000, must=["pairs compared: other units of state and time"]),
    Workload("ring", ring, 24, 400, must=["pairs compared: rotated ring"]),
    Workload("constants", constants, 60, 2000, must=["pairs compared: another prior"]),
]
