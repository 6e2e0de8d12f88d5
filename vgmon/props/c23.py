"""C23: the numerical routines are pure."""
import numpy as np

from .. import gens as G
from ..core import Workload

from src.numerics.optim_scg import SCG
from src.dynamics.lorenz_63 import Lorenz63
from src.dynamics.lorenz_96 import Lorenz96
from src.var_bayes.gaussian_like import GaussianLikelihood
from src.var_bayes.prior_kl0 import PriorKL0
from src.numerics.utilities import chol_inv, finite_diff, log_det, my_trapz, safe_log, ut_approx
from src.var_bayes.gaussian_moments import GaussianMoments

RULE = ("every public numerical routine on random inputs: arguments are fingerprinted before and after, the call is repeated "
        "after other calls and after overwriting earlier results and arguments, and repeated with the same numbers in other "
        "memory layouts. Non-trivial: the call returned arrays or numbers; distinct by routine and input.")


def warmup():
    G.warm_numba()


def flat(o):
    """All numbers of a (nested) result, as float arrays."""
    if isinstance(o, (list, tuple)):
        return [q for v in o for q in flat(v)]
    if isinstance(o, dict):
        return [q for k in sorted(o) for q in flat(o[k])]
    return [np.array(o, dtype=float)]


def arrays(o):
    if isinstance(o, (list, tuple)):
        return [q for v in o for q in arrays(v)]
    return [o] if isinstance(o, np.ndarray) else []


def layout(r, a):
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return a
    k = int(r.integers(4))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        big = np.full(tuple(2 * s for s in a.shape), np.nan if a.dtype.kind == "f" else 1, dtype=a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if k == 2:
        return a[::-1].copy()[::-1]
    return np.array(a.T, order="C").T


def same(T, name, a, b, detail, rtol=1e-10):
    fa, fb = flat(a), flat(b)
    T.check(name + " (structure)", len(fa) == len(fb), detail)
    for p, q in zip(fa, fb):
        sc = np.abs(q[np.isfinite(q)]).max() if np.isfinite(q).any() else 1.0
        T.close(name, p, q, rtol=rtol, scale=sc, detail=detail)


def routines(r):
    """[(name, fn, args)] over fresh random inputs; args are arrays and plain values."""
    out = []
    n = int(G.pick(r, 3, 6))
    for name in ("DW", "OU", "L63", "L96"):
        d = G.dims(name)
        c = G.Case(r, name, G.pick(r, *G.METHODS), n=n if name != "L96" else 3)
        x = c.random_x(r, .5)
        A, b = c.unpack(x)
        if d == 1:
            A, b = A.reshape(-1), b.reshape(-1)
            m, S = r.standard_normal(c.n), G.logu(r, .1, 1, c.n)
            m0, s0, sg = c.m0, c.S0, c.sigma_arg
        else:
            m, S = r.standard_normal((c.n, d)), np.array([G.spd(r, d, .3, 1.) for _ in range(c.n)])
            m0, s0, sg = np.array(c.m0), np.array(c.S0), np.array(c.Sig)
        gm, gS = r.standard_normal(m.shape), r.standard_normal(S.shape)
        jm, jS = np.zeros(m.shape), np.zeros(S.shape)
        jm[c.idx], jS[c.idx] = 1.3, .4
        out.append((name + ".energy", lambda *q, M=c.model, o=c.obs_t: M.energy(*q, o), [np.array(A), np.array(b), m, S]))
        out.append((name + ".fwd", lambda *q, f=c.fwd: f(*q), [np.array(A), np.array(b), m0, s0, sg]))
        out.append((name + ".bwd", lambda *q, f=c.bwd: f(*q), [np.array(A), gm, gS, jm, jS]))
        out.append((name + ".likelihood", lambda *q, f=c.like: f(*q), [m, S]))
        out.append((name + ".likelihood.gradients", lambda *q, f=c.like: f.gradients(*q), [m, S]))
        out.append((name + ".kl0", lambda *q, f=c.kl: f(*q), [m0, s0]))
        if np.isfinite(c.build().free_energy(x)):
            out.append((name + ".free_energy", lambda q, v=c.vgp: v.free_energy(q), [x]))
            out.append((name + ".gradient", lambda q, v=c.vgp: v.gradient(q, eval_fun=True), [x]))
    d = int(G.pick(r, 2, 3, 7))
    X, mu = G.spd(r, d), r.standard_normal(d)
    out.append(("chol_inv", chol_inv, [X]))
    out.append(("log_det", log_det, [X]))
    out.append(("log_det/vector", log_det, [G.logu(r, .1, 9, d)]))
    out.append(("log_det/scalar", log_det, [np.array(G.logu(r, .1, 9))]))
    out.append(("chol_inv/one", chol_inv, [np.array([[G.logu(r, .1, 9)]])]))
    out.append(("ut_approx/indefinite", lambda m_, C_: ut_approx(lambda z: np.cos(z), m_, C_), [mu, X + 9 * (1 - np.eye(d))]))
    out.append(("ut_approx/args", lambda m_, C_, w: ut_approx(lambda z, v: np.sin(z) * v, m_, C_, w), [mu, X, r.standard_normal(d)]))
    out.append(("my_trapz/marks", lambda q, o: my_trapz(q, .1, o.astype(int)), [r.standard_normal(9), np.array([0., 3., 8.])]))
    out.append(("my_trapz/given marks", lambda q, o: my_trapz(q, .1, o), [r.standard_normal((9, 2)), np.array([1, 3, 8])]))
    out.append(("safe_log", safe_log, [G.logu(r, 1e-3, 1e3, (4, 3))]))
    out.append(("safe_log/bounds", safe_log, [np.array([0., 1e-310, 1e305, 2., 7.])]))

    def check(x0):
        with G.silent() as txt:
            SCG(lambda q: float(q @ q), lambda q, eval_fun=False: 2 * q).check_gradient_function(x0)
        return float("PASSED" in txt.getvalue())
    out.append(("check_gradient_function", check, [r.standard_normal(4)]))

    def assembled(y, R, H, m_, S_, tau):
        """A likelihood and a prior built from the caller's arrays."""
        L = GaussianLikelihood(y, [1, 3], R, H, False)
        K = PriorKL0(m_[0], tau, False)
        return [L(m_, S_), *L.gradients(m_, S_), K(m_[1], S_[1]), *K.gradients(m_[1], S_[1], m_[2], S_[2])]
    d = 3
    out.append(("likelihood and prior built", assembled, [r.standard_normal((2, 2)), G.spd(r, 2), r.standard_normal((2, d)), r.standard_normal((5, d)),
                                                          np.array([G.spd(r, d, .3, 1.) for _ in range(5)]), G.spd(r, d)]))

    def models(s3, t3, s10, noise):
        """Processes built from the caller's arrays, their path and observations."""
        with G.silent():
            M, W = Lorenz63(s3, t3, 4), Lorenz96(s10, 8.0, 4, 10)
            M.make_trajectory(0., .2, .01)
            W.make_trajectory(0., .05, .01)
            t, y, R = M.collect_obs(20, noise, [True, False, True])
            return [M.sample_path, W.sample_path, np.array(t), y, R, M.inverse_sigma, W.inverse_sigma]
    out.append(("processes built", models, [G.pick(r, np.diag(G.logu(r, .5, 3, 3)), G.spd(r, 3, .5, 3)), np.array([10., 28., 8 / 3]),
                                            np.diag(G.logu(r, .5, 3, 10)), G.logu(r, .1, 1, 2)]))

    def setters(s3, t3, s10):
        with G.silent():
            M, W = Lorenz63(np.eye(3), np.ones(3), 4), Lorenz96(np.eye(10), 8.0, 4, 10)
            M.sigma, M.theta, W.sigma = s3, t3, s10
            M.make_trajectory(0., .2, .01)
            return [M.sample_path, M.inverse_sigma, W.inverse_sigma]
    out.append(("processes changed", setters, [G.spd(r, 3, .5, 3), np.array([10., 28., 8 / 3]), np.diag(G.logu(r, .5, 3, 10))]))
    ty = r.standard_normal(4)
    c1 = G.Case(r, "DW", "Euler", n=40, obs=[2, 9, 20, 31])

    def start(y):
        from src.var_bayes.variational import VarGP
        return VarGP(c1.model, 0., .1, c1.fwd, c1.bwd, c1.like, c1.kl, y, c1.obs_t).initialization()
    out.append(("initialization", start, [ty]))
    out.append(("my_trapz", lambda q: my_trapz(q, .1), [r.standard_normal(9)]))
    out.append(("my_trapz/nd", lambda q: my_trapz(q, .1, [2, 5]), [r.standard_normal((9, 4))]))
    out.append(("finite_diff", lambda q, p: finite_diff(lambda z, s: float(np.sin(z).sum() * s), q, p), [r.standard_normal(5), 2.0]))
    out.append(("ut_approx", lambda m_, C_: ut_approx(lambda z: np.sin(z), m_, C_), [mu, X]))
    mm, ss = r.standard_normal(6), G.logu(r, .1, 2, 6)
    k = int(r.integers(0, 9))
    out.append(("moments", lambda a, b_: (GaussianMoments(a, b_)(k), GaussianMoments(a, b_).dm(max(k, 1)), GaussianMoments(a, b_).ds(max(k, 1))), [mm, ss]))
    Q, z = G.spd(r, 4), r.standard_normal(4)

    def scg(x0):
        with G.silent():
            x, f = SCG(lambda q: .5 * q @ Q @ q - z @ q, lambda q, eval_fun=False: Q @ q - z, {"max_it": 6})(x0)
        return x, f
    out.append(("SCG", scg, [r.standard_normal(4)]))
    # The same tools on long vectors and large matrices.
    N = int(G.pick(r, 65, 130, 257, 600, 1500))
    D = int(G.pick(r, 21, 40, 65))
    Y = G.spd(r, D, .3, 3.)
    out.append(("chol_inv/large", chol_inv, [Y]))
    out.append(("log_det/large", log_det, [Y]))
    out.append(("safe_log/large", safe_log, [G.logu(r, 1e-3, 1e3, (N, 3))]))
    out.append(("safe_log/long", safe_log, [G.logu(r, 1e-3, 1e3, N)]))
    out.append(("my_trapz/long", lambda q: my_trapz(q, .1), [r.standard_normal(N)]))
    out.append(("my_trapz/long nd", lambda q: my_trapz(q, .1, [2, 5, N // 2]), [r.standard_normal((N, 3, 3))]))
    out.append(("finite_diff/long", lambda q: finite_diff(lambda z: float(np.cos(z).sum()), q), [r.standard_normal(min(N, 300))]))
    out.append(("ut_approx/large", lambda m_, C_: ut_approx(lambda z: np.sin(z), m_, C_), [r.standard_normal(D), Y]))
    out.append(("moments/long", lambda a, b_: (GaussianMoments(a, b_)(k), GaussianMoments(a, b_).dm(max(k, 1)), GaussianMoments(a, b_).ds(max(k, 1))),
                [r.standard_normal(N), G.logu(r, .1, 2, N)]))
    c = G.Case(r, G.pick(r, "DW", "OU"), G.pick(r, *G.METHODS), n=int(G.pick(r, 150, 400)), dt=.002)
    x = c.random_x(r, .5)
    A, b = (q.ravel() for q in c.unpack(x))
    gm, gS, jm = r.standard_normal(c.n), r.standard_normal(c.n), np.zeros(c.n)
    jm[c.idx] = .7
    out.append(("long.fwd", lambda *q, f=c.fwd: f(*q), [A.copy(), b.copy(), c.m0, c.S0, c.sigma_arg]))
    out.append(("long.bwd", lambda *q, f=c.bwd: f(*q), [A.copy(), gm, gS, jm, jm * .5]))
    out.append(("long.free_energy", lambda q, v=c.vgp: v.free_energy(q), [x]))
    out.append(("long.gradient", lambda q, v=c.vgp: v.gradient(q, eval_fun=True), [x]))
    return out


def nearby(r, a):
    """Other admissible arguments of the same shape."""
    return a * float(r.uniform(1.05, 1.3)) if isinstance(a, np.ndarray) and a.dtype.kind == "f" else a


def purity(T, r, i):
    for name, fn, args in routines(r):
        args = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        keep = [a.copy() if isinstance(a, np.ndarray) else a for a in args]
        one = fn(*args)
        for a, k in zip(args, keep):
            T.check("arguments untouched", np.array_equal(a, k), name)
        snap = [q.copy() for q in flat(one)]
        # Overwriting the caller's arrays afterwards does not reach results handed out.
        for a in args:
            if isinstance(a, np.ndarray):
                a[...] = 3.0
        if not name.startswith("moments"):  # the first moment is the mean the caller gave, by design
            same(T, "results are detached from the arguments", one, snap, name, 0.0)
        # Later calls with other arguments do not reach results handed out.
        fn(*[nearby(r, k) for k in keep])
        same(T, "results survive later calls", one, snap, name, 0.0) if not name.startswith("moments") else None
        # Overwriting the results does not reach later calls.
        for q in arrays(one):
            if q.flags.writeable:
                q[...] = 7.0
        again = fn(*[k.copy() if isinstance(k, np.ndarray) else k for k in keep])
        same(T, "repeated calls agree", again, snap, name)
        other = fn(*[layout(r, k) for k in keep])
        same(T, "memory layout does not matter", other, snap, name, 1e-8)
        ro = [k.copy() if isinstance(k, np.ndarray) else k for k in keep]
        if not name.startswith("L96") or i % 4 == 0:
            for k in ro:
                if isinstance(k, np.ndarray):
                    k.setflags(write=False)
            same(T, "read-only arguments are enough", fn(*ro), snap, name, 1e-8)
        T.event("routine " + name)
        T.case(name, *[k for k in keep if isinstance(k, np.ndarray)])


def shared(T, r, i):
    """Parts are stateless: calls on one object interleaved with different inputs (and sizes) equal isolated calls."""
    name = ("DW", "OU", "L63")[i % 3]
    method = G.METHODS[(i // 3) % 4]
    d = G.dims(name)
    sd = d == 1
    f, b = G.FwdOde(.01, method, sd), G.BwdOde(.01, method, sd)
    jobs = []
    for _ in range(4):
        n = int(r.integers(2, 9))
        c = G.Case(r, name, method, n=n, dt=.01)
        A, o = c.unpack(c.random_x(r))
        if sd:
            A, o = A.ravel(), o.ravel()
        gm, gS = r.standard_normal(o.shape), r.standard_normal(A.shape)
        sg = c.sigma_arg if sd else c.Sig
        jobs.append((A, o, c.m0, c.S0, sg, gm, gS))
    truth = [(G.FwdOde(.01, method, sd)(*j[:5]), G.BwdOde(.01, method, sd)(j[0], j[5], j[6], j[5] * .1, j[6] * .1)) for j in jobs]
    for _ in range(12):
        k = int(r.integers(4))
        j = jobs[k]
        same(T, "shared forward solver", f(*j[:5]), truth[k][0], method, 1e-12)
        same(T, "shared backward solver", b(j[0], j[5], j[6], j[5] * .1, j[6] * .1), truth[k][1], method, 1e-12)
    T.case(method, jobs[0][0])


WORKLOADS = [
    Workload("purity", purity, 32, 800, must=["arguments untouched", "results are detached from the arguments", "repeated calls agree",
                                              "memory layout does not matter"]),
    Workload("shared", shared, 36, 1000, must=["shared forward solver"]),
]
