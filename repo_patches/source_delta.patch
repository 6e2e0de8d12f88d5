From b69b9a779c2f0fe4692fdda82aac5b077d131497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 01/37] fix: double-well SDE energy uses 16*<x^6> (was 8),
 matching its gradients

---
 src/dynamics/double_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 884b569..712fc49 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -211,7 +211,7 @@ class DoubleWell(StochasticProcess):
         Ex6 = gauss_mom(order=6)
 
         # Auxiliary variable.
-        var_q = 8.0 * (Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
+        var_q = 8.0 * (2.0 * Ex6 - c * Ex4 + offset_b * Ex3) + (c2 * Ex2) - (2.0 * offset_b * c * m) + (offset_b ** 2)
 
         # Energy from the sDyn: Eq(7)
         Esde = 0.5 * my_trapz(var_q, dt, obs_t) / self._sigma
-- 
2.43.0


From b29b6fdf2ec09982519c720f82bcaa5af8a27ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 02/37] fix: RK2 forward covariance half-step uses A(t), not
 S(t), as the linear term

---
 src/numerics/runge_kutta2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index 8e55d57..f93ecc8 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -93,7 +93,7 @@ class RungeKutta2(OdeSolver):
                                          a_mid, b_mid)
 
             # -Eq(10)- NEW "variance" point.
-            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, sk, sigma)),
+            st[k + 1] = sk + dt * fun_st((sk + h * fun_st(sk, ak, sigma)),
                                          a_mid, sigma)
         # _end_for_
 
-- 
2.43.0


From 2f6006acb6481c81aa25be07f8a883c94421c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 03/37] fix: backward ODE of the mean multiplier uses the
 adjoint A'*lam (was A*lam)

---
 src/numerics/ode_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/ode_solver.py b/src/numerics/ode_solver.py
index 9dd7204..7ed15d1 100644
--- a/src/numerics/ode_solver.py
+++ b/src/numerics/ode_solver.py
@@ -71,10 +71,10 @@ class OdeSolver(object):
 
         :param lam_t: Lagrange multiplier lam(t).
 
-        :return: - dEf_dm + (lam * A.T)
+        :return: - dEf_dm + (lam * A)
         """
         # Switch according to single_dim.
-        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at.T)
+        return -df_dm + (lam_t * at) if self.single_dim else -df_dm + lam_t.dot(at)
     # _end_def_
 
     def fun_psi(self, df_ds: np.ndarray, at: np.ndarray,
-- 
2.43.0


From a38473c5ede7f906702385aacfd3244ef603682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 04/37] fix: 1D KL at t=0 uses 0.5*log(s0) (was log(s0))

---
 src/var_bayes/prior_kl0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index 525c74c..b0c3966 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -57,7 +57,7 @@ class PriorKL0(object):
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = - np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
+        kl0 = - 0.5 * np.log(s0) - 0.5 * (1.0 - np.log(self.tau0)) +\
               0.5 / self.tau0 * (z0 ** 2 + s0)
 
         # Kullback-Liebler at t=0.
-- 
2.43.0


From 97864023ed0c06705860d1b9ab7ef72afb288c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 05/37] fix: nD KL at t=0 uses the outer product of the mean
 offset and log-determinants of SPD matrices

---
 src/var_bayes/prior_kl0.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/var_bayes/prior_kl0.py b/src/var_bayes/prior_kl0.py
index b0c3966..a8d75af 100644
--- a/src/var_bayes/prior_kl0.py
+++ b/src/var_bayes/prior_kl0.py
@@ -77,15 +77,12 @@ class PriorKL0(object):
         # Inverse of tau0 matrix.
         inv_tau0, _ = chol_inv(self.tau0)
 
-        # Inverted.
-        inv_s0, _ = chol_inv(s0)
-
         # Energy of the initial moment.
         z0 = m0 - self.mu0
 
         # Energy of the initial moment.
-        kl0 = 0.5 * (log_det(self.tau0.dot(inv_s0)) +
-                     np.sum(np.diag(inv_tau0.dot(z0.T.dot(z0) +
+        kl0 = 0.5 * (log_det(self.tau0) - log_det(s0) +
+                     np.sum(np.diag(inv_tau0.dot(np.outer(z0, z0) +
                                                  s0 - self.tau0))))
         # Kullback-Liebler at t=0.
         return kl0
-- 
2.43.0


From 9f4950b07dae08c98872eeea1ca28a492226c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 06/37] fix: nD observation energy reads the variances at the
 observation times

---
 src/var_bayes/gaussian_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 4ec0384..cd71d13 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -142,7 +142,7 @@ class GaussianLikelihood(Likelihood):
             zn_sq = np.inner(Z[n], Z[n])
 
             # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[n])
+            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
         # _end_for_
 
         # Compute the final including the constants.
-- 
2.43.0


From 9e8be430b32974d97017c0ee1044e94a929ab9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 07/37] fix: Lorenz models accept a scalar noise (the shipped
 L3D / L40D parameter files)

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index b1133ac..f62d84a 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -65,7 +65,7 @@ class Lorenz63(StochasticProcess):
         theta = np.asarray(theta)
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(3)
 
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index e6be786..5212d4a 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -143,7 +143,7 @@ class Lorenz96(StochasticProcess):
         self.dim_d = dim_d
 
         # Check the dimensions of the input.
-        if np.isscalar(sigma):
+        if sigma.ndim == 0:
             # Diagonal matrix (from scalar).
             self._sigma = sigma * np.eye(dim_d)
 
-- 
2.43.0


From d8aebbbd8821d65f6b7f008f15b95875b0c7b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 08/37] fix: Lorenz noise setters reject indefinite matrices
 before changing the state

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f62d84a..f3cf214 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -149,7 +149,7 @@ class Lorenz63(StochasticProcess):
         # _end_if_
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # _end_if_
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 5212d4a..162e620 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -226,7 +226,7 @@ class Lorenz96(StochasticProcess):
                              f" Wrong matrix dimensions: {new_value.shape}")
 
         # Check for positive definiteness.
-        if np.all(np.linalg.eigvals(new_value) <= 0.0):
+        if np.any(np.linalg.eigvals(new_value) <= 0.0):
             raise RuntimeError(f" {self.__class__.__name__}:"
                                f" Noise matrix {new_value} is not positive definite.")
         # Make the change.
-- 
2.43.0


From 8d793a9ef9c68c5a9dbc009b28057009a282781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 09/37] fix: Lorenz trajectories use the lower Cholesky factor
 of the noise covariance

---
 src/dynamics/lorenz_63.py | 2 +-
 src/dynamics/lorenz_96.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index f3cf214..e7e52d1 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -209,7 +209,7 @@ class Lorenz63(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : Input matrix was not positive definite."
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 162e620..f652fae 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -288,7 +288,7 @@ class Lorenz96(StochasticProcess):
 
         # Compute the Cholesky decomposition of input matrix.
         try:
-            ek = cholesky(self._sigma * dt)
+            ek = cholesky(self._sigma * dt, lower=True)
         except LinAlgError:
             # Show a warning message.
             print(" Warning : The input matrix was not positive definite."
-- 
2.43.0


From 32c64f48229066dc2560c9a7d607be35f0672512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 10/37] fix: time grid does not overshoot the final time by one
 step because of rounding

---
 src/dynamics/double_well.py        | 2 +-
 src/dynamics/lorenz_63.py          | 2 +-
 src/dynamics/lorenz_96.py          | 2 +-
 src/dynamics/ornstein_uhlenbeck.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 712fc49..54e7fd2 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -130,7 +130,7 @@ class DoubleWell(StochasticProcess):
         """
 
         # Create locally a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual time points.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index e7e52d1..9518c1c 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -185,7 +185,7 @@ class Lorenz63(StochasticProcess):
         :return: None.
         """
         # Create locally a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index f652fae..94e3512 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -261,7 +261,7 @@ class Lorenz96(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/ornstein_uhlenbeck.py b/src/dynamics/ornstein_uhlenbeck.py
index af89dd0..25e8e91 100644
--- a/src/dynamics/ornstein_uhlenbeck.py
+++ b/src/dynamics/ornstein_uhlenbeck.py
@@ -136,7 +136,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + dt, dt)
+        tk = np.arange(t0, tf + 0.5 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
-- 
2.43.0


From e65dbb0ba8e0bf59cc411deadda0a9ef4b1d00c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 11/37] fix: random seed 0 is a seed

---
 src/dynamics/stochastic_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index ada9ed5..c83ef48 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -18,7 +18,7 @@ class StochasticProcess(object):
         :param single_dim: single dimensional flag.
         """
         # Create a random number generator.
-        if r_seed:
+        if r_seed is not None:
             self.rand_g = default_rng(SeedSequence(r_seed))
         else:
             self.rand_g = default_rng()
-- 
2.43.0


From fd3150381566032349175f2e27ac664ce6b526d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 12/37] fix: L96 energy evaluates the periodic drift per sigma
 point (the shifts wrapped across rows)

---
 src/dynamics/lorenz_96.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 94e3512..83fd531 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -377,10 +377,10 @@ class Lorenz96(StochasticProcess):
         dEsde_dSig = np.zeros((dim_t, dim_d))
 
         # Define lambda function.
-        fun_1 = lambda xt, at, bt: (l96(xt, theta) + xt.dot(at.T) -
+        fun_1 = lambda xt, at, bt: (fun_2(xt) + xt.dot(at.T) -
                                     np.tile(bt, (xt.shape[0], 1))) ** 2
-        # Define lambda function.
-        fun_2 = lambda xt: l96(xt, theta)
+        # Define lambda function (drift of each sample, i.e. row).
+        fun_2 = lambda xt: np.array([l96(xi, theta) for xi in xt])
 
         # Identity matrix.
         iD = np.eye(dim_d)
-- 
2.43.0


From cc1d443d33d04705696263cfa0b5c0c14bd43b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 13/37] fix: unscented transformation covariance is centred on
 the estimated mean

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 8a48a63..2bbce10 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -300,7 +300,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
 
     # Compute the approximate covariance.
     w_m = np.eye(dim_m) - np.tile(weights, (dim_m, 1))
-    Q = w_m.dot(np.diag(weights.ravel())).dot(w_m.T)
+    Q = w_m.T.dot(np.diag(weights.ravel())).dot(w_m)
 
     # Compute the new approximate covariance.
     y_cov = y.T.dot(Q).dot(y)
-- 
2.43.0


From 019e398fc23ca8099b3b64e2553e4e81ed9bce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 14/37] fix: unscented transformation scales the sigma points
 of the diagonal fallback too

---
 src/numerics/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 2bbce10..73dd7b5 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -276,7 +276,7 @@ def ut_approx(fun, x_bar, x_cov, *args):
     except LinAlgError:
         # If the original fails, apply only to
         # the diagonal elements of the covariance.
-        sPxx = cholesky(x_cov * np.eye(dim_d)).T
+        sPxx = cholesky((dim_d + k) * x_cov * np.eye(dim_d)).T
     # _end_if_
 
     # Replicate the array.
-- 
2.43.0


From 56d343e544fa866635e34dfff5568cc301e8fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 15/37] fix: chol_inv accepts integer matrices

---
 src/numerics/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/utilities.py b/src/numerics/utilities.py
index 73dd7b5..9ebc710 100644
--- a/src/numerics/utilities.py
+++ b/src/numerics/utilities.py
@@ -226,8 +226,8 @@ def chol_inv(x):
     :return: inverted 'x' and inverted Cholesky factor.
     """
 
-    # Make sure input is array.
-    x = np.asarray(x)
+    # Make sure input is (float) array.
+    x = np.asarray(x, dtype=float)
 
     # Check if the input is scalar.
     if x.ndim == 0:
-- 
2.43.0


From 4e918f551ae3ad9dcb4b792fd24e91037bc5daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 16/37] fix: SCG passes the additional parameters to every
 gradient call

---
 src/numerics/optim_scg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index b5ab4fd..2eef735 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -164,7 +164,7 @@ class SCG(object):
                 # Because we evaluate the gradient at a new point
                 # we run the f(x) too,  so that we get consistent
                 # variational and Lagrangian parameters.
-                g_plus = self.df(x_plus, eval_fun=True)
+                g_plus = self.df(x_plus, *args, eval_fun=True)
 
                 # Increase function/gradients evaluations by one.
                 self.stats["f_eval"] += 1
-- 
2.43.0


From 2e3b9ad0cddbf3393fd0548ea7f69fb5a0209621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 17/37] fix: GaussianMoments reports a shape mismatch as the
 intended RuntimeError

---
 src/var_bayes/gaussian_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index a8dea14..099e741 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -28,7 +28,7 @@ class GaussianMoments(object):
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
             raise RuntimeError(" {0}: Input arrays shape mismatch."
-                               " {1} != {2)".format(self.__class__.__name__,
+                               " {1} != {2}".format(self.__class__.__name__,
                                                     m_arr.shape, v_arr.shape))
         # _end_if_
 
-- 
2.43.0


From 2f640422856c3277efd5dd1785733c8eb36f0206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 18/37] fix: saved posterior moments belong to the returned
 variational parameters

---
 src/var_bayes/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 0cc56b7..b56b840 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -233,6 +233,9 @@ class Simulation(object):
         # Stop the timer.
         time_tf = time.perf_counter()
 
+        # Make the moments consistent with the optimal parameters.
+        _ = vgpa.free_energy(x)
+
         # Final gradient test.
         # optimize.check_gradient_function(x.copy())
 
-- 
2.43.0


From 63bc09f4dda229418f74a920850a074cbed7b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 19/37] fix: nD observation energy for any linear operator and
 noise covariance

---
 src/var_bayes/gaussian_like.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index cd71d13..81b487d 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -116,13 +116,13 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, inv_chol_factor = chol_inv(self.noise)
 
-        # Extract the diagonal elements.
-        diag_inv_rn = inv_rn.diagonal()
+        # Precision in the state space.
+        G = H.T.dot(inv_rn).dot(H)
 
         # Pre-compute this only once.
         Z = W.dot(inv_chol_factor.T)
@@ -130,19 +130,13 @@ class GaussianLikelihood(Likelihood):
         # Energy term from the observations.
         Eobs = 0.0
 
-        # Get the diagonal elements.
-        # NOTE: Array s is 3-dimensional. The following command
-        # returns the diagonal elements on the first dimensions.
-        # I.e. np.diag(s[0, :, :]), ... , np.diag(s[n-1, :, :])
-        sn_diag = np.diagonal(s, axis1=1, axis2=2)
-
         # Sum the energy iteratively.
         for n, tn in enumerate(obs_t):
             # Inner product: z * z.T
             zn_sq = np.inner(Z[n], Z[n])
 
-            # Energy term.
-            Eobs += zn_sq + np.inner(diag_inv_rn, sn_diag[tn])
+            # Energy term: the last one is tr(G * S(tn)).
+            Eobs += zn_sq + np.sum(G * s[tn])
         # _end_for_
 
         # Compute the final including the constants.
@@ -219,7 +213,7 @@ class GaussianLikelihood(Likelihood):
         H = self.operator
 
         # Pre-compute this only once.
-        W = (obs_y - m[obs_t]).dot(H)
+        W = obs_y - m[obs_t].dot(H.T)
 
         # Inverted Cholesky factor.
         inv_rn, _ = chol_inv(self.noise)
-- 
2.43.0


From 4a171a48452ad91ba77cfaeff2237278aaba7fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 20/37] fix: 1D observation energy and gradients use the
 observation operator throughout

---
 src/var_bayes/gaussian_like.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 81b487d..27a395a 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -83,12 +83,15 @@ class GaussianLikelihood(Likelihood):
         # Total number of observations.
         dim_m = obs_t.size
 
+        # Observation operator.
+        H = self.operator
+
         # Second order Gaussian moments,
         # at observation times only.
         Ex2 = (m[obs_t] ** 2) + s[obs_t]
 
         # Energy from the observations.
-        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2) / self.noise +\
+        Eobs = 0.5 * np.sum((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] + (H ** 2) * Ex2) / self.noise +\
                0.5 * dim_m * (GaussianLikelihood.LOG2PI + np.log(self.noise))
 
         # Energy term from the observations.
@@ -179,10 +182,10 @@ class GaussianLikelihood(Likelihood):
         dEobs_dr = np.zeros(dim_n)
 
         # Jumps -Eq(31)- NOT IN THE PAPER.
-        dEobs_dm[obs_t] = - W / self.noise
+        dEobs_dm[obs_t] = - H * W / self.noise
 
         # Jumps -Eq(32)- NOT IN THE PAPER.
-        dEobs_ds[obs_t] = 0.5 / self.noise
+        dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
         dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
-- 
2.43.0


From 89940fc9f9bed9f1e4bb64774ae3f7a3b3215a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 21/37] fix: 1D gradient of the observation energy w.r.t. the
 noise variance

---
 src/var_bayes/gaussian_like.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index 27a395a..c3d2cd3 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -188,7 +188,8 @@ class GaussianLikelihood(Likelihood):
         dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
 
         # Calculate the gradient at 'M' observation times.
-        dEobs_dr[obs_t] = -0.5 * ((obs_y ** 2) - 2.0 * obs_y * m[obs_t] + Ex2 + 1.0) / self.noise
+        dEobs_dr[obs_t] = 0.5 * (1.0 - ((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] +
+                                        (H ** 2) * Ex2) / self.noise) / self.noise
 
         # Gradients of energy Eobs.
         return dEobs_dm, dEobs_ds, dEobs_dr
-- 
2.43.0


From 320b0b073c59200a08a18b89ce6064486dea37ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 22/37] fix: backward ODEs include the jump of an observation
 at the final time

---
 src/numerics/euler.py        | 3 +++
 src/numerics/heun.py         | 3 +++
 src/numerics/runge_kutta2.py | 3 +++
 src/numerics/runge_kutta4.py | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/numerics/euler.py b/src/numerics/euler.py
index 09098ae..7296128 100644
--- a/src/numerics/euler.py
+++ b/src/numerics/euler.py
@@ -135,6 +135,9 @@ class Euler(OdeSolver):
         fun_lam = self.fun_lam
         fun_psi = self.fun_psi
 
+        # Jumps at the final time point.
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
diff --git a/src/numerics/heun.py b/src/numerics/heun.py
index 5c21d17..11536e2 100644
--- a/src/numerics/heun.py
+++ b/src/numerics/heun.py
@@ -156,6 +156,9 @@ class Heun(OdeSolver):
         # Half step-size.
         h = 0.5 * dt
 
+        # Jumps at the final time point.
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
diff --git a/src/numerics/runge_kutta2.py b/src/numerics/runge_kutta2.py
index f93ecc8..c1758a1 100644
--- a/src/numerics/runge_kutta2.py
+++ b/src/numerics/runge_kutta2.py
@@ -164,6 +164,9 @@ class RungeKutta2(OdeSolver):
 
         # _end_if_
 
+        # Jumps at the final time point.
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
diff --git a/src/numerics/runge_kutta4.py b/src/numerics/runge_kutta4.py
index e0ffbee..c4d2723 100644
--- a/src/numerics/runge_kutta4.py
+++ b/src/numerics/runge_kutta4.py
@@ -175,6 +175,9 @@ class RungeKutta4(OdeSolver):
             dEsk_mid = np.concatenate((dEsk_mid, np.zeros((1, dim_d, dim_d))), axis=0)
         # _end_if_
 
+        # Jumps at the final time point.
+        lam[-1], psi[-1] = dEobs_dm[-1], dEobs_ds[-1]
+
         # Run through all-time points.
         for t in range(dim_n - 1, 0, -1):
             # Get the values at time 't'.
-- 
2.43.0


From 9ce88160401a5ba5c79f3c311085c3ff39f1eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 23/37] fix: collect_obs accepts array masks and masks with a
 single observed dimension

---
 src/dynamics/stochastic_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index c83ef48..5d45035 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -178,7 +178,7 @@ class StochasticProcess(object):
         obs_y = np.take(self.xt, obs_t, axis=0)
 
         # Check if a mask has been given.
-        if h_mask:
+        if h_mask is not None:
             # Here we have (d < D)
             obs_y = obs_y[:, h_mask]
         # _end_if_
@@ -187,7 +187,7 @@ class StochasticProcess(object):
         dim_d = 1 if obs_y.ndim == 1 else obs_y.shape[-1]
 
         # Add noise according to the observation dimensions.
-        if dim_d == 1:
+        if obs_y.ndim == 1:
             # Scalar value.
             obs_noise = rn
 
-- 
2.43.0


From 93c9227ddb09118f2e83860363f8cb11e87c7619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:44 +0000
Subject: [PATCH 24/37] fix: initialization accepts observations at the end
 points of the time window

---
 src/var_bayes/variational.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/variational.py b/src/var_bayes/variational.py
index bc3e76c..8d70c65 100644
--- a/src/var_bayes/variational.py
+++ b/src/var_bayes/variational.py
@@ -86,6 +86,9 @@ class VarGP(object):
         # Replicate the first and last time points.
         time_x = [time_window[0], *time_window[self.obs_t], time_window[-1]]
 
+        # Do not replicate the end points that are already observed.
+        time_x, idx = np.unique(time_x, return_index=True)
+
         # Switch according to the dimensionality.
         if self.model.single_dim:
             # Replicate the first and last observations.
@@ -96,7 +99,7 @@ class VarGP(object):
 
             # Build a uni-variate extrapolation
             # (with cubic splines).
-            fb0 = CubicSpline(time_x, obs_z)
+            fb0 = CubicSpline(time_x, obs_z[idx])
 
             # Generate the offset parameters on the whole time window.
             b0 = fb0(time_window)
@@ -106,7 +109,7 @@ class VarGP(object):
 
             # Cubic spline extrapolation for
             # each dimension separately.
-            fb0 = CubicSpline(time_x, obs_z)
+            fb0 = CubicSpline(time_x, obs_z[idx])
             mt0 = fb0(time_window)
 
             # Preallocate variational parameters.
-- 
2.43.0


From 2e65c24c392f33911ddc1a1f17f9e2e8c4c4512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 25/37] fix: L63 covariance gradient does not count the
 off-diagonal entries twice

---
 src/dynamics/lorenz_63.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 9518c1c..4e3a14e 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -561,9 +561,11 @@ class Lorenz63(StochasticProcess):
                iSz * ((vB - A33) ** 2) * dEzz_dSzz
 
         # Gradient of the energy with respect to the marginal covariance.
-        dEsde_ds = 0.5 * np.array([[dSxx, dSxy, dSxz],
-                                   [dSxy, dSyy, dSyz],
-                                   [dSxz, dSyz, dSzz]])
+        # NOTE: dSxy, dSxz and dSyz change both symmetric entries of S(t),
+        # so each off-diagonal entry of the matrix gradient gets one half.
+        dEsde_ds = 0.5 * np.array([[dSxx, 0.5 * dSxy, 0.5 * dSxz],
+                                   [0.5 * dSxy, dSyy, 0.5 * dSyz],
+                                   [0.5 * dSxz, 0.5 * dSyz, dSzz]])
         # --->
         return Efg, dEsde_dm, dEsde_ds
 
-- 
2.43.0


From 52c53f8d303b92eae8aafec33f6bd1cfb9c56dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 26/37] fix: nD gradient of the observation energy w.r.t. the
 noise covariance

---
 src/var_bayes/gaussian_like.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index c3d2cd3..a7e6342 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -63,7 +63,7 @@ class GaussianLikelihood(Likelihood):
 
         :return: Energy from the observation likelihood, (scalar).
         """
-        return self.gradients_1d(m, s) if self.single_dim else self.gradients_nd(m)
+        return self.gradients_1d(m, s) if self.single_dim else self.gradients_nd(m, s)
     # _end_def_
 
     def gauss_1d(self, m: np.ndarray, s: np.ndarray):
@@ -195,20 +195,22 @@ class GaussianLikelihood(Likelihood):
         return dEobs_dm, dEobs_ds, dEobs_dr
     # _end_def
 
-    def gradients_nd(self, m: np.ndarray):
+    def gradients_nd(self, m: np.ndarray, s: np.ndarray):
         """
         nD gradients of Eobs.
 
         :param m: marginal means m(t), (dim_n x dim_d).
 
-        :return: Energy from the observation likelihood, (scalar).
+        :param s: marginal variances s(t), (dim_n x dim_d x dim_d).
+
+        :return: dEobs_dm, dEobs_ds, dEobs_dr.
         """
         # Extract the observation values and times
         # from the parent class (Likelihood).
         obs_y, obs_t = self.values, self.times
 
         # Dimensions of observations.
-        dim_o, _ = obs_y.shape
+        _, dim_o = obs_y.shape
 
         # Dimensions of input array.
         dim_n, dim_d = m.shape
@@ -234,6 +236,12 @@ class GaussianLikelihood(Likelihood):
 
             # Gradient of E_{obs} w.r.t. S(tn).
             dEobs_ds[tn] = 0.5 * H.T.dot(inv_rn).dot(H)
+
+            # Expected outer product of the residuals.
+            Cn = np.outer(W[n], W[n]) + H.dot(s[tn]).dot(H.T)
+
+            # Gradient of E_{obs} w.r.t. R (at tn).
+            dEobs_dr[tn] = 0.5 * (inv_rn - inv_rn.dot(Cn).dot(inv_rn))
         # _end_for_
 
         # Gradients of energy Eobs.
-- 
2.43.0


From 40e90f8353bd32765747670f2d104ac13818f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 27/37] fix: load() reads the numeric arrays of a saved
 simulation (conversion to objects failed)

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index b56b840..3021cde 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -340,7 +340,7 @@ def load(filename=None):
 
         # Extract all the data.
         for key in input_file:
-            sim_data[key] = np.array(input_file[key], dtype=object)
+            sim_data[key] = np.array(input_file[key])
         # _end_for_
 
     # _end_with_
-- 
2.43.0


From 0557734cd9adc95a64141e6f4fcf13b277be35cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 28/37] fix: setup scaled the caller's prior parameters in
 place

---
 src/var_bayes/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 3021cde..59d68f9 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -172,8 +172,8 @@ class Simulation(object):
             self.m_data["s0"] = 0.2 * np.eye(dim_d)
 
             # Adjust the prior values.
-            self.m_data["mu0"] *= np.ones(dim_d)
-            self.m_data["tau0"] *= np.eye(dim_d)
+            self.m_data["mu0"] = self.m_data["mu0"] * np.ones(dim_d)
+            self.m_data["tau0"] = self.m_data["tau0"] * np.eye(dim_d)
         # _end_if_
     # _end_def_
 
-- 
2.43.0


From eb6c5ddfee7df985d35cf13a09b24a77884f9467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 29/37] fix: saving a zero-dimensional array failed after
 truncating the file

---
 src/var_bayes/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 59d68f9..18595e0 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -301,7 +301,7 @@ class Simulation(object):
                 for key in data:
 
                     # Convert scalars to 1D arrays.
-                    if np.isscalar(data[key]):
+                    if np.ndim(data[key]) == 0:
                         data[key] = np.atleast_1d(data[key])
                     # _end_if_
 
-- 
2.43.0


From d779f693bfd5a72f336385b902e8fd8c4e9358e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:28 +0000
Subject: [PATCH 30/37] fix: rounding of the time window lost observations or
 rejected the highest density

---
 src/dynamics/stochastic_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index 5d45035..3e81472 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -157,13 +157,14 @@ class StochasticProcess(object):
         # Check if the required number of observations
         # per time unit exceeds the available capacity
         # of samples.
-        if n_obs > int(1.0 / dt):
+        if n_obs > int(np.round(1.0 / dt, 6)):
             raise ValueError(f" {self.__class__.__name__}:"
                              f" Observation density exceeds the number of samples.")
         # _end_def_
 
-        # Total number of observations.
-        dim_m = int(np.floor(np.abs(self.tk[0] - self.tk[-1]) * n_obs))
+        # Total number of observations (rounding
+        # errors of the time window are removed).
+        dim_m = int(np.floor(np.round(np.abs(self.tk[0] - self.tk[-1]) * n_obs, 6)))
 
         # Number of discrete time points.
         dim_t = self.tk.size
-- 
2.43.0


From 8851c40a656349bc99f2cdefd57befea5e109e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:18 +0000
Subject: [PATCH 31/37] fix: Gaussian moments of integer arrays overflowed in
 the higher orders

---
 src/var_bayes/gaussian_moments.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/var_bayes/gaussian_moments.py b/src/var_bayes/gaussian_moments.py
index 099e741..55e8b21 100644
--- a/src/var_bayes/gaussian_moments.py
+++ b/src/var_bayes/gaussian_moments.py
@@ -22,8 +22,10 @@ class GaussianMoments(object):
         :param v_arr: marginal variances array (N x 1).
         """
 
-        # Make sure the inputs are at least 1-D.
-        m_arr, v_arr = np.atleast_1d(m_arr, v_arr)
+        # Make sure the inputs are at least 1-D. The higher order
+        # moments of integer arrays would overflow: use floats.
+        m_arr, v_arr = np.atleast_1d(np.asarray(m_arr, dtype=float),
+                                     np.asarray(v_arr, dtype=float))
 
         # The shapes must match.
         if m_arr.shape != v_arr.shape:
-- 
2.43.0


From 93f5a72304f150ae72b0a7f28a4f157aea94f0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:18 +0000
Subject: [PATCH 32/37] fix: observations of a sample path given as integers
 could not be collected

---
 src/dynamics/stochastic_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/stochastic_process.py b/src/dynamics/stochastic_process.py
index 3e81472..c486309 100644
--- a/src/dynamics/stochastic_process.py
+++ b/src/dynamics/stochastic_process.py
@@ -196,7 +196,7 @@ class StochasticProcess(object):
             sq_rn = np.sqrt(obs_noise)
 
             # Fixed Gaussian noise.
-            obs_y += sq_rn * self.rand_g.standard_normal(dim_m)
+            obs_y = obs_y + sq_rn * self.rand_g.standard_normal(dim_m)
 
         else:
             # Multidimensional case.
@@ -223,7 +223,7 @@ class StochasticProcess(object):
             # _end_if_
 
             # Add fixed Gaussian noise.
-            obs_y += sq_rn.dot(self.rand_g.standard_normal((dim_d, dim_m))).T
+            obs_y = obs_y + sq_rn.dot(self.rand_g.standard_normal((dim_d, dim_m))).T
         # _end_if_
 
         # Observation (times / values / noise).
-- 
2.43.0


From 25c7c655a99a0b40f6948f855c148073a7c6b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:08 +0000
Subject: [PATCH 33/37] fix: time grid does not run past a final time between
 two grid points

---
 src/dynamics/double_well.py        | 2 +-
 src/dynamics/lorenz_63.py          | 2 +-
 src/dynamics/lorenz_96.py          | 2 +-
 src/dynamics/ornstein_uhlenbeck.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/double_well.py b/src/dynamics/double_well.py
index 54e7fd2..b30239b 100644
--- a/src/dynamics/double_well.py
+++ b/src/dynamics/double_well.py
@@ -130,7 +130,7 @@ class DoubleWell(StochasticProcess):
         """
 
         # Create locally a time-window.
-        tk = np.arange(t0, tf + 0.5 * dt, dt)
+        tk = np.arange(t0, tf + 1.0e-3 * dt, dt)
 
         # Number of actual time points.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_63.py b/src/dynamics/lorenz_63.py
index 4e3a14e..fb98841 100644
--- a/src/dynamics/lorenz_63.py
+++ b/src/dynamics/lorenz_63.py
@@ -185,7 +185,7 @@ class Lorenz63(StochasticProcess):
         :return: None.
         """
         # Create locally a time-window.
-        tk = np.arange(t0, tf + 0.5 * dt, dt)
+        tk = np.arange(t0, tf + 1.0e-3 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/lorenz_96.py b/src/dynamics/lorenz_96.py
index 83fd531..2b09b1a 100644
--- a/src/dynamics/lorenz_96.py
+++ b/src/dynamics/lorenz_96.py
@@ -261,7 +261,7 @@ class Lorenz96(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + 0.5 * dt, dt)
+        tk = np.arange(t0, tf + 1.0e-3 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
diff --git a/src/dynamics/ornstein_uhlenbeck.py b/src/dynamics/ornstein_uhlenbeck.py
index 25e8e91..00f5450 100644
--- a/src/dynamics/ornstein_uhlenbeck.py
+++ b/src/dynamics/ornstein_uhlenbeck.py
@@ -136,7 +136,7 @@ class OrnsteinUhlenbeck(StochasticProcess):
         :return: None.
         """
         # Create a time-window.
-        tk = np.arange(t0, tf + 0.5 * dt, dt)
+        tk = np.arange(t0, tf + 1.0e-3 * dt, dt)
 
         # Number of actual trajectory samples.
         dim_t = tk.size
-- 
2.43.0


From 81b4b7e78e08adee1512324723a31d3e13213fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:41 +0000
Subject: [PATCH 34/37] fix: gradients of the likelihood dropped all but one
 observation at the same time point

---
 src/var_bayes/gaussian_like.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/var_bayes/gaussian_like.py b/src/var_bayes/gaussian_like.py
index a7e6342..b0d78a9 100644
--- a/src/var_bayes/gaussian_like.py
+++ b/src/var_bayes/gaussian_like.py
@@ -181,15 +181,18 @@ class GaussianLikelihood(Likelihood):
         dEobs_ds = np.zeros(dim_n)
         dEobs_dr = np.zeros(dim_n)
 
+        # NOTE: Observations at the same time point add up.
+
         # Jumps -Eq(31)- NOT IN THE PAPER.
-        dEobs_dm[obs_t] = - H * W / self.noise
+        np.add.at(dEobs_dm, obs_t, np.ravel(- H * W / self.noise))
 
         # Jumps -Eq(32)- NOT IN THE PAPER.
-        dEobs_ds[obs_t] = 0.5 * (H ** 2) / self.noise
+        np.add.at(dEobs_ds, obs_t, np.ravel(0.5 * (H ** 2) / self.noise))
 
         # Calculate the gradient at 'M' observation times.
-        dEobs_dr[obs_t] = 0.5 * (1.0 - ((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] +
-                                        (H ** 2) * Ex2) / self.noise) / self.noise
+        np.add.at(dEobs_dr, obs_t,
+                  np.ravel(0.5 * (1.0 - ((obs_y ** 2) - 2.0 * obs_y * H * m[obs_t] +
+                                         (H ** 2) * Ex2) / self.noise) / self.noise))
 
         # Gradients of energy Eobs.
         return dEobs_dm, dEobs_ds, dEobs_dr
@@ -232,16 +235,16 @@ class GaussianLikelihood(Likelihood):
         # Sum the energy iteratively.
         for n, tn in enumerate(obs_t):
             # Gradient of E_{obs} w.r.t. m(tn).
-            dEobs_dm[tn] = -H.T.dot(inv_rn).dot(W[n])
+            dEobs_dm[tn] += -H.T.dot(inv_rn).dot(W[n])
 
             # Gradient of E_{obs} w.r.t. S(tn).
-            dEobs_ds[tn] = 0.5 * H.T.dot(inv_rn).dot(H)
+            dEobs_ds[tn] += 0.5 * H.T.dot(inv_rn).dot(H)
 
             # Expected outer product of the residuals.
             Cn = np.outer(W[n], W[n]) + H.dot(s[tn]).dot(H.T)
 
             # Gradient of E_{obs} w.r.t. R (at tn).
-            dEobs_dr[tn] = 0.5 * (inv_rn - inv_rn.dot(Cn).dot(inv_rn))
+            dEobs_dr[tn] += 0.5 * (inv_rn - inv_rn.dot(Cn).dot(inv_rn))
         # _end_for_
 
         # Gradients of energy Eobs.
-- 
2.43.0


From 793187e251ce02fe713f5ef36f34fc72f53e4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:41 +0000
Subject: [PATCH 35/37] fix: optimiser failed with gradient functions that
 re-use their output array

---
 src/numerics/optim_scg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics/optim_scg.py b/src/numerics/optim_scg.py
index 2eef735..370a631 100644
--- a/src/numerics/optim_scg.py
+++ b/src/numerics/optim_scg.py
@@ -97,7 +97,7 @@ class SCG(object):
 
         # Initial function/gradients value.
         f_now = self.f(x, *args)
-        grad_new = self.df(x, *args)
+        grad_new = _copy(self.df(x, *args))
 
         # Increase function / gradient evaluations by one.
         self.stats["f_eval"] += 1
@@ -232,7 +232,7 @@ class SCG(object):
 
                     # Evaluate function/gradient at the new point.
                     f_now = self.f(x, *args)
-                    grad_new = self.df(x, *args)
+                    grad_new = _copy(self.df(x, *args))
 
                     # Increase function/gradients evaluations by one.
                     self.stats["f_eval"] += 1
-- 
2.43.0


From 9a1593b31793be1bc960cb27cf90123b6f523479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:17 +0000
Subject: [PATCH 36/37] fix: a prior covariance matrix lost its off-diagonal
 elements in the simulation

---
 src/var_bayes/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 18595e0..6c58c35 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -173,7 +173,8 @@ class Simulation(object):
 
             # Adjust the prior values.
             self.m_data["mu0"] = self.m_data["mu0"] * np.ones(dim_d)
-            self.m_data["tau0"] = self.m_data["tau0"] * np.eye(dim_d)
+            tau0 = np.asarray(self.m_data["tau0"])
+            self.m_data["tau0"] = tau0 if tau0.ndim == 2 else tau0 * np.eye(dim_d)
         # _end_if_
     # _end_def_
 
-- 
2.43.0


From 5b03d0da765844aaf72035dbfa77f218ea43c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:27 +0000
Subject: [PATCH 37/37] fix: the message of save() names the file that is
 written

---
 src/var_bayes/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var_bayes/simulation.py b/src/var_bayes/simulation.py
index 6c58c35..04bfad8 100644
--- a/src/var_bayes/simulation.py
+++ b/src/var_bayes/simulation.py
@@ -286,12 +286,12 @@ class Simulation(object):
             print(f" {self.__class__.__name__}:"
                   f" Simulation data structure 'output' is empty.")
         else:
-            # Initial message.
-            print(f" Saving the results to: {self.name}.h5")
-
             # Create the output filename. Remove spaces (if any).
             file_out = Path(self.name.strip().replace(" ", "_") + ".h5")
 
+            # Initial message.
+            print(f" Saving the results to: {file_out}")
+
             # Save the data to an 'HDF5' file format.
             # NOTE:  Create file; truncate if exists.
             with h5py.File(file_out, 'w') as out_file:
-- 
2.43.0

