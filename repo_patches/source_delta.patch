From 734691c28e69894e7e0e2e8dd03036aee3193be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:49 +0000
Subject: [PATCH 01/43] fix: find_all_paths must not consume the source's
 successor list

On a cyclic graph the edges leaving the source were popped from the shared
list, so the walk could come back to the source, skip its remaining edges and
return a truncated or repeated path instead of reporting the cycle.
---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 6be6c0c..79fd1c6 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -825,7 +825,7 @@ def find_all_paths(dag, from_index, to_index, min_causal_effect=0.0):
     # DFS
     paths = []
     stack = [from_index]
-    stack_to_indice = [to_indices[from_index]]
+    stack_to_indice = [to_indices[from_index].copy()]
     while stack:
         if len(stack) > dag.shape[0]:
             raise ValueError(
-- 
2.43.0


From 4480f4c5965b6dbe251b101c0c3fb3dcbce26d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:07 +0000
Subject: [PATCH 02/43] fix: HighDimDirectLiNGAM must not depend on the
 variables' means

---
 lingam/high_dim_direct_lingam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index 2251888..9630ceb 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -62,6 +62,8 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
         """
 
         self._Y = check_array(X)
+        # The test statistics are moments about the mean.
+        self._Y = self._Y - np.mean(self._Y, axis=0)
 
         self._yty = self._Y.T @ self._Y
 
-- 
2.43.0


From 8acd12324e430c9d6804c267f11c1550c94f2912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:16 +0000
Subject: [PATCH 03/43] fix: make_prior_knowledge must not ignore or reject
 array arguments

---
 lingam/utils/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 79fd1c6..56fcfd2 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -126,16 +126,16 @@ def make_prior_knowledge(
         Return matrix of prior knowledge used for causal discovery.
     """
     prior_knowledge = np.full((n_variables, n_variables), -1)
-    if no_paths:
+    if no_paths is not None:
         for no_path in no_paths:
             prior_knowledge[no_path[1], no_path[0]] = 0
-    if paths:
+    if paths is not None:
         for path in paths:
             prior_knowledge[path[1], path[0]] = 1
-    if sink_variables:
+    if sink_variables is not None:
         for var in sink_variables:
             prior_knowledge[:, var] = 0
-    if exogenous_variables:
+    if exogenous_variables is not None:
         for var in exogenous_variables:
             prior_knowledge[var, :] = 0
     np.fill_diagonal(prior_knowledge, -1)
-- 
2.43.0


From 390a32693790566481a87ee374bf3fabb681bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:16 +0000
Subject: [PATCH 04/43] fix: BottomUpParceLiNGAM must reject cyclic prior
 knowledge with any independence measure

---
 lingam/bottom_up_parce_lingam.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index 8fdfa57..c41eced 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -195,6 +195,10 @@ class BottomUpParceLiNGAM:
         while is_search_causal_order:
             # Search for candidate features
             Uc = self._search_candidate(U)
+            if len(Uc) == 0:
+                raise ValueError(
+                    "The prior knowledge contains inconsistencies: no variable can be a sink."
+                )
 
             # Find the most sink variable
             m, _, eval = self._find_exo_vec(X, Uc, U)
-- 
2.43.0


From 690c433ff34a83423468654d802c82731a816615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:32 +0000
Subject: [PATCH 05/43] fix: LongitudinalLiNGAM must store lagged matrices in
 increasing lag order

---
 lingam/longitudinal_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a697c9..1814e78 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -168,7 +168,6 @@ class LongitudinalLiNGAM:
                 for lag in range(n_taus):
                     adjs[t, lag] = adj[t, t - lag]
             adjs[:self._n_lags] = np.nan
-            adjs[:, 1:] = adjs[:, 1:][:, ::-1]
 
             # make causal_orders
             causal_orders = []
@@ -416,7 +415,8 @@ class LongitudinalLiNGAM:
             reg = LinearRegression()
             reg.fit(X.T, y.T)
 
-            M_tau[t, :self._n_lags] = np.split(reg.coef_, self._n_lags, axis=1)
+            # X is stacked from the oldest time point, M_tau starts from the latest.
+            M_tau[t, :self._n_lags] = np.split(reg.coef_, self._n_lags, axis=1)[::-1]
             N_t[t] = X_t[t] - reg.coef_ @ X
 
         return M_tau, N_t
-- 
2.43.0


From b84364c9a310438c883e32357b27ae7ac4f3cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:23 +0000
Subject: [PATCH 06/43] fix: VARLiNGAM must not overwrite its settings nor
 drift between bootstrap replicates

---
 lingam/var_lingam.py | 45 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 6883b9b..4905a6d 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -92,7 +92,7 @@ class VARLiNGAM:
         M_taus = self._ar_coefs
 
         if M_taus is None:
-            M_taus, lags, residuals = self._estimate_var_coefs(X)
+            M_taus, _, residuals = self._estimate_var_coefs(X)
         else:
             lags = M_taus.shape[0]
             residuals = self._calc_residuals(X, M_taus, lags)
@@ -105,8 +105,7 @@ class VARLiNGAM:
         if self._prune:
             B_taus = self._pruning(X, B_taus, model.causal_order_)
 
-        self._ar_coefs = M_taus
-        self._lags = lags
+        self._fitted_ar_coefs = M_taus
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -135,24 +134,26 @@ class VARLiNGAM:
         n_samples = X.shape[0]
         n_features = X.shape[1]
 
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        lags = self._lags
-
+        # The number of lags is not searched while bootstrapping
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_samples, n_features, n_sampling)
+        finally:
+            self._criterion = criterion
 
+    def _bootstrap(self, X, n_samples, n_features, n_sampling):
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
+        fitted_ar_coefs = self._fitted_ar_coefs
+        fitted_residuals = self._residuals
+        lags = len(fitted_ar_coefs)
 
-        total_effects = np.zeros(
-            [n_sampling, n_features, n_features * (1 + self._lags)]
-        )
+        total_effects = np.zeros([n_sampling, n_features, n_features * (1 + lags)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
@@ -166,10 +167,6 @@ class VARLiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j]
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._lags = lags
-
             self.fit(resampled_X)
             am = np.concatenate([*self._adjacency_matrices], axis=1)
             adjacency_matrices.append(am)
@@ -183,14 +180,12 @@ class VARLiNGAM:
                     )
 
                 # time t-tau
-                for lag in range(self._lags):
+                for lag in range(lags):
                     for from_ in range(n_features):
                         total_effects[
                             i, to, from_ + n_features * (lag + 1)
                         ] = self.estimate_total_effect2(n_features, from_, to, lag + 1)
 
-        self._criterion = criterion
-
         return VARBootstrapResult(adjacency_matrices, total_effects)
 
     def estimate_total_effect(self, X, from_index, to_index, from_lag=0):
@@ -226,8 +221,9 @@ class VARLiNGAM:
                 )
 
         # X + lagged X
-        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + self._lags + from_lag)))
-        for p in range(1 + self._lags + from_lag):
+        lags = len(self._adjacency_matrices) - 1
+        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + lags + from_lag)))
+        for p in range(1 + lags + from_lag):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
@@ -367,18 +363,19 @@ class VARLiNGAM:
     def _pruning(self, X, B_taus, causal_order):
         """Prune edges"""
         n_features = X.shape[1]
+        lags = len(B_taus) - 1
 
         stacked = [np.flip(X, axis=0)]
-        for i in range(self._lags):
+        for i in range(lags):
             stacked.append(np.roll(stacked[-1], -1, axis=0))
-        blocks = np.array(list(zip(*stacked)))[: -self._lags]
+        blocks = np.array(list(zip(*stacked)))[:-lags]
 
         for i in range(n_features):
             causal_order_no = causal_order.index(i)
             ancestor_indexes = causal_order[:causal_order_no]
 
             obj = np.zeros((len(blocks)))
-            exp = np.zeros((len(blocks), causal_order_no + n_features * self._lags))
+            exp = np.zeros((len(blocks), causal_order_no + n_features * lags))
             for j, block in enumerate(blocks):
                 obj[j] = block[0][i]
                 exp[j:] = np.concatenate(
-- 
2.43.0


From affad4fe1109eeff055b85f2efe511b31a6dbe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:08 +0000
Subject: [PATCH 07/43] fix: VARMALiNGAM moving-average matrices lacked the
 inverse factor

---
 lingam/varma_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 687700c..9869de4 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -419,11 +419,11 @@ class VARMALiNGAM:
 
         omegas = []
         for j in range(order[1]):
-            omega = np.dot(
+            omega = np.linalg.multi_dot([
                 np.eye(psi0.shape[0]) - psi0,
                 thetas[j],
                 np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
-            )
+            ])
             omegas.append(omega)
 
         return np.array(psis), np.array(omegas)
-- 
2.43.0


From 7c11f22a17b1d7d7ff4402ac2a5fe11d96fe8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:15 +0000
Subject: [PATCH 08/43] fix: VARMALiNGAM must not overwrite its settings nor
 drift between bootstrap replicates

---
 lingam/varma_lingam.py | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 9869de4..cf5e912 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -110,6 +110,7 @@ class VARMALiNGAM:
         else:
             p = phis.shape[0]
             q = thetas.shape[0]
+            order = (p, q)
             residuals = self._calc_residuals(X, phis, thetas, p, q)
 
         model = lingam_model
@@ -126,9 +127,9 @@ class VARMALiNGAM:
             ).T
             psis, omegas = self._pruning(X, ee, order, model.causal_order_)
 
-        self._ar_coefs = phis
-        self._ma_coefs = thetas
-        self._order = order
+        self._fitted_ar_coefs = phis
+        self._fitted_ma_coefs = thetas
+        self._fitted_order = order
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -156,25 +157,28 @@ class VARMALiNGAM:
 
         n_samples = X.shape[0]
         n_features = X.shape[1]
-        (p, q) = self._order
-
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        ma_coefs = self._ma_coefs
 
+        # The order is not searched while bootstrapping
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_samples, n_features, n_sampling)
+        finally:
+            self._criterion = criterion
 
+    def _bootstrap(self, X, n_samples, n_features, n_sampling):
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
-        fitted_ma_coefs = self._ma_coefs
+        (p, q) = self._fitted_order
+        fitted_ar_coefs = self._fitted_ar_coefs
+        fitted_ma_coefs = self._fitted_ma_coefs
+        fitted_residuals = self._residuals
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
@@ -192,10 +196,6 @@ class VARMALiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j] + ma
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._ma_coefs = ma_coefs
-
             self.fit(resampled_X)
 
             psi = self._adjacency_matrices[0]
@@ -218,9 +218,7 @@ class VARMALiNGAM:
                             self.estimate_total_effect2(n_features, from_, to, lag + 1)
                         )
 
-        self._criterion = criterion
-
-        return VARMABootstrapResult(adjacency_matrices, total_effects, self._order)
+        return VARMABootstrapResult(adjacency_matrices, total_effects, (p, q))
 
     def estimate_total_effect(self, X, E, from_index, to_index, from_lag=0):
         """Estimate total effect using causal model.
@@ -259,15 +257,15 @@ class VARMALiNGAM:
 
         # X + lagged X
         X_joined = np.zeros(
-            (X.shape[0], X.shape[1] * (1 + from_lag + self._order[0] + self._order[1]))
+            (X.shape[0], X.shape[1] * (1 + from_lag + self._fitted_order[0] + self._fitted_order[1]))
         )
 
-        for p in range(1 + self._order[0]):
+        for p in range(1 + self._fitted_order[0]):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-        for q in range(self._order[1]):
-            pos = n_features * (1 + self._order[0]) + n_features * q
+        for q in range(self._fitted_order[1]):
+            pos = n_features * (1 + self._fitted_order[0]) + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
                 E[:, 0:n_features], q + 1, axis=0
             )
-- 
2.43.0


From c3f2ee05afb354501f894b1d67f3e3ad9589e54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:09 +0000
Subject: [PATCH 09/43] fix: VARMALiNGAM pruning must align errors and series

---
 lingam/varma_lingam.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index cf5e912..471026c 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -430,6 +430,9 @@ class VARMALiNGAM:
         """"""
         n_features = X.shape[1]
 
+        # errors are not available for the first samples if the coefficients are given
+        X = X[len(X) - len(ee) :]
+
         # join X(t), X(t-1) and e(t-1)
         X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + order[0] + order[1])))
         for p in range(1 + order[0]):
@@ -442,6 +445,9 @@ class VARMALiNGAM:
                 ee[:, 0:n_features], q + 1, axis=0
             )
 
+        # exclude samples whose past was taken from the end of the series
+        X_joined = X_joined[max(order) :]
+
         # pruned by adaptive lasso
         psi_omega = np.zeros((n_features, n_features * (1 + order[0] + order[1])))
         for i, target in enumerate(causal_order):
-- 
2.43.0


From 9702aee5c803ee0deefb04d7cb08072f17781df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:59 +0000
Subject: [PATCH 10/43] fix: VARMALiNGAM initial errors must follow
 random_state

---
 lingam/varma_lingam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 471026c..882259a 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -8,7 +8,7 @@ import warnings
 
 import numpy as np
 from sklearn.linear_model import LinearRegression
-from sklearn.utils import check_array, resample
+from sklearn.utils import check_array, check_random_state, resample
 from statsmodels.tsa.statespace.varmax import VARMAX
 
 from .base import _BaseLiNGAM
@@ -389,10 +389,12 @@ class VARMALiNGAM:
 
         start_index = max(p, q)
 
+        random_state = check_random_state(self._random_state)
+
         epsilon = np.zeros([n_features, n_samples])
         for t in range(n_samples):
             if t < start_index:
-                epsilon[:, t] = np.random.normal(size=(n_features))
+                epsilon[:, t] = random_state.normal(size=(n_features))
                 continue
 
             ar = np.zeros([n_features, 1])
-- 
2.43.0


From d8392d30f74dd2845ab482eb651022963ef1f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:11 +0000
Subject: [PATCH 11/43] fix: total effect of a lagged source must follow every
 path of the unrolled graph

---
 lingam/var_lingam.py   | 10 +++++++---
 lingam/varma_lingam.py | 15 +++++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 4905a6d..e1ec0d8 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -271,9 +271,13 @@ class VARLiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # from_index + parents indices
-        am = np.concatenate([*self._adjacency_matrices], axis=1)
-        am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
+        # adjacency matrix of the variables from time t to time t - from_lag
+        am = np.zeros((n_features * (1 + from_lag), n_features * (1 + from_lag)))
+        for i in range(1 + from_lag):
+            for lag, B in enumerate(self._adjacency_matrices[: 1 + from_lag - i]):
+                row = n_features * i
+                col = n_features * (i + lag)
+                am[row : row + n_features, col : col + n_features] = B
         from_index = (
             from_index if from_lag == 0 else from_index + (n_features * from_lag)
         )
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 882259a..ba0b891 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -316,13 +316,16 @@ class VARMALiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # concat psi and omega
+        # adjacency matrix of the variables from time t to time t - from_lag
         psi = self._adjacency_matrices[0]
-        am = np.concatenate([*psi], axis=1)
-        am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
-
-        # from_index + parents indices
-        from_index = from_index if from_lag == 0 else from_index + n_features
+        am = np.zeros((n_features * (1 + from_lag), n_features * (1 + from_lag)))
+        for i in range(1 + from_lag):
+            for lag, B in enumerate(psi[: 1 + from_lag - i]):
+                row = n_features * i
+                col = n_features * (i + lag)
+                am[row : row + n_features, col : col + n_features] = B
+
+        from_index = from_index + n_features * from_lag
 
         # Estimate total effect
         effect = calculate_total_effect(am, from_index, to_index)
-- 
2.43.0


From 2812ecc1e63a72168fc9ff2b486bc9a924e0e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:04 +0000
Subject: [PATCH 12/43] fix: estimated total effects must use the source's own
 lag and no wrapped-around samples

---
 lingam/var_lingam.py   |  3 +++
 lingam/varma_lingam.py | 26 +++++++++++++-------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index e1ec0d8..daba7f0 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -227,6 +227,9 @@ class VARLiNGAM:
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
+        # exclude samples whose past was taken from the end of the series
+        X_joined = X_joined[lags + from_lag :]
+
         # from_index + parents indices
         am = np.concatenate([*self._adjacency_matrices], axis=1)
         parents = np.where(np.abs(am[from_index]) > 0)[0]
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index ba0b891..d095fa0 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -255,19 +255,20 @@ class VARMALiNGAM:
                     f"is earlier than the source variable (from_index={from_index})."
                 )
 
-        # X + lagged X
-        X_joined = np.zeros(
-            (X.shape[0], X.shape[1] * (1 + from_lag + self._fitted_order[0] + self._fitted_order[1]))
-        )
+        # X and E from time t - from_lag (the time of the source variable)
+        n_ar, n_ma = self._fitted_order
+        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + n_ar + n_ma)))
 
-        for p in range(1 + self._fitted_order[0]):
+        for p in range(1 + n_ar):
             pos = n_features * p
-            X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
+            X_joined[:, pos : pos + n_features] = np.roll(
+                X[:, 0:n_features], from_lag + p, axis=0
+            )
 
-        for q in range(self._fitted_order[1]):
-            pos = n_features * (1 + self._fitted_order[0]) + n_features * q
+        for q in range(n_ma):
+            pos = n_features * (1 + n_ar) + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
-                E[:, 0:n_features], q + 1, axis=0
+                E[:, 0:n_features], from_lag + q + 1, axis=0
             )
 
         # concat psi and omega
@@ -277,14 +278,13 @@ class VARMALiNGAM:
 
         # from_index + parents indices
         parents = np.where(np.abs(am[from_index]) > 0)[0]
-        from_index = from_index if from_lag == 0 else from_index + n_features
-        parents = parents if from_lag == 0 else parents + n_features
         predictors = [from_index]
         predictors.extend(parents)
 
-        # Estimate total effect
+        # Estimate total effect, excluding samples whose past was taken from the end of the series
+        start = from_lag + max(n_ar, n_ma)
         lr = LinearRegression()
-        lr.fit(X_joined[:, predictors], X_joined[:, to_index])
+        lr.fit(X_joined[start:, predictors], X[start:, to_index])
 
         return lr.coef_[0]
 
-- 
2.43.0


From 22ebdd0a5611f532de0e8930bb4a6b95efa4ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:18 +0000
Subject: [PATCH 13/43] fix: MultiGroupRCD must report one total effect per
 group when the source is confounded

---
 lingam/multi_group_rcd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 3e1537a..13224ed 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -166,7 +166,8 @@ class MultiGroupRCD:
                     f"The estimated causal effect may be incorrect because "
                     f"the source variable (from_index={from_index}) is influenced by confounders."
                 )
-                return effects
+                effects.append(np.nan)
+                continue
 
             # from_index + parents indices
             parents = np.where(np.abs(am[from_index]) > 0)[0]
@@ -212,7 +213,8 @@ class MultiGroupRCD:
                     f"The estimated causal effect may be incorrect because "
                     f"the source variable (from_index={from_index}) is influenced by confounders."
                 )
-                return effects
+                effects.append(np.nan)
+                continue
 
             effect = calculate_total_effect(am, from_index, to_index)
             effects.append(effect)
-- 
2.43.0


From 4675a38d095d4f9c7e279fbb50bc804cb04c2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:54 +0000
Subject: [PATCH 14/43] fix: LiM.fit must not overwrite the loss type setting

---
 lingam/lim.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index e25e9db..e561f52 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -92,25 +92,26 @@ class LiM:
 
     def _estimate_LiM(self, X, dis_con, only_global, is_poisson):
         """Estimate the adjacency matrix btw. mixed variables"""
+        loss_type = self._loss_type
 
         def _loss(W):
             """Evaluate value and gradient of loss."""
             M = X @ W
-            if self._loss_type == "logistic":
+            if loss_type == "logistic":
                 loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
                 G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
-            elif self._loss_type == "poisson":
+            elif loss_type == "poisson":
                 loss = -np.sum(X.T @ M) + np.exp(M).sum()
                 for j in range(X.shape[0]):
                     for k in range(X.shape[1]):
                         loss += np.log(_factorial(X[j][k]))
                 loss = 1.0 / X.shape[0] * loss
                 G_loss = 1.0 / X.shape[0] * (-X.T @ X + X.T @ np.exp(M))
-            elif self._loss_type == "laplace":
+            elif loss_type == "laplace":
                 R = X - M
                 loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
                 G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
-            elif self._loss_type == "mixed":
+            elif loss_type == "mixed":
                 R = X - M
                 a1, a2 = 1, 1
                 loss_dis = (
@@ -129,7 +130,7 @@ class LiM:
                 G_dis = X.T @ (sigmoid(M) - X) * W_dis
                 G_con = -X.T @ np.tanh(R) * W_con
                 G_loss = 1.0 / X.shape[0] * (G_dis + G_con)
-            elif self._loss_type == "mixed_dag":
+            elif loss_type == "mixed_dag":
                 dag = nx.DiGraph(W)
                 lingam_data = np.transpose(X)
                 df = pd.DataFrame(X)
@@ -290,7 +291,7 @@ class LiM:
             for j in range(d)
         ]
 
-        # if self._loss_type == 'l2':
+        # if loss_type == 'l2':
         #     X = X - np.mean(X, axis=0, keepdims=True)
         for _ in range(self._max_iter):
             w_new, h_new = None, None
@@ -322,7 +323,7 @@ class LiM:
         print("W_est (without the 2nd phase) is: \n", W_est)
 
         if not only_global:
-            self._loss_type = "mixed_dag"
+            loss_type = "mixed_dag"
             aa, aaa = _loss(W_est)  # loss
             I = np.where(W_est != 0)
             # check directions
-- 
2.43.0


From aa2c52c4d08c2eb5560b84cde5d3aa8d44ff63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:24 +0000
Subject: [PATCH 15/43] fix: residuals of integer data must not be truncated

---
 lingam/camuv.py                     | 2 +-
 lingam/direct_lingam.py             | 2 +-
 lingam/multi_group_camuv.py         | 2 +-
 lingam/multi_group_direct_lingam.py | 2 +-
 lingam/multi_group_rcd.py           | 2 +-
 lingam/rcd.py                       | 2 +-
 lingam/utils/__init__.py            | 2 +-
 lingam/utils/_rcd.py                | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index 89a683f..9aac2ef 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -172,7 +172,7 @@ class CAMUV:
         d = X.shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y = copy.deepcopy(X)
+        Y = X.astype(float)
 
         while True:
             changed = False
diff --git a/lingam/direct_lingam.py b/lingam/direct_lingam.py
index 7987bcb..4306bd9 100644
--- a/lingam/direct_lingam.py
+++ b/lingam/direct_lingam.py
@@ -90,7 +90,7 @@ class DirectLiNGAM(_BaseLiNGAM):
         # Causal discovery
         U = np.arange(n_features)
         K = []
-        X_ = np.copy(X)
+        X_ = np.array(X, dtype=float)
         if self._measure == "kernel":
             X_ = scale(X_)
 
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index 5ae2d23..aa631d5 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -215,7 +215,7 @@ class MultiGroupCAMUV:
         d = X_list[0].shape[1]
         P = [set() for i in range(d)]  # Parents
         t = 2
-        Y_list = [copy.deepcopy(X) for X in X_list]
+        Y_list = [X.astype(float) for X in X_list]
 
         while True:
             changed = False
diff --git a/lingam/multi_group_direct_lingam.py b/lingam/multi_group_direct_lingam.py
index 89c1032..48116ea 100644
--- a/lingam/multi_group_direct_lingam.py
+++ b/lingam/multi_group_direct_lingam.py
@@ -80,7 +80,7 @@ class MultiGroupDirectLiNGAM(DirectLiNGAM):
         # Causal discovery
         U = np.arange(self._n_features)
         K = []
-        X_list_ = [np.copy(X) for X in X_list]
+        X_list_ = [np.array(X, dtype=float) for X in X_list]
         for _ in range(self._n_features):
             m = self._search_causal_order(X_list_, U)
             for i in U:
diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 13224ed..d9a5431 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -348,7 +348,7 @@ class MultiGroupRCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros(X.shape)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/rcd.py b/lingam/rcd.py
index c772d38..94fce9e 100644
--- a/lingam/rcd.py
+++ b/lingam/rcd.py
@@ -146,7 +146,7 @@ class RCD:
         if len(H_U) == 0:
             return X
 
-        Y = np.zeros_like(X)
+        Y = np.zeros(X.shape)
         for xj in U:
             Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
         return Y
diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 56fcfd2..131e4a5 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -206,7 +206,7 @@ def remove_effect(X, remove_features, return_coefs=False):
         The order of the coefficients in the list is the same
         as in remove_features. Only provided if return_coefs is True.
     """
-    X = np.copy(check_array(X))
+    X = np.array(check_array(X), dtype=float)
     coefs = {}
     features_ = [i for i in np.arange(X.shape[1]) if i not in remove_features]
     for feature in features_:
diff --git a/lingam/utils/_rcd.py b/lingam/utils/_rcd.py
index 0f221a7..6bee84d 100644
--- a/lingam/utils/_rcd.py
+++ b/lingam/utils/_rcd.py
@@ -127,7 +127,7 @@ def get_residual_matrix(X, U, H_U):
     if len(H_U) == 0:
         return X
 
-    Y = np.zeros_like(X)
+    Y = np.zeros(X.shape)
     for xj in U:
         Y[:, xj], _ = get_resid_and_coef(X, xj, list(H_U))
     return Y
-- 
2.43.0


From 5c7f968f40957c1c4ed2fadfdade68ac6d4a606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:31 +0000
Subject: [PATCH 16/43] fix: bottom-up search must regress a candidate sink on
 all remaining variables

---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index c41eced..bf005e1 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -249,7 +249,7 @@ class BottomUpParceLiNGAM:
         else:
             max_p_stat = np.inf
             for j in range(len(Uc)):
-                xi_index = np.setdiff1d(Uc, Uc[j])
+                xi_index = np.setdiff1d(U, Uc[j])
                 xj_index = np.array([Uc[j]])
 
                 # Compute residuals
-- 
2.43.0


From 2bee7f6b547e438c27f90c51b070428a329297c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:31 +0000
Subject: [PATCH 17/43] fix: bottom-up search must not accept an order when
 every p-value underflows

---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index bf005e1..dc506bf 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -262,7 +262,7 @@ class BottomUpParceLiNGAM:
                     )
 
                     # Update output
-                    if fisher_stat < max_p_stat:
+                    if len(exo_vec) == 0 or fisher_stat < max_p_stat:
                         exo_vec = xi_index
                         eval = fisher_p
                         max_p_stat = fisher_stat
-- 
2.43.0


From 89c76ee477f9fe2639e04261104d0373fec03f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:31 +0000
Subject: [PATCH 18/43] fix: MultiGroupRCD must use the largest F-correlation
 over the groups

---
 lingam/multi_group_rcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index d9a5431..bf42648 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -413,7 +413,7 @@ class MultiGroupRCD:
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
 
-            is_independent = f_corr < self._ind_corr
+            is_independent = max_f_corr < self._ind_corr
 
         return is_independent
 
-- 
2.43.0


From ad505b070fbc50cf3400fddf88cf7ebeba0f2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:01 +0000
Subject: [PATCH 19/43] fix: LongitudinalLiNGAM.bootstrap must work with more
 than one lag

---
 lingam/longitudinal_lingam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 1814e78..feffe3b 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -239,7 +239,8 @@ class LongitudinalLiNGAM:
             adjacency_matrices[i] = self._adjacency_matrices
 
             # Calculate total effects
-            for from_t in range(start_from_t, self._T):
+            # (there is no model for the time points before n_lags)
+            for from_t in range(max(start_from_t, self._n_lags), self._T):
                 for c, from_ in enumerate(self._causal_orders[from_t]):
                     to_t = from_t
                     for to in self._causal_orders[from_t][c + 1 :]:
-- 
2.43.0


From 171becd8e7a92da99a1e4d96f94d99d37ba8ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:01 +0000
Subject: [PATCH 20/43] fix: LongitudinalLiNGAM with prior knowledge must
 provide residuals

---
 lingam/longitudinal_lingam.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index feffe3b..ce980bb 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -185,6 +185,13 @@ class LongitudinalLiNGAM:
                 causal_order = causal_order - min(causal_order)
                 causal_orders.append(causal_order.tolist())
 
+            # residuals N(t), whose errors are (I - B(t,t))N(t)
+            X_t = X_t.reshape(self._T, self._p, self._n)
+            self._residuals = np.full((self._T, self._n, self._p), np.nan)
+            for t in range(self._n_lags, self._T):
+                e = X_t[t] - sum(adjs[t, lag] @ X_t[t - lag] for lag in range(n_taus))
+                self._residuals[t] = np.linalg.solve(np.eye(self._p) - adjs[t, 0], e).T
+
             self._adjacency_matrices = adjs
             self._causal_orders = causal_orders
 
-- 
2.43.0


From 0e302e06562537719c621419de89a21290fc05f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:29 +0000
Subject: [PATCH 21/43] fix: optimal intervention must not treat variables with
 cancelling coefficients as roots

---
 lingam/causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 70b08e2..0c9c710 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -223,7 +223,7 @@ class CausalEffect(object):
         En = Ex - np.dot(self._B, Ex)
 
         s = [i for i in range(X.shape[1]) if i != intervention_index]
-        root_vars = np.where(np.sum(self._B, axis=1) == 0)[0].tolist()
+        root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
         s = [i for i in s if i not in root_vars]
         alpha = np.zeros(self._B.shape[1])
 
-- 
2.43.0


From 6feb918946c2f9e23402e7dcf8e345bcabd5582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:28 +0000
Subject: [PATCH 22/43] fix: running an untrained simulator must raise the
 intended RuntimeError

---
 lingam/causal_based_simulator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index eb0bb68..5ba3789 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -26,6 +26,9 @@ class CausalBasedSimulator:
         Information about trained models.
     """
 
+    _impl = None
+    _train_result = None
+
     def train(self, X, causal_graph, cd_algo_name=None, models=None, is_discrete=None):
         """
         Estimate functional relations between variables and variable
-- 
2.43.0


From 5055501e245f99d66d6af97420bd62854430c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:28 +0000
Subject: [PATCH 23/43] fix: the simulator must use the validated exogenous
 data, lists included

---
 lingam/causal_based_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 5ba3789..7de17bd 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -224,7 +224,7 @@ class CausalBasedSimulator:
             if s.shape[0] != n_samples:
                 raise RuntimeError(f"Wrong length. ({s.shape[0]} != {n_samples})")
 
-            changing_exog_[var_name] = values
+            changing_exog_[var_name] = s
 
         return changing_exog_
 
@@ -393,7 +393,7 @@ class CausalBasedSimulator:
             if target_name not in changing_exog.keys():
                 error = train_result[target_name]["residual"]
             else:
-                error = changing_exog[target_name].ravel()
+                error = changing_exog[target_name]
 
             if shuffle_residual and error is not None:
                 error = error[shuffle_index]
-- 
2.43.0


From 10c211155dd08a01d6a08f6c1205e812d15c9ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:28 +0000
Subject: [PATCH 24/43] fix: the time series simulator must accept column
 labels that are not strings

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 7de17bd..8289414 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -747,7 +747,7 @@ class CBSITimeSeriesLiNGAM(CBSILiNGAM):
                 index_format = "[t]"
             else:
                 index_format = f"[t-{i}]"
-            endog_names += [name + index_format for name in endog_names_]
+            endog_names += [f"{name}{index_format}" for name in endog_names_]
 
         if is_discrete is None:
             is_discrete = [False for _ in range(n_features)]
-- 
2.43.0


From 3c26d8ad4049f6ebff46bdea9c18cf4317505c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:13 +0000
Subject: [PATCH 25/43] fix: a variable whose incoming coefficients cancel is
 not a root node

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 131e4a5..c72825f 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -1047,7 +1047,7 @@ def calculate_distance_from_root_nodes(adjacency_matrix, max_distance=None):
 
     # find root nodes
     root_indices = np.argwhere(
-        np.isclose(np.sum(adjacency_matrix, axis=1), 0) == True
+        np.all(np.isclose(adjacency_matrix, 0), axis=1)
     ).flatten()
     if len(root_indices) == 0:
         raise ValueError("adjacency_matrix has no root nodes.")
-- 
2.43.0


From 50c2e772f717ce9cb4dd03ca58dddc335974e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:13 +0000
Subject: [PATCH 26/43] fix: make_dot must accept array labels and wide
 matrices without labels

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index c72825f..b3a48de 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -340,7 +340,7 @@ def make_dot(
     d = graphviz.Digraph(engine="dot")
 
     # nodes
-    names = labels if labels else [f"x{i}" for i in range(len(B))]
+    names = labels if labels is not None else [f"x{i}" for i in range(B.shape[1])]
     for name in names:
         kwargs = {}
         if path is not None:
-- 
2.43.0


From 35d689ed2d8f98557f3553b498e93b589d19ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:13 +0000
Subject: [PATCH 27/43] fix: make_dot_highlight must highlight the nodes of the
 path

---
 lingam/utils/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index b3a48de..46733af 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -592,7 +592,6 @@ def make_dot_highlight(
             path_edges |= set(zip(path_, path_[1:]))
 
         path_nodes = np.unique([list(edge) for edge in path_edges])
-        path_nodes = [node_names[node] for node in path_nodes]
 
     # create graphviz graph
     graph_attr = {"rankdir": "TB", "splines": "true"}
@@ -666,7 +665,7 @@ def make_dot_highlight(
             for i, node in enumerate(nodes):
                 node_id = get_node_id(cls_name, node)
                 pos_x = hmargin * i + offset_x
-                kwargs = {}
+                kwargs = {"color": color}
                 if path is not None:
                     if node in path_nodes:
                         kwargs["fontcolor"] = path_color
@@ -677,7 +676,6 @@ def make_dot_highlight(
                     node_id,
                     node_names[node],
                     pos=f"{pos_x},{pos_y}!",
-                    color=color,
                     **kwargs,
                 )
                 node_ids[node].append((node_id, dist))
-- 
2.43.0


From 54b5ba455dd3301b988625b5a581496f17f5e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:13 +0000
Subject: [PATCH 28/43] fix: make_dot_highlight must draw an isolated target
 only once

---
 lingam/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/__init__.py b/lingam/utils/__init__.py
index 46733af..d80a5d1 100644
--- a/lingam/utils/__init__.py
+++ b/lingam/utils/__init__.py
@@ -555,7 +555,7 @@ def make_dot_highlight(
     # node indices
     dsc_indices = set(dsc_path_length.keys())
     anc_indices = set(anc_path_length.keys())
-    isolate_indices = set(nx.isolates(G))
+    isolate_indices = set(nx.isolates(G)) - set([node_index])
     other_indices = (
         set(np.arange(adj.shape[0]))
         - dsc_indices
-- 
2.43.0


From 1b9bb43dc55734520c54d82d4359afb5d142e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:13 +0000
Subject: [PATCH 29/43] fix: the nonlinear effect plot must use row positions
 for every replicate

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 3fb1266..6aa076a 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -117,11 +117,11 @@ def visualize_nonlinear_causal_effect(
         adj_matrices = cd_result.adjacency_matrices_
         index_list = cd_result.resampled_indices_
         if index_list is None:
-            index_list = [X.index]
+            index_list = [np.arange(len(X))] * len(adj_matrices)
         disable_percentile = False
     else:
         adj_matrices = [cd_result]
-        index_list = [X.index]
+        index_list = [np.arange(len(X))]
         disable_percentile = True
 
     effect_info = _calculate(
-- 
2.43.0


From ece916bb5ae94666ae244b8a4eeb9148fb3a6efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:13 +0000
Subject: [PATCH 30/43] fix: the nonlinear effect plot must adjust for parents
 whatever their coefficient

---
 lingam/utils/_visualize_nonlinear_causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/utils/_visualize_nonlinear_causal_effect.py b/lingam/utils/_visualize_nonlinear_causal_effect.py
index 6aa076a..71dd64f 100644
--- a/lingam/utils/_visualize_nonlinear_causal_effect.py
+++ b/lingam/utils/_visualize_nonlinear_causal_effect.py
@@ -201,7 +201,7 @@ def _calculate(
 
     for m, sub_index in zip(adj_matrices, index_list):
         # parents of cause except effect
-        covariate = np.where(m[cause_index, :] == 1)[0].tolist()
+        covariate = np.where(np.abs(m[cause_index, :]) > 0)[0].tolist()
         covariate = np.delete(covariate, np.argwhere(covariate == effect_index))
 
         # train
-- 
2.43.0


From 7fad35e58c687b43430cc800d64d9da69d95ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:59 +0000
Subject: [PATCH 31/43] fix: imputation results must not be lost when the
 imputer works in place

---
 lingam/tools/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/tools/__init__.py b/lingam/tools/__init__.py
index 06688ec..481fa7e 100644
--- a/lingam/tools/__init__.py
+++ b/lingam/tools/__init__.py
@@ -132,6 +132,7 @@ def bootstrap_with_imputation(
         # make a bootstrap sample
         resampled_index = random_state.choice(np.arange(X.shape[0]), replace=True, size=len(X))
         bootstrap_sample = X[resampled_index]
+        pos = np.isnan(bootstrap_sample)
 
         # send bootstrap_sample that has not been imputed yet
         cd_model.before_imputation(bootstrap_sample)
@@ -150,7 +151,6 @@ def bootstrap_with_imputation(
         # hold values only if NaN
         datasets = np.array(datasets)
         imputation_result = np.full(datasets.shape, np.nan)
-        pos = np.isnan(bootstrap_sample)
         imputation_result[:, pos] = datasets[:, pos]
 
         resampled_indices.append(resampled_index)
-- 
2.43.0


From 5b3f0f30c97150072496554938bbb00b0b64b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:59 +0000
Subject: [PATCH 32/43] fix: reject a causal discovery plug-in returning a
 wrong number of adjacency matrices

---
 lingam/tools/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lingam/tools/__init__.py b/lingam/tools/__init__.py
index 481fa7e..46ccbfe 100644
--- a/lingam/tools/__init__.py
+++ b/lingam/tools/__init__.py
@@ -282,6 +282,9 @@ def _check_cd_output(cd_output, n_repeats, n_features):
     if adjacency_matrices.shape[-2:] != (n_features, n_features):
         raise ValueError("The shape of elements of adjacency_matrices, the output of cd_model, must be (n_features, n_features)")
 
+    if adjacency_matrices.ndim > 2 and adjacency_matrices.shape[:-2] != (n_repeats,):
+        raise ValueError("The number of adjacency_matrices, the output of cd_model, must be equal to the number of imputed datasets.")
+
     return causal_order, adjacency_matrices
 
 
-- 
2.43.0


From 4573be11a9b56ff324cf9b17fb73054c07e63923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:56 +0000
Subject: [PATCH 33/43] fix: CAMUV with F-correlation must handle more than one
 explanatory variable

---
 lingam/camuv.py             | 2 +-
 lingam/multi_group_camuv.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/camuv.py b/lingam/camuv.py
index 9aac2ef..2fe508a 100644
--- a/lingam/camuv.py
+++ b/lingam/camuv.py
@@ -150,7 +150,7 @@ class CAMUV:
             _, value = hsic_test_gamma(X, Y)
             is_independent = value > threshold
         elif self._independence == "fcorr":
-            value = f_correlation(X, Y)
+            value = max(f_correlation(X, Y[:, [j]]) for j in range(Y.shape[1]))
             is_independent = value < threshold
         return is_independent, value
 
diff --git a/lingam/multi_group_camuv.py b/lingam/multi_group_camuv.py
index aa631d5..292d9f1 100644
--- a/lingam/multi_group_camuv.py
+++ b/lingam/multi_group_camuv.py
@@ -186,7 +186,7 @@ class MultiGroupCAMUV:
         elif self._independence == "fcorr":
             max_f_corr = 0.0
             for X, Y in zip(X_list, Y_list):
-                f_corr = f_correlation(X, Y)
+                f_corr = max(f_correlation(X, Y[:, [j]]) for j in range(Y.shape[1]))
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
             is_independent = max_f_corr < threshold
-- 
2.43.0


From 11af12245dd834f9b8828c7ab12badfee982d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:32 +0000
Subject: [PATCH 34/43] fix: CausalDataGenerator.generate must work without
 adjustments

---
 lingam/experimental/cdg.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index db4efbe..61ca41b 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -214,7 +214,10 @@ class CausalDataGenerator:
                 if self._X[self._cause].dtype == "category":
                     generated[self._cause] = pd.Categorical(generated[self._cause])
             else:
-                if self._X[self._cause].dtype != "category":
+                if self.model_cause_ is None:
+                    # cause has no adjustments: it consists of its error only
+                    pass
+                elif self._X[self._cause].dtype != "category":
                     predicted = self.model_cause_.predict(generated[self._adjustments])
                     generated[self._cause] += np.array(predicted)
                 else:
-- 
2.43.0


From f2967abdc0f2c5b9f0141b2ea996b707f586be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:32 +0000
Subject: [PATCH 35/43] fix: CausalDataGenerator.generate must keep rows and
 columns of the data

Columns that are neither cause, effect nor adjustment raised a KeyError, and
duplicated index labels multiplied the rows.
---
 lingam/experimental/cdg.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 61ca41b..77d058f 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -186,7 +186,7 @@ class CausalDataGenerator:
                 raise TypeError("effect_model shall be callable.")
 
         # initial data
-        generated = self._X[[self._cause, self._effect, *self._adjustments]].copy()
+        generated = self._X.copy()
 
         # update errors
         generated[self._cause] = self.error_cause_
@@ -273,9 +273,7 @@ class CausalDataGenerator:
                     generated[self._effect] = np.array(predicted)
                     generated[self._effect] = pd.Categorical(generated[self._effect])
 
-        generated_values = generated.loc[self._X.index, self._X.columns]
-
-        return generated_values
+        return generated
 
     def _is_sklearn_estimator(self, estimator, is_categorical):
         if is_categorical is True and is_regressor(estimator):
-- 
2.43.0


From b6301588f7d71800ba62b411458040a9699938df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:32 +0000
Subject: [PATCH 36/43] fix: CausalDataGenerator must not ignore interv_endog
 of an adjustment

---
 lingam/experimental/cdg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 77d058f..bb629f3 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -195,6 +195,9 @@ class CausalDataGenerator:
         # update interventions
         for name, interv_exog_ in interv_exog.items():
             generated[name] = interv_exog_
+        for name in self._adjustments:
+            if name in interv_endog.keys():
+                generated[name] = interv_endog[name]
 
         # cause
         if self._cause in interv_endog.keys():
-- 
2.43.0


From bf180020638e20c9587d55b9dfb0780d24b2f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:32 +0000
Subject: [PATCH 37/43] fix: OutOfSampleCausalTuning must reject configurations
 without model

---
 lingam/experimental/oct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/oct.py b/lingam/experimental/oct.py
index c26621e..b61ac0d 100644
--- a/lingam/experimental/oct.py
+++ b/lingam/experimental/oct.py
@@ -208,7 +208,7 @@ class OutOfSampleCausalTuning():
                 config_[key] = value
 
             # check
-            if config_["all_others"] is False and "model" not in config_.keys():
+            if config_["all_others"] is False and config_["model"] is None:
                 raise ValueError(f"model is not specified (config[{config_idx}])")
             elif config_["all_others"] is True:
                 config_["model"] = None
-- 
2.43.0


From 96a181b5c9f1ebbc329b8f9f106f6658efd12557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:07 +0000
Subject: [PATCH 38/43] fix: LiM must score count variables by their Poisson
 log-likelihood

The score added the negative log-likelihood of a regression without intercept
on the last parent only.
---
 lingam/lim.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index e561f52..ce3ed3e 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -10,6 +10,7 @@ import numpy as np
 import pandas as pd
 import scipy.optimize as sopt
 from scipy.special import expit as sigmoid
+from scipy.special import gammaln
 from sklearn.linear_model import (LinearRegression, LogisticRegression,
                                   PoissonRegressor)
 from sklearn.metrics import log_loss
@@ -198,20 +199,15 @@ class LiM:
                         total_score += likekihood_bernoulli
 
                     elif parents_i:
-                        # Count variable, likelihood using poisson regression model.
-                        for iii in range(len(parents_i)):
-                            X = lingam_data[parents_i[iii]]
-                            X = X.reshape(-1, 1)
-                            y = lingam_data[i]
-                            poisson = PoissonRegressor()
-                            poisson.fit(X, y)
-                            beta = poisson.coef_
-                            # compute likelihood
-                            likekihood_poisson = -np.sum(
-                                y * lingam_data[parents_i[iii]] * beta
-                            ) + np.sum(np.exp(lingam_data[parents_i[iii]] * beta))
-                            for j in range(len(y)):
-                                likekihood_poisson += np.log(_factorial(y[j]))
+                        # Count variable, log-likelihood using poisson regression model.
+                        X = df[parents_i]
+                        y = df[i]
+                        poisson = PoissonRegressor()
+                        poisson.fit(X, y)
+                        rate = poisson.predict(X)
+                        likekihood_poisson = np.sum(
+                            y * np.log(rate) - rate - gammaln(y + 1)
+                        )
                         total_score += likekihood_poisson
                         # # or we can compute likelihood via nn
                         # pnllloss = nn.PoissonNLLLoss()
-- 
2.43.0


From 0d57ba9e6ba332affa72282fa7199358e8b50831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:17 +0000
Subject: [PATCH 39/43] fix: HighDimDirectLiNGAM must take the minimum over all
 conditioning sets

_calc_taus returned from within the loop, so only the first conditioning set of
each step was tried and the order could be wrong although every in-degree was at
most J.
---
 lingam/high_dim_direct_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index 9630ceb..17b04aa 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -143,7 +143,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
                     - resid_k * (1.0 / n) * np.dot(resid.T, self._Y[:, an_sets[z, i]])
                 ret[an_sets[z, i]] = np.min([ret[an_sets[z, i]], abs(value)])
 
-            return ret
+        return ret
 
     def _get_prune_stats(self, i, j, K, last_root, condition_set, J):
         j = list(set(j) - {i})
-- 
2.43.0


From 250951f96f221a5914b39cf1436f37fbf23d3041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:11 +0000
Subject: [PATCH 40/43] fix: RESIT must test the residual against all
 predecessors before removing an edge

The residual without a parent was only tested against the remaining parents, so a
true parent that is independent of the other parents was always removed.
---
 lingam/resit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/resit.py b/lingam/resit.py
index f84be41..b886d42 100644
--- a/lingam/resit.py
+++ b/lingam/resit.py
@@ -129,8 +129,8 @@ class RESIT(_BaseLiNGAM):
                     continue
                 self._reg.fit(X[:, predictors], X[:, pi[k]])
                 residual = X[:, pi[k]] - self._reg.predict(X[:, predictors])
-                # Measure dependence between residuals and {Xi}
-                _, hsic_p = hsic_test_gamma(residual, X[:, predictors])
+                # Measure dependence between residuals and all predecessors
+                _, hsic_p = hsic_test_gamma(residual, X[:, pi[:k]])
                 # eliminate edge
                 if hsic_p > self._alpha:
                     pa[pi[k]].remove(l)
-- 
2.43.0


From b5293f40be783005722ff3b5df72d6d788e6ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:13 +0000
Subject: [PATCH 41/43] fix: RESIT must be able to remove the last remaining
 parent

A variable independent of all its predecessors always kept one spurious parent.
---
 lingam/resit.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lingam/resit.py b/lingam/resit.py
index b886d42..9e7b46c 100644
--- a/lingam/resit.py
+++ b/lingam/resit.py
@@ -124,11 +124,10 @@ class RESIT(_BaseLiNGAM):
             for l in parents:
                 # Regress Xk on {Xi}
                 predictors = [i for i in pa[pi[k]] if i != l]
-                # if len(predictors) <= 1:
-                if len(predictors) < 1:
-                    continue
-                self._reg.fit(X[:, predictors], X[:, pi[k]])
-                residual = X[:, pi[k]] - self._reg.predict(X[:, predictors])
+                residual = X[:, pi[k]]
+                if len(predictors) > 0:
+                    self._reg.fit(X[:, predictors], X[:, pi[k]])
+                    residual = residual - self._reg.predict(X[:, predictors])
                 # Measure dependence between residuals and all predecessors
                 _, hsic_p = hsic_test_gamma(residual, X[:, pi[:k]])
                 # eliminate edge
-- 
2.43.0


From 10dab96e2d2d5972111b01daf41b31fcc523a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:13 +0000
Subject: [PATCH 42/43] fix: HighDimDirectLiNGAM must not cap its statistics at
 1e5

The statistics grow with the sixth power of the unit of the data, so data in small
units (standard deviations of some tens) gave a meaningless order.
---
 lingam/high_dim_direct_lingam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index 17b04aa..e569936 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -74,7 +74,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
 
         psi = list(range(p))
 
-        prune_stats = np.full((p, p), 1e5)
+        prune_stats = np.full((p, p), np.inf)
         np.fill_diagonal(prune_stats, 0)
 
         while len(psi) > 1:
@@ -121,7 +121,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
     def _calc_taus(self, pa, ch, k, cond_sets, an_sets):
         n = self._Y.shape[0]
         ret = np.empty(self._Y.shape[1])
-        ret.fill(1e10)
+        ret.fill(np.inf)
 
         for z in range(len(cond_sets)):
             cond = cond_sets[z]
@@ -148,7 +148,7 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
     def _get_prune_stats(self, i, j, K, last_root, condition_set, J):
         j = list(set(j) - {i})
         p = self._Y.shape[1]
-        prune_stat = np.array([1e5 for _ in range(p)])
+        prune_stat = np.array([np.inf for _ in range(p)])
 
         if last_root is None:
             prune_stat[j] = [self._calc_tau(K, self._Y[:, i], self._Y[:, j_]) for j_ in j]
-- 
2.43.0


From b2cf17c7791a09eb64fe0372f3e8f6882f86df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:09 +0000
Subject: [PATCH 43/43] fix: MDLiNA must use the scales and weights of every
 domain, not of two

---
 lingam/lina.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lingam/lina.py b/lingam/lina.py
index 34d158f..c22a15c 100644
--- a/lingam/lina.py
+++ b/lingam/lina.py
@@ -297,10 +297,7 @@ class MDLiNA:
 
         F = np.zeros([f_est.shape[0], f_est.shape[1]])
         for j in range(f_est.shape[1]):
-            if j < self._no_of_latent_1domain:
-                F[:, j] = f_est[:, j] * scale[0, j]
-            else:
-                F[:, j] = f_est[:, j] * scale[1, j]
+            F[:, j] = f_est[:, j] * scale[j // self._no_of_latent_1domain, j]
 
         # optimize together
         W0 = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
@@ -362,7 +359,7 @@ class MDLiNA:
         BB = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
         for i in range(self._no_of_latent_1domain):
             for j in range(self._no_of_latent_1domain):
-                BB[j, i] = np.abs(Weight[j, i]) + np.abs(Weight[j + self._no_of_latent_1domain, i])
+                BB[j, i] = np.abs(Weight[j::self._no_of_latent_1domain, i]).sum()
         order = np.zeros([1, self._no_of_latent_1domain])
         if len(np.where(BB == 0)) == 0:
             for i in range(self._no_of_latent_1domain):
-- 
2.43.0

