From 547d146de414caebae58c169aef7cd632051d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:55 +0000
Subject: [PATCH 01/27] fix: a failed refit no longer exposes a new causal
 order with the old adjacency matrix (Direct, ICA, HighDim, MultiGroup)

---
 lingam/direct_lingam.py             | 2 ++
 lingam/high_dim_direct_lingam.py    | 5 ++++-
 lingam/ica_lingam.py                | 2 ++
 lingam/multi_group_direct_lingam.py | 8 ++++++--
 4 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lingam/direct_lingam.py b/lingam/direct_lingam.py
index 7987bcb..a1882ba 100644
--- a/lingam/direct_lingam.py
+++ b/lingam/direct_lingam.py
@@ -112,6 +112,8 @@ class DirectLiNGAM(_BaseLiNGAM):
                     self._partial_orders[:, 0] != m
                 ]
 
+        # discard the previous estimate so that results of two fits are never mixed
+        self._adjacency_matrix = None
         self._causal_order = K
         return self._estimate_adjacency_matrix(X, prior_knowledge=self._Aknw)
 
diff --git a/lingam/high_dim_direct_lingam.py b/lingam/high_dim_direct_lingam.py
index 2251888..82e982c 100644
--- a/lingam/high_dim_direct_lingam.py
+++ b/lingam/high_dim_direct_lingam.py
@@ -99,7 +99,10 @@ class HighDimDirectLiNGAM(DirectLiNGAM):
             theta.append(r)
             psi.remove(r)
 
-        self._causal_order = [*theta, *psi]
+        # discard the previous estimate so that results of two fits are never mixed
+        causal_order = [*theta, *psi]
+        self._adjacency_matrix = None
+        self._causal_order = causal_order
 
         if not self._estimate_adj_mat:
             return self
diff --git a/lingam/ica_lingam.py b/lingam/ica_lingam.py
index 5f8e49a..6f98b52 100644
--- a/lingam/ica_lingam.py
+++ b/lingam/ica_lingam.py
@@ -68,6 +68,8 @@ class ICALiNGAM(_BaseLiNGAM):
         B_estimate = np.eye(len(W_estimate)) - W_estimate
 
         causal_order = self._estimate_causal_order(B_estimate)
+        # discard the previous estimate so that results of two fits are never mixed
+        self._adjacency_matrix = None
         self._causal_order = causal_order
 
         return self._estimate_adjacency_matrix(X)
diff --git a/lingam/multi_group_direct_lingam.py b/lingam/multi_group_direct_lingam.py
index 89c1032..b0229a8 100644
--- a/lingam/multi_group_direct_lingam.py
+++ b/lingam/multi_group_direct_lingam.py
@@ -96,12 +96,16 @@ class MultiGroupDirectLiNGAM(DirectLiNGAM):
                     self._partial_orders[:, 0] != m
                 ]
 
+        # discard the previous estimates so that results of two fits are never mixed
+        self._adjacency_matrix = None
+        self._adjacency_matrices = None
         self._causal_order = K
 
-        self._adjacency_matrices = []
+        adjacency_matrices = []
         for X in X_list:
             self._estimate_adjacency_matrix(X, prior_knowledge=self._Aknw)
-            self._adjacency_matrices.append(self._adjacency_matrix)
+            adjacency_matrices.append(self._adjacency_matrix)
+        self._adjacency_matrices = adjacency_matrices
         return self
 
     def bootstrap(self, X_list, n_sampling):
-- 
2.43.0


From b82f028eadf49f295420c29744b27b6227cf70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:55 +0000
Subject: [PATCH 02/27] fix: BottomUpParceLiNGAM.fit resets the adjacency
 matrix it exposes

---
 lingam/bottom_up_parce_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index 8fdfa57..e499641 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -104,7 +104,7 @@ class BottomUpParceLiNGAM:
             Returns the instance itself.
         """
         self._causal_order = None
-        self._adjacency_matrices = None
+        self._adjacency_matrix = None
 
         # Check parameters
         X = check_array(X)
-- 
2.43.0


From a01ce3cdfc26ee9db7fc99e638f55650ca87feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:55 +0000
Subject: [PATCH 03/27] fix: a failed refit of RCD/MultiGroupRCD no longer
 mixes ancestors and adjacency of two fits

---
 lingam/multi_group_rcd.py | 9 +++++----
 lingam/rcd.py             | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 3e1537a..6b4fe23 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -119,12 +119,13 @@ class MultiGroupRCD:
         # Find the pairs of variables affected by the same latent confounders.
         C = self._extract_vars_sharing_confounders(X_list, P)
 
-        self._ancestors_list = M
-
-        self._adjacency_matrices = []
+        adjacency_matrices = []
         for X in X_list:
             adjacency_matrix = self._estimate_adjacency_matrix(X, P, C)
-            self._adjacency_matrices.append(adjacency_matrix)
+            adjacency_matrices.append(adjacency_matrix)
+
+        self._ancestors_list = M
+        self._adjacency_matrices = adjacency_matrices
 
         return self
 
diff --git a/lingam/rcd.py b/lingam/rcd.py
index c772d38..97a08cf 100644
--- a/lingam/rcd.py
+++ b/lingam/rcd.py
@@ -127,6 +127,8 @@ class RCD:
         # Find the pairs of variables affected by the same latent confounders.
         C = self._extract_vars_sharing_confounders(X, P)
 
+        # discard the previous estimate so that results of two fits are never mixed
+        self._adjacency_matrix = None
         self._ancestors_list = M
         return self._estimate_adjacency_matrix(X, P, C)
 
-- 
2.43.0


From dd4740ace3e4df7c584476923b7b5aef464d6cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:12 +0000
Subject: [PATCH 04/27] fix: LongitudinalLiNGAM publishes its results only when
 complete and rejects bad input without touching its state

---
 lingam/longitudinal_lingam.py | 57 +++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 8a697c9..bbe4c35 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -79,16 +79,21 @@ class LongitudinalLiNGAM:
         if len(X_list) < 2:
             raise ValueError("X_list must be a list containing at least two items")
 
-        self._T = len(X_list)
-        self._n = check_array(X_list[0]).shape[0]
-        self._p = check_array(X_list[0]).shape[1]
+        T = len(X_list)
+        n, p = check_array(X_list[0]).shape
         X_t = []
         for X in X_list:
             X = check_array(X)
-            if X.shape != (self._n, self._p):
+            if X.shape != (n, p):
                 raise ValueError("X_list must be a list with the same shape")
             X_t.append(X.T)
 
+        # discard the previous estimates so that results of two fits are never mixed
+        self._causal_orders = None
+        self._adjacency_matrices = None
+        self._residuals = None
+        self._T, self._n, self._p = T, n, p
+
         n_taus = self._n_lags + 1
 
         if self._Aknw is None:
@@ -97,19 +102,20 @@ class LongitudinalLiNGAM:
             B_tau = self._estimate_lagged_effects(B_t, M_tau)
 
             # output B(t,t), B(t,t-τ)
-            self._adjacency_matrices = np.empty(
-                (self._T, n_taus, self._p, self._p)
-            )
-            self._adjacency_matrices[:, :] = np.nan
+            adjacency_matrices = np.empty((self._T, n_taus, self._p, self._p))
+            adjacency_matrices[:, :] = np.nan
             for t in range(self._n_lags, self._T):
-                self._adjacency_matrices[t, 0] = B_t[t]
+                adjacency_matrices[t, 0] = B_t[t]
                 for l in range(self._n_lags):
                     if t - l != 0:
-                        self._adjacency_matrices[t, l + 1] = B_tau[t, l]
+                        adjacency_matrices[t, l + 1] = B_tau[t, l]
 
-            self._residuals = np.zeros((self._T, self._n, self._p))
+            residuals = np.zeros((self._T, self._n, self._p))
             for t in range(self._T):
-                self._residuals[t] = N_t[t].T
+                residuals[t] = N_t[t].T
+
+            self._adjacency_matrices = adjacency_matrices
+            self._residuals = residuals
             self._causal_orders = causal_orders
         else:
             if (self._T, n_taus, self._p, self._p) != self._Aknw.shape:
@@ -215,46 +221,45 @@ class LongitudinalLiNGAM:
         if len(X_list) < 2:
             raise ValueError("X_list must be a list containing at least two items")
 
-        self._T = len(X_list)
-        self._n = check_array(X_list[0]).shape[0]
-        self._p = check_array(X_list[0]).shape[1]
+        T = len(X_list)
+        n, p = check_array(X_list[0]).shape
         X_t = []
         for X in X_list:
             X = check_array(X)
-            if X.shape != (self._n, self._p):
+            if X.shape != (n, p):
                 raise ValueError("X_list must be a list with the same shape")
             X_t.append(X)
 
         # Bootstrapping
         adjacency_matrices = np.zeros(
-            (n_sampling, self._T, 1 + self._n_lags, self._p, self._p)
+            (n_sampling, T, 1 + self._n_lags, p, p)
         )
-        total_effects = np.zeros((n_sampling, self._T * self._p, self._T * self._p))
+        total_effects = np.zeros((n_sampling, T * p, T * p))
         for i in range(n_sampling):
-            resampled_X_t = np.empty((self._T, self._n, self._p))
-            indices = np.random.randint(0, self._n, size=(self._n,))
-            for t in range(self._T):
+            resampled_X_t = np.empty((T, n, p))
+            indices = np.random.randint(0, n, size=(n,))
+            for t in range(T):
                 resampled_X_t[t] = X_t[t][indices, :]
 
             self.fit(resampled_X_t)
             adjacency_matrices[i] = self._adjacency_matrices
 
             # Calculate total effects
-            for from_t in range(start_from_t, self._T):
+            for from_t in range(start_from_t, T):
                 for c, from_ in enumerate(self._causal_orders[from_t]):
                     to_t = from_t
                     for to in self._causal_orders[from_t][c + 1 :]:
                         total_effects[
-                            i, to_t * self._p + to, from_t * self._p + from_
+                            i, to_t * p + to, from_t * p + from_
                         ] = self.estimate_total_effect2(from_t, from_, to_t, to)
 
-                    for to_t in range(from_t + 1, self._T):
+                    for to_t in range(from_t + 1, T):
                         for to in self._causal_orders[to_t]:
                             total_effects[
-                                i, to_t * self._p + to, from_t * self._p + from_
+                                i, to_t * p + to, from_t * p + from_
                             ] = self.estimate_total_effect2(from_t, from_, to_t, to)
 
-        return LongitudinalBootstrapResult(self._T, adjacency_matrices, total_effects)
+        return LongitudinalBootstrapResult(T, adjacency_matrices, total_effects)
 
     def estimate_total_effect(self, X_t, from_t, from_index, to_t, to_index):
         """Estimate total effect using causal model.
-- 
2.43.0


From e6d2c735096206f40a5e01dd2b5fa223b890bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:32 +0000
Subject: [PATCH 05/27] fix: VARLiNGAM.fit no longer overwrites its own
 settings, and a failed bootstrap restores them

---
 lingam/var_lingam.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 6883b9b..461c774 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -105,8 +105,8 @@ class VARLiNGAM:
         if self._prune:
             B_taus = self._pruning(X, B_taus, model.causal_order_)
 
-        self._ar_coefs = M_taus
-        self._lags = lags
+        self._fitted_ar_coefs = M_taus
+        self._fitted_lags = lags
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -135,19 +135,23 @@ class VARLiNGAM:
         n_samples = X.shape[0]
         n_features = X.shape[1]
 
-        # store initial settings
-        ar_coefs = self._ar_coefs
         lags = self._lags
 
+        # the number of lags is not searched for while bootstrapping
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_sampling, n_samples, n_features, lags)
+        finally:
+            self._criterion = criterion
 
+    def _bootstrap(self, X, n_sampling, n_samples, n_features, lags):
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
+        fitted_ar_coefs = self._fitted_ar_coefs
 
         total_effects = np.zeros(
-            [n_sampling, n_features, n_features * (1 + self._lags)]
+            [n_sampling, n_features, n_features * (1 + self._fitted_lags)]
         )
 
         adjacency_matrices = []
@@ -166,10 +170,6 @@ class VARLiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j]
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._lags = lags
-
             self.fit(resampled_X)
             am = np.concatenate([*self._adjacency_matrices], axis=1)
             adjacency_matrices.append(am)
@@ -183,14 +183,12 @@ class VARLiNGAM:
                     )
 
                 # time t-tau
-                for lag in range(self._lags):
+                for lag in range(self._fitted_lags):
                     for from_ in range(n_features):
                         total_effects[
                             i, to, from_ + n_features * (lag + 1)
                         ] = self.estimate_total_effect2(n_features, from_, to, lag + 1)
 
-        self._criterion = criterion
-
         return VARBootstrapResult(adjacency_matrices, total_effects)
 
     def estimate_total_effect(self, X, from_index, to_index, from_lag=0):
@@ -226,8 +224,10 @@ class VARLiNGAM:
                 )
 
         # X + lagged X
-        X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + self._lags + from_lag)))
-        for p in range(1 + self._lags + from_lag):
+        X_joined = np.zeros(
+            (X.shape[0], X.shape[1] * (1 + self._fitted_lags + from_lag))
+        )
+        for p in range(1 + self._fitted_lags + from_lag):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-- 
2.43.0


From 1e67b220db59d59ba83f71e2cf2a35f1762ca3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:49 +0000
Subject: [PATCH 06/27] fix: VARMALiNGAM.fit no longer overwrites its own
 settings, and a failed bootstrap restores them

---
 lingam/varma_lingam.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 687700c..1c1fc0e 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -126,9 +126,9 @@ class VARMALiNGAM:
             ).T
             psis, omegas = self._pruning(X, ee, order, model.causal_order_)
 
-        self._ar_coefs = phis
-        self._ma_coefs = thetas
-        self._order = order
+        self._fitted_ar_coefs = phis
+        self._fitted_ma_coefs = thetas
+        self._fitted_order = order
         self._residuals = residuals
 
         self._causal_order = model.causal_order_
@@ -158,17 +158,19 @@ class VARMALiNGAM:
         n_features = X.shape[1]
         (p, q) = self._order
 
-        # store initial settings
-        ar_coefs = self._ar_coefs
-        ma_coefs = self._ma_coefs
-
+        # the order is not searched for while bootstrapping
         criterion = self._criterion
         self._criterion = None
+        try:
+            return self._bootstrap(X, n_sampling, n_samples, n_features, p, q)
+        finally:
+            self._criterion = criterion
 
+    def _bootstrap(self, X, n_sampling, n_samples, n_features, p, q):
         self.fit(X)
 
-        fitted_ar_coefs = self._ar_coefs
-        fitted_ma_coefs = self._ma_coefs
+        fitted_ar_coefs = self._fitted_ar_coefs
+        fitted_ma_coefs = self._fitted_ma_coefs
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
@@ -192,10 +194,6 @@ class VARMALiNGAM:
 
                 resampled_X[j, :] = ar + sampled_residuals[j] + ma
 
-            # restore initial settings
-            self._ar_coefs = ar_coefs
-            self._ma_coefs = ma_coefs
-
             self.fit(resampled_X)
 
             psi = self._adjacency_matrices[0]
@@ -218,9 +216,9 @@ class VARMALiNGAM:
                             self.estimate_total_effect2(n_features, from_, to, lag + 1)
                         )
 
-        self._criterion = criterion
-
-        return VARMABootstrapResult(adjacency_matrices, total_effects, self._order)
+        return VARMABootstrapResult(
+            adjacency_matrices, total_effects, self._fitted_order
+        )
 
     def estimate_total_effect(self, X, E, from_index, to_index, from_lag=0):
         """Estimate total effect using causal model.
@@ -259,15 +257,15 @@ class VARMALiNGAM:
 
         # X + lagged X
         X_joined = np.zeros(
-            (X.shape[0], X.shape[1] * (1 + from_lag + self._order[0] + self._order[1]))
+            (X.shape[0], X.shape[1] * (1 + from_lag + self._fitted_order[0] + self._fitted_order[1]))
         )
 
-        for p in range(1 + self._order[0]):
+        for p in range(1 + self._fitted_order[0]):
             pos = n_features * p
             X_joined[:, pos : pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
 
-        for q in range(self._order[1]):
-            pos = n_features * (1 + self._order[0]) + n_features * q
+        for q in range(self._fitted_order[1]):
+            pos = n_features * (1 + self._fitted_order[0]) + n_features * q
             X_joined[:, pos : pos + n_features] = np.roll(
                 E[:, 0:n_features], q + 1, axis=0
             )
-- 
2.43.0


From fb9ac43018f75617b8696084ea5bcf773ee5f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:49 +0000
Subject: [PATCH 07/27] fix: every VAR/VARMA bootstrap draw resamples the
 residuals of the fit to the given data, not of the previous draw

---
 lingam/var_lingam.py   | 3 ++-
 lingam/varma_lingam.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index 461c774..fa05386 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -149,6 +149,7 @@ class VARLiNGAM:
         self.fit(X)
 
         fitted_ar_coefs = self._fitted_ar_coefs
+        fitted_residuals = self._residuals
 
         total_effects = np.zeros(
             [n_sampling, n_features, n_features * (1 + self._fitted_lags)]
@@ -156,7 +157,7 @@ class VARLiNGAM:
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 1c1fc0e..2b7d2dc 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -171,12 +171,13 @@ class VARMALiNGAM:
 
         fitted_ar_coefs = self._fitted_ar_coefs
         fitted_ma_coefs = self._fitted_ma_coefs
+        fitted_residuals = self._residuals
 
         total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
 
         adjacency_matrices = []
         for i in range(n_sampling):
-            sampled_residuals = resample(self._residuals, n_samples=n_samples)
+            sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
 
             resampled_X = np.zeros((n_samples, n_features))
             for j in range(n_samples):
-- 
2.43.0


From be71868fb6907cb68528c841a6982d81930749d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:02 +0000
Subject: [PATCH 08/27] fix: LiM.fit no longer changes the loss used by later
 fits

---
 lingam/lim.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lingam/lim.py b/lingam/lim.py
index e25e9db..b28a5c5 100644
--- a/lingam/lim.py
+++ b/lingam/lim.py
@@ -93,24 +93,27 @@ class LiM:
     def _estimate_LiM(self, X, dis_con, only_global, is_poisson):
         """Estimate the adjacency matrix btw. mixed variables"""
 
+        # the second phase switches the loss of this fit only
+        loss_type = self._loss_type
+
         def _loss(W):
             """Evaluate value and gradient of loss."""
             M = X @ W
-            if self._loss_type == "logistic":
+            if loss_type == "logistic":
                 loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
                 G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
-            elif self._loss_type == "poisson":
+            elif loss_type == "poisson":
                 loss = -np.sum(X.T @ M) + np.exp(M).sum()
                 for j in range(X.shape[0]):
                     for k in range(X.shape[1]):
                         loss += np.log(_factorial(X[j][k]))
                 loss = 1.0 / X.shape[0] * loss
                 G_loss = 1.0 / X.shape[0] * (-X.T @ X + X.T @ np.exp(M))
-            elif self._loss_type == "laplace":
+            elif loss_type == "laplace":
                 R = X - M
                 loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
                 G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
-            elif self._loss_type == "mixed":
+            elif loss_type == "mixed":
                 R = X - M
                 a1, a2 = 1, 1
                 loss_dis = (
@@ -129,7 +132,7 @@ class LiM:
                 G_dis = X.T @ (sigmoid(M) - X) * W_dis
                 G_con = -X.T @ np.tanh(R) * W_con
                 G_loss = 1.0 / X.shape[0] * (G_dis + G_con)
-            elif self._loss_type == "mixed_dag":
+            elif loss_type == "mixed_dag":
                 dag = nx.DiGraph(W)
                 lingam_data = np.transpose(X)
                 df = pd.DataFrame(X)
@@ -322,7 +325,7 @@ class LiM:
         print("W_est (without the 2nd phase) is: \n", W_est)
 
         if not only_global:
-            self._loss_type = "mixed_dag"
+            loss_type = "mixed_dag"
             aa, aaa = _loss(W_est)  # loss
             I = np.where(W_est != 0)
             # check directions
-- 
2.43.0


From 318f62357a08e5566e65241c6f71a920e8ee5e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:02 +0000
Subject: [PATCH 09/27] fix: VARMALiNGAM.estimate_total_effect2 honours
 from_lag > 1 (bootstrap recorded lag-1 effects for every lag)

---
 lingam/varma_lingam.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index 2b7d2dc..ef01a9c 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -323,7 +323,9 @@ class VARMALiNGAM:
         am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
 
         # from_index + parents indices
-        from_index = from_index if from_lag == 0 else from_index + n_features
+        from_index = (
+            from_index if from_lag == 0 else from_index + (n_features * from_lag)
+        )
 
         # Estimate total effect
         effect = calculate_total_effect(am, from_index, to_index)
-- 
2.43.0


From e8cd5a705ff68c29d801ab2e961cc4b0680d4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:35 +0000
Subject: [PATCH 10/27] fix: CausalEffect is not marked as initialised before
 its causal order is known (concurrent first use)

---
 lingam/causal_effect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 70b08e2..47639b6 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -41,8 +41,8 @@ class CausalEffect(object):
             return
 
         if isinstance(self._causal_model, _BaseLiNGAM):
-            self._B = self._causal_model.adjacency_matrix_
             self._causal_order = self._causal_model.causal_order_
+            self._B = self._causal_model.adjacency_matrix_
             return
         elif type(self._causal_model) is np.ndarray or type(self._causal_model) is list:
             B = (
@@ -71,8 +71,8 @@ class CausalEffect(object):
                 mask = np.delete(np.arange(len(B_)), zero_rows[0], 0)
                 B_ = B_[mask][:, mask]
 
-            self._B = B
             self._causal_order = causal_order
+            self._B = B
             return
 
         else:
-- 
2.43.0


From e870acc61caba20fe12c6fbe9f4c210aa57d793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:35 +0000
Subject: [PATCH 11/27] fix: optimal intervention no longer takes a variable
 with cancelling coefficients for a root

---
 lingam/causal_effect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 47639b6..111d6d0 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -223,7 +223,7 @@ class CausalEffect(object):
         En = Ex - np.dot(self._B, Ex)
 
         s = [i for i in range(X.shape[1]) if i != intervention_index]
-        root_vars = np.where(np.sum(self._B, axis=1) == 0)[0].tolist()
+        root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
         s = [i for i in s if i not in root_vars]
         alpha = np.zeros(self._B.shape[1])
 
-- 
2.43.0


From 545fdcd5d4437ea9049b0bd0eea780bb9a352e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:35 +0000
Subject: [PATCH 12/27] fix: CausalBasedSimulator.run before train raises the
 intended RuntimeError

---
 lingam/causal_based_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index eb0bb68..b76bae5 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -26,6 +26,10 @@ class CausalBasedSimulator:
         Information about trained models.
     """
 
+    def __init__(self):
+        self._impl = None
+        self._train_result = None
+
     def train(self, X, causal_graph, cd_algo_name=None, models=None, is_discrete=None):
         """
         Estimate functional relations between variables and variable
-- 
2.43.0


From 62a09d9f7c010c60085a8298aba742612fb78f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:35 +0000
Subject: [PATCH 13/27] fix: CausalBasedSimulator keeps its own copy of the
 training data

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index b76bae5..2e11b27 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -515,7 +515,7 @@ class CBSILiNGAM(CBSImpl):
     """ Class for data handling for ICALiNGAM and DirectLiNGAM. """
 
     def __init__(self, X, causal_graph, is_discrete=None):
-        X_ = check_array(X)
+        X_ = check_array(X, copy=True)
 
         n_samples, n_features = X_.shape
 
-- 
2.43.0


From 1bb883c9555bea431496fc36ae3423076a25d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:51 +0000
Subject: [PATCH 14/27] fix: bootstrap_with_imputation reports the imputed
 values even when imputer or model work in place

---
 lingam/tools/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lingam/tools/__init__.py b/lingam/tools/__init__.py
index 06688ec..cda5ae2 100644
--- a/lingam/tools/__init__.py
+++ b/lingam/tools/__init__.py
@@ -132,6 +132,7 @@ def bootstrap_with_imputation(
         # make a bootstrap sample
         resampled_index = random_state.choice(np.arange(X.shape[0]), replace=True, size=len(X))
         bootstrap_sample = X[resampled_index]
+        pos = np.isnan(bootstrap_sample)
 
         # send bootstrap_sample that has not been imputed yet
         cd_model.before_imputation(bootstrap_sample)
@@ -142,17 +143,15 @@ def bootstrap_with_imputation(
 
         n_repeats_impl = len(datasets)
 
+        # store imputation results
+        # hold values only if NaN
+        imputation_result = np.full((n_repeats_impl, n_samples, n_features), np.nan)
+        imputation_result[:, pos] = np.array(datasets)[:, pos]
+
         # run causal discovery assuming a common causal structure
         result = cd_model.fit(datasets)
         causal_order, adjacency_matrices = _check_cd_output(result, n_repeats_impl, n_features)
 
-        # store imputation results
-        # hold values only if NaN
-        datasets = np.array(datasets)
-        imputation_result = np.full(datasets.shape, np.nan)
-        pos = np.isnan(bootstrap_sample)
-        imputation_result[:, pos] = datasets[:, pos]
-
         resampled_indices.append(resampled_index)
         causal_orders.append(causal_order)
         adj_matrices_list.append(adjacency_matrices)
-- 
2.43.0


From cc78dc18a532e4fa94be7f44e8cb4ce3fe3f8cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:51 +0000
Subject: [PATCH 15/27] fix: bootstrap_with_imputation keeps its own copy of
 each result the model hands back

---
 lingam/tools/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/tools/__init__.py b/lingam/tools/__init__.py
index cda5ae2..ccacf07 100644
--- a/lingam/tools/__init__.py
+++ b/lingam/tools/__init__.py
@@ -263,7 +263,7 @@ def _check_cd_output(cd_output, n_repeats, n_features):
     causal_order, adjacency_matrices = cd_output
 
     try:
-        causal_order = check_array(causal_order, ensure_2d=False)
+        causal_order = check_array(causal_order, ensure_2d=False, copy=True)
     except Exception as e:
         raise ValueError("causal_order, the output of cd_model, violates its specification: " + str(e))
 
@@ -274,7 +274,7 @@ def _check_cd_output(cd_output, n_repeats, n_features):
         raise ValueError("Elements of causal_order, the output of cd_model, must be unique and must be indicates a column number.")
 
     try:
-        adjacency_matrices = check_array(adjacency_matrices, allow_nd=True)
+        adjacency_matrices = check_array(adjacency_matrices, allow_nd=True, copy=True)
     except Exception as e:
         raise ValueError("adjacency_matrices, the output of cd_model, violates its specification: " + str(e))
 
-- 
2.43.0


From 1e14738d86dd7033307b9d89493a2af4d6d39309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:58 +0000
Subject: [PATCH 16/27] fix: CausalDataGenerator.generate works for a cause
 without adjustments

---
 lingam/experimental/cdg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index db4efbe..627ed17 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -213,7 +213,7 @@ class CausalDataGenerator:
                 generated[self._cause] = predicted
                 if self._X[self._cause].dtype == "category":
                     generated[self._cause] = pd.Categorical(generated[self._cause])
-            else:
+            elif self.model_cause_ is not None:
                 if self._X[self._cause].dtype != "category":
                     predicted = self.model_cause_.predict(generated[self._adjustments])
                     generated[self._cause] += np.array(predicted)
-- 
2.43.0


From 73e3508ab10b583d2dcab089e6f14f3bc3545660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:58 +0000
Subject: [PATCH 17/27] fix: CausalDataGenerator.generate no longer multiplies
 rows when row labels repeat

---
 lingam/experimental/cdg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 627ed17..a3959d8 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -270,7 +270,7 @@ class CausalDataGenerator:
                     generated[self._effect] = np.array(predicted)
                     generated[self._effect] = pd.Categorical(generated[self._effect])
 
-        generated_values = generated.loc[self._X.index, self._X.columns]
+        generated_values = generated[self._X.columns]
 
         return generated_values
 
-- 
2.43.0


From cb0f1425be8aa9b99c149d1a4cad2e0fcac88280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:04 +0000
Subject: [PATCH 18/27] fix: OutOfSampleCausalTuning evaluates all
 configurations on the same folds

---
 lingam/experimental/oct.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lingam/experimental/oct.py b/lingam/experimental/oct.py
index c26621e..dedcd75 100644
--- a/lingam/experimental/oct.py
+++ b/lingam/experimental/oct.py
@@ -104,6 +104,9 @@ class OutOfSampleCausalTuning():
         )
         rs = check_random_state(self.random_state)
 
+        # evaluate all configs on the same folds
+        splits = list(cv.split(data))
+
         scores = []
         mb_sizes = []
         config_infos = []
@@ -113,7 +116,7 @@ class OutOfSampleCausalTuning():
             config_info = []
 
             # make model set
-            for cv_idx, (train, test) in enumerate(cv.split(data)):
+            for cv_idx, (train, test) in enumerate(splits):
                 train_data = data[train]
                 test_data = data[test]
 
-- 
2.43.0


From 3663a1e9f499d429890fe96b1a00c02967effd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:16 +0000
Subject: [PATCH 19/27] fix: CausalDataGenerator fits clones, so that reusing
 an estimator object does not change a fitted generator

---
 lingam/experimental/cdg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index a3959d8..8421bd6 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -1,7 +1,7 @@
 import numpy as np
 import pandas as pd
 
-from sklearn.base import is_regressor, is_classifier
+from sklearn.base import clone, is_regressor, is_classifier
 from sklearn.utils import check_array, check_random_state
 from sklearn.preprocessing import OneHotEncoder
 from sklearn.compose import ColumnTransformer
@@ -297,6 +297,7 @@ class CausalDataGenerator:
     def _make_model(self, X, y, name, model=None):
         if model is not None:
             try:
+                model = clone(model)
                 model.fit(X, y)
             except Exception as e:
                 raise RuntimeError(f"{name}.fit(): {str(e)}")
-- 
2.43.0


From fd463faf1909fa5e5c9b17775526c3470189b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:16 +0000
Subject: [PATCH 20/27] fix: CausalDataGenerator.generate no longer ignores
 interv_endog for adjustments

---
 lingam/experimental/cdg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lingam/experimental/cdg.py b/lingam/experimental/cdg.py
index 8421bd6..3e0db29 100644
--- a/lingam/experimental/cdg.py
+++ b/lingam/experimental/cdg.py
@@ -195,6 +195,9 @@ class CausalDataGenerator:
         # update interventions
         for name, interv_exog_ in interv_exog.items():
             generated[name] = interv_exog_
+        for name in self._adjustments:
+            if name in interv_endog.keys():
+                generated[name] = interv_endog[name]
 
         # cause
         if self._cause in interv_endog.keys():
-- 
2.43.0


From efac36d5f2d0d382ba1242712d166dd3c10fde63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:34 +0000
Subject: [PATCH 21/27] fix: keep copies of arrays given as settings

LongitudinalLiNGAM (prior_knowledge), VARLiNGAM and VARMALiNGAM (ar_coefs,
ma_coefs) and CausalEffect (causal_model) kept the caller's array itself, so
that reusing the buffer after construction silently changed later fits and
answers. The other estimators copy.
---
 lingam/causal_effect.py       | 6 +-----
 lingam/longitudinal_lingam.py | 4 +++-
 lingam/var_lingam.py          | 2 +-
 lingam/varma_lingam.py        | 4 ++--
 4 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/lingam/causal_effect.py b/lingam/causal_effect.py
index 111d6d0..4bdd6dc 100644
--- a/lingam/causal_effect.py
+++ b/lingam/causal_effect.py
@@ -45,11 +45,7 @@ class CausalEffect(object):
             self._B = self._causal_model.adjacency_matrix_
             return
         elif type(self._causal_model) is np.ndarray or type(self._causal_model) is list:
-            B = (
-                self._causal_model
-                if type(self._causal_model) is np.ndarray
-                else np.array(self._causal_model)
-            )
+            B = np.array(self._causal_model)
             if len(B.shape) != 2:
                 raise ValueError("Specified 'causal_model' is not matrix")
             if B.shape[0] != B.shape[1]:
diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index bbe4c35..34e4962 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -52,7 +52,9 @@ class LongitudinalLiNGAM:
         self._adjacency_matrices = None
 
         if prior_knowledge is not None:
-            prior_knowledge = check_array(prior_knowledge, ensure_2d=False, allow_nd=True)
+            prior_knowledge = check_array(
+                prior_knowledge, ensure_2d=False, allow_nd=True, copy=True
+            )
             if len(prior_knowledge.shape) != 4:
                 raise ValueError("prior_knowledge must be 4D.")
         self._Aknw = prior_knowledge
diff --git a/lingam/var_lingam.py b/lingam/var_lingam.py
index fa05386..eabefb2 100644
--- a/lingam/var_lingam.py
+++ b/lingam/var_lingam.py
@@ -59,7 +59,7 @@ class VARLiNGAM:
         self._criterion = criterion
         self._prune = prune
         self._ar_coefs = (
-            check_array(ar_coefs, allow_nd=True) if ar_coefs is not None else None
+            check_array(ar_coefs, allow_nd=True, copy=True) if ar_coefs is not None else None
         )
         self._lingam_model = lingam_model
         self._random_state = random_state
diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index ef01a9c..e847148 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -68,10 +68,10 @@ class VARMALiNGAM:
         self._prune = prune
         self._max_iter = max_iter
         self._ar_coefs = (
-            check_array(ar_coefs, allow_nd=True) if ar_coefs is not None else None
+            check_array(ar_coefs, allow_nd=True, copy=True) if ar_coefs is not None else None
         )
         self._ma_coefs = (
-            check_array(ma_coefs, allow_nd=True) if ma_coefs is not None else None
+            check_array(ma_coefs, allow_nd=True, copy=True) if ma_coefs is not None else None
         )
         self._lingam_model = lingam_model
         self._random_state = random_state
-- 
2.43.0


From 934340c3dcd6300508668defaab7014d0e81e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:41 +0000
Subject: [PATCH 22/27] fix: CausalBasedSimulator.run accepts exogenous data
 that is not an ndarray

---
 lingam/causal_based_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 2e11b27..00ca122 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -225,7 +225,7 @@ class CausalBasedSimulator:
             if s.shape[0] != n_samples:
                 raise RuntimeError(f"Wrong length. ({s.shape[0]} != {n_samples})")
 
-            changing_exog_[var_name] = values
+            changing_exog_[var_name] = s
 
         return changing_exog_
 
-- 
2.43.0


From 881974df4a0707dc467e1fb837b7c05ca89efe71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:36 +0000
Subject: [PATCH 23/27] fix: LongitudinalLiNGAM exposes lagged effects in the
 documented order B(t,t-1), ..., B(t,t-n_lags)

---
 lingam/longitudinal_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/longitudinal_lingam.py b/lingam/longitudinal_lingam.py
index 34e4962..4ab904d 100644
--- a/lingam/longitudinal_lingam.py
+++ b/lingam/longitudinal_lingam.py
@@ -176,7 +176,6 @@ class LongitudinalLiNGAM:
                 for lag in range(n_taus):
                     adjs[t, lag] = adj[t, t - lag]
             adjs[:self._n_lags] = np.nan
-            adjs[:, 1:] = adjs[:, 1:][:, ::-1]
 
             # make causal_orders
             causal_orders = []
@@ -417,7 +416,8 @@ class LongitudinalLiNGAM:
         X_t = np.array(X_t)
 
         for t in range(self._n_lags, self._T):
-            X = np.vstack(X_t[t - self._n_lags:t])
+            # most recent time point first: X(t-1), ..., X(t-n_lags)
+            X = np.vstack(X_t[t - self._n_lags:t][::-1])
             y = X_t[t]
 
             reg = LinearRegression()
-- 
2.43.0


From 0f67f20a491bcb66c8880361fb49dfe064a63e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:36 +0000
Subject: [PATCH 24/27] fix: VARMALiNGAM omega applies the inverse of (I -
 psi0) instead of passing it as output buffer

---
 lingam/varma_lingam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lingam/varma_lingam.py b/lingam/varma_lingam.py
index e847148..8a1640e 100644
--- a/lingam/varma_lingam.py
+++ b/lingam/varma_lingam.py
@@ -420,10 +420,12 @@ class VARMALiNGAM:
 
         omegas = []
         for j in range(order[1]):
-            omega = np.dot(
-                np.eye(psi0.shape[0]) - psi0,
-                thetas[j],
-                np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
+            omega = np.linalg.multi_dot(
+                [
+                    np.eye(psi0.shape[0]) - psi0,
+                    thetas[j],
+                    np.linalg.inv(np.eye(psi0.shape[0]) - psi0),
+                ]
             )
             omegas.append(omega)
 
-- 
2.43.0


From 5872329361f883d5a016b7bc42efee0b2de1580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:41 +0000
Subject: [PATCH 25/27] fix: changed coefficients of a discrete variable work
 with discrete and continuous parents mixed

---
 lingam/causal_based_simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lingam/causal_based_simulator.py b/lingam/causal_based_simulator.py
index 00ca122..502ff9b 100644
--- a/lingam/causal_based_simulator.py
+++ b/lingam/causal_based_simulator.py
@@ -786,6 +786,8 @@ class _LogisticRegression():
     def predict(self, X):
         if len(self._coef) == 0:
             return np.zeros((len(X), 1))
+        # a mixture of discrete and continuous parents may come as objects
+        X = np.asarray(X, dtype=float)
         return expit((self._coef @ X.T).T) >= 0.5
 
     @property
-- 
2.43.0


From bdf6ef58997778a657a19ab063310bead78be530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:27 +0000
Subject: [PATCH 26/27] fix: MultiGroupRCD requires independence in every group
 with fcorr

_is_independent computed the largest F-correlation over the groups but
compared the one of the last group with the limit.
---
 lingam/multi_group_rcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lingam/multi_group_rcd.py b/lingam/multi_group_rcd.py
index 6b4fe23..bff4d84 100644
--- a/lingam/multi_group_rcd.py
+++ b/lingam/multi_group_rcd.py
@@ -412,7 +412,7 @@ class MultiGroupRCD:
                 if f_corr > max_f_corr:
                     max_f_corr = f_corr
 
-            is_independent = f_corr < self._ind_corr
+            is_independent = max_f_corr < self._ind_corr
 
         return is_independent
 
-- 
2.43.0


From a333ea6f657f7b628bc37eb2b37713df08d4cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:57 +0000
Subject: [PATCH 27/27] fix: BottomUpParceLiNGAM rejects when every p-value is
 0

With all Fisher statistics infinite no candidate was chosen, the p-value
stayed infinite and every variable was put in the order as determined.
---
 lingam/bottom_up_parce_lingam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lingam/bottom_up_parce_lingam.py b/lingam/bottom_up_parce_lingam.py
index e499641..4a0ab09 100644
--- a/lingam/bottom_up_parce_lingam.py
+++ b/lingam/bottom_up_parce_lingam.py
@@ -257,8 +257,8 @@ class BottomUpParceLiNGAM:
                         X[:, xi_index], R, max_p_stat
                     )
 
-                    # Update output
-                    if fisher_stat < max_p_stat:
+                    # Update output (the statistic is infinite if a p-value is 0)
+                    if j == 0 or fisher_stat < max_p_stat:
                         exo_vec = xi_index
                         eval = fisher_p
                         max_p_stat = fisher_stat
-- 
2.43.0

