From ab4f8da99385100e8c70693505f296f8b0ce5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 01/24] fix: warn when a fit uses up its iterations without
 converging

---
 src/reor/archetypal_analysis.py     | 8 ++++----
 src/reor/fembv.py                   | 8 ++++----
 src/reor/gpnh_convex_coding.py      | 8 ++++----
 src/reor/gpnh_convex_coding_crom.py | 5 +++++
 src/reor/mtd_convex_coding.py       | 8 ++++----
 5 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 67f1750..db63cd8 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -667,6 +667,10 @@ class KernelAA():
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached.' %
+                              self.max_iterations, UserWarning)
 
         return new_cost, n_iter
 
@@ -726,10 +730,6 @@ class KernelAA():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
-            warnings.warn('Maximum number of iterations %d reached.' %
-                          self.max_iterations, UserWarning)
-
         return cost, n_iter
 
     def fit_transform(self, kernel, dictionary=None, weights=None, **kwargs):
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 1d42197..dc1d1ff 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -300,6 +300,10 @@ class FEMBV():
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached.' %
+                              self.max_iterations, UserWarning)
 
         return new_cost, n_iter
 
@@ -328,10 +332,6 @@ class FEMBV():
         cost, n_iter = self._iterate(update_parameters=update_parameters,
                                      update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
-            warnings.warn('Maximum number of iterations %d reached.' %
-                          self.max_iterations, UserWarning)
-
         return cost, n_iter
 
     def fit_transform(self, data, parameters=None, weights=None, **kwargs):
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 84490e5..d0c6edb 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -548,6 +548,10 @@ class GPNHConvexCoding():
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached.' %
+                              self.max_iterations, UserWarning)
 
         return new_cost, n_iter
 
@@ -603,10 +607,6 @@ class GPNHConvexCoding():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
-            warnings.warn('Maximum number of iterations %d reached.' %
-                          self.max_iterations, UserWarning)
-
         return cost, n_iter
 
     def fit_transform(self, data, dictionary=None, weights=None, **kwargs):
diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index f4fde05..ade3d22 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -5,6 +5,7 @@ Provides routines for cluster-based model order reduction.
 
 from collections import deque
 import time
+import warnings
 import numpy as np
 
 from reor.gpnh_convex_coding import GPNHConvexCoding
@@ -323,6 +324,10 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached.' %
+                              self.max_iterations, UserWarning)
 
     def fit_transform(self, data, **kwargs):
         """Fit convex coding and return transformed data.
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 78d7d81..0742cd6 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -752,6 +752,10 @@ class MTDConvexCoding():
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached.' %
+                              self.max_iterations, UserWarning)
 
         return new_cost, n_iter
 
@@ -831,10 +835,6 @@ class MTDConvexCoding():
             update_weights=update_weights,
             update_parameters=update_parameters)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
-            warnings.warn('Maximum number of iterations %d reached.' %
-                          self.max_iterations, UserWarning)
-
         return cost, n_iter
 
     def fit_transform(self, data, dictionary=None, weights=None, **kwargs):
-- 
2.43.0


From 451a428db88077cb49ef5c87c4feeff6fe6bfeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 02/24] fix: KMeansMarkovCROM.predict, fit_predict and
 fit_transform, and n_clusters=None

---
 src/reor/crom.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 38dac8b..5eed8cf 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -38,6 +38,9 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
         Fitted Markov transition matrix.
     """
 
+    if n_clusters is None:
+        n_clusters = 2
+
     kmeans = KMeans(n_clusters=n_clusters, **kwargs).fit(
         X, sample_weight=sample_weight)
 
@@ -150,7 +153,7 @@ class KMeansMarkovCROM():
             Array of labels for each sample
         """
 
-        return self.kmeans_.fit_predict(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).labels_
 
     def fit_transform(self, X, sample_weight=None):
         """Perform model reduction and transform data to cluster-distance space.
@@ -170,7 +173,7 @@ class KMeansMarkovCROM():
             Array of distances of each sample to the cluster centroids.
         """
 
-        return self.kmeans_.fit_transform(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).transform(X)
 
     def predict(self, X, sample_weight=None, horizon=0):
         """Predict cluster assignment of each sample for the given horizon.
@@ -202,9 +205,9 @@ class KMeansMarkovCROM():
         """
 
         # Get cluster assignments at the current time-step
-        initial_labels = self.kmeans_.predict(X, sample_weight=sample_weight)
+        initial_labels = self.kmeans_.predict(X)
 
-        n_clusters = self.n_clusters
+        n_clusters = self.cluster_centers_.shape[0]
         n_samples = initial_labels.size
 
         labels = np.zeros((n_samples, n_clusters), dtype='f8')
-- 
2.43.0


From 1af8a47d7a38dad68c12868879d84b32c8411d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 03/24] fix: clusters without members or without outgoing
 transitions no longer give NaN

---
 src/reor/crom.py         |  6 +++++-
 src/reor/fembv_kmeans.py | 11 ++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 5eed8cf..ab92344 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -58,7 +58,11 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
             Tk = np.array(labels == k, dtype='i8')
             n_jk = (Tj[1:] * Tk[:-1]).sum()
             n_k = Tk[:-1].sum()
-            transition_matrix[j, k] = n_jk / n_k
+            if n_k > 0:
+                transition_matrix[j, k] = n_jk / n_k
+            else:
+                # No transition out of this cluster has been observed
+                transition_matrix[j, k] = 1.0 / n_clusters
 
     return kmeans, transition_matrix
 
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 5c2f978..89ef017 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -165,8 +165,13 @@ class FEMBVKMeans(FEMBV):
     def _update_parameters(self):
         """Update k-means cluster assignments."""
 
-        self.Theta = np.dot(self.Gamma.T, self.X)
-        normalizations = np.sum(self.Gamma, axis=0)
-        self.Theta = self.Theta / normalizations[:, np.newaxis]
+        normalizations = np.sum(self.Gamma, axis=0)[:, np.newaxis]
+        is_empty = normalizations <= 0
+
+        # Components without members keep their current centroid
+        self.Theta = np.where(
+            is_empty, self.Theta,
+            np.dot(self.Gamma.T, self.X) /
+            np.where(is_empty, 1.0, normalizations))
 
         self._evaluate_distance_matrix()
-- 
2.43.0


From f379a81c13c2135dcd4481d079332fd5ca679ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 04/24] fix: options of the dictionary initialisation no longer
 break the other initialisers

---
 src/reor/archetypal_analysis.py | 2 +-
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index db63cd8..e22c9bf 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -112,7 +112,7 @@ def _initialize_kernel_aa_dictionary(kernel, n_components, init='furthest_sum',
 
 
 def _initialize_kernel_aa_weights(kernel, n_components, init='furthest_sum',
-                                  random_state=None):
+                                  random_state=None, **unused_kwargs):
     if init is None:
         init = 'furthest_sum'
 
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index d0c6edb..ce064f0 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -112,7 +112,7 @@ def _initialize_gpnh_convex_coding_dictionary(data, n_components, init='random',
 
 
 def _initialize_gpnh_convex_coding_weights(data, n_components, init='random',
-                                           random_state=None):
+                                           random_state=None, **unused_kwargs):
     if init is None:
         init = 'random'
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 0742cd6..7cb2583 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -140,7 +140,7 @@ def _initialize_mtd_convex_coding_dictionary(data, n_components, init='random',
 
 
 def _initialize_mtd_convex_coding_weights(data, n_components, init='random',
-                                          random_state=None):
+                                          random_state=None, **unused_kwargs):
     if init is None:
         init = 'random'
 
@@ -155,7 +155,7 @@ def _initialize_mtd_convex_coding_weights(data, n_components, init='random',
 
 def _initialize_mtd_convex_coding_parameters(data, n_components,
                                              init='random', order=1,
-                                             random_state=None):
+                                             random_state=None, **unused_kwargs):
     if init is None:
         init = 'random'
 
-- 
2.43.0


From ba4f19d560d6006830d1258c0b2ad4ba5c6933a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 05/24] fix: models fitted with init='custom' can transform and
 predict

---
 src/reor/archetypal_analysis.py | 6 ++++--
 src/reor/gpnh_convex_coding.py  | 6 ++++--
 src/reor/mtd_convex_coding.py   | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index e22c9bf..b12c74e 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -698,7 +698,8 @@ class KernelAA():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        if self.init == 'custom' and (update_dictionary or
+                                      weights is not None):
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
@@ -707,7 +708,8 @@ class KernelAA():
             _check_init_dictionary(dictionary, (self.n_components, n_samples),
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
-                kernel, self.n_components, init=self.init,
+                kernel, self.n_components,
+                init=(None if self.init == 'custom' else self.init),
                 random_state=self.random_state, **kwargs)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index ce064f0..e9e4c0c 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -575,7 +575,8 @@ class GPNHConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        if self.init == 'custom' and (update_dictionary or
+                                      weights is not None):
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
@@ -584,7 +585,8 @@ class GPNHConvexCoding():
             _check_init_dictionary(dictionary, (self.n_components, n_features),
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
-                data, self.n_components, init=self.init,
+                data, self.n_components,
+                init=(None if self.init == 'custom' else self.init),
                 random_state=self.random_state, **kwargs)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 7cb2583..3d25b89 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -781,7 +781,8 @@ class MTDConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
-        if self.init == 'custom':
+        if self.init == 'custom' and (update_dictionary or update_parameters or
+                                      weights is not None):
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_mtd_convex_coding (input weights)')
             _check_init_dictionary(dictionary, (self.n_components, n_features),
@@ -806,7 +807,8 @@ class MTDConvexCoding():
                                     '_mtd_convex_coding (input weights)')
             else:
                 weights = _initialize_mtd_convex_coding_weights(
-                    data, self.n_components, init=self.init,
+                    data, self.n_components,
+                    init=(None if self.init == 'custom' else self.init),
                     random_state=self.random_state, **kwargs)
 
             if not update_parameters:
-- 
2.43.0


From af8db2ae47180ac456c4bb2376de7629fdba2d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:56 +0000
Subject: [PATCH 06/24] fix: ClusterPWVARX accepts a single endogenous variable
 as a column

---
 src/reor/pwvarx.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 91867f3..ea42d8f 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -190,14 +190,9 @@ class ClusterPWVARX():
             Representation of the data.
         """
 
-        if endog.ndim == 1:
-            n_endog = 1
-        else:
-            n_endog = endog.shape[1]
-
         presample_length = max(self.p, self.s)
 
-        if n_endog == 1:
+        if endog.ndim == 1:
             y = np.expand_dims(endog[presample_length:], -1)
         else:
             y = endog[presample_length:]
-- 
2.43.0


From 91352c47de5d2328512b53860238270d2b9d7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:56 +0000
Subject: [PATCH 07/24] fix: ClusterPWVARX honours its documented options,
 random_state included

---
 src/reor/pwvarx.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index ea42d8f..dabb8f3 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -45,7 +45,8 @@ class ClusterPWVARX():
     """
 
     def __init__(self, n_components, p, s=0, include_trend=True,
-                 clusterer=None, classifier=None, **kwargs):
+                 clusterer=None, classifier=None, max_iterations=500,
+                 tolerance=1e-4, verbose=0, random_state=None, **kwargs):
 
         self.n_components = n_components
         self.p = p
@@ -53,6 +54,10 @@ class ClusterPWVARX():
         self.include_trend = include_trend
         self.clusterer = clusterer
         self.classifier = classifier
+        self.max_iterations = max_iterations
+        self.tolerance = tolerance
+        self.verbose = verbose
+        self.random_state = random_state
 
         self.mu = None
         self.A = None
@@ -103,7 +108,10 @@ class ClusterPWVARX():
         z = np.hstack([x, y])
 
         if self.clusterer is None:
-            self.clusterer = KMeans(n_clusters=self.n_components)
+            self.clusterer = KMeans(
+                n_clusters=self.n_components, max_iter=self.max_iterations,
+                tol=self.tolerance, verbose=self.verbose,
+                random_state=self.random_state)
 
         self.cluster_labels_ = self.clusterer.fit_predict(z)
 
-- 
2.43.0


From f2cf7f156c8d06e7491342288fe6bbbd23a4abaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:56 +0000
Subject: [PATCH 08/24] fix: refits reset coefficients that do not apply any
 more

---
 src/reor/fembv_varx.py | 5 +++++
 src/reor/pwvarx.py     | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index aa97aba..2f2b73e 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -323,9 +323,14 @@ class FEMBVVARX(FEMBV):
             self.A = np.zeros((self.n_components, presample_length,
                                n_features, n_features),
                               dtype=self.X.dtype)
+        else:
+            self.A = None
+
         if self.u is not None:
             self.B0 = np.zeros((self.n_components, n_features, n_external),
                                dtype=self.X.dtype)
+        else:
+            self.B0 = None
 
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index dabb8f3..9025d81 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -119,6 +119,10 @@ class ClusterPWVARX():
 
         n_endog = y.shape[1]
 
+        self.mu = None
+        self.A = None
+        self.B = None
+
         if self.include_trend:
             self.mu = np.zeros((self.n_components, n_endog))
 
-- 
2.43.0


From af9a0bf007402f51b6b573a1080e17fa73ddf937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 09/24] fix: FEMBVVARX components with different memories use
 the same time window

---
 src/reor/fembv_varx.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 2f2b73e..e3977ae 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -285,14 +285,13 @@ class FEMBVVARX(FEMBV):
         self.B0 = None
 
     def _evaluate_distance_matrix(self):
-        presample_length = np.max(self.memory)
         for i in range(self.n_components):
             metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
-                self.models[i].residuals[presample_length:],
+                self.models[i].residuals[self.memory[i]:],
                 metric,
-                self.models[i].residuals[presample_length:])
+                self.models[i].residuals[self.memory[i]:])
 
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
@@ -335,7 +334,9 @@ class FEMBVVARX(FEMBV):
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
             p=self.memory[i],
-            u=self.u, s=0)
+            u=(None if self.u is None else
+               self.u[presample_length - self.memory[i]:]),
+            s=0)
             for i in range(self.n_components)]
 
         # Initialize models by performing unweighted fits to
-- 
2.43.0


From 680dd076d5402a4235ff928a72a9c585db71d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:40 +0000
Subject: [PATCH 10/24] fix: keep the previous FEM-BV weights whenever the
 solver has no solution

---
 src/reor/fembv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index dc1d1ff..a267030 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -230,7 +230,7 @@ class FEMBV():
 
         problem.solve(**self.weights_solver_kwargs)
 
-        if problem.status in ['infeasible', 'unbounded']:
+        if problem.status not in ['optimal', 'optimal_inaccurate']:
             warnings.warn('Updating weights failed', UserWarning)
         else:
             sol = problem.variables()[0].value
-- 
2.43.0


From fe35e4d9fe2f615981d6600531a46d275107564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:13 +0000
Subject: [PATCH 11/24] fix: reject custom stochastic factors with negative
 entries

---
 src/reor/_validation.py         | 6 ++++++
 src/reor/archetypal_analysis.py | 5 ++++-
 src/reor/fembv.py               | 4 +++-
 src/reor/gpnh_convex_coding.py  | 4 +++-
 src/reor/mtd_convex_coding.py   | 6 +++++-
 5 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/reor/_validation.py b/src/reor/_validation.py
index f5f7177..81d351f 100644
--- a/src/reor/_validation.py
+++ b/src/reor/_validation.py
@@ -15,6 +15,12 @@ def _check_unit_axis_sums(A, whom, axis=0):
             % (whom, axis))
 
 
+def _check_non_negative(A, whom):
+    if np.any(np.asarray(A) < 0):
+        raise ValueError(
+            'Array with negative entries passed to %s.' % whom)
+
+
 def _check_array_shape(A, shape, whom):
     if A.shape != shape:
         raise ValueError(
diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index b12c74e..03d6178 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -18,7 +18,8 @@ from reor.furthest_sum import furthest_sum
 from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_check_array_shape, _check_non_negative,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -30,12 +31,14 @@ def _check_init_weights(weights, shape, whom):
     weights = check_array(weights)
     _check_array_shape(weights, shape, whom)
     _check_unit_axis_sums(weights, whom, axis=1)
+    _check_non_negative(weights, whom)
 
 
 def _check_init_dictionary(dictionary, shape, whom):
     dictionary = check_array(dictionary)
     _check_array_shape(dictionary, shape, whom)
     _check_unit_axis_sums(dictionary, whom, axis=1)
+    _check_non_negative(dictionary, whom)
 
 
 def _initialize_kernel_aa_dictionary_random(
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index a267030..b0c7078 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -15,7 +15,8 @@ import cvxpy as cp
 from sklearn.utils import check_array, check_random_state
 
 from reor._random_matrix import right_stochastic_matrix
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_check_array_shape, _check_non_negative,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -25,6 +26,7 @@ def _check_init_weights(weights, shape, whom):
     weights = check_array(weights)
     _check_array_shape(weights, shape, whom)
     _check_unit_axis_sums(weights, whom, axis=1)
+    _check_non_negative(weights, whom)
 
 
 def _initialize_fembv_weights_random(n_samples, n_components, random_state=None):
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index e9e4c0c..3a97af1 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -16,7 +16,8 @@ from reor.furthest_sum import furthest_sum
 from reor._random_matrix import right_stochastic_matrix
 from reor.simplex_projection import simplex_project_rows
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_check_array_shape, _check_non_negative,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -28,6 +29,7 @@ def _check_init_weights(weights, shape, whom):
     weights = check_array(weights)
     _check_array_shape(weights, shape, whom)
     _check_unit_axis_sums(weights, whom, axis=1)
+    _check_non_negative(weights, whom)
 
 
 def _check_init_dictionary(dictionary, shape, whom):
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 3d25b89..b7ed08e 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -18,7 +18,8 @@ from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_rows,
                                      simplex_project_vector)
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
-from reor._validation import _check_unit_axis_sums, _check_array_shape
+from reor._validation import (_check_array_shape, _check_non_negative,
+                              _check_unit_axis_sums)
 
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
@@ -30,6 +31,7 @@ def _check_init_weights(weights, shape, whom):
     weights = check_array(weights)
     _check_array_shape(weights, shape, whom)
     _check_unit_axis_sums(weights, whom, axis=1)
+    _check_non_negative(weights, whom)
 
 
 def _check_init_dictionary(dictionary, shape, whom):
@@ -40,11 +42,13 @@ def _check_init_dictionary(dictionary, shape, whom):
 def _check_init_order_weights(order_weights, shape, whom):
     _check_array_shape(order_weights, shape, whom)
     _check_unit_axis_sums(order_weights, whom, axis=0)
+    _check_non_negative(order_weights, whom)
 
 
 def _check_init_transition_matrices(transition_matrices, shape, whom):
     _check_array_shape(transition_matrices, shape, whom)
     _check_unit_axis_sums(transition_matrices, whom, axis=1)
+    _check_non_negative(transition_matrices, whom)
 
 
 def _initialize_mtd_convex_coding_dictionary_random(data, n_components,
-- 
2.43.0


From 7ca5d092cb799b987d230b62a5f280938e4c0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:40 +0000
Subject: [PATCH 12/24] fix: FEM-BV models honour the init option and custom
 parameters

---
 src/reor/fembv.py      | 10 ++++++++
 src/reor/fembv_varx.py | 53 ++++++++++++++++++++++++++++++++++++++----
 2 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index b0c7078..0b2decf 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -21,6 +21,8 @@ from reor._validation import (_check_array_shape, _check_non_negative,
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
 
+INITIALIZATION_METHODS = (None, 'random', 'custom')
+
 
 def _check_init_weights(weights, shape, whom):
     weights = check_array(weights)
@@ -328,6 +330,14 @@ class FEMBV():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
+        if init is None:
+            init = self.init
+
+        if init not in INITIALIZATION_METHODS:
+            raise ValueError(
+                'Invalid init parameter: got %r instead of one of %r' %
+                (init, INITIALIZATION_METHODS))
+
         self._initialize(data, parameters=parameters, weights=weights,
                          init=init, **kwargs)
 
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index e3977ae..89c9093 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -89,6 +89,29 @@ class FEMBVVARXLocalLinearModel():
 
         self.residuals = np.zeros_like(self._y)
 
+    def set_parameters(self, mu, A=None, B0=None):
+        """Use the given coefficients instead of fitting them."""
+        if self.s > 0:
+            raise NotImplementedError(
+                'Lagged exogeneous factors are not supported')
+
+        presample_length = self.p
+
+        self.mu = mu.copy()
+        params = [self.mu[np.newaxis, :]]
+
+        if self.p > 0:
+            self.A = A.copy()
+            for i in range(self.p):
+                params.append(self.A[i].T)
+
+        if self._u is not None:
+            self.B0 = B0.copy()
+            params.append(self.B0.T)
+
+        self.residuals[presample_length:] = (
+            self._y[presample_length:] - np.dot(self._z, np.vstack(params)))
+
     def fit(self, weights=None):
         n_samples, n_features = self._y.shape
 
@@ -286,13 +309,30 @@ class FEMBVVARX(FEMBV):
 
     def _evaluate_distance_matrix(self):
         for i in range(self.n_components):
-            metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
+            metric = np.eye(self.models[i].Sigma_u.shape[0])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
                 self.models[i].residuals[self.memory[i]:],
                 metric,
                 self.models[i].residuals[self.memory[i]:])
 
+    def _set_parameters(self, parameters):
+        """Use given component parameters."""
+
+        for key in ('mu', 'A', 'B0'):
+            expected = getattr(self, key)
+            if expected is not None:
+                _check_array_shape(
+                    np.asarray(parameters[key]), expected.shape,
+                    '_set_parameters (input %s)' % key)
+                setattr(self, key, np.array(parameters[key], dtype='f8'))
+
+        for i in range(self.n_components):
+            self.models[i].set_parameters(
+                self.mu[i],
+                A=(self.A[i, :self.memory[i]] if self.memory[i] > 0 else None),
+                B0=(self.B0[i] if self.u is not None else None))
+
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
@@ -339,10 +379,13 @@ class FEMBVVARX(FEMBV):
             s=0)
             for i in range(self.n_components)]
 
-        # Initialize models by performing unweighted fits to
-        # given data
-        for i in range(self.n_components):
-            self.models[i].fit()
+        if init == 'custom' and parameters is not None:
+            self._set_parameters(parameters)
+        else:
+            # Initialize models by performing unweighted fits to
+            # given data
+            for i in range(self.n_components):
+                self.models[i].fit()
 
         self.distance_matrix = np.empty(
             (n_samples - presample_length, self.n_components),
-- 
2.43.0


From 42be06889338dd29847ef2b3198a84a2895fad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:26 +0000
Subject: [PATCH 13/24] fix: FEM-BV transform applies the learned parameters
 instead of new ones

---
 src/reor/fembv.py        | 11 ++++++++---
 src/reor/fembv_kmeans.py |  4 ++++
 src/reor/fembv_varx.py   |  6 ++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 0b2decf..d12a7e7 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -193,6 +193,10 @@ class FEMBV():
         """Generate initial guess for component parameters."""
         raise NotImplementedError()
 
+    def _get_parameters(self):
+        """Return the component parameters of the last fit."""
+        raise NotImplementedError()
+
     def _initialize(self, data, parameters=None, weights=None, init=None,
                     **kwargs):
         """Generate initial guess for parameters and weights."""
@@ -392,7 +396,7 @@ class FEMBV():
         self.fit_transform(data, **kwargs)
         return self
 
-    def transform(self, data):
+    def transform(self, data, **kwargs):
         """Transform data according to the fitted factorization.
 
         Parameters
@@ -406,7 +410,8 @@ class FEMBV():
             Representation of the data.
         """
 
-        self._fembv_fit(data=data, update_parameters=False,
-                        update_weights=True)
+        self._fembv_fit(data=data, parameters=self._get_parameters(),
+                        init='custom', update_parameters=False,
+                        update_weights=True, **kwargs)
 
         return self.Gamma
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 89ef017..8d28668 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -140,6 +140,10 @@ class FEMBVKMeans(FEMBV):
                 self.X - np.broadcast_to(self.Theta[j], self.X.shape),
                 axis=1) ** 2
 
+    def _get_parameters(self):
+        """Return the centroids of the last fit."""
+        return self.Theta
+
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 89c9093..0984204 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -316,6 +316,12 @@ class FEMBVVARX(FEMBV):
                 metric,
                 self.models[i].residuals[self.memory[i]:])
 
+    def _get_parameters(self):
+        """Return the component parameters of the last fit."""
+        if self.models is None:
+            return None
+        return {'mu': self.mu, 'A': self.A, 'B0': self.B0}
+
     def _set_parameters(self, parameters):
         """Use given component parameters."""
 
-- 
2.43.0


From 1ebcfbb557415dd7e892cb631ebe4d8654c769a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:26 +0000
Subject: [PATCH 14/24] fix: max_tv_norm defaults to None as documented

---
 src/reor/fembv.py        | 2 +-
 src/reor/fembv_kmeans.py | 2 +-
 src/reor/fembv_varx.py   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index d12a7e7..d4d4fe5 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -46,7 +46,7 @@ def _initialize_fembv_weights(n_samples, n_components, unused_init='random',
 class FEMBV():
     """Base class for FEM-BV clustering algorithms."""
 
-    def __init__(self, n_components, max_tv_norm, init='random',
+    def __init__(self, n_components, max_tv_norm=None, init='random',
                  max_iterations=500,
                  tolerance=1e-4, verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 8d28668..bf41c63 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -122,7 +122,7 @@ class FEMBVKMeans(FEMBV):
     Sci. 7, 2 (2012), 175 - 229
     """
 
-    def __init__(self, n_components, max_tv_norm, init='random',
+    def __init__(self, n_components, max_tv_norm=None, init='random',
                  max_iterations=500, tolerance=1e-4, verbose=0,
                  random_state=None, **kwargs):
         super().__init__(n_components=n_components, max_tv_norm=max_tv_norm,
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 0984204..20bdeee 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -270,8 +270,8 @@ class FEMBVVARX(FEMBV):
     Sci. 7, 2 (2012), 175 - 229
     """
 
-    def __init__(self, n_components, max_tv_norm, memory=None, init='random',
-                 max_iterations=500, tolerance=1e-4, verbose=0,
+    def __init__(self, n_components, max_tv_norm=None, memory=None,
+                 init='random', max_iterations=500, tolerance=1e-4, verbose=0,
                  random_state=None, **kwargs):
         super().__init__(n_components=n_components, max_tv_norm=max_tv_norm,
                          init=init, max_iterations=max_iterations,
-- 
2.43.0


From b20df61ebf9235b609d4c3c920b22fbb421de6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:57 +0000
Subject: [PATCH 15/24] fix: validate lags, accept lists of lags and
 n_components=None in the lagged models

---
 src/reor/gpnh_convex_coding_crom.py | 15 +++++++++++----
 src/reor/mtd_convex_coding.py       |  4 ++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index ade3d22..619e084 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -8,7 +8,7 @@ import time
 import warnings
 import numpy as np
 
-from reor.gpnh_convex_coding import GPNHConvexCoding
+from reor.gpnh_convex_coding import GPNHConvexCoding, INTEGER_TYPES
 from reor._random_matrix import left_stochastic_matrix
 from reor.simplex_projection import (simplex_project_columns,
                                      simplex_project_vector)
@@ -78,12 +78,15 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         if lags is None:
             self.lags = np.array([1], dtype='i8')
         else:
-            self.lags = lags
+            for lag in lags:
+                if not isinstance(lag, INTEGER_TYPES) or lag < 1:
+                    raise ValueError('Lag must be a positive integer; '
+                                     'got (lag=%r)' % lag)
+            self.lags = np.array(lags, dtype='i8')
 
         n_lags = self.lags.size
         self.order_weights = np.empty((n_lags,), dtype='f8')
-        self.transition_matrices = np.empty(
-            (n_lags, n_components, n_components), dtype='f8')
+        self.transition_matrices = None
         self.Z = None
 
         self.order_weights_old = None
@@ -351,6 +354,10 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
             Representation of the data.
         """
 
+        if data.shape[0] <= self.lags.max():
+            raise ValueError('Number of samples must exceed the largest lag; '
+                             'got %d samples' % data.shape[0])
+
         super().fit_transform(data, **kwargs)
         self._fit_parameters()
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index b7ed08e..8db2619 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -772,6 +772,10 @@ class MTDConvexCoding():
         n_samples, n_features = data.shape
         n_lags = self.lags.size
 
+        if n_samples <= self.lags.max():
+            raise ValueError('Number of samples must exceed the largest lag; '
+                             'got %d samples' % n_samples)
+
         if self.n_components is None:
             self.n_components = n_features
 
-- 
2.43.0


From eb703c9ab4e8ae793bf0b305060f711d7a39aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:02 +0000
Subject: [PATCH 16/24] fix: n_components=None is resolved anew by every fit

---
 src/reor/archetypal_analysis.py | 3 ++-
 src/reor/fembv.py               | 3 ++-
 src/reor/gpnh_convex_coding.py  | 3 ++-
 src/reor/mtd_convex_coding.py   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 03d6178..6e58194 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -220,6 +220,7 @@ class KernelAA():
 
     def __init__(self, n_components, **kwargs):
         self.n_components = n_components
+        self._use_all_components = n_components is None
         self.delta = kwargs.get('delta', 0.0)
         self.init = kwargs.get('init', None)
         self.tolerance = kwargs.get('tolerance', 1e-4)
@@ -688,7 +689,7 @@ class KernelAA():
                 'Expected square kernel matrix in %s. '
                 'Got shape %s' % ('kernel_aa', kernel.shape))
 
-        if self.n_components is None:
+        if self._use_all_components:
             self.n_components = n_samples
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index d4d4fe5..53597de 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -50,6 +50,7 @@ class FEMBV():
                  max_iterations=500,
                  tolerance=1e-4, verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
+        self._use_all_components = n_components is None
         self.max_tv_norm = max_tv_norm
         self.init = init
         self.max_iterations = max_iterations
@@ -321,7 +322,7 @@ class FEMBV():
 
         n_samples, n_features = data.shape
 
-        if self.n_components is None:
+        if self._use_all_components:
             self.n_components = n_features
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 3a97af1..e4e3fc0 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -219,6 +219,7 @@ class GPNHConvexCoding():
                  tolerance=1e-6, max_iterations=1000,
                  verbose=0, random_state=None, **kwargs):
         self.n_components = n_components
+        self._use_all_components = n_components is None
         self.epsilon_states = epsilon_states
         self.init = init
         self.tolerance = tolerance
@@ -564,7 +565,7 @@ class GPNHConvexCoding():
 
         n_samples, n_features = data.shape
 
-        if self.n_components is None:
+        if self._use_all_components:
             self.n_components = n_features
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 8db2619..993f3c1 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -199,6 +199,7 @@ class MTDConvexCoding():
                  verbose=0, random_state=None, **kwargs):
 
         self.n_components = n_components
+        self._use_all_components = n_components is None
 
         if lags is not None:
             for lag in lags:
@@ -776,7 +777,7 @@ class MTDConvexCoding():
             raise ValueError('Number of samples must exceed the largest lag; '
                              'got %d samples' % n_samples)
 
-        if self.n_components is None:
+        if self._use_all_components:
             self.n_components = n_features
 
         if not isinstance(self.n_components, INTEGER_TYPES) or self.n_components <= 0:
-- 
2.43.0


From a9041141b090b7b6e1a69113a7531361560a9f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:02 +0000
Subject: [PATCH 17/24] fix: documentation of the archetypal analysis options

---
 src/reor/archetypal_analysis.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 6e58194..57e3e4d 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -175,7 +175,7 @@ class KernelAA():
 
         - 'custom': use custom matrices for dictionary and weights.
 
-    tolerance: float, default: 1e-6
+    tolerance: float, default: 1e-4
         Tolerance of the stopping condition.
 
     max_iterations : integer, default: 1000
@@ -207,7 +207,7 @@ class KernelAA():
     import numpy as np
     X = np.random.rand(10, 4)
     K = np.dot(X, X.T)
-    from reor import KernelAA
+    from reor.archetypal_analysis import KernelAA
     model = KernelAA(n_components=2, init='furthest_sum', random_state=0)
     weights = model.fit_transform(K)
     dictionary = model.dictionary_
@@ -866,7 +866,7 @@ class ArchetypalAnalysis(KernelAA):
 
         - 'custom': use custom matrices for dictionary and weights.
 
-    tolerance: float, default: 1e-6
+    tolerance: float, default: 1e-4
         Tolerance of the stopping condition.
 
     max_iterations : integer, default: 1000
@@ -882,9 +882,6 @@ class ArchetypalAnalysis(KernelAA):
         the random number generator is the RandomState instance
         used by `np.random`.
 
-    backend : 'eigen'
-        The backend used by the factorization solver.
-
     Attributes
     ----------
     dictionary_ : array-like, shape (n_samples, n_components)
-- 
2.43.0


From d1dc0c07dda0970e2082319132b4bf595cff078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:27 +0000
Subject: [PATCH 18/24] fix: integer data and integer custom factors are fitted
 in floating point

---
 src/reor/archetypal_analysis.py |  6 +++---
 src/reor/fembv.py               |  2 +-
 src/reor/fembv_kmeans.py        |  4 ++--
 src/reor/fembv_varx.py          |  8 ++++----
 src/reor/gpnh_convex_coding.py  |  6 +++---
 src/reor/mtd_convex_coding.py   | 12 ++++++------
 6 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 57e3e4d..bdf9374 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -726,9 +726,9 @@ class KernelAA():
                 kernel, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
 
-        self.K = kernel.copy()
-        self.S = weights.copy()
-        self.C = dictionary.copy()
+        self.K = np.array(kernel, dtype='f8')
+        self.S = np.array(weights, dtype='f8')
+        self.C = np.array(dictionary, dtype='f8')
 
         self._initialize_workspace()
 
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 53597de..07985ec 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -179,7 +179,7 @@ class FEMBV():
         if init == 'custom' and weights is not None:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_initialize_weights (input weights)')
-            self.Gamma = weights.copy()
+            self.Gamma = np.array(weights, dtype='f8')
         else:
             self.Gamma = _initialize_fembv_weights(
                 n_samples, n_components=self.n_components, unused_init=init,
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index bf41c63..dd919da 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -147,7 +147,7 @@ class FEMBVKMeans(FEMBV):
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
-        self.X = data.copy()
+        self.X = np.array(data, dtype='f8')
 
         n_samples, n_features = self.X.shape
 
@@ -159,7 +159,7 @@ class FEMBVKMeans(FEMBV):
                 parameters, shape=(self.n_components, n_features),
                 whom='_initialize_components (input parameters)')
 
-            self.Theta = parameters.copy()
+            self.Theta = np.array(parameters, dtype='f8')
         else:
             self.Theta = _initialize_fembv_kmeans_random(
                 self.X, self.n_components, random_state=self.random_state)
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 20bdeee..9f2f406 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -23,7 +23,7 @@ class FEMBVVARXLocalLinearModel():
 
         self.p = p
 
-        self._y = check_array(y)
+        self._y = check_array(y, dtype='f8')
 
         n_samples, n_features = self._y.shape
 
@@ -37,7 +37,7 @@ class FEMBVVARXLocalLinearModel():
             self.A = None
 
         if u is not None:
-            self._u = check_array(u)
+            self._u = check_array(u, dtype='f8')
 
             if self._u.shape[0] != n_samples:
                 raise ValueError(
@@ -342,9 +342,9 @@ class FEMBVVARX(FEMBV):
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
-        self.X = data.copy()
+        self.X = np.array(data, dtype='f8')
         if 'external_factors' in kwargs:
-            self.u = kwargs['external_factors'].copy()
+            self.u = np.array(kwargs['external_factors'], dtype='f8')
             self.u = check_array(self.u)
         else:
             self.u = None
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index e4e3fc0..2b520c5 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -602,9 +602,9 @@ class GPNHConvexCoding():
                 data, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
 
-        self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
+        self.X = np.array(data, dtype='f8')
+        self.Gamma = np.array(weights, dtype='f8')
+        self.S = np.array(dictionary, dtype='f8')
 
         self._initialize_workspace()
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 993f3c1..81611f7 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -111,7 +111,7 @@ def _initialize_mtd_convex_coding_parameters_random(data, n_components,
     order_weights /= order_weights.sum()
 
     transition_matrices = np.empty((order, n_components, n_components),
-                                   dtype=data.dtype)
+                                   dtype='f8')
     for p in range(order):
         transition_matrices[p] = left_stochastic_matrix(
             (n_components, n_components), random_state=rng)
@@ -833,11 +833,11 @@ class MTDConvexCoding():
                         data, self.n_components, init=self.init, order=n_lags,
                         random_state=self.random_state, **kwargs)
 
-        self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
-        self.order_weights = order_weights.copy()
-        self.transition_matrices = transition_matrices.copy()
+        self.X = np.array(data, dtype='f8')
+        self.Gamma = np.array(weights, dtype='f8')
+        self.S = np.array(dictionary, dtype='f8')
+        self.order_weights = np.array(order_weights, dtype='f8')
+        self.transition_matrices = np.array(transition_matrices, dtype='f8')
 
         self._initialize_workspace()
 
-- 
2.43.0


From dbe07a8936fc5008435fbfcd8f3d7f1941ad42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:41 +0000
Subject: [PATCH 19/24] fix: ClusterPWVARX residuals of integer data are not
 truncated

---
 src/reor/pwvarx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 9025d81..c4ffb72 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -140,7 +140,7 @@ class ClusterPWVARX():
             n_exog = 0
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
-        self.residuals = np.zeros_like(y)
+        self.residuals = np.zeros_like(y, dtype='f8')
         for k in range(self.n_components):
 
             component_mask = labels == k
-- 
2.43.0


From b648e9a69fdbf29e5df564eb3584f4acf5878746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:57 +0000
Subject: [PATCH 20/24] fix: residual covariances of nearly empty components do
 not divide by zero

---
 src/reor/fembv_varx.py | 10 +++++++---
 src/reor/pwvarx.py     |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 9f2f406..952585f 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -160,16 +160,20 @@ class FEMBVVARXLocalLinearModel():
             df -= self._u.shape[1] * (1 + self.s)
 
         if weights is None:
-            self.Sigma_u = np.dot(self.residuals[presample_length:].T,
-                                  self.residuals[presample_length:]) / df
+            weighted_residuals = self.residuals[presample_length:]
         else:
             weighted_residuals = (np.sqrt(weights[presample_length:, np.newaxis]) *
                                   self.residuals[presample_length:])
             df = np.sum(weights[presample_length:]) - 1
+
+        if df > 0:
             self.Sigma_u = np.dot(weighted_residuals.T,
                                   weighted_residuals) / df
+        else:
+            # Too few members to estimate the residual covariance
+            self.Sigma_u = np.zeros((n_features, n_features), dtype='f8')
 
-        self.Sigma_u_inv = np.linalg.inv(self.Sigma_u)
+        self.Sigma_u_inv = np.linalg.pinv(self.Sigma_u)
 
 
 
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index c4ffb72..33191b0 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -180,8 +180,9 @@ class ClusterPWVARX():
             if n_exog > 0:
                 df -= n_exog * self.s
 
-            self.Sigma_u[k] = (np.dot(self.residuals[component_mask].T,
-                                      self.residuals[component_mask]) / df)
+            if df > 0:
+                self.Sigma_u[k] = (np.dot(self.residuals[component_mask].T,
+                                          self.residuals[component_mask]) / df)
 
     def fit_transform(self, endog, exog=None, **kwargs):
         """Fit k-means PWVARX model and return transformed data.
-- 
2.43.0


From b623888f1d58de14516b1a83a98273bd7f61a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:50 +0000
Subject: [PATCH 21/24] fix: rounding errors of squared distances gave NaN
 dissimilarities for duplicated samples

---
 src/reor/archetypal_analysis.py | 5 +++--
 src/reor/gpnh_convex_coding.py  | 5 +++--
 src/reor/mtd_convex_coding.py   | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index bdf9374..cfab714 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -74,10 +74,11 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    # Rounding can make the squared distances of equal samples negative
+    dissimilarities = np.sqrt(np.maximum(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0.0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 2b520c5..cb3061a 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -64,10 +64,11 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    # Rounding can make the squared distances of equal samples negative
+    dissimilarities = np.sqrt(np.maximum(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0.0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 81611f7..9b51d9c 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -78,10 +78,11 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    # Rounding can make the squared distances of equal samples negative
+    dissimilarities = np.sqrt(np.maximum(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0.0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
-- 
2.43.0


From 2da71101ea42bb892166cafcfb4402923220c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:14 +0000
Subject: [PATCH 22/24] fix: reject fractional and negative entries in a list
 of memories

FEMBVVARX truncated fractional memories silently and rejected negative ones
only during the fit.
---
 src/reor/fembv_varx.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 952585f..39276b0 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -293,6 +293,12 @@ class FEMBVVARX(FEMBV):
 
                 self.memory = np.full((n_components,), memory, dtype='i8')
             elif isinstance(memory, (list, tuple)):
+                for m in memory:
+                    if not isinstance(m, INTEGER_TYPES) or m < 0:
+                        raise ValueError(
+                            'Memory must consist of non-negative integers;'
+                            ' got (memory=%r)' % (m,))
+
                 self.memory = np.asarray(memory, dtype='i8')
                 if self.memory.shape != (n_components,):
                     raise ValueError('Memory must be a 1-dimensional array; '
-- 
2.43.0


From b49928ab2519c83670f369109cb7afb014194409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:14 +0000
Subject: [PATCH 23/24] fix: custom lag weights and transition matrices may be
 array-like

Lists, which are documented, and missing arguments raised AttributeError.
---
 src/reor/mtd_convex_coding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 9b51d9c..8dc821b 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -40,12 +40,14 @@ def _check_init_dictionary(dictionary, shape, whom):
 
 
 def _check_init_order_weights(order_weights, shape, whom):
+    order_weights = np.asarray(order_weights)
     _check_array_shape(order_weights, shape, whom)
     _check_unit_axis_sums(order_weights, whom, axis=0)
     _check_non_negative(order_weights, whom)
 
 
 def _check_init_transition_matrices(transition_matrices, shape, whom):
+    transition_matrices = np.asarray(transition_matrices)
     _check_array_shape(transition_matrices, shape, whom)
     _check_unit_axis_sums(transition_matrices, whom, axis=1)
     _check_non_negative(transition_matrices, whom)
-- 
2.43.0


From f2e43a971885f4252c9a4178dd7f464f260eca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:27 +0000
Subject: [PATCH 24/24] fix: small integer types of the data do not overflow

Inner products and distances of uint8 or int8 samples wrapped around, so
that the fitted solution depended on the integer type of the data.
---
 src/reor/archetypal_analysis.py | 4 ++++
 src/reor/gpnh_convex_coding.py  | 2 ++
 src/reor/mtd_convex_coding.py   | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index cfab714..512d383 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -683,6 +683,8 @@ class KernelAA():
                    update_dictionary=True, update_weights=True, **kwargs):
         """Perform kernel archetypal analysis."""
 
+        kernel = np.asarray(kernel, dtype='f8')
+
         n_samples = kernel.shape[0]
 
         if kernel.shape[1] != n_samples:
@@ -936,6 +938,7 @@ class ArchetypalAnalysis(KernelAA):
             Representation of the data.
         """
         if self.kernel_func is None:
+            data = np.asarray(data, dtype='f8')
             kernel = np.dot(data, data.T)
         else:
             kernel = self.kernel_func(data)
@@ -967,6 +970,7 @@ class ArchetypalAnalysis(KernelAA):
         """
 
         if self.kernel_func is None:
+            data = np.asarray(data, dtype='f8')
             kernel = data.dot(data.T)
         else:
             kernel = self.kernel_func(data)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index cb3061a..cfc93c7 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -564,6 +564,8 @@ class GPNHConvexCoding():
                             **kwargs):
         """Calculate GPNH-regularized convex coding of dataset."""
 
+        data = np.asarray(data, dtype='f8')
+
         n_samples, n_features = data.shape
 
         if self._use_all_components:
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 8dc821b..238c876 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -773,6 +773,8 @@ class MTDConvexCoding():
                            update_parameters=True, **kwargs):
         """Calculate MTD-regularized convex coding of dataset."""
 
+        data = np.asarray(data, dtype='f8')
+
         n_samples, n_features = data.shape
         n_lags = self.lags.size
 
-- 
2.43.0

