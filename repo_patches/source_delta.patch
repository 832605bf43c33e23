From 141872433e7a53edff58a842f0b8eac1602fb3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 01/44] fix: use one variance per component when expanding
 spherical covars

---
 src/hmmlearn/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/utils.py b/src/hmmlearn/utils.py
index a080e56..ead3f99 100644
--- a/src/hmmlearn/utils.py
+++ b/src/hmmlearn/utils.py
@@ -63,9 +63,10 @@ def fill_covars(covars, covariance_type='full', n_components=1, n_features=1):
     elif covariance_type == 'tied':
         return np.tile(covars, (n_components, 1, 1))
     elif covariance_type == 'spherical':
-        # Regardless of what is passed in, we flatten in
-        # and then expand it to the correct shape
-        covars = np.ravel(covars)
+        # Regardless of what is passed in (a single variance per component,
+        # possibly repeated for each feature), we keep one variance per
+        # component and then expand it to the correct shape
+        covars = np.reshape(covars, (n_components, -1))[:, 0]
         eye = np.eye(n_features)[np.newaxis, :, :]
         covars = covars[:, np.newaxis, np.newaxis]
         return eye * covars
-- 
2.43.0


From 91c81c3ff7e001ac405e8dce4ec7bae44bb323f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 02/44] fix: accumulate the mean statistics when fitting only
 GaussianHMM covars

---
 src/hmmlearn/hmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index fec0a13..91941a1 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -332,7 +332,8 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
 
     def _needs_sufficient_statistics_for_mean(self):
-        return 'm' in self.params
+        # The covariance updates also rely on the mean statistics.
+        return 'm' in self.params or 'c' in self.params
 
     def _needs_sufficient_statistics_for_covars(self):
         return 'c' in self.params
-- 
2.43.0


From a43a101de4c385178c808b7b1ff0dfb3613100a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 03/44] fix: set the normalized parameters of variational
 models for any params

---
 src/hmmlearn/base.py | 12 ++++++------
 src/hmmlearn/vhmm.py |  7 ++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 580b71a..e76ee3e 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1230,14 +1230,14 @@ class VariationalBaseHMM(_AbstractHMM):
         """
         if 's' in self.params:
             self.startprob_posterior_ = self.startprob_prior_ + stats['start']
-            # For compatability in _AbstractHMM
-            self.startprob_ = (self.startprob_posterior_
-                               / self.startprob_posterior_.sum())
         if 't' in self.params:
             self.transmat_posterior_ = self.transmat_prior_ + stats['trans']
-            # For compatability in _AbstractHMM
-            self.transmat_ = (self.transmat_posterior_
-                              / self.transmat_posterior_.sum(axis=1)[:, None])
+        # For compatability in _AbstractHMM; also needed for the parameters
+        # that are not updated.
+        self.startprob_ = (self.startprob_posterior_
+                           / self.startprob_posterior_.sum())
+        self.transmat_ = (self.transmat_posterior_
+                          / self.transmat_posterior_.sum(axis=1)[:, None])
 
     def _compute_lower_bound(self, curr_logprob):
         """
diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 32f7bef..eab89e8 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -212,9 +212,10 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
         if "e" in self.params:
             self.emissionprob_posterior_ = (
                 self.emissionprob_prior_ + stats['obs'])
-            # Provide the normalized probabilities at the posterior median
-            div = self.emissionprob_posterior_.sum(axis=1)[:, None]
-            self.emissionprob_ = self.emissionprob_posterior_ / div
+        # Provide the normalized probabilities at the posterior median; also
+        # needed if the posterior is not updated.
+        div = self.emissionprob_posterior_.sum(axis=1)[:, None]
+        self.emissionprob_ = self.emissionprob_posterior_ / div
 
     def _compute_lower_bound(self, log_prob):
         """Compute the lower bound of the model."""
-- 
2.43.0


From 46a93c642652897f9a08a04cfd1de1de57bbe440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 04/44] fix: VariationalGaussianHMM scale update when the means
 are not updated

---
 src/hmmlearn/vhmm.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index eab89e8..7ecfdd8 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -714,6 +714,25 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
             self.means_posterior_ /= self.beta_posterior_[:, None]
 
         if "c" in self.params:
+            # The posterior means are not at their optimum if they are not
+            # updated (i.e. if "m" is not in params), so keep the cross terms.
+            beta = self.beta_prior_ + stats['post']
+            obs = (np.einsum("i,ij->ij", self.beta_prior_, self.means_prior_)
+                   + stats['obs'])
+            if self.covariance_type in ("full", "tied"):
+                cross = np.einsum("ci,cj->cij", obs, self.means_posterior_)
+                means_dots = (cross + np.transpose(cross, axes=(0, 2, 1))
+                              - np.einsum("c,ci,cj->cij",
+                                          beta,
+                                          self.means_posterior_,
+                                          self.means_posterior_))
+            else:
+                means_dots = (2 * obs * self.means_posterior_
+                              - np.einsum("c,ci,ci->ci",
+                                          beta,
+                                          self.means_posterior_,
+                                          self.means_posterior_))
+
             if self.covariance_type == "full":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -725,10 +744,7 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_prior_,
                                 self.means_prior_,
                                 self.means_prior_)
-                    - np.einsum("c,ci,cj->cij",
-                                self.beta_posterior_,
-                                self.means_posterior_,
-                                self.means_posterior_))
+                    - means_dots)
                 self._covars_ = (self.scale_posterior_
                                  / self.dof_posterior_[:, None, None])
             elif self.covariance_type == "tied":
@@ -742,10 +758,7 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_prior_,
                                 self.means_prior_,
                                 self.means_prior_)
-                    - np.einsum("c,ci,cj->ij",
-                                self.beta_posterior_,
-                                self.means_posterior_,
-                                self.means_posterior_))
+                    - means_dots.sum(axis=0))
                 self._covars_ = self.scale_posterior_ / self.dof_posterior_
             elif self.covariance_type == "diag":
                 # Update DOF
@@ -758,10 +771,7 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.beta_prior_,
                                 self.means_prior_,
                                 self.means_prior_)
-                    - np.einsum("c,ci,ci->ci",
-                                self.beta_posterior_,
-                                self.means_posterior_,
-                                self.means_posterior_))
+                    - means_dots)
                 self._covars_ = (self.scale_posterior_
                                  / self.dof_posterior_[:, None])
             elif self.covariance_type == "spherical":
@@ -773,10 +783,7 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                      self.beta_prior_,
                                      self.means_prior_,
                                      self.means_prior_)
-                         - np.einsum("c,ci,ci->ci",
-                                     self.beta_posterior_,
-                                     self.means_posterior_,
-                                     self.means_posterior_))
+                         - means_dots)
                 self.scale_posterior_ = (
                     self.scale_prior_
                     + term2.mean(axis=1))
-- 
2.43.0


From 7d1c5ca0c9dc4dfbc6547f3645fcc7aa2eadb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 05/44] fix: set VariationalGaussianHMM covars even if they are
 not updated

---
 src/hmmlearn/vhmm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index 7ecfdd8..d3c08b7 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -745,8 +745,6 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.means_prior_,
                                 self.means_prior_)
                     - means_dots)
-                self._covars_ = (self.scale_posterior_
-                                 / self.dof_posterior_[:, None, None])
             elif self.covariance_type == "tied":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post'].sum()
@@ -759,7 +757,6 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.means_prior_,
                                 self.means_prior_)
                     - means_dots.sum(axis=0))
-                self._covars_ = self.scale_posterior_ / self.dof_posterior_
             elif self.covariance_type == "diag":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -772,8 +769,6 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 self.means_prior_,
                                 self.means_prior_)
                     - means_dots)
-                self._covars_ = (self.scale_posterior_
-                                 / self.dof_posterior_[:, None])
             elif self.covariance_type == "spherical":
                 # Update DOF
                 self.dof_posterior_ = self.dof_prior_ + stats['post']
@@ -788,8 +783,13 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                     self.scale_prior_
                     + term2.mean(axis=1))
                 self.scale_posterior_ = self.scale_posterior_
-                self._covars_ = (self.scale_posterior_
-                                 / self.dof_posterior_)
+
+        # Also needed if the posterior of the covariances is not updated.
+        dof = np.asarray(self.dof_posterior_)
+        self._covars_ = (
+            self.scale_posterior_
+            / dof.reshape(dof.shape + (1,) * (self.scale_posterior_.ndim
+                                              - dof.ndim)))
 
     def _compute_lower_bound(self, log_prob):
 
-- 
2.43.0


From f0c327a65faf7cc5e1598d5f6bdf38d030f5394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 06/44] fix: do not replace the random_state parameter while
 fitting

---
 src/hmmlearn/hmm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 91941a1..a6fee06 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -128,10 +128,10 @@ class CategoricalHMM(_emissions.BaseCategoricalHMM, BaseHMM):
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
 
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         if self._needs_init('e', 'emissionprob_'):
-            self.emissionprob_ = self.random_state.rand(
+            self.emissionprob_ = random_state.rand(
                 self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -918,9 +918,9 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths=None)
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
         if 'e' in self.init_params:
-            self.emissionprob_ = self.random_state \
+            self.emissionprob_ = random_state \
                 .rand(self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
 
@@ -1037,14 +1037,14 @@ class PoissonHMM(_emissions.BasePoissonHMM):
 
     def _init(self, X, lengths=None):
         super()._init(X, lengths)
-        self.random_state = check_random_state(self.random_state)
+        random_state = check_random_state(self.random_state)
 
         mean_X = X.mean()
         var_X = X.var()
 
         if self._needs_init("l", "lambdas_"):
             # initialize with method of moments based on X
-            self.lambdas_ = self.random_state.gamma(
+            self.lambdas_ = random_state.gamma(
                 shape=mean_X**2 / var_X,
                 scale=var_X / mean_X,  # numpy uses theta = 1 / beta
                 size=(self.n_components, self.n_features))
-- 
2.43.0


From a1fac3a4bdb2e443d952f301af6776ef92be62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 07/44] fix: initialize GMMHMM small clusters from the model's
 random_state

---
 src/hmmlearn/hmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index a6fee06..70273fa 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -544,6 +544,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
         self._init_covar_priors()
         self._fix_priors_shape()
 
+        random_state = check_random_state(self.random_state)
         main_kmeans = cluster.KMeans(n_clusters=nc,
                                      random_state=self.random_state,
                                      n_init=10)  # sklearn >=1.2 compat.
@@ -562,9 +563,9 @@ class GMMHMM(_emissions.BaseGMMHMM):
             else:
                 if cv is None:
                     cv = compute_cv()
-                m_cluster = np.random.multivariate_normal(main_centroid,
-                                                          cov=cv,
-                                                          size=nm)
+                m_cluster = random_state.multivariate_normal(main_centroid,
+                                                             cov=cv,
+                                                             size=nm)
                 means.append(m_cluster)
 
         if self._needs_init("w", "weights_"):
-- 
2.43.0


From d12549ad3266c56b74cd0c1e78fae985f9c651f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 08/44] fix: flat default prior for GMMHMM spherical covars

---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 70273fa..37e43c7 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -610,7 +610,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_weight = 0.0
         elif self.covariance_type == "spherical":
             if self.covars_prior is None:
-                self.covars_prior = -(self.n_mix + 2.0) / 2.0
+                self.covars_prior = -(self.n_features + 2.0) / 2.0
             if self.covars_weight is None:
                 self.covars_weight = 0.0
 
-- 
2.43.0


From b980f5bd141f470485b8ad4fdf579b45030d9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 09/44] fix: count the mixture weights of every GMMHMM state

---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index a697c11..dd21edb 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -197,7 +197,7 @@ class BaseGMMHMM(BaseHMM):
                 "full": nc * nm * nf * (nf + 1) // 2,
                 "tied": nc * nf * (nf + 1) // 2,
             }[self.covariance_type],
-            "w": nm - 1,
+            "w": nc * (nm - 1),
         }
 
     def _compute_log_weighted_gaussian_densities(self, X, i_comp):
-- 
2.43.0


From c7cc67351e22e07c6bad40dd6ec1aec7beab4b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 10/44] fix: weight the PoissonHMM prior against the samples of
 each state

---
 src/hmmlearn/hmm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 37e43c7..5b6c0ac 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1068,10 +1068,11 @@ class PoissonHMM(_emissions.BasePoissonHMM):
             # section 3.2
             # https://vioshyvo.github.io/Bayesian_inference
             alphas, betas = self.lambdas_prior, self.lambdas_weight
-            n = stats['post'].sum()
-            y_bar = stats['obs'] / stats['post'][:, None]
+            # Expected number of samples emitted by each state.
+            n = stats['post'][:, None]
             # the same as kappa notation (more intuitive) but avoids divide by
             # 0, where:
+            # y_bar = stats['obs'] / n
             # kappas = betas / (betas + n)
             # self.lambdas_ = kappas * (alphas / betas) + (1 - kappas) * y_bar
-            self.lambdas_ = (alphas + n * y_bar) / (betas + n)
+            self.lambdas_ = (alphas + stats['obs']) / (betas + n)
-- 
2.43.0


From adcc808c728890e5baaff3649185741dbb083cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 11/44] fix: reject nonpositive lengths instead of processing
 empty sequences

---
 src/hmmlearn/_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index 9f257d2..c01af97 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -18,6 +18,9 @@ def split_X_lengths(X, lengths):
     if lengths is None:
         return [X]
     else:
+        if np.any(np.asarray(lengths) <= 0):
+            raise ValueError(
+                f"lengths array {lengths} contains nonpositive values")
         cs = np.cumsum(lengths)
         n_samples = len(X)
         if cs[-1] != n_samples:
-- 
2.43.0


From 000572bb980ba0330f9df7987310f5725de94a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 12/44] fix: never sample impossible states or symbols due to
 rounding

---
 src/hmmlearn/_emissions.py | 1 +
 src/hmmlearn/base.py       | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index dd21edb..1f62d91 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -105,6 +105,7 @@ class BaseCategoricalHMM(_AbstractHMM):
 
     def _generate_sample_from_state(self, state, random_state=None):
         cdf = np.cumsum(self.emissionprob_[state, :])
+        cdf = cdf / cdf[-1]  # Correct for rounding errors.
         random_state = check_random_state(random_state)
         return [(cdf > random_state.rand()).argmax()]
 
diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index e76ee3e..343508f 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -431,10 +431,14 @@ class _AbstractHMM(BaseEstimator):
             random_state = self.random_state
         random_state = check_random_state(random_state)
 
+        # The last cumulative sums may differ from 1 by rounding errors; make
+        # sure that they are greater than any random number.
         transmat_cdf = np.cumsum(self.transmat_, axis=1)
+        transmat_cdf = transmat_cdf / transmat_cdf[:, -1:]
 
         if currstate is None:
             startprob_cdf = np.cumsum(self.startprob_)
+            startprob_cdf = startprob_cdf / startprob_cdf[-1]
             currstate = (startprob_cdf > random_state.rand()).argmax()
 
         state_sequence = [currstate]
-- 
2.43.0


From bbf39a57d69f50cdb4198abbe7e3ef249a3763c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 13/44] fix: raise if the scaling backward pass overflows

---
 ext/_hmmc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 3a4a1d3..88bf507 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -166,6 +166,10 @@ py::array_t<double> backward_scaling(
         bwd(t, i) += transmat(i, j) * frameprob(t + 1, j) * bwd(t + 1, j);
       }
       bwd(t, i) *= scaling(t);
+      if (std::isinf(bwd(t, i))) {
+        throw std::range_error{"backward pass failed with overflow; "
+                               "consider using implementation='log' instead"};
+      }
     }
   }
   return bwdlattice_;
-- 
2.43.0


From 5b940ec707f3f6d97dbd13c9a321cbddd9bdf56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 14/44] fix: reject negative symbols when evaluating
 categorical models

---
 src/hmmlearn/_emissions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 1f62d91..e549e97 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -81,6 +81,8 @@ class BaseCategoricalHMM(_AbstractHMM):
             warnings.warn("Inputs of shape other than (n_samples, 1) are "
                           "deprecated.", DeprecationWarning)
             X = np.concatenate(X)[:, None]
+        if X.min() < 0:  # Would otherwise index symbols from the end.
+            raise ValueError("Symbols should be nonnegative")
         return self.emissionprob_[:, X.squeeze(1)].T
 
     def _initialize_sufficient_statistics(self):
-- 
2.43.0


From c3b59b0bcf1c7818af6c378914629c4e263ac6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 15/44] fix: reject negative probabilities that sum to 1

---
 src/hmmlearn/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 343508f..1d6e7e7 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -559,6 +559,8 @@ class _AbstractHMM(BaseEstimator):
 
     def _check_sum_1(self, name):
         """Check that an array describes one or more distributions."""
+        if (getattr(self, name) < 0).any():
+            raise ValueError(f"{name} must be nonnegative")
         s = getattr(self, name).sum(axis=-1)
         if not np.allclose(s, 1):
             raise ValueError(
@@ -950,6 +952,8 @@ class BaseHMM(_AbstractHMM):
 
     def _check_sum_1(self, name):
         """Check that an array describes one or more distributions."""
+        if (getattr(self, name) < 0).any():
+            raise ValueError(f"{name} must be nonnegative")
         s = getattr(self, name).sum(axis=-1)
         if not np.allclose(s, 1):
             raise ValueError(
-- 
2.43.0


From 8a01fca878f9c2d55e106ba8c234355b87dd0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 16/44] fix: reject observations with the wrong number of
 features

---
 src/hmmlearn/_emissions.py | 2 ++
 src/hmmlearn/stats.py      | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index e549e97..f13964b 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -384,12 +384,14 @@ class BasePoissonHMM(BaseHMM):
         }
 
     def _compute_likelihood(self, X):
+        self._check_and_set_n_features(X)  # Do not broadcast features.
         probs = np.empty((len(X), self.n_components))
         for c in range(self.n_components):
             probs[:, c] = poisson.pmf(X, self.lambdas_[c]).prod(axis=1)
         return probs
 
     def _compute_log_likelihood(self, X):
+        self._check_and_set_n_features(X)  # Do not broadcast features.
         logprobs = np.empty((len(X), self.n_components))
         for c in range(self.n_components):
             logprobs[:, c] = poisson.logpmf(X, self.lambdas_[c]).sum(axis=1)
diff --git a/src/hmmlearn/stats.py b/src/hmmlearn/stats.py
index 7a01b8c..2d6c4be 100644
--- a/src/hmmlearn/stats.py
+++ b/src/hmmlearn/stats.py
@@ -34,6 +34,10 @@ def log_multivariate_normal_density(X, means, covars, covariance_type='diag'):
         Array containing the log probabilities of each data point in
         X under each of the n_components multivariate Gaussian distributions.
     """
+    if np.shape(X)[-1] != np.shape(means)[-1]:  # Do not broadcast features.
+        raise ValueError(
+            f"Unexpected number of dimensions, got {np.shape(X)[-1]} but "
+            f"expected {np.shape(means)[-1]}")
     log_multivariate_normal_density_dict = {
         'spherical': _log_multivariate_normal_density_spherical,
         'tied': _log_multivariate_normal_density_tied,
-- 
2.43.0


From 062b0feb81e2a12a6106e6b60acc63fc3ad6ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 17/44] fix: only cluster the samples if GMMHMM means are to be
 initialized

---
 src/hmmlearn/hmm.py | 50 ++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 5b6c0ac..278663b 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -544,36 +544,36 @@ class GMMHMM(_emissions.BaseGMMHMM):
         self._init_covar_priors()
         self._fix_priors_shape()
 
-        random_state = check_random_state(self.random_state)
-        main_kmeans = cluster.KMeans(n_clusters=nc,
-                                     random_state=self.random_state,
-                                     n_init=10)  # sklearn >=1.2 compat.
         cv = None  # covariance matrix
-        labels = main_kmeans.fit_predict(X)
-        main_centroid = np.mean(main_kmeans.cluster_centers_, axis=0)
-        means = []
-        for label in range(nc):
-            kmeans = cluster.KMeans(n_clusters=nm,
-                                    random_state=self.random_state,
-                                    n_init=10)  # sklearn >=1.2 compat.
-            X_cluster = X[np.where(labels == label)]
-            if X_cluster.shape[0] >= nm:
-                kmeans.fit(X_cluster)
-                means.append(kmeans.cluster_centers_)
-            else:
-                if cv is None:
-                    cv = compute_cv()
-                m_cluster = random_state.multivariate_normal(main_centroid,
-                                                             cov=cv,
-                                                             size=nm)
-                means.append(m_cluster)
+        # Clustering is only needed (and possibly only feasible) for means_.
+        if self._needs_init("m", "means_"):
+            random_state = check_random_state(self.random_state)
+            main_kmeans = cluster.KMeans(n_clusters=nc,
+                                         random_state=self.random_state,
+                                         n_init=10)  # sklearn >=1.2 compat.
+            labels = main_kmeans.fit_predict(X)
+            main_centroid = np.mean(main_kmeans.cluster_centers_, axis=0)
+            means = []
+            for label in range(nc):
+                kmeans = cluster.KMeans(n_clusters=nm,
+                                        random_state=self.random_state,
+                                        n_init=10)  # sklearn >=1.2 compat.
+                X_cluster = X[np.where(labels == label)]
+                if X_cluster.shape[0] >= nm:
+                    kmeans.fit(X_cluster)
+                    means.append(kmeans.cluster_centers_)
+                else:
+                    if cv is None:
+                        cv = compute_cv()
+                    m_cluster = random_state.multivariate_normal(main_centroid,
+                                                                 cov=cv,
+                                                                 size=nm)
+                    means.append(m_cluster)
+            self.means_ = np.stack(means)
 
         if self._needs_init("w", "weights_"):
             self.weights_ = np.full((nc, nm), 1 / nm)
 
-        if self._needs_init("m", "means_"):
-            self.means_ = np.stack(means)
-
         if self._needs_init("c", "covars_"):
             if cv is None:
                 cv = compute_cv()
-- 
2.43.0


From b574694b0a55179599f79173a5edab5e9284147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:43 +0000
Subject: [PATCH 18/44] fix: raise if the scaling forward pass overflows

---
 ext/_hmmc.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 88bf507..215fc9b 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -74,6 +74,10 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
       throw std::range_error{"forward pass failed with underflow; "
                              "consider using implementation='log' instead"};
     }
+    if (!std::isfinite(sum)) {
+      throw std::range_error{"forward pass failed with overflow or NaN; "
+                             "consider using implementation='log' instead"};
+    }
     auto scale = scaling(0) = 1. / sum;
     log_prob -= std::log(scale);
     for (auto i = 0; i < nc; ++i) {
@@ -91,6 +95,10 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
         throw std::range_error{"forward pass failed with underflow; "
                                "consider using implementation='log' instead"};
       }
+      if (!std::isfinite(sum)) {
+        throw std::range_error{"forward pass failed with overflow or NaN; "
+                               "consider using implementation='log' instead"};
+      }
       auto scale = scaling(t) = 1. / sum;
       log_prob -= std::log(scale);
       for (auto j = 0; j < nc; ++j) {
-- 
2.43.0


From 8c25312f6283936fff1cf757af206015abf5b71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 19/44] fix: initialize MultinomialHMM emissionprob_ if it is
 not set

---
 src/hmmlearn/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 278663b..11ee6b8 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -920,7 +920,7 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
     def _init(self, X, lengths=None):
         super()._init(X, lengths=None)
         random_state = check_random_state(self.random_state)
-        if 'e' in self.init_params:
+        if self._needs_init("e", "emissionprob_"):
             self.emissionprob_ = random_state \
                 .rand(self.n_components, self.n_features)
             normalize(self.emissionprob_, axis=1)
-- 
2.43.0


From 0488b04fc4b0ea42d01067a75f47d64139612f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 20/44] fix: let set_params change the convergence criteria

---
 src/hmmlearn/base.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index 1d6e7e7..d1b8da6 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -180,6 +180,21 @@ class _AbstractHMM(BaseEstimator):
         self.implementation = implementation
         self.random_state = random_state
 
+    def set_params(self, **params):
+        """
+        Set the parameters of this estimator.
+
+        Returns
+        -------
+        self : object
+            Returns self.
+        """
+        super().set_params(**params)
+        # The monitor has its own copy of these parameters.
+        for name in {"tol", "n_iter", "verbose"} & params.keys():
+            setattr(self.monitor_, name, params[name])
+        return self
+
     def score_samples(self, X, lengths=None):
         """
         Compute the log probability under the model and compute posteriors.
-- 
2.43.0


From 6cb7bdbb31490ae29fec5b48aad60f87bab57e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:10 +0000
Subject: [PATCH 21/44] fix: do not fail on divergences that round to less than
 0

---
 src/hmmlearn/_kl_divergence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/_kl_divergence.py b/src/hmmlearn/_kl_divergence.py
index 5fbdb7c..1d06482 100644
--- a/src/hmmlearn/_kl_divergence.py
+++ b/src/hmmlearn/_kl_divergence.py
@@ -31,8 +31,8 @@ def kl_normal_distribution(mean_q, variance_q, mean_p, variance_p):
     result = ((np.log(variance_p / variance_q)) / 2
               + ((mean_q - mean_p)**2 + variance_q) / (2 * variance_p)
               - .5)
-    assert result >= 0, result
-    return result
+    # Rounding errors may yield a tiny negative result for close distributions.
+    return np.maximum(result, 0)
 
 
 def kl_multivariate_normal_distribution(mean_q, covar_q, mean_p, covar_p):
@@ -73,8 +73,8 @@ def kl_gamma_distribution(b_q, c_q, b_p, c_p):
               - gammaln(b_q) + gammaln(b_p)
               + b_p * (np.log(c_q) - np.log(c_p))
               + b_q * (c_p-c_q) / c_q)
-    assert result >= 0, result
-    return result
+    # Rounding errors may yield a tiny negative result for close distributions.
+    return np.maximum(result, 0)
 
 
 def kl_wishart_distribution(dof_q, scale_q, dof_p, scale_p):
-- 
2.43.0


From 6d7f8ddc03fa033fda89ab1217bec2b2ae12b26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 22/44] fix: check that MultinomialHMM emissionprob_ are
 probabilities

---
 src/hmmlearn/hmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 11ee6b8..6700191 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -934,6 +934,7 @@ class MultinomialHMM(_emissions.BaseMultinomialHMM):
                 "emissionprob_ must have shape (n_components, n_features)")
         else:
             self.n_features = n_features
+        self._check_sum_1("emissionprob_")
         if self.n_trials is None:
             raise ValueError("n_trials must be set")
 
-- 
2.43.0


From 4fcd5f53f1ccd85183e2669dbd91d23e045b7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 23/44] fix: check that PoissonHMM lambdas_ are nonnegative

---
 src/hmmlearn/hmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 6700191..b3f9f83 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1059,6 +1059,8 @@ class PoissonHMM(_emissions.BasePoissonHMM):
         if self.lambdas_.shape != (self.n_components, n_features):
             raise ValueError(
                 "lambdas_ must have shape (n_components, n_features)")
+        if not (self.lambdas_ >= 0).all():
+            raise ValueError("lambdas_ must be nonnegative")
         self.n_features = n_features
 
     def _do_mstep(self, stats):
-- 
2.43.0


From 3fbac4b9a5064da9dadc12efd492783d936ab014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 24/44] fix: check the priors and posteriors of the chain of
 VariationalGaussianHMM

---
 src/hmmlearn/vhmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index d3c08b7..a94174b 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -595,6 +595,7 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
         if self.covariance_type not in COVARIANCE_TYPES:
             raise ValueError(
                 f"{self.covariance_type} is invalid")
+        super()._check()
 
         means_shape = (self.n_components, self.n_features)
 
-- 
2.43.0


From d35f206e7b6ed99e725f90622f679c7ff4c8e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 25/44] fix: reject NaN variances

---
 src/hmmlearn/_utils.py | 4 ++--
 src/hmmlearn/hmm.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index c01af97..13ec576 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -36,7 +36,7 @@ def _validate_covars(covars, covariance_type, n_components):
     if covariance_type == 'spherical':
         if len(covars) != n_components:
             raise ValueError("'spherical' covars have length n_components")
-        elif np.any(covars <= 0):
+        elif not np.all(covars > 0):
             raise ValueError("'spherical' covars must be positive")
     elif covariance_type == 'tied':
         if covars.shape[0] != covars.shape[1]:
@@ -49,7 +49,7 @@ def _validate_covars(covars, covariance_type, n_components):
         if len(covars.shape) != 2:
             raise ValueError("'diag' covars must have shape "
                              "(n_components, n_dim)")
-        elif np.any(covars <= 0):
+        elif not np.all(covars > 0):
             raise ValueError("'diag' covars must be positive")
     elif covariance_type == 'full':
         if len(covars.shape) != 3:
diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index b3f9f83..3ac9e9f 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -700,7 +700,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
         # Checking covariances' mathematical correctness
         if (self.covariance_type == "spherical" or
                 self.covariance_type == "diag"):
-            if np.any(self.covars_ < 0):
+            if not np.all(self.covars_ >= 0):
                 raise ValueError(f"{self.covariance_type!r} mixture covars "
                                  f"must be non-negative")
             if np.any(self.covars_ == 0):
-- 
2.43.0


From 8599285b1161ac2351711d872d00507c6cdc12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 26/44] fix: check the shapes of GaussianHMM means_ and covars_

---
 src/hmmlearn/hmm.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 3ac9e9f..69fdc1c 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -331,6 +331,21 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
             raise ValueError(
                 f"covariance_type must be one of {COVARIANCE_TYPES}")
 
+        nc = self.n_components
+        nf = self.n_features
+        if self.means_.shape != (nc, nf):
+            raise ValueError(
+                "means_ must have shape (n_components, n_features)")
+        needed_shape = {
+            "tied": (nf, nf),
+            "diag": (nc, nf),
+            "full": (nc, nf, nf),
+        }.get(self.covariance_type)  # All shapes are fine for "spherical".
+        if needed_shape and self._covars_.shape != needed_shape:
+            raise ValueError(
+                f"{self.covariance_type!r} covars must have shape "
+                f"{needed_shape}, actual shape: {self._covars_.shape}")
+
     def _needs_sufficient_statistics_for_mean(self):
         # The covariance updates also rely on the mean statistics.
         return 'm' in self.params or 'c' in self.params
-- 
2.43.0


From 82a5a81cd35a93d91b61d2eb6cc42d96fa56bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 27/44] fix: reject training data of PoissonHMM that are not
 counts

---
 src/hmmlearn/hmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 69fdc1c..e3387b1 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1053,6 +1053,8 @@ class PoissonHMM(_emissions.BasePoissonHMM):
         self.lambdas_weight = lambdas_weight
 
     def _init(self, X, lengths=None):
+        if (X < 0).any() or (X != np.floor(X)).any():
+            raise ValueError("Counts should be nonnegative integers")
         super()._init(X, lengths)
         random_state = check_random_state(self.random_state)
 
-- 
2.43.0


From e7ed8bb0e876a60a51512fb4e84775b87d073552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 28/44] fix: check the shape of variational start probability
 posteriors

---
 src/hmmlearn/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index d1b8da6..da14657 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1154,10 +1154,10 @@ class VariationalBaseHMM(_AbstractHMM):
         nc = self.n_components
 
         self.startprob_prior_ = np.asarray(self.startprob_prior_)
-        if len(self.startprob_prior_) != nc:
+        if self.startprob_prior_.shape != (nc,):
             raise ValueError("startprob_prior_ must have length n_components")
         self.startprob_posterior_ = np.asarray(self.startprob_posterior_)
-        if len(self.startprob_posterior_) != nc:
+        if self.startprob_posterior_.shape != (nc,):
             raise ValueError("startprob_posterior_ must have length "
                              "n_components")
 
-- 
2.43.0


From dd6cfa5c4b02a4301d44a0ef7abc1f740bf4d31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 29/44] fix: do not replace the prior parameters of GMMHMM by
 expanded arrays

---
 src/hmmlearn/_emissions.py |   2 +-
 src/hmmlearn/hmm.py        | 112 +++++++++++++++----------------------
 2 files changed, 45 insertions(+), 69 deletions(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index f13964b..759abcb 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -228,7 +228,7 @@ class BaseGMMHMM(BaseHMM):
         stats['post_sum'] = np.zeros(self.n_components)
 
         if 'm' in self.params:
-            lambdas, mus = self.means_weight, self.means_prior
+            _, mus, lambdas, _, _ = self._get_priors()
             stats['m_n'] = lambdas[:, :, None] * mus
         if 'c' in self.params:
             stats['c_n'] = np.zeros_like(self.covars_)
diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index e3387b1..fa23e5f 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -555,10 +555,6 @@ class GMMHMM(_emissions.BaseGMMHMM):
         def compute_cv():
             return np.cov(X.T) + self.min_covar * np.eye(nf)
 
-        # Default values for covariance prior parameters
-        self._init_covar_priors()
-        self._fix_priors_shape()
-
         cv = None  # covariance matrix
         # Clustering is only needed (and possibly only feasible) for means_.
         if self._needs_init("m", "means_"):
@@ -607,62 +603,45 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_ = np.zeros((nc, nm))
                 self.covars_[:] = cv.mean()
 
-    def _init_covar_priors(self):
-        if self.covariance_type == "full":
-            if self.covars_prior is None:
-                self.covars_prior = 0.0
-            if self.covars_weight is None:
-                self.covars_weight = -(1.0 + self.n_features + 1.0)
-        elif self.covariance_type == "tied":
-            if self.covars_prior is None:
-                self.covars_prior = 0.0
-            if self.covars_weight is None:
-                self.covars_weight = -(self.n_mix + self.n_features + 1.0)
-        elif self.covariance_type == "diag":
-            if self.covars_prior is None:
-                self.covars_prior = -1.5
-            if self.covars_weight is None:
-                self.covars_weight = 0.0
-        elif self.covariance_type == "spherical":
-            if self.covars_prior is None:
-                self.covars_prior = -(self.n_features + 2.0) / 2.0
-            if self.covars_weight is None:
-                self.covars_weight = 0.0
+    def _get_priors(self):
+        """
+        Return the weights, means and covariances priors with default values
+        filled in and with full shapes.
 
-    def _fix_priors_shape(self):
+        The parameters themselves are left unchanged, as their defaults and
+        shapes depend on the other parameters and on the training data.
+        """
         nc = self.n_components
         nf = self.n_features
         nm = self.n_mix
 
-        # If priors are numbers, this function will make them into a
-        # matrix of proper shape
-        self.weights_prior = np.broadcast_to(
-            self.weights_prior, (nc, nm)).copy()
-        self.means_prior = np.broadcast_to(
-            self.means_prior, (nc, nm, nf)).copy()
-        self.means_weight = np.broadcast_to(
-            self.means_weight, (nc, nm)).copy()
+        weights_prior = np.broadcast_to(self.weights_prior, (nc, nm))
+        means_prior = np.broadcast_to(self.means_prior, (nc, nm, nf))
+        means_weight = np.broadcast_to(self.means_weight, (nc, nm))
 
         if self.covariance_type == "full":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nm, nf, nf)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, (nc, nm)).copy()
+            default_prior, default_weight = 0.0, -(1.0 + nf + 1.0)
+            prior_shape, weight_shape = (nc, nm, nf, nf), (nc, nm)
         elif self.covariance_type == "tied":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nf, nf)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, nc).copy()
+            default_prior, default_weight = 0.0, -(nm + nf + 1.0)
+            prior_shape, weight_shape = (nc, nf, nf), (nc,)
         elif self.covariance_type == "diag":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nm, nf)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, (nc, nm, nf)).copy()
+            default_prior, default_weight = -1.5, 0.0
+            prior_shape = weight_shape = (nc, nm, nf)
         elif self.covariance_type == "spherical":
-            self.covars_prior = np.broadcast_to(
-                self.covars_prior, (nc, nm)).copy()
-            self.covars_weight = np.broadcast_to(
-                self.covars_weight, (nc, nm)).copy()
+            default_prior, default_weight = -(nf + 2.0) / 2.0, 0.0
+            prior_shape = weight_shape = (nc, nm)
+        else:
+            raise ValueError(
+                f"covariance_type must be one of {COVARIANCE_TYPES}")
+        covars_prior = np.broadcast_to(
+            default_prior if self.covars_prior is None else self.covars_prior,
+            prior_shape)
+        covars_weight = np.broadcast_to(
+            default_weight if self.covars_weight is None
+            else self.covars_weight, weight_shape)
+        return (weights_prior, means_prior, means_weight,
+                covars_prior, covars_weight)
 
     def _check(self):
         super()._check()
@@ -672,13 +651,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
         nf = self.n_features
         nm = self.n_mix
 
-        self._init_covar_priors()
-        self._fix_priors_shape()
-
-        # Checking covariance type
-        if self.covariance_type not in COVARIANCE_TYPES:
-            raise ValueError(
-                f"covariance_type must be one of {COVARIANCE_TYPES}")
+        # Checking covariance type and priors' shapes
+        self._get_priors()
 
         self.weights_ = np.array(self.weights_)
         # Checking mixture weights' shape
@@ -752,10 +726,12 @@ class GMMHMM(_emissions.BaseGMMHMM):
         super()._do_mstep(stats)
         nf = self.n_features
         nm = self.n_mix
+        (weights_prior, means_prior, means_weight,
+         covars_prior, covars_weight) = self._get_priors()
 
         # Maximizing weights
         if 'w' in self.params:
-            alphas_minus_one = self.weights_prior - 1
+            alphas_minus_one = weights_prior - 1
             w_n = stats['post_mix_sum'] + alphas_minus_one
             w_d = (stats['post_sum'] + alphas_minus_one.sum(axis=1))[:, None]
             self.weights_ = w_n / w_d
@@ -763,7 +739,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
         # Maximizing means
         if 'm' in self.params:
             m_n = stats['m_n']
-            m_d = stats['post_mix_sum'] + self.means_weight
+            m_d = stats['post_mix_sum'] + means_weight
             # If a componenent has zero weight, then replace nan (0/0?) means
             # by 0 (0/1).  The actual value is irrelevant as the component will
             # be unused.  This needs to be done before maximizing covariances
@@ -774,7 +750,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
         # Maximizing covariances
         if 'c' in self.params:
-            lambdas, mus = self.means_weight, self.means_prior
+            lambdas, mus = means_weight, means_prior
             centered_means = self.means_ - mus
 
             def outer_f(x):  # Outer product over features.
@@ -783,8 +759,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
             if self.covariance_type == 'full':
                 centered_means_dots = outer_f(centered_means)
 
-                psis_t = np.transpose(self.covars_prior, axes=(0, 1, 3, 2))
-                nus = self.covars_weight
+                psis_t = np.transpose(covars_prior, axes=(0, 1, 3, 2))
+                nus = covars_weight
 
                 c_n = psis_t + lambdas[:, :, None, None] * centered_means_dots
                 c_n += stats['c_n']
@@ -793,8 +769,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 )[:, :, None, None]
 
             elif self.covariance_type == 'diag':
-                alphas = self.covars_prior
-                betas = self.covars_weight
+                alphas = covars_prior
+                betas = covars_weight
                 centered_means2 = centered_means ** 2
 
                 c_n = lambdas[:, :, None] * centered_means2 + 2 * betas
@@ -805,8 +781,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 centered_means_norm2 = np.einsum(  # Faster than (x**2).sum(-1)
                     '...i,...i', centered_means, centered_means)
 
-                alphas = self.covars_prior
-                betas = self.covars_weight
+                alphas = covars_prior
+                betas = covars_weight
 
                 c_n = lambdas * centered_means_norm2 + 2 * betas
                 c_n += stats['c_n']
@@ -815,8 +791,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
             elif self.covariance_type == 'tied':
                 centered_means_dots = outer_f(centered_means)
 
-                psis_t = np.transpose(self.covars_prior, axes=(0, 2, 1))
-                nus = self.covars_weight
+                psis_t = np.transpose(covars_prior, axes=(0, 2, 1))
+                nus = covars_weight
 
                 c_n = np.einsum('ij,ijkl->ikl',
                                 lambdas, centered_means_dots) + psis_t
-- 
2.43.0


From cf0e291b4a876c4c69bdc0a32a28d171ff67c618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 30/44] fix: do not assume that the lattice passed to
 compute_log_xi_sum is contiguous

---
 ext/_hmmc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 215fc9b..12e8fb4 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -250,7 +250,7 @@ py::array_t<double> compute_scaling_xi_sum(
 }
 
 py::array_t<double> compute_log_xi_sum(
-  py::array_t<double> fwdlattice_,
+  py::array_t<double, py::array::c_style | py::array::forcecast> fwdlattice_,
   py::array_t<double> transmat_,
   py::array_t<double> bwdlattice_,
   py::array_t<double> log_frameprob_)
-- 
2.43.0


From 6b33cc1d7c00993fd7fb9854eae0fc01b2a57862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 31/44] fix: reject empty arrays in the native functions
 instead of reading out of bounds

---
 ext/_hmmc.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ext/_hmmc.cpp b/ext/_hmmc.cpp
index 12e8fb4..25161ed 100644
--- a/ext/_hmmc.cpp
+++ b/ext/_hmmc.cpp
@@ -54,7 +54,8 @@ std::tuple<double, py::array_t<double>, py::array_t<double>> forward_scaling(
   auto transmat = transmat_.unchecked<2>();
   auto frameprob = frameprob_.unchecked<2>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
-  if (startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
@@ -120,7 +121,8 @@ std::tuple<double, py::array_t<double>> forward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (log_startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
@@ -156,7 +158,8 @@ py::array_t<double> backward_scaling(
   auto frameprob = frameprob_.unchecked<2>();
   auto scaling = scaling_.unchecked<1>();
   auto ns = frameprob.shape(0), nc = frameprob.shape(1);
-  if (startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || startprob.shape(0) != nc
       || transmat.shape(0) != nc || transmat.shape(1) != nc
       || scaling.shape(0) != ns) {
     throw std::invalid_argument{"shape mismatch"};
@@ -194,7 +197,8 @@ py::array_t<double> backward_log(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (log_startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
@@ -261,7 +265,8 @@ py::array_t<double> compute_log_xi_sum(
   auto bwd = bwdlattice_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (fwd.shape(0) != ns || fwd.shape(1) != nc
+  if (ns < 1 || nc < 1
+      || fwd.shape(0) != ns || fwd.shape(1) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc
       || bwd.shape(0) != ns || bwd.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
@@ -298,7 +303,8 @@ std::tuple<double, py::array_t<ssize_t>> viterbi(
   auto log_transmat = log_transmat_.unchecked<2>();
   auto log_frameprob = log_frameprob_.unchecked<2>();
   auto ns = log_frameprob.shape(0), nc = log_frameprob.shape(1);
-  if (log_startprob.shape(0) != nc
+  if (ns < 1 || nc < 1
+      || log_startprob.shape(0) != nc
       || log_transmat.shape(0) != nc || log_transmat.shape(1) != nc) {
     throw std::invalid_argument{"shape mismatch"};
   }
-- 
2.43.0


From 3857c03a9fcc10587833329081386f644c7ddf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 32/44] fix: do not raise when reading stale spherical covars

---
 src/hmmlearn/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/utils.py b/src/hmmlearn/utils.py
index ead3f99..47aceda 100644
--- a/src/hmmlearn/utils.py
+++ b/src/hmmlearn/utils.py
@@ -63,10 +63,12 @@ def fill_covars(covars, covariance_type='full', n_components=1, n_features=1):
     elif covariance_type == 'tied':
         return np.tile(covars, (n_components, 1, 1))
     elif covariance_type == 'spherical':
-        # Regardless of what is passed in (a single variance per component,
-        # possibly repeated for each feature), we keep one variance per
-        # component and then expand it to the correct shape
-        covars = np.reshape(covars, (n_components, -1))[:, 0]
+        # Regardless of what is passed in, we flatten in, keep one variance per
+        # component (variances may be repeated for each feature) and then
+        # expand it to the correct shape
+        covars = np.ravel(covars)
+        if len(covars) == n_components * n_features:
+            covars = covars[::n_features]
         eye = np.eye(n_features)[np.newaxis, :, :]
         covars = covars[:, np.newaxis, np.newaxis]
         return eye * covars
-- 
2.43.0


From 2aa273a778553b439737bfa7df0a69ce053e4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 33/44] fix: do not square data in narrow integer types

GaussianHMM and VariationalGaussianHMM squared int8, uint8, etc. data in their
own type, so that the statistics for diagonal and spherical covariances
overflowed.
---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index 759abcb..d66f11c 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -157,7 +157,7 @@ class BaseGaussianHMM(_AbstractHMM):
 
         if self._needs_sufficient_statistics_for_covars():
             if self.covariance_type in ('spherical', 'diag'):
-                stats['obs**2'] += posteriors.T @ X**2
+                stats['obs**2'] += posteriors.T @ np.square(X, dtype=float)
             elif self.covariance_type in ('tied', 'full'):
                 # posteriors: (nt, nc); obs: (nt, nf); obs: (nt, nf)
                 # -> (nc, nf, nf)
-- 
2.43.0


From 7dd3a3e181a18244f186bb50c58bfe8ecf2e5bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 34/44] fix: do not overflow when counting the symbols of
 categorical data

The number of symbols was computed in the type of the data: 0 for uint8 data
that contain the symbol 255.
---
 src/hmmlearn/_emissions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hmmlearn/_emissions.py b/src/hmmlearn/_emissions.py
index d66f11c..277e027 100644
--- a/src/hmmlearn/_emissions.py
+++ b/src/hmmlearn/_emissions.py
@@ -65,7 +65,7 @@ class BaseCategoricalHMM(_AbstractHMM):
                     f"Largest symbol is {X.max()} but the model only emits "
                     f"symbols up to {self.n_features - 1}")
         else:
-            self.n_features = X.max() + 1
+            self.n_features = int(X.max()) + 1  # X may be of a narrow type.
 
     def _get_n_fit_scalars_per_param(self):
         nc = self.n_components
-- 
2.43.0


From 47c18be9646c71bbea0bdc5081f99adef8ef9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 35/44] fix: do not estimate negative mixture weights

---
 src/hmmlearn/hmm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index fa23e5f..dad22fb 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -731,10 +731,10 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
         # Maximizing weights
         if 'w' in self.params:
-            alphas_minus_one = weights_prior - 1
-            w_n = stats['post_mix_sum'] + alphas_minus_one
-            w_d = (stats['post_sum'] + alphas_minus_one.sum(axis=1))[:, None]
-            self.weights_ = w_n / w_d
+            # As for the transition probabilities, set negative terms to 0.
+            self.weights_ = np.maximum(
+                weights_prior - 1 + stats['post_mix_sum'], 0)
+            normalize(self.weights_, axis=1)
 
         # Maximizing means
         if 'm' in self.params:
-- 
2.43.0


From 802fe66c7b09b9c0b449c050b274a069ea293305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 36/44] fix: keep the parameters of mixture components without
 samples

---
 src/hmmlearn/hmm.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index dad22fb..a267013 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -740,13 +740,14 @@ class GMMHMM(_emissions.BaseGMMHMM):
         if 'm' in self.params:
             m_n = stats['m_n']
             m_d = stats['post_mix_sum'] + means_weight
-            # If a componenent has zero weight, then replace nan (0/0?) means
-            # by 0 (0/1).  The actual value is irrelevant as the component will
-            # be unused.  This needs to be done before maximizing covariances
-            # as nans would otherwise propagate to other components if
-            # covariances are tied.
-            m_d[(self.weights_ == 0) & (m_n == 0).all(axis=-1)] = 1
-            self.means_ = m_n / m_d[:, :, None]
+            # A component without samples (and prior) keeps its mean instead of
+            # having it replaced by nan (0/0).  This needs to be done before
+            # maximizing covariances as nans would otherwise propagate to other
+            # components if covariances are tied.
+            unused = m_d == 0
+            m_d[unused] = 1
+            self.means_ = np.where(
+                unused[:, :, None], self.means_, m_n / m_d[:, :, None])
 
         # Maximizing covariances
         if 'c' in self.params:
@@ -765,7 +766,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 c_n = psis_t + lambdas[:, :, None, None] * centered_means_dots
                 c_n += stats['c_n']
                 c_d = (
-                    stats['post_mix_sum'] + 1 + nus + nf + 1
+                    stats['post_mix_sum'] + (1 + nus + nf + 1)
                 )[:, :, None, None]
 
             elif self.covariance_type == 'diag':
@@ -775,7 +776,8 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
                 c_n = lambdas[:, :, None] * centered_means2 + 2 * betas
                 c_n += stats['c_n']
-                c_d = stats['post_mix_sum'][:, :, None] + 1 + 2 * (alphas + 1)
+                c_d = (
+                    stats['post_mix_sum'][:, :, None] + (1 + 2 * (alphas + 1)))
 
             elif self.covariance_type == 'spherical':
                 centered_means_norm2 = np.einsum(  # Faster than (x**2).sum(-1)
@@ -786,7 +788,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
 
                 c_n = lambdas * centered_means_norm2 + 2 * betas
                 c_n += stats['c_n']
-                c_d = nf * (stats['post_mix_sum'] + 1) + 2 * (alphas + 1)
+                c_d = nf * stats['post_mix_sum'] + (nf + 2 * (alphas + 1))
 
             elif self.covariance_type == 'tied':
                 centered_means_dots = outer_f(centered_means)
@@ -797,9 +799,14 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 c_n = np.einsum('ij,ijkl->ikl',
                                 lambdas, centered_means_dots) + psis_t
                 c_n += stats['c_n']
-                c_d = (stats['post_sum'] + nm + nus + nf + 1)[:, None, None]
-
-            self.covars_ = c_n / c_d
+                c_d = (stats['post_sum'] + (nm + nus + nf + 1))[:, None, None]
+
+            # Likewise, a component without samples (and prior) keeps its
+            # covariance.  The constant terms of the denominators are summed
+            # first so that the weight of a component does not get lost.
+            unused = c_d == 0
+            self.covars_ = np.where(
+                unused, self.covars_, c_n / np.where(unused, 1, c_d))
 
 
 class MultinomialHMM(_emissions.BaseMultinomialHMM):
-- 
2.43.0


From 6fde2a56ba5567479dc24bbee64e919bff22b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:57 +0000
Subject: [PATCH 37/44] fix: PoissonHMM could not be trained on data in which
 all counts are equal

---
 src/hmmlearn/hmm.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index a267013..725627c 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1045,11 +1045,15 @@ class PoissonHMM(_emissions.BasePoissonHMM):
         var_X = X.var()
 
         if self._needs_init("l", "lambdas_"):
-            # initialize with method of moments based on X
-            self.lambdas_ = random_state.gamma(
-                shape=mean_X**2 / var_X,
-                scale=var_X / mean_X,  # numpy uses theta = 1 / beta
-                size=(self.n_components, self.n_features))
+            shape = (self.n_components, self.n_features)
+            if var_X > 0:
+                # initialize with method of moments based on X
+                self.lambdas_ = random_state.gamma(
+                    shape=mean_X**2 / var_X,
+                    scale=var_X / mean_X,  # numpy uses theta = 1 / beta
+                    size=shape)
+            else:  # All counts are equal.
+                self.lambdas_ = np.full(shape, mean_X)
 
     def _check(self):
         super()._check()
-- 
2.43.0


From e4aeb680fde31c420b703d510f80507ac4cc2675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 38/44] fix: VariationalCategoricalHMM could not be trained
 with an array of emission priors

---
 src/hmmlearn/vhmm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index a94174b..a37560a 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -152,10 +152,10 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
                 emissionprob_init = self.emissionprob_prior
             self.emissionprob_prior_ = np.full(
                 (self.n_components, self.n_features), emissionprob_init)
-            self.emissionprob_posterior_ = random_state.dirichlet(
-                alpha=[emissionprob_init] * self.n_features,
-                size=self.n_components
-            ) * sum(lengths) / self.n_components
+            self.emissionprob_posterior_ = np.array([
+                random_state.dirichlet(alpha)
+                for alpha in self.emissionprob_prior_
+            ]) * sum(lengths) / self.n_components
 
     def _estep_begin(self):
         super()._estep_begin()
-- 
2.43.0


From 55d79d6d60b05363b933538985cbfac1b323bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 39/44] fix: VariationalGaussianHMM could not be trained when
 k-means found clusters with fewer samples than the prior counts

---
 src/hmmlearn/vhmm.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index a37560a..aacb488 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -477,7 +477,8 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                                 random_state=self.random_state,
                                 n_init=10)  # sklearn >=1.2 compat.
         kmeans.fit(X)
-        cluster_counts = np.bincount(kmeans.predict(X))
+        cluster_counts = np.bincount(kmeans.predict(X),
+                                     minlength=self.n_components)
 
         if (self._needs_init("m", "means_prior_")
                 or self._needs_init("m", "means_posterior_")
@@ -496,8 +497,8 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
             else:
                 self.beta_prior_ = self.beta_prior
 
-            # Count of items in each cluster
-            self.beta_posterior_ = np.copy(cluster_counts)
+            # Count of items in each cluster (not less than in the prior)
+            self.beta_posterior_ = np.maximum(cluster_counts, self.beta_prior_)
 
         if (self._needs_init("c", "dof_prior_")
                 or self._needs_init("c", "dof_posterior_")
@@ -509,14 +510,16 @@ class VariationalGaussianHMM(BaseGaussianHMM, VariationalBaseHMM):
                         (self.n_components,), self.n_features)
                 else:
                     self.dof_prior_ = self.dof_prior
-                self.dof_posterior_ = np.copy(cluster_counts)
+                self.dof_posterior_ = np.maximum(cluster_counts,
+                                                 self.dof_prior_)
 
             elif self.covariance_type == "tied":
                 if self.dof_prior is None:
                     self.dof_prior_ = self.n_features
                 else:
                     self.dof_prior_ = self.dof_prior
-                self.dof_posterior_ = cluster_counts.sum()
+                self.dof_posterior_ = max(cluster_counts.sum(),
+                                          self.dof_prior_)
 
             # Covariance posterior comes from the estimate of the data
             # We store and update both W_k and scale_posterior_,
-- 
2.43.0


From a6d66bcd47bf6928122566ca43cc2826ff735a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 40/44] fix: initial spherical variances were the mean of all
 entries of the covariance matrix instead of its diagonal

---
 src/hmmlearn/_utils.py | 2 +-
 src/hmmlearn/hmm.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hmmlearn/_utils.py b/src/hmmlearn/_utils.py
index 13ec576..6c8164a 100644
--- a/src/hmmlearn/_utils.py
+++ b/src/hmmlearn/_utils.py
@@ -73,7 +73,7 @@ def distribute_covar_matrix_to_match_covariance_type(
         tied_cv, covariance_type, n_components):
     """Create all the covariance matrices from a given template."""
     if covariance_type == 'spherical':
-        cv = np.tile(tied_cv.mean() * np.ones(tied_cv.shape[1]),
+        cv = np.tile(np.diag(tied_cv).mean() * np.ones(tied_cv.shape[1]),
                      (n_components, 1))
     elif covariance_type == 'tied':
         cv = tied_cv
diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 725627c..2530d48 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -601,7 +601,7 @@ class GMMHMM(_emissions.BaseGMMHMM):
                 self.covars_[:] = np.diag(cv)
             elif self.covariance_type == 'spherical':
                 self.covars_ = np.zeros((nc, nm))
-                self.covars_[:] = cv.mean()
+                self.covars_[:] = np.diag(cv).mean()
 
     def _get_priors(self):
         """
-- 
2.43.0


From c4317b3d0016a98c3806abc065724df66394ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 41/44] fix: initial PoissonHMM rates could underflow to zero,
 so that training on rare events failed

---
 src/hmmlearn/hmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 2530d48..8302b59 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -1052,6 +1052,9 @@ class PoissonHMM(_emissions.BasePoissonHMM):
                     shape=mean_X**2 / var_X,
                     scale=var_X / mean_X,  # numpy uses theta = 1 / beta
                     size=shape)
+                # Rates that underflow would make positive counts impossible.
+                self.lambdas_ = np.maximum(
+                    self.lambdas_, np.finfo(float).tiny)
             else:  # All counts are equal.
                 self.lambdas_ = np.full(shape, mean_X)
 
-- 
2.43.0


From 92b0378e486b3cb05d3ff22a208a7c9eb99786b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:31 +0000
Subject: [PATCH 42/44] fix: VariationalCategoricalHMM training failed with
 many symbols as the initial posterior counts could be (nearly) zero

---
 src/hmmlearn/vhmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hmmlearn/vhmm.py b/src/hmmlearn/vhmm.py
index aacb488..eefc395 100644
--- a/src/hmmlearn/vhmm.py
+++ b/src/hmmlearn/vhmm.py
@@ -156,6 +156,9 @@ class VariationalCategoricalHMM(BaseCategoricalHMM, VariationalBaseHMM):
                 random_state.dirichlet(alpha)
                 for alpha in self.emissionprob_prior_
             ]) * sum(lengths) / self.n_components
+            # Not less than in the prior, as for any data.
+            self.emissionprob_posterior_ = np.maximum(
+                self.emissionprob_posterior_, self.emissionprob_prior_)
 
     def _estep_begin(self):
         super()._estep_begin()
-- 
2.43.0


From 85fff1c939ce7053e7b9f84c40d684ee1cafabf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 43/44] fix: the lower bound of variational models with many
 states was NaN at first as the initial posterior counts could be zero

---
 src/hmmlearn/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hmmlearn/base.py b/src/hmmlearn/base.py
index da14657..b1c5aad 100644
--- a/src/hmmlearn/base.py
+++ b/src/hmmlearn/base.py
@@ -1096,6 +1096,8 @@ class VariationalBaseHMM(_AbstractHMM):
             self.startprob_prior_ = np.full(nc, startprob_init)
             self.startprob_posterior_ = random_state.dirichlet(
                 np.full(nc, uniform_prior)) * len(lengths)
+            self.startprob_posterior_ = np.maximum(
+                self.startprob_posterior_, self.startprob_prior_)
 
         if (self._needs_init("t", "transmat_posterior_")
                 or self._needs_init("t", "transmat_prior_")):
@@ -1108,6 +1110,8 @@ class VariationalBaseHMM(_AbstractHMM):
             self.transmat_posterior_ = random_state.dirichlet(
                 np.full(nc, uniform_prior), size=nc)
             self.transmat_posterior_ *= sum(lengths) / nc
+            self.transmat_posterior_ = np.maximum(
+                self.transmat_posterior_, self.transmat_prior_)
 
         n_fit_scalars_per_param = self._get_n_fit_scalars_per_param()
         if n_fit_scalars_per_param is not None:
-- 
2.43.0


From f1eb80638ca5e97a3e5e120a7611ad703f2db17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:25 +0000
Subject: [PATCH 44/44] fix: priors of shape (n_components,) were applied to
 the features instead of the states by GaussianHMM and PoissonHMM

---
 src/hmmlearn/hmm.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/hmmlearn/hmm.py b/src/hmmlearn/hmm.py
index 8302b59..afad425 100644
--- a/src/hmmlearn/hmm.py
+++ b/src/hmmlearn/hmm.py
@@ -356,8 +356,13 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
     def _do_mstep(self, stats):
         super()._do_mstep(stats)
 
-        means_prior = self.means_prior
-        means_weight = self.means_weight
+        def per_state(prior, ndim):
+            # Align an array of shape (n_components,) with the states.
+            return (np.reshape(prior, (-1,) + (1,) * (ndim - 1))
+                    if np.shape(prior) == (self.n_components,) else prior)
+
+        means_prior = per_state(self.means_prior, 2)
+        means_weight = per_state(self.means_weight, 2)
 
         # TODO: find a proper reference for estimates for different
         #       covariance models.
@@ -369,8 +374,10 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                            / (means_weight + denom))
 
         if 'c' in self.params:
-            covars_prior = self.covars_prior
-            covars_weight = self.covars_weight
+            ndim = 3 if self.covariance_type == 'full' else 2
+            # (Not meaningful for the single matrix of "tied".)
+            covars_prior = per_state(self.covars_prior, ndim)
+            covars_weight = per_state(self.covars_weight, ndim)
             meandiff = self.means_ - means_prior
 
             if self.covariance_type in ('spherical', 'diag'):
@@ -378,7 +385,7 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
                        + stats['obs**2']
                        - 2 * self.means_ * stats['obs']
                        + self.means_**2 * denom)
-                c_d = max(covars_weight - 1, 0) + denom
+                c_d = np.maximum(covars_weight - 1, 0) + denom
                 self._covars_ = (covars_prior + c_n) / np.maximum(c_d, 1e-5)
                 if self.covariance_type == 'spherical':
                     self._covars_ = np.tile(self._covars_.mean(1)[:, None],
@@ -386,19 +393,22 @@ class GaussianHMM(_emissions.BaseGaussianHMM, BaseHMM):
             elif self.covariance_type in ('tied', 'full'):
                 c_n = np.empty((self.n_components, self.n_features,
                                 self.n_features))
+                if np.shape(means_weight) != (self.n_components, 1):
+                    means_weight = [means_weight] * self.n_components
                 for c in range(self.n_components):
                     obsmean = np.outer(stats['obs'][c], self.means_[c])
-                    c_n[c] = (means_weight * np.outer(meandiff[c],
-                                                      meandiff[c])
+                    c_n[c] = (means_weight[c] * np.outer(meandiff[c],
+                                                         meandiff[c])
                               + stats['obs*obs.T'][c]
                               - obsmean - obsmean.T
                               + np.outer(self.means_[c], self.means_[c])
                               * stats['post'][c])
-                cvweight = max(covars_weight - self.n_features, 0)
                 if self.covariance_type == 'tied':
-                    self._covars_ = ((covars_prior + c_n.sum(axis=0)) /
+                    cvweight = max(self.covars_weight - self.n_features, 0)
+                    self._covars_ = ((self.covars_prior + c_n.sum(axis=0)) /
                                      (cvweight + stats['post'].sum()))
                 elif self.covariance_type == 'full':
+                    cvweight = np.maximum(covars_weight - self.n_features, 0)
                     self._covars_ = ((covars_prior + c_n) /
                                      (cvweight + stats['post'][:, None, None]))
 
@@ -1077,7 +1087,11 @@ class PoissonHMM(_emissions.BasePoissonHMM):
             # Based on: Hyvönen & Tolonen, "Bayesian Inference 2019"
             # section 3.2
             # https://vioshyvo.github.io/Bayesian_inference
-            alphas, betas = self.lambdas_prior, self.lambdas_weight
+            # Align arrays of shape (n_components,) with the states.
+            alphas, betas = (
+                np.reshape(prior, (-1, 1))
+                if np.shape(prior) == (self.n_components,) else prior
+                for prior in (self.lambdas_prior, self.lambdas_weight))
             # Expected number of samples emitted by each state.
             n = stats['post'][:, None]
             # the same as kappa notation (more intuitive) but avoids divide by
-- 
2.43.0

