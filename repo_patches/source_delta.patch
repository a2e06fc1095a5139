From 381b6da46cf807d64b07b0a9595574ce0d9cde99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 01/47] fix: Geometric.incorporate raises ValueError on an
 invalid value

The format operator was applied to the exception rather than to its message,
so a value outside the support raised TypeError.
---
 src/primitives/geometric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/geometric.py b/src/primitives/geometric.py
index 28f1975..5494ef7 100644
--- a/src/primitives/geometric.py
+++ b/src/primitives/geometric.py
@@ -48,7 +48,7 @@ class Geometric(DistributionGpm):
         DistributionGpm.incorporate(self, rowid, observation, inputs)
         x = observation[self.outputs[0]]
         if not (x % 1 == 0 and x >= 0):
-            raise ValueError('Invalid Geometric: %s') % str(x)
+            raise ValueError('Invalid Geometric: %s' % str(x))
         self.N += 1
         self.sum_x += x
         self.data[rowid] = x
-- 
2.43.0


From 1ed8d24db50c126919008da6fdfb68f32845f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 02/47] fix: NormalTrunc prior on the mean is Uniform(l, h)

scipy's uniform takes the width of the interval as scale; l+h is only the
width when l is 0, and is negative (density nan) for negative intervals.
---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 1aa34f7..6828042 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -193,7 +193,7 @@ class NormalTrunc(DistributionGpm):
     @staticmethod
     def calc_log_prior(mu, sigma, alpha, beta, l, h):
         log_sigma = gamma.logpdf(sigma, alpha, scale=beta)
-        log_mu = uniform.logpdf(mu, loc=l, scale=l+h)
+        log_mu = uniform.logpdf(mu, loc=l, scale=h-l)
         return log_mu + log_sigma
 
     @staticmethod
-- 
2.43.0


From 57830b1dd598ad3f97c68c96a294cfe3d0ab8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 03/47] fix: NormalTrunc.calc_log_likelihood uses true division

With the default integer sigma=1, 1 / (2 * sigma * sigma) is 0 and the
likelihood ignores the data.
---
 src/primitives/normal_trunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 6828042..3528c65 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -187,7 +187,7 @@ class NormalTrunc(DistributionGpm):
         return (
             - N/2. * np.log(2*np.pi)
             - N * np.log(sigma)
-            - 1 / (2 * sigma * sigma)
+            - 1. / (2 * sigma * sigma)
             * (N*mu**2 - 2*mu*sum_x + sum_x_sq))
 
     @staticmethod
-- 
2.43.0


From 9171127df92116b5c38fe51b5f47551c76b77c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 04/47] fix: NormalTrunc.transition_params targets the
 posterior

The target for mu left out the truncation normalizer and the target for
sigma added it once instead of subtracting it for each of the N rows; both
left out the prior. Both kernels now target the joint of logpdf_score.
---
 src/primitives/normal_trunc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/primitives/normal_trunc.py b/src/primitives/normal_trunc.py
index 3528c65..8d9bd10 100644
--- a/src/primitives/normal_trunc.py
+++ b/src/primitives/normal_trunc.py
@@ -97,12 +97,15 @@ class NormalTrunc(DistributionGpm):
             raise RuntimeError('NormalTrunc failed to rejection sample.')
 
     def logpdf_score(self):
+        return self._calc_log_joint(self.mu, self.sigma)
+
+    def _calc_log_joint(self, mu, sigma):
         data_logp = NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, self.sigma, self.mu)
+            self.N, self.sum_x, self.sum_x_sq, sigma, mu)
         prior_logp = NormalTrunc.calc_log_prior(
-            self.mu, self.sigma, self.alpha, self.beta, self.l, self.h)
+            mu, sigma, self.alpha, self.beta, self.l, self.h)
         normalizer_logp = NormalTrunc.calc_log_normalizer(
-            self.mu, self.sigma, self.l, self.h)
+            mu, sigma, self.l, self.h)
         return data_logp + prior_logp - self.N * normalizer_logp
 
     ##################
@@ -113,17 +116,14 @@ class NormalTrunc(DistributionGpm):
         n_samples = 100
 
         # Transition mu.
-        fn_logpdf_mu = lambda mu : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, self.sigma, mu)
+        fn_logpdf_mu = lambda mu : self._calc_log_joint(mu, self.sigma)
 
         self.mu = su.mh_sample(
             self.mu, fn_logpdf_mu, 1, [self.l, self.h],
             burn=n_samples, rng=self.rng)
 
         # Transition sigma.
-        fn_logpdf_sigma = lambda sigma : NormalTrunc.calc_log_likelihood(
-            self.N, self.sum_x, self.sum_x_sq, sigma, self.mu) + \
-            NormalTrunc.calc_log_normalizer(self.mu, sigma, self.l, self.h)
+        fn_logpdf_sigma = lambda sigma : self._calc_log_joint(self.mu, sigma)
 
         self.sigma = su.mh_sample(
             self.sigma, fn_logpdf_sigma, 1, [0, float('inf')], burn=n_samples,
-- 
2.43.0


From bda62d89f0ca4698db23eee49a0a935365127946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 05/47] fix: Crp.gibbs_tables offers fresh tables when nobody
 is seated

---
 src/primitives/crp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/crp.py b/src/primitives/crp.py
index fae7620..524f53a 100644
--- a/src/primitives/crp.py
+++ b/src/primitives/crp.py
@@ -139,7 +139,8 @@ class Crp(DistributionGpm):
         K = sorted(self.counts)
         singleton = self.singleton(rowid)
         m_aux = m - 1 if singleton else m
-        t_aux = [max(self.counts) + 1 + m for m in range(m_aux)]
+        t_next = max(self.counts) + 1 if self.counts else 0
+        t_aux = [t_next + i for i in range(m_aux)]
         return K + t_aux
 
     def singleton(self, rowid):
-- 
2.43.0


From bbd8eb0afb955ecd6d59810baefafe699f0152e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 06/47] fix: Vonmises.set_hypers rejects a nonpositive
 concentration

---
 src/primitives/vonmises.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/vonmises.py b/src/primitives/vonmises.py
index 54349c1..1316d92 100644
--- a/src/primitives/vonmises.py
+++ b/src/primitives/vonmises.py
@@ -110,6 +110,7 @@ class Vonmises(DistributionGpm):
         assert hypers['a'] > 0
         assert hypers['b'] > 0
         assert 0 <= hypers['b'] and hypers['b'] <= 2*pi
+        assert hypers['k'] > 0
         self.a = hypers['a']
         self.b = hypers['b']
         self.k = hypers['k']
-- 
2.43.0


From ca55ae0906d8c57dadd40fc9c114032e037211a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 07/47] fix: logp_crp_fresh splits an integer alpha by true
 division

---
 src/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/general.py b/src/utils/general.py
index d81a96d..3ac584e 100644
--- a/src/utils/general.py
+++ b/src/utils/general.py
@@ -116,7 +116,7 @@ def logp_crp_gibbs(Nk, Z, i, alpha, m):
 def logp_crp_fresh(N, Nk, alpha, m=1):
     """Compute the CRP probabilities for a fresh customer i=N+1, with
     table counts Nk, total customers N=sum(Nk), and m auxiliary tables."""
-    log_crp_numer = np.log(Nk + [alpha/m]*m)
+    log_crp_numer = np.log(Nk + [alpha/float(m)]*m)
     logp_crp_denom = log(N + alpha)
     return log_crp_numer - logp_crp_denom
 
-- 
2.43.0


From 06f41bd611899332fc9aa1a5f6f57168b20da522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 08/47] fix: Dim.set_hypers reaches the auxiliary cluster and
 copies the hypers

---
 src/mixtures/dim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/dim.py b/src/mixtures/dim.py
index 8049b73..c37e645 100644
--- a/src/mixtures/dim.py
+++ b/src/mixtures/dim.py
@@ -205,9 +205,10 @@ class Dim(CGpm):
         return self.aux_model.name()
 
     def set_hypers(self, hypers):
-        self.hypers = hypers
+        self.hypers = dict(hypers)
         for model in self.clusters.values():
-            model.set_hypers(hypers)
+            model.set_hypers(self.hypers)
+        self.aux_model = self.create_aux_model()
 
     def get_suffstats(self):
         if len(self.clusters) == 0:
-- 
2.43.0


From bc077d4f925a5c856596dde2cd2a239cfc93911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:31 +0000
Subject: [PATCH 09/47] fix: samples of different views are drawn independently

---
 src/crosscat/sampling.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crosscat/sampling.py b/src/crosscat/sampling.py
index dcbb7d5..1a5b0ba 100644
--- a/src/crosscat/sampling.py
+++ b/src/crosscat/sampling.py
@@ -95,8 +95,11 @@ def view_simulate(view, rowid, targets, constraints, N):
     lp_cluster = np.add(lp_crp, lp_constraints)
     ks = log_pflip(lp_cluster, array=K, size=N, rng=view.rng)
     counts = {k:n for k,n in enumerate(np.bincount(ks)) if n > 0}
-    samples = (_simulate_row(view, targets, k, counts[k]) for k in counts)
-    return chain.from_iterable(samples)
+    samples = list(chain.from_iterable(
+        _simulate_row(view, targets, k, counts[k]) for k in counts))
+    # The samples are grouped by cluster. Shuffle them, otherwise zipping with
+    # the samples of another view would make independent views dependent.
+    return [samples[i] for i in view.rng.permutation(len(samples))]
 
 
 def _logpdf_row(view, targets, cluster):
-- 
2.43.0


From d346525f57aabccf85514c965bb5a69e997bbbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 10/47] fix: column Gibbs weighs the views in the order of the
 crp tables

---
 src/crosscat/state.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 527eb62..70f8bb0 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -1061,19 +1061,23 @@ class State(CGpm):
         # Current dim object and view index.
         dim = self.dim_for(col)
 
+        # Existing views, in the order of the crp tables (self.views is ordered
+        # by insertion), followed by the auxiliary views.
+        tables = self.crp.clusters[0].gibbs_tables(col, m=m)
+        views = tables[:len(self.views)]
+        t_aux = tables[len(self.views):]
+
         # Compute logp of the dim under existing views.
         dims_proposal = [
             self._dim_get_proposal(self.views[view], dim)
-            for view in self.views
+            for view in views
         ]
         logp_data = [
             self._dim_get_data_logp(self.views[view], dim)
-            for (view, dim) in zip(self.views, dims_proposal)
+            for (view, dim) in zip(views, dims_proposal)
         ]
 
         # Compute logp of the dim under auxiliary views.
-        tables = self.crp.clusters[0].gibbs_tables(col, m=m)
-        t_aux = tables[len(self.views):]
         dims_proposal_aux = [self._dim_get_proposal(None, dim) for _t in t_aux]
         views_proposal_aux = [
             View(self.X, outputs=[self.crp_id_view + t], rng=self.rng)
@@ -1098,7 +1102,7 @@ class State(CGpm):
         # Enforce independence constraints.
         avoid = [a for p in self.Ci if col in p for a in p if a != col]
         for a in avoid:
-            index = self.views.keys().index(self.Zv(a))
+            index = views.index(self.Zv(a))
             logp_views[index] = float('-inf')
 
         # Draw a new view.
-- 
2.43.0


From f86d06d2058dacc8630566426139c09c9fe4d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 11/47] fix: relevance_probability of all rows of a view

---
 src/mixtures/relevance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mixtures/relevance.py b/src/mixtures/relevance.py
index 58373e0..c25f4b4 100644
--- a/src/mixtures/relevance.py
+++ b/src/mixtures/relevance.py
@@ -284,13 +284,13 @@ def row_values(view, rowid):
 
 def get_tables_same(tables):
     """Return tables to iterate over when query, target in same table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     return tables + [singleton]
 
 
 def get_tables_different(tables):
     """Return tables to iterate over when query, target in different table."""
-    singleton = max(tables) + 1
+    singleton = max(tables) + 1 if tables else 0
     tables_target = tables + [singleton]
     auxiliary_table = lambda t: [] if t < singleton else [singleton+1]
     tables_query = [
-- 
2.43.0


From ccc7a1fe0a218179c75592204ecdd2cd01ea2ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:36 +0000
Subject: [PATCH 12/47] fix: logpdf of a hooked cell of an observed row

---
 src/crosscat/state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 70f8bb0..e8c58bd 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -458,7 +458,9 @@ class State(CGpm):
         # https://github.com/probcomp/cgpm/issues/116
         if not fresh \
                 and not simulate \
-                and any(not np.isnan(self.X[q][rowid]) for q in targets):
+                and any(
+                    q in self.X and not np.isnan(self.X[q][rowid])
+                    for q in targets):
             raise ValueError('Cannot constrain observed cell.')
         # Check if the constraints is valid.
         if constraints:
-- 
2.43.0


From 54bcf6f3cacf78efd3a6e6abb999a86f5730ce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:36 +0000
Subject: [PATCH 13/47] fix: an observed row constrains a composite query by
 all its cells

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index e8c58bd..ddbfcef 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -435,7 +435,7 @@ class State(CGpm):
         # Retrieve all values for this rowid not in targets or constraints.
         data = {
             c: self.X[c][rowid]
-            for c in self.outputs[1:]
+            for c in self.outputs
             if not any([
                 c in targets,
                 c in constraints,
-- 
2.43.0


From 8251a9d15be70ab4fbf22063b9b8a3e4a7d1fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 14/47] fix: a State built with conditional dims is composite

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index ddbfcef..3413d74 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -179,7 +179,7 @@ class State(CGpm):
         # Does the state have any conditional GPMs? Conditional GPMs come from
         # - a hooked cgpm;
         # - a conditional dim.
-        self._composite = False
+        self._update_is_composite()
 
     # --------------------------------------------------------------------------
     # Observe
-- 
2.43.0


From f36ddafc218a1dd212f3146c7fa0fa32a2c8649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 15/47] fix: a restored State does not share its diagnostics

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 3413d74..e3cd225 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -167,7 +167,7 @@ class State(CGpm):
             self.diagnostics = defaultdict(list)
             self.diagnostics['iterations'] = dict()
         else:
-            self.diagnostics = defaultdict(list, diagnostics)
+            self.diagnostics = defaultdict(list, copy.deepcopy(diagnostics))
 
         # -- Loom project ------------------------------------------------------
         self._loom_path = loom_path
-- 
2.43.0


From 0311bc633ff27f5a34b6a37223e764ce07ff77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 16/47] fix: dependence probability of composed models sees a
 common ancestral model

A composed model without inputs was reported independent of the models that
read its outputs, and two models reading different outputs of one composed
model were reported independent of each other.
---
 src/crosscat/state.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index e3cd225..9cb55ff 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -568,6 +568,13 @@ class State(CGpm):
         # Direct common ancestor implies dependent.
         if set.intersection(set(ancestors0), set(ancestors1)):
             return 1.
+        # Common ancestral cgpm (counting a variable among its own ancestors)
+        # implies dependent.
+        v_to_c = retrieve_variable_to_cgpm(cgpms)
+        models0 = [v_to_c[a] for a in ancestors0 + [col0] if a in v_to_c]
+        models1 = [v_to_c[a] for a in ancestors1 + [col1] if a in v_to_c]
+        if set.intersection(set(models0), set(models1)):
+            return 1.
         # Dependent ancestors via variable partition at root, Zv.
         cc_ancestors0 = [Zv[i] for i in ancestors0 if i in Zv]
         cc_ancestors1 = [Zv[i] for i in ancestors1 if i in Zv]
-- 
2.43.0


From 7d913b1e0c9fa813967e6a37c7cc25c2d458a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 17/47] fix: OrdinaryLeastSquares.simulate of an observed row
 returns N samples

---
 src/regressions/ols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/ols.py b/src/regressions/ols.py
index 7acaf9c..6cb2a32 100644
--- a/src/regressions/ols.py
+++ b/src/regressions/ols.py
@@ -96,7 +96,8 @@ class OrdinaryLeastSquares(CGpm):
         assert targets == self.outputs
         assert not constraints
         if rowid in self.data.x:
-            return {self.outputs[0]: self.data.x[rowid]}
+            sample = {self.outputs[0]: self.data.x[rowid]}
+            return sample if not N else [sample] * N
         _xt, yt = self.preprocess(None, inputs)
         mean = self.regressor.predict([yt])[0]
         x = self.rng.normal(mean, self.noise, size=N)
-- 
2.43.0


From 9a554221f0f4dfa6c257863d0e401a8bc81a2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 18/47] fix: RandomForest.unincorporate keeps the category
 counts

---
 src/regressions/forest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index 1a2297c..f0965d1 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -74,11 +74,12 @@ class RandomForest(CGpm):
 
     def unincorporate(self, rowid):
         try:
-            del self.data.x[rowid]
+            x = self.data.x.pop(rowid)
             del self.data.Y[rowid]
         except KeyError:
             raise ValueError('No such observation: %d' % rowid)
         self.N -= 1
+        self.counts[x] -= 1
 
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         assert not constraints
-- 
2.43.0


From 5015c3d0d0fa382932722a9284a13f71eb83b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 19/47] fix: RandomForest.from_metadata shared the counts with
 the metadata

---
 src/regressions/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regressions/forest.py b/src/regressions/forest.py
index f0965d1..3f9726c 100644
--- a/src/regressions/forest.py
+++ b/src/regressions/forest.py
@@ -268,5 +268,5 @@ class RandomForest(CGpm):
         Y = ((int(k), v) for k, v in metadata['data']['Y'].iteritems())
         forest.data = Data(x=OrderedDict(x), Y=OrderedDict(Y))
         forest.N = metadata['N']
-        forest.counts = metadata['counts']
+        forest.counts = list(metadata['counts'])
         return forest
-- 
2.43.0


From 3b44e3386ee20eb27a5548d41bc6bc3e5fe68358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 20/47] fix: LinearRegression.to_metadata stores the prior of
 the coefficients as lists

---
 src/regressions/linreg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5974819..5f842da 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -88,8 +88,8 @@ class LinearRegression(CGpm):
         if hypers is None: hypers = {}
         self.a = hypers.get('a', 1.)
         self.b = hypers.get('b', 1.)
-        self.mu = hypers.get('mu', np.zeros(self.p))
-        self.V = hypers.get('V', np.eye(self.p))
+        self.mu = np.asarray(hypers.get('mu', np.zeros(self.p)))
+        self.V = np.asarray(hypers.get('V', np.eye(self.p)))
 
     def incorporate(self, rowid, observation, inputs=None):
         assert rowid not in self.data.x
@@ -344,6 +344,9 @@ class LinearRegression(CGpm):
         metadata['data'] = {'x': self.data.x, 'Y': self.data.Y}
         metadata['distargs'] = self.get_distargs()
         metadata['hypers'] = self.get_hypers()
+        # Store the prior of the coefficients as lists for JSON.
+        metadata['hypers']['mu'] = self.mu.tolist()
+        metadata['hypers']['V'] = self.V.tolist()
         metadata['factory'] = ('cgpm.regressions.linreg', 'LinearRegression')
         return metadata
 
-- 
2.43.0


From aa5aef35f454946548bbb259a973797111be1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 21/47] fix: FactorAnalysis.logpdf_score scored rowids instead
 of rows

---
 src/factor/factor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factor/factor.py b/src/factor/factor.py
index 0095085..d5fc425 100644
--- a/src/factor/factor.py
+++ b/src/factor/factor.py
@@ -213,9 +213,10 @@ class FactorAnalysis(CGpm):
     def logpdf_score(self):
         def compute_logpdf(x):
             assert len(x) == self.D
-            targets = {i:v for i,v in enumerate(x) if not np.isnan(v)}
+            targets = {o:v for o,v in zip(self.observables, x)
+                if not np.isnan(v)}
             return self.logpdf(None, targets)
-        return sum(compute_logpdf(x) for x in self.data)
+        return sum(compute_logpdf(x) for x in self.data.values())
 
     def transition(self, N=None):
         X = np.asarray(self.data.values())
-- 
2.43.0


From fbfc69f3125b09a8f1aa9c46f23c5f523e025c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 22/47] fix: MultivariateKnn dropped nearer neighbours when
 breaking ties

---
 src/knn/mvknn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/knn/mvknn.py b/src/knn/mvknn.py
index 7d623c5..ac8a04f 100644
--- a/src/knn/mvknn.py
+++ b/src/knn/mvknn.py
@@ -196,8 +196,13 @@ class MultivariateKnn(CGpm):
         # Check for equidistant neighbors and possibly extend the search.
         valid = [i for i, d in enumerate(dist[0]) if d <= dist[0][self.K-1]]
         if self.K < len(valid):
-            neighbors = self.rng.choice(neighbors[0][valid],
-                replace=False, size=self.K)
+            # Keep all the nearer neighbors, and break the tie at random.
+            closer = [i for i in valid if dist[0][i] < dist[0][self.K-1]]
+            ties = [i for i in valid if i not in closer]
+            neighbors = np.append(
+                neighbors[0][closer].astype(int),
+                self.rng.choice(neighbors[0][ties],
+                    replace=False, size=self.K-len(closer)))
         else:
             neighbors = neighbors[0][:self.K]
         # For each neighbor, find its nearest M on the full lookup set.
-- 
2.43.0


From e6fee88959e56c0bb3282cb28141e7f026c4e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 23/47] fix: mh_sample reflects proposals at both ends of the
 unit interval

---
 src/utils/sampling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index f8b7f38..9cfdb7f 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -79,12 +79,12 @@ def mh_sample(
     # XXX DISABLED.
     log_correction = lambda x, x_prime, jstd: 0
 
-    # Is proposal symmetric? The folded normal is, but taking % 1?
     if D[0] == 0 and D[1] == 1:
+        # Reflect the proposal at 0 and at 1.
         def jumpfun(x, jstd):
-            x_prime = fabs(rng.normal(x, jstd))
+            x_prime = fabs(rng.normal(x, jstd)) % 2
             if x_prime > 1.0:
-                x_prime = x_prime % 1
+                x_prime = 2 - x_prime
             return x_prime
     elif 0 <= D[0] and D[1] == float('inf'):
         jumpfun = lambda x, jstd: fabs(x + rng.normal(0.0, jstd))
-- 
2.43.0


From 21a7b61c35771b241e5b16e617577d3a39b7189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 24/47] fix: mh_sample reflects proposals at the lower end of
 the support

---
 src/utils/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index 9cfdb7f..400e1ca 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -87,7 +87,7 @@ def mh_sample(
                 x_prime = 2 - x_prime
             return x_prime
     elif 0 <= D[0] and D[1] == float('inf'):
-        jumpfun = lambda x, jstd: fabs(x + rng.normal(0.0, jstd))
+        jumpfun = lambda x, jstd: D[0] + fabs(x - D[0] + rng.normal(0.0, jstd))
     else:
         def jumpfun(x, jstd):
             MAX_TRIALS = 1000
-- 
2.43.0


From 093c87bba3ff4c5ad31115ff63156575e10ef1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 25/47] fix: mh_sample corrects for the mass of its truncated
 proposal

---
 src/utils/sampling.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/utils/sampling.py b/src/utils/sampling.py
index 400e1ca..f5159fd 100644
--- a/src/utils/sampling.py
+++ b/src/utils/sampling.py
@@ -19,6 +19,8 @@ from math import log
 
 import numpy as np
 
+from scipy.stats import norm
+
 from cgpm.utils import general as gu
 
 
@@ -76,7 +78,7 @@ def mh_sample(
     iters = 1.0
     aiters = 1.0
 
-    # XXX DISABLED.
+    # The reflected proposals are symmetric.
     log_correction = lambda x, x_prime, jstd: 0
 
     if D[0] == 0 and D[1] == 1:
@@ -96,13 +98,12 @@ def mh_sample(
                 if D[0] < x_prime < D[1]:
                     return x_prime
             raise RuntimeError('MH failed to rejection sample the proposal.')
-        # XXX DISABLED, actually the mh function needs rewriting issue #56.
+        # The proposal is a normal truncated to D, whose mass depends on x.
         def log_correction(x, x_prime, jstd):
-            from scipy.stats import norm
-            if D[0] == float('inf') and D[1] == float('inf'):
-                return 0
-            return norm.logcdf((D[1]-x)/jump_std-(D[0]-x)/jump_std) \
-                - norm.logcdf((D[1]-x_prime)/jump_std-(D[0]-x_prime)/jump_std)
+            mass = norm.cdf((D[1]-x)/jstd) - norm.cdf((D[0]-x)/jstd)
+            mass_prime = norm.cdf((D[1]-x_prime)/jstd) \
+                - norm.cdf((D[0]-x_prime)/jstd)
+            return log(mass) - log(mass_prime)
 
     logp = logpdf_target(x)
     while num_collected < num_samples:
@@ -111,10 +112,9 @@ def mh_sample(
         assert D[0] < x_prime < D[1]
         logp_prime = logpdf_target(x_prime)
 
-        # XXX DISABLED Correct MH sampler requires the log correction!
-        # logp_corr = log_correction(x, x_prime, jump_std)
+        logp_corr = log_correction(x, x_prime, jump_std)
 
-        if log(rng.rand()) < logp_prime - logp:
+        if log(rng.rand()) < logp_prime - logp + logp_corr:
             x = x_prime
             logp = logp_prime
             accepted += 1.0
-- 
2.43.0


From 841727d10419010e7c6b01a6e7079708117fe023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 26/47] fix: PieceWise.logpdf scores x and not z as the value
 of x in a joint query

---
 src/dummy/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/piecewise.py b/src/dummy/piecewise.py
index 913cd0c..5e00778 100644
--- a/src/dummy/piecewise.py
+++ b/src/dummy/piecewise.py
@@ -95,7 +95,7 @@ class PieceWise(CGpm):
         if not constraints:
             # Case 1.1: z in the targets and x in the targets.
             if self.outputs[0] in targets and self.outputs[1] in targets:
-                z, x = targets[self.outputs[1]], targets[self.outputs[1]]
+                z, x = targets[self.outputs[1]], targets[self.outputs[0]]
                 # XXX Check if z in [0, 1]
                 logp_z = np.log(self.flip) if z == 0 else np.log(1-self.flip)
                 logp_x = logpdf_normal(x, y + (2*z - 1), self.sigma)
-- 
2.43.0


From 9b6b5f4663be5a2dbaf5b9593c625da1e0fc6b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 27/47] fix: FourWay.logpdf normalises the row that simulate
 draws from

---
 src/dummy/fourway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/fourway.py b/src/dummy/fourway.py
index de6daa8..341cc83 100644
--- a/src/dummy/fourway.py
+++ b/src/dummy/fourway.py
@@ -63,7 +63,7 @@ class FourWay(CGpm):
             inputs[self.inputs[0]],
             inputs[self.inputs[1]],
         )
-        return np.log(self.probabilities[regime][x])
+        return np.log(gu.normalize(self.probabilities[regime])[x])
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
-- 
2.43.0


From d9fcaa3e200d37cebfc2b8d819c3d1c66b206d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 28/47] fix: DirectedXyGpm passes constraints and inputs to its
 network in their own places

---
 src/uncorrelated/directed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index 0cb632f..a9cb661 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -49,9 +49,9 @@ class DirectedXyGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.logpdf(rowid, targets, inputs)
+        return self.network.logpdf(rowid, targets, constraints, inputs)
 
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         if self.network is None:
             raise ValueError('self.network not defined by %s' % (type(self),))
-        return self.network.simulate(rowid, targets, inputs, N)
+        return self.network.simulate(rowid, targets, constraints, inputs, N)
-- 
2.43.0


From 28946cb463564cd290abd75d1ed7d5d27cb6db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 29/47] fix: UnDirectedXyGpm.logpdf calls logpdf_marginal

---
 src/uncorrelated/undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/undirected.py b/src/uncorrelated/undirected.py
index b62c6b1..68ab73e 100644
--- a/src/uncorrelated/undirected.py
+++ b/src/uncorrelated/undirected.py
@@ -41,7 +41,7 @@ class UnDirectedXyGpm(CGpm):
                 return self.logpdf_joint(x, y)
             else:
                 z = targets.values()[0]
-                return self.logpdf_maringal(z)
+                return self.logpdf_marginal(z)
         else:
             assert len(constraints) == len(targets) == 1
             z = constraints.values()[0]
-- 
2.43.0


From fddbd460035da7c0205fa5e79335e6bd7d2bb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 30/47] fix: DirectedXyGpm has its (empty) list of inputs, as
 every component

---
 src/uncorrelated/directed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uncorrelated/directed.py b/src/uncorrelated/directed.py
index a9cb661..d8e5885 100644
--- a/src/uncorrelated/directed.py
+++ b/src/uncorrelated/directed.py
@@ -41,6 +41,7 @@ class DirectedXyGpm(CGpm):
             noise = .1
         self.rng = rng
         self.outputs = outputs
+        self.inputs = []
         self.noise = noise
         self.acc = acc
         # Override the network in subclass.
-- 
2.43.0


From 6e1eaa9b910446b289dd7c56830834a0578fdfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 31/47] fix: the parts of Parabola, Sin and Diamond draw from
 the generator they were given

---
 src/uncorrelated/diamond.py  | 6 ++++--
 src/uncorrelated/parabola.py | 6 ++++--
 src/uncorrelated/sin.py      | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/uncorrelated/diamond.py b/src/uncorrelated/diamond.py
index e29e48c..39bebec 100644
--- a/src/uncorrelated/diamond.py
+++ b/src/uncorrelated/diamond.py
@@ -66,9 +66,11 @@ class Diamond(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1,
+            rng=self.rng)
         self.y = DiamondY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/parabola.py b/src/uncorrelated/parabola.py
index 2335d21..9400e39 100644
--- a/src/uncorrelated/parabola.py
+++ b/src/uncorrelated/parabola.py
@@ -75,9 +75,11 @@ class Parabola(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1, high=1)
+            outputs=[self.outputs[0]], low=-1, high=1,
+            rng=self.rng)
         self.y = ParabolaY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
diff --git a/src/uncorrelated/sin.py b/src/uncorrelated/sin.py
index 5033419..7c42c5e 100644
--- a/src/uncorrelated/sin.py
+++ b/src/uncorrelated/sin.py
@@ -75,11 +75,13 @@ class Sin(DirectedXyGpm):
         DirectedXyGpm.__init__(
             self, outputs=outputs, inputs=inputs, noise=noise, rng=rng)
         self.x = UniformX(
-            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi)
+            outputs=[self.outputs[0]], low=-1.5*np.pi, high=1.5*np.pi,
+            rng=self.rng)
         self.y = SinY(
             outputs=[self.outputs[1]],
             inputs=[self.outputs[0]],
-            noise=noise)
+            noise=noise,
+            rng=self.rng)
         self.network = ImportanceNetwork([self.x, self.y], rng=self.rng)
 
     # All further methods are here for historical reasons and are not invoked.
-- 
2.43.0


From cb9c4d8bf9e6acd5253ab714471af079744d0f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 32/47] fix: DiamondY.simulate raised ValueError at x = 0

---
 src/uncorrelated/diamond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uncorrelated/diamond.py b/src/uncorrelated/diamond.py
index 39bebec..cd43bbb 100644
--- a/src/uncorrelated/diamond.py
+++ b/src/uncorrelated/diamond.py
@@ -45,11 +45,11 @@ class DiamondY(CGpm):
         noise = self.rng.uniform(high=self.noise)
         if x < 0 and slope < .5:
             y = max(-x-1, x+1 - noise)
-        elif x < 0 and slope > .5:
+        elif x < 0 and slope >= .5:
             y = min(x+1, -x-1 + noise)
-        elif x > 0 and slope < .5:
+        elif x >= 0 and slope < .5:
             y = min(-x+1, x-1 + noise)
-        elif x > 0 and slope > .5:
+        elif x >= 0 and slope >= .5:
             y = max(x-1, -x+1 - noise)
         else:
             raise ValueError()
-- 
2.43.0


From 78e0f2c222737e1345e53daf8cf61fbc888f50c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:35 +0000
Subject: [PATCH 33/47] fix: Dots.logpdf_conditional scored the condition and
 not the target

---
 src/uncorrelated/dots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncorrelated/dots.py b/src/uncorrelated/dots.py
index 121d18d..06eef50 100644
--- a/src/uncorrelated/dots.py
+++ b/src/uncorrelated/dots.py
@@ -49,4 +49,4 @@ class Dots(UnDirectedXyGpm):
             for mx in set(self.mx)])
 
     def logpdf_conditional(self, w, z):
-        return self.logpdf_marginal(z)
+        return self.logpdf_marginal(w)
-- 
2.43.0


From c811cd2e4c1bcb88681bd1fae545db39da94de91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 34/47] fix: parse_schema erased 'NA' in the caller's dataframe

---
 src/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index c8b6d7a..8bf9f35 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -80,7 +80,7 @@ def parse_schema(schema, dataframe):
 
     >>> S = cgpm.crosscat.state.State(D, cctypes=cctypes, distargs=distargs)
     """
-    dataframe.replace('NA', np.nan, inplace=True)
+    dataframe = dataframe.replace('NA', np.nan)
     D = []
     cctypes, distargs = [], []
     valmap = dict()
-- 
2.43.0


From 206ced1673c693bc8ffd05ed929c573e48d0ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 35/47] fix: parse_schema did not understand categorical(k=...)

---
 src/utils/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index 8bf9f35..0edac1e 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -90,10 +90,11 @@ def parse_schema(schema, dataframe):
         if stattype == 'ignore':
             continue
         X = dataframe[column]
+        (stattype,), (distarg,) = cu.parse_distargs([stattype])
         columns.append(column)
         cctypes.append(stattype)
         outputs.append(index)
-        distargs.append(None)
+        distargs.append(distarg)
         # XXX Should check for is_numeric!
         if stattype in ['bernoulli', 'categorical']:
             mapping = build_valmap(X)
@@ -103,11 +104,10 @@ def parse_schema(schema, dataframe):
                 assert len(mapping) == 2
             else:
                 # Did user specify categorical mapping?
-                dist, k_user = cu.parse_distargs([column])
-                if k_user == [None]:
+                if distarg is None:
                     distargs[-1] = {'k': len(mapping)}
                 else:
-                    assert len(mapping) <= k_user
+                    assert len(mapping) <= distarg['k']
         D.append(X)
     T = np.asarray(D).T
     assert len(cctypes) == len(distargs) == len(columns)
-- 
2.43.0


From 4cbfcc684b73ccf439c15019e77276a7cba87813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 36/47] fix: build_valmap numbered categories out of order next
 to missing cells

---
 src/utils/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/data.py b/src/utils/data.py
index 0edac1e..4ef96e4 100644
--- a/src/utils/data.py
+++ b/src/utils/data.py
@@ -116,7 +116,7 @@ def parse_schema(schema, dataframe):
 
 
 def build_valmap(column):
-    uniques = [u for u in sorted(column.unique()) if not pd.isnull(u)]
+    uniques = sorted(u for u in column.unique() if not pd.isnull(u))
     return {u:k for k,u in enumerate(uniques)}
 
 
-- 
2.43.0


From 43c0bd9533a6ffafd420db488110dc2f60598180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 37/47] fix: lovecat.transition failed without N and S

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 239ceec..7b1a8ca 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -349,7 +349,7 @@ def transition(
     if N is None and S is None:
         n_steps = 1
         max_time = -1
-    if N is not None and S is None:
+    elif N is not None and S is None:
         n_steps = N
         max_time = -1
     elif S is not None and N is None:
-- 
2.43.0


From fa77bb224784eaaf4955d30f294cab0b614e87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 38/47] fix: lovecat was given the row partitions in the order
 rows were last moved

---
 src/crosscat/lovecat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 7b1a8ca..1e344d8 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -100,7 +100,7 @@ def _crosscat_X_D(state, M_c):
     views_unique = sorted(set(view_assignments))
 
     cluster_assignments = [
-        state.views[v].Zr().values()
+        [state.views[v].Zr(rowid) for rowid in xrange(state.n_rows())]
         for v in views_unique
     ]
     cluster_assignments_unique = [
-- 
2.43.0


From 13380b484256888e7d3a4cefd0930f119be716c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 39/47] fix: lovecat column constraints name columns by index

---
 src/crosscat/lovecat.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/crosscat/lovecat.py b/src/crosscat/lovecat.py
index 1e344d8..76e67fb 100644
--- a/src/crosscat/lovecat.py
+++ b/src/crosscat/lovecat.py
@@ -201,18 +201,20 @@ def _crosscat_X_L(state, M_c, X_D):
     # partition in each view), as well as X_L['column_partition']['assignments']
     view_states = [view_state(v) for v in views_unique]
 
-    # Generates X_L['col_ensure'].
+    # Generates X_L['col_ensure'], where columns are zero-based indexes.
     col_ensure = dict()
+    index = {output: i for i, output in enumerate(state.outputs)}
     if state.Cd:
         col_ensure['dependent'] = {
-            str(column) : list(block)
+            str(index[column]) : [index[c] for c in block]
             for block in state.Cd for column in block
         }
     if state.Ci:
         from crosscat.utils.general_utils import get_scc_from_tuples
+        Ci = [(index[a], index[b]) for a, b in state.Ci]
         col_ensure['independent'] = {
             str(column) : list(block) for
-            column, block in get_scc_from_tuples(state.Ci).iteritems()
+            column, block in get_scc_from_tuples(Ci).iteritems()
         }
 
     return {
-- 
2.43.0


From bc52787b26f6c7240a297e761c157d016d7ac470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:56 +0000
Subject: [PATCH 40/47] fix: loomcat.transition_engine passed N=None on to Loom

---
 src/crosscat/loomcat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crosscat/loomcat.py b/src/crosscat/loomcat.py
index 64abd68..159c359 100644
--- a/src/crosscat/loomcat.py
+++ b/src/crosscat/loomcat.py
@@ -318,6 +318,9 @@ def transition_engine(
         for state in engine.states:
             state._loom_path = loom_path
 
+    if N is None:
+        N = 1
+
     # Run transitions using Loom multiprocessing.
     loom.tasks.infer(
         engine.states[0]._loom_path['results'],
-- 
2.43.0


From 3211bd43d792b3e380a7c708c85cb06453e0c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 41/47] fix: kldiv failed with one neighbour

---
 src/utils/entropy_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/entropy_estimators.py b/src/utils/entropy_estimators.py
index a98f500..3091ae0 100755
--- a/src/utils/entropy_estimators.py
+++ b/src/utils/entropy_estimators.py
@@ -84,7 +84,7 @@ def kldiv(x, xp, k=3, base=2):
   tree = ss.cKDTree(x)
   treep = ss.cKDTree(xp)
   nn = [tree.query(point, k+1, p=float('inf'))[0][k] for point in x]
-  nnp = [treep.query(point, k, p=float('inf'))[0][k-1] for point in x]
+  nnp = [np.ravel(treep.query(point, k, p=float('inf'))[0])[k-1] for point in x]
   return (const + d * np.mean(map(log, nnp)) \
     - d * np.mean(map(log, nn))) / log(base)
 
-- 
2.43.0


From 84f3af9a8b5ef30d57f3167ce104289df5d7993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 42/47] fix: information given Z and W=w drew Z without regard
 to w

---
 src/crosscat/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crosscat/state.py b/src/crosscat/state.py
index 9cb55ff..958b9fd 100644
--- a/src/crosscat/state.py
+++ b/src/crosscat/state.py
@@ -681,7 +681,7 @@ class State(CGpm):
             return m
         if progress:
             self._progress(0./T)
-        m_samples = self.simulate(None, m_constraints, N=T)
+        m_samples = self.simulate(None, m_constraints, e_constraints, N=T)
         mi = sum(compute_one(i, samp) for i, samp in enumerate(m_samples))
         return mi / float(T)
 
-- 
2.43.0


From 9a2d073ac00036a672c6fee77f30dc61bca22a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 43/47] fix: VsCGpm.simulate ignored N

---
 src/venturescript/vscgpm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index ad0a6d2..bc896e2 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -93,6 +93,7 @@ class VsCGpm(CGpm):
     def logpdf(self, rowid, targets, constraints=None, inputs=None):
         return 0
 
+    @gu.simulate_many
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
-- 
2.43.0


From 7a1069909d85839028dbf0c4d9c19a0d8f274ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:52 +0000
Subject: [PATCH 44/47] fix: VsCGpm.simulate given constraints left a trace of
 the row

---
 src/venturescript/vscgpm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/venturescript/vscgpm.py b/src/venturescript/vscgpm.py
index bc896e2..637ae19 100644
--- a/src/venturescript/vscgpm.py
+++ b/src/venturescript/vscgpm.py
@@ -97,6 +97,7 @@ class VsCGpm(CGpm):
     def simulate(self, rowid, targets, constraints=None, inputs=None, N=None):
         constraints_clean, inputs_clean = \
             self._validate_simulate(rowid, targets, constraints, inputs)
+        incorporated = rowid in self.obs
         # Handle constraints on the multivariate output.
         if constraints_clean:
             # Observe constrained outputs.
@@ -117,6 +118,9 @@ class VsCGpm(CGpm):
         # Forget constrained outputs.
         for q, _v in constraints_clean.iteritems():
             self._forget_cell(rowid, q)
+        # Do not leave an entry for a row which was not incorporated.
+        if not incorporated:
+            self.obs.pop(rowid, None)
         return samples
 
     def logpdf_score(self):
-- 
2.43.0


From 88405cab15e528319b14c828f03633edddd12195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 45/47] fix: LinearRegression raised UnboundLocalError on a
 nominal input without k

---
 src/regressions/linreg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/regressions/linreg.py b/src/regressions/linreg.py
index 5f842da..56be1f0 100644
--- a/src/regressions/linreg.py
+++ b/src/regressions/linreg.py
@@ -273,6 +273,8 @@ class LinearRegression(CGpm):
             # way the queries are robust to unspecified or misspecified
             # categories.
             p, counts = cca['k'], int(cca['k'])+1
+        else:
+            raise ValueError('Invalid stattype, stargs: %s, %s.' % (cct, cca))
         return int(p), counts
 
     @staticmethod
-- 
2.43.0


From a1ee878cef9c4fccc329e5a8ccda5b38d3094e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 46/47] fix: TrollNormal.logpdf rounded the squared deviation
 on integers

With an integer location, scale and value the quotient was a floor
division, and the density was wrong.
---
 src/dummy/trollnormal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dummy/trollnormal.py b/src/dummy/trollnormal.py
index e7f9a82..8fe7f1f 100644
--- a/src/dummy/trollnormal.py
+++ b/src/dummy/trollnormal.py
@@ -58,7 +58,7 @@ class TrollNormal(CGpm):
 
     def _gaussian_log_pdf(self, x, mu, s):
         normalizing_constant = -(np.log(2 * np.pi) / 2) - np.log(s)
-        return normalizing_constant - ((x - mu)**2 / (2 * s**2))
+        return normalizing_constant - ((x - mu)**2 / (2. * s**2))
 
     def transition(self, N=None, S=None):
         time.sleep(.1)
-- 
2.43.0


From 8c3c63c3a62f5619e7c55fb7812aff1fa2c4d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:57 +0000
Subject: [PATCH 47/47] fix: re-enter columns conditioned on a forced cell in
 View.force_cell

---
 src/mixtures/view.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mixtures/view.py b/src/mixtures/view.py
index 765026f..b47c4f1 100644
--- a/src/mixtures/view.py
+++ b/src/mixtures/view.py
@@ -189,6 +189,14 @@ class View(CGpm):
             self.dims[d].unincorporate(rowid)
             inputs = self._get_input_values(rowid, self.dims[d], k)
             self.dims[d].incorporate(rowid, {d: observation[d]}, inputs)
+        # The columns conditioned on a forced cell have new inputs.
+        for d in self.dims:
+            dim = self.dims[d]
+            if d not in observation and \
+                    any(i in observation for i in dim.inputs[1:]):
+                dim.unincorporate(rowid)
+                inputs = self._get_input_values(rowid, dim, k)
+                dim.incorporate(rowid, {d: self.X[d][rowid]}, inputs)
 
     # --------------------------------------------------------------------------
     # Update schema.
-- 
2.43.0

