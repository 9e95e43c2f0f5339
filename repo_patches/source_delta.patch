From 79975afe46050c9ee3380e77d8fe3e15fc705502 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 01/18] fix: make the gradient-based mean-field schemes fit

---
 gpcm/approx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index c622902..846e273 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -114,7 +114,7 @@ class Approximation:
             names.append("-" + self.model.ps.q_u[self._q_i].all())
         elif current == "z":
             names.append("-" + self.model.ps.q_z[self._q_i].all())
-        else:
+        elif current is not False:
             raise ValueError(f'Invalid value "{current}" for `current`.')
         return names
 
@@ -800,7 +800,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
 
     if approximation.fit == "ca":
         _fit_mean_field_ca(model(), t, y, iters)
-    elif approximation.fit == "bfgs":
+    elif approximation.fit in {"ca-bfgs", "bfgs"}:
         # Pre-fit a CA solution, if applicable.
         if approximation.fit == "ca-bfgs":
             _fit_mean_field_ca(model(), t, y, iters)
@@ -816,7 +816,7 @@ def fit(model, t, y, approximation: MeanField, iters: B.Int = 5000):
             iters=iters // 5,
             trace=True,
             jit=True,
-            names=model().approximation.ignore_qs(previous=True),
+            names=model().approximation.ignore_qs(previous=True, current=False),
         )
 
         # Post-fit a CA solution, if applicable.
-- 
2.43.0


From 15b0762db4203c49472aa13f97531f2e66554486 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 02/18] fix: let the mean-field schemes predict Fourier
 features

---
 gpcm/approx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 846e273..4447ae8 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -675,9 +675,13 @@ class MeanField(Approximation):
         return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
 
     @_dispatch
-    def predict_z(self):
+    def predict_z(self, num_samples: B.Int = 1000):
         """Predict Fourier features under the mean-field approximation.
 
+        Args:
+            num_samples (int, optional): Does nothing. Provided to ensure a consistent
+                interface between all approximations.
+
         Returns:
             tuple[vector, vector]: Marginals of the predictions.
         """
-- 
2.43.0


From 39a3e9d4c85b197e580e51ecfebf1d38961ccb0f Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 03/18] fix: integrate over boxes with a finite lower and an
 infinite upper limit

---
 gpcm/exppoly.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 1e67949..24e00b1 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -588,6 +588,12 @@ class ExpPoly:
         for name, lower, upper in name_and_lims:
             parts_new = []
             for part in parts:
+                if is_inf(upper):
+                    # Reflect to integrate from the lower limit to infinity.
+                    lower = _as_poly(lower)
+                    reflected = part.poly.substitute(name, lower - var(name))
+                    parts_new.append(ExpPoly(part.const, reflected))
+                    continue
                 if not is_inf(upper):
                     upper = _as_poly(upper)  # Ensure that it is a polynomial.
                     parts_new.append(part.translate_var(name, upper))
-- 
2.43.0


From 142249c45c88ff8de2140017b0f5f552501971dc Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 04/18] fix: keep the polynomials closed under substitution and
 powers

---
 gpcm/exppoly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 24e00b1..8233633 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -392,7 +392,7 @@ class Poly:
             int: Highest power of variable `name`. Returns `0` if it does not depend
                 on `name`.
         """
-        return max([term.highest_power(name) for term in self.terms])
+        return max([term.highest_power(name) for term in self.terms], default=0)
 
     @_dispatch
     def substitute(self, name: str, poly: "Poly"):
@@ -405,7 +405,7 @@ class Poly:
         Returns:
             :class:`.exppoly.Poly`: Result of substitution.
         """
-        result = 0
+        result = Poly()
         for term in self.terms:
             result = result + term.substitute(name, poly)
         return result
@@ -465,7 +465,7 @@ class Poly:
         assert modulo is None, 'Keyword "modulo" is not supported.'
         if power < 0:
             raise RuntimeError("Can only raise polynomials to non-negative integers.")
-        return reduce(operator.mul, [self] * power, 1)
+        return reduce(operator.mul, [self] * power, const(1))
 
 
 @_dispatch
-- 
2.43.0


From ab23c346d7e13454ee0b473c504b1c7588d2dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 05/18] fix: evaluate polynomials in an order that does not
 depend on the hash seed

---
 gpcm/exppoly.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 8233633..785d8ef 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -194,7 +194,10 @@ class Term:
             tensor: Evaluated term.
         """
         return reduce(
-            operator.mul, [x.eval(**var_map) for x in self.factors], self.const
+            operator.mul,
+            # The order of iteration over a set of strings differs between processes.
+            [x.eval(**var_map) for x in sorted(self.factors, key=str)],
+            self.const,
         )
 
     def is_constant(self):
@@ -301,7 +304,7 @@ class Term:
 
 def _merge_common_terms(*terms):
     merged_terms = []
-    for factors in set(frozenset(x.factors) for x in terms):
+    for factors in dict.fromkeys(frozenset(x.factors) for x in terms):
         associated_terms = filter(lambda x: x.factors == factors, terms)
         merged_terms.append(reduce(operator.add, associated_terms, 0))
     return merged_terms
-- 
2.43.0


From b23aa9c0532ec536575517385f97166ac7c575c0 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 06/18] fix: order the frequencies of the PSD before
 integrating over them

---
 gpcm/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpcm/util.py b/gpcm/util.py
index 02384d6..5e07823 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -108,6 +108,9 @@ def estimate_psd(t, k, n_zero=2_000, db=False):
     # Should be real and positive, but the numerics may not be in our favour.
     psd = np.abs(np.real(psd))
 
+    # The frequencies must be increasing to be able to integrate over them.
+    freqs, psd = np.fft.fftshift(freqs), np.fft.fftshift(psd)
+
     # Now scale appropriately: the total power should equal `k[0]`.
     total_power = np.trapz(y=psd, x=freqs)
     psd /= total_power / k[0]
-- 
2.43.0


From f1a3752bdd24a5dca8719497914d40ddf132f32c Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 07/18] fix: let the 68% credible interval contain 68% of the
 samples

---
 gpcm/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 5e07823..ab31991 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -67,8 +67,8 @@ def summarise_samples(x, samples, db=False):
         x=B.to_numpy(x),
         mean=transform(B.mean(samples, axis=0)),
         var=transform(B.std(samples, axis=0)) ** 2,
-        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
-        err_68_upper=transform(B.quantile(samples, 1 - 0.32, axis=0)),
+        err_68_lower=transform(B.quantile(samples, 0.16, axis=0)),
+        err_68_upper=transform(B.quantile(samples, 1 - 0.16, axis=0)),
         err_95_lower=transform(B.quantile(samples, 0.025, axis=0)),
         err_95_upper=transform(B.quantile(samples, 1 - 0.025, axis=0)),
         err_99_lower=transform(B.quantile(samples, 0.0015, axis=0)),
-- 
2.43.0


From ec6514a52657642553f362a9dc12e305b2e34573 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 08/18] fix: plot the EQ experiment over the range of the data

---
 experiments/eq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/eq.py b/experiments/eq.py
index d741380..ee1066e 100644
--- a/experiments/eq.py
+++ b/experiments/eq.py
@@ -9,7 +9,7 @@ args, wd = setup("eq")
 n = 881  # Add last one for `linspace`.
 noise = 0.1
 t = B.linspace(-44, 44, n)
-t_plot = B.linspace(44, 44, 500)
+t_plot = B.linspace(-44, 44, 500)
 
 # Setup true model and GPCM models.
 kernel = EQ()
-- 
2.43.0


From 3ee90ee0aa4462ea3ca0cc0eb9ee2ae1fec246cd Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 09/18] fix: normalise the transform of the RGPCM for the value
 of gamma that is used

---
 gpcm/rgpcm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 0bf9b38..94c2dcb 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -170,11 +170,12 @@ class RGPCM(AbstractGPCM):
         if gamma is None:
             gamma = 1 / (2 * (self.t_u[1] - self.t_u[0]))
 
-        if gamma_t is None:
-            gamma_t = B.sqrt(2 * gamma)
-
         # Must ensure that `gamma < alpha`.
         self.gamma = min(gamma, self.alpha / 1.5)
+
+        if gamma_t is None:
+            gamma_t = B.sqrt(2 * self.gamma)
+
         self.gamma_t = gamma_t
 
     def k_h(self):
-- 
2.43.0


From 55c28300e823c36b2fc6378b04bb562f4cf22102 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 10/18] fix: document the actual default observation noise

---
 gpcm/gpcm.py  | 2 +-
 gpcm/rgpcm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index 5d21f03..cf0c59e 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -45,7 +45,7 @@ class GPCM(AbstractGPCM):
     Args:
         scheme (str, optional): Approximation scheme. Defaults to `structured`.
         causal (bool, optional): Use causal variant. Defaults to `False`.
-        noise (scalar, optional): Observation noise. Defaults to `1e-4`.
+        noise (scalar, optional): Observation noise. Defaults to `5e-2`.
         fix_noise (bool, optional): Do not learn the observation noise. Defaults
             to `False`.
         alpha (scalar, optional): Decay of the window.
diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 94c2dcb..8efe1dd 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -16,7 +16,7 @@ class RGPCM(AbstractGPCM):
 
     Args:
         scheme (str, optional): Approximation scheme. Defaults to `structured`.
-        noise (scalar, optional): Observation noise. Defaults to `1e-4`.
+        noise (scalar, optional): Observation noise. Defaults to `5e-2`.
         fix_noise (bool, optional): Do not learn the observation noise. Defaults
             to `False`.
         alpha (scalar, optional): Decay of the window.
-- 
2.43.0


From 845a3b0484aae42bdc7ea86ee3424dacbfc578bd Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 11/18] fix: scale the kernel of the filter by the scale of the
 window

---
 gpcm/gpcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index cf0c59e..b3457bc 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -246,7 +246,7 @@ class GPCM(AbstractGPCM):
         """
         # Convert `self.gamma` to a regular length scale.
         gamma_scale = B.sqrt(1 / (2 * self.gamma))
-        k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
+        k_h = self.alpha_t**2 * EQ().stretch(gamma_scale)  # Kernel before window
         k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
         if self.causal:
             k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
-- 
2.43.0


From 3edd62a216df1c81d50eebcdfd5f464c913548f6 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 12/18] fix: report the number of attempts of the elliptical
 slice sampler

---
 gpcm/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/sample.py b/gpcm/sample.py
index d9a840a..88410a9 100644
--- a/gpcm/sample.py
+++ b/gpcm/sample.py
@@ -94,7 +94,7 @@ class ESS:
         self._draw_proposal(lower, upper)
         if self.log_lik_x_proposed > u:
             # Proposal is accepted.
-            return self.x_proposed, self.log_lik_x_proposed, attempts + 1
+            return self.x_proposed, self.log_lik_x_proposed, attempts
         else:
             # Proposal rejected. Shrink bracket and try again.
             if self.theta > 0:
-- 
2.43.0


From e0caabea0aebaebce2210fcdbdc114b278a35824 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 13/18] fix: let polynomials that are equal compare equal if
 terms cancel

---
 gpcm/exppoly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 785d8ef..1f1b05b 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -307,7 +307,8 @@ def _merge_common_terms(*terms):
     for factors in dict.fromkeys(frozenset(x.factors) for x in terms):
         associated_terms = filter(lambda x: x.factors == factors, terms)
         merged_terms.append(reduce(operator.add, associated_terms, 0))
-    return merged_terms
+    # Terms which cancelled should not affect equality.
+    return [x for x in merged_terms if not (isinstance(x.const, B.Number) and x.const == 0)]
 
 
 class Poly:
-- 
2.43.0


From 103130fe4d04c1fa0608379a6b435aa443fb3dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 14/18] fix: predict the filter with the inducing variables
 that were fitted

---
 gpcm/approx.py | 7 +++++--
 gpcm/model.py  | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index 4447ae8..a8ace07 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -659,6 +659,9 @@ class MeanField(Approximation):
         # Don't forget to add in the observation noise!
         return m1, m2 - m1**2 + self.model.noise
 
+    def _sample_p_u(self, num_samples):
+        return _columns(self.p_u.sample(num_samples))
+
     @_dispatch
     def sample_kernel(self, t_k, num_samples: B.Int = 1000):
         """Sample kernel under the mean-field approximation.
@@ -670,9 +673,9 @@ class MeanField(Approximation):
         Returns:
             tensor: Samples.
         """
-        us = self.p_u.sample(num_samples)
+        us = self._sample_p_u(num_samples)
         sample_kernel = B.jit(self._sample_kernel)
-        return B.stack(*[sample_kernel(t_k, u) for u in _columns(us)], axis=0)
+        return B.stack(*[sample_kernel(t_k, u) for u in us], axis=0)
 
     @_dispatch
     def predict_z(self, num_samples: B.Int = 1000):
diff --git a/gpcm/model.py b/gpcm/model.py
index f04a130..e6eec94 100644
--- a/gpcm/model.py
+++ b/gpcm/model.py
@@ -172,8 +172,7 @@ class AbstractGPCM(Model):
             t_h = B.linspace(self.dtype, -self.extent, self.extent, 601)
 
         @B.jit
-        def sample_h(state):
-            state, u = self.approximation.p_u.sample(state)
+        def sample_h(state, u):
             u = B.mm(self.K_u, u)  # Transform :math:`\hat u` into :math:`u`.
             h = GP(self.k_h())
             h = h | (h(self.t_u), u)  # Condition on sample.
@@ -181,10 +180,11 @@ class AbstractGPCM(Model):
             return state, B.flatten(h)
 
         # Perform sampling.
+        us = self.approximation._sample_p_u(num_samples)
         state = B.global_random_state(self.dtype)
         samples = []
-        for _ in range(num_samples):
-            state, h = sample_h(state)
+        for u in us:
+            state, h = sample_h(state, u)
 
             # Transform sample according to specification.
             if min_phase:
-- 
2.43.0


From ecda5a4561b5f6a94a8d5165e94f9ff045700d04 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 15/18] fix: update the mean-field factors given their current
 priors

---
 gpcm/approx.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gpcm/approx.py b/gpcm/approx.py
index a8ace07..db22f91 100644
--- a/gpcm/approx.py
+++ b/gpcm/approx.py
@@ -205,9 +205,10 @@ class Approximation:
             ts.A_sum,
             ts.I_uz,
             ts.I_uz_sum,
-            self.model.K_u,
+            self.p_u.prec,
             q_z.mean,
             q_z.m2,
+            lam=self.p_u.lam,
         )
 
     @_dispatch
@@ -244,12 +245,13 @@ class Approximation:
             ts.B_sum,
             B.transpose(ts.I_uz),
             B.transpose(ts.I_uz_sum),
-            self.model.K_z,
+            self.p_z.prec,
             q_u.mean,
             q_u.m2,
+            lam=self.p_z.lam,
         )
 
-    def _q_optimal(self, A, I, I_sum, K, x, x2=None):
+    def _q_optimal(self, A, I, I_sum, K, x, x2=None, lam=0):
         if x2 is not None:
             inner = B.mm(I, x2, I, tr_c=True)
         else:
@@ -257,7 +259,7 @@ class Approximation:
             part = B.mm(I, x)
             inner = B.mm(part, part, tr_b=True)
         return NaturalNormal(
-            B.mm(I_sum, x) / self.model.noise,
+            lam + B.mm(I_sum, x) / self.model.noise,
             K + (A + B.sum(inner, axis=0)) / self.model.noise,
         )
 
@@ -307,6 +309,9 @@ def _fit_mean_field_ca(instance: Model, t, y, iters: B.Int = 5000, callback=None
     """
     ts = instance.approximation.construct_terms(t, y)
 
+    instance.approximation.p_u  # Ensure that it is initialised.
+    instance.approximation.p_z  # Ensure that it is initialised.
+
     @B.jit
     def compute_q_u(lam, prec):
         q_z = NaturalNormal(lam, prec)
-- 
2.43.0


From 7dfcb233b5d03bc501fc35fa2720324c6a70e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 16/18] fix: document the actual defaults of the transform, the
 basis, and the inducing points

---
 gpcm/gpcm.py  | 4 ++--
 gpcm/rgpcm.py | 6 +++---
 gpcm/util.py  | 2 --
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/gpcm/gpcm.py b/gpcm/gpcm.py
index b3457bc..f867c0d 100644
--- a/gpcm/gpcm.py
+++ b/gpcm/gpcm.py
@@ -69,8 +69,8 @@ class GPCM(AbstractGPCM):
         n_z (int, optional): Number of inducing points for :math:`s`.
         n_z_cap (int, optional): Maximum number of inducing points. Defaults to `300`.
         t_z (vector, optional): Locations of inducing points for :math:`s`.
-            Defaults to equally spaced points across the span of the data
-            extended by twice the filter length scale.
+            Defaults to equally spaced points across the span of the data,
+            extended by twice the filter length scale if `extend_t_z` is set.
         extend_t_z (bool, optional): Increase the number of inducing points for
             :math:`z` to additionally and appropriately cover an extension of the length
             of the filter on both sides.
diff --git a/gpcm/rgpcm.py b/gpcm/rgpcm.py
index 8efe1dd..dd471f2 100644
--- a/gpcm/rgpcm.py
+++ b/gpcm/rgpcm.py
@@ -28,8 +28,8 @@ class RGPCM(AbstractGPCM):
         lam (scalar, optional): Decay of the kernel of :math:`x`. Defaults to
             `1 / scale`.
         gamma (scalar, optional): Decay of the transform :math:`u` of :math:`x`.
-            Defaults to the inverse of ten times the spacing between locations of
-            data points.
+            Defaults to the inverse of twice the spacing between the inducing points
+            for :math:`u`. Will be limited to `alpha / 1.5`.
         gamma_t (scalar, optional): Scale of the transform. Defaults to normalise the
             transform to unity power.
         a (scalar, optional): Lower bound of support of the basis.
@@ -42,7 +42,7 @@ class RGPCM(AbstractGPCM):
             to initialise `lam` and determine `m_max` if `m_max` is not given.
         fix_scale (bool, optional): Do not learn the length scale. Defaults to `False`.
         ms (vector, optional): Basis function frequencies. Defaults to
-            :math:`0,\\ldots,2M-1`.
+            :math:`0,\\ldots,2M` where :math:`M` is `m_max`.
         n_u (int, optional): Number of inducing points for :math:`u`.
         n_u_cap (int, optional): Maximum value for `n_u`. Defaults to `300`.
         t_u (vector, optional): Locations of inducing points for :math:`u`. Defaults
diff --git a/gpcm/util.py b/gpcm/util.py
index ab31991..9524e3a 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -234,8 +234,6 @@ def hessian(f, x):
     Args:
         f (function): Function to compute Hessian of.
         x (column vector): Input to compute Hessian at.
-        differentiable (bool, optional): Make the computation of the Hessian
-            differentiable. Defaults to `False`.
 
     Returns:
         matrix: Hessian.
-- 
2.43.0


From e688d44501f7e770775edda13ca46980a534369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 17/18] fix: integrate half-lines over two variables with
 coefficients of any rank

---
 gpcm/exppoly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpcm/exppoly.py b/gpcm/exppoly.py
index 1f1b05b..005d7f6 100644
--- a/gpcm/exppoly.py
+++ b/gpcm/exppoly.py
@@ -708,7 +708,7 @@ class ExpPoly:
         num = reduce(operator.mul, orig_shape, 1)
         x1 = B.reshape(x1, num)
         x2 = B.reshape(x2, num)
-        rho = rho * B.ones(x1)
+        rho = B.reshape(rho * B.ones(mu1), num)
         cdf_part = B.reshape(B.bvn_cdf(x1, x2, rho), *orig_shape)
 
         # Compute exponentiated part.
-- 
2.43.0


From c485321625780ab078811f054b09515f411ec83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:05 +0000
Subject: [PATCH 18/18] fix: closest_psd for matrices with opposite eigenvalues

---
 gpcm/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpcm/util.py b/gpcm/util.py
index 9524e3a..f9b71c6 100644
--- a/gpcm/util.py
+++ b/gpcm/util.py
@@ -151,12 +151,14 @@ def closest_psd(a, inv=False):
     """
     a = B.dense(a)
     a = (a + B.transpose(a)) / 2
-    u, s, v = B.svd(a)
-    signs = B.matmul(u, v, tr_a=True)
-    s = B.maximum(B.diag(signs) * s, 0)
+    # Shift the eigenvalues to be nonnegative: if two eigenvalues were opposite, then
+    # the singular vectors would not necessarily be eigenvectors.
+    shift = B.sqrt(B.sum(a**2))
+    _, s, v = B.svd(a + shift * B.eye(a))
+    s = B.maximum(s - shift, 0)
     if inv:
         s = B.where(s == 0, 0, 1 / s)
-    return B.mm(u * B.expand_dims(s, axis=-2), v, tr_b=True)
+    return B.mm(v * B.expand_dims(s, axis=-2), v, tr_b=True)
 
 
 def collect(name="Quantities", **kw_args):
-- 
2.43.0

