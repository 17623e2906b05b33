From 6bd89e0a25b0f0bb8a313e0451cb5b3205c3d338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 01/79] fix: raise instead of returning None when convolving
 several multivariate numerical distributions

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ef61a03..08ee8d3 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1747,7 +1747,7 @@ def _convolve_distributions_multivariate(probability_distributions, central_valu
     else:
         # otherwise, we need to combine the (combined) gaussian with the others
         if len(others) > 1:
-            NotImplementedError("Combining multivariate numerical distributions not implemented")
+            raise NotImplementedError("Combining multivariate numerical distributions not implemented")
         else:
             num = _convolve_multivariate_gaussian_numerical(gaussian, others[0],
                                                   central_values=central_values)
-- 
2.43.0


From 8df93ca26247d59287614e8965e5824ad72024de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 02/79] fix: convolve multivariate normals with array-valued
 equal central values

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 08ee8d3..ccfc411 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1780,7 +1780,7 @@ def _convolve_multivariate_gaussians(probability_distributions, central_values='
         "Distributions should all be instances of MultivariateNormalDistribution"
     if central_values == 'same':
         central_value = probability_distributions[0].central_value  # central value of the first dist
-        assert all(p.central_value == central_value for p in probability_distributions), \
+        assert all(np.array_equal(p.central_value, central_value) for p in probability_distributions), \
             "Distrubtions must all have the same central value"
     elif central_values == 'sum':
         central_value = np.sum([p.central_value for p in probability_distributions], axis=0)
-- 
2.43.0


From 7f2aadfd4ee197965a254189994f22d1c695b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 03/79] fix: fill upper-triangular covariance matrices whatever
 their scale

---
 flavio/statistics/probability.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index ccfc411..32b315e 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1356,7 +1356,10 @@ class MultivariateNormalDistribution(ProbabilityDistribution):
         """
         if covariance is not None:
             covariance = np.array(covariance)
-            if not np.allclose(covariance, covariance.T):
+            # compare relative to the variances: the covariance can have any scale
+            _std = np.sqrt(np.diag(covariance))
+            _scaled = covariance/np.outer(_std, _std)
+            if not np.allclose(_scaled, _scaled.T):
                 # if the covariance is not symmetric, it is assumed that only the values above the diagonal are present.
                 # then: M -> M + M^T - diag(M)
                 covariance = covariance + covariance.T - np.diag(np.diag(covariance))
-- 
2.43.0


From 6f02475e9159d0a894e028823c0b2b02d63bb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 04/79] fix: support of the log-normal distribution with
 negative central value

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 32b315e..9b620bd 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -346,8 +346,8 @@ class LogNormalDistribution(ProbabilityDistribution):
         self.log_central_value = math.log(abs(central_value))
         if central_value < 0:
             self.central_sign = -1
-            slim = math.exp(math.log(abs(central_value))
-                            - 6 * self.log_standard_deviation)
+            slim = -math.exp(math.log(abs(central_value))
+                             + 6 * self.log_standard_deviation)
             super().__init__(central_value,
                              support=(slim, 0))
         else:
-- 
2.43.0


From bc62d6493224446a93a688a6394956256f485672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 05/79] fix: single random numbers from gamma distributions

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 9b620bd..63aa015 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -602,7 +602,7 @@ class GammaDistribution(ProbabilityDistribution):
         return 'flavio.statistics.probability.GammaDistribution' + \
                '({}, {}, {})'.format(self.a, self.loc, self.scale)
 
-    def get_random(self, size):
+    def get_random(self, size=None):
         return self.scipy_dist.rvs(size=size)
 
     def cdf(self, x):
@@ -671,7 +671,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
 
     def get_random(self, size=None):
         if size is None:
-            return self._get_random(size=size)
+            return self.get_random(size=1)[0]
         else:
             # some iteration necessary as discarding negative values
             # might lead to too small size
-- 
2.43.0


From d572bda50ba113156211d519d629c6958fa8a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 06/79] fix: reject central value 0 outside the range of a
 discrete uniform distribution

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 63aa015..b19696e 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -191,7 +191,7 @@ class DiscreteUniformDistribution(ProbabilityDistribution):
         - highest_value: highest integer value `b`
         - central_value (optional): integer within [a,b]. Default is int((a+b)/2)
         """
-        if central_value and (
+        if central_value is not None and (
             central_value > highest_value
             or central_value < lowest_value
         ):
-- 
2.43.0


From ac70c7bb1a315db85ce627847059b3f35bbf1f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 07/79] fix: support of multivariate numerical distributions
 without explicit central value

---
 flavio/statistics/probability.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index b19696e..38bf034 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1495,14 +1495,14 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
         for i, x in enumerate(xi):
             if len(x) == 2:
                 self.xi[i] = np.linspace(x[0], x[1], self.y.shape[i])
+        support = (np.asarray([x[0] for x in self.xi]), np.asarray([x[-1] for x in self.xi]))
         if central_value is not None:
-            super().__init__(central_value=central_value,
-                             support=(np.asarray([x[0] for x in self.xi]), np.asarray([x[-1] for x in self.xi])))
+            super().__init__(central_value=central_value, support=support)
         else:
             # if no central value is specified, set it to the mode
             mode_index = (slice(None),) + np.unravel_index(self.y.argmax(), self.y.shape)
             mode = np.asarray(np.meshgrid(*self.xi, indexing='ij'))[mode_index]
-            super().__init__(central_value=mode, support=None)
+            super().__init__(central_value=mode, support=support)
         _bin_volume = np.prod([x[1] - x[0] for x in self.xi])
         self.y_norm = self.y / np.sum(self.y) / _bin_volume  # normalize PDF to 1
         # ignore warning from log(0)=-np.inf
-- 
2.43.0


From 56fa40b5ba8375a1bf3a9f88147b5eb416ef1430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 08/79] fix: draw multivariate numerical random numbers with
 the cell probabilities

---
 flavio/statistics/probability.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 38bf034..e1e01e8 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1549,8 +1549,8 @@ class MultivariateNumericalDistribution(ProbabilityDistribution):
             self._cdf_flat = _cdf_flat/_cdf_flat[-1]
         # draw a number between 0 and 1
         r = np.random.uniform()
-        # find the index of the CDF-value closest to r
-        i_r = np.argmin(np.abs(self._cdf_flat-r))
+        # find the index of the first CDF-value exceeding r
+        i_r = np.searchsorted(self._cdf_flat, r, side='right')
         indices = np.where(self.y == self._y_flat[i_r])
         i_bla = np.random.choice(len(indices[0]))
         index = tuple([a[i_bla] for a in indices])
-- 
2.43.0


From 0956dc4bc116fd1ac5012b38d4f6547ce23c3d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 09/79] fix: return the result of the deprecated get_1d_errors

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index b55e748..b08193a 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -262,7 +262,7 @@ class Constraints(object):
         warnings.warn("This function was renamed to `get_1d_errors_random` "
                       "in v0.16 and will be removed in the future. ",
                       DeprecationWarning)
-        self.get_1d_errors_random(N)
+        return self.get_1d_errors_random(N)
 
     def get_1d_errors_random(self, N=1000):
         """Get the Gaussian standard deviation for every parameter/observable
-- 
2.43.0


From 519e4f6f2e56378e96b44b04a93561d4b1b986ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 10/79] fix: constraints with metadata but no arguments can be
 read back

---
 flavio/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index b08193a..903aa19 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -436,7 +436,7 @@ class Constraints(object):
         if isinstance(data, dict):
             constraints = data['constraints']
             meta = data.get('metadata', {})
-            arguments = data['arguments']
+            arguments = data.get('arguments', {})
             kwargs.update(arguments)
             inst = instance or cls(*args, **kwargs)
             for m in meta:
-- 
2.43.0


From 3611280d7e706317f2d91295af472dbb90f37de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 11/79] fix: do not write removed or replaced constraints to
 YAML

---
 flavio/classes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index 903aa19..bd19188 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -378,6 +378,15 @@ class Constraints(object):
         """
         data = []
         for constraint, parameters in self._constraints:
+            # skip parameters whose constraint has been removed or replaced
+            active = [i for i, p in enumerate(parameters)
+                      if self._parameters.get(p, None) == (i, constraint)]
+            if not active:
+                continue
+            if len(active) < len(parameters):
+                constraint = constraint.reduce_dimension(
+                    exclude=tuple(i for i in range(len(parameters)) if i not in active))
+                parameters = [parameters[i] for i in active]
             d = OrderedDict()
             d[pname] = [list(p) if isinstance(p, tuple) else p for p in parameters]
             d['values'] = constraint.get_dict(distribution=True,
-- 
2.43.0


From 782b2d0f99983bc5291066fd2db81426f8b7f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 12/79] fix: Observable.argument_format for dictionaries
 without arguments, do not alias the input

---
 flavio/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/classes.py b/flavio/classes.py
index bd19188..a676d9e 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -623,11 +623,11 @@ class Observable(NamedInstanceClass):
                 t = obs['name']
             else:
                 t = tuple([obs['name']] + [obs[a] for a in args])
-            d = obs
+            d = dict(obs)
         if format == 'tuple':
             return t
         elif format == 'list':
-            return list(t)
+            return t if isinstance(t, str) else list(t)
         elif format == 'dict':
             return d
 
-- 
2.43.0


From 0224faa78d879e29d6e7ae1d11ca9aae4244baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 13/79] fix: read nested distributions from dictionaries
 (kernel density estimates)

---
 flavio/statistics/probability.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index e1e01e8..9011948 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -2052,6 +2052,9 @@ def dict2dist(constraint_dict):
         dict_list = constraint_dict
     pds = []
     def convertv(v):
+        # nested distributions (e.g. the kernel of a KernelDensityEstimate)
+        if isinstance(v, dict) and 'distribution' in v:
+            return dict2dist(v)[0]
         # convert v to float if possible
         try:
             return float(v)
-- 
2.43.0


From 63ab481be061cdca486aed1c0b5c919df871b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 14/79] fix: accept the number of bins of a kernel density
 estimate as read from YAML

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 9011948..c473c9a 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1274,7 +1274,7 @@ class KernelDensityEstimate(NumericalDistribution):
         if n_bins is None:
             self.n_bins = min(1000, self.n)
         else:
-            self.n_bins = n_bins
+            self.n_bins = int(n_bins)
         y, x_edges = np.histogram(data, bins=self.n_bins, density=True)
         x = (x_edges[:-1] + x_edges[1:])/2.
         self.y_raw = y
-- 
2.43.0


From 88b89155082511fb8b13e9bded6738fdfd89c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 15/79] fix: GeneralGammaDistributionPositive can be
 instantiated

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index c473c9a..a3cc8c1 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1024,7 +1024,7 @@ class GeneralGammaDistributionPositive(NumericalDistribution):
         self.scale = scale
         self.gaussian_standard_deviation = gaussian_standard_deviation
         x, y = self._get_xy()
-        if self.gaussian_standard_deviation/np.sqrt(self.counts_total+1) < 1/100:
+        if self.gaussian_standard_deviation/np.sqrt(self.a) < 1/100:
             self.gaussian_standard_deviation = 0
             warnings.warn("For vanishing or very small Gaussian standard deviation, "
                           "it is safer to use GammaDistributionPositive instead of "
-- 
2.43.0


From d673e5e279a07f2100d3f96ead29d74986563d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 16/79] fix: general gamma upper limits with very small
 background error can be read back

---
 flavio/statistics/probability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index a3cc8c1..dca6c2c 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -1244,6 +1244,8 @@ class GeneralGammaUpperLimit(GeneralGammaCountingProcess):
             counts_background=counts_background,
             counts_signal=counts_signal,
             background_std=background_std)
+        # keep the alias consistent if a very small value has been set to 0
+        self.background_variance = self.background_std
 
     def __repr__(self):
         return ('flavio.statistics.probability.GeneralGammaUpperLimit'
-- 
2.43.0


From 147c3b1da15908ced38f0218f52d38d649f1cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 17/79] fix: get_dict does not modify the distribution

---
 flavio/statistics/probability.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index dca6c2c..55be158 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -100,6 +100,8 @@ class ProbabilityDistribution(object):
                 if isinstance(od[k], np.ndarray):
                     od[k] = od[k].tolist()
                 if isinstance(od[k], list):
+                    # copy, in order not to modify the instance
+                    od[k] = list(od[k])
                     for i, x in enumerate(od[k]):
                         if isinstance(x, np.ndarray):
                             od[k][i] = od[k][i].tolist()
-- 
2.43.0


From db97e1499317473a76bc9e400c2d2e4e3ce53e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 18/79] fix: numbers with a unicode minus sign are exact
 constraints

---
 flavio/_parse_errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index b30cdd2..dc16d2a 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -146,7 +146,7 @@ def constraints_from_string(constraint_string):
         # try again if the number is a float now
         try:
             float(constraint_string)
-            return {'central_value': float(constraint_string)}
+            return [DeltaDistribution(float(constraint_string))]
         except:
             pass
     if _pattern_upperlimit.match(constraint_string):
-- 
2.43.0


From e042a6d751b9d92e909c9765e70e4b323fd9ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 19/79] fix: raise ValueError for errors that are not
 understood instead of dropping them

---
 flavio/_parse_errors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flavio/_parse_errors.py b/flavio/_parse_errors.py
index dc16d2a..29ec558 100644
--- a/flavio/_parse_errors.py
+++ b/flavio/_parse_errors.py
@@ -38,6 +38,9 @@ def errors_from_string(constraint_string):
     pattern_brackets_err = re.compile(r"\(\s*(\d+\.?\d*)\s*\)\s*")
     pattern_symmetric_err = re.compile(r"(?:±|\\pm|\+\-)(\s*\d+\.?\d*)")
     pattern_asymmetric_err = re.compile(r"\+\s*(\d+\.?\d*)\s*\-\s*(\d+\.?\d*)")
+    # all the errors have to be of one of the two forms
+    pattern_plusminus_errs = re.compile(r"(?:(?:{}|{})\s*)+".format(
+        pattern_symmetric_err.pattern, pattern_asymmetric_err.pattern))
     errors = {}
     errors['central_value'] = central_value
     errors['symmetric_errors'] = []
@@ -53,13 +56,15 @@ def errors_from_string(constraint_string):
                 # appropriate power of 10
                 standard_deviation = float(err)*10**(-number_decimal)*overall_factor
             errors['symmetric_errors'].append(standard_deviation)
-    elif pattern_symmetric_err.match(error_string) or pattern_asymmetric_err.match(error_string):
+    elif pattern_plusminus_errs.fullmatch(error_string):
         for err in re.findall(pattern_symmetric_err, error_string):
             errors['symmetric_errors'].append( float(err)*overall_factor )
         for err in re.findall(pattern_asymmetric_err, error_string):
             right_err = float(err[0])*overall_factor
             left_err = float(err[1])*overall_factor
             errors['asymmetric_errors'].append((right_err, left_err))
+    else:
+        raise ValueError("Constraint " + constraint_string + " not understood")
     return errors
 
 def limit_from_string(constraint_string):
-- 
2.43.0


From 41548842b2f63f01b038b3d8b099b54067ae4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 20/79] fix: upper error of the lifetime follows from the lower
 error of the width

---
 flavio/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/parameters.py b/flavio/parameters.py
index 6f71a22..52affc3 100644
--- a/flavio/parameters.py
+++ b/flavio/parameters.py
@@ -234,8 +234,9 @@ class FlavioParticle(Particle):
         G_right = self.width_upper*1e-3
         G_left = self.width_lower*1e-3
         central = 1/G_central # life time = 1/width
-        right = G_right/G_central**2
-        left = G_left/G_central**2
+        # a larger width means a shorter life time and vice versa
+        right = G_left/G_central**2
+        left = G_right/G_central**2
         return name, tex, description, central, right, left
 
 def read_pdg(year, constraints):
-- 
2.43.0


From dbebac8d47bea2fedafce6f2414c1a5a3ffc9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 21/79] fix: upper error of gamma distributions whose lower
 error reaches down to zero

---
 flavio/statistics/probability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/statistics/probability.py b/flavio/statistics/probability.py
index 55be158..8eb5a51 100644
--- a/flavio/statistics/probability.py
+++ b/flavio/statistics/probability.py
@@ -735,7 +735,7 @@ class GammaDistributionPositive(ProbabilityDistribution):
             # look at a one-sided 1 sigma range. If the PDF at 0
             # is smaller than the PDF at the boundary of this range, return the
             # boundary of the range as the right-hand error
-            return one_sided_error
+            return one_sided_error - self.central_value
         else:
             a = self._find_error_cdf(confidence_level(nsigma))
             return self.ppf(a + confidence_level(nsigma)) - self.central_value
-- 
2.43.0


From ce59332221947d08e7626745a81124ece845e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 22/79] fix: likelihood predictions are only taken from the
 cache for equal arguments

---
 flavio/statistics/likelihood.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index cd02f0d..362c42a 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -60,7 +60,7 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         self.exclude_measurements = exclude_measurements
         self.include_measurements = include_measurements
         self.include_pseudo_measurements = include_pseudo_measurements
-        self._predictions_cache_hash = None
+        self._predictions_cache_key = None
         self._predictions_cache_values = None
         if exclude_measurements and include_measurements:
             raise ValueError("The options exclude_measurements and include_measurements must not be specified simultaneously")
@@ -135,6 +135,13 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         elif self.include_measurements is not None:
             return list(set(all_measurements) & set(self.include_measurements))
 
+    @staticmethod
+    def _get_cache_key(par_dict, wc_obj):
+        """Return everything the predictions depend on: the parameter values,
+        the Wilson coefficient instance and its current values and options."""
+        return (dict(par_dict), wc_obj, getattr(wc_obj, 'wc', None),
+                dict(getattr(wc_obj, '_options', {})))
+
     def get_predictions_par(self, par_dict, wc_obj):
         """Compute the predictions for all observables as functions of
         a parameter dictionary `par_dict`and WilsonCoefficient instance
@@ -142,9 +149,9 @@ class MeasurementLikelihood(iio.YAMLLoadable):
         The latest computed values are cached and returned if the function is
         called successively with the same arguments.
         """
-        # compute a hash from the function's arguments used for caching
-        arg_hash = hash((frozenset(par_dict.items()),wc_obj))
-        if arg_hash != self._predictions_cache_hash:
+        # compare the arguments themselves rather than a hash of them: different
+        # arguments can have equal hashes, e.g. hash(-1.0) == hash(-2.0)
+        if self._get_cache_key(par_dict, wc_obj) != self._predictions_cache_key:
             all_predictions = {}
             for observable in self.observables:
                 obs = flavio.classes.Observable.argument_format(observable, 'dict')
@@ -152,8 +159,8 @@ class MeasurementLikelihood(iio.YAMLLoadable):
                 _inst = flavio.classes.Observable[name]
                 all_predictions[observable] = _inst.prediction_par(par_dict, wc_obj, **obs)
             self._predictions_cache_values = all_predictions
-            self._predictions_cache_hash = arg_hash
-        return self._predictions_cache_values
+            self._predictions_cache_key = self._get_cache_key(par_dict, wc_obj)
+        return dict(self._predictions_cache_values)
 
     def get_number_observations(self, exclude_observables=None):
         """Get the number of observations, defined as individual measurements
-- 
2.43.0


From a3f07e8a646b6d27dc85dd9b67e1eb0cd756a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 23/79] fix: an empty list of excluded measurements does not
 override the included ones

---
 flavio/statistics/likelihood.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 362c42a..7d6957a 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -128,11 +128,11 @@ class MeasurementLikelihood(iio.YAMLLoadable):
             else:
                 # else, add measurement name to output list
                 all_measurements.append(m_name)
-        if self.exclude_measurements is None and self.include_measurements is None:
+        if not self.exclude_measurements and not self.include_measurements:
             return all_measurements
-        elif self.exclude_measurements is not None:
+        elif self.exclude_measurements:
             return list(set(all_measurements) - set(self.exclude_measurements))
-        elif self.include_measurements is not None:
+        else:
             return list(set(all_measurements) & set(self.include_measurements))
 
     @staticmethod
-- 
2.43.0


From 23f61e5184ac91cf8477b6f6fe5f1dbe2782ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 24/79] fix: Likelihood instances can be dumped to YAML

---
 flavio/statistics/likelihood.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 7d6957a..2a220ec 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -289,8 +289,8 @@ class Likelihood(iio.YAMLLoadable):
     }
 
     _output_schema_dict = {
-        'par_obj': vol.All([dict], iio.coerce_par_obj),
-        'fit_parameters': iio.get_par_diff,
+        'par_obj': iio.get_par_diff,
+        'fit_parameters': vol.Any(iio.ensurelist, [str]),
         'observables':  [iio.coerce_observable_dict],
         'exclude_measurements': vol.Any(iio.ensurelist, [str]),
         'include_measurements': vol.Any(iio.ensurelist, [str]),
-- 
2.43.0


From 2c57ea47e3b12adb5c4ff71b9a07ae335dd8df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 25/79] fix: load covariances for a single observable and from
 plain lists

---
 flavio/statistics/likelihood.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/flavio/statistics/likelihood.py b/flavio/statistics/likelihood.py
index 2a220ec..3ad871a 100644
--- a/flavio/statistics/likelihood.py
+++ b/flavio/statistics/likelihood.py
@@ -425,13 +425,14 @@ class SMCovariance(object):
             raise ValueError("Covariance matrix does not contain all necessary entries")
         assert len(permutation) == len(self.observables), \
             "Covariance matrix does not contain all necessary entries"
+        covariance = np.asarray(d['covariance'])
         if len(permutation) == 1:
-            if d['covariance'].shape == ():
-                self._cov = d['covariance']
+            if covariance.shape == ():
+                self._cov = covariance
             else:
-                self._cov = d['covariance'][permutation][:,permutation][0,0]
+                self._cov = covariance[permutation][:,permutation][0,0]
         else:
-            self._cov = d['covariance'][permutation][:,permutation]
+            self._cov = covariance[permutation][:,permutation]
 
 
 class MeasurementCovariance(object):
@@ -561,15 +562,23 @@ class MeasurementCovariance(object):
             raise ValueError("Covariance matrix does not contain all necessary entries")
         assert len(permutation) == len(ml.observables), \
             "Covariance matrix does not contain all necessary entries"
-        if np.isscalar(d['central']):
+        central = np.asarray(d['central'])
+        covariance = np.asarray(d['covariance'])
+        if central.ndim == 0:
             self._central_cov = (
                 d['central'],
                 d['covariance']
             )
+        elif len(permutation) == 1:
+            i = permutation[0]
+            self._central_cov = (
+                central[i],
+                covariance if covariance.ndim == 0 else covariance[i, i],
+            )
         else:
             self._central_cov = (
-                d['central'][permutation],
-                d['covariance'][permutation][:, permutation],
+                central[permutation],
+                covariance[permutation][:, permutation],
             )
 
 
-- 
2.43.0


From 4f2787ea2f75d8ba53b4be5a73f56634ab8bb12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 26/79] fix: Wilson coefficients cached for other CKM
 parameters are not reused

---
 flavio/physics/eft.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/eft.py b/flavio/physics/eft.py
index 8d7f897..9c84654 100644
--- a/flavio/physics/eft.py
+++ b/flavio/physics/eft.py
@@ -166,13 +166,14 @@ class WilsonCoefficients(wilson.Wilson):
             return None
         if isinstance(w, cls):
             return w
+        _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
+        if w.get_option('parameters') != _ckm_options:
+            # this also clears the cache, which is only valid for the old values
+            w.set_option('parameters', _ckm_options)
         fwc = cls()
         fwc.set_initial_wcxf(w.wc)
         fwc._cache = w._cache
         fwc._options = w._options
-        _ckm_options = {k: par_dict[k] for k in ['Vus', 'Vcb', 'Vub', 'gamma']}
-        if fwc.get_option('parameters') != _ckm_options:
-            fwc.set_option('parameters', _ckm_options)
         return fwc
 
     def run_wcxf(*args, **kwargs):
-- 
2.43.0


From ed6b2241ee1936881d355a761935b53730a4470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 27/79] fix: copying an AwareDict keeps modifications

---
 flavio/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/functions.py b/flavio/functions.py
index f99d85f..500d3db 100644
--- a/flavio/functions.py
+++ b/flavio/functions.py
@@ -118,7 +118,7 @@ class AwareDict(dict):
         return dict.__getitem__(self, key)
 
     def __copy__(self):
-        cp = type(self)(self.d)
+        cp = type(self)(self)
         cp.akeys = self.akeys
         return cp
 
-- 
2.43.0


From c776eacabd4de74e9a4745c69569eeba9525ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 28/79] fix: Planck constant in natural units is 2 pi hbar

---
 flavio/physics/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/units.py b/flavio/physics/units.py
index 4db9e5e..139dd61 100644
--- a/flavio/physics/units.py
+++ b/flavio/physics/units.py
@@ -27,7 +27,7 @@ MeV = M * eV
 TeV = T * eV
 
 hbar = 1
-h = hbar / (2 * pi)
+h = 2 * pi * hbar
 
 # Joule
 J = eV / e_SI
-- 
2.43.0


From 454108401d9636d1f7ddf0c717d15dc4b69880f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 29/79] fix: robust minimization continues from the best
 endpoint of unsuccessful tries

---
 flavio/math/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/math/optimize.py b/flavio/math/optimize.py
index e393b13..afd6009 100644
--- a/flavio/math/optimize.py
+++ b/flavio/math/optimize.py
@@ -35,11 +35,11 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                     if disp:
                         print("Skipping method MIGRAD: no iminuit installation found.")
                     continue
-                opt = minimize_migrad(fun, x0, args=args, print_level=int(disp))
+                opt = minimize_migrad(fun, _x0, args=args, print_level=int(disp))
             else:
                 options = {'disp': disp}
                 options.update(kwargs)
-                opt = minimize(fun, x0, args=args, method=m, options=options)
+                opt = minimize(fun, _x0, args=args, method=m, options=options)
             if opt.success:
                 return opt
             elif opt.fun < _val:
@@ -49,6 +49,7 @@ def minimize_robust(fun, x0, args=(), methods=None, tries=3, disp=False,
                 # if this step actually led to some improvement,
                 # use endpoint as new starting point
                 _x0 = opt.x
+                _val = opt.fun
     return opt
 
 def maximize_robust(fun, x0, args=(), methods=None, tries=3, disp=False, **kwargs):
-- 
2.43.0


From 044bbfea6f5001b5cae255023b8a2d6c42f38d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 30/79] fix: a plot boundary of zero is not ignored

---
 flavio/plots/plotfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index 6a044fd..e8bfc05 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -748,8 +748,8 @@ def pdf_plot(dist, x_min=None, x_max=None, fill=True, steps=500, normed=True, **
 
     The remaining parameters will be passed to `likelihood_plot`.
     """
-    _x_min = x_min or dist.support[0]
-    _x_max = x_max or dist.support[1]
+    _x_min = dist.support[0] if x_min is None else x_min
+    _x_max = dist.support[1] if x_max is None else x_max
     x = np.linspace(_x_min, _x_max, steps)
     try:
         y = dist.pdf(x)
-- 
2.43.0


From 31a4b1aac4aab4218776e2a37b8cb25315e6eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 31/79] fix: differential predictions are plotted from x_min to
 x_max in the given number of steps

---
 flavio/plots/plotfunctions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index e8bfc05..ed4be70 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -87,7 +87,7 @@ def diff_plot_th(obs_name, x_min, x_max, wc=None, steps=100, scale_factor=1, **k
     obs = flavio.classes.Observable[obs_name]
     if not obs.arguments or len(obs.arguments) != 1:
         raise ValueError(r"Only observables that depend on a single parameter are allowed")
-    x_arr = np.arange(x_min, x_max, (x_max-x_min)/(steps-1))
+    x_arr = np.linspace(x_min, x_max, steps)
     if wc is None:
         wc = flavio.physics.eft._wc_sm # SM Wilson coefficients
         obs_arr = [flavio.sm_prediction(obs_name, x) for x in x_arr]
@@ -138,12 +138,8 @@ def diff_plot_th_err(obs_name, x_min, x_max, wc=None, steps=100,
     obs = flavio.classes.Observable[obs_name]
     if not obs.arguments or len(obs.arguments) != 1:
         raise ValueError(r"Only observables that depend on a single parameter are allowed")
-    step = (x_max-x_min)/(steps-1)
-    x_arr = np.arange(x_min, x_max+step, step)
-    step = (x_max-x_min)/(steps_err-1)
-    x_err_arr = np.arange(x_min, x_max+step, step)
-    # fix to avoid bounds_error in interp1d due to lack of numerical precision
-    x_err_arr[-1] = x_arr[-1]
+    x_arr = np.linspace(x_min, x_max, steps)
+    x_err_arr = np.linspace(x_min, x_max, steps_err)
     if wc is None:
         wc = flavio.physics.eft._wc_sm # SM Wilson coefficients
         obs_err_arr = [flavio.sm_uncertainty(obs_name, x, N=N, threads=threads) for x in x_err_arr]
-- 
2.43.0


From 8eccff9f8ab3b6215c6fcfee2f4ccedd1e5f718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 32/79] fix: band_plot of a pre-calculated non-square grid

---
 flavio/plots/plotfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/plots/plotfunctions.py b/flavio/plots/plotfunctions.py
index ed4be70..4f0e523 100644
--- a/flavio/plots/plotfunctions.py
+++ b/flavio/plots/plotfunctions.py
@@ -610,7 +610,7 @@ def band_plot(log_likelihood, x_min, x_max, y_min, y_max,
                       n_sigma=n_sigma, steps=steps, **data_kwargs)
     else:
         contour_kwargs = {}
-        nx, ny = kwargs['pre_calculated_z'].shape
+        ny, nx = kwargs['pre_calculated_z'].shape
         _x = np.linspace(x_min, x_max, nx)
         _y = np.linspace(y_min, y_max, ny)
         x, y = np.meshgrid(_x, _y)
-- 
2.43.0


From 5868c27f35e52284a7b839aede6109f8d01aa726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 33/79] fix: citations of cached functions are registered each
 time they are used

---
 flavio/physics/bdecays/matrixelements.py | 30 +++++++++++++++++++-----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/flavio/physics/bdecays/matrixelements.py b/flavio/physics/bdecays/matrixelements.py
index 195e6bd..00e47d3 100644
--- a/flavio/physics/bdecays/matrixelements.py
+++ b/flavio/physics/bdecays/matrixelements.py
@@ -69,7 +69,6 @@ _sh_F_19 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_
 _F_27 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_27, bounds_error=False, fill_value=None)
 _sh_F_29 = scipy.interpolate.RegularGridInterpolator((_f_x, _f_y, _f_z), _f_val_29, bounds_error=False, fill_value=None)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_17(muh, z, sh):
     """Function $F_1^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -79,9 +78,12 @@ def F_17(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_17([muh, z, sh])[0]
+    return _F_17_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_17_cached(muh, z, sh):
+    return _F_17([muh, z, sh])[0]
+
 def F_19(muh, z, sh):
     """Function $F_1^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_1$, as defined in arXiv:0810.4077.
@@ -91,11 +93,14 @@ def F_19(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _F_19_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_19_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_19([muh, z, sh])[0] / sh
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def F_27(muh, z, sh):
     """Function $F_2^{(7)}$ giving the contribution of $O_7$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -105,9 +110,12 @@ def F_27(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
-    return _F_27([muh, z, sh])[0]
+    return _F_27_cached(muh, z, sh)
 
 @lru_cache(maxsize=config['settings']['cache size'])
+def _F_27_cached(muh, z, sh):
+    return _F_27([muh, z, sh])[0]
+
 def F_29(muh, z, sh):
     """Function $F_2^{(9)}$ giving the contribution of $O_9$ to the matrix element
     of $O_2$, as defined in arXiv:0810.4077.
@@ -117,6 +125,10 @@ def F_29(muh, z, sh):
     - `sh` is $\hat s=q^2/m_b^2$.
     """
     flavio.citations.register("Greub:2008cy")
+    return _F_29_cached(muh, z, sh)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _F_29_cached(muh, z, sh):
     if sh == 0:
         return 0
     return _sh_F_29([muh, z, sh])[0] / sh
@@ -155,11 +167,14 @@ def F_87(Lmu, sh):
 def acot(x):
     return pi/2.-atan(x)
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelA(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (29) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelA_cached(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelA_cached(q2, mb, mu):
     if q2==0:
         return 1/729. * (833 + 120j*pi - 312 * log(mb**2/mu**2))
     sh = min(q2/mb**2, 0.999)
@@ -173,11 +188,14 @@ def SeidelA(q2, mb, mu):
     (1 - sh)**4) * (36 * acot( sqrt(z - 1))**2 + pi**2 * (-4 + 9 * sh - 9 *
     sh**2 + 3 * sh**3)))
 
-@lru_cache(maxsize=config['settings']['cache size'])
 def SeidelB(q2, mb, mu):
     """Function $A(s\equiv q^2)$ defined in eq. (30) of hep-ph/0403185v2.
     """
     flavio.citations.register("Seidel:2004jh")
+    return _SeidelB_cached(q2, mb, mu)
+
+@lru_cache(maxsize=config['settings']['cache size'])
+def _SeidelB_cached(q2, mb, mu):
     sh = min(q2/mb**2, 0.999)
     z = 4 / sh
     x1 = 1/2 + 1j/2 * sqrt(z - 1)
-- 
2.43.0


From ac7095417137d04c20b515e414abe19702203886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 34/79] fix: parameters accessed with a default value are
 recorded as dependent

---
 flavio/functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flavio/functions.py b/flavio/functions.py
index 500d3db..c6d26fb 100644
--- a/flavio/functions.py
+++ b/flavio/functions.py
@@ -117,6 +117,11 @@ class AwareDict(dict):
         self.akeys.add(key)
         return dict.__getitem__(self, key)
 
+    def get(self, key, default=None):
+        """Get an item or a default value, adding the key to the set."""
+        self.akeys.add(key)
+        return dict.get(self, key, default)
+
     def __copy__(self):
         cp = type(self)(self)
         cp.akeys = self.akeys
-- 
2.43.0


From 544ca5150fd3bfe5236983aa674af885ef3c8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 35/79] fix: form factors do not modify the parameters of the
 caller

---
 flavio/physics/bdecays/formfactors/b_v/bsz.py        | 1 +
 flavio/physics/bdecays/formfactors/lambdab_12/sse.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/flavio/physics/bdecays/formfactors/b_v/bsz.py b/flavio/physics/bdecays/formfactors/b_v/bsz.py
index db3b30d..6e26e97 100644
--- a/flavio/physics/bdecays/formfactors/b_v/bsz.py
+++ b/flavio/physics/bdecays/formfactors/b_v/bsz.py
@@ -50,6 +50,7 @@ def ff(process, q2, par, n=2, omit_A='A0'):
     # cf. eq. (16) of arXiv:1503.05534
     flavio.citations.register("Straub:2015ica")
     par_prefix = process + ' BSZ'
+    par = par.copy() # do not modify the parameters of the caller
     par[par_prefix + ' a0_A12'] = par[par_prefix + ' a0_A0'] / (8*mB*mV / (mB**2-mV**2))
     par[par_prefix + ' a0_T2'] = par[par_prefix + ' a0_T1']
     for i in ["A0","A1","A12","V","T1","T2","T23"]:
diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
index 7bc08c6..f119e2e 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/sse.py
@@ -50,6 +50,7 @@ def ff(process, q2, par, n=2):
     mP = par['m_'+pd['P']]
     ff = {}
     # implementing the two endpoint relations in (7) and (8) of arXiv:1602.01399
+    par = par.copy() # do not modify the parameters of the caller
     par[process+' SSE a0_fAperp'] = par[process+' SSE a0_fA0']
     par[process+' SSE a0_fT5perp'] = par[process+' SSE a0_fT50']
     for i in ['fA0', 'fAperp', 'fAt', 'fT0', 'fT50', 'fT5perp', 'fTperp', 'fV0', 'fVperp', 'fVt']:
-- 
2.43.0


From 6885db339428bb2030e7999c661fccb4dd7b6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 36/79] fix: factor 1/2 for the neutral rho in LFV B->rho
 decays

---
 flavio/physics/bdecays/bvll/lfv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bvll/lfv.py b/flavio/physics/bdecays/bvll/lfv.py
index 223a334..bd0ced4 100644
--- a/flavio/physics/bdecays/bvll/lfv.py
+++ b/flavio/physics/bdecays/bvll/lfv.py
@@ -63,8 +63,13 @@ def BR_tot(wc_obj, par, B, V, l1, l2):
     q2max = (mB-mV)**2
     q2min = (ml1+ml2)**2
     tauB = par['tau_'+B]
-    return tauB*bvlilj_obs_int(flavio.physics.bdecays.bvll.observables.dGdq2,
+    BR = tauB*bvlilj_obs_int(flavio.physics.bdecays.bvll.observables.dGdq2,
                           q2min, q2max, wc, par, B, V, l1, l2)
+    if V == 'rho0':
+        # factor of 1/2 for neutral rho due to rho = (uubar-ddbar)/sqrt(2)
+        return BR / 2.
+    else:
+        return BR
 
 def BR_tot_function(B, V, l1, l2):
     return lambda wc_obj, par: BR_tot(wc_obj, par, B, V, l1, l2)
-- 
2.43.0


From 05162bba873669891323a432910e29e2d8d28c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 37/79] fix: FL, FLtot, FLttot, AFBtot and I3tot of B->Vlnu
 averaged over e and mu

---
 flavio/physics/bdecays/bvlnu.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/flavio/physics/bdecays/bvlnu.py b/flavio/physics/bdecays/bvlnu.py
index 410546f..3bdd43c 100644
--- a/flavio/physics/bdecays/bvlnu.py
+++ b/flavio/physics/bdecays/bvlnu.py
@@ -168,10 +168,10 @@ def kinem_allowed(q2, par, B, V, lep):
         return True
 
 def FL_diff(q2, wc_obj, par, B, V, lep):
-    if not kinem_allowed(q2, par, B, V, lep):
+    num = dBRdq2(q2, wc_obj, par, B, V, lep, A='L')
+    if num == 0:
         return 0
-    J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-    return dGdq2_L(J) / dGdq2(J)
+    return num / dBRdq2(q2, wc_obj, par, B, V, lep, A=None)
 
 
 def FL_binned(q2min, q2max, wc_obj, par, B, V, lep):
@@ -182,14 +182,14 @@ def FL_binned(q2min, q2max, wc_obj, par, B, V, lep):
     return num / denom
 
 def Itot_norm(fct_J, wc_obj, par, B, V, lep):
-    def fct(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return fct_J(J)
-    num = obs_q2int(fct, wc_obj, par, B, V, lep)
-    def fct_den(q2):
-        J = get_angularcoeff(q2, wc_obj, par, B, V, lep)
-        return dGdq2(J)
-    den = obs_q2int(fct_den, wc_obj, par, B, V, lep)
+    # sum over e and mu for l!
+    leptons = ['e', 'mu'] if lep == 'l' else [lep]
+    def integral(fct, l):
+        def fct_q2(q2):
+            return fct(get_angularcoeff(q2, wc_obj, par, B, V, l))
+        return obs_q2int(fct_q2, wc_obj, par, B, V, l)
+    num = sum(integral(fct_J, l) for l in leptons)
+    den = sum(integral(dGdq2, l) for l in leptons)
     return num / den
 
 def dBR_dq2_dcosthl_binned(q2, clmin, clmax, wc_obj, par, B, V, lep):
@@ -342,12 +342,10 @@ def FL_binned_function(B, V, lep):
 
 def FL_tot_function(B, V, lep):
     def f(wc_obj, par):
-        mB = par['m_'+B]
-        mV = par['m_'+V]
-        ml = par['m_'+lep]
-        q2max = (mB-mV)**2
-        q2min = ml**2
-        return FL_binned(q2min, q2max, wc_obj, par, B, V, lep)
+        num = BR_tot(wc_obj, par, B, V, lep, A='L')
+        if num == 0:
+            return 0
+        return num / BR_tot(wc_obj, par, B, V, lep, A=None)
     return f
 
 def FLt_tot_function(B, V, lep):
-- 
2.43.0


From 47e771e468ce35182757ee7fe48f086c3a3f4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 38/79] fix: apply electromagnetic correction to K+->pi0lnu

---
 flavio/physics/kdecays/kpilnu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index 4f2410e..9311773 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -51,14 +51,15 @@ def dBRdq2(q2, wc_obj, par, K, P, lep):
         return 0
     tauK = par['tau_'+K]
     J = get_angularcoeff(q2, wc_obj, par, K, P, lep)
+    BR = tauK * dGdq2(J)
     if P == 'pi0':
         # factor of 1/2 for neutral pi due to pi = (uubar-ddbar)/sqrt(2)
-        return tauK * dGdq2(J) / 2.
+        BR = BR / 2.
     if K == 'K+':
         deltaEM = par['K+' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
     elif K == 'KL' or K == 'KS':
         deltaEM = par['K0' + lep + '3 delta_EM'] # e.g. 'K+e3 delta_EM'
-    return tauK * dGdq2(J) * (1 + deltaEM)**2
+    return BR * (1 + deltaEM)**2
 
 def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
     def integrand(q2):
-- 
2.43.0


From 422750310a776de9a8d0a894c4a1cb8bdcf999ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 39/79] fix: kaon and hyperon decay observables averaged over e
 and mu

---
 flavio/physics/kdecays/kpilnu.py     | 9 +++++++++
 flavio/physics/kdecays/lambdaplnu.py | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/flavio/physics/kdecays/kpilnu.py b/flavio/physics/kdecays/kpilnu.py
index 9311773..1188562 100644
--- a/flavio/physics/kdecays/kpilnu.py
+++ b/flavio/physics/kdecays/kpilnu.py
@@ -67,6 +67,9 @@ def BR_binned(q2min, q2max, wc_obj, par, K, P, lep):
     return flavio.math.integrate.nintegrate(integrand, q2min, q2max)
 
 def BR_tot(wc_obj, par, K, P, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (BR_tot(wc_obj, par, K, P, 'e') + BR_tot(wc_obj, par, K, P, 'mu'))/2.
     mK = par['m_'+K]
     mP = par['m_'+P]
     ml = par['m_'+lep]
@@ -79,6 +82,9 @@ def BR_tot_function(K, P, lep):
 
 
 def logC(wc_obj, par, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (logC(wc_obj, par, 'e') + logC(wc_obj, par, 'mu'))/2.
     mK = par['m_KL']
     mP = par['m_pi+']
     ml = par['m_' + lep]
@@ -95,6 +101,9 @@ def logC(wc_obj, par, lep):
 
 
 def RT(wc_obj, par, lep):
+    if lep == 'l':
+        # average of e and mu!
+        return (RT(wc_obj, par, 'e') + RT(wc_obj, par, 'mu'))/2.
     mK = par['m_KL']
     mP = par['m_pi+']
     scale = par['m_rho0']
diff --git a/flavio/physics/kdecays/lambdaplnu.py b/flavio/physics/kdecays/lambdaplnu.py
index 85c1970..71bdeb4 100644
--- a/flavio/physics/kdecays/lambdaplnu.py
+++ b/flavio/physics/kdecays/lambdaplnu.py
@@ -15,6 +15,10 @@ def g1_f1(wc_obj, par, lep, nu):
 
 def g1_f1_fct(lep):
     def f(wc_obj, par):
+        if lep == 'l':
+            # average of e and mu!
+            return (g1_f1(wc_obj, par, lep='e', nu='e')
+                    + g1_f1(wc_obj, par, lep='mu', nu='mu'))/2.
         return g1_f1(wc_obj, par, lep=lep, nu=lep)
     return f
 
-- 
2.43.0


From 637a85b5fca0abd0659a5bc220e2123d034c607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 40/79] fix: lepton flavour violating KS decays

---
 flavio/physics/kdecays/kll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/kdecays/kll.py b/flavio/physics/kdecays/kll.py
index a2b0b04..31c5b17 100644
--- a/flavio/physics/kdecays/kll.py
+++ b/flavio/physics/kdecays/kll.py
@@ -60,7 +60,7 @@ def amplitudes_eff(par, wc, K, l1, l2, ld=True):
         PLD = 0
     else:
         SLD, PLD = amplitudes_LD(par, K, l1)
-    if K == 'KS' and l1 == l2:
+    if K == 'KS':
         Peff = P.imag
         Seff = S.real + SLD
     if K == 'KL':
-- 
2.43.0


From 9ccfefd2fb7a65e01b19e7c87bb4341197f375b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 41/79] fix: B->Pnunu and B->Vnunu rates vanish outside of the
 kinematic range

---
 flavio/physics/bdecays/bpnunu.py | 2 ++
 flavio/physics/bdecays/bvnunu.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/flavio/physics/bdecays/bpnunu.py b/flavio/physics/bdecays/bpnunu.py
index 33b2496..b916051 100644
--- a/flavio/physics/bdecays/bpnunu.py
+++ b/flavio/physics/bdecays/bpnunu.py
@@ -36,6 +36,8 @@ def helicity_amps(q2, wc_obj, par, B, P, nu1, nu2):
 def bpnunu_obs(function, q2, wc_obj, par, B, P, nu1, nu2):
     mB = par['m_'+B]
     mP = par['m_'+P]
+    if q2 <= 0 or q2 > (mB-mP)**2:
+        return 0
     h = helicity_amps(q2, wc_obj, par, B, P, nu1, nu2)
     # below, mb is set to 4 just to save time. It doesn't enter at all as there
     # are no dipole operators.
diff --git a/flavio/physics/bdecays/bvnunu.py b/flavio/physics/bdecays/bvnunu.py
index d479b72..ea836ad 100644
--- a/flavio/physics/bdecays/bvnunu.py
+++ b/flavio/physics/bdecays/bvnunu.py
@@ -37,6 +37,8 @@ def helicity_amps(q2, wc_obj, par, B, V, nu1, nu2):
 def bvnunu_obs(function, q2, wc_obj, par, B, V, nu1, nu2):
     mB = par['m_'+B]
     mV = par['m_'+V]
+    if q2 <= 0 or q2 > (mB-mV)**2:
+        return 0
     h = helicity_amps(q2, wc_obj, par, B, V, nu1, nu2)
     # below, mb is set to 4 just to save time. It doesn't enter at all as there
     # are no dipole operators.
-- 
2.43.0


From f4e5aabc909db74b4dae746ce0634d6c1f42f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 42/79] fix: quark masses in the scalar contributions to D->lnu

---
 flavio/physics/ddecays/dlnu.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/ddecays/dlnu.py b/flavio/physics/ddecays/dlnu.py
index 1857e56..6e8e68a 100644
--- a/flavio/physics/ddecays/dlnu.py
+++ b/flavio/physics/ddecays/dlnu.py
@@ -22,9 +22,12 @@ def _br_Dlnu(wc_obj, par, P, lep, nu):
     # add SM contribution to Wilson coefficient
     if lep == nu:
         wc['CVL_'+qiqj+lep+'nu' + nu] += flavio.physics.bdecays.wilsoncoefficients.get_CVLSM(par, scale, nf=4)
-    mb = flavio.physics.running.running.get_mb(par, scale)
     mc = flavio.physics.running.running.get_mc(par, scale)
-    return br_plnu_general(wc, par, Vij, P, qiqj, lep, nu, mb, mc, delta=0)
+    if P == 'D+':
+        mq = flavio.physics.running.running.get_md(par, scale)
+    elif P == 'Ds':
+        mq = flavio.physics.running.running.get_ms(par, scale)
+    return br_plnu_general(wc, par, Vij, P, qiqj, lep, nu, mc, mq, delta=0)
 
 # function returning function needed for prediction instance
 def br_Dlnu_fct(P, lep):
-- 
2.43.0


From 51722dd1ccf0e2808206d74a176be1077f382dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 43/79] fix: lepton mass suppression of the interference of
 left- and right-handed currents in l->l'nunu

---
 flavio/physics/taudecays/taulnunu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/taudecays/taulnunu.py b/flavio/physics/taudecays/taulnunu.py
index 6c675f0..b35e1c0 100644
--- a/flavio/physics/taudecays/taulnunu.py
+++ b/flavio/physics/taudecays/taulnunu.py
@@ -11,7 +11,7 @@ def G(x):
     return 1 + 9*x - 9*x**2 - x**3 + 6*x*log(x) + 6*x**2*log(x)
 
 def _BR(x, CL, CR):
-    return F(x) * (abs(CL)**2 + abs(CR)**2) - 4 * G(x) * (CL * CR.conjugate()).real
+    return F(x) * (abs(CL)**2 + abs(CR)**2) - 4 * sqrt(x) * G(x) * (CL * CR.conjugate()).real
 
 
 def GFeff(wc_obj, par):
-- 
2.43.0


From 2f1e477e8c4dad55935db87b0e6a3e12abc6b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 44/79] fix: conjugate the CKM matrix in all of its
 parametrizations

---
 flavio/physics/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/common.py b/flavio/physics/common.py
index 38b48bf..f51c430 100644
--- a/flavio/physics/common.py
+++ b/flavio/physics/common.py
@@ -6,9 +6,10 @@ def conjugate_par(par_dict):
     """Given a dictionary of parameter values, return the dictionary where
     all CP-odd parameters have flipped sign.
 
-    This assumes that the only CP-odd parameters are `gamma` or `delta` (the
-    CKM phase in the Wolfenstein or standard parametrization)."""
-    cp_odd = ['gamma', 'delta']
+    This assumes that the only CP-odd parameters are those of the CKM matrix,
+    i.e. `gamma` (and `beta`), `delta`, or `etabar`, depending on the
+    parametrization."""
+    cp_odd = ['gamma', 'delta', 'etabar', 'beta']
     return {k: -v if k in cp_odd else v for k, v in par_dict.items()}
 
 def conjugate_wc(wc_dict):
-- 
2.43.0


From 0e043447a026afdfaee6ce8f42c7cc70655e9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 45/79] fix: CKM phase for gamma outside of the first quadrant
 in the tree and beta gamma parametrizations

---
 flavio/physics/ckm.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/flavio/physics/ckm.py b/flavio/physics/ckm.py
index 976b429..bbc5609 100644
--- a/flavio/physics/ckm.py
+++ b/flavio/physics/ckm.py
@@ -14,6 +14,21 @@ from functools import lru_cache
 from flavio.classes import AuxiliaryQuantity, Implementation
 import ckmutil.ckm
 
+# ckmutil determines the CKM phase as an arctangent and thus only for angles
+# gamma between 0 and pi/2
+
+def tree_to_standard(Vus, Vub, Vcb, gamma):
+    t12, t13, t23, _ = ckmutil.ckm.tree_to_standard(Vus, Vub, Vcb, gamma, delta_expansion_order=0)
+    k = np.sin(t13) * np.tan(t23) / np.tan(t12)
+    return t12, t13, t23, gamma + np.arcsin(k * np.sin(gamma))
+
+def beta_gamma_to_standard(Vus, Vcb, beta, gamma):
+    t12, t13, t23, delta = ckmutil.ckm.beta_gamma_to_standard(Vus, Vcb, beta, gamma)
+    # choose the branch close to gamma
+    if np.cos(delta - gamma) < 0:
+        delta = delta + np.pi
+    return t12, t13, t23, delta
+
 # cached and/or vectorized versions of ckmutil functions
 @lru_cache(maxsize=2)
 def ckm_standard(t12, t13, t23, delta):
@@ -21,7 +36,7 @@ def ckm_standard(t12, t13, t23, delta):
 
 @np.vectorize
 def tree_to_wolfenstein(Vus, Vub, Vcb, gamma):
-    return ckmutil.ckm.tree_to_wolfenstein(Vus, Vub, Vcb, gamma)
+    return ckmutil.ckm.standard_to_wolfenstein(*tree_to_standard(Vus, Vub, Vcb, gamma))
 
 @lru_cache(maxsize=2)
 def ckm_wolfenstein(laC, A, rhobar, etabar):
@@ -29,11 +44,11 @@ def ckm_wolfenstein(laC, A, rhobar, etabar):
 
 @lru_cache(maxsize=2)
 def ckm_tree(Vus, Vub, Vcb, gamma):
-    return ckmutil.ckm.ckm_tree(Vus, Vub, Vcb, gamma)
+    return ckmutil.ckm.ckm_standard(*tree_to_standard(Vus, Vub, Vcb, gamma))
 
 @lru_cache(maxsize=2)
 def ckm_beta_gamma(Vus, Vcb, beta, gamma):
-    return ckmutil.ckm.ckm_beta_gamma(Vus, Vcb, beta, gamma)
+    return ckmutil.ckm.ckm_standard(*beta_gamma_to_standard(Vus, Vcb, beta, gamma))
 
 # Auxiliary Quantity instance
 a = AuxiliaryQuantity(name='CKM matrix')
-- 
2.43.0


From 08eebd95de0b4256bd130537fc35481ec238d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 46/79] fix: relative sign of scalar and vector contributions
 to D->Plnu

---
 flavio/physics/ddecays/dplnu.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/ddecays/dplnu.py b/flavio/physics/ddecays/dplnu.py
index 172be0c..e0ba77a 100644
--- a/flavio/physics/ddecays/dplnu.py
+++ b/flavio/physics/ddecays/dplnu.py
@@ -72,8 +72,10 @@ def _get_angularcoeff(q2, wc_obj, par, D, P, lep, nu):
         mlight = running.get_md(par, scale)
     if qi_qj == 'cs':
         mlight = running.get_ms(par, scale)
-    h = angular.helicity_amps_p(q2, mD, mP, mc, mlight, ml, 0, ff, wc, N)
-    J = angular.angularcoeffs_general_p(h, q2, mD, mP, mc, mlight, ml, 0)
+    # the Wilson coefficients are those of the (light -> charm) operator, i.e.
+    # the scalar matrix element involves the difference mlight - mc
+    h = angular.helicity_amps_p(q2, mD, mP, mlight, mc, ml, 0, ff, wc, N)
+    J = angular.angularcoeffs_general_p(h, q2, mD, mP, mlight, mc, ml, 0)
     return J
 
 
-- 
2.43.0


From 6b2070ab2e8e3ba31e351f59ffd0f8962618b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 47/79] fix: sign of the isospin 2 matrix element of CSRLt_sduu
 in K->pipi

---
 flavio/physics/kdecays/kpipi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/kdecays/kpipi.py b/flavio/physics/kdecays/kpipi.py
index 97b97be..c49c299 100644
--- a/flavio/physics/kdecays/kpipi.py
+++ b/flavio/physics/kdecays/kpipi.py
@@ -65,7 +65,7 @@ def Kpipi_matrixelements_NP(par, scale):
         M[i]['CSRL_sduu'] = -M[i]['CSRL_sddd']
         M[i]['CSRR_sduu'] = -M[i]['CSRR_sddd']
         M[i]['CTRR_sduu'] = -M[i]['CTRR_sddd']
-        M[i]['CSRLt_sduu'] = 1 / 2 * M[i]['CVLR_sddd']  # -1 from isospin, -1/2 from Fierz
+        M[i]['CSRLt_sduu'] = -1 / 2 * M[i]['CVLR_sddd']  # -1 from isospin, -1/2 from Fierz, -1 from parity
         M[i]['CSRRt_sduu'] = -(-1 / 2 * M[i]['CSRR_sddd'] - 1 / 8 * M[i]['CTRR_sddd'])
         M[i]['CTRRt_sduu'] = -(-6 * M[i]['CSRR_sddd'] + 1 / 2 * M[i]['CTRR_sddd'])
         M[i]['C8_sd']      = 0
-- 
2.43.0


From ffe5683f4fe00396599e62065e50a6f3deada42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 48/79] fix: lepton flavour violating contributions to
 KL->pinunu

---
 flavio/physics/kdecays/kpinunu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/kdecays/kpinunu.py b/flavio/physics/kdecays/kpinunu.py
index eae4631..572c1bc 100644
--- a/flavio/physics/kdecays/kpinunu.py
+++ b/flavio/physics/kdecays/kpinunu.py
@@ -59,9 +59,11 @@ def br_kplus_pinunu(wc_obj, par, nu1, nu2):
 
 def br_klong_pinunu(wc_obj, par, nu1, nu2):
     r"""Branching ratio of $K_L\pi^0\nu\bar\nu$ for fixed neutrino flavours"""
+    # interference of the K0 and anti-K0 decay amplitudes to the same final state
     amp = kpinunu_amplitude(wc_obj, par, nu1, nu2)
+    amp_bar = kpinunu_amplitude(wc_obj, par, nu2, nu1).conjugate()
     Vus = abs(flavio.physics.ckm.get_ckm(par)[0,1])
-    return amp.imag**2 * kappa_nu_tilde(par, 'long') / Vus**2 / 3.
+    return abs(amp - amp_bar)**2 / 4 * kappa_nu_tilde(par, 'long') / Vus**2 / 3.
 
 def br_kplus_pinunu_summed(wc_obj, par):
     r"""Branching ratio of $K^+\pi^+\nu\bar\nu$ summed over neutrino flavours"""
-- 
2.43.0


From 7c8f76326d7c6f4e123a5bb9efe90d5cd5a7c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 49/79] fix: normalization of the tensor amplitude in B->P
 decays

---
 flavio/physics/bdecays/angular.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/angular.py b/flavio/physics/bdecays/angular.py
index e6ce084..2198fe1 100644
--- a/flavio/physics/bdecays/angular.py
+++ b/flavio/physics/bdecays/angular.py
@@ -196,7 +196,7 @@ def helicity_amps_p(q2, mB, mP, mqh, mql, ml1, ml2, ff, wc, prefactor):
             (wc['s']+wc['sp'])/(mqh-mql) + (ml1-ml2)/q2*(wc['v']+wc['vp']) )
     h['P'] = (mB**2-mP**2)/2. * ff['f0'] * (
             (wc['p']+wc['pp'])/(mqh-mql) + (ml1+ml2)/q2*(wc['a']+wc['ap']) )
-    h['T']  = -1j*sqrt(laB)/(2*(mB+mP)) * (wc['t']-wc['tp']) * ff['fT']
+    h['T']  = -1j*sqrt(laB)/(sqrt(2)*(mB+mP)) * (wc['t']-wc['tp']) * ff['fT']
     h['Tt'] = -1j*sqrt(laB)/(2*(mB+mP)) * (wc['t']+wc['tp']) * ff['fT']
     return {k: prefactor*v for k, v in h.items()}
 
-- 
2.43.0


From 51778f9330fba8725d8203ddaf98e2a3e8739bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 50/79] fix: up and down quark masses in quark dipole moments

---
 flavio/physics/edms/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/edms/common.py b/flavio/physics/edms/common.py
index 7d7f06b..8c6dad9 100644
--- a/flavio/physics/edms/common.py
+++ b/flavio/physics/edms/common.py
@@ -12,9 +12,9 @@ def get_m(par, f, scale, eft):
         return par['m_' + f]
     nf_out = eft_nf_out[eft]
     if f == 'u':
-        return flavio.physics.running.running.get_md(par, scale, nf_out=nf_out)
-    elif f == 'd':
         return flavio.physics.running.running.get_mu(par, scale, nf_out=nf_out)
+    elif f == 'd':
+        return flavio.physics.running.running.get_md(par, scale, nf_out=nf_out)
     elif f == 's':
         return flavio.physics.running.running.get_ms(par, scale, nf_out=nf_out)
     else:
-- 
2.43.0


From 39c1efefd5be540c55bd176ea7ffe5f2bdf2ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 51/79] fix: symbols of ytterbium fluoride and thorium monoxide

---
 flavio/physics/edms/paraedm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/edms/paraedm.py b/flavio/physics/edms/paraedm.py
index c8a54a3..a8443b1 100644
--- a/flavio/physics/edms/paraedm.py
+++ b/flavio/physics/edms/paraedm.py
@@ -15,13 +15,13 @@ atoms = {
 
 molecules = {
     'YbF': {
-        'Z': 1, 'N': 1, 'tex': r'\text{HfF}', 'name': 'Ytterbium fluoride'
+        'Z': 1, 'N': 1, 'tex': r'\text{YbF}', 'name': 'Ytterbium fluoride'
     },
     'HfF': {
         'Z': 1, 'N': 1, 'tex': r'\text{HfF}', 'name': 'Hafnium fluoride'
     },
     'ThO': {
-        'Z': 1, 'N': 1, 'tex': r'\text{HfF}', 'name': 'Thorium monoxide'
+        'Z': 1, 'N': 1, 'tex': r'\text{ThO}', 'name': 'Thorium monoxide'
     },
 }
 
-- 
2.43.0


From 4d188d5542b9fb07261c0ae1cbcce0b88cc35121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 52/79] fix: sign of the dipole contribution to mu-e conversion

---
 flavio/physics/mudecays/mueconversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/mudecays/mueconversion.py b/flavio/physics/mudecays/mueconversion.py
index 00d9c3e..54fd291 100644
--- a/flavio/physics/mudecays/mueconversion.py
+++ b/flavio/physics/mudecays/mueconversion.py
@@ -27,8 +27,10 @@ def CR_mue(wc_obj, par, nucl):
     flavio.citations.register("Kitano:2002mt")
     wc = wc_obj.get_wc('mue', scale, par, nf_out=3)
     prefac = -np.sqrt(2)/par['GF']
-    AL = prefac / ( 4 * mm ) * wc['Cgamma_emu']
-    AR = prefac / ( 4 * mm ) * wc['Cgamma_mue'].conjugate()
+    # opposite sign since the covariant derivative in hep-ph/0203110 is
+    # d_mu - i e Q A, while it is d_mu + i e Q A for the Wilson coefficients
+    AL = -prefac / ( 4 * mm ) * wc['Cgamma_emu']
+    AR = -prefac / ( 4 * mm ) * wc['Cgamma_mue'].conjugate()
     gRV = {
         'u': prefac * ( wc['CVRR_mueuu'] + wc['CVLR_uumue'] ) / 2,
         'd': prefac * ( wc['CVRR_muedd'] + wc['CVLR_ddmue'] ) / 2,
-- 
2.43.0


From db2706d2ccc0d8ec32fea1664d1213084652b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 53/79] fix: flavour indices of the dipole operators in V->ll'

---
 flavio/physics/quarkonium/Vll.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Vll.py b/flavio/physics/quarkonium/Vll.py
index 5d835ed..e8a82bb 100644
--- a/flavio/physics/quarkonium/Vll.py
+++ b/flavio/physics/quarkonium/Vll.py
@@ -36,8 +36,8 @@ def getVT_lfv(wc_obj,par,V,Q,l1,l2):
         ll=wc_sector[(l1,l2)]
     VL=fV*mV*(wc['CVLL_'+ll+qq] + wc['CVLR_'+ll+qq]) 
     VR=fV*mV*(wc['CVRR_'+ll+qq] + wc['CVLR_'+qq+ll]) 
-    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1] 
-    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2]).conjugate()
+    TR=fV_T*mV*wc['CTRR_'+l1+l2+qq] - ee*Q *fV*wc['Cgamma_'+l1+l2] 
+    TL=(fV_T*mV*wc['CTRR_'+l2+l1+qq] - ee*Q *fV*wc['Cgamma_'+l2+l1]).conjugate()
     if ll==l2+l1: 
         VL=VL.conjugate()
         VR=VR.conjugate()
-- 
2.43.0


From 17b17e5267ca70e6ed7de2b61c9472cc6f65c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 54/79] fix: interference of vector and tensor couplings in
 V->ll'

---
 flavio/physics/quarkonium/Vll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/quarkonium/Vll.py b/flavio/physics/quarkonium/Vll.py
index e8a82bb..60710f5 100644
--- a/flavio/physics/quarkonium/Vll.py
+++ b/flavio/physics/quarkonium/Vll.py
@@ -91,7 +91,7 @@ def Vll_br(wc_obj, par,V,Q, l1,l2):
 
     ampSquared_V = (np.abs(VL)**2+np.abs(VR)**2 )/12. *(2-y1s-y2s-(y1s-y2s)**2)+y1*y2*(VL*VR.conjugate()).real
     ampSquared_T= 4./3.*(np.abs(TL)**2+np.abs(TR)**2) * (1+y1s+y2s-2*(y1s-y2s)**2) +16.*y1*y2*(TR*TL.conjugate()).real
-    ampSquared_VT = 2*y1*(1+y2s-y1s)*(VR*TR.conjugate()+VL*TL.conjugate()).real + 2*y2*(1+y1s-y2s)*(VL*TR.conjugate()+VR*TL.conjugate()).real
+    ampSquared_VT = 2*y2*(1+y1s-y2s)*(VR*TR.conjugate()+VL*TL.conjugate()).real + 2*y1*(1+y2s-y1s)*(VL*TR.conjugate()+VR*TL.conjugate()).real
     
     return tauV*mV/(16.*np.pi) * np.sqrt(lambda_K(1,y1s,y2s)) * (ampSquared_V+ampSquared_T+ampSquared_VT)
 
-- 
2.43.0


From 00f30f13cc6b902002fce9f5506994211cf8c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 55/79] fix: lepton masses and phases of the vector
 contributions to P->ll'

---
 flavio/physics/quarkonium/Pll.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 951fb09..717e817 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -34,8 +34,13 @@ def getS_lfv(wc_obj,par,P,l1,l2,CeGGij,CeGGji):
     else:
         ll=wc_sector[(l1,l2)]
     aPfac=1j*aP*4.*np.pi/alphas
-    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml1*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml2* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] ))  
-    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*(wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll])+ml1* (wc['CVLR_'+ll+qq] -wc['CVLL_'+ll+qq] )) 
+    AR=wc['CVRR_'+ll+qq] - wc['CVLR_'+qq+ll]
+    AL=wc['CVLR_'+ll+qq] - wc['CVLL_'+ll+qq]
+    if ll==l2+l1:
+        AR=AR.conjugate()
+        AL=AL.conjugate()
+    SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml2*AR - ml1*AL)
+    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*AL - ml1*AR)
     return SL,SR
 
 
-- 
2.43.0


From c2d2f75a4a6869db3f78b2ba75b87e0e04e68172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 56/79] fix: define the P->ll' branching ratios summed over
 charges for all leptons

---
 flavio/physics/quarkonium/Pll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 717e817..6c2c48c 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -102,7 +102,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_P_ll(M, (l1,l2))
         Prediction(_obs_name, Pll_br_func(_hadr[M]['P'], l1, l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_P_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Pll_br_comb_func(_hadr[M]['P'], l1,l2))
-- 
2.43.0


From a62a8eb82aa9715f259c41d037760cc35419f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 57/79] fix: define the S->ll' branching ratios summed over
 charges for all leptons

---
 flavio/physics/quarkonium/Sll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/quarkonium/Sll.py b/flavio/physics/quarkonium/Sll.py
index d6d9879..59d9ca3 100644
--- a/flavio/physics/quarkonium/Sll.py
+++ b/flavio/physics/quarkonium/Sll.py
@@ -90,7 +90,7 @@ for M in _hadr:
     for (l1,l2) in [('e','mu'), ('mu','e'), ('e','tau'), ('tau','e'), ('mu','tau'), ('tau','mu')]:
         _obs_name = _define_obs_S_ll(M, (l1,l2))
         Prediction(_obs_name, Sll_br_func(_hadr[M]['S'], l1,l2))
-    for ll in [('e','mu'), ('e','tau'), ('mu','tau')]:
+    for (l1,l2) in [('e','mu'), ('e','tau'), ('mu','tau')]:
         # Combined l1+ l2- + l2+ l1- lepton flavour violating decays
         _obs_name = _define_obs_S_ll(M, ('{0}{1},{1}{0}'.format(l1,l2),))
         Prediction(_obs_name, Sll_br_comb_func(_hadr[M]['S'],  l1,l2))
-- 
2.43.0


From 14f931f9644cfea882886c09ce7fda1ce741e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:44 +0000
Subject: [PATCH 58/79] fix: interference of axial vector and pseudoscalar
 couplings in V->ll'gamma

---
 flavio/physics/quarkonium/Vllgamma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/quarkonium/Vllgamma.py b/flavio/physics/quarkonium/Vllgamma.py
index 40deea9..aa7baf9 100644
--- a/flavio/physics/quarkonium/Vllgamma.py
+++ b/flavio/physics/quarkonium/Vllgamma.py
@@ -119,12 +119,12 @@ def Vllgamma_br(wc_obj, par,V,Q, l1,l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji):
    
     if ml1<ml2:
         y=ml2/mV
-        I_AP=-(AL*PR.conjugate()+AR*PL.conjugate()).real
-        I_APtilde=-(AL*PtildeR.conjugate()+AR*PtildeL.conjugate()).imag
-    elif ml2<ml1:
-        y=ml1/mV
         I_AP=(AL*PL.conjugate()+AR*PR.conjugate()).real
         I_APtilde=(AL*PtildeL.conjugate()+AR*PtildeR.conjugate()).imag
+    elif ml2<ml1:
+        y=ml1/mV
+        I_AP=-(AL*PR.conjugate()+AR*PL.conjugate()).real
+        I_APtilde=-(AL*PtildeR.conjugate()+AR*PtildeL.conjugate()).imag
     else:
         print("The case of non-hierarchical masses is not implemented.")
 
-- 
2.43.0


From f72006af910a5648e19d44d3390da32abe8801d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:44 +0000
Subject: [PATCH 59/79] fix: interference of pseudoscalar couplings in
 V->ll'gamma

---
 flavio/physics/quarkonium/Vllgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/quarkonium/Vllgamma.py b/flavio/physics/quarkonium/Vllgamma.py
index aa7baf9..410ab4a 100644
--- a/flavio/physics/quarkonium/Vllgamma.py
+++ b/flavio/physics/quarkonium/Vllgamma.py
@@ -130,7 +130,7 @@ def Vllgamma_br(wc_obj, par,V,Q, l1,l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji):
 
     prefactor=alphaem*Q**2*tauV*mV/(192*np.pi**2)
     
-    return prefactor*(AV * F_A(y) + SP*F_S(y) + I_AP*F_PA(y) + SPtilde *Ftilde_S(y) + SStilde * Fhat_S(y) + PPtilde * Fhat_P(y) +I_APtilde * Ftilde_PA(y))
+    return prefactor*(AV * F_A(y) + SP*F_S(y) + I_AP*F_PA(y) + SPtilde *Ftilde_S(y) + SStilde * Fhat_S(y) + PPtilde * Fhat_S(y) +I_APtilde * Ftilde_PA(y))
 
 
 def Vllgamma_br_func(V, Q, l1, l2):
-- 
2.43.0


From dd3772617ea9650dbebac465aab6800afccfb0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:38 +0000
Subject: [PATCH 60/79] fix: phases of CKM elements in W decays

---
 flavio/physics/wdecays/gammaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/wdecays/gammaw.py b/flavio/physics/wdecays/gammaw.py
index e082dc8..e40ec1c 100644
--- a/flavio/physics/wdecays/gammaw.py
+++ b/flavio/physics/wdecays/gammaw.py
@@ -40,7 +40,7 @@ def GammaW_SM(f1, f2, par):
 def GammaW_NP(par, Nc, gW_SM, d_gW):
     GF, mW = par['GF'], par['m_W']
     return (sqrt(2) * GF * mW**3 / (3 * pi) * Nc
-            * (2*(gW_SM*d_gW).real + abs(d_gW)**2))
+            * (2*(gW_SM*d_gW.conjugate()).real + abs(d_gW)**2))
 
 
 def GammaW(wc_obj, par, f1, f2):
-- 
2.43.0


From c2dcaf67240416ecb9c3e42eeda49d52cf3cb6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 61/79] fix: get_wilson works with numpy versions without the
 np.complex alias

---
 flavio/physics/running/running.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/running/running.py b/flavio/physics/running/running.py
index 6c4f890..cec6afb 100644
--- a/flavio/physics/running/running.py
+++ b/flavio/physics/running/running.py
@@ -290,7 +290,7 @@ def make_wilson_rge_derivative(adm):
         alpha_s = x[-2]
         alpha_e = x[-1]
         c_real = x[:-2]
-        c = c_real.view(np.complex)
+        c = c_real.view(complex)
         d_alpha = betafunctions.beta_qcd_qed([alpha_s, alpha_e], mu, nf)
         d_c = np.dot(adm(nf, alpha_s, alpha_e).T, c)/mu
         d_c_real = d_c.view(float)
@@ -311,7 +311,7 @@ def get_wilson(par, c_in, derivative_nf, scale_in, scale_out, nf_out=None):
     x_in = np.append(c_in_real, [alpha_in['alpha_s'], alpha_in['alpha_e']])
     sol = rg_evolve_sm(x_in, derivative_nf, scale_in, scale_out, nf_out=nf_out)
     c_out = sol[:-2]
-    return c_out.view(np.complex)
+    return c_out.view(complex)
 
 def get_f_perp(par, meson, scale, nf_out=None):
     r"""Get the transverse meson decay constant at a given scale.
-- 
2.43.0


From cde71b3461e7eb3217c0eeab006ee9a808a03251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 62/79] fix: BCL form factors satisfy f+(0)=f0(0)

---
 flavio/physics/bdecays/formfactors/b_p/bcl.py | 2 +-
 flavio/physics/ddecays/formfactors/bcl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/b_p/bcl.py b/flavio/physics/bdecays/formfactors/b_p/bcl.py
index d335f9d..f80aa25 100644
--- a/flavio/physics/bdecays/formfactors/b_p/bcl.py
+++ b/flavio/physics/bdecays/formfactors/b_p/bcl.py
@@ -57,7 +57,7 @@ def ff(process, q2, par, n=3, t0=None):
         a['f0'] = [ par[process + ' BCL' + ' a' + str(j) + '_f0'] for j in range(n-1) ]
         fplus_q20 = pole('f+', mpl, 0) * param_fplusT(mB, mP, a['f+'], 0, t0)
         f0_q20 = pole('f0', m0, 0) * param_f0(mB, mP, a['f0'], 0, t0)
-        an_f0 = (f0_q20-fplus_q20)/z(mB, mP, 0, t0)**(n-1)
+        an_f0 = (fplus_q20-f0_q20)/z(mB, mP, 0, t0)**(n-1)
         a['f0'].append(an_f0)
     # evaluate FFs
     ff['f+'] = chL * pole('f+', mpl, q2) * param_fplusT(mB, mP, a['f+'], q2, t0)
diff --git a/flavio/physics/ddecays/formfactors/bcl.py b/flavio/physics/ddecays/formfactors/bcl.py
index 1bd93cd..7f01a00 100644
--- a/flavio/physics/ddecays/formfactors/bcl.py
+++ b/flavio/physics/ddecays/formfactors/bcl.py
@@ -37,7 +37,7 @@ def ff(process, q2, par, n=3, t0=None):
     a['f0'] = [par[process + ' BCL' + ' a' + str(j) + '_f0'] for j in range(n-1)]
     fplus_q20 = pole('f+', mpl, 0) * param_fplusT(mB, mP, a['f+'], 0, t0)
     f0_q20 = pole('f0', m0, 0) * param_f0(mB, mP, a['f0'], 0, t0)
-    an_f0 = (f0_q20-fplus_q20)/z(mB, mP, 0, t0)**(n-1)
+    an_f0 = (fplus_q20-f0_q20)/z(mB, mP, 0, t0)**(n-1)
     a['f0'].append(an_f0)
     # evaluate FFs
     ff['f+'] = pole('f+', mpl, q2) * param_fplusT(mB, mP, a['f+'], q2, t0)
-- 
2.43.0


From 2da2ff0352ef5111d32f1f3f6a1543f4244644c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 63/79] fix: radiative correction to the pseudoscalar current
 in HQET

---
 flavio/physics/bdecays/formfactors/hqet.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/flavio/physics/bdecays/formfactors/hqet.py b/flavio/physics/bdecays/formfactors/hqet.py
index e900555..541fa3c 100644
--- a/flavio/physics/bdecays/formfactors/hqet.py
+++ b/flavio/physics/bdecays/formfactors/hqet.py
@@ -95,15 +95,9 @@ def omega(w, z):
 
 def CP(w, z):
     wz = 1 / 2 * (z + 1 / z)
-    return ((-2 * (-w + wz) * (-1 + z) * z *
-             (-1 + z + z * (1 + z) * log(z)) *
-             ((-1 + z**2) * log(z) +
-              (z * (3 + z**2) +
-               w *
-                 (-1 + z - (3 + 2 * w) * z**2 +
-                  z**3)) * r(w)) +
-             4 * (w - wz)**2 * z**2 * omega(w, z)) /
-            (2. * (w - wz)**2 * z**2))
+    return ((-1 + z**2) * log(z) -
+            (1 + w) * (-1 + z)**2 * r(w) +
+            2 * (w - wz) * z * omega(w, z)) / (3. * (w - wz) * z)
 
 
 def CV1(w, z):
-- 
2.43.0


From 85712f2eaf73ecbcdddefdb19789a698643ed354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:39 +0000
Subject: [PATCH 64/79] fix: third parameter of the Lambda_b->Lambda form
 factors with SSE3 is used

---
 flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py     | 2 +-
 .../bdecays/formfactors/lambdab_12/lattice_parameters.py     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py b/flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py
index 891e0c7..a9b49dd 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/lambdab.py
@@ -19,5 +19,5 @@ for p in processes:
 
     iname = p + ' SSE3'
     i = Implementation(name=iname, quantity=quantity,
-                   function=ff_function(sse.ff, p, n=2))
+                   function=ff_function(sse.ff, p, n=3))
     i.set_description("3-parameter simplified series expansion")
diff --git a/flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py b/flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py
index 824793e..94383c8 100644
--- a/flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py
+++ b/flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py
@@ -72,6 +72,11 @@ def lattice_load_nominal(constraints):
     load_parameters('data/arXiv-1602-01399v1/LambdabLambda_results.dat',
                     'data/arXiv-1602-01399v1/LambdabLambda_covariance.dat',
                     'Lambdab->Lambda', constraints)
+    # the nominal fit has no quadratic terms
+    for parameter_name in constraints.all_parameters:
+        if parameter_name.startswith('Lambdab->Lambda SSE a2_'):
+            constraints.set_constraint(parameter_name, 0)
+
 
 def lattice_load_ho(constraints):
     load_parameters('data/arXiv-1602-01399v1/LambdabLambda_HO_results.dat',
-- 
2.43.0


From cb995c1b37ea805bca3d5f32f4ee40a64d7d4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:32 +0000
Subject: [PATCH 65/79] fix: K_4s and K_4sc of Lambda_b->Lambda l l are real
 parts of interference terms

---
 flavio/physics/bdecays/lambdablambdall.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/lambdablambdall.py b/flavio/physics/bdecays/lambdablambdall.py
index 519dec3..de6a813 100644
--- a/flavio/physics/bdecays/lambdablambdall.py
+++ b/flavio/physics/bdecays/lambdablambdall.py
@@ -94,11 +94,11 @@ def angular_coefficients(ta, alpha):
     K['4sc'] = alpha/sqrt(2) * ( ta['perp1', 'R'] * ta['para0', 'R'].conj()
                                - ta['para1', 'R'] * ta['perp0', 'R'].conj()
                                + ta['perp1', 'L'] * ta['para0', 'L'].conj()
-                               - ta['para1', 'L'] * ta['perp0', 'L'].conj() ).imag
+                               - ta['para1', 'L'] * ta['perp0', 'L'].conj() ).real
     K['4s'] = alpha/sqrt(2) * ( ta['perp1', 'R'] * ta['perp0', 'R'].conj()
                               - ta['para1', 'R'] * ta['para0', 'R'].conj()
                               - ta['perp1', 'L'] * ta['perp0', 'L'].conj()
-                              + ta['para1', 'L'] * ta['para0', 'L'].conj() ).imag
+                              + ta['para1', 'L'] * ta['para0', 'L'].conj() ).real
     return K
 
 def get_ff(q2, par):
-- 
2.43.0


From f8220d17986bf003b8fe601eee1c36a06e73125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:33 +0000
Subject: [PATCH 66/79] fix: CP conjugation of the amplitudes of Lambda_b
 decays

---
 flavio/physics/bdecays/lambdablambda1520ll.py        | 2 ++
 flavio/physics/bdecays/lambdablambdall.py            | 2 ++
 flavio/physics/bdecays/lambdablambdall_subleading.py | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/lambdablambda1520ll.py b/flavio/physics/bdecays/lambdablambda1520ll.py
index eada6bf..b93d37b 100644
--- a/flavio/physics/bdecays/lambdablambda1520ll.py
+++ b/flavio/physics/bdecays/lambdablambda1520ll.py
@@ -183,6 +183,8 @@ def get_transversity_amps_ff(q2, wc_obj, par_dict, lep, cp_conjugate):
     mb = flavio.physics.running.running.get_mb(par, scale)
     ff = get_ff(q2, par)
     wc = flavio.physics.bdecays.wilsoncoefficients.wctot_dict(wc_obj, 'bs' + lep + lep, scale, par)
+    if cp_conjugate:
+        wc = conjugate_wc(wc)
     wc_eff = flavio.physics.bdecays.wilsoncoefficients.get_wceff(q2, wc, par, 'Lambdab', 'Lambda(1520)', lep, scale)
 
     ha = helicity_amps(q2, mLb, mL, ff)
diff --git a/flavio/physics/bdecays/lambdablambdall.py b/flavio/physics/bdecays/lambdablambdall.py
index de6a813..d5192a9 100644
--- a/flavio/physics/bdecays/lambdablambdall.py
+++ b/flavio/physics/bdecays/lambdablambdall.py
@@ -124,6 +124,8 @@ def get_transverity_amps_ff(q2, wc_obj, par_dict, lep, cp_conjugate):
     mb = flavio.physics.running.running.get_mb(par, scale)
     ff = get_ff(q2, par)
     wc = flavio.physics.bdecays.wilsoncoefficients.wctot_dict(wc_obj, 'bs' + lep + lep, scale, par)
+    if cp_conjugate:
+        wc = conjugate_wc(wc)
     wc_eff = flavio.physics.bdecays.wilsoncoefficients.get_wceff(q2, wc, par, 'Lambdab', 'Lambda', lep, scale)
     ha = helicity_amps(q2, mLb, mL, ff)
     N = prefactor(q2, par, scale)
diff --git a/flavio/physics/bdecays/lambdablambdall_subleading.py b/flavio/physics/bdecays/lambdablambdall_subleading.py
index 6953d8a..1745901 100644
--- a/flavio/physics/bdecays/lambdablambdall_subleading.py
+++ b/flavio/physics/bdecays/lambdablambdall_subleading.py
@@ -84,7 +84,7 @@ def fct_deltaC9_constant(wc_obj, par_dict, q2, cp_conjugate):
     par = par_dict.copy()
     if cp_conjugate:
         par = conjugate_par(par)
-    return transversity_amps_deltaC9_constant(q2, par_dict)
+    return transversity_amps_deltaC9_constant(q2, par)
 
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
-- 
2.43.0


From 5bb0b8a60bf1d829ca34fd171a4b2ab011997712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:50 +0000
Subject: [PATCH 67/79] fix: interference of C7 and C9 in the vector form
 factor of B->l l gamma

---
 flavio/physics/bdecays/bllgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bllgamma.py b/flavio/physics/bdecays/bllgamma.py
index 80a2a8d..57ca073 100644
--- a/flavio/physics/bdecays/bllgamma.py
+++ b/flavio/physics/bdecays/bllgamma.py
@@ -74,7 +74,7 @@ def getF1(s, par, B, ff, ff0, lep, wc):
     bq = meson_quark[B]
     label = bq+lep+lep
     fftv, ffta = getfft(s, par, B, ff, ff0, lep, wc)
-    return (abs(wc['C9_'+label])**2 + abs(wc['C10_'+label])**2)*ff['v']**2 + 4*mbh**2/s**2*abs(wc['C7_'+bq]*fftv)**2 + 4*mbh/s*ff['v']*_Re(wc['C7_'+bq]*ffta*_Co(wc['C9_'+label]))
+    return (abs(wc['C9_'+label])**2 + abs(wc['C10_'+label])**2)*ff['v']**2 + 4*mbh**2/s**2*abs(wc['C7_'+bq]*fftv)**2 + 4*mbh/s*ff['v']*_Re(wc['C7_'+bq]*fftv*_Co(wc['C9_'+label]))
 
 def getF2(s, par, B, ff, ff0, lep, wc):
     flavio.citations.register("Melikhov:2004mk")
-- 
2.43.0


From 27497096c04876076bce16ddedcdda7af5e515a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:50 +0000
Subject: [PATCH 68/79] fix: bremsstrahlung in B->l l gamma

---
 flavio/physics/bdecays/bllgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bllgamma.py b/flavio/physics/bdecays/bllgamma.py
index 57ca073..accc1b7 100644
--- a/flavio/physics/bdecays/bllgamma.py
+++ b/flavio/physics/bdecays/bllgamma.py
@@ -130,7 +130,7 @@ def dG2dsMN(s, par, B, ff, ff0, lep, wc):
     bq = meson_quark[B]
     label = bq+lep+lep
     pref = 16*prefactor(s, par, B, ff, lep, wc)*(par['f_'+B]/par['m_'+B]*abs(wc['C10_'+label])*mlh)**2/(1-s)
-    return pref*(-8*sqrt(s-4*mlh**2)*sqrt(s)+4*atanh(sqrt(1-4*mlh**2/s))*(1+s-mlh**2*(1-s)**2))
+    return pref*(-8*sqrt(s-4*mlh**2)*sqrt(s)+8*atanh(sqrt(1-4*mlh**2/s))*(1+s**2-4*mlh**2))
 
 def dG12dsMN(s, par, B, ff, ff0, lep, wc):
     flavio.citations.register("Melikhov:2004mk")
-- 
2.43.0


From 52aa825dd724294b3ec160772b4f1f2528f4f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:30 +0000
Subject: [PATCH 69/79] fix: relative sign of interference terms in the CP
 asymmetry of B->X gamma

---
 flavio/physics/bdecays/bxgamma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/bdecays/bxgamma.py b/flavio/physics/bdecays/bxgamma.py
index f11bb2b..19260cd 100644
--- a/flavio/physics/bdecays/bxgamma.py
+++ b/flavio/physics/bdecays/bxgamma.py
@@ -31,8 +31,8 @@ ka1_i = np.array([[0, 0, -0.007562956672, 0.001260492779, -0.09028834311, 0.0163
                   [-0.001260492779, 0.007562956672, 0, 0, 0, -0.04537774003, -1.221446177, 0],
                   [0.09028834311, -0.5417300587, 0, 0, 0, 3.250380352, 17.37572233, 0],
                   [-0.0163641251, 0.0981847506, -0.2722664402, 0.04537774003, -3.250380352, 0, -16.57524067, -0.2201548215],
-                  [-0.1092317551, 0.6553905309, -1.085982646, 1.221446177, -17.37572233, 16.57524067, 0, 2.792526803],
-                  [-0.006116280995, 0.03669768597, 0, 0, 0, 0.2201548215, -2.792526803, 0]])
+                  [-0.1092317551, 0.6553905309, -1.085982646, 1.221446177, -17.37572233, 16.57524067, 0, -2.792526803],
+                  [-0.006116280995, 0.03669768597, 0, 0, 0, 0.2201548215, 2.792526803, 0]])
 
 def BRBXgamma(wc_obj, par, q, E0):
     r"""Branching ratio of $B\to X_q\gamma$ ($q=s$ or $d$) normalized to
@@ -96,8 +96,8 @@ def PE0_ACP_BXgamma(wc, par, q, E0):
     coeffs_p = ['C1p_'+bq, 'C2p_'+bq, 'C3p_'+bq, 'C4p_'+bq, 'C5p_'+bq, 'C6p_'+bq, 'C7effp_'+bq, 'C8effp_'+bq]
     wc1_8 = np.array([wc[name] for name in coeffs])
     wc1p_8p = np.array([wc[name] for name in coeffs_p])
-    P1 = at    * np.dot(wc1_8, np.dot(ka1_i, wc1_8.conj())).imag
-    P1_p = at    * np.dot(wc1p_8p, np.dot(ka1_i, wc1p_8p.conj())).imag
+    P1 = -at   * np.dot(wc1_8, np.dot(ka1_i, wc1_8.conj())).imag
+    P1_p = -at   * np.dot(wc1p_8p, np.dot(ka1_i, wc1p_8p.conj())).imag
     r_u = flavio.physics.ckm.xi('u',bq)(par)/flavio.physics.ckm.xi('t',bq)(par)
     PVub = 0.0596211 * r_u.imag
     return P1 + P1_p + PVub
-- 
2.43.0


From 15f9f900fe7c3bbb7156362db64e6358dcd86979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:37 +0000
Subject: [PATCH 70/79] fix: CP conjugation of subleading hadronic effects in
 B->P l l and B->V l l

---
 flavio/physics/bdecays/bpll_subleading.py | 4 ++--
 flavio/physics/bdecays/bvll/subleading.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/bpll_subleading.py b/flavio/physics/bdecays/bpll_subleading.py
index 4d9a7c4..ce62c9b 100644
--- a/flavio/physics/bdecays/bpll_subleading.py
+++ b/flavio/physics/bdecays/bpll_subleading.py
@@ -71,7 +71,7 @@ def fct_deltaC9_polynomial(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_polynomial(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_polynomial(q2, par, B, P)
     return fct
 
 def fct_deltaC9_constant(B, P):
@@ -79,7 +79,7 @@ def fct_deltaC9_constant(B, P):
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-        return helicity_amps_deltaC9_constant(q2, par_dict, B, P)
+        return helicity_amps_deltaC9_constant(q2, par, B, P)
     return fct
 
 # AuxiliaryQuantity & Implementatation: subleading effects at LOW q^2
diff --git a/flavio/physics/bdecays/bvll/subleading.py b/flavio/physics/bdecays/bvll/subleading.py
index 632ae6d..799007d 100644
--- a/flavio/physics/bdecays/bvll/subleading.py
+++ b/flavio/physics/bdecays/bvll/subleading.py
@@ -85,6 +85,8 @@ class HelicityAmpsDeltaC_9_shift(HelicityAmpsDeltaC):
 def fct_deltaC7C7p_polynomial(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_77p_polynomial(B, V, par, q2)()
     return fct
 
@@ -92,6 +94,8 @@ def fct_deltaC7C7p_polynomial(B, V):
 def fct_deltaC9_constant(B, V):
     def fct(wc_obj, par_dict, q2, cp_conjugate):
         par = par_dict.copy()
+        if cp_conjugate:
+            par = conjugate_par(par)
         return HelicityAmpsDeltaC_9_shift(B, V, par, q2)()
     return fct
 
-- 
2.43.0


From 4ae74bd978e9139fb660e467137bcd0b0359ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 71/79] fix: interference terms with complex Wilson
 coefficients in B->Xc l nu

---
 flavio/physics/bdecays/bxlnu.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/flavio/physics/bdecays/bxlnu.py b/flavio/physics/bdecays/bxlnu.py
index 963b10c..859bd15 100644
--- a/flavio/physics/bdecays/bxlnu.py
+++ b/flavio/physics/bdecays/bxlnu.py
@@ -37,17 +37,17 @@ def _BR_BXclnu(par, wc_obj, lep, nu):
     # of the scalar operators
     Gamma_LO = GF**2 * mb**5 / 192. / pi**3 * abs(Vcb)**2
     r_WC = (   g(xc, xl)      * (abs(wc['VL'])**2 + abs(wc['VR'])**2)
-             - gLR(xc, xl)    * (wc['VL']*wc['VR']).real
+             - gLR(xc, xl)    * (wc['VL']*wc['VR'].conjugate()).real
              + g(xc, xl)/4.   * (abs(wc['SR'])**2 + abs(wc['SL'])**2)
-             + gLR(xc, xl)/2. * (wc['SR']*wc['SL']).real
+             + gLR(xc, xl)/2. * (wc['SR']*wc['SL'].conjugate()).real
              + 12*g(xc, xl)   * abs(wc['T'])**2
              # the following terms vanish for vanishing lepton mass
-             + gVS(xc, xl)    * ((wc['VL']*wc['SR']).real
-                                       + (wc['VR']*wc['SL']).real)
-             + gVSp(xc, xl)   * ((wc['VL']*wc['SL']).real
-                                       + (wc['VR']*wc['SR']).real)
-             - 12*gVSp(xc, xl)* (wc['VL']*wc['T']).real
-             + 12*gVS(xc, xl) * (wc['VR']*wc['T']).real
+             + gVS(xc, xl)    * ((wc['VL']*wc['SR'].conjugate()).real
+                                       + (wc['VR']*wc['SL'].conjugate()).real)
+             + gVSp(xc, xl)   * ((wc['VL']*wc['SL'].conjugate()).real
+                                       + (wc['VR']*wc['SR'].conjugate()).real)
+             - 12*gVSp(xc, xl)* (wc['VL']*wc['T'].conjugate()).real
+             + 12*gVS(xc, xl) * (wc['VR']*wc['T'].conjugate()).real
            )
     # eq. (26) of arXiv:1107.3100 + corrections (P. Gambino, private communication)
     flavio.citations.register("Gambino:2011cq")
-- 
2.43.0


From 46d9627cd048028ac283e1d055287d5cc1379ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 72/79] fix: imaginary part of the QED corrections to the
 interference of C2 and C9 in B->X l l

---
 flavio/physics/bdecays/bxll_qed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/bdecays/bxll_qed.py b/flavio/physics/bdecays/bxll_qed.py
index f2acb85..d188b97 100644
--- a/flavio/physics/bdecays/bxll_qed.py
+++ b/flavio/physics/bdecays/bxll_qed.py
@@ -269,7 +269,7 @@ def wem_27_re_low(sh, mb, ml, scale, mc):
 
 
 def wem_29_high(sh, mb, ml, scale, mc):
-    return wem_29_re_high(sh, mb, ml, scale, mc) + 1j*wem_29_re_high(sh, mb, ml, scale, mc)
+    return wem_29_re_high(sh, mb, ml, scale, mc) + 1j*wem_29_im_high(sh, mb, ml, scale, mc)
 
 
 def wem_29_re_high(sh, mb, ml, scale, mc):
@@ -296,7 +296,7 @@ def wem_29_im_low(sh, mb, ml, scale, mc):
 
 
 def wem_29_low(sh, mb, ml, scale, mc):
-    return wem_29_re_low(sh, mb, ml, scale, mc) + 1j*wem_29_re_low(sh, mb, ml, scale, mc)
+    return wem_29_re_low(sh, mb, ml, scale, mc) + 1j*wem_29_im_low(sh, mb, ml, scale, mc)
 
 def wem_29_re_low(sh, mb, ml, scale, mc):
     return (((154715658 / 8534309 + 12910827 / (114675722 * sh) -
-- 
2.43.0


From c58be233ef58bd4673d613b6eed7bc600b7178ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 73/79] fix: unphysical pole in the bremsstrahlung corrections
 to the forward-backward asymmetry of B->X l l

---
 flavio/physics/bdecays/bxll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bxll.py b/flavio/physics/bdecays/bxll.py
index 7de7a42..ef2c2d5 100644
--- a/flavio/physics/bdecays/bxll.py
+++ b/flavio/physics/bdecays/bxll.py
@@ -234,7 +234,7 @@ def tau99(s):
 def tau79(s):
     return - (4 * (1-s)**2)/(9 * s) * log(1-s)-(4 * s * (3-2 * s))/(9 * (1-s)**2) * log(s) -(2 * (5-3 * s))/(9 * (1-s))
 def tau710(s):
-	return -5/2 + 1/(3 * (1-3*s)) - 1/3 * (s * (6-7 * s) * log(s))/((1-s)**2)- 1/9 * ((3-7 * s + 4 * s**2) * log(1-s))/(s) + (f7(s))/3
+	return -5/2 + 1/(3 * (1-s)) - 1/3 * (s * (6-7 * s) * log(s))/((1-s)**2)- 1/9 * ((3-7 * s + 4 * s**2) * log(1-s))/(s) + (f7(s))/3
 def tau910(s) :
 	return -5/2 + 1/(3 * (1-s)) - 1/3 * (s * (6-7*s) * log(s))/(((1-s)**2)) - 2/9 * ((3-5 * s + 2 * s**2) * log(1-s))/(s) + (f9(s))/3
 def f7(s):
-- 
2.43.0


From ff577022027f9e53f48df06761cc15d48da846bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:06 +0000
Subject: [PATCH 74/79] fix: spectator scattering in B->V l l ignored changes
 of the renormalization scale after import

---
 flavio/physics/bdecays/bvll/nonfactorizable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flavio/physics/bdecays/bvll/nonfactorizable.py b/flavio/physics/bdecays/bvll/nonfactorizable.py
index 011fcb6..197b188 100644
--- a/flavio/physics/bdecays/bvll/nonfactorizable.py
+++ b/flavio/physics/bdecays/bvll/nonfactorizable.py
@@ -18,10 +18,10 @@ from flavio.config import config
 
 # function needed for the QCD factorization implementation (see qcdf.py)
 def ha_qcdf_function(B, V):
-    scale = config['renormalization scale']['bvll']
     label = meson_quark[(B,V)] + 'ee' # the lepton flavour is irrelevant here
                                       # as only dipole and 4-quark operators contribute!
     def function(wc_obj, par_dict, q2, cp_conjugate):
+        scale = config['renormalization scale']['bvll']
         par = par_dict.copy()
         if cp_conjugate:
             par = conjugate_par(par)
-- 
2.43.0


From d68db1ccd18118771b217229f923d6f3669ec01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:01 +0000
Subject: [PATCH 75/79] fix: flavour of two-gluon and two-photon couplings in
 the charge-conjugated quarkonium decay

The predictions summed over both charge assignments passed the coefficients
ij and ji for both decays, so that l_i and l_j were interchanged in the second
decay for all operators but these.
---
 flavio/physics/quarkonium/Pll.py      | 2 +-
 flavio/physics/quarkonium/Sll.py      | 2 +-
 flavio/physics/quarkonium/Vllgamma.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 6c2c48c..09954ab 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -68,7 +68,7 @@ def Pll_br_func(P,  l1, l2):
 
 def Pll_br_comb_func(P,  l1, l2):
     def fct(wc_obj, par,CeGGij=0,CeGGji=0):
-        return Pll_br(wc_obj, par, P,  l1, l2,CeGGij,CeGGji)+ Pll_br(wc_obj, par, P,  l2, l1,CeGGij,CeGGji)
+        return Pll_br(wc_obj, par, P,  l1, l2,CeGGij,CeGGji)+ Pll_br(wc_obj, par, P,  l2, l1,CeGGji,CeGGij)
     return fct
 
 
diff --git a/flavio/physics/quarkonium/Sll.py b/flavio/physics/quarkonium/Sll.py
index 59d9ca3..aa63a64 100644
--- a/flavio/physics/quarkonium/Sll.py
+++ b/flavio/physics/quarkonium/Sll.py
@@ -55,7 +55,7 @@ def Sll_br_func(S,  l1, l2):
 
 def Sll_br_comb_func(S,  l1, l2):
     def fct(wc_obj, par,CeGGij=0,CeGGji=0):
-        return Sll_br(wc_obj, par, S,  l1, l2,CeGGij,CeGGji)+ Sll_br(wc_obj, par, S,  l2, l1,CeGGij,CeGGji)
+        return Sll_br(wc_obj, par, S,  l1, l2,CeGGij,CeGGji)+ Sll_br(wc_obj, par, S,  l2, l1,CeGGji,CeGGij)
     return fct
 
 
diff --git a/flavio/physics/quarkonium/Vllgamma.py b/flavio/physics/quarkonium/Vllgamma.py
index 410ab4a..5601590 100644
--- a/flavio/physics/quarkonium/Vllgamma.py
+++ b/flavio/physics/quarkonium/Vllgamma.py
@@ -141,7 +141,7 @@ def Vllgamma_br_func(V, Q, l1, l2):
 
 def Vllgamma_br_comb_func(V, Q, l1, l2):
     def fct(wc_obj, par,CeFFij=0,CeFFji=0,CeFFtildeij=0,CeFFtildeji=0):
-        return Vllgamma_br(wc_obj, par, V, Q, l1, l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)+ Vllgamma_br(wc_obj, par, V, Q, l2, l1,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)
+        return Vllgamma_br(wc_obj, par, V, Q, l1, l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)+ Vllgamma_br(wc_obj, par, V, Q, l2, l1,CeFFji,CeFFij,CeFFtildeji,CeFFtildeij)
     return fct
 
 def Vllgamma_ratio_func(V, Q, l1, l2):
@@ -154,7 +154,7 @@ def Vllgamma_ratio_func(V, Q, l1, l2):
 def Vllgamma_ratio_comb_func(V, Q, l1, l2):
     def fct(wc_obj, par,CeFFij=0,CeFFji=0,CeFFtildeij=0,CeFFtildeji=0):
         BRee=Vll_br(wc_obj,par,V,Q,'e','e')
-        return (Vllgamma_br(wc_obj, par, V, Q, l1, l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)+ Vllgamma_br(wc_obj, par, V, Q, l2, l1,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji))/BRee
+        return (Vllgamma_br(wc_obj, par, V, Q, l1, l2,CeFFij,CeFFji,CeFFtildeij,CeFFtildeji)+ Vllgamma_br(wc_obj, par, V, Q, l2, l1,CeFFji,CeFFij,CeFFtildeji,CeFFtildeij))/BRee
     return fct
 
 
-- 
2.43.0


From bdce898fe0fb1dc4363f32240d3c2b1863f684b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:35 +0000
Subject: [PATCH 76/79] fix: hermitian conjugate of two-gluon couplings in
 P,S->ll'

The amplitude of the left-handed scalar bilinear comes from the hermitian
conjugate of the operator with interchanged leptons, as for the quark
operators; decay rates of charge-conjugated modes were unequal.
---
 flavio/physics/quarkonium/Pll.py | 2 +-
 flavio/physics/quarkonium/Sll.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/quarkonium/Pll.py b/flavio/physics/quarkonium/Pll.py
index 09954ab..c17d79d 100644
--- a/flavio/physics/quarkonium/Pll.py
+++ b/flavio/physics/quarkonium/Pll.py
@@ -40,7 +40,7 @@ def getS_lfv(wc_obj,par,P,l1,l2,CeGGij,CeGGji):
         AR=AR.conjugate()
         AL=AL.conjugate()
     SR= aPfac * CeGGij +  (hP/(4*mq))*(wc['CSRR_'+l1+l2+qq]-wc['CSRL_'+l1+l2+qq])  -(fP/2.)*(ml2*AR - ml1*AL)
-    SL= aPfac * CeGGji + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*AL - ml1*AR)
+    SL= aPfac * CeGGji.conjugate() + (hP/(4*mq))*(wc['CSRL_'+l2+l1+qq]-wc['CSRR_'+l2+l1+qq]).conjugate() -(fP/2.)*(ml2*AL - ml1*AR)
     return SL,SR
 
 
diff --git a/flavio/physics/quarkonium/Sll.py b/flavio/physics/quarkonium/Sll.py
index aa63a64..f2caf6b 100644
--- a/flavio/physics/quarkonium/Sll.py
+++ b/flavio/physics/quarkonium/Sll.py
@@ -27,7 +27,7 @@ def getS_lfv(wc_obj,par,S,l1,l2,CeGGij,CeGGji):
     qq=meson_quark[S]
     aPfac=1j*aS*4.*np.pi/alphas
     SR= aPfac * CeGGij +  (mS*fS/2.)*(wc['CSRR_'+l1+l2+qq]+wc['CSRL_'+l1+l2+qq])  
-    SL= aPfac * CeGGji + (mS*fS/2.)*(wc['CSRL_'+l2+l1+qq]+wc['CSRR_'+l2+l1+qq]).conjugate() 
+    SL= aPfac * CeGGji.conjugate() + (mS*fS/2.)*(wc['CSRL_'+l2+l1+qq]+wc['CSRR_'+l2+l1+qq]).conjugate() 
     return SL,SR
 
 
-- 
2.43.0


From c123f972527a9fb23979f1a7290cca9963dad773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:26 +0000
Subject: [PATCH 77/79] fix: constraints on different parameters by the same
 distribution object

Only the last of the constraints entered log probabilities, and the
parameters were fully correlated in random values.
---
 flavio/classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flavio/classes.py b/flavio/classes.py
index a676d9e..6b8ff86 100644
--- a/flavio/classes.py
+++ b/flavio/classes.py
@@ -147,6 +147,10 @@ class Constraints(object):
         `constraint` must be an instance of a child of ProbabilityDistribution.
 
         Note that if there already exists a constraint, it will be removed."""
+        # constraints are identified by their distribution: use a different
+        # instance if this one already constrains other parameters
+        if any(constraint is c for c, _ in self._constraints):
+            constraint = copy.copy(constraint)
         for num, parameter in enumerate(parameters):
             if is_parameter_constraint:
                 try: # check if parameter object already exists
-- 
2.43.0


From 112ea3353a8548e2ecdd07f48fbf685f0a318a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:29 +0000
Subject: [PATCH 78/79] fix: lepton flavour violating decays contribute to the
 total Z width

---
 flavio/physics/zdecays/gammaz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flavio/physics/zdecays/gammaz.py b/flavio/physics/zdecays/gammaz.py
index 3a88d4a..f2a6487 100644
--- a/flavio/physics/zdecays/gammaz.py
+++ b/flavio/physics/zdecays/gammaz.py
@@ -76,8 +76,10 @@ def sigmahad(wc_obj, par):
 
 
 def Gammatot(wc_obj, par):
-    # total Z width
-    return Gammahad(wc_obj, par) + Gammal(wc_obj, par) * 3 + GammaZnu(wc_obj, par) * 3
+    # total Z width, including the lepton flavour violating modes
+    lep = ['e', 'mu', 'tau']
+    Glfv = sum([GammaZ(wc_obj, par, l1, l2) for l1 in lep for l2 in lep if l1 != l2])
+    return Gammahad(wc_obj, par) + Gammal(wc_obj, par) * 3 + Glfv + GammaZnu(wc_obj, par) * 3
 
 
 def Rl(wc_obj, par):
-- 
2.43.0


From 3bf51aca80ec7784547c5d95ac56f8cf6c52af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:39 +0000
Subject: [PATCH 79/79] fix: both neutral kaon flavours contribute to K->emu

The final state l1 l2 is reached from the anti-kaon with the coefficient of (d s)(l1 l2) and from the kaon with the conjugate of that of (d s)(l2 l1); real and imaginary part of the former alone made an unobservable phase observable and neglected the interference.
---
 flavio/physics/kdecays/kll.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flavio/physics/kdecays/kll.py b/flavio/physics/kdecays/kll.py
index 31c5b17..49eeb9c 100644
--- a/flavio/physics/kdecays/kll.py
+++ b/flavio/physics/kdecays/kll.py
@@ -60,12 +60,16 @@ def amplitudes_eff(par, wc, K, l1, l2, ld=True):
         PLD = 0
     else:
         SLD, PLD = amplitudes_LD(par, K, l1)
+    # the other neutral kaon flavour decays to the same final state by the
+    # hermitian conjugate operators, which have the lepton flavours exchanged
+    Pc, Sc = amplitudes(par, wc, l2, l1)
+    Pbar, Sbar = Pc.conjugate(), Sc.conjugate()
     if K == 'KS':
-        Peff = P.imag
-        Seff = S.real + SLD
+        Peff = (P - Pbar) / 2j
+        Seff = (S + Sbar) / 2 + SLD
     if K == 'KL':
-        Peff = P.real + PLD
-        Seff = S.imag
+        Peff = (P + Pbar) / 2 + PLD
+        Seff = (S - Sbar) / 2j
     return Peff, Seff
 
 
@@ -89,6 +93,8 @@ def br_kll(par, wc_obj, K, l1, l2, ld=True):
     r"""Branching ratio of $K\to\ell_1^+\ell_2^-$"""
     # parameters
     wc = get_wc(wc_obj, par, l1, l2)
+    if l1 != l2:
+        wc = add_dict((wc, get_wc(wc_obj, par, l2, l1)))
     GF = par['GF']
     alphaem = par['alpha_e']
     ml1 = par['m_'+l1]
-- 
2.43.0

