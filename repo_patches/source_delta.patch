From f75e5e82fcffd2c23a425b6fce96c5b997dfa449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 01/14] fix: keep the construction measure first in measure
 groups

---
 stheno/model/gp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index a7490a6..defdfc8 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -32,12 +32,14 @@ def intersection_measure_group(*ps):
 
     Args:
         *ps (:class:`.gp.GP`): Processes.
+
+    Returns:
+        list[:class:`.measure.Measure`]: Intersection in the order in which the
+            measures were associated to the processes. In particular, the measure that
+            the processes were constructed with comes first.
     """
     assert_same_measure(*ps)
-    intersection = set(ps[0]._measures)
-    for p in ps[1:]:
-        intersection &= set(p._measures)
-    return intersection
+    return [m for m in ps[0]._measures if all([m in p._measures for p in ps[1:]])]
 
 
 def cross(*ps):
-- 
2.43.0


From af301152c26d99652921d05d53334c9d979d55f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 02/14] fix: restore the default measure when a measure is
 entered repeatedly

---
 stheno/model/measure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index c0bf995..6889d2e 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -44,15 +44,16 @@ class Measure:
         self._gps_by_name = {}
         self._names_by_gp = {}
 
-        self._prev_default = None
+        # A measure can be entered multiple times, so keep track of a stack.
+        self._prev_defaults = []
 
     def __enter__(self):
-        self._prev_default = self.default
+        self._prev_defaults.append(Measure.default)
         Measure.default = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        Measure.default = self._prev_default
+        Measure.default = self._prev_defaults.pop()
 
     def __hash__(self):
         # This is needed for :func:`.gp.intersection_measure_group`, which puts
-- 
2.43.0


From fa5e95d52fff7d86651063aca3eea1d43f5de80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 03/14] fix: a rejected name leaves all names unchanged

---
 stheno/model/gp.py      |  3 +++
 stheno/model/measure.py | 15 +++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index defdfc8..75181a7 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -130,6 +130,9 @@ class GP(RandomProcess):
     @name.setter
     @_dispatch
     def name(self, name: str):
+        # Only change any name if the new name is available in all measures.
+        for measure in self._measures:
+            measure._assert_name_available(self, name)
         for measure in self._measures:
             measure.name(self, name)
 
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 6889d2e..cb31e01 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -76,21 +76,24 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
+        # Check that name is not in use before changing anything.
+        self._assert_name_available(p, name)
+
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
             del self._gps_by_name[self._names_by_gp[id(p)]]
             del self._names_by_gp[id(p)]
 
-        # Check that name is not in use.
-        if name in self._gps_by_name:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
-
         # Set the name and the back-reference.
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
 
+    def _assert_name_available(self, p, name):
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
     def _add_p(self, p):
         # Attach process to measure.
         self.ps.append(p)
-- 
2.43.0


From d5bff248ac57f2ac6a3770207b2c4cb3ce593a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 04/14] fix: use the right rule given to Measure.add_gp

---
 stheno/model/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index cb31e01..69ea56c 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -137,7 +137,7 @@ class Measure:
             :class:`.gp.GP`: New GP.
         """
         p = GP()
-        self._update(p, mean, kernel, left_rule, right_rule=None)
+        self._update(p, mean, kernel, left_rule, right_rule=right_rule)
         return p
 
     @_dispatch
-- 
2.43.0


From 7d20ffc51d5919ecfc7c2bafff8d49a8ed661a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 05/14] fix: joint views of a normal with a literal zero mean

---
 stheno/random.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index c6530e5..2d49982 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -173,18 +173,12 @@ class Normal(RandomVector):
     @property
     def mean_var(self):
         """tuple[column vector, matrix]: Mean and variance."""
-        if self._mean is not None and self._var is not None:
-            return self._mean, self._var
-        elif self._mean is not None:
-            return self._mean, self.var
-        elif self._var is not None:
-            return self.mean, self._var
-        else:
+        if self._mean is None and self._var is None:
             if self._construct_mean_var is not None:
                 self._mean, self._var = self._construct_mean_var()
-                self._resolve_mean(construct_zeros=True)
-                self._resolve_var()
-            return self.mean, self.var
+        # Always go through the properties: the mean can be a literal zero and the
+        # variance can be an unstructured matrix.
+        return self.mean, self.var
 
     @property
     def dtype(self):
@@ -207,17 +201,11 @@ class Normal(RandomVector):
         Returns:
             tuple: A tuple containing the marginal means and marginal variances.
         """
-        if self._mean is not None and self._var_diag is not None:
-            mean, var_diag = self._mean, self._var_diag
-        elif self._mean is not None:
-            mean, var_diag = self._mean, self.var_diag
-        elif self._var_diag is not None:
-            mean, var_diag = self.mean, self._var_diag
-        else:
+        if self._mean is None and self._var_diag is None:
             if self._construct_mean_var_diag is not None:
                 self._mean, self._var_diag = self._construct_mean_var_diag()
-                self._resolve_mean(construct_zeros=True)
-            mean, var_diag = self.mean, self.var_diag
+        # Always go through the properties: the mean can be a literal zero.
+        mean, var_diag = self.mean, self.var_diag
         # It can happen that the variances are slightly negative due to numerical noise.
         # Prevent NaNs from the following square root by taking the maximum with zero.
         # Also strip away any matrix structure.
-- 
2.43.0


From b90e73ef25cf710ed7079b85b0ea3e571ad0e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 06/14] fix: size of distributions of multi-output processes

---
 stheno/mo/infer.py  | 4 ++--
 stheno/mo/kernel.py | 4 +++-
 stheno/mo/mean.py   | 4 +++-
 stheno/model/fdd.py | 7 ++++++-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 9eb9859..a6aa04a 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -1,6 +1,6 @@
 import lab as B
 from algebra import Element, Wrapped, Join
-from lab.shape import Dimension
+from lab.shape import Dimension, unwrap_dimension
 from mlkernels import (
     Kernel,
     num_elements,
@@ -42,7 +42,7 @@ def infer_size(k: Kernel, x: B.Numeric):
 
 @_dispatch
 def infer_size(k: Kernel, x: FDD):
-    return Dimension(num_elements(x))
+    return Dimension(unwrap_dimension(num_elements(x)))
 
 
 def _check_and_merge(k, *ds):
diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 50ff49c..db29f28 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -78,7 +78,9 @@ def elwise(k: MultiOutputKernel, x: FDD, y: FDD):
 
 @_dispatch
 def dimensionality(k: MultiOutputKernel):
-    return len(k.ps)
+    # The processes can themselves be multi-output.
+    ds = [dimensionality(k.measure.kernels[p]) for p in k.ps]
+    return None if None in ds else sum(ds)
 
 
 @_dispatch
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index 6e9b6e4..1c6accf 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -43,4 +43,6 @@ class MultiOutputMean(Mean):
 
 @_dispatch
 def dimensionality(m: MultiOutputMean):
-    return len(m.ps)
+    # The processes can themselves be multi-output.
+    ds = [dimensionality(m.measure.kernels[p]) for p in m.ps]
+    return None if None in ds else sum(ds)
diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 4908ea2..6caed1e 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -119,7 +119,12 @@ def dtype(fdd: FDD):
 
 @num_elements.dispatch
 def num_elements(fdd: FDD):
-    return num_elements(fdd.x)
+    if isinstance(fdd.p, int):
+        # Only the `id` of the process is known.
+        return num_elements(fdd.x)
+    # The process can be multi-output, in which case there are more elements than
+    # inputs.
+    return infer_size(fdd.p.kernel, fdd.x)
 
 
 @B.dispatch
-- 
2.43.0


From 5ea8547e2cab524d143fd250b25e6d4ff8549e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 07/14] fix: marginal variances when kernels evaluate to
 structured matrices

---
 stheno/model/fdd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 6caed1e..12b8589 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -63,7 +63,9 @@ class FDD(Normal):
         self.noise = _noise_as_matrix(noise, B.dtype(x), infer_size(p.kernel, x))
 
         def var_diag():
-            return B.add(B.squeeze(p.kernel.elwise(x), axis=-1), B.diag(self.noise))
+            # The element-wise computation can give a structured matrix.
+            var_diag = B.dense(p.kernel.elwise(x))
+            return B.add(B.squeeze(var_diag, axis=-1), B.diag(self.noise))
 
         def mean_var():
             mean, var = mlkernels.mean_var(p.mean, p.kernel, x)
@@ -71,7 +73,8 @@ class FDD(Normal):
 
         def mean_var_diag():
             mean, var_diag = mlkernels.mean_var_diag(p.mean, p.kernel, x)
-            return mean, B.add(B.squeeze(var_diag, axis=-1), B.diag(self.noise))
+            var_diag = B.squeeze(B.dense(var_diag), axis=-1)
+            return mean, B.add(var_diag, B.diag(self.noise))
 
         Normal.__init__(
             self,
-- 
2.43.0


From 80eac4e5543f1820d05820a18e46cb04fb150d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:43 +0000
Subject: [PATCH 08/14] fix: mean of the product of correlated processes

---
 stheno/model/measure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 69ea56c..b89ab2d 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -257,6 +257,11 @@ class Measure:
     @_dispatch
     def mul(self, p_mul: GP, p1: GP, p2: GP):
         assert_same_measure(p1, p2)
+        mean2 = -self.means[p1] * self.means[p2]
+        kernel12 = self.kernels[p1, p2]
+        if not isinstance(kernel12, ZeroKernel):
+            # The expectation of a product includes the covariance.
+            mean2 = mean2 + (lambda x: kernel12.elwise(x))
         term1 = self.sum(
             GP(),
             self.mul(GP(), lambda x: self.means[p1](x), p2),
@@ -264,7 +269,7 @@ class Measure:
         )
         term2 = self.add_independent_gp(
             GP(),
-            -self.means[p1] * self.means[p2],
+            mean2,
             (
                 self.kernels[p1] * self.kernels[p2]
                 + self.kernels[p1, p2] * self.kernels[p2, p1]
-- 
2.43.0


From f2c26d89c86599c78bee8a019ad5823148ec7c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 09/14] fix: variances of sums of multi-output processes

---
 stheno/mo/kernel.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index db29f28..d837843 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -1,6 +1,7 @@
 from lab import B
 from mlkernels import (
     Kernel,
+    num_elements,
     pairwise,
     elwise,
 )
@@ -61,14 +62,22 @@ def elwise(k: MultiOutputKernel, x: B.Numeric, y: B.Numeric):
     return elwise(k, tuple(p(x) for p in k.ps), tuple(p(y) for p in k.ps))
 
 
+def _elwise_all_outputs(k, x, y, n_x, n_y):
+    # All outputs are only matched by a process which is multi-output too.
+    k_xy = B.dense(pairwise(k, x, y))
+    if n_x != n_y or B.shape(k_xy, -2) != B.shape(k_xy, -1):
+        raise ValueError('Unclear combination of arguments given to "elwise".')
+    return B.diag_extract(k_xy)[..., :, None]
+
+
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: FDD, y: B.Numeric):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    return _elwise_all_outputs(k, x, y, num_elements(x.x), num_elements(y))
 
 
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: B.Numeric, y: FDD):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    return _elwise_all_outputs(k, x, y, num_elements(x), num_elements(y.x))
 
 
 @elwise.dispatch
-- 
2.43.0


From f9c1201b6e45b5e26a3f62e859c900fa6569be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 10/14] fix: divergence and distance between normals with
 structured means

---
 stheno/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 2d49982..3c2a472 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -290,7 +290,7 @@ class Normal(RandomVector):
             scalar: KL divergence.
         """
         return (
-            B.iqf_diag(other.var, other.mean - self.mean)[..., 0]
+            B.iqf_diag(other.var, B.subtract(other.mean, self.mean))[..., 0]
             + B.ratio(self.var, other.var)
             + B.logdet(other.var)
             - B.logdet(self.var)
@@ -311,7 +311,7 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum((self.mean - other.mean) ** 2)
+        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From 0fe2cb6db9ee61fc9cfb45a6ad525b5d0bcd075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 11/14] fix: let arrays on the left of operators defer to
 normals

---
 stheno/random.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stheno/random.py b/stheno/random.py
index 3c2a472..778f0c9 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -53,6 +53,9 @@ class Normal(RandomVector):
         var (matrix): Variance of the distribution.
     """
 
+    # Let NumPy arrays on the left of an operator defer to this class.
+    __array_ufunc__ = None
+
     @_dispatch
     def __init__(
         self,
-- 
2.43.0


From ec1f61358f4311fc319bd5f1d237f882d91cd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 12/14] fix: use floating-point constants in log-densities and
 entropies of normals with integer variances

---
 stheno/random.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 778f0c9..87ed36d 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -260,10 +260,12 @@ class Normal(RandomVector):
                 available_x = B.take(x, available)
                 return Normal(available_mean, available_var).logpdf(available_x)
 
+        # The variance can be of an integer type, but these constants cannot.
+        dtype = B.dtype_float(self.dtype)
         logpdfs = (
             -(
                 B.logdet(self.var)[..., None]  # Correctly line up with `iqf_diag`.
-                + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi)
+                + B.cast(dtype, self.dim) * B.cast(dtype, B.log_2_pi)
                 + B.iqf_diag(self.var, B.subtract(x, self.mean))
             )
             / 2
@@ -276,9 +278,10 @@ class Normal(RandomVector):
         Returns:
             scalar: The entropy.
         """
+        dtype = B.dtype_float(self.dtype)
         return (
             B.logdet(self.var)
-            + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi + 1)
+            + B.cast(dtype, self.dim) * B.cast(dtype, B.log_2_pi + 1)
         ) / 2
 
     @_dispatch
-- 
2.43.0


From 6f4d88bfaee5a39e65daabe45edf6ed60fe8fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:51 +0000
Subject: [PATCH 13/14] fix: compute second moments of batches of normals per
 element

---
 stheno/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index 87ed36d..bbbbada 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -196,7 +196,7 @@ class Normal(RandomVector):
     @property
     def m2(self):
         """matrix: Second moment."""
-        return self.var + B.outer(B.squeeze(self.mean))
+        return self.var + B.outer(self.mean)
 
     def marginals(self):
         """Get the marginals.
-- 
2.43.0


From d8404616f7410581c32bc10ea8f57d77c0ac2171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:51 +0000
Subject: [PATCH 14/14] fix: compute 2-Wasserstein distances of batches of
 normals per element

---
 stheno/random.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index bbbbada..0850a5f 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -317,7 +317,8 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
+        mean_diff = B.dense(B.subtract(self.mean, other.mean))[..., 0]
+        mean_part = B.sum(mean_diff**2, axis=-1)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0

