From 48215e90bb5dec95d0a1abcc3166670be1b63cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 01/11] fix: resolve a zero mean in Normal.mean_var and
 Normal.marginals

`Normal(var).marginals()` and `.mean_var` returned the unresolved scalar `0` (and the
raw variance) if the mean had not been queried through `.mean` before, so the result
depended on the order in which properties were accessed.
---
 stheno/random.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index c6530e5..36ba737 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -174,11 +174,11 @@ class Normal(RandomVector):
     def mean_var(self):
         """tuple[column vector, matrix]: Mean and variance."""
         if self._mean is not None and self._var is not None:
-            return self._mean, self._var
+            return self.mean, self.var
         elif self._mean is not None:
-            return self._mean, self.var
+            return self.mean, self.var
         elif self._var is not None:
-            return self.mean, self._var
+            return self.mean, self.var
         else:
             if self._construct_mean_var is not None:
                 self._mean, self._var = self._construct_mean_var()
@@ -208,9 +208,9 @@ class Normal(RandomVector):
             tuple: A tuple containing the marginal means and marginal variances.
         """
         if self._mean is not None and self._var_diag is not None:
-            mean, var_diag = self._mean, self._var_diag
+            mean, var_diag = self.mean, self._var_diag
         elif self._mean is not None:
-            mean, var_diag = self._mean, self.var_diag
+            mean, var_diag = self.mean, self.var_diag
         elif self._var_diag is not None:
             mean, var_diag = self.mean, self._var_diag
         else:
-- 
2.43.0


From f7fc82305a6b275c54bfa90a294ba74b6c815d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 02/11] fix: restore the default measure when a measure is
 entered twice

Entering a measure that was already entered overwrote the remembered previous
default, so the measure remained the global default after leaving the outer context.
---
 stheno/model/measure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index c0bf995..8707d10 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -44,15 +44,15 @@ class Measure:
         self._gps_by_name = {}
         self._names_by_gp = {}
 
-        self._prev_default = None
+        self._prev_defaults = []
 
     def __enter__(self):
-        self._prev_default = self.default
+        self._prev_defaults.append(self.default)
         Measure.default = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        Measure.default = self._prev_default
+        Measure.default = self._prev_defaults.pop()
 
     def __hash__(self):
         # This is needed for :func:`.gp.intersection_measure_group`, which puts
-- 
2.43.0


From d4d82d179e98411d3a3514545d81ad0ab4eaee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 03/11] fix: keep the existing name of a GP if renaming it
 fails

`Measure.name` deleted the old name before it checked whether the new name was
available, so a rejected rename left the GP without a name.
---
 stheno/model/measure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 8707d10..ea437d6 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -75,17 +75,17 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
+        # Check that name is not in use by another GP.
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
             del self._gps_by_name[self._names_by_gp[id(p)]]
             del self._names_by_gp[id(p)]
 
-        # Check that name is not in use.
-        if name in self._gps_by_name:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
-
         # Set the name and the back-reference.
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
-- 
2.43.0


From 7dc0befebf07514821230abdbefce028f59ca4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 04/11] fix: use the right rule given to Measure.add_gp

The argument `right_rule` was silently ignored.
---
 stheno/model/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index ea437d6..33c3b83 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -133,7 +133,7 @@ class Measure:
             :class:`.gp.GP`: New GP.
         """
         p = GP()
-        self._update(p, mean, kernel, left_rule, right_rule=None)
+        self._update(p, mean, kernel, left_rule, right_rule=right_rule)
         return p
 
     @_dispatch
-- 
2.43.0


From bda8e55c6a11c8f7b67c3b5ec6bf744c90f5e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 05/11] fix: let combined GPs keep the order of the measures of
 their operands

`intersection_measure_group` returned a set. The iteration order of a set of measures
depends on memory addresses, so the sum or product of two processes which have been
conditioned on multiple sets of data could be associated to a posterior rather than to
the measure the processes were constructed with.
---
 stheno/model/gp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index a7490a6..b061419 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -37,7 +37,8 @@ def intersection_measure_group(*ps):
     intersection = set(ps[0]._measures)
     for p in ps[1:]:
         intersection &= set(p._measures)
-    return intersection
+    # The order matters: the first measure will be the measure of the resulting process.
+    return [measure for measure in ps[0]._measures if measure in intersection]
 
 
 def cross(*ps):
-- 
2.43.0


From 812f93058d0c26024ecb2fff6150ccdf25376db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 06/11] fix: infer the size of FDDs of multi-output processes

The size of an FDD of a multi-output process was taken to be the number of inputs.
`Measure.sample` then silently truncated the samples, and missing data in an
observation of multiple such FDDs gave an error.
---
 stheno/mo/infer.py      | 2 +-
 stheno/model/measure.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/infer.py b/stheno/mo/infer.py
index 9eb9859..774aa37 100644
--- a/stheno/mo/infer.py
+++ b/stheno/mo/infer.py
@@ -42,7 +42,7 @@ def infer_size(k: Kernel, x: B.Numeric):
 
 @_dispatch
 def infer_size(k: Kernel, x: FDD):
-    return Dimension(num_elements(x))
+    return infer_size(x.p.kernel, x.x)
 
 
 def _check_and_merge(k, *ds):
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 33c3b83..3455693 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,6 +10,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
+from ..mo import infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -438,7 +439,7 @@ class Measure:
         state, sample = self(combine(*fdds)).sample(state, n)
 
         # Unpack sample.
-        lengths = [num_elements(fdd) for fdd in fdds]
+        lengths = [infer_size(fdd.p.kernel, fdd.x) for fdd in fdds]
         i, samples = 0, []
         for length in lengths:
             samples.append(sample[..., i : i + length, :])
-- 
2.43.0


From e2ce9a3498cd5ea011381f7042b937840ad80f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 07/11] fix: infer the dimensionality of nested multi-output
 kernels

Every process of a multi-output kernel was assumed to have a single output.
---
 stheno/mo/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 50ff49c..ba18800 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -78,7 +78,8 @@ def elwise(k: MultiOutputKernel, x: FDD, y: FDD):
 
 @_dispatch
 def dimensionality(k: MultiOutputKernel):
-    return len(k.ps)
+    ds = [dimensionality(k.measure.kernels[p]) for p in k.ps]
+    return None if None in ds else sum(ds)
 
 
 @_dispatch
-- 
2.43.0


From 8aa4ba798881dc8c5aa68875d3d3d31567b2e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 08/11] fix: compute Normal.m2 and Normal.w2 per batch element

`m2` treated a batch of means as a single matrix, and `w2` summed the squared
distance between the means over the batch.
---
 stheno/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 36ba737..7eb6a12 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -199,7 +199,7 @@ class Normal(RandomVector):
     @property
     def m2(self):
         """matrix: Second moment."""
-        return self.var + B.outer(B.squeeze(self.mean))
+        return self.var + B.outer(self.mean)
 
     def marginals(self):
         """Get the marginals.
@@ -323,7 +323,7 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum((self.mean - other.mean) ** 2)
+        mean_part = B.sum(B.sum((self.mean - other.mean) ** 2, axis=-1), axis=-1)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From 9c5d615fc689b3d44648b479c838cc942ad2dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 09/11] fix: rename a GP in all of its measures or in none

A GP can be part of several measures. If the new name was taken in one of them,
the measures before it had already been renamed when the error was raised.
---
 stheno/model/gp.py      |  3 +++
 stheno/model/measure.py | 13 ++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index b061419..1a9c944 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -129,6 +129,9 @@ class GP(RandomProcess):
     @name.setter
     @_dispatch
     def name(self, name: str):
+        # Name the GP in all of its measures or in none.
+        for measure in self._measures:
+            measure._assert_name_available(self, name)
         for measure in self._measures:
             measure.name(self, name)
 
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 3455693..545b7b5 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -68,6 +68,13 @@ class Measure:
     def __getitem__(self, p: GP):
         return self._names_by_gp[id(p)]
 
+    def _assert_name_available(self, p, name):
+        # Check that name is not in use by another GP.
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
     @_dispatch
     def name(self, p: GP, name: str):
         """Name a GP.
@@ -76,11 +83,7 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
-        # Check that name is not in use by another GP.
-        if name in self._gps_by_name and self._gps_by_name[name] is not p:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
+        self._assert_name_available(p, name)
 
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
-- 
2.43.0


From 49e5b4f87f9cf6c322da8a03de751fcc8fccbb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 10/11] fix: give batched zero-mean normals a batched mean

The mean of a normal without a mean was one column of zeros, so the mean and the
marginals did not have the batch dimensions of the variance.
---
 stheno/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index 7eb6a12..1370fde 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -101,7 +101,7 @@ class Normal(RandomVector):
             zero_matrix = isinstance(self._mean, Zero)
             self._mean_is_zero = identically_zero or zero_matrix
         if identical(self._mean, 0) and construct_zeros:
-            self._mean = B.zeros(self.dtype, self.dim, 1)
+            self._mean = B.zeros(self.dtype, *B.shape_batch(self.var), self.dim, 1)
 
     def _resolve_var(self):
         if self._var is None:
-- 
2.43.0


From 47f793440b82dbec3c50ab22ca5f0e596fc2df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 11/11] fix: let NumPy arrays defer to the reflected operators
 of random objects

An array on the left of +, - or * applied the operation to each of its elements
and gave an array of normals instead of one normal.
---
 stheno/random.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stheno/random.py b/stheno/random.py
index 1370fde..d243ad5 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -15,6 +15,10 @@ __all__ = ["Random", "RandomProcess", "RandomVector", "Normal"]
 class Random:
     """A random object."""
 
+    # Make NumPy arrays defer to the reflected operators below, rather than apply the
+    # operation to every element of the array separately.
+    __array_ufunc__ = None
+
     def __radd__(self, other):
         return self + other
 
-- 
2.43.0

