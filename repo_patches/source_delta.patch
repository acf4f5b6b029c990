From 33e0f0e1df2cfd3b6f22b83b63057f3417f6672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 01/25] fix: keep the order of measures in
 intersection_measure_group

A set of measures is iterated in arbitrary order, so the sum, product, or
Cartesian product of processes with posteriors could be associated to a posterior
rather than to the measure the processes were constructed with.
---
 stheno/model/gp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index a7490a6..69601fe 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -32,11 +32,17 @@ def intersection_measure_group(*ps):
 
     Args:
         *ps (:class:`.gp.GP`): Processes.
+
+    Returns:
+        list[:class:`.measure.Measure`]: Measures that all processes are associated to.
+            The order is the order in which the processes were associated to them. In
+            particular, the measure that the processes were constructed with is first.
     """
     assert_same_measure(*ps)
-    intersection = set(ps[0]._measures)
+    intersection = list(ps[0]._measures)
     for p in ps[1:]:
-        intersection &= set(p._measures)
+        others = set(p._measures)
+        intersection = [measure for measure in intersection if measure in others]
     return intersection
 
 
-- 
2.43.0


From 88765289cded47dddb7df1b41ab9b37785180c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 02/25] fix: restore the default measure when a measure is
 entered more than once

Entering a measure that is already entered overwrote the default to restore, so
the measure remained the global default after all contexts were left.
---
 stheno/model/measure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index c0bf995..e5abc35 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -44,15 +44,16 @@ class Measure:
         self._gps_by_name = {}
         self._names_by_gp = {}
 
-        self._prev_default = None
+        # A measure can be entered multiple times, so keep a stack.
+        self._prev_defaults = []
 
     def __enter__(self):
-        self._prev_default = self.default
+        self._prev_defaults.append(Measure.default)
         Measure.default = self
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        Measure.default = self._prev_default
+        Measure.default = self._prev_defaults.pop()
 
     def __hash__(self):
         # This is needed for :func:`.gp.intersection_measure_group`, which puts
-- 
2.43.0


From 5de0b1f6f77a3fa84076b113a8318f24b3984922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 03/25] fix: keep the existing name of a GP when a new name is
 rejected

---
 stheno/model/measure.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index e5abc35..271f7be 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -76,17 +76,18 @@ class Measure:
             p (:class:`.gp.GP`): GP to name.
             name (str): Name. Must be unique.
         """
+        # Check that name is not in use by another GP. Do this before anything is
+        # deleted: if the new name is rejected, the GP must keep its existing name.
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
             del self._gps_by_name[self._names_by_gp[id(p)]]
             del self._names_by_gp[id(p)]
 
-        # Check that name is not in use.
-        if name in self._gps_by_name:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
-
         # Set the name and the back-reference.
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
-- 
2.43.0


From 217c2b254383b272ac877a9ba1e241d0c53bd643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 04/25] fix: use the right rule given to Measure.add_gp

---
 stheno/model/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 271f7be..3324501 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -135,7 +135,7 @@ class Measure:
             :class:`.gp.GP`: New GP.
         """
         p = GP()
-        self._update(p, mean, kernel, left_rule, right_rule=None)
+        self._update(p, mean, kernel, left_rule, right_rule)
         return p
 
     @_dispatch
-- 
2.43.0


From 083c275a3242a2baa0d02177585f6b7a74c72c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 05/25] fix: expand a zero mean in all branches of
 Normal.mean_var and Normal.marginals

Depending on which attributes were already resolved, the zero mean was returned
as the scalar zero rather than as a vector of zeros.
---
 stheno/random.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index c6530e5..36ba737 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -174,11 +174,11 @@ class Normal(RandomVector):
     def mean_var(self):
         """tuple[column vector, matrix]: Mean and variance."""
         if self._mean is not None and self._var is not None:
-            return self._mean, self._var
+            return self.mean, self.var
         elif self._mean is not None:
-            return self._mean, self.var
+            return self.mean, self.var
         elif self._var is not None:
-            return self.mean, self._var
+            return self.mean, self.var
         else:
             if self._construct_mean_var is not None:
                 self._mean, self._var = self._construct_mean_var()
@@ -208,9 +208,9 @@ class Normal(RandomVector):
             tuple: A tuple containing the marginal means and marginal variances.
         """
         if self._mean is not None and self._var_diag is not None:
-            mean, var_diag = self._mean, self._var_diag
+            mean, var_diag = self.mean, self._var_diag
         elif self._mean is not None:
-            mean, var_diag = self._mean, self.var_diag
+            mean, var_diag = self.mean, self.var_diag
         elif self._var_diag is not None:
             mean, var_diag = self.mean, self._var_diag
         else:
-- 
2.43.0


From d603cd6cb12cced8d2ab0e0be6684dcbd8bcbfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 06/25] fix: covariance between a GP multiplied by a function
 and a multi-output GP

The number of ones was the number of inputs, which is not the number of outputs
if the other process has multiple outputs.
---
 stheno/model/measure.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 3324501..1568777 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,6 +10,7 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
+from ..mo import infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -242,14 +243,19 @@ class Measure:
 
     @_dispatch
     def mul(self, p_mul: GP, p: GP, f: FunctionType):
-        def ones(x):
-            return Constant(B.one(x), num_elements(x), 1)
+        def left_rule(j):
+            # Process `j` may have multiple outputs, so take the number of ones from the
+            # size of `j` at `x`.
+            def ones(x):
+                return Constant(B.one(x), infer_size(self.kernels[j], x), 1)
+
+            return TensorProductKernel(f, ones) * self.kernels[p, j]
 
         return self._update(
             p_mul,
             f * self.means[p],
             f * self.kernels[p],
-            lambda j: TensorProductKernel(f, ones) * self.kernels[p, j],
+            left_rule,
         )
 
     @_dispatch
-- 
2.43.0


From 529b78a78816ff23e7e0f49417d98ad6ad5339ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 07/25] fix: number of elements of an FDD of a multi-output
 process

The number of inputs was returned, so Measure.sample split the joint sample at
the wrong rows if one of the FDDs was of a multi-output process.
---
 stheno/model/fdd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 4908ea2..53d10c6 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -1,5 +1,6 @@
 import mlkernels
 from lab import B
+from lab.shape import unwrap_dimension
 from matrix import AbstractMatrix, Dense, Zero, Diagonal
 from mlkernels import Kernel, num_elements
 from wbml.util import indented_kv
@@ -119,7 +120,11 @@ def dtype(fdd: FDD):
 
 @num_elements.dispatch
 def num_elements(fdd: FDD):
-    return num_elements(fdd.x)
+    if isinstance(fdd.p, int):
+        # Only the `id` of the process is available.
+        return num_elements(fdd.x)
+    # The process may have multiple outputs.
+    return unwrap_dimension(infer_size(fdd.p.kernel, fdd.x))
 
 
 @B.dispatch
-- 
2.43.0


From 16f6e23a2fcebeb2bd0a3dbf23d6c2b42b44b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 08/25] fix: dimensionality of a Cartesian product of
 multi-output processes

---
 stheno/mo/kernel.py | 3 ++-
 stheno/mo/mean.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index 50ff49c..aefbc31 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -78,7 +78,8 @@ def elwise(k: MultiOutputKernel, x: FDD, y: FDD):
 
 @_dispatch
 def dimensionality(k: MultiOutputKernel):
-    return len(k.ps)
+    # The processes may have multiple outputs themselves.
+    return sum([dimensionality(k.measure.kernels[p]) for p in k.ps])
 
 
 @_dispatch
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index 6e9b6e4..ad9a242 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -43,4 +43,5 @@ class MultiOutputMean(Mean):
 
 @_dispatch
 def dimensionality(m: MultiOutputMean):
-    return len(m.ps)
+    # The processes may have multiple outputs themselves.
+    return sum([dimensionality(m.measure.kernels[p]) for p in m.ps])
-- 
2.43.0


From 5d1a81cf827285cfda5ee6a1372352bee09d6987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 09/25] fix: mean of the product of correlated GPs

The mean of the moment-matched product lacked the covariance between the factors.
---
 stheno/model/measure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 1568777..fba5d3f 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -261,6 +261,11 @@ class Measure:
     @_dispatch
     def mul(self, p_mul: GP, p1: GP, p2: GP):
         assert_same_measure(p1, p2)
+        # The mean of the product includes the covariance between the factors.
+        if isinstance(self.kernels[p1, p2], ZeroKernel):
+            mean_cov = 0
+        else:
+            mean_cov = lambda x: self.kernels[p1, p2].elwise(x)
         term1 = self.sum(
             GP(),
             self.mul(GP(), lambda x: self.means[p1](x), p2),
@@ -268,7 +273,7 @@ class Measure:
         )
         term2 = self.add_independent_gp(
             GP(),
-            -self.means[p1] * self.means[p2],
+            -self.means[p1] * self.means[p2] + mean_cov,
             (
                 self.kernels[p1] * self.kernels[p2]
                 + self.kernels[p1, p2] * self.kernels[p2, p1]
-- 
2.43.0


From 0ab8fe60e2eea5dd1ca2f819a072e6dc8d91aed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 10/25] fix: Normal.kl and Normal.w2 if one of the means is a
 structured matrix

Subtracting a structured matrix from a NumPy array with - gives an array of objects.
---
 stheno/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index 36ba737..be8efa6 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -302,7 +302,7 @@ class Normal(RandomVector):
             scalar: KL divergence.
         """
         return (
-            B.iqf_diag(other.var, other.mean - self.mean)[..., 0]
+            B.iqf_diag(other.var, B.subtract(other.mean, self.mean))[..., 0]
             + B.ratio(self.var, other.var)
             + B.logdet(other.var)
             - B.logdet(self.var)
@@ -323,7 +323,7 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum((self.mean - other.mean) ** 2)
+        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From b5d414765498b0ec5250b9cfc015c8f3c433caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 11/25] fix: do not sum over the batch dimensions in Normal.w2

---
 stheno/random.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index be8efa6..4fdf90a 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -323,7 +323,8 @@ class Normal(RandomVector):
         var_root = B.root(self.var)
         root = B.root(B.matmul(var_root, other.var, var_root))
         var_part = B.trace(self.var) + B.trace(other.var) - 2 * B.trace(root)
-        mean_part = B.sum(B.dense(B.subtract(self.mean, other.mean)) ** 2)
+        mean_diff = B.uprank(B.dense(B.subtract(self.mean, other.mean)))
+        mean_part = B.sum(mean_diff[..., 0] ** 2, axis=-1)
         # The sum of `mean_part` and `var_par` should be positive, but this
         # may not be the case due to numerical errors.
         return B.sqrt(B.maximum(mean_part + var_part, B.cast(self.dtype, 0)))
-- 
2.43.0


From 186b75bba99a1601f1264fa3d889e693c81be43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 12/25] fix: Normal.m2 for batched means

---
 stheno/random.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/random.py b/stheno/random.py
index 4fdf90a..ead826d 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -199,7 +199,8 @@ class Normal(RandomVector):
     @property
     def m2(self):
         """matrix: Second moment."""
-        return self.var + B.outer(B.squeeze(self.mean))
+        mean = B.uprank(self.mean)
+        return self.var + B.matmul(mean, mean, tr_b=True)
 
     def marginals(self):
         """Get the marginals.
-- 
2.43.0


From 51da40f5b296e6fd1265e79acc3e3c964d291123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 13/25] fix: marginals of an FDD if the diagonal of the kernel
 is a structured matrix

For example, this happens for the posterior of a process that involves a GP
multiplied by a function.
---
 stheno/model/fdd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 53d10c6..d8c03c1 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -64,15 +64,17 @@ class FDD(Normal):
         self.noise = _noise_as_matrix(noise, B.dtype(x), infer_size(p.kernel, x))
 
         def var_diag():
-            return B.add(B.squeeze(p.kernel.elwise(x), axis=-1), B.diag(self.noise))
+            k_diag = B.dense(p.kernel.elwise(x))
+            return B.add(B.squeeze(k_diag, axis=-1), B.diag(self.noise))
 
         def mean_var():
             mean, var = mlkernels.mean_var(p.mean, p.kernel, x)
             return mean, B.add(var, self.noise)
 
         def mean_var_diag():
-            mean, var_diag = mlkernels.mean_var_diag(p.mean, p.kernel, x)
-            return mean, B.add(B.squeeze(var_diag, axis=-1), B.diag(self.noise))
+            mean, k_diag = mlkernels.mean_var_diag(p.mean, p.kernel, x)
+            k_diag = B.dense(k_diag)
+            return mean, B.add(B.squeeze(k_diag, axis=-1), B.diag(self.noise))
 
         Normal.__init__(
             self,
-- 
2.43.0


From ca8e35df0090bb0c02140ea28e56176b4f2d669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:04 +0000
Subject: [PATCH 14/25] fix: VFE ELBO is NaN if the trace correction is
 slightly negative

The elements of the diagonal correction can be slightly negative due to numerical
noise, and `B.ratio` takes a square root of them.
---
 stheno/model/observations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stheno/model/observations.py b/stheno/model/observations.py
index ebd9656..dbfe538 100644
--- a/stheno/model/observations.py
+++ b/stheno/model/observations.py
@@ -307,7 +307,12 @@ class AbstractPseudoObservations(AbstractObservations):
 
         if self.method == "vfe":
             K_n += 0
-            trace_part = B.ratio(diag_correction, K_n)
+            # The elements of `diag_correction` can be slightly negative due to numerical
+            # noise. Prevent NaNs by not taking any square root.
+            trace_part = B.sum(
+                B.divide(B.diag(diag_correction), B.diag(K_n)),
+                axis=-1,
+            )
         elif self.method == "fitc":
             K_n += diag_correction
             trace_part = 0
-- 
2.43.0


From 19b18958e3f7b92311b6feabf9d4865c906cce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 15/25] fix: missing data at scalar inputs

---
 stheno/model/fdd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index d8c03c1..1cbb292 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -141,7 +141,8 @@ def take(fdd: FDD, indices_or_mask: B.Numeric):
 
 @_dispatch
 def _take_x(k: Kernel, x: B.Numeric, mask: B.Numeric):
-    return B.take(x, mask)
+    # A scalar is a single input.
+    return B.take(B.uprank(x, rank=1), mask)
 
 
 @_dispatch
-- 
2.43.0


From cc62b5f81404693ae040d6b1f5ad8866b72ccef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 16/25] fix: element-wise covariance between multi-output
 processes

For example, the marginals of a sum of two Cartesian products could not be computed.
---
 stheno/mo/kernel.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index aefbc31..f86d2ec 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -56,6 +56,15 @@ def pairwise(k: MultiOutputKernel, x: FDD, y: FDD):
     return k.measure.kernels[x.p, y.p](x.x, y.x)
 
 
+def _elwise_via_pairwise(k, x, y):
+    # The FDD can be of another process with multiple outputs. Then the element-wise
+    # evaluation is the diagonal.
+    mat = pairwise(k, x, y)
+    if B.shape(mat, -2) != B.shape(mat, -1):
+        raise ValueError('Unclear combination of arguments given to "elwise".')
+    return B.expand_dims(B.diag(mat), axis=-1)
+
+
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: B.Numeric, y: B.Numeric):
     return elwise(k, tuple(p(x) for p in k.ps), tuple(p(y) for p in k.ps))
@@ -63,12 +72,12 @@ def elwise(k: MultiOutputKernel, x: B.Numeric, y: B.Numeric):
 
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: FDD, y: B.Numeric):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    return _elwise_via_pairwise(k, x, y)
 
 
 @elwise.dispatch
 def elwise(k: MultiOutputKernel, x: B.Numeric, y: FDD):
-    raise ValueError('Unclear combination of arguments given to "elwise".')
+    return _elwise_via_pairwise(k, x, y)
 
 
 @elwise.dispatch
-- 
2.43.0


From a3ecef135295016e215b8c26e0657bacdcab315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 17/25] fix: covariance of multi-output processes with
 processes constructed afterwards

The covariance with a process that is independent of a multi-output process had the
wrong size, and the covariance with a process that is derived after a Cartesian product
could not be evaluated at inputs that name the components. For example, observations of
multiple processes could not be used to predict a process that was shifted afterwards.
---
 stheno/mo/kernel.py     | 54 +++++++++++++++++++++++++++++++++-
 stheno/model/measure.py | 64 ++++++++++++++++++++++++++++++-----------
 2 files changed, 101 insertions(+), 17 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index f86d2ec..d82cd40 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -1,4 +1,6 @@
 from lab import B
+from lab.shape import unwrap_dimension
+from matrix import Zero
 from mlkernels import (
     Kernel,
     pairwise,
@@ -8,7 +10,7 @@ from mlkernels import (
 from .infer import infer_size
 from .. import PromisedFDD as FDD, _dispatch
 
-__all__ = ["MultiOutputKernel"]
+__all__ = ["MultiOutputKernel", "MultiOutputZeroKernel"]
 
 
 class MultiOutputKernel(Kernel):
@@ -91,6 +93,56 @@ def dimensionality(k: MultiOutputKernel):
     return sum([dimensionality(k.measure.kernels[p]) for p in k.ps])
 
 
+class MultiOutputZeroKernel(Kernel):
+    """Covariance between two independent processes of which at least one has multiple
+    outputs. Unlike for :class:`mlkernels.ZeroKernel`, the size of the kernel matrix is not
+    equal to the number of inputs.
+
+    Args:
+        k_i (:class:`mlkernels.Kernel`): Kernel of the first process.
+        k_j (:class:`mlkernels.Kernel`): Kernel of the second process.
+
+    Attributes:
+        k_i (:class:`mlkernels.Kernel`): Kernel of the first process.
+        k_j (:class:`mlkernels.Kernel`): Kernel of the second process.
+    """
+
+    def __init__(self, k_i, k_j):
+        self.k_i = k_i
+        self.k_j = k_j
+
+    def render(self, formatter):
+        return "0"
+
+
+def _numeric(x):
+    # Strip off FDDs and tuples to find an input.
+    while not isinstance(x, B.Numeric):
+        x = x[0] if isinstance(x, tuple) else x.x
+    return x
+
+
+@pairwise.dispatch
+def pairwise(k: MultiOutputZeroKernel, x, y):
+    return Zero(
+        B.dtype(x, y),
+        *B.shape_batch_broadcast(_numeric(x), _numeric(y)),
+        unwrap_dimension(infer_size(k.k_i, x)),
+        unwrap_dimension(infer_size(k.k_j, y)),
+    )
+
+
+@elwise.dispatch
+def elwise(k: MultiOutputZeroKernel, x, y):
+    return _elwise_via_pairwise(k, x, y)
+
+
+@_dispatch
+def dimensionality(k: MultiOutputZeroKernel):
+    # The processes can have different dimensionalities.
+    return None
+
+
 @_dispatch
 def _take_x(k: MultiOutputKernel, x: B.Numeric, mask: B.Numeric):
     i = 0
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index fba5d3f..8d5668b 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -10,7 +10,8 @@ from ..lazy import LazyMatrix, LazyVector
 from ..mo import AmbiguousDimensionalityKernel as ADK
 from ..mo import MultiOutputKernel as MOK
 from ..mo import MultiOutputMean as MOM
-from ..mo import infer_size
+from ..mo import MultiOutputZeroKernel as MOZK
+from ..mo import dimensionality, infer_size
 from .fdd import FDD
 from .gp import GP, assert_same_measure
 from .observations import (
@@ -45,6 +46,9 @@ class Measure:
         self._gps_by_name = {}
         self._names_by_gp = {}
 
+        # Components of the Cartesian products.
+        self._products = {}
+
         # A measure can be entered multiple times, so keep a stack.
         self._prev_defaults = []
 
@@ -100,19 +104,43 @@ class Measure:
         # Add measure to list of measures of process.
         p._measures.append(self)
 
+    def _product_kernel(self, i, j):
+        # Kernel between the Cartesian product `i` and any other process `j`. We transform
+        # the inputs with an FDD, which can completely change the shape. Therefore, we wrap
+        # the resulting kernel in `ADK` to indicate that its dimensionality cannot be
+        # inferred.
+        mok = MOK(self, *self._products[i])
+        return ADK(mok.transform(None, lambda y: FDD(j, y)))
+
+    def _add_rules(self, p, left_rule, right_rule):
+        # Inputs of Cartesian products can be FDDs, which other kernels cannot handle.
+        # Hence, determine covariances with existing Cartesian products component by
+        # component.
+
+        def left(j):
+            if j in self._products:
+                return reversed(self._product_kernel(j, id(p)))
+            return left_rule(j)
+
+        def right(i):
+            if i in self._products:
+                return self._product_kernel(i, id(p))
+            return right_rule(i)
+
+        self.kernels.add_left_rule(id(p), self._pids, left)
+        self.kernels.add_right_rule(id(p), self._pids, right)
+
     def _update(self, p, mean, kernel, left_rule, right_rule=None):
         # Update means.
         self.means[p] = mean
 
         # Update kernels.
         self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, left_rule)
-        if right_rule:
-            self.kernels.add_right_rule(id(p), self._pids, right_rule)
-        else:
-            self.kernels.add_right_rule(
-                id(p), self._pids, lambda i: reversed(self.kernels[p, i])
-            )
+        self._add_rules(
+            p,
+            left_rule,
+            right_rule or (lambda i: reversed(self.kernels[p, i])),
+        )
 
         # Only now add `p`: `self.pids` above needs to not include `id(p)`.
         self._add_p(p)
@@ -172,14 +200,20 @@ class Measure:
 
         # Update kernels.
         self.kernels[p] = kernel
-        self.kernels.add_left_rule(id(p), self._pids, lambda j: ZeroKernel())
-        self.kernels.add_right_rule(id(p), self._pids, lambda i: ZeroKernel())
+        self._add_rules(p, lambda j: self._zero(p, j), lambda i: self._zero(i, p))
 
         # Only now add `p`: `self.pids` above needs to not include `id(p)`.
         self._add_p(p)
 
         return p
 
+    def _zero(self, i, j):
+        # Covariance between two independent processes.
+        k_i, k_j = self.kernels[i], self.kernels[j]
+        if dimensionality(k_i) == 1 and dimensionality(k_j) == 1:
+            return ZeroKernel()
+        return MOZK(k_i, k_j)
+
     @_dispatch
     def sum(self, p_sum: GP, other, p: GP):
         """Sum a GP from the graph with another object.
@@ -385,6 +419,7 @@ class Measure:
         posterior = Measure()
         posterior.ps = list(self.ps)
         posterior._pids = set(self._pids)
+        posterior._products = dict(self._products)
 
         posterior.means.add_rule(posterior._pids, lambda i: obs.posterior_mean(self, i))
         posterior.kernels.add_rule(
@@ -424,15 +459,12 @@ class Measure:
         Returns:
             :class:`.gp.GP`: The Cartesian product of `ps`.
         """
-        mok = MOK(self, *ps)
+        self._products[id(p_cross)] = ps
         return self._update(
             p_cross,
             MOM(self, *ps),
-            mok,
-            # We transform the inputs with an FDD, which can completely change the
-            # shape. Therefore, we wrap the resulting kernel in `ADK` to indicate that
-            # its dimensionality cannot be inferred.
-            lambda j: ADK(mok.transform(None, lambda y: FDD(j, y))),
+            MOK(self, *ps),
+            lambda j: self._product_kernel(id(p_cross), j),
         )
 
     @_dispatch
-- 
2.43.0


From cb5f7f903e68672c2e2051dd9f95189e3f781280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 18/25] fix: size of a covariance that cancels to zero if a
 process has multiple outputs

---
 stheno/model/measure.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 8d5668b..dad2f15 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -120,12 +120,12 @@ class Measure:
         def left(j):
             if j in self._products:
                 return reversed(self._product_kernel(j, id(p)))
-            return left_rule(j)
+            return self._size_zero(left_rule(j), id(p), j)
 
         def right(i):
             if i in self._products:
                 return self._product_kernel(i, id(p))
-            return right_rule(i)
+            return self._size_zero(right_rule(i), i, id(p))
 
         self.kernels.add_left_rule(id(p), self._pids, left)
         self.kernels.add_right_rule(id(p), self._pids, right)
@@ -200,18 +200,21 @@ class Measure:
 
         # Update kernels.
         self.kernels[p] = kernel
-        self._add_rules(p, lambda j: self._zero(p, j), lambda i: self._zero(i, p))
+        self._add_rules(p, lambda j: ZeroKernel(), lambda i: ZeroKernel())
 
         # Only now add `p`: `self.pids` above needs to not include `id(p)`.
         self._add_p(p)
 
         return p
 
-    def _zero(self, i, j):
-        # Covariance between two independent processes.
+    def _size_zero(self, k, i, j):
+        # If the covariance `k` between `i` and `j` is zero, ensure that it has the right
+        # size, because `i` or `j` may have multiple outputs.
+        if not isinstance(k, ZeroKernel):
+            return k
         k_i, k_j = self.kernels[i], self.kernels[j]
         if dimensionality(k_i) == 1 and dimensionality(k_j) == 1:
-            return ZeroKernel()
+            return k
         return MOZK(k_i, k_j)
 
     @_dispatch
-- 
2.43.0


From c39882e5b8ae978070c7fa62020e35678ac427a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:11 +0000
Subject: [PATCH 19/25] fix: a rejected name leaves all measures unchanged

---
 stheno/model/gp.py      |  7 +++++++
 stheno/model/measure.py | 11 +++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stheno/model/gp.py b/stheno/model/gp.py
index 69601fe..684cc24 100644
--- a/stheno/model/gp.py
+++ b/stheno/model/gp.py
@@ -92,6 +92,10 @@ class GP(RandomProcess):
         if isinstance(kernel, (B.Numeric, FunctionType)):
             kernel = kernel * OneKernel()
 
+        # If the name is rejected, the measure may not change.
+        if name:
+            measure._assert_name_available(self, name)
+
         # Add a new `GP` to the measure with the resolved kernel and mean. The measure
         # will add itself to `self.measures`.
         measure.add_independent_gp(self, mean, kernel)
@@ -134,6 +138,9 @@ class GP(RandomProcess):
     @name.setter
     @_dispatch
     def name(self, name: str):
+        # First check all measures: if the name is rejected, no measure may change.
+        for measure in self._measures:
+            measure._assert_name_available(self, name)
         for measure in self._measures:
             measure.name(self, name)
 
diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index dad2f15..2183dae 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -83,10 +83,7 @@ class Measure:
         """
         # Check that name is not in use by another GP. Do this before anything is
         # deleted: if the new name is rejected, the GP must keep its existing name.
-        if name in self._gps_by_name and self._gps_by_name[name] is not p:
-            raise RuntimeError(
-                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
-            )
+        self._assert_name_available(p, name)
 
         # Delete any existing names and back-references for the GP.
         if id(p) in self._names_by_gp:
@@ -97,6 +94,12 @@ class Measure:
         self._gps_by_name[name] = p
         self._names_by_gp[id(p)] = name
 
+    def _assert_name_available(self, p, name):
+        if name in self._gps_by_name and self._gps_by_name[name] is not p:
+            raise RuntimeError(
+                f'Name "{name}" for "{p}" already taken by "{self[name]}".'
+            )
+
     def _add_p(self, p):
         # Attach process to measure.
         self.ps.append(p)
-- 
2.43.0


From 4115072fff360ffdac078b762ccf8bea014caf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 20/25] fix: number of ones in the covariance of a GP
 multiplied by a function is an integer

Corrects d603cd6: TensorFlow cannot construct a constant matrix with a `Dimension`.
---
 stheno/model/measure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 2183dae..31bfa7a 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -2,6 +2,7 @@ from types import FunctionType
 from typing import Union
 
 from lab import B
+from lab.shape import unwrap_dimension
 from matrix import Constant
 from mlkernels import TensorProductKernel, ZeroKernel, num_elements
 
@@ -287,7 +288,8 @@ class Measure:
             # Process `j` may have multiple outputs, so take the number of ones from the
             # size of `j` at `x`.
             def ones(x):
-                return Constant(B.one(x), infer_size(self.kernels[j], x), 1)
+                n = unwrap_dimension(infer_size(self.kernels[j], x))
+                return Constant(B.one(x), n, 1)
 
             return TensorProductKernel(f, ones) * self.kernels[p, j]
 
-- 
2.43.0


From 92a3cdffacdb7381d523ae8838add7104272edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 21/25] fix: noise given as a number takes the precision of the
 inputs

The number determined the data type of the noise, so with `float32` inputs
PyTorch fails for pseudo-points and results become `float64`.
---
 stheno/model/fdd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stheno/model/fdd.py b/stheno/model/fdd.py
index 1cbb292..e8bdb8c 100644
--- a/stheno/model/fdd.py
+++ b/stheno/model/fdd.py
@@ -29,6 +29,9 @@ def _noise_as_matrix(noise: type(None), dtype: B.DType, n: B.Int):
 
 @_dispatch
 def _noise_as_matrix(noise: B.Numeric, dtype: B.DType, n: B.Int):
+    if isinstance(noise, (int, float)) and B.dtype_float(dtype) == dtype:
+        # A number should not determine the precision.
+        noise = B.cast(dtype, noise)
     if B.is_scalar(noise):
         return B.fill_diag(noise, n)
     elif B.rank(noise) == 1:
-- 
2.43.0


From 0baa27f59ac5b356480c6382e5a0bb4d7152e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 22/25] fix: dimensionality of posterior covariances between
 processes with different numbers of outputs is ambiguous

---
 stheno/model/measure.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 31bfa7a..9b5e9aa 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -429,10 +429,14 @@ class Measure:
         posterior._pids = set(self._pids)
         posterior._products = dict(self._products)
 
+        def posterior_kernel(i, j):
+            k = obs.posterior_kernel(self, i, j)
+            # If the dimensionality of the prior kernel is ambiguous, e.g. because `i` has
+            # multiple outputs and `j` does not, then so is that of the posterior kernel.
+            return ADK(k) if dimensionality(self.kernels[i, j]) is None else k
+
         posterior.means.add_rule(posterior._pids, lambda i: obs.posterior_mean(self, i))
-        posterior.kernels.add_rule(
-            posterior._pids, lambda i, j: obs.posterior_kernel(self, i, j)
-        )
+        posterior.kernels.add_rule(posterior._pids, posterior_kernel)
 
         # Update backreferences.
         for p in posterior.ps:
-- 
2.43.0


From 9c94205cf98316bb4d804cc5312de9f6625a8cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 23/25] fix: compute the log-density and entropy for variances
 of integers

The constants log(2 pi) and log(2 pi) + 1 were cast to the data type of the variance,
which rounds them down if the variance is a matrix of integers, e.g. because the inputs
of a linear kernel and the noise are integers.
---
 stheno/random.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stheno/random.py b/stheno/random.py
index ead826d..daaf135 100644
--- a/stheno/random.py
+++ b/stheno/random.py
@@ -270,10 +270,11 @@ class Normal(RandomVector):
                 available_x = B.take(x, available)
                 return Normal(available_mean, available_var).logpdf(available_x)
 
+        dtype = B.dtype_float(self.dtype)  # The variance can be a matrix of integers.
         logpdfs = (
             -(
                 B.logdet(self.var)[..., None]  # Correctly line up with `iqf_diag`.
-                + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi)
+                + B.cast(dtype, self.dim) * B.cast(dtype, B.log_2_pi)
                 + B.iqf_diag(self.var, B.subtract(x, self.mean))
             )
             / 2
@@ -286,9 +287,10 @@ class Normal(RandomVector):
         Returns:
             scalar: The entropy.
         """
+        dtype = B.dtype_float(self.dtype)  # The variance can be a matrix of integers.
         return (
             B.logdet(self.var)
-            + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi + 1)
+            + B.cast(dtype, self.dim) * B.cast(dtype, B.log_2_pi + 1)
         ) / 2
 
     @_dispatch
-- 
2.43.0


From d58e670ce3f87bb67dea3e0970e4d4c1ab7800a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 24/25] fix: apply the formatter to the components when
 displaying Cartesian products

---
 stheno/mo/kernel.py | 2 +-
 stheno/mo/mean.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stheno/mo/kernel.py b/stheno/mo/kernel.py
index d82cd40..f3fe97e 100644
--- a/stheno/mo/kernel.py
+++ b/stheno/mo/kernel.py
@@ -34,7 +34,7 @@ class MultiOutputKernel(Kernel):
         self.ps = ps
 
     def render(self, formatter):
-        ks = [str(self.measure.kernels[p]) for p in self.ps]
+        ks = [self.measure.kernels[p].display(formatter) for p in self.ps]
         return "MultiOutputKernel({})".format(", ".join(ks))
 
 
diff --git a/stheno/mo/mean.py b/stheno/mo/mean.py
index ad9a242..43bb1b1 100644
--- a/stheno/mo/mean.py
+++ b/stheno/mo/mean.py
@@ -37,7 +37,7 @@ class MultiOutputMean(Mean):
         return B.concat(*[self(xi) for xi in x], axis=-2)
 
     def render(self, formatter):
-        ms = [str(self.measure.means[p]) for p in self.ps]
+        ms = [self.measure.means[p].display(formatter) for p in self.ps]
         return "MultiOutputMean({})".format(", ".join(ms))
 
 
-- 
2.43.0


From f7137b20cab87adeca0f55ee3b970446f3c207f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 25/25] fix: reject conditioning on processes unknown to the
 measure before anything changes

The posterior was associated to all processes of the prior, after which constructing any
process from these failed.
---
 stheno/model/measure.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stheno/model/measure.py b/stheno/model/measure.py
index 9b5e9aa..80b2bc0 100644
--- a/stheno/model/measure.py
+++ b/stheno/model/measure.py
@@ -424,6 +424,15 @@ class Measure:
         Returns:
             list[:class:`.gp.GP`]: Posterior processes.
         """
+        # Reject unknown processes before the posterior is associated to any process:
+        # otherwise, the processes of this measure cannot be used anymore.
+        for fdd in (obs.fdd, getattr(obs, "u", obs.fdd)):
+            if id(fdd.p) not in self._pids:
+                raise AssertionError(
+                    f"Process {fdd.p} is not associated to the measure that is "
+                    f"conditioned."
+                )
+
         posterior = Measure()
         posterior.ps = list(self.ps)
         posterior._pids = set(self._pids)
-- 
2.43.0

