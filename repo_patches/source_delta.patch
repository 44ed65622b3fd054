From 6fc56328be9463b70604e6eb8b04b81424d6606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:28 +0000
Subject: [PATCH 01/55] fix: adjoint of the centered first derivative honours
 dx and complex input

---
 src/cr/sparse/_src/lop/calculus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index eae78ae..0ff23ad 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -45,7 +45,8 @@ def _derivative_centered(x, dx):
     return jnp.pad(diffs, (1,1))
 
 def _derivative_centered_adj(x, dx):
-    y = jnp.zeros(x.shape)
+    x = x / dx
+    y = jnp.zeros_like(x)
     y = y.at[0:-2].add(-0.5*x[1:-1])
     y = y.at[2:].add(0.5*x[1:-1])
     return y
-- 
2.43.0


From bde38dfdcb69120070e538f96e65321b4fc3977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:28 +0000
Subject: [PATCH 02/55] fix: adjoint of convolveND conjugates a complex filter

---
 src/cr/sparse/_src/lop/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index 2dd44bb..fb91068 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -138,7 +138,7 @@ def convolveND(shape, h, offset=None, axes=None):
     h_conv = h[tuple(slice(None, None, -1) for s in shape)]
     # extend it
     h_conv = h_conv[None, None]
-    h_corr = h[None, None]
+    h_corr = jnp.conjugate(h)[None, None]
 
     def times(x):
         """Forward N-D convolution
-- 
2.43.0


From 274c2c9a6ec2106f0f935e533d3df7d7edfeb78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:28 +0000
Subject: [PATCH 03/55] fix: dwt2D pads and truncates the transformed axes only

---
 src/cr/sparse/_src/lop/dwt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/dwt.py b/src/cr/sparse/_src/lop/dwt.py
index 5527537..1a87a94 100644
--- a/src/cr/sparse/_src/lop/dwt.py
+++ b/src/cr/sparse/_src/lop/dwt.py
@@ -206,7 +206,11 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     hh = wt.next_pow_of_2(h)
     ww = wt.next_pow_of_2(w)
-    pad = ((0, hh-h), (0, ww-w))
+    # only the transformed axes are padded/truncated
+    pad = [(0, 0) for _ in shape]
+    pad[axes[0]] = (0, hh-h)
+    pad[axes[1]] = (0, ww-w)
+    truncate = tuple(slice(0, s) for s in shape)
 
     out_shape = list(shape)
     out_shape[axes[0]] = hh
@@ -219,7 +223,7 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     def trans(coefs):
         x = waverec2(coefs, rec_lo, rec_hi, level, axes)
-        return x[:h, :w]
+        return x[truncate]
 
     if basis:
         # Return the wavelet basis
-- 
2.43.0


From f29683998000fca94eeda2fb7198945ec89a019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:48 +0000
Subject: [PATCH 04/55] fix: operators built from complex data are not flagged
 as real

---
 src/cr/sparse/_src/lop/basic.py   | 4 ++--
 src/cr/sparse/_src/lop/conv.py    | 4 ++--
 src/cr/sparse/_src/lop/filters.py | 2 +-
 src/cr/sparse/_src/lop/lop.py     | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index e15d2b6..3aa4534 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -190,7 +190,7 @@ def diagonal(d, axis=0):
     times = lambda x: d * x
     trans = lambda x: _hermitian(d) * x
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(d))
 
 
 def scalar_mult(alpha, n):
@@ -208,7 +208,7 @@ def scalar_mult(alpha, n):
     assert alpha.ndim == 0, "alpha must be a scalar quantity"
     times = lambda x: alpha * x
     trans = lambda x: alpha_c * x
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(alpha))
 
 
 def zero(in_dim, out_dim=None, axis=0):
diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index fb91068..ff46cbf 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -74,7 +74,7 @@ def convolve(n, h, offset=0, axis=0):
         return result[0, 0, 0, b_slice]
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
 def convolve2D(shape, h, offset=None, axes=None):
     """Performs 2 dimensional convolution on the input array
@@ -164,4 +164,4 @@ def convolveND(shape, h, offset=None, axes=None):
         # pick the slices from other dimensions
         return result[a_slices]
 
-    return Operator(times=times, trans=trans, shape=(shape,shape))
+    return Operator(times=times, trans=trans, shape=(shape,shape), real=jnp.isrealobj(h))
diff --git a/src/cr/sparse/_src/lop/filters.py b/src/cr/sparse/_src/lop/filters.py
index a786919..28920ef 100644
--- a/src/cr/sparse/_src/lop/filters.py
+++ b/src/cr/sparse/_src/lop/filters.py
@@ -38,5 +38,5 @@ def fir_filter(n, h, axis=0):
     times1d = lambda x : jnp.convolve(x, h, 'same')
     trans1d = lambda x : jnp.convolve(x, h_conj, 'full')[start:start+n]
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 1b8a4dd..249854c 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -217,7 +217,7 @@ def scale(A, alpha):
         (Operator): A linear operator T such that :math:`T x = \alpha A x` 
         and :math:`T^H x = \bar{\alpha} A^H x`
     """
-    real = A.real and not  isinstance(alpha, complex)
+    real = A.real and not jnp.iscomplexobj(alpha)
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-- 
2.43.0


From 06c1cc419a1c47ffa90631271e444e74ccbe8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:48 +0000
Subject: [PATCH 05/55] fix: block_diag inherits jit_safe and real from its
 blocks

---
 src/cr/sparse/_src/lop/block_diag.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/block_diag.py b/src/cr/sparse/_src/lop/block_diag.py
index c98f8cb..d7a1ee1 100644
--- a/src/cr/sparse/_src/lop/block_diag.py
+++ b/src/cr/sparse/_src/lop/block_diag.py
@@ -117,6 +117,9 @@ def block_diag(operators, axis=0):
         out_start += m
     # number of operators    
     num_operators = len(operators)
+    # properties of the combined operator
+    jit_safe = all(op.jit_safe for op in operators)
+    real = all(op.real for op in operators)
 
     def times(x):
         """Forward operation"""
@@ -139,4 +142,5 @@ def block_diag(operators, axis=0):
         return jnp.concatenate(ys)
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(m_all,n_all))
+    return Operator(times=times, trans=trans, shape=(m_all,n_all),
+        jit_safe=jit_safe, real=real)
-- 
2.43.0


From a7b5eab3a46876eb5c961ff9ee4eb108e629363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:48 +0000
Subject: [PATCH 06/55] fix: compose passes jit_safe and matrix_safe on to the
 composite operator

---
 src/cr/sparse/_src/lop/lop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 249854c..f1fdbae 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -370,7 +370,8 @@ def compose(A, B, ignore_compatibility=False, shape=None):
     trans = lambda x: B.trans(A.trans(x))
     if shape is None:
         shape = (ma, nb)
-    return Operator(times=times, trans=trans, shape=shape, real=real)
+    return Operator(times=times, trans=trans, shape=shape, 
+        jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
 
 
 def hcat(A, B):
-- 
2.43.0


From 206e183c91b1f42e399ded6790f0036d4aa2470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:48 +0000
Subject: [PATCH 07/55] fix: transpose of a complex operator accepts a matrix
 of vectors

---
 src/cr/sparse/_src/lop/lop.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index f1fdbae..c4fdb36 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -17,8 +17,6 @@ from typing import NamedTuple, Callable, Tuple
 import jax
 import jax.numpy as jnp
 
-from .impl import _hermitian
-
 def column(T, i):
     """Returns the i-th column of the operator T
     """
@@ -258,8 +256,8 @@ def transpose(A):
         times = A.trans
         trans = A.times
     else:
-        times = lambda x: _hermitian(A.trans(_hermitian(x)))
-        trans = lambda x: _hermitian(A.times(_hermitian(x)))
+        times = lambda x: jnp.conjugate(A.trans(jnp.conjugate(x)))
+        trans = lambda x: jnp.conjugate(A.times(jnp.conjugate(x)))
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
 
 def apply_n(func, n, x):
-- 
2.43.0


From e38163fe9fe71316e565fc816ce48e6a0c912d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:48 +0000
Subject: [PATCH 08/55] fix: adjoint of the zero padded fft truncates along the
 transform axis

---
 src/cr/sparse/_src/lop/fft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/fft.py b/src/cr/sparse/_src/lop/fft.py
index c88d81e..773ca8e 100644
--- a/src/cr/sparse/_src/lop/fft.py
+++ b/src/cr/sparse/_src/lop/fft.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from jax import lax
 import jax.numpy as jnp
 import jax.numpy.fft as jfft
 
@@ -42,7 +43,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     elif mode == 'c2c':
         def times(x):
             w = jfft.fft(x, n, axis=axis)
@@ -51,7 +52,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     else: 
         raise ValueError(f"Unsupported mode {mode}")
 
-- 
2.43.0


From 4a9eb42a6935ef8ada0b96920b2af33e290e78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:56 +0000
Subject: [PATCH 09/55] fix: windowed_op keeps the imaginary part of complex
 data

---
 src/cr/sparse/_src/lop/windowed_op.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index fc9652e..2ca70f0 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -54,14 +54,12 @@ def windowed_op(m, T, overlap=0, axis=0):
     yl = tm + (n_blocks - 1) * offset
     m_range = jnp.arange(tm)
     n_range = jnp.arange(tn)
-    # initial value of y for times operation
-    yf = jnp.zeros(yl, dtype=dtype)
     # x padding to be used in adjoint operation
     xz = jnp.zeros(tm + yl -m)
-    # initial value of y for trans operation
-    ya = jnp.zeros(tn * n_blocks)
 
     def times1d(x):
+        # initial value of y for times operation
+        yf = jnp.zeros(yl, dtype=jnp.result_type(x, dtype))
         def body_func(i, y):            
             xw = x[i*tn + n_range]
             idx = i * offset + m_range
@@ -73,6 +71,8 @@ def windowed_op(m, T, overlap=0, axis=0):
     def trans1d(x):
         # pad x with zeros
         x = jnp.concatenate([x, xz])
+        # initial value of y for trans operation
+        ya = jnp.zeros(n, dtype=jnp.result_type(x, dtype))
         def body_func(i, y):
             xw = x[i * offset + m_range]
             return y.at[i*tn + n_range].set(T.trans(xw))
-- 
2.43.0


From 9624263316044e6e7686b43a098f410635b620d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:56 +0000
Subject: [PATCH 10/55] fix: apply_columns takes the index set it refers to

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index c4fdb36..1aa0163 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -105,7 +105,7 @@ class Operator(NamedTuple):
         """Computes Y = T^H X  where y = T^H x for each column in X"""
         return jax.vmap(self.trans, (1), (1))(Y)
 
-    def apply_columns(self, x):
+    def apply_columns(self, x, I):
         """Computes y = T_I x where I is an index set selecting  a subset of columns of T"""
         xr = jnp.zeros(x.shape, x.dtype)
         xr = xr.at[I].set(x[I])
-- 
2.43.0


From 579b5e40a48f0f1d395a57d5166695a07ff7706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:56 +0000
Subject: [PATCH 11/55] fix: dot tests detect a mismatch when the inner product
 is negative

---
 src/cr/sparse/_src/lop/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 68438f0..1fd8839 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -62,7 +62,7 @@ def dot_test_real(key, A, tol=1e-6):
     x = A.trans(v)
     yy = jnp.vdot(y, v)
     xx = jnp.vdot(u, x)
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy) + jnp.abs(xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
@@ -96,7 +96,7 @@ def rdot_test_complex(key, A, tol=1e-6):
     yy = cnb.arr_rdot(y, v)
     xx = cnb.arr_rdot(u, x)
 
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy) + jnp.abs(xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
-- 
2.43.0


From e0c0384e200b050d0f603360357dab16507fdf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:29 +0000
Subject: [PATCH 12/55] fix: dot applies along an axis as documented

---
 src/cr/sparse/_src/lop/dot.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/dot.py b/src/cr/sparse/_src/lop/dot.py
index 144f1c6..bd23101 100644
--- a/src/cr/sparse/_src/lop/dot.py
+++ b/src/cr/sparse/_src/lop/dot.py
@@ -45,20 +45,26 @@ def dot(v, adjoint=False, axis=0):
 
     def times(x):
         x = jnp.asarray(x)
-        assert x.shape == v.shape, "shape of x must be same as shape of v"
         if x.ndim == v.ndim:
+            assert x.shape == v.shape, "shape of x must be same as shape of v"
             return times1d(x)
         if v.ndim == 1:
             return jnp.apply_along_axis(times1d, axis, x)
         raise ValueError("axis parameter is not supported for ND arrays")
 
+    def trans1d(x):
+        return v * x
+
     def trans(x):
         # the inner product must be real
+        x = jnp.asarray(x)
         assert jnp.isrealobj(x), "The data space is real as this linear operator represents a real inner product"
-        return v * x
+        if v.ndim == 1 and x.ndim > 1:
+            return jnp.apply_along_axis(trans1d, axis, x)
+        return trans1d(x)
 
     if adjoint:
         m,n = n, m
         times, trans = trans, times
 
-    return Operator(times=times, trans=trans, shape=(m, n))
+    return Operator(times=times, trans=trans, shape=(m, n), matrix_safe=v.ndim == 1)
-- 
2.43.0


From ecfb3102e1d983ba30ab800bd48d8fa5d7ddcef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:29 +0000
Subject: [PATCH 13/55] fix: operators which accept vectors only are not
 flagged matrix_safe

---
 src/cr/sparse/_src/lop/basic.py    | 2 +-
 src/cr/sparse/_src/lop/calculus.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index 3aa4534..5cd0b85 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -51,7 +51,7 @@ def real_matrix(A):
     def trans(x):
         assert x.ndim == 1
         return x @ A
-    return Operator(times=times, trans=trans, shape=(m,n))
+    return Operator(times=times, trans=trans, shape=(m,n), matrix_safe=False)
 
 def matrix(A, axis=0):
     """Converts a matrix into a linear operator
diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index 0ff23ad..3707f95 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -66,12 +66,12 @@ def first_derivative(n, dx=1., kind='centered'):
         trans = partial(_derivative_centered_adj, dx=dx)
     else:
         raise NotImplementedError()
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), matrix_safe=False)
 
 
 def second_derivative(n, dx=1.):
     filter = jnp.array([1., -2., 1.]) / dx / dx
     times = lambda x : jnp.pad(jnp.convolve(x, filter, 'valid'), (1,1))
     trans = lambda x : jnp.convolve(x[1:-1], filter, 'full')
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), matrix_safe=False)
 
-- 
2.43.0


From a39388681bc05b1a8b8d9d4c6a1c7ea6a6b91cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:29 +0000
Subject: [PATCH 14/55] fix: binary_dict_alg reports the shape (m, n) and that
 it is real

---
 src/cr/sparse/_src/lop/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/random.py b/src/cr/sparse/_src/lop/random.py
index 63410a5..27a6e64 100644
--- a/src/cr/sparse/_src/lop/random.py
+++ b/src/cr/sparse/_src/lop/random.py
@@ -176,4 +176,4 @@ def binary_dict_alg(key, m, n=None, axis=0):
         return x
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,m), real=False)
+    return Operator(times=times, trans=trans, shape=(m,n))
-- 
2.43.0


From b680de5e0de3767b43adc1702c2026661e0273d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:18 +0000
Subject: [PATCH 15/55] fix: to_matrix functions return a matrix for operators
 on arrays

---
 src/cr/sparse/_src/lop/util.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 1fd8839..557fe33 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -25,7 +25,7 @@ def to_matrix(A):
         raise Exception("This operator is not linear.")
     I = jnp.eye(n)
     times = A.times
-    if A.input_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         times = lambda x: A.times(jnp.reshape(x, A.input_shape)).flatten()
     return jax.vmap(times, (1), (1))(I)
 
@@ -36,7 +36,7 @@ def to_adjoint_matrix(A):
     m = A.output_size
     I = jnp.eye(m)
     trans =  A.trans
-    if A.output_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         trans = lambda x: A.trans(jnp.reshape(x, A.output_shape)).flatten()
     return jax.vmap(trans, (1), (1))(I)
 
@@ -45,9 +45,10 @@ def to_complex_matrix(A):
     """Converts a linear operator to a matrix in complex numbers"""
     if not A.linear:
         raise Exception("This operator is not linear.")
-    n = A.shape[1]
+    n = A.input_size
     I = jnp.eye(n) + 0j
-    return jax.vmap(A.times, (1), (1))(I)
+    times = lambda x: A.times(jnp.reshape(x, A.input_shape)).flatten()
+    return jax.vmap(times, (1), (1))(I)
 
 
 
-- 
2.43.0


From 3ad52f85d2a06f259ad66e62b47e711a498b8ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:42 +0000
Subject: [PATCH 16/55] fix: Gram and frame matrices of complex dictionaries
 keep the imaginary part

---
 src/cr/sparse/_src/dict/props.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/dict/props.py b/src/cr/sparse/_src/dict/props.py
index 02e6207..f173a2b 100644
--- a/src/cr/sparse/_src/dict/props.py
+++ b/src/cr/sparse/_src/dict/props.py
@@ -18,20 +18,18 @@ import jax.numpy as jnp
 from cr.nimble import mat_hermitian
 
 def gram(A):
-    """Computes the Gram matrix :math:`G = A^T A`
+    """Computes the Gram matrix :math:`G = A^H A`
     """
     if jnp.isrealobj(A):
         return A.T @ A
-    G = mat_hermitian(A) @ A
-    return G.real
+    return mat_hermitian(A) @ A
 
 def frame(A):
-    """Computes the frame matrix :math:`G = A A^T`
+    """Computes the frame matrix :math:`G = A A^H`
     """
     if jnp.isrealobj(A):
         return A @ A.T
-    F = A @ mat_hermitian(A)
-    return F.real
+    return A @ mat_hermitian(A)
 
 
 def coherence_with_index(A):
-- 
2.43.0


From 0a35af67b0cac812b7ba300c99d1df7bbfce5dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:37 +0000
Subject: [PATCH 17/55] fix: prox_owl1 pools equal entries so that the
 averaging loop terminates

---
 src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
index 2172b92..8d209cc 100644
--- a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
+++ b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
@@ -30,7 +30,7 @@ def prox_ordered_l1_b(state):
     y, l = state
     x = y - l
     n = len(x)
-    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) > 0)
+    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) >= 0)
     segment_ids = jnp.cumsum(~mask) - 1
     y_sums = segment_sum(y, segment_ids, num_segments=n)
     l_sums = segment_sum(l, segment_ids, num_segments=n)
-- 
2.43.0


From 8c3689bfa2ff0c39cac3700f95aecbab7dba0cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:37 +0000
Subject: [PATCH 18/55] fix: opt.build_from_ind_proj refers to the function of
 that name

---
 src/cr/sparse/opt/proximal_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/opt/proximal_ops.py b/src/cr/sparse/opt/proximal_ops.py
index 1606fa3..3c1ea61 100644
--- a/src/cr/sparse/opt/proximal_ops.py
+++ b/src/cr/sparse/opt/proximal_ops.py
@@ -23,7 +23,7 @@ from cr.sparse._src.opt.proximal_ops.prox import (
 )
 
 from cr.sparse._src.opt.proximal_ops.prox import build as prox_build
-from cr.sparse._src.opt.proximal_ops.prox import build as build_from_ind_proj
+from cr.sparse._src.opt.proximal_ops.prox import build_from_ind_proj
 
 from cr.sparse._src.opt.proximal_ops.basic import (
     prox_zero
-- 
2.43.0


From 0d37b00aca96df264bd1715b20c099b53db2ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:37 +0000
Subject: [PATCH 19/55] fix: smooth_huber sums over all the entries of an array

---
 src/cr/sparse/_src/opt/smooth/huber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/smooth/huber.py b/src/cr/sparse/_src/opt/smooth/huber.py
index 8902cb4..dd93e99 100644
--- a/src/cr/sparse/_src/opt/smooth/huber.py
+++ b/src/cr/sparse/_src/opt/smooth/huber.py
@@ -37,7 +37,7 @@ def smooth_huber(tau=1.):
         x_large = x_mag - tau/2
 
         v = jnp.where(small, x_small, x_large)
-        return sum(v)
+        return jnp.sum(v)
 
     @jit
     def gradient(x):
-- 
2.43.0


From ae3426155b1dea7b60e3d545957fad197e40bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:38 +0000
Subject: [PATCH 20/55] fix: value of the Moreau envelope is scaled by the
 smoothing parameter

---
 src/cr/sparse/_src/opt/prox_to_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/prox_to_smooth.py b/src/cr/sparse/_src/opt/prox_to_smooth.py
index 110eaa1..2cd73d3 100644
--- a/src/cr/sparse/_src/opt/prox_to_smooth.py
+++ b/src/cr/sparse/_src/opt/prox_to_smooth.py
@@ -26,7 +26,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def func(x):
         px, pv = f.prox_vec_val(x, mu)
-        return pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        return pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
 
 
     @jit
@@ -36,7 +36,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def grad_val(x):
         px, pv = f.prox_vec_val(x, mu)
-        v = pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        v = pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
         g = (1/mu) * (x - px)
         return g, v
 
-- 
2.43.0


From a7652408322171e36c25a0d8dd7482ab95db9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:30 +0000
Subject: [PATCH 21/55] fix: prox_l1 returns zero for a zero entry with a zero
 weight

---
 src/cr/sparse/_src/opt/proximal_ops/lpnorms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py b/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
index 6246eae..882b058 100644
--- a/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
+++ b/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
@@ -72,8 +72,9 @@ def prox_l1(q=1.):
         x = jnp.asarray(x)
         x = cnb.promote_arg_dtypes(x)
         tq = t * q
-        # shrinkage coefficients
-        s  = 1 - jnp.minimum( tq/jnp.abs(x), 1 )
+        mag = jnp.abs(x)
+        # shrinkage coefficients (zero entries stay zero, also where the weight is zero)
+        s  = 1 - jnp.minimum( tq/jnp.where(mag > 0, mag, 1), 1 )
         # shrink x
         return x * s
 
-- 
2.43.0


From ef3154529fa246e9258c3aaffb969718f8ea09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:12 +0000
Subject: [PATCH 22/55] fix: fista reports and tests the residual of the
 solution it returns

---
 src/cr/sparse/_src/sls/fista.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cr/sparse/_src/sls/fista.py b/src/cr/sparse/_src/sls/fista.py
index 0fd7e74..2a7b410 100644
--- a/src/cr/sparse/_src/sls/fista.py
+++ b/src/cr/sparse/_src/sls/fista.py
@@ -32,6 +32,8 @@ class FISTAState(NamedTuple):
     """Current solution estimate"""
     r : jnp.ndarray
     """Current residual"""
+    rz : jnp.ndarray
+    """Residual at the extrapolated point z"""
     t: float
     """FIST specific coefficient"""
     r_norm_sqr: jnp.ndarray
@@ -90,13 +92,13 @@ def fista(
         r = b - operator.times(x0)
         # compute the norm of the initial residual
         r_norm_sqr = arr_l2norm_sqr(r)
-        return FISTAState(x=x0, z=x0, r=r, t=1., r_norm_sqr=r_norm_sqr,
+        return FISTAState(x=x0, z=x0, r=r, rz=r, t=1., r_norm_sqr=r_norm_sqr,
             x_change_norm=1e10, 
             iterations=0)
 
     def body(state):
         # compute the gradient step
-        grad = step_size * operator.trans(state.r)
+        grad = step_size * operator.trans(state.rz)
         # update the solution
         x = state.z + grad
         # compute the representation of x in the sparsifying basis
@@ -108,14 +110,17 @@ def fista(
         # update t
         t = (1. + jnp.sqrt(1. + 4. * state.t ** 2)) / 2.
         # update z
-        z = x + ((state.t - 1.) / t) * (x - state.x)
+        momentum = (state.t - 1.) / t
+        z = x + momentum * (x - state.x)
         # update the residual
-        r = b - operator.times(z)
+        r = b - operator.times(x)
+        # residual at z by linearity of the operator
+        rz = r + momentum * (r - state.r)
         # compute the norm of the current residual
         r_norm_sqr = arr_l2norm_sqr(r)
         # compute the norm of change in x
         x_change_norm = arr_l2norm(x - state.x)
-        return FISTAState(x=x, z=z, r=r, t=t, r_norm_sqr=r_norm_sqr, 
+        return FISTAState(x=x, z=z, r=r, rz=rz, t=t, r_norm_sqr=r_norm_sqr, 
             x_change_norm=x_change_norm, iterations=state.iterations+1)
 
     def cond(state):
-- 
2.43.0


From ef52b73f20383d995d15ff4a0444114175b31a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 23/55] fix: spg.solve_from_jit accepts the solver options

---
 src/cr/sparse/_src/opt/spg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/spg.py b/src/cr/sparse/_src/opt/spg.py
index 3191e96..d3378ba 100644
--- a/src/cr/sparse/_src/opt/spg.py
+++ b/src/cr/sparse/_src/opt/spg.py
@@ -231,4 +231,4 @@ def solve_from(smooth_f: SmoothFunction,
     return state
 
 
-solve_from_jit = jit(solve_from, static_argnums=(0,1))
\ No newline at end of file
+solve_from_jit = jit(solve_from, static_argnums=(0,1,3))
\ No newline at end of file
-- 
2.43.0


From 4808dc9ae8a62362d84a3a6642cfca86712ec847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:23 +0000
Subject: [PATCH 24/55] fix: matching pursuit tracks the norm of its residual

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index cd53360..c133720 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -119,7 +119,7 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
@@ -195,7 +195,7 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
-- 
2.43.0


From 9236bde58a8d3c0e59c53fc50c57c794dbabe5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:06 +0000
Subject: [PATCH 25/55] fix: omp solvers handle one atom and complex residuals

---
 src/cr/sparse/_src/pursuit/omp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index aeb35f9..8c8e97b 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -94,7 +94,7 @@ def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
         r = y - Phi_I @ x_I
         # norm squared of new residual
         norm_r_new_sqr = r.T @ r
-    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=k+1, length=Phi.shape[1])
+    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=K, length=Phi.shape[1])
 
 
 
@@ -166,7 +166,7 @@ def _operator_step(times, trans, y, p, zv, state):
     # updated residual after first iteration
     r = y - Phi_I @ x_I
     # norm squared of new residual
-    norm_r_new_sqr = r.T @ r
+    norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
 
     return OMPState(x_I=x_I, I=I, Phi_I=Phi_I, r=r, L=L, 
         r_norm_sqr=norm_r_new_sqr, iterations=k + 1)
@@ -226,11 +226,11 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
         L = jnp.ones((1,1))
         # Initial coefficient
         x0 = p[i]
-        x_I = x0
+        x_I = p[I]
         # updated residual after first iteration
         r = y - x0 * phi_0
         # norm squared of new residual
-        norm_r_new_sqr = jnp.abs(jnp.vdot(y, y))
+        norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
         return OMPState(x_I=x_I, I=I, r=r, 
             Phi_I=Phi_I, L=L, 
             r_norm_sqr=norm_r_new_sqr, iterations=1)
-- 
2.43.0


From dcdcd6539d71b0520309d6afd237c9a6b671b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:20 +0000
Subject: [PATCH 26/55] fix: cosamp keeps coefficients with their atoms in its
 first iteration

---
 src/cr/sparse/_src/pursuit/cosamp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 38fbe52..376e7d6 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -59,7 +59,7 @@ def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
@@ -171,7 +171,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
-- 
2.43.0


From 0ec1345b2f0a387179d9377c24cb6d306d22f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:20 +0000
Subject: [PATCH 27/55] fix: omp uses the Hermitian Cholesky factor for complex
 dictionaries

---
 src/cr/sparse/_src/pursuit/omp.py  | 5 +++--
 src/cr/sparse/_src/pursuit/util.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index 8c8e97b..e63a6a6 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -19,7 +19,7 @@ from jax import vmap, jit, lax
 
 import cr.nimble as crn
 from .util import abs_max_idx, gram_chol_update
-from cr.nimble import solve_spd_chol
+from cr.nimble import solve_spd_chol, solve_Lx_b, solve_LTx_b
 from .defs import RecoverySolution
 
 def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
@@ -162,7 +162,8 @@ def _operator_step(times, trans, y, p, zv, state):
     # sub-vector of proxy corresponding to selected indices
     p_I = p[I]
     # sub-vector of representation coefficients estimated so far
-    x_I = solve_spd_chol(L, p_I)
+    u = solve_Lx_b(L, p_I)
+    x_I = jnp.conj(solve_LTx_b(L, jnp.conj(u)))
     # updated residual after first iteration
     r = y - Phi_I @ x_I
     # norm squared of new residual
diff --git a/src/cr/sparse/_src/pursuit/util.py b/src/cr/sparse/_src/pursuit/util.py
index 8448a34..cde2fd5 100644
--- a/src/cr/sparse/_src/pursuit/util.py
+++ b/src/cr/sparse/_src/pursuit/util.py
@@ -28,13 +28,13 @@ def largest_indices(h, K):
 
 
 def gram_chol_update(L, v):
-    r"""Incrementally updates the Cholesky factorization :math:`G = L L^T` where :math:`G = \Phi^T \Phi`
+    r"""Incrementally updates the Cholesky factorization :math:`G = L L^H` where :math:`G = \Phi^H \Phi`
     """
     m, n = L.shape
     z = jnp.zeros((m, 1))
     w = solve_Lx_b(L, v)
-    s = jnp.sqrt(1  - w.T @ w)
+    s = jnp.sqrt(1  - jnp.conj(w.T) @ w)
     L0 = jnp.hstack((L, z))
-    L1 = jnp.hstack((w.T, s))
+    L1 = jnp.hstack((jnp.conj(w.T), s))
     L = jnp.vstack((L0, L1))
     return L
-- 
2.43.0


From 1613785de8902bf1a7906f2848f99a581e9860b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 28/55] fix: focuss survives sparse iterates

---
 src/cr/sparse/_src/cvx/focuss.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/focuss.py b/src/cr/sparse/_src/cvx/focuss.py
index 33851a6..671f305 100644
--- a/src/cr/sparse/_src/cvx/focuss.py
+++ b/src/cr/sparse/_src/cvx/focuss.py
@@ -17,7 +17,6 @@ from jax import lax
 from typing import NamedTuple, List, Dict
 import jax.numpy as jnp
 from jax.numpy.linalg import norm
-import cr.nimble as crn
 import cr.nimble.dsp as crdsp
 
 
@@ -32,10 +31,9 @@ def step_noiseless(Phi, y, x, p=1.):
         - :ref:`gallery:focuss:1`
     """
     xp = jnp.abs(x) ** p
-    xp2 = xp * xp
-    A = crn.diag_premultiply(xp2, Phi.T)
-    G = Phi @ A 
-    x = A @ jnp.linalg.solve(G, y)
+    # x = X (Phi X)^+ y, the pseudo-inverse exists for sparse x too
+    A = Phi * xp
+    x = xp * jnp.linalg.lstsq(A, y)[0]
     return x
 
 class FocussState(NamedTuple):
@@ -114,11 +112,7 @@ def matrix_solve_noiseless(Phi, y, p=1., max_iters=20):
             iterations=0)
 
     def body_func(state):
-        xp = jnp.abs(state.x) ** p
-        xp2 = xp * xp
-        A = crn.diag_premultiply(xp2, Phi.T)
-        G = Phi @ A 
-        x = A @ jnp.linalg.solve(G, y)
+        x = step_noiseless(Phi, y, state.x, p)
         r = y - Phi @ x
         r_norm_sqr = r.T @ r
         return FocussState(x=x, r=r, 
-- 
2.43.0


From 0f1bb17d8c4dac4334c4757ba7f877f5371e9efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:57 +0000
Subject: [PATCH 29/55] fix: l1ls does not stop on a non-positive dual
 objective or loop on a large start

---
 src/cr/sparse/_src/cvx/l1ls.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 468ea4c..4ff814a 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -167,7 +167,8 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # initial value of the dual objective
         dual_obj = get_dual_obj(nu)
         gap = primal_obj - dual_obj
-        rel_gap = gap / dual_obj
+        # a dual objective which is not positive is no bound
+        rel_gap = jnp.where(dual_obj > 0, gap / dual_obj, jnp.inf)
         dxu = jnp.zeros(2*n)
         return State(x=x0, u=u0, z=z, nu=nu, dxu=dxu,
             primal_obj=primal_obj, dual_obj=dual_obj, gap=gap, rel_gap=rel_gap, 
@@ -339,7 +340,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # duality gap
         gap = primal_obj - dual_obj
         # relative gap
-        rel_gap = gap / state.dual_obj
+        rel_gap = jnp.where(dual_obj > 0, gap / dual_obj, jnp.inf)
         #--------------------------------------------------------------------------------
         # update t if required TNIPM step 7
         #--------------------------------------------------------------------------------
@@ -376,7 +377,8 @@ def solve(A, y, lambda_, x0=None, u0=None, tol=1e-3, xi=1e-3, t0=None,
     """
     m, n = A.shape
     x0 = x0 if x0 is not None else jnp.zeros(n)
-    u0 = u0 if u0 is not None else jnp.ones(n)
+    # |x0| < u0 must hold
+    u0 = u0 if u0 is not None else jnp.ones(n) + jnp.abs(x0)
     return solve_from(A, y, lambda_, x0, u0, tol, xi, t0, max_iters, pcg_max_iters)
 
 solve_jit  = jit(solve,
-- 
2.43.0


From 1dc1c714f23596d41442b9e806d03d381410fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:08 +0000
Subject: [PATCH 30/55] fix: yall1 takes the weights into account when it tests
 for a zero solution

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index f9d70c0..e96ecb2 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -489,11 +489,14 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     n_times = 0
     n_trans = 1
     n = Atb.shape[0]
+    w = jnp.ones(n)
+    if weights is not None:
+        # make sure that the final weights are an array of size n
+        w = w * weights
     b_max  = float(norm(b, ord=jnp.inf))
-    atb_max = float(norm(Atb, ord=jnp.inf))
     zero_solution = False
     if rho > 0:
-        zero_solution = atb_max <= rho
+        zero_solution = bool(jnp.all(jnp.abs(Atb) <= rho * w))
     if delta > 0:
         zero_solution = norm(b) <= delta
     if zero_solution:
@@ -507,11 +510,6 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     if z0 is None:
         z0 = jnp.zeros(n)
 
-    w = jnp.ones(n)
-    if weights is not None:
-        # make sure that the final weights are an array of size n
-        w = w * weights
-
     # scale data and model parameters
     b = b / b_max
     if rho > 0: rho = rho / b_max
-- 
2.43.0


From 6f37582d27c51d66fd130bf31e4c6a7c4d73fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:23 +0000
Subject: [PATCH 31/55] fix: spgl1 bpic metrics describe the solution after tau
 is reduced

---
 src/cr/sparse/_src/cvx/spgl1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index a32d406..20bd6c2 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -655,6 +655,11 @@ def solve_bpic_from(A,
             lambda _: update_xrgf(A, b, x, tau),
             lambda _: (x, r, g, f),
             None)
+        # the metrics must describe the updated solution
+        r_norm, r_gap, r_res_error, r_f_error = lax.cond(tau_reduced,
+            lambda _: bpic_metrics(b, x, g, r, f, sigma, tau)[1:],
+            lambda _: (r_norm, r_gap, r_res_error, r_f_error),
+            None)
         n_times, n_trans = n_times + tau_reduced, n_trans + tau_reduced
         n_newton = state.n_newton + change_tau
         # update past objective values with the new objective value
-- 
2.43.0


From 6fc2495526f12f332432c2dea26e4d983970db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:30 +0000
Subject: [PATCH 32/55] fix: spgl1 solve_lasso handles complex operators and
 explicit options under jit

---
 src/cr/sparse/_src/cvx/spgl1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 20bd6c2..b19300b 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -384,7 +384,7 @@ def solve_lasso_from(A,
             alpha=lsearch.alpha,
             alpha_next=alpha_next,
             iterations=state.iterations+1,
-            n_times=n_times, n_trans=n_times, 
+            n_times=n_times, n_trans=n_trans, 
             n_ls_iters=state.n_ls_iters + lsearch.n_iters)
 
     def cond_func(state):
@@ -412,10 +412,11 @@ def solve_lasso(A,
     """Solves the LASSO problem using SPGL1 algorithm
     """
     m, n = A.shape
-    x0 = jnp.zeros(n)
+    dtype = b.dtype if A.real else jnp.result_type(b.dtype, jnp.complex64)
+    x0 = jnp.zeros(n, dtype=dtype)
     return solve_lasso_from(A, b, tau, x0, options=options, tracker=tracker)
 
-solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "tracker"))
+solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "options", "tracker"))
 
 
 def analyze_lasso_state(A, b, tau, options, state, x0):
-- 
2.43.0


From fc744609d807667571d1bff9586caaf7a2201d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:58 +0000
Subject: [PATCH 33/55] fix: matrix_affine_func can be called, with either part
 missing

---
 src/cr/sparse/_src/fom/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/fom/util.py b/src/cr/sparse/_src/fom/util.py
index b39a7bd..0441a76 100644
--- a/src/cr/sparse/_src/fom/util.py
+++ b/src/cr/sparse/_src/fom/util.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from functools import partial
+
 from jax import jit
 
 import jax.numpy as jnp
@@ -53,7 +55,7 @@ def matrix_affine_func(A=None, b=None):
     ax_plus_b = identity
     if A is None:
         # We assume that A is identity
-        ax_plus_b  = translate
+        ax_plus_b  = identity if b is None else translate
     elif b is None:
         # we compute y = A @ x
         ax_plus_b = similar
@@ -62,12 +64,12 @@ def matrix_affine_func(A=None, b=None):
         ax_plus_b = affine
 
 
-    @partial(jit, static_argnums=(2,))
+    @partial(jit, static_argnums=(1,), static_argnames=("mode",))
     def operator(x, mode=0):
         if mode == 0:
-            return A @ x
+            return x if A is None else A @ x
         if mode == 1:
-            return AH_v(A, x)
+            return x if A is None else AH_v(A, x)
         if mode == 2:
             return ax_plus_b(x)
 
-- 
2.43.0


From 3c39aa65c9e128bccb1d58b93ced56d4664ff4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:39 +0000
Subject: [PATCH 34/55] fix: rfp steps towards sign consistency instead of away
 from it

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index d0bd816..a03c1f4 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -93,7 +93,7 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
             # see which bits have same sign, which bits have different sign
             correlation = y * measurement
             # Only the bits which are wrong are important for further consideration
-            problems = jnp.where(correlation <= 0, -correlation, 0)
+            problems = jnp.where(correlation <= 0, correlation, 0)
             print(f'number of wrong signs: {jnp.sum(correlation < 0)}, {jnp.sum(problems)}')
             # multiply with the bit vector Y^T (f'(term))
             problems = y * problems
-- 
2.43.0


From 6198f1a4405fc25346f2f822917e1fc209553613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:39 +0000
Subject: [PATCH 35/55] fix: rfp lowers the shrinkage threshold as lambda grows

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index a03c1f4..063810e 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -79,10 +79,11 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
     """Solver fo 1-bit compressive sensing with renormalized fixed points iteration
     algorithm     
     """
-    tau = delta / lambda_
-    print(f'shrinkage threshold: {tau}')
 
     def rfpi_inner(x0, lambda_):
+        tau = delta / lambda_
+        print(f'shrinkage threshold: {tau}')
+
         def init_fun():
             return RFPState(x=x0, x_prev=jnp.zeros_like(x0), iterations=0)
 
-- 
2.43.0


From 578a0774f422875c4f23a2bd2688776c82add780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:32 +0000
Subject: [PATCH 36/55] fix: bsbl second moment of a block uses the outer
 product of its mean

---
 src/cr/sparse/_src/block/bsbl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index bf794d2..da987be 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -166,7 +166,7 @@ def compute_sigma_x_pruned(Phi, Sigma0, H, active_blocks):
 
 def compute_cov_x(Sigma_x, mu_x):
     Cov_x = vmap(
-        lambda sx, mx: sx + mx @ mx.T,
+        lambda sx, mx: sx + jnp.outer(mx, mx),
         in_axes=(0,0))(Sigma_x, mu_x)
     return Cov_x
 
-- 
2.43.0


From 651fb0ae2608a516fb85bb3d5294441f48d380bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:42 +0000
Subject: [PATCH 37/55] fix: bsbl high SNR noise update counts coefficients and
 skips pruned blocks

---
 src/cr/sparse/_src/block/bsbl.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index da987be..0c11d2d 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -204,12 +204,14 @@ def compute_B_B_inv(B0):
 
 # This rule doesn't seem to work in noiseless case
 def update_lambda_high_snr(lambda_val, gammas, Sigma_x, B_inv, r_norm_sqr, m):
-    n_blocks = len(gammas)
+    blk_size = B_inv.shape[0]
+    # blocks which have been pruned (gamma = 0) do not contribute
+    active = gammas > 0
+    safe_gammas = jnp.where(active, gammas, 1.)
     ll = vmap(
-        lambda g, sx: jnp.trace(sx @ B_inv) / g,
-        in_axes=(0, 0))(gammas, Sigma_x)
-    lambda_comp = jnp.sum(ll)
-    carry = lambda_val * (n_blocks - lambda_comp)
+        lambda g, sx: blk_size - jnp.trace(sx @ B_inv) / g,
+        in_axes=(0, 0))(safe_gammas, Sigma_x)
+    carry = lambda_val * jnp.sum(jnp.where(active, ll, 0.))
     new_lambda_val = (r_norm_sqr + carry) / m
     # print(f'old:{lambda_val:.2e}, new:{new_lambda_val:.2e}, comp: {lambda_comp:.2e}, carry: {carry:.2e}, r_norm_sqr: {r_norm_sqr:.2e}')
     return new_lambda_val
@@ -539,6 +541,7 @@ def bsbl_em(Phi, y, blk_len,
 
     def body_func(state):
         active_blocks = state.gammas > prune_gamma
+        active_gammas = jnp.where(active_blocks, state.gammas, 0.)
         PhiBPhi = cum_phi_b_phi_pruned(Subdicts, state.Sigma0, active_blocks)
         H = compute_h(Phi, PhiBPhi, state.lambda_val)
         # posterior block means
@@ -559,7 +562,7 @@ def bsbl_em(Phi, y, blk_len,
         #     state.lambda_val, Subdicts, state.gammas, Sigma_x,
         #     B_inv, r_norm_sqr, m)
         lambda_val = update_lambda_rule_jittable(learn_lambda,
-            state.lambda_val, Subdicts, state.gammas, Sigma_x,
+            state.lambda_val, Subdicts, active_gammas, Sigma_x,
             B_inv, r_norm_sqr, m)
         # update gamma
         gammas = update_gammas_em_pruned(Cov_x, B_inv, active_blocks)
@@ -667,6 +670,7 @@ def bsbl_bo(Phi, y, blk_len,
 
     def body_func(state):
         active_blocks = state.gammas > prune_gamma
+        active_gammas = jnp.where(active_blocks, state.gammas, 0.)
         PhiBPhi = cum_phi_b_phi_pruned(Subdicts, state.Sigma0, active_blocks)
         H = compute_h(Phi, PhiBPhi, state.lambda_val)
         # posterior block means
@@ -687,7 +691,7 @@ def bsbl_bo(Phi, y, blk_len,
         #     state.lambda_val, Subdicts, state.gammas, Sigma_x,
         #     B_inv, r_norm_sqr, m)
         lambda_val = update_lambda_rule_jittable(learn_lambda,
-            state.lambda_val, Subdicts, state.gammas, Sigma_x,
+            state.lambda_val, Subdicts, active_gammas, Sigma_x,
             B_inv, r_norm_sqr, m)
         # update gamma
         gammas = update_gammas_bo_pruned(state.gammas, B, Hy, HPhi, active_blocks)
-- 
2.43.0


From 6d8ea036582b7b6f18486092b0feacaf2b11aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:51 +0000
Subject: [PATCH 38/55] fix: bsbl honours learn_block_corr = 0

---
 src/cr/sparse/_src/block/bsbl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index 0c11d2d..6689957 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -187,13 +187,15 @@ def compute_cov_x_sum_pruned(Cov_x, gammas, active_blocks):
         in_axes=(0, 0, 0))(Cov_x, gammas, active_blocks)
     return jnp.sum(B_i, axis=0)
 
-def compute_B_B_inv(B0):
+def compute_B_B_inv(B0, learn_block_corr=1):
     m0 = jnp.mean(jnp.diag(B0))
     m1 = jnp.mean(jnp.diag(B0, 1))
     # AR-1 coefficient
     r = m1 / m0
     # make sure that it is bounded
     r = jnp.clip(r, -0.99, 0.99)
+    # no correlation if it is to be ignored
+    r = jnp.where(learn_block_corr == 0, 0., r)
     # print(f'r: {r}')
     # block size
     b = B0.shape[0]
@@ -550,7 +552,7 @@ def bsbl_em(Phi, y, blk_len,
         Sigma_x, _ = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -679,7 +681,7 @@ def bsbl_bo(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -802,7 +804,7 @@ def bsbl_bo_np(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x(Phi, state.Sigma0, H)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum(Cov_x, state.gammas)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
-- 
2.43.0


From c0e287d24ca651e054c524b4a41ac9a6e7c07666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:50 +0000
Subject: [PATCH 39/55] fix: best_map handles different numbers of true and
 predicted clusters

---
 src/cr/sparse/_src/cluster/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/util.py b/src/cr/sparse/_src/cluster/util.py
index bc08b1c..3787a1a 100644
--- a/src/cr/sparse/_src/cluster/util.py
+++ b/src/cr/sparse/_src/cluster/util.py
@@ -85,9 +85,13 @@ def best_map(true_labels, pred_labels):
     # Run the Hungarian assignment algorithm
     rows, cols = linear_sum_assignment(-G)
     mapped_labels = jnp.zeros_like(pred_labels)
-    for i in range(n_l2):
+    for i in range(n_labels):
+        if cols[i] >= n_l2:
+            # no predicted label was matched with the i-th true label
+            continue
         old_label = labels_2[cols[i]]
-        new_label = labels_1[i]
+        # predicted labels in excess get labels which are not true labels
+        new_label = labels_1[i] if i < n_l1 else labels_1[-1] + 1 + i - n_l1
         mapped_labels = mapped_labels.at[pred_labels == old_label].set(new_label)
     return mapped_labels, cols, G 
 
-- 
2.43.0


From 074902a452eb88c0658b4b7f106326fa73e37ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:50 +0000
Subject: [PATCH 40/55] fix: angles_between_points is finite for antipodal
 points

---
 src/cr/sparse/_src/cluster/ssc/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/util.py b/src/cr/sparse/_src/cluster/ssc/util.py
index 298fa9a..e18c9c5 100644
--- a/src/cr/sparse/_src/cluster/ssc/util.py
+++ b/src/cr/sparse/_src/cluster/ssc/util.py
@@ -95,7 +95,7 @@ def angles_between_points(X):
     # Compute gram matrix
     G = X.T @ X
     # Avoid overflow in gram matrix
-    G = jnp.minimum(G, 1)
+    G = jnp.clip(G, -1, 1)
     return jnp.rad2deg(jnp.arccos(G))
 
 
-- 
2.43.0


From cf39bb19e26286deb55f50f40a305eba9db898af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:50 +0000
Subject: [PATCH 41/55] fix: batch_build_representation_omp represents the
 given points, like build_representation_omp

---
 src/cr/sparse/_src/cluster/ssc/omp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/omp.py b/src/cr/sparse/_src/cluster/ssc/omp.py
index b248709..6ea08f1 100644
--- a/src/cr/sparse/_src/cluster/ssc/omp.py
+++ b/src/cr/sparse/_src/cluster/ssc/omp.py
@@ -93,9 +93,9 @@ def batch_build_representation_omp(X, K, batch_size):
         # rows for setting the self inner product to 0.
         r = rr + start
         # Let's restrict our attention to this batch only
-        X_batch = Xn[:, start:end]
+        X_batch = X[:, start:end]
         # The residual 
-        R = X_batch
+        R = Xn[:, start:end]
         # Let's conduct first iteration of OMP
         # The proxy representation
         P = Dict.T @ R
-- 
2.43.0


From 9dd54a8d9aefcf09b70744b3426682a07297b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 42/55] fix: build_grassmannian_frame rescales the Gram matrix
 on both sides

---
 src/cr/sparse/_src/dict/grass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/grass.py b/src/cr/sparse/_src/dict/grass.py
index 689e91f..a05c666 100644
--- a/src/cr/sparse/_src/dict/grass.py
+++ b/src/cr/sparse/_src/dict/grass.py
@@ -95,7 +95,7 @@ def build_grassmannian_frame(init,
         # Ensure that the diagonal elements of G continue to be 1
         d = jnp.diag(g)
         d2 = 1. / jnp.sqrt(d)
-        g = d2 * g * d2
+        g = d2[:, None] * g * d2
         return g
 
     # run the alternate projections
-- 
2.43.0


From 12e9a101ccc477d98e942b3734a9986fdf0bc37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 43/55] fix: matching_atoms_ratio uses the Hermitian inner
 product

---
 src/cr/sparse/_src/dict/comparison.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/comparison.py b/src/cr/sparse/_src/dict/comparison.py
index b4ba514..473abd3 100644
--- a/src/cr/sparse/_src/dict/comparison.py
+++ b/src/cr/sparse/_src/dict/comparison.py
@@ -14,6 +14,8 @@
 
 import jax.numpy as jnp
 
+from cr.nimble import mat_hermitian
+
 
 def matching_atoms_ratio(A, B, distance_threshold=0.01):
     """Identifies how many atoms are very close between dictionaries A and B
@@ -21,7 +23,7 @@ def matching_atoms_ratio(A, B, distance_threshold=0.01):
     # number of atoms
     n_atoms = A.shape[1]
     # inner products betweeen atoms of A and B
-    similarities = jnp.abs(A.T @ B)
+    similarities = jnp.abs(mat_hermitian(A) @ B)
     # find the best match from each row 
     max_similarities = jnp.max(similarities, axis=1)
     # angular distance between best match
-- 
2.43.0


From c63904d62d30c132df617562e402129cdc236eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 44/55] fix: half_threshold maps zeros to zero when the
 threshold is zero

---
 src/cr/sparse/_src/geo/thresholding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/geo/thresholding.py b/src/cr/sparse/_src/geo/thresholding.py
index 514880e..c654412 100644
--- a/src/cr/sparse/_src/geo/thresholding.py
+++ b/src/cr/sparse/_src/geo/thresholding.py
@@ -53,7 +53,8 @@ def half_threshold(x, tau):
     """
     x = promote_arg_dtypes(x)
     gamma = (54 ** (1. / 3.) / 4.) * tau ** (2. / 3.)
-    nonzero = jnp.abs(x) >= gamma
+    # zeros stay zero also if the threshold is zero
+    nonzero = jnp.logical_and(jnp.abs(x) >= gamma, x != 0)
     # the arc-cos term Eq 10 from paper
     phi = 2. / 3. * jnp.arccos((tau / 8.) * (jnp.abs(x) / 3.) ** (-1.5))
     # the half thresholded values for terms above gamma Eq 10
-- 
2.43.0


From af51cbdfa8d76afb5d6b953703a6896e92f3c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 45/55] fix: kernel_gaussian has the requested standard
 deviation

---
 src/cr/sparse/_src/vision/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/vision/kernels.py b/src/cr/sparse/_src/vision/kernels.py
index 6d57bcf..8187bae 100644
--- a/src/cr/sparse/_src/vision/kernels.py
+++ b/src/cr/sparse/_src/vision/kernels.py
@@ -73,8 +73,8 @@ def kernel_gaussian(size=5, sigma=1.):
     # form a mesh grid of 2 D points
     xx, yy = jnp.meshgrid(ax_x, ax_y)
     # Compute the kernel values at the specified points in the grid
-    factor_x = 2 / sigma_x ** 2
-    factor_y = 2 / sigma_y ** 2
+    factor_x = 1 / (2 * sigma_x ** 2)
+    factor_y = 1 / (2 * sigma_y ** 2)
     kernel = jnp.exp(-(jnp.square(xx) * factor_x + jnp.square(yy) * factor_y))
     # normalize the kernel and return
     return kernel / jnp.sum(kernel)
\ No newline at end of file
-- 
2.43.0


From 91ef28ec4fd3bffe9979477599b4cfac09680278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 46/55] fix: RecoveryPerformance accepts solutions carrying the
 full vector

---
 src/cr/sparse/_src/tools/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/performance.py b/src/cr/sparse/_src/tools/performance.py
index b487146..f7d590d 100644
--- a/src/cr/sparse/_src/tools/performance.py
+++ b/src/cr/sparse/_src/tools/performance.py
@@ -77,7 +77,7 @@ class RecoveryPerformance:
         # Shape of the dictionary/sensing matrix
         M, N = Phi.shape
         if sol is not None:
-            if 'x' in sol:
+            if hasattr(sol, 'x'):
                 x_hat = sol.x
             else:
                 x_hat = build_signal_from_indices_and_values(N, sol.I, sol.x_I) 
-- 
2.43.0


From f8a281721aa31153ca4c450ee111186e3f42eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 47/55] fix: recovery trials draw a new signal for every signal
 trial

---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 50e3a20..0591f32 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -143,7 +143,7 @@ class RecoveryTrialsAtFixed_M_N:
                 print('*', end='', flush=True)
                 # Construct a dictionary
                 Phi = crdict.gaussian_mtx(dict_key, M,N)
-                signal_keys = jax.random.split(dict_key, num_dict_trials)
+                signal_keys = jax.random.split(dict_key, num_signal_trials)
                 for nst in range(num_signal_trials):
                     signal_key = signal_keys[nst]
                     # Construct a signal
-- 
2.43.0


From 3acd4f2df5bdfa4c15af34ca23617f4f2096b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 48/55] fix: recovery trials work with a single trial per
 sparsity level

---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 0591f32..d3d223b 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -172,7 +172,7 @@ class RecoveryTrialsAtFixed_M_N:
             success_rate = successes / trials
             iters = np.array(iters)
             runtime=end_time-start_time # in seconds
-            mean_runtime=runtime * 1000 / (trials - 1) # in milli seconds
+            mean_runtime=runtime * 1000 / max(trials - 1, 1) # in milli seconds
             # summarized information
             row = Row(m=M, n=N, k=K, method=name, 
                 trials=trials, successes=successes, 
-- 
2.43.0


From c91584e46a55fc457bf73e9af452ba18ac54c1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:31 +0000
Subject: [PATCH 49/55] fix: powers of an operator accept vectors whose type
 the operator promotes

---
 src/cr/sparse/_src/lop/lop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 1aa0163..0e09e6b 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -261,6 +261,8 @@ def transpose(A):
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
 
 def apply_n(func, n, x):
+    # the loop carries values of the type which func produces for x
+    x = x.astype(jnp.promote_types(x.dtype, jax.eval_shape(func, x).dtype))
     init = (x, 0)
     def body(state):
         x, c = state
-- 
2.43.0


From 6c39cf36d028d83398cdd784c5537379716101d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:05 +0000
Subject: [PATCH 50/55] fix: SPGL1 reports the number of operator applications
 it made

solve_bpic_from counts two initial evaluations of the residual and the
gradient, but only one is made.
---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index b19300b..f15bd2b 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -606,7 +606,7 @@ def solve_bpic_from(A,
             r_res_error=r_res_error, r_f_error=r_f_error,
             alpha=alpha,
             alpha_next=alpha,
-            iterations=1, n_times=2, n_trans=2,
+            iterations=1, n_times=1, n_trans=1,
             n_newton=1, n_ls_iters=0)
 
     #@jit
-- 
2.43.0


From b6cc515b8c1da5cd2c7ae9933eb7a6a9a52d8947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:05 +0000
Subject: [PATCH 51/55] fix: l1ls reports the number of adjoint applications it
 made

The dual point of every iteration needs one more A^T x, which was not
counted.
---
 src/cr/sparse/_src/cvx/l1ls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 4ff814a..853bb7c 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -330,6 +330,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         #--------------------------------------------------------------------------------
         # update nu (eq 11)
         nu = get_nu(z)
+        n_trans += 1
         #--------------------------------------------------------------------------------
         # Duality gap calculation TNIPM step 5
         #--------------------------------------------------------------------------------
-- 
2.43.0


From 78f42d48046a7a4096abef7d31eb20ade31fa00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:24 +0000
Subject: [PATCH 52/55] fix: SPGL1 solves noisy basis pursuit for a complex
 operator and real data

solve_bpic started from a real zero vector whenever b is real, so that the
loop state changed its type; solve_bp and solve_lasso choose a complex
start for operators which are not real.
---
 src/cr/sparse/_src/cvx/spgl1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index f15bd2b..cf3a795 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -726,7 +726,8 @@ def solve_bpic(A,
     """Solves the BPIC problem using SPGL1 algorithm
     """
     m, n = A.shape
-    x0 = jnp.zeros(n, dtype=b.dtype)
+    dtype = b.dtype if A.real else jnp.result_type(b.dtype, jnp.complex64)
+    x0 = jnp.zeros(n, dtype=dtype)
     return solve_bpic_from(A, b, sigma, x0, options=options, tracker=tracker)
 
 solve_bpic_jit = jit(solve_bpic, static_argnames=("A", "options", "tracker"))
-- 
2.43.0


From 558ef1c61283c2c287b78ee2897108a5a6b11417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:55 +0000
Subject: [PATCH 53/55] fix: MP tells its tracker when more iterations follow

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index c133720..1701227 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -123,12 +123,12 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
@@ -199,12 +199,12 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
-- 
2.43.0


From f8266a9762c1a524a1c49c3aad2209ecb1859394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:55 +0000
Subject: [PATCH 54/55] fix: SP and CoSaMP show their tracker the state in the
 units of the problem

---
 src/cr/sparse/_src/pursuit/cosamp.py | 7 ++++++-
 src/cr/sparse/_src/pursuit/sp.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 376e7d6..d43838a 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -235,7 +235,12 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # e = state.r_norm_sqr < 0.9 * state.r_norm_sqr_prev
         # c = jnp.logical_and(c, e)
         # overall condition
-        jax.debug.callback(tracker, state, more=c)
+        # the tracker gets the state in the scale of the original problem
+        scaled = state._replace(x_I=y_norm * state.x_I, r=y_norm * state.r,
+            r_norm_sqr=y_norm_sqr * state.r_norm_sqr,
+            x_I_prev=y_norm * state.x_I_prev,
+            r_norm_sqr_prev=y_norm_sqr * state.r_norm_sqr_prev)
+        jax.debug.callback(tracker, scaled, more=c)
         return c
 
     state = init()
diff --git a/src/cr/sparse/_src/pursuit/sp.py b/src/cr/sparse/_src/pursuit/sp.py
index 613306b..fc87b6a 100644
--- a/src/cr/sparse/_src/pursuit/sp.py
+++ b/src/cr/sparse/_src/pursuit/sp.py
@@ -198,7 +198,12 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # consider support change only after some iterations
         d = jnp.logical_or(state.iterations < min_iters, d)
         c = jnp.logical_and(c, d)
-        jax.debug.callback(tracker, state, more=c)
+        # the tracker gets the state in the scale of the original problem
+        scaled = state._replace(x_I=y_norm * state.x_I, r=y_norm * state.r,
+            r_norm_sqr=y_norm_sqr * state.r_norm_sqr,
+            x_I_prev=y_norm * state.x_I_prev,
+            r_norm_sqr_prev=y_norm_sqr * state.r_norm_sqr_prev)
+        jax.debug.callback(tracker, scaled, more=c)
         return c
 
     state = lax.while_loop(cond, body, init())
-- 
2.43.0


From b15baabc00e898f8c95603a5a7fdd10a68f5d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:55 +0000
Subject: [PATCH 55/55] fix: SPGL1 analysis prints the l2 norm of complex
 vectors

---
 src/cr/sparse/_src/cvx/spgl1.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index cf3a795..c5052ef 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -430,8 +430,8 @@ def analyze_lasso_state(A, b, tau, options, state, x0):
     snr  = crn.signal_noise_ratio(x0, x)
     prd = crn.percent_rms_diff(x0, x)
     print(f'SNR: {snr:.2f} dB, PRD: {prd:.1f} %')
-    print(f'x0: l1: {crn.norm_l1(x0):.3f}, l2: {crn.norm_l2(x0):.3f}, linf: {crn.norm_linf(x0):.3f}')
-    print(f'x : l1: {crn.norm_l1(x):.3f}, l2: {crn.norm_l2(x):.3f}, linf: {crn.norm_linf(x):.3f}')
+    print(f'x0: l1: {crn.norm_l1(x0):.3f}, l2: {crn.arr_l2norm(x0):.3f}, linf: {crn.norm_linf(x0):.3f}')
+    print(f'x : l1: {crn.norm_l1(x):.3f}, l2: {crn.arr_l2norm(x):.3f}, linf: {crn.norm_linf(x):.3f}')
 
 
     r_norm = state.r_norm
@@ -744,8 +744,8 @@ def analyze_bpic_state(A, b, sigma, options, state, x0):
     snr  = crn.signal_noise_ratio(x0, x)
     prd = crn.percent_rms_diff(x0, x)
     print(f'SNR: {snr:.2f} dB, PRD: {prd:.1f} %')
-    print(f'x0: l1: {crn.norm_l1(x0):.3f}, l2: {crn.norm_l2(x0):.3f}, linf: {crn.norm_linf(x0):.3f}')
-    print(f'x : l1: {crn.norm_l1(x):.3f}, l2: {crn.norm_l2(x):.3f}, linf: {crn.norm_linf(x):.3f}')
+    print(f'x0: l1: {crn.norm_l1(x0):.3f}, l2: {crn.arr_l2norm(x0):.3f}, linf: {crn.norm_linf(x0):.3f}')
+    print(f'x : l1: {crn.norm_l1(x):.3f}, l2: {crn.arr_l2norm(x):.3f}, linf: {crn.norm_linf(x):.3f}')
 
 
     r_norm = state.r_norm
-- 
2.43.0

