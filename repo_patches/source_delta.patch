From 8e3a75d30b88c309d9e52e7a7439ddd8bcf4a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:31 +0000
Subject: [PATCH 01/66] fix: adjoint of centered first derivative ignored dx
 and dropped imaginary part

---
 src/cr/sparse/_src/lop/calculus.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index eae78ae..9995491 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -45,9 +45,10 @@ def _derivative_centered(x, dx):
     return jnp.pad(diffs, (1,1))
 
 def _derivative_centered_adj(x, dx):
-    y = jnp.zeros(x.shape)
-    y = y.at[0:-2].add(-0.5*x[1:-1])
-    y = y.at[2:].add(0.5*x[1:-1])
+    x = 0.5 * x / dx
+    y = jnp.zeros(x.shape, dtype=x.dtype)
+    y = y.at[0:-2].add(-x[1:-1])
+    y = y.at[2:].add(x[1:-1])
     return y
 
 
-- 
2.43.0


From 278a140d93601dc56be225eb8e668beb65ad32c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:31 +0000
Subject: [PATCH 02/66] fix: compose dropped the jit_safe and matrix_safe flags
 of its parts

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 1b8a4dd..99766d7 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -370,7 +370,7 @@ def compose(A, B, ignore_compatibility=False, shape=None):
     trans = lambda x: B.trans(A.trans(x))
     if shape is None:
         shape = (ma, nb)
-    return Operator(times=times, trans=trans, shape=shape, real=real)
+    return Operator(times=times, trans=trans, shape=shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
 
 
 def hcat(A, B):
-- 
2.43.0


From d6e2e0c4d2a48a80d500ad172907fca0718fd984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 03/66] fix: operator algebra dropped the linear flag of its
 parts

---
 src/cr/sparse/_src/lop/lop.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 99766d7..afad0cb 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -205,7 +205,7 @@ def neg(A):
     """
     times = lambda x : -A.times(x)
     trans = lambda x : -A.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def scale(A, alpha):
     r"""Returns the linear operator :math:`T = \alpha A` for the operator :math:`A`
@@ -221,7 +221,7 @@ def scale(A, alpha):
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=real, linear=A.linear)
 
 def hermitian(A):
     r"""Returns the Hermitian transpose of a given operator :math:`T = A^H`
@@ -236,7 +236,7 @@ def hermitian(A):
         Deprecated. Use `adjoint` instead.
     """
     m, n = A.shape
-    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def adjoint(A):
     r"""Returns the adjoint of a given operator :math:`T = A^H`
@@ -248,7 +248,7 @@ def adjoint(A):
         (Operator): A linear operator T such that :math:`T x = A^H x` 
     """
     m, n = A.shape
-    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=A.trans, trans=A.times, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 
 def transpose(A):
@@ -260,7 +260,7 @@ def transpose(A):
     else:
         times = lambda x: _hermitian(A.trans(_hermitian(x)))
         trans = lambda x: _hermitian(A.times(_hermitian(x)))
-    return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def apply_n(func, n, x):
     init = (x, 0)
@@ -280,7 +280,7 @@ def power(A, p):
     assert m == n
     times = lambda x :apply_n(A.times, p, x)
     trans = lambda x : apply_n(A.trans, p, x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def partial_op(A, picks, perm=None):
     """Returns the linear operator T that computes  (A x[perm])[picks]
@@ -322,7 +322,7 @@ def partial_op(A, picks, perm=None):
             out = out.at[perm].set(y)
             return out
 
-    return Operator(times=times, trans=trans, shape=(k, n), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+    return Operator(times=times, trans=trans, shape=(k, n), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 
 ###########################################################################################
@@ -338,9 +338,10 @@ def add(A, B):
     jit_safe = A.jit_safe and B.jit_safe
     matrix_safe = A.matrix_safe and B.matrix_safe
     real = A.real and B.real
+    linear = A.linear and B.linear
     times = lambda x: A.times(x) + B.times(x)
     trans = lambda x: A.trans(x) + B.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real, linear=linear)
 
 
 def subtract(A, B):
@@ -352,9 +353,10 @@ def subtract(A, B):
     jit_safe = A.jit_safe and B.jit_safe
     matrix_safe = A.matrix_safe and B.matrix_safe
     real = A.real and B.real
+    linear = A.linear and B.linear
     times = lambda x: A.times(x) - B.times(x)
     trans = lambda x: A.trans(x) - B.trans(x)
-    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=A.shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real, linear=linear)
 
 
 def compose(A, B, ignore_compatibility=False, shape=None):
@@ -366,11 +368,12 @@ def compose(A, B, ignore_compatibility=False, shape=None):
     jit_safe = A.jit_safe and B.jit_safe
     matrix_safe = A.matrix_safe and B.matrix_safe
     real = A.real and B.real
+    linear = A.linear and B.linear
     times = lambda x: A.times(B.times(x))
     trans = lambda x: B.trans(A.trans(x))
     if shape is None:
         shape = (ma, nb)
-    return Operator(times=times, trans=trans, shape=shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real, linear=linear)
 
 
 def hcat(A, B):
@@ -383,9 +386,10 @@ def hcat(A, B):
     jit_safe = A.jit_safe and B.jit_safe
     matrix_safe = A.matrix_safe and B.matrix_safe
     real = A.real and B.real
+    linear = A.linear and B.linear
     times = lambda x: A.times(x[:na]) + B.times(x[na:])
     trans = lambda x: jnp.concatenate((A.trans(x), B.trans(x)))
-    return Operator(times=times, trans=trans, shape=(m,n), jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
+    return Operator(times=times, trans=trans, shape=(m,n), jit_safe=jit_safe, matrix_safe=matrix_safe, real=real, linear=linear)
 
 
 
@@ -395,7 +399,7 @@ def gram(A):
     times = lambda x: A.trans(A.times(x))
 
     return Operator(times=times, trans=times, shape=(n,n), 
-        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def frame(A):
     """Returns the frame of a given operator :math:`T = A A^H`"""
@@ -403,4 +407,4 @@ def frame(A):
     times = lambda x: A.times(A.trans(x))
 
     return Operator(times=times, trans=times, shape=(m, m), 
-        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
+        jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
-- 
2.43.0


From dc6ecdfdd1fcf5fe21281e86d85c62cf0c2b9310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 04/66] fix: operators with complex coefficients were flagged
 real

---
 src/cr/sparse/_src/lop/basic.py   | 4 ++--
 src/cr/sparse/_src/lop/conv.py    | 4 ++--
 src/cr/sparse/_src/lop/filters.py | 2 +-
 src/cr/sparse/_src/lop/lop.py     | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index e15d2b6..3aa4534 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -190,7 +190,7 @@ def diagonal(d, axis=0):
     times = lambda x: d * x
     trans = lambda x: _hermitian(d) * x
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(d))
 
 
 def scalar_mult(alpha, n):
@@ -208,7 +208,7 @@ def scalar_mult(alpha, n):
     assert alpha.ndim == 0, "alpha must be a scalar quantity"
     times = lambda x: alpha * x
     trans = lambda x: alpha_c * x
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(alpha))
 
 
 def zero(in_dim, out_dim=None, axis=0):
diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index 2dd44bb..5c0cc27 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -74,7 +74,7 @@ def convolve(n, h, offset=0, axis=0):
         return result[0, 0, 0, b_slice]
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
 def convolve2D(shape, h, offset=None, axes=None):
     """Performs 2 dimensional convolution on the input array
@@ -164,4 +164,4 @@ def convolveND(shape, h, offset=None, axes=None):
         # pick the slices from other dimensions
         return result[a_slices]
 
-    return Operator(times=times, trans=trans, shape=(shape,shape))
+    return Operator(times=times, trans=trans, shape=(shape,shape), real=jnp.isrealobj(h))
diff --git a/src/cr/sparse/_src/lop/filters.py b/src/cr/sparse/_src/lop/filters.py
index a786919..28920ef 100644
--- a/src/cr/sparse/_src/lop/filters.py
+++ b/src/cr/sparse/_src/lop/filters.py
@@ -38,5 +38,5 @@ def fir_filter(n, h, axis=0):
     times1d = lambda x : jnp.convolve(x, h, 'same')
     trans1d = lambda x : jnp.convolve(x, h_conj, 'full')[start:start+n]
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index afad0cb..6a63a89 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -217,7 +217,7 @@ def scale(A, alpha):
         (Operator): A linear operator T such that :math:`T x = \alpha A x` 
         and :math:`T^H x = \bar{\alpha} A^H x`
     """
-    real = A.real and not  isinstance(alpha, complex)
+    real = A.real and not jnp.iscomplexobj(alpha)
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-- 
2.43.0


From 10ba5e68371417d588572fe44079ccd46dc3d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 05/66] fix: block_diag ignored the real, linear and jit_safe
 flags of its blocks

---
 src/cr/sparse/_src/lop/block_diag.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/block_diag.py b/src/cr/sparse/_src/lop/block_diag.py
index c98f8cb..3965623 100644
--- a/src/cr/sparse/_src/lop/block_diag.py
+++ b/src/cr/sparse/_src/lop/block_diag.py
@@ -139,4 +139,7 @@ def block_diag(operators, axis=0):
         return jnp.concatenate(ys)
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(m_all,n_all))
+    return Operator(times=times, trans=trans, shape=(m_all,n_all),
+        linear=all(op.linear for op in operators),
+        jit_safe=all(op.jit_safe for op in operators),
+        real=all(op.real for op in operators))
-- 
2.43.0


From 0633cfbaba92f9b81776b8b5854a09e1c572f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 06/66] fix: adjoint of N-D convolution did not conjugate a
 complex filter

---
 src/cr/sparse/_src/lop/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index 5c0cc27..ff46cbf 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -138,7 +138,7 @@ def convolveND(shape, h, offset=None, axes=None):
     h_conv = h[tuple(slice(None, None, -1) for s in shape)]
     # extend it
     h_conv = h_conv[None, None]
-    h_corr = h[None, None]
+    h_corr = jnp.conjugate(h)[None, None]
 
     def times(x):
         """Forward N-D convolution
-- 
2.43.0


From af73dfbda55a888a7ffc2ab972da8a6173ef8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 07/66] fix: transpose of a complex operator transposed its
 matrix-valued input

---
 src/cr/sparse/_src/lop/lop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 6a63a89..7d3dfad 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -258,8 +258,8 @@ def transpose(A):
         times = A.trans
         trans = A.times
     else:
-        times = lambda x: _hermitian(A.trans(_hermitian(x)))
-        trans = lambda x: _hermitian(A.times(_hermitian(x)))
+        times = lambda x: jnp.conjugate(A.trans(jnp.conjugate(x)))
+        trans = lambda x: jnp.conjugate(A.times(jnp.conjugate(x)))
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def apply_n(func, n, x):
-- 
2.43.0


From 5c08aa9419f3756b2aabb149884a493df066a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 08/66] fix: adjoint of zero-padded FFT truncated the first
 axis instead of the FFT axis

---
 src/cr/sparse/_src/lop/fft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/fft.py b/src/cr/sparse/_src/lop/fft.py
index c88d81e..773ca8e 100644
--- a/src/cr/sparse/_src/lop/fft.py
+++ b/src/cr/sparse/_src/lop/fft.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from jax import lax
 import jax.numpy as jnp
 import jax.numpy.fft as jfft
 
@@ -42,7 +43,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     elif mode == 'c2c':
         def times(x):
             w = jfft.fft(x, n, axis=axis)
@@ -51,7 +52,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     else: 
         raise ValueError(f"Unsupported mode {mode}")
 
-- 
2.43.0


From 3ac047ab798810a3f5c9d76aa351068fc7b39d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 09/66] fix: windowed_op adjoint dropped imaginary parts and
 the flags of its operator

---
 src/cr/sparse/_src/lop/windowed_op.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index fc9652e..db5b29b 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -57,9 +57,9 @@ def windowed_op(m, T, overlap=0, axis=0):
     # initial value of y for times operation
     yf = jnp.zeros(yl, dtype=dtype)
     # x padding to be used in adjoint operation
-    xz = jnp.zeros(tm + yl -m)
+    xz = jnp.zeros(tm + yl -m, dtype=dtype)
     # initial value of y for trans operation
-    ya = jnp.zeros(tn * n_blocks)
+    ya = jnp.zeros(tn * n_blocks, dtype=dtype)
 
     def times1d(x):
         def body_func(i, y):            
@@ -80,4 +80,5 @@ def windowed_op(m, T, overlap=0, axis=0):
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
 
-    return Operator(times=times, trans=trans, shape=(m,n), real=real)
+    return Operator(times=times, trans=trans, shape=(m,n), real=real,
+        linear=T.linear, jit_safe=T.jit_safe)
-- 
2.43.0


From ab02ea5c9ed68c0b6f251046c6816d6b489a7e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 10/66] fix: vector-only operators were flagged matrix_safe

---
 src/cr/sparse/_src/lop/basic.py    | 2 +-
 src/cr/sparse/_src/lop/calculus.py | 4 ++--
 src/cr/sparse/_src/lop/dot.py      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index 3aa4534..5cd0b85 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -51,7 +51,7 @@ def real_matrix(A):
     def trans(x):
         assert x.ndim == 1
         return x @ A
-    return Operator(times=times, trans=trans, shape=(m,n))
+    return Operator(times=times, trans=trans, shape=(m,n), matrix_safe=False)
 
 def matrix(A, axis=0):
     """Converts a matrix into a linear operator
diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index 9995491..0150170 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -66,12 +66,12 @@ def first_derivative(n, dx=1., kind='centered'):
         trans = partial(_derivative_centered_adj, dx=dx)
     else:
         raise NotImplementedError()
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), matrix_safe=False)
 
 
 def second_derivative(n, dx=1.):
     filter = jnp.array([1., -2., 1.]) / dx / dx
     times = lambda x : jnp.pad(jnp.convolve(x, filter, 'valid'), (1,1))
     trans = lambda x : jnp.convolve(x[1:-1], filter, 'full')
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), matrix_safe=False)
 
diff --git a/src/cr/sparse/_src/lop/dot.py b/src/cr/sparse/_src/lop/dot.py
index 144f1c6..5da4c23 100644
--- a/src/cr/sparse/_src/lop/dot.py
+++ b/src/cr/sparse/_src/lop/dot.py
@@ -61,4 +61,4 @@ def dot(v, adjoint=False, axis=0):
         m,n = n, m
         times, trans = trans, times
 
-    return Operator(times=times, trans=trans, shape=(m, n))
+    return Operator(times=times, trans=trans, shape=(m, n), matrix_safe=False)
-- 
2.43.0


From 9b4eb99fb11be36a04e2dbc19377e3c93b5f9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 11/66] fix: binary_dict_alg declared a transposed shape

---
 src/cr/sparse/_src/lop/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/random.py b/src/cr/sparse/_src/lop/random.py
index 63410a5..a223224 100644
--- a/src/cr/sparse/_src/lop/random.py
+++ b/src/cr/sparse/_src/lop/random.py
@@ -176,4 +176,4 @@ def binary_dict_alg(key, m, n=None, axis=0):
         return x
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,m), real=False)
+    return Operator(times=times, trans=trans, shape=(m,n), real=False)
-- 
2.43.0


From fd081651d433d042e62e438c2debbe6289212edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 12/66] fix: dwt2D padded and cropped the leading axes instead
 of the requested ones

---
 src/cr/sparse/_src/lop/dwt.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/dwt.py b/src/cr/sparse/_src/lop/dwt.py
index 5527537..1b20876 100644
--- a/src/cr/sparse/_src/lop/dwt.py
+++ b/src/cr/sparse/_src/lop/dwt.py
@@ -206,7 +206,9 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     hh = wt.next_pow_of_2(h)
     ww = wt.next_pow_of_2(w)
-    pad = ((0, hh-h), (0, ww-w))
+    pad = [(0, 0)] * len(shape)
+    pad[axes[0]] = (0, hh-h)
+    pad[axes[1]] = (0, ww-w)
 
     out_shape = list(shape)
     out_shape[axes[0]] = hh
@@ -219,7 +221,7 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     def trans(coefs):
         x = waverec2(coefs, rec_lo, rec_hi, level, axes)
-        return x[:h, :w]
+        return x[tuple(slice(0, s) for s in shape)]
 
     if basis:
         # Return the wavelet basis
-- 
2.43.0


From a9c5c1dcc92e1544d01f3dfb1a8b7f9283e0defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 13/66] fix: apply_columns referred to an undefined index set

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 7d3dfad..e54acfe 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -107,7 +107,7 @@ class Operator(NamedTuple):
         """Computes Y = T^H X  where y = T^H x for each column in X"""
         return jax.vmap(self.trans, (1), (1))(Y)
 
-    def apply_columns(self, x):
+    def apply_columns(self, x, I):
         """Computes y = T_I x where I is an index set selecting  a subset of columns of T"""
         xr = jnp.zeros(x.shape, x.dtype)
         xr = xr.at[I].set(x[I])
-- 
2.43.0


From 46a75aee58e0ff5c4d1feae6d29f38fe45b221b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:16 +0000
Subject: [PATCH 14/66] fix: real dot tests accepted any mismatch when the
 inner products were negative

---
 src/cr/sparse/_src/lop/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 68438f0..3a09cc0 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -62,7 +62,7 @@ def dot_test_real(key, A, tol=1e-6):
     x = A.trans(v)
     yy = jnp.vdot(y, v)
     xx = jnp.vdot(u, x)
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / jnp.abs((yy + xx + 1e-15) / 2)
     return rel_gap < tol 
 
 
@@ -96,7 +96,7 @@ def rdot_test_complex(key, A, tol=1e-6):
     yy = cnb.arr_rdot(y, v)
     xx = cnb.arr_rdot(u, x)
 
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / jnp.abs((yy + xx + 1e-15) / 2)
     return rel_gap < tol 
 
 
-- 
2.43.0


From 9e8a9aea9084422920daf0c3f379c34b38c99ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 15/66] fix: to_matrix did not flatten array outputs of
 operators with vector input

---
 src/cr/sparse/_src/lop/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 3a09cc0..28d35f0 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -25,7 +25,7 @@ def to_matrix(A):
         raise Exception("This operator is not linear.")
     I = jnp.eye(n)
     times = A.times
-    if A.input_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         times = lambda x: A.times(jnp.reshape(x, A.input_shape)).flatten()
     return jax.vmap(times, (1), (1))(I)
 
@@ -36,7 +36,7 @@ def to_adjoint_matrix(A):
     m = A.output_size
     I = jnp.eye(m)
     trans =  A.trans
-    if A.output_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         trans = lambda x: A.trans(jnp.reshape(x, A.output_shape)).flatten()
     return jax.vmap(trans, (1), (1))(I)
 
-- 
2.43.0


From 05990195a65a37c7aed55da39c9d462bd3a10944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:53 +0000
Subject: [PATCH 16/66] fix: power of an operator failed on real input of
 complex operators and on non-jit-safe ones

---
 src/cr/sparse/_src/lop/lop.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index e54acfe..7e800b5 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -263,16 +263,9 @@ def transpose(A):
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real, linear=A.linear)
 
 def apply_n(func, n, x):
-    init = (x, 0)
-    def body(state):
-        x, c = state
-        return func(x), c+1
-    def cond(state):
-        return state[1] < n
-    state = jax.lax.while_loop(cond, body, init)
-    return state[0]
-
-apply_n =  jax.jit(apply_n, static_argnums=(0, 1))
+    for _ in range(n):
+        x = func(x)
+    return x
 
 def power(A, p):
     """Returns the linear operator :math:`T = A^p`"""
-- 
2.43.0


From 06c85d8ff3639ef98937b870da2df70aeb8ae1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:53 +0000
Subject: [PATCH 17/66] fix: windowed_op of a real operator dropped the
 imaginary part of its input

---
 src/cr/sparse/_src/lop/windowed_op.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index db5b29b..b6b997c 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -66,7 +66,8 @@ def windowed_op(m, T, overlap=0, axis=0):
             xw = x[i*tn + n_range]
             idx = i * offset + m_range
             return y.at[idx].add(T.times(xw))
-        y = lax.fori_loop(0, n_blocks, body_func, yf)
+        y = yf.astype(jnp.result_type(yf, x))
+        y = lax.fori_loop(0, n_blocks, body_func, y)
         return y[:m]
 
 
@@ -76,7 +77,8 @@ def windowed_op(m, T, overlap=0, axis=0):
         def body_func(i, y):
             xw = x[i * offset + m_range]
             return y.at[i*tn + n_range].set(T.trans(xw))
-        return lax.fori_loop(0, n_blocks, body_func, ya)
+        y = ya.astype(jnp.result_type(ya, x))
+        return lax.fori_loop(0, n_blocks, body_func, y)
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
 
-- 
2.43.0


From 5a5014bff7335dc55b248300ccf3ee112abacb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:20 +0000
Subject: [PATCH 18/66] fix: tv2D has a complex matrix but was flagged real

---
 src/cr/sparse/_src/lop/tv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/tv.py b/src/cr/sparse/_src/lop/tv.py
index cfd720a..c34281e 100644
--- a/src/cr/sparse/_src/lop/tv.py
+++ b/src/cr/sparse/_src/lop/tv.py
@@ -133,4 +133,4 @@ def tv2D(shape, kind='regular'):
         # combine them to complex output
         return Dh + Dv * 1j
 
-    return Operator(times=times, trans=trans, shape=(shape,shape))
+    return Operator(times=times, trans=trans, shape=(shape,shape), real=False)
-- 
2.43.0


From 07a278f262cc887fd8e160c985e9c55c343e5c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:17 +0000
Subject: [PATCH 19/66] fix: matching pursuit reported the initial residual
 norm and never met its tolerance

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index cd53360..c133720 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -119,7 +119,7 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
@@ -195,7 +195,7 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
-- 
2.43.0


From f6dac2967425a3545660d8b4ad4a7c64637316af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:17 +0000
Subject: [PATCH 20/66] fix: CoSaMP paired sorted indices with unsorted values
 in its first iteration

---
 src/cr/sparse/_src/pursuit/cosamp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 38fbe52..376e7d6 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -59,7 +59,7 @@ def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
@@ -171,7 +171,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
-- 
2.43.0


From 5fee0e5b5e6f93c44eece2f2870151ac0accd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:17 +0000
Subject: [PATCH 21/66] fix: OMP failed or misreported the residual when it
 took a single iteration

---
 src/cr/sparse/_src/pursuit/omp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index aeb35f9..8c8e97b 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -94,7 +94,7 @@ def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
         r = y - Phi_I @ x_I
         # norm squared of new residual
         norm_r_new_sqr = r.T @ r
-    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=k+1, length=Phi.shape[1])
+    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=K, length=Phi.shape[1])
 
 
 
@@ -166,7 +166,7 @@ def _operator_step(times, trans, y, p, zv, state):
     # updated residual after first iteration
     r = y - Phi_I @ x_I
     # norm squared of new residual
-    norm_r_new_sqr = r.T @ r
+    norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
 
     return OMPState(x_I=x_I, I=I, Phi_I=Phi_I, r=r, L=L, 
         r_norm_sqr=norm_r_new_sqr, iterations=k + 1)
@@ -226,11 +226,11 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
         L = jnp.ones((1,1))
         # Initial coefficient
         x0 = p[i]
-        x_I = x0
+        x_I = p[I]
         # updated residual after first iteration
         r = y - x0 * phi_0
         # norm squared of new residual
-        norm_r_new_sqr = jnp.abs(jnp.vdot(y, y))
+        norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
         return OMPState(x_I=x_I, I=I, r=r, 
             Phi_I=Phi_I, L=L, 
             r_norm_sqr=norm_r_new_sqr, iterations=1)
-- 
2.43.0


From 24d827c00117bc110f8b530068f4190f0dc00ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:49 +0000
Subject: [PATCH 22/66] fix: OMP over complex operators refitted with an
 unconjugated Cholesky factor

---
 src/cr/sparse/_src/pursuit/omp.py  | 4 ++--
 src/cr/sparse/_src/pursuit/util.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index 8c8e97b..a00f23c 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -19,7 +19,7 @@ from jax import vmap, jit, lax
 
 import cr.nimble as crn
 from .util import abs_max_idx, gram_chol_update
-from cr.nimble import solve_spd_chol
+from cr.nimble import solve_spd_chol, solve_Lx_b, solve_LTx_b
 from .defs import RecoverySolution
 
 def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
@@ -162,7 +162,7 @@ def _operator_step(times, trans, y, p, zv, state):
     # sub-vector of proxy corresponding to selected indices
     p_I = p[I]
     # sub-vector of representation coefficients estimated so far
-    x_I = solve_spd_chol(L, p_I)
+    x_I = solve_LTx_b(jnp.conjugate(L), solve_Lx_b(L, p_I))
     # updated residual after first iteration
     r = y - Phi_I @ x_I
     # norm squared of new residual
diff --git a/src/cr/sparse/_src/pursuit/util.py b/src/cr/sparse/_src/pursuit/util.py
index 8448a34..137cfd6 100644
--- a/src/cr/sparse/_src/pursuit/util.py
+++ b/src/cr/sparse/_src/pursuit/util.py
@@ -28,13 +28,13 @@ def largest_indices(h, K):
 
 
 def gram_chol_update(L, v):
-    r"""Incrementally updates the Cholesky factorization :math:`G = L L^T` where :math:`G = \Phi^T \Phi`
+    r"""Incrementally updates the Cholesky factorization :math:`G = L L^H` where :math:`G = \Phi^H \Phi`
     """
     m, n = L.shape
     z = jnp.zeros((m, 1))
     w = solve_Lx_b(L, v)
-    s = jnp.sqrt(1  - w.T @ w)
+    s = jnp.sqrt(1  - jnp.abs(jnp.vdot(w, w)))
     L0 = jnp.hstack((L, z))
-    L1 = jnp.hstack((w.T, s))
+    L1 = jnp.hstack((jnp.conjugate(w.T), s))
     L = jnp.vstack((L0, L1))
     return L
-- 
2.43.0


From c5ea4d88e2fe39dfc3a3623818d3b56b1611cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 23/66] fix: normalized IHT and HTP returned NaN when the
 gradient vanished on the support

---
 src/cr/sparse/_src/pursuit/htp.py | 8 ++++++--
 src/cr/sparse/_src/pursuit/iht.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/htp.py b/src/cr/sparse/_src/pursuit/htp.py
index 4daba3b..02525eb 100644
--- a/src/cr/sparse/_src/pursuit/htp.py
+++ b/src/cr/sparse/_src/pursuit/htp.py
@@ -50,7 +50,9 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         Phi_I = Phi[:, I]
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_sqr = Ah.T @ Ah
+        # unit step if the gradient vanishes on the support
+        mu = jnp.where(Ah_sqr > 0, h_I.T @ h_I / jnp.where(Ah_sqr > 0, Ah_sqr, 1.), 1.)
         return mu
 
     def get_step_size(h, I):
@@ -157,7 +159,9 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         Phi_I = Phi.columns(I)
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_sqr = Ah.T @ Ah
+        # unit step if the gradient vanishes on the support
+        mu = jnp.where(Ah_sqr > 0, h_I.T @ h_I / jnp.where(Ah_sqr > 0, Ah_sqr, 1.), 1.)
         return mu
 
     def get_step_size(h, I):
diff --git a/src/cr/sparse/_src/pursuit/iht.py b/src/cr/sparse/_src/pursuit/iht.py
index 7d515bd..706ca7c 100644
--- a/src/cr/sparse/_src/pursuit/iht.py
+++ b/src/cr/sparse/_src/pursuit/iht.py
@@ -47,7 +47,9 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         Phi_I = Phi[:, I]
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_sqr = Ah.T @ Ah
+        # unit step if the gradient vanishes on the support
+        mu = jnp.where(Ah_sqr > 0, h_I.T @ h_I / jnp.where(Ah_sqr > 0, Ah_sqr, 1.), 1.)
         return mu
 
     def get_step_size(h, I):
@@ -142,7 +144,9 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         Phi_I = Phi.columns(I)
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_sqr = Ah.T @ Ah
+        # unit step if the gradient vanishes on the support
+        mu = jnp.where(Ah_sqr > 0, h_I.T @ h_I / jnp.where(Ah_sqr > 0, Ah_sqr, 1.), 1.)
         return mu
 
     def get_step_size(h, I):
-- 
2.43.0


From dd42a84c0bb9535501a8866debfad751c6767756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 24/66] fix: Moreau envelope value ignored the smoothing
 parameter

---
 src/cr/sparse/_src/opt/prox_to_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/prox_to_smooth.py b/src/cr/sparse/_src/opt/prox_to_smooth.py
index 110eaa1..2cd73d3 100644
--- a/src/cr/sparse/_src/opt/prox_to_smooth.py
+++ b/src/cr/sparse/_src/opt/prox_to_smooth.py
@@ -26,7 +26,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def func(x):
         px, pv = f.prox_vec_val(x, mu)
-        return pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        return pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
 
 
     @jit
@@ -36,7 +36,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def grad_val(x):
         px, pv = f.prox_vec_val(x, mu)
-        v = pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        v = pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
         g = (1/mu) * (x - px)
         return g, v
 
-- 
2.43.0


From f2031243cd0892b5dd444a203f7051c86fc2a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 25/66] fix: l1 prox returned NaN for a zero weight at a zero
 entry

---
 src/cr/sparse/_src/opt/proximal_ops/lpnorms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py b/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
index 6246eae..490886c 100644
--- a/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
+++ b/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
@@ -73,7 +73,9 @@ def prox_l1(q=1.):
         x = cnb.promote_arg_dtypes(x)
         tq = t * q
         # shrinkage coefficients
-        s  = 1 - jnp.minimum( tq/jnp.abs(x), 1 )
+        x_mag = jnp.abs(x)
+        large = x_mag > tq
+        s  = jnp.where(large, 1 - tq/jnp.where(large, x_mag, 1), 0)
         # shrink x
         return x * s
 
-- 
2.43.0


From c3eaa91f56136590118c238759ce8f1c850d8e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 26/66] fix: proximal_ops.build_from_ind_proj exported the
 wrong builder

---
 src/cr/sparse/opt/proximal_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/opt/proximal_ops.py b/src/cr/sparse/opt/proximal_ops.py
index 1606fa3..3c1ea61 100644
--- a/src/cr/sparse/opt/proximal_ops.py
+++ b/src/cr/sparse/opt/proximal_ops.py
@@ -23,7 +23,7 @@ from cr.sparse._src.opt.proximal_ops.prox import (
 )
 
 from cr.sparse._src.opt.proximal_ops.prox import build as prox_build
-from cr.sparse._src.opt.proximal_ops.prox import build as build_from_ind_proj
+from cr.sparse._src.opt.proximal_ops.prox import build_from_ind_proj
 
 from cr.sparse._src.opt.proximal_ops.basic import (
     prox_zero
-- 
2.43.0


From 83733931b56a1a1bd2dd761aee55834377fda83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 27/66] fix: half thresholding returned NaN for zero entries at
 a zero threshold

---
 src/cr/sparse/_src/geo/thresholding.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/geo/thresholding.py b/src/cr/sparse/_src/geo/thresholding.py
index 514880e..26477f5 100644
--- a/src/cr/sparse/_src/geo/thresholding.py
+++ b/src/cr/sparse/_src/geo/thresholding.py
@@ -53,9 +53,12 @@ def half_threshold(x, tau):
     """
     x = promote_arg_dtypes(x)
     gamma = (54 ** (1. / 3.) / 4.) * tau ** (2. / 3.)
-    nonzero = jnp.abs(x) >= gamma
+    x_mag = jnp.abs(x)
+    # a zero entry stays zero even if the threshold is zero
+    nonzero = (x_mag >= gamma) & (x_mag > 0)
     # the arc-cos term Eq 10 from paper
-    phi = 2. / 3. * jnp.arccos((tau / 8.) * (jnp.abs(x) / 3.) ** (-1.5))
+    ratio = jnp.where(nonzero, x_mag, 3.) / 3.
+    phi = 2. / 3. * jnp.arccos(jnp.where(nonzero, (tau / 8.) * ratio ** (-1.5), 0.))
     # the half thresholded values for terms above gamma Eq 10
     x = 2./3. * x * (1 + jnp.cos(2. * jnp.pi / 3. - phi))
     # combine zero and non-zero terms
-- 
2.43.0


From 594639c8acd646b9c3cb5c1ed6b363ad74c58f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 28/66] fix: best_map mislabelled clusters when the label
 counts differ

---
 src/cr/sparse/_src/cluster/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/util.py b/src/cr/sparse/_src/cluster/util.py
index bc08b1c..7713cd7 100644
--- a/src/cr/sparse/_src/cluster/util.py
+++ b/src/cr/sparse/_src/cluster/util.py
@@ -85,9 +85,13 @@ def best_map(true_labels, pred_labels):
     # Run the Hungarian assignment algorithm
     rows, cols = linear_sum_assignment(-G)
     mapped_labels = jnp.zeros_like(pred_labels)
-    for i in range(n_l2):
+    for i in range(n_labels):
+        if cols[i] >= n_l2:
+            # a true label with no predicted counterpart
+            continue
         old_label = labels_2[cols[i]]
-        new_label = labels_1[i]
+        # predicted labels in excess of true labels get labels of their own
+        new_label = labels_1[i] if i < n_l1 else labels_1[-1] + (i - n_l1 + 1)
         mapped_labels = mapped_labels.at[pred_labels == old_label].set(new_label)
     return mapped_labels, cols, G 
 
-- 
2.43.0


From d92254b9a4dab2853926ffdd2f1a2a6412b770c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 29/66] fix: matching pursuit told trackers that every
 iteration is the last

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index c133720..1701227 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -123,12 +123,12 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
@@ -199,12 +199,12 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
-- 
2.43.0


From 65af3ba8f361c01eda020fee67ae4c8f77bc5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 30/66] fix: RecoveryPerformance could not use solutions in
 full vector form

---
 src/cr/sparse/_src/tools/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/performance.py b/src/cr/sparse/_src/tools/performance.py
index b487146..f7d590d 100644
--- a/src/cr/sparse/_src/tools/performance.py
+++ b/src/cr/sparse/_src/tools/performance.py
@@ -77,7 +77,7 @@ class RecoveryPerformance:
         # Shape of the dictionary/sensing matrix
         M, N = Phi.shape
         if sol is not None:
-            if 'x' in sol:
+            if hasattr(sol, 'x'):
                 x_hat = sol.x
             else:
                 x_hat = build_signal_from_indices_and_values(N, sol.I, sol.x_I) 
-- 
2.43.0


From 42a2680799dbeea3f907b2f33275f256acf926e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 31/66] fix: recovery trials reused signals and failed for a
 single trial

---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 50e3a20..d3d223b 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -143,7 +143,7 @@ class RecoveryTrialsAtFixed_M_N:
                 print('*', end='', flush=True)
                 # Construct a dictionary
                 Phi = crdict.gaussian_mtx(dict_key, M,N)
-                signal_keys = jax.random.split(dict_key, num_dict_trials)
+                signal_keys = jax.random.split(dict_key, num_signal_trials)
                 for nst in range(num_signal_trials):
                     signal_key = signal_keys[nst]
                     # Construct a signal
@@ -172,7 +172,7 @@ class RecoveryTrialsAtFixed_M_N:
             success_rate = successes / trials
             iters = np.array(iters)
             runtime=end_time-start_time # in seconds
-            mean_runtime=runtime * 1000 / (trials - 1) # in milli seconds
+            mean_runtime=runtime * 1000 / max(trials - 1, 1) # in milli seconds
             # summarized information
             row = Row(m=M, n=N, k=K, method=name, 
                 trials=trials, successes=successes, 
-- 
2.43.0


From 92b40eee226381aa62512223f4da5699db90085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 32/66] fix: angles between antipodal points could be NaN, a
 point its own neighbor

---
 src/cr/sparse/_src/cluster/ssc/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/util.py b/src/cr/sparse/_src/cluster/ssc/util.py
index 298fa9a..b80ce38 100644
--- a/src/cr/sparse/_src/cluster/ssc/util.py
+++ b/src/cr/sparse/_src/cluster/ssc/util.py
@@ -95,7 +95,7 @@ def angles_between_points(X):
     # Compute gram matrix
     G = X.T @ X
     # Avoid overflow in gram matrix
-    G = jnp.minimum(G, 1)
+    G = jnp.clip(G, -1, 1)
     return jnp.rad2deg(jnp.arccos(G))
 
 
@@ -171,6 +171,8 @@ def nearest_neighbors_outside_cluster(angles, cluster_sizes):
 def sorted_neighbors(angles):
     """Returns the neighbor indices sorted by angle between points
     """
+    # make sure that each point comes first in its own list
+    angles = cnb.set_diagonal(angles, -1)
     # sort the angle row-wise (along the column axis)
     indices = jnp.argsort(angles)
     # drop the first column
-- 
2.43.0


From 36f256924fcbccbb00f4e61f2aa2a1f784ae9fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:41 +0000
Subject: [PATCH 33/66] fix: OMP self-expressive representation could select
 the point itself

---
 src/cr/sparse/_src/cluster/ssc/omp.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/omp.py b/src/cr/sparse/_src/cluster/ssc/omp.py
index b248709..2ff30d2 100644
--- a/src/cr/sparse/_src/cluster/ssc/omp.py
+++ b/src/cr/sparse/_src/cluster/ssc/omp.py
@@ -38,10 +38,10 @@ def build_representation_omp(X, K):
     # The proxy representation
     P = Dict.T @ R
     # First correlation of residual with signal
-    # Set the diagonal to zero
-    H = cnb.set_diagonal(P, 0)
+    # Exclude each point from its own representation
+    H = cnb.set_diagonal(jnp.abs(P), -1)
     # Index of best match
-    indices = cnb.abs_max_idx_cw(H)
+    indices = jnp.argmax(H, axis=0)
     # Initialize the array of selected indices
     # with current indices as the first row
     I = indices[jnp.newaxis, :]
@@ -49,9 +49,9 @@ def build_representation_omp(X, K):
     # conduct OMP iterations
     for k in range(1, K):
         # compute the correlations
-        H = cnb.set_diagonal(Dict.T @ R, 0)
+        H = cnb.set_diagonal(jnp.abs(Dict.T @ R), -1)
         # Index of best match
-        indices = cnb.abs_max_idx_cw(H)
+        indices = jnp.argmax(H, axis=0)
         # Update the set of indices
         I = jnp.vstack((I, indices))
         # Solve over these indices
@@ -90,7 +90,7 @@ def batch_build_representation_omp(X, K, batch_size):
         end = ends[batch]
         # number of signals in the batch
         n2 = end - start
-        # rows for setting the self inner product to 0.
+        # rows for excluding the self inner product
         r = rr + start
         # Let's restrict our attention to this batch only
         X_batch = Xn[:, start:end]
@@ -100,10 +100,10 @@ def batch_build_representation_omp(X, K, batch_size):
         # The proxy representation
         P = Dict.T @ R
         # First correlation of residual with signal
-        # Set the diagonal to zero
-        H = P.at[(r, c)].set(0)
+        # Exclude each point from its own representation
+        H = jnp.abs(P).at[(r, c)].set(-1)
         # Index of best match
-        indices = cnb.abs_max_idx_cw(H)
+        indices = jnp.argmax(H, axis=0)
         # Initialize the array of selected indices
         # with current indices as the first row
         I_res = I_res.at[0, start:end].set(indices)
@@ -111,11 +111,11 @@ def batch_build_representation_omp(X, K, batch_size):
         # conduct OMP iterations
         for k in range(1, K):
             # compute the correlations
-            H = Dict.T @ R
-            # Set the diagonal to zero
-            H = H.at[(r, c)].set(0)
+            H = jnp.abs(Dict.T @ R)
+            # Exclude each point from its own representation
+            H = H.at[(r, c)].set(-1)
             # Index of best match
-            indices = cnb.abs_max_idx_cw(H)
+            indices = jnp.argmax(H, axis=0)
             # Update the set of indices
             I_res = I_res.at[k, start:end].set(indices)
             # Solve over these indices
-- 
2.43.0


From b3b840ce73a410a7d336dab178b520bd593f8d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:35 +0000
Subject: [PATCH 34/66] fix: renormalized fixed point iteration ascended its
 cost and never relaxed the shrinkage

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index d0bd816..063810e 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -79,10 +79,11 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
     """Solver fo 1-bit compressive sensing with renormalized fixed points iteration
     algorithm     
     """
-    tau = delta / lambda_
-    print(f'shrinkage threshold: {tau}')
 
     def rfpi_inner(x0, lambda_):
+        tau = delta / lambda_
+        print(f'shrinkage threshold: {tau}')
+
         def init_fun():
             return RFPState(x=x0, x_prev=jnp.zeros_like(x0), iterations=0)
 
@@ -93,7 +94,7 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
             # see which bits have same sign, which bits have different sign
             correlation = y * measurement
             # Only the bits which are wrong are important for further consideration
-            problems = jnp.where(correlation <= 0, -correlation, 0)
+            problems = jnp.where(correlation <= 0, correlation, 0)
             print(f'number of wrong signs: {jnp.sum(correlation < 0)}, {jnp.sum(problems)}')
             # multiply with the bit vector Y^T (f'(term))
             problems = y * problems
-- 
2.43.0


From 7ccdcf78d5d8f5efd7b2595c9e1a680666a26c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:36 +0000
Subject: [PATCH 35/66] fix: Lanczos bidiagonalization reorthogonalized left
 vectors against the wrong set and failed at breakdown

reorth_p computed the indices to reorthogonalize against but used the previous set,
and stored the updated mu as nu. Breakdown was tested against the double precision
eps in single precision, and the vector drawn to continue was NaN (or noise) when the
range of the operator was exhausted.
---
 src/cr/sparse/_src/sls/svdpack/lanbpro.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lanbpro.py b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
index 9c98014..311c8aa 100644
--- a/src/cr/sparse/_src/sls/svdpack/lanbpro.py
+++ b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
@@ -84,7 +84,7 @@ def lanbpro_init(A, k, p0, options: LanBDOptions):
     p_norm = norm(p)
     p, p_norm, p_proj = do_elr(u, p, p_norm, options.gamma)
     # Check for convergence or failure to maintain semiorthogonality
-    semiorth_cond = p_norm < max(m, n) * anorm * eps
+    semiorth_cond = p_norm < max(m, n) * anorm * jnp.finfo(p.dtype).eps
     p, p_norm, b_force_reorth, indices = lax.cond(semiorth_cond, 
         # compute a new random p vector orthogonal to previous U
         lambda _ : (new_p_vec(A, U, 1, gamma)[0], 0., True, indices.at[0].set(True)),
@@ -237,7 +237,7 @@ def lanbpro_iteration(A, state: LanBProState, options: LanBDOptions):
     )
     # Check for convergence or failure to maintain semiorthogonality
     # this is the case where r is in the column space of previous V vectors
-    semiorth_cond = r_norm < max(m, n) * anorm * eps
+    semiorth_cond = r_norm < max(m, n) * anorm * jnp.finfo(r.dtype).eps
     r, r_norm, b_force_reorth, indices = lax.cond(semiorth_cond, 
         # compute a new random r vector orthogonal to previous V
         lambda _ : (new_r_vec(A, V, j, gamma)[0], 0., True, j_mask),
@@ -302,20 +302,20 @@ def lanbpro_iteration(A, state: LanBProState, options: LanBDOptions):
             None
         )
         # carry out reorthogonalization
-        p2, p2_norm, iters = reorth_mgs(U, p, p_norm, indices, gamma)
+        p2, p2_norm, iters = reorth_mgs(U, p, p_norm, reorth_indices, gamma)
         # reset mu in the entries which have been reorthogonalized
         mu2 = jnp.where(reorth_indices, M2*eps, mu)
         # if a reorthogonalization was forced. it won't be for next iteration
         b_force_reorth2 = jnp.logical_not(b_force_reorth)
         return p2, p2_norm, reorth_indices, mu2, b_force_reorth2
     # reorthogonalize p if required
-    p, p_norm, indices, nu, b_force_reorth = lax.cond(reorth_cond,
+    p, p_norm, indices, mu, b_force_reorth = lax.cond(reorth_cond,
         reorth_p,
-        lambda _ : (p, p_norm, indices, nu, b_force_reorth),
+        lambda _ : (p, p_norm, indices, mu, b_force_reorth),
         None
     )
     # Check for convergence or failure to maintain semiorthogonality
-    semiorth_cond = p_norm < max(m, n) * anorm * eps
+    semiorth_cond = p_norm < max(m, n) * anorm * jnp.finfo(p.dtype).eps
     p, p_norm, b_force_reorth, indices = lax.cond(semiorth_cond, 
         # compute a new random p vector orthogonal to previous U
         lambda _ : (new_p_vec(A, U, j+1, gamma)[0], 0., True, jp1_mask),
@@ -370,8 +370,7 @@ def new_p_vec(A, U, j,  gamma):
     j_mask =  idx < j
 
     def p_vec(i):
-        p = random.uniform(KEYS[i], (n,))
-        p = A.times(p)
+        p = random.uniform(KEYS[i], (m,)) - 0.5
         p_norm = norm(p)
         p, p_norm, iters = reorth_mgs(U, p, p_norm, j_mask, gamma)
         return p, p_norm
@@ -392,7 +391,7 @@ def new_p_vec(A, U, j,  gamma):
 
     state = lax.while_loop(cond, body, init())
     p, p_norm, i = state
-    return p / p_norm, i
+    return cnb.vec_safe_divide_by_scalar(p, p_norm), i
 
 new_p_vec_jit = jit(new_p_vec, static_argnums=(0,))
 
@@ -405,8 +404,7 @@ def new_r_vec(A, V, j,  gamma):
     j_mask =  idx < j
 
     def r_vec(i):
-        r = random.uniform(KEYS[i], (m,))
-        r = A.trans(r)
+        r = random.uniform(KEYS[i], (n,)) - 0.5
         r_norm = norm(r)
         r, r_norm, iters = reorth_mgs(V, r, r_norm, j_mask, gamma)
         return r, r_norm
@@ -427,6 +425,6 @@ def new_r_vec(A, V, j,  gamma):
 
     state = lax.while_loop(cond, body, init())
     r, r_norm, i = state
-    return r / r_norm, i
+    return cnb.vec_safe_divide_by_scalar(r, r_norm), i
 
 new_r_vec_jit = jit(new_r_vec, static_argnums=(0,))
\ No newline at end of file
-- 
2.43.0


From 24d4c891c0fcc28638b36448a81999c2acde495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:36 +0000
Subject: [PATCH 36/66] fix: lansvd_simple dropped a component of the left
 vectors and counted everything as converged

The bidiagonal matrix has j+1 rows: left Ritz vectors have a component along the next
left Lanczos vector. Convergence is bnd <= tol * sigma; bounds use the residual norm
(zero at breakdown), not the norm of the vector drawn to continue.
---
 src/cr/sparse/_src/sls/svdpack/lansvd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lansvd.py b/src/cr/sparse/_src/sls/svdpack/lansvd.py
index 0500329..db29441 100644
--- a/src/cr/sparse/_src/sls/svdpack/lansvd.py
+++ b/src/cr/sparse/_src/sls/svdpack/lansvd.py
@@ -44,7 +44,7 @@ def lansvd_simple(A, k, p0):
     lanmax = min (lanmax, max(20, k*4))
     assert k <= lanmax, "k must be less than lanmax"
 
-    eps = jnp.finfo(float).eps
+    eps = jnp.finfo(p0.dtype).eps
     tol = 16*eps
     n_converged = 0
     # number of iterations for LanBPro algorithm
@@ -56,7 +56,7 @@ def lansvd_simple(A, k, p0):
         lambda i, state: lanbpro_iteration(A, state, options),
         state)
     # norm of the residual 
-    res_norm = norm(state.p)
+    res_norm = state.beta[j]
     # compute SVD of the bidiagonal matrix ritz values and vectors
     P, S, Qh, bot = bdsqr(state.alpha, state.beta, j)
     # estimate of A norm 
@@ -66,7 +66,7 @@ def lansvd_simple(A, k, p0):
     # now refine the bounds
     bnd = refine_bounds(S**2, bnd, n*eps*anorm)
     # count the number of converged singular values
-    converged = jnp.less(bnd, jnp.abs(S))
+    converged = jnp.less_equal(bnd, tol * jnp.abs(S))
     # make sure that all indices beyond min(j,k) are marked as non-converged
     converged = converged.at[min(j,k):].set(False)
     # find the index of first non-converged singular value
@@ -77,7 +77,9 @@ def lansvd_simple(A, k, p0):
     # keep only the first k ritz vectors
     P = P[:, :k]
     Q = Qh.T[:, :k]
-    U = state.U[:, :j] @ P[:j, :]
+    # the ritz vectors have a component along the next left Lanczos vector too
+    u = jnp.where(res_norm > 0, cnb.vec_safe_divide_by_scalar(state.p, res_norm), 0)
+    U = state.U[:, :j] @ P[:j, :] + jnp.outer(u, P[j, :])
     V = state.V[:, :j] @ Q
     return U, S[:k], V, bnd, n_converged, state
 
-- 
2.43.0


From adb84944f20483286938460af42647ff35f19122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:36 +0000
Subject: [PATCH 37/66] fix: norm of the zero operator was estimated as NaN

---
 src/cr/sparse/_src/lop/normest.py | 2 +-
 src/cr/sparse/_src/sls/power.py   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/normest.py b/src/cr/sparse/_src/lop/normest.py
index 49045dc..f7076b2 100644
--- a/src/cr/sparse/_src/lop/normest.py
+++ b/src/cr/sparse/_src/lop/normest.py
@@ -84,7 +84,7 @@ def normest(
         v = state.v
         # normalize
         v_norm = cnb.arr_l2norm(v)
-        v = v / v_norm
+        v = v / jnp.where(v_norm > 0, v_norm, 1)
         # compute the next vector
         v_new = operator.times(v)
         v_new = operator.trans(v_new)
diff --git a/src/cr/sparse/_src/sls/power.py b/src/cr/sparse/_src/sls/power.py
index 9ac4436..1c83862 100644
--- a/src/cr/sparse/_src/sls/power.py
+++ b/src/cr/sparse/_src/sls/power.py
@@ -86,7 +86,7 @@ def power_iterations(
         v = state.v
         # normalize
         v_norm = arr_l2norm(v)
-        v = v / v_norm
+        v = v / jnp.where(v_norm > 0, v_norm, 1)
         # compute the next vector
         v_new = operator.times(v)
         # estimate the eigen value
@@ -98,7 +98,8 @@ def power_iterations(
     # We have converged
     v  = state.v
     # normalize the eigen vector again
-    v = v / arr_l2norm(v)
+    v_norm = arr_l2norm(v)
+    v = v / jnp.where(v_norm > 0, v_norm, 1)
     return PowerIterSolution(v = v, s=state.new_estimate, iterations=state.iterations)
 
 power_iterations_jit = jit(power_iterations, static_argnums=(0, 2, 3))
-- 
2.43.0


From 7a9d3caabc14c3c59d9ed08eb86d9f9bfea48d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:47 +0000
Subject: [PATCH 38/66] fix: Gram and frame matrices of complex dictionaries
 lost their imaginary part

The coherence and babel function of a complex dictionary were those of the real parts of the inner products.
---
 src/cr/sparse/_src/dict/props.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/dict/props.py b/src/cr/sparse/_src/dict/props.py
index 02e6207..7d6e799 100644
--- a/src/cr/sparse/_src/dict/props.py
+++ b/src/cr/sparse/_src/dict/props.py
@@ -22,16 +22,14 @@ def gram(A):
     """
     if jnp.isrealobj(A):
         return A.T @ A
-    G = mat_hermitian(A) @ A
-    return G.real
+    return mat_hermitian(A) @ A
 
 def frame(A):
     """Computes the frame matrix :math:`G = A A^T`
     """
     if jnp.isrealobj(A):
         return A @ A.T
-    F = A @ mat_hermitian(A)
-    return F.real
+    return A @ mat_hermitian(A)
 
 
 def coherence_with_index(A):
-- 
2.43.0


From cb7e1f2d7371057563bcda4784547639a4b6cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:46 +0000
Subject: [PATCH 39/66] fix: Grassmannian frame lost symmetry of its Gram
 matrix and unit norm of its atoms

---
 src/cr/sparse/_src/dict/grass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/grass.py b/src/cr/sparse/_src/dict/grass.py
index 689e91f..a05c666 100644
--- a/src/cr/sparse/_src/dict/grass.py
+++ b/src/cr/sparse/_src/dict/grass.py
@@ -95,7 +95,7 @@ def build_grassmannian_frame(init,
         # Ensure that the diagonal elements of G continue to be 1
         d = jnp.diag(g)
         d2 = 1. / jnp.sqrt(d)
-        g = d2 * g * d2
+        g = d2[:, None] * g * d2
         return g
 
     # run the alternate projections
-- 
2.43.0


From e3b1b5e20a357e534aa35ab7590cc2bb3196a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:46 +0000
Subject: [PATCH 40/66] fix: matching atoms of complex dictionaries were
 compared without conjugation

---
 src/cr/sparse/_src/dict/comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/comparison.py b/src/cr/sparse/_src/dict/comparison.py
index b4ba514..faa6ad0 100644
--- a/src/cr/sparse/_src/dict/comparison.py
+++ b/src/cr/sparse/_src/dict/comparison.py
@@ -21,7 +21,7 @@ def matching_atoms_ratio(A, B, distance_threshold=0.01):
     # number of atoms
     n_atoms = A.shape[1]
     # inner products betweeen atoms of A and B
-    similarities = jnp.abs(A.T @ B)
+    similarities = jnp.abs(jnp.conj(A.T) @ B)
     # find the best match from each row 
     max_similarities = jnp.max(similarities, axis=1)
     # angular distance between best match
-- 
2.43.0


From f70df94282698b2e752d71404db8a98eccd67521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:09 +0000
Subject: [PATCH 41/66] fix: rounding split symmetric Gram entries across the
 thresholds of the Grassmannian frame iteration

---
 src/cr/sparse/_src/dict/grass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cr/sparse/_src/dict/grass.py b/src/cr/sparse/_src/dict/grass.py
index a05c666..7942010 100644
--- a/src/cr/sparse/_src/dict/grass.py
+++ b/src/cr/sparse/_src/dict/grass.py
@@ -96,6 +96,8 @@ def build_grassmannian_frame(init,
         d = jnp.diag(g)
         d2 = 1. / jnp.sqrt(d)
         g = d2[:, None] * g * d2
+        # keep symmetric entries equal so that they stay on the same side of the thresholds
+        g = (g + g.T) / 2
         return g
 
     # run the alternate projections
-- 
2.43.0


From 1f92af28364a8a5af7a911c47e3b417ca9fd4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:05 +0000
Subject: [PATCH 42/66] fix: three subspaces at angle zero were NaN

---
 src/cr/sparse/_src/data/synthetic/subspaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/data/synthetic/subspaces.py b/src/cr/sparse/_src/data/synthetic/subspaces.py
index cad5fc0..0b0e7ed 100644
--- a/src/cr/sparse/_src/data/synthetic/subspaces.py
+++ b/src/cr/sparse/_src/data/synthetic/subspaces.py
@@ -186,7 +186,8 @@ def three_subspaces_at_angle(key, N, D, theta):
     b1 = s1 * a2 + c1 * a1
     # first vector for third space
     c1_1 = p
-    c1_2 = p * (1 - p) / jnp.sqrt(1 - p**2)
+    # p * (1 - p) / sqrt(1 - p^2), also defined when theta is 0
+    c1_2 = p * jnp.tan(theta / 2)
     c1_3 = jnp.sqrt(1 - c1_1**2 - c1_2**2)
     c1 = c1_1 * a1 + c1_2 * a2 + c1_3 * a3
     # put these vectors together
-- 
2.43.0


From 6a352f0ba33d9601de4723bfe1c6d6eacd43e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:06 +0000
Subject: [PATCH 43/66] fix: points orthogonal to a complex point were not
 orthogonal

---
 src/cr/sparse/_src/data/synthetic/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/data/synthetic/random.py b/src/cr/sparse/_src/data/synthetic/random.py
index ad6fea6..f0fbda4 100644
--- a/src/cr/sparse/_src/data/synthetic/random.py
+++ b/src/cr/sparse/_src/data/synthetic/random.py
@@ -174,7 +174,7 @@ def points_orthogonal_to(key, x, S):
     # shape for the output array
     shape = (S,) + x.shape
     points = random.normal(key, shape)
-    correlations = points  @ x
+    correlations = points  @ jnp.conj(x)
     projections = correlations[:, jnp.newaxis]  * x[jnp.newaxis, :]
     return points - projections
 
-- 
2.43.0


From e4e670a0631e9bce57f13b82947626899191ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:08 +0000
Subject: [PATCH 44/66] fix: spectral projected gradient never used its
 quadratic interpolation step

---
 src/cr/sparse/_src/opt/spg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/spg.py b/src/cr/sparse/_src/opt/spg.py
index 3191e96..b587c1b 100644
--- a/src/cr/sparse/_src/opt/spg.py
+++ b/src/cr/sparse/_src/opt/spg.py
@@ -120,7 +120,8 @@ def line_search(func, x, d, f_max, f_last, gamma, delta):
     def next_func(state):
         alpha = state.alpha
         denom = state.f_val - f_last - alpha * delta
-        alpha_tmp = - 0.5 * (alpha**2) / denom
+        # minimizer of the quadratic through both values and the slope
+        alpha_tmp = - 0.5 * (alpha**2) * delta / denom
         alpha = lax.cond(
             jnp.logical_and(
                 alpha_tmp >= SIGMA_1,
-- 
2.43.0


From 48ce66f7112201a68bf68b30a69052cdfa5992a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:08 +0000
Subject: [PATCH 45/66] fix: first step of spectral projected gradient could
 increase the function

---
 src/cr/sparse/_src/opt/spg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/opt/spg.py b/src/cr/sparse/_src/opt/spg.py
index b587c1b..e983d40 100644
--- a/src/cr/sparse/_src/opt/spg.py
+++ b/src/cr/sparse/_src/opt/spg.py
@@ -161,16 +161,19 @@ def solve_from(smooth_f: SmoothFunction,
         d = proj(x - g) - x
         delta = jnp.dot(g, d)
 
-        f_prev = f
         g_prev = g
         x_prev = x
 
         t1 = jnp.sum(jnp.abs(g))
         t = jnp.minimum(1, 1.0 / t1)
 
-        x = x + t * d
-        g, f  = smooth_f.grad_val(x)
+        # the first step has to decrease the function too
+        lsearch = line_search(smooth_f.func,
+            x, t * d, f, f, gamma, t * delta)
+        x = lsearch.x_new
+        g = smooth_f.grad(x)
         f_past = jnp.full(options.memory, f)
+        f_past = crn.cbuf_push_left(f_past, lsearch.f_val)
 
         return SPGState(x=x, g=g,
             x_prev=x_prev, g_prev=g_prev, 
@@ -178,7 +181,7 @@ def solve_from(smooth_f: SmoothFunction,
             delta=delta,
             iterations=1,
             proj_calls=1,
-            f_calls=2, g_calls=2)
+            f_calls=lsearch.f_calls+1, g_calls=2)
 
     def step(state):
         x = state.x
-- 
2.43.0


From 7d8dcd8cd4164cce1293137268cebc40aeaa909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:08 +0000
Subject: [PATCH 46/66] fix: solve_from_jit of spectral projected gradient
 failed when given options

---
 src/cr/sparse/_src/opt/spg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/spg.py b/src/cr/sparse/_src/opt/spg.py
index e983d40..749e2c3 100644
--- a/src/cr/sparse/_src/opt/spg.py
+++ b/src/cr/sparse/_src/opt/spg.py
@@ -235,4 +235,4 @@ def solve_from(smooth_f: SmoothFunction,
     return state
 
 
-solve_from_jit = jit(solve_from, static_argnums=(0,1))
\ No newline at end of file
+solve_from_jit = jit(solve_from, static_argnums=(0,1,3))
\ No newline at end of file
-- 
2.43.0


From b76bf5ee944de32b31ea748184feeb7e7834167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:59 +0000
Subject: [PATCH 47/66] fix: BSBL second moments used the inner product of
 block means

---
 src/cr/sparse/_src/block/bsbl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index bf794d2..da987be 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -166,7 +166,7 @@ def compute_sigma_x_pruned(Phi, Sigma0, H, active_blocks):
 
 def compute_cov_x(Sigma_x, mu_x):
     Cov_x = vmap(
-        lambda sx, mx: sx + mx @ mx.T,
+        lambda sx, mx: sx + jnp.outer(mx, mx),
         in_axes=(0,0))(Sigma_x, mu_x)
     return Cov_x
 
-- 
2.43.0


From 8d33e034e728d6bb4d9f348bc124b4c684d1e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:59 +0000
Subject: [PATCH 48/66] fix: BSBL high SNR noise update counted blocks instead
 of coefficients and failed on pruned blocks

---
 src/cr/sparse/_src/block/bsbl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index da987be..36e901e 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -204,12 +204,14 @@ def compute_B_B_inv(B0):
 
 # This rule doesn't seem to work in noiseless case
 def update_lambda_high_snr(lambda_val, gammas, Sigma_x, B_inv, r_norm_sqr, m):
-    n_blocks = len(gammas)
+    blk_size = B_inv.shape[0]
+    # pruned blocks have no variance and don't count
+    n_active = jnp.sum(jnp.any(Sigma_x != 0, axis=(1, 2)))
     ll = vmap(
-        lambda g, sx: jnp.trace(sx @ B_inv) / g,
+        lambda g, sx: jnp.trace(sx @ B_inv) / jnp.where(g > 0, g, 1.),
         in_axes=(0, 0))(gammas, Sigma_x)
     lambda_comp = jnp.sum(ll)
-    carry = lambda_val * (n_blocks - lambda_comp)
+    carry = lambda_val * (n_active * blk_size - lambda_comp)
     new_lambda_val = (r_norm_sqr + carry) / m
     # print(f'old:{lambda_val:.2e}, new:{new_lambda_val:.2e}, comp: {lambda_comp:.2e}, carry: {carry:.2e}, r_norm_sqr: {r_norm_sqr:.2e}')
     return new_lambda_val
-- 
2.43.0


From f2628c12c326bec194b82fa9ee4fb128abc46a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:59 +0000
Subject: [PATCH 49/66] fix: BSBL learned intra block correlation when told to
 ignore it

---
 src/cr/sparse/_src/block/bsbl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index 36e901e..d489286 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -187,13 +187,15 @@ def compute_cov_x_sum_pruned(Cov_x, gammas, active_blocks):
         in_axes=(0, 0, 0))(Cov_x, gammas, active_blocks)
     return jnp.sum(B_i, axis=0)
 
-def compute_B_B_inv(B0):
+def compute_B_B_inv(B0, learn_block_corr=1):
     m0 = jnp.mean(jnp.diag(B0))
     m1 = jnp.mean(jnp.diag(B0, 1))
     # AR-1 coefficient
     r = m1 / m0
     # make sure that it is bounded
     r = jnp.clip(r, -0.99, 0.99)
+    # no correlation if it is to be ignored
+    r = jnp.where(learn_block_corr, r, 0.)
     # print(f'r: {r}')
     # block size
     b = B0.shape[0]
@@ -549,7 +551,7 @@ def bsbl_em(Phi, y, blk_len,
         Sigma_x, _ = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -677,7 +679,7 @@ def bsbl_bo(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -800,7 +802,7 @@ def bsbl_bo_np(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x(Phi, state.Sigma0, H)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum(Cov_x, state.gammas)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
-- 
2.43.0


From 318c1d297173c5a459ca352d20b885b9aec74be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:44 +0000
Subject: [PATCH 50/66] fix: BSBL bound optimisation became NaN on blocks of
 zero weight or unobserved blocks

---
 src/cr/sparse/_src/block/bsbl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index d489286..f90abf6 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -173,7 +173,7 @@ def compute_cov_x(Sigma_x, mu_x):
 
 def compute_cov_x_sum(Cov_x, gammas):
     B_i = vmap(
-        lambda cx, g: cx / g,
+        lambda cx, g: cx / jnp.where(g > 0, g, 1.),
         in_axes=(0, 0))(Cov_x, gammas)
     return jnp.sum(B_i, axis=0)
 
@@ -276,7 +276,8 @@ def update_gammas_bo(old_gammas, B, Hy, HPhi):
     def mapper(g, hy, hphi):
         numer = norm(B_root @ hy)
         denom = jnp.sqrt(jnp.trace(hphi @ B))
-        result =  g * numer / denom
+        # a block which cannot be observed gets no weight
+        result =  g * numer / jnp.where(denom > 0, denom, 1.)
         return result
 
     gammas = vmap(mapper, in_axes=(0, 0, 0))(old_gammas, Hy, HPhi)
@@ -290,7 +291,8 @@ def update_gammas_bo_pruned(old_gammas, B, Hy, HPhi, active_blocks):
     def mapper(g, hy, hphi):
         numer = norm(B_root @ hy)
         denom = jnp.sqrt(jnp.trace(hphi @ B))
-        result =  g * numer / denom
+        # a block which cannot be observed gets no weight
+        result =  g * numer / jnp.where(denom > 0, denom, 1.)
         return result
 
     gammas = vmap(
-- 
2.43.0


From ed2af1fc9ecd2dda7521c55c91537c1651580f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:44 +0000
Subject: [PATCH 51/66] fix: BSBL prior covariance and noise variance became
 NaN when all blocks were pruned

---
 src/cr/sparse/_src/block/bsbl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index f90abf6..a90aa44 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -190,8 +190,8 @@ def compute_cov_x_sum_pruned(Cov_x, gammas, active_blocks):
 def compute_B_B_inv(B0, learn_block_corr=1):
     m0 = jnp.mean(jnp.diag(B0))
     m1 = jnp.mean(jnp.diag(B0, 1))
-    # AR-1 coefficient
-    r = m1 / m0
+    # AR-1 coefficient [zero when all blocks have been pruned]
+    r = m1 / jnp.where(m0 > 0, m0, 1.)
     # make sure that it is bounded
     r = jnp.clip(r, -0.99, 0.99)
     # no correlation if it is to be ignored
-- 
2.43.0


From 24028f9f7cfdc1fb09ac2f6fd44d69394ed8e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:44 +0000
Subject: [PATCH 52/66] fix: first order method reported the gradient and
 nonsmooth value of its initial point

---
 src/cr/sparse/_src/fom/fom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cr/sparse/_src/fom/fom.py b/src/cr/sparse/_src/fom/fom.py
index bf559fc..56a6898 100644
--- a/src/cr/sparse/_src/fom/fom.py
+++ b/src/cr/sparse/_src/fom/fom.py
@@ -181,4 +181,6 @@ def fom(smooth_f, prox_h, A, b, x0, options: FomOptions = FomOptions()):
     # while outer_cond_func(state):
     #     state = body_func(state)
     #     print(state.at_str)
+    # gradient and nonsmooth value which are not needed by the iterations
+    state = state._replace(g_x=A.trans(state.g_Ax), C_x=prox_h.func(state.x))
     return state
-- 
2.43.0


From 6fcffaf30b49b310494122d90bdabe5dc799a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:23 +0000
Subject: [PATCH 53/66] fix: matrix_affine_func could not be built

---
 src/cr/sparse/_src/fom/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/fom/util.py b/src/cr/sparse/_src/fom/util.py
index b39a7bd..177c5ec 100644
--- a/src/cr/sparse/_src/fom/util.py
+++ b/src/cr/sparse/_src/fom/util.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from functools import partial
+
 from jax import jit
 
 import jax.numpy as jnp
@@ -53,7 +55,7 @@ def matrix_affine_func(A=None, b=None):
     ax_plus_b = identity
     if A is None:
         # We assume that A is identity
-        ax_plus_b  = translate
+        ax_plus_b  = identity if b is None else translate
     elif b is None:
         # we compute y = A @ x
         ax_plus_b = similar
@@ -62,12 +64,12 @@ def matrix_affine_func(A=None, b=None):
         ax_plus_b = affine
 
 
-    @partial(jit, static_argnums=(2,))
+    @partial(jit, static_argnums=(1,))
     def operator(x, mode=0):
         if mode == 0:
-            return A @ x
+            return x if A is None else A @ x
         if mode == 1:
-            return AH_v(A, x)
+            return x if A is None else AH_v(A, x)
         if mode == 2:
             return ax_plus_b(x)
 
-- 
2.43.0


From 7eea1f17f8ac5d7a4fde480fdba15c3417f460d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:54 +0000
Subject: [PATCH 54/66] fix: FOCUSS turned into NaN once the solution was
 sparser than the number of measurements

---
 src/cr/sparse/_src/cvx/focuss.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/focuss.py b/src/cr/sparse/_src/cvx/focuss.py
index 33851a6..9be947d 100644
--- a/src/cr/sparse/_src/cvx/focuss.py
+++ b/src/cr/sparse/_src/cvx/focuss.py
@@ -32,11 +32,8 @@ def step_noiseless(Phi, y, x, p=1.):
         - :ref:`gallery:focuss:1`
     """
     xp = jnp.abs(x) ** p
-    xp2 = xp * xp
-    A = crn.diag_premultiply(xp2, Phi.T)
-    G = Phi @ A 
-    x = A @ jnp.linalg.solve(G, y)
-    return x
+    # minimum norm solution of the reweighted (possibly rank deficient) system
+    return xp * jnp.linalg.lstsq(Phi * xp, y)[0]
 
 class FocussState(NamedTuple):
     """State of iterative reweighted least squares algorithm
@@ -114,11 +111,7 @@ def matrix_solve_noiseless(Phi, y, p=1., max_iters=20):
             iterations=0)
 
     def body_func(state):
-        xp = jnp.abs(state.x) ** p
-        xp2 = xp * xp
-        A = crn.diag_premultiply(xp2, Phi.T)
-        G = Phi @ A 
-        x = A @ jnp.linalg.solve(G, y)
+        x = step_noiseless(Phi, y, state.x, p)
         r = y - Phi @ x
         r_norm_sqr = r.T @ r
         return FocussState(x=x, r=r, 
-- 
2.43.0


From 7aa175f2add60a12c010c120d6080b9390efda92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:47 +0000
Subject: [PATCH 55/66] fix: YALL1 returned zero for penalized problems whose
 weights are below one

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index f9d70c0..a10ef3b 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -491,9 +491,13 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     n = Atb.shape[0]
     b_max  = float(norm(b, ord=jnp.inf))
     atb_max = float(norm(Atb, ord=jnp.inf))
+    w = jnp.ones(n)
+    if weights is not None:
+        # make sure that the final weights are an array of size n
+        w = w * weights
     zero_solution = False
     if rho > 0:
-        zero_solution = atb_max <= rho
+        zero_solution = jnp.all(jnp.abs(Atb) <= rho * w)
     if delta > 0:
         zero_solution = norm(b) <= delta
     if zero_solution:
@@ -507,11 +511,6 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     if z0 is None:
         z0 = jnp.zeros(n)
 
-    w = jnp.ones(n)
-    if weights is not None:
-        # make sure that the final weights are an array of size n
-        w = w * weights
-
     # scale data and model parameters
     b = b / b_max
     if rho > 0: rho = rho / b_max
-- 
2.43.0


From f4e8bd95da9d2c12ab1265f503b1a329f186e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:08 +0000
Subject: [PATCH 56/66] fix: YALL1 reported the residual of the unclipped
 solution of nonnegative problems

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index a10ef3b..dcb1df0 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -536,11 +536,17 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
         else:
             # It's a basis pursuit problem
             state = solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters)
-    x = jnp.where(nonneg, jnp.maximum(0, state.x), state.x)
+    x = state.x
+    r = state.rp
+    if nonneg:
+        x = jnp.maximum(0, x)
+        # residual of the clipped solution
+        r = b - A.times(x)
+        n_times += 1
     if W:
         # go back from sparsifying basis to signal space
         x = W.times(x)
-    return RecoveryFullSolution(x=b_max*x, r=b_max*state.rp, 
+    return RecoveryFullSolution(x=b_max*x, r=b_max*r, 
         iterations=state.iterations,
         n_times=state.n_times+n_times, 
         n_trans=state.n_trans+n_trans)
-- 
2.43.0


From cce6b70f21e89ad90c51ac987b972722d4dd3cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:08 +0000
Subject: [PATCH 57/66] fix: L1-LS did not count the adjoint applied for the
 dual feasible point

---
 src/cr/sparse/_src/cvx/l1ls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 468ea4c..30eedf6 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -329,6 +329,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         #--------------------------------------------------------------------------------
         # update nu (eq 11)
         nu = get_nu(z)
+        n_trans += 1
         #--------------------------------------------------------------------------------
         # Duality gap calculation TNIPM step 5
         #--------------------------------------------------------------------------------
-- 
2.43.0


From f620252bd62de95793aab6ae1b3817f3f7bed91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:08 +0000
Subject: [PATCH 58/66] fix: L1-LS stopped at its starting point when the dual
 objective was negative

---
 src/cr/sparse/_src/cvx/l1ls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 30eedf6..9517774 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -167,7 +167,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # initial value of the dual objective
         dual_obj = get_dual_obj(nu)
         gap = primal_obj - dual_obj
-        rel_gap = gap / dual_obj
+        rel_gap = gap / jnp.abs(dual_obj)
         dxu = jnp.zeros(2*n)
         return State(x=x0, u=u0, z=z, nu=nu, dxu=dxu,
             primal_obj=primal_obj, dual_obj=dual_obj, gap=gap, rel_gap=rel_gap, 
@@ -340,7 +340,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # duality gap
         gap = primal_obj - dual_obj
         # relative gap
-        rel_gap = gap / state.dual_obj
+        rel_gap = gap / jnp.abs(dual_obj)
         #--------------------------------------------------------------------------------
         # update t if required TNIPM step 7
         #--------------------------------------------------------------------------------
-- 
2.43.0


From dceb4b54c6fa77603c411bab05b8e3c39789087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:08 +0000
Subject: [PATCH 59/66] fix: SPGL1 miscounted the applications of the operator
 and of its adjoint

---
 src/cr/sparse/_src/cvx/spgl1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index a32d406..89a662e 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -384,7 +384,7 @@ def solve_lasso_from(A,
             alpha=lsearch.alpha,
             alpha_next=alpha_next,
             iterations=state.iterations+1,
-            n_times=n_times, n_trans=n_times, 
+            n_times=n_times, n_trans=n_trans, 
             n_ls_iters=state.n_ls_iters + lsearch.n_iters)
 
     def cond_func(state):
@@ -605,7 +605,7 @@ def solve_bpic_from(A,
             r_res_error=r_res_error, r_f_error=r_f_error,
             alpha=alpha,
             alpha_next=alpha,
-            iterations=1, n_times=2, n_trans=2,
+            iterations=1, n_times=1, n_trans=1,
             n_newton=1, n_ls_iters=0)
 
     #@jit
-- 
2.43.0


From 921c2d4016be6cd9d3d7b4723069de97d47cb03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:08 +0000
Subject: [PATCH 60/66] fix: SPGL1 lasso could not be solved for complex
 operators

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 89a662e..7cad0f3 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -412,7 +412,7 @@ def solve_lasso(A,
     """Solves the LASSO problem using SPGL1 algorithm
     """
     m, n = A.shape
-    x0 = jnp.zeros(n)
+    x0 = jnp.zeros(n, dtype=jnp.result_type(b, float if A.real else complex))
     return solve_lasso_from(A, b, tau, x0, options=options, tracker=tracker)
 
 solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "tracker"))
-- 
2.43.0


From b87ba06aeeeace9cbad84a02f25a7760e73fb801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 61/66] fix: SPGL1 BPIC could not be solved for complex
 operators and real measurements

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 7cad0f3..2c8521c 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -720,7 +720,7 @@ def solve_bpic(A,
     """Solves the BPIC problem using SPGL1 algorithm
     """
     m, n = A.shape
-    x0 = jnp.zeros(n, dtype=b.dtype)
+    x0 = jnp.zeros(n, dtype=jnp.result_type(b, float if A.real else complex))
     return solve_bpic_from(A, b, sigma, x0, options=options, tracker=tracker)
 
 solve_bpic_jit = jit(solve_bpic, static_argnames=("A", "options", "tracker"))
-- 
2.43.0


From 4ffc5e90157123d9ef47bc232740b4779a67fc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:47 +0000
Subject: [PATCH 62/66] fix: SPGL1 BPIC reported the metrics of the solution
 before it reduced tau

---
 src/cr/sparse/_src/cvx/spgl1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 2c8521c..c3bee09 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -655,6 +655,11 @@ def solve_bpic_from(A,
             lambda _: update_xrgf(A, b, x, tau),
             lambda _: (x, r, g, f),
             None)
+        # the metrics should describe the updated solution
+        r_norm, r_gap, r_res_error, r_f_error = lax.cond(tau_reduced,
+            lambda _: bpic_metrics(b, x, g, r, f, sigma, tau)[1:],
+            lambda _: (r_norm, r_gap, r_res_error, r_f_error),
+            None)
         n_times, n_trans = n_times + tau_reduced, n_trans + tau_reduced
         n_newton = state.n_newton + change_tau
         # update past objective values with the new objective value
-- 
2.43.0


From 8d04ee02c4ade7270d20bf48a35a356cac58b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:51 +0000
Subject: [PATCH 63/66] fix: YALL1 stopped as soon as an iterate was zero

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index dcb1df0..8886e7e 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -163,7 +163,8 @@ def solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters):
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-        x_unstable = x_relative_change > tolerance * (1 - q)
+        # (undefined for a zero solution, which doesn't stop the iterations)
+        x_unstable = jnp.logical_not(x_relative_change <= tolerance * (1 - q))
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
@@ -296,7 +297,9 @@ def solve_l1_l2(A, b, x0, z0, w, nonneg, rho, gamma, tolerance, max_iters):
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-        condition = jnp.logical_and(condition, x_relative_change > tolerance * (1 - q))
+        # (undefined for a zero solution, which doesn't stop the iterations)
+        x_unstable = jnp.logical_not(x_relative_change <= tolerance * (1 - q))
+        condition = jnp.logical_and(condition, x_unstable)
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
@@ -419,7 +422,8 @@ def solve_l1_l2con(A, b, x0, z0, w, nonneg, delta, gamma, tolerance, max_iters):
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-        x_unstable = x_relative_change > tolerance
+        # (undefined for a zero solution, which doesn't stop the iterations)
+        x_unstable = jnp.logical_not(x_relative_change <= tolerance)
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
-- 
2.43.0


From 7f0f7adc791c050b7dd6474da424c3a67303926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:37 +0000
Subject: [PATCH 64/66] fix: compiled SPGL1 lasso did not accept options

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index c3bee09..7693eaf 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -415,7 +415,7 @@ def solve_lasso(A,
     x0 = jnp.zeros(n, dtype=jnp.result_type(b, float if A.real else complex))
     return solve_lasso_from(A, b, tau, x0, options=options, tracker=tracker)
 
-solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "tracker"))
+solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "options", "tracker"))
 
 
 def analyze_lasso_state(A, b, tau, options, state, x0):
-- 
2.43.0


From 9034ddb7d0b739618e5582d4dfc5d81808c28b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:37 +0000
Subject: [PATCH 65/66] fix: compiled L1-LS did not accept a starting point

---
 src/cr/sparse/_src/cvx/l1ls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 9517774..422f668 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -381,4 +381,4 @@ def solve(A, y, lambda_, x0=None, u0=None, tol=1e-3, xi=1e-3, t0=None,
     return solve_from(A, y, lambda_, x0, u0, tol, xi, t0, max_iters, pcg_max_iters)
 
 solve_jit  = jit(solve,
-    static_argnames=("A", "x0", "u0", "tol", "xi", "t0", "max_iters", "pcg_max_iters"))
+    static_argnames=("A", "tol", "xi", "t0", "max_iters", "pcg_max_iters"))
-- 
2.43.0


From f0e836d32874b4d990c6edac5f06228165990d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:42 +0000
Subject: [PATCH 66/66] fix: kernel_gaussian scaled its exponent by 2/sigma^2
 instead of 1/(2 sigma^2)

---
 src/cr/sparse/_src/vision/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/vision/kernels.py b/src/cr/sparse/_src/vision/kernels.py
index 6d57bcf..8187bae 100644
--- a/src/cr/sparse/_src/vision/kernels.py
+++ b/src/cr/sparse/_src/vision/kernels.py
@@ -73,8 +73,8 @@ def kernel_gaussian(size=5, sigma=1.):
     # form a mesh grid of 2 D points
     xx, yy = jnp.meshgrid(ax_x, ax_y)
     # Compute the kernel values at the specified points in the grid
-    factor_x = 2 / sigma_x ** 2
-    factor_y = 2 / sigma_y ** 2
+    factor_x = 1 / (2 * sigma_x ** 2)
+    factor_y = 1 / (2 * sigma_y ** 2)
     kernel = jnp.exp(-(jnp.square(xx) * factor_x + jnp.square(yy) * factor_y))
     # normalize the kernel and return
     return kernel / jnp.sum(kernel)
\ No newline at end of file
-- 
2.43.0

