From d0b4cd83795ad6ade2009ca3200fbc0b354f22dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:42 +0000
Subject: [PATCH 01/45] fix: adjoint of the centered first derivative scales by
 dx and keeps complex values

---
 src/cr/sparse/_src/lop/calculus.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index eae78ae..265ab0e 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -45,9 +45,10 @@ def _derivative_centered(x, dx):
     return jnp.pad(diffs, (1,1))
 
 def _derivative_centered_adj(x, dx):
-    y = jnp.zeros(x.shape)
-    y = y.at[0:-2].add(-0.5*x[1:-1])
-    y = y.at[2:].add(0.5*x[1:-1])
+    z = 0.5 * x[1:-1] / dx
+    y = jnp.zeros(x.shape, dtype=z.dtype)
+    y = y.at[0:-2].add(-z)
+    y = y.at[2:].add(z)
     return y
 
 
-- 
2.43.0


From 09b42f4181a3f59c48a2fa576c607180a8c0ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:42 +0000
Subject: [PATCH 02/45] fix: adjoint of convolveND/convolve2D conjugates
 complex filters

---
 src/cr/sparse/_src/lop/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index 2dd44bb..fb91068 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -138,7 +138,7 @@ def convolveND(shape, h, offset=None, axes=None):
     h_conv = h[tuple(slice(None, None, -1) for s in shape)]
     # extend it
     h_conv = h_conv[None, None]
-    h_corr = h[None, None]
+    h_corr = jnp.conjugate(h)[None, None]
 
     def times(x):
         """Forward N-D convolution
-- 
2.43.0


From b2dc700c98b7336c2b21f4936b5d49ee5846018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:02 +0000
Subject: [PATCH 03/45] fix: binary_dict_alg declares shape (m, n) and its
 adjoint keeps complex values

---
 src/cr/sparse/_src/lop/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/random.py b/src/cr/sparse/_src/lop/random.py
index 63410a5..2c6c136 100644
--- a/src/cr/sparse/_src/lop/random.py
+++ b/src/cr/sparse/_src/lop/random.py
@@ -169,11 +169,11 @@ def binary_dict_alg(key, m, n=None, axis=0):
         return y
 
     def trans(y):
-        x = jnp.zeros(n)
+        x = jnp.zeros(n, dtype=y.dtype)
         for i  in range(n):
             v = jax.random.bernoulli(keys[i], shape=(m,))
             x = x.at[i].set(v  @ y)
         return x
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,m), real=False)
+    return Operator(times=times, trans=trans, shape=(m,n), real=False)
-- 
2.43.0


From 3aaa967473f637ea14ca67040604378301532588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:02 +0000
Subject: [PATCH 04/45] fix: adjoint of lop.fft truncates along the transform
 axis

---
 src/cr/sparse/_src/lop/fft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/fft.py b/src/cr/sparse/_src/lop/fft.py
index c88d81e..773ca8e 100644
--- a/src/cr/sparse/_src/lop/fft.py
+++ b/src/cr/sparse/_src/lop/fft.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from jax import lax
 import jax.numpy as jnp
 import jax.numpy.fft as jfft
 
@@ -42,7 +43,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     elif mode == 'c2c':
         def times(x):
             w = jfft.fft(x, n, axis=axis)
@@ -51,7 +52,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     else: 
         raise ValueError(f"Unsupported mode {mode}")
 
-- 
2.43.0


From 6aaf52885941666d2e4f0e5dece59cdb53831980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:26 +0000
Subject: [PATCH 05/45] fix: compose keeps the jit_safe and matrix_safe flags
 of its operands

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 1b8a4dd..99766d7 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -370,7 +370,7 @@ def compose(A, B, ignore_compatibility=False, shape=None):
     trans = lambda x: B.trans(A.trans(x))
     if shape is None:
         shape = (ma, nb)
-    return Operator(times=times, trans=trans, shape=shape, real=real)
+    return Operator(times=times, trans=trans, shape=shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
 
 
 def hcat(A, B):
-- 
2.43.0


From 556e2bba61488cb2b8c7b5f65aa807ceb906147b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:26 +0000
Subject: [PATCH 06/45] fix: transpose of a complex operator conjugates,
 without transposing, a matrix of vectors

---
 src/cr/sparse/_src/lop/lop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 99766d7..20657e4 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -258,8 +258,8 @@ def transpose(A):
         times = A.trans
         trans = A.times
     else:
-        times = lambda x: _hermitian(A.trans(_hermitian(x)))
-        trans = lambda x: _hermitian(A.times(_hermitian(x)))
+        times = lambda x: jnp.conjugate(A.trans(jnp.conjugate(x)))
+        trans = lambda x: jnp.conjugate(A.times(jnp.conjugate(x)))
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
 
 def apply_n(func, n, x):
-- 
2.43.0


From dcc09910ec20b76b285c49a76a17cc6cb46824cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:26 +0000
Subject: [PATCH 07/45] fix: operators built from complex data are not declared
 real

---
 src/cr/sparse/_src/lop/basic.py   | 6 ++++--
 src/cr/sparse/_src/lop/conv.py    | 5 +++--
 src/cr/sparse/_src/lop/filters.py | 2 +-
 src/cr/sparse/_src/lop/lop.py     | 2 +-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index e15d2b6..9cb99a9 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -187,10 +187,11 @@ def diagonal(d, axis=0):
     """
     assert d.ndim == 1
     n = d.shape[0]
+    real = jnp.isrealobj(d)
     times = lambda x: d * x
     trans = lambda x: _hermitian(d) * x
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=real)
 
 
 def scalar_mult(alpha, n):
@@ -205,10 +206,11 @@ def scalar_mult(alpha, n):
     """
     alpha = jnp.asarray(alpha)
     alpha_c = jnp.conjugate(alpha)
+    real = jnp.isrealobj(alpha)
     assert alpha.ndim == 0, "alpha must be a scalar quantity"
     times = lambda x: alpha * x
     trans = lambda x: alpha_c * x
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=real)
 
 
 def zero(in_dim, out_dim=None, axis=0):
diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index fb91068..0ecbeac 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -37,6 +37,7 @@ def convolve(n, h, offset=0, axis=0):
     """
     assert n > 0
     m = len(h)
+    real = jnp.isrealobj(h)
     # The location of center of the filter response should be within it.
     assert offset >= 0
     assert offset < m
@@ -74,7 +75,7 @@ def convolve(n, h, offset=0, axis=0):
         return result[0, 0, 0, b_slice]
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=real)
 
 def convolve2D(shape, h, offset=None, axes=None):
     """Performs 2 dimensional convolution on the input array
@@ -164,4 +165,4 @@ def convolveND(shape, h, offset=None, axes=None):
         # pick the slices from other dimensions
         return result[a_slices]
 
-    return Operator(times=times, trans=trans, shape=(shape,shape))
+    return Operator(times=times, trans=trans, shape=(shape,shape), real=jnp.isrealobj(h))
diff --git a/src/cr/sparse/_src/lop/filters.py b/src/cr/sparse/_src/lop/filters.py
index a786919..28920ef 100644
--- a/src/cr/sparse/_src/lop/filters.py
+++ b/src/cr/sparse/_src/lop/filters.py
@@ -38,5 +38,5 @@ def fir_filter(n, h, axis=0):
     times1d = lambda x : jnp.convolve(x, h, 'same')
     trans1d = lambda x : jnp.convolve(x, h_conj, 'full')[start:start+n]
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 20657e4..719b542 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -217,7 +217,7 @@ def scale(A, alpha):
         (Operator): A linear operator T such that :math:`T x = \alpha A x` 
         and :math:`T^H x = \bar{\alpha} A^H x`
     """
-    real = A.real and not  isinstance(alpha, complex)
+    real = A.real and not jnp.iscomplexobj(alpha)
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-- 
2.43.0


From d77df1e11dacb7b39f7792cca75335532fae8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:37 +0000
Subject: [PATCH 08/45] fix: real dot tests compare the gap with the magnitude
 of the inner products

---
 src/cr/sparse/_src/lop/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 68438f0..c6e62e5 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -62,7 +62,7 @@ def dot_test_real(key, A, tol=1e-6):
     x = A.trans(v)
     yy = jnp.vdot(y, v)
     xx = jnp.vdot(u, x)
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy + xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
@@ -96,7 +96,7 @@ def rdot_test_complex(key, A, tol=1e-6):
     yy = cnb.arr_rdot(y, v)
     xx = cnb.arr_rdot(u, x)
 
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy + xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
-- 
2.43.0


From 1bfb1b9e3f88bed5db2ad749dc61b7e9df222c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:40 +0000
Subject: [PATCH 09/45] fix: adjoint of windowed_op keeps complex values

---
 src/cr/sparse/_src/lop/windowed_op.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index fc9652e..c60f3c5 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -57,9 +57,9 @@ def windowed_op(m, T, overlap=0, axis=0):
     # initial value of y for times operation
     yf = jnp.zeros(yl, dtype=dtype)
     # x padding to be used in adjoint operation
-    xz = jnp.zeros(tm + yl -m)
+    xz = jnp.zeros(tm + yl -m, dtype=dtype)
     # initial value of y for trans operation
-    ya = jnp.zeros(tn * n_blocks)
+    ya = jnp.zeros(tn * n_blocks, dtype=dtype)
 
     def times1d(x):
         def body_func(i, y):            
-- 
2.43.0


From f04cb15fe1e62b9dd02b71e3dd46596028336f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:40 +0000
Subject: [PATCH 10/45] fix: block_diag of complex operators is not declared
 real

---
 src/cr/sparse/_src/lop/block_diag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/block_diag.py b/src/cr/sparse/_src/lop/block_diag.py
index c98f8cb..9cbf57d 100644
--- a/src/cr/sparse/_src/lop/block_diag.py
+++ b/src/cr/sparse/_src/lop/block_diag.py
@@ -139,4 +139,5 @@ def block_diag(operators, axis=0):
         return jnp.concatenate(ys)
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(m_all,n_all))
+    real = all(op.real for op in operators)
+    return Operator(times=times, trans=trans, shape=(m_all,n_all), real=real)
-- 
2.43.0


From 205c730e0fbaa758196e49d12d5134abf4a8829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:37 +0000
Subject: [PATCH 11/45] fix: matching pursuit reports and tests the norm of its
 residual

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index cd53360..c133720 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -119,7 +119,7 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
@@ -195,7 +195,7 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
-- 
2.43.0


From 91b1f2cd45b5c968d324b96a475af16a3f98324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:37 +0000
Subject: [PATCH 12/45] fix: one iteration of OMP reports its residual norm,
 and one coefficient per index

---
 src/cr/sparse/_src/pursuit/omp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index aeb35f9..2b45be9 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -94,7 +94,7 @@ def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
         r = y - Phi_I @ x_I
         # norm squared of new residual
         norm_r_new_sqr = r.T @ r
-    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=k+1, length=Phi.shape[1])
+    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=K, length=Phi.shape[1])
 
 
 
@@ -226,11 +226,11 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
         L = jnp.ones((1,1))
         # Initial coefficient
         x0 = p[i]
-        x_I = x0
+        x_I = p[I]
         # updated residual after first iteration
         r = y - x0 * phi_0
         # norm squared of new residual
-        norm_r_new_sqr = jnp.abs(jnp.vdot(y, y))
+        norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
         return OMPState(x_I=x_I, I=I, r=r, 
             Phi_I=Phi_I, L=L, 
             r_norm_sqr=norm_r_new_sqr, iterations=1)
-- 
2.43.0


From 500fa42f87c0d2aaa470d1ec7aeb84a391cd0301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:37 +0000
Subject: [PATCH 13/45] fix: the first iteration of CoSaMP keeps indices and
 coefficients aligned

---
 src/cr/sparse/_src/pursuit/cosamp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 38fbe52..376e7d6 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -59,7 +59,7 @@ def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
@@ -171,7 +171,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
-- 
2.43.0


From c2fa59e6c7041a5b30d88e28d85bc0c1aa6e2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:55 +0000
Subject: [PATCH 14/45] fix: subspace pursuit and CoSaMP never select an atom
 twice

---
 src/cr/sparse/_src/pursuit/cosamp.py | 14 +++++---------
 src/cr/sparse/_src/pursuit/sp.py     | 13 +++++--------
 src/cr/sparse/_src/pursuit/util.py   |  6 ++++++
 3 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 376e7d6..918c0c2 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -20,7 +20,7 @@ from jax import vmap, jit, lax
 
 from .defs import RecoverySolution, CoSaMPState
 
-from .util import largest_indices
+from .util import largest_indices, largest_new_indices
 import cr.sparse as crs
 
 EXTRA_FACTOR = 2
@@ -81,10 +81,8 @@ def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
         I = state.I
         # compute the correlations of dictionary atoms with the residual
         h = Phi.T @ state.r
-        # Ignore the previously selected atoms
-        h = h.at[I].set(0)
-        # Pick largest 2K indices
-        I_2k = largest_indices(h, K2)
+        # Pick largest 2K indices ignoring the previously selected atoms
+        I_2k = largest_new_indices(h, I, K2)
         # Combine with previous K indices to form a set of 3K indices
         I_3k = jnp.hstack((I, I_2k))
         # Pick corresponding atoms to form the 3K wide subdictionary
@@ -193,10 +191,8 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         I = state.I
         # compute the correlations of dictionary atoms with the residual
         h = trans(state.r)
-        # Ignore the previously selected atoms
-        h = h.at[I].set(0)
-        # Pick largest 2K indices
-        I_2k = largest_indices(h, K2)
+        # Pick largest 2K indices ignoring the previously selected atoms
+        I_2k = largest_new_indices(h, I, K2)
         # Combine with previous K indices to form a set of 3K indices
         I_3k = jnp.hstack((I, I_2k))
         # Pick corresponding atoms to form the 3K wide subdictionary
diff --git a/src/cr/sparse/_src/pursuit/sp.py b/src/cr/sparse/_src/pursuit/sp.py
index 613306b..d4e4355 100644
--- a/src/cr/sparse/_src/pursuit/sp.py
+++ b/src/cr/sparse/_src/pursuit/sp.py
@@ -21,6 +21,7 @@ from jax import vmap, jit, lax
 from .defs import RecoverySolution, SPState
 
 from cr.nimble.dsp import largest_indices
+from .util import largest_new_indices
 import cr.sparse as crs
 
 
@@ -57,10 +58,8 @@ def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
     def body(state):
         # compute the correlations of dictionary atoms with the residual
         h = Phi.T @ state.r
-        # Ignore the previously selected atoms
-        h = h.at[state.I].set(0)
-        # Pick largest K indices
-        I_new = largest_indices(h, K)
+        # Pick largest K indices ignoring the previously selected atoms
+        I_new = largest_new_indices(h, state.I, K)
         # Combine with previous K indices to form a set of 2K indices
         I_2k = jnp.hstack((state.I, I_new))
         # Pick corresponding atoms to form the 2K wide subdictionary
@@ -157,10 +156,8 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         r_norm_sqr_prev = state.r_norm_sqr
         # compute the correlations of dictionary atoms with the residual
         h = trans(state.r)
-        # Ignore the previously selected atoms
-        h = h.at[state.I].set(0)
-        # Pick largest K indices
-        I_new = largest_indices(h, K)
+        # Pick largest K indices ignoring the previously selected atoms
+        I_new = largest_new_indices(h, state.I, K)
         # Combine with previous K indices to form a set of 2K indices
         I_2k = jnp.hstack((state.I, I_new))
         # Pick corresponding atoms to form the 2K wide subdictionary
diff --git a/src/cr/sparse/_src/pursuit/util.py b/src/cr/sparse/_src/pursuit/util.py
index 8448a34..a2cfb4b 100644
--- a/src/cr/sparse/_src/pursuit/util.py
+++ b/src/cr/sparse/_src/pursuit/util.py
@@ -26,6 +26,12 @@ def largest_indices(h, K):
     indices = jnp.argsort(jnp.abs(h))
     return indices[:-K-1:-1]
 
+def largest_new_indices(h, I, K):
+    """Returns the indices of the K entries with highest magnitude outside I
+    """
+    indices = jnp.argsort(jnp.abs(h).at[I].set(-1))
+    return indices[:-K-1:-1]
+
 
 def gram_chol_update(L, v):
     r"""Incrementally updates the Cholesky factorization :math:`G = L L^T` where :math:`G = \Phi^T \Phi`
-- 
2.43.0


From b7bd102db4bcd427a8da3a06a56343d735bdeb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:02 +0000
Subject: [PATCH 15/45] fix: FISTA reports the residual of its solution, not of
 the extrapolated point

---
 src/cr/sparse/_src/sls/fista.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/sls/fista.py b/src/cr/sparse/_src/sls/fista.py
index 0fd7e74..d754b28 100644
--- a/src/cr/sparse/_src/sls/fista.py
+++ b/src/cr/sparse/_src/sls/fista.py
@@ -31,7 +31,9 @@ class FISTAState(NamedTuple):
     z : jnp.ndarray
     """Current solution estimate"""
     r : jnp.ndarray
-    """Current residual"""
+    """Current residual b - A x"""
+    r_z : jnp.ndarray
+    """Residual b - A z at the extrapolated point"""
     t: float
     """FIST specific coefficient"""
     r_norm_sqr: jnp.ndarray
@@ -90,13 +92,13 @@ def fista(
         r = b - operator.times(x0)
         # compute the norm of the initial residual
         r_norm_sqr = arr_l2norm_sqr(r)
-        return FISTAState(x=x0, z=x0, r=r, t=1., r_norm_sqr=r_norm_sqr,
+        return FISTAState(x=x0, z=x0, r=r, r_z=r, t=1., r_norm_sqr=r_norm_sqr,
             x_change_norm=1e10, 
             iterations=0)
 
     def body(state):
         # compute the gradient step
-        grad = step_size * operator.trans(state.r)
+        grad = step_size * operator.trans(state.r_z)
         # update the solution
         x = state.z + grad
         # compute the representation of x in the sparsifying basis
@@ -108,14 +110,17 @@ def fista(
         # update t
         t = (1. + jnp.sqrt(1. + 4. * state.t ** 2)) / 2.
         # update z
-        z = x + ((state.t - 1.) / t) * (x - state.x)
+        momentum = (state.t - 1.) / t
+        z = x + momentum * (x - state.x)
         # update the residual
-        r = b - operator.times(z)
+        r = b - operator.times(x)
+        # residual at z follows by linearity
+        r_z = r + momentum * (r - state.r)
         # compute the norm of the current residual
         r_norm_sqr = arr_l2norm_sqr(r)
         # compute the norm of change in x
         x_change_norm = arr_l2norm(x - state.x)
-        return FISTAState(x=x, z=z, r=r, t=t, r_norm_sqr=r_norm_sqr, 
+        return FISTAState(x=x, z=z, r=r, r_z=r_z, t=t, r_norm_sqr=r_norm_sqr, 
             x_change_norm=x_change_norm, iterations=state.iterations+1)
 
     def cond(state):
-- 
2.43.0


From 1a094040bfcad2a6658795d06bfe715a05df2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:31 +0000
Subject: [PATCH 16/45] fix: Lanczos SVD includes the last left vector in the
 singular vectors

---
 src/cr/sparse/_src/sls/svdpack/lansvd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cr/sparse/_src/sls/svdpack/lansvd.py b/src/cr/sparse/_src/sls/svdpack/lansvd.py
index 0500329..bf76b29 100644
--- a/src/cr/sparse/_src/sls/svdpack/lansvd.py
+++ b/src/cr/sparse/_src/sls/svdpack/lansvd.py
@@ -78,6 +78,10 @@ def lansvd_simple(A, k, p0):
     P = P[:, :k]
     Q = Qh.T[:, :k]
     U = state.U[:, :j] @ P[:j, :]
+    # the (j+1)-th left Lanczos vector, weighted by the last row of P
+    beta_j = state.beta[j]
+    u_j = jnp.where(beta_j > 0, state.p / beta_j, 0)
+    U = U + jnp.outer(u_j, P[j, :])
     V = state.V[:, :j] @ Q
     return U, S[:k], V, bnd, n_converged, state
 
-- 
2.43.0


From 8f45118656c617dbc77e301dcaa0065d4305c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:17 +0000
Subject: [PATCH 17/45] fix: the Moreau envelope scales its quadratic term by
 1/(2 mu)

---
 src/cr/sparse/_src/opt/prox_to_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/prox_to_smooth.py b/src/cr/sparse/_src/opt/prox_to_smooth.py
index 110eaa1..2cd73d3 100644
--- a/src/cr/sparse/_src/opt/prox_to_smooth.py
+++ b/src/cr/sparse/_src/opt/prox_to_smooth.py
@@ -26,7 +26,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def func(x):
         px, pv = f.prox_vec_val(x, mu)
-        return pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        return pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
 
 
     @jit
@@ -36,7 +36,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def grad_val(x):
         px, pv = f.prox_vec_val(x, mu)
-        v = pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        v = pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
         g = (1/mu) * (x - px)
         return g, v
 
-- 
2.43.0


From 585d3faf4c55cc3bbda05826d4528636b098ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:18 +0000
Subject: [PATCH 18/45] fix: opt.build_from_ind_proj is the indicator and
 projector constructor

---
 src/cr/sparse/opt/proximal_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/opt/proximal_ops.py b/src/cr/sparse/opt/proximal_ops.py
index 1606fa3..3c1ea61 100644
--- a/src/cr/sparse/opt/proximal_ops.py
+++ b/src/cr/sparse/opt/proximal_ops.py
@@ -23,7 +23,7 @@ from cr.sparse._src.opt.proximal_ops.prox import (
 )
 
 from cr.sparse._src.opt.proximal_ops.prox import build as prox_build
-from cr.sparse._src.opt.proximal_ops.prox import build as build_from_ind_proj
+from cr.sparse._src.opt.proximal_ops.prox import build_from_ind_proj
 
 from cr.sparse._src.opt.proximal_ops.basic import (
     prox_zero
-- 
2.43.0


From 100c71a70c3648acceabbfcadc119cf18b9e97a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:54 +0000
Subject: [PATCH 19/45] fix: prox_owl1 keeps pooled blocks together, so that it
 terminates

---
 src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
index 2172b92..8d209cc 100644
--- a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
+++ b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
@@ -30,7 +30,7 @@ def prox_ordered_l1_b(state):
     y, l = state
     x = y - l
     n = len(x)
-    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) > 0)
+    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) >= 0)
     segment_ids = jnp.cumsum(~mask) - 1
     y_sums = segment_sum(y, segment_ids, num_segments=n)
     l_sums = segment_sum(l, segment_ids, num_segments=n)
-- 
2.43.0


From 4aaf0a33a915371815d12f479a50575cdbb91eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:20 +0000
Subject: [PATCH 20/45] fix: matrix_affine_func (missing partial import, static
 argument, identity case)

---
 src/cr/sparse/_src/fom/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/fom/util.py b/src/cr/sparse/_src/fom/util.py
index b39a7bd..b9dd1d8 100644
--- a/src/cr/sparse/_src/fom/util.py
+++ b/src/cr/sparse/_src/fom/util.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from functools import partial
+
 from jax import jit
 
 import jax.numpy as jnp
@@ -51,7 +53,9 @@ def matrix_affine_func(A=None, b=None):
         return A @ x + b
 
     ax_plus_b = identity
-    if A is None:
+    if A is None and b is None:
+        ax_plus_b = identity
+    elif A is None:
         # We assume that A is identity
         ax_plus_b  = translate
     elif b is None:
@@ -62,12 +66,12 @@ def matrix_affine_func(A=None, b=None):
         ax_plus_b = affine
 
 
-    @partial(jit, static_argnums=(2,))
+    @partial(jit, static_argnums=(1,))
     def operator(x, mode=0):
         if mode == 0:
-            return A @ x
+            return x if A is None else A @ x
         if mode == 1:
-            return AH_v(A, x)
+            return x if A is None else AH_v(A, x)
         if mode == 2:
             return ax_plus_b(x)
 
-- 
2.43.0


From 159ac4af6bcbf4096df3ceafa27d3150aa9789fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:33 +0000
Subject: [PATCH 21/45] fix: yall1 stopped with the zero vector when the
 iterate was still 0 (0/0 relative change)

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index f9d70c0..d3ee296 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -163,7 +163,8 @@ def solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters):
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-        x_unstable = x_relative_change > tolerance * (1 - q)
+        # (x may still be 0, then there is no relative change to judge)
+        x_unstable = jnp.logical_not(x_relative_change <= tolerance * (1 - q))
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
@@ -296,7 +297,8 @@ def solve_l1_l2(A, b, x0, z0, w, nonneg, rho, gamma, tolerance, max_iters):
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-        condition = jnp.logical_and(condition, x_relative_change > tolerance * (1 - q))
+        # (x may still be 0, then there is no relative change to judge)
+        condition = jnp.logical_and(condition, jnp.logical_not(x_relative_change <= tolerance * (1 - q)))
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
@@ -419,7 +421,8 @@ def solve_l1_l2con(A, b, x0, z0, w, nonneg, delta, gamma, tolerance, max_iters):
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-        x_unstable = x_relative_change > tolerance
+        # (x may still be 0, then there is no relative change to judge)
+        x_unstable = jnp.logical_not(x_relative_change <= tolerance)
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
-- 
2.43.0


From ebc47c43e98946b274a57fc3adf77aadabd0abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:39 +0000
Subject: [PATCH 22/45] fix: yall1.solve returned the residual of the
 untruncated solution for nonneg=True

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index d3ee296..12a20e4 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -540,11 +540,17 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
         else:
             # It's a basis pursuit problem
             state = solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters)
-    x = jnp.where(nonneg, jnp.maximum(0, state.x), state.x)
+    x = state.x
+    r = state.rp
+    if nonneg:
+        x = jnp.maximum(0, x)
+        # the residual of the truncated solution
+        r = b - A.times(x)
+        n_times = n_times + 1
     if W:
         # go back from sparsifying basis to signal space
         x = W.times(x)
-    return RecoveryFullSolution(x=b_max*x, r=b_max*state.rp, 
+    return RecoveryFullSolution(x=b_max*x, r=b_max*r, 
         iterations=state.iterations,
         n_times=state.n_times+n_times, 
         n_trans=state.n_trans+n_trans)
-- 
2.43.0


From f4e2e01acdb06a8529eae7c4c20d9d2aa41688a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:39 +0000
Subject: [PATCH 23/45] fix: yall1.solve ignored the weights when deciding that
 the solution is zero

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 12a20e4..082b38b 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -493,10 +493,14 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     n_trans = 1
     n = Atb.shape[0]
     b_max  = float(norm(b, ord=jnp.inf))
-    atb_max = float(norm(Atb, ord=jnp.inf))
+    w = jnp.ones(n)
+    if weights is not None:
+        # make sure that the final weights are an array of size n
+        w = w * weights
+
     zero_solution = False
     if rho > 0:
-        zero_solution = atb_max <= rho
+        zero_solution = bool(jnp.all(jnp.abs(Atb) <= rho * w))
     if delta > 0:
         zero_solution = norm(b) <= delta
     if zero_solution:
@@ -510,11 +514,6 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     if z0 is None:
         z0 = jnp.zeros(n)
 
-    w = jnp.ones(n)
-    if weights is not None:
-        # make sure that the final weights are an array of size n
-        w = w * weights
-
     # scale data and model parameters
     b = b / b_max
     if rho > 0: rho = rho / b_max
-- 
2.43.0


From 9cdd313898260450e6f8e4cb47517c480da23615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:10 +0000
Subject: [PATCH 24/45] fix: l1ls stopped at the starting point when its dual
 objective was negative (relative gap)

---
 src/cr/sparse/_src/cvx/l1ls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 468ea4c..a1747de 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -167,7 +167,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # initial value of the dual objective
         dual_obj = get_dual_obj(nu)
         gap = primal_obj - dual_obj
-        rel_gap = gap / dual_obj
+        rel_gap = gap / jnp.abs(dual_obj)
         dxu = jnp.zeros(2*n)
         return State(x=x0, u=u0, z=z, nu=nu, dxu=dxu,
             primal_obj=primal_obj, dual_obj=dual_obj, gap=gap, rel_gap=rel_gap, 
@@ -339,7 +339,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # duality gap
         gap = primal_obj - dual_obj
         # relative gap
-        rel_gap = gap / state.dual_obj
+        rel_gap = gap / jnp.abs(dual_obj)
         #--------------------------------------------------------------------------------
         # update t if required TNIPM step 7
         #--------------------------------------------------------------------------------
-- 
2.43.0


From d04a74dc48709403c55eac9d21bfc528ea842d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:03 +0000
Subject: [PATCH 25/45] fix: spgl1 LASSO solver reported the count of A x as
 the count of A^T x

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index a32d406..3b04098 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -384,7 +384,7 @@ def solve_lasso_from(A,
             alpha=lsearch.alpha,
             alpha_next=alpha_next,
             iterations=state.iterations+1,
-            n_times=n_times, n_trans=n_times, 
+            n_times=n_times, n_trans=n_trans, 
             n_ls_iters=state.n_ls_iters + lsearch.n_iters)
 
     def cond_func(state):
-- 
2.43.0


From 80c4f61053e05ae4490930ca4f798c4ee061e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:22 +0000
Subject: [PATCH 26/45] fix: spgl1 BPIC solver reported the residual norm of
 the solution before tau was reduced

---
 src/cr/sparse/_src/cvx/spgl1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 3b04098..63feef7 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -655,6 +655,11 @@ def solve_bpic_from(A,
             lambda _: update_xrgf(A, b, x, tau),
             lambda _: (x, r, g, f),
             None)
+        # the metrics must describe the updated solution
+        r_norm, r_gap, r_res_error, r_f_error = lax.cond(tau_reduced,
+            lambda _: bpic_metrics(b, x, g, r, f, sigma, tau)[1:],
+            lambda _: (r_norm, r_gap, r_res_error, r_f_error),
+            None)
         n_times, n_trans = n_times + tau_reduced, n_trans + tau_reduced
         n_newton = state.n_newton + change_tau
         # update past objective values with the new objective value
-- 
2.43.0


From 86c057eea35a5d7bd2276fb4eb0451e2dec6f27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:56 +0000
Subject: [PATCH 27/45] fix: spgl1.solve_lasso_jit could not be called with
 options (traced memory size)

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 63feef7..1168e73 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -415,7 +415,7 @@ def solve_lasso(A,
     x0 = jnp.zeros(n)
     return solve_lasso_from(A, b, tau, x0, options=options, tracker=tracker)
 
-solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "tracker"))
+solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "options", "tracker"))
 
 
 def analyze_lasso_state(A, b, tau, options, state, x0):
-- 
2.43.0


From 673fee1e191b8471c8abd4a287cc9fb79afda470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:37 +0000
Subject: [PATCH 28/45] fix: Grassmannian frame iteration rescaled columns
 only, losing symmetry and unit norms

---
 src/cr/sparse/_src/dict/grass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/grass.py b/src/cr/sparse/_src/dict/grass.py
index 689e91f..57c89b4 100644
--- a/src/cr/sparse/_src/dict/grass.py
+++ b/src/cr/sparse/_src/dict/grass.py
@@ -95,7 +95,9 @@ def build_grassmannian_frame(init,
         # Ensure that the diagonal elements of G continue to be 1
         d = jnp.diag(g)
         d2 = 1. / jnp.sqrt(d)
-        g = d2 * g * d2
+        g = d2[:, None] * g * d2
+        # symmetric entries must meet the thresholds together
+        g = (g + g.T) / 2
         return g
 
     # run the alternate projections
-- 
2.43.0


From 412bbfa08b744dc983dc145ac7e7b159fa623e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:37 +0000
Subject: [PATCH 29/45] fix: Gram and frame matrices (and coherence, babel) of
 complex dictionaries dropped the imaginary part

---
 src/cr/sparse/_src/dict/props.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/dict/props.py b/src/cr/sparse/_src/dict/props.py
index 02e6207..7d6e799 100644
--- a/src/cr/sparse/_src/dict/props.py
+++ b/src/cr/sparse/_src/dict/props.py
@@ -22,16 +22,14 @@ def gram(A):
     """
     if jnp.isrealobj(A):
         return A.T @ A
-    G = mat_hermitian(A) @ A
-    return G.real
+    return mat_hermitian(A) @ A
 
 def frame(A):
     """Computes the frame matrix :math:`G = A A^T`
     """
     if jnp.isrealobj(A):
         return A @ A.T
-    F = A @ mat_hermitian(A)
-    return F.real
+    return A @ mat_hermitian(A)
 
 
 def coherence_with_index(A):
-- 
2.43.0


From d928fe55c5279c64831e800d01d753913598694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:37 +0000
Subject: [PATCH 30/45] fix: matching_atoms_ratio used the transpose instead of
 the Hermitian transpose

---
 src/cr/sparse/_src/dict/comparison.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/comparison.py b/src/cr/sparse/_src/dict/comparison.py
index b4ba514..473abd3 100644
--- a/src/cr/sparse/_src/dict/comparison.py
+++ b/src/cr/sparse/_src/dict/comparison.py
@@ -14,6 +14,8 @@
 
 import jax.numpy as jnp
 
+from cr.nimble import mat_hermitian
+
 
 def matching_atoms_ratio(A, B, distance_threshold=0.01):
     """Identifies how many atoms are very close between dictionaries A and B
@@ -21,7 +23,7 @@ def matching_atoms_ratio(A, B, distance_threshold=0.01):
     # number of atoms
     n_atoms = A.shape[1]
     # inner products betweeen atoms of A and B
-    similarities = jnp.abs(A.T @ B)
+    similarities = jnp.abs(mat_hermitian(A) @ B)
     # find the best match from each row 
     max_similarities = jnp.max(similarities, axis=1)
     # angular distance between best match
-- 
2.43.0


From 54f8c9d0c45b691c7e2ffe94d3ae7578ba387ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:42 +0000
Subject: [PATCH 31/45] fix: best_map mislabelled clusters when the numbers of
 true and predicted clusters differ

---
 src/cr/sparse/_src/cluster/util.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/util.py b/src/cr/sparse/_src/cluster/util.py
index bc08b1c..9f69071 100644
--- a/src/cr/sparse/_src/cluster/util.py
+++ b/src/cr/sparse/_src/cluster/util.py
@@ -84,9 +84,14 @@ def best_map(true_labels, pred_labels):
             G[i, j] = np.sum(ilabels & jlabels)
     # Run the Hungarian assignment algorithm
     rows, cols = linear_sum_assignment(-G)
-    mapped_labels = jnp.zeros_like(pred_labels)
-    for i in range(n_l2):
-        old_label = labels_2[cols[i]]
+    # predicted clusters which are not assigned to any true label
+    # get a label which matches none of the true labels
+    mapped_labels = jnp.full_like(pred_labels, labels_1[-1] + 1)
+    for i, j in zip(rows, cols):
+        if i >= n_l1 or j >= n_l2:
+            # padding of the cost matrix
+            continue
+        old_label = labels_2[j]
         new_label = labels_1[i]
         mapped_labels = mapped_labels.at[pred_labels == old_label].set(new_label)
     return mapped_labels, cols, G 
-- 
2.43.0


From 71399b6a6964667c56e26814b3ede291a7177636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:42 +0000
Subject: [PATCH 32/45] fix: angles_between_points returned nan for opposite
 points

---
 src/cr/sparse/_src/cluster/ssc/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/util.py b/src/cr/sparse/_src/cluster/ssc/util.py
index 298fa9a..e18c9c5 100644
--- a/src/cr/sparse/_src/cluster/ssc/util.py
+++ b/src/cr/sparse/_src/cluster/ssc/util.py
@@ -95,7 +95,7 @@ def angles_between_points(X):
     # Compute gram matrix
     G = X.T @ X
     # Avoid overflow in gram matrix
-    G = jnp.minimum(G, 1)
+    G = jnp.clip(G, -1, 1)
     return jnp.rad2deg(jnp.arccos(G))
 
 
-- 
2.43.0


From fe5948381296c5e2e7794920916cc9a549ba2a54 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:18:10 +0000
Subject: [PATCH 33/45] fix: BSBL second moments added the squared norm of the
 mean instead of its outer product

---
 src/cr/sparse/_src/block/bsbl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index bf794d2..da987be 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -166,7 +166,7 @@ def compute_sigma_x_pruned(Phi, Sigma0, H, active_blocks):
 
 def compute_cov_x(Sigma_x, mu_x):
     Cov_x = vmap(
-        lambda sx, mx: sx + mx @ mx.T,
+        lambda sx, mx: sx + jnp.outer(mx, mx),
         in_axes=(0,0))(Sigma_x, mu_x)
     return Cov_x
 
-- 
2.43.0


From 69298800f58d8212f0e46d8553457cf80071730a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:18:10 +0000
Subject: [PATCH 34/45] fix: BSBL high SNR noise update divided by zero on
 pruned blocks and counted blocks instead of coefficients

---
 src/cr/sparse/_src/block/bsbl.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index da987be..84ba259 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -204,12 +204,15 @@ def compute_B_B_inv(B0):
 
 # This rule doesn't seem to work in noiseless case
 def update_lambda_high_snr(lambda_val, gammas, Sigma_x, B_inv, r_norm_sqr, m):
-    n_blocks = len(gammas)
+    blk_size = B_inv.shape[0]
+    # pruned blocks (zero gamma) do not contribute
+    active = gammas > 0
+    safe_gammas = jnp.where(active, gammas, 1.)
     ll = vmap(
         lambda g, sx: jnp.trace(sx @ B_inv) / g,
-        in_axes=(0, 0))(gammas, Sigma_x)
-    lambda_comp = jnp.sum(ll)
-    carry = lambda_val * (n_blocks - lambda_comp)
+        in_axes=(0, 0))(safe_gammas, Sigma_x)
+    lambda_comp = jnp.sum(jnp.where(active, ll, 0.))
+    carry = lambda_val * (jnp.sum(active) * blk_size - lambda_comp)
     new_lambda_val = (r_norm_sqr + carry) / m
     # print(f'old:{lambda_val:.2e}, new:{new_lambda_val:.2e}, comp: {lambda_comp:.2e}, carry: {carry:.2e}, r_norm_sqr: {r_norm_sqr:.2e}')
     return new_lambda_val
@@ -559,7 +562,8 @@ def bsbl_em(Phi, y, blk_len,
         #     state.lambda_val, Subdicts, state.gammas, Sigma_x,
         #     B_inv, r_norm_sqr, m)
         lambda_val = update_lambda_rule_jittable(learn_lambda,
-            state.lambda_val, Subdicts, state.gammas, Sigma_x,
+            state.lambda_val, Subdicts,
+            jnp.where(active_blocks, state.gammas, 0.), Sigma_x,
             B_inv, r_norm_sqr, m)
         # update gamma
         gammas = update_gammas_em_pruned(Cov_x, B_inv, active_blocks)
@@ -687,7 +691,8 @@ def bsbl_bo(Phi, y, blk_len,
         #     state.lambda_val, Subdicts, state.gammas, Sigma_x,
         #     B_inv, r_norm_sqr, m)
         lambda_val = update_lambda_rule_jittable(learn_lambda,
-            state.lambda_val, Subdicts, state.gammas, Sigma_x,
+            state.lambda_val, Subdicts,
+            jnp.where(active_blocks, state.gammas, 0.), Sigma_x,
             B_inv, r_norm_sqr, m)
         # update gamma
         gammas = update_gammas_bo_pruned(state.gammas, B, Hy, HPhi, active_blocks)
-- 
2.43.0


From bab8c8273aa4e6ce564ca2fe431a0252343433f0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:18:10 +0000
Subject: [PATCH 35/45] fix: BSBL ignored the learn_block_corr option

---
 src/cr/sparse/_src/block/bsbl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index 84ba259..73af8b4 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -187,13 +187,15 @@ def compute_cov_x_sum_pruned(Cov_x, gammas, active_blocks):
         in_axes=(0, 0, 0))(Cov_x, gammas, active_blocks)
     return jnp.sum(B_i, axis=0)
 
-def compute_B_B_inv(B0):
+def compute_B_B_inv(B0, learn_block_corr=1):
     m0 = jnp.mean(jnp.diag(B0))
     m1 = jnp.mean(jnp.diag(B0, 1))
     # AR-1 coefficient
     r = m1 / m0
     # make sure that it is bounded
     r = jnp.clip(r, -0.99, 0.99)
+    # intra block correlation may have to be ignored
+    r = jnp.where(learn_block_corr == 0, 0., r)
     # print(f'r: {r}')
     # block size
     b = B0.shape[0]
@@ -550,7 +552,7 @@ def bsbl_em(Phi, y, blk_len,
         Sigma_x, _ = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -679,7 +681,7 @@ def bsbl_bo(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -803,7 +805,7 @@ def bsbl_bo_np(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x(Phi, state.Sigma0, H)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum(Cov_x, state.gammas)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
-- 
2.43.0


From 95ad322f49ea96b9464fb4aa137fffca6b923060 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:18:10 +0000
Subject: [PATCH 36/45] fix: rfp moved along the gradient of the sign
 inconsistency instead of against it

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index d0bd816..a03c1f4 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -93,7 +93,7 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
             # see which bits have same sign, which bits have different sign
             correlation = y * measurement
             # Only the bits which are wrong are important for further consideration
-            problems = jnp.where(correlation <= 0, -correlation, 0)
+            problems = jnp.where(correlation <= 0, correlation, 0)
             print(f'number of wrong signs: {jnp.sum(correlation < 0)}, {jnp.sum(problems)}')
             # multiply with the bit vector Y^T (f'(term))
             problems = y * problems
-- 
2.43.0


From abf4fac70d99295a32031eedab757762913acc67 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:18:10 +0000
Subject: [PATCH 37/45] fix: rfp kept the initial shrinkage threshold when
 lambda grew

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index a03c1f4..063810e 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -79,10 +79,11 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
     """Solver fo 1-bit compressive sensing with renormalized fixed points iteration
     algorithm     
     """
-    tau = delta / lambda_
-    print(f'shrinkage threshold: {tau}')
 
     def rfpi_inner(x0, lambda_):
+        tau = delta / lambda_
+        print(f'shrinkage threshold: {tau}')
+
         def init_fun():
             return RFPState(x=x0, x_prev=jnp.zeros_like(x0), iterations=0)
 
-- 
2.43.0


From 74d5d2cf9b998fefbfa7e6e004b86e30c6af5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:18:25 +0000
Subject: [PATCH 38/45] fix: kernel_gaussian used a quarter of the variance
 (half of sigma) requested

---
 src/cr/sparse/_src/vision/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/vision/kernels.py b/src/cr/sparse/_src/vision/kernels.py
index 6d57bcf..8187bae 100644
--- a/src/cr/sparse/_src/vision/kernels.py
+++ b/src/cr/sparse/_src/vision/kernels.py
@@ -73,8 +73,8 @@ def kernel_gaussian(size=5, sigma=1.):
     # form a mesh grid of 2 D points
     xx, yy = jnp.meshgrid(ax_x, ax_y)
     # Compute the kernel values at the specified points in the grid
-    factor_x = 2 / sigma_x ** 2
-    factor_y = 2 / sigma_y ** 2
+    factor_x = 1 / (2 * sigma_x ** 2)
+    factor_y = 1 / (2 * sigma_y ** 2)
     kernel = jnp.exp(-(jnp.square(xx) * factor_x + jnp.square(yy) * factor_y))
     # normalize the kernel and return
     return kernel / jnp.sum(kernel)
\ No newline at end of file
-- 
2.43.0


From 85fe53d0315a4509deba13e051d9b85591729937 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:18:25 +0000
Subject: [PATCH 39/45] fix: RecoveryPerformance could not read solutions which
 carry the full vector x

---
 src/cr/sparse/_src/tools/performance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/tools/performance.py b/src/cr/sparse/_src/tools/performance.py
index b487146..aa14b36 100644
--- a/src/cr/sparse/_src/tools/performance.py
+++ b/src/cr/sparse/_src/tools/performance.py
@@ -77,10 +77,10 @@ class RecoveryPerformance:
         # Shape of the dictionary/sensing matrix
         M, N = Phi.shape
         if sol is not None:
-            if 'x' in sol:
-                x_hat = sol.x
-            else:
+            if hasattr(sol, 'x_I'):
                 x_hat = build_signal_from_indices_and_values(N, sol.I, sol.x_I) 
+            else:
+                x_hat = sol.x
         self.T0 = nonzero_indices(x)
         K = self.T0.size
         self.M = M
-- 
2.43.0


From 9e713f855504f2a2477da1119b769fe354dbc668 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:18:25 +0000
Subject: [PATCH 40/45] fix: recovery trials drew the signals from as many keys
 as there are dictionaries

---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 50e3a20..0591f32 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -143,7 +143,7 @@ class RecoveryTrialsAtFixed_M_N:
                 print('*', end='', flush=True)
                 # Construct a dictionary
                 Phi = crdict.gaussian_mtx(dict_key, M,N)
-                signal_keys = jax.random.split(dict_key, num_dict_trials)
+                signal_keys = jax.random.split(dict_key, num_signal_trials)
                 for nst in range(num_signal_trials):
                     signal_key = signal_keys[nst]
                     # Construct a signal
-- 
2.43.0


From d42890854e67bdab7666d342ff49f42d32f25cbd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:38:10 +0000
Subject: [PATCH 41/45] fix: dwt2D padded and cropped the first two axes
 instead of the requested ones

---
 src/cr/sparse/_src/lop/dwt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/dwt.py b/src/cr/sparse/_src/lop/dwt.py
index 5527537..e559823 100644
--- a/src/cr/sparse/_src/lop/dwt.py
+++ b/src/cr/sparse/_src/lop/dwt.py
@@ -206,7 +206,13 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     hh = wt.next_pow_of_2(h)
     ww = wt.next_pow_of_2(w)
-    pad = ((0, hh-h), (0, ww-w))
+    pad = [(0, 0)] * len(shape)
+    pad[axes[0]] = (0, hh-h)
+    pad[axes[1]] = (0, ww-w)
+    crop = [slice(None)] * len(shape)
+    crop[axes[0]] = slice(0, h)
+    crop[axes[1]] = slice(0, w)
+    crop = tuple(crop)
 
     out_shape = list(shape)
     out_shape[axes[0]] = hh
@@ -219,7 +225,7 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     def trans(coefs):
         x = waverec2(coefs, rec_lo, rec_hi, level, axes)
-        return x[:h, :w]
+        return x[crop]
 
     if basis:
         # Return the wavelet basis
-- 
2.43.0


From 7ff827b360bc3827419c2b4aaf4f6aa7cf1dc0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:38:10 +0000
Subject: [PATCH 42/45] fix: the adjoint of dwt and dwt2D was the inverse, not
 the adjoint, for biorthogonal wavelets

---
 src/cr/sparse/_src/lop/dwt.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cr/sparse/_src/lop/dwt.py b/src/cr/sparse/_src/lop/dwt.py
index e559823..5ae3a94 100644
--- a/src/cr/sparse/_src/lop/dwt.py
+++ b/src/cr/sparse/_src/lop/dwt.py
@@ -149,6 +149,12 @@ def dwt(n, wavelet="haar", level=1, axis=0, basis=False):
     m = wt.next_pow_of_2(n)
     pad = (0, m-n)
 
+    # filters of the adjoint (differ from the inverse for biorthogonal wavelets)
+    if basis:
+        dec_lo, dec_hi = rec_lo[::-1], rec_hi[::-1]
+    else:
+        rec_lo, rec_hi = dec_lo[::-1], dec_hi[::-1]
+
     def times1d(x):
         x = jnp.pad(x, pad)
         return wavedec(x, dec_lo, dec_hi, level)
@@ -204,6 +210,12 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
     max_level = min(max_level_1, max_level_2)
     assert level <= max_level, f"Level too high level={level}, max_level={max_level}"
 
+    # filters of the adjoint (differ from the inverse for biorthogonal wavelets)
+    if basis:
+        dec_lo, dec_hi = rec_lo[::-1], rec_hi[::-1]
+    else:
+        rec_lo, rec_hi = dec_lo[::-1], dec_hi[::-1]
+
     hh = wt.next_pow_of_2(h)
     ww = wt.next_pow_of_2(w)
     pad = [(0, 0)] * len(shape)
-- 
2.43.0


From d77dca213e47b1b122015f082ad7d9c85a3431c7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:38:10 +0000
Subject: [PATCH 43/45] fix: Operator.apply_columns used an undefined index set

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 719b542..b3786d5 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -107,7 +107,7 @@ class Operator(NamedTuple):
         """Computes Y = T^H X  where y = T^H x for each column in X"""
         return jax.vmap(self.trans, (1), (1))(Y)
 
-    def apply_columns(self, x):
+    def apply_columns(self, x, I):
         """Computes y = T_I x where I is an index set selecting  a subset of columns of T"""
         xr = jnp.zeros(x.shape, x.dtype)
         xr = xr.at[I].set(x[I])
-- 
2.43.0


From b5d83678cb49f0de65187f2422b84635d39052ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:01 +0000
Subject: [PATCH 44/45] fix: matrix of an operator whose input and output
 differ in number of dimensions

---
 src/cr/sparse/_src/lop/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index c6e62e5..2234ddd 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -25,7 +25,7 @@ def to_matrix(A):
         raise Exception("This operator is not linear.")
     I = jnp.eye(n)
     times = A.times
-    if A.input_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         times = lambda x: A.times(jnp.reshape(x, A.input_shape)).flatten()
     return jax.vmap(times, (1), (1))(I)
 
@@ -36,7 +36,7 @@ def to_adjoint_matrix(A):
     m = A.output_size
     I = jnp.eye(m)
     trans =  A.trans
-    if A.output_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         trans = lambda x: A.trans(jnp.reshape(x, A.output_shape)).flatten()
     return jax.vmap(trans, (1), (1))(I)
 
-- 
2.43.0


From 6d01463637f533c2c885f4353c8915d45d325a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:01 +0000
Subject: [PATCH 45/45] fix: complex matrix of an operator on multi-dimensional
 arrays

---
 src/cr/sparse/_src/lop/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 2234ddd..faaeea3 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -45,9 +45,12 @@ def to_complex_matrix(A):
     """Converts a linear operator to a matrix in complex numbers"""
     if not A.linear:
         raise Exception("This operator is not linear.")
-    n = A.shape[1]
+    n = A.input_size
     I = jnp.eye(n) + 0j
-    return jax.vmap(A.times, (1), (1))(I)
+    times = A.times
+    if A.input_ndim > 1 or A.output_ndim > 1:
+        times = lambda x: A.times(jnp.reshape(x, A.input_shape)).flatten()
+    return jax.vmap(times, (1), (1))(I)
 
 
 
-- 
2.43.0

