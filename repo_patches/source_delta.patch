From 8746389856d77b747d1048eff57dae972c71aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 01/15] fix: t2mat no longer changes the caller's axis list and
 accepts tuple axes (mul documents them)

---
 tensorD/base/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/ops.py b/tensorD/base/ops.py
index 1e22183..fcb9f83 100644
--- a/tensorD/base/ops.py
+++ b/tensorD/base/ops.py
@@ -151,7 +151,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies = [r_axis]
             row_size = tensor.get_shape()[r_axis].value
         else:
-            indies = r_axis
+            indies = list(r_axis)
             row_size = np.prod([tensor.get_shape()[i].value for i in r_axis])
         if c_axis == -1:
             c_axis = [_ for _ in range(tensor.get_shape().ndims) if _ not in indies]
@@ -159,7 +159,7 @@ def t2mat(tensor, r_axis, c_axis):
             indies.append(c_axis)
             col_size = tensor.get_shape()[c_axis].value
         else:
-            indies = indies + c_axis
+            indies = indies + list(c_axis)
             col_size = np.prod([tensor.get_shape()[i].value for i in c_axis])
         return tf.reshape(tf.transpose(tensor, indies), (int(row_size), int(col_size)))
 
-- 
2.43.0


From cefa9704c653bec407356d038e70b02e56ceab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 02/15] fix: KTensor weights take the element type of the
 factors

---
 tensorD/base/type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index 155403d..e7d72cd 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -140,10 +140,10 @@ class KTensor(object):
         # Note that the shape of lambdas must be (x, 1).
         # The dimension of "1" should not be ignored!!
         if lambdas is None:
-            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=tf.float32)
+            self.lambdas = tf.ones((self.U[0].get_shape()[1].value, 1), dtype=self.U[0].dtype.base_dtype)
         else:
             if isinstance(lambdas, np.ndarray):
-                self.lambdas = tf.constant(lambdas)
+                self.lambdas = tf.constant(lambdas, dtype=self.U[0].dtype.base_dtype)
             else:
                 self.lambdas = lambdas
             if self.lambdas.get_shape().ndims == 1:
-- 
2.43.0


From 4416ab07d7c4cf06bc1886c966195e3dc64192bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 03/15] fix: DTensor.unfold returns the unfolding of the
 requested mode on every call

---
 tensorD/base/type.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tensorD/base/type.py b/tensorD/base/type.py
index e7d72cd..7cc312e 100644
--- a/tensorD/base/type.py
+++ b/tensorD/base/type.py
@@ -23,7 +23,6 @@ class DTensor(object):
         else:
             self.T = tf.constant(tensor)
             self.shape = tensor.shape
-        self.unfold_T = None
         self.fold_T = self.T
 
     def mul(self, tensor, a_axis=0, b_axis=0):
@@ -48,9 +47,7 @@ class DTensor(object):
         return DTensor(ops.mul(self.T, tensor.T, a_axis, b_axis))
 
     def unfold(self, mode=0):
-        if self.unfold_T is None:
-            self.unfold_T = ops.unfold(self.T, mode)
-        return DTensor(self.unfold_T)
+        return DTensor(ops.unfold(self.T, mode))
 
     def t2mat(self, r_axis, c_axis):
         return DTensor(ops.t2mat(self.T, r_axis, c_axis))
-- 
2.43.0


From 2d58005b8433f36289dd253ae29ad3f0ef62e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 04/15] fix: predict works after training and refuses before it
 with TensorErr in every model

---
 tensorD/factorization/cp.py      | 2 +-
 tensorD/factorization/ncp.py     | 2 +-
 tensorD/factorization/ntucker.py | 2 +-
 tensorD/factorization/tucker.py  | 4 ++++
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 6d58305..54b2500 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -44,7 +44,7 @@ class CP_ALS(BaseFact):
         self._rel_res_op = None
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index f67095e..70cc8cc 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -41,7 +41,7 @@ class NCP_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 00d3548..09ec454 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -42,7 +42,7 @@ class NTUCKER_BCU(BaseFact):
         self._is_train_finish = False
 
     def predict(self, *key):
-        if not self._full_tensor:
+        if self._full_tensor is None:
             raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 3d2a49a..7a14333 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -85,6 +85,8 @@ class HOSVD(BaseFact):
         self._is_train_finish = True
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
@@ -190,6 +192,8 @@ class HOOI(BaseFact):
         return self._full_tensor
 
     def predict(self, *key):
+        if self._full_tensor is None:
+            raise TensorErr('improper stage to call predict before the model is trained')
         return self._full_tensor.item(key)
 
     @property
-- 
2.43.0


From a385c0d2404cab0ae91b9567ee42e9867f86652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 05/15] fix: the published full tensor is that of the step at
 which training stopped

---
 tensorD/factorization/cp.py      | 4 ++--
 tensorD/factorization/ncp.py     | 4 ++--
 tensorD/factorization/ntucker.py | 4 ++--
 tensorD/factorization/tucker.py  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 54b2500..84b76f3 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -155,8 +155,8 @@ class CP_ALS(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._lambdas, loss_v, obj, rel_res = sess.run([factor_update_op, lambda_op, loss_op, obj_op, rel_res_op],
-                                                                feed_dict=self._feed_dict)
+                self._factors, self._lambdas, self._full_tensor, loss_v, obj, rel_res = sess.run(
+                    [factor_update_op, lambda_op, full_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 70cc8cc..5140844 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -207,8 +207,8 @@ class NCP_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
 
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index 09ec454..f66aac1 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -242,8 +242,8 @@ class NTUCKER_BCU(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, loss_v, rel_res, obj, _ = sess.run(
-                    [factor_update_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
+                self._factors, self._full_tensor, loss_v, rel_res, obj, _ = sess.run(
+                    [factor_update_op, full_op, loss_op, rel_res_op, obj_op, train_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 7a14333..37d40cd 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -238,8 +238,8 @@ class HOOI(BaseFact):
                 sum_writer.add_summary(sum_msg, step)
                 print('step=%d, RMSE=%.10f, relerr=%.10f' % (step, loss_v, rel_res))
             else:
-                self._factors, self._core, loss_v, obj, rel_res = sess.run([factor_update_op, core_op, loss_op, obj_op, rel_res_op],
-                                                             feed_dict=self._feed_dict)
+                self._full_tensor, self._factors, self._core, loss_v, obj, rel_res = sess.run(
+                    [full_op, factor_update_op, core_op, loss_op, obj_op, rel_res_op], feed_dict=self._feed_dict)
             hist.append([loss_v, rel_res])
             if step == 1:
                 obj0 = obj + 1
-- 
2.43.0


From b69c7a75978a86b1f8cbc6b447d7f000dd76b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 06/15] fix: CP and HOOI compare the objective with that of the
 previous step, not of the first

---
 tensorD/factorization/cp.py     | 1 +
 tensorD/factorization/tucker.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 84b76f3..8b6f030 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -170,6 +170,7 @@ class CP_ALS(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
 
         print('CP model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 37d40cd..2469f07 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -253,6 +253,7 @@ class HOOI(BaseFact):
                 nstall = 0
             if nstall >= 3 or relerr2 < args.tol:
                 break
+            obj0 = obj
 
         print('HOOI model train finish, in %d steps, with RMSE = %.10f' % (step, loss_v))
         self._is_train_finish = True
-- 
2.43.0


From 7a099b2ea4ee9a7cfe24c444e2daa67ab5b06301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:11 +0000
Subject: [PATCH 07/15] fix: HOOI does not report a finished training while
 training again

---
 tensorD/factorization/tucker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 2469f07..8a5c981 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -209,6 +209,7 @@ class HOOI(BaseFact):
         return self._is_train_finish
 
     def train(self, steps):
+        self._is_train_finish = False
         sess = self._env.sess
         args = self._args
 
-- 
2.43.0


From 37ca09b088e35a119fdee31694a97c27bee8055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 08/15] fix: shrink multiplies by the transposed right singular
 vectors (tf.svd returns V, not its transpose)

---
 tensorD/base/pitf_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 6d3e7fa..8711b5e 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -650,14 +650,14 @@ def shrink(mat, tao, mode='normal'):
     # print('shrink s2d done.')
     if mode == 'normal':
         print('shrink normal')
-        return tf.matmul(tf.matmul(u, sm), v)
+        return tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
 
     if mode == 'complicated':
         vecr1 = tf.ones((shape[0], 1))
         vecr2 = tf.ones((shape[1], 1))
         delta_num = tf.div(tf.matmul(tf.matmul(tf.transpose(vecr1), mat), vecr2), tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                       dtype=mat.dtype)), name='delta_num')
-        tmp1 = tf.matmul(tf.matmul(u, sm), v)
+        tmp1 = tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
         tmp2 = (tf.maximum(tf.cast(0, dtype=mat.dtype), delta_num-tao)
                 +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape)/tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                                       dtype=mat.dtype))
-- 
2.43.0


From 8b3fb9dff24fb59757f45b090a82506aeb86f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 09/15] fix: adjoint_operator can be built for the third mode

---
 tensorD/base/pitf_ops.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 8711b5e..01459a1 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -414,8 +414,7 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         indices = tf.cast(indices, dtype=tf.int64)
         values = tf.cast(values, dtype=sample_vec.dtype)
         shape_t = tf.cast(shape, dtype=tf.int64)
-        shape_t_re = shape_t[::-1]
-        mat_shape = shape_t_re[0:3:2]
+        mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         delta = tf.SparseTensor(indices, values, mat_shape)
         dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
-- 
2.43.0


From e207a5c2a43cc862594d38570453b050cbd42e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 10/15] fix: adjoint_operator adds up the values of a position
 that was sampled more than once

---
 tensorD/base/pitf_ops.py       | 12 ++++++------
 tensorD/base/pitf_ops_numpy.py |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 01459a1..940a2d7 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -391,8 +391,8 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         mat_shape = shape_t[0:2]
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
         # print('ready to convert')
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False, name='adjoint_s2d_1')
+        # a position may be sampled more than once: its values add up
+        dense_mat = tf.scatter_nd(indices, values, mat_shape, name='adjoint_s2d_1')
         # print('convert done.')
         # print('adjoint_operator 1')
         return mat_zero+dense_mat
@@ -404,8 +404,8 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         shape_t = tf.cast(shape, dtype=tf.int64)
         mat_shape = shape_t[1:3]
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_2')
+        # a position may be sampled more than once: its values add up
+        dense_mat = tf.scatter_nd(indices, values, mat_shape, name='adjoint_s2d_2')
         print('adjoint_operator 2')
         return mat_zero+dense_mat
     elif dim == 2:
@@ -416,8 +416,8 @@ def adjoint_operator(spl, sample_vec, shape, sp_num, dim=None):
         shape_t = tf.cast(shape, dtype=tf.int64)
         mat_shape = tf.stack([shape_t[2], shape_t[0]])
         # tensor = tf.sparse_to_dense(indices, mat_shape, value)
-        delta = tf.SparseTensor(indices, values, mat_shape)
-        dense_mat = tf.sparse_tensor_to_dense(delta, validate_indices=False,  name='adjoint_s2d_3')
+        # a position may be sampled more than once: its values add up
+        dense_mat = tf.scatter_nd(indices, values, mat_shape, name='adjoint_s2d_3')
         print('adjoint_operator 3')
         return mat_zero+dense_mat
     else:
diff --git a/tensorD/base/pitf_ops_numpy.py b/tensorD/base/pitf_ops_numpy.py
index 06ec8e5..ce789d9 100644
--- a/tensorD/base/pitf_ops_numpy.py
+++ b/tensorD/base/pitf_ops_numpy.py
@@ -101,19 +101,19 @@ def adjoint_operator(spl, sample_vec, tensor_shape,m ,dim=None):# sample_vec[i]?
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 0)
         X = np.zeros((tensor_shape[0], tensor_shape[1]))
         for i in range(m):
-            X[spl[0][i]][spl[1][i]] = sample_vec[i]
+            X[spl[0][i]][spl[1][i]] += sample_vec[i]
         return X
     elif dim == 1:
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 1)
         Y = np.zeros((tensor_shape[1], tensor_shape[2]))
         for i in range(m):
-            Y[spl[1][i]][spl[2][i]] = sample_vec[i]
+            Y[spl[1][i]][spl[2][i]] += sample_vec[i]
         return Y
     elif dim == 2:
         # sample_vec = Pomega_mat(a, b, c, mat, tensor_shape, m, 2)
         Z = np.zeros((tensor_shape[2], tensor_shape[0]))
         for i in range(m):
-            Z[spl[2][i]][spl[0][i]] = sample_vec[i]
+            Z[spl[2][i]][spl[0][i]] += sample_vec[i]
         return Z
     else:
         print('error')
-- 
2.43.0


From 924648c236fab71fb2d94851e06fa0078ddba42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 11/15] fix: PITF draws its samples once instead of anew in
 every step

---
 tensorD/factorization/pitf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 1273ce8..467ce74 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -45,7 +45,8 @@ class PITF(BaseFact):
                           name='tao')
         y = tf.Variable(np.zeros(spn), dtype=tensor.dtype, name='y_sample_vector')
         a, b, c = pitf_ops.sample3D_rule(shape, spn)  # sample list
-        spl = [a, b, c]
+        # drawn once: every step has to measure the same entries
+        spl = [tf.Variable(s, trainable=False, name='sample_' + n) for s, n in ((a, 'a'), (b, 'b'), (c, 'c'))]
         # # degree pf freedom
         # fd = r*(shape[0]+shape[1]-r)+r*(shape[1]+shape[2]-r) + \
         #      r*(shape[2]+shape[0]-r)
-- 
2.43.0


From cbc3935954530198566514fb6763014fc2ce90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 12/15] fix: cone_projection_operator decides its case inside
 the graph

---
 tensorD/base/pitf_ops.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 940a2d7..734f60b 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -545,13 +545,13 @@ def cone_projection_operator(x, t):
     >>> tf.Session().run(t1)
     """
     norm_x = tf.norm(x, ord='euclidean')
-    if norm_x <= t:
-        return x, t
-    if t <= tf.negative(norm_x):
-        return 0, 0
-    if t >= tf.negative(norm_x) and t <= norm_x:
-        tmp = (norm_x + t)/(2 * norm_x)
-        return tmp*x, tmp*norm_x
+    t = tf.cast(t, dtype=norm_x.dtype)
+    tmp = (norm_x + t)/(2 * norm_x)
+    inside = norm_x <= t
+    polar = t <= tf.negative(norm_x)
+    new_x = tf.where(inside, x, tf.where(polar, tf.zeros_like(x), tmp*x))
+    new_t = tf.where(inside, t, tf.where(polar, tf.zeros_like(t), tmp*norm_x))
+    return new_x, new_t
 
 
 def SVT(mat, tao):
-- 
2.43.0


From 0f80b7886a3888f92cda40e9ea26c9515cef42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:07 +0000
Subject: [PATCH 13/15] fix: a tensor file could not be read with its shape
 given as an array

---
 tensorD/dataproc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorD/dataproc/reader.py b/tensorD/dataproc/reader.py
index 43afc39..10b8605 100644
--- a/tensorD/dataproc/reader.py
+++ b/tensorD/dataproc/reader.py
@@ -49,7 +49,7 @@ class TensorReader(object):
             idx[row] = np.array([int(entry[mode]) for mode in range(order)])
             value[row] = float(entry[-1])
 
-        if full_shape==None:
+        if full_shape is None:
             max_dim = np.max(idx, axis=0) + np.ones(order).astype(int)
         else:
             max_dim = full_shape
-- 
2.43.0


From a3ab12058a2be422eb856bc2b93772a31644d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 14/15] fix: a model merges its own summaries, so models that
 share a graph (or one that is built again) can be trained

---
 tensorD/factorization/cp.py      |  8 +++++---
 tensorD/factorization/ncp.py     |  8 +++++---
 tensorD/factorization/ntucker.py |  8 +++++---
 tensorD/factorization/pitf.py    |  8 +++++---
 tensorD/factorization/tucker.py  | 14 +++++++++-----
 5 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/tensorD/factorization/cp.py b/tensorD/factorization/cp.py
index 8b6f030..edb43c1 100644
--- a/tensorD/factorization/cp.py
+++ b/tensorD/factorization/cp.py
@@ -35,6 +35,7 @@ class CP_ALS(BaseFact):
         self._is_train_finish = False
         self._args = None
         self._init_op = None
+        self._sum_op = None
         self._norm_input_data = None
         self._lambda_op = None
         self._full_op = None
@@ -106,8 +107,8 @@ class CP_ALS(BaseFact):
         with tf.name_scope('objective-value') as scope:
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -119,6 +120,7 @@ class CP_ALS(BaseFact):
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
+        self._sum_op = sum_op
 
 
     def train(self, steps):
@@ -137,7 +139,7 @@ class CP_ALS(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ncp.py b/tensorD/factorization/ncp.py
index 5140844..7a22fd2 100644
--- a/tensorD/factorization/ncp.py
+++ b/tensorD/factorization/ncp.py
@@ -33,6 +33,7 @@ class NCP_BCU(BaseFact):
         self._lambdas = None
         self._args = None
         self._init_op = None
+        self._sum_op = None
         self._other_init_op = None
         self._train_op = None
         self._factor_update_op = None
@@ -152,8 +153,8 @@ class NCP_BCU(BaseFact):
             with tf.control_dependencies([Am_update_op1[order - 1]]):
                 t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -168,6 +169,7 @@ class NCP_BCU(BaseFact):
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
+        self._sum_op = sum_op
 
     def train(self, steps):
         self._is_train_finish = False
@@ -187,7 +189,7 @@ class NCP_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/ntucker.py b/tensorD/factorization/ntucker.py
index f66aac1..ba005f6 100644
--- a/tensorD/factorization/ntucker.py
+++ b/tensorD/factorization/ntucker.py
@@ -34,6 +34,7 @@ class NTUCKER_BCU(BaseFact):
         self._core = None
         self._args = None
         self._init_op = None
+        self._sum_op = None
         self._core_init = None
         self._core_op = None
         self._factor_update_op = None
@@ -181,8 +182,8 @@ class NTUCKER_BCU(BaseFact):
         with tf.control_dependencies([Am_update_op1[order - 1]]):
             t0_update_op1 = t0.assign(t)
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -200,6 +201,7 @@ class NTUCKER_BCU(BaseFact):
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
+        self._sum_op = sum_op
 
     def train(self, steps):
         self._is_train_finish = False
@@ -221,7 +223,7 @@ class NTUCKER_BCU(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
diff --git a/tensorD/factorization/pitf.py b/tensorD/factorization/pitf.py
index 467ce74..2fc384b 100644
--- a/tensorD/factorization/pitf.py
+++ b/tensorD/factorization/pitf.py
@@ -25,6 +25,7 @@ class PITF(BaseFact):
         self._sample_vector = None
         self._is_train_finish = None
         self._init_op = None
+        self._sum_op = None
         self._sample_vector_update_op = None
         self._erate_op = None
         self._loss_op = None
@@ -93,8 +94,8 @@ class PITF(BaseFact):
             y_new = y + delt*e
             sample_vector_update_op = y.assign(y_new)
 
-        tf.summary.scalar('error rate', erate_op)
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('error rate', erate_op),
+                                   tf.summary.scalar('loss', loss_op)])
 
         init_op = tf.global_variables_initializer()
 
@@ -106,6 +107,7 @@ class PITF(BaseFact):
         self._e = e
         self._e1 = e1
         self._e2 = e2
+        self._sum_op = sum_op
 
     def full(self):
         return self._full_tensor
@@ -124,7 +126,7 @@ class PITF(BaseFact):
         e1 = self._e1
         e2 = self._e2
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
         sess.run(init_op)
         print('PITF model initial finish')
diff --git a/tensorD/factorization/tucker.py b/tensorD/factorization/tucker.py
index 8a5c981..0f79a8d 100644
--- a/tensorD/factorization/tucker.py
+++ b/tensorD/factorization/tucker.py
@@ -22,6 +22,7 @@ class HOSVD(BaseFact):
         self._core = None
         self._args = None
         self._init_op = None
+        self._sum_op = None
         self._core_op = None
         self._factor_update_op = None
         self._is_train_finish = False
@@ -44,7 +45,7 @@ class HOSVD(BaseFact):
         with tf.name_scope('loss') as scope:
             loss_op = rmse_ignore_zero(input_data, full_op)
 
-        tf.summary.scalar('loss', loss_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op)])
 
         self._args = args
         self._init_op = init_op
@@ -52,6 +53,7 @@ class HOSVD(BaseFact):
         self._factor_update_op = A
         self._core_op = g
         self._loss_op = loss_op
+        self._sum_op = sum_op
 
     def train(self, steps=None):
         """
@@ -67,7 +69,7 @@ class HOSVD(BaseFact):
         self._is_train_finish = False
         sess = self._env.sess
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(self._init_op, feed_dict=self._feed_dict)
@@ -122,6 +124,7 @@ class HOOI(BaseFact):
         self._core = None
         self._args = None
         self._init_op = None
+        self._sum_op = None
         self._core_op = None
         self._factor_update_op = None
         self._full_op = None
@@ -175,8 +178,8 @@ class HOOI(BaseFact):
             obj_op = 0.5 * tf.square(tf.norm(full_op - input_data))
 
 
-        tf.summary.scalar('loss', loss_op)
-        tf.summary.scalar('relative_residual', rel_res_op)
+        sum_op = tf.summary.merge([tf.summary.scalar('loss', loss_op),
+                                   tf.summary.scalar('relative_residual', rel_res_op)])
 
         self._args = args
         self._init_op = init_op
@@ -186,6 +189,7 @@ class HOOI(BaseFact):
         self._loss_op = loss_op
         self._obj_op = obj_op
         self._rel_res_op = rel_res_op
+        self._sum_op = sum_op
 
     @property
     def full(self):
@@ -222,7 +226,7 @@ class HOOI(BaseFact):
         rel_res_op = self._rel_res_op
         hist = []
 
-        sum_op = tf.summary.merge_all()
+        sum_op = self._sum_op
         sum_writer = tf.summary.FileWriter(self._env.summary_path, sess.graph)
 
         sess.run(init_op, feed_dict=self._feed_dict)
-- 
2.43.0


From aace617622dec30befaebefc538324c76b22592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 15/15] fix: PITF centring and shrinkage refused matrices that
 are not float32

---
 tensorD/base/pitf_ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensorD/base/pitf_ops.py b/tensorD/base/pitf_ops.py
index 734f60b..698a8bd 100644
--- a/tensorD/base/pitf_ops.py
+++ b/tensorD/base/pitf_ops.py
@@ -70,7 +70,7 @@ def centralization(mat):
     >>> tf.Session().run(ctrmat)
     """
     shape = tf.shape(mat)
-    tmp = tf.matmul(tf.ones((shape[0], shape[0]), dtype=tf.float32, name='ctr_ones'), mat, name='ctr_mul')/tf.cast(shape[0], dtype=mat.dtype)
+    tmp = tf.matmul(tf.ones((shape[0], shape[0]), dtype=mat.dtype, name='ctr_ones'), mat, name='ctr_mul')/tf.cast(shape[0], dtype=mat.dtype)
     ctr_mat = tf.subtract(mat, tmp, name='ctf_sub')
     return ctr_mat
 
@@ -652,13 +652,13 @@ def shrink(mat, tao, mode='normal'):
         return tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
 
     if mode == 'complicated':
-        vecr1 = tf.ones((shape[0], 1))
-        vecr2 = tf.ones((shape[1], 1))
+        vecr1 = tf.ones((shape[0], 1), dtype=mat.dtype)
+        vecr2 = tf.ones((shape[1], 1), dtype=mat.dtype)
         delta_num = tf.div(tf.matmul(tf.matmul(tf.transpose(vecr1), mat), vecr2), tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                       dtype=mat.dtype)), name='delta_num')
         tmp1 = tf.matmul(tf.matmul(u, sm), v, transpose_b=True)
         tmp2 = (tf.maximum(tf.cast(0, dtype=mat.dtype), delta_num-tao)
-                +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape)/tf.sqrt(tf.cast(shape[0]*shape[1],
+                +tf.minimum(tf.cast(0, dtype=mat.dtype), delta_num+tao))*tf.ones(shape, dtype=mat.dtype)/tf.sqrt(tf.cast(shape[0]*shape[1],
                                                                                                       dtype=mat.dtype))
         print('shrink complicated')
         return tmp1+tmp2
-- 
2.43.0

