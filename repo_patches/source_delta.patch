From 83901a4943c8c4b315dccc2da3f5841fb3f3ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:45 +0000
Subject: [PATCH 01/40] fix: Dish layer back-propagates through its
 pre-activation, not its input

---
 thinc/layers/dish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/dish.py b/thinc/layers/dish.py
index dc871ad..6645220 100644
--- a/thinc/layers/dish.py
+++ b/thinc/layers/dish.py
@@ -47,7 +47,7 @@ def forward(
     Y = model.ops.dish(Y_preact)
 
     def backprop(dY: Floats2d) -> Floats2d:
-        dY = model.ops.backprop_dish(dY, X, inplace=False)
+        dY = model.ops.backprop_dish(dY, Y_preact, inplace=False)
         model.inc_grad("b", dY.sum(axis=0))
         model.inc_grad("W", model.ops.gemm(dY, X, trans1=True))
         return model.ops.gemm(dY, W)
-- 
2.43.0


From 8a2a708e058619785d5bdd168405b7c13bd1f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:45 +0000
Subject: [PATCH 02/40] fix: MultiSoftmax normalises each group of outputs

---
 thinc/layers/multisoftmax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/multisoftmax.py b/thinc/layers/multisoftmax.py
index d07b684..e0c1045 100644
--- a/thinc/layers/multisoftmax.py
+++ b/thinc/layers/multisoftmax.py
@@ -40,7 +40,7 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     Y += b
     i = 0
     for out_size in nOs:
-        model.ops.softmax(Y[:, i : i + out_size], inplace=True)
+        Y[:, i : i + out_size] = model.ops.softmax(Y[:, i : i + out_size])
         i += out_size
     return Y, backprop
 
-- 
2.43.0


From 5d9137ef9cc9762b565697414c525e98a1230e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:37 +0000
Subject: [PATCH 03/40] fix: Embed and HashEmbed no longer scale the caller's
 gradient in place

---
 thinc/layers/embed.py     | 2 +-
 thinc/layers/hashembed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/embed.py b/thinc/layers/embed.py
index 9d8d34e..2c72efe 100644
--- a/thinc/layers/embed.py
+++ b/thinc/layers/embed.py
@@ -61,7 +61,7 @@ def forward(
 
     def backprop(d_output: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_output *= drop_mask
+            d_output = d_output * drop_mask
         d_vectors = model.ops.alloc2f(*vectors.shape)
         model.ops.scatter_add(d_vectors, ids, d_output)
         model.inc_grad("E", d_vectors)
diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 7ecd9b2..22a10dc 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -79,7 +79,7 @@ def forward(
 
     def backprop(d_vectors: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_vectors *= drop_mask
+            d_vectors = d_vectors * drop_mask
         dE = model.ops.alloc2f(*vectors.shape)
         keysT = model.ops.as_contig(keys.T, dtype="i")
         for i in range(keysT.shape[0]):
-- 
2.43.0


From 28bee76b98e715d987204256e10e15e19da28722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 04/40] fix: gather_add rejects every out-of-range index

---
 thinc/backends/cpu_kernels.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 95808ee..7b2dd12 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -470,7 +470,7 @@ void cpu_gather_add(typename axpy<F>::ptr axpy, F* out_bo, const F* table_to, co
      for (L b = 0; b < B; ++b) {
         for (L k = 0; k < K; ++k) {
             I idx = indices_bk[b * K + k];
-            if (idx > T) {
+            if (idx < 0 || idx >= T) {
                 throw std::out_of_range("Embedding index out-of-bounds");
             }
             axpy(O, 1.0, table_to + idx * O, 1, out_bo + b * O, 1);
-- 
2.43.0


From 07e90a445efad652b90eb9edd5f2d8e95e19949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 05/40] fix: scatter_add rejects indices beyond the table

---
 thinc/backends/numpy_ops.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index bb38bae..224f448 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -510,6 +510,8 @@ class NumpyOps(Ops):
         and values.ndim == 2 \
         and values.shape[0] == indices.shape[0] \
         and values.shape[1] == table.shape[1]:
+            if indices.shape[0] and indices.max() >= table.shape[0]:
+                raise IndexError(f"index {indices.max()} is out of bounds for a table with {table.shape[0]} rows")
             cpu_scatter_add(self.cblas(), <float*>table.data,
                 <int*>indices.data, <float*>values.data,
                 indices.shape[0], table.shape[1])
-- 
2.43.0


From 65d6958575772824860a2fbfba7a6787a4dcf5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 06/40] fix: backprop_maxout checks shapes and negative indices
 and accepts empty batches

---
 thinc/backends/cpu_kernels.hh | 2 +-
 thinc/backends/numpy_ops.pyx  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 7b2dd12..f43d555 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -132,7 +132,7 @@ void cpu_backprop_maxout(A* dX__bop, const A* dX__bo, const L* which__bo,
 
     for (L b = 0; b < B; ++b) {
         for (L o = 0; o < O; ++o) {
-            if (*which__bo >= P) {
+            if (*which__bo < 0 || *which__bo >= P) {
                 throw std::out_of_range(std::string("index ") + std::to_string(*which__bo) + " is out of bounds for maxout with size " + std::to_string(P));
             }
 
diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 224f448..b95e150 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -209,6 +209,11 @@ class NumpyOps(Ops):
         cdef int B = dY.shape[0]
         cdef int O = dY.shape[1]
 
+        if which.shape[0] != B or which.shape[1] != O:
+            raise ValueError(f"arrays have incompatible shapes: {(B, O)} and {(which.shape[0], which.shape[1])}")
+        if B == 0 or O == 0:
+            return numpy.zeros((B, O, P), dtype='float32' if reals2d_ft is float2d_t else 'float64')
+
         cdef np.ndarray dX
         if reals2d_ft == float2d_t:
             dX = numpy.zeros((B, O, P), dtype='float32')
-- 
2.43.0


From 20fdb70c410acbe325fec33c4f9249818ae571e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 07/40] fix: backprop_reduce_* reject gradients that do not
 match the lengths

---
 thinc/backends/cpu_kernels.hh |  2 +-
 thinc/backends/numpy_ops.pyx  | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index f43d555..38cedb9 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -189,7 +189,7 @@ void cpu_backprop_reduce_max(A* dX__to, const A* d_maxes__bo, const L* which__bo
     for (const L* length = lengths__b; length < lengths__b + B; ++length) {
         for (L i = 0; i < O; ++i) {
             L item = which__bo[i];
-            if (item >= *length) {
+            if (item < 0 || item >= *length) {
                 throw std::out_of_range(std::string("index ") + std::to_string(item) + " is out of bounds for maxout with length " + std::to_string(*length));
             }
 
diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index b95e150..5caf13b 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -366,6 +366,9 @@ class NumpyOps(Ops):
         cdef int O = d_means.shape[1]
         cdef int T = 0
 
+        if d_means.shape[0] != B:
+            raise ValueError(f"expected one gradient per sequence, got {d_means.shape[0]} for {B} sequences")
+
         for length in lengths[:B]:
             if length < 0:
                 raise ValueError(f"all sequence lengths must be >= 0, got {length}")
@@ -413,6 +416,9 @@ class NumpyOps(Ops):
         cdef int O = d_sums.shape[1]
         cdef int T = 0
 
+        if d_sums.shape[0] != B:
+            raise ValueError(f"expected one gradient per sequence, got {d_sums.shape[0]} for {B} sequences")
+
         for length in lengths[:B]:
             if length < 0:
                 raise ValueError(f"all sequence lengths must be >= 0, got {length}")
@@ -463,6 +469,11 @@ class NumpyOps(Ops):
         cdef int O = d_maxes.shape[1]
         cdef int T = 0
 
+        if d_maxes.shape[0] != B:
+            raise ValueError(f"expected one gradient per sequence, got {d_maxes.shape[0]} for {B} sequences")
+        if which.shape[0] != B or which.shape[1] != O:
+            raise ValueError(f"arrays have incompatible shapes: {(B, O)} and {(which.shape[0], which.shape[1])}")
+
         for length in lengths[:B]:
             if length <= 0:
                 raise ValueError(f"all sequence lengths must be > 0, got {length}")
-- 
2.43.0


From 35b4c060086a9bb2470b78fb1d6735b4ed6d7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 08/40] fix: reduce_sum and reduce_mean accept batches of empty
 sequences

---
 thinc/backends/numpy_ops.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 5caf13b..dcad2db 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -345,7 +345,9 @@ class NumpyOps(Ops):
         cdef int O = X.shape[1]
         cdef int T = X.shape[0]
 
-        if B == 0 or O == 0:
+        if T == 0 and any(length != 0 for length in lengths):
+            raise ValueError("lengths must be zero when there are no rows")
+        if B == 0 or O == 0 or T == 0:
             if reals2d_ft is float2d_t:
                 return numpy.zeros(shape=(B, O), dtype="float32")
             else:
@@ -395,7 +397,9 @@ class NumpyOps(Ops):
         cdef int O = X.shape[1]
         cdef int T = X.shape[0]
 
-        if B == 0 or O == 0:
+        if T == 0 and any(length != 0 for length in lengths):
+            raise ValueError("lengths must be zero when there are no rows")
+        if B == 0 or O == 0 or T == 0:
             if reals2d_ft is float2d_t:
                 return numpy.zeros(shape=(B, O), dtype="float32")
             else:
-- 
2.43.0


From e4f64f4ed288ba24f5645cebf601a9cacabc8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 09/40] fix: ngrams of an empty sequence is empty

---
 thinc/backends/numpy_ops.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index dcad2db..7fc9610 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -557,7 +557,7 @@ class NumpyOps(Ops):
         return weights, gradient, mom1, mom2
 
     def ngrams(self, int n, const uint64_t[::1] keys):
-        if n < 1:
+        if n < 1 or keys.shape[0] < n:
             return self.alloc((0,), dtype="uint64")
         keys_ = <uint64_t*>&keys[0]
         length = max(0, keys.shape[0]-(n-1))
-- 
2.43.0


From e5fbd0fbfd32e3df7b1b35b16aca7d81dbc77ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:05 +0000
Subject: [PATCH 10/40] fix: add does not modify its input or incoming gradient
 in place

---
 thinc/layers/add.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index a3aa1af..b60e67c 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -36,13 +36,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     callbacks = []
     for layer in model.layers[1:]:
         layer_Y, layer_callback = layer(X, is_train=is_train)
-        Y += layer_Y
+        Y = Y + layer_Y
         callbacks.append(layer_callback)
 
     def backprop(dY: InT) -> OutT:
         dX = first_callback(dY)
         for callback in callbacks:
-            dX += callback(dY)
+            dX = dX + callback(dY)
         return dX
 
     return Y, backprop
-- 
2.43.0


From a09ecccbcb73acbfa4850cc38ec95bb4b66b8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:05 +0000
Subject: [PATCH 11/40] fix: tuplify does not modify its incoming gradients in
 place

---
 thinc/layers/tuplify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/tuplify.py b/thinc/layers/tuplify.py
index 35dfdc6..1de40d7 100644
--- a/thinc/layers/tuplify.py
+++ b/thinc/layers/tuplify.py
@@ -41,7 +41,7 @@ def tuplify_forward(model, X, is_train):
         dXs = [bp(dY) for bp, dY in zip(backprops, dYs)]
         dX = dXs[0]
         for dx in dXs[1:]:
-            dX += dx
+            dX = dX + dx
         return dX
 
     return tuple(Ys), backprop_tuplify
-- 
2.43.0


From 43c50e72585586eaaccda5f5d56867c9e4a362e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:05 +0000
Subject: [PATCH 12/40] fix: residual does not modify padded input or gradient
 in place

---
 thinc/layers/residual.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index f213e9b..642d6d9 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -33,8 +33,9 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
         elif isinstance(d_output, Ragged):
             return Ragged(d_output.data + dX.data, dX.lengths)
         elif isinstance(X, Padded):
-            dX.data += d_output.data
-            return dX
+            return Padded(
+                d_output.data + dX.data, dX.size_at_t, dX.lengths, dX.indices
+            )
         else:
             return d_output + dX
 
@@ -44,8 +45,7 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     elif isinstance(X, Ragged):
         return Ragged(X.data + Y.data, X.lengths), backprop
     elif isinstance(X, Padded):
-        Y.data += X.data
-        return Y, backprop
+        return Padded(X.data + Y.data, Y.size_at_t, Y.lengths, Y.indices), backprop
     else:
         return X + Y, backprop
 
-- 
2.43.0


From 811201c6b63235e450244963e4669a284bf206c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:05 +0000
Subject: [PATCH 13/40] fix: with_reshape hands its layer a 2d gradient and
 restores the input shape

---
 thinc/layers/with_reshape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_reshape.py b/thinc/layers/with_reshape.py
index b40ada7..7490ec7 100644
--- a/thinc/layers/with_reshape.py
+++ b/thinc/layers/with_reshape.py
@@ -31,8 +31,8 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     Y = model.ops.reshape3(Y2d, *final_shape)
 
     def backprop(dY: InT) -> InT:
-        reshaped = model.ops.reshape2(dY, nB * nT, -1)
-        return Y2d_backprop(model.ops.reshape3(reshaped, *initial_shape))
+        reshaped = model.ops.reshape2(dY, nB * nT, final_shape[-1])
+        return model.ops.reshape3(Y2d_backprop(reshaped), *initial_shape)
 
     return cast(InT, Y), backprop
 
-- 
2.43.0


From dafcd636d1d90add0fd053713aa18cd39210c730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:05 +0000
Subject: [PATCH 14/40] fix: bidirectional gives the backward layer its own
 half of the gradient

---
 thinc/layers/bidirectional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/bidirectional.py b/thinc/layers/bidirectional.py
index 8cea04e..fc10cfb 100644
--- a/thinc/layers/bidirectional.py
+++ b/thinc/layers/bidirectional.py
@@ -60,7 +60,7 @@ def _split(ops: Ops, Xp: Padded) -> Tuple[Padded, Padded]:
     half = Xp.data.shape[-1] // 2
     # I don't know how to write these ellipsis in the overloads :(
     X_l2r = Xp.data[cast(Tuple[slice, slice], (..., slice(None, half)))]
-    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half)))]
+    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half, None)))]
     return (
         Padded(X_l2r, Xp.size_at_t, Xp.lengths, Xp.indices),
         Padded(X_r2l, Xp.size_at_t, Xp.lengths, Xp.indices),
-- 
2.43.0


From 84ee60bae26260be77c38c9f85dd0143c0c3b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:30 +0000
Subject: [PATCH 15/40] fix: with_flatten splits its input gradient by item

---
 thinc/layers/with_flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index 9658a78..f932327 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -31,7 +31,7 @@ def forward(
         dYflat = model.ops.flatten(dYnest)  # type: ignore[arg-type, var-annotated]
         # type ignore necessary for older versions of Mypy/Pydantic
         dXflat = backprop_layer(dYflat)
-        dXnest = layer.ops.xp.split(dXflat, splits, axis=-1)
+        dXnest = layer.ops.xp.split(dXflat, splits, axis=0)
         return dXnest
 
     return Ynest, backprop
-- 
2.43.0


From 2714dda776051bdd9c56474c80792defd809cc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:30 +0000
Subject: [PATCH 16/40] fix: concatenate sums list and ragged gradients,
 without in-place changes

---
 thinc/layers/concatenate.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index e810cef..83d276f 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -14,7 +14,7 @@ from typing import (
 from ..backends import NumpyOps
 from ..config import registry
 from ..model import Model
-from ..types import Array2d, Ragged, XY_XY_OutT
+from ..types import Array2d, Padded, Ragged, XY_XY_OutT
 from ..util import get_width
 from .noop import noop
 
@@ -83,16 +83,27 @@ def _array_forward(
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_output[:, start : start + width])
             gradient = bwd(dY)
-            if add_gradients:
-                dX += gradient
-            elif add_gradients_data:
-                dX.data += gradient.data
+            if add_gradients or add_gradients_data:
+                dX = _add_gradients(dX, gradient)
             start += width
         return dX
 
     return output, backprop
 
 
+def _add_gradients(dX, gradient):
+    """Sum the gradients of two layers, without modifying either of them."""
+    if isinstance(dX, Ragged):
+        return Ragged(dX.dataXd + gradient.dataXd, dX.lengths)
+    elif isinstance(dX, Padded):
+        data = dX.data + gradient.data
+        return Padded(data, dX.size_at_t, dX.lengths, dX.indices)
+    elif isinstance(dX, list) and len(dX) == len(gradient):
+        return [dx + grad for dx, grad in zip(dX, gradient)]
+    else:
+        return dX + gradient
+
+
 def _ragged_forward(
     model: Model[InT, OutT], X, Ys: List, callbacks, is_train: bool
 ) -> Tuple[Ragged, Callable]:
@@ -109,7 +120,7 @@ def _ragged_forward(
             dY = Ragged(
                 model.ops.as_contig(d_array[:, start : start + width]), d_output.lengths
             )
-            dX += bwd(dY)
+            dX = _add_gradients(dX, bwd(dY))
             start += width
         return dX
 
@@ -129,7 +140,7 @@ def _list_forward(
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_out_array[:, start : start + width])
             dY = model.ops.unflatten(dY, lengths)
-            dX += bwd(dY)
+            dX = _add_gradients(dX, bwd(dY))
             start += width
         return dX
 
-- 
2.43.0


From 15b10c5db21d1d1363bd49a3c3d52d55322c3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 17/40] fix: RAdam applies lr_scale

---
 thinc/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 071ad4e..532d5d2 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -301,7 +301,7 @@ class Optimizer(object):
             "exp_avg_sq": self.mom2[key],
         }
         group = {
-            "lr": self.learn_rate(self.step, **schedule_args),
+            "lr": self.learn_rate(self.step, **schedule_args) * lr_scale,
             "betas": [
                 self.b1(self.step, **schedule_args),
                 self.b2(self.step, **schedule_args),
-- 
2.43.0


From e083e4865049893d2db01c3eae5f07902bc3e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 18/40] fix: RAdam buffer distinguishes different betas

---
 thinc/optimizers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 532d5d2..bb7c0d2 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -324,10 +324,13 @@ class Optimizer(object):
 
         state["step"] += 1
         buffered = group["buffer"][int(state["step"] % 10)]
-        if state["step"] == buffered[0]:
+        # The betas can differ between updates with the same count, because the
+        # schedules depend on the optimizer step and the key.
+        buffer_key = (state["step"], beta1, beta2)
+        if buffer_key == buffered[0]:
             N_sma, step_size = buffered[1], buffered[2]
         else:
-            buffered[0] = state["step"]
+            buffered[0] = buffer_key
             beta2_t = beta2 ** state["step"]
             N_sma_max = 2 / (1 - beta2) - 1
             N_sma = N_sma_max - 2 * state["step"] * beta2_t / (1 - beta2_t)
-- 
2.43.0


From 11f8520ba51f7d3e4c22840d51c68bf18a317fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 19/40] fix: Adam and RAdam clear gradients that are not
 contiguous

---
 thinc/optimizers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index bb7c0d2..844eccf 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -254,14 +254,15 @@ class Optimizer(object):
                 self.grad_clip(self.step, **schedule_args),
             )
         if self.use_radam:
-            weights, gradient = self._radam(
+            # The returned gradient can be a copy, keep ours so it gets cleared.
+            weights, _ = self._radam(
                 ops, weights, gradient, lr_scale, key, nr_upd
             )
         elif (
             self.b1(self.step, **schedule_args) > 0.0
             and self.b2(self.step, **schedule_args) > 0.0
         ):
-            weights, gradient = self._adam(
+            weights, _ = self._adam(
                 ops, weights, gradient, lr_scale, key, nr_upd
             )
         elif self.b2(self.step, **schedule_args) > 0.0:  # pragma: no cover
-- 
2.43.0


From a7e226f925c7501861f05572a836946f7d797218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 20/40] fix: use_params and define_operators undo their changes
 when the block raises

---
 thinc/model.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index ba49215..59214fc 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -170,8 +170,10 @@ class Model(Generic[InT, OutT]):
                 model = Relu(512) >> Relu(512) >> Softmax()
         """
         token = cls._context_operators.set(dict(operators))
-        yield
-        cls._context_operators.reset(token)
+        try:
+            yield
+        finally:
+            cls._context_operators.reset(token)
 
     def has_dim(self, name: str) -> Optional[bool]:
         """Check whether the model has a dimension of a given name. If the
@@ -355,19 +357,20 @@ class Model(Generic[InT, OutT]):
         values are arrays of weight values.
         """
         backup = {}
-        for name in self.param_names:
-            key = (self.id, name)
-            if key in params:
-                backup[name] = self.get_param(name)
-                self.set_param(name, params[key])
-
-        with contextlib.ExitStack() as stack:
-            for layer in self.layers:
-                stack.enter_context(layer.use_params(params))
-            for shim in self.shims:
-                stack.enter_context(shim.use_params(params))
-            yield
-        if backup:
+        try:
+            for name in self.param_names:
+                key = (self.id, name)
+                if key in params:
+                    backup[name] = self.get_param(name)
+                    self.set_param(name, params[key])
+
+            with contextlib.ExitStack() as stack:
+                for layer in self.layers:
+                    stack.enter_context(layer.use_params(params))
+                for shim in self.shims:
+                    stack.enter_context(shim.use_params(params))
+                yield
+        finally:
             for name, param in backup.items():
                 self.set_param(name, param)
 
-- 
2.43.0


From 2f189292458517bb806c822f58e59ecbb3d858bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:10 +0000
Subject: [PATCH 21/40] fix: make_tempfile and data_validation clean up when
 the block raises

---
 thinc/util.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/thinc/util.py b/thinc/util.py
index 7a37dfa..a580afd 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -595,9 +595,11 @@ def validate_fwd_input_output(
 @contextlib.contextmanager
 def make_tempfile(mode="r"):
     f = tempfile.NamedTemporaryFile(mode=mode, delete=False)
-    yield f
-    f.close()
-    os.remove(f.name)
+    try:
+        yield f
+    finally:
+        f.close()
+        os.remove(f.name)
 
 
 @contextlib.contextmanager
@@ -605,8 +607,10 @@ def data_validation(validation):
     with threading.Lock():
         prev = DATA_VALIDATION.get()
         DATA_VALIDATION.set(validation)
-        yield
-        DATA_VALIDATION.set(prev)
+        try:
+            yield
+        finally:
+            DATA_VALIDATION.set(prev)
 
 
 @contextlib.contextmanager
-- 
2.43.0


From d649ad632706793847d2ca1ba96a9003ee4f0639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:10 +0000
Subject: [PATCH 22/40] fix: shims restore their parameters when a use_params
 block raises

---
 thinc/shims/pytorch.py    | 8 +++++---
 thinc/shims/tensorflow.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 9dd1511..1cf69b8 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -188,9 +188,11 @@ class PyTorchShim(Shim):
                 state_dict[k.replace(key_prefix, "")] = xp2torch(v, device=self.device)
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
-            self._model.load_state_dict(state_dict)
-            yield
-            self._model.load_state_dict(backup)
+            try:
+                self._model.load_state_dict(state_dict)
+                yield
+            finally:
+                self._model.load_state_dict(backup)
         else:
             yield
 
diff --git a/thinc/shims/tensorflow.py b/thinc/shims/tensorflow.py
index 0668ba9..3947b7b 100644
--- a/thinc/shims/tensorflow.py
+++ b/thinc/shims/tensorflow.py
@@ -197,9 +197,11 @@ class TensorFlowShim(Shim):
                 state_dict[k.replace(key_prefix, "")] = v
         if state_dict:
             backup = self._create_state_dict()
-            self._load_weights_from_state_dict(state_dict)
-            yield
-            self._load_weights_from_state_dict(backup)
+            try:
+                self._load_weights_from_state_dict(state_dict)
+                yield
+            finally:
+                self._load_weights_from_state_dict(backup)
         else:
             yield
 
-- 
2.43.0


From 1d2d8a3758c2b7c8e57fdc2bf184afa81e49e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:56 +0000
Subject: [PATCH 23/40] fix: Ragged keeps the width of empty data

---
 thinc/types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thinc/types.py b/thinc/types.py
index 9a9487c..1ed2c20 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1182,7 +1182,10 @@ class Ragged:
         if data.size:
             self.data = cast(Array2d, data.reshape((data.shape[0], -1)))
         else:
-            self.data = cast(Array2d, data.reshape((0, 0)))
+            width = 1
+            for dim in data.shape[1:]:
+                width *= dim
+            self.data = cast(Array2d, data.reshape((data.shape[0], width)))
         self.data_shape = (-1,) + data.shape[1:]
 
     @property
-- 
2.43.0


From 02a71b4ec6a7c7e78e7dc633e3dcb94b97835818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:08 +0000
Subject: [PATCH 24/40] fix: flattening only empty arrays keeps their dtype

ops.flatten returned float32 for a list of integer arrays that are all
empty, so with_array(Embed()) raised IndexError on such a batch.
---
 thinc/backends/ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index e3fec5c..c9ca347 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -328,9 +328,10 @@ class Ops:
             return self.alloc((0,) * ndim_if_empty, dtype=dtype or "f")
         xp = get_array_module(X[0])
         shape_if_empty = X[0].shape
+        dtype_if_empty = X[0].dtype
         X = [x for x in X if x.size != 0]
         if len(X) == 0:
-            return self.alloc(shape_if_empty, dtype=dtype or "f")
+            return self.alloc(shape_if_empty, dtype=dtype or dtype_if_empty)
         if int(pad) >= 1:
             padded = []
             for x in X:
-- 
2.43.0


From 952801408efacd5293e65df50f5ba1837506cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 25/40] fix: cross-entropy loss does not modify the caller's
 targets

---
 thinc/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/loss.py b/thinc/loss.py
index 756dac4..5485dca 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -129,7 +129,7 @@ class CategoricalCrossentropy(Loss):
         # Transform negative annotations to a 0 for the negated value
         # + mask all other values for that row
         if negatives_mask is not None:
-            truths *= negatives_mask
+            truths = truths * negatives_mask
             truths[truths == -1] = 0
             negatives_mask[negatives_mask == -1] = 1
             mask *= negatives_mask
-- 
2.43.0


From 6b576d74de3e2d99f0f551d1b45f494e77ed081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:22 +0000
Subject: [PATCH 26/40] fix: indexing a Padded batch selects the sequences
 asked for

---
 thinc/types.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 1ed2c20..79dd0b4 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1132,32 +1132,34 @@ class Padded:
         return self.lengths.shape[0]
 
     def __getitem__(self, index: Union[int, slice, Ints1d]) -> "Padded":
+        xp = get_array_module(self.data)
+        n = len(self)
+        rows: Union[slice, Ints1d]
         if isinstance(index, int):
+            if not -n <= index < n:
+                raise IndexError("Padded index out of range")
             # Slice to keep the dimensionality
-            return Padded(
-                self.data[:, index : index + 1],
-                self.lengths[index : index + 1],
-                self.lengths[index : index + 1],
-                self.indices[index : index + 1],
-            )
-        elif isinstance(index, slice):
-            return Padded(
-                self.data[:, index],
-                self.lengths[index],
-                self.lengths[index],
-                self.indices[index],
-            )
+            start = index + n if index < 0 else index
+            rows = slice(start, start + 1)
+        elif isinstance(index, slice) and (index.step is None or index.step > 0):
+            rows = index
         else:
             # If we get a sequence of indices, we need to be careful that
             # we maintain the length-sorting, while also keeping the mapping
             # back to the original order correct.
-            sorted_index = list(sorted(index))
-            return Padded(
-                self.data[sorted_index],
-                self.size_at_t[sorted_index],
-                self.lengths[sorted_index],
-                self.indices[index],  # Use original, to maintain order.
-            )
+            if isinstance(index, slice):
+                index = range(n)[index]
+            sorted_index = sorted([int(i) + n if i < 0 else int(i) for i in index])
+            rows = xp.asarray(sorted_index, dtype="i")
+        lengths = self.lengths[rows]
+        steps = xp.arange(self.data.shape[0]).reshape((-1, 1))
+        size_at_t = (lengths.reshape((1, -1)) > steps).sum(axis=1)
+        return Padded(
+            self.data[:, rows],
+            size_at_t.astype(self.size_at_t.dtype),
+            lengths,
+            self.indices[rows],
+        )
 
 
 @dataclass
-- 
2.43.0


From e8e7c905cb82404ba057230bef2c9ec568199d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:22 +0000
Subject: [PATCH 27/40] fix: indexing a Ragged batch handles negative, open,
 strided and empty selections

---
 thinc/types.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 79dd0b4..aad1893 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1206,22 +1206,27 @@ class Ragged:
             raise IndexError("Ragged arrays do not support 2d indexing.")
         starts = self._get_starts()
         ends = self._get_ends()
+        data = self.dataXd
         if isinstance(index, int):
             s = starts[index]
             e = ends[index]
-            return Ragged(self.data[s:e], self.lengths[index : index + 1])
+            return Ragged(data[s:e], self.lengths[index:][:1])
         elif isinstance(index, slice):
             lengths = self.lengths[index]
             if len(lengths) == 0:
-                return Ragged(self.data[0:0].reshape(self.data_shape), lengths)
-            start = starts[index][0] if index.start >= 1 else 0
-            end = ends[index][-1]
-            return Ragged(self.data[start:end].reshape(self.data_shape), lengths)
-        else:
-            # There must be a way to do this "properly" :(. Sigh, hate numpy.
-            xp = get_array_module(self.data)
-            data = xp.vstack([self[int(i)].data for i in index])
-            return Ragged(data.reshape(self.data_shape), self.lengths[index])
+                return Ragged(data[0:0], lengths)
+            if index.step is None or index.step == 1:
+                start = starts[index][0]
+                end = ends[index][-1]
+                return Ragged(data[start:end], lengths)
+            index = range(len(self))[index]
+        # There must be a way to do this "properly" :(. Sigh, hate numpy.
+        xp = get_array_module(self.data)
+        rows = xp.asarray(index, dtype="i")
+        seqs = [data[starts[int(i)] : ends[int(i)]] for i in rows]
+        return Ragged(
+            xp.concatenate(seqs) if len(seqs) else data[0:0], self.lengths[rows]
+        )
 
     def _get_starts_ends(self) -> Ints1d:
         if self.starts_ends is None:
-- 
2.43.0


From 472ff18dacef6a2557f4b2b79873d9cd3d4d986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:18 +0000
Subject: [PATCH 28/40] fix: removing and replacing nodes works when a
 reference is unset

---
 thinc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index 59214fc..592fcca 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -435,7 +435,7 @@ class Model(Generic[InT, OutT]):
         tree = set(self.walk())
         for node in tree:
             for name in node.ref_names:
-                ref = node.get_ref(name)
+                ref = node.maybe_get_ref(name)
                 if ref is not None and ref not in tree:
                     node.set_ref(name, None)
 
@@ -461,7 +461,7 @@ class Model(Generic[InT, OutT]):
                     new if layer is old else layer for layer in node._layers
                 ]
                 for name in node.ref_names:
-                    if node.get_ref(name) is old:
+                    if node.maybe_get_ref(name) is old:
                         node.set_ref(name, new)
 
         return seen
-- 
2.43.0


From ea23cb88cdd7ab63696ac901328b7f2c4b79837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:18 +0000
Subject: [PATCH 29/40] fix: copying a model keeps its references and ops

---
 thinc/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thinc/model.py b/thinc/model.py
index 592fcca..9ad8e35 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -522,7 +522,14 @@ class Model(Generic[InT, OutT]):
             attrs=copy.deepcopy(self._attrs),
             layers=copied_layers,
             shims=copied_shims,
+            ops=self.ops,
         )
+        seen[id(self)] = copied
+        for name in self.ref_names:
+            ref = self.maybe_get_ref(name)
+            copied._refs[name] = (
+                None if ref is None else cast(Optional[Model], seen.get(id(ref)))
+            )
         for name in self.grad_names:
             copied.set_grad(name, self.get_grad(name).copy())
         return cast(SelfT, copied)
-- 
2.43.0


From 4474216e7d840188987fe77c19956ab017747561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:18 +0000
Subject: [PATCH 30/40] fix: remap_ids layers do not share the default mapping
 table

---
 thinc/layers/remap_ids.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/remap_ids.py b/thinc/layers/remap_ids.py
index 3801b70..897f4b7 100644
--- a/thinc/layers/remap_ids.py
+++ b/thinc/layers/remap_ids.py
@@ -14,13 +14,17 @@ OutT_v1 = Ints2d
 
 @registry.layers("remap_ids.v1")
 def remap_ids(
-    mapping_table: Dict[Any, int] = {}, default: int = 0, dtype: DTypes = "i"
+    mapping_table: Optional[Dict[Any, int]] = None,
+    default: int = 0,
+    dtype: DTypes = "i",
 ) -> Model[InT_v1, OutT_v1]:
     """Remap string or integer inputs using a mapping table, usually as a
     preprocess before embeddings. The mapping table can be passed in on input,
     or updated after the layer has been created. The mapping table is stored in
     the "mapping_table" attribute.
     """
+    if mapping_table is None:
+        mapping_table = {}
     return Model(
         "remap_ids",
         forward,
-- 
2.43.0


From 661054c1392e6e490b138488213ed9e9b6cf1f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:18 +0000
Subject: [PATCH 31/40] fix: remap_ids.v2 returns a zero gradient of the shape
 of its input

---
 thinc/layers/remap_ids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/remap_ids.py b/thinc/layers/remap_ids.py
index 897f4b7..5a55cd8 100644
--- a/thinc/layers/remap_ids.py
+++ b/thinc/layers/remap_ids.py
@@ -94,7 +94,7 @@ def forward_v2(
 
     def backprop(dY: OutT) -> InT:
         if xp_input:
-            return model.ops.xp.empty(dY.shape)  # type: ignore
+            return model.ops.alloc(inputs.shape, dtype=inputs.dtype)  # type: ignore
         else:
             return []
 
-- 
2.43.0


From 9e91d9454d5a56ab837a3b518dbff8b457a08b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:43 +0000
Subject: [PATCH 32/40] fix: gemm checks the shape of 'out' and fills a
 non-contiguous 'out'

---
 thinc/backends/numpy_ops.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 7fc9610..7b5a66b 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -97,7 +97,10 @@ class NumpyOps(Ops):
             msg = "Shape mismatch for blis.gemm: (%d, %d), (%d, %d)"
             raise ValueError(msg % (nM, nK, nK_b, nN))
 
+        cdef np.ndarray dest = out
         if out is not None:
+            if out.ndim != 2 or out.shape[0] != nM or out.shape[1] != nN:
+                raise ValueError(f"Provided 'out' array should have shape {(nM, nN)}, but found {(<object>out).shape}")
             out = self.as_contig(out)
         else:
             # Can be uninitialized as 'beta' is zero.
@@ -123,6 +126,9 @@ class NumpyOps(Ops):
         else:
             raise ValueError(f"unsupported or mismatching array data types; got '{x.dtype}', '{y.dtype}', '{out.dtype}'")
 
+        if dest is not None and dest is not out:
+            dest[:] = out
+            return dest
         return out
 
     def relu(self, np.ndarray X, inplace=False):
-- 
2.43.0


From 442016d1c6e0724abf5f74b5ecb48f8326bd457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:43 +0000
Subject: [PATCH 33/40] fix: relu and mish use the flat kernels only for
 contiguous arrays

---
 thinc/backends/numpy_ops.pyx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 7b5a66b..eab891d 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -134,11 +134,11 @@ class NumpyOps(Ops):
     def relu(self, np.ndarray X, inplace=False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if X.dtype == "float32" and X.flags.c_contiguous:
             Y = _inplace_or_copy(X, inplace)
             cpu_relu(<float *>Y.data, <int>Y.size)
             return Y
-        elif X.dtype == "float64":
+        elif X.dtype == "float64" and X.flags.c_contiguous:
             Y = _inplace_or_copy(X, inplace)
             cpu_relu(<double *>Y.data, <int>Y.size)
             return Y
@@ -152,7 +152,8 @@ class NumpyOps(Ops):
         cdef float* dX_ptr
         cdef const float* Y_ptr = <const float*>Y.data
         cdef np.ndarray dX
-        if dY.dtype == "float32" and Y.dtype == "float32":
+        if dY.dtype == "float32" and Y.dtype == "float32" \
+        and dY.flags.c_contiguous and Y.flags.c_contiguous:
             dX = _inplace_or_copy(dY, inplace)
             dX_ptr = <float*>dX.data
             for i in range(size):
@@ -233,27 +234,28 @@ class NumpyOps(Ops):
     def mish(self, np.ndarray X, threshold=20.0, inplace: bool = False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if X.dtype == "float32" and X.flags.c_contiguous:
             Y = _inplace_or_copy(X, inplace)
             cpu_mish(<float *>Y.data, <int>Y.size, <float>threshold)
             return Y
-        elif X.dtype == "float64":
+        elif X.dtype == "float64" and X.flags.c_contiguous:
             Y = _inplace_or_copy(X, inplace)
             cpu_mish(<double *>Y.data, <int>Y.size, <double>threshold)
             return Y
         else:
-            return super().mish(X, inplace=inplace)
+            return super().mish(X, threshold, inplace)
 
     def backprop_mish(self, np.ndarray dY, np.ndarray X, threshold=20.0, inplace=False):
         _check_compatible_shape(dY, X)
 
         cdef np.ndarray dX
+        contiguous = dY.flags.c_contiguous and X.flags.c_contiguous
 
-        if dY.dtype == "float32" and X.dtype == "float32":
+        if dY.dtype == "float32" and X.dtype == "float32" and contiguous:
             dX = _inplace_or_copy(dY, inplace)
             cpu_backprop_mish(<float*>dX.data, <float*>X.data, <int>X.size, <float>threshold)
             return dX
-        elif dY.dtype == "float64" and X.dtype == "float64":
+        elif dY.dtype == "float64" and X.dtype == "float64" and contiguous:
             dX = _inplace_or_copy(dY, inplace)
             cpu_backprop_mish(<double*>dX.data, <double*>X.data, <int>X.size, <double>threshold)
             return dX
-- 
2.43.0


From 27bcff5b1ad3b3a3f0219a115bd896c92cf3127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:43 +0000
Subject: [PATCH 34/40] fix: adam refuses arrays that are not contiguous

---
 thinc/backends/numpy_ops.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index eab891d..5f62f35 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -548,8 +548,10 @@ class NumpyOps(Ops):
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-    def adam(self, np.ndarray[np.float32_t] weights, np.ndarray[np.float32_t] gradient,
-            np.ndarray[np.float32_t] mom1, np.ndarray[np.float32_t] mom2,
+    def adam(self, np.ndarray[np.float32_t, ndim=1, mode="c"] weights,
+            np.ndarray[np.float32_t, ndim=1, mode="c"] gradient,
+            np.ndarray[np.float32_t, ndim=1, mode="c"] mom1,
+            np.ndarray[np.float32_t, ndim=1, mode="c"] mom2,
             const float beta1, const float beta2, float eps,
             float learn_rate, float mod_rate=1.):
         _check_compatible_shape(weights, gradient)
-- 
2.43.0


From d99440255993328f7f5dcbffb33913d4fdfb9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:43 +0000
Subject: [PATCH 35/40] fix: position_encode checks the layout of 'out'

---
 thinc/backends/numpy_ops.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 5f62f35..d767b3e 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -583,8 +583,11 @@ class NumpyOps(Ops):
             out_ = self.alloc((N, D), zeros=False)
         else:
             out_ = out
+        assert out_.ndim == 2
         assert out_.shape[0] == N
         assert out_.shape[1] == D
+        if out_.dtype != "float32" or not out_.flags.c_contiguous:
+            raise ValueError("position_encode requires an output array that is float32, in C order and contiguous")
         cpu_position_encode(<float*>out_.data, period, N, D)
         return out_
 
-- 
2.43.0


From 6c1f9d747d76733bef0b1ea6080a405bd8499176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:43 +0000
Subject: [PATCH 36/40] fix: scatter_add treats negative indices alike for all
 index types

---
 thinc/backends/numpy_ops.pyx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index d767b3e..9395424 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -538,11 +538,12 @@ class NumpyOps(Ops):
         and values.ndim == 2 \
         and values.shape[0] == indices.shape[0] \
         and values.shape[1] == table.shape[1]:
-            if indices.shape[0] and indices.max() >= table.shape[0]:
-                raise IndexError(f"index {indices.max()} is out of bounds for a table with {table.shape[0]} rows")
+            for index in ((indices.min(), indices.max()) if indices.shape[0] else ()):
+                if index < -table.shape[0] or index >= table.shape[0]:
+                    raise IndexError(f"index {index} is out of bounds for a table with {table.shape[0]} rows")
             cpu_scatter_add(self.cblas(), <float*>table.data,
                 <int*>indices.data, <float*>values.data,
-                indices.shape[0], table.shape[1])
+                indices.shape[0], table.shape[0], table.shape[1])
         else:
             self.xp.add.at(table, indices, values)
 
@@ -622,12 +623,13 @@ cdef void cpu_position_encode(float* output, float period, int N, int D) nogil:
 
 cdef void cpu_scatter_add(CBlas cblas, float* dest,
         const int* indices, const float* src,
-        int nr_id, int nr_col) nogil:
+        int nr_id, int nr_row, int nr_col) nogil:
     cdef int i
     for i in range(nr_id):
         id_ = indices[i]
-        if id_ >= 0:
-            saxpy(cblas)(nr_col, 1., &src[i*nr_col], 1, &dest[id_*nr_col], 1)
+        if id_ < 0:
+            id_ += nr_row
+        saxpy(cblas)(nr_col, 1., &src[i*nr_col], 1, &dest[id_*nr_col], 1)
 
 
 @cython.cdivision(True)
-- 
2.43.0


From 6bf3605b17eea7ff13c1ab34cb0dfda0805a9941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:43 +0000
Subject: [PATCH 37/40] fix: gather_add and maxout accept empty batches and
 widths

---
 thinc/backends/numpy_ops.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 9395424..028d8fe 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -202,12 +202,12 @@ class NumpyOps(Ops):
         cdef np.ndarray which = self.alloc(shape=(B, O), dtype='int32', zeros=False)
         if reals3d_ft is float3d_t:
             best = self.alloc(shape=(B, O), dtype="float32", zeros=False)
-            if len(X) > 0:
+            if B > 0 and O > 0:
                 cpu_maxout(<float*>best.data, <int*>which.data,
                     &X[0, 0, 0], B, O, P)
         else:
             best = self.alloc(shape=(B, O), dtype="float64", zeros=False)
-            if len(X) > 0:
+            if B > 0 and O > 0:
                 cpu_maxout(<double*>best.data, <int*>which.data,
                     &X[0, 0, 0], B, O, P)
         return best, which
@@ -517,11 +517,13 @@ class NumpyOps(Ops):
         cdef np.ndarray output
         if reals2d_ft is float2d_t:
             output = self.xp.zeros((rows, dims), dtype="float32")
-            cpu_gather_add(saxpy(cblas), <float *>output.data, &table[0, 0], &indices[0, 0],
+            if output.size and indices.shape[1]:
+                cpu_gather_add(saxpy(cblas), <float *>output.data, &table[0, 0], &indices[0, 0],
                         table.shape[0], dims, rows, indices.shape[1])
         else:
             output = self.xp.zeros((rows, dims), dtype="float64")
-            cpu_gather_add(daxpy(cblas), <double *>output.data, &table[0, 0], &indices[0, 0],
+            if output.size and indices.shape[1]:
+                cpu_gather_add(daxpy(cblas), <double *>output.data, &table[0, 0], &indices[0, 0],
                         table.shape[0], dims, rows, indices.shape[1])
 
         return output
-- 
2.43.0


From fb554c53d874a77ea20f10c61bb3626724f68e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:43 +0000
Subject: [PATCH 38/40] fix: HashEmbed can back-propagate through an empty
 batch

---
 thinc/layers/hashembed.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 22a10dc..919e2d4 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -62,15 +62,15 @@ def forward(
     vectors = cast(Floats2d, model.get_param("E"))
     nV = vectors.shape[0]
     nO = vectors.shape[1]
-    if len(ids) == 0:
+    nN = len(ids)
+    drop_mask = None
+    if nN == 0:
         output: Floats2d = model.ops.alloc2f(0, nO, dtype=vectors.dtype)
     else:
         ids = model.ops.as_contig(ids, dtype="uint64")
-        nN = ids.shape[0]
         seed: int = model.attrs["seed"]
         keys = model.ops.hash(ids, seed) % nV
         output = model.ops.gather_add(vectors, keys)
-        drop_mask = None
         if is_train:
             dropout: Optional[float] = model.attrs.get("dropout_rate")
             drop_mask = cast(Floats1d, model.ops.get_dropout_mask((nO,), dropout))
@@ -81,9 +81,10 @@ def forward(
         if drop_mask is not None:
             d_vectors = d_vectors * drop_mask
         dE = model.ops.alloc2f(*vectors.shape)
-        keysT = model.ops.as_contig(keys.T, dtype="i")
-        for i in range(keysT.shape[0]):
-            model.ops.scatter_add(dE, keysT[i], d_vectors)
+        if nN > 0:
+            keysT = model.ops.as_contig(keys.T, dtype="i")
+            for i in range(keysT.shape[0]):
+                model.ops.scatter_add(dE, keysT[i], d_vectors)
         model.inc_grad("E", dE)
         dX = model.ops.alloc1i(nN)
         return dX
-- 
2.43.0


From ad48101dd6b7f1eff962bb338d71b1d93a1adf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:43 +0000
Subject: [PATCH 39/40] fix: SparseLinear checks its features and parameters
 before reading them

---
 thinc/layers/sparselinear.pyx | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/sparselinear.pyx b/thinc/layers/sparselinear.pyx
index 84c1733..0e34ff7 100644
--- a/thinc/layers/sparselinear.pyx
+++ b/thinc/layers/sparselinear.pyx
@@ -82,7 +82,18 @@ def _begin_gpu_update(model: Model[InT, OutT], keys: ArrayXd, values: ArrayXd, l
 def _begin_cpu_update(model, np.ndarray keys, np.ndarray values, np.ndarray lengths):
     cdef int nO = model.get_dim("nO")
     cdef int length = model.get_dim("length")
-    cdef np.ndarray W = model.get_param("W")
+    keys = model.ops.as_contig(keys, dtype="uint64")
+    values = model.ops.as_contig(values, dtype="float32")
+    lengths = model.ops.as_contig(lengths, dtype="int32")
+    if lengths.ndim != 1:
+        raise ValueError(f"Expected 1-dimensional lengths, got {lengths.ndim} dimensions")
+    if (lengths < 0).any():
+        raise ValueError("All lengths must be >= 0")
+    if lengths.sum() > min(keys.size, values.size):
+        raise ValueError(f"The lengths sum up to {lengths.sum()}, but there are only {keys.size} keys and {values.size} values")
+    cdef np.ndarray W = model.ops.as_contig(model.get_param("W"), dtype="float32")
+    if W.size != nO * length:
+        raise ValueError(f"Expected {nO * length} weights, got {W.size}")
     cdef np.ndarray b = model.get_param("b")
     cdef np.ndarray scores = model.ops.alloc((len(lengths), nO))
     cdef bint v1_indexing = model.attrs["v1_indexing"]
@@ -112,9 +123,12 @@ class _finish_linear_update:
         cdef np.ndarray values = self.values
         cdef np.ndarray lengths = self.lengths
         cdef bint v1_indexing = self.model.attrs["v1_indexing"]
-        set_gradientC(<float*>d_weights.data,
-            <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
-            lengths.shape[0], nO, &d_scores[0,0], length, v1_indexing)
+        if d_scores.shape[0] != lengths.shape[0] or d_scores.shape[1] != nO:
+            raise ValueError(f"Expected a gradient of shape {(lengths.shape[0], nO)}, got {(d_scores.shape[0], d_scores.shape[1])}")
+        if lengths.shape[0] > 0 and nO > 0:
+            set_gradientC(<float*>d_weights.data,
+                <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
+                lengths.shape[0], nO, &d_scores[0,0], length, v1_indexing)
         cdef int i, j
         for i in range(d_scores.shape[0]):
             for j in range(d_scores.shape[1]):
-- 
2.43.0


From 4c7ccaa65ff300d88b98f21ace828147eb1b2a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:18 +0000
Subject: [PATCH 40/40] fix: negated labels are zeroed in a smoothed target too

---
 thinc/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/loss.py b/thinc/loss.py
index 5485dca..ec0cae2 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -130,7 +130,7 @@ class CategoricalCrossentropy(Loss):
         # + mask all other values for that row
         if negatives_mask is not None:
             truths = truths * negatives_mask
-            truths[truths == -1] = 0
+            truths[negatives_mask == -1] = 0
             negatives_mask[negatives_mask == -1] = 1
             mask *= negatives_mask
         return truths, mask
-- 
2.43.0

