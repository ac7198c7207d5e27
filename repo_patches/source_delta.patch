From 5f103d9d04d512d6aa0ebe34a04c7ce3c0243a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 01/55] fix: scalar Tensor plus/minus a diagonal Tensor must
 fill off-diagonal cells

---
 maxlike/tensor/tensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c373ea9..8e6a7d4 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -834,6 +834,12 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            if (self.values != 0) and op_type in [
+                    TensorOp.ADD, TensorOp.SUB, TensorOp.RSUB]:
+                return Tensor(
+                    op_type.value(self.values, other.toarray()),
+                    other.x_dim, other.y_dim, other.dim)
+
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From 91e848787a5688a24336f6513a8f23b4a464e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 02/55] fix: product of Tensors with different diagonal
 mappings on the same axes

---
 maxlike/tensor/tensor.py | 48 +++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 8e6a7d4..7f03caa 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -47,9 +47,12 @@ def arr_take_diag(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f < 0:
             continue
+        if arr.shape[p + f] == 1:  # broadcasted along the value axis
+            arr = arr.swapaxes(q + k, p + f)
+            continue
         arr = np.diagonal(arr, 0, q + k, p + f)  # np.diagonal
-        arr = arr.swapaxes(-1, p + f - 1)
-        arr = np.expand_dims(arr, k)
+        arr = np.moveaxis(arr, -1, p + f - 1)
+        arr = np.expand_dims(arr, q + k)
     return arr
 
 
@@ -67,20 +70,6 @@ def arr_expand_diag(arr, q, p, mapping):
     return arr
 
 
-def arr_expand_cross_diag(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
-    for i, j in zip(map1, map2):
-        if i == j:
-            continue
-        n = arr.shape[p + i]
-        idx[p + i] = n
-        idx[p + j] = n
-        arr = arr * np.broadcast_to(np.eye(n), idx)
-        idx[p + i] = 1
-        idx[p + j] = 1
-    return arr
-
-
 def arr_swapaxes_cross(arr, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for k, f in enumerate(map2):
@@ -897,15 +886,21 @@ class Tensor(BaseTensor):
         # --------------------------------------------------------------------
         # Multiplication and Division
         # --------------------------------------------------------------------
-        p = self.x_dim + self.y_dim
+        p = x_dim + y_dim
+
+        # different mappings on the same axes: only one can be kept
+        if (self.x_map and other.x_map and self.x_map != other.x_map) or \
+                (self.y_map and other.y_map and self.y_map != other.y_map):
+            other = Tensor(other.toarray(), x_dim=other.x_dim,
+                           y_dim=other.y_dim, dim=other.dim)
+
+        l_values = l_values[l_idx]
+        r_values = other.values[r_idx]
 
         if self.x_map:
             x_map = self.x_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.x_map, other.x_map)
             if not other.x_map and other.x_dim:
-                r_values = arr_take_diag(r_values, 0, other.x_dim + other.y_dim,
-                                         self.x_map)
+                r_values = arr_take_diag(r_values, 0, p, self.x_map)
         else:
             x_map = other.x_map
             if x_map and self.x_dim:
@@ -913,18 +908,15 @@ class Tensor(BaseTensor):
 
         if self.y_map:
             y_map = self.y_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.y_map, other.y_map)
             if not other.y_map and other.y_dim:
-                r_values = arr_take_diag(r_values, other.x_dim, other.x_dim + other.y_dim,
-                                         self.y_map)
+                r_values = arr_take_diag(r_values, x_dim, p, self.y_map)
         else:
             y_map = other.y_map
-            if self.y_dim:
-                l_values = arr_take_diag(l_values, self.x_dim, p, other.y_map)
+            if y_map and self.y_dim:
+                l_values = arr_take_diag(l_values, x_dim, p, other.y_map)
 
         return Tensor(
-            op_type.value(l_values[l_idx], r_values[r_idx]),
+            op_type.value(l_values, r_values),
             x_dim=x_dim, y_dim=y_dim, dim=dim,
             x_map=x_map, y_map=y_map)
 
-- 
2.43.0


From 8e7a81135263df740e81f6c14a9e16ce0a8e51d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 03/55] fix: transpose of Tensors with a different number of x
 and y axes

---
 maxlike/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 7f03caa..e8cc798 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -606,8 +606,8 @@ class Tensor(BaseTensor):
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-            for k in range(0, self.x_dim):
-                val = np.moveaxis(val, self.x_dim, k)
+            for k in range(0, self.y_dim):
+                val = np.moveaxis(val, self.x_dim + k, k)
         return Tensor(val, self.y_dim,  self.x_dim, self.dim,
                       self.y_map, self.x_map)
 
-- 
2.43.0


From 0ef2f861436a013d72ba0f0fc26cf0f8b6c981c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 04/55] fix: Tensor.sum(False, False) must keep the extra
 dimensions

---
 maxlike/tensor/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index e8cc798..8d8e11e 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -475,9 +475,11 @@ class Tensor(BaseTensor):
         p = self.x_dim + self.y_dim
 
         if sum_val is False:
+            dim = self.dim
             if sum_dim is True:
                 val = val.sum(tuple(p + self.n + np.arange(self.dim)))
-            return Tensor(val, self.x_dim, self.y_dim, 0,
+                dim = 0
+            return Tensor(val, self.x_dim, self.y_dim, dim,
                           self.x_map, self.y_map)
 
         if sum_val is True:
-- 
2.43.0


From 0dc58f64762ab04615c2d3e1437c47a0ad8ff632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 05/55] fix: partial sums of a Tensor must keep the mappings of
 the remaining value axes

---
 maxlike/tensor/tensor.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 8d8e11e..4aa21e7 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -36,6 +36,17 @@ def compose_mappings(map1, map2):
     ])
 
 
+def sum_mapping(mapping, sum_val):
+    """
+    Mapping that is left after summing the value axes 'sum_val'
+    """
+    new_map = array('b', [
+        -1 if f < 0 or f in sum_val else f - sum(g < f for g in sum_val)
+        for f in mapping
+    ])
+    return new_map if any(f >= 0 for f in new_map) else None
+
+
 def arr_swapaxes(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f >= 0:
@@ -506,7 +517,7 @@ class Tensor(BaseTensor):
             else:
                 val = val.swapaxes(self.x_dim + k, p + f)
 
-        idx = p + np.array(sum_val)
+        idx = p + np.array(sum_val, dtype=np.int32)
         if sum_dim is True:
             idx = idx.tolist() + (p + self.n + np.arange(self.dim)).tolist()
             dim = 0
@@ -522,7 +533,9 @@ class Tensor(BaseTensor):
             idx[self.x_dim + f] = slice(None)
             val = val * np.eye(val.shape[k])[tuple(idx)]
 
-        return Tensor(val, self.x_dim, self.y_dim, dim)
+        return Tensor(val, self.x_dim, self.y_dim, dim,
+                      sum_mapping(self.x_map, sum_val),
+                      sum_mapping(self.y_map, sum_val))
 
     def expand(self, where, newsize, dim=False):
         """
-- 
2.43.0


From 622b218c0ad957fe3e4fdba8ec9d30a17f32928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 06/55] fix: contraction of Tensors whose diagonal mappings do
 not compose

---
 maxlike/tensor/tensor.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 4aa21e7..1d5514c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -47,6 +47,13 @@ def sum_mapping(mapping, sum_val):
     return new_map if any(f >= 0 for f in new_map) else None
 
 
+def can_compose(map1, map2):
+    """
+    True if every value axis referred by map2 is itself mapped by map1
+    """
+    return all(f < 0 or (f < len(map1) and map1[f] >= 0) for f in map2)
+
+
 def arr_swapaxes(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f >= 0:
@@ -81,23 +88,6 @@ def arr_expand_diag(arr, q, p, mapping):
     return arr
 
 
-def arr_swapaxes_cross(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
-    for k, f in enumerate(map2):
-        for l, g in enumerate(map1):
-            if g == f:
-                n = arr.shape[k]
-                idx[l] = n
-                idx[p + k] = n
-                arr = arr * np.broadcast_to(np.eye(n), idx)
-                idx[l] = 1
-                idx[p + k] = 1
-                break
-        else:
-            arr = arr.swapaxes(p + k, p + f)
-    return arr
-
-
 class TensorOp(Enum):
     ID = partial(lambda x: x)
     RSUB = partial(lambda x, y: np.subtract(y, x))
@@ -692,6 +682,9 @@ class Tensor(BaseTensor):
                 other.x_dim, self.y_dim, self.n, dim,
                 [self.dot_left(el) for el in other.elements])
 
+        if self.x_map and not can_compose(self.x_map, other.x_map):
+            other = Tensor(other.toarray(), x_dim=other.x_dim, dim=other.dim)
+
         p = self.x_dim + self.y_dim
 
         l_idx = [slice(None)] * (other.x_dim + other.n) + \
@@ -743,6 +736,11 @@ class Tensor(BaseTensor):
                 other.x_dim, other.y_dim, self.n, dim,
                 [self.dot_right(el) for el in other.elements])
 
+        if not (can_compose(self.x_map, other.x_map) and
+                can_compose(self.x_map, other.y_map)):
+            other = Tensor(other.toarray(), x_dim=other.x_dim,
+                           y_dim=other.y_dim, dim=other.dim)
+
         p = other.x_dim + other.y_dim
 
         # to do, broadcast on dim
@@ -755,10 +753,6 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, self.x_dim, self.x_map)
         val = other.values[tuple(l_idx)] * val[tuple(r_idx)]
         val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
-        if not self.x_map:
-            val = arr_swapaxes(val, 0, p, other.x_map)
-            val = arr_swapaxes_cross(val, other.x_dim,                      # NOT COVERED
-                                     other.x_map, other.y_map)
 
         x_map = compose_mappings(self.x_map, other.x_map)
         y_map = compose_mappings(self.x_map, other.y_map)
-- 
2.43.0


From 2ff4dcb9a7fa355361735ce87fb0267df3224b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 07/55] fix: a Tensor must neither freeze nor alias the array
 it is built from

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 1d5514c..7343996 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -443,7 +443,7 @@ class Tensor(BaseTensor):
         if dtype is None:
             dtype = TENSOR_DTYPE
 
-        object.__setattr__(self, 'values', np.asarray(values, dtype=dtype))
+        object.__setattr__(self, 'values', np.array(values, dtype=dtype))
         self.values.flags["WRITEABLE"] = False
 
         super(Tensor, self).__init__(
-- 
2.43.0


From 580d07bb689a70261353f1434367e4afd274e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 08/55] fix: contraction with a null Tensor must be null

---
 maxlike/tensor/tensor.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 7343996..c70ec5c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -47,6 +47,13 @@ def sum_mapping(mapping, sum_val):
     return new_map if any(f >= 0 for f in new_map) else None
 
 
+def is_zero(t):
+    """
+    True for Tensor(0), that stands for a null tensor of any shape
+    """
+    return isinstance(t, Tensor) and t.values.ndim == 0 and t.values == 0
+
+
 def can_compose(map1, map2):
     """
     True if every value axis referred by map2 is itself mapped by map1
@@ -655,8 +662,8 @@ class Tensor(BaseTensor):
         if (other.n > 0) & (other.n == self.y_dim):
             return self.transpose().dot_left(other)
 
-        if (other.values.ndim == 0) and (other.values == 0):
-            return 0
+        if is_zero(other):
+            return Tensor(0)
 
         raise ValueError
 
@@ -672,6 +679,9 @@ class Tensor(BaseTensor):
         - N Y M E
           *
         """
+        if is_zero(self) or is_zero(other):
+            return Tensor(0)
+
         dim = max(self.dim, other.dim)
 
         if (self.x_dim != other.n) & (self.y_dim == other.n):
@@ -720,11 +730,8 @@ class Tensor(BaseTensor):
             *
         """
 
-        try:
-            if other.values.ndim == 0 and other.values == 0:
-                return 0
-        except:
-            pass
+        if is_zero(self) or is_zero(other):
+            return Tensor(0)
 
         dim = max(self.dim, other.dim)
 
-- 
2.43.0


From 410a6612836d7841e8f0e44f3ef5840ca2d2b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 09/55] fix: sums, alignment and scalar arithmetic of
 GenericTensors whose elements lack axes

---
 maxlike/tensor/tensor.py | 63 ++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c70ec5c..6b0070d 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -72,6 +72,8 @@ def arr_take_diag(arr, q, p, mapping):
     for k, f in enumerate(mapping):
         if f < 0:
             continue
+        if arr.shape[q + k] == 1:  # broadcasted along the parameter axis
+            continue
         if arr.shape[p + f] == 1:  # broadcasted along the value axis
             arr = arr.swapaxes(q + k, p + f)
             continue
@@ -221,11 +223,15 @@ class GenericTensor(BaseTensor):
         if elements is None:
             elements = ()
 
-        object.__setattr__(self, 'elements', tuple(elements))
+        shape = (x_dim, y_dim, n, dim)
+        object.__setattr__(self, 'elements', tuple(
+            el if (el.x_dim, el.y_dim, el.n, el.dim) == shape else
+            Tensor(el.values[el._reshape_idx(*shape)],
+                   x_dim, y_dim, dim, el.x_map, el.y_map)
+            for el in elements))
 
     def toarray(self):
-        return sum([el.toarray() if isinstance(el, Tensor) else el
-                    for el in self.elements])
+        return sum([el.toarray() for el in self.elements])
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
@@ -247,36 +253,33 @@ class GenericTensor(BaseTensor):
             if len(idx) == self.n:
                 sum_val = True
 
+        n = self.n - len(idx)
+        dim = 0 if sum_dim is True else self.dim
         if sum_dim is True:
             idx += (self.n + np.arange(self.dim)).tolist()
 
-        shape_n = np.ones(len(idx), dtype=np.int)
-        el_sizes = np.empty(len(self.elements), dtype=np.int)
+        p = self.x_dim + self.y_dim
+        shape_n = np.ones(len(idx), dtype=np.int64)
+        el_sizes = np.empty(len(self.elements), dtype=np.int64)
         for k, el in enumerate(self.elements):
-            p = el.x_dim + el.y_dim
-            shape = np.array(el.values.shape)[(p + np.array(idx)).tolist()]
+            shape = np.array([el.values.shape[p + i] for i in idx],
+                             dtype=np.int64)
             shape_n = np.maximum(shape_n, shape)
-            el_sizes[k] = np.array(shape).prod()
+            el_sizes[k] = shape.prod()
 
         size = shape_n.prod()
 
         if sum_val is True:
             values = 0
             for el, el_size in zip(self.elements, el_sizes):
-                idx = []
-                idx += [None] * (self.x_dim - el.x_dim) + [slice(None)] * el.x_dim
-                idx += [None] * (self.y_dim - el.y_dim) + [slice(None)] * el.y_dim
-                idx += [...]
-                values = values + el.sum(sum_val, sum_dim).\
-                    values[tuple(idx)] * (size / el_size)
-
-            dim = 0 if sum_dim is True else self.dim
+                values = values + \
+                    el.sum(sum_val, sum_dim).values * (size / el_size)
             return Tensor(values, x_dim=self.x_dim, y_dim=self.y_dim, dim=dim)
 
         # else:
-        new_elements = [el.sum(False, sum_dim) * (size / el_size)
+        new_elements = [el.sum(sum_val, sum_dim) * (size / el_size)
                         for el, el_size in zip(self.elements, el_sizes)]
-        return GenericTensor(self.x_dim, self.y_dim, self.n, 0, new_elements)
+        return GenericTensor(self.x_dim, self.y_dim, n, dim, new_elements)
 
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
@@ -354,20 +357,16 @@ class GenericTensor(BaseTensor):
         # Scalar
         # Array
         #  -> are converted to tensor
-        if isinstance(other, (int, float, np.ndarray)):
-            x_dim = self.x_dim
-            y_dim = self.y_dim
-            n = self.n
-            dim = self.dim
+        if np.isscalar(other) or isinstance(other, np.ndarray):
+            other = Tensor(other)
 
-        else:
-            x_dim = max(self.x_dim, other.x_dim)
-            y_dim = max(self.y_dim, other.y_dim)
-            n = max(self.n, other.n)
-            dim = max(self.dim, other.dim)
+        x_dim = max(self.x_dim, other.x_dim)
+        y_dim = max(self.y_dim, other.y_dim)
+        n = max(self.n, other.n)
+        dim = max(self.dim, other.dim)
 
         # Tensor
-        if isinstance(other, (int, float, np.ndarray, Tensor)):
+        if isinstance(other, Tensor):
             new_elements = list(self.elements)
             if op_type in [TensorOp.ADD, TensorOp.SUB]:
                 for k, el in enumerate(new_elements):
@@ -871,8 +870,8 @@ class Tensor(BaseTensor):
         l_values = self.values
         r_values = other.values
 
-        l_idx = self.__reshape_idx(x_dim, y_dim, n, dim)
-        r_idx = other.__reshape_idx(x_dim, y_dim, n, dim)
+        l_idx = self._reshape_idx(x_dim, y_dim, n, dim)
+        r_idx = other._reshape_idx(x_dim, y_dim, n, dim)
 
         # --------------------------------------------------------------------
         # Addition and Subtraction
@@ -976,7 +975,7 @@ class Tensor(BaseTensor):
             raise InvalidOperation('Invalid ufunc:', name)
         return self.bin_op(inputs[0], op_type)
 
-    def __reshape_idx(self, x_dim, y_dim, n, dim):
+    def _reshape_idx(self, x_dim, y_dim, n, dim):
         idx = []
         if self.x_dim > 0:
             # assert self.x_dim == x_dim
-- 
2.43.0


From 50e8951b3878b58ca63d0f498512903f25154486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 10/55] fix: numpy functions with a Tensor as first argument
 ignored the other argument

---
 maxlike/tensor/tensor.py | 55 ++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 6b0070d..8e95ff7 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -206,6 +206,22 @@ class BaseTensor(object, with_metaclass(abc.ABCMeta)):
     def __rtruediv__(self, other):
         return self.bin_op(other, TensorOp.RDIV)
 
+    def _bin_ufunc(self, name, method, *inputs):
+        if method != '__call__' or len(inputs) != 2:
+            raise InvalidOperation('Invalid ufunc:', name, method)
+        reflected = inputs[0] is not self
+        try:
+            op_type = {
+                'add': TensorOp.ADD,
+                'subtract': TensorOp.RSUB if reflected else TensorOp.SUB,
+                'multiply': TensorOp.MUL,
+                'true_divide': TensorOp.RDIV if reflected else TensorOp.DIV,
+                'divide': TensorOp.RDIV if reflected else TensorOp.DIV,
+            }[name]
+        except KeyError:
+            raise InvalidOperation('Invalid ufunc:', name)
+        return self.bin_op(inputs[0] if reflected else inputs[1], op_type)
+
     def __setattr__(self, *ignored):
         raise NotImplementedError
 
@@ -420,18 +436,7 @@ class GenericTensor(BaseTensor):
         raise ValueError
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
-        name = ufunc.__name__
-        try:
-            op_type = {
-                'add': TensorOp.ADD,
-                'subtract': TensorOp.RSUB,
-                'multiply': TensorOp.MUL,
-                'true_divide': TensorOp.RDIV,
-                'divide': TensorOp.RDIV,
-            }[name]
-        except:
-            raise InvalidOperation('Invalid ufunc:', name)
-        return self.bin_op(inputs[0], op_type)
+        return self._bin_ufunc(ufunc.__name__, method, *inputs)
 
 
 class Tensor(BaseTensor):
@@ -960,20 +965,20 @@ class Tensor(BaseTensor):
                 raise InvalidOperation(
                     "{} only supported for Tensor".format(name) +
                     "for x_dim == y_dim == 0")
-            return Tensor(ufunc(self.values, inputs[1]),
-                          x_dim=0, y_dim=0, dim=self.dim)
+            args = [el if isinstance(el, BaseTensor) else Tensor(el)
+                    for el in inputs]
+            n = max(el.n for el in args)
+            dim = max(el.dim for el in args)
+            if any(not isinstance(el, Tensor) or el.x_dim > 0 or el.y_dim > 0 or
+                   el.n not in (0, n) or el.dim not in (0, dim)
+                   for el in args):
+                raise InvalidOperation('Invalid arguments:', name)
+            return Tensor(
+                ufunc(*(el.values[el._reshape_idx(0, 0, n, dim)]
+                        for el in args)),
+                x_dim=0, y_dim=0, dim=dim)
 
-        try:
-            op_type = {
-                'add': TensorOp.ADD,
-                'subtract': TensorOp.RSUB,
-                'multiply': TensorOp.MUL,
-                'true_divide': TensorOp.RDIV,
-                'divide': TensorOp.RDIV,
-            }[name]
-        except:
-            raise InvalidOperation('Invalid ufunc:', name)
-        return self.bin_op(inputs[0], op_type)
+        return self._bin_ufunc(name, method, *inputs)
 
     def _reshape_idx(self, x_dim, y_dim, n, dim):
         idx = []
-- 
2.43.0


From 7b2809bb570245f770ef7f1c7cf8e5b7e1993344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 11/55] fix: Sum must scale the constants of weighted terms and
 include them in eval

---
 maxlike/func/func_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3414967..6927a41 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -177,10 +177,10 @@ class Sum(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Affine):
-            self.b += foo.b
+            self.b += weight * foo.b
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
-            self.b += foo.b
+            self.b += weight * foo.b
             for w, atom in foo.atoms:
                 self.add(
                     atom.foo,
@@ -207,7 +207,7 @@ class Sum(Func):
 
     def eval(self, params):
         n = len(params)
-        val = Tensor(0)
+        val = Tensor(0) + self.b
         grad = [Tensor(0)] * n
         hess = [[Tensor(0)] * (i + 1) for i in range(n)]
         for w, atom in self.atoms:
-- 
2.43.0


From 43132d5e05a57a37e9526cccb612d2338fa36afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 12/55] fix: FuncWrap with permuted or repeated parameters

---
 maxlike/func/func_op.py | 64 +++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 6927a41..e2ad745 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -49,13 +49,8 @@ class FuncWrap(Func):
                 foo_val, foo_grad, foo_hess = foo.eval(obj.param_map(params))
                 val = obj._expand(foo_val)
                 n = len(params)
-                grad = []
+                grad = [obj._sum_grad(foo_grad, i) for i in range(n)]
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
-                for i in range(n):
-                    try:
-                        grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))
-                    except ValueError:
-                        grad.append(Tensor(0))
                 return val, grad, hess
 
             self.hess = null_method(self)
@@ -68,45 +63,38 @@ class FuncWrap(Func):
     def __call__(self, params):
         return self._expand(self.foo(self.param_map(params)))
 
+    def _sum_grad(self, foo_grad, i):
+        # a parameter can be used more than once
+        return sum((self._expand(foo_grad[k])
+                    for k, p in enumerate(self.param_map) if p == i),
+                   Tensor(0))
+
+    def _sum_hess(self, foo_hess, i, j):
+        # only the lower triangle (k >= l) of foo_hess is available
+        return sum((self._expand(foo_hess(k, l) if k >= l else
+                                 foo_hess(l, k).transpose())
+                    for k, p in enumerate(self.param_map) if p == i
+                    for l, q in enumerate(self.param_map) if q == j),
+                   Tensor(0))
+
     def grad(self, params, i):
-        try:
-            return self._expand(
-                self.foo.grad(self.param_map(params),
-                              self.param_map.index(i)))
-        except ValueError:
-            return Tensor(0)
+        args = self.param_map(params)
+        foo_grad = {k: self.foo.grad(args, k)
+                    for k, p in enumerate(self.param_map) if p == i}
+        return self._sum_grad(foo_grad, i)
 
     def hess(self, params, i, j):
-        try:
-            return self._expand(
-                self.foo.hess(self.param_map(params),
-                              self.param_map.index(i),
-                              self.param_map.index(j)))
-        except ValueError:
-            return Tensor(0)
+        args = self.param_map(params)
+        return self._sum_hess(
+            lambda k, l: self.foo.hess(args, k, l), i, j)
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
         val = self._expand(foo_val)
-        grad, hess = [], []
-        idx_list = []
-        for i in range(len(params)):
-            try:
-                idx = self.param_map.index(i)
-                grad.append(self._expand(foo_grad[idx]))
-                hess_line = []
-                for j in range(i):
-                    jdx = idx_list[j]
-                    hess_line.append(
-                        Tensor(0) if jdx is None else
-                        self._expand(foo_hess[idx][jdx]))
-                hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
-                hess.append(hess_line)
-            except ValueError:
-                idx = None
-                grad.append(Tensor(0))
-                hess.append([Tensor(0)] * (i + 1))
-            idx_list.append(idx)
+        n = len(params)
+        grad = [self._sum_grad(foo_grad, i) for i in range(n)]
+        hess = [[self._sum_hess(lambda k, l: foo_hess[k][l], i, j)
+                 for j in range(i + 1)] for i in range(n)]
         return val, grad, hess
 
 
-- 
2.43.0


From ae761bd9c7242a373aeaedcc808d40b9c972ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 13/55] fix: eval of wrapped and composed linear functions must
 accept a single parameter

---
 maxlike/func/func_base.py | 2 +-
 maxlike/func/func_op.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index d32dcd1..d85853e 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -280,7 +280,7 @@ class Compose(Func):
                 return val, grad, hess
             
             self.hess = MethodType(matrix_wrap(hess), self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def __call__(self, params):
         g_val = [g(params) for g in self.g_list]
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index e2ad745..09b4e39 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,5 +1,5 @@
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_method, isnull
+from .func_base import Func, Affine, null_method, isnull, eval_wrap
 from six.moves import reduce
 from types import MethodType
 
@@ -54,7 +54,7 @@ class FuncWrap(Func):
                 return val, grad, hess
 
             self.hess = null_method(self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
-- 
2.43.0


From 93e57b5802dad9e0ce04a7a9d77208f08a459a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 14/55] fix: null gradients and Hessians must have one block
 per parameter

---
 maxlike/func/func_base.py | 15 +++++++++------
 maxlike/func/func_op.py   |  6 +++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index d85853e..b201daa 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -9,8 +9,11 @@ from ..tensor import Tensor
 def null_func(obj, *args, **kwargs):
     return Tensor(0)
 
-def null_method(obj):
-    return MethodType(null_func, obj)
+def null_grad(obj):
+    return MethodType(vector_wrap(null_func), obj)
+
+def null_hess(obj):
+    return MethodType(matrix_wrap(null_func), obj)
 
 def isnull(foo):
     return getattr(foo, 'null', False)
@@ -208,10 +211,10 @@ class Affine(Func):
     def __init__(self, base, a=1, b=0):
 
         if isnull(base.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(base.hess):
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
 
         if isinstance(base, Affine):
             self.base = base.base
@@ -255,8 +258,8 @@ class Compose(Func):
         self.f = f
 
         if isnull(f.grad):
-            self.grad = null_method(self)
-            self.hess = null_method(self)
+            self.grad = null_grad(self)
+            self.hess = null_hess(self)
 
         elif isnull(f.hess):
             def hess(obj, params, i, j):
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 09b4e39..b44fb57 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,5 +1,5 @@
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_method, isnull, eval_wrap
+from .func_base import Func, Affine, null_grad, null_hess, isnull, eval_wrap
 from six.moves import reduce
 from types import MethodType
 
@@ -42,7 +42,7 @@ class FuncWrap(Func):
             self.dim_map = IndexMap(dim_map)
 
         if isnull(foo.grad):
-            self.grad = null_method(self)
+            self.grad = null_grad(self)
 
         if isnull(foo.hess):
             def eval(obj, params):
@@ -53,7 +53,7 @@ class FuncWrap(Func):
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
                 return val, grad, hess
 
-            self.hess = null_method(self)
+            self.hess = null_hess(self)
             self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
-- 
2.43.0


From e11cc9309aa72ed569daff0c0d48c8db200aa6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 15/55] fix: division of a function by a number

---
 maxlike/func/func_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index b201daa..11191ee 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -196,9 +196,11 @@ class Func(with_metaclass(FuncMeta, object)):
     def __rmul__(self, a):
         return Affine(self, a, 0)
 
-    def __div__(self, a):
+    def __truediv__(self, a):
         return Affine(self, 1.0 / a, 0)
 
+    __div__ = __truediv__
+
     def __matmul__(self, other):
         return Compose(self, other)
 
-- 
2.43.0


From 5f363a58c2c0ba3186b89abdcb4e3be63feaf5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 16/55] fix: Linear must return Tensors, so that it can be used
 in sums and regularizations

---
 maxlike/func/func.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 0848e93..d92a790 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -13,17 +13,14 @@ class Linear(Func):
         self.weights = weight_list
 
     def __call__(self, params):
-        return sum(((w * np.asarray(p)).sum()
-                    for w, p in zip(params, self.weights)))
+        return Tensor(sum(((w * np.asarray(p)).sum()
+                           for p, w in zip(params, self.weights))))
 
     def grad(self, params, i):
-        return grad_tensor(self.weights[i] * np.ones((1, ) *
-                           np.asarray(params[i]).ndim), params, i, True)
+        return grad_tensor(self.weights[i] * np.ones_like(params[i]),
+                           params, i, True).sum()
 
-    def hess(self, params, i, j):
-        return hess_tensor(np.zeros((1, ) *
-            (np.asarray(params[j]).ndim + np.asarray(params[i]).ndim)),
-            params, i, j, True, True)
+    hess = null_func
 
 
 class Quadratic(Func):  # TODO : expand this class to allow more generic stuff
-- 
2.43.0


From ffa821f12d71eeb3ee0270d59a9c90b9b75f20a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 17/55] fix: gradient of Vector with respect to a parameter
 that is not a scalar

---
 maxlike/func/func.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index d92a790..02500bb 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -91,7 +91,8 @@ class Vector(Func):
         return Tensor(np.asarray(params[0]) * self.vector)
 
     def grad(self, params, i):
-        return grad_tensor(self.vector, params, i, None)
+        return grad_tensor(np.ones_like(params[0]) * self.vector,
+                           params, i, True)
 
     hess = null_func
 
-- 
2.43.0


From 852060712132882f97d692445de6480cfc996e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 18/55] fix: functions must accept stored parameters (Param)

---
 maxlike/func/func.py    |  2 +-
 maxlike/func/matrix.py  | 16 ++++++++--------
 maxlike/func/sigmoid.py |  4 ++--
 maxlike/func/tennis.py  |  6 +++---
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 02500bb..e53ca44 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -123,7 +123,7 @@ class Log(Func):
         return Tensor(np.log(params[0]))
 
     def grad(self, params, i):
-        f = Tensor(1 / params[0])
+        f = Tensor(np.divide(1, params[0]))
         return grad_tensor(f, params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 253365a..f8962d7 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -66,8 +66,8 @@ class MarkovMatrix(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -99,8 +99,8 @@ class MarkovMatrix(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -180,8 +180,8 @@ class MarkovVector(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -210,8 +210,8 @@ class MarkovVector(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index c295680..5e7fffc 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -43,9 +43,9 @@ class ArcTan(Func):
 
     def grad(self, params, i):
         x = params[0]
-        return grad_tensor(1 / (1 + x * x), params, i, True)
+        return grad_tensor(1 / (1 + np.square(x)), params, i, True)
 
     def hess(self, params, i, j):
         x = params[0]
-        return hess_tensor(-2 * x / (1 + x * x) ** 2,
+        return hess_tensor(np.multiply(-2, x) / (1 + np.square(x)) ** 2,
                            params, i, j, True, True)
diff --git a/maxlike/func/tennis.py b/maxlike/func/tennis.py
index b7175ad..a0e9cc9 100644
--- a/maxlike/func/tennis.py
+++ b/maxlike/func/tennis.py
@@ -103,7 +103,7 @@ class Set(Func):
     """
 
     def __call__(self, params):
-        p, t = params
+        p, t = map(np.asarray, params)
         p = np.minimum(p, 1 - 1e-10)
         p = np.maximum(p, 1e-10)
         q = 1 - p
@@ -118,7 +118,7 @@ class Set(Func):
         return Tensor(np.stack(s).swapaxes(0, -1), dim=1)
     
     def grad(self, params, i):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         d = []
@@ -141,7 +141,7 @@ class Set(Func):
                            params, i, True, dim=1)
     
     def hess(self, params, i, j):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         h = []
-- 
2.43.0


From 712830efd7159c8e2470221726f160b3182e9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 19/55] fix: derivatives of X and sigmoids must keep the extra
 dimensions of their argument

---
 maxlike/func/func.py    |  3 ++-
 maxlike/func/sigmoid.py | 24 ++++++++++++------------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index e53ca44..c39feb1 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -54,7 +54,8 @@ class X(Func):
         return Tensor(params[0])
 
     def grad(self, params, i):
-        return grad_tensor(np.ones_like(params[0]), params, i, True)
+        return grad_tensor(np.ones_like(params[0]), params, i, True,
+                           dim=Tensor(params[0]).dim)
 
     hess = null_func
 
diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index 5e7fffc..85ee1af 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -19,20 +19,20 @@ class Logistic(Func):
         return Tensor(expit(params[0]))
 
     def grad(self, params, i):
-        f = expit(params[0])
-        return grad_tensor(f * (1 - f), params, i, True)
+        f = Tensor(expit(params[0]))
+        return grad_tensor(f * (1 - f), params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
-        f = expit(params[0])
+        f = Tensor(expit(params[0]))
         return hess_tensor(f * (1 - f) * (1 - 2 * f),
-                           params, i, j, True, True)
+                           params, i, j, True, True, dim=f.dim)
 
     def eval(self, params):
-        f = expit(params[0])
-        return Tensor(f), \
-               [grad_tensor(f * (1 - f), params, 0, True)], \
+        f = Tensor(expit(params[0]))
+        return f, \
+               [grad_tensor(f * (1 - f), params, 0, True, dim=f.dim)], \
                [[hess_tensor(f * (1 - f) * (1 - 2 * f),
-                             params, 0, 0, True, True)]]
+                             params, 0, 0, True, True, dim=f.dim)]]
 
 
 class ArcTan(Func):
@@ -42,10 +42,10 @@ class ArcTan(Func):
         return Tensor(np.arctan(x))
 
     def grad(self, params, i):
-        x = params[0]
-        return grad_tensor(1 / (1 + np.square(x)), params, i, True)
+        f = Tensor(1 / (1 + np.square(params[0])))
+        return grad_tensor(f, params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
         x = params[0]
-        return hess_tensor(np.multiply(-2, x) / (1 + np.square(x)) ** 2,
-                           params, i, j, True, True)
+        f = Tensor(np.multiply(-2, x) / (1 + np.square(x)) ** 2)
+        return hess_tensor(f, params, i, j, True, True, dim=f.dim)
-- 
2.43.0


From 9bd97d7a57ac5a35dbb4673daafc48abea72dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 20/55] fix: CollapseMatrix must use the given conditions

---
 maxlike/func/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index f8962d7..bdc1f0b 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -19,6 +19,10 @@ class CollapseMatrix(Func):
                 (1, -1, 0, 0),
                 (1, -1, 0, -1),
             ]
+        elif np.ndim(conditions) == 1:
+            self.conditions = [conditions]
+        else:
+            self.conditions = list(conditions)
 
     def __call__(self, params):
         """
-- 
2.43.0


From 83b38e527d7b535792083d873946f897e605b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 21/55] fix: gradient of CollapseMatrix with features of
 different sizes

---
 maxlike/func/matrix.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index bdc1f0b..ba04feb 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -51,8 +51,7 @@ class CollapseMatrix(Func):
             val.append(ones * filt)
         x_dim = ones.ndim
         val = np.stack(val, -1)
-        val = val.swapaxes(0, x_dim - 2)
-        val = val.swapaxes(1, x_dim - 1)
+        val = np.moveaxis(val, (x_dim - 2, x_dim - 1), (0, 1))
         x_map = array('b', range(x_dim - 2))
         x_map.append(-1)
         x_map.append(-1)
-- 
2.43.0


From f180709115a3a59c8391a2ccd1cdb8435e89b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 22/55] fix: std_error of a model without constraints

---
 maxlike/maxlike_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 75c53bc..6bfd8ef 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -310,12 +310,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         """
         Standard Deviation Array.
         """
-        cut = len(self.constraint)
-        if cut == 0:
-            cut = None
+        cut = self.flat_hess_.shape[0] - len(self.constraint)
         return [p.as_masked() for p in
             self._reshape_array(np.sqrt(np.diag(-np.linalg.inv(
-            self.flat_hess_))[:-cut]))
+            self.flat_hess_))[:cut]))
         ]
 
     def flat_grad(self, params, *args, **kwargs):
-- 
2.43.0


From 06494ce5b86652e4f87c07b2bd1003abf45eb8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 23/55] fix: constraints and regularizations with unsorted or
 repeated parameters

---
 maxlike/maxlike_base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 6bfd8ef..a64c3e7 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -340,6 +340,17 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         return grad
 
+    @staticmethod
+    def _add_block(hess, idx, jdx, is_diag, block):
+        """
+        Adds a block to the lower triangle of the hessian. The parameters of a
+        constraint / regularization can be given in any order or be repeated.
+        """
+        if idx >= jdx:
+            hess[idx][jdx] += block
+        if idx <= jdx and not is_diag:
+            hess[jdx][idx] += block.transpose()
+
     def flat_hess(self, params, *args, **kwargs):
         n = len(params)
         c_len = len(self.constraint)
@@ -363,14 +374,16 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 hess_c[k][idx] += grad_g[i].sum().values
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] += gamma * hess_g[i][j]
+                    self._add_block(
+                        hess, idx, param_map[j], i == j, gamma * hess_g[i][j])
 
         for param_map, h in self.reg:
             args = [params[k] for k in param_map]
             hess_h = h.hess(args)
             for i, idx in enumerate(param_map):
                 for j in range(i + 1):
-                    hess[idx][param_map[j]] -= hess_h[i][j]
+                    self._add_block(
+                        hess, idx, param_map[j], i == j, -hess_h[i][j])
 
         # --------------------------------------------------------------------
         # 3rd phase: Reshape and flatten
-- 
2.43.0


From 6a042c620172ec2307c96ba02fa8ce58e17b4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 24/55] fix: add_param must accept lists, integers and masks
 that are not boolean arrays

---
 maxlike/maxlike_base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index a64c3e7..2ce85ba 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -18,13 +18,16 @@ class Param(object):
 
     def __init__(self, values, mask=None):
         
-        if mask is None or mask is False:
-            mask = np.zeros_like(values, dtype=np.bool)
-        else:
-            assert mask.shape == values.shape
-
-        object.__setattr__(self, 'values', np.asarray(values))
-        object.__setattr__(self, 'mask',   np.asarray(mask))
+        values = np.asarray(values, dtype=np.float64)
+        if mask is None:
+            mask = False
+        mask = np.asarray(mask, dtype=np.bool_)
+        if mask.ndim == 0:
+            mask = np.full(values.shape, mask)
+        assert mask.shape == values.shape
+
+        object.__setattr__(self, 'values', values)
+        object.__setattr__(self, 'mask',   mask)
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
-- 
2.43.0


From e02c19f3a38a8c837514f1f1985f437208f2d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 25/55] fix: Param must neither freeze nor alias the arrays of
 the caller

---
 maxlike/maxlike_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 2ce85ba..0b58945 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -18,10 +18,10 @@ class Param(object):
 
     def __init__(self, values, mask=None):
         
-        values = np.asarray(values, dtype=np.float64)
+        values = np.array(values, dtype=np.float64)
         if mask is None:
             mask = False
-        mask = np.asarray(mask, dtype=np.bool_)
+        mask = np.array(mask, dtype=np.bool_)
         if mask.ndim == 0:
             mask = np.full(values.shape, mask)
         assert mask.shape == values.shape
@@ -31,6 +31,7 @@ class Param(object):
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
+        self.mask.flags["WRITEABLE"] = False
 
     def compressed(self):
         return self.values[~self.mask]
-- 
2.43.0


From 541331a9ca5f2cf92618c4900766e3fde96fdb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 26/55] fix: verbose Broyden fit raised a NameError

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 0b58945..23afe4c 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -551,7 +551,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     g = self.g(params)
 
                     if verbose > 0:
-                        print(k + 1, new_g)
+                        print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
                         self.params = params
-- 
2.43.0


From 3a3cb8c0ab5d26f6d836e55a9a8735cafb1158f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 27/55] fix: a Broyden fit that fails must not replace the
 error estimates

---
 maxlike/maxlike_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 23afe4c..1e3e861 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -534,9 +534,11 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 if not (self.converged and
                         hasattr(self, 'flat_hess_') and
                         self.flat_hess_.shape[0] == grad.shape[0]):
-                    self.flat_hess_ = self.flat_hess(params, y, der, hess).data
+                    flat_hess = self.flat_hess(params, y, der, hess)
+                else:
+                    flat_hess = self.flat_hess_
 
-                J = pinvh(self.flat_hess_)
+                J = pinvh(flat_hess)
                 
                 c_len = len(self.constraint)
                 i1 = (-(c_len + 1) % grad.shape[0]) + 1
-- 
2.43.0


From b66e215ca2fd0a39df4b81b07f282d7dc037abc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 28/55] fix: poisson_cdf_root must raise its errors instead of
 returning them

---
 maxlike/skellam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 83fc31c..fd00755 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -72,7 +72,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
     if target >= 1 or target <= 0:
-        return ValueError
+        raise ValueError
     phi = ndtri(target)
     min_a = 1e-3
     a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
@@ -98,7 +98,8 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 scale_factor *= .5
         count += 1
         if count > max_steps:
-            return ConvergenceError
+            raise ConvergenceError(
+                "Error: no convergence after %d steps" % max_steps)
     return a
 
 
-- 
2.43.0


From 73945d50f227448873f64782d804a7b9a2d558ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 29/55] fix: ConvergenceError of the Skellam root finders
 lacked its message

---
 maxlike/skellam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index fd00755..bd79fd5 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -157,7 +157,8 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
                 new_e = np.linalg.norm(new_s - target)
         count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "Error: no convergence after %d steps" % max_steps)
     return a, b
 
 
@@ -205,5 +206,6 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError(
+                "Error: no convergence after %d steps" % max_steps)
     return a
-- 
2.43.0


From 3ee763b6cf48d8b6274f405ff83463e235938199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 30/55] fix: conditional_skellam_cdf_root never stopped for
 targets that are not attainable

---
 maxlike/skellam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index bd79fd5..701b9f8 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -205,6 +205,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 frame = Poi_a[:, None] * Poi_b[None, :]
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
+        count += 1
         if count > max_steps:
             raise ConvergenceError(
                 "Error: no convergence after %d steps" % max_steps)
-- 
2.43.0


From b269074cb6e7282660d6a19a7d09b1f0b8f29a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 31/55] fix: window of the Skellam probabilities too small for
 the requested tolerance

---
 maxlike/skellam.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 701b9f8..ec3b811 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,6 +1,6 @@
 import numpy as np
 from math import exp
-from scipy.special import ndtri, factorial
+from scipy.special import ndtri, factorial, pdtrc
 from .maxlike_base import ConvergenceError
 
 
@@ -32,9 +32,15 @@ def poisson_mid_cdf(a, n):
 
 
 def tol2size(tol=1e-8, *args):
+    # tail probabilities left out by the window, the normal approximation is
+    # too optimistic for small rates
+    rates = args
     if len(args) == 0:
         args = [1]  # standard value
-    return int(-ndtri(tol) * sum(map(lambda x: x ** .5, args)) + sum(args)) + 1
+    size = int(-ndtri(tol) * sum(map(lambda x: x ** .5, args)) + sum(args)) + 1
+    while sum(pdtrc(size - 1, x) for x in rates) > tol:
+        size += 1
+    return size
 
 
 def skellam_cdf(a, b, n=0, tol=1e-8, inverse=False):
-- 
2.43.0


From a29ea168e67f0642f51d3ca3d85cd1f2fe5da325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 32/55] fix: poisson_cdf_root overflowed when a step led to a
 negative rate

---
 maxlike/skellam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index ec3b811..3ab0fda 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -98,7 +98,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 a = new_a
                 break
             else:
-                new_a = a + scale_factor * step
+                new_a = max(a + scale_factor * step, .1 * a)
                 new_f, _ = poisson_cdf(new_a, n)
                 new_e = abs(target - new_f)
                 scale_factor *= .5
-- 
2.43.0


From 712b157a27a34bdfbeeae4c112ea8586c9922194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 33/55] fix: skellam_cdf_root could step to rates that exhaust
 the memory

---
 maxlike/skellam.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 3ab0fda..9ff8848 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -148,6 +148,8 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
         s, ds = skellam[:, 0], skellam[:, [1, 2]]
         e = np.linalg.norm(target - s)
         step = np.linalg.solve(ds, target - s)
+        # a too large step would lead to a frame that doesn't fit in memory
+        step *= min(1, (1 + a + b) / max(abs(step)))
         scale_factor = 1
         new_ab = np.maximum((a, b) + scale_factor * step, floor)
         new_s = s
-- 
2.43.0


From d132c84c87d97d654612fb9b8012b7e86839993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 34/55] fix: conditional_skellam_cdf_root must refuse targets
 that are not attainable

---
 maxlike/skellam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 9ff8848..f254adb 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -177,7 +177,8 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
 
     TODO: smart guess
     """
-    if target <= 0 or target >= 1:
+    # g(0) = 0.5 * P(Y_b == 0)
+    if target <= 0.5 * exp(-b) or target >= 1:
         raise ValueError
     a = b
     e = 1
-- 
2.43.0


From 4765292050910d3d998120a40e157b714777d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 35/55] fix: Poisson probabilities overflowed for large rates
 and counts

---
 maxlike/skellam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index f254adb..6268003 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -1,13 +1,15 @@
 import numpy as np
 from math import exp
-from scipy.special import ndtri, factorial, pdtrc
+from scipy.special import ndtri, gammaln, pdtrc, xlogy
 from .maxlike_base import ConvergenceError
 
 
 def poisson_vector(a, size=10):
-    curve = np.vectorize(lambda u: a**u / factorial(u))(np.arange(size))
-    dcurve = np.append(-1, curve[:-1] - curve[1:])
-    return exp(-a) * np.array([curve, dcurve])
+    u = np.arange(size)
+    # in logarithms, because a ** u and u! overflow
+    curve = np.exp(xlogy(u, a) - gammaln(u + 1) - a)
+    dcurve = np.append(-curve[:1], curve[:-1] - curve[1:])
+    return np.array([curve, dcurve])
 
 
 def skellam_frame(a, b, size=10):
-- 
2.43.0


From 4e32566f6e9dce6576e375322ea7f24d89644627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 36/55] fix: derivatives of Collapse ignored the axes over
 which they are constant

---
 maxlike/func/func_op.py  | 17 +++++++++--------
 maxlike/tensor/tensor.py |  9 +++++++++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index b44fb57..dae9306 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -110,22 +110,23 @@ class Collapse(Func):
             sum(sum_val=self.sum_val,
                 sum_dim=self.sum_dim)
 
-    def grad(self, params, i):
-        return self.foo.grad(params, i).\
+    def _sum_like(self, x, val):
+        # derivatives may be constant along axes of the value
+        return x.broadcast_like(val).\
             sum(sum_val=self.sum_val,
                 sum_dim=self.sum_dim)
 
+    def grad(self, params, i):
+        return self._sum_like(self.foo.grad(params, i), self.foo(params))
+
     def hess(self, params, i, j):
-        return self.foo.hess(params, i, j).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._sum_like(self.foo.hess(params, i, j), self.foo(params))
 
     def eval(self, params):
         val, grad, hess = self.foo.eval(params)
         return val.sum(self.sum_val, self.sum_dim), \
-               [d.sum(self.sum_val, self.sum_dim) for d in grad], \
-               [[h.sum(self.sum_val, self.sum_dim)
-                 for h in h_line] for h_line in hess]
+               [self._sum_like(d, val) for d in grad], \
+               [[self._sum_like(h, val) for h in h_line] for h_line in hess]
 
 
 class Sum(Func):
diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 8e95ff7..d1929e3 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -178,6 +178,15 @@ class BaseTensor(object, with_metaclass(abc.ABCMeta)):
         """
 
 
+    def broadcast_like(self, other):
+        """
+        Repeats the values along the value/dim axes of 'other', a Tensor, over
+        which the (Base)Tensor is constant
+        """
+        if is_zero(self):
+            return self
+        return self * Tensor(np.ones_like(other.values), dim=other.dim)
+
     def __str__(self):
         return "shape: [{}, {}, {}, {}]".format(
             self.x_dim, self.y_dim, self.n, self.dim)
-- 
2.43.0


From 8139400cd46e8964c4baa153afeca3fe6bf7db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 37/55] fix: score and information of Finite with derivatives
 constant along the outcomes

---
 maxlike/maxlike.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index 3e79b2d..dfaa579 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -134,19 +134,19 @@ class Finite(MaxLike):
         grad = []
         z = y.sum(False)
         for d in der:
-            dz = d.sum(False)
+            dz = d.broadcast_like(y).sum(False)
             grad.append((self.N * (d / y - dz / z)).sum())
         return grad
 
     def hess_like(self, params, y, der, hess):
         H = []
         z = y.sum(False)
-        dz = [d.sum(False) for d in der]
+        dz = [d.broadcast_like(y).sum(False) for d in der]
         for i in range(len(params)):
             hess_line = []
             for j in range(i + 1):
                 h = hess[i][j]
-                hz = h.sum(False)
+                hz = h.broadcast_like(y).sum(False)
                 H1 = (h - der[i] * der[j].transpose() / y) / y
                 H2 = (hz - dz[i] * dz[j].transpose() / z) / z
                 hess_line.append((self.N * (H1 - H2)).sum())
-- 
2.43.0


From 21ed8e92f9a9fe896ca5bc12a012ba9b69ea19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 38/55] fix: copulas must accept margins given as integers

---
 maxlike/func/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index cb67977..100ac5e 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -32,8 +32,8 @@ def copulaWrap(C):
     and return a (normalized) joint distribution.
     """
     def wrap(obj, params, *args, **kwargs):
-        x = np.asarray(params[0]).cumsum(-1)
-        y = np.asarray(params[1]).cumsum(-1)
+        x = np.asarray(params[0], dtype=np.float64).cumsum(-1)
+        y = np.asarray(params[1], dtype=np.float64).cumsum(-1)
         x /= x[..., -1][..., None]
         y /= y[..., -1][..., None]
         # exclude last element
-- 
2.43.0


From b4cb82872f2a462f0d0147e3152b9e258d9a2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 39/55] fix: sum of a GenericTensor over the axis 0 with
 sum_dim=False

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index d1929e3..2922c04 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -260,7 +260,7 @@ class GenericTensor(BaseTensor):
 
     def sum(self, sum_val=True, sum_dim=True):
         # considers the impact of broadcasting
-        if not sum_val and not sum_dim:
+        if sum_val is False and not sum_dim:
             return self
 
         if sum_val is False:
-- 
2.43.0


From c3f50c97216d6c4a5b0255a94d5c1765ae8eafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 40/55] fix: product of the null tensor with a tensor is the
 null tensor

---
 maxlike/tensor/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 2922c04..d7d80b9 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -858,6 +858,9 @@ class Tensor(BaseTensor):
                     op_type.value(self.values, other.toarray()),
                     other.x_dim, other.y_dim, other.dim)
 
+            if (self.values == 0) and op_type in [TensorOp.MUL, TensorOp.DIV]:
+                return Tensor(0)
+
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From d191cf748971e2412fdfc1a398bb6322b62cf096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 41/55] fix: sum of the null tensor over given axes

---
 maxlike/tensor/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index d7d80b9..3e2fd92 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -492,6 +492,9 @@ class Tensor(BaseTensor):
         return arr
 
     def sum(self, sum_val=True, sum_dim=True):
+        if is_zero(self):
+            return self
+
         val = self.values
         p = self.x_dim + self.y_dim
 
-- 
2.43.0


From e42b23c405909e942e973db3e80871b1c8990467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 42/55] fix: contraction of a GenericTensor with the null
 tensor

---
 maxlike/func/func_op.py  | 13 ++++++++++---
 maxlike/tensor/tensor.py |  9 +++++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index dae9306..514068b 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -47,7 +47,7 @@ class FuncWrap(Func):
         if isnull(foo.hess):
             def eval(obj, params):
                 foo_val, foo_grad, foo_hess = foo.eval(obj.param_map(params))
-                val = obj._expand(foo_val)
+                val = obj._expand_val(foo_val)
                 n = len(params)
                 grad = [obj._sum_grad(foo_grad, i) for i in range(n)]
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
@@ -60,8 +60,15 @@ class FuncWrap(Func):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
                  expand(self.dim_map, self.n_dim, dim=True)
 
+    def _expand_val(self, x):
+        # a scalar that happens to be zero is no null tensor
+        if x.values.ndim == 0:
+            return Tensor(x.values.reshape((1, ) * (self.n_feat + self.n_dim)),
+                          dim=self.n_dim)
+        return self._expand(x)
+
     def __call__(self, params):
-        return self._expand(self.foo(self.param_map(params)))
+        return self._expand_val(self.foo(self.param_map(params)))
 
     def _sum_grad(self, foo_grad, i):
         # a parameter can be used more than once
@@ -90,7 +97,7 @@ class FuncWrap(Func):
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
-        val = self._expand(foo_val)
+        val = self._expand_val(foo_val)
         n = len(params)
         grad = [self._sum_grad(foo_grad, i) for i in range(n)]
         hess = [[self._sum_hess(lambda k, l: foo_hess[k][l], i, j)
diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 3e2fd92..40437cb 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -329,6 +329,9 @@ class GenericTensor(BaseTensor):
             [el.drop_dim() for el in self.elements])
 
     def dot(self, other):
+        if is_zero(other):
+            return other
+
         if isinstance(other, Tensor):
             gt = GenericTensor()
             for el in self.elements:
@@ -344,6 +347,9 @@ class GenericTensor(BaseTensor):
         raise ValueError
 
     def dot_left(self, other):
+        if is_zero(other):
+            return other
+
         if isinstance(other, Tensor):
             gt = GenericTensor()
             for el in self.elements:
@@ -359,6 +365,9 @@ class GenericTensor(BaseTensor):
         raise ValueError
 
     def dot_right(self, other):
+        if is_zero(other):
+            return other
+
         if isinstance(other, Tensor):
             gt = GenericTensor()
             for el in self.elements:
-- 
2.43.0


From c61ddc31154349c5b6c5945833e8afa5742c700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 43/55] fix: cross derivatives of MarkovMatrix

---
 maxlike/func/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index ba04feb..f843985 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -140,7 +140,7 @@ class MarkovMatrix(Func):
 
                     H12[..., x_, y] += s1 * f1 * hm12 + f1 * dm2
                     H12[..., x, y_] += s2 * f2 * hm12 + f2 * dm1
-                    H12[..., x, y]  -= f1 * dm1 + f2 * dm2 + (s1 * f1 + s2 * f2) * hm12
+                    H12[..., x, y]  -= f1 * dm2 + f2 * dm1 + (s1 * f1 + s2 * f2) * hm12
 
                     H22[..., x_, y] += s1 * f1 * hm22
                     H22[..., x, y_] += s2 * f2 * hm22 + 2 * f2 * dm2
-- 
2.43.0


From edf6f4f0348d36788c26ba8ebb00a82bbb751c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 44/55] fix: Frank copula with strong dependence

---
 maxlike/func/copula.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index 100ac5e..b43f32a 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -143,11 +143,23 @@ class Frank(Copula):
         assert rho != 0
         self.a = rho
 
+    @staticmethod
+    @no_divwarn
+    def _strong(a, x, y):
+        # without the cancellations and overflows of strong dependences
+        return (np.log(-np.expm1(-a)) - np.logaddexp(
+            -a * x + np.log(-np.expm1(-a * y)),
+            -a * y + np.log(-np.expm1(-a * (1 - y))))) / a
+
     def __call__(self, x, y):
-        return (-1 / self.a) * np.log(1 +
-            (np.exp(-self.a * x) - 1) *
-            (np.exp(-self.a * y) - 1) /
-            (np.exp(-self.a) - 1))
+        if self.a > 1:
+            return self._strong(self.a, x, y)
+        if self.a < -1:
+            return x - self._strong(-self.a, x, 1 - y)
+        return (-1 / self.a) * np.log1p(
+            np.expm1(-self.a * x) *
+            np.expm1(-self.a * y) /
+            np.expm1(-self.a))
 
 
 class AkiMikhailHaq(Copula):
-- 
2.43.0


From 329755c46f019a35a3df3dc406cb405759ea0c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 45/55] fix: Gumbel and Clayton copulas with extreme dependence

---
 maxlike/func/copula.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index b43f32a..bf4f2f3 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -103,9 +103,12 @@ class Clayton(Copula):
 
     @no_divwarn
     def __call__(self, x, y):
-        return np.power(
-            np.power(x, -self.a) + np.power(y, -self.a) - 1,
-            -1 / self.a)
+        z, w = np.minimum(x, y), np.maximum(x, y)
+        r = z / np.where(w > 0, w, 1)
+        # same expression, scaled by the smaller argument
+        return z * np.exp(-np.log1p(
+            np.expm1(self.a * np.log(r)) -
+            np.expm1(self.a * np.log(z))) / self.a)
 
 
 class Gumbel(Copula):
@@ -127,10 +130,12 @@ class Gumbel(Copula):
 
     @no_divwarn
     def __call__(self, x, y):
-        return np.exp(-np.power(
-            np.power(-np.log(x), self.a) +
-            np.power(-np.log(y), self.a),
-            1 / self.a))
+        u, v = -np.log(x), -np.log(y)
+        m = np.maximum(u, v)
+        # powers of the ratio neither overflow nor underflow together
+        r = np.where(m < np.inf, np.minimum(u, v), 0) / \
+            np.where(m > 0, m, np.inf)
+        return np.exp(-m * np.power(1 + np.power(r, self.a), 1 / self.a))
 
 
 class Frank(Copula):
-- 
2.43.0


From 34d7c1b7c585cf9bae2f8d28cadffdc8fab66e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 46/55] fix: powers of integer rates overflowed in Poisson

---
 maxlike/func/func_proba.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maxlike/func/func_proba.py b/maxlike/func/func_proba.py
index f6f74f5..15afbdd 100644
--- a/maxlike/func/func_proba.py
+++ b/maxlike/func/func_proba.py
@@ -15,20 +15,20 @@ class Poisson(Func):
         self.size = size
 
     def __call__(self, params):
-        a = np.asarray(params[0])[..., None]
+        a = np.asarray(params[0], dtype=np.float64)[..., None]
         x = np.arange(self.size)
         vec = (a ** x) / factorial(x)
         return Tensor(vec, dim=1)
 
     def grad(self, params, i):
-        a = np.asarray(params[0])[..., None]
+        a = np.asarray(params[0], dtype=np.float64)[..., None]
         x = np.arange(self.size)
         vec = ((a ** x) / factorial(x))
         vec = np.insert(vec[..., :-1], 0, 0, -1)
         return grad_tensor(vec, params, i, True, dim=1)
 
     def hess(self, params, i, j):
-        a = np.asarray(params[0])[..., None]
+        a = np.asarray(params[0], dtype=np.float64)[..., None]
         x = np.arange(self.size)
         vec = ((a ** x) / factorial(x))
         vec = np.insert(vec[..., :-1], 0, 0, -1)
@@ -36,7 +36,7 @@ class Poisson(Func):
         return hess_tensor(vec, params, i, j, True, True, dim=1)
 
     def eval(self, params):
-        a = np.asarray(params[0])[..., None]
+        a = np.asarray(params[0], dtype=np.float64)[..., None]
         x = np.arange(self.size)
         vec = (a ** x) / factorial(x)
         val = Tensor(vec, dim=1)
-- 
2.43.0


From 9bd864b24759fa7a16eb56e5ca8a6b284d785549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 47/55] fix: Gaussian copula was nan for strong correlations

---
 maxlike/func/copula.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index bf4f2f3..1c8519e 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -22,7 +22,7 @@ def vectorize(n_in, n_out):
 @no_divwarn
 @vectorize(3, 1)
 def gauss_bivar(x, y, rho):
-    return mvnun((-999, -999), (x, y), (0, 0), ((1, rho), (rho, 1)))[0]
+    return mvnun((-20, -20), (x, y), (0, 0), ((1, rho), (rho, 1)))[0]
 
 
 def copulaWrap(C):
@@ -81,8 +81,8 @@ class Gaussian(Copula):
 
     def __call__(self, x, y):
         return gauss_bivar(
-            np.clip(ndtri(x), -999, 999),
-            np.clip(ndtri(y), -999, 999),
+            np.clip(ndtri(x), -20, 20),
+            np.clip(ndtri(y), -20, 20),
             self.rho)
 
 
-- 
2.43.0


From 22727bb19ea850e18526a7e78482ea5abb7b80e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 48/55] fix: fit reported success with unsatisfied constraints

A Newton step along directions that do not change the likelihood was halved
because of rounding errors, and the fit stopped before reaching the
constraints.
---
 maxlike/maxlike_base.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 1e3e861..4413f0a 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -430,6 +430,13 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         return hess
      
+    def _feasible(self, params, tol):
+        """
+        Checks if the constraints are satisfied.
+        """
+        return all(abs(float(g([params[k] for k in param_map]))) < max(tol, 1e-8)
+                   for param_map, _, g in self.constraint)
+
     def newton_step(self, params):
         
         y, der, hess = self.model.eval(params)
@@ -502,7 +509,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     new_flat_params = flat_params - mult * step
                     params = self._reshape_params(new_flat_params)
                     g = self.g(params, self.model(params))
-                    if g >= prev_g:
+                    # the constraints can only change the objective by
+                    # rounding errors
+                    if g >= prev_g - 1e-13 * abs(prev_g):
                         flat_params = new_flat_params
                         break
                     else:
@@ -515,7 +524,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         "Error: the objective function did not increase " +
                         "after %d steps" % max_inner_steps, "step")
 
-                if abs(prev_g / g - 1) < tol:
+                # a reduced step doesn't reach the constraints
+                if mult == 1 and abs(prev_g / g - 1) < tol and \
+                        self._feasible(params, tol):
                     self.params = params
                     self.flat_hess_ = hess
                     return True
@@ -555,7 +566,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     if verbose > 0:
                         print(k + 1, g)
 
-                    if abs(prev_g / g - 1) < tol:
+                    if abs(prev_g / g - 1) < tol and \
+                            self._feasible(params, tol):
                         self.params = params
                         self.flat_hess_ = pinvh(J)
                         self.converged = True
-- 
2.43.0


From 2cabcbc9d3fd52839eecacdff3918798b98bd541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:22 +0000
Subject: [PATCH 49/55] fix: Broyden fit with binding constraints stopped away
 from the maximum

The inverse Jacobian was updated with changes of the gradient that ignore the
multipliers of the constraints.
---
 maxlike/maxlike_base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 4413f0a..d28a505 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -323,10 +323,13 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
     def flat_grad(self, params, *args, **kwargs):
 
         n = len(params)
+        multipliers = kwargs.pop('multipliers', None)
         grad = self.grad_like(params, *args, **kwargs)
         grad += [0] * len(self.constraint)
 
         for k, (param_map, gamma, g) in enumerate(self.constraint):
+            if multipliers is not None:
+                gamma = multipliers[k]
             args = [params[k] for k in param_map]
             grad_g = g.grad(args)
             for i, idx in enumerate(param_map):
@@ -554,12 +557,17 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 c_len = len(self.constraint)
                 i1 = (-(c_len + 1) % grad.shape[0]) + 1
 
+                # The gradient has to include the multipliers of the
+                # constraints, otherwise its changes are not consistent with J
+                multipliers = np.zeros(c_len)
+
                 for k in range(max_steps):
                     prev_g = g
                     grad_prev = grad
 
                     step = -np.dot(J, grad)
                     flat_params += step[:i1]
+                    multipliers += step[i1:]
                     params = self._reshape_params(flat_params)
                     g = self.g(params)
 
@@ -574,7 +582,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                         return True
                     
                     y, der = self.model(params), self.model.grad(params)
-                    grad = self.flat_grad(params, y, der)
+                    grad = self.flat_grad(
+                        params, y, der, multipliers=multipliers)
                     dgrad = grad - grad_prev
                     J += np.outer(step - np.dot(J, dgrad), dgrad) / \
                          (dgrad * dgrad).sum()
-- 
2.43.0


From ed5a1825ff200bdee7b29d591eac1bb91ac362ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 50/55] fix: Broyden fit stopped when two consecutive values
 were close by chance

The gain that is expected from a further step has to be small, too.
---
 maxlike/maxlike_base.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index d28a505..f2df8d3 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -560,6 +560,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 # The gradient has to include the multipliers of the
                 # constraints, otherwise its changes are not consistent with J
                 multipliers = np.zeros(c_len)
+                n_obs = float(self.N.sum())
 
                 for k in range(max_steps):
                     prev_g = g
@@ -574,16 +575,20 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     if verbose > 0:
                         print(k + 1, g)
 
-                    if abs(prev_g / g - 1) < tol and \
+                    y, der = self.model(params), self.model.grad(params)
+                    grad = self.flat_grad(
+                        params, y, der, multipliers=multipliers)
+
+                    # The objective isn't monotone: consecutive values can be
+                    # close while a further step would still change it.
+                    gain = np.dot(grad, np.dot(J, grad)) / n_obs
+                    if max(abs(prev_g / g - 1), abs(gain / g)) < tol and \
                             self._feasible(params, tol):
                         self.params = params
                         self.flat_hess_ = pinvh(J)
                         self.converged = True
                         return True
-                    
-                    y, der = self.model(params), self.model.grad(params)
-                    grad = self.flat_grad(
-                        params, y, der, multipliers=multipliers)
+
                     dgrad = grad - grad_prev
                     J += np.outer(step - np.dot(J, dgrad), dgrad) / \
                          (dgrad * dgrad).sum()
-- 
2.43.0


From 9395a694b45bc2566de4f77d2ee24390129bbed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 51/55] fix: objective of ZeroInflatedPoisson was nan for s = 0
 and overflowed for large rates

---
 maxlike/maxlike.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/maxlike/maxlike.py b/maxlike/maxlike.py
index dfaa579..3c546fc 100644
--- a/maxlike/maxlike.py
+++ b/maxlike/maxlike.py
@@ -1,6 +1,7 @@
 import numpy as np
 from .maxlike_base import MaxLike
-from scipy.special import gammaln
+from .tensor import Tensor
+from scipy.special import gammaln, xlogy
 
 
 class Poisson(MaxLike):
@@ -43,8 +44,11 @@ class ZeroInflatedPoisson(MaxLike):
         self.Z = None
 
     def like(self, params, y):
-        return (self.X * y + self.Z * np.log(self.s) -
-                self.N * np.log(np.exp(np.exp(y)) + self.s - 1) - 
+        # log(e ** m + s - 1) = m + log(1 + (s - 1) * e ** -m), the latter
+        # doesn't overflow
+        m = np.exp(y)
+        return (self.X * y + Tensor(xlogy(self.Z.values, self.s)) -
+                self.N * (m + np.log(1 + (self.s - 1) * np.exp(-m))) -
                 gammaln(self.X + 1)).sum()
 
     def grad_like(self, params, y, der):
-- 
2.43.0


From 4b5928c462a3136eaf42524802f18bb76643416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 52/55] fix: parameters the model or a constraint does not
 depend on

---
 maxlike/maxlike_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index f2df8d3..6d397d4 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -342,7 +342,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 grad[idx] -= grad_h[i]
 
-        grad = [d.values[~p.mask] for d, p in zip(grad, params)] + grad[n:]
+        # null gradients have no parameter axes
+        grad = [np.broadcast_to(d.values, p.shape)[~p.mask]
+                for d, p in zip(grad, params)] + grad[n:]
         grad = np.concatenate(grad)
 
         return grad
@@ -406,7 +408,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         #
         # then hess[i][j].shape = shape[j] x shape[i]
 
-        hess = [[hess[i][j].values[
+        hess = [[np.broadcast_to(
+                     hess[i][j].values, p_i.shape + params[j].shape)[
                      np.multiply.outer(~p_i.mask, ~params[j].mask)].
                      reshape((p_i.count(), params[j].count()))
                  for j in range(i + 1)]
-- 
2.43.0


From 04779046b78bfb50518b56e39e34004151f57b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 53/55] fix: unobserved categories were transformed as if they
 had been observed

---
 maxlike/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/preprocessing.py b/maxlike/preprocessing.py
index 4872aaf..bf9598b 100644
--- a/maxlike/preprocessing.py
+++ b/maxlike/preprocessing.py
@@ -46,7 +46,7 @@ def prepare_series(observations, transformations=None, add_axis=None):
         if add_axis is not None:
             axis = sorted(set(axis).union(add_axis))
         shape = (len(axis))
-        df = observations.groupby(observations.index).\
+        df = observations.groupby(observations.index, observed=True).\
             agg(**transformations).reindex(axis).fillna(0)
     
     res = {k: df[k].values.reshape(shape) for k in transformations.keys()}
-- 
2.43.0


From 82ccb00de8ae8c9a6508e7a1c74d64d589794197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 54/55] fix: df_count with a single column raised an IndexError

---
 maxlike/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/preprocessing.py b/maxlike/preprocessing.py
index bf9598b..030cd41 100644
--- a/maxlike/preprocessing.py
+++ b/maxlike/preprocessing.py
@@ -76,6 +76,6 @@ def df_count(series, size, name=None):
         name = 'count'
     X = series.values[:, None] == np.arange(size - 1)[None, :]
     return pd.DataFrame(
-        np.insert(X, -1, X.sum(-1) == False, 1),
+        np.insert(X, max(size - 2, 0), X.sum(-1) == False, 1),
         index=series.index,
         columns=pd.Index(np.arange(size), name=name))
-- 
2.43.0


From 0bb0969da59e82729cc239fc87156de7c04861c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 55/55] fix: Broyden's method must not report success far from
 a stationary point

---
 maxlike/maxlike_base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 6d397d4..b24bcb4 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -587,6 +587,19 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     gain = np.dot(grad, np.dot(J, grad)) / n_obs
                     if max(abs(prev_g / g - 1), abs(gain / g)) < tol and \
                             self._feasible(params, tol):
+                        # J is an estimate, that can be far from the inverse
+                        # of the hessian after erratic steps
+                        hess = self.flat_hess(
+                            params, y, der, self.model.hess(params))
+                        inv_hess = pinvh(hess)
+                        newton = np.dot(inv_hess, grad)
+                        gain = np.dot(grad, newton) / n_obs
+                        left = abs(grad - np.dot(hess, newton)).max() / n_obs
+                        if not (abs(gain / g) < tol and
+                                left < max(tol, 1e-8)):
+                            J = inv_hess
+                            continue
+
                         self.params = params
                         self.flat_hess_ = pinvh(J)
                         self.converged = True
-- 
2.43.0

