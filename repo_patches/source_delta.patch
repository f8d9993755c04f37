From 4f2a5c3c885e040e05befebbe24f8fc56dd27a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 01/49] fix: allow copy=False for values that need conversion
 (NumPy 2)

---
 src/pyhipp/core/abc.py                   | 2 +-
 src/pyhipp/core/arrays/array.py          | 2 +-
 src/pyhipp/core/containers/data_table.py | 6 +++---
 src/pyhipp/core/dataproc/data_structs.py | 2 +-
 src/pyhipp/core/dataproc/mask.py         | 2 +-
 src/pyhipp/stats/binning.py              | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pyhipp/core/abc.py b/src/pyhipp/core/abc.py
index 849b008..7fc3f09 100644
--- a/src/pyhipp/core/abc.py
+++ b/src/pyhipp/core/abc.py
@@ -120,7 +120,7 @@ class HasValue:
     def __init__(self, value: np.ndarray, copy=True, **kw) -> None:
         super().__init__(**kw)
 
-        self.value = np.array(value, copy=copy)
+        self.value = np.array(value, copy=copy or None)
 
     def set_value(self, value: np.ndarray) -> None:
         self.value[...] = value
diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 2ab0730..15fffff 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -22,7 +22,7 @@ class Array(HasDictRepr):
         if isinstance(data, Array):
             data = data._impl
             
-        self._impl = np.array(data, dtype=dtype, copy=copy)
+        self._impl = np.array(data, dtype=dtype, copy=copy or None)
         
     @classmethod
     def zeros(cls, shape: Shape, dtype: DType = None, **kw) -> Array:
diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index c1d3ded..e68846d 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -52,7 +52,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         assert isinstance(data, Mapping)
 
         self._data = OrderedDict({
-            k: np.array(v, copy=copy) for k, v in data.items()
+            k: np.array(v, copy=copy or None) for k, v in data.items()
         })
 
     def __getitem__(self, key: KeyOrKeys) -> ValueOrValues:
@@ -127,7 +127,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
 
     def update(self, other: Mapping[Key, Value], copy=True) -> None:
         self._data.update({
-            k: np.array(v, copy=copy) for k, v in other.items()
+            k: np.array(v, copy=copy or None) for k, v in other.items()
         })
 
     def clear(self) -> None:
@@ -176,7 +176,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         return cls(**init_kw)
 
     def to_dict(self, copy=True) -> dict[str, np.ndarray]:
-        return {k: np.array(v, copy=copy) for k, v in self.items()}
+        return {k: np.array(v, copy=copy or None) for k, v in self.items()}
 
     def to_dict_of_list(self) -> dict[str, list]:
         return {k: v.tolist() for k, v in self.items()}
diff --git a/src/pyhipp/core/dataproc/data_structs.py b/src/pyhipp/core/dataproc/data_structs.py
index 6909bf5..5f9c15a 100644
--- a/src/pyhipp/core/dataproc/data_structs.py
+++ b/src/pyhipp/core/dataproc/data_structs.py
@@ -44,7 +44,7 @@ class Array:
     def __as_array_one(x, copy):
         if x is None:
             return None
-        return np.array(x, copy=copy)
+        return np.array(x, copy=copy or None)
 
     
     @staticmethod
diff --git a/src/pyhipp/core/dataproc/mask.py b/src/pyhipp/core/dataproc/mask.py
index f5bc15a..3e747d7 100644
--- a/src/pyhipp/core/dataproc/mask.py
+++ b/src/pyhipp/core/dataproc/mask.py
@@ -47,7 +47,7 @@ class Mask:
     
     @staticmethod
     def on_array(mask: Any, a: np.ndarray, copy: bool = False):
-        return np.array(a[mask], copy=copy)
+        return np.array(a[mask], copy=copy or None)
         
     @staticmethod
     def on_arrays(mask: Any, 
diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index f2b3bb7..1da0c97 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -71,13 +71,13 @@ class Bin:
     
     @staticmethod
     def edges_to_centers(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return .5 * ( lo + hi )
     
     @staticmethod
     def edges_to_widths(e, stride=1):
-        e = np.array(e, copy=False)
+        e = np.asarray(e)
         lo, hi = e[:-stride], e[stride:]
         return hi - lo
     
-- 
2.43.0


From 13049c9a041cd88c9c48ff4ff281c783b8e2ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 02/49] fix: stack table rows with vstack (row_stack was
 removed from NumPy)

---
 src/pyhipp/core/containers/data_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index e68846d..fa5ab21 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -185,7 +185,7 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
         return np.column_stack(list(self.values()))
 
     def row_stacked(self) -> np.ndarray:
-        return np.row_stack(list(self.values()))
+        return np.vstack(list(self.values()))
 
     def concat(self, *other: Mapping[Key, Value]) -> DataTable:
         '''
-- 
2.43.0


From 147f817046048e373d59b4513dbab9175da6ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 03/49] fix: keep offsets of unsigned counts integral

---
 src/pyhipp/core/dataproc/data_structs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/core/dataproc/data_structs.py b/src/pyhipp/core/dataproc/data_structs.py
index 5f9c15a..a15b171 100644
--- a/src/pyhipp/core/dataproc/data_structs.py
+++ b/src/pyhipp/core/dataproc/data_structs.py
@@ -56,7 +56,8 @@ class Array:
         i.e., sum(count).
         '''
         
-        off = np.concatenate(( (0,), np.cumsum(count) ))
+        off = np.cumsum(count)
+        off = np.concatenate(( np.zeros(1, dtype=off.dtype), off ))
         if not has_end:
             off = off[:-1]
         return off
-- 
2.43.0


From 7c58e6404c9a9c8f3a2d0c6c43a67481f9f254a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 04/49] fix: pass the number of indexed elements first when
 building a flat argsort

---
 src/pyhipp/core/arrays/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index 15fffff..facc840 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -49,7 +49,7 @@ class Array(HasDictRepr):
             -> Union[FlatIndexArray, IntArray]:
         out = self._impl.argsort(axis=axis, kind=kind)
         if axis is None:
-            out = FlatIndexArray(out, self.size, copy=False)
+            out = FlatIndexArray(self.size, out, copy=False)
         else:
             out = IntArray(out, copy=False)
         return out
-- 
2.43.0


From 26abdbbb1cbb2ad92ad5a8defbe307bcab9e2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 05/49] fix: accept any dtype-like object when skipping Fortran
 records

---
 src/pyhipp/io/binary/fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index 9db155d..f816fcb 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -63,4 +63,4 @@ class BinaryFile(HasDictRepr):
         '''
         if n is None:
             n = 1
-        return dtype.itemsize * n
+        return np.dtype(dtype).itemsize * n
-- 
2.43.0


From 49b0c36a29a57216eb01cafe42ff50e0e72e2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 06/49] fix: make the representation of an open binary file
 name existing attributes

---
 src/pyhipp/io/binary/fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index f816fcb..54c9b14 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -12,7 +12,7 @@ import numpy as np
 
 class BinaryFile(HasDictRepr):
 
-    repr_attr_keys = ('file', 'file_path', 'mode', 'open_kw')
+    repr_attr_keys = ('_file', '_file_path', '_mode', '_open_kw')
 
     def __init__(self, file_path: Path, mode='rb', open_kw={}):
 
-- 
2.43.0


From 7c89efda2ee3324bd5b380703edd1f80a81ed74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 07/49] fix: let index arrays be constructed (compare the raw
 shape)

---
 src/pyhipp/core/arrays/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/core/arrays/array.py b/src/pyhipp/core/arrays/array.py
index facc840..863127d 100644
--- a/src/pyhipp/core/arrays/array.py
+++ b/src/pyhipp/core/arrays/array.py
@@ -126,5 +126,5 @@ class IndexArray(IntArray):
         self.shape_indexed = Shape(shape_indexed)
         
         assert self.n_dims == 2
-        assert self.shape[-1] == len(self.shape_indexed)
+        assert self._impl.shape[-1] == len(self.shape_indexed)
 
-- 
2.43.0


From 4f35941e909a900a038d69bcfe74c24f66d1ebfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 08/49] fix: honour the dataset flag when converting a text
 table to a new file

---
 src/pyhipp/io/h5/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/shortcuts.py b/src/pyhipp/io/h5/shortcuts.py
index 939c99e..b260109 100644
--- a/src/pyhipp/io/h5/shortcuts.py
+++ b/src/pyhipp/io/h5/shortcuts.py
@@ -16,7 +16,7 @@ def txt_to_h5(f_in: str, f_out: str | Group, dtype: np.ndarray,
     '''
     if isinstance(f_out, (str, Path)):
         with File(f_out, f_flag) as _f_out:
-            txt_to_h5(f_in, _f_out, dtype)
+            txt_to_h5(f_in, _f_out, dtype, d_flag=d_flag)
         return
     assert isinstance(f_out, Group)
     dsets = np.loadtxt(f_in, dtype=dtype)
-- 
2.43.0


From 64d4bfc238a827b74680c0f08d4b8f608ee77fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 09/49] fix: give empty attributes an initial value (h5py
 requires data)

---
 src/pyhipp/io/h5/named_objs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/h5/named_objs.py b/src/pyhipp/io/h5/named_objs.py
index c09126d..1829cdd 100644
--- a/src/pyhipp/io/h5/named_objs.py
+++ b/src/pyhipp/io/h5/named_objs.py
@@ -82,7 +82,7 @@ class AttrManager(Obj):
             if flag == 'x':
                 raise ValueError(f'Redundant key {key}')
         else:
-            self._raw.create(key, shape=shape, dtype=dtype)
+            self._raw.create(key, np.zeros(shape, dtype), dtype=dtype)
 
     def keys(self) -> KeyList:
         return KeyList(self.__keys())
-- 
2.43.0


From 8e84c492b9bd3ede570eca02a42ec602b17a0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 10/49] fix: length of a point group reads its operations

---
 src/pyhipp/group_theory/point_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/group_theory/point_group.py b/src/pyhipp/group_theory/point_group.py
index 919da09..ad382a6 100644
--- a/src/pyhipp/group_theory/point_group.py
+++ b/src/pyhipp/group_theory/point_group.py
@@ -90,7 +90,7 @@ class Group(abc.HasName, abc.HasSimpleRepr):
         return iter(self.ops)
     
     def __len__(self) -> int:
-        return len(self.opts)
+        return len(self.ops)
     
     def __getitem__(self, idx) -> Op:
         return self.ops[idx]
-- 
2.43.0


From dd8b1ecd3cbc322081186c4b19b42fa04fe66879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 11/49] fix: reject descending interpolation nodes when
 checking is enabled

---
 src/pyhipp/numerical/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/numerical/interpolate.py b/src/pyhipp/numerical/interpolate.py
index 1ce3518..27086d1 100644
--- a/src/pyhipp/numerical/interpolate.py
+++ b/src/pyhipp/numerical/interpolate.py
@@ -139,7 +139,7 @@ class Linear:
             n = len(x_nodes)
             assert x_nodes.shape == (n,)
             assert y_nodes.shape == (n,)
-            assert (x_nodes[1:] - x_nodes[:-1]).all()
+            assert (x_nodes[1:] > x_nodes[:-1]).all()
         assert len(x_nodes) >= 2
 
         self._x_nodes = x_nodes
-- 
2.43.0


From 7dceb78510254447e5a1ca31a40013475092f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 12/49] fix: locate values far above the range of equal-space
 bins in the overflow bin

---
 src/pyhipp/stats/binning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index 1da0c97..03781b6 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -189,9 +189,9 @@ class EqualSpaceBins(Bins):
         
     def locate(self, x: np.ndarray) -> np.ndarray:
         b, x_step, n_bins = self._x_range[0], self._x_step, self._n_bins
-        ids = np.floor((x - b) / x_step).astype(np.int64)
-        np.clip(ids, -1, n_bins, out=ids)
-        return ids
+        ids = np.floor((x - b) / x_step)
+        ids = np.fmin(np.fmax(ids, -1), n_bins)  # bound before the integer cast
+        return ids.astype(np.int64)
         
     def to_simple_repr(self) -> dict:
         return {
-- 
2.43.0


From 10df3dea4cec60e713ffdcda590c55cfc26b27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 13/49] fix: return the histogram of the sub-bins as sub_h

---
 src/pyhipp/stats/binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index 03781b6..64dbc06 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -116,7 +116,7 @@ class Hist1D:
         h = Bin.combine_adjacent_bins(_h, sub_bins)
         
         return DataDict({'x': x, 'dx': dx, 'h': h, 
-                         'sub_e': _e, 'sub_h': h}) 
+                         'sub_e': _e, 'sub_h': _h}) 
 
         
 class Bins(abc.HasSimpleRepr, abc.IsImmutable):
-- 
2.43.0


From 9197708e70cb74d8da2460e7431ccfd373801960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 14/49] fix: leave masked-out samples out of sums even if not
 finite

---
 src/pyhipp/stats/reduction.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 5501a2e..be0055b 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -119,13 +119,10 @@ class Sum(Reduce):
 
     def _impl(self, x: np.ndarray, weight: np.ndarray = None,
               mask: np.ndarray = None) -> np.ndarray:
-        if weight is None:
-            w_tot = mask
-        else:
-            w_tot = weight if mask is None else weight * mask
-
-        if w_tot is not None:
-            x = x * w_tot
+        if weight is not None:
+            x = x * weight
+        if mask is not None:
+            x = np.where(mask, x, 0)
 
         out = x.sum(-1)
         return np.asarray(out)
-- 
2.43.0


From 4039da0db360dc89ec4a28cd6bc59a60bcb3d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 15/49] fix: fill empty selections of the standard deviation
 with empty_fill, not NaN

---
 src/pyhipp/stats/reduction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index be0055b..b477ca1 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -165,7 +165,9 @@ class StdDev(Reduce):
         if x.ndim == 2:
             x_mean = x_mean[:, None]
         dx = x - x_mean
-        return np.sqrt(mean(dx * dx, weight, mask))
+        out = np.asarray(np.sqrt(Mean(0.)(dx * dx, weight, mask)))
+        out[Count()(x, mask=mask) < 1] = self.empty_fill
+        return out
 
 
 class Quantile(Reduce):
-- 
2.43.0


From a9d158b2f10e81b8d916b36e3edc7c1d923c1727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 16/49] fix: keep the lower bound of the deviation named by the
 representation

---
 src/pyhipp/stats/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyhipp/stats/preprocessing.py b/src/pyhipp/stats/preprocessing.py
index 143e059..05d4215 100644
--- a/src/pyhipp/stats/preprocessing.py
+++ b/src/pyhipp/stats/preprocessing.py
@@ -39,6 +39,7 @@ class Standardize(Preprocess):
         
         self.mean = mean
         self.sd = sd
+        self.sd_lb = sd_lb
         
     def _impl_forward(self, x: np.ndarray) -> np.ndarray:
         return (x - self.mean) / self.sd
-- 
2.43.0


From e6a186173509fbb3848b18980ffeb0545591c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 17/49] fix: transform back to the shape of the field on grids
 of odd size

---
 src/pyhipp/field/cubic_box/gravity.py   | 2 +-
 src/pyhipp/field/cubic_box/smoothing.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/field/cubic_box/gravity.py b/src/pyhipp/field/cubic_box/gravity.py
index b1ee677..1110d96 100644
--- a/src/pyhipp/field/cubic_box/gravity.py
+++ b/src/pyhipp/field/cubic_box/gravity.py
@@ -91,7 +91,7 @@ class TidalField:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers, norm='ortho')
         sm = _Gaussian(self._r_sm, mesh)
         S = _LinearShapeFn(mesh) if self._correct_shape == 'cic' \
             else _NoneShapeFn()
diff --git a/src/pyhipp/field/cubic_box/smoothing.py b/src/pyhipp/field/cubic_box/smoothing.py
index ca5a7be..dc6c277 100644
--- a/src/pyhipp/field/cubic_box/smoothing.py
+++ b/src/pyhipp/field/cubic_box/smoothing.py
@@ -90,7 +90,7 @@ class FFTSmoothing:
 
     def run(self, field: Field):
         data, mesh = field.data, field.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=data.shape, n_workers=self._n_workers, norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
@@ -157,7 +157,7 @@ class FourierSpaceSmoothing:
         '''
 
         rho_x, mesh = rho_x.data, rho_x.mesh._impl
-        fft = NdRealFFT(n_workers=self._n_workers, norm='ortho')
+        fft = NdRealFFT(shape=rho_x.shape, n_workers=self._n_workers, norm='ortho')
         method = self._method
         if method == 'gaussian':
             sm = _Gaussian(self._r_sm, mesh)
-- 
2.43.0


From a0aec33298f085c829190a9cbc3cdfc4ff0fc22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 18/49] fix: kiloparsec is a thousandth of a megaparsec

---
 src/pyhipp/astro/quantity/unit_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/quantity/unit_system.py b/src/pyhipp/astro/quantity/unit_system.py
index 28c4ca5..716823d 100644
--- a/src/pyhipp/astro/quantity/unit_system.py
+++ b/src/pyhipp/astro/quantity/unit_system.py
@@ -28,7 +28,7 @@ class _Constants:
     def __init__(self) -> None:
 
         self.mpc_to_m = 3.085677581491367e+22
-        self.kpc_to_m = self.mpc_to_m * 1.0e3
+        self.kpc_to_m = self.mpc_to_m / 1.0e3
         self.pc_to_m = self.mpc_to_m / 1.0e6
         self.gyr_to_s = 3.15576e+16
         self.myr_to_s = self.gyr_to_s / 1.0e3
-- 
2.43.0


From 6c9d6e2ff7b86e163e4f3ef7d43e266d5f37465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 19/49] fix: apply the sign of sexagesimal angles to minutes
 and seconds

---
 src/pyhipp/astro/coords/cvt.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyhipp/astro/coords/cvt.py b/src/pyhipp/astro/coords/cvt.py
index 5d6b833..492bd75 100644
--- a/src/pyhipp/astro/coords/cvt.py
+++ b/src/pyhipp/astro/coords/cvt.py
@@ -1,11 +1,14 @@
 from __future__ import annotations
 import typing
 from typing import Self
+import math
 
 def dms_to_deg(dms: str| tuple[float,float,float]) -> float:
     if isinstance(dms, str):
         dms = tuple(float(v) for v in dms.split(':'))
     d, m, s = dms
+    if math.copysign(1., d) < 0.:     # sign applies to all parts
+        m, s = -abs(m), -abs(s)
     deg = d + m / 60. + s / 3600.
     return deg
 
@@ -13,5 +16,7 @@ def hms_to_deg(hms: str| tuple[float,float,float]) -> float:
     if isinstance(hms, str):
         hms = tuple(float(v) for v in hms.split(':'))
     h, m, s = hms
+    if math.copysign(1., h) < 0.:     # sign applies to all parts
+        m, s = -abs(m), -abs(s)
     deg = (h + m / 60. + s / 3600.)*15.
     return deg
\ No newline at end of file
-- 
2.43.0


From fd303a1e43199c21ec4f3b38c5bf83486ecb5ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 20/49] fix: forget the name of a replaced parameter

---
 src/pyhipp/astro/cosmology/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/cosmology/param.py b/src/pyhipp/astro/cosmology/param.py
index eea7d33..4ed3f7f 100644
--- a/src/pyhipp/astro/cosmology/param.py
+++ b/src/pyhipp/astro/cosmology/param.py
@@ -29,7 +29,7 @@ class ParamList(HasName, HasSimpleRepr):
     
     def __setitem__(self, idx: int, param: Param) -> None:
         self._params[idx] = param
-        self._name2idx[param.name] = idx
+        self._name2idx = {p.name: i for i, p in enumerate(self._params)}
     
     def __len__(self) -> int:
         return len(self._params)
-- 
2.43.0


From 2b8ee2c3b0b9347912602e001e602bcde050a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 21/49] fix: do not modify the options passed to the halo mass
 function

---
 src/pyhipp/astro/cosmology/halo_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/cosmology/halo_theory.py b/src/pyhipp/astro/cosmology/halo_theory.py
index f3177a8..7137862 100644
--- a/src/pyhipp/astro/cosmology/halo_theory.py
+++ b/src/pyhipp/astro/cosmology/halo_theory.py
@@ -179,7 +179,7 @@ class HaloTheory(HasSimpleRepr, IsImmutable):
             raise ValueError(f'Unknown mass_def: {mass_def}')
         
         from hmf import MassFunction
-        impl_kw |= {
+        impl_kw = impl_kw | {
             'Mmin': lgM_min + 10.0,                     # lg M, [Msun/h]
             'Mmax': lgM_max + 10.0 + dlgM * 0.001,
             'dlog10m': dlgM,
-- 
2.43.0


From 5623d4796ca46f034a3b14d5952fe1e45bbe9987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 22/49] fix: identical secondary axis passes a pair of
 functions

---
 src/pyhipp/astro/plot/shortcuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/astro/plot/shortcuts.py b/src/pyhipp/astro/plot/shortcuts.py
index 06a82fb..caff752 100644
--- a/src/pyhipp/astro/plot/shortcuts.py
+++ b/src/pyhipp/astro/plot/shortcuts.py
@@ -53,7 +53,7 @@ class Axes:
     def add_secondary_identical_axis(
             self, location='top', ticks=None, label=None, hide_first_ticks=True,
             **mpl_axes_kw):
-        def fn(x): return x, lambda x: x
+        fn = (lambda x: x), (lambda x: x)
         return self.add_secondary_axis(
             *fn, location=location, ticks=ticks, label=label,
             hide_first_ticks=hide_first_ticks, **mpl_axes_kw)
-- 
2.43.0


From cdb07fd7861c44e394412a2d0d984da75a301409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 23/49] fix: map short legend locations to full names, not the
 reverse

---
 src/pyhipp/plot/axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index 2fa6016..529c3ec 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -405,7 +405,7 @@ class Axes(MplObj[mpl_axes.Axes]):
             'r': 'right',
             'lr': 'lower right', 'll': 'lower left', 'cl': 'center left',
             'ur': 'upper right', 'ul': 'upper left', 'uc': 'upper center',
-            'center left': 'cl', 'center right': 'cr', 'c': 'center',
+            'cr': 'center right', 'lc': 'lower center', 'c': 'center',
         }
         loc = loc_map.get(loc, loc)
 
-- 
2.43.0


From 576b45e22637c6f75af37609163f8b4656c9595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 24/49] fix: draw a line without band if errorfill has no error

---
 src/pyhipp/plot/axes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index 529c3ec..8b51773 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -301,8 +301,8 @@ class Axes(MplObj[mpl_axes.Axes]):
             passed to plot() and fill_between(), respectively.
         '''
         if yerr is None:
-            ylo = yhi = None
-        elif np.isscalar(yerr):
+            return self.plot(x, y, label=label, **plot_kw)
+        if np.isscalar(yerr):
             ylo = yhi = yerr
         else:
             yerr = np.asarray(yerr)
-- 
2.43.0


From df6e185079015c2e80cb6349501b5bba1c26b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 25/49] fix: do not pass unset line properties to the grid

---
 src/pyhipp/plot/axes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index 8b51773..600faba 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -62,9 +62,9 @@ class Axes(MplObj[mpl_axes.Axes]):
     def grid(self, visible=True, which='major', axis='both',
              lw=None, ls=None, c=None, **mpl_grid_kw):
 
-        kw = dict(which=which, axis=axis, visible=visible,
-                  lw=lw, ls=ls, c=c, **mpl_grid_kw
-                  )
+        kw = dict(which=which, axis=axis, visible=visible, **mpl_grid_kw)
+        kw |= {k: v for k, v in (('lw', lw), ('ls', ls), ('c', c))
+               if v is not None}
         self._raw.grid(**kw)
 
         return self
-- 
2.43.0


From a362873655ef8d98a9668ababc05a85fce68c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 26/49] fix: evaluate the 2-D histogram on a bin edge in the
 bin that counts it

---
 src/pyhipp/plot/two_dim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/plot/two_dim.py b/src/pyhipp/plot/two_dim.py
index 30fc479..f6c88e4 100644
--- a/src/pyhipp/plot/two_dim.py
+++ b/src/pyhipp/plot/two_dim.py
@@ -83,8 +83,10 @@ class Histogram2D(DensityEstimator2D):
     def on(self, x: np.ndarray, y: np.ndarray) -> np.ndarray:
         x_e, y_e = self.x_e, self.y_e
         n_x, n_y = len(x_e) - 1, len(y_e) - 1
-        x_id = np.searchsorted(self.x_e, x) - 1
-        y_id = np.searchsorted(self.y_e, y) - 1
+        x, y = np.asarray(x), np.asarray(y)
+        # bins are half-open, except for the last one (as in np.histogram2d)
+        x_id = np.searchsorted(x_e, x, side='right') - 1 - (x == x_e[-1])
+        y_id = np.searchsorted(y_e, y, side='right') - 1 - (y == y_e[-1])
         _x_id, _y_id = np.clip(x_id, 0, n_x-1), np.clip(y_id, 0, n_y-1)
         z = self.z[_x_id, _y_id]
         if self.out_of_range == 'zero':
-- 
2.43.0


From 1120442ceac57fe0a07ee8709875e0bad1142adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 27/49] fix: apply the cap thickness of error bars

---
 src/pyhipp/plot/axes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index 600faba..15c4dd9 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -265,8 +265,10 @@ class Axes(MplObj[mpl_axes.Axes]):
                   xlolims=xlolims, xuplims=xuplims)
         kw |= mpl_errorbar_kw
 
-        self._last_draw.append(
-            self._raw.errorbar(x, y, yerr=yerr, xerr=xerr, **kw))
+        art = self._raw.errorbar(x, y, yerr=yerr, xerr=xerr, **kw)
+        for cap in art.lines[1]:    # mew of the markers overrides capthick
+            cap.set_markeredgewidth(kw['capthick'])
+        self._last_draw.append(art)
 
         return self
 
-- 
2.43.0


From 38e5a74d5c63f68ba5ba7a9f7c204e88ad5fcf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 28/49] fix: count every row of two-dimensional data without a
 mask

---
 src/pyhipp/stats/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index b477ca1..759e6c6 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -107,7 +107,8 @@ class Count(Reduce):
 
     def _impl(self, x: np.ndarray, weight: np.ndarray = None,
               mask: np.ndarray = None) -> np.ndarray:
-        out = x.shape[-1] if mask is None else mask.sum(-1)
+        out = np.full(x.shape[:-1], x.shape[-1]) if mask is None \
+            else mask.sum(-1)
         return np.asarray(out)
 
 
-- 
2.43.0


From b9831eadcfd1ecbe64fae64f0681828463437e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 29/49] fix: rotate vectors at positions of any scale or
 integer type in the radial frame

---
 src/pyhipp/core/dataproc/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyhipp/core/dataproc/frame.py b/src/pyhipp/core/dataproc/frame.py
index 3e4090b..13a4a7c 100644
--- a/src/pyhipp/core/dataproc/frame.py
+++ b/src/pyhipp/core/dataproc/frame.py
@@ -30,14 +30,13 @@ class Polar:
         @x: (n,3) array-like, spatial position.
         @v: (n,3) array-like, vector to be transformed.
         '''
-        vnew_z = np.array(x)
+        vnew_z = Num.normalize(np.asarray(x))
         vold_z = np.array([0,0,1])
         vnew_x = np.cross(vold_z, vnew_z)
         vnew_y = np.cross(vnew_z, vnew_x)
 
         vnew_x = Num.normalize(vnew_x, inplace=True)
         vnew_y = Num.normalize(vnew_y, inplace=True)
-        vnew_z = Num.normalize(vnew_z, inplace=True)
 
         v = np.asarray(v)
         return vnew_x*v[:,[0]]+vnew_y*v[:,[1]]+vnew_z*v[:,[2]]
-- 
2.43.0


From b6a0e3474f9b8b44682a1793dec1b60511304d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 30/49] fix: apply non-integer bounds and guards to integer
 arrays

---
 src/pyhipp/core/dataproc/num.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyhipp/core/dataproc/num.py b/src/pyhipp/core/dataproc/num.py
index 2d50d81..419e22f 100644
--- a/src/pyhipp/core/dataproc/num.py
+++ b/src/pyhipp/core/dataproc/num.py
@@ -33,6 +33,10 @@ class Num:
         x = np.asarray(x)
         if copy:
             x = x.copy() 
+            if x.dtype.kind in 'iub':
+                # Non-integer bounds cannot be stored in an integer array.
+                bounds = (b for b in (lo, hi) if b is not None)
+                x = x.astype(np.result_type(x, *bounds), copy=False)
         if lo is not None:
             sel = x < lo
             x[sel] = lo
-- 
2.43.0


From 68c264364373f13a5f41142ff6e35b7ac1bb2ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:50 +0000
Subject: [PATCH 31/49] fix: convert the loaded sheets of a spreadsheet to data
 tables

---
 src/pyhipp/io/excel/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/io/excel/__init__.py b/src/pyhipp/io/excel/__init__.py
index c368271..4926905 100644
--- a/src/pyhipp/io/excel/__init__.py
+++ b/src/pyhipp/io/excel/__init__.py
@@ -74,8 +74,8 @@ class Excel:
                   reorder=True):
         d_in = pd.read_excel(file, sheet_name=None)
         if as_datatables:
-            d_in = {k: DataTable({k1: v1.to_numpy() for k1, v1 in v.to_dict(
-                orient='series', index=False)}, copy=False) for k, v in d_in.items()}
+            d_in = {k: DataTable({k1: v1.to_numpy() for k1, v1 in v.items()},
+                                 copy=False) for k, v in d_in.items()}
         if reorder:
             d_out = Excel.__reorder_input(d_in)
         else:
-- 
2.43.0


From f74784a77b3df7140bd386d1012f3a018d678285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 32/49] fix: size of a record given by a narrow integer count

---
 src/pyhipp/io/binary/fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index 54c9b14..1e1936f 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -63,4 +63,4 @@ class BinaryFile(HasDictRepr):
         '''
         if n is None:
             n = 1
-        return np.dtype(dtype).itemsize * n
+        return np.dtype(dtype).itemsize * int(n)
-- 
2.43.0


From dd3cae10b27a47c29dd5eba4e4fe28802fe23292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 33/49] fix: chunk offsets beyond the range of the integer type
 of the sizes

---
 src/pyhipp/core/dataproc/iter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyhipp/core/dataproc/iter.py b/src/pyhipp/core/dataproc/iter.py
index dd4c18e..d825502 100644
--- a/src/pyhipp/core/dataproc/iter.py
+++ b/src/pyhipp/core/dataproc/iter.py
@@ -10,6 +10,8 @@ class Chunks:
     def ranges_by_sizes(sizes: Iterable):
         b = 0
         for size in sizes:
+            if isinstance(size, np.integer):
+                size = int(size)  # offsets may exceed the range of its type
             e = b + size
             yield b, e
             b = e
-- 
2.43.0


From cc15e592ba022cac7b42cfff04a204c3b2dc5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 34/49] fix: fill value of quantiles at integer levels

---
 src/pyhipp/stats/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 759e6c6..94797bf 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -194,7 +194,7 @@ class Quantile(Reduce):
             ps = self.ps_map[ps]
         ps = np.array(ps)
 
-        _empty_fill = np.empty_like(ps)
+        _empty_fill = np.empty(ps.shape, dtype=float)
         _empty_fill[...] = empty_fill
 
         super().__init__(_empty_fill, **base_kw)
-- 
2.43.0


From 592779353c23b07b869f73ab1fbe387dfc07dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 35/49] fix: locate samples of unsigned and narrow integer
 types

---
 src/pyhipp/stats/binning.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index 64dbc06..58a0321 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -155,6 +155,7 @@ class Bins(abc.HasSimpleRepr, abc.IsImmutable):
         ind_r = ind_l + 1
         e = self.x_edges
         x_l, x_r = e[ind_l], e[ind_r]
+        x = np.clip(x, x_l, x_r)
         d_l, d_r = x - x_l, x_r - x
         return np.where(d_l < d_r, ind_l, ind_r)
     
@@ -189,6 +190,8 @@ class EqualSpaceBins(Bins):
         
     def locate(self, x: np.ndarray) -> np.ndarray:
         b, x_step, n_bins = self._x_range[0], self._x_step, self._n_bins
+        if np.asarray(x).dtype.kind in 'iu':
+            x = np.asarray(x, dtype=np.float64)  # x - b may not fit in its type
         ids = np.floor((x - b) / x_step)
         ids = np.fmin(np.fmax(ids, -1), n_bins)  # bound before the integer cast
         return ids.astype(np.int64)
-- 
2.43.0


From c451c5b0756f6142ceae04e94b17d2df5b9bb034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 36/49] fix: sums, widths and spans of bins with narrow integer
 types

---
 src/pyhipp/stats/binning.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index 58a0321..fd037f6 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -5,6 +5,14 @@ from numba import njit
 from pyhipp.core import DataDict, abc
 from functools import cached_property
 
+def _widened(x: np.ndarray) -> np.ndarray:
+    '''
+    Sums and differences may not fit in a narrow integer type, so such a type 
+    is widened in the same way as np.sum does.
+    '''
+    x = np.asarray(x)
+    return x.astype(np.cumsum(x[:0]).dtype, copy=False)
+
 class Bin:
     @staticmethod
     def parse_p_range_spec(
@@ -71,13 +79,13 @@ class Bin:
     
     @staticmethod
     def edges_to_centers(e, stride=1):
-        e = np.asarray(e)
+        e = _widened(e)
         lo, hi = e[:-stride], e[stride:]
         return .5 * ( lo + hi )
     
     @staticmethod
     def edges_to_widths(e, stride=1):
-        e = np.asarray(e)
+        e = _widened(e)
         lo, hi = e[:-stride], e[stride:]
         return hi - lo
     
@@ -98,7 +106,7 @@ class Bin:
         n_out = len(x) - n_comb +1
         assert n_out > 0
         
-        x_out = x[:n_out].copy()
+        x_out = _widened(x[:n_out]).copy()
         for b in range(1, n_comb):
             x_out += x[b:b+n_out]
         
@@ -109,6 +117,8 @@ class Hist1D:
     def from_overlapped_bins(x: np.ndarray, bins: int, sub_bins: int, 
         range: Tuple[float,float], weights: np.ndarray =None) -> DataDict:
         
+        if weights is not None:
+            weights = _widened(weights)
         _h, _e = np.histogram(x, bins=bins, range=range, weights=weights)
         
         x = Bin.edges_to_centers(_e, sub_bins)
@@ -180,7 +190,7 @@ class EqualSpaceBins(Bins):
         b, e = x_range
         assert b < e
         assert n_bins > 0
-        x_span = e - b
+        x_span = float(e) - float(b)
         x_step = x_span / n_bins
         
         self._x_range = x_range
@@ -230,7 +240,7 @@ class BiSearchBins(Bins):
         
         super().__init__(**kw)
         
-        x_edges = np.sort(x_edges)
+        x_edges = np.sort(_widened(x_edges))
         assert x_edges.ndim == 1 and x_edges.size >= 2
         n_bins = len(x_edges) - 1
         x_span = x_edges[-1] - x_edges[0]
-- 
2.43.0


From edf805cc5d677a450c93323fea9f37e98f8670c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 37/49] fix: reductions of narrow integer values and weights

---
 src/pyhipp/stats/reduction.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 94797bf..310332d 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -51,16 +51,26 @@ class Reduce(abc.HasName, abc.HasDictRepr):
 
     def __call__(self, x: np.ndarray, weight: np.ndarray = None,
                  mask: np.ndarray = None) -> np.ndarray:
-        x = np.asarray(x)
+        x = self.__widened(x)
         assert x.ndim == 1 or x.ndim == 2
         if weight is not None:
-            weight = np.asarray(weight)
+            weight = self.__widened(weight)
             assert weight.shape == x.shape
         if mask is not None:
             mask = np.asarray(mask, dtype=bool)
             assert mask.shape == x.shape
         return self._impl(x, weight, mask)
 
+    @staticmethod
+    def __widened(x: np.ndarray) -> np.ndarray:
+        # products and differences may not fit in a narrow integer type
+        x = np.asarray(x)
+        if x.dtype.kind in 'bi':
+            x = x.astype(np.int64, copy=False)
+        elif x.dtype.kind == 'u':
+            x = x.astype(np.uint64, copy=False)
+        return x
+
     def _impl(self, x: np.ndarray, weight: np.ndarray = None,
               mask: np.ndarray = None) -> np.ndarray:
         return self._impl_1d(x, weight, mask) if x.ndim == 1 else \
-- 
2.43.0


From e8b3378136a7c37969084b55604dc5b17c367e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 38/49] fix: local-kernel regression accepts any iterable of
 reductions, as documented

---
 src/pyhipp/stats/regression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/stats/regression.py b/src/pyhipp/stats/regression.py
index e7a553d..da508b1 100644
--- a/src/pyhipp/stats/regression.py
+++ b/src/pyhipp/stats/regression.py
@@ -114,8 +114,9 @@ class _LocalKernelRegression(_Regression):
         std is the standard deviation of x, computed along every axes and then 
         averaged.
         '''
-        r_names = tuple(n for n, _ in m_reduction.predefined.iter(reduce))
-        r_calls = tuple(c for _, c in m_reduction.predefined.iter(reduce))
+        reduce = tuple(m_reduction.predefined.iter(reduce))
+        r_names = tuple(n for n, _ in reduce)
+        r_calls = tuple(c for _, c in reduce)
         n_rs = len(r_names)
         if kernel is not None:
             kernel = m_kernel.predefined.create(kernel)[1]
-- 
2.43.0


From 69e9af39774ee00520a7a627d758e59d382c75da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 39/49] fix: a Fortran section read with the wrong size is
 refused even if the bytes that follow look like its marker

---
 src/pyhipp/io/binary/fortran.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pyhipp/io/binary/fortran.py b/src/pyhipp/io/binary/fortran.py
index 1e1936f..2dee7e8 100644
--- a/src/pyhipp/io/binary/fortran.py
+++ b/src/pyhipp/io/binary/fortran.py
@@ -46,14 +46,22 @@ class BinaryFile(HasDictRepr):
         self.skip_rec(dtype, n=n)
         n2 = self.load_rec(np.int32)
         assert n1 == n2
+        self._check_sect_size(n1, dtype, n)
 
     def load_sect(self, dtype: np.dtype, n: int = None) -> np.ndarray:
         n1 = self.load_rec(np.int32)
         data = self.load_rec(dtype, n=n)
         n2 = self.load_rec(np.int32)
         assert n1 == n2
+        self._check_sect_size(n1, dtype, n)
         return data
 
+    def _check_sect_size(self, marker: int, dtype: np.dtype, n: int = None):
+        # Markers of sections larger than their range are stored modulo 2**32.
+        size = self._rec_size(dtype, n)
+        assert (size - int(marker)) % 2**32 == 0, \
+            f'Size {size} does not match the section marker {marker}'
+
     def _rec_size(self, dtype: np.dtype, n: int = None):
         '''
         Return the size (no. of bytes) of a record of the given `dtype` and 
-- 
2.43.0


From c76c95ceb823aaa7b32b1684ecd11c8bbbdef1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:04 +0000
Subject: [PATCH 40/49] fix: vectors at positions on the polar axis lost their
 tangential components when rotated to Cartesian ones

---
 src/pyhipp/core/dataproc/frame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyhipp/core/dataproc/frame.py b/src/pyhipp/core/dataproc/frame.py
index 13a4a7c..8eedd8a 100644
--- a/src/pyhipp/core/dataproc/frame.py
+++ b/src/pyhipp/core/dataproc/frame.py
@@ -33,6 +33,8 @@ class Polar:
         vnew_z = Num.normalize(np.asarray(x))
         vold_z = np.array([0,0,1])
         vnew_x = np.cross(vold_z, vnew_z)
+        # Azimuth is undefined on the polar axis, take it as 0 there.
+        vnew_x[Num.norm(vnew_x) < 1.0e-10] = [0,1,0]
         vnew_y = np.cross(vnew_z, vnew_x)
 
         vnew_x = Num.normalize(vnew_x, inplace=True)
-- 
2.43.0


From 8a5863e2b4903b10df7f3d656fc7b4175b844b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 41/49] fix: weighted quantiles of equal samples depended on
 the order of the samples

---
 src/pyhipp/stats/reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/stats/reduction.py b/src/pyhipp/stats/reduction.py
index 310332d..b6eda0d 100644
--- a/src/pyhipp/stats/reduction.py
+++ b/src/pyhipp/stats/reduction.py
@@ -217,7 +217,8 @@ class Quantile(Reduce):
     def _impl_with_weight(
             self, x: np.ndarray, weight: np.ndarray) -> np.ndarray:
         if self.sort:
-            idx = np.argsort(x)
+            # Ties are sorted by weight, so that sample order does not matter.
+            idx = np.lexsort((weight, x))
             x, weight = x[idx], weight[idx]
         cdf = np.cumsum(weight)
         qs = np.interp(self.ps, cdf, x)
-- 
2.43.0


From ab606d6efc3f124ee27b47713a15b57f5b9d7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:20 +0000
Subject: [PATCH 42/49] fix: bootstrap failed for data sets or sizes given by
 an iterator, which the first resample used up

---
 src/pyhipp/stats/sampling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyhipp/stats/sampling.py b/src/pyhipp/stats/sampling.py
index dff2bc7..b99504a 100644
--- a/src/pyhipp/stats/sampling.py
+++ b/src/pyhipp/stats/sampling.py
@@ -24,6 +24,11 @@ class Bootstrap:
 
         rng = Rng(rng)
 
+        # The inputs are traversed once for every resample.
+        dsets_in = list(dsets_in)
+        if dsets_max_sizes is not None:
+            dsets_max_sizes = list(dsets_max_sizes)
+
         dsets_out: List[Mapping] = []
         for _ in range(n_resample):
             _dset_in = Bootstrap.__resample(dsets_in, dsets_max_sizes, rng)
-- 
2.43.0


From 9869e67762d95e2ab1edb252cbfd05b08409a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 43/49] fix: top-hat smoothing at scales far below the box was
 off by up to 3e-4, the window being computed by subtracting nearly equal
 numbers

---
 src/pyhipp/field/cubic_box/smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/field/cubic_box/smoothing.py b/src/pyhipp/field/cubic_box/smoothing.py
index dc6c277..fe371ab 100644
--- a/src/pyhipp/field/cubic_box/smoothing.py
+++ b/src/pyhipp/field/cubic_box/smoothing.py
@@ -69,8 +69,8 @@ class _Tophat:
             integer indices of the grid points in fourier space.
         '''
         kr = np.sqrt(np.sum(ki*ki)) * self.scale
-        if kr < 1.0e-6:
-            return 1.0
+        if kr < 1.0e-2:     # the form below cancels at small kr
+            return 1.0 - kr**2 / 10.0 + kr**4 / 280.0
 
         return 3.0 * (np.sin(kr) - kr * np.cos(kr)) / kr**3
 
-- 
2.43.0


From f2217c1c0e3fe2bd79ea91700ad8318e5a7fb085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 44/49] fix: fmt_marker without a style dropped the marker
 style set before

---
 src/pyhipp/plot/axes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyhipp/plot/axes.py b/src/pyhipp/plot/axes.py
index 15c4dd9..ded8ecf 100644
--- a/src/pyhipp/plot/axes.py
+++ b/src/pyhipp/plot/axes.py
@@ -138,7 +138,8 @@ class Axes(MplObj[mpl_axes.Axes]):
         fmt = self._plot_fmts.marker
 
         fmt.c(c, a)
-        fmt |= {'style': style}
+        if style is not None:
+            fmt |= {'style': style}
 
         fmt.update(kw)
 
-- 
2.43.0


From 9c02b73c2e51cec0d04f32424ece91081d5c2a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:38 +0000
Subject: [PATCH 45/49] fix: equally spaced bins locate samples on their edges
 exactly

The quotient (x - b) / step is rounded, so a sample exactly on an edge
could be assigned to the bin below it (e.g. the edge 1 of 3 bins on (0, 5)).
---
 src/pyhipp/stats/binning.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyhipp/stats/binning.py b/src/pyhipp/stats/binning.py
index fd037f6..fa6c1fc 100644
--- a/src/pyhipp/stats/binning.py
+++ b/src/pyhipp/stats/binning.py
@@ -200,11 +200,15 @@ class EqualSpaceBins(Bins):
         
     def locate(self, x: np.ndarray) -> np.ndarray:
         b, x_step, n_bins = self._x_range[0], self._x_step, self._n_bins
-        if np.asarray(x).dtype.kind in 'iu':
-            x = np.asarray(x, dtype=np.float64)  # x - b may not fit in its type
+        x = np.asarray(x, dtype=np.float64)  # x - b may not fit in its type
         ids = np.floor((x - b) / x_step)
         ids = np.fmin(np.fmax(ids, -1), n_bins)  # bound before the integer cast
-        return ids.astype(np.int64)
+        ids = ids.astype(np.int64)
+        # The quotient is rounded, so it may miss by one next to an edge.
+        e = self.x_edges
+        ids = ids - ((ids >= 0) & (x < e[np.maximum(ids, 0)]))
+        ids = ids + ((ids < n_bins) & (x >= e[np.minimum(ids + 1, n_bins)]))
+        return ids
         
     def to_simple_repr(self) -> dict:
         return {
-- 
2.43.0


From b860fbeb0bd637d57f1e4a11ad9f963cab4e6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:38 +0000
Subject: [PATCH 46/49] fix: count tidal eigenvalues above the threshold before
 rounding them

TidalClassifier rounded the eigenvalues to single precision before comparing
them with the threshold, so those close to it were put in the wrong class.
---
 src/pyhipp/field/cubic_box/cosmic_web.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/field/cubic_box/cosmic_web.py b/src/pyhipp/field/cubic_box/cosmic_web.py
index 4d6b338..4722896 100644
--- a/src/pyhipp/field/cubic_box/cosmic_web.py
+++ b/src/pyhipp/field/cubic_box/cosmic_web.py
@@ -79,14 +79,14 @@ class TidalClassifier(abc.HasDictRepr):
 
     def __init__(self, lam: np.ndarray, mesh: Mesh, *, lam_th=0.0) -> None:
 
-        lam = np.array(lam, dtype=np.float32)
+        lam = np.asarray(lam)
         n = mesh.n_grids
         assert lam.shape == (n, n, n, 3)
         assert np.all(lam[:, :, :, 0] <= lam[:, :, :, 1])
         assert np.all(lam[:, :, :, 1] <= lam[:, :, :, 2])
         n_lams = np.count_nonzero(lam > lam_th, axis=-1)
 
-        self.lam = lam
+        self.lam = np.array(lam, dtype=np.float32)
         self.n_lams = n_lams
         self.mesh = mesh
         self.lam_th = lam_th
-- 
2.43.0


From b79cfbad7b13ac2235308431ddf1d9534ef3c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:38 +0000
Subject: [PATCH 47/49] fix: let DataTable be copied by the copy module and
 pickled

__getattr__ looked up _data before it was set, and recursed without end.
---
 src/pyhipp/core/containers/data_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyhipp/core/containers/data_table.py b/src/pyhipp/core/containers/data_table.py
index fa5ab21..93774b6 100644
--- a/src/pyhipp/core/containers/data_table.py
+++ b/src/pyhipp/core/containers/data_table.py
@@ -135,6 +135,8 @@ class DataTable(HasSimpleRepr, MutableMapping[Key, Value]):
 
     # For attribute access
     def __getattr__(self, key: Key) -> Value:
+        if key == '_data':      # not set yet, e.g., when unpickled or copied
+            raise AttributeError(f'Attribute {key} not found')
         try:
             return self[key]
         except KeyError:
-- 
2.43.0


From 9f1fdb03078640d8a350b2ea7e124f8422a0958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:05 +0000
Subject: [PATCH 48/49] fix: variance at high redshift was lost in the absolute
 tolerance of the quadrature

---
 src/pyhipp/astro/cosmology/power_spectrum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyhipp/astro/cosmology/power_spectrum.py b/src/pyhipp/astro/cosmology/power_spectrum.py
index 55942ad..2d5c020 100644
--- a/src/pyhipp/astro/cosmology/power_spectrum.py
+++ b/src/pyhipp/astro/cosmology/power_spectrum.py
@@ -667,9 +667,11 @@ class _PowerSpectrumFlatLambdaCDMNR:
             ln_k_min, ln_k_max = -23.0, 23.0
             res = integrate.quad(
                 self._sigma_sqr_integrand,
-                ln_k_min, ln_k_max, args=(r, z),
+                ln_k_min, ln_k_max, args=(r, 0.0),
                 limit=128)[0]
-        sigma_sqr = res * self._sigma_sqr_norm
+        # Scaled by the growth, or the absolute tolerance of the quadrature 
+        # may exceed the integral at high redshift.
+        sigma_sqr = res * self._sigma_sqr_norm * self.growth_fac(z)**2
         return sigma_sqr
 
     def sigma_sqr_at_mass(self, mass: float, z: float):
-- 
2.43.0


From b692f989d322ddb6a7b7982394052e30e8c169b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:05 +0000
Subject: [PATCH 49/49] fix: cumulative probability slightly above one next to
 the largest sample

---
 src/pyhipp/stats/prob_dist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyhipp/stats/prob_dist.py b/src/pyhipp/stats/prob_dist.py
index d27a9c1..6151d2b 100644
--- a/src/pyhipp/stats/prob_dist.py
+++ b/src/pyhipp/stats/prob_dist.py
@@ -27,6 +27,7 @@ class ProbTransToNorm:
 
     def forw(self, xs: np.ndarray, with_norm=True):
         ys = self.CDF_x(xs)
+        np.clip(ys, 0.0, 1.0, out=ys)   # rounding may exceed the unit range
         if with_norm:
             ys = self.invCDF_norm(ys)
         return ys
-- 
2.43.0

