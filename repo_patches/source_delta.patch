From e18e1218235677d2f68892b0bdeea2bbf75179f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:41 +0000
Subject: [PATCH 01/98] fix: align !=, <, <=, >, >= by dimension like ==

---
 hftools/dataset/arrayobj.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6fc190f..82a1e8d 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -745,6 +745,26 @@ class _hfarray(ndarray):
     def __eq__(self, other):
         return ndarray.__eq__(self, other)
 
+    @check_instance
+    def __ne__(self, other):
+        return ndarray.__ne__(self, other)
+
+    @check_instance
+    def __lt__(self, other):
+        return ndarray.__lt__(self, other)
+
+    @check_instance
+    def __le__(self, other):
+        return ndarray.__le__(self, other)
+
+    @check_instance
+    def __gt__(self, other):
+        return ndarray.__gt__(self, other)
+
+    @check_instance
+    def __ge__(self, other):
+        return ndarray.__ge__(self, other)
+
     @check_instance
     def __rdiv__(self, other):
         return np.divide(other, self)
-- 
2.43.0


From 4c1b1ff71520f65d449ceddbc2eefeab46114312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:41 +0000
Subject: [PATCH 02/98] fix: labels follow the data when indexing with a list
 of positions or take

---
 hftools/dataset/arrayobj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 82a1e8d..d50747b 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -566,7 +566,7 @@ class _hfarray(ndarray):
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
         axis = self.dims_index(axis_handler(self, axis))
         olddim = self.dims[axis]
-        newdim = olddim.__class__(olddim.name, indices)
+        newdim = olddim[np.asarray(indices)]
         data = np.ndarray.take(self, indices, axis, out, mode)
         newdims = list(self.dims)
         newdims[axis] = newdim
@@ -665,8 +665,10 @@ class _hfarray(ndarray):
                 continue
             elif isinstance(idx, slice):
                 dims.append(dim[idx])
+            elif dim.name in dim_in_indices:
+                dims.append(dim_in_indices[dim.name])
             else:
-                dims.append(dim_in_indices.get(dim.name, dim))
+                dims.append(dim[np.asarray(idx)])
         if ellipsis_and_ints:
             indices = orig_indices
         out = ndarray.__getitem__(self, indices)
-- 
2.43.0


From 907e137c1e9ef6ca18743bde41a459260078b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:41 +0000
Subject: [PATCH 03/98] fix: negative axis numbers in reductions and squeeze

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index d50747b..6757615 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -992,7 +992,7 @@ def multiple_axis_handler(a, axis):
     for ax in axis:
         if isinstance(ax, integer_types):
             outaxis.append(a.dims[ax])
-            outidx.append(ax)
+            outidx.append(ax % a.ndim)
             continue
         if isinstance(ax, string_types):
             i = a.dims_index(ax)
-- 
2.43.0


From a13fd5e998b2c0ccc57b32c056c4f5d1a443458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:41 +0000
Subject: [PATCH 04/98] fix: std and var honour ddof

---
 hftools/dataset/arrayobj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6757615..06a0cf2 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -842,7 +842,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
@@ -862,7 +863,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
-- 
2.43.0


From 46e34bf281008023cf800bfc9823126fe774079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:41 +0000
Subject: [PATCH 05/98] fix: cumsum, cumprod and take address the dimension by
 name and kind

---
 hftools/dataset/arrayobj.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 06a0cf2..95690a7 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -564,7 +564,7 @@ class _hfarray(ndarray):
         if axis is None:
             data = np.ndarray.take(self, indices, axis, out, mode)
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
-        axis = self.dims_index(axis_handler(self, axis))
+        axis = self.dims.matching_index(axis_handler(self, axis))
         olddim = self.dims[axis]
         newdim = olddim[np.asarray(indices)]
         data = np.ndarray.take(self, indices, axis, out, mode)
@@ -912,7 +912,7 @@ class _hfarray(ndarray):
         if axis is None:
             raise HFArrayError("Must choose axis for cumulative product")
         axis = axis_handler(self, axis)
-        result = np.asarray(self).cumprod(axis=self.dims_index(axis),
+        result = np.asarray(self).cumprod(axis=self.dims.matching_index(axis),
                                           dtype=dtype, out=out)
         return self.__class__(result, dims=self.dims, copy=False)
 
@@ -920,7 +920,7 @@ class _hfarray(ndarray):
         if axis is None:
             raise HFArrayError("Must choose axis for cumulative product")
         axis = axis_handler(self, axis)
-        result = np.asarray(self).cumsum(axis=self.dims_index(axis),
+        result = np.asarray(self).cumsum(axis=self.dims.matching_index(axis),
                                          dtype=dtype, out=out)
         return self.__class__(result, dims=self.dims, copy=False)
 
-- 
2.43.0


From 65747f8c24fb37b6ff3b2a8e0d456c7d273b3bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:41 +0000
Subject: [PATCH 06/98] fix: remove_rep of non adjacent repetition dimensions;
 keep unit and format

---
 hftools/dataset/arrayobj.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 95690a7..f7f374a 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -271,26 +271,20 @@ def remove_rep(data, newdimname="AllReps"):
     """
     order = [(i, dim) for i, dim in enumerate(data.dims)
              if isinstance(dim, DimRep)]
-#    pdb.set_trace()
-
-    if order:
-        dims = list(zip(*order))[1]
-
-        newdata = data.reorder_dimensions(*(data.dims[:order[0][0]] + dims))
-        newdata = hfarray(np.ascontiguousarray(data, dtype=data.dtype),
-                          dims=newdata.dims, dtype=newdata.dtype,
-                          unit=newdata.unit)
-        shapes = [data.shape[i] for i, _ in order]
-        repsize = int(np.multiply.reduce(shapes))
-        a = np.array(data)
-        a.shape = (data.shape[:order[0][0]] + (repsize,) +
-                   data.shape[order[-1][0] + 1:])
-        dims = (data.dims[:order[0][0]] + (DimRep(newdimname, repsize),) +
-                data.dims[order[-1][0] + 1:])
-    else:
-        dims = data.dims
-        a = data
-    return data.__class__(a, dims=dims, copy=False)
+    if not order:
+        return data.__class__(data, dims=data.dims, copy=False)
+
+    first = order[0][0]
+    repdims = tuple(dim for _, dim in order)
+    newdata = data.reorder_dimensions(*(data.dims[:first] + repdims))
+    last = first + len(repdims)
+    repsize = int(np.multiply.reduce(newdata.shape[first:last]))
+    a = np.array(newdata).reshape(newdata.shape[:first] + (repsize,) +
+                                  newdata.shape[last:])
+    dims = (newdata.dims[:first] + (DimRep(newdimname, repsize),) +
+            newdata.dims[last:])
+    return data.__class__(a, dims=dims, copy=False, unit=data.unit,
+                          outputformat=data.outputformat)
 
 
 def make_fullcomplex_array(a):
-- 
2.43.0


From 3fccfe41c6d15401ed7ed61d4633726e1fbc3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:48 +0000
Subject: [PATCH 07/98] fix: index tuples may contain ndarrays

---
 hftools/dataset/arrayobj.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index f7f374a..01a9977 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -598,7 +598,8 @@ class _hfarray(ndarray):
 
     @apply_outputformat
     def __getitem__(self, x):
-        if x is newaxis or (isinstance(x, tuple) and newaxis in x):
+        if x is newaxis or (isinstance(x, tuple) and
+                            any(i is newaxis for i in x)):
             return self.view(type=ndarray, dtype=self.dtype)[x]
         if x is Ellipsis:
             return self.view()
@@ -617,7 +618,7 @@ class _hfarray(ndarray):
         ellips_count = len([i for i in indices
                             if isinstance(i, type(Ellipsis))])
         if ellips_count == 1:
-            i = indices.index(Ellipsis)
+            i = [k is Ellipsis for k in indices].index(True)
             indices = (indices[:i] + (slice(None),) *
                        (self.ndim - (len(x) - 1)) + indices[i + 1:])
         elif ellips_count > 1:
-- 
2.43.0


From 859501a8455a550b2c894f6334bf685172cf0784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:48 +0000
Subject: [PATCH 08/98] fix: remove_tail keeps the output format

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 01a9977..c94fb0c 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -262,7 +262,8 @@ def remove_tail(x):
         dims = (x.dims[0], dim)
         if ismatrix(x):
             dims = dims + x.dims[-2:]
-        outa = hfarray(outa, dims=dims, unit=x.unit)
+        outa = hfarray(outa, dims=dims, unit=x.unit,
+                       outputformat=x.outputformat)
     return outa
 
 
-- 
2.43.0


From 53b9e24492b23f6bfbf81177aac33e1054fb397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:48 +0000
Subject: [PATCH 09/98] fix: output format of an empty dimension

---
 hftools/dataset/dim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index a89e916..fe48271 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -103,7 +103,9 @@ class DimBase(object):
     @property
     def outputformat(self):
         if self._outputformat is None:
-            if is_integer(self._data[0]):
+            if len(self._data) == 0:
+                return "%.16e"
+            elif is_integer(self._data[0]):
                 return "%d"
             elif is_numlike(self._data[0]):
                 return "%.16e"
-- 
2.43.0


From 32f6654eda55fa9b781bf77230f4fc5627143c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:46 +0000
Subject: [PATCH 10/98] fix: equal dimensions hash alike

---
 hftools/dataset/dim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index fe48271..fa91ff4 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -147,8 +147,9 @@ class DimBase(object):
                                      self.data.shape)
 
     def __hash__(self):
+        # None: the output format does not take part in comparisons
         return hash((self.sortprio, self.name, self.__class__, self._data,
-                     self._unit, self._outputformat))
+                     self._unit, None))
 
     def __getitem__(self, index):
         if isinstance(index, slice) and (index == slice(None, None, None)):
-- 
2.43.0


From 82fc7be0db0e530d3f6f9c3c1d325ec599e3889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:46 +0000
Subject: [PATCH 11/98] fix: dimension order is defined for dimensions
 differing in kind or unit only

---
 hftools/dataset/dim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index fa91ff4..65c65f5 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -120,11 +120,11 @@ class DimBase(object):
         return (self.data, (self,))
 
     def __lt__(self, other):
-        a = (self.sortprio, self.name, self.__class__, self._data,
-             self._unit, self._outputformat)
+        a = (self.sortprio, self.name, self.__class__.__name__, self._data,
+             self._unit or "")
         try:
-            b = (other.sortprio, other.name, other.__class__, other._data,
-                 other._unit, self._outputformat)
+            b = (other.sortprio, other.name, other.__class__.__name__,
+                 other._data, other._unit or "")
         except AttributeError:
             a = self.name
             b = other
-- 
2.43.0


From e4f44ebb81c449b91d9667ff1940896a8c5fdd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:46 +0000
Subject: [PATCH 12/98] fix: only complete names with row and column from 1
 address matrix elements

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2fd55be..c15bf2a 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -179,7 +179,7 @@ class DataDict(dict):
         return self.order + dir(type(self)) + list(self.__dict__.keys())
 
 reg_matrix_name = re.compile("([_A-Za-z]([_A-Za-z0-9]*"
-                             "[_A-Za-z])?)([0-9][0-9])")
+                             "[_A-Za-z])?)([1-9][1-9])$")
 
 
 def is_matrix_name(x):
-- 
2.43.0


From 5a9e348ecfc05bf7de3ec35f856378ff21a5e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:46 +0000
Subject: [PATCH 13/98] fix: S11 is a matrix element only when S is a matrix

---
 hftools/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index c15bf2a..67285d5 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -326,7 +326,8 @@ class DataBlock(object):
             else:
                 self._xname = None
             mname, elem = is_matrix_name(key)
-            if mname in self.vardata and not ismatrix(value):
+            if (mname in self.vardata and ismatrix(self.vardata[mname]) and
+                    not ismatrix(value)):
                 idx = (Ellipsis,) + elem
                 self.vardata[mname][idx] = value
             else:
-- 
2.43.0


From c651529ce7114867c2901cf2f296367146f8c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:46 +0000
Subject: [PATCH 14/98] fix: filter by wanted coordinate values

---
 hftools/dataset/dataset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 67285d5..1bf234d 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -419,12 +419,8 @@ class DataBlock(object):
                 warn(msg)
                 return out
             localdim = self.ivardata[boolarray.dims[0].name]
-            intersection = set(localdim.data).intersection(boolarray)
-            barray = boolarray.astype(bool)
-            barray[...] = False
-            for f in intersection:
-                barray[boolarray == f] = True
-            boolarray = barray
+            boolarray = hfarray(np.in1d(localdim.data, boolarray),
+                                dims=(localdim,))
 
         out = DataBlock()
         out.blockname = self.blockname
-- 
2.43.0


From fff8745f25bc8686d5b6de5fa5d8f30f22bf2854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:46 +0000
Subject: [PATCH 15/98] fix: hyper labels follow the data; incomplete grids are
 refused

---
 hftools/dataset/dataset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 1bf234d..c030348 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -670,13 +670,19 @@ class DataBlock(object):
                 newname = "%s_index" % x
             else:
                 newname = x
-            dims.append(DimSweep(newname, stable_uniq(self[x]),
+            values = stable_uniq(self[x])
+            dims.append(DimSweep(newname, values,
                                  unit=self[x].unit,
                                  outputformat=self[x].outputformat))
-            sortdata.append(self[x])
+            sortdata.append([values.index(y) for y in self[x]])
         dims = tuple(dims)
         dims_shape = tuple(len(x.data) for x in dims)
 
+        gridpoints = set(zip(*sortdata))
+        if not (len(gridpoints) == len(sortdata[0]) ==
+                np.multiply.reduce(dims_shape)):
+            raise ValueError("%r do not span a complete grid" % (dimnames,))
+
         sortdata.append(range(len(sortdata[0])))
 
         sortorder = sorted(zip(*sortdata))
-- 
2.43.0


From e2943f381b72cf3e9dbf9d0d9af5aa2d0d61b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:46 +0000
Subject: [PATCH 16/98] fix: interpolate with mode none along any dimension and
 in any order

---
 hftools/dataset/dataset.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index c030348..1774121 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -743,14 +743,12 @@ def interpolate(newx, y, defaultmode=None):
     dimidx = olddims.matching_index(newx)
     newdims = olddims[:dimidx] + (newx,) + olddims[dimidx + 1:]
     if mode in [None, "none"]:
-        bools = np.array(newx.data)[:, None] == np.array(oldx.data)[None, :]
-        boolarray = hfarray(bools.any(axis=0),
-                            dims=(oldx,),
-                            unit=y.unit,
-                            outputformat=y.outputformat)
-        if boolarray.sum() != len(newx.data):
+        oldvalues = oldx.data.tolist()
+        try:
+            indices = [oldvalues.index(x) for x in newx.data.tolist()]
+        except ValueError:
             raise ValueError("Missing x-values")
-        data = np.array(y, copy=False)[boolarray]
+        data = np.asarray(y).take(indices, axis=dimidx)
     elif mode in ["linear"]:
         data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)
     else:
-- 
2.43.0


From a5ee1649b18971f5dba1f7b61507f3516a90894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:46 +0000
Subject: [PATCH 17/98] fix: remove_rep of blocks lines all variables up with
 the collapsed dimension

---
 hftools/dataset/dataset.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 1774121..82618ae 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -641,6 +641,7 @@ class DataBlock(object):
 
     def remove_rep(self, newdimname="AllReps"):
         out = DataBlock()
+        out.blockname = self.blockname
         out.comments = self.comments
         dims = [x for x in self.ivardata.values() if isinstance(x, DimRep)]
         fullshape = tuple(x.data.shape[0] for x in dims)
@@ -655,7 +656,17 @@ class DataBlock(object):
             a.shape = (newdim.data.shape[0],)
             out[dim.name] = hfarray(a, dims=(newdim,))
         for x in self.vardata:
-            out[x] = remove_rep(self[x], newdimname)
+            data = self[x]
+            first = [i for i, dim in enumerate(data.dims)
+                     if isinstance(dim, DimRep)][:1]
+            for dim in (dims if first else []):
+                data = hfarray(data.add_dim(dim, first[0]), unit=data.unit,
+                               outputformat=data.outputformat)
+            if first:
+                names = [dim.name for dim in data.dims[:first[0]]]
+                names += [dim.name for dim in dims]
+                data = data.reorder_dimensions(*names)
+            out[x] = remove_rep(data, newdimname)
         return out
 
     def hyper(self, dimnames, replacedim, indexed=False, all=True):
-- 
2.43.0


From 9f7c16cbeac390eed728908f326392248c33e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:29 +0000
Subject: [PATCH 18/98] fix: editing a transformed block leaves its source
 block alone

---
 hftools/dataset/dataset.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 82618ae..edd2663 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -81,7 +81,7 @@ def convert_matrices_to_elements(db, formatelement=None):
                 for j, _ in enumerate(v.dims[v.dims_index("j")].data, 1):
                     out[formatelement(k, i, j)] = v[..., i - 1, j - 1]
         else:
-            out[k] = v
+            out[k] = v.view()
     return out
 
 
@@ -217,7 +217,7 @@ class DataBlock(object):
         db.blockname = self.blockname
         for v in vars:
             if v in self:
-                db[v] = self[v]
+                db[v] = self[v].view()
         return db
 
     def replace_dim(self, olddim, newdim):
@@ -656,7 +656,7 @@ class DataBlock(object):
             a.shape = (newdim.data.shape[0],)
             out[dim.name] = hfarray(a, dims=(newdim,))
         for x in self.vardata:
-            data = self[x]
+            data = self[x].view()
             first = [i for i, dim in enumerate(data.dims)
                      if isinstance(dim, DimRep)][:1]
             for dim in (dims if first else []):
@@ -705,7 +705,7 @@ class DataBlock(object):
         for k, v in self.vardata.items():
             if replacedim not in v.dims:
                 if all:
-                    out[k] = v
+                    out[k] = v.view()
                 1 + 0  # coverage.py bug necessary to get coverage for
                        # continue on next line
                 continue
@@ -748,7 +748,7 @@ def interpolate(newx, y, defaultmode=None):
         else:
             newx = newx.dims[0]
     if newx not in y.dims:
-        return y
+        return y.view()
     oldx = y.dims.get_matching_dim(newx)
     olddims = y.dims
     dimidx = olddims.matching_index(newx)
-- 
2.43.0


From f1e1d3ed8eaa6a56d6a8a7075021b4cbc6bccc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:09 +0000
Subject: [PATCH 19/98] fix: regridding (hyper) keeps the comments of the block

---
 hftools/dataset/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index edd2663..26a6746 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -674,6 +674,7 @@ class DataBlock(object):
             replacedim = self.ivardata[replacedim]
         out = DataBlock()
         out.blockname = self.blockname
+        out.comments = self.comments
         dims = []
         sortdata = []
         for x in dimnames:
-- 
2.43.0


From 1b99c1c760c5310a44bb5116622794d4c3c2789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:36 +0000
Subject: [PATCH 20/98] fix: merging blocks lines dimensions up by name

---
 hftools/file_formats/merge.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f086cc4..d3076e0 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -187,6 +187,12 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             partials = get_partials(b)
             v.append(b[vname])
         if v:
+            # line dimensions up by name, not by position
+            order = [d.name for d in v[0].dims]
+            if len(set(order)) == len(order):
+                v = [x.reorder_dimensions(*order)
+                     if set(d.name for d in x.dims) == set(order) else x
+                     for x in v]
             k = tuple(partials.keys())
             if k:
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
-- 
2.43.0


From 021eb22857292f37437d9a579520925e60a47ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:36 +0000
Subject: [PATCH 21/98] fix: refuse to merge a variable that some blocks of a
 group lack

---
 hftools/file_formats/merge.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index d3076e0..557f503 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -12,7 +12,8 @@ from collections import OrderedDict
 from numpy import array, empty
 import numpy as np
 
-from hftools.core.exceptions import HFToolsHyperCubeError
+from hftools.core.exceptions import HFToolsHyperCubeError,\
+    DimensionMismatchError
 from hftools.dataset import DataDict, DimSweep, DimPartial, hfarray,\
     DataBlock, DimRep
 from hftools.file_formats.common import Comments
@@ -195,6 +196,12 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                      for x in v]
             k = tuple(partials.keys())
             if k:
+                group = [b for b in blocks
+                         if tuple(get_partials(b).keys()) == k]
+                if [id(b) for b in group] != [id(b) for b in blocks
+                                              if vname in b]:
+                    msg = "%r is not in all blocks with parameters %r"
+                    raise DimensionMismatchError(msg % (vname, k))
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             else:
                 ri = tuple()
-- 
2.43.0


From 7e30d17e897745cd03ba15454578d92ea4874d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 22/98] fix: convert multiports with any number of ports

---
 hftools/networks/multiports.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 8e17d68..b47314b 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -67,10 +67,11 @@ def convert(fromP, toP, a):
     PB = inv(toP)
     PA = fromP
     P = matrix_multiply(PA, PB)
-    tau1 = P[..., :2, :2]
-    sigma1 = P[..., :2, 2:]
-    tau2 = P[..., 2:, :2]
-    sigma2 = P[..., 2:, 2:]
+    n = a.shape[-1]
+    tau1 = P[..., :n, :n]
+    sigma1 = P[..., :n, n:]
+    tau2 = P[..., n:, :n]
+    sigma2 = P[..., n:, n:]
     A = inv(tau1 - matrix_multiply(a, tau2))
     B = -sigma1 + matrix_multiply(a, sigma2)
     res = matrix_multiply(A, B)
-- 
2.43.0


From e865f90ffc1c6e494683d41e66c994d387376530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 23/98] fix: converting integer valued network parameters does
 not truncate

---
 hftools/networks/multiports.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index b47314b..f27b82c 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -134,6 +134,10 @@ class _MultiPortArray(_hfarray):
             dims = info
             info = None
         data = np.asanyarray(data)
+        if (dtype is None and isinstance(data, _MultiPortArray) and
+                not isinstance(data, subtype) and data.dtype.kind in "iu"):
+            # converted parameters are generally not integers
+            dtype = np.float64
         if dims is None:
             if hasattr(data, 'dims'):
                 dims = tuple(data.dims)
-- 
2.43.0


From eb6b24851cc767dc4225a3d00f3ef9c4ca546e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 24/98] fix: views of, and arithmetic with, network parameters
 other than S

---
 hftools/networks/multiports.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index f27b82c..a248c38 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -160,7 +160,9 @@ class _MultiPortArray(_hfarray):
     def view(self, dtype=None, type=None):
         if type is None:
             x = np.ndarray.view(self, dtype=self.dtype)
-            return self.__class__(x, dims=self.dims, copy=False, Z0=self.Z0)
+            out = self.__class__(x, dims=self.dims, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return np.ndarray.view(self, dtype=self.dtype, type=type)
 
-- 
2.43.0


From 3f0467f7fbee27329667960a802796b24e5d69f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 25/98] fix: S-parameters keep, and change to, the reference
 impedance asked for

---
 hftools/networks/multiports.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index a248c38..c1bf299 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -99,8 +99,9 @@ class _MultiPortArray(_hfarray):
                         accessor = make_accessor(i, j)
                         self._attrfuns[label] = accessor
 
-        if isinstance(data, self.__class__) and self.Z0 == data.Z0:
-            pass
+        if (isinstance(data, self.__class__) and
+                (Z0 is None or Z0 == data.Z0)):
+            self.Z0 = data.Z0
         elif isinstance(data, _MultiPortArray):
             if Z0 is None:
                 self.Z0 = getattr(data, "Z0", None)
@@ -115,6 +116,8 @@ class _MultiPortArray(_hfarray):
                        "elements of a %s matrix")
                 msg = fmt % (data.__class__.__name__, self.__class__.__name__)
                 raise ValueError(msg)
+        elif Z0 is not None:
+            self.Z0 = Z0
 
     @property
     def Z0(self):
@@ -217,7 +220,9 @@ class _MultiPortArray(_hfarray):
     def __getitem__(self, idx):
         data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
         if ismatrix(data):
-            return self.__class__(data, copy=False)
+            out = self.__class__(data, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return data
 
@@ -336,7 +341,9 @@ This model may be of any dimension.
 """
     shortname = "S"
 
-    def __init__(self, data, dims=None, copy=True, Z0=50., info=None, unit=None):
+    def __init__(self, data, dims=None, copy=True, Z0=None, info=None, unit=None):
+        if Z0 is None and not isinstance(data, SArray):
+            Z0 = 50.
         _MultiPortArray.__init__(self, data, dims, copy=copy, Z0=Z0, info=info, unit=unit)
 
     @property
-- 
2.43.0


From 447d1962ff496f411af2321f2b03c7b4609c0731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 26/98] fix: element access by name on results of arithmetic
 with network parameters

---
 hftools/networks/multiports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index c1bf299..241ab6f 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -159,6 +159,8 @@ class _MultiPortArray(_hfarray):
     def __array_finalize__(self, obj):
         _hfarray.__array_finalize__(self, obj)
         self.Z0 = getattr(obj, "Z0", 50.)
+        if type(obj) is type(self):
+            self._attrfuns = obj._attrfuns
 
     def view(self, dtype=None, type=None):
         if type is None:
-- 
2.43.0


From ce452a5b5f9892efcc4a5eeb893e78e1b6255d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:36 +0000
Subject: [PATCH 27/98] fix: cascading and de-embedding keep reference
 impedance, value type and all operands

The result of cascadeS, deembedleft and deembedright was labelled 50 ohm
whatever the operands' reference, operands with different references were
combined without converting one of them, complex values were truncated to
the type of the first operand and further operands of cascadeS were
ignored.
---
 hftools/networks/spar_functions.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index b146b5c..f2f8be4 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -12,9 +12,29 @@ from hftools.dataset import make_same_dims, _DimMatrix, hfarray
 from hftools.math import det, inv, matrix_multiply
 
 
+def _same_reference(S, other):
+    """Express *other* in the reference impedance of *S*.
+    """
+    Z0 = getattr(S, "Z0", None)
+    if Z0 is not None and getattr(other, "Z0", Z0) != Z0:
+        other = other.__class__(other, Z0=Z0)
+    return other
+
+
+def _empty_result(S, other, shape):
+    """Array like *S*, that can hold values calculated from *S* and *other*.
+    """
+    dtype = np.result_type(S.dtype, other.dtype, np.float64)
+    res = S.__class__(np.zeros(shape, dtype), dims=S.dims)
+    if getattr(S, "Z0", None) is not None:
+        res.Z0 = S.Z0
+    return res
+
+
 def cascadeS(S1, S2, *rest):
     """Cascade arrays containing S-parameters.
     """
+    S2 = _same_reference(S1, S2)
     S1, S2 = make_same_dims(S1, S2)
     neworder = tuple([x for x in S1.dims if not isinstance(x, _DimMatrix)])
     S1 = S1.reorder_dimensions(*neworder)
@@ -23,13 +43,15 @@ def cascadeS(S1, S2, *rest):
     s1det = det(S1)
     s2det = det(S2)
     maxshape = tuple(max(x) for x in zip(S1.shape, S2.shape))
-    res = S1.__class__(np.zeros(maxshape, S1.dtype), dims=S1.dims)
+    res = _empty_result(S1, S2, maxshape)
     res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s1det
     res[..., 0, 1] = S1[..., 0, 1] * S2[..., 0, 1]
     res[..., 1, 0] = S1[..., 1, 0] * S2[..., 1, 0]
     res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
     res = res / denom
     res = S1.__class__(res, dims=S1.dims)
+    if rest:
+        return cascadeS(res, *rest)
     return res
 
 
@@ -39,6 +61,7 @@ def deembedleft(e, X):
     Frequency is first index, measurement sweep is second index and port
     indices are third and fourth index.
     """
+    e = _same_reference(X, e)
     X, e = make_same_dims(X, e)
     neworder = tuple([x for x in X.dims if not isinstance(x, _DimMatrix)])
     X = X.reorder_dimensions(*neworder)
@@ -49,7 +72,7 @@ def deembedleft(e, X):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 1, 1] * X[..., 0, 0])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    res = _empty_result(X, e, maxshape)
     e11 = (X[..., 0, 0] - e[..., 0, 0])
     e12 = (X[..., 0, 1] * e[..., 1, 0])
     e21 = (X[..., 1, 0] * e[..., 0, 1])
@@ -70,6 +93,7 @@ def deembedright(X, e):
     Frequency is first index, measurement sweep is second index and port
     indices are third and fourth index.
     """
+    e = _same_reference(X, e)
     X, e = make_same_dims(X, e)
     neworder = tuple([x for x in X.dims if not isinstance(x, _DimMatrix)])
     X = X.reorder_dimensions(*neworder)
@@ -80,7 +104,7 @@ def deembedright(X, e):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 0, 0] * X[..., 1, 1])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    res = _empty_result(X, e, maxshape)
     res[..., 0, 0] = (-X[..., 0, 1] * X[..., 1, 0] * e[..., 0, 0])
     res[..., 0, 1] = (X[..., 0, 1] * e[..., 1, 0])
     res[..., 1, 0] = (X[..., 1, 0] * e[..., 0, 1])
-- 
2.43.0


From cb5a07fc2016b31a4377f9d5ac199c75ba653918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:50 +0000
Subject: [PATCH 28/98] fix: make_matrix keeps the values of all four elements

The matrix had the data type of the first element, so with a real first
element the imaginary parts of the others were dropped.
---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index adb7a25..0779640 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -44,7 +44,7 @@ def make_matrix(a, b, c, d):
     a, b, c, d = make_same_dims_list([a, b, c, d])
     abcdshape = zip(a.shape, b.shape, c.shape, d.shape)
     maxshape = (tuple(max(x) for x in abcdshape) + (2, 2))
-    res = zeros(maxshape, a.dtype)
+    res = zeros(maxshape, np.result_type(a, b, c, d))
     res[..., 0, 0] = a
     res[..., 0, 1] = b
     res[..., 1, 0] = c
-- 
2.43.0


From b32929ed9d79c12a7a30c1b63daa8ee1cbb318a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:41 +0000
Subject: [PATCH 29/98] fix: dimensions of products and solutions of non square
 systems

Products and solutions were labelled with the matrix dimensions of the
first operand, also when the number of columns differs, and lstsq failed
with read-only data when the operands have different sweeps.
---
 hftools/math.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 0779640..5fee8e5 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -390,6 +390,25 @@ def matrix_multiply_old(A, B):
     return result
 
 
+def _columns(x):
+    """Dimension describing the columns of the matrices in *x*.
+    """
+    for dim in x.dims:
+        if isinstance(dim, DimMatrix_j):
+            return dim
+    return DimMatrix_j("j", 1)
+
+
+def _solution_dims(A, b, dims):
+    """Dimensions of x in A x = b when *dims* are the dimensions of A and b.
+
+    There is one row of x for each column of A and one column for each
+    column of b.
+    """
+    rows = DimMatrix_i(dims[-2], data=_columns(A).data)
+    return tuple(dims[:-2]) + (rows, _columns(b))
+
+
 def matrix_multiply(a, b):
     """Multiply arrays of matrices.
 
@@ -398,6 +417,8 @@ def matrix_multiply(a, b):
     """
     A, B = make_same_dims(a, b)
     res = np.einsum("...ij,...jk->...ik", A, B)
+    if isinstance(b, _hfarray):
+        return hfarray(res, dims=tuple(A.dims[:-1]) + (_columns(b),))
     return hfarray(res, dims=A.dims)
 
 
@@ -418,7 +439,7 @@ def det(A):
 def solve_Ab(A, b, squeeze=True):
     AA, bb = make_same_dims(A, b)
     x = np.linalg.solve(AA, bb)
-    result = hfarray(x, dims=bb.dims)
+    result = hfarray(x, dims=_solution_dims(A, b, bb.dims))
     if squeeze:
         result = result.squeeze()
     return result
@@ -426,15 +447,16 @@ def solve_Ab(A, b, squeeze=True):
 
 def lstsq(A, b, squeeze=True):
     lstsq = np.linalg.lstsq
-    res = broadcast_matrices((A, b))
-    x, residuals, rank, s = lstsq(firstelement(res._broadcasted[0]), firstelement(res._broadcasted[1]))
-    xdims = res._broadcasted[0].dims
-    xempty = np.empty(res.outershape + x.shape, dtype=x.dtype)
-    xresult = hfarray(xempty, dims=xdims)
-
-    for a, b, rx in broadcast_matrices((A, b, xresult)):
-        rx[...], _, _, _ = lstsq(a, b)
-    return xresult
+    AA, bb = make_same_dims(A, b)
+    dims = _solution_dims(A, b, AA.dims)
+    outer = tuple(max(x) for x in zip(AA.shape[:-2], bb.shape[:-2]))
+    AA = np.broadcast_to(np.asarray(AA), outer + AA.shape[-2:])
+    bb = np.broadcast_to(np.asarray(bb), outer + bb.shape[-2:])
+    dtype = np.result_type(AA, bb, np.float64)
+    res = np.empty(outer + (AA.shape[-1], bb.shape[-1]), dtype=dtype)
+    for idx in np.ndindex(*outer):
+        res[idx] = lstsq(AA[idx], bb[idx])[0]
+    return hfarray(res, dims=dims)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From b87c770a9b7e83973af42c65f57e42d52a0bb102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:03 +0000
Subject: [PATCH 30/98] fix: noise resistance from chain parameters was doubled

The chain correlation matrix is normalised with 2kT0 here while Rn is its
first element normalised with 4kT0, as in from_noisepar and as calculated
from all other representations.
---
 hftools/networks/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index 2356c41..84fe236 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -91,7 +91,7 @@ class NoisyTwoport(object):
             CA11 = CA[..., 0, 0]
             CA12 = CA[..., 0, 1]
             CA22 = CA[..., 1, 1]
-            Rn = CA11.real
+            Rn = CA11.real / 2
             Yopt = (np.sqrt(CA22 / CA11 - (CA12.imag / CA11) ** 2) +
                     1j * (CA12.imag / CA11))
             Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
-- 
2.43.0


From 8c5a0132e98d344421fef4afa0b0d448aa3b0851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:28 +0000
Subject: [PATCH 31/98] fix: correlation matrix from noise parameters is
 complex also for real S

---
 hftools/networks/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index 84fe236..d372106 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -49,7 +49,7 @@ def from_noisepar(dataset):
     dataset.S = SArray(dataset.S)
     dataset.ABCD = ABCDArray(dataset.S)
     dataset.Yopt = 1 / 50. * (1 - dataset.Gopt) / (1 + dataset.Gopt)
-    dataset.CAm = np.zeros_like(dataset.S)
+    dataset.CAm = np.zeros_like(dataset.S, dtype=np.complex128)
     dataset.CAm11 = dataset.Rn
     dataset.CAm21 = 0.5 * (dataset.Fmin - 1) - dataset.Rn * dataset.Yopt
     dataset.CAm12 = dataset.CAm21.conj()
-- 
2.43.0


From 25b919108f2d3de8ee888cd7e2ca8aa238887962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:47 +0000
Subject: [PATCH 32/98] fix: writing a matrix element of a block lines
 dimensions up by name

The value was written by position, so with sweeps in another order than in
the matrix it was refused or, for equal lengths, stored at other
coordinates.
---
 hftools/dataset/dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 26a6746..9fee07a 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -25,7 +25,7 @@ import numpy.random as rnd
 from numpy import zeros, array, linspace
 
 from hftools.dataset.arrayobj import hfarray, ismatrix,\
-    remove_rep, _hfarray
+    remove_rep, _hfarray, change_shape
 from hftools.dataset.dim import DimBase, DimSweep, DimRep,\
     DimMatrix_i, DimMatrix_j, DiagAxis
 from hftools.utils import warn, stable_uniq
@@ -329,7 +329,11 @@ class DataBlock(object):
             if (mname in self.vardata and ismatrix(self.vardata[mname]) and
                     not ismatrix(value)):
                 idx = (Ellipsis,) + elem
-                self.vardata[mname][idx] = value
+                target = self.vardata[mname]
+                dims = target[idx].dims
+                if value.dims and all(dim in dims for dim in value.dims):
+                    value = change_shape(value, dims)
+                target[idx] = value
             else:
                 if (key in self.ivardata):
                     olddim = self.ivardata[key]
-- 
2.43.0


From 4f1eda8835bba44424ce7502fac4bde4e15d0b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:47 +0000
Subject: [PATCH 33/98] fix: converting network parameters keeps values at
 their sweep points

With sweeps in another order than the canonical one the result was written
back by position. Integer valued S-parameters were truncated when changing
reference impedance.
---
 hftools/networks/multiports.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 241ab6f..ad93fe4 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -110,6 +110,7 @@ class _MultiPortArray(_hfarray):
             if self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                 view = data.view(type=hfarray, dtype=data.dtype)
                 res, _, _ = convert(data.P, self.P, view)
+                res = res.reorder_dimensions(*self.dims[:-2])
                 self.view(type=hfarray, dtype=self.dtype)[:] = res
             else:
                 fmt = ("Can not convert subelements of a %s matrix to "
@@ -138,7 +139,9 @@ class _MultiPortArray(_hfarray):
             info = None
         data = np.asanyarray(data)
         if (dtype is None and isinstance(data, _MultiPortArray) and
-                not isinstance(data, subtype) and data.dtype.kind in "iu"):
+                data.dtype.kind in "iu" and
+                (not isinstance(data, subtype) or
+                 Z0 not in (None, data.Z0))):
             # converted parameters are generally not integers
             dtype = np.float64
         if dims is None:
-- 
2.43.0


From 373b7805e464940c31c4c15d95cb8afefd91732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:38 +0000
Subject: [PATCH 34/98] fix: writing a network parameter element by name lines
 dimensions up by name

---
 hftools/networks/multiports.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index ad93fe4..cab32b4 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -40,7 +40,7 @@ from hftools.math import matrix_multiply, inv
 from hftools.networks.spar_functions import cascadeS, deembed, deembedright,\
     deembedleft
 from hftools.dataset.arrayobj import hfarray, DimSweep,\
-    DimMatrix_i, DimMatrix_j, _hfarray, ismatrix
+    DimMatrix_i, DimMatrix_j, _hfarray, ismatrix, change_shape
 from hftools.utils import warn
 
 
@@ -220,7 +220,11 @@ class _MultiPortArray(_hfarray):
             return
         except AttributeError:
             pass
-        self.__getattr__(key)[...] = value
+        element = self.__getattr__(key)
+        if (isinstance(value, _hfarray) and value.dims and
+                all(dim in element.dims for dim in value.dims)):
+            value = change_shape(value, element.dims)
+        element[...] = value
 
     def __getitem__(self, idx):
         data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
-- 
2.43.0


From 8dfa8597f342b6a7c9ce3bb3f84e480f92fcf0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:06 +0000
Subject: [PATCH 35/98] fix: Touchstone files with a single frequency are read

---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 821d56a..15fd6e7 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -80,7 +80,7 @@ class ReadTouchstoneFileFormat(ReadFileFormat):
 
 
 def process_data(data):
-    max_N = int(sqrt(sum(map(len, data)) - 1) / 2 + 1)
+    max_N = int(sqrt(max(sum(map(len, data)) - 1, 0) / 2.)) + 1
     n = 1  # number of ports
     for n in range(1, max_N):
         N = 2 * n ** 2 + 1  # number of data points per frequency
-- 
2.43.0


From 8a8fcac6e861bc1ad6411dda0819d28d3de4eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:06 +0000
Subject: [PATCH 36/98] fix: the option line of a Touchstone file may end in a
 comment

---
 hftools/file_formats/touchstone.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 15fd6e7..68b584b 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -45,6 +45,7 @@ class ReadTouchstoneFileFormat(ReadFileFormat):
             elif rad.startswith("!"):  # Comment line with information
                 yield Token("Comments", lineno, rad[1:].strip())
             elif rad.startswith("#"):
+                rad = rad.split("!", 1)[0].strip()
                 if is_touchstone(None, rad):
                     yield Token("Info", lineno, rad[1:].strip())
                 else:
-- 
2.43.0


From 01e1211f4c0799edff4c4998c50b75f537690446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:06 +0000
Subject: [PATCH 37/98] fix: the reference impedance of a Touchstone file is 50
 Ohm when not stated

---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 68b584b..1183157 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -154,7 +154,7 @@ def proc_info(info, f, data, fn, noisedata):
         info = freq_mult, twoporttype, datatype, rtype, z0 = info_list
     elif len(info_list) == 3:
         info = freq_mult, twoporttype, datatype = info_list
-        z0 = 1.
+        z0 = 50.
     else:
         msg = ("# format should only have 5 values this one has %d" %
                len(info_list))
-- 
2.43.0


From f92cdfd9e0253665ccdb5fde0449411b1c48d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:06 +0000
Subject: [PATCH 38/98] fix: save_touchstone writes complex values in the order
 of the format

---
 hftools/file_formats/touchstone.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 1183157..59f8e15 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -239,18 +239,16 @@ def save_touchstone(db, filename):
         fil.write("#HZ S RI R 50\n")
 
 
+        twoport = db.S.shape[-1] == 2
         header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-                                               "%s[%s,%s]", fortranorder=True)
+                                               "%s[%s,%s]", fortranorder=twoport)
         fmts = [x.outputformat for x in columns]
 
         for row in zip(*columns):
-            out = []
-            for elem, fmt in zip(row, fmts):
-                if iscomplexobj(elem):
-                    out.append(fmt % elem.real)
-                    out.append(fmt % elem.imag)
-                else:
-                    out.append(fmt % elem)
+            out = [fmts[0] % row[0]]
+            for elem, fmt in zip(row[1:], fmts[1:]):
+                out.append(fmt % elem.real)
+                out.append(fmt % elem.imag)
             fil.write("\t".join(out))
             fil.write("\n")
 
-- 
2.43.0


From 9757832e3cb3c9f899f5db52784d834154bd8ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:06 +0000
Subject: [PATCH 39/98] fix: Touchstone and CITI files are written in the
 encoding they are read in

---
 hftools/file_formats/citi.py       | 3 ++-
 hftools/file_formats/touchstone.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 976cbe1..74ed529 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -16,6 +16,7 @@ CITI File Format
     .. autoexception:: CITIFileError
 """
 from __future__ import print_function
+import codecs
 import re
 
 import numpy as np
@@ -246,7 +247,7 @@ def is_citi(filename, rad):
 def save_citi(db, filename):
     """Write a Datablock to a sp-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with codecs.open(filename, "w", encoding="cp1252") as fil:
         for rad in format_citi_block(db):
             fil.write(rad)
             fil.write("\n")
diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 59f8e15..b22a83b 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -16,6 +16,7 @@ Touchstone
     .. autofunction:: save_touchstone
 
 """
+import codecs
 import re
 import numpy as np
 from numpy import iscomplexobj, sqrt
@@ -228,7 +229,7 @@ def format_touchstone_block(sweepvars, header, fmts,
 def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
-    with open(filename, "w") as fil:
+    with codecs.open(filename, "w", encoding="cp1252") as fil:
         for comment in db.comments.fullcomments:
             fil.write("!" + comment)
             fil.write("\n")
-- 
2.43.0


From c91b57c29e83ab2a671a75d51a7d87d48d9525c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 40/98] fix: option lines of Touchstone files with an unknown
 keyword are rejected

---
 hftools/file_formats/touchstone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index b22a83b..2110245 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -153,6 +153,9 @@ def proc_info(info, f, data, fn, noisedata):
     info_list = info.upper().split()
     if len(info_list) == 5:
         info = freq_mult, twoporttype, datatype, rtype, z0 = info_list
+        if rtype != "R":
+            msg = "Unknown keyword %r on # line, should be R" % rtype
+            raise TouchstoneError(msg)
     elif len(info_list) == 3:
         info = freq_mult, twoporttype, datatype = info_list
         z0 = 50.
-- 
2.43.0


From ea55e89658265d8d570fab09c6e68692e3ebbbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:53 +0000
Subject: [PATCH 41/98] fix: noise parameters of a Touchstone file keep their
 own frequencies

---
 hftools/file_formats/touchstone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 2110245..791dda0 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -190,7 +190,7 @@ def proc_info(info, f, data, fn, noisedata):
         out.shape = (out.shape[0], N, N)
 
     dims = (DimSweep("freq", f, unit="Hz"), )
-    if fn is not None and len(f) == len(fn) and np.allclose(f, fn):
+    if fn is not None and len(f) == len(fn) and np.all(f == fn):
         noisedims = dims
     elif fn is None:
         noisedims = None
-- 
2.43.0


From b603298d15d3a3422559e19f9e0cc35a9e408a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:58 +0000
Subject: [PATCH 42/98] fix: values from 1e24 are written with the prefix Y

---
 hftools/constants/si_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 7f4355c..eaa0a40 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -27,12 +27,12 @@ siprefixes = dict(d=0.1, c=0.01,
 siprefixes[""] = 1.
 si_exp_to_prefixes = {0: "",
                       3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                      18: "E", 21: "Z", -24: "Y",
+                      18: "E", 21: "Z", 24: "Y",
                       -3: "m", -6: "u", -9: "n", -12: "p", -15: "f",
                       -18: "a", -21: "z", -24: "y"}
 si_exp_to_prefixes_greek = {0: "",
                             3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                            18: "E", 21: "Z", -24: "Y",
+                            18: "E", 21: "Z", 24: "Y",
                             -3: "m", -6: "μ", -9: "n", -12: "p", -15: "f",
                             -18: "a", -21: "z", -24: "y"}
 
-- 
2.43.0


From 83d0f76ff32c30fd630cd6ec67e2af221896a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:58 +0000
Subject: [PATCH 43/98] fix: numbers with exponents and units in brackets are
 read completely

---
 hftools/constants/si_units.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index eaa0a40..09573e2 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -64,8 +64,9 @@ def unit_to_multiplier(unit):
     else:
         return 1, unit
 
-reg_value = re.compile(r"[-+0-9.]+[eE]?[-+0-9]?")
-reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
+reg_value = re.compile(r"\s*([-+]?(?:[0-9]+[.]?[0-9]*|[.][0-9]+)"
+                       r"(?:[eE][-+]?[0-9]+)?)")
+reg_unit = re.compile(r"\s*[[]?([a-zA-Z%/]+)[]]?\s*$")
 
 
 def string_number_with_unit_to_value(string_number):
@@ -74,17 +75,14 @@ def string_number_with_unit_to_value(string_number):
     res = reg_value.match(string_number)
     if res:
         value = float(res.group())
-        reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
-        unit_res = reg_unit.match(string_number[res.span()[-1]:])
+        rest = string_number[res.end():]
+        unit_res = reg_unit.match(rest)
         if unit_res:
-            unit = unit_res.group()
-        else:
-            unit = None
-    else:
-        msg = "Could not convert %r to value with unit" % (string_number)
-        raise ValueError(msg)
-
-    return convert_with_unit(unit, value)
+            return convert_with_unit(unit_res.group(1), value)
+        elif not rest.strip():
+            return convert_with_unit(None, value)
+    msg = "Could not convert %r to value with unit" % (string_number)
+    raise ValueError(msg)
 
 
 def convert_with_unit(unit, value):
-- 
2.43.0


From a96cfb15ac7bebdc5d9616ee4d961c206d47896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:57 +0000
Subject: [PATCH 44/98] fix: units of complex columns are kept when they are
 read

---
 hftools/file_formats/readbase.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 12af29f..5c785f3 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -138,20 +138,24 @@ def make_cplx(dataset):
 
     for vname, alt in varnames.items():
         if "Re" in alt and "Im" in alt:
-            if vname in dataset:
+            newname = vname + alt["Re"][1]
+            if vname in dataset or newname in dataset:
                 pass  # Already scalar data present
+            elif alt["Re"][1].strip() != alt["Im"][1].strip():
+                pass  # Real and imaginary part have different units
             else:
-                dataset[vname] = (dataset[alt["Re"][-1]] +
-                                  dataset[alt["Im"][-1]] * 1j)
+                dataset[newname] = (dataset[alt["Re"][-1]] +
+                                    dataset[alt["Im"][-1]] * 1j)
                 del dataset[alt["Re"][-1]]
                 del dataset[alt["Im"][-1]]
         elif "Mag" in alt and "Arg" in alt:
-            if vname in dataset:
+            newname = vname + alt["Mag"][1]
+            if vname in dataset or newname in dataset:
                 pass  # Already scalar data present
             else:
-                dataset[vname] = (dataset[alt["Mag"][-1]] *
-                                  np.exp(np.pi / 180 * 1j *
-                                         dataset[alt["Arg"][-1]]))
+                dataset[newname] = (dataset[alt["Mag"][-1]] *
+                                    np.exp(np.pi / 180 * 1j *
+                                           dataset[alt["Arg"][-1]]))
                 del dataset[alt["Mag"][-1]]
                 del dataset[alt["Arg"][-1]]
 
-- 
2.43.0


From 33534359e42253dd425397d65d9cb43cea736f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:57 +0000
Subject: [PATCH 45/98] fix: removing the unit from a variable name does not
 overwrite other data

---
 hftools/file_formats/readbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 5c785f3..e347b30 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -168,6 +168,8 @@ def fix_unit(db, varname):
     res = reg_varunit.match(varname)
     if res:
         vname, unit = res.groups()
+        if vname in db:
+            return
         mul, unit = unit_to_multiplier(unit)
 #        db.rename(varname, vname)
         if varname in db.ivardata:
-- 
2.43.0


From b700a7847573d5e4e0d56527ee57e6dcfde9217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:57 +0000
Subject: [PATCH 46/98] fix: matrices built from columns keep all values and
 the unit

---
 hftools/file_formats/readbase.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index e347b30..15abc12 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -387,15 +387,21 @@ class ReadFileFormat(object):
             matrices.update(match_matrix_elements(block.vardata.keys(),
                                                   matcher))
         for vname, (elems, i_indices, j_indices) in matrices.items():
+            if vname in block:
+                continue  # Do not overwrite other data
             ex = block[elems[0]]
             shape = ex.shape
+            dtype = np.result_type(*[block[elem].dtype for elem in elems])
+            units = set(block[elem].unit for elem in elems)
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
-                         dtype=ex.dtype)
+                         dtype=dtype)
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
                 del block[elem]
             x.shape = shape + (len(i_indices), len(j_indices),)
             block[vname] = make_matrix(x, dims=ex.dims)
+            if len(units) == 1:
+                block[vname].unit = units.pop()
 
     def _merge(self, blocks):
         if self.merge:
-- 
2.43.0


From 8c96f4229d6b959024bebebd44295e91aaa74d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:57 +0000
Subject: [PATCH 47/98] fix: normalizing two names to the same name does not
 overwrite data

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 302cebd..b67e85b 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -289,7 +289,7 @@ def normalize_names(data):
     """
     out = data.copy()
     for old, new in _trtable.items():
-        if old in data and new in data:
+        if old in data and new in out:
             continue
         out.rename(old, new)
     meantr = remove_enclosing_function("Mean")
-- 
2.43.0


From 084e6b7e7699c47fc1734511c33caa6ba1cfe443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:57 +0000
Subject: [PATCH 48/98] fix: comments with a unit and a date can be read

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index b67e85b..3519a68 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -165,7 +165,7 @@ def process_comment(comment):
         else:
             try:
                 value = convert([convert_with_unit], unit, value)
-            except ValueError:
+            except (ValueError, TypeError):
                 pass
         out[varname] = value
     return out
-- 
2.43.0


From 16a367a80f1f6ec33fd274fb4a4cead693f003aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:21 +0000
Subject: [PATCH 49/98] fix: normalizing the name of a mean value does not hide
 a dimension

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 3519a68..4233af3 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -300,7 +300,7 @@ def normalize_names(data):
             new = trfunk(old)
             if new == old:
                 pass
-            elif new in out.vardata:
+            elif new in out:
                 msg = ("%r already in data when trying to "
                        "normalize %r") % (new, old)
                 raise ValueError(msg)
-- 
2.43.0


From 9a03b0ec22c392101d0aeb15760e64aa7672c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:11 +0000
Subject: [PATCH 50/98] fix: save_citi writes every variable over all sweeps in
 the declared order

Values were written in the order of the variable's own dimensions, variables
lacking a sweep had too few values and matrix elements were looked up by label.
---
 hftools/file_formats/citi.py | 52 +++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 74ed529..d9f20cc 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -22,7 +22,8 @@ import re
 import numpy as np
 from numpy import array, iscomplexobj, pi
 import hftools.dataset
-from hftools.dataset import DataBlock, DimSweep, hfarray, _DimMatrix
+from hftools.dataset import DataBlock, DimSweep, hfarray, _DimMatrix,\
+    change_shape
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments
 
@@ -176,6 +177,17 @@ def handle_data(data, typ):
         raise CITIFileError("Unknown Vartype %r" % (typ,))
 
 
+def over_sweeps(value, sweeps):
+    """Values of *value* over all *sweeps* followed by its matrix dimensions.
+    """
+    matrixdims = sorted((dim for dim in value.dims
+                         if isinstance(dim, _DimMatrix)),
+                        key=lambda dim: dim.sortprio)
+    dims = tuple(sweeps) + tuple(matrixdims)
+    shape = tuple(dim.data.shape[0] for dim in dims)
+    return np.broadcast_to(np.asarray(change_shape(value, dims)), shape)
+
+
 def format_citi_block(inblock):
     block = DataBlock()
     for k, v in inblock.vardata.items():
@@ -191,16 +203,18 @@ def format_citi_block(inblock):
         pass
     yield "NAME %s" % block.blockname
 
-    for name, value in block.ivardata.items():
-        if is_numlike(value.data) and not isinstance(value, _DimMatrix):
-            yield "VAR %s MAG %s" % (name, value.data.shape[0])
+    sweeps = [value for value in block.ivardata.values()
+              if is_numlike(value.data) and not isinstance(value, _DimMatrix)]
+    for value in sweeps:
+        yield "VAR %s MAG %s" % (value.name, value.data.shape[0])
 
     for name, value in block.vardata.items():
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
                 names = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
+                rows, cols = over_sweeps(value, sweeps).shape[-2:]
+                for i in range(rows):
+                    for j in range(cols):
                         names.append("%s%s%s" % (name, i + 1, j + 1))
             else:
                 names = [name]
@@ -210,31 +224,31 @@ def format_citi_block(inblock):
                 else:
                     yield "DATA %s MAG" % (n)
 
-    for name, value in block.ivardata.items():
-        if is_numlike(value.data) and not isinstance(value, _DimMatrix):
-            yield "VAR_LIST_BEGIN"
-            fmt = value.outputformat
-            for rad in value.data:
-                yield fmt % rad
-            yield "VAR_LIST_END"
+    for value in sweeps:
+        yield "VAR_LIST_BEGIN"
+        fmt = value.outputformat
+        for rad in value.data:
+            yield fmt % rad
+        yield "VAR_LIST_END"
 
     for name, value in block.vardata.items():
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
+                data = over_sweeps(value, sweeps)
                 values = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
-                        values.append(value[..., i, j])
+                for i in range(data.shape[-2]):
+                    for j in range(data.shape[-1]):
+                        values.append(data[..., i, j])
             else:
-                values = [value]
+                values = [over_sweeps(value, sweeps)]
             for val in values:
                 yield "BEGIN"
                 if iscomplexobj(val):
-                    fmt = "%s,%s" % (val.outputformat, val.outputformat)
+                    fmt = "%s,%s" % (value.outputformat, value.outputformat)
                     for rad in val.flat:
                         yield fmt % (rad.real, rad.imag)
                 else:
-                    fmt = val.outputformat
+                    fmt = value.outputformat
                     for rad in val.flat:
                         yield fmt % rad
                 yield "END"
-- 
2.43.0


From e955de60f4bddb66adfacdb4cbea27421857f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:07 +0000
Subject: [PATCH 51/98] fix: merging keeps variables of a block without
 parameters

As well as single values found in one block only, like those from comments
at the start of a file.
---
 hftools/file_formats/merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 557f503..6410794 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -187,7 +187,9 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 continue
             partials = get_partials(b)
             v.append(b[vname])
-        if v:
+        if len(v) == 1 and not (v[0].dims and partials):
+            db[vname] = v[0]
+        elif v:
             # line dimensions up by name, not by position
             order = [d.name for d in v[0].dims]
             if len(set(order)) == len(order):
-- 
2.43.0


From 54785569f0545151617cc34b8fab8a31b26ee8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:07 +0000
Subject: [PATCH 52/98] fix: reading SP data without merging returns the list
 of blocks

---
 hftools/file_formats/readbase.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 15abc12..0f3f9fb 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -299,9 +299,13 @@ class ReadFileFormat(object):
                 if multiple_files:
                     #res["FILEINDEX"] = DimPartial("FILEINDEX", [idx])
                     fname = py3.cast_unicode(fname)
-                    if "FILENAME" not in res:
-                        res["FILENAME"] = hfarray(fname)
-                objs.append(res)
+                    for b in res if isinstance(res, list) else [res]:
+                        if "FILENAME" not in b:
+                            b["FILENAME"] = hfarray(fname)
+                if isinstance(res, list):
+                    objs.extend(res)
+                else:
+                    objs.append(res)
         if multiple_files:
             res = obj._merge(objs)
         else:
@@ -332,7 +336,8 @@ class ReadFileFormat(object):
                 blocks["FILEINDEX"] = DimPartial("FILEINDEX",
                                                  [self.file_index])
         else:
-            for b in blocks.values():
+            for b in (blocks if isinstance(blocks, list)
+                      else blocks.values()):
                 if isinstance(b, (list, tuple)):
                     for x in b:
                         if "FILEINDEX" not in x:
-- 
2.43.0


From 0d4ddfe7247fe59084edd8baa47ccf1957f69d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:07 +0000
Subject: [PATCH 53/98] fix: SP data rows that do not fit the header are
 refused

---
 hftools/file_formats/spdata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 1389bcb..9e1f3e3 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -118,7 +118,9 @@ class ReadSPFileFormat(ReadFileFormat):
             header = [x.strip() for x in header[0].strip().split("\t")]
             Nhead = len(header)
             #data = np.array(data)
-            if Nhead != len(data[0]):
+            if not data:
+                raise SPDataIOError("Missing data after header")
+            if any(Nhead != len(row) for row in data):
                 msg = "Different number of header variables "\
                       "from data columns"
                 raise SPDataIOError(msg)
-- 
2.43.0


From e505e00f140164196fa68910ea81ac39759f107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:07 +0000
Subject: [PATCH 54/98] fix: repeated SP data columns keep the sweep when there
 is one row

---
 hftools/file_formats/spdata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 9e1f3e3..594fd0b 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -142,8 +142,7 @@ class ReadSPFileFormat(ReadFileFormat):
                     db[x] = hfarray(output[x], dims=(freq,))
                 else:
                     repdim = DimRep("rep", output[x].shape[1])
-                    db[x] = hfarray(output[x],
-                                    dims=(freq, repdim)).squeeze()
+                    db[x] = hfarray(output[x], dims=(freq, repdim))
 
             remove = []
             for vname in db.comments.property:
-- 
2.43.0


From f6829d93bc2c835c3b390b897666f2ca2afcfd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:07 +0000
Subject: [PATCH 55/98] fix: parameters of SP data blocks can be text

---
 hftools/file_formats/spdata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 594fd0b..0e54f0f 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -147,8 +147,10 @@ class ReadSPFileFormat(ReadFileFormat):
             remove = []
             for vname in db.comments.property:
                 if vname[:1] == "@":
-                    unit = db.comments.property[vname].unit
-                    data = [float(db.comments.property[vname])]
+                    value = db.comments.property[vname]
+                    unit = getattr(value, "unit", None)
+                    data = [value if isinstance(value, string_types)
+                            else float(value)]
                     db[vname[1:]] = DimPartial(vname[1:], data=data, unit=unit)
                     remove.append(vname)
             for v in remove:
-- 
2.43.0


From e4b2f59ea95e163c4c1465008dcfa8ee0dbff564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:07 +0000
Subject: [PATCH 56/98] fix: SP data with sweeps only can be saved

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 4233af3..83c6564 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -387,7 +387,7 @@ def make_block_iterator(data, first=False):
         comments = data.comments
         yield (sweepvars, header, fmts, columns,
                blockname, comments)
-        raise StopIteration
+        return
     d = data.vardata.values()[0]
     if ismatrix(d):
         dimsnames = [x.name for x in d.dims[:-2]]
-- 
2.43.0


From 1bb7688b5f47bcb97e92c4f6d79fa68c8f8de8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:59 +0000
Subject: [PATCH 57/98] fix: scalars, parameters and units of outer sweeps are
 saved in SP data

Scalars were lost, parameters became tables of their own, outer sweeps lost
their unit and comments holding values made a file with several tables
unreadable.
---
 hftools/file_formats/common.py | 32 ++++++++++++++++++++------------
 hftools/file_formats/spdata.py |  9 ++++++++-
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 83c6564..c87a248 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -18,7 +18,7 @@ import itertools
 import time
 import datetime
 import numpy as np
-from hftools.dataset import hfarray, ismatrix, DataBlock
+from hftools.dataset import hfarray, ismatrix, DataBlock, DimPartial
 from hftools.constants import convert_with_unit,\
     string_number_with_unit_to_value
 from hftools.utils import to_numeric
@@ -374,7 +374,7 @@ def format_unit_header(colname, col, use_unit_fmt=True):
         return nounitfmt % colname
 
 
-def make_block_iterator(data, first=False):
+def make_block_iterator(data, first=False, scalars=()):
     if not data.vardata:   # only x-values
         sweepvars = ()
         head = data.ivardata.keys()[0]
@@ -401,13 +401,14 @@ def make_block_iterator(data, first=False):
             comments.property.clear()
         else:
             comments = Comments()
+        comments.property.update(scalars)
     else:
         comments = Comments()
     for enum, idx in enumerate(itertools.product(*dimsidx[1:])):
         sweepvars = []
         for iname, dim, i in zip(dimsnames[1:], dimsdata[1:], idx):
             fmt = getattr(dim, "outputformat", "%.16e")
-            sweepvars.append((iname, fmt, dim[i]))
+            sweepvars.append((format_unit_header(iname, dim), fmt, dim[i]))
         if dimsnames:
             header = [dimsnames[0]] + data.vardata.keys()
             columns = dimsdata[:1] + [col[(slice(None), ) + idx]
@@ -450,23 +451,30 @@ def db_iterator(indb, fmt_block_generator):
     for names in datablock.keys():
         used_ivars = used_ivars.union(names)
 
-    for vname in set(indb.ivardata).difference(used_ivars):
+    for vname, dim in indb.ivardata.items():
+        if vname in used_ivars or isinstance(dim, DimPartial):
+            continue
         q = datablock.setdefault((vname,), DataBlock())
         if q.comments is None:
             q.comments = Comments()
         q[vname] = indb.ivardata[vname]
 
+    partials = [(format_unit_header(dim.name, dim), dim.outputformat,
+                 dim.data[0])
+                for dim in indb.ivardata.values()
+                if isinstance(dim, DimPartial) and dim.name != "FILEINDEX"]
     first = True
 
-    #Handle block with scalar data first
-    dbs = []
-    if tuple() in datablock:
-        dbs.append(datablock.pop(tuple()))
-    for v in datablock.values():
-        dbs.append(v)
+    #Scalar data goes with the data having the fewest sweeps
+    scalars = {}
+    if len(datablock) > 1 and tuple() in datablock:
+        scalars = datablock.pop(tuple()).vardata
+    dbs = [datablock[names] for names in sorted(datablock.keys(), key=len)]
 
-    for db in dbs:
-        for block_content in make_block_iterator(db, first):
+    for idx, db in enumerate(dbs):
+        for block_content in make_block_iterator(db, not idx, scalars):
+            block_content = ((partials + list(block_content[0]),) +
+                             block_content[1:])
             if first:
                 first = False
             else:
diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 0e54f0f..abd7dcb 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -24,7 +24,8 @@ from hftools.dataset import DataDict, DataBlock,  DimSweep, DimRep,\
     DimPartial, hfarray
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix, format_complex_header, format_elem
+    make_col_from_matrix, format_complex_header, format_elem,\
+    format_unit_header
 from hftools.file_formats.readbase import ReadFileFormat
 from hftools.file_formats.readbase import Token
 from hftools.utils import to_numeric
@@ -163,6 +164,12 @@ class ReadSPFileFormat(ReadFileFormat):
 def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
     for comment in comments.fullcomments:
         yield ["!" + comment.lstrip("!")]
+    for name, value in comments.property.items():
+        names = [name]
+        if np.iscomplexobj(value):
+            names = ["Re(%s)" % name, "Im(%s)" % name]
+        for vname, elem in zip(names, format_elem(value.outputformat, value)):
+            yield ["!%s=%s" % (format_unit_header(vname, value), elem)]
     for iname, fmt, value in sweepvars:
         yield [("!@%s=" + fmt) % (iname, value)]
     header, columns = make_col_from_matrix(header, columns, "%s%s%s")
-- 
2.43.0


From a1dd849cbbcb6d2974d5d6620260474e848a7ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:01 +0000
Subject: [PATCH 58/98] fix: MDIF files can be read on current Python

The end of the file escaped from the block generator as StopIteration, which
is an error since PEP 479.
---
 hftools/file_formats/mdif.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d41db6b..4e0f9ce 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -198,17 +198,23 @@ class ReadMDIFFileFormat(ReadFileFormat):
         containing a measurement data block.
         """
         while True:
-            comments = ManyOptional("COMMENT")(stream)
-
             def split_eq(rad):
                 return [x.strip() for x in rad.split("=")]
-            var = ManyOptional("VAR", split_eq)(stream)
-            blockname = One("BEGIN", "Must have Begin after VARs")(stream)
-            attribs = ManyOptional("ATTRIB", split_eq)(stream)
-            header = ManyOptional("HEADER", lambda rad: rad.split())(stream)
-            data = ManyOptional("DATA")(stream)
-            out = (comments, var, blockname, header, attribs, data)
-            One("END", "Must have END after DATA")(stream)
+            try:
+                comments = ManyOptional("COMMENT")(stream)
+                var = ManyOptional("VAR", split_eq)(stream)
+            except StopIteration:
+                return
+            try:
+                blockname = One("BEGIN", "Must have Begin after VARs")(stream)
+                attribs = ManyOptional("ATTRIB", split_eq)(stream)
+                header = ManyOptional("HEADER",
+                                      lambda rad: rad.split())(stream)
+                data = ManyOptional("DATA")(stream)
+                out = (comments, var, blockname, header, attribs, data)
+                One("END", "Must have END after DATA")(stream)
+            except StopIteration:
+                raise MDIFError("File ended inside a block")
             yield out
 
     def parse_blocks(self, stream):
-- 
2.43.0


From 6847e118103c220f135be9d15cbbada7e8bda3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:01 +0000
Subject: [PATCH 59/98] fix: asking for an MDIF block that is not there is an
 error

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 4e0f9ce..f74070c 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -155,7 +155,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
                 return res[blockname]
             else:
                 msg = "%r not a block in mdif file %r" % (blockname, filename)
-                MDIFError(msg)
+                raise MDIFError(msg)
         else:
             return res
 
-- 
2.43.0


From c3e1b85f996e3124a8214f68d1b0a0b1dcb41e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:01 +0000
Subject: [PATCH 60/98] fix: MDIF rows that do not fit the header are refused

---
 hftools/file_formats/mdif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index f74070c..eac24b4 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -60,11 +60,15 @@ class GetData(object):
 
     def parse_data(self, datastream):
         vardata = DataDict()
+        if not self.parse_stream:
+            raise MDIFError("Missing header before data")
         while True:
             for lineparser in self.parse_stream:
                 linedata = datastream.pop(0).split()
                 for func, varname in lineparser:
                     vardata.setdefault(varname, []).append(func(linedata))
+                if linedata:
+                    raise MDIFError("Too many values in row: %r" % linedata)
             if not datastream:
                 break
         return vardata
-- 
2.43.0


From 701a2e1d8b2dac84f2b2057016d3df3c39e3ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:01 +0000
Subject: [PATCH 61/98] fix: merging MDIF blocks keeps units and refuses blocks
 with other variables

---
 hftools/file_formats/mdif.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index eac24b4..35f372c 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -341,8 +341,12 @@ def simple_merge_blocks(blocks):
     out = DataBlock()
     #import pdb;pdb.set_trace()
     for k in blocks[0].vardata:
+        if any(set(b.vardata.keys()) != set(blocks[0].vardata.keys())
+               for b in blocks):
+            raise MDIFError("Blocks to merge have different variables")
         out[k] = hfarray([b[k] for b in blocks],
-                         dims=(ri,) + blocks[0][k].dims)
+                         dims=(ri,) + blocks[0][k].dims,
+                         unit=blocks[0][k].unit)
         if blocks[0][k].dims:
             out[k] = out[k].reorder_dimensions(blocks[0][k].dims[0])
     for k in blocks[0].ivardata:
-- 
2.43.0


From 4bb30e57b4010f9be281e879548a85c5969926da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:50 +0000
Subject: [PATCH 62/98] fix: a variable held by several blocks without
 parameters is refused

---
 hftools/file_formats/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 6410794..3288f6b 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -206,7 +206,8 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                     raise DimensionMismatchError(msg % (vname, k))
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             else:
-                ri = tuple()
+                msg = "%r is in several blocks without parameters"
+                raise DimensionMismatchError(msg % (vname,))
             try:
                 value = hfarray(v, dims=ri + v[0].dims, unit=v[0].unit)
             except UnicodeError:
-- 
2.43.0


From df4e0bd1a7fc61d2b0ecb1adfc25df0fd85e420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:06 +0000
Subject: [PATCH 63/98] fix: guessing units leaves dimensions without a guessed
 unit alone

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 9fee07a..729d324 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -629,6 +629,8 @@ class DataBlock(object):
                     varnames.extend(self.comments.property)
             for varname in varnames:
                 unit = guess_unit_from_varname(varname)
+                if unit is None:
+                    continue
                 if varname in self and self[varname].unit is None:
                     if varname in self.ivardata:
                         olddim = self.ivardata[varname]
-- 
2.43.0


From 2927e3736f786790921a9657a98456ffed050fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:06 +0000
Subject: [PATCH 64/98] fix: vectors can be read from MDIF files

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 35f372c..5f2fb60 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -307,7 +307,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             a.sort()
             fmt = "%s[%%s]" % (matrix, )
             arrays = [np.array(db.vardata[fmt % i])[:, np.newaxis] for i, in a]
-            dims = db.vardata["%s[%s]" % (matrix, i)].dims
+            dims = db.vardata[fmt % a[0]].dims
             X = np.concatenate(arrays, 1)
             X.shape = X.shape[:1] + (len(a),)
             db.vardata[matrix] = make_vector(X, dims)
-- 
2.43.0


From 51792feb068593e37e32fe32b2983127212dbd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:06 +0000
Subject: [PATCH 65/98] fix: MDIF units are only guessed when asked for

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 5f2fb60..ad213d1 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -150,7 +150,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             res = {}
             for k, v in objs.items():
                 res[k] = simple_merge_blocks(v)
-                res[k].guess_units()
+                res[k].guess_units(guess_unit)
         else:
             res = objs
 
-- 
2.43.0


From 181c7a30203555ed88dc18dbc4fe164fba5e4771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:06 +0000
Subject: [PATCH 66/98] fix: merging MDIF blocks with different parameters is
 refused

---
 hftools/file_formats/mdif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index ad213d1..6cff2ff 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -337,6 +337,10 @@ class ReadMDIFFileFormat(ReadFileFormat):
 def simple_merge_blocks(blocks):
     if len(blocks) == 1:
         return blocks[0]
+    params = [set(k for k in b.ivardata
+                  if isinstance(b.ivardata[k], DimPartial)) for b in blocks]
+    if any(p != params[0] for p in params):
+        raise MDIFError("Blocks to merge have different parameters")
     ri = DimRep("INDEX", len(blocks))
     out = DataBlock()
     #import pdb;pdb.set_trace()
-- 
2.43.0


From 16ff3ee347ef8b3605283122d5fc3525460f5a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:22 +0000
Subject: [PATCH 67/98] fix: renaming to the same name keeps the place of a
 variable or dimension

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 729d324..fc107e5 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -139,6 +139,8 @@ class DataDict(dict):
 
     def rename(self, oldname, newname):
         vdata = self[oldname]
+        if oldname == newname:
+            return
         if newname not in self.order:
             self.order[self.order.index(oldname)] = newname
         del self[oldname]
-- 
2.43.0


From 4dd4d291390c142edcc808168e2a390eeb9d5bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 68/98] fix: merging takes parameters listed in another order
 for the same parameters

---
 hftools/file_formats/merge.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 3288f6b..a3b11f0 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -162,7 +162,8 @@ def merge_blocks(blocks, hyper=False, indexed=False):
 
     for b in blocks:
         parts = get_partials(b)
-        partgroup = dimpartialgroups.setdefault(tuple(parts.keys()), {})
+        partgroup = dimpartialgroups.setdefault(frozenset(parts),
+                                                OrderedDict())
         for k, v in parts.items():
             partgroup.setdefault(k, []).extend(v)
 
@@ -196,14 +197,14 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 v = [x.reorder_dimensions(*order)
                      if set(d.name for d in x.dims) == set(order) else x
                      for x in v]
-            k = tuple(partials.keys())
+            k = frozenset(partials)
             if k:
                 group = [b for b in blocks
-                         if tuple(get_partials(b).keys()) == k]
+                         if frozenset(get_partials(b)) == k]
                 if [id(b) for b in group] != [id(b) for b in blocks
                                               if vname in b]:
                     msg = "%r is not in all blocks with parameters %r"
-                    raise DimensionMismatchError(msg % (vname, k))
+                    raise DimensionMismatchError(msg % (vname, sorted(k)))
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             else:
                 msg = "%r is in several blocks without parameters"
@@ -229,7 +230,8 @@ def merge_blocks(blocks, hyper=False, indexed=False):
     db.blockname = blocks[0].blockname
 
     if hyper:
-        for vnames in dimpartialgroups.keys():
+        for group in dimpartialgroups.values():
+            vnames = tuple(group.keys())
             if vnames:
                 hyperindex = db[vnames[0]].dims[0]
                 db = db.hyper(vnames, hyperindex, all=True)
-- 
2.43.0


From 035109bf3f4a1da1228823054ac1302723448ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 69/98] fix: dimensions stored in HDF5 come back with their own
 names, text and dates

---
 hftools/file_formats/hdf5/v_02.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 6ec152e..a36f7b2 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -41,17 +41,29 @@ def expand_dataset(dataset, expansion, axis):
     dataset.resize(dataset.shape[axis] + expansion, axis=axis)
 
 
+def cast_hdf5_to_array(data, dtype):
+    if dtype is None:
+        return data
+    dtype = np.dtype(cast_unicode(dtype))
+    if dtype.kind == "U":  # texts can have any length
+        dtype = np.unicode_
+    return np.array(data, dtype=dtype)
+
+
+def getdim(x):
+    dimcls = dimrep[cast_unicode(x.attrs.get("dimtype", "DimSweep"))]
+    data = cast_hdf5_to_array(x[...], x.attrs.get("dtype", None))
+    return dimcls(unescape_varname(x.name.strip("/")), data,
+                  unit=x.attrs.get("unit", None))
+
+
 def getvar(db, key):
     X = db[key]
 
     dims = []
     for x in X.dims:
         if len(x):
-            dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(x[0].name.strip("/"),
-                         x[0][...],
-                         unit = x[0].attrs.get("unit", None))
-            dims.append(dim)
+            dims.append(getdim(x[0]))
 
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
@@ -158,8 +170,9 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             pass
         create_dataset(filehandle, ek, v, expandable=expandable)
         for idx, dv in enumerate(v.dims):
-            filehandle[ek].dims.create_scale(filehandle[dv.name])
-            filehandle[ek].dims[idx].attach_scale(filehandle[dv.name])
+            edim = filehandle[escape_varname(dv.name)]
+            filehandle[ek].dims.create_scale(edim)
+            filehandle[ek].dims[idx].attach_scale(edim)
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
         if v.unit:
-- 
2.43.0


From e9537d43d937e69a50199627c1675d77501536b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 70/98] fix: texts of any length can be read from HDF5

---
 hftools/file_formats/hdf5/v_02.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index a36f7b2..1ea0a6d 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -68,14 +68,15 @@ def getvar(db, key):
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
     dtype = X.attrs.get("dtype", None)
+    data = cast_hdf5_to_array(X.value, dtype)
     if len(dims) == len(X.dims):
-        return hfarray(X.value, dims=dims, unit=unit,
-                       dtype=dtype, outputformat=outputformat)
+        return hfarray(data, dims=dims, unit=unit,
+                       outputformat=outputformat)
     else:
         dimcls = dimrep[X.attrs.get("dimtype", "DimSweep")]
         dim = dimcls(X.name.strip("/"), X[...], unit=unit)
-        return hfarray(X.value, dims=(dim,), unit=unit,
-                       dtype=dtype, outputformat=outputformat)
+        return hfarray(data, dims=(dim,), unit=unit,
+                       outputformat=outputformat)
 
 
 def cast_arrays_to_hdf5(data):
-- 
2.43.0


From b51fa69e5d1a2a2752fe43c6f6e94ae090e6c960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 71/98] fix: dimensions registered without variables are read
 from HDF5

---
 hftools/file_formats/hdf5/v_02.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 1ea0a6d..42a772b 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -118,6 +118,10 @@ def read_hdf5_handle(filehandle, **kw):
             uk = unescape_varname(k)
             if "dimtype" not in filehandle[k].attrs:
                 db[uk] = getvar(filehandle, k)
+        for k in filehandle:
+            uk = unescape_varname(k)
+            if "dimtype" in filehandle[k].attrs and uk not in db:
+                db[uk] = getdim(filehandle[k])
         db.comments = Comments()
         return db
     else:
-- 
2.43.0


From 05a9809f8392e72d55bc6d471777069c7e247e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 72/98] fix: units and formats survive saving to expandable
 HDF5 files

---
 hftools/file_formats/hdf5/v_02.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 42a772b..ef7811a 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -167,6 +167,7 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
 
     for k, v in db.vardata.items():
         ek = escape_varname(k)
+        unit, outputformat = v.unit, v.outputformat
         if expandable and v.ndim == 0:
             v = v.add_dim(expanddim)
         elif expandable:
@@ -180,10 +181,10 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             filehandle[ek].dims[idx].attach_scale(edim)
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
-        if v.unit:
-            filehandle[ek].attrs["unit"] = v.unit
-        if v.outputformat:
-            filehandle[ek].attrs["outputformat"] = v.outputformat
+        if unit:
+            filehandle[ek].attrs["unit"] = unit
+        if outputformat:
+            filehandle[ek].attrs["outputformat"] = outputformat
 
 
 def save_hdf5(db, h5file, expandable=False, expanddim=None, **kw):
-- 
2.43.0


From 7d7389f233bd0ac1674de768a1e53363aca9b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 73/98] fix: appending to HDF5 counts the blocks and refuses
 what does not fit before writing

---
 hftools/file_formats/hdf5/v_02.py | 44 ++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index ef7811a..3d58790 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -196,24 +196,54 @@ def save_hdf5(db, h5file, expandable=False, expanddim=None, **kw):
     return d
 
 
+def fit_to_dataset(data, diskdata, name):
+    """Return *data* as it has to be written to the expandable *diskdata*."""
+    ax = diskdata.maxshape.index(None)
+    dims = [getdim(x[0]).name for idx, x in enumerate(diskdata.dims)
+            if idx != ax]
+    shape = diskdata.shape[:ax] + diskdata.shape[ax + 1:]
+    if sorted(d.name for d in data.dims) != sorted(dims):
+        raise ValueError("Variable %r has wrong dimensions, can not append"
+                         % name)
+    if dims:
+        data = data.reorder_dimensions(*dims)
+    if data.shape != shape:
+        raise ValueError("Variable %r has wrong shape, can not append" % name)
+    dtype = np.dtype(cast_unicode(diskdata.attrs["dtype"]))
+    text = [dt.kind == "U" for dt in (dtype, data.dtype)]
+    if any(text):
+        possible = all(text)
+    else:
+        possible = np.can_cast(data.dtype, dtype, "safe")
+        data = data.astype(dtype)
+    if not possible:
+        raise ValueError("Variable %r has wrong data type, can not append"
+                         % name)
+    return cast_arrays_to_hdf5(np.array(data))
+
+
 def append_hdf5(db, filehandle, expanddim=None, **kw):
     key = "hftools file version"
     if key not in filehandle.attrs or filehandle.attrs[key] != "0.2":
         raise Exception("Can only append to hftools version 0.2")
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
-    idx = filehandle[expanddim.name][-1] + 1
-    expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name].value[-1] = idx
+    diskindex = filehandle[escape_varname(expanddim.name)]
+    idx = diskindex[-1] + 1
 
-    for k, v in filehandle.items():
+    newdata = []
+    for k, diskdata in filehandle.items():
         uk = unescape_varname(k)
-        if uk in db.ivardata or uk == expanddim.name:
+        if "dimtype" in diskdata.attrs:
             continue
         if uk not in db.vardata:
             raise ValueError("Variable %r missing in db, can not append" % uk)
-        diskdata = filehandle[k]
+        newdata.append((diskdata, fit_to_dataset(db[uk], diskdata, uk)))
+
+    expand_dataset(diskindex, 1, 0)
+    diskindex[-1] = idx
+    for diskdata, data in newdata:
         ax = diskdata.maxshape.index(None)
         expand_dataset(diskdata, 1, ax)
         s = (slice(None),) * ax + (diskdata.shape[ax] - 1,)
-        diskdata[s] = cast_arrays_to_hdf5(db[uk])
+        diskdata[s] = data
-- 
2.43.0


From e98480ab355ebd910ec39246b4c986b22c5e75f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:37 +0000
Subject: [PATCH 74/98] fix: units of dimensions can be read from HDF5 version
 0.1

---
 hftools/file_formats/hdf5/v_01.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index af3ee0e..bd0f2da 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -104,7 +104,7 @@ def read_hdf5(h5file, name="datablock", **kw):
         v = ivardata[k]
         datadtype = v.attrs[r"info\dtype"] or None
         dimcls = dims_dict.get(v.attrs[r"info\class"], DimRep)
-        unit = str(v.attrs.get(r"info\unit", "none"))
+        unit = cast_unicode(v.attrs.get(r"info\unit", "none"))
         if unit.lower() == "none":
             unit = None
         vdata = np.array(np.array(v), dtype=datadtype)
-- 
2.43.0


From 8b74d28f585bca822c79a6b35d079281035bbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:01 +0000
Subject: [PATCH 75/98] fix: texts and names with a slash can be saved to HDF5
 version 0.1

---
 hftools/file_formats/hdf5/v_01.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index bd0f2da..c2f3993 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -22,6 +22,26 @@ from hftools.file_formats.common import Comments
 from hftools.py3compat import string_types, cast_unicode, cast_bytes
 
 
+def escape_varname(x):
+    return x.replace("/", "\\")
+
+
+def unescape_varname(x):
+    return x.replace("\\", "/")
+
+
+def cast_text(data):
+    """Texts in the form which h5py can store"""
+    if data.dtype.kind == "U":
+        text = type(u"")
+        return np.array(data).astype(h5py.special_dtype(vlen=text))
+    return data
+
+
+def uncast_text(data):
+    return data.astype(np.unicode_) if data.dtype.kind == "O" else data
+
+
 def unpack_dim(dim):
     return dim.__class__.__name__, dim.name, dim.unit
 
@@ -51,13 +71,13 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
             if data.dtype.name.startswith("datetime64"):
                 datadtype = data.dtype.name
                 data = data.astype(np.uint64)
-            dset = vardata.create_dataset(k, data=data, compression=compression, )
+            dset = vardata.create_dataset(escape_varname(k), data=cast_text(data), compression=compression, )
             klass, name, unit = zip(*[unpack_dim(dim) for dim in db[k].dims])
         else:
             if data.dtype.name.startswith("datetime64"):
                 datadtype = data.dtype.name
                 data = data.astype(np.uint64)
-            dset = vardata.create_dataset(k, data=data) #can not compress scalars
+            dset = vardata.create_dataset(escape_varname(k), data=cast_text(data)) #can not compress scalars
             name = []
         dset.attrs[r"info\name"] = list(map(cast_bytes, name))
         dset.attrs[r"data\unit"] = cast_bytes(db[k].unit if db[k].unit is not None else "None")
@@ -69,7 +89,7 @@ def save_hdf5(db, h5file, name="datablock", mode="w", compression="gzip", **kw):
         if data.dtype.name.startswith("datetime64"):
             datadtype = data.dtype.name
             data = data.astype(np.uint64)
-        dset = ivardata.create_dataset(k, data=data, compression=compression)
+        dset = ivardata.create_dataset(escape_varname(k), data=cast_text(data), compression=compression)
         klass, name, unit = unpack_dim(db.ivardata[k])
         dset.attrs[r"info\class"] = klass
         dset.attrs[r"info\unit"] = cast_bytes(unit if unit is not None else "None")
@@ -107,7 +127,8 @@ def read_hdf5(h5file, name="datablock", **kw):
         unit = cast_unicode(v.attrs.get(r"info\unit", "none"))
         if unit.lower() == "none":
             unit = None
-        vdata = np.array(np.array(v), dtype=datadtype)
+        k = unescape_varname(k)
+        vdata = np.array(uncast_text(np.array(v)), dtype=datadtype)
         dim = dimcls(k, vdata, unit=unit)
         db[k] = dim
     for k in vardata:
@@ -117,7 +138,7 @@ def read_hdf5(h5file, name="datablock", **kw):
         unit = cast_unicode(v.attrs.get(r"data\unit", "none"))
         if unit.lower() == "none":
             unit = None
-        db[k] = hfarray(np.array(v), dtype=datadtype, dims=dims, unit=unit)
+        db[unescape_varname(k)] = hfarray(uncast_text(np.array(v)), dtype=datadtype, dims=dims, unit=unit)
     if isinstance(h5file, string_types):
         fil.close()
 
-- 
2.43.0


From 7b21771ba38bc7b3454eb9f7e4b7d352fd80a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 76/98] fix: reading without naming the format takes HDF5 files
 and any text encoding

---
 hftools/file_formats/__init__.py | 4 +++-
 hftools/file_formats/mdif.py     | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index ab92fee..f1f3176 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -25,6 +25,7 @@ This package contains routines to read and write data.
 
 """
 import glob
+import io
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -70,7 +71,8 @@ def read_data(filename, merge=True, guess_unit=True,
             break
     else:
         raise IOError("No files match pattern %r" % filename)
-    fil = open(fname)
+    # any file can be looked at in this encoding, also binary ones
+    fil = io.open(fname, encoding="latin-1")
     for rad in fil:
         for fun, readfun in isfile:
             if fun(fname, rad):
diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 6cff2ff..f0050cc 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -16,6 +16,7 @@ MDIF
 
 """
 from __future__ import print_function
+import io
 import re
 import itertools
 import time
@@ -135,7 +136,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             filenames = [filename]
         objs = {}
         for idx, fname in enumerate(filenames):
-            with open(fname) as fil:
+            with io.open(fname, encoding="cp1252") as fil:
                 res = obj.do_file(fil)
                 for k, v in res.items():
                     if isinstance(v, list):
@@ -530,7 +531,7 @@ def loop_db(db):
 
 
 def save_mdif(db, filename):
-    fil = open(filename, "w")
+    fil = io.open(filename, "w", encoding="cp1252")
     fil.write("!Created: %s\n" % time.asctime())
     #for rad in db_iterator(db, format_mdif_block):
     for rad in loop_db(convert_matrices_to_elements(db)):
-- 
2.43.0


From 2acf99eac6e3d44848a3076b896c28a0eac014ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 77/98] fix: MDIF files without VAR lines are recognised

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index f0050cc..27ae753 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -37,7 +37,8 @@ from hftools.file_formats.readbase import ManyOptional,\
 class MDIFError(FileFormatError):
     pass
 
-reg_mdif = re.compile(r"[\t ]*VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]")
+reg_mdif = re.compile(r"[\t ]*(VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]"
+                      r"|BEGIN +\S)")
 
 
 def is_mdif(filename, rad):
-- 
2.43.0


From c00a12ca4ba022c0648138e67f1d59b0e138a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 78/98] fix: a list of MDIF files can be read, and no file is
 read twice

---
 hftools/file_formats/mdif.py     |  5 ++---
 hftools/file_formats/readbase.py | 18 +++++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 27ae753..85c4bfa 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -27,10 +27,9 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
     make_vector, yield_dim_consistent_datablocks, convert_matrices_to_elements
 
 
-from hftools.utils import glob
 from hftools.file_formats.common import Comments,\
     format_complex_header, format_elem
-from hftools.file_formats.readbase import ManyOptional,\
+from hftools.file_formats.readbase import matching_files, ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
 
 
@@ -132,7 +131,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
         obj.filename = filename
 
         if multiple_files:
-            filenames = glob(filename)
+            filenames = matching_files(filename)
         else:
             filenames = [filename]
         objs = {}
diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 0f3f9fb..81ff12d 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -21,9 +21,18 @@ from hftools.constants import unit_to_multiplier
 from hftools.dataset import DataBlock, DimPartial, hfarray, make_matrix
 from hftools.file_formats.common import normalize_names
 from hftools.file_formats import merge_blocks
-from hftools.utils import glob
+from hftools.utils import glob, stable_uniq
 from hftools import path
 
+
+def matching_files(filename):
+    """Return list of the files which match *filename*, a pattern or list of
+    patterns. A file that matches several patterns is only listed once.
+    """
+    if not isinstance(filename, (list, tuple)):
+        filename = [filename]
+    return stable_uniq(chain(*[glob(f) for f in filename]))
+
 reg_outerfun = re.compile(r"^([A-Za-z_][A-Za-z_0-9]*) *\((.*)\)(.*)")
 
 
@@ -279,12 +288,7 @@ class ReadFileFormat(object):
                   hyper=hyper, **kw)
         obj.filename = filename
         if multiple_files:
-            if isinstance(filename, (list, tuple)):
-                filenames = []
-                for f in filename:
-                    filenames.extend(glob(f))
-            else:
-                filenames = glob(filename)
+            filenames = matching_files(filename)
         else:
             filenames = [filename]
         filenames = [path(f) for f in filenames]
-- 
2.43.0


From c74395e4c38db1180bdf63b4ad3dcd529b9f411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 79/98] fix: names that start with a digit or contain nan or
 inf can be ordered

---
 hftools/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index 5046b86..381e7ce 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -156,8 +156,12 @@ def split_num(string):
 
 
 def lex_order(lista):
-    ordered = sorted(list(map(split_num, lista)))
-    return [orig for _, orig in ordered]
+    def key(string):
+        # numbers come before text
+        parts = reg_split.findall(string)
+        return [(0, int(x), "") if x[0] in "0123456789" else (1, 0, x)
+                for x in parts], string
+    return sorted(lista, key=key)
 
 
 def glob(pat):
-- 
2.43.0


From 93890aa7f5c25780a18a74c63e1bba8a68f4ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:00 +0000
Subject: [PATCH 80/98] fix: the cache keeps the last complete copy when a
 block can not be stored

---
 hftools/file_formats/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index f1f3176..06d32d6 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -26,6 +26,7 @@ This package contains routines to read and write data.
 """
 import glob
 import io
+import os
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -101,7 +102,13 @@ def read_to_cache(filename, cachename=None, cachedir=None,
     if not cachename.exists() or reread:
         data = read_data(filename, verbose=verbose)
         yield data, True
-        save_hdf5(data, cachename)
+        tempname = cachename + ".part"
+        try:
+            save_hdf5(data, tempname)
+            os.replace(tempname, cachename)
+        finally:
+            if os.path.exists(tempname):
+                os.remove(tempname)
     else:
         data = read_hdf5(cachename)
         yield data, False
-- 
2.43.0


From d8b8bb7344335a81e4a026e3d22f53ea56da543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:06 +0000
Subject: [PATCH 81/98] fix: a tuple of patterns without matches is reported as
 such

---
 hftools/file_formats/__init__.py | 2 +-
 hftools/file_formats/readbase.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index 06d32d6..d7a82e0 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -71,7 +71,7 @@ def read_data(filename, merge=True, guess_unit=True,
             fname = files[0]
             break
     else:
-        raise IOError("No files match pattern %r" % filename)
+        raise IOError("No files match pattern %r" % (filename,))
     # any file can be looked at in this encoding, also binary ones
     fil = io.open(fname, encoding="latin-1")
     for rad in fil:
diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 81ff12d..5ed4d43 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -294,7 +294,7 @@ class ReadFileFormat(object):
         filenames = [path(f) for f in filenames]
         objs = []
         if not filenames:
-            raise IOError("Pattern %r did not match any files" % filename)
+            raise IOError("Pattern %r did not match any files" % (filename,))
         for idx, fname in enumerate(filenames):
             if verbose:
                 print("\r%-80s\r" % fname.basename(), end="")
-- 
2.43.0


From 4ee501465b337bee512fdc0318e9a1882b8c81cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:00 +0000
Subject: [PATCH 82/98] fix: membership in a configuration section agrees with
 lookup through lists

---
 hftools/file_formats/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 40fff25..63fee49 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -74,7 +74,8 @@ class LexicalScopeDict(OrderedDict):
     def __contains__(self, key):
         if OrderedDict.__contains__(self, key):
             return True
-        return self.parent and key in self.parent
+        dct = find_next_dict(self)
+        return dct is not None and key in dct
 
     def update(self, other):
         for k, v in other.items():
-- 
2.43.0


From a08f0908a72c04dad36fc965931b43d355c081d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:00 +0000
Subject: [PATCH 83/98] fix: sections of a configuration see what is set in it
 later

---
 hftools/file_formats/config.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 63fee49..d964f86 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -81,6 +81,11 @@ class LexicalScopeDict(OrderedDict):
         for k, v in other.items():
             self[k] = v
 
+    def __setitem__(self, key, value, *k, **kw):
+        if getattr(value, "parent", self) is None:
+            value.parent = self
+        OrderedDict.__setitem__(self, key, value, *k, **kw)
+
     def __getitem__(self, key):
         if OrderedDict.__contains__(self, key):
             return OrderedDict.__getitem__(self, key)
@@ -175,7 +180,11 @@ class LexicalConfig(LexicalScopeDict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=LexicalLoader))
+                data = yaml.load(stream, Loader=LexicalLoader)
+            for value in data.values():
+                if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
+                    value.parent = self
+            self.update(data)
         except IOError:
             print("missing config file %r" % self.filename)
 
-- 
2.43.0


From 49e3957d3e54833cccd8e24ac3aeca92010666e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:00 +0000
Subject: [PATCH 84/98] fix: quantities, time intervals and dates in a
 configuration survive writing

---
 hftools/file_formats/config.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index d964f86..cb414ea 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -237,7 +237,7 @@ def convert_or_none(x):
 
 def sivalue_representer(dumper, data):
     if data.unit:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s%s' % (data, data.unit))
+        return dumper.represent_scalar(u'!sivalue', u'%s%s' % (data, data.unit))
     else:
         return dumper.represent_scalar(u'tag:yaml.org,2002:float', u'%s' % (data))
 
@@ -254,20 +254,20 @@ def timeintervall_representer(dumper, data):
     seconds = tremain
     out = []
     if days:
-        out.append(u"%s days" % days)
+        out.append(u"%d days" % days)
     if hours:
-        out.append(u"%s hours" % hours)
+        out.append(u"%d hours" % hours)
     if minutes:
-        out.append(u"%s minutes" % minutes)
-    if seconds:
-        out.append(u"%s seconds" % seconds)
+        out.append(u"%d minutes" % minutes)
+    if seconds or not out:
+        out.append(u"%.6f seconds" % seconds)
 
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str',
-                                   u" ".join(out))
+    return dumper.represent_scalar(u'!timeintervall', u" ".join(out))
 
 
 def timestamp_representer(dumper, data):
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % (data))
+    return dumper.represent_scalar(u'tag:yaml.org,2002:timestamp',
+                                   u'%s' % (data))
 
 
 def path_representer(dumper, p):
@@ -287,7 +287,7 @@ regdatetimeshort = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}"
 regdate = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}")
 
 rec = re.compile
-timeintervallpattern = rec(r'^(([0-9]+([.][0-9]*)?)[ ]*(?:days|day))?[ ]*'
+timeintervallpattern = rec(r'^((-?[0-9]+([.][0-9]*)?)[ ]*(?:days|day))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:hour|hours))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:minutes|minute))?[ ]*'
                            r'(([0-9]+([.][0-9]*)?)[ ]*(?:second|seconds))?$')
-- 
2.43.0


From 426e3af26800dfa103c1bc7bf444f9339994f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:00 +0000
Subject: [PATCH 85/98] fix: a configuration with a path can be loaded after
 writing

---
 hftools/file_formats/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index cb414ea..4c63687 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -271,7 +271,7 @@ def timestamp_representer(dumper, data):
 
 
 def path_representer(dumper, p):
-    return dumper.represent_scalar(u'!str', u'%s' % p)
+    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % p)
 
 reg_si_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                           r"[ \t]*(([dcmunpfakMGTPE])?(Hz|V|A|m|s|W|Ohm)?)?$")
-- 
2.43.0


From c9d9da0e3f893984fbfd2010b8954e6976582492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:00 +0000
Subject: [PATCH 86/98] fix: text that only starts like a time or date is text
 in a configuration

---
 hftools/file_formats/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 4c63687..99ade92 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -280,10 +280,10 @@ reg_percent_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                                r"[ \t]*(%|ppm|ppb)$")
 
 
-regtime = re.compile(r"([0-9][0-9]):([0-9][0-9])(:([0-9][0-9]))?")
+regtime = re.compile(r"([0-9][0-9]):([0-9][0-9])(:([0-9][0-9]))?$")
 regtimeshort = re.compile(r"[0-9][0-9]:[0-9][0-9]")
 regdatetimeshort = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}"
-                              r" [0-9][0-9]:[0-9][0-9]")
+                              r" [0-9][0-9]:[0-9][0-9]$")
 regdate = re.compile(r"[0-9]{4}-[0-9]{2}-[0-9]{2}")
 
 rec = re.compile
-- 
2.43.0


From 2e4e9f695ad19d27261d32430638a32a6c14ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:00 +0000
Subject: [PATCH 87/98] fix: an empty configuration file can be loaded

---
 hftools/file_formats/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 99ade92..22bb87c 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -180,7 +180,7 @@ class LexicalConfig(LexicalScopeDict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                data = yaml.load(stream, Loader=LexicalLoader)
+                data = yaml.load(stream, Loader=LexicalLoader) or {}
             for value in data.values():
                 if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
                     value.parent = self
@@ -207,7 +207,7 @@ class Config(dict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=StandardLoader))
+                self.update(yaml.load(stream, Loader=StandardLoader) or {})
         except IOError:
             warnings.warn("missing config file %r" % self.filename)
 
-- 
2.43.0


From ef0b99109b931465fc2248dc2905eb4d40d29e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:25 +0000
Subject: [PATCH 88/98] fix: lengths in a configuration survive writing

---
 hftools/file_formats/config.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 22bb87c..cce434b 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -235,8 +235,19 @@ def convert_or_none(x):
         return float(x)
 
 
+def format_length(value):
+    """A lone "m" is read as the prefix milli, so lengths need a prefix."""
+    for prefix in "mkunpMGTfPaE":
+        number = float(value) / siprefixes[prefix]
+        if number * siprefixes[prefix] == value:
+            break
+    return u'%s%sm' % (number, prefix)
+
+
 def sivalue_representer(dumper, data):
-    if data.unit:
+    if data.unit == "m":
+        return dumper.represent_scalar(u'!sivalue', format_length(data))
+    elif data.unit:
         return dumper.represent_scalar(u'!sivalue', u'%s%s' % (data, data.unit))
     else:
         return dumper.represent_scalar(u'tag:yaml.org,2002:float', u'%s' % (data))
-- 
2.43.0


From 06cdfadcc8b80ddb1f5ec1a0dcf9d1edeb347339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:31 +0000
Subject: [PATCH 89/98] fix: phase of arrays is unwrapped in the order of their
 own dimensions

---
 hftools/math.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 5fee8e5..90b7e52 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -132,16 +132,16 @@ def _unwrap_phase(data, deg=False):
        >>> unwrap_phase(hfarray(y))
        hfarray([  0. ,   1.5,   3. ,   4.5,   6. ,   7.5,   9. ,  10.5])
     """
-    result = data.real * 0
-    a = angle(data[0])
-    a0 = np.median(array(a.flat[0], copy=False))
+    values = np.asarray(data)
+    result = values.real * 0.
+    a = angle(values[0])
+    a0 = a.flat[0]
     add_pos = abs(a - a0 + 2 * pi) < 2
     add_neg = abs(a - a0 - 2 * pi) < 2
     result[0] = a
-    result[1:] = (np.add.accumulate(angle(data[1:] / data[:-1]), 0) +
-                  angle(data[0]))
-    result1 = np.where(array(add_pos), array(result + 2 * pi), array(result))
-    result2 = np.where(array(add_neg), array(result1 - 2 * pi), array(result1))
+    result[1:] = np.add.accumulate(angle(values[1:] / values[:-1]), 0) + a
+    result1 = np.where(add_pos, result + 2 * pi, result)
+    result2 = np.where(add_neg, result1 - 2 * pi, result1)
     if deg:
         result2 = result2 / pi * 180
     return hfarray(result2, dims=data.dims)
-- 
2.43.0


From 03ddde650ea87fa3052558ceed7eed8603d34347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:31 +0000
Subject: [PATCH 90/98] fix: smoothing honours its axis and averages integers

---
 hftools/math.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 90b7e52..7e54969 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -204,7 +204,11 @@ def smooth(data, aperture, axis=0):
             axel som skall smoothas langs default = 1
     """
     data = np.asanyarray(data)
+    if not issubclass(data.dtype.type, np.inexact):
+        data = data.astype(float)
     newdata = np.empty_like(data)
+    source = np.moveaxis(np.asarray(data), axis, 0)
+    target = np.moveaxis(np.asarray(newdata), axis, 0)
     len = data.shape[axis] - 1
     if aperture % 2 == 0:
         odd = 0
@@ -213,9 +217,9 @@ def smooth(data, aperture, axis=0):
     for i in range(data.shape[axis]):
         wid = min(i, aperture // 2, abs(len - i))
         if wid != 0:
-            newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
+            target[i] = np.mean(source[i - wid: i + wid + odd], 0)
         else:
-            newdata[i] = data[i]
+            target[i] = source[i]
     return newdata
 
 
-- 
2.43.0


From 4878ea783f8b71412bf9f609d41b0606fa396cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:31 +0000
Subject: [PATCH 91/98] fix: interpolated values are labelled with their own
 coordinates

---
 hftools/math.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 7e54969..8b408f5 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -285,19 +285,26 @@ def smooth_magphase(data, aperture, axis=0):
 
 
 def linear_extrapolate(x, y, xi):
-    x = np.asanyarray(x)
-    y = np.asanyarray(y)
-    xi = np.asanyarray(xi)
-    idx0 = np.searchsorted(x[1:-1], xi)
+    xa = np.asarray(x)
+    ya = np.asarray(y)
+    xia = np.asarray(xi)
+    idx0 = np.searchsorted(xa[1:-1], xia)
     idx1 = idx0 + 1
-    x0 = x[idx0]
-    x1 = x[idx1]
-    y0 = y[idx0]
-    y1 = y[idx1]
-    d0 = (xi - x0)
-    d1 = (x1 - xi)
-    d = (x1 - x0)
-    return (d0 * y1 + d1 * y0) / d
+    shape = xia.shape + (1,) * (ya.ndim - 1)
+    x0 = xa[idx0].reshape(shape)
+    x1 = xa[idx1].reshape(shape)
+    d0 = xia.reshape(shape) - x0
+    d1 = x1 - xia.reshape(shape)
+    res = (d0 * ya[idx1] + d1 * ya[idx0]) / (x1 - x0)
+    if isinstance(y, _hfarray) and xia.ndim < 2:
+        if isinstance(xi, _hfarray):
+            newdims = xi.dims
+        else:
+            newdims = tuple(dim.__class__(dim, data=xia)
+                            for dim in y.dims[:xia.ndim])
+        res = hfarray(res, dims=tuple(newdims) + tuple(y.dims[1:]),
+                      unit=y.unit)
+    return res
 
 
 def interpolate(x, y, xi):
-- 
2.43.0


From f707bec7fdf0948be6c2c7810aa2f1ed686eabc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:31 +0000
Subject: [PATCH 92/98] fix: magnitude and phase are smoothed along the
 requested axis

---
 hftools/math.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 8b408f5..1c5f783 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -121,7 +121,7 @@ def continous_phase_sqrt(q):
     return Q
 
 
-def _unwrap_phase(data, deg=False):
+def _unwrap_phase(data, deg=False, axis=0):
     """Virar upp fasen, dvs forsoker ta bort eventuella fashopp.
 
        >>> x = np.arange(0, 11, 1.5)
@@ -132,7 +132,7 @@ def _unwrap_phase(data, deg=False):
        >>> unwrap_phase(hfarray(y))
        hfarray([  0. ,   1.5,   3. ,   4.5,   6. ,   7.5,   9. ,  10.5])
     """
-    values = np.asarray(data)
+    values = np.moveaxis(np.asarray(data), axis, 0)
     result = values.real * 0.
     a = angle(values[0])
     a0 = a.flat[0]
@@ -144,11 +144,11 @@ def _unwrap_phase(data, deg=False):
     result2 = np.where(add_neg, result1 - 2 * pi, result1)
     if deg:
         result2 = result2 / pi * 180
-    return hfarray(result2, dims=data.dims)
+    return hfarray(np.moveaxis(result2, 0, axis), dims=data.dims)
 
 
-def unwrap_phase(data, deg=False):
-    a1 = _unwrap_phase(data, deg=deg)
+def unwrap_phase(data, deg=False, axis=0):
+    a1 = _unwrap_phase(data, deg=deg, axis=axis)
     return a1
 
 
@@ -280,7 +280,7 @@ def smooth_magphase(data, aperture, axis=0):
 
     """
     m = smooth(abs(data), aperture, axis)
-    p = smooth(unwrap_phase(data), aperture, axis)
+    p = smooth(unwrap_phase(data, axis=axis), aperture, axis)
     return m * exp(1j * p)
 
 
-- 
2.43.0


From dc6f52695f48e56cb8e2721a09279aea810a09ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:09 +0000
Subject: [PATCH 93/98] fix: the label of an axis does not carry a prefix when
 the tick texts have their own

---
 hftools/plotting/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 5fae5bc..f6023e3 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -176,6 +176,10 @@ class UnitFormatter(FormatStrFormatter):
                 self.set_label_fun(xlabel)
             return FormatStrFormatter.__call__(self, x / div, pos)
         else:
+            if self.set_label_fun and self.label_template:
+                #the tick texts carry prefixes of their own
+                self.set_label_fun(self.label_template % dict(prefix="",
+                                                              powerprefix=0))
             self.engfmt.locs = self.locs
             return self.engfmt(x, pos)
 
-- 
2.43.0


From c5eaeb45a4284bdbf72ed282cf0a01e1f202c682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:09 +0000
Subject: [PATCH 94/98] fix: smith and polar charts with Matplotlib versions
 that take the angles of an Arc as keywords

---
 hftools/plotting/smith.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index e7952b8..928d9f9 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -94,7 +94,8 @@ class MyCircle(object):
                     0,
                     self.t1,
                     self.t2)
-            return Arc(*(pars + k), **kw)
+            kw.update(angle=pars[3], theta1=pars[4], theta2=pars[5])
+            return Arc(*(pars[:3] + k), **kw)
 
 
 class MyLine(object):
@@ -252,7 +253,8 @@ def polar_grid(ax=None, mode="full", **kw):
     angles = dict(full=(0, 360), lower=(180, 360.00001), upper=(0, 180.000001))
     t1, t2 = angles[mode]
     for r in np.arange(0, 1.001, 0.2):
-        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, 0, t1, t2, color="k"))
+        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, angle=0, theta1=t1,
+                         theta2=t2, color="k"))
 
     for fi in np.arange(t1 / 180 * np.pi, t2 / 180 * np.pi, np.pi / 4):
         z = np.exp(1j * fi)
@@ -286,7 +288,7 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         XC = BCircle
     t1, t2 = angles[mode]
     x1, x2 = xlims[mode]
-    ax.add_patch(Arc((0, 0), 2, 2, 0, t1, t2, fc="w", ec="k"))
+    ax.add_patch(Arc((0, 0), 2, 2, angle=0, theta1=t1, theta2=t2, fc="w", ec="k"))
 
     for r in [0, 1. / 3, 1, 3]:
         c = RC(r, x1, x2)
-- 
2.43.0


From 88d9d5cca0279786b8cc0eb422d86e7b642ff551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:43 +0000
Subject: [PATCH 95/98] fix: the axis of an admittance chart lies between the
 conductances asked for

---
 hftools/plotting/smith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index 928d9f9..1a80b58 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -215,8 +215,8 @@ def BCircle(b, g1=None, g2=None):
         if g1 is None or g2 is None:
             return MyLine(-1, 0, 1, 0)
         else:
-            x1 = (z2gamma(g1) + 0j).real
-            x2 = (z2gamma(g2) + 0j).real
+            x1 = (y2gamma(g1) + 0j).real
+            x2 = (y2gamma(g2) + 0j).real
             return MyLine(x1, 0, x2, 0)
     if b >= 0:
         branch = 90
-- 
2.43.0


From bdecdbac1aacf16ae519ff0f83c3cd741c6ecd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:43 +0000
Subject: [PATCH 96/98] fix: the outline of half an admittance chart is drawn
 around the half that is shown

---
 hftools/plotting/smith.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index 1a80b58..049f2b6 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -278,7 +278,7 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         lower = [-1. / 3, -1, -3]
 
     else:
-        angles = dict(full=(0, 360), lower=(0, 180), upper=(180, 360))
+        angles = dict(full=(0, 360), lower=(180, 360), upper=(0, 180))
         xlims = dict(full=(-np.inf, np.inf),
                      upper=(-np.inf, 0),
                      lower=(0, np.inf))
-- 
2.43.0


From 42ffa7966fb6b32c0e8f7ec0219d445615523f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:16 +0000
Subject: [PATCH 97/98] fix: labels with a power of ten carry the power and the
 unit

---
 hftools/plotting/helper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index f6023e3..49b01ba 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -169,6 +169,7 @@ class UnitFormatter(FormatStrFormatter):
                 prefix = si_exp_to_prefixes.get(exponent, "q")
                 if prefix == "q":
                     prefix = ""
+                    exponent = 0
                     div = 1
                     self.fmt = "%%.%de" % self.digs
                 xlabel = self.label_template % dict(prefix=prefix,
@@ -233,8 +234,8 @@ class UnitFormatter(FormatStrFormatter):
                 fmt = fmt.replace("[]", u"[%(prefix)sU]")
         elif "[^]" in fmt:
             if self.get_label_unit():
-                fmt = fmt.replace("[^]", u"$[10^{{%%(powerprefix).0f" +
-                                  u"\\rm{{{unit}}}}]$")
+                fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}" +
+                                  u"\\rm{{{unit}}}]$")
             else:
                 fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}]$")
         if "{unit}" in fmt or "{default}" in fmt:
-- 
2.43.0


From 523cd1ce1a2f070d5af81efea9c75a7cc2a464c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 98/98] fix: selecting with a mask keeps the output format of
 the dimension

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index c94fb0c..a23b6b5 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -642,7 +642,8 @@ class _hfarray(ndarray):
                 dim = indices[0].dims[0]
                 newdim = dim.__class__(dim.name,
                                        np.array(dim.data)[indices[0]],
-                                       unit=dim.unit)
+                                       unit=dim.unit,
+                                       outputformat=dim.outputformat)
             else:
                 newdim = get_new_anonymous_dim(self, int(np.sum(indices[0])))
 
-- 
2.43.0

