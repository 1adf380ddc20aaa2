From 56c488a1a8681faa7b7a76950918cbcabd147cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 01/63] fix: convert chunked reads to native byte order before
 numba extracts the ranges

Reading ranges from a chunked dataset stored in non-native byte order raised a
numba TypingError because the conversion happened after the jitted extraction.
---
 swiftsimio/accelerated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 8d1f65d..8a34adf 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -417,12 +417,12 @@ def read_ranges_from_file_chunked(
 
         already_read += size_of_range
 
+    # Ensure the result is a native endian type (numba does not support other byte orders)
+    to_native_byteorder_inplace(output)
+
     if handle.chunks is not None:
         output = extract_ranges_from_chunks(output, chunk_ranges, ranges)
 
-    # Ensure the result is a native endian type
-    to_native_byteorder_inplace(output)
-
     return output
 
 
-- 
2.43.0


From 1a54e411d4f47e4c0fc3efeb3adbfc3213678542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 02/63] fix: order the cells of a mask by the offsets of all
 particle types

With cells written out of order and without particles of the first type in some
cells the ranges of the mask were not sorted, so that chunked datasets were read
incorrectly.
---
 swiftsimio/masks.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 88fe7d2..e17103b 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -379,24 +379,23 @@ class SWIFTMask(HandleProvider):
             self.maxpositions["shared"] = (
                 centers_values + (pad_cells + 0.5) * metadata_handle.attrs["size"]
             )
-        # Only want to compute this once (even if it is fast, we do not
-        # have a reliable stable sort in the case where cells do not
-        # contain at least one of each type of particle).
-        self.cell_sort = None
+        # When using MPI, we cannot assume that the cells are sorted by offset. Only want
+        # to compute this once. A single particle type is not enough to work out the
+        # order because the offsets of a type with no particles in some cells are not
+        # unique, so sort on all types together (they all have the same cell order). Cells
+        # that are completely empty share an offset with the next non-empty cell, and have
+        # to come before it.
+        self.cell_sort = np.lexsort(
+            (
+                np.sum(list(self.counts.values()), axis=0),
+                np.sum(list(self.offsets.values()), axis=0),
+            )
+        )
 
         # Now perform sort:
         for key in self.offsets.keys():
-            offsets = self.offsets[key]
-            counts = self.counts[key]
-
-            # When using MPI, we cannot assume that these are sorted.
-            if self.cell_sort is None:
-                # Only compute once; not stable between particle
-                # types if some datasets do not have particles in a cell!
-                self.cell_sort = np.argsort(offsets, stable=True)
-
-            self.offsets[key] = offsets[self.cell_sort]
-            self.counts[key] = counts[self.cell_sort]
+            self.offsets[key] = self.offsets[key][self.cell_sort]
+            self.counts[key] = self.counts[key][self.cell_sort]
 
         # Also need to sort centers in the same way
         self.centers = cosmo_array(
-- 
2.43.0


From 76f9a006057c6fe1850c4a8933669f5421fa130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 03/63] fix: select the additional region when combining
 spatial constraints of a boolean mask

---
 swiftsimio/masks.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index e17103b..3b31932 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -818,8 +818,15 @@ class SWIFTMask(HandleProvider):
         if self.constrained == "constrain_spatial" and union:
             # we are in union mode and already have a spatial constraint
             new_mask = self._generate_cell_mask(sanitized_region)
-            for group_name in self.update_list:
-                group_name = group_name[1:]  # remove leading underscore
+            for data_name in self.update_list:
+                group_name = data_name[1:]  # remove leading underscore
+                if not self.range_mask:
+                    # a boolean mask isn't rebuilt: select cells not previously selected
+                    added = new_mask[group_name] & ~self.cell_mask[group_name]
+                    for count, offset in zip(
+                        self.counts[group_name][added], self.offsets[group_name][added]
+                    ):
+                        getattr(self, data_name)[offset : count + offset] = True
                 self.cell_mask[group_name] = np.logical_or(
                     self.cell_mask[group_name], new_mask[group_name]
                 )
-- 
2.43.0


From e4e25d8dd26e924d2cf32a7657c4a20e3c9ca2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 04/63] fix: write subsets of files with empty datasets

---
 swiftsimio/subset_writer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index b402735..fa05439 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -350,6 +350,12 @@ def _write_datasubset(
             if any([substr for substr in skip_list if substr in name]):
                 continue
 
+            if infile[name].shape[0] == 0:
+                # no rows to select from (e.g. no particles of this type)
+                if name not in outfile:
+                    infile.copy(name, outfile, name=name)
+                continue
+
             # get output dtype and size
             first_value = infile[name][0]
             output_type = first_value.dtype
-- 
2.43.0


From 549f92e4aba7950b3725d83c5280ce0e40d4c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:28 +0000
Subject: [PATCH 05/63] fix: write a scale factor exponent of zero for datasets
 independent of the scale factor

---
 swiftsimio/snapshot_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 0ddebb0..8c6d4f0 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -11,7 +11,7 @@ from functools import reduce
 
 from swiftsimio import metadata
 from swiftsimio.metadata.writer.unit_systems import cosmo_units
-from swiftsimio.objects import cosmo_array
+from swiftsimio.objects import a, cosmo_array
 
 
 def _ptype_str_to_int(ptype_str: str) -> int:
@@ -272,7 +272,7 @@ class __SWIFTWriterParticleDataset(object):
                 "U_T exponent": [dim_exponents[temperature]],
                 "U_t exponent": [dim_exponents[time]],
                 "a-scale exponent": [
-                    float(getattr(field.cosmo_factor.expr, "exp", 1.0))
+                    float(field.cosmo_factor.expr.as_coeff_exponent(a)[1])
                 ],
                 "h-scale exponent": [0.0],
             }
-- 
2.43.0


From 584b306ca586e3a8c93d85270e3e3cc4cb527289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:38 +0000
Subject: [PATCH 06/63] fix: store the comoving box size when writing a file
 with a physical box size

---
 swiftsimio/snapshot_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 8c6d4f0..e3e6f33 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -684,6 +684,7 @@ class SWIFTSnapshotWriter(object):
             )
         self.boxsize = np.copy(boxsize, subok=True)
         self.boxsize.convert_to_base(self.unit_system)
+        self.boxsize.convert_to_comoving()
 
         self.dimension = dimension
         self.compress = compress
-- 
2.43.0


From f865e07f44cf1ccd79d9433d8fbe6bb728bdea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 07/63] fix: convert comoving operands to physical when mixed
 with data that cannot be comoving

---
 swiftsimio/_array_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6095783..ac03e17 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -934,7 +934,7 @@ def _prepare_array_func_args(
     else:
         # mix of comoving and physical inputs
         if _default_cm:
-            for arg, cm in zip(args, cms):
+            for arg in (*args, *kwargs.values()):
                 # None is not the same as False here:
                 if getattr(arg, "valid_transform", None) is False:
                     _default_cm = False
@@ -951,11 +951,11 @@ def _prepare_array_func_args(
             ret_cm = True
         else:
             args = [
-                arg.to_physical() if cm[0] and not cm[1] else arg
+                arg.to_physical() if cm[0] and cm[1] else arg
                 for arg, cm in zip(args, cms)
             ]
             kwargs = {
-                k: kwarg.to_physical() if kw_cms[k][0] and not kw_cms[k][1] else kwarg
+                k: kwarg.to_physical() if kw_cms[k][0] and kw_cms[k][1] else kwarg
                 for k, kwarg in kwargs.items()
             }
             ret_cm = False
-- 
2.43.0


From 5a3ae76c66a9d37725b231b7525712e97021b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 08/63] fix: propagate the compression string instead of a
 tuple

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index ac03e17..a3fc617 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -962,7 +962,7 @@ def _prepare_array_func_args(
     ret_vt = all(vts + list(kw_vts.values()))  # if any False, then False
     if len(set(comps + list(kw_comps.values()))) == 1:
         # all compressions identical, preserve it
-        ret_comp = (comps + list(kw_comps.values()))[0]
+        ret_comp = (comps + list(kw_comps.values()))[0][1]
     else:
         # mixed compressions, strip it off
         ret_comp = None
-- 
2.43.0


From 6c83e3a6a4bf1ff496259d68479d509d69cc9df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 09/63] fix: check the cosmo_factors of all arrays when joining
 arrays

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index a3fc617..0125080 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1263,7 +1263,7 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
         """
         helper_result = _prepare_array_func_args(*args, **kwargs)
         helper_result_oplist = _prepare_array_func_args(*args[0])
-        ret_cf = _preserve_cosmo_factor(helper_result_oplist["cfs"][0])
+        ret_cf = _preserve_cosmo_factor(*helper_result_oplist["cfs"])
         res = unyt_func(
             helper_result_oplist["args"],
             *helper_result["args"][1:],
-- 
2.43.0


From 01c32b5732abf8fdbcd70165407a119b681aae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 10/63] fix: square the cosmo_factor in numpy.var

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 0125080..690d620 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1826,7 +1826,7 @@ def prod(  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf, out=out)
 
 
-implements(np.var)(_default_unary_wrapper(unyt_var, _preserve_cosmo_factor))
+implements(np.var)(_default_unary_wrapper(unyt_var, _square_cosmo_factor))
 implements(np.trace)(_default_unary_wrapper(unyt_trace, _preserve_cosmo_factor))
 implements(np.percentile)(
     _default_unary_wrapper(unyt_percentile, _preserve_cosmo_factor)
-- 
2.43.0


From e246bb2132678242c0af67b9264e5aea5ada01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 11/63] fix: attach cosmology to the singular values returned
 by numpy.linalg.svd

---
 swiftsimio/_array_functions.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 690d620..73c9dbe 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1329,9 +1329,25 @@ implements(np.linalg.tensorinv)(
 implements(np.linalg.pinv)(
     _default_unary_wrapper(unyt_linalg_pinv, _reciprocal_cosmo_factor)
 )
-implements(np.linalg.svd)(
-    _default_unary_wrapper(unyt_linalg_svd, _preserve_cosmo_factor)
-)
+@implements(np.linalg.svd)
+def linalg_svd(  # noqa: ANN202
+    a,  # noqa: ANN001
+    full_matrices=True,  # noqa: ANN001
+    compute_uv=True,  # noqa: ANN001
+    *args,  # noqa: ANN002
+    **kwargs,  # noqa: ANN003
+):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(a)
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    res = unyt_linalg_svd(
+        helper_result["args"][0], full_matrices, compute_uv, *args, **kwargs
+    )
+    if compute_uv:
+        # only the singular values carry units
+        return (res[0], _return_helper(res[1], helper_result, ret_cf), res[2])
+    return _return_helper(res, helper_result, ret_cf)
+
+
 
 
 @implements(np.histogram)
-- 
2.43.0


From 987f295ad39cd7cb5b5687de40aac9dd7c3058d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 12/63] fix: multiply the cosmo_factors of the operands of
 numpy.einsum

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 73c9dbe..12c8c7e 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2174,7 +2174,7 @@ def einsum(  # noqa numpydoc ignore=GL08
         optimize=optimize,
     )
     helper_result_operands = _prepare_array_func_args(*operands)
-    ret_cf = _preserve_cosmo_factor(*helper_result_operands["cfs"])
+    ret_cf = _multiply_cosmo_factor(*helper_result_operands["cfs"])
     res = unyt_einsum(
         helper_result["args"][0],
         *helper_result_operands["args"],
-- 
2.43.0


From 18b477805f55b1a9963500f813a1f72250bf2c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 13/63] fix: attach the cosmology attributes of the choices to
 the result of numpy.select

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 12c8c7e..b08c097 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2090,7 +2090,7 @@ def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
         helper_result_choicelist["args"],
         **helper_result["kwargs"],
     )
-    return _return_helper(res, helper_result, ret_cf)
+    return _return_helper(res, helper_result_choicelist, ret_cf)
 
 
 implements(np.setdiff1d)(
-- 
2.43.0


From b72f26a43feeb9b231aee48587344831d4975a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 14/63] fix: average values and weights in the same frame

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index b08c097..eb2705d 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2291,9 +2291,7 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
     else:
         super_average = np.average._implementation
 
-    res = super_average(
-        a, axis=axis, weights=weights, returned=returned, keepdims=keepdims
-    )
+    res = super_average(*helper_result["args"], **helper_result["kwargs"])
     ret_cf_avg = _preserve_cosmo_factor(helper_result["cfs"][0])
     if returned:
         avg, wsum = res
-- 
2.43.0


From 6374be628054f17b5a9890bb3bdad4d565c59b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 15/63] fix: numpy.histogram_bin_edges with bin edges given

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index eb2705d..154846a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1314,9 +1314,7 @@ def histogram_bin_edges(  # noqa: ANN202
     else:
         # bins based on values in a
         ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_histogram_bin_edges(
-            *helper_result["args"], **helper_result["kwargs"]
-        )
+    res = unyt_histogram_bin_edges(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
-- 
2.43.0


From 541896f80265d95c9219d6bf6832b4ead71fff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 16/63] fix: numpy.where with only a condition

---
 swiftsimio/_array_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 154846a..365760f 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2138,8 +2138,7 @@ def clip(  # noqa numpydoc ignore=GL08
 def where(condition, *args):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(condition, *args)
     if len(args) == 0:  # just condition
-        ret_cf = _return_without_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_where(*helper_result["args"], **helper_result["kwargs"])
+        return unyt_where(*helper_result["args"], **helper_result["kwargs"])
     elif len(args) < 2:
         # error message borrowed from numpy 1.24.1
         raise ValueError("either both or neither of x and y should be given")
-- 
2.43.0


From 53b2ef819f5e86af2d6cf1a9872a6d981e1c0bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 17/63] fix: do not convert the source array in place in
 copyto, fill_diagonal, place, put and putmask

---
 swiftsimio/_array_functions.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 365760f..57ba4b1 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1808,9 +1808,9 @@ def copyto(dst, src, casting="same_kind", where=True):  # noqa numpydoc ignore=G
     if isinstance(src, objects.cosmo_array):
         comoving = getattr(dst, "comoving", None)
         if comoving:
-            src.convert_to_comoving()
+            src = src.to_comoving()
         elif comoving is False:
-            src.convert_to_physical()
+            src = src.to_physical()
     unyt_copyto(dst, src, **helper_result["kwargs"])
 
 
@@ -2006,11 +2006,12 @@ def fill_diagonal(a, val, wrap=False):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, val, wrap=wrap)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # must pass a directly here because it's modified in-place
-    comoving = getattr(a, "comoving", None)
-    if comoving:
-        val.convert_to_comoving()
-    elif comoving is False:
-        val.convert_to_physical()
+    if isinstance(val, objects.cosmo_array):
+        comoving = getattr(a, "comoving", None)
+        if comoving:
+            val = val.to_comoving()
+        elif comoving is False:
+            val = val.to_physical()
     unyt_fill_diagonal(a, val, **helper_result["kwargs"])
 
 
@@ -2025,9 +2026,9 @@ def place(arr, mask, vals):  # noqa numpydoc ignore=GL08
     if isinstance(vals, objects.cosmo_array):
         comoving = getattr(arr, "comoving", None)
         if comoving:
-            vals.convert_to_comoving()
+            vals = vals.to_comoving()
         elif comoving is False:
-            vals.convert_to_physical()
+            vals = vals.to_physical()
     unyt_place(arr, mask, vals)
 
 
@@ -2039,9 +2040,9 @@ def put(a, ind, v, mode="raise"):  # noqa numpydoc ignore=GL08
     if isinstance(v, objects.cosmo_array):
         comoving = getattr(a, "comoving", None)
         if comoving:
-            v.convert_to_comoving()
+            v = v.to_comoving()
         elif comoving is False:
-            v.convert_to_physical()
+            v = v.to_physical()
     unyt_put(a, ind, v, **helper_result["kwargs"])
 
 
@@ -2053,9 +2054,9 @@ def put_along_axis(arr, indices, values, axis):  # noqa numpydoc ignore=GL08
     if isinstance(values, objects.cosmo_array):
         comoving = getattr(arr, "comoving", None)
         if comoving:
-            values.convert_to_comoving()
+            values = values.to_comoving()
         elif comoving is False:
-            values.convert_to_physical()
+            values = values.to_physical()
     unyt_put_along_axis(arr, indices, values, axis)
 
 
@@ -2067,9 +2068,9 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     if isinstance(values, objects.cosmo_array):
         comoving = getattr(a, "comoving", None)
         if comoving:
-            values.convert_to_comoving()
+            values = values.to_comoving()
         elif comoving is False:
-            values.convert_to_physical()
+            values = values.to_physical()
     unyt_putmask(a, mask, values)
 
 
-- 
2.43.0


From 56ea2c7e8c7e6821b84ae39e2dfb4b619a8abacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 18/63] fix: attach a cosmo_factor instead of a list to the
 result of numpy.block

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 57ba4b1..ed15183 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1649,7 +1649,7 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     cms = [hr["comoving"] for hr in helper_results]
     vts = [hr["valid_transform"] for hr in helper_results]
     comps = [hr["compression"] for hr in helper_results]
-    cfs = [hr["cfs"] for hr in helper_results]
+    cfs = [hr["cfs"][0] for hr in helper_results]
     convert_to_cm = False
     if all(cms):
         ret_cm = True
-- 
2.43.0


From 0fef0d4be984457eddd051e7d780e7bf45e3b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 19/63] fix: return the bins of a density histogram with their
 own frame and cosmo_factor

---
 swiftsimio/_array_functions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index ed15183..4bf3919 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1445,8 +1445,10 @@ def histogram2d(  # noqa: ANN202
             yrange=yrange,
             weights=weights,
         )
-        ret_cf_x = _preserve_cosmo_factor(helper_result_x["cfs"][0])
-        ret_cf_y = _preserve_cosmo_factor(helper_result_y["cfs"][0])
+        # the bins are returned in the frame that all the input was converted to
+        helper_result_x = helper_result_y = helper_result
+        ret_cf_x = _preserve_cosmo_factor(helper_result["cfs"][0])
+        ret_cf_y = _preserve_cosmo_factor(helper_result["cfs"][1])
         if (helper_result["kwargs"]["xrange"] is None) and (
             helper_result["kwargs"]["yrange"] is None
         ):
@@ -1547,7 +1549,9 @@ def histogramdd(  # noqa: ANN202
         helper_result = _prepare_array_func_args(
             *sample, bins=bins, range=range, weights=weights
         )
-        ret_cfs = D * [_preserve_cosmo_factor(helper_result["cfs"][0])]
+        # the bins are returned in the frame that all the input was converted to
+        helper_results = D * [helper_result]
+        ret_cfs = [_preserve_cosmo_factor(cf) for cf in helper_result["cfs"]]
         counts, bins = unyt_histogramdd(
             helper_result["args"],
             bins=helper_result["kwargs"]["bins"],
-- 
2.43.0


From 0c07c280bc82338764378a77caca55be11dcc155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 20/63] fix: keep the cosmology attributes of an array squeezed
 to a scalar

---
 swiftsimio/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9e00608..f9c07e3 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1400,7 +1400,9 @@ class cosmo_array(unyt_array):
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.__getitem__)
     )
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
-    squeeze = _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    squeeze = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    )
 
     # Also wrap some array "properties":
     T = property(_propagate_cosmo_array_attributes_to_result(unyt_array.transpose))
-- 
2.43.0


From 31efb0507dab8263d34da9e5b1ff96ae41e4dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 21/63] fix: arrays raised to the power of zero do not depend
 on the scale factor

---
 swiftsimio/objects.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index f9c07e3..8e58cd1 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2310,6 +2310,31 @@ class cosmo_array(unyt_array):
             function_to_invoke = func._implementation
         return function_to_invoke(*args, **kwargs)
 
+    def __pow__(self, p: numeric_type, mod: None = None, /) -> "cosmo_array":
+        """
+        Raise this :class:`~swiftsimio.objects.cosmo_array` to a power.
+
+        We delegate to :mod:`unyt`, but it does not evaluate a :class:`numpy.ufunc` when
+        the exponent is zero, so in this case we set the ``cosmo_factor`` here.
+
+        Parameters
+        ----------
+        p : numeric_type
+            The exponent.
+
+        mod : None
+            Unused, see :meth:`object.__pow__`.
+
+        Returns
+        -------
+        ~swiftsimio.objects.cosmo_array
+            The result of the exponentiation.
+        """
+        result = super().__pow__(p, mod)
+        if np.isscalar(p) and p == 0.0:
+            result.cosmo_factor = self.cosmo_factor**0
+        return result
+
     def __mul__(
         self, b: int | float | np.ndarray | unyt.unit_object.Unit
     ) -> "cosmo_array":
-- 
2.43.0


From 19b8e8bf5d9451772a796e8fd8dc3153f8fc1727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 22/63] fix: convert values and bins to the same frame in
 numpy.digitize

---
 swiftsimio/_array_functions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4bf3919..c48d759 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -116,6 +116,7 @@ from unyt._array_functions import (
     trapezoid as unyt_trapezoid,
     isin as unyt_isin,
     take as unyt_take,
+    _HANDLED_FUNCTIONS as UNYT_HANDLED_FUNCTIONS,
 )
 from importlib.metadata import version
 from packaging.version import Version
@@ -2083,6 +2084,17 @@ implements(np.searchsorted)(
 )
 
 
+@implements(np.digitize)
+def digitize(x, bins, right=False):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(x, bins, right=right)
+    _return_without_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
+    # not handled explicitly by old versions of unyt
+    unyt_digitize = UNYT_HANDLED_FUNCTIONS.get(
+        np.digitize, np.digitize._implementation
+    )
+    return unyt_digitize(*helper_result["args"], **helper_result["kwargs"])
+
+
 @implements(np.select)
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(condlist, choicelist, default=default)
-- 
2.43.0


From 32e46959361e9d8568ee684e4d86bf240c4efdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 23/63] fix: copy values in the frame of the target without
 converting their type

---
 swiftsimio/_array_functions.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index c48d759..45fe456 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1812,9 +1812,9 @@ def copyto(dst, src, casting="same_kind", where=True):  # noqa numpydoc ignore=G
     # must pass dst directly here because it's modified in-place
     if isinstance(src, objects.cosmo_array):
         comoving = getattr(dst, "comoving", None)
-        if comoving:
+        if comoving and not src.comoving:
             src = src.to_comoving()
-        elif comoving is False:
+        elif comoving is False and src.comoving is not False:
             src = src.to_physical()
     unyt_copyto(dst, src, **helper_result["kwargs"])
 
@@ -2013,9 +2013,9 @@ def fill_diagonal(a, val, wrap=False):  # noqa numpydoc ignore=GL08
     # must pass a directly here because it's modified in-place
     if isinstance(val, objects.cosmo_array):
         comoving = getattr(a, "comoving", None)
-        if comoving:
+        if comoving and not val.comoving:
             val = val.to_comoving()
-        elif comoving is False:
+        elif comoving is False and val.comoving is not False:
             val = val.to_physical()
     unyt_fill_diagonal(a, val, **helper_result["kwargs"])
 
@@ -2030,9 +2030,9 @@ def place(arr, mask, vals):  # noqa numpydoc ignore=GL08
     # must pass arr directly here because it's modified in-place
     if isinstance(vals, objects.cosmo_array):
         comoving = getattr(arr, "comoving", None)
-        if comoving:
+        if comoving and not vals.comoving:
             vals = vals.to_comoving()
-        elif comoving is False:
+        elif comoving is False and vals.comoving is not False:
             vals = vals.to_physical()
     unyt_place(arr, mask, vals)
 
@@ -2044,9 +2044,9 @@ def put(a, ind, v, mode="raise"):  # noqa numpydoc ignore=GL08
     # must pass arr directly here because it's modified in-place
     if isinstance(v, objects.cosmo_array):
         comoving = getattr(a, "comoving", None)
-        if comoving:
+        if comoving and not v.comoving:
             v = v.to_comoving()
-        elif comoving is False:
+        elif comoving is False and v.comoving is not False:
             v = v.to_physical()
     unyt_put(a, ind, v, **helper_result["kwargs"])
 
@@ -2058,9 +2058,9 @@ def put_along_axis(arr, indices, values, axis):  # noqa numpydoc ignore=GL08
     # must pass arr directly here because it's modified in-place
     if isinstance(values, objects.cosmo_array):
         comoving = getattr(arr, "comoving", None)
-        if comoving:
+        if comoving and not values.comoving:
             values = values.to_comoving()
-        elif comoving is False:
+        elif comoving is False and values.comoving is not False:
             values = values.to_physical()
     unyt_put_along_axis(arr, indices, values, axis)
 
@@ -2072,9 +2072,9 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     # must pass arr directly here because it's modified in-place
     if isinstance(values, objects.cosmo_array):
         comoving = getattr(a, "comoving", None)
-        if comoving:
+        if comoving and not values.comoving:
             values = values.to_comoving()
-        elif comoving is False:
+        elif comoving is False and values.comoving is not False:
             values = values.to_physical()
     unyt_putmask(a, mask, values)
 
-- 
2.43.0


From 5dcd6fd817da182905e27a1a9e4ab5c1af630f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:53 +0000
Subject: [PATCH 24/63] fix: convert the choices of numpy.choose to one frame

---
 swiftsimio/_array_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 45fe456..7e1728e 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1888,8 +1888,12 @@ def choose(a, choices, out=None, mode="raise"):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, choices, out=out, mode=mode)
     helper_result_choices = _prepare_array_func_args(*choices)
     ret_cf = _preserve_cosmo_factor(*helper_result_choices["cfs"])
-    res = unyt_choose(*helper_result["args"], **helper_result["kwargs"])
-    return _return_helper(res, helper_result, ret_cf, out=out)
+    res = unyt_choose(
+        helper_result["args"][0],
+        helper_result_choices["args"],
+        **helper_result["kwargs"],
+    )
+    return _return_helper(res, helper_result_choices, ret_cf, out=out)
 
 
 @implements(np.insert)
-- 
2.43.0


From f718062838aca8d7e83e0495c7b66e6724f24bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 25/63] fix: attach valid_transform to arrays made from astropy
 and pint quantities

---
 swiftsimio/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 8e58cd1..485a2fe 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1914,7 +1914,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
@@ -1976,7 +1976,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
-- 
2.43.0


From ef82d7885a96a4b4b722c3dd6db9bf7d120465cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 26/63] fix: create arrays with scale_factor and
 bypass_validation

---
 swiftsimio/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 485a2fe..1b07ea6 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1157,7 +1157,9 @@ class cosmo_array(unyt_array):
             obj.comoving = comoving
             obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
-                obj.cosmo_factor = cosmo_factor.create(scale_factor, scale_exponent)
+                obj.cosmo_factor = _parse_cosmo_factor_args(
+                    scale_factor=scale_factor, scale_exponent=scale_exponent
+                )
             obj.valid_transform = valid_transform
             obj.compression = compression
 
-- 
2.43.0


From 094f93fb425e600020744b6cd9a6b5f2edd22ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 27/63] fix: do not convert the input array in place when
 creating an array from it

---
 swiftsimio/objects.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 1b07ea6..49cf4fe 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1194,10 +1194,11 @@ class cosmo_array(unyt_array):
                 # value across to avoid defaulting to None
                 obj.cosmo_factor = input_array.cosmo_factor
 
-            if comoving is True:
-                obj.convert_to_comoving()
-            elif comoving is False:
-                obj.convert_to_physical()
+            # (copy before converting, obj is a view of the input array)
+            if comoving is True and not obj.comoving:
+                obj = obj.to_comoving()
+            elif comoving is False and obj.comoving is not False:
+                obj = obj.to_physical()
             # else is already copied from input_array
 
             # only overwrite valid_transform after transforming so that invalid
-- 
2.43.0


From 31f3ad71c535f0344846f504a2a11081dd2f8494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 28/63] fix: use the cosmo_factor given when creating an array
 from a cosmo_array

---
 swiftsimio/objects.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 49cf4fe..f7d575d 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1177,11 +1177,12 @@ class cosmo_array(unyt_array):
             obj.valid_transform = input_array.valid_transform
 
             # do cosmo_factor first since it can be used in comoving/physical conversion:
-            cosmo_factor = (
-                input_array.cosmo_factor
-                if input_array.cosmo_factor != NULL_CF
-                else None
-            )
+            if input_array.cosmo_factor != NULL_CF:
+                if cosmo_factor is not None and cosmo_factor != input_array.cosmo_factor:
+                    raise ValueError(
+                        "Provided `cosmo_factor` does not match the input array."
+                    )
+                cosmo_factor = input_array.cosmo_factor
             cosmo_factor = _parse_cosmo_factor_args(
                 cf=cosmo_factor,
                 scale_factor=scale_factor,
-- 
2.43.0


From 18d244a836c926e49c1e9fe59e91b82c63d4af72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:15 +0000
Subject: [PATCH 29/63] fix: compare the expressions of cosmo_factors for
 equality

---
 swiftsimio/objects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index f7d575d..fdcd476 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -794,6 +794,14 @@ class cosmo_factor(object):
             a_factor_match = True
         else:
             a_factor_match = False
+        if scale_factor_match and a_factor_match and self.expr != b.expr:
+            # the values could match by coincidence (a**1 and a**2 at a=1), so compare
+            # the expressions at another value (a**2 and a**2.0 are equal)
+            a_factor_match = bool(
+                np.isclose(
+                    float(self.expr.subs(a, 0.5)), float(b.expr.subs(a, 0.5)), rtol=1e-6
+                )
+            )
         return scale_factor_match and a_factor_match
 
     def __ne__(self, b: "cosmo_factor") -> bool:
-- 
2.43.0


From a133c7ffad405ce31da70c0b469cd178ba193560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:47 +0000
Subject: [PATCH 30/63] fix: convert values assigned to elements of an array to
 its frame

---
 swiftsimio/objects.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index fdcd476..896847a 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1421,6 +1421,25 @@ class cosmo_array(unyt_array):
     ua = property(_propagate_cosmo_array_attributes_to_result(np.ones_like))
     unit_array = property(_propagate_cosmo_array_attributes_to_result(np.ones_like))
 
+    def __setitem__(self, item: Any, value: Any) -> None:  # noqa: ANN401
+        """
+        Assign to elements of the array, converting between comoving and physical.
+
+        Parameters
+        ----------
+        item : int, slice, tuple or np.ndarray
+            Anything that can index a :class:`~numpy.ndarray`.
+
+        value : Any
+            The value(s) to assign.
+        """
+        if isinstance(value, cosmo_array):
+            if self.comoving and value.comoving is False:
+                value = value.to_comoving()
+            elif self.comoving is False and value.comoving:
+                value = value.to_physical()
+        super().__setitem__(item, value)
+
     def convert_to_comoving(
         self,
         units: unyt.Unit | str | None = None,
-- 
2.43.0


From 6e6a80c8e1a714753adc517af3c0647f1097413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 31/63] fix: convert integer arrays with to() between comoving
 and physical

---
 swiftsimio/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 896847a..91800ae 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1689,8 +1689,11 @@ class cosmo_array(unyt_array):
             and (comoving != self.comoving)
         ):
             raise InvalidConversionError
-        if units is None:
+        if units is None and comoving is None:
             arr_copy = self.copy()
+        elif units is None:
+            # not a simple copy: this makes a copy of an integer array that can be scaled
+            arr_copy = self.in_units(self.units)
         else:
             arr_copy = _copy_cosmo_array_attributes_if_present(
                 self,
-- 
2.43.0


From 66c840769feaf866873a5471947d72dfd6f167ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:38 +0000
Subject: [PATCH 32/63] fix: combine arrays with and without cosmology in
 maximum and minimum in either order

---
 swiftsimio/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 91800ae..b114521 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1049,8 +1049,8 @@ class cosmo_array(unyt_array):
         logical_or: _comparison_cosmo_factor,
         logical_xor: _comparison_cosmo_factor,
         logical_not: _return_without_cosmo_factor,
-        maximum: _passthrough_cosmo_factor,
-        minimum: _passthrough_cosmo_factor,
+        maximum: _preserve_cosmo_factor,
+        minimum: _preserve_cosmo_factor,
         fmax: _preserve_cosmo_factor,
         fmin: _preserve_cosmo_factor,
         isreal: _return_without_cosmo_factor,
-- 
2.43.0


From 76c6492513322bff357c28853039289467f9d550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:38 +0000
Subject: [PATCH 33/63] fix: check that interpolation coordinates have matching
 cosmo_factors

---
 swiftsimio/_array_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 7e1728e..30876eb 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2235,6 +2235,8 @@ def interp(x, xp, fp, left=None, right=None, period=None):  # noqa numpydoc igno
     helper_result = _prepare_array_func_args(
         x, xp, fp, left=left, right=right, period=period
     )
+    # checks that the coordinates to interpolate between are compatible:
+    _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][2])
     res = unyt_interp(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
-- 
2.43.0


From b014bd0e061fd90ae89e9060f42b181af189295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 34/63] fix: convert inputs to the frame requested when
 creating arrays and quantities

---
 swiftsimio/objects.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index b114521..3e04c70 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1243,6 +1243,14 @@ class cosmo_array(unyt_array):
             )
 
             input_array = helper_result["args"]
+            if comoving is not None and helper_result["comoving"] is (not comoving):
+                # all inputs agree, but not with the requested frame
+                input_array = [
+                    (item.to_comoving() if comoving else item.to_physical())
+                    if isinstance(item, cosmo_array)
+                    else item
+                    for item in input_array
+                ]
 
             # default to comoving, cosmo_factor and compression given as kwargs
             comoving = helper_result["comoving"] if comoving is None else comoving
@@ -2555,6 +2563,14 @@ class cosmo_quantity(cosmo_array, unyt_quantity):
         if not isinstance(input_scalar, (numeric_type, np.number, np.ndarray)):
             raise RuntimeError("cosmo_quantity values must be numeric")
 
+        if isinstance(input_scalar, cosmo_array) and comoving is not None:
+            if input_scalar.comoving is (not comoving):
+                input_scalar = (
+                    input_scalar.to_comoving()
+                    if comoving
+                    else input_scalar.to_physical()
+                )
+
         # Use values from kwargs, if None use values from input_scalar
         units = getattr(input_scalar, "units", None) if units is None else units
         name = getattr(input_scalar, "name", None) if name is None else name
-- 
2.43.0


From 2f259a34c6a8c5c6c0c434d053b9751ec96e299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:48 +0000
Subject: [PATCH 35/63] fix: sub-sample small kernels that overlap the right
 and upper pixel edges

---
 swiftsimio/visualisation/projection_backends/subsampled.py    | 4 ++--
 .../visualisation/projection_backends/subsampled_extreme.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled.py b/swiftsimio/visualisation/projection_backends/subsampled.py
index 8285e6b..5a3625a 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled.py
@@ -179,9 +179,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
diff --git a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
index f69f13b..74f3538 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
@@ -180,9 +180,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1.0 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1.0 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
-- 
2.43.0


From a43c1c0cfbc1c1862ec9c941c87ff5b4f1b349c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:48 +0000
Subject: [PATCH 36/63] fix: normalise kernels over all the pixels that they
 cover

---
 .../visualisation/projection_backends/renormalised.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/renormalised.py b/swiftsimio/visualisation/projection_backends/renormalised.py
index 25af4bc..2c68e5c 100644
--- a/swiftsimio/visualisation/projection_backends/renormalised.py
+++ b/swiftsimio/visualisation/projection_backends/renormalised.py
@@ -151,8 +151,8 @@ def scatter(
                     normalisation = np.float32(0.0)
 
                     for cell_x in range(
-                        particle_cell_x - cells_spanned + 1,
-                        particle_cell_x + cells_spanned,
+                        particle_cell_x - cells_spanned,
+                        particle_cell_x + cells_spanned + 1,
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -162,8 +162,8 @@ def scatter(
                         ) * pixel_width - np.float32(x_pos)
                         distance_x_2 = distance_x * distance_x
                         for cell_y in range(
-                            particle_cell_y - cells_spanned + 1,
-                            particle_cell_y + cells_spanned,
+                            particle_cell_y - cells_spanned,
+                            particle_cell_y + cells_spanned + 1,
                         ):
                             distance_y = (
                                 np.float32(cell_y) + 0.5
-- 
2.43.0


From ef32907555710406c7521e132542cfbeb213c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 37/63] fix: let kernels reach the last row and column of cells
 in slices and volume renders

---
 swiftsimio/visualisation/slice_backends/sph.py     |  7 +++++--
 .../volume_render_backends/scatter.py              | 14 ++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/visualisation/slice_backends/sph.py b/swiftsimio/visualisation/slice_backends/sph.py
index 6cc4704..66f1057 100644
--- a/swiftsimio/visualisation/slice_backends/sph.py
+++ b/swiftsimio/visualisation/slice_backends/sph.py
@@ -197,7 +197,9 @@ def slice_scatter(
                         max(0, particle_cell_x - cells_spanned),
                         # Ensure that the highest x value lies within the array bounds,
                         # otherwise we'll segfault (oops).
-                        min(particle_cell_x + cells_spanned, maximal_array_index + 1),
+                        min(
+                            particle_cell_x + cells_spanned + 1, maximal_array_index + 1
+                        ),
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -209,7 +211,8 @@ def slice_scatter(
                         for cell_y in range(
                             max(0, particle_cell_y - cells_spanned),
                             min(
-                                particle_cell_y + cells_spanned, maximal_array_index + 1
+                                particle_cell_y + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             distance_y = (
diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index c7fa88d..1e5d795 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -175,7 +175,8 @@ def scatter(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -188,7 +189,7 @@ def scatter(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -199,7 +200,7 @@ def scatter(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned),
                                     min(
-                                        particle_cell_z + cells_spanned,
+                                        particle_cell_z + cells_spanned + 1,
                                         maximal_array_index + 1,
                                     ),
                                 ):
@@ -401,7 +402,8 @@ def scatter_limited_z(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -414,7 +416,7 @@ def scatter_limited_z(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -425,7 +427,7 @@ def scatter_limited_z(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned_z),
                                     min(
-                                        particle_cell_z + cells_spanned_z,
+                                        particle_cell_z + cells_spanned_z + 1,
                                         maximal_array_index_z + 1,
                                     ),
                                 ):
-- 
2.43.0


From e2e730ad08888ff7469bad7a8703d73577975e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 38/63] fix: do not wrap the coordinates of the dataset in
 place when visualising

---
 swiftsimio/visualisation/_vistools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index fe4a6ff..2766e8a 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -168,7 +168,8 @@ def _get_rotated_and_wrapped_coordinates(
     else:
         coords = data.coordinates
     if periodic:
-        coords %= data.metadata.boxsize.to(comoving=coords.comoving)
+        # not in place: these can be the coordinates loaded by the user
+        coords = coords % data.metadata.boxsize.to(comoving=coords.comoving)
     return coords.T
 
 
-- 
2.43.0


From 95d275d1eb2e093349d8079ce1e0be0e2500333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 39/63] fix: normalise projections of regions that are not
 square

---
 swiftsimio/visualisation/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index 90a3650..a9227f9 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -146,7 +146,7 @@ def project_pixel_grid(
         box_x=region_info["periodic_box_x"],
         box_y=region_info["periodic_box_y"],
     )
-    norm = region_info["x_range"] * region_info["y_range"]
+    norm = region_info["max_range"] ** 2
     backend_func = (backends_parallel if parallel else backends)[backend]
     image = backend_strip_and_restore_cosmo_and_units(backend_func, norm=norm)(**kwargs)
 
-- 
2.43.0


From 638f99a8e85b378ec67463fe5c1e9eea28934ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 40/63] fix: return a rotation for vectors along the axis in
 rotation_matrix_from_vector

---
 swiftsimio/visualisation/rotation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index b655945..38998b1 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -48,10 +48,13 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
     cross_product = cross_product / mod_cross_product
 
     if mod_cross_product <= 1e-6:
-        # This case only covers when we point the vector
-        # in the exact opposite direction (e.g. flip z).
+        # This case only covers when we point the vector along the axis (no rotation)
+        # or in the exact opposite direction (flip e.g. z, and another axis so that
+        # this remains a rotation).
         output = np.identity(3)
-        output[switch[axis], switch[axis]] = -1.0
+        if normed_vector[switch[axis]] < 0:
+            output[switch[axis], switch[axis]] = -1.0
+            output[switch[axis] - 1, switch[axis] - 1] = -1.0
 
         return output
     else:
-- 
2.43.0


From eeba58861a43a63b8968e79251ec003da1fd1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:56 +0000
Subject: [PATCH 41/63] fix: keep particles at the edge of the (folded) box
 inside the deposition grid

---
 swiftsimio/visualisation/power_spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 3460b7c..06125ee 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -89,10 +89,10 @@ def deposit(
         y_pos_scaled = (y_pos % box_over_fold_y) * inv_box_over_fold_y
         z_pos_scaled = (z_pos % box_over_fold_z) * inv_box_over_fold_z
 
-        # Convert to grid position
-        x_pix = np.int32(x_pos_scaled * float_res)
-        y_pix = np.int32(y_pos_scaled * float_res)
-        z_pix = np.int32(z_pos_scaled * float_res)
+        # Convert to grid position, particles at the upper edge can be rounded up to it
+        x_pix = np.int32(x_pos_scaled * float_res) % res
+        y_pix = np.int32(y_pos_scaled * float_res) % res
+        z_pix = np.int32(z_pos_scaled * float_res) % res
 
         # Deposit the mass
         output[x_pix, y_pix, z_pix] += mass * inv_volume_element
-- 
2.43.0


From 96ba75cf16b5d84d21bfe1172bbd207c64a69e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:25 +0000
Subject: [PATCH 42/63] fix: deposit dithered kernels at the positions where
 they were evaluated

---
 swiftsimio/visualisation/projection_backends/subsampled.py    | 4 ++--
 .../visualisation/projection_backends/subsampled_extreme.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled.py b/swiftsimio/visualisation/projection_backends/subsampled.py
index 5a3625a..d2dd7fb 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled.py
@@ -204,7 +204,7 @@ def scatter(
                         # Use pre-calculated kernel with a basic dither to lay down
                         # overlap
                         for x_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                            float_x_dither_cell = np.float64(x_dither_cell)
+                            float_x_dither_cell = np.float64(x_dither_cell) + 0.5
                             pixel_x = np.int32(
                                 np.floor(
                                     float_res
@@ -220,7 +220,7 @@ def scatter(
                                 )
                             )
                             for y_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                                float_y_dither_cell = np.float64(y_dither_cell)
+                                float_y_dither_cell = np.float64(y_dither_cell) + 0.5
                                 pixel_y = np.int32(
                                     np.floor(
                                         float_res
diff --git a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
index 74f3538..2be1de7 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
@@ -205,7 +205,7 @@ def scatter(
                         # Use pre-calculated kernel with a basic dither to lay down
                         # overlap
                         for x_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                            float_x_dither_cell = np.float64(x_dither_cell)
+                            float_x_dither_cell = np.float64(x_dither_cell) + 0.5
                             pixel_x = np.int32(
                                 np.floor(
                                     float_res
@@ -221,7 +221,7 @@ def scatter(
                                 )
                             )
                             for y_dither_cell in range(0, 2 * DITHER_EVALUATIONS):
-                                float_y_dither_cell = np.float64(y_dither_cell)
+                                float_y_dither_cell = np.float64(y_dither_cell) + 0.5
                                 pixel_y = np.int32(
                                     np.floor(
                                         float_res
-- 
2.43.0


From 0b007e3d8f3f024bdbc7aa555e20aa8f384e8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 43/63] fix: read valid_transform and physical flags of fields
 as bool

With numpy booleans the checks for valid_transform being False never
matched, so that products of comoving and physical-only fields raised.
---
 swiftsimio/metadata/field/attr_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/metadata/field/attr_reader.py b/swiftsimio/metadata/field/attr_reader.py
index 8f86ce7..209faf0 100644
--- a/swiftsimio/metadata/field/attr_reader.py
+++ b/swiftsimio/metadata/field/attr_reader.py
@@ -143,7 +143,7 @@ def load_field_physical(field_attributes: h5py.AttributeManager) -> bool:
     bool
         The flag for comoving or physical coordinates.
     """
-    return field_attributes.get("Value stored as physical", [0])[0] == 1
+    return bool(field_attributes.get("Value stored as physical", [0])[0] == 1)
 
 
 def load_field_valid_transform(field_attributes: h5py.AttributeManager) -> bool:
@@ -161,4 +161,6 @@ def load_field_valid_transform(field_attributes: h5py.AttributeManager) -> bool:
         The flag for whether comoving-physical conversion is allowed.
     """
     # defaults to True for backwards compatibility
-    return field_attributes.get("Property can be converted to comoving", [1])[0] == 1
+    return bool(
+        field_attributes.get("Property can be converted to comoving", [1])[0] == 1
+    )
-- 
2.43.0


From aa3a01d20e060ccd4c57e677e742f74812905fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 44/63] fix: tile small periodic boxes in scatter_limited_z as
 in scatter

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 1e5d795..62b22d9 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -329,19 +329,19 @@ def scatter_limited_z(
         xshift_max = 1
     else:
         xshift_min = -1
-        xshift_max = 2
+        xshift_max = int(np.ceil(1 / box_x) + 1)  # tile the box to cover [0, 1]
     if box_y == 0.0:
         yshift_min = 0
         yshift_max = 1
     else:
         yshift_min = -1
-        yshift_max = 2
+        yshift_max = int(np.ceil(1 / box_y) + 1)  # tile the box to cover [0, 1]
     if box_z == 0.0:
         zshift_min = 0
         zshift_max = 1
     else:
         zshift_min = -1
-        zshift_max = 2
+        zshift_max = int(np.ceil(1 / box_z) + 1)  # tile the box to cover [0, 1]
 
     for x_pos_original, y_pos_original, z_pos_original, mass, hsml in zip(
         x, y, z, m, h
-- 
2.43.0


From 481c5befa8df5cd11cb8365b24a3b3c5790bda33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 45/63] fix: size the output of scatter_parallel for flattened
 voxels

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 62b22d9..44f7d18 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -531,7 +531,7 @@ def scatter_parallel(
     number_of_particles = x.size
     core_particles = number_of_particles // NUM_THREADS
 
-    output = np.zeros((res, res, res), dtype=np.float32)
+    output = np.zeros((res, res, res // res_ratio_z), dtype=np.float32)
 
     for thread in prange(NUM_THREADS):
         # Left edge is easy, just start at 0 and go to 'final'
-- 
2.43.0


From a1e35b30d179f59b7e77e48317e1d2f051f874ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 46/63] fix: deposit physical coordinates in a physical box

---
 swiftsimio/visualisation/power_spectrum.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 06125ee..80a9b85 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -235,8 +235,9 @@ def render_to_deposit(
                 "coordinates!"
             )
 
-    # Get the box size
+    # Get the box size in the frame of the positions
     boxsize = data.metadata.boxsize
+    boxsize = boxsize.to_comoving() if positions.comoving else boxsize.to_physical()
 
     if not boxsize.units == positions.units:
         raise AttributeError("Box size and positions have different units!")
@@ -262,10 +263,8 @@ def render_to_deposit(
     comoving = positions.comoving
     coord_cosmo_factor = positions.cosmo_factor
 
-    units = 1.0 / (
-        data.metadata.boxsize[0] * data.metadata.boxsize[1] * data.metadata.boxsize[2]
-    )
-    units.convert_to_units(1.0 / data.metadata.boxsize.units**3)
+    units = 1.0 / (boxsize[0] * boxsize[1] * boxsize[2])
+    units.convert_to_units(1.0 / boxsize.units**3)
 
     units *= quantity.units
     new_cosmo_factor = quantity.cosmo_factor / (coord_cosmo_factor**3)
-- 
2.43.0


From 0287908516a61f4abc61a2fd74db793aeaf4952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 47/63] fix: cosmo_factor of stitched folded power spectra

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 80a9b85..249fe7d 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -385,7 +385,7 @@ def folded_depositions_to_power_spectrum(
         np.zeros(number_of_wavenumber_bins),
         units=box_volume.units,
         comoving=box_volume.comoving,
-        cosmo_factor=box_volume.cosmo_factor**-1,
+        cosmo_factor=box_volume.cosmo_factor,
         name="Power spectrum $P(k)$",
     )
     folding_tracker = np.ones(number_of_wavenumber_bins, dtype=float)
-- 
2.43.0


From 90dd0494c9128fb3415a2aaac82c35d5bef17c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 48/63] fix: allow foldings without modes in the requested
 wavenumber range

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 249fe7d..ee9db68 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -429,7 +429,7 @@ def folded_depositions_to_power_spectrum(
                 2.0**folding * np.min(depositions[folding].shape) / np.min(boxsize)
             )
 
-            if cutoff_above_wavenumber_fraction is not None:
+            if cutoff_above_wavenumber_fraction is not None and np.any(use_bins):
                 maximally_sampled_wavenumber = np.max(
                     folded_wavenumber_centers[use_bins]
                 )
-- 
2.43.0


From 96b75eeb71290c90a89bc097b03410a602655abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 49/63] fix: rotation angle of single-precision vectors close
 to the axis

---
 swiftsimio/visualisation/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index 38998b1..b43113c 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -59,7 +59,7 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
         return output
     else:
         cos_theta = np.dot(original_direction, normed_vector)
-        sin_theta = np.sin(np.arccos(cos_theta))
+        sin_theta = mod_cross_product
 
         # Skew symmetric matrix for cross product
         A = np.array(
-- 
2.43.0


From 68ffded29ce3c06da5fcb8cdf075ae9923176122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 50/63] fix: generate smoothing lengths in the box of the frame
 of the coordinates

---
 swiftsimio/visualisation/smoothing_length/generate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 375709c..2c2f78d 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -61,6 +61,11 @@ def generate_smoothing_lengths(
 
     number_of_parts = coordinates.shape[0]
 
+    # The box in the frame of the coordinates
+    comoving = getattr(coordinates, "comoving", None)
+    if comoving is not None:
+        boxsize = boxsize.to_comoving() if comoving else boxsize.to_physical()
+
     tree = KDTree(
         coordinates.to_value(coordinates.units),
         boxsize=boxsize.to_value(coordinates.units),
-- 
2.43.0


From 62b02cb80713b9fbe94ec8120639c2a200763d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 51/63] fix: apply two-dimensional colour maps to lists

---
 swiftsimio/visualisation/tools/cmaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index a65f2a0..7ef9f12 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -195,7 +195,7 @@ class Cmap2D(object):
             horizontal_values = np.array(horizontal_values)
 
         if isinstance(vertical_values, list) or isinstance(vertical_values, tuple):
-            vertical_values = np.ndarray(vertical_values)
+            vertical_values = np.array(vertical_values)
 
         output_shape = horizontal_values.shape + (4,)
 
-- 
2.43.0


From 3417dff10c213b885b2c798e58e6ec5ef259e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 52/63] fix: colour maps from images without an alpha channel

---
 swiftsimio/visualisation/tools/cmaps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index 7ef9f12..177c347 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -420,7 +420,8 @@ class ImageCmap2D(Cmap2D):
             )
 
         self._color_map_grid = (
-            np.array(Image.open(self.filename)).astype(np.float32) / 255.0
+            np.array(Image.open(self.filename).convert("RGBA")).astype(np.float32)
+            / 255.0
         )
 
         return
-- 
2.43.0


From 42624b90ce868bfbd11850adb567de9e2be728de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 53/63] fix: output shape of render_voxels_to_array for renders
 that are not cubes

---
 swiftsimio/visualisation/volume_render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render.py b/swiftsimio/visualisation/volume_render.py
index 3e061cc..f7f58cc 100644
--- a/swiftsimio/visualisation/volume_render.py
+++ b/swiftsimio/visualisation/volume_render.py
@@ -245,7 +245,7 @@ def render_voxels_to_array(data: np.array, center: float, width: float) -> np.ar
     np.ndarray
         The 2D image array.
     """
-    output = np.zeros((data.shape[0], data.shape[1]))
+    output = np.zeros((data.shape[1], data.shape[0]))
 
     for i in range(data.shape[0]):
         for j in range(data.shape[1]):
-- 
2.43.0


From 3b2902b913c65bc955b88defeb0dcf58e8f22c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 54/63] fix: read columns of statistics files whose first value
 looks like an integer

---
 swiftsimio/accelerated.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 8a34adf..7996837 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -563,11 +563,14 @@ def list_of_strings_to_arrays(lines: list[str]) -> np.array:
     dtypes = []
     number_of_lines = len(lines)
 
-    for item in lines[0].split():
-        if "." in item or "e" in item:
-            dtype = np.float64
-        else:
+    for column in range(len(lines[0].split())):
+        # Any value that is not an integer (including nan and inf) makes this a column of
+        # floating point numbers.
+        items = (item for line in lines for item in line.split()[column : column + 1])
+        if all(item.lstrip("+-").isdigit() for item in items):
             dtype = np.int64
+        else:
+            dtype = np.float64
 
         dtypes.append(dtype)
 
-- 
2.43.0


From b7b2386d1435cd6b2fcc0cf41afd4dc47549d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 55/63] fix: description of fields loaded without a mask

Without a mask every field was named '<description> [Column None, <field>]', unlike
the same field loaded through a mask; named columns loaded through a mask lacked
their column.
---
 swiftsimio/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 07941a5..26c7b75 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -131,6 +131,8 @@ def _generate_getter(
                     unit = _load_field_units(attributes, self.metadata.units)
                     cf = _load_field_cosmo_factor(attributes, self.metadata)
                     description = _load_field_description(attributes)
+                    if use_columns:
+                        description += f" [Column {column_index}, {name}]"
                     compression = _load_field_compression(attributes)
                     physical = _load_field_physical(attributes)
                     valid_transform = _load_field_valid_transform(attributes)
@@ -174,7 +176,7 @@ def _generate_getter(
                                 ),
                                 unit,
                                 cosmo_factor=cf,
-                                name=f"{description} [Column {column_index}, {name}]",
+                                name=description,
                                 compression=compression,
                                 comoving=not physical,
                                 valid_transform=valid_transform,
-- 
2.43.0


From 3b39431b5edb99163822772775706727870849b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 56/63] fix: results of numpy functions given an out array in
 another frame

---
 swiftsimio/_array_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 30876eb..0419557 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -898,6 +898,9 @@ def _prepare_array_func_args(
     ValueError
         If the input arrays cannot be coerced to a consistent state of ``comoving``.
     """
+    # ``out`` is only written to: it must be the user's array (not a converted copy), and
+    # what it held so far has no influence on the result
+    out_kwarg = {"out": kwargs.pop("out")} if "out" in kwargs else {}
     cms = [(hasattr(arg, "comoving"), getattr(arg, "comoving", None)) for arg in args]
     cfs = [getattr(arg, "cosmo_factor", None) for arg in args]
     vts = [getattr(arg, "valid_transform", True) for arg in args]
@@ -969,7 +972,7 @@ def _prepare_array_func_args(
         ret_comp = None
     return {
         "args": args,
-        "kwargs": kwargs,
+        "kwargs": {**kwargs, **out_kwarg},
         "cfs": cfs,
         "kw_cfs": kw_cfs,
         "comoving": ret_cm,
-- 
2.43.0


From 5255dfc1ccfc443c01758725fbaa5b074e59cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 57/63] fix: frame of sum, max and min with an initial value in
 another frame

---
 swiftsimio/_array_functions.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 0419557..def8468 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -288,9 +288,7 @@ def _ensure_result_is_cosmo_array_or_quantity(func: Callable) -> Callable:
         The wrapped function.
     """
 
-    def wrapped(
-        *args: tuple[Any], **kwargs: dict[str, Any]
-    ) -> object:  # # noqa numpydoc ignore=GL08
+    def wrapped(*args: tuple[Any], **kwargs: dict[str, Any]) -> object:  # # noqa numpydoc ignore=GL08
         # omit docstring so that sphinx picks up docstring of wrapped function
         result = func(*args, **kwargs)
         if isinstance(result, tuple):
@@ -1331,6 +1329,8 @@ implements(np.linalg.tensorinv)(
 implements(np.linalg.pinv)(
     _default_unary_wrapper(unyt_linalg_pinv, _reciprocal_cosmo_factor)
 )
+
+
 @implements(np.linalg.svd)
 def linalg_svd(  # noqa: ANN202
     a,  # noqa: ANN001
@@ -1350,8 +1350,6 @@ def linalg_svd(  # noqa: ANN202
     return _return_helper(res, helper_result, ret_cf)
 
 
-
-
 @implements(np.histogram)
 def histogram(  # noqa: ANN202
     a,  # noqa: ANN001
@@ -2096,9 +2094,7 @@ def digitize(x, bins, right=False):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(x, bins, right=right)
     _return_without_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # not handled explicitly by old versions of unyt
-    unyt_digitize = UNYT_HANDLED_FUNCTIONS.get(
-        np.digitize, np.digitize._implementation
-    )
+    unyt_digitize = UNYT_HANDLED_FUNCTIONS.get(np.digitize, np.digitize._implementation)
     return unyt_digitize(*helper_result["args"], **helper_result["kwargs"])
 
 
@@ -2327,8 +2323,12 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
         return _return_helper(res, helper_result, ret_cf_avg)
 
 
-implements(np.max)(_propagate_cosmo_array_attributes_to_result(np.max._implementation))
-implements(np.min)(_propagate_cosmo_array_attributes_to_result(np.min._implementation))
+implements(np.max)(
+    _default_unary_wrapper(np.max._implementation, _preserve_cosmo_factor)
+)
+implements(np.min)(
+    _default_unary_wrapper(np.min._implementation, _preserve_cosmo_factor)
+)
 implements(np.mean)(
     _propagate_cosmo_array_attributes_to_result(np.mean._implementation)
 )
@@ -2338,7 +2338,9 @@ implements(np.median)(
 implements(np.sort)(
     _propagate_cosmo_array_attributes_to_result(np.sort._implementation)
 )
-implements(np.sum)(_propagate_cosmo_array_attributes_to_result(np.sum._implementation))
+implements(np.sum)(
+    _default_unary_wrapper(np.sum._implementation, _preserve_cosmo_factor)
+)
 implements(np.partition)(
     _propagate_cosmo_array_attributes_to_result(np.partition._implementation)
 )
-- 
2.43.0


From adfa56ab0a622f5d1f905db1e583ef5241f9fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 58/63] fix: frame of an out array given to concatenate, stack
 and similar

---
 swiftsimio/_array_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index def8468..182132b 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1271,7 +1271,9 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
             *helper_result["args"][1:],
             **helper_result["kwargs"],
         )
-        return _return_helper(res, helper_result_oplist, ret_cf)
+        return _return_helper(
+            res, helper_result_oplist, ret_cf, out=kwargs.get("out")
+        )
 
     return wrapper
 
-- 
2.43.0


From 4b0ea6e8712d6b5f48e569af8a9b6fa52b56897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 59/63] fix: read ranges of chunked half precision datasets

numba does not support float16, so that fields compressed to half precision could
not be loaded through a mask.
---
 swiftsimio/accelerated.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 7996837..b677d4d 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -421,7 +421,13 @@ def read_ranges_from_file_chunked(
     to_native_byteorder_inplace(output)
 
     if handle.chunks is not None:
-        output = extract_ranges_from_chunks(output, chunk_ranges, ranges)
+        # numba does not support half precision, but here the values are only copied
+        half = output.dtype == np.float16
+        output = extract_ranges_from_chunks(
+            output.view(np.uint16) if half else output, chunk_ranges, ranges
+        )
+        if half:
+            output = output.view(np.float16)
 
     return output
 
-- 
2.43.0


From 212f7e8efd8dd1dabd1d7b4668e1db21be332010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 60/63] fix: ranges and edges of histograms given in another
 frame

The two ends of a range were compared with the data without regard to their
frame, edges and ranges of histogramdd(density=True) likewise, ranges of
histogram2d and histogramdd could not be given at all, and the units of
histogram_bin_edges with a range were squared.
---
 swiftsimio/_array_functions.py | 116 +++++++++++++++++++++++----------
 1 file changed, 80 insertions(+), 36 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 182132b..72497a7 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1304,6 +1304,54 @@ implements(np.outer)(_default_binary_wrapper(unyt_outer, _multiply_cosmo_factor)
 implements(np.kron)(_default_binary_wrapper(unyt_kron, _multiply_cosmo_factor))
 
 
+def _histogram_range(
+    limits: "tuple[unyt_quantity] | unyt_array | None",
+) -> "tuple | unyt_array | None":
+    """
+    Gather the two ends of a histogram range into a single array.
+
+    The ends can then be coerced to the state of the other arguments together.
+
+    Parameters
+    ----------
+    limits : tuple or ~unyt.array.unyt_array, optional
+        The ``range`` of one dimension of a histogram.
+
+    Returns
+    -------
+    tuple or ~unyt.array.unyt_array, optional
+        The limits as a single array if they have units, otherwise the limits unchanged.
+    """
+    if limits is None or hasattr(limits, "units"):
+        return limits
+    if not all(isinstance(limit, objects.cosmo_array) for limit in limits):
+        return limits
+    if all(limit.valid_transform for limit in limits):
+        return objects.cosmo_array(list(limits))
+    return objects.cosmo_array(
+        [limit.to_physical() for limit in limits], valid_transform=False
+    )
+
+
+def _flatten_ranges(ranges: list) -> list | None:
+    """
+    Flatten the ranges for each dimension into the layout that :mod:`unyt` expects.
+
+    Parameters
+    ----------
+    ranges : list
+        The lower and upper limit for each dimension.
+
+    Returns
+    -------
+    list, optional
+        The lower and upper limits one after another, or ``None`` if there are none.
+    """
+    if all(limits is None for limits in ranges):
+        return None
+    return [limit for limits in ranges for limit in limits]
+
+
 @implements(np.histogram_bin_edges)
 def histogram_bin_edges(  # noqa: ANN202
     a,  # noqa: ANN001
@@ -1311,7 +1359,14 @@ def histogram_bin_edges(  # noqa: ANN202
     range=None,  # noqa: ANN001
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, bins=bins, range=range, weights=weights)
+    helper_result = _prepare_array_func_args(
+        a, bins=bins, range=_histogram_range(range), weights=weights
+    )
+    if hasattr(helper_result["kwargs"]["range"], "units"):
+        # unyt attaches the units of the input to the edges
+        helper_result["kwargs"]["range"] = helper_result["kwargs"]["range"].to_value(
+            helper_result["args"][0].units
+        )
     if not isinstance(bins, str) and np.ndim(bins) == 1:
         # we got bin edges as input
         ret_cf = _preserve_cosmo_factor(helper_result["kw_cfs"]["bins"])
@@ -1361,7 +1416,11 @@ def histogram(  # noqa: ANN202
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(
-        a, bins=bins, range=range, density=density, weights=weights
+        a,
+        bins=bins,
+        range=_histogram_range(range),
+        density=density,
+        weights=weights,
     )
     ret_cf_bins = _preserve_cosmo_factor(helper_result["cfs"][0])
     ret_cf_dens = _reciprocal_cosmo_factor(helper_result["cfs"][0])
@@ -1392,7 +1451,7 @@ def histogram2d(  # noqa: ANN202
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
     if range is not None:
-        xrange, yrange = range
+        xrange, yrange = (_histogram_range(limits) for limits in range)
     else:
         xrange, yrange = None, None
 
@@ -1410,15 +1469,9 @@ def histogram2d(  # noqa: ANN202
         helper_result_w = _prepare_array_func_args(weights=weights)
         ret_cf_x = _preserve_cosmo_factor(helper_result_x["cfs"][0])
         ret_cf_y = _preserve_cosmo_factor(helper_result_y["cfs"][0])
-        if (helper_result_x["kwargs"]["range"] is None) and (
-            helper_result_y["kwargs"]["range"] is None
-        ):
-            safe_range = None
-        else:
-            safe_range = (
-                helper_result_x["kwargs"]["range"],
-                helper_result_y["kwargs"]["range"],
-            )
+        safe_range = _flatten_ranges(
+            [helper_result_x["kwargs"]["range"], helper_result_y["kwargs"]["range"]]
+        )
         counts, xbins, ybins = unyt_histogram2d(
             helper_result_x["args"][0],
             helper_result_y["args"][0],
@@ -1453,15 +1506,9 @@ def histogram2d(  # noqa: ANN202
         helper_result_x = helper_result_y = helper_result
         ret_cf_x = _preserve_cosmo_factor(helper_result["cfs"][0])
         ret_cf_y = _preserve_cosmo_factor(helper_result["cfs"][1])
-        if (helper_result["kwargs"]["xrange"] is None) and (
-            helper_result["kwargs"]["yrange"] is None
-        ):
-            safe_range = None
-        else:
-            safe_range = (
-                helper_result["kwargs"]["xrange"],
-                helper_result["kwargs"]["yrange"],
-            )
+        safe_range = _flatten_ranges(
+            [helper_result["kwargs"]["xrange"], helper_result["kwargs"]["yrange"]]
+        )
         counts, xbins, ybins = unyt_histogram2d(
             helper_result["args"][0],
             helper_result["args"][1],
@@ -1502,7 +1549,7 @@ def histogramdd(  # noqa: ANN202
 ):  # noqa numpydoc ignore=GL08
     D = len(sample)
     if range is not None:
-        ranges = range
+        ranges = [_histogram_range(limits) for limits in range]
     else:
         ranges = D * [None]
 
@@ -1521,17 +1568,9 @@ def histogramdd(  # noqa: ANN202
             _preserve_cosmo_factor(helper_result["cfs"][0])
             for helper_result in helper_results
         ]
-        if all(
-            [
-                helper_result["kwargs"]["range"] is None
-                for helper_result in helper_results
-            ]
-        ):
-            safe_range = None
-        else:
-            safe_range = [
-                helper_result["kwargs"]["range"] for helper_result in helper_results
-            ]
+        safe_range = _flatten_ranges(
+            [helper_result["kwargs"]["range"] for helper_result in helper_results]
+        )
         counts, bins = unyt_histogramdd(
             [helper_result["args"][0] for helper_result in helper_results],
             bins=[helper_result["kwargs"]["bins"] for helper_result in helper_results],
@@ -1551,15 +1590,20 @@ def histogramdd(  # noqa: ANN202
         # now sample and weights must be compatible because they will combine
         # we unpack input to the helper to get everything checked for compatibility
         helper_result = _prepare_array_func_args(
-            *sample, bins=bins, range=range, weights=weights
+            *sample,
+            weights=weights,
+            **{f"bins{i}": b for i, b in enumerate(bins)},
+            **{f"range{i}": r for i, r in enumerate(ranges)},
         )
         # the bins are returned in the frame that all the input was converted to
         helper_results = D * [helper_result]
         ret_cfs = [_preserve_cosmo_factor(cf) for cf in helper_result["cfs"]]
         counts, bins = unyt_histogramdd(
             helper_result["args"],
-            bins=helper_result["kwargs"]["bins"],
-            range=helper_result["kwargs"]["range"],
+            bins=[helper_result["kwargs"][f"bins{i}"] for i in np.arange(D)],
+            range=_flatten_ranges(
+                [helper_result["kwargs"][f"range{i}"] for i in np.arange(D)]
+            ),
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
-- 
2.43.0


From 7a4860c583362b95fae3324e6b20264637f124ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 61/63] fix: cosmo_factor of powers with array or cosmology
 exponents

---
 swiftsimio/_array_functions.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 72497a7..9beb8f1 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -509,7 +509,8 @@ def _power_cosmo_factor(
     ------
     ValueError
         If the exponent is not a dimensionless quantity, or the exponent has a
-        ``cosmo_factor`` whose scaling with scale factor is not ``1.0``.
+        ``cosmo_factor`` whose scaling with scale factor is not ``1.0``, or an array of
+        exponents would give every element a different scaling with scale factor.
     """
     if (inputs is not None and power is not None) or (inputs is None and power is None):
         raise ValueError
@@ -524,8 +525,15 @@ def _power_cosmo_factor(
     if (exp_afactor is not None) and (exp_afactor != 1.0):
         raise ValueError("Exponent has scaling with scale factor != 1.")
     if cf1 is None:
-        return None
-    return np.power(cf1, power)
+        if cf2 is None:
+            return None
+        return objects.cosmo_factor(objects.a**0, scale_factor=cf2.scale_factor)
+    if np.ndim(power) == 0:
+        return np.power(cf1, power)
+    ret_cfs = [cf1**p for p in np.unique(np.asarray(power)).tolist()]
+    if any(ret_cf != ret_cfs[0] for ret_cf in ret_cfs):
+        raise ValueError("Exponents differ, results would differ in cosmo_factor.")
+    return ret_cfs[0] if ret_cfs else cf1
 
 
 def _square_cosmo_factor(
@@ -1841,6 +1849,13 @@ def logspace(  # noqa: ANN202
         start, stop, num=num, endpoint=endpoint, base=base, dtype=dtype, axis=axis
     )
     ret_cf = _preserve_cosmo_factor(helper_result["kw_cfs"]["base"])
+    if ret_cf is None:
+        # a number without scaling raised to a power
+        for cf in helper_result["cfs"]:
+            if cf is not None:
+                ret_cf = objects.cosmo_factor(
+                    objects.a**0, scale_factor=cf.scale_factor
+                )
     res = unyt_logspace(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
-- 
2.43.0


From efecc01d4adc8e2d3e6c38273dab2041caed96a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 62/63] fix: scale-factor exponents of computed fields in
 written files

---
 swiftsimio/snapshot_writer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index e3e6f33..f611299 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -6,7 +6,7 @@ import numpy as np
 from warnings import warn
 
 from typing import Callable
-from sympy import Symbol
+from sympy import Symbol, powdenest
 from functools import reduce
 
 from swiftsimio import metadata
@@ -272,7 +272,12 @@ class __SWIFTWriterParticleDataset(object):
                 "U_T exponent": [dim_exponents[temperature]],
                 "U_t exponent": [dim_exponents[time]],
                 "a-scale exponent": [
-                    float(field.cosmo_factor.expr.as_coeff_exponent(a)[1])
+                    # the expression can be nested e.g. (a**3)**0.5, a is positive
+                    float(
+                        powdenest(
+                            field.cosmo_factor.expr, force=True
+                        ).as_coeff_exponent(a)[1]
+                    )
                 ],
                 "h-scale exponent": [0.0],
             }
-- 
2.43.0


From 6113af18645d3bb0c81d507438ff89390ce2597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 63/63] fix: subsets of two-dimensional datasets with a single
 column

The extent of such datasets was taken from the size of their first row,
so that a one-dimensional dataset was made for two-dimensional data and
write_subset raised.
---
 swiftsimio/subset_writer.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index fa05439..8c0ccc5 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -356,14 +356,10 @@ def _write_datasubset(
                     infile.copy(name, outfile, name=name)
                 continue
 
-            # get output dtype and size
-            first_value = infile[name][0]
-            output_type = first_value.dtype
-            output_size = first_value.size
+            # get output dtype and shape
+            output_type = infile[name][0].dtype
             mask_size = _get_dataset_size(mask, name)
-            output_shape = (
-                (mask_size, output_size) if output_size != 1 else (mask_size,)
-            )
+            output_shape = (mask_size, *infile[name].shape[1:])
 
             if (dataset_mask := _get_dataset_mask(mask, name)) is None:
                 raise RuntimeError(f"Could not find mask for dataset `{name}`.")
-- 
2.43.0

