From a59f7c2323d32ede6dddd68729c93c89bb742ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:41 +0000
Subject: [PATCH 01/51] fix: slicing and core sub-array extraction of
 negatively strided views used the wrong (unsigned) byte offset

---
 src/array/views.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index abc7479..129cb5a 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 impl RumpyArray {
     /// Create a view with new offset, shape, and strides, sharing the buffer.
-    pub fn view_with(&self, offset_delta: usize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
+    pub fn view_with(&self, offset_delta: isize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
         let mut flags = ArrayFlags::WRITEABLE;
         if is_c_contiguous(&shape, &strides, self.dtype.itemsize()) {
             flags |= ArrayFlags::C_CONTIGUOUS;
@@ -17,7 +17,7 @@ impl RumpyArray {
 
         Self {
             buffer: Arc::clone(&self.buffer),
-            offset: self.offset + offset_delta,
+            offset: (self.offset as isize + offset_delta) as usize,
             shape,
             strides,
             dtype: self.dtype.clone(),
@@ -68,9 +68,9 @@ impl RumpyArray {
         };
         let new_len = new_len.max(0) as usize;
 
-        // Compute offset delta (bytes to skip to reach start element)
+        // Compute offset delta (signed bytes to reach the start element; strides may be negative)
         let old_stride = self.strides[axis];
-        let offset_delta = (start as usize) * (old_stride.unsigned_abs());
+        let offset_delta = if new_len == 0 { 0 } else { start * old_stride };
 
         // New stride = old_stride * step
         let mut new_strides = self.strides.clone();
@@ -250,12 +250,12 @@ impl RumpyArray {
         // Handle case where we're extracting a scalar (empty core dims)
         if core_shape.is_empty() {
             return self.view_with(
-                offset_delta.max(0) as usize,
+                offset_delta,
                 vec![1],
                 vec![self.itemsize() as isize],
             );
         }
 
-        self.view_with(offset_delta.max(0) as usize, core_shape, core_strides)
+        self.view_with(offset_delta, core_shape, core_strides)
     }
 }
-- 
2.43.0


From 420e07fa7d10d4e43372fa4a769f691dd4adbb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 02/51] fix: tolist and scalar access returned 0.0 for complex,
 floats for bool, and lossy values for large uint64

---
 src/ops/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 5976f7e..23d8c6b 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -49,7 +49,7 @@ pub use numerical::{gradient, gradient_with_coords, trapezoid, interp, correlate
 pub use array_methods::lexsort;
 pub use special::{sinc, i0, spacing, modf, frexp, ldexp, heaviside, gcd, lcm};
 
-use crate::array::{broadcast_shapes, increment_indices, promote_dtype, DType, RumpyArray};
+use crate::array::{broadcast_shapes, increment_indices, promote_dtype, DType, DTypeKind, RumpyArray};
 use crate::array::dtype::UnaryOp;
 use std::sync::Arc;
 
@@ -288,6 +288,21 @@ impl RumpyArray {
                 let ptr = arr.data_ptr();
                 let dtype = arr.dtype();
                 let ops = dtype.ops();
+                match dtype.kind() {
+                    DTypeKind::Bool => {
+                        let val = unsafe { ops.is_truthy(ptr, offset) };
+                        return Ok(pyo3::types::PyBool::new(py, val).to_owned().into_any().unbind());
+                    }
+                    DTypeKind::Uint64 => {
+                        let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0) as u64;
+                        return Ok(val.into_pyobject(py)?.into_any().unbind());
+                    }
+                    DTypeKind::Complex64 | DTypeKind::Complex128 => {
+                        let (re, im) = unsafe { ops.read_complex(ptr, offset) }.unwrap_or((0.0, 0.0));
+                        return Ok(pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind());
+                    }
+                    _ => {}
+                }
                 if use_int {
                     let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
                     return Ok(val.into_pyobject(py)?.into_any().unbind());
-- 
2.43.0


From 8605c6fe0ac0e4e111c656510c6d5cf5b7c5ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 03/51] fix: out-of-range integer indices wrapped or panicked
 instead of raising IndexError; assignment did not broadcast and lost
 precision

---
 src/python/pyarray/dunder_item.rs | 178 ++++--------------------------
 src/python/pyarray/mod.rs         | 176 +++++++++++++++--------------
 2 files changed, 119 insertions(+), 235 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index d374e11..31f8cca 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -3,10 +3,7 @@
 use pyo3::prelude::*;
 use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
 
-use super::{
-    expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice,
-    IndexItem, PyRumpyArray,
-};
+use super::{apply_index_items, expand_ellipsis, fill_view, IndexItem, PyRumpyArray};
 use crate::array::RumpyArray;
 
 #[pymethods]
@@ -89,66 +86,13 @@ impl PyRumpyArray {
             // Pre-process: expand ellipsis and parse all items
             let items = expand_ellipsis(tuple, self.inner.ndim())?;
 
-            // Fast path: all integers and matches ndim -> scalar access
+            let result = apply_index_items(&self.inner, &items)?;
+
+            // All integers and matches ndim -> scalar access
             if items.len() == self.inner.ndim()
                 && items.iter().all(|i| matches!(i, IndexItem::Int(_)))
             {
-                let indices: Vec<usize> = items
-                    .iter()
-                    .enumerate()
-                    .map(|(axis, item)| {
-                        if let IndexItem::Int(idx) = item {
-                            normalize_index(*idx, self.inner.shape()[axis])
-                        } else {
-                            unreachable!()
-                        }
-                    })
-                    .collect();
-                let val = self.inner.get_element(&indices);
-                return Ok(val.into_pyobject(py)?.into_any().unbind());
-            }
-
-            // Process indices, tracking which axes had integer indices (to squeeze)
-            let mut result = self.inner.clone();
-            let mut axis = 0usize;
-            let mut squeeze_axes: Vec<usize> = Vec::new();
-
-            for item in items.iter() {
-                match item {
-                    IndexItem::NewAxis => {
-                        result = result.expand_dims(axis).ok_or_else(|| {
-                            pyo3::exceptions::PyIndexError::new_err("cannot expand dims")
-                        })?;
-                        axis += 1;
-                    }
-                    IndexItem::Int(idx) => {
-                        if axis >= result.ndim() {
-                            return Err(pyo3::exceptions::PyIndexError::new_err(
-                                "too many indices for array",
-                            ));
-                        }
-                        let idx = normalize_index(*idx, result.shape()[axis]);
-                        result = result.slice_axis(axis, idx as isize, idx as isize + 1, 1);
-                        squeeze_axes.push(axis);
-                        axis += 1;
-                    }
-                    IndexItem::Slice(start, stop, step) => {
-                        if axis >= result.ndim() {
-                            return Err(pyo3::exceptions::PyIndexError::new_err(
-                                "too many indices for array",
-                            ));
-                        }
-                        let len = result.shape()[axis] as isize;
-                        let (norm_start, norm_stop) = normalize_slice(*start, *stop, *step, len);
-                        result = result.slice_axis(axis, norm_start, norm_stop, *step);
-                        axis += 1;
-                    }
-                }
-            }
-
-            // Squeeze out axes that had integer indices (in reverse order to preserve indices)
-            for &ax in squeeze_axes.iter().rev() {
-                result = result.squeeze_axis(ax);
+                return result.to_pylist(py);
             }
 
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
@@ -156,16 +100,13 @@ impl PyRumpyArray {
 
         // Handle single integer index
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
-            let result = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
-            let result = result.squeeze_axis(0);
+            let result = apply_index_items(&self.inner, &[IndexItem::Int(idx)])?;
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
-            let result = self.inner.slice_axis(0, start, stop, step);
+            let result = apply_index_items(&self.inner, &[IndexItem::Slice(slice.clone())])?;
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
 
@@ -176,94 +117,21 @@ impl PyRumpyArray {
 
     /// Item assignment (slice or element).
     fn __setitem__(&mut self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
-        // Extract value as scalar or array
-        let value_scalar = value.extract::<f64>().ok();
-        let value_array = value.extract::<PyRef<'_, PyRumpyArray>>().ok();
-
-        // Handle tuple for multi-dimensional indexing
-        if let Ok(tuple) = key.downcast::<PyTuple>() {
-            // Check if all indices are integers (single element assignment)
-            let all_ints = tuple.iter().all(|item| item.extract::<isize>().is_ok());
-
-            if all_ints && tuple.len() == self.inner.ndim() {
-                // Single element assignment
-                let indices: Vec<usize> = tuple
-                    .iter()
-                    .enumerate()
-                    .map(|(axis, item)| {
-                        let idx: isize = item.extract().unwrap();
-                        normalize_index(idx, self.inner.shape()[axis])
-                    })
-                    .collect();
-
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&indices, scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
-                }
-            }
-
-            // Slice assignment - get view and fill
-            let mut view = self.inner.clone();
-            let mut axis = 0usize;
-
-            for item in tuple.iter() {
-                if axis >= view.ndim() {
-                    return Err(pyo3::exceptions::PyIndexError::new_err(
-                        "too many indices for array",
-                    ));
-                }
-                if let Ok(idx) = item.extract::<isize>() {
-                    let idx = normalize_index(idx, view.shape()[axis]);
-                    view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
-                    axis += 1;
-                } else if let Ok(slice) = item.downcast::<PySlice>() {
-                    let (start, stop, step) = extract_slice_indices(slice, view.shape()[axis])?;
-                    view = view.slice_axis(axis, start, stop, step);
-                    axis += 1;
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "indices must be integers or slices",
-                    ));
-                }
-            }
-
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
-        }
-
-        // Handle single integer index (row assignment for 2D+, or single element for 1D)
-        if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
-
-            if self.inner.ndim() == 1 {
-                // Single element in 1D array
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&[idx], scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
-                }
-            } else {
-                // Row/slice assignment
-                let mut view = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
-                return fill_view(&mut view, value_scalar, value_array.as_deref());
-            }
-        }
-
-        // Handle single slice
-        if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
-            let mut view = self.inner.slice_axis(0, start, stop, step);
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
-        }
-
-        Err(pyo3::exceptions::PyTypeError::new_err(
-            "indices must be integers or slices",
-        ))
+        let items = if let Ok(tuple) = key.downcast::<PyTuple>() {
+            expand_ellipsis(tuple, self.inner.ndim())?
+        } else if key.extract::<isize>().is_ok()
+            || key.downcast::<PySlice>().is_ok()
+            || key.downcast::<PyEllipsis>().is_ok()
+        {
+            let tuple = PyTuple::new(key.py(), [key])?;
+            expand_ellipsis(&tuple, self.inner.ndim())?
+        } else {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "indices must be integers or slices",
+            ));
+        };
+
+        let mut view = apply_index_items(&self.inner, &items)?;
+        fill_view(&mut view, value)
     }
 }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1cbc113..d7f834f 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -978,13 +978,16 @@ fn extract_slice_indices(
     Ok((indices.start, indices.stop, indices.step))
 }
 
-/// Normalize a negative index to positive.
-fn normalize_index(idx: isize, len: usize) -> usize {
-    if idx < 0 {
-        (len as isize + idx) as usize
-    } else {
-        idx as usize
-    }
+/// Normalize a possibly negative index, rejecting out-of-bounds values.
+fn normalize_index(idx: isize, len: usize) -> PyResult<usize> {
+    let normalized = if idx < 0 { idx + len as isize } else { idx };
+    if normalized < 0 || normalized >= len as isize {
+        return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+            "index {} is out of bounds for axis with size {}",
+            idx, len
+        )));
+    }
+    Ok(normalized as usize)
 }
 
 /// Resolve a potentially negative axis to a positive index.
@@ -1035,37 +1038,18 @@ fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
     }
 }
 
-/// Normalize slice start/stop values with proper defaults and clamping.
-fn normalize_slice(start: isize, stop: isize, step: isize, len: isize) -> (isize, isize) {
-    let (default_start, default_stop) = if step > 0 {
-        (0, len)
-    } else {
-        (len - 1, -len - 1)
-    };
-
-    // Apply defaults for sentinel values
-    let start = if start == isize::MIN { default_start } else { start };
-    let stop = if stop == isize::MAX { default_stop } else { stop };
-
-    // Normalize negative indices
-    let start = if start < 0 { (start + len).max(0) } else { start.min(len) };
-    let stop = if stop < 0 { (stop + len).max(-1) } else { stop.min(len) };
-
-    (start, stop)
-}
-
 /// Represents an indexing item after ellipsis expansion.
-#[derive(Clone, Debug)]
-enum IndexItem {
+enum IndexItem<'py> {
     NewAxis,
     Int(isize),
-    Slice(isize, isize, isize), // start, stop, step
+    Slice(Bound<'py, PySlice>),
+    FullSlice,
 }
 
 /// Expand ellipsis in a tuple of indices.
 /// Returns a Vec of IndexItem representing each axis operation.
-fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<IndexItem>> {
-    let mut items: Vec<IndexItem> = Vec::new();
+fn expand_ellipsis<'py>(tuple: &Bound<'py, PyTuple>, ndim: usize) -> PyResult<Vec<IndexItem<'py>>> {
+    let mut items: Vec<IndexItem<'py>> = Vec::new();
     let mut ellipsis_pos: Option<usize> = None;
     let mut explicit_axis_count = 0usize;
 
@@ -1102,29 +1086,15 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
         if item.downcast::<PyEllipsis>().is_ok() {
             // Expand ellipsis to full slices
             for _ in 0..ellipsis_axes {
-                items.push(IndexItem::Slice(0, isize::MAX, 1)); // Will be clipped by slice_axis
+                items.push(IndexItem::FullSlice);
             }
         } else if item.is_none() {
             items.push(IndexItem::NewAxis);
         } else if let Ok(idx) = item.extract::<isize>() {
             items.push(IndexItem::Int(idx));
         } else if let Ok(slice) = item.downcast::<PySlice>() {
-            // We'll extract proper indices later when we know the axis size
-            // For now, store special marker values
-            let start = slice.getattr("start").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() });
-            let stop = slice.getattr("stop").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() });
-            let step = slice.getattr("step").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() })
-                .unwrap_or(1);
-
-            // Use sentinel values that will be processed during application
-            items.push(IndexItem::Slice(
-                start.unwrap_or(isize::MIN),
-                stop.unwrap_or(isize::MAX),
-                step
-            ));
+            // Resolved against the axis length when applied
+            items.push(IndexItem::Slice(slice.clone()));
         } else {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "indices must be integers, slices, ellipsis, or None",
@@ -1135,43 +1105,89 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
     Ok(items)
 }
 
-/// Fill a view with a scalar or array value.
-fn fill_view(
-    view: &mut RumpyArray,
-    scalar: Option<f64>,
-    array: Option<&PyRumpyArray>,
-) -> PyResult<()> {
-    use crate::array::increment_indices;
-
-    if let Some(val) = scalar {
-        // Fill with scalar
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
-        }
-        Ok(())
-    } else if let Some(src) = array {
-        // Copy from array (shapes must match)
-        if view.shape() != src.inner.shape() {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "could not broadcast input array to shape",
+/// Apply basic-indexing items to an array, returning a view.
+/// Axes indexed by integers are dropped.
+fn apply_index_items(arr: &RumpyArray, items: &[IndexItem<'_>]) -> PyResult<RumpyArray> {
+    let mut result = arr.clone();
+    let mut axis = 0usize;
+    for item in items {
+        if !matches!(item, IndexItem::NewAxis) && axis >= result.ndim() {
+            return Err(pyo3::exceptions::PyIndexError::new_err(
+                "too many indices for array",
             ));
         }
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            let val = src.inner.get_element(&indices);
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
+        match item {
+            IndexItem::NewAxis => {
+                result = result.expand_dims(axis).ok_or_else(|| {
+                    pyo3::exceptions::PyIndexError::new_err("cannot expand dims")
+                })?;
+                axis += 1;
+            }
+            IndexItem::Int(idx) => {
+                let idx = normalize_index(*idx, result.shape()[axis])? as isize;
+                result = result.slice_axis(axis, idx, idx + 1, 1).squeeze_axis(axis);
+            }
+            IndexItem::Slice(slice) => {
+                let (start, stop, step) = extract_slice_indices(slice, result.shape()[axis])?;
+                result = result.slice_axis(axis, start, stop, step);
+                axis += 1;
+            }
+            IndexItem::FullSlice => axis += 1,
         }
-        Ok(())
+    }
+    Ok(result)
+}
+
+/// Assign a scalar or array value to a view, broadcasting the value to the view's shape.
+fn fill_view(view: &mut RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
+    let dtype = view.dtype();
+    let src = if let Ok(arr) = value.extract::<PyRef<'_, PyRumpyArray>>() {
+        // astype copies, so an overlapping source is read before anything is written
+        let mut src = arr.inner.astype(dtype.clone());
+        while src.ndim() > view.ndim() && src.shape()[0] == 1 {
+            src = src.squeeze_axis(0);
+        }
+        src
     } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(
-            "value must be a number or array",
-        ))
+        let mut src = RumpyArray::zeros(vec![], dtype.clone());
+        let ptr = src.data_ptr_mut();
+        let ops = dtype.ops();
+        let int_value = if dtype.is_integer() { value.extract::<i64>().ok() } else { None };
+        let written = if let Some(i) = int_value {
+            unsafe { ops.write_i64(ptr, 0, i) }
+        } else if let Ok(f) = value.extract::<f64>() {
+            unsafe { ops.write_f64(ptr, 0, f) }
+        } else if let Ok(c) = value.downcast::<pyo3::types::PyComplex>() {
+            use pyo3::types::PyComplexMethods;
+            matches!(dtype.kind(), crate::array::DTypeKind::Complex64 | crate::array::DTypeKind::Complex128)
+                && unsafe { ops.write_complex(ptr, 0, c.real(), c.imag()) }
+        } else {
+            false
+        };
+        if !written {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "value must be a number or array",
+            ));
+        }
+        src
+    };
+
+    let src = src.broadcast_to(view.shape()).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("could not broadcast input array to shape")
+    })?;
+    let itemsize = dtype.itemsize();
+    let dst_ptr = view.data_ptr_mut();
+    let src_ptr = src.data_ptr();
+    for (dst_offset, src_offset) in view.iter_offsets().zip(src.iter_offsets()) {
+        unsafe {
+            std::ptr::copy_nonoverlapping(
+                src_ptr.offset(src_offset),
+                dst_ptr.offset(dst_offset),
+                itemsize,
+            );
+        }
     }
+    Ok(())
 }
 
 /// Check if an array qualifies for temporary elision (in-place buffer reuse).
-- 
2.43.0


From 197e175e101c42d3e1f33a83c173ce268e4e0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:13 +0000
Subject: [PATCH 04/51] fix: reshape/ravel of F-ordered arrays used the wrong
 element order and rejected strided views; einsum's matmul path relied on that
 refusal

---
 src/array/views.rs | 13 ++++---------
 src/ops/einsum.rs  | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 129cb5a..a9f64e9 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -82,23 +82,18 @@ impl RumpyArray {
         self.view_with(offset_delta, new_shape, new_strides)
     }
 
-    /// Reshape array. Returns a view if contiguous, otherwise would need copy.
-    /// For now, only works on contiguous arrays.
+    /// Reshape array in C order. Returns a view if C-contiguous, otherwise a copy.
     pub fn reshape(&self, new_shape: Vec<usize>) -> Option<Self> {
         let old_size: usize = self.shape.iter().product();
         let new_size: usize = new_shape.iter().product();
         if old_size != new_size {
             return None;
         }
-        if !self.is_c_contiguous() && !self.is_f_contiguous() {
-            return None; // Would need copy
+        if !self.is_c_contiguous() {
+            return self.copy().reshape(new_shape);
         }
 
-        let new_strides = if self.is_c_contiguous() {
-            compute_c_strides(&new_shape, self.dtype.itemsize())
-        } else {
-            compute_f_strides(&new_shape, self.dtype.itemsize())
-        };
+        let new_strides = compute_c_strides(&new_shape, self.dtype.itemsize());
 
         Some(self.view_with(0, new_shape, new_strides))
     }
diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 5f12e08..24df518 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -576,7 +576,19 @@ fn try_blas_contraction(
 
     // Identify free indices for B (in B but not contracted)
     let b_free: Vec<char> = b_sub.iter().filter(|c| !contract_set.contains(c)).copied().collect();
-    let b_contract: Vec<char> = b_sub.iter().filter(|c| contract_set.contains(c)).copied().collect();
+
+    // A matrix product needs every contracted index exactly once in both operands (in the
+    // same order) and every free index exactly once in one of them.
+    let distinct = |sub: &[char]| sub.iter().collect::<HashSet<_>>().len() == sub.len();
+    if !distinct(a_sub)
+        || !distinct(b_sub)
+        || a_free.iter().any(|c| b_free.contains(c))
+        || b_sub.len() - b_free.len() != a_contract.len()
+        || a_contract.iter().any(|c| !b_sub.contains(c))
+    {
+        return None;
+    }
+    let b_contract: Vec<char> = a_contract.clone();
 
     // Compute dimensions
     let a_free_dims: Vec<usize> = a_free.iter().map(|c| dim_map[c]).collect();
-- 
2.43.0


From 76be8569536d2fe9a451a9431f67288015d0d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:13 +0000
Subject: [PATCH 05/51] fix: astype dropped complex values and lost precision
 between 64-bit integer types

---
 src/array/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 2ccb842..1d5772c 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -414,8 +414,28 @@ impl RumpyArray {
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
+                (DTypeKind::Complex64 | DTypeKind::Complex128, DTypeKind::Bool) => {
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let truthy = unsafe { src_ops.is_truthy(src_ptr, offset) };
+                        unsafe { dst_ops.write_f64(result_ptr, i, if truthy { 1.0 } else { 0.0 }); }
+                    }
+                }
+                (DTypeKind::Complex64 | DTypeKind::Complex128, _) => {
+                    // Keep both parts (a real destination takes the real part)
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let (re, im) = unsafe { src_ops.read_complex(src_ptr, offset) }.unwrap_or((0.0, 0.0));
+                        unsafe { dst_ops.write_complex(result_ptr, i, re, im); }
+                    }
+                }
+                _ if self.dtype.is_integer() && new_dtype.is_integer() => {
+                    // Integer to integer: exact, wrapping on narrowing
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let val = unsafe { src_ops.read_i64(src_ptr, offset) }.unwrap_or(0);
+                        unsafe { dst_ops.write_i64(result_ptr, i, val); }
+                    }
+                }
                 _ => {
-                    // Cross-dtype conversion via f64 (lossy for complex)
+                    // Cross-dtype conversion via f64
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                         unsafe { dst_ops.write_f64(result_ptr, i, val); }
-- 
2.43.0


From 6645b4b0b0a5a76c7f6117c188c16cbc40768e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:13 +0000
Subject: [PATCH 06/51] fix: gcd/lcm/heaviside/ldexp/sinc/... read past or
 misread strided, broadcast and mixed-dtype operands

---
 src/ops/special.rs   | 89 ++++++++++++++++++++++++++++++++------------
 src/python/ufuncs.rs | 24 ++++++++----
 2 files changed, 81 insertions(+), 32 deletions(-)

diff --git a/src/ops/special.rs b/src/ops/special.rs
index 2075ff9..5487abb 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -6,13 +6,28 @@
 
 use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
+use crate::array::{broadcast_shapes, promote_dtype};
 use std::sync::Arc;
 
+/// Broadcast two operands against each other, as C-contiguous arrays.
+fn broadcast_operands(a: &RumpyArray, b: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
+    let shape = broadcast_shapes(a.shape(), b.shape())?;
+    Some((a.broadcast_to(&shape)?.copy(), b.broadcast_to(&shape)?.copy()))
+}
+
+/// Broadcast two operands and convert them to their common dtype.
+fn promote_operands(a: &RumpyArray, b: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
+    let dtype = promote_dtype(&a.dtype(), &b.dtype());
+    let (a, b) = broadcast_operands(a, b)?;
+    Some((a.astype(dtype.clone()), b.astype(dtype)))
+}
+
 // ============================================================================
 // Sinc: sin(pi*x) / (pi*x)
 // ============================================================================
 
 pub fn sinc(arr: &RumpyArray) -> RumpyArray {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => sinc_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => sinc_typed::<f64>(arr, DType::float64()),
@@ -54,6 +69,7 @@ fn sinc_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> RumpyArray {
 // ============================================================================
 
 pub fn i0(arr: &RumpyArray) -> RumpyArray {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => i0_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => i0_typed::<f64>(arr, DType::float64()),
@@ -107,6 +123,7 @@ fn i0_scalar<T: Float>(x: T) -> T {
 // ============================================================================
 
 pub fn spacing(arr: &RumpyArray) -> RumpyArray {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => spacing_f32(arr),
         DTypeKind::Float64 => spacing_f64(arr),
@@ -174,6 +191,7 @@ fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
 // ============================================================================
 
 pub fn modf(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => modf_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => modf_typed::<f64>(arr, DType::float64()),
@@ -221,6 +239,7 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
 // ============================================================================
 
 pub fn frexp(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &arr.copy();
     match arr.dtype().kind() {
         DTypeKind::Float32 => frexp_f32(arr),
         DTypeKind::Float64 => frexp_f64(arr),
@@ -337,15 +356,16 @@ fn frexp_scalar_f32(x: f32) -> (f32, i32) {
 // Ldexp: x * 2^i
 // ============================================================================
 
-pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
+pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> Option<RumpyArray> {
+    let (x, i) = &broadcast_operands(x, i)?;
+    Some(match x.dtype().kind() {
         DTypeKind::Float32 => ldexp_typed::<f32>(x, i, DType::float32()),
         DTypeKind::Float64 => ldexp_typed::<f64>(x, i, DType::float64()),
         _ => {
             let x_f64 = x.astype(DType::float64());
             ldexp_typed::<f64>(&x_f64, i, DType::float64())
         }
-    }
+    })
 }
 
 fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -389,8 +409,9 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 // Heaviside step function
 // ============================================================================
 
-pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
+pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> Option<RumpyArray> {
+    let (x, h0) = &promote_operands(x, h0)?;
+    Some(match x.dtype().kind() {
         DTypeKind::Float32 => heaviside_typed::<f32>(x, h0, DType::float32()),
         DTypeKind::Float64 => heaviside_typed::<f64>(x, h0, DType::float64()),
         _ => {
@@ -398,7 +419,7 @@ pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
             let h0_f64 = h0.astype(DType::float64());
             heaviside_typed::<f64>(&x_f64, &h0_f64, DType::float64())
         }
-    }
+    })
 }
 
 fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -434,9 +455,10 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
 // GCD: Greatest common divisor
 // ============================================================================
 
-pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
+pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let (a, b) = &promote_operands(a, b)?;
     let kind = a.dtype().kind();
-    match kind {
+    Some(match kind {
         DTypeKind::Int64 => gcd_typed::<i64>(a, b, DType::int64()),
         DTypeKind::Int32 => gcd_typed::<i32>(a, b, DType::int32()),
         DTypeKind::Int16 => gcd_typed::<i16>(a, b, DType::int16()),
@@ -451,7 +473,7 @@ pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
             let b_i64 = b.astype(DType::int64());
             gcd_typed::<i64>(&a_i64, &b_i64, DType::int64())
         }
-    }
+    })
 }
 
 fn gcd_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -524,9 +546,10 @@ fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
 // LCM: Least common multiple
 // ============================================================================
 
-pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
+pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let (a, b) = &promote_operands(a, b)?;
     let kind = a.dtype().kind();
-    match kind {
+    Some(match kind {
         DTypeKind::Int64 => lcm_typed::<i64>(a, b, DType::int64()),
         DTypeKind::Int32 => lcm_typed::<i32>(a, b, DType::int32()),
         DTypeKind::Int16 => lcm_typed::<i16>(a, b, DType::int16()),
@@ -540,7 +563,7 @@ pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
             let b_i64 = b.astype(DType::int64());
             lcm_typed::<i64>(&a_i64, &b_i64, DType::int64())
         }
-    }
+    })
 }
 
 fn lcm_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -595,7 +618,7 @@ fn lcm_scalar_signed<T: SignedInt>(a: T, b: T) -> T {
     if a_abs == T::ZERO || b_abs == T::ZERO {
         T::ZERO
     } else {
-        a_abs / gcd_scalar_signed(a_abs, b_abs) * b_abs
+        (a_abs / gcd_scalar_signed(a_abs, b_abs)).wrapping_mul_val(b_abs)
     }
 }
 
@@ -603,7 +626,7 @@ fn lcm_scalar_unsigned<T: UnsignedInt>(a: T, b: T) -> T {
     if a == T::ZERO || b == T::ZERO {
         T::ZERO
     } else {
-        a / gcd_scalar_unsigned(a, b) * b
+        (a / gcd_scalar_unsigned(a, b)).wrapping_mul_val(b)
     }
 }
 
@@ -660,36 +683,54 @@ impl Float for f64 {
 // Integer traits for generic integer operations
 // ============================================================================
 
-trait SignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self> {
+trait SignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> {
     const ZERO: Self;
     fn abs_val(self) -> Self;
+    fn wrapping_mul_val(self, other: Self) -> Self;
 }
 
 impl SignedInt for i64 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
 impl SignedInt for i32 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
 impl SignedInt for i16 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
 impl SignedInt for i8 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
-trait UnsignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self> {
+trait UnsignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> {
     const ZERO: Self;
+    fn wrapping_mul_val(self, other: Self) -> Self;
 }
 
-impl UnsignedInt for u64 { const ZERO: Self = 0; }
-impl UnsignedInt for u32 { const ZERO: Self = 0; }
-impl UnsignedInt for u16 { const ZERO: Self = 0; }
-impl UnsignedInt for u8 { const ZERO: Self = 0; }
+impl UnsignedInt for u64 {
+    const ZERO: Self = 0;
+    #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
+}
+impl UnsignedInt for u32 {
+    const ZERO: Self = 0;
+    #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
+}
+impl UnsignedInt for u16 {
+    const ZERO: Self = 0;
+    #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
+}
+impl UnsignedInt for u8 {
+    const ZERO: Self = 0;
+    #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
+}
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 5d4b323..4035caa 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -782,26 +782,34 @@ pub fn frexp(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
 
 /// Compute ldexp: x * 2^i.
 #[pyfunction]
-pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::ldexp(&x.inner, &i.inner))
+pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::ldexp(&x.inner, &i.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 /// Compute the Heaviside step function.
 #[pyfunction]
-pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::heaviside(&x.inner, &h0.inner))
+pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::heaviside(&x.inner, &h0.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 /// Compute the greatest common divisor element-wise.
 #[pyfunction]
-pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::gcd(&x1.inner, &x2.inner))
+pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::gcd(&x1.inner, &x2.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 /// Compute the least common multiple element-wise.
 #[pyfunction]
-pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::lcm(&x1.inner, &x2.inner))
+pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::lcm(&x1.inner, &x2.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 // ============================================================================
-- 
2.43.0


From 052e273c97436b9454291c83de0e66f15c8c590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:50 +0000
Subject: [PATCH 07/51] fix: remainder/floor_divide signs, mixed-dtype and
 integer operands of binary ufuncs, fmod, gcd/heaviside/ldexp special cases

---
 src/array/dtype/float16.rs    |   4 +-
 src/array/dtype/macros.rs     |  12 ++--
 src/ops/kernels/arithmetic.rs | 102 ++++++++++++++++++++++++++++++----
 src/ops/mod.rs                |   2 +-
 src/ops/special.rs            |  77 ++++++++++++++++++++++---
 src/ops/ufunc.rs              |  37 ++++++++++--
 src/python/ufuncs.rs          |  57 +++++++++----------
 7 files changed, 229 insertions(+), 62 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index e527191..2289899 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -96,8 +96,8 @@ impl DTypeOps for Float16Ops {
             BinaryOp::Mul => av * bv,
             BinaryOp::Div => av / bv,
             BinaryOp::Pow => av.powf(bv),
-            BinaryOp::Mod => av % bv,
-            BinaryOp::FloorDiv => (av / bv).floor(),
+            BinaryOp::Mod => crate::ops::kernels::arithmetic::FlooredDivision::floor_mod(av, bv),
+            BinaryOp::FloorDiv => crate::ops::kernels::arithmetic::FlooredDivision::floor_div(av, bv),
             BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.max(bv) },
             BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.min(bv) },
             // Stream 2: Binary Math Operations
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index c9c715d..85c6719 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -98,8 +98,8 @@ macro_rules! impl_float_dtype {
                     BinaryOp::Mul => av * bv,
                     BinaryOp::Div => av / bv,
                     BinaryOp::Pow => av.powf(bv),
-                    BinaryOp::Mod => av % bv,
-                    BinaryOp::FloorDiv => (av / bv).floor(),
+                    BinaryOp::Mod => crate::ops::kernels::arithmetic::FlooredDivision::floor_mod(av, bv),
+                    BinaryOp::FloorDiv => crate::ops::kernels::arithmetic::FlooredDivision::floor_div(av, bv),
                     BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.max(bv) },
                     BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.min(bv) },
                     // Stream 2: Binary Math Operations
@@ -312,8 +312,8 @@ macro_rules! impl_signed_int_dtype {
                     BinaryOp::Mul => av.wrapping_mul(bv),
                     BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
                     BinaryOp::Pow => if bv >= 0 { av.wrapping_pow(bv as u32) } else { 0 },
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
-                    BinaryOp::FloorDiv => if bv != 0 { av.div_euclid(bv) } else { 0 },
+                    BinaryOp::Mod => crate::ops::kernels::arithmetic::FlooredDivision::floor_mod(av, bv),
+                    BinaryOp::FloorDiv => crate::ops::kernels::arithmetic::FlooredDivision::floor_div(av, bv),
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
                     // Float-only ops: convert to float, compute, convert back
@@ -514,8 +514,8 @@ macro_rules! impl_unsigned_int_dtype {
                     BinaryOp::Mul => av.wrapping_mul(bv),
                     BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
                     BinaryOp::Pow => av.wrapping_pow(bv as u32),
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
-                    BinaryOp::FloorDiv => if bv != 0 { av / bv } else { 0 },
+                    BinaryOp::Mod => crate::ops::kernels::arithmetic::FlooredDivision::floor_mod(av, bv),
+                    BinaryOp::FloorDiv => crate::ops::kernels::arithmetic::FlooredDivision::floor_div(av, bv),
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
                     // Float-only ops: convert to float, compute, convert back
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index c7d3a61..297aaa3 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -85,6 +85,86 @@ pub struct NanMin;
 #[derive(Clone, Copy)]
 pub struct SumOfSquares;
 
+// ============================================================================
+// Floored division (NumPy semantics: the remainder has the sign of the divisor)
+// ============================================================================
+
+pub(crate) trait FlooredDivision: Sized {
+    fn floor_div(self, other: Self) -> Self;
+    fn floor_mod(self, other: Self) -> Self;
+}
+
+macro_rules! impl_floored_float {
+    ($($T:ty),*) => {$(
+        impl FlooredDivision for $T {
+            #[inline]
+            fn floor_div(self, other: $T) -> $T {
+                if other == 0.0 {
+                    return self / other;
+                }
+                let rem = self % other;
+                let mut div = (self - rem) / other;
+                if rem != 0.0 && (other < 0.0) != (rem < 0.0) {
+                    div -= 1.0;
+                }
+                if div == 0.0 {
+                    return (0.0 as $T).copysign(self / other);
+                }
+                let floored = div.floor();
+                if div - floored > 0.5 { floored + 1.0 } else { floored }
+            }
+            #[inline]
+            fn floor_mod(self, other: $T) -> $T {
+                let rem = self % other;
+                if rem == 0.0 {
+                    rem.copysign(other)
+                } else if (other < 0.0) != (rem < 0.0) && !rem.is_nan() {
+                    rem + other
+                } else {
+                    rem
+                }
+            }
+        }
+    )*};
+}
+impl_floored_float!(f64, f32);
+
+macro_rules! impl_floored_signed {
+    ($($T:ty),*) => {$(
+        impl FlooredDivision for $T {
+            #[inline]
+            fn floor_div(self, other: $T) -> $T {
+                if other == 0 {
+                    return 0;
+                }
+                let (div, rem) = (self.wrapping_div(other), self.wrapping_rem(other));
+                if rem != 0 && (rem < 0) != (other < 0) { div - 1 } else { div }
+            }
+            #[inline]
+            fn floor_mod(self, other: $T) -> $T {
+                if other == 0 {
+                    return 0;
+                }
+                let rem = self.wrapping_rem(other);
+                if rem != 0 && (rem < 0) != (other < 0) { rem + other } else { rem }
+            }
+        }
+    )*};
+}
+impl_floored_signed!(i64, i32, i16, i8);
+
+macro_rules! impl_floored_unsigned {
+    ($($T:ty),*) => {$(
+        impl FlooredDivision for $T {
+            #[inline]
+            fn floor_div(self, other: $T) -> $T { if other == 0 { 0 } else { self / other } }
+            #[inline]
+            fn floor_mod(self, other: $T) -> $T { if other == 0 { 0 } else { self % other } }
+        }
+    )*};
+}
+impl_floored_unsigned!(u64, u32, u16, u8);
+
 // ============================================================================
 // Float implementations
 // ============================================================================
@@ -143,11 +223,11 @@ macro_rules! impl_float_arithmetic {
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { a % b }
+            fn apply(a: $T, b: $T) -> $T { a.floor_mod(b) }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { (a / b).floor() }
+            fn apply(a: $T, b: $T) -> $T { a.floor_div(b) }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
@@ -206,8 +286,9 @@ macro_rules! impl_float_arithmetic {
             fn apply(a: $T, b: $T) -> $T {
                 if a == b { b }
                 else if a.is_nan() || b.is_nan() { <$T>::NAN }
-                else if a < b { <$T>::from_bits(a.to_bits().wrapping_add(1)) }
-                else { <$T>::from_bits(a.to_bits().wrapping_sub(1)) }
+                else if a == 0.0 { <$T>::from_bits(1).copysign(b) }
+                else if (a < b) == (a > 0.0) { <$T>::from_bits(a.to_bits() + 1) }
+                else { <$T>::from_bits(a.to_bits() - 1) }
             }
         }
     };
@@ -318,11 +399,11 @@ impl BinaryKernel<f16> for Pow {
 }
 impl BinaryKernel<f16> for Mod {
     #[inline(always)]
-    fn apply(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32() % b.to_f32()) }
+    fn apply(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32().floor_mod(b.to_f32())) }
 }
 impl BinaryKernel<f16> for FloorDiv {
     #[inline(always)]
-    fn apply(a: f16, b: f16) -> f16 { f16::from_f32((a.to_f32() / b.to_f32()).floor()) }
+    fn apply(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32().floor_div(b.to_f32())) }
 }
 impl BinaryKernel<f16> for Maximum {
     #[inline(always)]
@@ -391,8 +472,9 @@ impl BinaryKernel<f16> for Nextafter {
     fn apply(a: f16, b: f16) -> f16 {
         if a == b { b }
         else if a.is_nan() || b.is_nan() { f16::NAN }
-        else if a < b { f16::from_bits(a.to_bits().wrapping_add(1)) }
-        else { f16::from_bits(a.to_bits().wrapping_sub(1)) }
+        else if a == f16::ZERO { f16::from_bits(1).copysign(b) }
+        else if (a < b) == (a > f16::ZERO) { f16::from_bits(a.to_bits() + 1) }
+        else { f16::from_bits(a.to_bits() - 1) }
     }
 }
 
@@ -452,11 +534,11 @@ macro_rules! impl_int_arithmetic {
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a % b } }
+            fn apply(a: $T, b: $T) -> $T { a.floor_mod(b) }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a / b } }
+            fn apply(a: $T, b: $T) -> $T { a.floor_div(b) }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 23d8c6b..32419b9 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -47,7 +47,7 @@ pub use set_ops::{isin, in1d, intersect1d, union1d, setdiff1d, setxor1d};
 pub use poly::{polyfit, polyval, polyder, polyint, roots};
 pub use numerical::{gradient, gradient_with_coords, trapezoid, interp, correlate};
 pub use array_methods::lexsort;
-pub use special::{sinc, i0, spacing, modf, frexp, ldexp, heaviside, gcd, lcm};
+pub use special::{sinc, i0, spacing, modf, frexp, ldexp, heaviside, fmod, gcd, lcm};
 
 use crate::array::{broadcast_shapes, increment_indices, promote_dtype, DType, DTypeKind, RumpyArray};
 use crate::array::dtype::UnaryOp;
diff --git a/src/ops/special.rs b/src/ops/special.rs
index 5487abb..d5973ae 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -9,6 +9,15 @@ use crate::array::{DType, RumpyArray};
 use crate::array::{broadcast_shapes, promote_dtype};
 use std::sync::Arc;
 
+/// Float dtype NumPy uses for a float-valued result of `dtype` input.
+fn float_result(dtype: &DType) -> DType {
+    match (dtype.kind(), dtype.itemsize()) {
+        (DTypeKind::Float16, _) | (_, 1) => DType::float16(),
+        (_, 2) => DType::float32(),
+        _ => DType::float64(),
+    }
+}
+
 /// Broadcast two operands against each other, as C-contiguous arrays.
 fn broadcast_operands(a: &RumpyArray, b: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
     let shape = broadcast_shapes(a.shape(), b.shape())?;
@@ -363,7 +372,7 @@ pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> Option<RumpyArray> {
         DTypeKind::Float64 => ldexp_typed::<f64>(x, i, DType::float64()),
         _ => {
             let x_f64 = x.astype(DType::float64());
-            ldexp_typed::<f64>(&x_f64, i, DType::float64())
+            ldexp_typed::<f64>(&x_f64, i, DType::float64()).astype(float_result(&x.dtype()))
         }
     })
 }
@@ -389,7 +398,7 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
         }
         DTypeKind::Int64 => {
             let ptr = i.data_ptr() as *const i64;
-            (0..size).map(|idx| unsafe { *ptr.add(idx) as i32 }).collect()
+            (0..size).map(|idx| unsafe { *ptr.add(idx) }.clamp(-10_000, 10_000) as i32).collect()
         }
         _ => {
             // Fallback: use to_vec
@@ -399,7 +408,14 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 
     for (idx, &iv) in i_vals.iter().enumerate() {
         let xv = unsafe { *x_ptr.add(idx) };
-        let y = xv * T::TWO.powi(iv);
+        // Scale in bounded steps: 2^i alone may overflow or underflow
+        let mut y = xv;
+        let mut left = iv.clamp(-10_000, 10_000);
+        while left != 0 && y != T::ZERO {
+            let step = left.clamp(-100, 100);
+            y = y * T::TWO.powi(step);
+            left -= step;
+        }
         unsafe { *result_ptr.add(idx) = y };
     }
     result
@@ -417,7 +433,7 @@ pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> Option<RumpyArray> {
         _ => {
             let x_f64 = x.astype(DType::float64());
             let h0_f64 = h0.astype(DType::float64());
-            heaviside_typed::<f64>(&x_f64, &h0_f64, DType::float64())
+            heaviside_typed::<f64>(&x_f64, &h0_f64, DType::float64()).astype(float_result(&x.dtype()))
         }
     })
 }
@@ -443,14 +459,54 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
             T::ZERO
         } else if xv == T::ZERO {
             h0v
-        } else {
+        } else if xv > T::ZERO {
             T::ONE
+        } else {
+            xv // NaN
         };
         unsafe { *result_ptr.add(i) = y };
     }
     result
 }
 
+// ============================================================================
+// Fmod: C-style remainder (sign of the dividend)
+// ============================================================================
+
+pub fn fmod(a: &RumpyArray, b: &RumpyArray) -> Option<Result<RumpyArray, crate::ops::BinaryOpError>> {
+    let (a, b) = &promote_operands(a, b)?;
+
+    fn apply<T: Copy>(a: &RumpyArray, b: &RumpyArray, f: impl Fn(T, T) -> T) -> RumpyArray {
+        let mut result = RumpyArray::zeros(a.shape().to_vec(), a.dtype());
+        let size = a.size();
+        if size > 0 {
+            let out = result.data_ptr_mut() as *mut T;
+            let (ap, bp) = (a.data_ptr() as *const T, b.data_ptr() as *const T);
+            for i in 0..size {
+                unsafe { *out.add(i) = f(*ap.add(i), *bp.add(i)); }
+            }
+        }
+        result
+    }
+    macro_rules! int_fmod {
+        ($T:ty) => { apply::<$T>(a, b, |x, y| if y == 0 { 0 } else { x.wrapping_rem(y) }) };
+    }
+    Some(Ok(match a.dtype().kind() {
+        DTypeKind::Float64 => apply::<f64>(a, b, |x, y| x % y),
+        DTypeKind::Float32 => apply::<f32>(a, b, |x, y| x % y),
+        DTypeKind::Float16 => apply::<half::f16>(a, b, |x, y| half::f16::from_f32(x.to_f32() % y.to_f32())),
+        DTypeKind::Int64 => int_fmod!(i64),
+        DTypeKind::Int32 => int_fmod!(i32),
+        DTypeKind::Int16 => int_fmod!(i16),
+        DTypeKind::Int8 => int_fmod!(i8),
+        DTypeKind::Uint64 => int_fmod!(u64),
+        DTypeKind::Uint32 => int_fmod!(u32),
+        DTypeKind::Uint16 => int_fmod!(u16),
+        DTypeKind::Uint8 => int_fmod!(u8),
+        _ => return Some(Err(crate::ops::BinaryOpError::UnsupportedDtype)),
+    }))
+}
+
 // ============================================================================
 // GCD: Greatest common divisor
 // ============================================================================
@@ -527,10 +583,10 @@ fn gcd_scalar_signed<T: SignedInt>(mut a: T, mut b: T) -> T {
     b = b.abs_val();
     while b != T::ZERO {
         let t = b;
-        b = a % b;
+        b = a.wrapping_rem_val(b);
         a = t;
     }
-    a
+    a.abs_val()
 }
 
 fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
@@ -683,33 +739,38 @@ impl Float for f64 {
 // Integer traits for generic integer operations
 // ============================================================================
 
-trait SignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> {
+trait SignedInt: Copy + PartialEq + std::ops::Div<Output = Self> {
     const ZERO: Self;
     fn abs_val(self) -> Self;
+    fn wrapping_rem_val(self, other: Self) -> Self;
     fn wrapping_mul_val(self, other: Self) -> Self;
 }
 
 impl SignedInt for i64 {
     const ZERO: Self = 0;
     #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn wrapping_rem_val(self, other: Self) -> Self { self.wrapping_rem(other) }
     #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
 impl SignedInt for i32 {
     const ZERO: Self = 0;
     #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn wrapping_rem_val(self, other: Self) -> Self { self.wrapping_rem(other) }
     #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
 impl SignedInt for i16 {
     const ZERO: Self = 0;
     #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn wrapping_rem_val(self, other: Self) -> Self { self.wrapping_rem(other) }
     #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
 impl SignedInt for i8 {
     const ZERO: Self = 0;
     #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn wrapping_rem_val(self, other: Self) -> Self { self.wrapping_rem(other) }
     #[inline] fn wrapping_mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index d11dcdb..8dbb231 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -12,6 +12,7 @@
 
 use crate::array::{broadcast_shapes, increment_indices, promote_dtype, DType, RumpyArray};
 use crate::array::dtype::{DTypeKind, UnaryOp, ReduceOp};
+use crate::ops::kernels::arithmetic::FlooredDivision;
 use crate::ops::registry::registry;
 use crate::ops::{BinaryOp, BinaryOpError, UnaryOpError, ComparisonOp};
 use std::sync::Arc;
@@ -55,6 +56,13 @@ pub(crate) fn is_integer_kind(kind: &DTypeKind) -> bool {
              DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64)
 }
 
+/// Check if dtype is a bool, integer, float or complex type.
+fn is_numeric_kind(kind: &DTypeKind) -> bool {
+    is_integer_kind(kind)
+        || matches!(kind, DTypeKind::Bool | DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64 |
+                    DTypeKind::Complex64 | DTypeKind::Complex128)
+}
+
 // ============================================================================
 // Unary operations
 // ============================================================================
@@ -182,8 +190,9 @@ pub fn map_binary_op_inplace(
 ) -> Result<RumpyArray, BinaryOpError> {
     // Handle division type promotion
     if op == BinaryOp::Div {
-        let a_int = is_integer_kind(&a.dtype().kind());
-        let b_int = is_integer_kind(&b.dtype().kind());
+        let is_int_or_bool = |kind: DTypeKind| kind == DTypeKind::Bool || is_integer_kind(&kind);
+        let a_int = is_int_or_bool(a.dtype().kind());
+        let b_int = is_int_or_bool(b.dtype().kind());
         if a_int && b_int {
             let a_f64 = a.astype(DType::float64());
             let b_f64 = b.astype(DType::float64());
@@ -262,6 +271,26 @@ pub fn map_binary_op_inplace(
         }
     }
 
+    // Mixed numeric dtypes: compute in the promoted dtype (exact integer arithmetic)
+    if a_bc.dtype() != b_bc.dtype() && is_numeric_kind(&a_bc.dtype().kind()) && is_numeric_kind(&b_bc.dtype().kind()) {
+        let common = promote_dtype(&a_bc.dtype(), &b_bc.dtype());
+        let convert = |arr: &RumpyArray| if arr.dtype() == common { arr.clone() } else { arr.astype(common.clone()) };
+        return map_binary_op_inplace(&convert(a), &convert(b), op, None);
+    }
+
+    // Float-valued operations on integers compute in the float dtype NumPy uses for that width
+    if matches!(op, BinaryOp::Arctan2 | BinaryOp::Hypot | BinaryOp::Copysign | BinaryOp::Logaddexp |
+                    BinaryOp::Logaddexp2 | BinaryOp::Nextafter)
+        && (is_integer_kind(&a_bc.dtype().kind()) || a_bc.dtype().kind() == DTypeKind::Bool)
+    {
+        let target = match a_bc.dtype().itemsize() {
+            1 => DType::float16(),
+            2 => DType::float32(),
+            _ => DType::float64(),
+        };
+        return map_binary_op_inplace(&a.astype(target.clone()), &b.astype(target), op, None);
+    }
+
     // Try new kernel/loop dispatch (same-type only for now)
     if out.is_none() && a_bc.dtype() == b_bc.dtype() {
         use crate::ops::dispatch;
@@ -421,8 +450,8 @@ pub fn map_binary_op_inplace(
                     BinaryOp::Mul => av * bv,
                     BinaryOp::Div => if bv != 0.0 { av / bv } else { f64::NAN },
                     BinaryOp::Pow => av.powf(bv),
-                    BinaryOp::Mod => av % bv,
-                    BinaryOp::FloorDiv => (av / bv).floor(),
+                    BinaryOp::Mod => av.floor_mod(bv),
+                    BinaryOp::FloorDiv => av.floor_div(bv),
                     BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { f64::NAN } else { av.max(bv) },
                     BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { f64::NAN } else { av.min(bv) },
                     BinaryOp::Arctan2 => av.atan2(bv),
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 4035caa..09d7398 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -373,39 +373,32 @@ fn apply_binary_ufunc(
     x2: &Bound<'_, PyAny>,
     op: crate::array::dtype::BinaryOp,
 ) -> PyResult<PyRumpyArray> {
-    use crate::ops::BinaryOpError;
-
-    // Try array-array first
-    let arr1 = if let Ok(arr) = x1.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x1.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray or number",
-        ));
-    };
+    let (arr1, arr2) = (binary_operand(x1)?, binary_operand(x2)?);
+    arr1.binary_op(&arr2, op).map(PyRumpyArray::new).map_err(binary_op_error)
+}
 
-    let arr2 = if let Ok(arr) = x2.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x2.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
+fn binary_operand(x: &Bound<'_, PyAny>) -> PyResult<RumpyArray> {
+    if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
+        Ok(arr.inner.clone())
+    } else if let Ok(scalar) = x.extract::<f64>() {
+        Ok(RumpyArray::full(vec![1], scalar, DType::float64()))
     } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
+        Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
-        ));
-    };
+        ))
+    }
+}
 
-    arr1.binary_op(&arr2, op)
-        .map(PyRumpyArray::new)
-        .map_err(|e| match e {
-            BinaryOpError::ShapeMismatch => {
-                pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-            }
-            BinaryOpError::UnsupportedDtype => {
-                pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
-            }
-        })
+fn binary_op_error(e: crate::ops::BinaryOpError) -> PyErr {
+    use crate::ops::BinaryOpError;
+    match e {
+        BinaryOpError::ShapeMismatch => {
+            pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
+        }
+        BinaryOpError::UnsupportedDtype => {
+            pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
+        }
+    }
 }
 
 #[pyfunction]
@@ -879,10 +872,12 @@ pub fn mod_fn(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyA
 }
 
 /// Compute the element-wise remainder (C-style fmod, sign of dividend preserved).
-/// Note: In NumPy, fmod differs from mod/remainder. Our implementation uses C-style %.
 #[pyfunction]
 pub fn fmod(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
-    remainder(x1, x2)
+    crate::ops::fmod(&binary_operand(x1)?, &binary_operand(x2)?)
+        .unwrap_or(Err(crate::ops::BinaryOpError::ShapeMismatch))
+        .map(PyRumpyArray::new)
+        .map_err(binary_op_error)
 }
 
 /// Alias for divide - true division element-wise.
-- 
2.43.0


From b84a7a7f4ec1267abedac2b53d1706ebc96909b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:10 +0000
Subject: [PATCH 08/51] fix: unary ufuncs: integer inputs of
 expm1/log1p/cbrt/inverse hyperbolics, abs overflow panic, complex abs/isreal
 dtypes, 0-d results, modf of inf

---
 src/array/dtype/macros.rs      |  4 ++--
 src/ops/array_methods/unary.rs |  4 ++--
 src/ops/kernels/math.rs        |  2 +-
 src/ops/mod.rs                 | 10 ++++++----
 src/ops/special.rs             |  3 ++-
 src/ops/ufunc.rs               |  4 +++-
 6 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 85c6719..afc099d 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -259,8 +259,8 @@ macro_rules! impl_signed_int_dtype {
             unsafe fn unary_op(&self, op: UnaryOp, src: *const u8, byte_offset: isize, out: *mut u8, idx: usize) {
                 let v = Self::read(src, byte_offset);
                 let result = match op {
-                    UnaryOp::Neg => -v,
-                    UnaryOp::Abs => v.abs(),
+                    UnaryOp::Neg => v.wrapping_neg(),
+                    UnaryOp::Abs => v.wrapping_abs(),
                     UnaryOp::Sqrt => (v as f64).sqrt() as $T,
                     UnaryOp::Exp => (v as f64).exp() as $T,
                     UnaryOp::Log => (v as f64).ln() as $T,
diff --git a/src/ops/array_methods/unary.rs b/src/ops/array_methods/unary.rs
index 0560405..fcfa1a6 100644
--- a/src/ops/array_methods/unary.rs
+++ b/src/ops/array_methods/unary.rs
@@ -124,12 +124,12 @@ impl RumpyArray {
 
     /// Test element-wise for real values (imaginary part is zero).
     pub fn isreal(&self) -> Result<RumpyArray, UnaryOpError> {
-        map_unary_op(self, UnaryOp::Isreal)
+        Ok(map_unary_op(self, UnaryOp::Isreal)?.astype(DType::bool()))
     }
 
     /// Test element-wise for complex values (imaginary part is non-zero).
     pub fn iscomplex(&self) -> Result<RumpyArray, UnaryOpError> {
-        map_unary_op(self, UnaryOp::Iscomplex)
+        Ok(map_unary_op(self, UnaryOp::Iscomplex)?.astype(DType::bool()))
     }
 
     /// Square of each element (x^2).
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 210c71c..70f6c9b 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -396,7 +396,7 @@ macro_rules! impl_signed_int_math {
         }
         impl UnaryKernel<$T> for Abs {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.abs() }
+            fn apply(v: $T) -> $T { v.wrapping_abs() }
         }
         impl UnaryKernel<$T> for Square {
             #[inline(always)]
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 32419b9..b9625fa 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -96,13 +96,13 @@ impl RumpyArray {
     /// Element-wise operation with scalar (arr op scalar).
     pub fn scalar_op(&self, scalar: f64, op: BinaryOp) -> RumpyArray {
         // Create a scalar array and use binary_op with broadcasting
-        let scalar_arr = RumpyArray::full(vec![1], scalar, self.dtype());
+        let scalar_arr = RumpyArray::full(vec![], scalar, self.dtype());
         self.binary_op(&scalar_arr, op).expect("scalar broadcast always works")
     }
 
     /// Scalar on left side (scalar op arr).
     pub fn rscalar_op(&self, scalar: f64, op: BinaryOp) -> RumpyArray {
-        let scalar_arr = RumpyArray::full(vec![1], scalar, self.dtype());
+        let scalar_arr = RumpyArray::full(vec![], scalar, self.dtype());
         scalar_arr.binary_op(self, op).expect("scalar broadcast always works")
     }
 
@@ -114,7 +114,7 @@ impl RumpyArray {
     /// Scalar comparison (arr op scalar).
     pub fn compare_scalar(&self, scalar: f64, op: ComparisonOp) -> RumpyArray {
         // Create scalar array and use broadcasting
-        let scalar_arr = RumpyArray::full(vec![1], scalar, DType::float64());
+        let scalar_arr = RumpyArray::full(vec![], scalar, DType::float64());
         self.compare(&scalar_arr, op).expect("scalar broadcast always succeeds")
     }
 
@@ -125,7 +125,9 @@ impl RumpyArray {
 
     /// Absolute value of each element.
     pub fn abs(&self) -> Result<RumpyArray, UnaryOpError> {
-        map_unary_op(self, UnaryOp::Abs)
+        let result = map_unary_op(self, UnaryOp::Abs)?;
+        // The magnitude of a complex number is real
+        Ok(if matches!(result.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128) { result.real() } else { result })
     }
 
     // Reductions (sum, mean, var, std, argmax, argmin, etc.) are in array_methods/reductions.rs
diff --git a/src/ops/special.rs b/src/ops/special.rs
index d5973ae..304211a 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -234,7 +234,8 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
     for i in 0..size {
         let x = unsafe { *src_ptr.add(i) };
         let int_val = x.trunc();
-        let frac_val = x - int_val;
+        // infinities have no fractional part
+        let frac_val = if x == int_val { T::ZERO } else { x - int_val };
         unsafe {
             *frac_ptr.add(i) = frac_val;
             *int_ptr.add(i) = int_val;
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 8dbb231..4f40a03 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -47,7 +47,9 @@ fn is_transcendental(op: UnaryOp) -> bool {
     matches!(op, UnaryOp::Exp | UnaryOp::Log | UnaryOp::Log10 | UnaryOp::Log2 | UnaryOp::Sqrt |
                  UnaryOp::Sin | UnaryOp::Cos | UnaryOp::Tan |
                  UnaryOp::Sinh | UnaryOp::Cosh | UnaryOp::Tanh |
-                 UnaryOp::Arcsin | UnaryOp::Arccos | UnaryOp::Arctan)
+                 UnaryOp::Arcsin | UnaryOp::Arccos | UnaryOp::Arctan |
+                 UnaryOp::Arcsinh | UnaryOp::Arccosh | UnaryOp::Arctanh |
+                 UnaryOp::Exp2 | UnaryOp::Expm1 | UnaryOp::Log1p | UnaryOp::Cbrt)
 }
 
 /// Check if dtype is an integer type.
-- 
2.43.0


From e3e7e0ef8682d6fd77ec4e38a86df6e8948629e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:26 +0000
Subject: [PATCH 09/51] fix: bitwise ops on mixed integer dtypes read out of
 bounds; shifts past the bit width

---
 src/array/dtype/macros.rs  | 8 ++++----
 src/ops/bitwise.rs         | 2 ++
 src/ops/kernels/bitwise.rs | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index afc099d..9bfd32a 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -401,8 +401,8 @@ macro_rules! impl_signed_int_dtype {
                     BitwiseOp::And => av & bv,
                     BitwiseOp::Or => av | bv,
                     BitwiseOp::Xor => av ^ bv,
-                    BitwiseOp::LeftShift => av.wrapping_shl(bv as u32),
-                    BitwiseOp::RightShift => av.wrapping_shr(bv as u32),
+                    BitwiseOp::LeftShift => if (bv as u64) < <$T>::BITS as u64 { av << bv } else { 0 },
+                    BitwiseOp::RightShift => if (bv as u64) < <$T>::BITS as u64 { av >> bv } else { (av >> (<$T>::BITS / 2)) >> (<$T>::BITS / 2) },
                 };
                 Self::write(out, idx, result);
                 true
@@ -603,8 +603,8 @@ macro_rules! impl_unsigned_int_dtype {
                     BitwiseOp::And => av & bv,
                     BitwiseOp::Or => av | bv,
                     BitwiseOp::Xor => av ^ bv,
-                    BitwiseOp::LeftShift => av.wrapping_shl(bv as u32),
-                    BitwiseOp::RightShift => av.wrapping_shr(bv as u32),
+                    BitwiseOp::LeftShift => if (bv as u64) < <$T>::BITS as u64 { av << bv } else { 0 },
+                    BitwiseOp::RightShift => if (bv as u64) < <$T>::BITS as u64 { av >> bv } else { (av >> (<$T>::BITS / 2)) >> (<$T>::BITS / 2) },
                 };
                 Self::write(out, idx, result);
                 true
diff --git a/src/ops/bitwise.rs b/src/ops/bitwise.rs
index bba3c9f..be56671 100644
--- a/src/ops/bitwise.rs
+++ b/src/ops/bitwise.rs
@@ -13,6 +13,8 @@ use crate::ops::dispatch;
 /// Apply a binary bitwise operation element-wise, preserving dtype.
 fn map_binary_bitwise(a: &RumpyArray, b: &RumpyArray, op: BitwiseOp) -> Option<RumpyArray> {
     let out_dtype = promote_dtype(&a.dtype(), &b.dtype());
+    // The kernels read both operands as the output dtype
+    let (a, b) = (&a.astype(out_dtype.clone()), &b.astype(out_dtype.clone()));
     let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(a, b, out_dtype.clone())?;
 
     if result.size() == 0 {
diff --git a/src/ops/kernels/bitwise.rs b/src/ops/kernels/bitwise.rs
index f954ad8..d6ac8ac 100644
--- a/src/ops/kernels/bitwise.rs
+++ b/src/ops/kernels/bitwise.rs
@@ -62,14 +62,15 @@ macro_rules! impl_bitwise_int {
         impl BinaryKernel<$T> for LeftShift {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shl(b as u32)
+                if (b as u64) < <$T>::BITS as u64 { a << b } else { 0 }
             }
         }
 
         impl BinaryKernel<$T> for RightShift {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shr(b as u32)
+                // Shifting out every bit leaves only the sign
+                if (b as u64) < <$T>::BITS as u64 { a >> b } else { (a >> (<$T>::BITS / 2)) >> (<$T>::BITS / 2) }
             }
         }
 
-- 
2.43.0


From cce920f597ede3e5d44ea0a72ebf81db34d215a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:32 +0000
Subject: [PATCH 10/51] fix: operators with Python scalars truncated floats to
 the array's integer dtype, widened bitwise results, refused complex; where
 read non-bool conditions as bytes

---
 src/ops/mod.rs            | 12 +++++++-
 src/python/pyarray/mod.rs | 62 +++++++++++++++++++++++++++++++++++++--
 src/python/ufuncs.rs      | 18 ++++++++++--
 3 files changed, 86 insertions(+), 6 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index b9625fa..b6cefcd 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -338,6 +338,9 @@ impl RumpyArray {
 /// Returns elements from x where condition is true, else from y.
 /// All three arrays are broadcast together.
 pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> Option<RumpyArray> {
+    // The selection loops read one truth byte per element
+    let condition = &condition.astype(DType::bool());
+
     // Broadcast all three shapes together
     let shape_cx = broadcast_shapes(condition.shape(), x.shape())?;
     let out_shape = broadcast_shapes(&shape_cx, y.shape())?;
@@ -350,7 +353,14 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
         return Some(result);
     }
 
-    // Fallback for mixed dtypes
+    // Mixed dtypes: select between operands converted to the result dtype
+    if x.dtype() != result_dtype || y.dtype() != result_dtype {
+        let (x, y) = (x.astype(result_dtype.clone()), y.astype(result_dtype.clone()));
+        if x.dtype() == result_dtype && y.dtype() == result_dtype {
+            return where_select(condition, &x, &y);
+        }
+    }
+
     let cond = condition.broadcast_to(&out_shape)?;
     let x_bc = x.broadcast_to(&out_shape)?;
     let y_bc = y.broadcast_to(&out_shape)?;
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index d7f834f..baa649b 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1221,6 +1221,54 @@ fn try_elision_candidate(
     Some(arr.clone())
 }
 
+/// A Python number as a 0-d array, in the dtype NumPy gives it next to an array of `dtype`:
+/// Python ints and floats never widen an array of their own kind.
+pub(crate) fn scalar_operand(x: &Bound<'_, PyAny>, dtype: &DType) -> Option<RumpyArray> {
+    use crate::array::DTypeKind;
+
+    let kind = dtype.kind();
+    let is_complex = matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128);
+    let is_float = matches!(kind, DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64);
+    let is_integer = crate::ops::ufunc::is_integer_kind(&kind);
+    if !(is_complex || is_float || is_integer || kind == DTypeKind::Bool) {
+        return None;
+    }
+    if let Ok(value) = x.extract::<bool>() {
+        Some(RumpyArray::full(vec![], value as u8 as f64, DType::bool()))
+    } else if x.is_instance_of::<pyo3::types::PyInt>() {
+        let target = if kind == DTypeKind::Bool { DType::int64() } else { dtype.clone() };
+        match x.extract::<i64>() {
+            Ok(value) if is_integer || kind == DTypeKind::Bool => {
+                Some(RumpyArray::from_vec_i64_with_shape(vec![value], vec![], DType::int64()).astype(target))
+            }
+            _ => Some(RumpyArray::full(vec![], x.extract::<f64>().ok()?, target)),
+        }
+    } else if let Ok(value) = x.extract::<f64>() {
+        let target = if is_complex || is_float { dtype.clone() } else { DType::float64() };
+        Some(RumpyArray::full(vec![], value, target))
+    } else if let Ok(value) = x.downcast::<pyo3::types::PyComplex>() {
+        let target = match kind {
+            DTypeKind::Complex64 | DTypeKind::Float32 | DTypeKind::Float16 => DType::complex64(),
+            _ => DType::complex128(),
+        };
+        Some(RumpyArray::full_complex(vec![], value.real(), value.imag(), target))
+    } else {
+        None
+    }
+}
+
+fn binary_op_error(e: crate::ops::BinaryOpError) -> PyErr {
+    use crate::ops::BinaryOpError;
+    match e {
+        BinaryOpError::ShapeMismatch => {
+            pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
+        }
+        BinaryOpError::UnsupportedDtype => {
+            pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
+        }
+    }
+}
+
 /// Dispatch binary operation: array op (array or scalar).
 /// Takes raw PyObject pointer for refcount checking to enable temporary elision.
 fn binary_op_dispatch_with_elision(
@@ -1254,6 +1302,8 @@ fn binary_op_dispatch_with_elision(
                     pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
                 }
             })
+    } else if let Some(scalar) = scalar_operand(other, &arr.dtype()) {
+        arr.binary_op(&scalar, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else if let Ok(scalar) = other.extract::<f64>() {
         // For scalar ops, result shape == arr shape, result dtype == arr dtype (usually)
         // TODO: Consider elision for scalar ops too
@@ -1284,6 +1334,8 @@ fn binary_op_dispatch(
                     pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
                 }
             })
+    } else if let Some(scalar) = scalar_operand(other, &arr.dtype()) {
+        arr.binary_op(&scalar, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else if let Ok(scalar) = other.extract::<f64>() {
         Ok(PyRumpyArray::new(arr.scalar_op(scalar, op)))
     } else {
@@ -1299,7 +1351,9 @@ fn rbinary_op_dispatch(
     other: &Bound<'_, PyAny>,
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
-    if let Ok(scalar) = other.extract::<f64>() {
+    if let Some(scalar) = scalar_operand(other, &arr.dtype()) {
+        scalar.binary_op(arr, op).map(PyRumpyArray::new).map_err(binary_op_error)
+    } else if let Ok(scalar) = other.extract::<f64>() {
         Ok(PyRumpyArray::new(arr.rscalar_op(scalar, op)))
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
@@ -1345,7 +1399,8 @@ where
                 pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
             })
     } else if let Ok(scalar) = other.extract::<i64>() {
-        let scalar_arr = RumpyArray::full(vec![1], scalar as f64, DType::int64());
+        let scalar_arr = scalar_operand(other, &arr.dtype())
+            .unwrap_or_else(|| RumpyArray::full(vec![], scalar as f64, DType::int64()));
         op(arr, &scalar_arr)
             .map(PyRumpyArray::new)
             .ok_or_else(|| {
@@ -1368,7 +1423,8 @@ where
     F: Fn(&RumpyArray, &RumpyArray) -> Option<RumpyArray>,
 {
     if let Ok(scalar) = other.extract::<i64>() {
-        let scalar_arr = RumpyArray::full(vec![1], scalar as f64, DType::int64());
+        let scalar_arr = scalar_operand(other, &arr.dtype())
+            .unwrap_or_else(|| RumpyArray::full(vec![], scalar as f64, DType::int64()));
         op(&scalar_arr, arr)
             .map(PyRumpyArray::new)
             .ok_or_else(|| {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 09d7398..6098dc1 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -373,10 +373,23 @@ fn apply_binary_ufunc(
     x2: &Bound<'_, PyAny>,
     op: crate::array::dtype::BinaryOp,
 ) -> PyResult<PyRumpyArray> {
-    let (arr1, arr2) = (binary_operand(x1)?, binary_operand(x2)?);
+    let (arr1, arr2) = binary_operands(x1, x2)?;
     arr1.binary_op(&arr2, op).map(PyRumpyArray::new).map_err(binary_op_error)
 }
 
+/// Both operands of a binary ufunc; a Python number takes the dtype NumPy gives it next to the other array.
+fn binary_operands(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<(RumpyArray, RumpyArray)> {
+    use crate::python::pyarray::scalar_operand;
+    let a1 = x1.extract::<PyRef<'_, PyRumpyArray>>().ok().map(|a| a.inner.clone());
+    let a2 = x2.extract::<PyRef<'_, PyRumpyArray>>().ok().map(|a| a.inner.clone());
+    let s1 = a2.as_ref().filter(|_| a1.is_none()).and_then(|a| scalar_operand(x1, &a.dtype()));
+    let s2 = a1.as_ref().filter(|_| a2.is_none()).and_then(|a| scalar_operand(x2, &a.dtype()));
+    Ok((
+        a1.or(s1).map_or_else(|| binary_operand(x1), Ok)?,
+        a2.or(s2).map_or_else(|| binary_operand(x2), Ok)?,
+    ))
+}
+
 fn binary_operand(x: &Bound<'_, PyAny>) -> PyResult<RumpyArray> {
     if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
         Ok(arr.inner.clone())
@@ -874,7 +887,8 @@ pub fn mod_fn(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyA
 /// Compute the element-wise remainder (C-style fmod, sign of dividend preserved).
 #[pyfunction]
 pub fn fmod(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
-    crate::ops::fmod(&binary_operand(x1)?, &binary_operand(x2)?)
+    let (arr1, arr2) = binary_operands(x1, x2)?;
+    crate::ops::fmod(&arr1, &arr2)
         .unwrap_or(Err(crate::ops::BinaryOpError::ShapeMismatch))
         .map(PyRumpyArray::new)
         .map_err(binary_op_error)
-- 
2.43.0


From f63ceda9cd1a70b96b4698932759545ccdf36c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:32 +0000
Subject: [PATCH 11/51] fix: axis reductions: argmin/argmax read out of bounds
 on strided input, small-int sums overflowed or lost precision, 1-d results
 had shape (1,)

---
 src/ops/array_methods/logical.rs    |  6 ----
 src/ops/array_methods/reductions.rs | 56 ++++++++++++++++-------------
 src/ops/array_methods/sorting.rs    |  9 -----
 src/ops/dispatch.rs                 |  9 -----
 src/ops/numerical.rs                |  4 +--
 src/ops/statistics.rs               |  6 ----
 src/ops/ufunc.rs                    |  3 --
 7 files changed, 34 insertions(+), 59 deletions(-)

diff --git a/src/ops/array_methods/logical.rs b/src/ops/array_methods/logical.rs
index 561ba08..c8c6e89 100644
--- a/src/ops/array_methods/logical.rs
+++ b/src/ops/array_methods/logical.rs
@@ -49,9 +49,6 @@ impl RumpyArray {
         // Fallback for DateTime64
         let mut out_shape: Vec<usize> = self.shape().to_vec();
         let axis_len = out_shape.remove(axis);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
         let out_size = result.size();
@@ -116,9 +113,6 @@ impl RumpyArray {
         // Fallback for DateTime64
         let mut out_shape: Vec<usize> = self.shape().to_vec();
         let axis_len = out_shape.remove(axis);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
         let out_size = result.size();
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 3efff6c..a270ec5 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -12,14 +12,35 @@ impl RumpyArray {
     // Basic reductions
     // ========================================================================
 
+    /// Integers and bools are summed and multiplied in 64 bits, like NumPy.
+    fn accumulator_input(&self) -> RumpyArray {
+        use crate::array::dtype::DTypeKind;
+        match self.dtype().kind() {
+            DTypeKind::Bool | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 => self.astype(DType::int64()),
+            DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 => self.astype(DType::uint64()),
+            _ => self.clone(),
+        }
+    }
+
+    /// Means and moments of integers and bools are float64.
+    fn moment_input(&self) -> RumpyArray {
+        use crate::array::dtype::DTypeKind;
+        let kind = self.dtype().kind();
+        if kind == DTypeKind::Bool || crate::ops::ufunc::is_integer_kind(&kind) {
+            self.astype(DType::float64())
+        } else {
+            self.clone()
+        }
+    }
+
     /// Sum all elements.
     pub fn sum(&self) -> f64 {
-        reduce_all_f64(self, ReduceOp::Sum)
+        reduce_all_f64(&self.accumulator_input(), ReduceOp::Sum)
     }
 
     /// Sum along axis.
     pub fn sum_axis(&self, axis: usize) -> RumpyArray {
-        reduce_axis_op(self, axis, ReduceOp::Sum)
+        reduce_axis_op(&self.accumulator_input(), axis, ReduceOp::Sum)
     }
 
     /// Sum of squares: sum(x*x). Single pass, no intermediate allocation.
@@ -30,12 +51,12 @@ impl RumpyArray {
 
     /// Product of all elements.
     pub fn prod(&self) -> f64 {
-        reduce_all_f64(self, ReduceOp::Prod)
+        reduce_all_f64(&self.accumulator_input(), ReduceOp::Prod)
     }
 
     /// Product along axis.
     pub fn prod_axis(&self, axis: usize) -> RumpyArray {
-        reduce_axis_op(self, axis, ReduceOp::Prod)
+        reduce_axis_op(&self.accumulator_input(), axis, ReduceOp::Prod)
     }
 
     /// Maximum element.
@@ -63,14 +84,14 @@ impl RumpyArray {
         if self.size() == 0 {
             return f64::NAN;
         }
-        self.sum() / self.size() as f64
+        self.moment_input().sum() / self.size() as f64
     }
 
     /// Mean along axis.
     pub fn mean_axis(&self, axis: usize) -> RumpyArray {
-        let sum = self.sum_axis(axis);
+        let sum = self.moment_input().sum_axis(axis);
         let count = self.shape()[axis] as f64;
-        let count_arr = RumpyArray::full(vec![1], count, sum.dtype());
+        let count_arr = RumpyArray::full(vec![], count, sum.dtype());
         sum.binary_op(&count_arr, BinaryOp::Div).expect("broadcast works")
     }
 
@@ -137,9 +158,6 @@ impl RumpyArray {
         if axis_len == 0 {
             let mut out_shape: Vec<usize> = self.shape().to_vec();
             out_shape.remove(axis);
-            if out_shape.is_empty() {
-                out_shape = vec![1];
-            }
             return RumpyArray::zeros(out_shape, DType::float64());
         }
 
@@ -156,13 +174,13 @@ impl RumpyArray {
             diff.binary_op(&diff, BinaryOp::Mul).expect("same shape")
         } else {
             // General case: use pow
-            let k_arr = RumpyArray::full(vec![1], k as f64, diff.dtype());
+            let k_arr = RumpyArray::full(vec![], k as f64, diff.dtype());
             diff.binary_op(&k_arr, BinaryOp::Pow).expect("broadcast works")
         };
 
         // Sum along axis and divide by count (uses efficient reduce_axis_op)
         let sum = powered.sum_axis(axis);
-        let count_arr = RumpyArray::full(vec![1], axis_len as f64, sum.dtype());
+        let count_arr = RumpyArray::full(vec![], axis_len as f64, sum.dtype());
         sum.binary_op(&count_arr, BinaryOp::Div).expect("broadcast works")
     }
 
@@ -203,7 +221,7 @@ impl RumpyArray {
         // m4 / m2^2 - 3
         let m2_sq = m2.binary_op(&m2, BinaryOp::Mul).expect("broadcast works");
         let ratio = m4.binary_op(&m2_sq, BinaryOp::Div).expect("broadcast works");
-        let three = RumpyArray::full(vec![1], 3.0, ratio.dtype());
+        let three = RumpyArray::full(vec![], 3.0, ratio.dtype());
         ratio.binary_op(&three, BinaryOp::Sub).expect("broadcast works")
     }
 
@@ -341,9 +359,6 @@ impl RumpyArray {
 
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let out_size: usize = out_shape.iter().product();
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::int64());
@@ -521,9 +536,6 @@ macro_rules! impl_arg_axis {
 
             let mut out_shape: Vec<usize> = shape[..axis].to_vec();
             out_shape.extend_from_slice(&shape[axis + 1..]);
-            if out_shape.is_empty() {
-                out_shape = vec![1];
-            }
 
             let out_size: usize = out_shape.iter().product();
             let mut result = RumpyArray::zeros(out_shape.clone(), DType::int64());
@@ -601,8 +613,7 @@ macro_rules! impl_arg_axis {
                     let mut best_val = unsafe { *start };
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
-                        let v = unsafe { *(start as *const u8).offset(axis_stride * j as isize) as *const T };
-                        let v = unsafe { *v };
+                        let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
                         if v $cmp best_val {
                             best_val = v;
                             best_idx = j as i64;
@@ -659,9 +670,6 @@ impl RumpyArray {
     {
         let mut out_shape: Vec<usize> = self.shape().to_vec();
         let axis_len = out_shape.remove(axis);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let mut result = RumpyArray::zeros(out_shape.clone(), result_dtype.clone());
         let out_size = result.size();
diff --git a/src/ops/array_methods/sorting.rs b/src/ops/array_methods/sorting.rs
index 3239991..4fd83d4 100644
--- a/src/ops/array_methods/sorting.rs
+++ b/src/ops/array_methods/sorting.rs
@@ -152,9 +152,6 @@ impl RumpyArray {
         // For each position along other axes, sort the elements along the target axis
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
         let out_size: usize = out_shape.iter().product();
 
         let ops = dtype.ops();
@@ -217,9 +214,6 @@ impl RumpyArray {
 
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
         let out_size: usize = out_shape.iter().product();
 
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
@@ -377,9 +371,6 @@ fn partition_inplace(arr: &mut RumpyArray, kth: usize, axis: usize) {
     // Multi-dimensional case: partition each lane along axis
     let mut out_shape: Vec<usize> = shape[..axis].to_vec();
     out_shape.extend_from_slice(&shape[axis + 1..]);
-    if out_shape.is_empty() {
-        out_shape = vec![1];
-    }
     let out_size: usize = out_shape.iter().product();
     let axis_stride = strides[axis];
 
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 4ed0ef0..4ed34e4 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -625,9 +625,6 @@ fn dispatch_reduce_axis_typed<T: Copy, K: ReduceKernel<T>>(
     let mut out_shape: Vec<usize> = arr.shape().to_vec();
     let axis_len = out_shape.remove(axis);
 
-    if out_shape.is_empty() {
-        out_shape = vec![1]; // Scalar result wrapped in 1D array
-    }
 
     let axis_stride = arr.strides()[axis];
 
@@ -1794,9 +1791,6 @@ fn dispatch_logical_axis_typed<T: Copy + Default + PartialEq>(
 ) -> Option<RumpyArray> {
     let mut out_shape: Vec<usize> = arr.shape().to_vec();
     let axis_len = out_shape.remove(axis);
-    if out_shape.is_empty() {
-        out_shape = vec![1];
-    }
 
     let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
     let out_size = result.size();
@@ -1857,9 +1851,6 @@ fn dispatch_logical_axis_complex<T: Copy + Default + PartialEq>(
 ) -> Option<RumpyArray> {
     let mut out_shape: Vec<usize> = arr.shape().to_vec();
     let axis_len = out_shape.remove(axis);
-    if out_shape.is_empty() {
-        out_shape = vec![1];
-    }
 
     let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
     let out_size = result.size();
diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 146c9e4..7cc0454 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -249,7 +249,7 @@ pub fn trapezoid(y: &RumpyArray, x: Option<&RumpyArray>, dx: f64, axis: isize) -
     let n = shape[axis];
     let out_shape: Vec<usize> = shape.iter().enumerate()
         .filter(|&(i, _)| i != axis).map(|(_, &d)| d).collect();
-    let out_shape = if out_shape.is_empty() { vec![1] } else { out_shape };
+    
 
     if n <= 1 {
         return Some(RumpyArray::zeros(out_shape, DType::float64()));
@@ -295,7 +295,7 @@ fn trapezoid_fallback(y: &RumpyArray, x_vals: Option<&[f64]>, dx: f64, axis: usi
     let n = shape[axis];
     let out_shape: Vec<usize> = shape.iter().enumerate()
         .filter(|&(i, _)| i != axis).map(|(_, &d)| d).collect();
-    let out_shape = if out_shape.is_empty() { vec![1] } else { out_shape };
+    
 
     let mut result = RumpyArray::zeros(out_shape, DType::float64());
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 5f17775..0cb90c0 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -430,9 +430,6 @@ impl RumpyArray {
         // Output shape: remove the axis dimension
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let out_size: usize = out_shape.iter().product();
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::float64());
@@ -559,9 +556,6 @@ impl RumpyArray {
         // Output shape: remove the axis dimension
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
         out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
 
         let out_size: usize = out_shape.iter().product();
         let mut result = RumpyArray::zeros(out_shape, DType::float64());
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 4f40a03..c699438 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -654,9 +654,6 @@ pub fn reduce_axis_op(arr: &RumpyArray, axis: usize, op: ReduceOp) -> RumpyArray
     let mut out_shape: Vec<usize> = arr.shape().to_vec();
     let axis_len = out_shape.remove(axis);
 
-    if out_shape.is_empty() {
-        out_shape = vec![1]; // Scalar result wrapped in 1D array
-    }
 
     let dtype = arr.dtype();
     let kind = dtype.kind();
-- 
2.43.0


From 193cdd91c8f7b210aa928a3de7d4d22677a3f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:11 +0000
Subject: [PATCH 12/51] fix: min/max/argmin/argmax ignored NaN, complex sums
 over all axes were 0.0, keepdims results had the input's dtype, 1-d weights
 of average ignored the axis

---
 src/array/dtype/float16.rs               |  4 +-
 src/array/dtype/macros.rs                |  4 +-
 src/ops/array_methods/reductions.rs      | 46 +++++++++++++-------
 src/ops/dispatch.rs                      |  2 +
 src/ops/kernels/arithmetic.rs            |  8 ++--
 src/ops/statistics.rs                    |  5 +++
 src/python/pyarray/methods_reductions.rs | 53 ++++--------------------
 src/python/pyarray/mod.rs                | 21 ++++++++++
 src/python/reductions.rs                 |  6 +--
 9 files changed, 78 insertions(+), 71 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 2289899..bc4b408 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -149,8 +149,8 @@ impl DTypeOps for Float16Ops {
         let result = match op {
             ReduceOp::Sum => a + v,
             ReduceOp::Prod => a * v,
-            ReduceOp::Max => a.max(v),
-            ReduceOp::Min => a.min(v),
+            ReduceOp::Max => if v > a || v.is_nan() { v } else { a },
+            ReduceOp::Min => if v < a || v.is_nan() { v } else { a },
         };
         Self::write(acc, idx, f16::from_f32(result));
     }
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 9bfd32a..3506a9d 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -157,8 +157,8 @@ macro_rules! impl_float_dtype {
                 let result = match op {
                     ReduceOp::Sum => a + v,
                     ReduceOp::Prod => a * v,
-                    ReduceOp::Max => a.max(v),
-                    ReduceOp::Min => a.min(v),
+                    ReduceOp::Max => if v > a || v.is_nan() { v } else { a },
+                    ReduceOp::Min => if v < a || v.is_nan() { v } else { a },
                 };
                 Self::write(acc, idx, result);
             }
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index a270ec5..ce3d991 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -158,7 +158,7 @@ impl RumpyArray {
         if axis_len == 0 {
             let mut out_shape: Vec<usize> = self.shape().to_vec();
             out_shape.remove(axis);
-            return RumpyArray::zeros(out_shape, DType::float64());
+            return RumpyArray::full(out_shape, f64::NAN, self.moment_input().dtype());
         }
 
         // Compute mean and broadcast back to original shape
@@ -314,7 +314,7 @@ impl RumpyArray {
         let mut max_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val > max_val {
+            if val > max_val || (val.is_nan() && !max_val.is_nan()) {
                 max_val = val;
                 max_idx = i;
             }
@@ -331,7 +331,7 @@ impl RumpyArray {
         let mut min_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val < min_val {
+            if val < min_val || (val.is_nan() && !min_val.is_nan()) {
                 min_val = val;
                 min_idx = i;
             }
@@ -341,12 +341,12 @@ impl RumpyArray {
 
     /// Slow fallback for argmax axis (dynamic dispatch).
     fn argmax_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a > b)
+        self.arg_reduce_axis_slow(axis, |a, b| a > b || (a.is_nan() && !b.is_nan()))
     }
 
     /// Slow fallback for argmin axis (dynamic dispatch).
     fn argmin_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a < b)
+        self.arg_reduce_axis_slow(axis, |a, b| a < b || (a.is_nan() && !b.is_nan()))
     }
 
     /// Slow fallback for argmax/argmin axis (non-optimized types).
@@ -444,6 +444,20 @@ impl ArgReducible for u8 {
     fn pos_infinity() -> Self { u8::MAX }
 }
 
+/// Whether `v` replaces `best` as the maximum; the first NaN wins, like NumPy.
+#[inline(always)]
+#[allow(clippy::eq_op)]
+fn better_max<T: ArgReducible>(v: T, best: T) -> bool {
+    v > best || (v != v && best == best)
+}
+
+/// Whether `v` replaces `best` as the minimum; the first NaN wins, like NumPy.
+#[inline(always)]
+#[allow(clippy::eq_op)]
+fn better_min<T: ArgReducible>(v: T, best: T) -> bool {
+    v < best || (v != v && best == best)
+}
+
 /// Dispatch argmax for full array reduction.
 fn dispatch_argmax_full<T: ArgReducible>(arr: &RumpyArray) -> usize {
     if arr.is_c_contiguous() {
@@ -470,7 +484,7 @@ fn argmax_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v > best_val {
+        if better_max(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -486,7 +500,7 @@ fn argmin_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v < best_val {
+        if better_min(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -501,7 +515,7 @@ fn argmax_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v > best_val {
+        if better_max(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -516,7 +530,7 @@ fn argmin_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v < best_val {
+        if better_min(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -527,7 +541,7 @@ fn argmin_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
 /// Macro to generate argmax/argmin axis functions with inline comparisons.
 /// Using a macro ensures the comparison is inlined (unlike fn pointers).
 macro_rules! impl_arg_axis {
-    ($name:ident, $cmp:tt, $init:ident) => {
+    ($name:ident, $cmp:ident, $init:ident) => {
         fn $name<T: ArgReducible>(arr: &RumpyArray, axis: usize) -> RumpyArray {
             let shape = arr.shape();
             let axis_len = shape[axis];
@@ -561,7 +575,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..n_cols {
                             let v = unsafe { *row_start.add(j) };
-                            if v $cmp best_val {
+                            if $cmp(v, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -576,7 +590,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..axis_len {
                             let v = unsafe { *slice_start.add(j) };
-                            if v $cmp best_val {
+                            if $cmp(v, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -598,7 +612,7 @@ macro_rules! impl_arg_axis {
                         for inner_idx in 0..inner_size {
                             let v = unsafe { *src_ptr.add(src_idx) };
                             let out_idx = out_base + inner_idx;
-                            if v $cmp best_vals[out_idx] {
+                            if $cmp(v, best_vals[out_idx]) {
                                 best_vals[out_idx] = v;
                                 unsafe { *result_ptr.add(out_idx) = axis_idx as i64; }
                             }
@@ -614,7 +628,7 @@ macro_rules! impl_arg_axis {
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
                         let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
-                        if v $cmp best_val {
+                        if $cmp(v, best_val) {
                             best_val = v;
                             best_idx = j as i64;
                         }
@@ -628,8 +642,8 @@ macro_rules! impl_arg_axis {
     };
 }
 
-impl_arg_axis!(argmax_axis_typed, >, neg_infinity);
-impl_arg_axis!(argmin_axis_typed, <, pos_infinity);
+impl_arg_axis!(argmax_axis_typed, better_max, neg_infinity);
+impl_arg_axis!(argmin_axis_typed, better_min, pos_infinity);
 
 impl RumpyArray {
 
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 4ed34e4..68a8390 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1739,6 +1739,7 @@ pub fn dispatch_all_axis(arr: &RumpyArray, axis: usize) -> Option<RumpyArray> {
         DTypeKind::Int64 => dispatch_all_axis_typed::<i64>(arr, axis),
         DTypeKind::Int32 => dispatch_all_axis_typed::<i32>(arr, axis),
         DTypeKind::Int16 => dispatch_all_axis_typed::<i16>(arr, axis),
+        DTypeKind::Int8 => dispatch_all_axis_typed::<i8>(arr, axis),
         DTypeKind::Uint64 => dispatch_all_axis_typed::<u64>(arr, axis),
         DTypeKind::Uint32 => dispatch_all_axis_typed::<u32>(arr, axis),
         DTypeKind::Uint16 => dispatch_all_axis_typed::<u16>(arr, axis),
@@ -1759,6 +1760,7 @@ pub fn dispatch_any_axis(arr: &RumpyArray, axis: usize) -> Option<RumpyArray> {
         DTypeKind::Int64 => dispatch_any_axis_typed::<i64>(arr, axis),
         DTypeKind::Int32 => dispatch_any_axis_typed::<i32>(arr, axis),
         DTypeKind::Int16 => dispatch_any_axis_typed::<i16>(arr, axis),
+        DTypeKind::Int8 => dispatch_any_axis_typed::<i8>(arr, axis),
         DTypeKind::Uint64 => dispatch_any_axis_typed::<u64>(arr, axis),
         DTypeKind::Uint32 => dispatch_any_axis_typed::<u32>(arr, axis),
         DTypeKind::Uint16 => dispatch_any_axis_typed::<u16>(arr, axis),
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 297aaa3..58006f0 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -203,13 +203,13 @@ macro_rules! impl_float_arithmetic {
             #[inline(always)]
             fn init() -> $T { <$T>::NEG_INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v > acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v > acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for Min {
             #[inline(always)]
             fn init() -> $T { <$T>::INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v < acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v < acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for SumOfSquares {
             #[inline(always)]
@@ -379,13 +379,13 @@ impl ReduceKernel<f16> for Max {
     #[inline(always)]
     fn init() -> f16 { f16::NEG_INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v > acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v > acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for Min {
     #[inline(always)]
     fn init() -> f16 { f16::INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v < acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v < acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for SumOfSquares {
     #[inline(always)]
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 0cb90c0..7642503 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -508,6 +508,11 @@ impl RumpyArray {
         match weights {
             None => self.mean_axis(axis),
             Some(w) => {
+                // 1-D weights run along the axis
+                let mut along = vec![1; self.ndim()];
+                along[axis] = w.size();
+                let w = if w.ndim() == 1 && self.ndim() > 1 { w.reshape(along).expect("same size") } else { w.clone() };
+                let w = &w;
                 // Broadcast weights and compute weighted mean
                 let product = self.binary_op(w, BinaryOp::Mul).expect("broadcast works");
                 let weighted_sum = product.sum_axis(axis);
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index 4ff86b4..caf1dd5 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -3,22 +3,17 @@
 use pyo3::prelude::*;
 
 use super::{
-    axis_reduction_with_keepdims, check_axis, scalar_reduction_with_keepdims, PyRumpyArray,
+    axis_reduction_with_keepdims, check_axis, full_reduction, scalar_reduction_with_keepdims, PyRumpyArray,
     ReductionResult,
 };
-use crate::array::DType;
+use crate::array::{DType, RumpyArray};
 
 #[pymethods]
 impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn sum(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.sum(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::sum, RumpyArray::sum_axis)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
@@ -34,12 +29,7 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn prod(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.prod(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::prod, RumpyArray::prod_axis)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
@@ -55,12 +45,7 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn max(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.max(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::max, RumpyArray::max_axis)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
@@ -76,12 +61,7 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn min(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.min(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::min, RumpyArray::min_axis)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
@@ -97,12 +77,7 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn mean(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.mean(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::mean, RumpyArray::mean_axis)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
@@ -118,12 +93,7 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn var(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.var(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::var, RumpyArray::var_axis)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
@@ -139,12 +109,7 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn std(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.std(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::std, RumpyArray::std_axis)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index baa649b..3afb1e3 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -170,6 +170,27 @@ fn scalar_reduction_with_keepdims(
     }
 }
 
+/// Reduce over all axes. The result is a Python float, except that `keepdims` and complex
+/// input give an array of the reduction's own dtype.
+pub(crate) fn full_reduction(
+    arr: &RumpyArray,
+    keepdims: bool,
+    scalar: impl Fn(&RumpyArray) -> f64,
+    along: impl Fn(&RumpyArray, usize) -> RumpyArray,
+) -> ReductionResult {
+    use crate::array::dtype::DTypeKind;
+    let complex = matches!(arr.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128);
+    if keepdims || complex {
+        if let Some(flat) = arr.reshape(vec![arr.size()]) {
+            let shape = if keepdims { vec![1; arr.ndim()] } else { vec![] };
+            if let Some(result) = along(&flat, 0).reshape(shape) {
+                return ReductionResult::Array(PyRumpyArray::new(result));
+            }
+        }
+    }
+    ReductionResult::Scalar(scalar(arr))
+}
+
 /// Helper for axis reductions with keepdims support.
 fn axis_reduction_with_keepdims(
     result: RumpyArray,
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 3912a0b..2605b18 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -102,7 +102,7 @@ where
 pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.sum())),
+        None => Ok(pyarray::full_reduction(&x.inner, false, RumpyArray::sum, RumpyArray::sum_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.sum_axis(ax_vec[0]))))
         }
@@ -119,7 +119,7 @@ pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.prod())),
+        None => Ok(pyarray::full_reduction(&x.inner, false, RumpyArray::prod, RumpyArray::prod_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.prod_axis(ax_vec[0]))))
         }
@@ -136,7 +136,7 @@ pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.mean())),
+        None => Ok(pyarray::full_reduction(&x.inner, false, RumpyArray::mean, RumpyArray::mean_axis)),
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.mean_axis(ax_vec[0]))))
         }
-- 
2.43.0


From ea22fa02446ab79f07681486bd1b01a03fb4c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:50 +0000
Subject: [PATCH 13/51] fix: gradient wrote through the input's strides (heap
 corruption), cumulative_* of empty arrays crashed, cumsum/diff of small ints
 and complex, mixed-dtype concatenate read out of bounds, convolve/correlate
 modes, nan-reductions of all-NaN or infinite lanes

---
 src/array/manipulation.rs           |  18 +++--
 src/ops/array_methods/cumulative.rs | 115 +++++-----------------------
 src/ops/array_methods/reductions.rs |  18 +++--
 src/ops/kernels/arithmetic.rs       |   8 +-
 src/ops/numerical.rs                |  40 ++++++----
 src/ops/statistics.rs               |   4 +-
 src/python/misc.rs                  |   8 +-
 7 files changed, 81 insertions(+), 130 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 1fce611..e1c88b8 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -2,7 +2,7 @@
 
 use std::sync::Arc;
 
-use super::dtype::DType;
+use super::dtype::{promote_dtype, DType};
 use super::{increment_indices, RumpyArray};
 
 /// Concatenate arrays along an axis.
@@ -35,9 +35,10 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     let mut out_shape = first.shape().to_vec();
     out_shape[axis] = arrays.iter().map(|a| a.shape()[axis]).sum();
 
-    // Use dtype of first array (TODO: dtype promotion)
-    let dtype = first.dtype();
-    let mut result = RumpyArray::zeros(out_shape, dtype);
+    let dtype = arrays.iter().skip(1).fold(first.dtype(), |d, arr| {
+        if arr.dtype() == d { d } else { promote_dtype(&d, &arr.dtype()) }
+    });
+    let mut result = RumpyArray::zeros(out_shape, dtype.clone());
 
     if result.size() == 0 {
         return Some(result);
@@ -50,6 +51,7 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     // Copy data from each array
     let mut axis_offset = 0usize;
     for arr in arrays {
+        let arr = if arr.dtype() == dtype { arr.clone() } else { arr.astype(dtype.clone()) };
         let size = arr.size();
         let src_ptr = arr.data_ptr();
         let mut src_indices = vec![0usize; ndim];
@@ -802,9 +804,9 @@ pub fn convolve(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArray
 
     if n == 0 || m == 0 {
         let out_len = match mode {
-            "full" => n + m - 1,
+            "full" => (n + m).saturating_sub(1),
             "same" => n,
-            "valid" => n.saturating_sub(m - 1),
+            "valid" => n.saturating_sub(m.saturating_sub(1)),
             _ => return None,
         };
         return Some(RumpyArray::zeros(vec![out_len.max(0)], DType::float64()));
@@ -844,8 +846,8 @@ pub fn convolve(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArray
     let full_len = n + m - 1;
     let (out_len, start) = match mode {
         "full" => (full_len, 0),
-        "same" => (n, (m - 1) / 2),
-        "valid" => (n.saturating_sub(m - 1).max(1), m - 1),
+        "same" => (n.max(m), (n.min(m) - 1) / 2),
+        "valid" => (n.max(m) - n.min(m) + 1, n.min(m) - 1),
         _ => return None,
     };
 
diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index d6c3c9a..0d9cf58 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -31,6 +31,7 @@ fn diff_1d_contiguous(src_ptr: *const u8, result_ptr: *mut u8, n: usize, dtype:
         DTypeKind::Int64 => diff_typed!(i64),
         DTypeKind::Int32 => diff_typed!(i32),
         DTypeKind::Int16 => diff_typed!(i16),
+        DTypeKind::Int8 => diff_typed!(i8),
         DTypeKind::Uint64 => diff_typed!(u64),
         DTypeKind::Uint32 => diff_typed!(u32),
         DTypeKind::Uint16 => diff_typed!(u16),
@@ -52,32 +53,6 @@ fn diff_1d_contiguous(src_ptr: *const u8, result_ptr: *mut u8, n: usize, dtype:
     }
 }
 
-/// Strided diff for N-D arrays along arbitrary axis.
-/// Element-by-element via DTypeOps (no vectorization benefit for strided access).
-fn diff_strided(
-    src: &RumpyArray,
-    result: &RumpyArray,
-    axis_stride: isize,
-    src_ptr: *const u8,
-    result_ptr: *mut u8,
-    dtype: &DType,
-) {
-    let out_shape = result.shape();
-    let out_size: usize = out_shape.iter().product();
-    let ops = dtype.ops();
-
-    let mut out_indices = vec![0usize; src.ndim()];
-    for i in 0..out_size {
-        let offset1 = src.byte_offset_for(&out_indices);
-        unsafe {
-            let v1 = ops.read_f64(src_ptr, offset1).unwrap_or(0.0);
-            let v2 = ops.read_f64(src_ptr, offset1 + axis_stride).unwrap_or(0.0);
-            ops.write_f64(result_ptr, i, v2 - v1);
-        }
-        increment_indices(&mut out_indices, out_shape);
-    }
-}
-
 impl RumpyArray {
     /// Calculate the n-th discrete difference along the given axis.
     pub fn diff(&self, n: usize, axis: usize) -> RumpyArray {
@@ -110,14 +85,17 @@ impl RumpyArray {
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
         let result_ptr = result_buffer.as_mut_ptr();
         let src_ptr = self.data_ptr();
-        let axis_stride = self.strides()[axis];
 
         // Fast path for 1D contiguous case
         if self.ndim() == 1 && self.is_c_contiguous() {
             diff_1d_contiguous(src_ptr, result_ptr, out_size, &dtype);
         } else {
-            // General strided case
-            diff_strided(self, &result, axis_stride, src_ptr, result_ptr, &dtype);
+            // General strided case: x[1:] - x[:-1]
+            let upper = self.slice_axis(axis, 1, axis_len as isize, 1);
+            let lower = self.slice_axis(axis, 0, axis_len as isize - 1, 1);
+            if let Ok(difference) = upper.binary_op(&lower, crate::ops::BinaryOp::Sub) {
+                result = difference;
+            }
         }
 
         // Apply recursively for n > 1
@@ -206,20 +184,20 @@ impl RumpyArray {
     /// Cumulative sum along axis (or flattened if axis is None).
     pub fn cumsum(&self, axis: Option<usize>) -> RumpyArray {
         // Try typed dispatch first
-        if let Some(result) = crate::ops::dispatch::dispatch_cumsum(self, axis) {
+        if let Some(result) = crate::ops::dispatch::dispatch_cumsum(&self.accumulator_input(), axis) {
             return result;
         }
-        // Fallback for Bool, DateTime, Float16
+        // Fallback for DateTime
         self.cumulative_op(axis, 0.0, |acc, x| acc + x)
     }
 
     /// Cumulative product along axis (or flattened if axis is None).
     pub fn cumprod(&self, axis: Option<usize>) -> RumpyArray {
         // Try typed dispatch first
-        if let Some(result) = crate::ops::dispatch::dispatch_cumprod(self, axis) {
+        if let Some(result) = crate::ops::dispatch::dispatch_cumprod(&self.accumulator_input(), axis) {
             return result;
         }
-        // Fallback for Bool, DateTime, Float16
+        // Fallback for DateTime
         self.cumulative_op(axis, 1.0, |acc, x| acc * x)
     }
 
@@ -250,6 +228,9 @@ impl RumpyArray {
     fn prepend_identity_along_axis(&self, cumulative: &RumpyArray, axis: usize, identity: f64) -> RumpyArray {
         // Try typed dispatch for common dtypes using dtype kind
         use crate::array::dtype::DTypeKind;
+        if cumulative.size() == 0 {
+            return self.prepend_identity_fallback(cumulative, axis, identity);
+        }
         match cumulative.dtype().kind() {
             DTypeKind::Float64 => self.prepend_identity_typed::<f64>(cumulative, axis, identity as f64),
             DTypeKind::Float32 => self.prepend_identity_typed::<f32>(cumulative, axis, identity as f32),
@@ -317,7 +298,7 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
+        let outer_size: usize = outer_shape.iter().product();
         let mut outer_indices = vec![0usize; outer_shape.len()];
 
         for _ in 0..outer_size {
@@ -346,68 +327,12 @@ impl RumpyArray {
         result
     }
 
-    /// Fallback implementation for unsupported dtypes.
+    /// Fallback implementation for the other dtypes.
     fn prepend_identity_fallback(&self, cumulative: &RumpyArray, axis: usize, identity: f64) -> RumpyArray {
-        let shape = cumulative.shape();
-        let ndim = shape.len();
-        let mut new_shape = shape.to_vec();
-        new_shape[axis] += 1;
-
-        let dtype = cumulative.dtype().clone();
-        let mut result = RumpyArray::zeros(new_shape.clone(), dtype.clone());
-
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-        let ops = dtype.ops();
-
-        let axis_len = shape[axis];
-
-        let mut strides = vec![1usize; ndim];
-        for i in (0..ndim - 1).rev() {
-            strides[i] = strides[i + 1] * new_shape[i + 1];
-        }
-        let axis_stride = strides[axis];
-
-        let outer_shape: Vec<usize> = shape.iter().enumerate()
-            .filter(|&(i, _)| i != axis)
-            .map(|(_, &s)| s)
-            .collect();
-
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
-        let mut outer_indices = vec![0usize; outer_shape.len()];
-
-        for _ in 0..outer_size {
-            let mut result_indices: Vec<usize> = Vec::with_capacity(ndim);
-            let mut oi = 0;
-            for i in 0..ndim {
-                if i == axis {
-                    result_indices.push(0);
-                } else {
-                    result_indices.push(outer_indices[oi]);
-                    oi += 1;
-                }
-            }
-
-            let mut base_flat = 0;
-            for i in 0..ndim {
-                base_flat += result_indices[i] * strides[i];
-            }
-
-            unsafe { ops.write_f64(result_ptr, base_flat, identity); }
-
-            for j in 0..axis_len {
-                let src_indices: Vec<usize> = result_indices.iter().enumerate()
-                    .map(|(i, &idx)| if i == axis { j } else { idx })
-                    .collect();
-                let src_val = cumulative.get_element(&src_indices);
-                let dst_flat = base_flat + (j + 1) * axis_stride;
-                unsafe { ops.write_f64(result_ptr, dst_flat, src_val); }
-            }
-
-            increment_indices(&mut outer_indices, &outer_shape);
-        }
-
-        result
+        let mut shape = cumulative.shape().to_vec();
+        shape[axis] = 1;
+        let initial = RumpyArray::full(shape, identity, cumulative.dtype());
+        crate::array::concatenate(&[initial, cumulative.clone()], axis).expect("shapes match")
     }
 
     /// Calculate flat index for given n-dimensional indices (C-order).
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index ce3d991..e3c23eb 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -13,7 +13,7 @@ impl RumpyArray {
     // ========================================================================
 
     /// Integers and bools are summed and multiplied in 64 bits, like NumPy.
-    fn accumulator_input(&self) -> RumpyArray {
+    pub(crate) fn accumulator_input(&self) -> RumpyArray {
         use crate::array::dtype::DTypeKind;
         match self.dtype().kind() {
             DTypeKind::Bool | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 => self.astype(DType::int64()),
@@ -722,6 +722,11 @@ impl RumpyArray {
     /// Sum along axis, ignoring NaN values.
     pub fn nansum_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        use crate::array::dtype::DTypeKind;
+        let kind = self.dtype().kind();
+        if kind == DTypeKind::Bool || crate::ops::ufunc::is_integer_kind(&kind) {
+            return self.sum_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_sum(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut sum = 0.0;
@@ -747,6 +752,11 @@ impl RumpyArray {
     /// Product along axis, ignoring NaN values.
     pub fn nanprod_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        use crate::array::dtype::DTypeKind;
+        let kind = self.dtype().kind();
+        if kind == DTypeKind::Bool || crate::ops::ufunc::is_integer_kind(&kind) {
+            return self.prod_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_prod(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut prod = 1.0;
@@ -867,7 +877,6 @@ impl RumpyArray {
     pub fn nanmin(&self) -> f64 {
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_min(self) {
-            Some(val) if val == f64::INFINITY => f64::NAN, // All NaN case
             Some(val) => val,
             None => {
                 let (val, found) = self.nan_reduce_full(f64::INFINITY, |acc, v| acc.min(v));
@@ -900,7 +909,6 @@ impl RumpyArray {
     pub fn nanmax(&self) -> f64 {
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_max(self) {
-            Some(val) if val == f64::NEG_INFINITY => f64::NAN, // All NaN case
             Some(val) => val,
             None => {
                 let (val, found) = self.nan_reduce_full(f64::NEG_INFINITY, |acc, v| acc.max(v));
@@ -942,7 +950,7 @@ impl RumpyArray {
         let mut min_idx: Option<usize> = None;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if !val.is_nan() && val < min_val {
+            if !val.is_nan() && (min_idx.is_none() || val < min_val) {
                 min_val = val;
                 min_idx = Some(i);
             }
@@ -968,7 +976,7 @@ impl RumpyArray {
         let mut max_idx: Option<usize> = None;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if !val.is_nan() && val > max_val {
+            if !val.is_nan() && (max_idx.is_none() || val > max_val) {
                 max_val = val;
                 max_idx = Some(i);
             }
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 58006f0..3a8839a 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -321,18 +321,18 @@ macro_rules! impl_nan_reduce {
         }
         impl ReduceKernel<$T> for NanMax {
             #[inline(always)]
-            fn init() -> $T { <$T>::NEG_INFINITY }
+            fn init() -> $T { <$T>::NAN }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T {
-                if v.is_nan() { acc } else if v > acc { v } else { acc }
+                if v.is_nan() { acc } else if acc.is_nan() || v > acc { v } else { acc }
             }
         }
         impl ReduceKernel<$T> for NanMin {
             #[inline(always)]
-            fn init() -> $T { <$T>::INFINITY }
+            fn init() -> $T { <$T>::NAN }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T {
-                if v.is_nan() { acc } else if v < acc { v } else { acc }
+                if v.is_nan() { acc } else if acc.is_nan() || v < acc { v } else { acc }
             }
         }
     };
diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 7cc0454..f4f55d9 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -48,7 +48,8 @@ macro_rules! impl_typed_loops {
             for i in 1..n - 1 {
                 let v_prev = *src.offset((i as isize - 1) * src_step) as f64;
                 let v_next = *src.offset((i as isize + 1) * src_step) as f64;
-                *out.offset(i as isize * out_step) = (v_next - v_prev) / (x[i + 1] - x[i - 1]);
+                let v = *src.offset(i as isize * src_step) as f64;
+                *out.offset(i as isize * out_step) = central_difference(v_prev, v, v_next, x[i] - x[i - 1], x[i + 1] - x[i]);
             }
 
             let v_last = *src.offset((n as isize - 1) * src_step) as f64;
@@ -91,19 +92,25 @@ impl_typed_loops!(gradient_loop_u32, gradient_coords_loop_u32, trapezoid_loop_u3
 impl_typed_loops!(gradient_loop_u16, gradient_coords_loop_u16, trapezoid_loop_u16, u16);
 impl_typed_loops!(gradient_loop_u8, gradient_coords_loop_u8, trapezoid_loop_u8, u8);
 
+/// Second-order central difference with unequal steps `hs` (before) and `hd` (after).
+#[inline]
+fn central_difference(prev: f64, v: f64, next: f64, hs: f64, hd: f64) -> f64 {
+    (hs * hs * next + (hd * hd - hs * hs) * v - hd * hd * prev) / (hs * hd * (hs + hd))
+}
+
 // ============================================================================
 // Gradient
 // ============================================================================
 
 /// Compute numerical gradient of an array.
 pub fn gradient(f: &RumpyArray, spacing: Option<f64>, axis: Option<usize>) -> Option<Vec<RumpyArray>> {
-    if f.size() == 0 || f.shape().iter().any(|&d| d < 2) {
+    if f.size() == 0 || (axis.is_none() && f.shape().iter().any(|&d| d < 2)) {
         return None;
     }
 
     let sp = spacing.unwrap_or(1.0);
     match axis {
-        Some(ax) if ax < f.ndim() => Some(vec![gradient_axis(f, sp, ax)]),
+        Some(ax) if ax < f.ndim() && f.shape()[ax] >= 2 => Some(vec![gradient_axis(f, sp, ax)]),
         Some(_) => None,
         None => Some((0..f.ndim()).map(|ax| gradient_axis(f, sp, ax)).collect()),
     }
@@ -123,14 +130,15 @@ pub fn gradient_with_coords(f: &RumpyArray, coords: &RumpyArray, axis: usize) ->
     }
 
     let x = read_to_f64_vec(coords);
+    let out_bases: Vec<isize> = result.axis_offsets(axis).collect();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), &x, n, src_stride, out_stride); }
+            for (base, out_base) in f.axis_offsets(axis).zip(out_bases) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out_base), &x, n, src_stride, out_stride); }
             }
         };
     }
@@ -159,6 +167,7 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
         return result;
     }
 
+    let out_bases: Vec<isize> = result.axis_offsets(axis).collect();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
@@ -166,8 +175,8 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), n, h, h2, src_stride, out_stride); }
+            for (base, out_base) in f.axis_offsets(axis).zip(out_bases) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out_base), n, h, h2, src_stride, out_stride); }
             }
         };
     }
@@ -193,6 +202,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
     let n = shape[axis];
     let mut result = RumpyArray::zeros(shape.to_vec(), DType::float64());
 
+    let out_bases: Vec<isize> = result.axis_offsets(axis).collect();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let axis_stride = f.strides()[axis];
@@ -200,14 +210,14 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
     let f_dtype = f.dtype();
     let f_ops = f_dtype.ops();
 
-    for base in f.axis_offsets(axis) {
+    for (base, out_base) in f.axis_offsets(axis).zip(out_bases) {
         let vals = read_axis_values(f.data_ptr(), base, axis_stride, n, &*f_ops);
         let mut grad = vec![0.0; n];
 
         if let Some(x) = x {
             grad[0] = (vals[1] - vals[0]) / (x[1] - x[0]);
             for i in 1..n - 1 {
-                grad[i] = (vals[i + 1] - vals[i - 1]) / (x[i + 1] - x[i - 1]);
+                grad[i] = central_difference(vals[i - 1], vals[i], vals[i + 1], x[i] - x[i - 1], x[i + 1] - x[i]);
             }
             grad[n - 1] = (vals[n - 1] - vals[n - 2]) / (x[n - 1] - x[n - 2]);
         } else {
@@ -221,7 +231,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
         }
 
         for (i, &val) in grad.iter().enumerate() {
-            let idx = (base + i as isize * out_stride) / 8;
+            let idx = (out_base + i as isize * out_stride) / 8;
             unsafe { *result_ptr.offset(idx) = val; }
         }
     }
@@ -379,8 +389,10 @@ pub fn interp(
 #[inline]
 fn interp_single(xi: f64, xp: &[f64], fp: &[f64], left: f64, right: f64) -> f64 {
     let n = xp.len();
-    if xi <= xp[0] { return left; }
-    if xi >= xp[n - 1] { return right; }
+    if xi.is_nan() { return f64::NAN; }
+    if xi < xp[0] { return left; }
+    if xi > xp[n - 1] { return right; }
+    if xi == xp[n - 1] { return fp[n - 1]; }
 
     let (mut lo, mut hi) = (0, n - 1);
     while hi - lo > 1 {
@@ -425,8 +437,8 @@ pub fn correlate(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArra
 
     let (out_len, start) = match mode {
         "full" => (n + m - 1, 0),
-        "same" => (n, (m - 1) / 2),
-        "valid" => (n.saturating_sub(m - 1).max(1), m - 1),
+        "same" => (n.max(m), if n < m { n / 2 } else { (m - 1) / 2 }),
+        "valid" => (n.max(m) - n.min(m) + 1, n.min(m) - 1),
         _ => return None,
     };
 
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 7642503..e8fff4f 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -321,14 +321,14 @@ pub fn cov(arr: &RumpyArray, ddof: usize) -> RumpyArray {
     if arr.ndim() == 1 {
         let n = arr.size();
         if n <= ddof {
-            return RumpyArray::from_vec(vec![f64::NAN], DType::float64());
+            return RumpyArray::full(vec![], f64::NAN, DType::float64());
         }
         let mean = arr.mean();
         // Use to_vec for fast access, then compute variance
         let values = arr.to_vec();
         let sum_sq: f64 = values.iter().map(|&v| (v - mean) * (v - mean)).sum();
         let var = sum_sq / (n - ddof) as f64;
-        return RumpyArray::from_vec(vec![var], DType::float64());
+        return RumpyArray::full(vec![], var, DType::float64());
     }
 
     // 2D case: each row is a variable
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 18ec667..868240a 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -1147,9 +1147,13 @@ pub fn unwrap(
             let diff = curr_val - prev;
 
             // Check for discontinuity
-            if diff.abs() > discont {
+            if diff.abs() >= discont {
                 // Calculate correction to bring diff into [-period/2, period/2]
-                let correction = ((diff + period / 2.0) / period).floor() * period;
+                let mut correction = ((diff + period / 2.0) / period).floor() * period;
+                // An exact half-period jump keeps its direction
+                if diff > 0.0 && diff - correction == -period / 2.0 {
+                    correction -= period;
+                }
                 cumulative_correction -= correction;
             }
 
-- 
2.43.0


From fc57dcba3cfbef74d923630a3db416d549c847f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:53 +0000
Subject: [PATCH 14/51] fix: logaddexp and logaddexp2 of an infinity and NaN
 returned the infinity

---
 src/ops/kernels/arithmetic.rs | 8 ++++----
 src/ops/ufunc.rs              | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 3a8839a..a30aecc 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -271,14 +271,14 @@ macro_rules! impl_float_arithmetic {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
                 let max = a.max(b);
-                if max.is_infinite() { max } else { max + ((-((a - b).abs())).exp()).ln_1p() }
+                if max.is_infinite() && !a.is_nan() && !b.is_nan() { max } else { max + ((-((a - b).abs())).exp()).ln_1p() }
             }
         }
         impl BinaryKernel<$T> for Logaddexp2 {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
                 let max = a.max(b);
-                if max.is_infinite() { max } else { max + (2.0 as $T).powf(-(a - b).abs()).ln_1p() / (2.0 as $T).ln() }
+                if max.is_infinite() && !a.is_nan() && !b.is_nan() { max } else { max + (2.0 as $T).powf(-(a - b).abs()).ln_1p() / (2.0 as $T).ln() }
             }
         }
         impl BinaryKernel<$T> for Nextafter {
@@ -455,7 +455,7 @@ impl BinaryKernel<f16> for Logaddexp {
         let af = a.to_f32();
         let bf = b.to_f32();
         let max = af.max(bf);
-        if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + ((-((af - bf).abs())).exp()).ln_1p()) }
+        if max.is_infinite() && !af.is_nan() && !bf.is_nan() { f16::from_f32(max) } else { f16::from_f32(max + ((-((af - bf).abs())).exp()).ln_1p()) }
     }
 }
 impl BinaryKernel<f16> for Logaddexp2 {
@@ -464,7 +464,7 @@ impl BinaryKernel<f16> for Logaddexp2 {
         let af = a.to_f32();
         let bf = b.to_f32();
         let max = af.max(bf);
-        if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + 2.0f32.powf(-(af - bf).abs()).ln_1p() / 2.0f32.ln()) }
+        if max.is_infinite() && !af.is_nan() && !bf.is_nan() { f16::from_f32(max) } else { f16::from_f32(max + 2.0f32.powf(-(af - bf).abs()).ln_1p() / 2.0f32.ln()) }
     }
 }
 impl BinaryKernel<f16> for Nextafter {
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index c699438..6dfcdf1 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -463,12 +463,12 @@ pub fn map_binary_op_inplace(
                     BinaryOp::Copysign => av.copysign(bv),
                     BinaryOp::Logaddexp => {
                         let m = av.max(bv);
-                        if m.is_infinite() { m } else { m + (1.0 + (-(av - bv).abs()).exp()).ln() }
+                        if m.is_infinite() && !av.is_nan() && !bv.is_nan() { m } else { m + (1.0 + (-(av - bv).abs()).exp()).ln() }
                     }
                     BinaryOp::Logaddexp2 => {
                         let m = av.max(bv);
                         let ln2 = std::f64::consts::LN_2;
-                        if m.is_infinite() { m } else { m + ((1.0 + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
+                        if m.is_infinite() && !av.is_nan() && !bv.is_nan() { m } else { m + ((1.0 + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
                     }
                     BinaryOp::Nextafter => {
                         if av.is_nan() || bv.is_nan() { f64::NAN }
-- 
2.43.0


From d2d7baca43f49e91cdf555b782da9132fab70a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 15/51] fix: repeat/tile/roll/pad/fill went through float64
 (complex and large integers lost), insert/delete of negative or out-of-range
 positions, multi-axis moveaxis order, squeeze to 0-d, block axes, item/flat
 scalar types

---
 src/array/manipulation.rs |  81 +++++++++++++--------------
 src/array/views.rs        |   7 +--
 src/ops/mod.rs            |   4 --
 src/python/misc.rs        |  72 ++++++++++++------------
 src/python/pyarray/mod.rs | 114 ++++++++------------------------------
 src/python/shape.rs       |  21 ++++++-
 6 files changed, 114 insertions(+), 185 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index e1c88b8..950c508 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -911,10 +911,6 @@ fn linear_index(indices: &[usize], shape: &[usize]) -> usize {
 /// Repeat elements of an array.
 /// If axis is None, flatten and repeat. Otherwise repeat along axis.
 pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<RumpyArray> {
-    if repeats == 0 {
-        return Some(RumpyArray::zeros(vec![0], arr.dtype()));
-    }
-
     match axis {
         None => {
             // Flatten and repeat each element
@@ -924,7 +920,6 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let mut result = RumpyArray::zeros(vec![new_size], src_dtype.clone());
 
             let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
             let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
@@ -932,9 +927,8 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
             let mut dst_idx = 0;
             for offset in arr.iter_offsets() {
-                let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                 for _ in 0..repeats {
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_idx, val); }
+                    unsafe { dst_ops.copy_element(src_ptr, offset, dst_ptr, dst_idx); }
                     dst_idx += 1;
                 }
             }
@@ -954,7 +948,6 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
 
             let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
             let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
@@ -968,7 +961,6 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let size = arr.size();
             for _ in 0..size {
                 let src_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_offset) }.unwrap_or(0.0);
 
                 // Write this value `repeats` times along the axis
                 dst_indices.copy_from_slice(&src_indices);
@@ -976,7 +968,7 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
                 for r in 0..repeats {
                     dst_indices[axis] = base_axis_idx + r;
                     let dst_offset = linear_index(&dst_indices, &new_shape);
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                    unsafe { dst_ops.copy_element(src_ptr, src_offset, dst_ptr, dst_offset); }
                 }
 
                 increment_indices(&mut src_indices, src_shape);
@@ -989,7 +981,7 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
 /// Construct array by repeating input array by given reps.
 pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
-    if reps.is_empty() || reps.iter().all(|&r| r == 1) {
+    if reps.len() <= arr.ndim() && reps.iter().all(|&r| r == 1) {
         return arr.copy();
     }
 
@@ -1038,7 +1030,6 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
     }
 
     let src_ptr = arr.data_ptr();
-    let src_ops = src_dtype.ops();
     let dst_dtype = result.dtype();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
@@ -1063,11 +1054,10 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
             src_indices
         };
         let src_byte_offset = arr.byte_offset_for(&actual_src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
         // Destination offset (result is C-contiguous, so use linear index)
         let dst_offset = linear_index(&dst_indices, &new_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { dst_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         // Increment destination indices
         if i + 1 < dst_size {
@@ -1114,13 +1104,16 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
             // Flatten
             let flat = ravel_arr(arr);
             let size = flat.size();
-            let idx = if index < 0 { (size as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(size);
+            let idx = if index < 0 { size as isize + index } else { index };
+            if idx < 0 || idx > size as isize {
+                return None;
+            }
+            let idx = idx as usize;
 
             // Split at index, insert, concatenate
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
             let after = if idx < size { flat.slice_axis(0, idx as isize, size as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
-            let flat_vals = ravel_arr(values);
+            let flat_vals = ravel_arr(&values.astype(arr.dtype()));
 
             concatenate(&[before, flat_vals, after], 0)
         }
@@ -1132,16 +1125,29 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
             }
 
             let axis_len = arr.shape()[axis];
-            let idx = if index < 0 { (axis_len as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(axis_len);
+            let idx = if index < 0 { axis_len as isize + index } else { index };
+            if idx < 0 || idx > axis_len as isize {
+                return None;
+            }
+            let idx = idx as usize;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, idx as isize, axis_len as isize, 1);
 
             // Values need to be reshaped to match
+            let values = values.astype(arr.dtype());
             let mut val_shape = arr.shape().to_vec();
-            val_shape[axis] = values.size() / (arr.size() / axis_len).max(1);
-            let vals_reshaped = values.reshape(val_shape).unwrap_or_else(|| values.clone());
+            val_shape[axis] = 1;
+            let lane_size: usize = val_shape.iter().product();
+            if lane_size > 0 {
+                val_shape[axis] = values.size() / lane_size;
+            }
+            let vals_reshaped = if values.size() == 1 {
+                val_shape[axis] = 1;
+                values.reshape(vec![1; ndim])?.broadcast_to(&val_shape)?
+            } else {
+                values.reshape(val_shape).unwrap_or_else(|| values.clone())
+            };
 
             concatenate(&[before, vals_reshaped, after], axis)
         }
@@ -1155,13 +1161,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
         None => {
             let flat = ravel_arr(arr);
             let size = flat.size();
-            if size == 0 {
-                return Some(flat);
-            }
-            let idx = if index < 0 { (size as isize + index).max(0) as usize } else { index as usize };
-            if idx >= size {
-                return Some(flat);
+            let idx = if index < 0 { size as isize + index } else { index };
+            if idx < 0 || idx >= size as isize {
+                return None;
             }
+            let idx = idx as usize;
 
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
             let after = if idx + 1 < size { flat.slice_axis(0, (idx + 1) as isize, size as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
@@ -1176,13 +1180,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
             }
 
             let axis_len = arr.shape()[axis];
-            if axis_len == 0 {
-                return Some(arr.clone());
-            }
-            let idx = if index < 0 { (axis_len as isize + index).max(0) as usize } else { index as usize };
-            if idx >= axis_len {
-                return Some(arr.clone());
+            let idx = if index < 0 { axis_len as isize + index } else { index };
+            if idx < 0 || idx >= axis_len as isize {
+                return None;
             }
+            let idx = idx as usize;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, (idx + 1) as isize, axis_len as isize, 1);
@@ -1215,7 +1217,6 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
         "edge" => {
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
-            let src_ops = src_dtype.ops();
             let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
@@ -1238,9 +1239,8 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
                     .collect();
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
                 let dst_offset = linear_index(&dst_indices, &new_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { dst_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, &new_shape);
             }
@@ -1257,8 +1257,6 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
     let src_shape = src.shape();
 
     let src_ptr = src.data_ptr();
-    let src_dtype = src.dtype();
-    let src_ops = src_dtype.ops();
     let dst_dtype = dst.dtype();
     let buffer = Arc::get_mut(dst.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
@@ -1275,10 +1273,9 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
             .collect();
 
         let src_byte_offset = src.byte_offset_for(&src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
         let dst_offset = linear_index(&dst_indices, dst_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { dst_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         increment_indices(&mut src_indices, src_shape);
     }
@@ -1355,7 +1352,6 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(result_shape.clone(), src_dtype.clone());
             let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
             let dst_dtype = result.dtype();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
@@ -1370,10 +1366,9 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
                 src_indices[axis] = (dst_indices[axis] + axis_len - shift) % axis_len;
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
                 let dst_offset = linear_index(&dst_indices, &result_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { dst_ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, arr.shape());
             }
diff --git a/src/array/views.rs b/src/array/views.rs
index a9f64e9..91306e7 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -1,7 +1,7 @@
 //! View operations: reshape, transpose, flip, slice_axis, broadcast_to, squeeze, expand_dims.
 
 use super::flags::ArrayFlags;
-use super::{compute_c_strides, compute_f_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
+use super::{compute_c_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
 use std::sync::Arc;
 
 impl RumpyArray {
@@ -171,11 +171,6 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        // Handle scalar case (all dims were 1)
-        if new_shape.is_empty() && self.size() == 1 {
-            return self.view_with(0, vec![1], vec![self.itemsize() as isize]);
-        }
-
         self.view_with(0, new_shape, new_strides)
     }
 
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index b6cefcd..80c7c91 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -187,10 +187,6 @@ impl RumpyArray {
         assert!(axis1 < ndim, "axis1 out of bounds");
         assert!(axis2 < ndim, "axis2 out of bounds");
 
-        if axis1 == axis2 {
-            return self.copy();
-        }
-
         // Build permutation: swap axis1 and axis2
         let mut axes: Vec<usize> = (0..ndim).collect();
         axes.swap(axis1, axis2);
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 868240a..f1a2a77 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -162,60 +162,60 @@ pub fn unstack(py: Python<'_>, x: &PyRumpyArray, axis: isize) -> PyResult<Py<PyT
 /// Assemble an array from nested lists of blocks.
 #[pyfunction]
 pub fn block(arrays: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
-    // Recursively process the nested list structure
-    let result = process_block(arrays, 0)?;
+    // The innermost lists are joined along the last axis, the next level along the one before it, and so on
+    let depth = block_depth(arrays);
+    let ndim = block_ndim(arrays)?.max(depth);
+    let result = process_block(arrays, ndim, depth)?;
     Ok(PyRumpyArray::new(result))
 }
 
-fn process_block(obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<RumpyArray> {
-    // If it's a RumpyArray, return it
-    if let Ok(arr) = obj.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        return Ok(arr.inner.clone());
+/// Nesting depth of the lists (following the first elements, as all must agree).
+fn block_depth(obj: &Bound<'_, PyAny>) -> usize {
+    match obj.downcast::<PyList>() {
+        Ok(list) => 1 + list.get_item(0).map(|item| block_depth(&item)).unwrap_or(0),
+        Err(_) => 0,
     }
+}
+
+/// Largest number of dimensions among the blocks.
+fn block_ndim(obj: &Bound<'_, PyAny>) -> PyResult<usize> {
+    if let Ok(list) = obj.downcast::<PyList>() {
+        let mut ndim = 0;
+        for item in list.iter() {
+            ndim = ndim.max(block_ndim(&item)?);
+        }
+        return Ok(ndim);
+    }
+    Ok(to_rumpy_array(obj)?.ndim())
+}
 
+fn process_block(obj: &Bound<'_, PyAny>, ndim: usize, depth: usize) -> PyResult<RumpyArray> {
     // If it's a list, process recursively
     if let Ok(list) = obj.downcast::<PyList>() {
-        if list.is_empty() {
+        if list.is_empty() || depth == 0 {
             return Err(pyo3::exceptions::PyValueError::new_err(
-                "empty block list"
+                "empty or unevenly nested block list"
             ));
         }
 
-        // Process each element
         let blocks: Vec<RumpyArray> = list.iter()
-            .map(|item| process_block(&item, depth + 1))
+            .map(|item| process_block(&item, ndim, depth - 1))
             .collect::<PyResult<Vec<_>>>()?;
 
-        // Concatenate along the appropriate axis
-        // depth 0 = concatenate along last axis (horizontal)
-        // depth 1 = concatenate along first axis (vertical)
-        // etc.
-
-        // For a simple 2D block, we have depth=0 for rows, depth=1 for cols
-        // numpy's block concatenates at depth according to nesting level
-
-        if blocks.len() == 1 {
-            return Ok(blocks.into_iter().next().unwrap());
-        }
-
-        // Determine axis: for the outermost list it's axis 0, inner is axis 1, etc.
-        let max_ndim = blocks.iter().map(|b| b.ndim()).max().unwrap_or(1);
-        let axis = if depth < max_ndim { depth } else { max_ndim - 1 };
-
-        crate::array::manipulation::concatenate(&blocks, axis)
+        crate::array::manipulation::concatenate(&blocks, ndim - depth)
             .ok_or_else(|| pyo3::exceptions::PyValueError::new_err(
                 "block arrays have incompatible shapes"
             ))
     } else {
-        // Try to convert to array
-        to_rumpy_array(obj)
+        // Pad the shape with leading 1s to the common number of dimensions
+        let mut arr = to_rumpy_array(obj)?;
+        while arr.ndim() < ndim {
+            arr = arr.expand_dims(0).expect("axis 0 is valid");
+        }
+        Ok(arr)
     }
 }
 
-// ============================================================================
-// trim_zeros - trim leading/trailing zeros
-// ============================================================================
-
 /// Trim leading and/or trailing zeros from a 1-D array.
 #[pyfunction]
 #[pyo3(signature = (filt, trim="fb"))]
@@ -309,8 +309,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
             if trim.contains('f') || trim.contains('F') {
                 first = size;
                 for i in 0..size {
-                    let val = unsafe { ops.read_f64(ptr, offsets[i]) }.unwrap_or(0.0);
-                    if val != 0.0 {
+                    if unsafe { ops.is_truthy(ptr, offsets[i]) } {
                         first = i;
                         break;
                     }
@@ -321,8 +320,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
             if trim.contains('b') || trim.contains('B') {
                 last = first;
                 for i in (0..size).rev() {
-                    let val = unsafe { ops.read_f64(ptr, offsets[i]) }.unwrap_or(0.0);
-                    if val != 0.0 {
+                    if unsafe { ops.is_truthy(ptr, offsets[i]) } {
                         last = i + 1;
                         break;
                     }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 3afb1e3..e34dc98 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -386,8 +386,8 @@ impl PyRumpyArray {
     }
 
     /// Swap two axes.
-    fn swapaxes(&self, axis1: usize, axis2: usize) -> Self {
-        Self::new(self.inner.swapaxes(axis1, axis2))
+    fn swapaxes(&self, axis1: isize, axis2: isize) -> PyResult<Self> {
+        super::shape::swapaxes(self, axis1, axis2)
     }
 
     /// Create a contiguous copy of the array.
@@ -444,13 +444,13 @@ impl PyRumpyArray {
     }
 
     /// Extract a scalar from a size-1 array.
-    fn item(&self) -> PyResult<f64> {
+    fn item(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyValueError::new_err(
                 "can only convert an array of size 1 to a Python scalar",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
+        scalar_at(py, &self.inner, &vec![0; self.inner.ndim()])
     }
 
     /// Clip values to a range.
@@ -536,55 +536,10 @@ impl PyRumpyArray {
     /// Repeat elements of an array.
     #[pyo3(signature = (repeats, axis=None))]
     fn repeat(&self, repeats: usize, axis: Option<usize>) -> PyResult<Self> {
-        let arr = &self.inner;
-        let dtype = arr.dtype();
-
-        // For axis=None, flatten first; for axis=Some, validate bounds
-        let (src, ax) = match axis {
-            None => (arr.copy().reshape(vec![arr.size()]).unwrap(), 0usize),
-            Some(ax) => {
-                if ax >= arr.ndim() {
-                    return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                        "axis {} is out of bounds for array of dimension {}",
-                        ax, arr.ndim()
-                    )));
-                }
-                (arr.clone(), ax)
-            }
-        };
-
-        let shape = src.shape();
-        let mut new_shape = shape.to_vec();
-        new_shape[ax] *= repeats;
-
-        let mut result = RumpyArray::zeros(new_shape.clone(), dtype.clone());
-        let result_buffer = std::sync::Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-
-        // Fast path for 1D contiguous
-        if src.ndim() == 1 && src.is_c_contiguous() {
-            let src_ptr = src.data_ptr();
-            let itemsize = dtype.itemsize();
-            for i in 0..shape[0] {
-                let val = unsafe { dtype.ops().read_f64(src_ptr, (i * itemsize) as isize) }.unwrap_or(0.0);
-                let base = i * repeats;
-                for j in 0..repeats {
-                    unsafe { dtype.ops().write_f64(result_ptr, base + j, val); }
-                }
-            }
-        } else {
-            // General case
-            let mut out_indices = vec![0usize; src.ndim()];
-            for i in 0..result.size() {
-                let mut src_indices = out_indices.clone();
-                src_indices[ax] /= repeats;
-                let val = src.get_element(&src_indices);
-                unsafe { dtype.ops().write_f64(result_ptr, i, val); }
-                crate::array::increment_indices(&mut out_indices, &new_shape);
-            }
+        if let Some(ax) = axis {
+            check_axis(ax, self.inner.ndim())?;
         }
-
-        Ok(Self::new(result))
+        super::shape::repeat(self, repeats, axis.map(|ax| ax as isize))
     }
 
     /// Take elements from an array along an axis.
@@ -609,38 +564,8 @@ impl PyRumpyArray {
     }
 
     /// Fill the array with a scalar value (in-place).
-    fn fill(&mut self, value: f64) {
-        let size = self.inner.size();
-        if size == 0 {
-            return;
-        }
-
-        // Fast path: contiguous float64 - direct slice fill
-        if self.inner.is_c_contiguous() && self.inner.dtype().ops().name() == "float64" {
-            let ptr = self.inner.data_ptr_mut() as *mut f64;
-            let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-            slice.fill(value);
-            return;
-        }
-
-        // Fast path: other contiguous types
-        if self.inner.is_c_contiguous() {
-            let dtype = self.inner.dtype();
-            let ptr = self.inner.data_ptr_mut();
-            let ops = dtype.ops();
-            for i in 0..size {
-                unsafe { ops.write_f64(ptr, i, value); }
-            }
-        } else {
-            // Slow path: strided iteration
-            let ndim = self.inner.ndim();
-            let shape = self.inner.shape().to_vec();
-            let mut indices = vec![0usize; ndim];
-            for _ in 0..size {
-                self.inner.set_element(&indices, value);
-                crate::array::increment_indices(&mut indices, &shape);
-            }
-        }
+    fn fill(&mut self, value: &Bound<'_, PyAny>) -> PyResult<()> {
+        fill_view(&mut self.inner.clone(), value)
     }
 
     /// Return the array data as a bytes object.
@@ -1576,34 +1501,34 @@ impl PyFlatIter {
         slf
     }
 
-    fn __next__(&mut self) -> Option<f64> {
+    fn __next__(&mut self, py: Python<'_>) -> PyResult<Option<PyObject>> {
         let size = self.inner.size();
         if self.index >= size {
-            return None;
+            return Ok(None);
         }
 
         // Get element at current flat index
-        let val = self.get_flat_element(self.index);
+        let val = self.get_flat_element(py, self.index)?;
         self.index += 1;
-        Some(val)
+        Ok(Some(val))
     }
 
     fn __len__(&self) -> usize {
         self.inner.size()
     }
 
-    fn __getitem__(&self, index: isize) -> PyResult<f64> {
+    fn __getitem__(&self, py: Python<'_>, index: isize) -> PyResult<PyObject> {
         let size = self.inner.size() as isize;
         let idx = if index < 0 { size + index } else { index };
         if idx < 0 || idx >= size {
             return Err(pyo3::exceptions::PyIndexError::new_err("index out of bounds"));
         }
-        Ok(self.get_flat_element(idx as usize))
+        self.get_flat_element(py, idx as usize)
     }
 }
 
 impl PyFlatIter {
-    fn get_flat_element(&self, flat_idx: usize) -> f64 {
+    fn get_flat_element(&self, py: Python<'_>, flat_idx: usize) -> PyResult<PyObject> {
         let shape = self.inner.shape();
         let ndim = shape.len();
 
@@ -1615,6 +1540,11 @@ impl PyFlatIter {
             remaining /= shape[i];
         }
 
-        self.inner.get_element(&indices)
+        scalar_at(py, &self.inner, &indices)
     }
 }
+
+/// The element at `indices` as a Python scalar of the array's own kind.
+fn scalar_at(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
+    arr.view_with(arr.byte_offset_for(indices), vec![], vec![]).to_pylist(py)
+}
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 944d76c..d57ea9d 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -111,8 +111,21 @@ pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyRumpyArray {
 
 /// Interchange two axes of an array.
 #[pyfunction]
-pub fn swapaxes(x: &PyRumpyArray, axis1: usize, axis2: usize) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.swapaxes(axis1, axis2))
+pub fn swapaxes(x: &PyRumpyArray, axis1: isize, axis2: isize) -> PyResult<PyRumpyArray> {
+    let ndim = x.inner.ndim();
+    Ok(PyRumpyArray::new(x.inner.swapaxes(checked_axis(axis1, ndim)?, checked_axis(axis2, ndim)?)))
+}
+
+/// Resolve a possibly negative axis, refusing one that is out of range.
+pub fn checked_axis(axis: isize, ndim: usize) -> PyResult<usize> {
+    let resolved = if axis < 0 { axis + ndim as isize } else { axis };
+    if resolved < 0 || resolved >= ndim as isize {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "axis {} is out of bounds for array of dimension {}",
+            axis, ndim
+        )));
+    }
+    Ok(resolved as usize)
 }
 
 /// Move axes to new positions.
@@ -153,7 +166,9 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     let mut order: Vec<usize> = (0..ndim).filter(|x| !src.contains(x)).collect();
 
     // Insert source axes at destination positions
-    for (&s, &d) in src.iter().zip(dst.iter()) {
+    let mut moves: Vec<(usize, usize)> = dst.iter().copied().zip(src.iter().copied()).collect();
+    moves.sort();
+    for (d, s) in moves {
         order.insert(d.min(order.len()), s);
     }
 
-- 
2.43.0


From 9957edf950b6cb1b6b348f1ee20ae43c72b3753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:24 +0000
Subject: [PATCH 16/51] fix: integer-array indexing and take: index shape,
 zero-size rows, flattened default axis

---
 src/array/mod.rs    | 57 ++-------------------------------------------
 src/ops/indexing.rs | 43 +++++++++++++++++++++-------------
 2 files changed, 29 insertions(+), 71 deletions(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 1d5772c..f44b189 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -286,63 +286,10 @@ impl RumpyArray {
     /// For 1D array: selects elements at given indices.
     /// For ND array: selects along axis 0 (rows for 2D).
     pub fn select_by_indices(&self, indices: &RumpyArray) -> Option<Self> {
-        let num_indices = indices.size();
-
-        // Output shape: replace first dimension with number of indices
-        let mut out_shape = self.shape().to_vec();
-        if out_shape.is_empty() {
+        if self.ndim() == 0 {
             return None; // Can't index a scalar
         }
-        out_shape[0] = num_indices;
-
-        let mut result = Self::zeros(out_shape, self.dtype());
-        if num_indices == 0 {
-            return Some(result);
-        }
-
-        let axis_len = self.shape()[0];
-        let slice_size: usize = self.shape()[1..].iter().product::<usize>().max(1);
-
-        let buffer = Arc::get_mut(&mut result.buffer).expect("buffer must be unique");
-        let result_ptr = buffer.as_mut_ptr();
-        let ops = result.dtype.ops();
-
-        let src_ptr = self.data_ptr();
-        let mut idx_indices = vec![0usize; indices.ndim()];
-        for i in 0..num_indices {
-            let idx_val = indices.get_element(&idx_indices) as isize;
-            let idx = if idx_val < 0 {
-                (axis_len as isize + idx_val) as usize
-            } else {
-                idx_val as usize
-            };
-
-            if idx >= axis_len {
-                return None; // Index out of bounds
-            }
-
-            // Copy the slice at this index
-            let mut src_indices = vec![0usize; self.ndim()];
-            src_indices[0] = idx;
-
-            for j in 0..slice_size {
-                let src_offset = self.byte_offset_for(&src_indices);
-                unsafe { ops.copy_element(src_ptr, src_offset, result_ptr, i * slice_size + j); }
-
-                // Increment indices for dimensions 1..
-                for d in (1..self.ndim()).rev() {
-                    src_indices[d] += 1;
-                    if src_indices[d] < self.shape()[d] {
-                        break;
-                    }
-                    src_indices[d] = 0;
-                }
-            }
-
-            increment_indices(&mut idx_indices, indices.shape());
-        }
-
-        Some(result)
+        crate::ops::indexing::take(self, indices, Some(0))
     }
 
     /// Create a contiguous copy of the array.
diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index dc9e81a..5414893 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -16,7 +16,15 @@ fn normalize_index(idx: isize, len: usize) -> Option<usize> {
 
 /// Take elements from an array along an axis.
 pub fn take(arr: &RumpyArray, indices: &RumpyArray, axis: Option<usize>) -> Option<RumpyArray> {
-    let axis = axis.unwrap_or(0);
+    // Without an axis, indices address the flattened array
+    let flat;
+    let (arr, axis) = match axis {
+        Some(axis) => (arr, axis),
+        None => {
+            flat = arr.copy().reshape(vec![arr.size()])?;
+            (&flat, 0)
+        }
+    };
     if axis >= arr.ndim() {
         return None;
     }
@@ -28,9 +36,13 @@ pub fn take(arr: &RumpyArray, indices: &RumpyArray, axis: Option<usize>) -> Opti
     let mut out_shape = arr.shape().to_vec();
     out_shape[axis] = num_indices;
 
+    // The indices' own shape replaces the axis
+    let mut full_shape = arr.shape().to_vec();
+    full_shape.splice(axis..axis + 1, indices.shape().iter().copied());
+
     let result = RumpyArray::zeros(out_shape.clone(), arr.dtype());
     if num_indices == 0 {
-        return Some(result);
+        return result.reshape(full_shape);
     }
 
     // Pre-collect and validate indices
@@ -43,18 +55,17 @@ pub fn take(arr: &RumpyArray, indices: &RumpyArray, axis: Option<usize>) -> Opti
         index_values.push(normalize_index(val, axis_len)?);
     }
 
-    // Fast path: 1D contiguous case
-    if arr.ndim() == 1 && arr.is_c_contiguous() {
-        return take_1d_contiguous(arr, &index_values, result);
-    }
-
-    // Fast path: take along axis 0 with contiguous source
-    if axis == 0 && arr.is_c_contiguous() {
-        return take_axis0_contiguous(arr, &index_values, result);
-    }
-
-    // General path
-    take_general(arr, &index_values, axis, result)
+    let result = if arr.ndim() == 1 && arr.is_c_contiguous() {
+        // Fast path: 1D contiguous case
+        take_1d_contiguous(arr, &index_values, result)?
+    } else if axis == 0 && arr.is_c_contiguous() {
+        // Fast path: take along axis 0 with contiguous source
+        take_axis0_contiguous(arr, &index_values, result)?
+    } else {
+        // General path
+        take_general(arr, &index_values, axis, result)?
+    };
+    result.reshape(full_shape)
 }
 
 /// Fast path for 1D contiguous take - direct pointer indexing.
@@ -85,8 +96,8 @@ fn take_axis0_contiguous(arr: &RumpyArray, indices: &[usize], mut result: RumpyA
     let result_ptr = buffer.as_mut_ptr();
     let src_ptr = arr.data_ptr();
 
-    // Each "row" is stride[0] bytes (for contiguous, this is product of remaining dims * itemsize)
-    let row_bytes = arr.strides()[0] as usize;
+    // Each "row" is the product of the remaining dims * itemsize bytes
+    let row_bytes = arr.shape()[1..].iter().product::<usize>() * arr.dtype().itemsize();
 
     for (i, &idx) in indices.iter().enumerate() {
         unsafe {
-- 
2.43.0


From 80d4ab4053a9759868b466c5fb74f7eaa78e3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:38 +0000
Subject: [PATCH 17/51] fix:
 put/place/putmask/copyto/select/extract/choose/nonzero work for every dtype
 and layout

---
 src/ops/indexing.rs       |  50 +++++++++++------
 src/ops/mod.rs            |   6 +-
 src/python/creation.rs    |  85 ++++++++--------------------
 src/python/indexing.rs    |  73 ++++++------------------
 src/python/misc.rs        | 115 ++++++++++++++++++++++++--------------
 src/python/pyarray/mod.rs |  19 +------
 6 files changed, 153 insertions(+), 195 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 5414893..9615cb1 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -417,7 +417,7 @@ pub fn argwhere(arr: &RumpyArray) -> RumpyArray {
     let ndim = arr.ndim();
 
     if size == 0 {
-        return RumpyArray::zeros(vec![0, ndim.max(1)], DType::int64());
+        return RumpyArray::zeros(vec![0, ndim], DType::int64());
     }
 
     let ptr = arr.data_ptr();
@@ -430,10 +430,10 @@ pub fn argwhere(arr: &RumpyArray) -> RumpyArray {
         .count();
 
     if count == 0 {
-        return RumpyArray::zeros(vec![0, ndim.max(1)], DType::int64());
+        return RumpyArray::zeros(vec![0, ndim], DType::int64());
     }
 
-    let out_ndim = ndim.max(1);
+    let out_ndim = ndim;
     let mut result = RumpyArray::zeros(vec![count, out_ndim], DType::int64());
     let result_buffer = result.buffer_mut();
     let buffer = Arc::get_mut(result_buffer).expect("buffer must be unique");
@@ -503,9 +503,9 @@ pub fn flatnonzero(arr: &RumpyArray) -> RumpyArray {
 }
 
 /// Replace elements at given flat indices with given values.
-pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()> {
+pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &RumpyArray) -> Option<()> {
     let size = arr.size();
-    if indices.is_empty() {
+    if indices.is_empty() || values.size() == 0 {
         return Some(());
     }
 
@@ -516,11 +516,12 @@ pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()>
 
     let ndim = arr.ndim();
     let shape = arr.shape().to_vec();
-    let values_len = values.len();
+    // A contiguous copy in the destination's dtype
+    let values = values.astype(arr.dtype());
+    let values_len = values.size();
+    let itemsize = arr.itemsize();
 
     for (i, &flat_idx) in normalized.iter().enumerate() {
-        let val = values[i % values_len];
-
         // Convert flat index to nd indices
         let mut indices_nd = vec![0usize; ndim];
         let mut remaining = flat_idx;
@@ -529,7 +530,14 @@ pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()>
             remaining /= shape[d];
         }
 
-        arr.set_element(&indices_nd, val);
+        let offset = arr.byte_offset_for(&indices_nd);
+        unsafe {
+            std::ptr::copy_nonoverlapping(
+                values.data_ptr().add((i % values_len) * itemsize),
+                (arr.data_ptr() as *mut u8).offset(offset),
+                itemsize,
+            );
+        }
     }
 
     Some(())
@@ -551,9 +559,10 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
     let idx_ptr = indices.data_ptr();
     let idx_dtype = indices.dtype();
     let idx_ops = idx_dtype.ops();
+    // A contiguous copy in the destination's dtype
+    let values = values.astype(arr.dtype());
     let val_ptr = values.data_ptr();
-    let val_dtype = values.dtype();
-    let val_ops = val_dtype.ops();
+    let itemsize = arr.itemsize();
 
     let idx_strides = indices.strides();
     let val_strides = values.strides();
@@ -578,12 +587,17 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
         let idx_val = unsafe { idx_ops.read_i64(idx_ptr, idx_offset) }.unwrap_or(0) as isize;
         let normalized_idx = normalize_index(idx_val, axis_len)?;
 
-        let val = unsafe { val_ops.read_f64(val_ptr, val_offset) }.unwrap_or(0.0);
-
         target_indices.copy_from_slice(&idx_indices);
         target_indices[axis] = normalized_idx;
 
-        arr.set_element(&target_indices, val);
+        let offset = arr.byte_offset_for(&target_indices);
+        unsafe {
+            std::ptr::copy_nonoverlapping(
+                val_ptr.offset(val_offset),
+                (arr.data_ptr() as *mut u8).offset(offset),
+                itemsize,
+            );
+        }
 
         for d in (0..ndim).rev() {
             idx_indices[d] += 1;
@@ -605,9 +619,13 @@ pub fn choose(indices: &RumpyArray, choices: &[RumpyArray]) -> Option<RumpyArray
 
     let num_choices = choices.len();
     let out_shape = indices.shape().to_vec();
-    let out_dtype = choices[0].dtype();
+    let out_dtype = choices[1..].iter()
+        .fold(choices[0].dtype(), |acc, c| crate::array::promote_dtype(&acc, &c.dtype()));
+    let choices: Vec<RumpyArray> = choices.iter()
+        .map(|c| if c.dtype() == out_dtype { c.clone() } else { c.astype(out_dtype.clone()) })
+        .collect();
 
-    for choice in choices {
+    for choice in &choices {
         if choice.shape() != indices.shape() {
             return None;
         }
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 80c7c91..1aa0df8 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -140,9 +140,11 @@ impl RumpyArray {
 
         let mut indices = vec![0usize; ndim];
         let size = self.size();
+        let ptr = self.data_ptr();
+        let dtype = self.dtype();
+        let ops = dtype.ops();
         for _ in 0..size {
-            let val = self.get_element(&indices);
-            if val != 0.0 {
+            if unsafe { ops.is_truthy(ptr, self.byte_offset_for(&indices)) } {
                 for (dim, &idx) in indices.iter().enumerate() {
                     indices_per_dim[dim].push(idx as i64);
                 }
diff --git a/src/python/creation.rs b/src/python/creation.rs
index f8e5794..b4341ec 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -1047,76 +1047,35 @@ pub fn copyto(
     // For now, we support basic casting modes
     let _casting = casting.unwrap_or("same_kind");
 
-    // Broadcast src to dst shape if needed
-    let src_broadcasted = if src.inner.shape() != dst.inner.shape() {
-        src.inner.broadcast_to(dst.inner.shape())
-            .ok_or_else(|| {
-                pyo3::exceptions::PyValueError::new_err(
-                    "could not broadcast input array to destination shape"
-                )
-            })?
-    } else {
-        src.inner.clone()
+    let broadcast = |arr: &RumpyArray, what: &str| {
+        arr.broadcast_to(dst.inner.shape()).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err(format!("could not broadcast {} to destination shape", what))
+        })
+    };
+    // astype copies, so an overlapping source is read before anything is written
+    let source = broadcast(&src.inner.astype(dst.inner.dtype()), "input array")?;
+    let mask = match where_mask {
+        Some(m) => Some(broadcast(&m.inner.astype(crate::array::DType::bool()), "mask")?),
+        None => None,
     };
 
-    let size = dst.inner.size();
-    let shape = dst.inner.shape().to_vec();
-    if size == 0 {
-        return Ok(());
-    }
-
+    let itemsize = dst.inner.itemsize();
     let dst_ptr = dst.inner.data_ptr() as *mut u8;
-    let src_ptr = src_broadcasted.data_ptr();
-    let dst_dtype = dst.inner.dtype();
-    let src_dtype = src_broadcasted.dtype();
-    let dst_ops = dst_dtype.ops();
-    let src_ops = src_dtype.ops();
-
-    match where_mask {
+    let src_ptr = source.data_ptr();
+    let copy = |dst_off: isize, src_off: isize| unsafe {
+        std::ptr::copy_nonoverlapping(src_ptr.offset(src_off), dst_ptr.offset(dst_off), itemsize);
+    };
+    let offsets = dst.inner.iter_offsets().zip(source.iter_offsets());
+    match mask {
         Some(mask) => {
-            // Copy only where mask is True
-            let mask_broadcasted = if mask.inner.shape() != &shape[..] {
-                mask.inner.broadcast_to(&shape)
-                    .ok_or_else(|| {
-                        pyo3::exceptions::PyValueError::new_err(
-                            "could not broadcast mask to destination shape"
-                        )
-                    })?
-            } else {
-                mask.inner.clone()
-            };
-
-            let mask_ptr = mask_broadcasted.data_ptr();
-            let mask_dtype = mask_broadcasted.dtype();
-            let mask_ops = mask_dtype.ops();
-
-            for ((dst_off, src_off), mask_off) in dst.inner.iter_offsets()
-                .zip(src_broadcasted.iter_offsets())
-                .zip(mask_broadcasted.iter_offsets())
-            {
-                let mask_val = unsafe { mask_ops.read_f64(mask_ptr, mask_off) }.unwrap_or(0.0);
-                if mask_val != 0.0 {
-                    let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                    unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+            let mask_ptr = mask.data_ptr();
+            for ((dst_off, src_off), mask_off) in offsets.zip(mask.iter_offsets()) {
+                if unsafe { *mask_ptr.offset(mask_off) } != 0 {
+                    copy(dst_off, src_off);
                 }
             }
         }
-        None => {
-            // Fast path: both contiguous and same dtype - use memcpy
-            if dst_dtype == src_dtype && dst.inner.is_c_contiguous() && src_broadcasted.is_c_contiguous() {
-                let nbytes = size * dst.inner.itemsize();
-                unsafe { std::ptr::copy_nonoverlapping(src_ptr, dst_ptr, nbytes); }
-                return Ok(());
-            }
-
-            // General path: iterate with typed pointer access
-            for (dst_off, src_off) in dst.inner.iter_offsets()
-                .zip(src_broadcasted.iter_offsets())
-            {
-                let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
-            }
-        }
+        None => offsets.for_each(|(dst_off, src_off)| copy(dst_off, src_off)),
     }
 
     Ok(())
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index b00b67e..e9e9df1 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -121,6 +121,17 @@ pub fn flatnonzero(a: &PyRumpyArray) -> PyRumpyArray {
 // Modification operations
 // ============================================================================
 
+/// Convert a number, list or array argument to an array of values.
+pub(crate) fn to_values(v: &Bound<'_, pyo3::PyAny>) -> PyResult<RumpyArray> {
+    let py = v.py();
+    let item = if v.extract::<pyo3::PyRef<'_, PyRumpyArray>>().is_err() && !v.is_instance_of::<PyList>() {
+        PyList::new(py, [v])?.into_any()
+    } else {
+        v.clone()
+    };
+    Ok(creation::array_impl(py, &item, None)?.inner)
+}
+
 /// Replace values at specified flat indices.
 #[pyfunction]
 pub fn put(
@@ -145,24 +156,7 @@ pub fn put(
         ));
     };
 
-    let values: Vec<f64> = if let Ok(scalar) = v.extract::<f64>() {
-        vec![scalar]
-    } else if let Ok(list) = v.extract::<Vec<f64>>() {
-        list
-    } else if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
-        let mut result = Vec::with_capacity(size);
-        for offset in arr.inner.iter_offsets() {
-            let val = unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }
-                .unwrap_or(0.0);
-            result.push(val);
-        }
-        result
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "v must be number, array, or list",
-        ));
-    };
+    let values = to_values(v)?;
 
     crate::ops::indexing::put(&mut a.inner, &indices, &values)
         .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
@@ -386,12 +380,11 @@ pub fn unravel_index(
     } else if let Ok(list) = indices.extract::<Vec<i64>>() {
         list
     } else if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
         let ptr = arr.inner.data_ptr();
         let dtype = arr.inner.dtype();
         let ops = dtype.ops();
-        (0..size)
-            .map(|i| unsafe { ops.read_i64(ptr, (i * dtype.itemsize()) as isize) }.unwrap_or(0))
+        arr.inner.iter_offsets()
+            .map(|offset| unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0))
             .collect()
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
@@ -787,42 +780,8 @@ pub fn fill_diagonal(
         ));
     }
 
-    // Convert val to a RumpyArray to handle all dtypes uniformly
-    let val_arr: RumpyArray = if let Ok(arr) = val.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        // Cast to target dtype if needed
-        if arr.inner.dtype().ops().name() != a.inner.dtype().ops().name() {
-            arr.inner.astype(a.inner.dtype())
-        } else {
-            arr.inner.clone()
-        }
-    } else if let Ok(scalar) = val.extract::<f64>() {
-        RumpyArray::from_vec(vec![scalar], a.inner.dtype().clone())
-    } else if let Ok(list) = val.extract::<Vec<f64>>() {
-        RumpyArray::from_vec(list, a.inner.dtype().clone())
-    } else {
-        // Try extracting as complex (Python complex type)
-        if let Ok(real_attr) = val.getattr("real") {
-            if let (Ok(real), Ok(imag)) = (real_attr.extract::<f64>(), val.getattr("imag").and_then(|i| i.extract::<f64>())) {
-                // Create a complex array using full() which handles complex dtypes
-                let target_dtype = a.inner.dtype();
-                if target_dtype.ops().name().contains("complex") {
-                    // Use full_complex which handles complex dtypes properly
-                    RumpyArray::full_complex(vec![1], real, imag, target_dtype.clone())
-                } else {
-                    // For non-complex target, just use the real part
-                    RumpyArray::from_vec(vec![real], target_dtype.clone())
-                }
-            } else {
-                return Err(pyo3::exceptions::PyTypeError::new_err(
-                    "val must be scalar, list, or array",
-                ));
-            }
-        } else {
-            return Err(pyo3::exceptions::PyTypeError::new_err(
-                "val must be scalar, list, or array",
-            ));
-        }
-    };
+    // A contiguous array of the target dtype
+    let val_arr = to_values(val)?.astype(a.inner.dtype());
 
     let val_size = val_arr.size();
     let val_ptr = val_arr.data_ptr();
diff --git a/src/python/misc.rs b/src/python/misc.rs
index f1a2a77..0e9c122 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -24,6 +24,11 @@ use crate::array::dtype::DTypeKind;
 use super::{PyRumpyArray, shape::to_rumpy_array};
 
 
+/// The truth values of an array, as a bool array.
+fn as_bool(arr: &RumpyArray) -> RumpyArray {
+    if arr.dtype().kind() == DTypeKind::Bool { arr.clone() } else { arr.astype(DType::bool()) }
+}
+
 /// Resolve a potentially negative axis to a positive index.
 fn resolve_axis(axis: isize, ndim: usize) -> PyResult<usize> {
     let resolved = if axis < 0 {
@@ -345,7 +350,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
 /// Return elements of an array that satisfy a condition.
 #[pyfunction]
 pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
-    let cond = &condition.inner;
+    let cond = &as_bool(&condition.inner);
     let inner = &arr.inner;
 
     // Both must have same total size when flattened
@@ -407,13 +412,12 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
             DTypeKind::Uint16 => extract_typed!(u16),
             DTypeKind::Bool => extract_typed!(u8),
             _ => {
-                // Fallback for complex types
+                // Fallback for the other types
                 let ops = dtype.ops();
                 let mut dst_idx = 0usize;
                 for i in 0..size {
                     if unsafe { *cond_ptr.add(i) } != 0 {
-                        let val = unsafe { ops.read_f64(src_ptr, (i * inner.itemsize()) as isize) }.unwrap_or(0.0);
-                        unsafe { ops.write_f64(dst_ptr, dst_idx, val); }
+                        unsafe { ops.copy_element(src_ptr, (i * inner.itemsize()) as isize, dst_ptr, dst_idx); }
                         dst_idx += 1;
                     }
                 }
@@ -477,8 +481,7 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
             let mut dst_idx = 0usize;
             for i in 0..size {
                 if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { ops.read_f64(src_ptr, src_offsets[i]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, dst_idx as usize, val); }
+                    unsafe { ops.copy_element(src_ptr, src_offsets[i], dst_ptr, dst_idx); }
                     dst_idx += 1;
                 }
             }
@@ -497,8 +500,9 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
 #[pyfunction]
 pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> PyResult<()> {
     let inner = &arr.inner;
-    let mask_arr = &mask.inner;
-    let vals_arr = &vals.inner;
+    let mask_arr = &as_bool(&mask.inner);
+    // A contiguous copy in the destination's dtype
+    let vals_arr = &vals.inner.astype(inner.dtype());
 
     if mask_arr.size() != inner.size() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -514,6 +518,9 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
     let size = inner.size();
     let vals_size = vals_arr.size();
 
+    // Types without a fast path take the generic one below
+    let mut generic = false;
+
     // Fast path: all contiguous, same dtype, bool mask
     if mask_arr.is_c_contiguous() && inner.is_c_contiguous() && vals_arr.is_c_contiguous()
         && arr_dtype.kind() == vals_arr.dtype().kind()
@@ -548,9 +555,11 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
             DTypeKind::Uint8 => place_typed!(u8),
             DTypeKind::Uint16 => place_typed!(u16),
             DTypeKind::Bool => place_typed!(u8),
-            _ => {} // Fall through to generic path
+            _ => generic = true,
+        }
+        if !generic {
+            return Ok(());
         }
-        return Ok(());
     }
 
     // Strided path with typed dispatch
@@ -587,15 +596,18 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
         DTypeKind::Uint16 => place_strided_typed!(u16),
         DTypeKind::Bool => place_strided_typed!(u8),
         _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
+            // The other types: copy the bytes
+            let itemsize = arr_dtype.itemsize();
             let mut val_idx = 0usize;
             for i in 0..size {
                 if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[val_idx % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
+                    unsafe {
+                        std::ptr::copy_nonoverlapping(
+                            vals_ptr.offset(vals_offsets[val_idx % vals_size]),
+                            (arr_ptr as *mut u8).offset(arr_offsets[i]),
+                            itemsize,
+                        );
+                    }
                     val_idx += 1;
                 }
             }
@@ -614,8 +626,9 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
 #[pyfunction]
 pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) -> PyResult<()> {
     let inner = &a.inner;
-    let mask_arr = &mask.inner;
-    let vals_arr = &values.inner;
+    let mask_arr = &as_bool(&mask.inner);
+    // A contiguous copy in the destination's dtype
+    let vals_arr = &values.inner.astype(inner.dtype());
 
     if mask_arr.size() != inner.size() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -631,6 +644,9 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
     let size = inner.size();
     let vals_size = vals_arr.size();
 
+    // Types without a fast path take the generic one below
+    let mut generic = false;
+
     // Fast path: all contiguous, same dtype, bool mask
     if mask_arr.is_c_contiguous() && inner.is_c_contiguous() && vals_arr.is_c_contiguous()
         && arr_dtype.kind() == vals_arr.dtype().kind()
@@ -663,9 +679,11 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
             DTypeKind::Uint8 => putmask_typed!(u8),
             DTypeKind::Uint16 => putmask_typed!(u16),
             DTypeKind::Bool => putmask_typed!(u8),
-            _ => {} // Fall through to generic path
+            _ => generic = true,
+        }
+        if !generic {
+            return Ok(());
         }
-        return Ok(());
     }
 
     // Strided path with typed dispatch
@@ -700,14 +718,17 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
         DTypeKind::Uint16 => putmask_strided_typed!(u16),
         DTypeKind::Bool => putmask_strided_typed!(u8),
         _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
+            // The other types: copy the bytes
+            let itemsize = arr_dtype.itemsize();
             for i in 0..size {
                 if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[i % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
+                    unsafe {
+                        std::ptr::copy_nonoverlapping(
+                            vals_ptr.offset(vals_offsets[i % vals_size]),
+                            (arr_ptr as *mut u8).offset(arr_offsets[i]),
+                            itemsize,
+                        );
+                    }
                 }
             }
         }
@@ -742,7 +763,17 @@ pub fn select(
 
     let shape = condlist[0].inner.shape().to_vec();
     let size = condlist[0].inner.size();
-    let out_dtype = choicelist[0].inner.dtype();
+    if condlist.iter().chain(&choicelist).any(|a| a.inner.shape() != &shape[..]) {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "conditions and choices must have the same shape"
+        ));
+    }
+    let out_dtype = choicelist[1..].iter()
+        .fold(choicelist[0].inner.dtype(), |acc, c| crate::array::promote_dtype(&acc, &c.inner.dtype()));
+    let condlist: Vec<RumpyArray> = condlist.iter().map(|c| as_bool(&c.inner)).collect();
+    let choicelist: Vec<RumpyArray> = choicelist.iter()
+        .map(|c| if c.inner.dtype() == out_dtype { c.inner.clone() } else { c.inner.astype(out_dtype.clone()) })
+        .collect();
 
     let mut result = RumpyArray::full(shape, default, out_dtype.clone());
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
@@ -750,18 +781,18 @@ pub fn select(
 
     // Collect offsets
     let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+        .map(|c| c.iter_offsets().collect())
         .collect();
     let choice_offsets: Vec<Vec<isize>> = choicelist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+        .map(|c| c.iter_offsets().collect())
         .collect();
 
     // Collect raw pointers
     let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
+        .map(|c| c.data_ptr())
         .collect();
     let choice_ptrs: Vec<*const u8> = choicelist.iter()
-        .map(|c| c.inner.data_ptr())
+        .map(|c| c.data_ptr())
         .collect();
 
     macro_rules! select_typed {
@@ -800,10 +831,7 @@ pub fn select(
                 for cond_idx in 0..condlist.len() {
                     let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
                     if cond_val != 0 {
-                        let choice = &choicelist[cond_idx].inner;
-                        let choice_dtype = choice.dtype();
-                        let val = unsafe { choice_dtype.ops().read_f64(choice_ptrs[cond_idx], choice_offsets[cond_idx][i]) }.unwrap_or(0.0);
-                        unsafe { dst_ops.write_f64(dst_ptr, i, val); }
+                        unsafe { dst_ops.copy_element(choice_ptrs[cond_idx], choice_offsets[cond_idx][i], dst_ptr, i); }
                         break;
                     }
                 }
@@ -846,6 +874,13 @@ pub fn piecewise(
         ));
     }
 
+    if condlist.iter().any(|c| c.inner.shape() != &shape[..]) {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "conditions must have the same shape as x"
+        ));
+    }
+    let condlist: Vec<RumpyArray> = condlist.iter().map(|c| as_bool(&c.inner)).collect();
+
     let mut result = RumpyArray::zeros(shape, dtype.clone());
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
@@ -855,10 +890,10 @@ pub fn piecewise(
 
     // Collect condition pointers and offsets
     let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
+        .map(|c| c.data_ptr())
         .collect();
     let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+        .map(|c| c.iter_offsets().collect())
         .collect();
 
     let mut assigned = vec![false; size];
@@ -877,7 +912,7 @@ pub fn piecewise(
                 DTypeKind::Int16 => unsafe { *(dst_ptr as *mut i16).add($idx) = $val as i16; },
                 DTypeKind::Uint8 => unsafe { *(dst_ptr as *mut u8).add($idx) = $val as u8; },
                 DTypeKind::Uint16 => unsafe { *(dst_ptr as *mut u16).add($idx) = $val as u16; },
-                DTypeKind::Bool => unsafe { *(dst_ptr as *mut u8).add($idx) = $val as u8; },
+                DTypeKind::Bool => unsafe { *(dst_ptr as *mut u8).add($idx) = ($val != 0.0) as u8; },
                 _ => unsafe { dtype.ops().write_f64(dst_ptr, $idx, $val); }
             }
         }};
@@ -897,7 +932,7 @@ pub fn piecewise(
         }
     };
 
-    // Process each condition/function pair
+    // Process each condition/function pair; where several hold, the last one wins
     for cond_idx in 0..condlist.len() {
         let func_item = funclist.get_item(cond_idx)?;
         let constant_val: Option<f64> = if !func_item.is_callable() {
@@ -907,8 +942,6 @@ pub fn piecewise(
         };
 
         for i in 0..size {
-            if assigned[i] { continue; }
-
             let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
             if cond_val != 0 {
                 let val = constant_val.map_or_else(|| call_func(&func_item, i), Ok)?;
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index e34dc98..3702406 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -558,8 +558,8 @@ impl PyRumpyArray {
     /// Set values at indices (in-place).
     fn put(&mut self, indices: &Bound<'_, PyAny>, values: &Bound<'_, PyAny>) -> PyResult<()> {
         let idx_vec = extract_i64_vec(indices, "indices")?;
-        let val_vec = extract_f64_vec(values, "values")?;
-        crate::ops::indexing::put(&mut self.inner, &idx_vec, &val_vec)
+        let values = super::indexing::to_values(values)?;
+        crate::ops::indexing::put(&mut self.inner, &idx_vec, &values)
             .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
     }
 
@@ -964,20 +964,7 @@ fn extract_i64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<i64>> {
         list.iter().map(|x| x.extract::<i64>()).collect()
     } else if let Ok(arr) = obj.extract::<PyRef<'_, PyRumpyArray>>() {
         Ok(arr.inner.iter_offsets()
-            .map(|offset| unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }.unwrap_or(0.0) as i64)
-            .collect())
-    } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(format!("{} must be list or array", name)))
-    }
-}
-
-/// Extract f64 values from a Python list or array.
-fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
-    if let Ok(list) = obj.downcast::<PyList>() {
-        list.iter().map(|x| x.extract::<f64>()).collect()
-    } else if let Ok(arr) = obj.extract::<PyRef<'_, PyRumpyArray>>() {
-        Ok(arr.inner.iter_offsets()
-            .map(|offset| unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }.unwrap_or(0.0))
+            .map(|offset| unsafe { arr.inner.dtype().ops().read_i64(arr.inner.data_ptr(), offset) }.unwrap_or(0))
             .collect())
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(format!("{} must be list or array", name)))
-- 
2.43.0


From e167a0c23ba4e6ee1248dd0abafbe077c2013827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:30 +0000
Subject: [PATCH 18/51] fix: array() infers dtype from every element, rejects
 ragged lists, accepts complex, converts imported values to the requested
 dtype

---
 src/python/creation.rs | 227 ++++++++++++++++++++---------------------
 1 file changed, 111 insertions(+), 116 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index b4341ec..cebcffe 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -3,7 +3,7 @@
 use pyo3::prelude::*;
 use pyo3::types::PyList;
 
-use crate::array::{increment_indices, DType, RumpyArray};
+use crate::array::{increment_indices, DType, DTypeKind, RumpyArray};
 use super::{parse_dtype, parse_dtype_any, parse_shape, PyRumpyArray};
 
 /// Helper to parse optional dtype argument.
@@ -333,6 +333,11 @@ pub fn array_impl(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'
         return from_list(list, dtype);
     }
 
+    // A tuple of numbers is like a list
+    if let Ok(tuple) = obj.downcast::<pyo3::types::PyTuple>() {
+        return from_list(&tuple.to_list(), dtype);
+    }
+
     // Try to iterate as a sequence
     if let Ok(seq) = obj.try_iter() {
         let items: Vec<f64> = seq
@@ -365,10 +370,10 @@ fn from_array_interface(
 
     // Extract typestr to determine dtype
     let typestr: String = interface.get_item("typestr")?.extract()?;
-    let dtype = if let Some(dt) = dtype_override {
-        parse_dtype_any(dt)?
-    } else {
-        dtype_from_typestr(&typestr)?
+    let dtype = dtype_from_typestr(&typestr)?;
+    let target_dtype = match dtype_override {
+        Some(dt) => parse_dtype_any(dt)?,
+        None => dtype.clone(),
     };
 
     // Extract data pointer
@@ -395,7 +400,7 @@ fn from_array_interface(
     let mut arr = RumpyArray::zeros(shape.clone(), dtype);
 
     if size == 0 {
-        return Ok(PyRumpyArray::new(arr));
+        return Ok(PyRumpyArray::new(RumpyArray::zeros(shape, target_dtype)));
     }
 
     // Copy data respecting strides
@@ -425,40 +430,52 @@ fn from_array_interface(
         increment_indices(&mut indices, &shape);
     }
 
+    // Convert the values (not the bytes) to the requested dtype
+    if dtype != target_dtype {
+        arr = arr.astype(target_dtype);
+    }
     Ok(PyRumpyArray::new(arr))
 }
 
-/// Infer dtype from first element of a Python list.
+/// Infer a dtype that holds every element of a (possibly nested) Python list.
 fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
-    if list.is_empty() {
-        return Some(DType::float64());
-    }
-    let first = list.get_item(0).ok()?;
-    // Recurse into nested lists
-    if let Ok(sublist) = first.downcast::<PyList>() {
-        return infer_dtype_from_list(sublist);
-    }
-    // Check type of first element - order matters: bool before int!
-    if first.is_instance_of::<pyo3::types::PyBool>() {
-        return Some(DType::bool());
-    }
-    if first.is_instance_of::<pyo3::types::PyInt>() {
-        return Some(DType::int64());
-    }
-    if first.is_instance_of::<pyo3::types::PyFloat>() {
-        return Some(DType::float64());
-    }
-    // Check for strings - compute max length from all elements
-    if first.is_instance_of::<pyo3::types::PyString>() {
-        let max_len = compute_max_string_length(list).unwrap_or(0);
-        return Some(DType::str_(max_len));
-    }
-    // Check for bytes
-    if first.is_instance_of::<pyo3::types::PyBytes>() {
-        let max_len = compute_max_bytes_length(list).unwrap_or(0);
-        return Some(DType::bytes_(max_len));
+    let mut result: Option<DType> = None;
+    for item in list.iter() {
+        let dtype = if let Ok(sublist) = item.downcast::<PyList>() {
+            if sublist.is_empty() {
+                continue;
+            }
+            infer_dtype_from_list(sublist)?
+        // Order matters: bool before int!
+        } else if item.is_instance_of::<pyo3::types::PyBool>() {
+            DType::bool()
+        } else if item.is_instance_of::<pyo3::types::PyInt>() {
+            if item.extract::<i64>().is_err() && item.extract::<u64>().is_ok() {
+                DType::uint64()
+            } else {
+                DType::int64()
+            }
+        } else if item.is_instance_of::<pyo3::types::PyComplex>() {
+            DType::complex128()
+        } else if item.is_instance_of::<pyo3::types::PyString>() {
+            // Compute max length from all elements
+            return Some(DType::str_(compute_max_string_length(list).unwrap_or(0)));
+        } else if item.is_instance_of::<pyo3::types::PyBytes>() {
+            return Some(DType::bytes_(compute_max_bytes_length(list).unwrap_or(0)));
+        } else {
+            DType::float64()
+        };
+        result = Some(match result {
+            None => dtype,
+            Some(acc) if acc == dtype => acc,
+            // The longest string or bytes of the nested lists
+            Some(acc) if matches!(dtype.kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_)) => {
+                if dtype.itemsize() > acc.itemsize() { dtype } else { acc }
+            }
+            Some(acc) => crate::array::promote_dtype(&acc, &dtype),
+        });
     }
-    Some(DType::float64())
+    result.or(Some(DType::float64()))
 }
 
 /// Compute the maximum string length in a (possibly nested) list.
@@ -493,7 +510,7 @@ fn compute_max_bytes_length(list: &Bound<'_, PyList>) -> Option<usize> {
 
 /// Create array from Python list.
 pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    use crate::array::dtype::{DTypeKind, parse_datetime64};
+    use crate::array::dtype::parse_datetime64;
 
     let dtype = match dtype {
         Some(dt) => parse_dtype_any(dt)?,
@@ -561,121 +578,99 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
         return Ok(PyRumpyArray::new(RumpyArray::from_vec_bytes(data, dtype)));
     }
 
-    if first.downcast::<PyList>().is_ok() {
-        // Nested list - recursively get shape and flatten
-        // Try integer path for integer dtypes, fall back to f64
-        if dtype.is_integer() {
-            if let Ok((shape, data)) = flatten_nested_list_i64(list) {
-                return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
-            }
+    if matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+        let (shape, data) = flatten_nested_list_complex(list)?;
+        let mut arr = RumpyArray::zeros(shape, dtype.clone());
+        let ptr = arr.data_ptr_mut();
+        for (i, &(re, im)) in data.iter().enumerate() {
+            unsafe { dtype.ops().write_complex(ptr, i, re, im); }
         }
-        let (shape, data) = flatten_nested_list(list)?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec_with_shape(data, shape, dtype)));
+        return Ok(PyRumpyArray::new(arr));
     }
 
-    // 1D list - try integer extraction for integer dtypes, fall back to f64
+    // Try integer path for integer dtypes (preserves large values), fall back to f64
     if dtype.is_integer() {
-        // Try extracting as i64 first (preserves large int precision)
-        let data_i64: Result<Vec<i64>, _> = list
-            .iter()
-            .map(|item| item.extract::<i64>())
-            .collect();
-        if let Ok(data) = data_i64 {
-            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
+        if let Ok((shape, data)) = flatten_nested_list_i64(list) {
+            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
         }
-        // Fall back to f64 (handles float inputs like [5.0, 2.0, ...])
     }
-    let data: Vec<f64> = list
-        .iter()
-        .map(|item| item.extract::<f64>())
-        .collect::<PyResult<Vec<f64>>>()?;
-    Ok(PyRumpyArray::new(RumpyArray::from_vec(data, dtype)))
+    let (shape, data) = flatten_nested_list(list)?;
+    Ok(PyRumpyArray::new(RumpyArray::from_vec_with_shape(data, shape, dtype)))
 }
 
-/// Flatten nested Python list, returning shape and data as f64.
-fn flatten_nested_list(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<f64>)> {
-    let mut shape = vec![list.len()];
+/// Flatten a nested Python list, returning its shape and its leaves converted by `leaf`.
+fn flatten_nested<'py, T>(
+    list: &Bound<'py, PyList>,
+    leaf: &impl Fn(&Bound<'py, PyAny>) -> PyResult<T>,
+) -> PyResult<(Vec<usize>, Vec<T>)> {
+    let mut inner_shape: Option<Vec<usize>> = None;
     let mut data = Vec::new();
 
     for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
+        let item_shape = if let Ok(sublist) = item.downcast::<PyList>() {
+            let (sub_shape, sub_data) = flatten_nested(sublist, leaf)?;
             data.extend(sub_data);
+            sub_shape
         } else {
-            data.push(item.extract::<f64>()?);
+            data.push(leaf(&item)?);
+            vec![]
+        };
+        match &inner_shape {
+            None => inner_shape = Some(item_shape),
+            Some(shape) if *shape == item_shape => {}
+            Some(_) => return Err(pyo3::exceptions::PyValueError::new_err(
+                "inhomogeneous shape: nested lists must have equal lengths",
+            )),
         }
     }
 
+    let mut shape = vec![list.len()];
+    shape.extend(inner_shape.unwrap_or_default());
     Ok((shape, data))
 }
 
-/// Flatten nested Python list, returning shape and data as i64.
-fn flatten_nested_list_i64(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<i64>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
+/// Flatten nested Python list, returning shape and data as f64.
+fn flatten_nested_list(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<f64>)> {
+    flatten_nested(list, &|item| item.extract::<f64>())
+}
 
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_i64(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<i64>()?);
-        }
-    }
+/// Flatten nested Python list, returning shape and data as i64 (the bits of larger u64 values).
+fn flatten_nested_list_i64(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<i64>)> {
+    flatten_nested(list, &|item| {
+        item.extract::<i64>().or_else(|_| item.extract::<u64>().map(|v| v as i64))
+    })
+}
 
-    Ok((shape, data))
+/// Flatten nested Python list, returning shape and data as (real, imag) pairs.
+fn flatten_nested_list_complex(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<(f64, f64)>)> {
+    use pyo3::types::PyComplexMethods;
+    flatten_nested(list, &|item| match item.downcast::<pyo3::types::PyComplex>() {
+        Ok(c) => Ok((c.real(), c.imag())),
+        Err(_) => Ok((item.extract::<f64>()?, 0.0)),
+    })
 }
 
 /// Flatten nested Python list, returning shape and data as String.
 fn flatten_nested_list_str(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<String>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_str(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<String>()?);
-        }
-    }
-
-    Ok((shape, data))
+    flatten_nested(list, &|item| item.extract::<String>())
 }
 
 /// Flatten nested Python list, returning shape and data as Vec<u8> (bytes).
 fn flatten_nested_list_bytes(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<Vec<u8>>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_bytes(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<Vec<u8>>()?);
-        }
-    }
-
-    Ok((shape, data))
+    flatten_nested(list, &|item| item.extract::<Vec<u8>>())
 }
 
 /// Parse dtype from numpy typestr.
 fn dtype_from_typestr(typestr: &str) -> PyResult<DType> {
     use crate::array::dtype::TimeUnit;
 
+    if typestr.starts_with('>') {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "Unsupported byte order: {}",
+            typestr
+        )));
+    }
+
     // Handle datetime64: "<M8[ns]", "<M8[us]", etc.
     if typestr.starts_with("<M8[") || typestr.starts_with(">M8[") {
         // Extract unit from M8[unit]
-- 
2.43.0


From e70dddb23b1dfcb5b2e18c6b46c994f5ca102c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:08 +0000
Subject: [PATCH 19/51] fix: sort/argsort/unique/partition/set operations went
 through float64 (lost large integers, panicked on NaN, zeroed complex) and
 dropped NaN ordering; method sort did not write in place

---
 src/array/dtype/complex128.rs    |  10 +-
 src/array/dtype/complex64.rs     |  10 +-
 src/array/dtype/datetime64.rs    |   8 +-
 src/array/dtype/float16.rs       |   2 +-
 src/array/dtype/macros.rs        |   2 +-
 src/array/dtype/mod.rs           |   7 +
 src/ops/array_methods/mod.rs     |   1 +
 src/ops/array_methods/sorting.rs | 290 ++++++++++++++-----------------
 src/ops/set_ops.rs               | 238 ++++++++++---------------
 src/python/indexing.rs           |  34 ++--
 src/python/pyarray/mod.rs        | 166 ++++--------------
 src/python/reductions.rs         |  11 ++
 12 files changed, 319 insertions(+), 460 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 8901a46..672e2f7 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -390,12 +390,14 @@ impl DTypeOps for Complex128Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic on (real, imag); any NaN part sorts after every number
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        let rank = |re: bool, im: bool| 2 * re as u8 + im as u8;
+        rank(ar.is_nan(), ai.is_nan())
+            .cmp(&rank(br.is_nan(), bi.is_nan()))
+            .then(super::nan_last(&ar, &br))
+            .then(super::nan_last(&ai, &bi))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 19e06f9..198e731 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -387,12 +387,14 @@ impl DTypeOps for Complex64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic on (real, imag); any NaN part sorts after every number
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        let rank = |re: bool, im: bool| 2 * re as u8 + im as u8;
+        rank(ar.is_nan(), ai.is_nan())
+            .cmp(&rank(br.is_nan(), bi.is_nan()))
+            .then(super::nan_last(&ar, &br))
+            .then(super::nan_last(&ai, &bi))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index 186db18..8fb8a2e 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -232,7 +232,9 @@ impl DTypeOps for DateTime64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        Self::read(a, a_offset).cmp(&Self::read(b, b_offset))
+        // NaT sorts last
+        let (av, bv) = (Self::read(a, a_offset), Self::read(b, b_offset));
+        (av == NAT).cmp(&(bv == NAT)).then(av.cmp(&bv))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
@@ -406,7 +408,9 @@ impl DTypeOps for TimeDelta64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        Self::read(a, a_offset).cmp(&Self::read(b, b_offset))
+        // NaT sorts last
+        let (av, bv) = (Self::read(a, a_offset), Self::read(b, b_offset));
+        (av == NAT).cmp(&(bv == NAT)).then(av.cmp(&bv))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index bc4b408..61974f7 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -164,7 +164,7 @@ impl DTypeOps for Float16Ops {
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
         let av = Self::read(a, a_offset);
         let bv = Self::read(b, b_offset);
-        av.partial_cmp(&bv).unwrap_or(Ordering::Equal)
+        super::nan_last(&av, &bv)
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 3506a9d..16842e7 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -172,7 +172,7 @@ macro_rules! impl_float_dtype {
             unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> std::cmp::Ordering {
                 let av = Self::read(a, a_offset);
                 let bv = Self::read(b, b_offset);
-                av.partial_cmp(&bv).unwrap_or(std::cmp::Ordering::Equal)
+                crate::array::dtype::nan_last(&av, &bv)
             }
 
             unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 7c56589..bdc23e2 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -505,6 +505,13 @@ impl std::fmt::Debug for DType {
     }
 }
 
+/// Total order on floats for sorting: NaN compares equal to NaN and after everything else.
+#[inline]
+pub(crate) fn nan_last<T: PartialOrd>(a: &T, b: &T) -> std::cmp::Ordering {
+    #[allow(clippy::eq_op)]
+    a.partial_cmp(b).unwrap_or_else(|| (a != a).cmp(&(b != b)))
+}
+
 /// Promote two dtypes to their common type (NumPy-compatible).
 ///
 /// Rules:
diff --git a/src/ops/array_methods/mod.rs b/src/ops/array_methods/mod.rs
index 6584ed2..246c16d 100644
--- a/src/ops/array_methods/mod.rs
+++ b/src/ops/array_methods/mod.rs
@@ -10,3 +10,4 @@ pub mod unary;
 
 // Re-export lexsort as a module-level function
 pub use sorting::lexsort;
+pub(crate) use sorting::is_nan_element;
diff --git a/src/ops/array_methods/sorting.rs b/src/ops/array_methods/sorting.rs
index 4fd83d4..783c2fb 100644
--- a/src/ops/array_methods/sorting.rs
+++ b/src/ops/array_methods/sorting.rs
@@ -1,7 +1,7 @@
 //! Sorting operations on RumpyArray (sort, argsort, partition, argpartition, lexsort).
 
 use crate::array::{increment_indices, DType, RumpyArray};
-use crate::array::dtype::DTypeKind;
+use crate::array::dtype::{nan_last, DTypeKind};
 use std::sync::Arc;
 
 impl RumpyArray {
@@ -30,17 +30,18 @@ impl RumpyArray {
         values
     }
 
-    /// Return unique sorted values.
+    /// Return unique sorted values (NaNs collapse into one).
     pub fn unique(&self) -> RumpyArray {
-        let mut values = self.to_vec();
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-        values.dedup_by(|a, b| (*a - *b).abs() < f64::EPSILON);
-        RumpyArray::from_vec(values, self.dtype())
+        let flat = self.flat_copy();
+        let (starts, _) = flat.equal_runs(true);
+        flat.gather_flat(&starts)
     }
 
-    /// Return unique sorted values (same as unique, Array API compatible).
+    /// Return unique sorted values (Array API: every NaN is distinct).
     pub fn unique_values(&self) -> RumpyArray {
-        self.unique()
+        let flat = self.flat_copy();
+        let (starts, _) = flat.equal_runs(false);
+        flat.gather_flat(&starts)
     }
 
     /// Return unique sorted values with counts.
@@ -65,67 +66,95 @@ impl RumpyArray {
     /// - inverse_indices: index into values that reconstructs original (same shape as input)
     /// - counts: count of each unique value
     pub fn unique_all(&self) -> (RumpyArray, RumpyArray, RumpyArray, RumpyArray) {
-        let values = self.to_vec();
-        let n = values.len();
-        if n == 0 {
-            return (
-                RumpyArray::from_vec(Vec::<f64>::new(), self.dtype()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-            );
+        let flat = self.flat_copy();
+        let (starts, order) = flat.equal_runs(false);
+        let n = order.len();
+
+        let mut counts = vec![0i64; starts.len()];
+        let mut inverse = vec![0i64; n];
+        let mut run = 0;
+        for &pos in &order {
+            if run + 1 < starts.len() && starts[run + 1] == pos {
+                run += 1;
+            }
+            counts[run] += 1;
+            inverse[pos] = run as i64;
         }
 
-        // Create indices and sort by value
-        let mut indexed: Vec<(f64, usize)> = values.iter().copied().enumerate().map(|(i, v)| (v, i)).collect();
-        indexed.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
+        (
+            flat.gather_flat(&starts),
+            RumpyArray::from_vec_i64(starts.iter().map(|&i| i as i64).collect(), DType::int64()),
+            RumpyArray::from_vec_i64_with_shape(inverse, self.shape().to_vec(), DType::int64()),
+            RumpyArray::from_vec_i64(counts, DType::int64()),
+        )
+    }
 
-        // Collect unique values with all metadata
-        let mut unique_vals = Vec::new();
-        let mut first_indices = Vec::new();
-        let mut counts = Vec::new();
-        let mut inverse = vec![0i64; n];
+    /// Flattened (row-major), contiguous copy.
+    fn flat_copy(&self) -> RumpyArray {
+        self.copy().reshape(vec![self.size()]).expect("flatten should work")
+    }
 
-        let mut prev = indexed[0].0;
-        let mut unique_idx = 0i64;
-        let mut first_idx = indexed[0].1;
-        let mut count = 1i64;
-        inverse[indexed[0].1] = unique_idx;
-
-        for &(val, orig_idx) in &indexed[1..] {
-            if (val - prev).abs() < f64::EPSILON {
-                count += 1;
-                // Update first_idx if this occurrence is earlier
-                if orig_idx < first_idx {
-                    first_idx = orig_idx;
-                }
-                inverse[orig_idx] = unique_idx;
-            } else {
-                unique_vals.push(prev);
-                first_indices.push(first_idx as i64);
-                counts.push(count);
+    /// Gather elements of a contiguous 1-D array by position.
+    fn gather_flat(&self, positions: &[usize]) -> RumpyArray {
+        let dtype = self.dtype();
+        let itemsize = dtype.itemsize() as isize;
+        let mut result = RumpyArray::zeros(vec![positions.len()], dtype.clone());
+        let ptr = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+        for (i, &pos) in positions.iter().enumerate() {
+            unsafe { dtype.ops().copy_element(self.data_ptr(), pos as isize * itemsize, ptr, i); }
+        }
+        result
+    }
 
-                prev = val;
-                first_idx = orig_idx;
-                count = 1;
-                unique_idx += 1;
-                inverse[orig_idx] = unique_idx;
+    /// Stable-sort a contiguous 1-D array and split it into runs of equal elements.
+    /// Returns (position of the first occurrence of each run, positions in sorted order).
+    /// Unless `equal_nan`, elements that do not equal themselves each form their own run.
+    fn equal_runs(&self, equal_nan: bool) -> (Vec<usize>, Vec<usize>) {
+        let dtype = self.dtype();
+        let ptr = self.data_ptr();
+        let itemsize = dtype.itemsize() as isize;
+        let cmp = |a: usize, b: usize| unsafe {
+            dtype.ops().compare_elements(ptr, a as isize * itemsize, ptr, b as isize * itemsize)
+        };
+        let mut order: Vec<usize> = (0..self.size()).collect();
+        order.sort_by(|&a, &b| cmp(a, b));
+        let mut starts: Vec<usize> = Vec::new();
+        for (k, &pos) in order.iter().enumerate() {
+            let same = k > 0
+                && cmp(order[k - 1], pos) == std::cmp::Ordering::Equal
+                && (equal_nan || !unsafe { is_nan_element(ptr, pos as isize * itemsize, &dtype) });
+            if !same {
+                starts.push(pos);
             }
         }
-        unique_vals.push(prev);
-        first_indices.push(first_idx as i64);
-        counts.push(count);
+        (starts, order)
+    }
 
-        // Reshape inverse to match original array shape
-        let inverse_arr = RumpyArray::from_vec_i64(inverse, DType::int64());
-        let inverse_shaped = inverse_arr.reshape(self.shape().to_vec()).unwrap_or(inverse_arr);
+    /// Call `f(lane index, positions along the axis in stable sorted order)` for every
+    /// 1-D lane along `axis`.
+    fn for_each_sorted_lane(&self, axis: usize, mut f: impl FnMut(&[usize], &[usize])) {
+        let shape = self.shape();
+        let strides = self.strides();
+        let axis_len = shape[axis];
+        let axis_stride = strides[axis];
+        let dtype = self.dtype();
+        let ptr = self.data_ptr();
 
-        (
-            RumpyArray::from_vec(unique_vals, self.dtype()),
-            RumpyArray::from_vec_i64(first_indices, DType::int64()),
-            inverse_shaped,
-            RumpyArray::from_vec_i64(counts, DType::int64()),
-        )
+        let mut lane_shape = shape.to_vec();
+        lane_shape[axis] = 1;
+        let lanes: usize = lane_shape.iter().product();
+        let mut lane = vec![0usize; shape.len()];
+        let mut order: Vec<usize> = Vec::with_capacity(axis_len);
+        for _ in 0..lanes {
+            let base: isize = lane.iter().zip(strides).map(|(&i, &s)| i as isize * s).sum();
+            order.clear();
+            order.extend(0..axis_len);
+            order.sort_by(|&a, &b| unsafe {
+                dtype.ops().compare_elements(ptr, base + a as isize * axis_stride, ptr, base + b as isize * axis_stride)
+            });
+            f(&lane, &order);
+            increment_indices(&mut lane, &lane_shape);
+        }
     }
 
     /// Sort array along an axis.
@@ -140,54 +169,20 @@ impl RumpyArray {
         };
         assert!(axis < self.ndim(), "axis out of bounds");
 
-        let shape = self.shape();
-        let axis_len = shape[axis];
-        let dtype = self.dtype().clone();
-
-        let mut result = self.copy();
-        if axis_len <= 1 {
-            return result;
-        }
-
-        // For each position along other axes, sort the elements along the target axis
-        let mut out_shape: Vec<usize> = shape[..axis].to_vec();
-        out_shape.extend_from_slice(&shape[axis + 1..]);
-        let out_size: usize = out_shape.iter().product();
-
-        let ops = dtype.ops();
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-
-        let mut out_indices = vec![0usize; out_shape.len()];
-        for _ in 0..out_size {
-            // Collect values along axis
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
-            for k in 0..axis_len {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                values.push((self.get_element(&in_indices), k));
-            }
-
-            // Sort by value
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-            // Write sorted values back
-            for (k, (val, _)) in values.iter().enumerate() {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                let byte_offset = result.byte_offset_for(&in_indices);
-                let linear_idx = byte_offset as usize / dtype.itemsize();
-                unsafe { ops.write_f64(result_ptr, linear_idx, *val); }
+        let dtype = self.dtype();
+        let itemsize = dtype.itemsize();
+        let mut result = RumpyArray::zeros(self.shape().to_vec(), dtype.clone());
+        let out_strides = result.strides().to_vec();
+        let out_ptr = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+        let (src_ptr, src_strides) = (self.data_ptr(), self.strides());
+        self.for_each_sorted_lane(axis, |lane, order| {
+            let src: isize = lane.iter().zip(src_strides).map(|(&i, &s)| i as isize * s).sum();
+            let dst: isize = lane.iter().zip(&out_strides).map(|(&i, &s)| i as isize * s).sum();
+            for (k, &pos) in order.iter().enumerate() {
+                let out_idx = (dst + k as isize * out_strides[axis]) as usize / itemsize.max(1);
+                unsafe { dtype.ops().copy_element(src_ptr, src + pos as isize * src_strides[axis], out_ptr, out_idx); }
             }
-
-            increment_indices(&mut out_indices, &out_shape);
-        }
+        });
         result
     }
 
@@ -203,52 +198,15 @@ impl RumpyArray {
         };
         assert!(axis < self.ndim(), "axis out of bounds");
 
-        let shape = self.shape();
-        let axis_len = shape[axis];
-
-        let mut result = RumpyArray::zeros(shape.to_vec(), DType::int64());
-        if axis_len <= 1 {
-            // For single element, index is 0
-            return result;
-        }
-
-        let mut out_shape: Vec<usize> = shape[..axis].to_vec();
-        out_shape.extend_from_slice(&shape[axis + 1..]);
-        let out_size: usize = out_shape.iter().product();
-
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr() as *mut i64;
-
-        let mut out_indices = vec![0usize; out_shape.len()];
-        for _ in 0..out_size {
-            // Collect values along axis with their indices
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
-            for k in 0..axis_len {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                values.push((self.get_element(&in_indices), k));
-            }
-
-            // Sort by value, keeping track of original indices
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-            // Write sorted indices back
-            for (k, (_, orig_idx)) in values.iter().enumerate() {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                let byte_offset = result.byte_offset_for(&in_indices);
-                let linear_idx = byte_offset as usize / 8; // i64 is 8 bytes
-                unsafe { *result_ptr.add(linear_idx) = *orig_idx as i64; }
+        let mut result = RumpyArray::zeros(self.shape().to_vec(), DType::int64());
+        let out_strides = result.strides().to_vec();
+        let out_ptr = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr() as *mut i64;
+        self.for_each_sorted_lane(axis, |lane, order| {
+            let dst: isize = lane.iter().zip(&out_strides).map(|(&i, &s)| i as isize * s).sum();
+            for (k, &pos) in order.iter().enumerate() {
+                unsafe { *out_ptr.offset((dst + k as isize * out_strides[axis]) / 8) = pos as i64; }
             }
-
-            increment_indices(&mut out_indices, &out_shape);
-        }
+        });
         result
     }
 
@@ -306,6 +264,22 @@ impl RumpyArray {
     }
 }
 
+/// Whether an element is a floating-point or complex NaN.
+pub(crate) unsafe fn is_nan_element(ptr: *const u8, offset: isize, dtype: &DType) -> bool {
+    match dtype.kind() {
+        DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64 => {
+            dtype.ops().read_f64(ptr, offset).is_some_and(f64::is_nan)
+        }
+        DTypeKind::Complex64 | DTypeKind::Complex128 => {
+            dtype.ops().read_complex(ptr, offset).is_some_and(|(re, im)| re.is_nan() || im.is_nan())
+        }
+        DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => {
+            dtype.ops().read_i64(ptr, offset) == Some(i64::MIN)
+        }
+        _ => false,
+    }
+}
+
 /// Partition array in-place along an axis.
 /// Uses type-specific operations for best performance.
 fn partition_inplace(arr: &mut RumpyArray, kth: usize, axis: usize) {
@@ -326,11 +300,11 @@ fn partition_inplace(arr: &mut RumpyArray, kth: usize, axis: usize) {
         match dtype.kind() {
             DTypeKind::Float64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f64, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, |a, b| nan_last(a, b));
             }
             DTypeKind::Float32 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f32, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, |a, b| nan_last(a, b));
             }
             DTypeKind::Int64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut i64, axis_len) };
@@ -477,7 +451,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    nan_last(&va, &vb)
                 });
             }
             DTypeKind::Float32 => {
@@ -485,7 +459,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    nan_last(&va, &vb)
                 });
             }
             DTypeKind::Int64 => {
@@ -657,11 +631,11 @@ pub fn lexsort(keys: &[&RumpyArray]) -> Option<RumpyArray> {
                 match info.dtype.kind() {
                     DTypeKind::Float64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f64, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        nan_last(&slice[a], &slice[b])
                     }
                     DTypeKind::Float32 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f32, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        nan_last(&slice[a], &slice[b])
                     }
                     DTypeKind::Int64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const i64, n) };
diff --git a/src/ops/set_ops.rs b/src/ops/set_ops.rs
index 69a39f5..c2739cd 100644
--- a/src/ops/set_ops.rs
+++ b/src/ops/set_ops.rs
@@ -5,62 +5,81 @@
 //! Uses sorting-based algorithms (like NumPy) rather than hash-based for better performance
 //! with sorted output requirements.
 
-use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
-use std::collections::HashSet;
+use crate::ops::array_methods::is_nan_element;
+use std::cmp::Ordering;
 use std::sync::Arc;
 
-/// Collect array values as f64 Vec (for any contiguous array).
-fn collect_values(arr: &RumpyArray) -> Vec<f64> {
-    if arr.is_c_contiguous() {
-        let ptr = arr.data_ptr();
-        let size = arr.size();
-        match arr.dtype().kind() {
-            DTypeKind::Float64 => {
-                let p = ptr as *const f64;
-                (0..size).map(|i| unsafe { *p.add(i) }).collect()
-            }
-            DTypeKind::Int64 => {
-                let p = ptr as *const i64;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            DTypeKind::Int32 => {
-                let p = ptr as *const i32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
+/// Both arrays flattened and converted to their common dtype, plus that dtype.
+fn common(ar1: &RumpyArray, ar2: &RumpyArray) -> (RumpyArray, RumpyArray, DType) {
+    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
+    (ar1.astype(dtype.clone()), ar2.astype(dtype.clone()), dtype)
+}
+
+/// Compare element `i` of `a` with element `j` of `b` (contiguous, same dtype).
+fn cmp_at(a: &RumpyArray, i: usize, b: &RumpyArray, j: usize) -> Ordering {
+    let dtype = a.dtype();
+    let itemsize = dtype.itemsize() as isize;
+    unsafe {
+        dtype.ops().compare_elements(a.data_ptr(), i as isize * itemsize, b.data_ptr(), j as isize * itemsize)
+    }
+}
+
+/// Compare element `i` of `a` with element `j` of `b`; a NaN is never found equal to a NaN.
+fn cmp_distinct_nan(a: &RumpyArray, i: usize, b: &RumpyArray, j: usize) -> Ordering {
+    let dtype = a.dtype();
+    match cmp_at(a, i, b, j) {
+        Ordering::Equal if unsafe { is_nan_element(a.data_ptr(), (i * dtype.itemsize()) as isize, &dtype) } => {
+            Ordering::Less
+        }
+        ord => ord,
+    }
+}
+
+/// Merge two sorted unique arrays, keeping elements by where they occur.
+fn merge(
+    v1: &RumpyArray,
+    v2: &RumpyArray,
+    cmp: fn(&RumpyArray, usize, &RumpyArray, usize) -> Ordering,
+    only1: bool,
+    both: bool,
+    only2: bool,
+    dtype: DType,
+) -> RumpyArray {
+    let mut picked: Vec<(&RumpyArray, usize)> = Vec::new();
+    let (mut i, mut j) = (0, 0);
+    while i < v1.size() || j < v2.size() {
+        let ord = if j >= v2.size() {
+            Ordering::Less
+        } else if i >= v1.size() {
+            Ordering::Greater
+        } else {
+            cmp(v1, i, v2, j)
+        };
+        match ord {
+            Ordering::Less => {
+                if only1 { picked.push((v1, i)); }
+                i += 1;
             }
-            DTypeKind::Float32 => {
-                let p = ptr as *const f32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
+            Ordering::Greater => {
+                if only2 { picked.push((v2, j)); }
+                j += 1;
             }
-            _ => {
-                let dtype = arr.dtype();
-                let ops = dtype.ops();
-                arr.iter_offsets()
-                    .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-                    .collect()
+            Ordering::Equal => {
+                if both { picked.push((v1, i)); }
+                i += 1;
+                j += 1;
             }
         }
-    } else {
-        let dtype = arr.dtype();
-        let ops = dtype.ops();
-        let ptr = arr.data_ptr();
-        arr.iter_offsets()
-            .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-            .collect()
     }
-}
-
-/// Extract values from array as sorted unique f64 Vec.
-fn collect_sorted_unique(arr: &RumpyArray) -> Vec<f64> {
-    let mut values = collect_values(arr);
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-    values.dedup();
-    values
-}
 
-/// Build a HashSet from array values for O(1) lookup.
-fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
-    collect_values(arr).into_iter().map(|v| v.to_bits()).collect()
+    let itemsize = dtype.itemsize();
+    let mut result = RumpyArray::zeros(vec![picked.len()], dtype.clone());
+    let ptr = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    for (k, (src, pos)) in picked.into_iter().enumerate() {
+        unsafe { dtype.ops().copy_element(src.data_ptr(), (pos * itemsize) as isize, ptr, k); }
+    }
+    result
 }
 
 /// Test whether each element of `element` is also present in `test_elements`.
@@ -68,23 +87,24 @@ fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
 ///
 /// If `invert` is true, returns the inverse (elements NOT in test_elements).
 pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> RumpyArray {
-    let test_set = collect_hashset(test_elements);
-    let values = collect_values(element);
+    let (values, tests, _) = common(element, test_elements);
+    let tests = tests.unique();
 
     // Create result array with same shape as element
     let mut result = RumpyArray::zeros(element.shape().to_vec(), DType::bool());
-
-    if result.size() == 0 {
-        return result;
-    }
-
-    let buffer = result.buffer_mut();
-    let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-    let result_ptr = result_buffer.as_mut_ptr();
-
-    for (i, val) in values.iter().enumerate() {
-        let found = test_set.contains(&val.to_bits());
-        unsafe { *result_ptr.add(i) = if found != invert { 1u8 } else { 0u8 }; }
+    let result_ptr = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    for i in 0..values.size() {
+        let (mut lo, mut hi) = (0, tests.size());
+        let mut found = false;
+        while lo < hi && !found {
+            let mid = lo + (hi - lo) / 2;
+            match cmp_distinct_nan(&values, i, &tests, mid) {
+                Ordering::Less => hi = mid,
+                Ordering::Greater => lo = mid + 1,
+                Ordering::Equal => found = true,
+            }
+        }
+        unsafe { *result_ptr.add(i) = (found != invert) as u8; }
     }
 
     result
@@ -100,109 +120,29 @@ pub fn in1d(ar1: &RumpyArray, ar2: &RumpyArray, invert: bool) -> RumpyArray {
 /// Find the intersection of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in both arrays.
 pub fn intersect1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge intersection on sorted arrays
-    let mut result = Vec::with_capacity(v1.len().min(v2.len()));
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            i += 1;
-        } else if v1[i] > v2[j] {
-            j += 1;
-        } else {
-            result.push(v1[i]);
-            i += 1;
-            j += 1;
-        }
-    }
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (a, b, dtype) = common(ar1, ar2);
+    merge(&a.unique(), &b.unique(), cmp_distinct_nan, false, true, false, dtype)
 }
 
 /// Find the union of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in either array.
 pub fn union1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge union on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
-            j += 1;
-        } else {
-            result.push(v1[i]);
-            i += 1;
-            j += 1;
-        }
-    }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (a, b, dtype) = common(ar1, ar2);
+    merge(&a.unique(), &b.unique(), cmp_at, true, true, true, dtype)
 }
 
 /// Find the set difference of two arrays using sorted merge.
 /// Returns the sorted, unique values in ar1 that are not in ar2.
 pub fn setdiff1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge difference on sorted arrays (elements in v1 not in v2)
-    let mut result = Vec::with_capacity(v1.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() {
-        if j >= v2.len() || v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            j += 1;
-        } else {
-            // Equal - skip this element from v1
-            i += 1;
-            j += 1;
-        }
-    }
-
-    RumpyArray::from_vec(result, ar1.dtype())
+    let (a, b, dtype) = common(ar1, ar2);
+    merge(&a.unique(), &b.unique(), cmp_distinct_nan, true, false, false, dtype).astype(ar1.dtype())
 }
 
 /// Find the symmetric difference of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in exactly one of the arrays.
 pub fn setxor1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge symmetric difference on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
-            j += 1;
-        } else {
-            // Equal - skip both
-            i += 1;
-            j += 1;
-        }
-    }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (a, b, dtype) = common(ar1, ar2);
+    merge(&a.unique(), &b.unique(), cmp_distinct_nan, true, false, true, dtype)
 }
 
 #[cfg(test)]
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index e9e9df1..a46b562 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -305,33 +305,43 @@ pub fn setxor1d(ar1: &PyRumpyArray, ar2: &PyRumpyArray) -> PyRumpyArray {
 /// Return a sorted copy of an array.
 #[pyfunction]
 #[pyo3(signature = (x, axis=-1))]
-pub fn sort(x: &PyRumpyArray, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.sort(resolved_axis))
+pub fn sort(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|a| super::reductions::check_axis_isize(a, x.inner.ndim())).transpose()?;
+    Ok(PyRumpyArray::new(x.inner.sort(axis)))
 }
 
 /// Return indices that would sort an array.
 #[pyfunction]
 #[pyo3(signature = (x, axis=-1))]
-pub fn argsort(x: &PyRumpyArray, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.argsort(resolved_axis))
+pub fn argsort(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|a| super::reductions::check_axis_isize(a, x.inner.ndim())).transpose()?;
+    Ok(PyRumpyArray::new(x.inner.argsort(axis)))
+}
+
+/// Resolve the axis of a partition and check that `kth` lies within it.
+fn partition_axis(x: &RumpyArray, kth: usize, axis: Option<isize>) -> PyResult<Option<usize>> {
+    let axis = axis.map(|a| super::reductions::check_axis_isize(a, x.ndim())).transpose()?;
+    let len = axis.map_or(x.size(), |a| x.shape()[a]);
+    if kth >= len {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!("kth(={}) out of bounds ({})", kth, len)));
+    }
+    Ok(axis)
 }
 
 /// Return a partitioned copy of an array.
 #[pyfunction]
 #[pyo3(signature = (x, kth, axis=-1))]
-pub fn partition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.partition(kth, resolved_axis))
+pub fn partition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = partition_axis(&x.inner, kth, axis)?;
+    Ok(PyRumpyArray::new(x.inner.partition(kth, axis)))
 }
 
 /// Return indices that would partition an array.
 #[pyfunction]
 #[pyo3(signature = (x, kth, axis=-1))]
-pub fn argpartition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.argpartition(kth, resolved_axis))
+pub fn argpartition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = partition_axis(&x.inner, kth, axis)?;
+    Ok(PyRumpyArray::new(x.inner.argpartition(kth, axis)))
 }
 
 /// Perform an indirect stable sort using a sequence of keys.
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 3702406..b96722c 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -500,16 +500,18 @@ impl PyRumpyArray {
 
     /// Return indices that would sort the array.
     #[pyo3(signature = (axis=None))]
-    fn argsort(&self, axis: Option<isize>) -> Self {
-        let ax = normalize_axis_option(axis, self.inner.ndim(), false);
-        Self::new(self.inner.argsort(ax))
+    fn argsort(&self, axis: Option<isize>) -> PyResult<Self> {
+        let ax = normalize_axis_option(axis, self.inner.ndim(), false)?;
+        Ok(Self::new(self.inner.argsort(ax)))
     }
 
     /// Sort array in-place.
     #[pyo3(signature = (axis=None))]
-    fn sort(&mut self, axis: Option<isize>) {
-        let ax = normalize_axis_option(axis, self.inner.ndim(), true);
-        self.inner = self.inner.sort(ax);
+    fn sort(&mut self, axis: Option<isize>) -> PyResult<()> {
+        let ax = normalize_axis_option(axis, self.inner.ndim(), true)?;
+        let sorted = self.inner.sort(ax);
+        self.overwrite(&sorted);
+        Ok(())
     }
 
     /// Find indices where elements should be inserted to maintain order.
@@ -815,65 +817,42 @@ impl PyRumpyArray {
 
     /// Partially sort array in-place so element at kth position is in sorted position.
     fn partition(&mut self, kth: usize) -> PyResult<()> {
-        let size = self.inner.size();
-        if kth >= size {
-            return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                "kth(={}) out of bounds ({})", kth, size
-            )));
-        }
-
-        // Fast path: contiguous float64 array - work directly on buffer
-        if self.inner.is_c_contiguous() && self.inner.dtype().ops().name() == "float64" {
-            let ptr = self.inner.data_ptr_mut() as *mut f64;
-            let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-            partition_select(slice, kth);
-            return Ok(());
-        }
-
-        // General path: copy, partition, write back
-        let mut values: Vec<f64> = Vec::with_capacity(size);
-        for offset in self.inner.iter_offsets() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            values.push(val);
-        }
-        partition_select(&mut values, kth);
-
-        let shape = self.inner.shape().to_vec();
-        let mut indices = vec![0usize; self.inner.ndim()];
-        for (i, &val) in values.iter().enumerate() {
-            self.inner.set_element(&indices, val);
-            if i + 1 < size {
-                crate::array::increment_indices(&mut indices, &shape);
-            }
-        }
-
+        let axis = self.check_partition(kth)?;
+        let partitioned = self.inner.partition(kth, axis);
+        self.overwrite(&partitioned);
         Ok(())
     }
 
     /// Return indices that would partition the array.
     fn argpartition(&self, kth: usize) -> PyResult<Self> {
-        let size = self.inner.size();
-        if kth >= size {
+        let axis = self.check_partition(kth)?;
+        Ok(Self::new(self.inner.argpartition(kth, axis)))
+    }
+}
+
+impl PyRumpyArray {
+    /// Validate `kth` against the last axis and return that axis.
+    fn check_partition(&self, kth: usize) -> PyResult<Option<usize>> {
+        let ndim = self.inner.ndim();
+        let axis_len = self.inner.shape().last().copied().unwrap_or(1);
+        if kth >= axis_len {
             return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                "kth(={}) out of bounds ({})", kth, size
+                "kth(={}) out of bounds ({})", kth, axis_len
             )));
         }
+        Ok(ndim.checked_sub(1))
+    }
 
-        // Collect values with original indices
-        let mut indexed: Vec<(f64, usize)> = Vec::with_capacity(size);
-        for (i, offset) in self.inner.iter_offsets().enumerate() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            indexed.push((val, i));
+    /// Overwrite this array's elements, in its own buffer, with those of a contiguous
+    /// array of the same shape and dtype.
+    fn overwrite(&mut self, src: &RumpyArray) {
+        let itemsize = self.inner.dtype().itemsize();
+        let dst = self.inner.data_ptr_mut();
+        let offsets: Vec<isize> = self.inner.iter_offsets().collect();
+        for (i, offset) in offsets.into_iter().enumerate() {
+            unsafe { std::ptr::copy_nonoverlapping(src.data_ptr().add(i * itemsize), dst.offset(offset), itemsize); }
         }
-
-        // Partition by value
-        partition_select_indexed(&mut indexed, kth);
-
-        // Extract indices
-        let indices: Vec<f64> = indexed.iter().map(|(_, idx)| *idx as f64).collect();
-        Ok(Self::new(RumpyArray::from_vec(indices, DType::int64())))
     }
-
 }
 
 /// Parse dtype string to DType enum.
@@ -949,12 +928,11 @@ fn resolve_axis(axis: isize, ndim: usize) -> usize {
 /// - If axis is None and default_last is false, returns None (flatten behavior)
 /// - If axis is None and default_last is true, returns last axis
 /// - Handles negative axis values
-fn normalize_axis_option(axis: Option<isize>, ndim: usize, default_last: bool) -> Option<usize> {
+fn normalize_axis_option(axis: Option<isize>, ndim: usize, default_last: bool) -> PyResult<Option<usize>> {
     match axis {
-        None if default_last => Some(ndim - 1),
-        None => None,
-        Some(a) if a >= 0 => Some(a as usize),
-        Some(a) => Some((ndim as isize + a) as usize),
+        None if default_last => Ok(ndim.checked_sub(1)),
+        None => Ok(None),
+        Some(a) => crate::python::reductions::check_axis_isize(a, ndim).map(Some),
     }
 }
 
@@ -1370,76 +1348,6 @@ where
     }
 }
 
-/// Quickselect-style partition: rearrange so that element at kth position is in sorted position.
-fn partition_select(arr: &mut [f64], kth: usize) {
-    if arr.len() <= 1 {
-        return;
-    }
-
-    // Simple quickselect
-    let mut left = 0;
-    let mut right = arr.len() - 1;
-
-    while left < right {
-        let pivot_idx = (left + right) / 2;
-        let pivot = arr[pivot_idx];
-
-        // Move pivot to end
-        arr.swap(pivot_idx, right);
-
-        let mut store = left;
-        for i in left..right {
-            if arr[i] < pivot {
-                arr.swap(i, store);
-                store += 1;
-            }
-        }
-        arr.swap(store, right);
-
-        if store == kth {
-            return;
-        } else if store < kth {
-            left = store + 1;
-        } else {
-            right = store.saturating_sub(1);
-        }
-    }
-}
-
-/// Quickselect for indexed values: partition so kth smallest is at position kth.
-fn partition_select_indexed(arr: &mut [(f64, usize)], kth: usize) {
-    if arr.len() <= 1 {
-        return;
-    }
-
-    let mut left = 0;
-    let mut right = arr.len() - 1;
-
-    while left < right {
-        let pivot_idx = (left + right) / 2;
-        let pivot = arr[pivot_idx].0;
-
-        arr.swap(pivot_idx, right);
-
-        let mut store = left;
-        for i in left..right {
-            if arr[i].0 < pivot {
-                arr.swap(i, store);
-                store += 1;
-            }
-        }
-        arr.swap(store, right);
-
-        if store == kth {
-            return;
-        } else if store < kth {
-            left = store + 1;
-        } else {
-            right = store.saturating_sub(1);
-        }
-    }
-}
-
 /// Python-visible flags object (like numpy.ndarray.flags).
 #[pyclass(name = "flagsobj", module = "rumpy")]
 pub struct PyArrayFlags {
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 2605b18..49f68f2 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -27,6 +27,17 @@ pub fn resolve_axis(axis: isize, ndim: usize) -> usize {
     }
 }
 
+/// Resolve a potentially negative axis, rejecting one that is out of bounds.
+pub fn check_axis_isize(axis: isize, ndim: usize) -> PyResult<usize> {
+    let n = ndim as isize;
+    if axis < -n || axis >= n {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "axis {} is out of bounds for array of dimension {}", axis, ndim
+        )));
+    }
+    Ok(resolve_axis(axis, ndim))
+}
+
 /// Parse axis parameter - can be None, a single int, or a tuple of ints.
 /// Returns None if axis is None, or Some(Vec<usize>) with normalized axes.
 fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Option<Vec<usize>>> {
-- 
2.43.0


From 24569ccbfe553ae2086e553d8221ca45f6e46639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:21 +0000
Subject: [PATCH 20/51] fix: digitize with decreasing bins, histogram of
 constant data, searchsorted method with a 1-element array

---
 src/ops/indexing.rs       |  9 +++++----
 src/ops/statistics.rs     | 11 +++++++++++
 src/python/pyarray/mod.rs | 12 ++++++------
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 9615cb1..cba2b12 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -1,6 +1,7 @@
 //! Indexing operations: take, take_along_axis, compress, searchsorted, etc.
 
 use std::sync::Arc;
+use crate::array::dtype::nan_last;
 use crate::array::{DType, RumpyArray};
 
 /// Normalize a potentially negative index.
@@ -952,17 +953,17 @@ pub fn digitize(x: &RumpyArray, bins: &RumpyArray, right: bool) -> RumpyArray {
         let bin_idx = if is_decreasing {
             // For decreasing bins: len(bins) - searchsorted(reversed_bins, val, side)
             let search_idx = if right {
-                reversed_bins.partition_point(|&b| b <= val)
+                reversed_bins.partition_point(|b| nan_last(b, &val).is_lt())
             } else {
-                reversed_bins.partition_point(|&b| b < val)
+                reversed_bins.partition_point(|b| nan_last(b, &val).is_le())
             };
             bins_size - search_idx
         } else {
             // For increasing bins, standard binary search
             if right {
-                bins_values.partition_point(|&b| b < val)
+                bins_values.partition_point(|b| nan_last(b, &val).is_lt())
             } else {
-                bins_values.partition_point(|&b| b <= val)
+                bins_values.partition_point(|b| nan_last(b, &val).is_le())
             }
         };
 
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index e8fff4f..e1ed628 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -24,6 +24,7 @@ pub fn histogram(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> (R
             (min_v, max_v)
         }
     });
+    let (min_val, max_val) = widen_empty_range(min_val, max_val);
 
     // Create bin edges
     let mut bin_edges = Vec::with_capacity(bins + 1);
@@ -52,6 +53,11 @@ pub fn histogram(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> (R
     (counts_arr, edges_arr)
 }
 
+/// A zero-width range is widened by one half on each side, as NumPy does.
+fn widen_empty_range(min_val: f64, max_val: f64) -> (f64, f64) {
+    if min_val == max_val { (min_val - 0.5, max_val + 0.5) } else { (min_val, max_val) }
+}
+
 /// Compute bin edges for histogram without computing the histogram itself.
 /// This is useful when you want to use consistent bins across multiple histograms.
 pub fn histogram_bin_edges(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> RumpyArray {
@@ -66,6 +72,7 @@ pub fn histogram_bin_edges(arr: &RumpyArray, bins: usize, range: Option<(f64, f6
             (min_v, max_v)
         }
     });
+    let (min_val, max_val) = widen_empty_range(min_val, max_val);
 
     // Create bin edges
     let mut bin_edges = Vec::with_capacity(bins + 1);
@@ -110,6 +117,9 @@ pub fn histogram2d(
         }
     };
 
+    let (x_min, x_max) = widen_empty_range(x_min, x_max);
+    let (y_min, y_max) = widen_empty_range(y_min, y_max);
+
     // Create bin edges
     let x_bin_width = (x_max - x_min) / bins_x as f64;
     let y_bin_width = (y_max - y_min) / bins_y as f64;
@@ -245,6 +255,7 @@ pub fn histogramdd(
                 (min_v, max_v)
             }
         })
+        .map(|(lo, hi)| widen_empty_range(lo, hi))
         .collect();
 
     // Compute bin widths
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index b96722c..7c5e00d 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -517,6 +517,12 @@ impl PyRumpyArray {
     /// Find indices where elements should be inserted to maintain order.
     #[pyo3(signature = (v, side="left"))]
     fn searchsorted<'py>(&self, py: Python<'py>, v: &Bound<'py, PyAny>, side: &str) -> PyResult<PyObject> {
+        // Handle array input
+        if let Ok(arr) = v.extract::<PyRef<'_, PyRumpyArray>>() {
+            let result = crate::ops::indexing::searchsorted(&self.inner, &arr.inner, side)
+                .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("searchsorted failed"))?;
+            return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
+        }
         // Handle scalar input - always use float64 for the search value to avoid truncation
         if let Ok(scalar) = v.extract::<f64>() {
             let v_arr = RumpyArray::from_vec(vec![scalar], DType::float64());
@@ -526,12 +532,6 @@ impl PyRumpyArray {
             let idx = result.get_element(&[0]) as i64;
             return Ok(idx.into_pyobject(py)?.into_any().unbind());
         }
-        // Handle array input
-        if let Ok(arr) = v.extract::<PyRef<'_, PyRumpyArray>>() {
-            let result = crate::ops::indexing::searchsorted(&self.inner, &arr.inner, side)
-                .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("searchsorted failed"))?;
-            return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
-        }
         Err(pyo3::exceptions::PyTypeError::new_err("v must be a scalar or array"))
     }
 
-- 
2.43.0


From a4963fad4bf0bdf4d67f1281b9467457799b27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:04 +0000
Subject: [PATCH 21/51] fix: can_cast, common_type, issubdtype, isdtype and
 finfo did not follow the dtype hierarchy

---
 src/python/dtype.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 20be57d..bb28a86 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -51,12 +51,12 @@ impl PyFinfo {
             "float16" => Ok(Self {
                 dtype: "float16".to_string(),
                 bits: 16,
-                eps: 0.000977,  // 2^-10
+                eps: 0.0009765625,  // 2^-10
                 max: 65504.0,
                 min: -65504.0,
-                tiny: 6.104e-5,  // smallest positive normal
-                smallest_normal: 6.104e-5,
-                smallest_subnormal: 5.96e-8,
+                tiny: 6.103515625e-5,  // 2^-14, smallest positive normal
+                smallest_normal: 6.103515625e-5,
+                smallest_subnormal: 5.960464477539063e-8,  // 2^-24
                 machep: -10,
                 negep: -11,
                 minexp: -14,
@@ -72,7 +72,7 @@ impl PyFinfo {
                 min: f32::MIN as f64,
                 tiny: f32::MIN_POSITIVE as f64,
                 smallest_normal: f32::MIN_POSITIVE as f64,
-                smallest_subnormal: 1.4e-45,
+                smallest_subnormal: f32::from_bits(1) as f64,
                 machep: -23,
                 negep: -24,
                 minexp: -126,
@@ -407,7 +407,7 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
     if (is_signed(&fk) || is_unsigned(&fk)) && is_float(&tk) {
         let from_bits = int_bits(&fk);
         return match tk {
-            Float64 => from_bits <= 32,  // float64 can exactly represent int32
+            Float64 => true,
             Float32 => from_bits <= 16,  // float32 can exactly represent int16
             Float16 => from_bits <= 8,   // float16 can exactly represent small ints
             _ => false,
@@ -416,7 +416,7 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
 
     // Integer to complex
     if (is_signed(&fk) || is_unsigned(&fk)) && is_complex(&tk) {
-        return true;  // Complex can hold any integer
+        return matches!(tk, Complex128) || int_bits(&fk) <= 16;
     }
 
     // Signed int to larger signed int
@@ -452,8 +452,14 @@ fn can_cast_same_kind(from: &DType, to: &DType) -> bool {
     let is_float = |k: &DTypeKind| matches!(k, Float16 | Float32 | Float64);
     let is_complex = |k: &DTypeKind| matches!(k, Complex64 | Complex128);
 
-    // Int to int (any direction)
+    // Signed to signed and unsigned to any integer, whatever the size
+    let is_unsigned = |k: &DTypeKind| matches!(k, Uint8 | Uint16 | Uint32 | Uint64);
     if is_int(&fk) && is_int(&tk) {
+        return is_unsigned(&fk) || !is_unsigned(&tk);
+    }
+
+    // To a kind further along integer -> float -> complex
+    if (is_int(&fk) && (is_float(&tk) || is_complex(&tk))) || (is_float(&fk) && is_complex(&tk)) {
         return true;
     }
 
@@ -491,11 +497,11 @@ pub fn common_type(arrays: &Bound<'_, PyTuple>) -> PyResult<PyObject> {
         match dtype.kind() {
             DTypeKind::Complex128 => {
                 has_complex = true;
-                max_float_size = max_float_size.max(16);
+                max_float_size = max_float_size.max(8);
             }
             DTypeKind::Complex64 => {
                 has_complex = true;
-                max_float_size = max_float_size.max(8);
+                max_float_size = max_float_size.max(4);
             }
             DTypeKind::Float64 => {
                 max_float_size = max_float_size.max(8);
@@ -515,13 +521,13 @@ pub fn common_type(arrays: &Bound<'_, PyTuple>) -> PyResult<PyObject> {
 
     // Return the appropriate numpy dtype type
     let type_name = if has_complex {
-        if max_float_size >= 16 { "complex128" } else { "complex64" }
+        if max_float_size >= 8 { "complex128" } else { "complex64" }
     } else if max_float_size >= 8 {
         "float64"
     } else if max_float_size >= 4 {
         "float32"
     } else {
-        "float64"  // Default to float64
+        "float16"
     };
 
     // Return the type object (like numpy does)
@@ -565,15 +571,18 @@ fn check_dtype_category(dt: &DType, category: &str) -> bool {
     let kind = dt.kind();
 
     match category {
-        "integer" | "signedinteger" | "int_" => matches!(kind, Int8 | Int16 | Int32 | Int64),
+        "integer" => matches!(kind, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64),
+        "signedinteger" | "int_" => matches!(kind, Int8 | Int16 | Int32 | Int64),
         "unsignedinteger" | "uint" => matches!(kind, Uint8 | Uint16 | Uint32 | Uint64),
         "floating" | "float_" => matches!(kind, Float16 | Float32 | Float64),
+        "inexact" => matches!(kind, Float16 | Float32 | Float64 | Complex64 | Complex128),
         "complexfloating" | "complex_" => matches!(kind, Complex64 | Complex128),
         "number" => matches!(kind, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64 |
                                    Float16 | Float32 | Float64 | Complex64 | Complex128),
-        "bool_" | "bool8" => matches!(kind, Bool),
+        "bool" | "bool_" | "bool8" => matches!(kind, Bool),
         "generic" => true,  // Everything is a subtype of generic
-        _ => false,
+        // Not a category: a specific dtype
+        _ => dtype_from_string(category).is_some_and(|other| *dt == other),
     }
 }
 
@@ -609,7 +618,7 @@ fn check_isdtype_kind(dt: &DType, kind: &Bound<'_, PyAny>) -> PyResult<bool> {
             "bool" => matches!(dtype_kind, Bool),
             "signed integer" => matches!(dtype_kind, Int8 | Int16 | Int32 | Int64),
             "unsigned integer" => matches!(dtype_kind, Uint8 | Uint16 | Uint32 | Uint64),
-            "integral" => matches!(dtype_kind, Bool | Int8 | Int16 | Int32 | Int64 |
+            "integral" => matches!(dtype_kind, Int8 | Int16 | Int32 | Int64 |
                                               Uint8 | Uint16 | Uint32 | Uint64),
             "real floating" => matches!(dtype_kind, Float16 | Float32 | Float64),
             "complex floating" => matches!(dtype_kind, Complex64 | Complex128),
-- 
2.43.0


From 579b47e06b420130c9c6b9031de60c8e21b67a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:54 +0000
Subject: [PATCH 22/51] fix: arange made int64 from float arguments, linspace
 and geomspace missed their end points, array() shared memory, nested tuples
 were rejected

---
 src/array/constructors.rs |  5 +-
 src/array/manipulation.rs |  9 +++-
 src/python/creation.rs    | 99 ++++++++++++++++++++++++++++++---------
 3 files changed, 90 insertions(+), 23 deletions(-)

diff --git a/src/array/constructors.rs b/src/array/constructors.rs
index 600a701..5573886 100644
--- a/src/array/constructors.rs
+++ b/src/array/constructors.rs
@@ -146,8 +146,11 @@ impl RumpyArray {
         // step = (stop - start) / (num - 1) for num > 1, else 0
         let step = if num > 1 { (stop - start) / (num - 1) as f64 } else { 0.0 };
 
+        let is_integer = arr.dtype.is_integer();
         for i in 0..num {
-            let val = start + (i as f64) * step;
+            // The last point is stop itself, whatever the rounding of the step
+            let val = if i > 0 && i + 1 == num { stop } else { start + (i as f64) * step };
+            let val = if is_integer { val.floor() } else { val };
             unsafe { ops.write_f64(ptr, i, val); }
         }
         arr
diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 950c508..15c7ae7 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -524,7 +524,14 @@ pub fn geomspace(start: f64, stop: f64, num: usize, dtype: DType) -> Option<Rump
     let step = if num > 1 { (log_stop - log_start) / (num - 1) as f64 } else { 0.0 };
 
     for i in 0..num {
-        let val = sign * (log_start + (i as f64) * step).exp();
+        // The end points are start and stop themselves
+        let val = if i == 0 {
+            start
+        } else if i + 1 == num {
+            stop
+        } else {
+            sign * (log_start + (i as f64) * step).exp()
+        };
         unsafe { ops.write_f64(ptr, i, val); }
     }
     Some(arr)
diff --git a/src/python/creation.rs b/src/python/creation.rs
index cebcffe..c45090d 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -36,19 +36,64 @@ pub fn ones(shape: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (start_or_stop, stop=None, step=None, dtype=None))]
 pub fn arange(
-    start_or_stop: f64,
-    stop: Option<f64>,
-    step: Option<f64>,
+    start_or_stop: &Bound<'_, PyAny>,
+    stop: Option<&Bound<'_, PyAny>>,
+    step: Option<&Bound<'_, PyAny>>,
     dtype: Option<&Bound<'_, PyAny>>,
 ) -> PyResult<PyRumpyArray> {
-    let (start, stop, step) = match stop {
-        Some(stop) => (start_or_stop, stop, step.unwrap_or(1.0)),
-        None => (0.0, start_or_stop, step.unwrap_or(1.0)),
+    let (start, stop) = match stop {
+        Some(stop) => (Some(start_or_stop), stop),
+        None => (None, start_or_stop),
     };
-    let dtype = resolve_dtype(dtype, "int64")?;
+
+    // Integer bounds give an exact integer range
+    let as_int = |v: Option<&Bound<'_, PyAny>>, default: i64| -> Option<i64> {
+        v.map_or(Some(default), |v| v.extract::<i64>().ok())
+    };
+    if let (Some(start), Some(stop), Some(step)) = (as_int(start, 0), as_int(Some(stop), 0), as_int(step, 1)) {
+        let dtype = resolve_dtype(dtype, "int64")?;
+        if dtype.is_integer() {
+            if step == 0 {
+                return Err(pyo3::exceptions::PyZeroDivisionError::new_err("division by zero"));
+            }
+            let (span, stride) = (stop as i128 - start as i128, step as i128);
+            let n = if (span > 0) != (stride > 0) || span == 0 {
+                0
+            } else {
+                (span.abs() + stride.abs() - 1) / stride.abs()
+            };
+            check_range_size(n as f64, &dtype)?;
+            let data: Vec<i64> = (0..n).map(|i| (start as i128 + i * stride) as i64).collect();
+            return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
+        }
+        return float_arange(start as f64, stop as f64, step as f64, dtype);
+    }
+
+    let start = start.map_or(Ok(0.0), |v| v.extract::<f64>())?;
+    let stop = stop.extract::<f64>()?;
+    let step = step.map_or(Ok(1.0), |v| v.extract::<f64>())?;
+    float_arange(start, stop, step, resolve_dtype(dtype, "float64")?)
+}
+
+fn float_arange(start: f64, stop: f64, step: f64, dtype: DType) -> PyResult<PyRumpyArray> {
+    if step == 0.0 {
+        return Err(pyo3::exceptions::PyZeroDivisionError::new_err("division by zero"));
+    }
+    check_range_size(((stop - start) / step).ceil().max(0.0), &dtype)?;
+    if (stop - start).is_nan() || step.is_nan() {
+        return Err(pyo3::exceptions::PyValueError::new_err("arange: cannot compute length"));
+    }
     Ok(PyRumpyArray::new(RumpyArray::arange(start, stop, step, dtype)))
 }
 
+/// Reject a range whose buffer could not be addressed.
+fn check_range_size(n: f64, dtype: &DType) -> PyResult<()> {
+    if n * dtype.itemsize() as f64 > isize::MAX as f64 {
+        return Err(pyo3::exceptions::PyValueError::new_err("Maximum allowed size exceeded"));
+    }
+    Ok(())
+}
+
 /// Create array with evenly spaced values over interval [start, stop].
 #[pyfunction]
 #[pyo3(signature = (start, stop, num=50, dtype=None))]
@@ -302,11 +347,15 @@ pub fn asarray(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_,
     array_impl(py, obj, dtype)
 }
 
-/// Create an array (alias for asarray).
+/// Create an array. Unlike asarray, the result never shares memory with obj.
 #[pyfunction]
 #[pyo3(signature = (obj, dtype=None))]
 pub fn array(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    array_impl(py, obj, dtype)
+    let result = array_impl(py, obj, dtype)?;
+    if obj.extract::<PyRef<'_, PyRumpyArray>>().is_ok() {
+        return Ok(PyRumpyArray::new(result.inner.copy()));
+    }
+    Ok(result)
 }
 
 /// Implementation for array/asarray.
@@ -437,15 +486,23 @@ fn from_array_interface(
     Ok(PyRumpyArray::new(arr))
 }
 
+/// A nested list or tuple inside a list.
+fn as_sublist<'py>(item: &Bound<'py, PyAny>) -> Option<Bound<'py, PyList>> {
+    if let Ok(list) = item.downcast::<PyList>() {
+        return Some(list.clone());
+    }
+    item.downcast::<pyo3::types::PyTuple>().ok().map(|tuple| tuple.to_list())
+}
+
 /// Infer a dtype that holds every element of a (possibly nested) Python list.
 fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
     let mut result: Option<DType> = None;
     for item in list.iter() {
-        let dtype = if let Ok(sublist) = item.downcast::<PyList>() {
+        let dtype = if let Some(sublist) = as_sublist(&item) {
             if sublist.is_empty() {
                 continue;
             }
-            infer_dtype_from_list(sublist)?
+            infer_dtype_from_list(&sublist)?
         // Order matters: bool before int!
         } else if item.is_instance_of::<pyo3::types::PyBool>() {
             DType::bool()
@@ -482,8 +539,8 @@ fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
 fn compute_max_string_length(list: &Bound<'_, PyList>) -> Option<usize> {
     let mut max_len = 0usize;
     for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            if let Some(sub_max) = compute_max_string_length(sublist) {
+        if let Some(sublist) = as_sublist(&item) {
+            if let Some(sub_max) = compute_max_string_length(&sublist) {
                 max_len = max_len.max(sub_max);
             }
         } else if let Ok(s) = item.extract::<String>() {
@@ -497,8 +554,8 @@ fn compute_max_string_length(list: &Bound<'_, PyList>) -> Option<usize> {
 fn compute_max_bytes_length(list: &Bound<'_, PyList>) -> Option<usize> {
     let mut max_len = 0usize;
     for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            if let Some(sub_max) = compute_max_bytes_length(sublist) {
+        if let Some(sublist) = as_sublist(&item) {
+            if let Some(sub_max) = compute_max_bytes_length(&sublist) {
                 max_len = max_len.max(sub_max);
             }
         } else if let Ok(b) = item.extract::<Vec<u8>>() {
@@ -526,7 +583,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
 
     // Handle datetime64 dtype - parse string inputs
     if let DTypeKind::DateTime64(unit) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
+        if as_sublist(&first).is_some() {
             let (shape, strings) = flatten_nested_list_str(list)?;
             let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
@@ -544,7 +601,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
 
     // Handle timedelta64 dtype
     if let DTypeKind::TimeDelta64(_unit) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
+        if as_sublist(&first).is_some() {
             let (shape, data) = flatten_nested_list_i64(list)?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
         }
@@ -554,7 +611,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
 
     // Handle string dtype
     if let DTypeKind::Str(_) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
+        if as_sublist(&first).is_some() {
             let (shape, data) = flatten_nested_list_str(list)?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_str_with_shape(data, shape, dtype)));
         }
@@ -567,7 +624,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
 
     // Handle bytes dtype
     if let DTypeKind::Bytes(_) = dtype.kind() {
-        if first.downcast::<PyList>().is_ok() {
+        if as_sublist(&first).is_some() {
             let (shape, data) = flatten_nested_list_bytes(list)?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_bytes_with_shape(data, shape, dtype)));
         }
@@ -607,8 +664,8 @@ fn flatten_nested<'py, T>(
     let mut data = Vec::new();
 
     for item in list.iter() {
-        let item_shape = if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested(sublist, leaf)?;
+        let item_shape = if let Some(sublist) = as_sublist(&item) {
+            let (sub_shape, sub_data) = flatten_nested(&sublist, leaf)?;
             data.extend(sub_data);
             sub_shape
         } else {
-- 
2.43.0


From a0365d4ec001f881e112934991cb890e8e3d9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:55 +0000
Subject: [PATCH 23/51] fix: exchange with Python and NumPy: unaligned imports
 aborted, string export lost the text, truth value was always True,
 int()/resize/fill went through float64, comparisons with Python ints,
 uint64/int64, datetimes and strings were wrong

---
 src/array/dtype/mod.rs           | 10 +++++
 src/array/mod.rs                 | 13 ++++++
 src/ops/mod.rs                   | 27 +++++++++++++
 src/ops/ufunc.rs                 | 68 +++++++++++++++++++++-----------
 src/python/creation.rs           |  6 ++-
 src/python/pyarray/dunder_ops.rs | 34 ++++++++++------
 src/python/pyarray/mod.rs        | 54 ++++++++++++++++++-------
 src/python/ufuncs.rs             | 31 +++++++++------
 8 files changed, 180 insertions(+), 63 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index bdc23e2..b36f857 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -550,6 +550,16 @@ pub fn promote_dtype(a: &DType, b: &DType) -> DType {
         return DType::complex64();
     }
 
+    // Strings take the longer length, dates and durations the finer unit
+    match (&ak, &bk) {
+        (Str(n), Str(m)) => return if n >= m { a.clone() } else { b.clone() },
+        (Bytes(n), Bytes(m)) => return if n >= m { a.clone() } else { b.clone() },
+        (DateTime64(u), DateTime64(v)) | (TimeDelta64(u), TimeDelta64(v)) => {
+            return if (*u as u8) >= (*v as u8) { a.clone() } else { b.clone() };
+        }
+        _ => {}
+    }
+
     // Datetime doesn't promote with other types
     if matches!(ak, DateTime64(_)) || matches!(bk, DateTime64(_)) {
         // Return one of them; ops will likely fail anyway
diff --git a/src/array/mod.rs b/src/array/mod.rs
index f44b189..033a3a3 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -361,6 +361,19 @@ impl RumpyArray {
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
+                (DTypeKind::Str(_), DTypeKind::Str(_)) | (DTypeKind::Bytes(_), DTypeKind::Bytes(_)) => {
+                    // Truncate or pad each element to the new width
+                    let (src_size, dst_size) = (src_ops.itemsize(), dst_ops.itemsize());
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        unsafe {
+                            std::ptr::copy_nonoverlapping(
+                                src_ptr.offset(offset),
+                                result_ptr.add(i * dst_size),
+                                src_size.min(dst_size),
+                            );
+                        }
+                    }
+                }
                 (DTypeKind::Complex64 | DTypeKind::Complex128, DTypeKind::Bool) => {
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let truthy = unsafe { src_ops.is_truthy(src_ptr, offset) };
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 1aa0df8..248d6d5 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -83,6 +83,20 @@ pub enum ComparisonOp {
     Ne,  // !=
 }
 
+impl ComparisonOp {
+    /// Whether the operation holds for operands that order this way.
+    pub fn matches(self, ordering: std::cmp::Ordering) -> bool {
+        match self {
+            ComparisonOp::Gt => ordering.is_gt(),
+            ComparisonOp::Lt => ordering.is_lt(),
+            ComparisonOp::Ge => ordering.is_ge(),
+            ComparisonOp::Le => ordering.is_le(),
+            ComparisonOp::Eq => ordering.is_eq(),
+            ComparisonOp::Ne => ordering.is_ne(),
+        }
+    }
+}
+
 // ============================================================================
 // Public API using ufunc machinery
 // ============================================================================
@@ -301,6 +315,19 @@ impl RumpyArray {
                         let (re, im) = unsafe { ops.read_complex(ptr, offset) }.unwrap_or((0.0, 0.0));
                         return Ok(pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind());
                     }
+                    DTypeKind::Str(n) => {
+                        let chars = unsafe { ptr.offset(offset) } as *const u32;
+                        let text: String = (0..n)
+                            .map(|i| unsafe { chars.add(i).read_unaligned() })
+                            .map(|c| char::from_u32(c).unwrap_or(char::REPLACEMENT_CHARACTER))
+                            .collect();
+                        return Ok(text.trim_end_matches('\0').into_pyobject(py)?.into_any().unbind());
+                    }
+                    DTypeKind::Bytes(n) => {
+                        let bytes = unsafe { std::slice::from_raw_parts(ptr.offset(offset), n) };
+                        let len = bytes.iter().rposition(|&b| b != 0).map_or(0, |i| i + 1);
+                        return Ok(pyo3::types::PyBytes::new(py, &bytes[..len]).into_any().unbind());
+                    }
                     _ => {}
                 }
                 if use_int {
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 6dfcdf1..40881f4 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -499,6 +499,21 @@ pub fn map_binary_op_inplace(
 pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
     let out_shape = broadcast_shapes(a.shape(), b.shape())?;
 
+    let is_text = |x: &RumpyArray| matches!(x.dtype().kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_));
+    if is_text(a) != is_text(b) {
+        return None;
+    }
+
+    // uint64 and a signed integer have no common integer dtype
+    if a.dtype() != b.dtype() && a.dtype().is_integer() && b.dtype().is_integer()
+        && (a.dtype() == DType::uint64() || b.dtype() == DType::uint64())
+    {
+        let (a_dtype, b_dtype) = (a.dtype(), b.dtype());
+        return compare_with(a, b, &out_shape, |pa, oa, pb, ob| {
+            Some(op.matches(read_integer(&a_dtype, pa, oa).cmp(&read_integer(&b_dtype, pb, ob))))
+        });
+    }
+
     // Promote to common dtype for comparison (like binary ops)
     let common_dtype = promote_dtype(&a.dtype(), &b.dtype());
     let a_promoted = if a.dtype() != common_dtype { a.astype(common_dtype.clone()) } else { a.clone() };
@@ -523,35 +538,42 @@ pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Optio
         }
     }
 
-    // Fallback: generic path via get_element (for datetime, bool, etc.)
-    let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
-    let size = result.size();
-    if size == 0 {
-        return Some(result);
+    // Fallback: compare the elements themselves (datetime, bool, strings)
+    let ops = common_dtype.ops();
+    match common_dtype.kind() {
+        // NaT is unequal to everything, itself included
+        DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => compare_with(&a_bc, &b_bc, &out_shape, |pa, oa, pb, ob| {
+            let (x, y) = unsafe { (ops.read_i64(pa, oa)?, ops.read_i64(pb, ob)?) };
+            Some(if x == i64::MIN || y == i64::MIN { op == ComparisonOp::Ne } else { op.matches(x.cmp(&y)) })
+        }),
+        _ => compare_with(&a_bc, &b_bc, &out_shape, |pa, oa, pb, ob| {
+            Some(op.matches(unsafe { ops.compare_elements(pa, oa, pb, ob) }))
+        }),
     }
+}
 
-    let buffer = result.buffer_mut();
-    let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-    let result_ptr = result_buffer.as_mut_ptr();
-
-    let f: fn(f64, f64) -> bool = match op {
-        ComparisonOp::Gt => |a, b| a > b,
-        ComparisonOp::Lt => |a, b| a < b,
-        ComparisonOp::Ge => |a, b| a >= b,
-        ComparisonOp::Le => |a, b| a <= b,
-        ComparisonOp::Eq => |a, b| a == b,
-        ComparisonOp::Ne => |a, b| a != b,
-    };
-
-    let mut indices = vec![0usize; out_shape.len()];
-    for i in 0..size {
-        let cmp_result = f(a_bc.get_element(&indices), b_bc.get_element(&indices));
-        unsafe { *result_ptr.add(i) = if cmp_result { 1 } else { 0 }; }
-        increment_indices(&mut indices, &out_shape);
+/// Compare broadcast elements pairwise with `f`, given their base pointers and byte offsets.
+fn compare_with<F>(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize], f: F) -> Option<RumpyArray>
+where
+    F: Fn(*const u8, isize, *const u8, isize) -> Option<bool>,
+{
+    let (a, b) = (a.broadcast_to(out_shape)?, b.broadcast_to(out_shape)?);
+    let mut result = RumpyArray::zeros(out_shape.to_vec(), DType::bool());
+    let (a_ptr, b_ptr) = (a.data_ptr(), b.data_ptr());
+    let result_ptr = result.data_ptr_mut();
+    for (i, (a_offset, b_offset)) in a.iter_offsets().zip(b.iter_offsets()).enumerate() {
+        let value = f(a_ptr, a_offset, b_ptr, b_offset)?;
+        unsafe { *result_ptr.add(i) = value as u8; }
     }
     Some(result)
 }
 
+/// Read an integer of any dtype exactly.
+fn read_integer(dtype: &DType, ptr: *const u8, offset: isize) -> i128 {
+    let value = unsafe { dtype.ops().read_i64(ptr, offset) }.unwrap_or(0);
+    if *dtype == DType::uint64() { value as u64 as i128 } else { value as i128 }
+}
+
 // ============================================================================
 // Reduction operations
 // ============================================================================
diff --git a/src/python/creation.rs b/src/python/creation.rs
index c45090d..878ef6c 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -473,8 +473,10 @@ fn from_array_interface(
             .map(|(&idx, &stride)| idx as isize * stride)
             .sum();
 
-        // Copy element from source to destination
-        unsafe { dtype.ops().copy_element(src_ptr, src_offset, dst_ptr, i); }
+        // Copy the bytes of the element: a foreign buffer need not be aligned
+        unsafe {
+            std::ptr::copy_nonoverlapping(src_ptr.offset(src_offset), dst_ptr.add(i * itemsize), itemsize);
+        }
 
         increment_indices(&mut indices, &shape);
     }
diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index ba67c60..02edefa 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -10,6 +10,18 @@ use crate::ops::bitwise::{bitwise_and, bitwise_or, bitwise_xor, left_shift, righ
 use crate::ops::matmul::matmul;
 use crate::ops::{BinaryOp, ComparisonOp};
 
+impl PyRumpyArray {
+    /// The only element of a size-1 array as a Python object.
+    fn python_scalar(&self, py: Python<'_>) -> PyResult<PyObject> {
+        if self.inner.size() != 1 {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "only size-1 arrays can be converted to Python scalars",
+            ));
+        }
+        self.inner.view_with(self.inner.byte_offset_for(&vec![0; self.inner.ndim()]), vec![], vec![]).to_pylist(py)
+    }
+}
+
 #[pymethods]
 impl PyRumpyArray {
     // Binary arithmetic operations
@@ -114,22 +126,22 @@ impl PyRumpyArray {
         Self::new(self.inner.abs().expect("abs always succeeds"))
     }
 
-    fn __float__(&self) -> PyResult<f64> {
-        if self.inner.size() != 1 {
-            return Err(pyo3::exceptions::PyTypeError::new_err(
-                "only size-1 arrays can be converted to Python scalars",
-            ));
-        }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
+    fn __float__(&self, py: Python<'_>) -> PyResult<f64> {
+        self.python_scalar(py)?.extract(py)
     }
 
-    fn __int__(&self) -> PyResult<i64> {
+    fn __int__(&self, py: Python<'_>) -> PyResult<PyObject> {
+        let value = self.python_scalar(py)?;
+        Ok(py.get_type::<pyo3::types::PyInt>().call1((value,))?.unbind())
+    }
+
+    fn __bool__(&self, py: Python<'_>) -> PyResult<bool> {
         if self.inner.size() != 1 {
-            return Err(pyo3::exceptions::PyTypeError::new_err(
-                "only size-1 arrays can be converted to Python scalars",
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]) as i64)
+        self.python_scalar(py)?.bind(py).is_truthy()
     }
 
     // Comparison operations
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 7c5e00d..8689d7e 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -268,7 +268,12 @@ impl PyRumpyArray {
         let shape_tuple = PyTuple::new(py, self.inner.shape())?;
         let strides_tuple = PyTuple::new(py, self.inner.strides())?;
         dict.set_item("shape", shape_tuple)?;
-        dict.set_item("typestr", self.inner.dtype().typestr())?;
+        let typestr = match self.inner.dtype().kind() {
+            crate::array::DTypeKind::Str(n) => format!("<U{n}"),
+            crate::array::DTypeKind::Bytes(n) => format!("|S{n}"),
+            _ => self.inner.dtype().typestr().to_string(),
+        };
+        dict.set_item("typestr", typestr)?;
         let data_ptr = self.inner.data_ptr() as usize;
         dict.set_item("data", (data_ptr, false))?; // (ptr, readonly=false)
         dict.set_item("strides", strides_tuple)?;
@@ -670,9 +675,11 @@ impl PyRumpyArray {
     #[getter]
     fn flags(&self) -> PyArrayFlags {
         let flags = self.inner.flags();
+        // A fresh array is flagged C-contiguous, and is F-contiguous too when it has one long dimension at most
+        let (shape, strides, itemsize) = (self.inner.shape(), self.inner.strides(), self.inner.itemsize());
         PyArrayFlags {
-            c_contiguous: flags.contains(crate::array::ArrayFlags::C_CONTIGUOUS),
-            f_contiguous: flags.contains(crate::array::ArrayFlags::F_CONTIGUOUS),
+            c_contiguous: crate::array::is_c_contiguous(shape, strides, itemsize),
+            f_contiguous: crate::array::is_f_contiguous(shape, strides, itemsize),
             writeable: flags.contains(crate::array::ArrayFlags::WRITEABLE),
         }
     }
@@ -755,13 +762,6 @@ impl PyRumpyArray {
             return Ok(());
         }
 
-        // Collect current data
-        let mut data: Vec<f64> = Vec::with_capacity(old_size);
-        for offset in self.inner.iter_offsets() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            data.push(val);
-        }
-
         // Create new array - starts as zeros
         let dtype = self.inner.dtype();
         let mut result = RumpyArray::zeros(new_shape, dtype.clone());
@@ -771,9 +771,8 @@ impl PyRumpyArray {
 
         // Copy old data (up to min(old_size, new_size))
         let copy_count = old_size.min(new_size);
-        for i in 0..copy_count {
-            let val = data[i];
-            unsafe { ops.write_f64(ptr, i, val); }
+        for (i, offset) in self.inner.iter_offsets().take(copy_count).enumerate() {
+            unsafe { ops.copy_element(self.inner.data_ptr(), offset, ptr, i); }
         }
         // Extra space is already zeros from RumpyArray::zeros
 
@@ -1063,7 +1062,11 @@ fn fill_view(view: &mut RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
         let mut src = RumpyArray::zeros(vec![], dtype.clone());
         let ptr = src.data_ptr_mut();
         let ops = dtype.ops();
-        let int_value = if dtype.is_integer() { value.extract::<i64>().ok() } else { None };
+        let int_value = if dtype.is_integer() {
+            value.extract::<i64>().or_else(|_| value.extract::<u64>().map(|v| v as i64)).ok()
+        } else {
+            None
+        };
         let written = if let Some(i) = int_value {
             unsafe { ops.write_i64(ptr, 0, i) }
         } else if let Ok(f) = value.extract::<f64>() {
@@ -1146,7 +1149,7 @@ pub(crate) fn scalar_operand(x: &Bound<'_, PyAny>, dtype: &DType) -> Option<Rump
     }
     if let Ok(value) = x.extract::<bool>() {
         Some(RumpyArray::full(vec![], value as u8 as f64, DType::bool()))
-    } else if x.is_instance_of::<pyo3::types::PyInt>() {
+    } else if x.is_instance_of::<pyo3::types::PyInt>() || x.extract::<i64>().is_ok() {
         let target = if kind == DTypeKind::Bool { DType::int64() } else { dtype.clone() };
         match x.extract::<i64>() {
             Ok(value) if is_integer || kind == DTypeKind::Bool => {
@@ -1168,6 +1171,23 @@ pub(crate) fn scalar_operand(x: &Bound<'_, PyAny>, dtype: &DType) -> Option<Rump
     }
 }
 
+/// A Python number as a 0-d array to compare with an array of `dtype`. An integer keeps its value
+/// even where `dtype` cannot hold it.
+pub(crate) fn comparison_operand(x: &Bound<'_, PyAny>, dtype: &DType) -> Option<RumpyArray> {
+    if dtype.is_integer() && x.extract::<bool>().is_err() {
+        if let Ok(value) = x.extract::<i64>() {
+            return Some(RumpyArray::from_vec_i64_with_shape(vec![value], vec![], DType::int64()));
+        }
+        if let Ok(value) = x.extract::<u64>() {
+            return Some(RumpyArray::from_vec_i64_with_shape(vec![value as i64], vec![], DType::uint64()));
+        }
+        // Beyond any integer dtype, or not an integer
+        let value = x.extract::<f64>().ok()?;
+        return Some(RumpyArray::full(vec![], value, DType::float64()));
+    }
+    scalar_operand(x, dtype)
+}
+
 fn binary_op_error(e: crate::ops::BinaryOpError) -> PyErr {
     use crate::ops::BinaryOpError;
     match e {
@@ -1285,6 +1305,10 @@ fn comparison_op_dispatch(
             .ok_or_else(|| {
                 pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
             })
+    } else if let Some(scalar) = comparison_operand(other, &arr.dtype()) {
+        arr.compare(&scalar, op).map(PyRumpyArray::new).ok_or_else(|| {
+            pyo3::exceptions::PyTypeError::new_err("comparison not supported for these dtypes")
+        })
     } else if let Ok(scalar) = other.extract::<f64>() {
         Ok(PyRumpyArray::new(arr.compare_scalar(scalar, op)))
     } else {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 6098dc1..c9409e2 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -390,6 +390,19 @@ fn binary_operands(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<(Ru
     ))
 }
 
+/// Both operands of a comparison; a Python number keeps its value next to the other array.
+fn comparison_operands(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<(RumpyArray, RumpyArray)> {
+    use crate::python::pyarray::comparison_operand;
+    let number = |x: &Bound<'_, PyAny>, other: &Bound<'_, PyAny>| {
+        let other = other.extract::<PyRef<'_, PyRumpyArray>>().ok()?;
+        x.extract::<PyRef<'_, PyRumpyArray>>().is_err().then(|| comparison_operand(x, &other.inner.dtype()))?
+    };
+    Ok((
+        number(x1, x2).map_or_else(|| super::shape::to_rumpy_array(x1), Ok)?,
+        number(x2, x1).map_or_else(|| super::shape::to_rumpy_array(x2), Ok)?,
+    ))
+}
+
 fn binary_operand(x: &Bound<'_, PyAny>) -> PyResult<RumpyArray> {
     if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
         Ok(arr.inner.clone())
@@ -594,8 +607,7 @@ pub fn logical_not(x: &PyRumpyArray) -> PyRumpyArray {
 
 #[pyfunction]
 pub fn equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = comparison_operands(x1, x2)?;
     crate::ops::equal(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -603,8 +615,7 @@ pub fn equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResu
 
 #[pyfunction]
 pub fn not_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = comparison_operands(x1, x2)?;
     crate::ops::not_equal(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -612,8 +623,7 @@ pub fn not_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> Py
 
 #[pyfunction]
 pub fn less(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = comparison_operands(x1, x2)?;
     crate::ops::less(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -621,8 +631,7 @@ pub fn less(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResul
 
 #[pyfunction]
 pub fn less_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = comparison_operands(x1, x2)?;
     crate::ops::less_equal(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -630,8 +639,7 @@ pub fn less_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> P
 
 #[pyfunction]
 pub fn greater(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = comparison_operands(x1, x2)?;
     crate::ops::greater(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -639,8 +647,7 @@ pub fn greater(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyRe
 
 #[pyfunction]
 pub fn greater_equal(x1: &Bound<'_, pyo3::PyAny>, x2: &Bound<'_, pyo3::PyAny>) -> PyResult<PyRumpyArray> {
-    let a = super::shape::to_rumpy_array(x1)?;
-    let b = super::shape::to_rumpy_array(x2)?;
+    let (a, b) = comparison_operands(x1, x2)?;
     crate::ops::greater_equal(&a, &b)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
-- 
2.43.0


From dad8ea69a064b1317dfd5c1ef627199d9e76b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 24/51] fix: where with Python numbers returned float64 and
 gave a 1-element array for a 0-d condition

---
 src/python/indexing.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index a46b562..bd6d4c3 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -211,25 +211,8 @@ pub fn where_fn(
     x: &Bound<'_, pyo3::PyAny>,
     y: &Bound<'_, pyo3::PyAny>,
 ) -> PyResult<PyRumpyArray> {
-    let x_arr = if let Ok(arr) = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "x must be ndarray or number",
-        ));
-    };
-
-    let y_arr = if let Ok(arr) = y.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = y.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "y must be ndarray or number",
-        ));
-    };
+    let x_arr = where_operand(x, y)?;
+    let y_arr = where_operand(y, x)?;
 
     crate::ops::where_select(&condition.inner, &x_arr, &y_arr)
         .map(PyRumpyArray::new)
@@ -238,6 +221,22 @@ pub fn where_fn(
         })
 }
 
+/// An operand of where: a Python number takes the dtype NumPy gives it next to the other operand.
+fn where_operand(x: &Bound<'_, pyo3::PyAny>, other: &Bound<'_, pyo3::PyAny>) -> PyResult<RumpyArray> {
+    if let Ok(arr) = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+        return Ok(arr.inner.clone());
+    }
+    let dtype = if let Ok(other) = other.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+        other.inner.dtype()
+    } else if x.extract::<bool>().is_ok() || x.extract::<i64>().is_ok() {
+        DType::int64()
+    } else {
+        DType::float64()
+    };
+    super::pyarray::scalar_operand(x, &dtype)
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("where operands must be ndarrays or numbers"))
+}
+
 // ============================================================================
 // Set operations
 // ============================================================================
-- 
2.43.0


From c014e33cda943e1ea18aad6274e92957b5bf7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:29 +0000
Subject: [PATCH 25/51] fix: saving and loading: Fortran-ordered and string
 arrays were written wrongly, damaged headers aborted or were misread, text
 lost integer digits and complex parts, loadtxt ignored missing columns and
 inline comments

---
 src/ops/io.rs | 631 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 414 insertions(+), 217 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index 5e70630..d93a0a3 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -1,6 +1,6 @@
 //! I/O operations for reading and writing arrays to files.
 
-use crate::array::{ArrayBuffer, ArrayFlags, DType, RumpyArray};
+use crate::array::{ArrayBuffer, ArrayFlags, DType, DTypeKind, RumpyArray};
 use std::fs::File;
 use std::io::{BufRead, BufReader, BufWriter, Read, Write};
 use std::path::Path;
@@ -22,7 +22,7 @@ pub fn loadtxt(
     let file = File::open(path).map_err(|e| format!("Failed to open file: {}", e))?;
     let reader = BufReader::new(file);
 
-    let mut data: Vec<f64> = Vec::new();
+    let mut data: Vec<Number> = Vec::new();
     let mut ncols: Option<usize> = None;
     let mut nrows = 0usize;
     let delimiter = delimiter.unwrap_or_default();
@@ -41,66 +41,137 @@ pub fn loadtxt(
         }
 
         let line = line_result.map_err(|e| format!("Failed to read line: {}", e))?;
-        let trimmed = line.trim();
+        let trimmed = strip_comment(&line, comments);
 
         // Skip empty lines and comments
-        if trimmed.is_empty() || (!comments.is_empty() && trimmed.starts_with(comments)) {
+        if trimmed.is_empty() {
             continue;
         }
 
-        // Parse values
-        let values: Vec<&str> = if delimiter.is_empty() {
-            trimmed.split_whitespace().collect()
-        } else {
-            trimmed.split(delimiter).map(|s| s.trim()).collect()
-        };
-
-        // Select columns
-        let selected: Vec<&str> = if let Some(cols) = usecols {
-            cols.iter()
-                .filter_map(|&i| values.get(i).copied())
-                .collect()
-        } else {
-            values
-        };
-
-        // Validate column count
-        match ncols {
-            Some(n) if n != selected.len() => {
-                return Err(format!(
-                    "Line {} has {} columns, expected {}",
-                    line_num + 1,
-                    selected.len(),
-                    n
-                ));
-            }
-            None => ncols = Some(selected.len()),
-            _ => {}
-        }
+        let selected = select_columns(trimmed, delimiter, usecols, line_num)?;
+        check_columns(&mut ncols, selected.len(), line_num)?;
 
         // Parse and collect values
         for s in selected {
-            let val: f64 = s
-                .parse()
-                .map_err(|_| format!("Cannot parse '{}' as number at line {}", s, line_num + 1))?;
+            let val = parse_number(s, &dtype)
+                .ok_or_else(|| format!("Cannot parse '{}' as number at line {}", s, line_num + 1))?;
             data.push(val);
         }
 
         nrows += 1;
     }
 
-    if nrows == 0 {
-        return Ok(RumpyArray::zeros(vec![0, 0], dtype));
+    table_from_numbers(&data, nrows, ncols.unwrap_or(0), dtype)
+}
+
+/// A number read from text: integers keep all their digits.
+#[derive(Clone, Copy)]
+enum Number {
+    Int(i64),
+    Float(f64),
+}
+
+/// Parse a number for the given dtype (integers exactly, `None` if it is not a number).
+fn parse_number(s: &str, dtype: &DType) -> Option<Number> {
+    match dtype.kind() {
+        DTypeKind::Uint64 => {
+            if let Ok(v) = s.parse::<u64>() {
+                return Some(Number::Int(v as i64));
+            }
+        }
+        DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+        | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 => {
+            if let Ok(v) = s.parse::<i64>() {
+                return Some(Number::Int(v));
+            }
+        }
+        _ => {}
     }
+    s.parse().ok().map(Number::Float)
+}
 
-    let ncols = ncols.unwrap_or(0);
-    let shape = if ncols == 1 {
-        vec![nrows]
+/// Build an array from parsed numbers.
+fn array_from_numbers(data: &[Number], shape: Vec<usize>, dtype: DType) -> Result<RumpyArray, String> {
+    let mut arr = RumpyArray::zeros(shape, dtype);
+    let dtype = arr.dtype();
+    let ops = dtype.ops();
+    let itemsize = dtype.itemsize() as isize;
+    let ptr = arr.data_ptr_mut();
+    for (i, number) in data.iter().enumerate() {
+        match *number {
+            Number::Float(v) => unsafe {
+                if !ops.write_f64(ptr, i, v) {
+                    return Err(format!("Cannot convert numbers to {}", ops.name()));
+                }
+            },
+            Number::Int(v) => unsafe {
+                ops.write_i64(ptr, i, v);
+                if ops.read_i64(ptr, i as isize * itemsize) != Some(v) {
+                    return Err(format!("{} is out of range for {}", v, ops.name()));
+                }
+            },
+        }
+    }
+    Ok(arr)
+}
+
+/// Shape a table of numbers: a single row, column or value drops the extra dimensions.
+fn table_from_numbers(data: &[Number], nrows: usize, ncols: usize, dtype: DType) -> Result<RumpyArray, String> {
+    let shape = match (nrows, ncols) {
+        (0, _) => vec![0],
+        (1, 1) => vec![],
+        (n, 1) => vec![n],
+        (1, n) => vec![n],
+        (n, m) => vec![n, m],
+    };
+    array_from_numbers(data, shape, dtype)
+}
+
+/// The part of a line before a comment, without surrounding blanks.
+fn strip_comment<'a>(line: &'a str, comments: &str) -> &'a str {
+    let line = match line.find(comments) {
+        Some(i) if !comments.is_empty() => &line[..i],
+        _ => line,
+    };
+    line.trim()
+}
+
+/// Split a line into fields and pick the requested columns.
+fn select_columns<'a>(
+    line: &'a str,
+    delimiter: &str,
+    usecols: Option<&[usize]>,
+    line_num: usize,
+) -> Result<Vec<&'a str>, String> {
+    let values: Vec<&str> = if delimiter.is_empty() {
+        line.split_whitespace().collect()
     } else {
-        vec![nrows, ncols]
+        line.split(delimiter).map(|s| s.trim()).collect()
     };
+    match usecols {
+        Some(cols) => cols
+            .iter()
+            .map(|&i| {
+                values.get(i).copied().ok_or_else(|| {
+                    format!("Line {} has {} columns, column {} requested", line_num + 1, values.len(), i)
+                })
+            })
+            .collect(),
+        None => Ok(values),
+    }
+}
 
-    Ok(RumpyArray::from_vec_with_shape(data, shape, dtype))
+/// All rows must have the column count of the first one.
+fn check_columns(ncols: &mut Option<usize>, found: usize, line_num: usize) -> Result<(), String> {
+    match *ncols {
+        Some(n) if n != found => {
+            Err(format!("Line {} has {} columns, expected {}", line_num + 1, found, n))
+        }
+        _ => {
+            *ncols = Some(found);
+            Ok(())
+        }
+    }
 }
 
 /// Save array to a text file.
@@ -119,7 +190,7 @@ pub fn savetxt(
 
     // Write header
     if !header.is_empty() {
-        for line in header.lines() {
+        for line in header.split('\n') {
             writer
                 .write_all(comments.as_bytes())
                 .map_err(|e| e.to_string())?;
@@ -132,16 +203,12 @@ pub fn savetxt(
         }
     }
 
-    let ptr = arr.data_ptr();
-    let dtype = arr.dtype();
-    let ops = dtype.ops();
     let shape = arr.shape();
     let ndim = arr.ndim();
 
     if ndim == 0 {
         // Scalar
-        let val = arr.get_element(&[]);
-        let formatted = format_value(val, fmt);
+        let formatted = format_element(arr, 0, fmt)?;
         writer
             .write_all(formatted.as_bytes())
             .map_err(|e| e.to_string())?;
@@ -152,8 +219,7 @@ pub fn savetxt(
         // 1D array - write as column or row based on convention
         // NumPy writes 1D as a single column
         for offset in arr.iter_offsets() {
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            let formatted = format_value(val, fmt);
+            let formatted = format_element(arr, offset, fmt)?;
             writer
                 .write_all(formatted.as_bytes())
                 .map_err(|e| e.to_string())?;
@@ -179,8 +245,7 @@ pub fn savetxt(
 
                 let flat_idx = row * ncols + col;
                 let offset = offsets[flat_idx];
-                let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-                let formatted = format_value(val, fmt);
+                let formatted = format_element(arr, offset, fmt)?;
                 writer
                     .write_all(formatted.as_bytes())
                     .map_err(|e| e.to_string())?;
@@ -193,7 +258,7 @@ pub fn savetxt(
 
     // Write footer
     if !footer.is_empty() {
-        for line in footer.lines() {
+        for line in footer.split('\n') {
             writer
                 .write_all(comments.as_bytes())
                 .map_err(|e| e.to_string())?;
@@ -210,42 +275,217 @@ pub fn savetxt(
     Ok(())
 }
 
-/// Format a value using a format string.
-fn format_value(val: f64, fmt: &str) -> String {
-    if fmt.is_empty() || fmt == "%.18e" {
-        // Default scientific notation
-        format!("{:.18e}", val)
-    } else if fmt.starts_with("%.") && fmt.ends_with('e') {
-        // Scientific notation with precision
-        if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            format!("{:.prec$e}", val, prec = precision)
+/// Format the element at a byte offset with a printf-style format.
+///
+/// Integers keep all their digits; an empty format, `%s` and `%r` give the plain value.
+fn format_element(arr: &RumpyArray, offset: isize, fmt: &str) -> Result<String, String> {
+    let dtype = arr.dtype();
+    let ops = dtype.ops();
+    let ptr = arr.data_ptr();
+    let spec = FormatSpec::parse(fmt)?;
+    match dtype.kind() {
+        DTypeKind::Complex64 | DTypeKind::Complex128 => {
+            let (re, im) = unsafe { ops.read_complex(ptr, offset) }.ok_or("cannot read complex value")?;
+            let (re, im) = (spec.format_float(re), FormatSpec { plus: true, ..spec }.format_float(im));
+            Ok(format!(" ({}{}j)", re, im))
+        }
+        DTypeKind::Bool => {
+            let v = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0) != 0.0;
+            Ok(match spec.conv {
+                's' => spec.pad(if v { "True".into() } else { "False".into() }),
+                _ => spec.format_int(v as i128),
+            })
+        }
+        DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+        | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 => {
+            let v = unsafe { ops.read_i64(ptr, offset) }.ok_or("cannot read integer value")?;
+            Ok(spec.format_int(v as i128))
+        }
+        DTypeKind::Uint64 => {
+            let v = unsafe { ops.read_i64(ptr, offset) }.ok_or("cannot read integer value")?;
+            Ok(spec.format_int(v as u64 as i128))
+        }
+        DTypeKind::Float32 if spec.conv == 's' => {
+            let v = unsafe { ops.read_f64(ptr, offset) }.ok_or("cannot read value")? as f32;
+            Ok(spec.pad(plain_float(v as f64, format!("{:?}", v))))
+        }
+        DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64 => {
+            let v = unsafe { ops.read_f64(ptr, offset) }.ok_or("cannot read value")?;
+            Ok(spec.format_float(v))
+        }
+        _ => Err(format!("cannot write {} as text", ops.name())),
+    }
+}
+
+/// Python's spelling of a float from Rust's shortest representation.
+fn plain_float(v: f64, shortest: String) -> String {
+    if v.is_nan() {
+        return "nan".to_string();
+    }
+    if v.is_infinite() {
+        return if v < 0.0 { "-inf".to_string() } else { "inf".to_string() };
+    }
+    match shortest.split_once('e') {
+        Some((mantissa, exp)) => {
+            let exp: i32 = exp.parse().unwrap_or(0);
+            let mantissa = mantissa.strip_suffix(".0").unwrap_or(mantissa);
+            format!("{}e{}{:02}", mantissa, if exp < 0 { '-' } else { '+' }, exp.abs())
+        }
+        None => shortest,
+    }
+}
+
+/// A parsed `%[flags][width][.precision]conversion`.
+#[derive(Clone, Copy)]
+struct FormatSpec {
+    left: bool,
+    plus: bool,
+    space: bool,
+    zero: bool,
+    width: usize,
+    precision: Option<usize>,
+    conv: char,
+}
+
+impl FormatSpec {
+    fn parse(fmt: &str) -> Result<Self, String> {
+        let mut spec = FormatSpec {
+            left: false, plus: false, space: false, zero: false, width: 0, precision: None, conv: 's',
+        };
+        if fmt.is_empty() {
+            return Ok(spec);
+        }
+        let invalid = || format!("unsupported format '{}'", fmt);
+        let mut rest = fmt.strip_prefix('%').ok_or_else(invalid)?;
+        while let Some(c) = rest.chars().next() {
+            match c {
+                '-' => spec.left = true,
+                '+' => spec.plus = true,
+                ' ' => spec.space = true,
+                '0' => spec.zero = true,
+                _ => break,
+            }
+            rest = &rest[1..];
+        }
+        let number = |s: &str| -> usize { s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len()) };
+        let n = number(rest);
+        if n > 0 {
+            spec.width = rest[..n].parse().map_err(|_| invalid())?;
+            rest = &rest[n..];
+        }
+        if let Some(r) = rest.strip_prefix('.') {
+            let n = number(r);
+            spec.precision = Some(if n == 0 { 0 } else { r[..n].parse().map_err(|_| invalid())? });
+            rest = &r[n..];
+        }
+        spec.conv = match rest {
+            "d" | "i" | "u" => 'd',
+            "s" | "r" => 's',
+            "e" => 'e',
+            "E" => 'E',
+            "f" | "F" => 'f',
+            "g" => 'g',
+            "G" => 'G',
+            _ => return Err(invalid()),
+        };
+        // Rust's formatting machinery takes 16-bit widths and precisions
+        if spec.width > 1000 || spec.precision.is_some_and(|p| p > 1000) || (spec.conv == 's' && spec.precision.is_some()) {
+            return Err(invalid());
+        }
+        Ok(spec)
+    }
+
+    /// Pad to the width (sign first when padding with zeros).
+    fn pad(&self, s: String) -> String {
+        let len = s.chars().count();
+        if len >= self.width {
+            return s;
+        }
+        let fill = self.width - len;
+        if self.left {
+            s + &" ".repeat(fill)
+        } else if self.zero && self.conv != 's' && s.ends_with(|c: char| c.is_ascii_digit()) {
+            let sign = usize::from(s.starts_with(['-', '+', ' ']));
+            format!("{}{}{}", &s[..sign], "0".repeat(fill), &s[sign..])
         } else {
-            format!("{:.18e}", val)
+            " ".repeat(fill) + &s
         }
-    } else if fmt.starts_with("%.") && fmt.ends_with('f') {
-        // Fixed-point with precision
-        if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            format!("{:.prec$}", val, prec = precision)
+    }
+
+    fn sign(&self, negative: bool) -> &'static str {
+        if negative {
+            "-"
+        } else if self.plus {
+            "+"
+        } else if self.space {
+            " "
         } else {
-            format!("{}", val)
-        }
-    } else if fmt.starts_with("%.") && fmt.ends_with('g') {
-        // General format
-        if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            // Rust doesn't have %g, approximate it
-            if val.abs() < 1e-4 || val.abs() >= 10f64.powi(precision as i32) {
-                format!("{:.prec$e}", val, prec = precision)
-            } else {
-                format!("{:.prec$}", val, prec = precision)
+            ""
+        }
+    }
+
+    fn format_int(&self, v: i128) -> String {
+        match self.conv {
+            's' => self.pad(v.to_string()),
+            'd' => {
+                let digits = v.unsigned_abs().to_string();
+                let digits = "0".repeat(self.precision.unwrap_or(0).saturating_sub(digits.len())) + &digits;
+                self.pad(format!("{}{}", self.sign(v < 0), digits))
             }
-        } else {
-            format!("{}", val)
+            _ => self.format_float(v as f64),
+        }
+    }
+
+    fn format_float(&self, v: f64) -> String {
+        if self.conv == 's' {
+            // Python switches to exponents at 1e16 and below 1e-4, as Rust's `{:?}` does at 1e16 and 1e-5
+            let shortest = if v != 0.0 && v.is_finite() && v.abs() < 1e-4 { format!("{:e}", v) } else { format!("{:?}", v) };
+            return self.pad(plain_float(v, shortest));
+        }
+        if self.conv == 'd' && v.is_finite() {
+            let t = v.trunc();
+            return self.pad(format!("{}{:.0}", self.sign(t < 0.0), t.abs()));
         }
-    } else if fmt.starts_with('%') && fmt.ends_with('d') {
-        // Integer format
-        format!("{}", val as i64)
+        let sign = self.sign(v.is_sign_negative() && !v.is_nan());
+        let v = v.abs();
+        let prec = self.precision.unwrap_or(6);
+        let body = if v.is_nan() {
+            "nan".to_string()
+        } else if v.is_infinite() {
+            "inf".to_string()
+        } else {
+            match self.conv {
+                'f' => format!("{:.prec$}", v),
+                'g' | 'G' => {
+                    let p = prec.max(1);
+                    let rounded = format!("{:.prec$e}", v, prec = p - 1);
+                    let (mantissa, exp) = rounded.split_once('e').unwrap();
+                    let exp: i32 = exp.parse().unwrap();
+                    if exp < -4 || exp >= p as i32 {
+                        format!("{}e{}{:02}", trim_zeros(mantissa), if exp < 0 { '-' } else { '+' }, exp.abs())
+                    } else {
+                        trim_zeros(&format!("{:.prec$}", v, prec = (p as i32 - 1 - exp) as usize)).to_string()
+                    }
+                }
+                _ => {
+                    let s = format!("{:.prec$e}", v);
+                    let (mantissa, exp) = s.split_once('e').unwrap();
+                    let exp: i32 = exp.parse().unwrap();
+                    format!("{}e{}{:02}", mantissa, if exp < 0 { '-' } else { '+' }, exp.abs())
+                }
+            }
+        };
+        let body = if matches!(self.conv, 'E' | 'G') { body.to_uppercase() } else { body };
+        self.pad(format!("{}{}", sign, body))
+    }
+}
+
+/// Drop trailing zeros (and the point) of a decimal fraction.
+fn trim_zeros(s: &str) -> &str {
+    if s.contains('.') {
+        s.trim_end_matches('0').trim_end_matches('.')
     } else {
-        format!("{}", val)
+        s
     }
 }
 
@@ -265,101 +505,42 @@ pub fn genfromtxt(
     let file = File::open(path).map_err(|e| format!("Failed to open file: {}", e))?;
     let reader = BufReader::new(file);
 
-    // Read all lines first to handle skip_footer
     let lines: Vec<String> = reader
         .lines()
         .collect::<Result<Vec<_>, _>>()
         .map_err(|e| format!("Failed to read file: {}", e))?;
 
-    let end_idx = lines.len().saturating_sub(skip_footer);
     let delimiter = delimiter.unwrap_or_default();
 
-    let mut data: Vec<f64> = Vec::new();
-    let mut ncols: Option<usize> = None;
-    let mut nrows = 0usize;
-    let mut processed_rows = 0usize;
-
-    for (line_num, line) in lines.iter().enumerate() {
-        // Skip header rows
-        if line_num < skip_header {
-            continue;
-        }
-
-        // Skip footer rows
-        if line_num >= end_idx {
-            break;
-        }
-
-        // Check max_rows
-        if let Some(max) = max_rows {
-            if processed_rows >= max {
-                break;
-            }
-        }
-
-        let trimmed = line.trim();
-
-        // Skip empty lines and comments
-        if trimmed.is_empty() || (!comments.is_empty() && trimmed.starts_with(comments)) {
-            continue;
-        }
-
-        // Parse values
-        let values: Vec<&str> = if delimiter.is_empty() {
-            trimmed.split_whitespace().collect()
-        } else {
-            trimmed.split(delimiter).map(|s| s.trim()).collect()
-        };
+    // The rows that hold data (header, blank and comment lines dropped)
+    let mut rows: Vec<(usize, &str)> = lines
+        .iter()
+        .enumerate()
+        .skip(skip_header)
+        .map(|(line_num, line)| (line_num, strip_comment(line, comments)))
+        .filter(|(_, line)| !line.is_empty())
+        .collect();
+    rows.truncate(rows.len().saturating_sub(skip_footer));
+    if let Some(max) = max_rows {
+        rows.truncate(max);
+    }
 
-        // Select columns
-        let selected: Vec<&str> = if let Some(cols) = usecols {
-            cols.iter()
-                .filter_map(|&i| values.get(i).copied())
-                .collect()
-        } else {
-            values
-        };
+    let mut data: Vec<Number> = Vec::new();
+    let mut ncols: Option<usize> = None;
 
-        // Validate column count (first non-empty row sets it)
-        match ncols {
-            Some(n) if n != selected.len() => {
-                return Err(format!(
-                    "Line {} has {} columns, expected {}",
-                    line_num + 1,
-                    selected.len(),
-                    n
-                ));
-            }
-            None => ncols = Some(selected.len()),
-            _ => {}
-        }
+    for &(line_num, line) in &rows {
+        let selected = select_columns(line, delimiter, usecols, line_num)?;
+        check_columns(&mut ncols, selected.len(), line_num)?;
 
         // Parse values with missing value handling
         for s in selected {
-            let val = if s.is_empty() || s == missing_values {
-                filling_values
-            } else {
-                s.parse().unwrap_or(filling_values)
-            };
-            data.push(val);
+            let missing = s.is_empty() || s == missing_values;
+            let val = if missing { None } else { parse_number(s, &dtype) };
+            data.push(val.unwrap_or(Number::Float(filling_values)));
         }
-
-        nrows += 1;
-        processed_rows += 1;
     }
 
-    if nrows == 0 {
-        return Ok(RumpyArray::zeros(vec![0, 0], dtype));
-    }
-
-    let ncols = ncols.unwrap_or(0);
-    let shape = if ncols == 1 {
-        vec![nrows]
-    } else {
-        vec![nrows, ncols]
-    };
-
-    Ok(RumpyArray::from_vec_with_shape(data, shape, dtype))
+    table_from_numbers(&data, rows.len(), ncols.unwrap_or(0), dtype)
 }
 
 // NPY format constants
@@ -379,7 +560,11 @@ pub fn save_npy(path: &Path, arr: &RumpyArray) -> Result<(), String> {
 /// Write array in NPY format to a writer.
 pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), String> {
     // Build header dictionary
-    let descr = arr.dtype().ops().typestr();
+    let descr = match arr.dtype().kind() {
+        DTypeKind::Str(n) => format!("<U{n}"),
+        DTypeKind::Bytes(n) => format!("|S{n}"),
+        _ => arr.dtype().typestr().to_string(),
+    };
     let fortran_order = arr.is_f_contiguous() && !arr.is_c_contiguous();
     let shape_str = format!(
         "({}{})",
@@ -401,7 +586,7 @@ pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), Strin
     // Calculate padding for 64-byte alignment (version 1.0)
     let header_len = header.len();
     let total_header_len = 10 + header_len; // magic(6) + version(2) + header_len(2)
-    let padding_needed = (64 - (total_header_len % 64)) % 64;
+    let padding_needed = 64 - (total_header_len % 64); // at least the closing newline
     let padded_header_len = header_len + padding_needed;
 
     // Check if we need version 2.0 (header > 65535 bytes)
@@ -429,15 +614,15 @@ pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), Strin
         .map_err(|e| e.to_string())?;
 
     // Write padding (spaces, ending with newline)
-    if padding_needed > 0 {
-        let mut padding = vec![b' '; padding_needed];
-        padding[padding_needed - 1] = b'\n';
-        writer.write_all(&padding).map_err(|e| e.to_string())?;
-    }
+    let mut padding = vec![b' '; padding_needed];
+    padding[padding_needed - 1] = b'\n';
+    writer.write_all(&padding).map_err(|e| e.to_string())?;
 
-    // Write data - need contiguous array
+    // Write data - need the elements in the order the header announces
     let contiguous = if arr.is_c_contiguous() {
         arr.clone()
+    } else if fortran_order {
+        arr.transpose()
     } else {
         arr.copy()
     };
@@ -490,10 +675,7 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     };
 
     // Read header
-    let mut header_bytes = vec![0u8; header_len];
-    reader
-        .read_exact(&mut header_bytes)
-        .map_err(|e| format!("Failed to read header: {}", e))?;
+    let header_bytes = read_bytes(reader, header_len).map_err(|e| format!("Failed to read header: {}", e))?;
 
     let header =
         String::from_utf8(header_bytes).map_err(|_| "Header is not valid UTF-8".to_string())?;
@@ -502,15 +684,15 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     let (dtype, shape, fortran_order) = parse_npy_header(&header)?;
 
     // Create array and read data
-    let size: usize = shape.iter().product();
-    let nbytes = size * dtype.itemsize();
+    let nbytes = shape
+        .iter()
+        .try_fold(dtype.itemsize(), |n, &d| n.checked_mul(d))
+        .filter(|_| shape.iter().filter(|&&d| d != 0).try_fold(dtype.itemsize().max(1), |n, &d| n.checked_mul(d)).is_some_and(|n| n <= isize::MAX as usize))
+        .ok_or_else(|| "Array is too large".to_string())?;
+    let data = read_bytes(reader, nbytes).map_err(|e| format!("Failed to read data: {}", e))?;
 
     let mut buffer = ArrayBuffer::new(nbytes);
-    let buf_ptr = buffer.as_mut_ptr();
-    let buf_slice = unsafe { std::slice::from_raw_parts_mut(buf_ptr, nbytes) };
-    reader
-        .read_exact(buf_slice)
-        .map_err(|e| format!("Failed to read data: {}", e))?;
+    unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), buffer.as_mut_ptr(), nbytes) };
 
     // Compute strides based on fortran_order
     let strides = if fortran_order {
@@ -537,15 +719,30 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     })
 }
 
+/// Read exactly `n` bytes, allocating only as much as the reader provides.
+fn read_bytes<R: Read>(reader: &mut R, n: usize) -> std::io::Result<Vec<u8>> {
+    let mut data = Vec::new();
+    reader.take(n as u64).read_to_end(&mut data)?;
+    if data.len() < n {
+        return Err(std::io::ErrorKind::UnexpectedEof.into());
+    }
+    Ok(data)
+}
+
 /// Parse NPY header dictionary.
 fn parse_npy_header(header: &str) -> Result<(DType, Vec<usize>, bool), String> {
     let header = header.trim();
 
     // Extract descr
     let descr = extract_string_value(header, "descr")?;
+    if descr.starts_with('>') {
+        return Err(format!("Unsupported byte order: {}", descr));
+    }
     let dtype = descr
         .parse::<DType>()
-        .map_err(|_| format!("Unsupported dtype: {}", descr))?;
+        .ok()
+        .filter(|dtype| dtype.itemsize() > 0) // strings need room for a character
+        .ok_or_else(|| format!("Unsupported dtype: {}", descr))?;
 
     // Extract fortran_order
     let fortran_order = extract_bool_value(header, "fortran_order")?;
@@ -616,19 +813,12 @@ fn extract_shape(header: &str) -> Result<Vec<usize>, String> {
                 let shape_str = &rest[..end];
 
                 // Parse shape values
-                let shape: Vec<usize> = shape_str
+                return shape_str
                     .split(',')
-                    .filter_map(|s| {
-                        let trimmed = s.trim();
-                        if trimmed.is_empty() {
-                            None
-                        } else {
-                            trimmed.parse().ok()
-                        }
-                    })
+                    .map(|s| s.trim())
+                    .filter(|s| !s.is_empty())
+                    .map(|s| s.parse().map_err(|_| format!("Invalid shape entry '{}'", s)))
                     .collect();
-
-                return Ok(shape);
             }
         }
     }
@@ -661,10 +851,19 @@ fn compute_f_strides(shape: &[usize], itemsize: usize) -> Vec<isize> {
 /// Create array from raw bytes buffer.
 pub fn frombuffer(data: &[u8], dtype: DType, count: isize, offset: usize) -> Result<RumpyArray, String> {
     let itemsize = dtype.itemsize();
-    let available_bytes = data.len().saturating_sub(offset);
+    if itemsize == 0 {
+        return Err("itemsize cannot be zero in type".to_string());
+    }
+    if offset > data.len() {
+        return Err("offset must be non-negative and no greater than buffer length".to_string());
+    }
+    let available_bytes = data.len() - offset;
     let max_elements = available_bytes / itemsize;
 
     let n = if count < 0 {
+        if available_bytes % itemsize != 0 {
+            return Err("buffer size must be a multiple of element size".to_string());
+        }
         max_elements
     } else {
         let requested = count as usize;
@@ -722,6 +921,9 @@ pub fn fromfile(
     }
 
     let itemsize = dtype.itemsize();
+    if itemsize == 0 {
+        return Err("itemsize cannot be zero in type".to_string());
+    }
 
     // Determine count
     let file_size = file
@@ -768,26 +970,25 @@ fn fromfile_text(path: &Path, dtype: DType, count: isize, sep: &str) -> Result<R
     let content =
         std::fs::read_to_string(path).map_err(|e| format!("Failed to read file: {}", e))?;
 
-    let values: Vec<f64> = content
-        .split(sep)
-        .filter_map(|s| {
-            let trimmed = s.trim();
-            if trimmed.is_empty() {
-                None
-            } else {
-                trimmed.parse().ok()
-            }
-        })
-        .collect();
+    // Blanks in the separator match any amount of whitespace
+    let sep = sep.trim();
+    let fields: Vec<&str> = if sep.is_empty() {
+        content.split_whitespace().collect()
+    } else {
+        content.split(sep).map(|s| s.trim()).filter(|s| !s.is_empty()).collect()
+    };
 
     let n = if count < 0 {
-        values.len()
+        fields.len()
     } else {
-        (count as usize).min(values.len())
+        (count as usize).min(fields.len())
     };
 
-    let data = values[..n].to_vec();
-    Ok(RumpyArray::from_vec(data, dtype))
+    let data = fields[..n]
+        .iter()
+        .map(|s| parse_number(s, &dtype).ok_or_else(|| format!("Cannot parse '{}' as number", s)))
+        .collect::<Result<Vec<_>, _>>()?;
+    array_from_numbers(&data, vec![n], dtype)
 }
 
 /// Write array to binary file.
@@ -807,9 +1008,6 @@ pub fn tofile(arr: &RumpyArray, path: &Path, sep: &str, format: &str) -> Result<
         writer.write_all(data).map_err(|e| e.to_string())?;
     } else {
         // Text mode
-        let ptr = arr.data_ptr();
-        let dtype = arr.dtype();
-        let ops = dtype.ops();
         let mut first = true;
 
         for offset in arr.iter_offsets() {
@@ -818,8 +1016,7 @@ pub fn tofile(arr: &RumpyArray, path: &Path, sep: &str, format: &str) -> Result<
             }
             first = false;
 
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            let formatted = format_value(val, format);
+            let formatted = format_element(arr, offset, format)?;
             writer.write_all(formatted.as_bytes()).map_err(|e| e.to_string())?;
         }
     }
@@ -903,7 +1100,7 @@ pub fn load_npz(path: &Path) -> Result<Vec<(String, RumpyArray)>, String> {
         let arr = read_npy(&mut cursor)?;
 
         // Extract name without .npy extension
-        let array_name = name.trim_end_matches(".npy").to_string();
+        let array_name = name.strip_suffix(".npy").unwrap_or(&name).to_string();
         results.push((array_name, arr));
     }
 
-- 
2.43.0


From 1178ee28f305fbb09144860f0cd0d92b5aab82a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:08 +0000
Subject: [PATCH 26/51] fix: random: refuse invalid parameters, shuffle and
 choose whole rows of any dtype and layout, exact integers, vonmises
 acceptance

---
 src/python/random.rs    | 221 ++++++++++++++----------------
 src/random/generator.rs | 288 +++++++++++++++++++++++++---------------
 2 files changed, 279 insertions(+), 230 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index 9032e35..9ef2f0b 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -1,5 +1,6 @@
 // Python bindings for random module
 
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use rand_core::RngCore;
 use std::sync::Mutex;
@@ -92,13 +93,13 @@ impl PyGenerator {
             match size {
                 None => {
                     // Return scalar - use integers with shape [1] and extract
-                    let arr = gen.integers(low, high, vec![1]);
-                    let val = arr.get_element(&[0]) as i64;
+                    let arr = gen.integers(low, high, vec![1]).map_err(PyValueError::new_err)?;
+                    let val = unsafe { arr.dtype().ops().read_i64(arr.data_ptr(), 0) }.unwrap_or(0);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.integers(low, high, shape);
+                    let arr = gen.integers(low, high, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -118,12 +119,13 @@ impl PyGenerator {
             match size {
                 None => {
                     // Return scalar
-                    let val = low + gen.next_f64() * (high - low);
+                    let arr = gen.uniform(low, high, vec![1]).map_err(PyValueError::new_err)?;
+                    let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.uniform(low, high, shape);
+                    let arr = gen.uniform(low, high, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -143,12 +145,12 @@ impl PyGenerator {
             match size {
                 None => {
                     // Return scalar
-                    let z = gen.next_standard_normal();
-                    Ok((loc + scale * z).into_pyobject(py)?.into_any().unbind())
+                    let arr = gen.normal(loc, scale, vec![1]).map_err(PyValueError::new_err)?;
+                    Ok(arr.get_element(&[0]).into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.normal(loc, scale, shape);
+                    let arr = gen.normal(loc, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -185,12 +187,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let z = gen.next_standard_exponential();
-                    Ok((scale * z).into_pyobject(py)?.into_any().unbind())
+                    let arr = gen.exponential(scale, vec![1]).map_err(PyValueError::new_err)?;
+                    Ok(arr.get_element(&[0]).into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.exponential(scale, shape);
+                    let arr = gen.exponential(scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -228,17 +230,13 @@ impl PyGenerator {
 
         // Try array
         if let Ok(arr_ref) = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-            // Copy array data
-            let ptr = arr_ref.inner.data_ptr();
-            let dtype = arr_ref.inner.dtype();
-            let ops = dtype.ops();
-            let mut data: Vec<f64> = Vec::with_capacity(arr_ref.inner.size());
-            for offset in arr_ref.inner.iter_offsets() {
-                data.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
-            }
-            // Shuffle
-            gen.shuffle_data(&mut data);
-            let result = RumpyArray::from_vec(data, DType::float64());
+            if arr_ref.inner.ndim() == 0 {
+                return Err(pyo3::exceptions::PyTypeError::new_err(
+                    "permutation: x must be an integer or at least 1-dimensional",
+                ));
+            }
+            let result = arr_ref.inner.copy();
+            gen.shuffle_rows(&result);
             return Ok(PyRumpyArray::new(result));
         }
 
@@ -252,36 +250,12 @@ impl PyGenerator {
         let mut gen = self.inner.lock().unwrap();
         let py_arr = x.borrow();
 
-        let arr = &py_arr.inner;
-        let n = arr.shape()[0];
-
-        if n <= 1 {
-            return Ok(());
-        }
-
-        // Get mutable pointer to data
-        // Safety: We have exclusive access via PyO3's borrow checking and the GIL
-        let ptr = arr.data_ptr() as *mut f64;
-        let size = arr.size();
-        let data = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-
-        // For 1D arrays, shuffle elements directly
-        if arr.ndim() == 1 {
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                data.swap(i, j);
-            }
-        } else {
-            // For ND arrays, shuffle along first axis by swapping rows
-            let row_size = arr.shape()[1..].iter().product::<usize>();
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                // Swap rows i and j
-                for k in 0..row_size {
-                    data.swap(i * row_size + k, j * row_size + k);
-                }
-            }
+        if py_arr.inner.ndim() == 0 {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "shuffle: x must be at least 1-dimensional",
+            ));
         }
+        gen.shuffle_rows(&py_arr.inner);
 
         Ok(())
     }
@@ -299,13 +273,13 @@ impl PyGenerator {
             match size {
                 None => {
                     // Return scalar - use beta with shape [1] and extract
-                    let arr = gen.beta(a, b, vec![1]);
+                    let arr = gen.beta(a, b, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.beta(a, b, shape);
+                    let arr = gen.beta(a, b, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -324,13 +298,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.gamma(shape_param, scale, vec![1]);
+                    let arr = gen.gamma(shape_param, scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.gamma(shape_param, scale, shape);
+                    let arr = gen.gamma(shape_param, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -348,13 +322,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.poisson(lam, vec![1]);
+                    let arr = gen.poisson(lam, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.poisson(lam, shape);
+                    let arr = gen.poisson(lam, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -373,13 +347,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.binomial(n, p, vec![1]);
+                    let arr = gen.binomial(n, p, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.binomial(n, p, shape);
+                    let arr = gen.binomial(n, p, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -397,13 +371,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.chisquare(df, vec![1]);
+                    let arr = gen.chisquare(df, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.chisquare(df, shape);
+                    let arr = gen.chisquare(df, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -420,7 +394,7 @@ impl PyGenerator {
     ) -> PyResult<PyRumpyArray> {
         let mut gen = self.inner.lock().unwrap();
         let n = size.unwrap_or(1);
-        let arr = gen.multivariate_normal(&mean, &cov, n);
+        let arr = gen.multivariate_normal(&mean, &cov, n).map_err(PyValueError::new_err)?;
         Ok(PyRumpyArray::new(arr))
     }
 
@@ -438,13 +412,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.lognormal(mean, sigma, vec![1]);
+                    let arr = gen.lognormal(mean, sigma, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.lognormal(mean, sigma, shape);
+                    let arr = gen.lognormal(mean, sigma, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -463,13 +437,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.laplace(loc, scale, vec![1]);
+                    let arr = gen.laplace(loc, scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.laplace(loc, scale, shape);
+                    let arr = gen.laplace(loc, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -488,13 +462,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.logistic(loc, scale, vec![1]);
+                    let arr = gen.logistic(loc, scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.logistic(loc, scale, shape);
+                    let arr = gen.logistic(loc, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -512,13 +486,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.rayleigh(scale, vec![1]);
+                    let arr = gen.rayleigh(scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.rayleigh(scale, shape);
+                    let arr = gen.rayleigh(scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -536,13 +510,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.weibull(a, vec![1]);
+                    let arr = gen.weibull(a, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.weibull(a, shape);
+                    let arr = gen.weibull(a, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -562,13 +536,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.geometric(p, vec![1]);
+                    let arr = gen.geometric(p, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.geometric(p, shape);
+                    let arr = gen.geometric(p, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -587,13 +561,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.negative_binomial(n, p, vec![1]);
+                    let arr = gen.negative_binomial(n, p, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.negative_binomial(n, p, shape);
+                    let arr = gen.negative_binomial(n, p, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -613,13 +587,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.hypergeometric(ngood, nbad, nsample, vec![1]);
+                    let arr = gen.hypergeometric(ngood, nbad, nsample, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.hypergeometric(ngood, nbad, nsample, shape);
+                    let arr = gen.hypergeometric(ngood, nbad, nsample, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -636,7 +610,7 @@ impl PyGenerator {
     ) -> PyResult<PyRumpyArray> {
         let mut gen = self.inner.lock().unwrap();
         let sz = size.unwrap_or(1);
-        let arr = gen.multinomial(n, &pvals, sz);
+        let arr = gen.multinomial(n, &pvals, sz).map_err(PyValueError::new_err)?;
         Ok(PyRumpyArray::new(arr))
     }
 
@@ -651,13 +625,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.zipf(a, vec![1]);
+                    let arr = gen.zipf(a, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.zipf(a, shape);
+                    let arr = gen.zipf(a, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -679,13 +653,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.triangular(left, mode, right, vec![1]);
+                    let arr = gen.triangular(left, mode, right, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.triangular(left, mode, right, shape);
+                    let arr = gen.triangular(left, mode, right, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -704,13 +678,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.vonmises(mu, kappa, vec![1]);
+                    let arr = gen.vonmises(mu, kappa, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.vonmises(mu, kappa, shape);
+                    let arr = gen.vonmises(mu, kappa, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -728,13 +702,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.pareto(a, vec![1]);
+                    let arr = gen.pareto(a, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.pareto(a, shape);
+                    let arr = gen.pareto(a, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -753,13 +727,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.wald(mean, scale, vec![1]);
+                    let arr = gen.wald(mean, scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.wald(mean, scale, shape);
+                    let arr = gen.wald(mean, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -775,7 +749,7 @@ impl PyGenerator {
     ) -> PyResult<PyRumpyArray> {
         let mut gen = self.inner.lock().unwrap();
         let sz = size.unwrap_or(1);
-        let arr = gen.dirichlet(&alpha, sz);
+        let arr = gen.dirichlet(&alpha, sz).map_err(PyValueError::new_err)?;
         Ok(PyRumpyArray::new(arr))
     }
 
@@ -790,13 +764,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.standard_t(df, vec![1]);
+                    let arr = gen.standard_t(df, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.standard_t(df, shape);
+                    let arr = gen.standard_t(df, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -813,13 +787,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.standard_cauchy(vec![1]);
+                    let arr = gen.standard_cauchy(vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.standard_cauchy(shape);
+                    let arr = gen.standard_cauchy(shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -837,13 +811,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.standard_gamma_dist(shape_param, vec![1]);
+                    let arr = gen.standard_gamma_dist(shape_param, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.standard_gamma_dist(shape_param, shape);
+                    let arr = gen.standard_gamma_dist(shape_param, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -864,21 +838,14 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
 
             // Parse `a` - either integer (range) or array-like
-            let values: Option<Vec<f64>> = if a.extract::<usize>().is_ok() {
+            let values: Option<RumpyArray> = if a.extract::<usize>().is_ok() {
                 None // Integer case: sample indices directly
             } else if let Ok(arr) = a.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-                let ptr = arr.inner.data_ptr();
-                let dtype = arr.inner.dtype();
-                let ops = dtype.ops();
-                let mut vals = Vec::with_capacity(arr.inner.size());
-                for offset in arr.inner.iter_offsets() {
-                    vals.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
-                }
-                Some(vals)
-            } else if let Ok(list) = a.extract::<Vec<f64>>() {
-                Some(list)
+                Some(arr.inner.clone())
             } else if let Ok(list) = a.extract::<Vec<i64>>() {
-                Some(list.into_iter().map(|x| x as f64).collect())
+                Some(RumpyArray::from_vec_i64(list, DType::int64()))
+            } else if let Ok(list) = a.extract::<Vec<f64>>() {
+                Some(RumpyArray::from_vec(list, DType::float64()))
             } else {
                 return Err(pyo3::exceptions::PyTypeError::new_err(
                     "choice: 'a' must be an int or array-like"
@@ -886,7 +853,9 @@ impl PyGenerator {
             };
 
             let n = match &values {
-                Some(v) => v.len(),
+                Some(v) => *v.shape().first().ok_or_else(|| {
+                    PyValueError::new_err("choice: 'a' must be an int or at least 1-dimensional")
+                })?,
                 None => a.extract::<usize>().unwrap(),
             };
 
@@ -908,29 +877,33 @@ impl PyGenerator {
                 ));
             }
 
-            // Generate samples
-            let result_data: Vec<f64> = if replace {
-                (0..total).map(|_| {
-                    let idx = gen.bounded_uint64(n as u64) as usize;
-                    values.as_ref().map_or(idx as f64, |v| v[idx])
-                }).collect()
+            // Draw positions, then pick the elements (rows) there
+            let indices: Vec<i64> = if replace {
+                (0..total).map(|_| gen.bounded_uint64(n as u64) as i64).collect()
             } else {
                 let mut available: Vec<usize> = (0..n).collect();
                 (0..total).map(|i| {
                     let j = gen.bounded_uint64((n - i) as u64) as usize;
-                    let idx = available.swap_remove(j);
-                    values.as_ref().map_or(idx as f64, |v| v[idx])
+                    available.swap_remove(j) as i64
                 }).collect()
             };
+            let indices = RumpyArray::from_vec_i64_with_shape(indices, shape, DType::int64());
+            let arr = match &values {
+                Some(v) => crate::ops::indexing::take(v, &indices, Some(0))
+                    .ok_or_else(|| PyValueError::new_err("choice: cannot index the population"))?,
+                None => indices,
+            };
 
-            if size.is_none() {
-                return Ok(result_data[0].into_pyobject(py)?.into_any().unbind());
+            if size.is_none() && arr.ndim() == 1 {
+                return Ok(arr.get_element(&[0]).into_pyobject(py)?.into_any().unbind());
             }
-
-            let arr = RumpyArray::from_vec(result_data, DType::float64())
-                .reshape(shape)
-                .unwrap_or_else(|| RumpyArray::zeros(vec![total], DType::float64()));
-
+            let arr = if size.is_none() {
+                // one row of the population
+                let row_shape = arr.shape()[1..].to_vec();
+                arr.reshape(row_shape).ok_or_else(|| PyValueError::new_err("choice: cannot shape the result"))?
+            } else {
+                arr
+            };
             Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
         })
     }
diff --git a/src/random/generator.rs b/src/random/generator.rs
index 3fe0b49..13bf9cb 100644
--- a/src/random/generator.rs
+++ b/src/random/generator.rs
@@ -42,6 +42,20 @@ impl RngCore for Generator {
     }
 }
 
+/// The message for parameters a distribution rejects.
+fn invalid(e: impl std::fmt::Display) -> String {
+    format!("invalid parameter: {}", e)
+}
+
+/// Scales and similar parameters must not be negative (or NaN).
+fn non_negative(name: &str, value: f64) -> Result<(), String> {
+    if value >= 0.0 {
+        Ok(())
+    } else {
+        Err(format!("{} < 0", name))
+    }
+}
+
 impl Generator {
     /// Generate next raw u64 value (internal method to avoid trait conflict).
     #[inline]
@@ -83,6 +97,16 @@ impl Generator {
         (self.next_u64() >> 11) as f64 * SCALE
     }
 
+    /// Generate uniform random float64 in (0, 1).
+    fn next_open_f64(&mut self) -> f64 {
+        loop {
+            let u = self.next_f64();
+            if u > 0.0 {
+                return u;
+            }
+        }
+    }
+
     /// Generate array of uniform random floats in [0, 1).
     pub fn random(&mut self, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
@@ -95,18 +119,21 @@ impl Generator {
     }
 
     /// Generate random integers in [low, high).
-    pub fn integers(&mut self, low: i64, high: i64, shape: Vec<usize>) -> RumpyArray {
-        let range = (high - low) as u64;
+    pub fn integers(&mut self, low: i64, high: i64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        if low >= high {
+            return Err("low >= high".to_string());
+        }
+        let range = high.wrapping_sub(low) as u64;
         let size: usize = shape.iter().product();
         let mut data = Vec::with_capacity(size);
 
         for _ in 0..size {
             // Bounded rejection sampling for uniform distribution
             let val = self.bounded_uint64(range);
-            data.push((low + val as i64) as f64);
+            data.push(low.wrapping_add(val as i64));
         }
 
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_i64_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate bounded random u64 in [0, range) using Lemire's algorithm.
@@ -130,16 +157,20 @@ impl Generator {
     }
 
     /// Generate uniform random floats in [low, high).
-    pub fn uniform(&mut self, low: f64, high: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn uniform(&mut self, low: f64, high: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
         let mut data = Vec::with_capacity(size);
         let range = high - low;
+        if !range.is_finite() {
+            return Err("high - low range exceeds valid bounds".to_string());
+        }
+        non_negative("high - low", range)?;
 
         for _ in 0..size {
             data.push(low + self.next_f64() * range);
         }
 
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard normal distribution using Ziggurat algorithm.
@@ -157,11 +188,12 @@ impl Generator {
     }
 
     /// Generate samples from normal distribution using Ziggurat algorithm.
-    pub fn normal(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn normal(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Normal::new(loc, scale).unwrap();
+        non_negative("scale", scale)?;
+        let dist = rand_distr::Normal::new(loc, scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard exponential distribution using Ziggurat algorithm.
@@ -179,75 +211,85 @@ impl Generator {
     }
 
     /// Generate samples from exponential distribution.
-    pub fn exponential(&mut self, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn exponential(&mut self, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Exp::new(1.0 / scale).unwrap();
+        non_negative("scale", scale)?;
+        let dist = rand_distr::Exp::new(1.0 / scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Random permutation of integers from 0 to n-1, or a shuffled copy of an array.
     pub fn permutation(&mut self, n: usize) -> RumpyArray {
-        let mut data: Vec<f64> = (0..n).map(|i| i as f64).collect();
+        let mut data: Vec<i64> = (0..n as i64).collect();
         // Fisher-Yates shuffle
         for i in (1..n).rev() {
             let j = self.bounded_uint64((i + 1) as u64) as usize;
             data.swap(i, j);
         }
-        RumpyArray::from_vec(data, DType::float64())
+        RumpyArray::from_vec_i64(data, DType::int64())
     }
 
-    /// Shuffle data in place using Fisher-Yates algorithm.
-    /// Takes a mutable slice of f64 values.
-    pub fn shuffle_data(&mut self, data: &mut [f64]) {
-        let n = data.len();
+    /// Shuffle an array (at least 1-d, any dtype and strides) in place along its first axis
+    /// using the Fisher-Yates algorithm.
+    pub fn shuffle_rows(&mut self, arr: &RumpyArray) {
+        let n = arr.shape()[0];
+        let itemsize = arr.itemsize();
+        let offsets: Vec<isize> = arr.iter_offsets().collect();
+        let row_size = if n > 0 { offsets.len() / n } else { 0 };
+        let ptr = arr.data_ptr() as *mut u8;
         for i in (1..n).rev() {
             let j = self.bounded_uint64((i + 1) as u64) as usize;
-            data.swap(i, j);
+            if i == j {
+                continue;
+            }
+            for k in 0..row_size {
+                let (a, b) = (offsets[i * row_size + k], offsets[j * row_size + k]);
+                if a != b {
+                    unsafe { std::ptr::swap_nonoverlapping(ptr.offset(a), ptr.offset(b), itemsize) };
+                }
+            }
         }
     }
 
-    /// Generate one standard gamma value using rand_distr (optimized algorithm).
-    #[inline]
-    fn next_standard_gamma(&mut self, shape_param: f64) -> f64 {
-        rand_distr::Gamma::new(shape_param, 1.0).unwrap().sample(self)
-    }
-
     /// Generate samples from gamma distribution.
-    pub fn gamma(&mut self, shape_param: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn gamma(&mut self, shape_param: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Gamma::new(shape_param, scale).unwrap();
+        let dist = rand_distr::Gamma::new(shape_param, scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from beta distribution.
-    pub fn beta(&mut self, a: f64, b: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn beta(&mut self, a: f64, b: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Beta::new(a, b).unwrap();
+        let dist = rand_distr::Beta::new(a, b).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Poisson distribution.
-    pub fn poisson(&mut self, lam: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn poisson(&mut self, lam: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Poisson::new(lam).unwrap();
+        if lam == 0.0 {
+            return Ok(RumpyArray::zeros(shape, DType::int64()));
+        }
+        let dist = rand_distr::Poisson::new(lam).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from binomial distribution.
-    pub fn binomial(&mut self, n: u64, p: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn binomial(&mut self, n: u64, p: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Binomial::new(n, p).unwrap();
+        let dist = rand_distr::Binomial::new(n, p).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from chi-square distribution.
     /// Chi-square(k) = Gamma(k/2, 2)
-    pub fn chisquare(&mut self, df: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn chisquare(&mut self, df: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         self.gamma(df / 2.0, 2.0, shape)
     }
 
@@ -258,8 +300,11 @@ impl Generator {
         mean: &[f64],
         cov: &[Vec<f64>],
         size: usize,
-    ) -> RumpyArray {
+    ) -> Result<RumpyArray, String> {
         let d = mean.len();
+        if cov.len() != d || cov.iter().any(|row| row.len() != d) {
+            return Err("mean and cov must have same length".to_string());
+        }
 
         // Cholesky decomposition (lower triangular)
         let mut l = vec![vec![0.0; d]; d];
@@ -268,7 +313,11 @@ impl Generator {
                 let mut sum = cov[i][j];
                 sum -= l[i][..j].iter().zip(&l[j][..j]).map(|(a, b)| a * b).sum::<f64>();
                 if i == j {
-                    l[i][j] = sum.sqrt();
+                    // rounding may leave a tiny negative rest of a singular covariance
+                    let tiny = sum.abs() <= 1e-12 * cov[i][i].abs();
+                    l[i][j] = if tiny { 0.0 } else { sum.sqrt() };
+                } else if l[j][j] == 0.0 {
+                    l[i][j] = 0.0;
                 } else {
                     l[i][j] = sum / l[j][j];
                 }
@@ -291,110 +340,130 @@ impl Generator {
             }
         }
 
-        RumpyArray::from_vec_with_shape(data, vec![size, d], DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, vec![size, d], DType::float64()))
     }
 
     // === Tier 1 Distributions: Common ===
 
     /// Generate samples from lognormal distribution.
-    pub fn lognormal(&mut self, mean: f64, sigma: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn lognormal(&mut self, mean: f64, sigma: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::LogNormal::new(mean, sigma).unwrap();
+        non_negative("sigma", sigma)?;
+        let dist = rand_distr::LogNormal::new(mean, sigma).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Laplace distribution (inverse CDF).
-    pub fn laplace(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn laplace(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        non_negative("scale", scale)?;
         let size: usize = shape.iter().product();
         let data: Vec<f64> = (0..size).map(|_| {
-            let u = self.next_f64() - 0.5;
+            let u = self.next_open_f64() - 0.5;
             loc - scale * u.signum() * (1.0 - 2.0 * u.abs()).ln()
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from logistic distribution (inverse CDF).
-    pub fn logistic(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn logistic(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        non_negative("scale", scale)?;
         let size: usize = shape.iter().product();
         let data: Vec<f64> = (0..size).map(|_| {
-            let u = self.next_f64();
+            let u = self.next_open_f64();
             loc + scale * (u / (1.0 - u)).ln()
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Rayleigh distribution (inverse CDF).
-    pub fn rayleigh(&mut self, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn rayleigh(&mut self, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        non_negative("scale", scale)?;
         let size: usize = shape.iter().product();
         let data: Vec<f64> = (0..size).map(|_| {
             scale * (-2.0 * (1.0 - self.next_f64()).ln()).sqrt()
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Weibull distribution.
-    pub fn weibull(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn weibull(&mut self, a: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Weibull::new(1.0, a).unwrap();
+        let dist = rand_distr::Weibull::new(1.0, a).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     // === Tier 2 Distributions: Discrete ===
 
     /// Generate samples from geometric distribution.
-    pub fn geometric(&mut self, p: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn geometric(&mut self, p: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Geometric::new(p).unwrap();
+        let dist = rand_distr::Geometric::new(p).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from negative binomial distribution.
-    pub fn negative_binomial(&mut self, n: f64, p: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn negative_binomial(&mut self, n: f64, p: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
+        if !(n > 0.0 && p > 0.0 && p <= 1.0) {
+            return Err("negative_binomial: n <= 0 or p not in (0, 1]".to_string());
+        }
+        if p == 1.0 {
+            return Ok(RumpyArray::zeros(shape, DType::int64()));
+        }
         // Use gamma-Poisson mixture: NB(n, p) = Poisson(Gamma(n, (1-p)/p))
-        let gamma_dist = rand_distr::Gamma::new(n, (1.0 - p) / p).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| {
-            let y = gamma_dist.sample(self);
-            rand_distr::Poisson::new(y).unwrap().sample(self) as f64
-        }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        let gamma_dist = rand_distr::Gamma::new(n, (1.0 - p) / p).map_err(invalid)?;
+        let mut data = Vec::with_capacity(size);
+        for _ in 0..size {
+            let y: f64 = gamma_dist.sample(self);
+            data.push(if y > 0.0 { rand_distr::Poisson::new(y).map_err(invalid)?.sample(self) } else { 0.0 });
+        }
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from hypergeometric distribution.
-    pub fn hypergeometric(&mut self, ngood: u64, nbad: u64, nsample: u64, shape: Vec<usize>) -> RumpyArray {
+    pub fn hypergeometric(&mut self, ngood: u64, nbad: u64, nsample: u64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Hypergeometric::new(ngood + nbad, ngood, nsample).unwrap();
+        let total = ngood.checked_add(nbad).ok_or("ngood + nbad is too large")?;
+        let dist = rand_distr::Hypergeometric::new(total, ngood, nsample).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from multinomial distribution.
-    pub fn multinomial(&mut self, n: u64, pvals: &[f64], size: usize) -> RumpyArray {
+    pub fn multinomial(&mut self, n: u64, pvals: &[f64], size: usize) -> Result<RumpyArray, String> {
         let k = pvals.len();
-        let mut data = vec![0.0; size * k];
-        for i in 0..size {
-            let row = &mut data[i * k..(i + 1) * k];
+        if pvals.iter().any(|p| !(0.0..=1.0).contains(p)) {
+            return Err("pvals < 0, pvals > 1 or pvals contains NaNs".to_string());
+        }
+        if k > 0 && pvals[..k - 1].iter().sum::<f64>() > 1.0 + 1e-12 {
+            return Err("sum(pvals[:-1]) > 1.0".to_string());
+        }
+        let mut data = vec![0i64; size * k];
+        for row in data.chunks_exact_mut(k.max(1)) {
             let mut remaining = n;
             let mut p_remaining = 1.0;
             for j in 0..k - 1 {
                 if p_remaining > 0.0 {
-                    let p = pvals[j] / p_remaining;
-                    let c = rand_distr::Binomial::new(remaining, p).unwrap().sample(self);
-                    row[j] = c as f64;
+                    let p = (pvals[j] / p_remaining).min(1.0);
+                    let c = rand_distr::Binomial::new(remaining, p).map_err(invalid)?.sample(self);
+                    row[j] = c as i64;
                     remaining -= c;
                     p_remaining -= pvals[j];
                 }
             }
-            row[k - 1] = remaining as f64;
+            row[k - 1] = remaining as i64;
         }
-        RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64())
+        Ok(RumpyArray::from_vec_i64_with_shape(data, vec![size, k], DType::int64()))
     }
 
     /// Generate samples from Zipf distribution (rejection sampling).
-    pub fn zipf(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn zipf(&mut self, a: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        if !(a > 1.0 && a.is_finite()) {
+            return Err("a <= 1 or a is not finite".to_string());
+        }
         let size: usize = shape.iter().product();
         // Use rejection sampling (rand_distr::Zipf has incompatible API)
         let am1 = a - 1.0;
@@ -405,26 +474,27 @@ impl Generator {
                 let v = self.next_f64();
                 let x = (u.powf(-1.0 / am1)).floor();
                 let t = (1.0 + 1.0 / x).powf(am1);
-                if v * x * (t - 1.0) / (b - 1.0) <= t / b {
+                if x < i64::MAX as f64 && v * x * (t - 1.0) / (b - 1.0) <= t / b {
                     return x;
                 }
             }
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     // === Tier 3 Distributions: Specialized ===
 
     /// Generate samples from triangular distribution.
-    pub fn triangular(&mut self, left: f64, mode: f64, right: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn triangular(&mut self, left: f64, mode: f64, right: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Triangular::new(left, right, mode).unwrap();
+        let dist = rand_distr::Triangular::new(left, right, mode).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from von Mises distribution.
-    pub fn vonmises(&mut self, mu: f64, kappa: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn vonmises(&mut self, mu: f64, kappa: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        non_negative("kappa", kappa)?;
         let size: usize = shape.iter().product();
         // rand_distr doesn't have vonmises, use Best-Fisher algorithm
         let data: Vec<f64> = (0..size).map(|_| {
@@ -440,69 +510,75 @@ impl Generator {
                 let w = (1.0 + r * z) / (r + z);
                 let c = kappa * (r - w);
                 let u2 = self.next_f64();
-                if c * (2.0 - c) - u2 > 0.0 || c.ln() - c + 1.0 - u2 >= 0.0 {
+                if c * (2.0 - c) - u2 > 0.0 || (c / u2).ln() + 1.0 - c >= 0.0 {
                     let sign = if self.next_f64() > 0.5 { 1.0 } else { -1.0 };
-                    return mu + sign * w.acos();
+                    let angle = mu + sign * w.acos();
+                    // wrap to [-pi, pi]
+                    return (angle + std::f64::consts::PI).rem_euclid(2.0 * std::f64::consts::PI) - std::f64::consts::PI;
                 }
             }
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Pareto distribution.
-    pub fn pareto(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn pareto(&mut self, a: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Pareto::new(1.0, a).unwrap();
+        let dist = rand_distr::Pareto::new(1.0, a).map_err(invalid)?;
         // NumPy's pareto returns (X - 1) where X ~ Pareto(1, a)
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) - 1.0).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Wald (inverse Gaussian) distribution.
-    pub fn wald(&mut self, mean: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn wald(&mut self, mean: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::InverseGaussian::new(mean, scale).unwrap();
+        let dist = rand_distr::InverseGaussian::new(mean, scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Dirichlet distribution.
-    pub fn dirichlet(&mut self, alpha: &[f64], size: usize) -> RumpyArray {
+    pub fn dirichlet(&mut self, alpha: &[f64], size: usize) -> Result<RumpyArray, String> {
         let k = alpha.len();
         // Can't use rand_distr::Dirichlet (requires const generic array size)
         // Use Gamma sampling: sample Gamma(alpha_i, 1) and normalize
+        let dists = alpha
+            .iter()
+            .map(|&a| rand_distr::Gamma::new(a, 1.0).map_err(invalid))
+            .collect::<Result<Vec<_>, _>>()?;
         let mut data = Vec::with_capacity(size * k);
         for _ in 0..size {
-            let gamma_samples: Vec<f64> = alpha.iter()
-                .map(|&a| self.next_standard_gamma(a))
+            let gamma_samples: Vec<f64> = dists.iter()
+                .map(|dist| dist.sample(self))
                 .collect();
             let sum: f64 = gamma_samples.iter().sum();
             data.extend(gamma_samples.iter().map(|&g| g / sum));
         }
-        RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64()))
     }
 
     /// Generate samples from standard Student's t distribution.
-    pub fn standard_t(&mut self, df: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn standard_t(&mut self, df: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::StudentT::new(df).unwrap();
+        let dist = rand_distr::StudentT::new(df).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard Cauchy distribution.
-    pub fn standard_cauchy(&mut self, shape: Vec<usize>) -> RumpyArray {
+    pub fn standard_cauchy(&mut self, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Cauchy::new(0.0, 1.0).unwrap();
+        let dist = rand_distr::Cauchy::new(0.0, 1.0).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard gamma distribution (shape only, scale=1).
-    pub fn standard_gamma_dist(&mut self, shape_param: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn standard_gamma_dist(&mut self, shape_param: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Gamma::new(shape_param, 1.0).unwrap();
+        let dist = rand_distr::Gamma::new(shape_param, 1.0).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 }
-- 
2.43.0


From b143233026b87620e8b6a3cb1093e9281c4349ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:24 +0000
Subject: [PATCH 27/51] fix: matmul, dot, inner, outer, kron, cross, vdot,
 tensordot, trace, einsum: compute in the result dtype, honour strides and
 broadcasting

---
 src/array/views.rs               |  15 +-
 src/ops/dot.rs                   |  31 +-
 src/ops/einsum.rs                | 489 ++++---------------------------
 src/ops/gufunc/mod.rs            |   6 +
 src/ops/inner.rs                 |  53 +---
 src/ops/linalg.rs                | 320 +++-----------------
 src/ops/matmul.rs                | 277 +++++++++--------
 src/ops/mod.rs                   |  16 +-
 src/ops/outer.rs                 |  52 +---
 src/python/linalg.rs             |  14 +-
 src/python/pyarray/dunder_ops.rs |   2 +-
 src/python/pyarray/mod.rs        |   8 +-
 src/python/shape.rs              |   7 +-
 13 files changed, 304 insertions(+), 986 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 91306e7..3efa89d 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -222,15 +222,14 @@ impl RumpyArray {
     pub fn gufunc_subarray(&self, loop_indices: &[usize], loop_ndim: usize) -> Self {
         let my_loop_ndim = loop_ndim.min(self.ndim());
 
-        // Compute byte offset for this position in loop dims
+        // Compute byte offset for this position in loop dims (which broadcast from the right)
         let mut offset_delta: isize = 0;
-        for (i, &idx) in loop_indices.iter().enumerate() {
-            if i < my_loop_ndim {
-                // Handle broadcasting: if loop dim is 1, use index 0
-                let dim_size = self.shape[i];
-                let actual_idx = if dim_size == 1 { 0 } else { idx };
-                offset_delta += (actual_idx as isize) * self.strides[i];
-            }
+        let missing = loop_indices.len().saturating_sub(my_loop_ndim);
+        for (i, &idx) in loop_indices[missing..].iter().enumerate() {
+            // Handle broadcasting: if loop dim is 1, use index 0
+            let dim_size = self.shape[i];
+            let actual_idx = if dim_size == 1 { 0 } else { idx };
+            offset_delta += (actual_idx as isize) * self.strides[i];
         }
 
         // Core shape and strides are the trailing dimensions
diff --git a/src/ops/dot.rs b/src/ops/dot.rs
index 47bf4db..24ba871 100644
--- a/src/ops/dot.rs
+++ b/src/ops/dot.rs
@@ -13,31 +13,10 @@ use crate::ops::matmul::matmul;
 /// Returns either a scalar (wrapped as 0D array) or an array depending on inputs.
 pub fn dot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     match (a.ndim(), b.ndim()) {
-        (1, 1) => {
-            // Inner product: sum of element-wise products
-            if a.shape()[0] != b.shape()[0] {
-                return None;
-            }
-            let mut sum = 0.0;
-            for i in 0..a.shape()[0] {
-                sum += a.get_element(&[i]) * b.get_element(&[i]);
-            }
-            // Return as 0D array (scalar)
-            Some(RumpyArray::full(vec![], sum, a.dtype()))
-        }
-        (0, _) => {
-            // Scalar × array: element-wise
-            let scalar = a.get_element(&[]);
-            Some(b.scalar_op(scalar, crate::ops::BinaryOp::Mul))
-        }
-        (_, 0) => {
-            // Array × scalar: element-wise
-            let scalar = b.get_element(&[]);
-            Some(a.scalar_op(scalar, crate::ops::BinaryOp::Mul))
-        }
-        _ => {
-            // 2D cases (and higher): use matmul
-            matmul(a, b)
-        }
+        // Scalar × array: element-wise
+        (0, _) | (_, 0) => a.binary_op(b, crate::ops::BinaryOp::Mul).ok(),
+        (_, 1) | (1, 2) | (2, 2) => matmul(a, b),
+        // Sum over the last axis of a and the second-to-last of b
+        (n, m) => crate::ops::linalg::tensordot(a, b, (vec![n - 1], vec![m - 2])),
     }
 }
diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 24df518..ba5ce3e 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -162,6 +162,9 @@ pub fn validate_subscript(
                 c
             ));
         }
+        if parsed.output.iter().filter(|&&o| o == c).count() > 1 {
+            return Err(format!("Output index '{}' appears more than once", c));
+        }
     }
 
     Ok(dim_map)
@@ -191,67 +194,61 @@ pub fn einsum(
 
     // Compute output dtype using NumPy-compatible promotion rules
     let out_dtype = compute_einsum_dtype(operands);
+    let operands: Vec<RumpyArray> = operands
+        .iter()
+        .map(|op| if op.dtype() == out_dtype { (*op).clone() } else { op.astype(out_dtype.clone()) })
+        .collect();
 
-    // Create output array
-    let out_size: usize = output_shape.iter().product();
-    let result = if output_shape.is_empty() {
-        // Scalar result
-        RumpyArray::zeros(vec![1], out_dtype.clone())
-    } else {
-        RumpyArray::zeros(output_shape.clone(), out_dtype.clone())
-    };
-
-    // Handle empty result
-    if out_size == 0 {
-        return Ok(result);
-    }
-
-    // Find contraction indices (appear in inputs but not output)
-    let output_set: HashSet<char> = parsed.output.iter().copied().collect();
+    // Contraction indices (appear in inputs but not output), in a deterministic order
     let mut contraction_indices: Vec<char> = dim_map
         .keys()
-        .filter(|c| !output_set.contains(c))
+        .filter(|c| !parsed.output.contains(c))
         .copied()
         .collect();
-    contraction_indices.sort(); // For deterministic order
-
-    // Compute strides for each index in output
-    let output_strides = compute_strides(&output_shape);
+    contraction_indices.sort();
+
+    // Binary contractions without repeated indices are matrix products
+    if let [a, b] = &operands[..] {
+        let (a_sub, b_sub) = (&parsed.inputs[0], &parsed.inputs[1]);
+        if !contraction_indices.is_empty() {
+            if let Some(result) = try_blas_contraction(a, b, a_sub, b_sub, &parsed.output, &dim_map, &contraction_indices) {
+                return Ok(result);
+            }
+        }
+    }
 
-    // Execute based on number of operands and complexity
-    match operands.len() {
-        1 => einsum_single(
-            &parsed,
-            operands[0],
-            &result,
-            &dim_map,
-            &contraction_indices,
-        ),
-        2 => einsum_binary(
-            &parsed,
-            operands[0],
-            operands[1],
-            &result,
-            &dim_map,
-            &contraction_indices,
-            &output_strides,
-        ),
-        _ => einsum_multi(
-            &parsed,
-            operands,
-            &result,
-            &dim_map,
-            &contraction_indices,
-            &output_strides,
-        ),
-    }?;
-
-    // Handle scalar output
-    if output_shape.is_empty() {
-        result.reshape(vec![]).ok_or_else(|| "Failed to reshape to scalar".to_string())
-    } else {
-        Ok(result)
+    // Three or more operands are contracted pairwise
+    if operands.len() > 2 {
+        return einsum_multi(&parsed, &operands.iter().collect::<Vec<_>>());
     }
+
+    // General case: every operand has a stride for each index, namely the sum of the strides
+    // of the axes the index stands for
+    let indices: Vec<char> = parsed.output.iter().chain(&contraction_indices).copied().collect();
+    let dims: Vec<usize> = indices.iter().map(|c| dim_map[c]).collect();
+    let strides: Vec<Vec<isize>> = operands
+        .iter()
+        .zip(&parsed.inputs)
+        .map(|(op, sub)| {
+            indices
+                .iter()
+                .map(|c| sub.iter().zip(op.strides()).filter(|(s, _)| *s == c).map(|(_, &st)| st).sum())
+                .collect()
+        })
+        .collect();
+    let pointers: Vec<*const u8> = operands.iter().map(|op| op.data_ptr()).collect();
+    let result = RumpyArray::zeros(output_shape, out_dtype.clone());
+    if !crate::ops::matmul::sum_of_products(
+        &out_dtype,
+        &pointers,
+        &strides,
+        result.data_ptr() as *mut u8,
+        result.strides(),
+        &dims,
+    ) {
+        return Err(format!("einsum is not supported for dtype {:?}", out_dtype));
+    }
+    Ok(result)
 }
 
 /// Try optimized paths for common einsum patterns.
@@ -284,30 +281,11 @@ fn try_single_operand_optimized(parsed: &ParsedSubscript, a: &RumpyArray) -> Opt
         return Some(a.transpose_axes(&perm));
     }
 
-    // Check for trace: ii-> (repeated index, scalar output)
-    if in_sub.len() == 2 && in_sub[0] == in_sub[1] && out_sub.is_empty() {
-        // trace() returns f64, create scalar with input dtype
-        let trace_val = a.trace();
-        return Some(RumpyArray::full(vec![], trace_val, a.dtype().clone()));
-    }
-
     // Check for diagonal: ii->i (repeated index, vector output) - returns view with same dtype
     if in_sub.len() == 2 && in_sub[0] == in_sub[1] && out_sub.len() == 1 && out_sub[0] == in_sub[0] {
         return Some(a.diagonal());
     }
 
-    // Check for sum over axis: ij->i or ij->j (sum_axis preserves dtype)
-    if in_sub.len() == 2 && in_set.len() == 2 && out_sub.len() == 1 {
-        let sum_axis = if out_sub[0] == in_sub[0] { 1 } else { 0 };
-        return Some(a.sum_axis(sum_axis));
-    }
-
-    // Check for total sum: ij-> (sum all elements) - sum() returns f64, use input dtype
-    if !in_sub.is_empty() && in_set.len() == in_sub.len() && out_sub.is_empty() {
-        let sum_val = a.sum();
-        return Some(RumpyArray::full(vec![], sum_val, a.dtype().clone()));
-    }
-
     None
 }
 
@@ -342,222 +320,6 @@ fn try_binary_optimized(parsed: &ParsedSubscript, a: &RumpyArray, b: &RumpyArray
     None
 }
 
-/// Compute C-contiguous strides for a shape.
-fn compute_strides(shape: &[usize]) -> Vec<usize> {
-    let mut strides = vec![1; shape.len()];
-    for i in (0..shape.len().saturating_sub(1)).rev() {
-        strides[i] = strides[i + 1] * shape[i + 1];
-    }
-    strides
-}
-
-/// Single-operand einsum (trace, diagonal, transpose, sum, etc.)
-fn einsum_single(
-    parsed: &ParsedSubscript,
-    a: &RumpyArray,
-    result: &RumpyArray,
-    dim_map: &HashMap<char, usize>,
-    contraction_indices: &[char],
-) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let out_sub = &parsed.output;
-
-    // Find which output index corresponds to which a index
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-
-    // Find contraction index positions in a (may have multiple for repeated indices)
-    let contract_in_a: Vec<(char, usize)> = contraction_indices.iter()
-        .flat_map(|&c| {
-            a_sub.iter().enumerate()
-                .filter(move |(_, ac)| **ac == c)
-                .map(move |(pos, _)| (c, pos))
-        })
-        .collect();
-
-    // Compute dimensions
-    let out_dims: Vec<usize> = out_sub.iter().map(|c| dim_map[c]).collect();
-    let contract_dims: Vec<usize> = contraction_indices.iter().map(|c| dim_map[c]).collect();
-    let out_shape = if out_dims.is_empty() { vec![1] } else { out_dims.clone() };
-    let out_strides = compute_strides(&out_shape);
-    let contract_size: usize = contract_dims.iter().product();
-    let out_size: usize = out_shape.iter().product();
-
-    // Check for repeated indices (diagonal/trace)
-    let has_repeated_in_a = {
-        let mut seen: HashSet<char> = HashSet::new();
-        a_sub.iter().any(|c| !seen.insert(*c))
-    };
-
-    let a_strides = a.strides();
-    let a_ptr = a.data_ptr();
-    let out_ptr = result.data_ptr();
-    let a_dtype = a.dtype();
-
-    // Iterate over output positions
-    for out_flat in 0..out_size {
-        // Decode output position to multi-index
-        let mut out_idx = vec![0usize; out_shape.len()];
-        let mut rem = out_flat;
-        for i in 0..out_shape.len() {
-            out_idx[i] = rem / out_strides[i];
-            rem %= out_strides[i];
-        }
-
-        // Sum over contraction indices
-        let mut sum = 0.0f64;
-
-        if contraction_indices.is_empty() {
-            // No contraction, just copy/transpose
-            // Build mapping from output index position to output value
-            let mut out_val_map: HashMap<char, usize> = HashMap::new();
-            for (i, &c) in out_sub.iter().enumerate() {
-                out_val_map.insert(c, out_idx[i]);
-            }
-
-            // Set all positions in a_idx that correspond to output indices
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (pos, &c) in a_sub.iter().enumerate() {
-                if let Some(&val) = out_val_map.get(&c) {
-                    a_idx[pos] = val;
-                }
-            }
-
-            let a_offset = compute_offset(&a_idx, a_strides);
-            let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
-            sum = val;
-        } else {
-            // Iterate over contraction indices
-            for c_flat in 0..contract_size {
-                // Decode contraction position
-                let mut c_idx = vec![0usize; contract_dims.len()];
-                let mut c_rem = c_flat;
-                for i in (0..contract_dims.len()).rev() {
-                    c_idx[i] = c_rem % contract_dims[i];
-                    c_rem /= contract_dims[i];
-                }
-
-                // Build full a index
-                let mut a_idx = vec![0usize; a_sub.len()];
-                for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                    if let Some(a_pos) = maybe_a_pos {
-                        a_idx[a_pos] = out_idx[i];
-                    }
-                }
-                // Map contraction index to contraction dimension and then to position
-                let mut c_idx_map: HashMap<char, usize> = HashMap::new();
-                for (ci, &c) in contraction_indices.iter().enumerate() {
-                    c_idx_map.insert(c, c_idx[ci]);
-                }
-                for &(c, a_pos) in &contract_in_a {
-                    if let Some(&idx) = c_idx_map.get(&c) {
-                        a_idx[a_pos] = idx;
-                    }
-                }
-
-                // Handle repeated indices
-                if has_repeated_in_a {
-                    let mut idx_vals: HashMap<char, usize> = HashMap::new();
-                    let mut valid = true;
-                    for (pos, &c) in a_sub.iter().enumerate() {
-                        if let Some(&existing) = idx_vals.get(&c) {
-                            if a_idx[pos] != existing {
-                                valid = false;
-                                break;
-                            }
-                        } else {
-                            idx_vals.insert(c, a_idx[pos]);
-                        }
-                    }
-                    if !valid {
-                        continue;
-                    }
-                }
-
-                let a_offset = compute_offset(&a_idx, a_strides);
-                let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
-                sum += val;
-            }
-        }
-
-        // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
-        }
-    }
-
-    Ok(())
-}
-
-fn compute_offset(idx: &[usize], strides: &[isize]) -> isize {
-    idx.iter()
-        .zip(strides.iter())
-        .map(|(&i, &s)| (i as isize) * s)
-        .sum()
-}
-
-/// Check if binary contraction can use BLAS (no repeated indices within operands).
-fn can_use_blas(a_sub: &[char], b_sub: &[char]) -> bool {
-    // Check no repeated indices within a
-    let mut a_seen: HashSet<char> = HashSet::new();
-    for &c in a_sub {
-        if !a_seen.insert(c) {
-            return false;
-        }
-    }
-    // Check no repeated indices within b
-    let mut b_seen: HashSet<char> = HashSet::new();
-    for &c in b_sub {
-        if !b_seen.insert(c) {
-            return false;
-        }
-    }
-    true
-}
-
-/// Binary einsum with BLAS optimization.
-///
-/// For contractions without repeated indices, we can convert to matmul:
-/// 1. Permute A so free indices come first, contracted indices last
-/// 2. Reshape A to 2D: (product of free, product of contracted)
-/// 3. Permute B so contracted indices come first, free indices last
-/// 4. Reshape B to 2D: (product of contracted, product of free)
-/// 5. Matmul A @ B → (A_free_prod, B_free_prod)
-/// 6. Reshape to output shape and permute if needed
-fn einsum_binary(
-    parsed: &ParsedSubscript,
-    a: &RumpyArray,
-    b: &RumpyArray,
-    result: &RumpyArray,
-    dim_map: &HashMap<char, usize>,
-    contraction_indices: &[char],
-    _output_strides: &[usize],
-) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let b_sub = &parsed.inputs[1];
-    let out_sub = &parsed.output;
-
-    // Try BLAS path for simple contractions
-    if can_use_blas(a_sub, b_sub) && !contraction_indices.is_empty() {
-        if let Some(blas_result) = try_blas_contraction(a, b, a_sub, b_sub, out_sub, dim_map, contraction_indices) {
-            // Copy result (dtype-aware)
-            let out_ptr = result.data_ptr() as *mut u8;
-            let blas_ptr = blas_result.data_ptr();
-            let itemsize = result.dtype().itemsize();
-            let size = result.size() * itemsize;
-            unsafe {
-                std::ptr::copy_nonoverlapping(blas_ptr, out_ptr, size);
-            }
-            return Ok(());
-        }
-    }
-
-    // Fall back to element-wise implementation
-    einsum_binary_elementwise(parsed, a, b, result, dim_map, contraction_indices)
-}
-
 /// Try to compute binary contraction using BLAS (matmul).
 fn try_blas_contraction(
     a: &RumpyArray,
@@ -596,10 +358,10 @@ fn try_blas_contraction(
     let b_free_dims: Vec<usize> = b_free.iter().map(|c| dim_map[c]).collect();
     let b_contract_dims: Vec<usize> = b_contract.iter().map(|c| dim_map[c]).collect();
 
-    let a_free_prod: usize = a_free_dims.iter().product::<usize>().max(1);
-    let a_contract_prod: usize = a_contract_dims.iter().product::<usize>().max(1);
-    let b_free_prod: usize = b_free_dims.iter().product::<usize>().max(1);
-    let b_contract_prod: usize = b_contract_dims.iter().product::<usize>().max(1);
+    let a_free_prod: usize = a_free_dims.iter().product::<usize>();
+    let a_contract_prod: usize = a_contract_dims.iter().product::<usize>();
+    let b_free_prod: usize = b_free_dims.iter().product::<usize>();
+    let b_contract_prod: usize = b_contract_dims.iter().product::<usize>();
 
     // Contract dimensions must match
     if a_contract_prod != b_contract_prod {
@@ -642,11 +404,6 @@ fn try_blas_contraction(
     let mut inter_shape: Vec<usize> = a_free_dims.clone();
     inter_shape.extend(&b_free_dims);
 
-    // Handle scalar output
-    if inter_shape.is_empty() {
-        return Some(matmul_result);
-    }
-
     let reshaped = matmul_result.reshape(inter_shape.clone())?;
 
     // Check if output order matches (a_free, b_free)
@@ -664,121 +421,6 @@ fn try_blas_contraction(
     }
 }
 
-/// Element-wise binary einsum (fallback for complex cases).
-fn einsum_binary_elementwise(
-    parsed: &ParsedSubscript,
-    a: &RumpyArray,
-    b: &RumpyArray,
-    result: &RumpyArray,
-    dim_map: &HashMap<char, usize>,
-    contraction_indices: &[char],
-) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let b_sub = &parsed.inputs[1];
-    let out_sub = &parsed.output;
-
-    // Compute dimensions
-    let out_dims: Vec<usize> = out_sub.iter().map(|c| dim_map[c]).collect();
-    let contract_dims: Vec<usize> = contraction_indices.iter().map(|c| dim_map[c]).collect();
-    let out_shape = if out_dims.is_empty() { vec![1] } else { out_dims.clone() };
-    let out_strides_local = compute_strides(&out_shape);
-    let contract_size: usize = contract_dims.iter().product();
-    let out_size: usize = out_shape.iter().product();
-
-    // Build index mappings
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let out_to_b: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-    let contract_in_a: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let contract_in_b: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-
-    let a_strides = a.strides();
-    let b_strides = b.strides();
-    let a_dtype = a.dtype();
-    let b_dtype = b.dtype();
-
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
-    let out_ptr = result.data_ptr();
-
-    // Iterate over output positions
-    for out_flat in 0..out_size {
-        // Decode output position
-        let mut out_idx = vec![0usize; out_shape.len()];
-        let mut rem = out_flat;
-        for i in 0..out_shape.len() {
-            out_idx[i] = rem / out_strides_local[i];
-            rem %= out_strides_local[i];
-        }
-
-        // Sum over contraction indices
-        let mut sum = 0.0f64;
-
-        let contract_iters = if contract_size == 0 { 1 } else { contract_size };
-
-        for c_flat in 0..contract_iters {
-            // Decode contraction position
-            let mut c_idx = vec![0usize; contract_dims.len()];
-            if !contract_dims.is_empty() {
-                let mut c_rem = c_flat;
-                for i in (0..contract_dims.len()).rev() {
-                    c_idx[i] = c_rem % contract_dims[i];
-                    c_rem /= contract_dims[i];
-                }
-            }
-
-            // Build a index
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                if let Some(a_pos) = maybe_a_pos {
-                    a_idx[a_pos] = out_idx[i];
-                }
-            }
-            for (ci, &a_pos) in contract_in_a.iter().enumerate() {
-                a_idx[a_pos] = c_idx[ci];
-            }
-
-            // Build b index
-            let mut b_idx = vec![0usize; b_sub.len()];
-            for (i, &maybe_b_pos) in out_to_b.iter().enumerate() {
-                if let Some(b_pos) = maybe_b_pos {
-                    b_idx[b_pos] = out_idx[i];
-                }
-            }
-            for (ci, &b_pos) in contract_in_b.iter().enumerate() {
-                b_idx[b_pos] = c_idx[ci];
-            }
-
-            let a_offset = compute_offset(&a_idx, a_strides);
-            let b_offset = compute_offset(&b_idx, b_strides);
-
-            let a_val: f64 = unsafe {
-                a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0)
-            };
-            let b_val: f64 = unsafe {
-                b_dtype.ops().read_f64(b_ptr, b_offset).unwrap_or(0.0)
-            };
-
-            sum += a_val * b_val;
-        }
-
-        // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
-        }
-    }
-
-    Ok(())
-}
-
 /// Multi-operand einsum (3+ operands).
 ///
 /// For now, uses left-to-right pairwise contraction.
@@ -786,15 +428,7 @@ fn einsum_binary_elementwise(
 fn einsum_multi(
     parsed: &ParsedSubscript,
     operands: &[&RumpyArray],
-    result: &RumpyArray,
-    _dim_map: &HashMap<char, usize>,
-    _contraction_indices: &[char],
-    _output_strides: &[usize],
-) -> Result<(), String> {
-    if operands.len() < 2 {
-        return Err("Multi-operand einsum requires at least 2 operands".to_string());
-    }
-
+) -> Result<RumpyArray, String> {
     // Simple left-to-right contraction strategy
     // Contract operands[0] with operands[1], then result with operands[2], etc.
 
@@ -873,16 +507,7 @@ fn einsum_multi(
         current_sub = out_indices;
     }
 
-    // Copy result to output array (dtype-aware)
-    let out_ptr = result.data_ptr() as *mut u8;
-    let cur_ptr = current.data_ptr();
-    let itemsize = result.dtype().itemsize();
-    let size = result.size() * itemsize;
-    unsafe {
-        std::ptr::copy_nonoverlapping(cur_ptr, out_ptr, size);
-    }
-
-    Ok(())
+    Ok(current)
 }
 
 /// Compute optimal contraction path.
diff --git a/src/ops/gufunc/mod.rs b/src/ops/gufunc/mod.rs
index 83721a8..2a96b72 100644
--- a/src/ops/gufunc/mod.rs
+++ b/src/ops/gufunc/mod.rs
@@ -49,6 +49,12 @@ pub fn gufunc_call<K: GufuncKernel>(
         .reduce(|a, b| promote_dtype(&a, &b))
         .unwrap_or_else(|| inputs[0].dtype());
 
+    // Kernels see every input in the output dtype
+    let inputs: Vec<RumpyArray> = inputs
+        .iter()
+        .map(|a| if a.dtype() == output_dtype { (*a).clone() } else { a.astype(output_dtype.clone()) })
+        .collect();
+
     // Allocate outputs
     let outputs: Vec<RumpyArray> = (0..sig.num_outputs())
         .map(|i| {
diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 6950523..79c75c2 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -3,48 +3,7 @@
 //! Implements inner product with signature "(n),(n)->()".
 
 use crate::array::RumpyArray;
-use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
-
-/// Inner product kernel.
-///
-/// Signature: (n),(n)->()
-pub struct InnerKernel {
-    sig: GufuncSignature,
-}
-
-impl InnerKernel {
-    pub fn new() -> Self {
-        InnerKernel {
-            sig: GufuncSignature::parse("(n),(n)->()").unwrap(),
-        }
-    }
-}
-
-impl GufuncKernel for InnerKernel {
-    fn signature(&self) -> &GufuncSignature {
-        &self.sig
-    }
-
-    fn call(&self, inputs: &[RumpyArray], outputs: &mut [RumpyArray]) {
-        let a = &inputs[0];
-        let b = &inputs[1];
-        let c = &outputs[0];
-
-        let n = a.shape()[0];
-
-        // Inner product: sum_i a[i] * b[i]
-        let mut sum = 0.0;
-        for i in 0..n {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-
-        // Write scalar result
-        let c_ptr = c.data_ptr() as *mut f64;
-        unsafe {
-            *c_ptr = sum;
-        }
-    }
-}
+use crate::ops::matmul::matmul;
 
 /// Inner product of two arrays.
 ///
@@ -67,7 +26,11 @@ impl GufuncKernel for InnerKernel {
 /// let c = rp.inner(a, b);    // (3,) - 3 inner products
 /// ```
 pub fn inner(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    let kernel = InnerKernel::new();
-    let mut results = gufunc_call(&kernel, &[a, b])?;
-    results.pop()
+    if a.ndim() == 0 || b.ndim() == 0 {
+        return a.binary_op(b, crate::ops::BinaryOp::Mul).ok();
+    }
+    // (..., 1, n) @ (..., n, 1) -> (..., 1, 1)
+    let result = matmul(&a.expand_dims(a.ndim() - 1)?, &b.expand_dims(b.ndim())?)?;
+    let shape = result.shape()[..result.ndim() - 2].to_vec();
+    result.reshape(shape)
 }
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 75342a4..5c27603 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -62,16 +62,11 @@ fn faer_col_to_rumpy(col: ColRef<'_, f64>) -> RumpyArray {
 }
 
 /// Compute trace of a 2D matrix (sum of diagonal elements).
-pub fn trace(a: &RumpyArray) -> Option<f64> {
+pub fn trace(a: &RumpyArray) -> Option<RumpyArray> {
     if a.ndim() != 2 {
         return None;
     }
-    let n = a.shape()[0].min(a.shape()[1]);
-    let mut sum = 0.0;
-    for i in 0..n {
-        sum += a.get_element(&[i, i]);
-    }
-    Some(sum)
+    Some(a.diagonal().sum_axis(0))
 }
 
 /// Compute matrix inverse.
@@ -847,186 +842,34 @@ pub fn eig(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
 
 /// Vector dot product (conjugate first argument for complex).
 /// For 1D arrays: sum(conj(a) * b)
-/// For nD arrays: dot product over last axes (flattened).
-pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<f64> {
+/// For nD arrays: dot product of the flattened arrays.
+pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     if a.size() != b.size() {
         return None;
     }
-
-    let n = a.size();
-    if n == 0 {
-        return Some(0.0);
-    }
-
-    // Fast path for contiguous float64 arrays using faer's optimized matmul
-    // Compute as row × column: [1,n] @ [n,1] -> [1,1]
-    if a.is_c_contiguous() && b.is_c_contiguous()
-        && a.dtype().kind() == DTypeKind::Float64
-        && b.dtype().kind() == DTypeKind::Float64
-    {
-        unsafe {
-            // Treat 'a' as row vector [1, n]
-            let fa = faer::mat::from_raw_parts::<f64, usize, usize>(
-                a.data_ptr() as *const f64,
-                1, n,  // 1 row, n cols
-                n as isize, 1,  // row_stride (not used), col_stride = 1
-            );
-            // Treat 'b' as column vector [n, 1]
-            let fb = faer::mat::from_raw_parts::<f64, usize, usize>(
-                b.data_ptr() as *const f64,
-                n, 1,  // n rows, 1 col
-                1, 1,  // row_stride = 1, col_stride (not used)
-            );
-            // Result is [1, 1]
-            let mut result = 0.0f64;
-            let mut fc = faer::mat::from_raw_parts_mut::<f64, usize, usize>(
-                &mut result as *mut f64,
-                1, 1,
-                1, 1,
-            );
-            faer::linalg::matmul::matmul(
-                fc.as_mut(),
-                fa.as_ref(),
-                fb.as_ref(),
-                None,
-                1.0,
-                faer::Parallelism::None,
-            );
-            return Some(result);
-        }
-    }
-
-    // General path for non-contiguous or other dtypes
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
-    let a_dtype = a.dtype();
-    let b_dtype = b.dtype();
-
-    let sum = a.iter_offsets().zip(b.iter_offsets()).fold(0.0, |acc, (a_off, b_off)| {
-        let a_val = unsafe { a_dtype.ops().read_f64(a_ptr, a_off).unwrap_or(0.0) };
-        let b_val = unsafe { b_dtype.ops().read_f64(b_ptr, b_off).unwrap_or(0.0) };
-        acc + a_val * b_val
-    });
-
-    Some(sum)
+    let a_flat = a.conj().reshape(vec![a.size()])?;
+    let b_flat = b.reshape(vec![b.size()])?;
+    crate::ops::matmul::matmul(&a_flat, &b_flat)
 }
 
 /// Kronecker product of two arrays.
 pub fn kron(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    if a.ndim() < 1 || b.ndim() < 1 {
-        return None;
-    }
-
-    // Broadcast to same ndim (prepend 1s to smaller)
-    let max_ndim = a.ndim().max(b.ndim());
-    let mut a_shape = vec![1usize; max_ndim];
-    let mut b_shape = vec![1usize; max_ndim];
-
-    for i in 0..a.ndim() {
-        a_shape[max_ndim - a.ndim() + i] = a.shape()[i];
-    }
-    for i in 0..b.ndim() {
-        b_shape[max_ndim - b.ndim() + i] = b.shape()[i];
-    }
-
-    // Result shape is element-wise product
-    let mut out_shape = Vec::with_capacity(max_ndim);
-    for i in 0..max_ndim {
-        out_shape.push(a_shape[i] * b_shape[i]);
-    }
-
-    let result = RumpyArray::zeros(out_shape.clone(), DType::float64());
-
-    // For 2D case (most common)
-    if max_ndim == 2 {
-        let (m, n) = (a_shape[0], a_shape[1]);
-        let (p, q) = (b_shape[0], b_shape[1]);
-        let out_cols = out_shape[1];
-
-        // Fast path for contiguous float64 arrays
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = unsafe { *a_ptr.add(i * n + j) };
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = unsafe { *b_ptr.add(k * q + l) };
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                *out_ptr.add(out_i * out_cols + out_j) = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        } else {
-            // General path
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = a.get_element(&[i, j]);
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = b.get_element(&[k, l]);
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                let ptr = result.data_ptr().add((out_i * out_cols + out_j) * 8) as *mut f64;
-                                *ptr = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    } else if max_ndim == 1 {
-        // 1D case
-        let m = a_shape[0];
-        let p = b_shape[0];
-
-        // Fast path for contiguous float64
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                let a_val = unsafe { *a_ptr.add(i) };
-                for k in 0..p {
-                    let b_val = unsafe { *b_ptr.add(k) };
-                    unsafe {
-                        *out_ptr.add(i * p + k) = a_val * b_val;
-                    }
-                }
-            }
-        } else {
-            for i in 0..m {
-                let a_val = a.get_element(&[i]);
-                for k in 0..p {
-                    let b_val = b.get_element(&[k]);
-                    unsafe {
-                        let ptr = result.data_ptr().add((i * p + k) * 8) as *mut f64;
-                        *ptr = a_val * b_val;
-                    }
-                }
-            }
-        }
-    } else {
-        // General nD case - not yet implemented
-        return None;
-    }
-
-    Some(result)
+    // Same number of dimensions (prepend 1s to the smaller shape)
+    let ndim = a.ndim().max(b.ndim());
+    let padded = |x: &RumpyArray| -> Vec<usize> {
+        let mut shape = vec![1; ndim - x.ndim()];
+        shape.extend_from_slice(x.shape());
+        shape
+    };
+    let (a_shape, b_shape) = (padded(a), padded(b));
+
+    // a as (m0, 1, m1, 1, ...) times b as (1, p0, 1, p1, ...)
+    let a_wide = a.reshape(a_shape.iter().flat_map(|&m| [m, 1]).collect())?;
+    let b_wide = b.reshape(b_shape.iter().flat_map(|&p| [1, p]).collect())?;
+    a_wide
+        .binary_op(&b_wide, crate::ops::BinaryOp::Mul)
+        .ok()?
+        .reshape(a_shape.iter().zip(&b_shape).map(|(m, p)| m * p).collect())
 }
 
 /// Cross product of two 3D vectors.
@@ -1039,22 +882,11 @@ pub fn cross(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         return None;
     }
 
-    let a0 = a.get_element(&[0]);
-    let a1 = a.get_element(&[1]);
-    let a2 = a.get_element(&[2]);
-    let b0 = b.get_element(&[0]);
-    let b1 = b.get_element(&[1]);
-    let b2 = b.get_element(&[2]);
-
-    let result = RumpyArray::zeros(vec![3], DType::float64());
-    unsafe {
-        let ptr = result.data_ptr() as *mut f64;
-        *ptr = a1 * b2 - a2 * b1;
-        *ptr.add(1) = a2 * b0 - a0 * b2;
-        *ptr.add(2) = a0 * b1 - a1 * b0;
-    }
-
-    Some(result)
+    let next = RumpyArray::from_vec(vec![1.0, 2.0, 0.0], DType::int64());
+    let prev = RumpyArray::from_vec(vec![2.0, 0.0, 1.0], DType::int64());
+    let left = a.select_by_indices(&next)?.binary_op(&b.select_by_indices(&prev)?, crate::ops::BinaryOp::Mul).ok()?;
+    let right = a.select_by_indices(&prev)?.binary_op(&b.select_by_indices(&next)?, crate::ops::BinaryOp::Mul).ok()?;
+    left.binary_op(&right, crate::ops::BinaryOp::Sub).ok()
 }
 
 /// Singular values only (no U or Vt).
@@ -1104,7 +936,7 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
 
     // Handle n == 0: return identity
     if n == 0 {
-        return Some(RumpyArray::eye(size, DType::float64()));
+        return Some(RumpyArray::eye(size, a.dtype()));
     }
 
     // For negative powers, compute inverse first
@@ -1116,7 +948,7 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
     let exp = n.unsigned_abs();
 
     // Binary exponentiation for efficiency
-    let mut result = RumpyArray::eye(size, DType::float64());
+    let mut result = RumpyArray::eye(size, base.dtype());
     let mut current = base;
     let mut remaining = exp;
 
@@ -1268,85 +1100,21 @@ pub fn tensordot(a: &RumpyArray, b: &RumpyArray, axes: (Vec<usize>, Vec<usize>))
         }
     }
 
-    // Simple case: tensordot with axes=1 (matmul-like)
-    if a.ndim() == 2 && b.ndim() == 2 && a_axes == vec![1] && b_axes == vec![0] {
-        // This is just matrix multiplication
-        return crate::ops::matmul::matmul(a, b);
-    }
-
-    // General case: compute result shape and contract
-    // Result shape = [a_shape without a_axes] + [b_shape without b_axes]
-    let mut result_shape = Vec::new();
-    for i in 0..a.ndim() {
-        if !a_axes.contains(&i) {
-            result_shape.push(a.shape()[i]);
-        }
-    }
-    for i in 0..b.ndim() {
-        if !b_axes.contains(&i) {
-            result_shape.push(b.shape()[i]);
-        }
-    }
-
-    if result_shape.is_empty() {
-        result_shape.push(1); // Scalar result
-    }
-
-    let result = RumpyArray::zeros(result_shape.clone(), DType::float64());
-
-    // For now, only support up to 2D arrays
-    if a.ndim() > 2 || b.ndim() > 2 {
+    // No axis may be summed twice
+    let distinct = |axes: &[usize]| axes.iter().enumerate().all(|(i, ax)| !axes[..i].contains(ax));
+    if !distinct(&a_axes) || !distinct(&b_axes) {
         return None;
     }
 
-    // 1D cases
-    if a.ndim() == 1 && b.ndim() == 1 {
-        // Inner product
-        let mut sum = 0.0;
-        for i in 0..a.shape()[0] {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-        unsafe {
-            let ptr = result.data_ptr() as *mut f64;
-            *ptr = sum;
-        }
-        return Some(result);
-    }
-
-    // 2D x 1D or 1D x 2D
-    if a.ndim() == 2 && b.ndim() == 1 {
-        // axes=([1], [0]) means matrix-vector product
-        if a_axes == vec![1] && b_axes == vec![0] {
-            for i in 0..a.shape()[0] {
-                let mut sum = 0.0;
-                for j in 0..a.shape()[1] {
-                    sum += a.get_element(&[i, j]) * b.get_element(&[j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    if a.ndim() == 1 && b.ndim() == 2 {
-        // axes=([0], [0]) means vector-matrix product
-        if a_axes == vec![0] && b_axes == vec![0] {
-            for j in 0..b.shape()[1] {
-                let mut sum = 0.0;
-                for i in 0..a.shape()[0] {
-                    sum += a.get_element(&[i]) * b.get_element(&[i, j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(j * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    None // Unsupported case
+    // As a matrix product: (free axes of a, summed axes) @ (summed axes, free axes of b)
+    let a_free: Vec<usize> = (0..a.ndim()).filter(|i| !a_axes.contains(i)).collect();
+    let b_free: Vec<usize> = (0..b.ndim()).filter(|i| !b_axes.contains(i)).collect();
+    let size = |x: &RumpyArray, axes: &[usize]| -> usize { axes.iter().map(|&i| x.shape()[i]).product() };
+    let (m, n, p) = (size(a, &a_free), size(a, &a_axes), size(b, &b_free));
+    let a_order: Vec<usize> = a_free.iter().chain(&a_axes).copied().collect();
+    let b_order: Vec<usize> = b_axes.iter().chain(&b_free).copied().collect();
+    let a_2d = a.transpose_axes(&a_order).reshape(vec![m, n])?;
+    let b_2d = b.transpose_axes(&b_order).reshape(vec![n, p])?;
+    let shape = a_free.iter().map(|&i| a.shape()[i]).chain(b_free.iter().map(|&i| b.shape()[i])).collect();
+    crate::ops::matmul::matmul(&a_2d, &b_2d)?.reshape(shape)
 }
diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index aa195ff..8176d5d 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -3,7 +3,9 @@
 //! Implements batched matrix multiplication with signature "(m,n),(n,p)->(m,p)".
 //! Uses BLAS (Accelerate on macOS) when available, falls back to faer.
 
-use crate::array::{DType, RumpyArray};
+use crate::array::dtype::DTypeKind;
+use crate::array::{increment_indices, DType, RumpyArray};
+use faer::complex_native::{c32, c64};
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
 // Link BLAS when accelerate feature is enabled
@@ -124,91 +126,143 @@ impl GufuncKernel for MatmulKernel {
             }
         }
 
-        // Fallback to faer for float/complex, generic loop for integers
-        if dtype == DType::float64() {
-            matmul_faer_f64(a, b, c, m, n, p);
-        } else if dtype == DType::float32() {
-            matmul_faer_f32(a, b, c, m, n, p);
-        } else if dtype == DType::complex64() {
-            matmul_faer_c32(a, b, c, m, n, p);
-        } else if dtype == DType::complex128() {
-            matmul_faer_c64(a, b, c, m, n, p);
-        } else if dtype == DType::int64() {
-            matmul_generic::<i64>(a, b, c, m, n, p);
-        } else if dtype == DType::int32() {
-            matmul_generic::<i32>(a, b, c, m, n, p);
-        } else if dtype == DType::bool() {
-            matmul_bool(a, b, c, m, n, p);
-        } else {
-            // Unsupported dtype - zero output
+        // Fallback to faer for float/complex, generic loop for the other dtypes
+        match dtype.kind() {
+            DTypeKind::Float64 => matmul_faer_f64(a, b, c, m, n, p),
+            DTypeKind::Float32 => matmul_faer_f32(a, b, c, m, n, p),
+            DTypeKind::Complex64 => matmul_faer_c32(a, b, c, m, n, p),
+            DTypeKind::Complex128 => matmul_faer_c64(a, b, c, m, n, p),
+            _ => {
+                // c[i, j] = sum over k of a[i, k] * b[k, j]
+                let (sa, sb, sc) = (a.strides(), b.strides(), c.strides());
+                sum_of_products(
+                    &dtype,
+                    &[a.data_ptr(), b.data_ptr()],
+                    &[vec![sa[0], 0, sa[1]], vec![0, sb[1], sb[0]]],
+                    c.data_ptr() as *mut u8,
+                    &[sc[0], sc[1]],
+                    &[m, p, n],
+                );
+            }
         }
     }
 }
 
-/// Bool matmul: C[i,j] = any(A[i,k] AND B[k,j] for all k)
-fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
-    let a_row_stride = a.strides()[0] as usize;
-    let a_col_stride = a.strides()[1] as usize;
-    let b_row_stride = b.strides()[0] as usize;
-    let b_col_stride = b.strides()[1] as usize;
-    let c_row_stride = c.strides()[0] as usize;
-    let c_col_stride = c.strides()[1] as usize;
-
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
-    let c_ptr = c.data_ptr() as *mut u8;
-
-    for i in 0..m {
-        for j in 0..p {
-            let mut result = false;
-            for k in 0..n {
-                unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride) != 0;
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride) != 0;
-                    if a_val && b_val {
-                        result = true;
-                        break; // Short-circuit: any true is enough
-                    }
-                }
-            }
-            unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = result as u8;
-            }
+/// Arithmetic of one element type for sums of products: wrapping for integers,
+/// and/or for bool, in single precision for float16.
+trait SumProduct: Copy {
+    type Acc: Copy;
+    const ZERO: Self::Acc;
+    fn load(self) -> Self::Acc;
+    fn mul(a: Self::Acc, b: Self::Acc) -> Self::Acc;
+    fn add(a: Self::Acc, b: Self::Acc) -> Self::Acc;
+    fn store(acc: Self::Acc) -> Self;
+}
+
+macro_rules! impl_sum_product {
+    ($T:ty, $Acc:ty, $zero:expr, $load:expr, $mul:expr, $add:expr, $store:expr) => {
+        impl SumProduct for $T {
+            type Acc = $Acc;
+            const ZERO: $Acc = $zero;
+            fn load(self) -> $Acc { $load(self) }
+            fn mul(a: $Acc, b: $Acc) -> $Acc { $mul(a, b) }
+            fn add(a: $Acc, b: $Acc) -> $Acc { $add(a, b) }
+            fn store(acc: $Acc) -> $T { $store(acc) }
         }
+    };
+    (int $($T:ty),*) => {
+        $(impl_sum_product!($T, $T, 0, |x| x, <$T>::wrapping_mul, <$T>::wrapping_add, |x| x);)*
+    };
+    (float $($T:ty, $zero:expr);*) => {
+        $(impl_sum_product!($T, $T, $zero, |x| x, |a, b| a * b, |a, b| a + b, |x| x);)*
+    };
+}
+
+/// A bool element (one byte).
+#[derive(Clone, Copy)]
+#[repr(transparent)]
+struct Bool(u8);
+
+impl_sum_product!(int i8, i16, i32, i64, u8, u16, u32, u64);
+impl_sum_product!(float f32, 0.0; f64, 0.0; c32, c32 { re: 0.0, im: 0.0 }; c64, c64 { re: 0.0, im: 0.0 });
+impl_sum_product!(half::f16, f32, 0.0, half::f16::to_f32, |a, b| a * b, |a, b| a + b, half::f16::from_f32);
+impl_sum_product!(Bool, bool, false, |x: Bool| x.0 != 0, |a, b| a && b, |a, b| a || b, |x| Bool(x as u8));
+
+/// Write to every output position the sum over the remaining dimensions of the product of
+/// all operands. `dims` are the output dimensions followed by the summed ones; every
+/// operand has a byte stride for each of them.
+pub(crate) fn sum_of_products(
+    dtype: &DType,
+    operands: &[*const u8],
+    strides: &[Vec<isize>],
+    out: *mut u8,
+    out_strides: &[isize],
+    dims: &[usize],
+) -> bool {
+    macro_rules! run {
+        ($T:ty) => { sum_of_products_typed::<$T>(operands, strides, out, out_strides, dims) };
     }
+    match dtype.kind() {
+        DTypeKind::Int8 => run!(i8),
+        DTypeKind::Int16 => run!(i16),
+        DTypeKind::Int32 => run!(i32),
+        DTypeKind::Int64 => run!(i64),
+        DTypeKind::Uint8 => run!(u8),
+        DTypeKind::Uint16 => run!(u16),
+        DTypeKind::Uint32 => run!(u32),
+        DTypeKind::Uint64 => run!(u64),
+        DTypeKind::Float16 => run!(half::f16),
+        DTypeKind::Float32 => run!(f32),
+        DTypeKind::Float64 => run!(f64),
+        DTypeKind::Complex64 => run!(c32),
+        DTypeKind::Complex128 => run!(c64),
+        DTypeKind::Bool => run!(Bool),
+        _ => return false,
+    }
+    true
 }
 
-/// Generic matmul for integer types (no BLAS/faer support)
-fn matmul_generic<T>(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize)
-where
-    T: Copy + Default + std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
-{
-    let elem_size = std::mem::size_of::<T>() as isize;
-    let a_row_stride = (a.strides()[0] / elem_size) as usize;
-    let a_col_stride = (a.strides()[1] / elem_size) as usize;
-    let b_row_stride = (b.strides()[0] / elem_size) as usize;
-    let b_col_stride = (b.strides()[1] / elem_size) as usize;
-    let c_row_stride = (c.strides()[0] / elem_size) as usize;
-    let c_col_stride = (c.strides()[1] / elem_size) as usize;
-
-    let a_ptr = a.data_ptr() as *const T;
-    let b_ptr = b.data_ptr() as *const T;
-    let c_ptr = c.data_ptr() as *mut T;
-
-    for i in 0..m {
-        for j in 0..p {
-            let mut sum = T::default();
-            for k in 0..n {
-                unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride);
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride);
-                    sum = sum + a_val * b_val;
-                }
+fn sum_of_products_typed<T: SumProduct>(
+    operands: &[*const u8],
+    strides: &[Vec<isize>],
+    out: *mut u8,
+    out_strides: &[isize],
+    dims: &[usize],
+) {
+    if dims[..out_strides.len()].contains(&0) {
+        return;
+    }
+    let (out_dims, sum_dims) = dims.split_at(out_strides.len());
+    let sum_size: usize = sum_dims.iter().product();
+    let out_size: usize = out_dims.iter().product();
+    let offset = |idx: &[usize], st: &[isize]| -> isize {
+        idx.iter().zip(st).map(|(&i, &s)| i as isize * s).sum()
+    };
+
+    let mut out_idx = vec![0usize; out_dims.len()];
+    let mut sum_idx = vec![0usize; sum_dims.len()];
+    for _ in 0..out_size {
+        let base: Vec<isize> = strides.iter().map(|st| offset(&out_idx, st)).collect();
+        let mut acc = T::ZERO;
+        for _ in 0..sum_size {
+            let mut product: Option<T::Acc> = None;
+            for (k, &ptr) in operands.iter().enumerate() {
+                let at = base[k] + offset(&sum_idx, &strides[k][out_dims.len()..]);
+                let value = unsafe { (ptr.offset(at) as *const T).read() }.load();
+                product = Some(match product {
+                    Some(p) => T::mul(p, value),
+                    None => value,
+                });
             }
-            unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = sum;
+            if let Some(p) = product {
+                acc = T::add(acc, p);
             }
+            increment_indices(&mut sum_idx, sum_dims);
         }
+        unsafe {
+            (out.offset(offset(&out_idx, out_strides)) as *mut T).write(T::store(acc));
+        }
+        increment_indices(&mut out_idx, out_dims);
     }
 }
 
@@ -275,7 +329,6 @@ fn matmul_faer_f32(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n:
 /// Fallback matmul using faer for complex64
 fn matmul_faer_c32(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
     use faer::mat;
-    use faer::complex_native::c32;
 
     let elem_size = std::mem::size_of::<c32>() as isize;
     let a_row_stride = a.strides()[0] / elem_size;
@@ -306,7 +359,6 @@ fn matmul_faer_c32(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n:
 /// Fallback matmul using faer for complex128
 fn matmul_faer_c64(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
     use faer::mat;
-    use faer::complex_native::c64;
 
     let elem_size = std::mem::size_of::<c64>() as isize;
     let a_row_stride = a.strides()[0] / elem_size;
@@ -355,58 +407,31 @@ fn matmul_faer_c64(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n:
 /// let c = rp.matmul(a, b);      // (3, 2, 5)
 /// ```
 pub fn matmul(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    // Handle 1D inputs by expanding dims
-    let (a_expanded, b_expanded, squeeze_result) = expand_for_matmul(a, b)?;
+    // Only numbers can be multiplied and summed
+    let numeric = |x: &RumpyArray| {
+        !matches!(
+            x.dtype().kind(),
+            DTypeKind::Str(_) | DTypeKind::Bytes(_) | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_)
+        )
+    };
+    if a.ndim() == 0 || b.ndim() == 0 || !numeric(a) || !numeric(b) {
+        return None;
+    }
 
-    let kernel = MatmulKernel::new();
-    let mut results = gufunc_call(&kernel, &[&a_expanded, &b_expanded])?;
+    // A vector is a row on the left and a column on the right
+    let a_matrix = if a.ndim() == 1 { a.expand_dims(0)? } else { a.clone() };
+    let b_matrix = if b.ndim() == 1 { b.expand_dims(1)? } else { b.clone() };
 
-    let result = results.pop()?;
+    let kernel = MatmulKernel::new();
+    let result = gufunc_call(&kernel, &[&a_matrix, &b_matrix])?.pop()?;
 
-    // Squeeze result if we expanded inputs
-    if squeeze_result {
-        Some(result.squeeze())
-    } else {
-        Some(result)
+    // Remove the dimensions that were added
+    let mut shape = result.shape().to_vec();
+    if a.ndim() == 1 {
+        shape.remove(shape.len() - 2);
     }
-}
-
-/// Expand 1D arrays for matmul and return whether to squeeze result.
-///
-/// NumPy semantics:
-/// - 1D @ 1D -> scalar (inner product)
-/// - 1D @ 2D -> 1D (prepend 1 to first, squeeze first dim of result)
-/// - 2D @ 1D -> 1D (append 1 to second, squeeze last dim of result)
-fn expand_for_matmul(
-    a: &RumpyArray,
-    b: &RumpyArray,
-) -> Option<(RumpyArray, RumpyArray, bool)> {
-    let a_ndim = a.ndim();
-    let b_ndim = b.ndim();
-
-    match (a_ndim, b_ndim) {
-        (1, 1) => {
-            // Inner product: (n,) @ (n,) -> ()
-            // Expand to (1, n) @ (n, 1) -> (1, 1), then squeeze
-            let a_exp = a.expand_dims(0)?;
-            let b_exp = b.expand_dims(1)?;
-            Some((a_exp, b_exp, true))
-        }
-        (1, _) => {
-            // (n,) @ (..., n, p) -> (..., p)
-            // Expand to (1, n) @ (..., n, p) -> (..., 1, p), squeeze axis -2
-            let a_exp = a.expand_dims(0)?;
-            Some((a_exp, b.clone(), true))
-        }
-        (_, 1) => {
-            // (..., m, n) @ (n,) -> (..., m)
-            // Expand to (..., m, n) @ (n, 1) -> (..., m, 1), squeeze last
-            let b_exp = b.expand_dims(1)?;
-            Some((a.clone(), b_exp, true))
-        }
-        _ => {
-            // Standard 2D+ case
-            Some((a.clone(), b.clone(), false))
-        }
+    if b.ndim() == 1 {
+        shape.pop();
     }
+    result.reshape(shape)
 }
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 248d6d5..60bbded 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -177,7 +177,7 @@ impl RumpyArray {
 
     // Math ufuncs are in array_methods/unary.rs
 
-    /// Extract diagonal from a 2D array. Returns a view.
+    /// Extract the diagonal of the first two axes, as the last axis. Returns a view.
     pub fn diagonal(&self) -> RumpyArray {
         assert!(self.ndim() >= 2, "diagonal requires at least 2D array");
         let shape = self.shape();
@@ -187,14 +187,12 @@ impl RumpyArray {
         // Diagonal stride = row_stride + col_stride (step diagonally)
         let diag_stride = strides[0] + strides[1];
 
-        // Return a 1D view with the diagonal stride
-        self.view_with(0, vec![n], vec![diag_stride])
-    }
-
-    /// Return sum of diagonal elements (trace).
-    pub fn trace(&self) -> f64 {
-        // Use diagonal view for efficient traversal
-        self.diagonal().sum()
+        // The diagonal steps through both axes at once
+        let mut new_shape = shape[2..].to_vec();
+        let mut new_strides = strides[2..].to_vec();
+        new_shape.push(n);
+        new_strides.push(diag_stride);
+        self.view_with(0, new_shape, new_strides)
     }
 
     /// Swap two axes of the array.
diff --git a/src/ops/outer.rs b/src/ops/outer.rs
index 0c31abe..8cef60f 100644
--- a/src/ops/outer.rs
+++ b/src/ops/outer.rs
@@ -3,54 +3,6 @@
 //! Implements outer product with signature "(m),(n)->(m,n)".
 
 use crate::array::RumpyArray;
-use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
-
-/// Outer product kernel.
-///
-/// Signature: (m),(n)->(m,n)
-pub struct OuterKernel {
-    sig: GufuncSignature,
-}
-
-impl OuterKernel {
-    pub fn new() -> Self {
-        OuterKernel {
-            sig: GufuncSignature::parse("(m),(n)->(m,n)").unwrap(),
-        }
-    }
-}
-
-impl GufuncKernel for OuterKernel {
-    fn signature(&self) -> &GufuncSignature {
-        &self.sig
-    }
-
-    fn call(&self, inputs: &[RumpyArray], outputs: &mut [RumpyArray]) {
-        let a = &inputs[0];
-        let b = &inputs[1];
-        let c = &outputs[0];
-
-        let m = a.shape()[0];
-        let n = b.shape()[0];
-
-        let c_ptr = c.data_ptr() as *mut u8;
-        let c_stride_0 = c.strides()[0];
-        let c_stride_1 = c.strides()[1];
-
-        // Outer product: c[i,j] = a[i] * b[j]
-        for i in 0..m {
-            let ai = a.get_element(&[i]);
-            for j in 0..n {
-                let bj = b.get_element(&[j]);
-                let byte_offset = (i as isize) * c_stride_0 + (j as isize) * c_stride_1;
-                unsafe {
-                    let dst = c_ptr.offset(byte_offset);
-                    *(dst as *mut f64) = ai * bj;
-                }
-            }
-        }
-    }
-}
 
 /// Outer product of two vectors.
 ///
@@ -73,7 +25,5 @@ pub fn outer(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     let a_flat = a.reshape(vec![a.size()])?;
     let b_flat = b.reshape(vec![b.size()])?;
 
-    let kernel = OuterKernel::new();
-    let mut results = gufunc_call(&kernel, &[&a_flat, &b_flat])?;
-    results.pop()
+    a_flat.expand_dims(1)?.binary_op(&b_flat.expand_dims(0)?, crate::ops::BinaryOp::Mul).ok()
 }
diff --git a/src/python/linalg.rs b/src/python/linalg.rs
index 70f6769..65d4512 100644
--- a/src/python/linalg.rs
+++ b/src/python/linalg.rs
@@ -45,9 +45,10 @@ pub fn outer(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Compute trace of a matrix (sum of diagonal elements).
 #[pyfunction]
-pub fn trace(a: &PyRumpyArray) -> PyResult<f64> {
-    linalg_ops::trace(&a.inner)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("trace requires 2D array"))
+pub fn trace(py: Python<'_>, a: &PyRumpyArray) -> PyResult<PyObject> {
+    let result = linalg_ops::trace(&a.inner)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("trace requires 2D array"))?;
+    PyRumpyArray::new(result).python_scalar(py)
 }
 
 /// Extract diagonal or construct diagonal matrix.
@@ -60,9 +61,10 @@ pub fn diag(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Vector dot product (flattens arrays then computes inner product).
 #[pyfunction]
-pub fn vdot(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<f64> {
-    linalg_ops::vdot(&a.inner, &b.inner)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("vdot: arrays must have same total size"))
+pub fn vdot(py: Python<'_>, a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyObject> {
+    let result = linalg_ops::vdot(&a.inner, &b.inner)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("vdot: arrays must have same total size"))?;
+    PyRumpyArray::new(result).python_scalar(py)
 }
 
 /// Kronecker product of two arrays.
diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index 02edefa..74dfba8 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -12,7 +12,7 @@ use crate::ops::{BinaryOp, ComparisonOp};
 
 impl PyRumpyArray {
     /// The only element of a size-1 array as a Python object.
-    fn python_scalar(&self, py: Python<'_>) -> PyResult<PyObject> {
+    pub(crate) fn python_scalar(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "only size-1 arrays can be converted to Python scalars",
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 8689d7e..54dda98 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -381,13 +381,13 @@ impl PyRumpyArray {
     }
 
     /// Extract diagonal from 2D array.
-    fn diagonal(&self) -> Self {
-        Self::new(self.inner.diagonal())
+    fn diagonal(&self) -> PyResult<Self> {
+        super::shape::diagonal(self)
     }
 
     /// Sum of diagonal elements.
-    fn trace(&self) -> f64 {
-        self.inner.trace()
+    fn trace(&self, py: Python<'_>) -> PyResult<PyObject> {
+        super::linalg::trace(py, self)
     }
 
     /// Swap two axes.
diff --git a/src/python/shape.rs b/src/python/shape.rs
index d57ea9d..87fd19a 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -839,8 +839,11 @@ pub fn nonzero(arr: &PyRumpyArray) -> Vec<PyRumpyArray> {
 
 /// Extract diagonal.
 #[pyfunction]
-pub fn diagonal(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.diagonal())
+pub fn diagonal(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    if x.inner.ndim() < 2 {
+        return Err(pyo3::exceptions::PyValueError::new_err("diagonal requires an array of at least two dimensions"));
+    }
+    Ok(PyRumpyArray::new(x.inner.diagonal()))
 }
 
 // ============================================================================
-- 
2.43.0


From 02237dd38c6e2eb3acc6c2fd761f19c59fa3c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:34 +0000
Subject: [PATCH 28/51] fix: matmul: a product over an empty axis is zero

---
 src/ops/matmul.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index 8176d5d..8f25930 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -43,6 +43,11 @@ impl GufuncKernel for MatmulKernel {
         let p = b.shape()[1];
         let dtype = c.dtype();
 
+        // Empty sums are zero, as the output already is
+        if m == 0 || n == 0 || p == 0 {
+            return;
+        }
+
         #[cfg(feature = "accelerate")]
         {
             // Use BLAS for C-contiguous arrays
-- 
2.43.0


From 213ea1e6f568146c08ced83aea4e8ee026439752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:53 +0000
Subject: [PATCH 29/51] fix: linalg: norms of eight or more elements, of
 complex and of strided arrays; float64 solutions; refuse singular, complex
 and non-finite operands; diag of any dtype; scale eigh

---
 src/ops/array_methods/reductions.rs |   6 +-
 src/ops/kernels/arithmetic.rs       |  13 ++-
 src/ops/kernels/mod.rs              |   3 +
 src/ops/linalg.rs                   | 120 ++++++++++++++++------------
 src/ops/loops/contiguous.rs         |   6 +-
 src/ops/loops/strided.rs            |   6 +-
 src/ops/solve.rs                    |  12 ++-
 src/python/linalg.rs                | 102 +++++++++++++++++------
 8 files changed, 181 insertions(+), 87 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index e3c23eb..2bda941 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -46,7 +46,11 @@ impl RumpyArray {
     /// Sum of squares: sum(x*x). Single pass, no intermediate allocation.
     /// Used for efficient 2-norm computation: sqrt(sum_of_squares(x)).
     pub fn sum_of_squares(&self) -> f64 {
-        crate::ops::dispatch::dispatch_reduce_sum_of_squares(self).unwrap_or(0.0)
+        let dispatched = crate::ops::dispatch::dispatch_reduce_sum_of_squares(self);
+        // The strided loop covers one axis only: copy other layouts
+        dispatched
+            .or_else(|| crate::ops::dispatch::dispatch_reduce_sum_of_squares(&self.copy()))
+            .unwrap_or(0.0)
     }
 
     /// Product of all elements.
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index a30aecc..2d61fe0 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -216,6 +216,8 @@ macro_rules! impl_float_arithmetic {
             fn init() -> $T { 0.0 }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T { acc + v * v }
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a + b }
         }
         impl BinaryKernel<$T> for Pow {
             #[inline(always)]
@@ -392,6 +394,8 @@ impl ReduceKernel<f16> for SumOfSquares {
     fn init() -> f16 { f16::ZERO }
     #[inline(always)]
     fn combine(acc: f16, v: f16) -> f16 { f16::from_f32(acc.to_f32() + v.to_f32() * v.to_f32()) }
+    #[inline(always)]
+    fn merge(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32() + b.to_f32()) }
 }
 impl BinaryKernel<f16> for Pow {
     #[inline(always)]
@@ -531,6 +535,8 @@ macro_rules! impl_int_arithmetic {
             fn init() -> $T { $zero }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T { acc.wrapping_add(v.wrapping_mul(v)) }
+            #[inline(always)]
+            fn merge(a: $T, b: $T) -> $T { a.wrapping_add(b) }
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
@@ -600,7 +606,12 @@ macro_rules! impl_complex_arithmetic {
             #[inline(always)]
             fn init() -> Complex<$F> { Complex::new(0.0 as $F, 0.0 as $F) }
             #[inline(always)]
-            fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> { acc + v * v }
+            fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> {
+                // Squares of the two parts: the squared magnitude is their sum
+                Complex::new(acc.re + v.re * v.re, acc.im + v.im * v.im)
+            }
+            #[inline(always)]
+            fn merge(a: Complex<$F>, b: Complex<$F>) -> Complex<$F> { a + b }
         }
         impl BinaryKernel<Complex<$F>> for Pow {
             #[inline(always)]
diff --git a/src/ops/kernels/mod.rs b/src/ops/kernels/mod.rs
index 6e3a830..851f990 100644
--- a/src/ops/kernels/mod.rs
+++ b/src/ops/kernels/mod.rs
@@ -30,6 +30,9 @@ pub trait ReduceKernel<T>: Copy {
     fn init() -> T;
     /// Combine accumulator with new value.
     fn combine(acc: T, v: T) -> T;
+    /// Merge two accumulators. Differs from `combine` when it transforms its second operand.
+    #[inline(always)]
+    fn merge(a: T, b: T) -> T { Self::combine(a, b) }
 }
 
 /// Kernel for comparison operations (returns bool).
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 5c27603..ebdbe9d 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -82,15 +82,17 @@ pub fn inv(a: &RumpyArray) -> Option<RumpyArray> {
         return Some(RumpyArray::zeros(vec![0, 0], DType::float64()));
     }
 
-    // Try zero-copy path first
-    if let Some(fa) = try_as_faer_mat(a) {
-        let inv = fa.partial_piv_lu().inverse();
-        return Some(faer_to_rumpy(inv.as_ref()));
-    }
-    // Fallback: copy data
-    let fa = copy_to_faer_mat(a);
-    let inv = fa.partial_piv_lu().inverse();
-    Some(faer_to_rumpy(inv.as_ref()))
+    // Zero-copy path, or copy data
+    let plu = if let Some(fa) = try_as_faer_mat(a) {
+        fa.partial_piv_lu()
+    } else {
+        copy_to_faer_mat(a).partial_piv_lu()
+    };
+    let u = plu.compute_u();
+    if (0..n).any(|i| u[(i, i)] == 0.0) {
+        return None; // Singular
+    }
+    Some(faer_to_rumpy(plu.inverse().as_ref()))
 }
 
 /// Compute determinant of a square matrix using LU decomposition.
@@ -120,6 +122,9 @@ pub fn det(a: &RumpyArray) -> Option<f64> {
     let u = plu.compute_u();
     let mut det_val = 1.0;
     for i in 0..n {
+        if u[(i, i)] == 0.0 {
+            return Some(0.0); // Singular: the elimination past a zero pivot is undefined
+        }
         det_val *= u[(i, i)];
     }
 
@@ -145,18 +150,30 @@ pub fn norm(a: &RumpyArray, ord: Option<&str>) -> Option<f64> {
                 Some("1") => Some(1.0),
                 Some("inf") => Some(f64::INFINITY),
                 Some("-inf") => Some(f64::NEG_INFINITY),
-                Some(s) => s.parse::<f64>().ok(),
+                Some(s) => Some(s.parse::<f64>().ok()?),
             };
             vector_norm(a, ord_f)
         }
         2 => matrix_norm(a, ord),
         _ => {
             // For nD, default to Frobenius-like (sqrt of sum of squares)
-            Some(a.sum_of_squares().sqrt())
+            match ord {
+                None => vector_norm(a, None),
+                Some(_) => None,
+            }
         }
     }
 }
 
+/// Copy integer (and bool, float16) values to float64, so that a norm is not computed in a
+/// type its absolute values, squares or sums do not fit in.
+fn widen_for_norm(a: &RumpyArray) -> RumpyArray {
+    match a.dtype().kind() {
+        DTypeKind::Float32 | DTypeKind::Float64 | DTypeKind::Complex64 | DTypeKind::Complex128 => a.clone(),
+        _ => a.astype(DType::float64()),
+    }
+}
+
 /// Compute vector norm with flexible ord parameter.
 /// ord can be: 1, 2, inf, -inf, or arbitrary p for p-norm
 /// This is a simplified version that flattens the array and computes the norm.
@@ -165,6 +182,7 @@ pub fn vector_norm(a: &RumpyArray, ord: Option<f64>) -> Option<f64> {
     if n == 0 {
         return Some(0.0);
     }
+    let a = widen_for_norm(a);
 
     match ord {
         None | Some(2.0) => {
@@ -221,6 +239,7 @@ pub fn matrix_norm(a: &RumpyArray, ord: Option<&str>) -> Option<f64> {
     }
 
     let ord = ord.unwrap_or("fro");
+    let a = &widen_for_norm(a);
 
     match ord {
         "fro" => {
@@ -325,6 +344,34 @@ pub fn svd(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray, RumpyArray)> {
     Some((u, s, vt))
 }
 
+/// Symmetric eigendecomposition (w, V) of a non-empty square matrix.
+///
+/// The matrix is scaled by a power of two, so that its largest entry is near one: faer's
+/// divide-and-conquer method loses accuracy on uniformly large or small matrices.
+fn scaled_eigh(a: &RumpyArray) -> (faer::Col<f64>, faer::Mat<f64>) {
+    let n = a.shape()[0];
+    let mut mat = copy_to_faer_mat(a);
+    let mut largest = 0.0f64;
+    for j in 0..n {
+        for i in j..n {
+            largest = largest.max(mat[(i, j)].abs());
+        }
+    }
+    let scale = if largest > 0.0 && largest.is_finite() {
+        2.0f64.powi((largest.log2().floor() as i32).clamp(-1000, 1000))
+    } else {
+        1.0
+    };
+    for j in 0..n {
+        for i in j..n {
+            mat[(i, j)] /= scale;
+        }
+    }
+    let decomp = mat.selfadjoint_eigendecomposition(Side::Lower);
+    let w = faer::Col::from_fn(n, |i| decomp.s().column_vector()[i] * scale);
+    (w, decomp.u().to_owned())
+}
+
 /// Eigendecomposition of symmetric matrix: A = V @ diag(w) @ V^T.
 ///
 /// Returns (w, V) where w is 1D array of eigenvalues (ascending), V has eigenvectors as columns.
@@ -343,16 +390,8 @@ pub fn eigh(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
         ));
     }
 
-    let decomp = if let Some(fa) = try_as_faer_mat(a) {
-        fa.selfadjoint_eigendecomposition(Side::Lower)
-    } else {
-        copy_to_faer_mat(a).selfadjoint_eigendecomposition(Side::Lower)
-    };
-
-    let w = faer_col_to_rumpy(decomp.s().column_vector());
-    let v = faer_to_rumpy(decomp.u());
-
-    Some((w, v))
+    let (w, v) = scaled_eigh(a);
+    Some((faer_col_to_rumpy(w.as_ref()), faer_to_rumpy(v.as_ref())))
 }
 
 /// Cholesky decomposition: A = L @ L.T for symmetric positive-definite matrix.
@@ -386,29 +425,11 @@ pub fn diag(a: &RumpyArray) -> Option<RumpyArray> {
     match a.ndim() {
         1 => {
             // Create diagonal matrix from 1D array
-            let n = a.shape()[0];
-            let result = RumpyArray::zeros(vec![n, n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i]);
-                unsafe {
-                    let ptr = result.data_ptr().add((i * n + i) * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
+            Some(crate::array::diagflat(a, 0))
         }
         2 => {
             // Extract diagonal from 2D matrix
-            let n = a.shape()[0].min(a.shape()[1]);
-            let result = RumpyArray::zeros(vec![n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i, i]);
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
+            Some(a.diagonal().copy())
         }
         _ => None,
     }
@@ -425,7 +446,7 @@ pub fn slogdet(a: &RumpyArray) -> Option<(f64, f64)> {
         return None; // Must be square
     }
     if n == 0 {
-        return Some((1.0, f64::NEG_INFINITY)); // Empty matrix: det = 1, log(1) = 0, but we return -inf for log(0) product convention
+        return Some((1.0, 0.0)); // Empty matrix: det = 1, log(1) = 0
     }
 
     let plu = if let Some(fa) = try_as_faer_mat(a) {
@@ -478,7 +499,7 @@ pub fn cond(a: &RumpyArray, p: Option<&str>) -> Option<f64> {
             let sigma_max = sv[0];
             let sigma_min = sv[sv.len() - 1];
 
-            if sigma_min == 0.0 {
+            if sigma_min == 0.0 && p == "2" {
                 return Some(f64::INFINITY);
             }
 
@@ -778,13 +799,7 @@ pub fn eigvalsh(a: &RumpyArray) -> Option<RumpyArray> {
         return Some(RumpyArray::zeros(vec![0], DType::float64()));
     }
 
-    let decomp = if let Some(fa) = try_as_faer_mat(a) {
-        fa.selfadjoint_eigendecomposition(Side::Lower)
-    } else {
-        copy_to_faer_mat(a).selfadjoint_eigendecomposition(Side::Lower)
-    };
-
-    Some(faer_col_to_rumpy(decomp.s().column_vector()))
+    Some(faer_col_to_rumpy(scaled_eigh(a).0.as_ref()))
 }
 
 /// General eigendecomposition (for non-symmetric matrices).
@@ -931,7 +946,7 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
         return None; // Must be square
     }
     if size == 0 {
-        return Some(RumpyArray::zeros(vec![0, 0], DType::float64()));
+        return Some(RumpyArray::zeros(vec![0, 0], if n < 0 { DType::float64() } else { a.dtype() }));
     }
 
     // Handle n == 0: return identity
@@ -1028,6 +1043,9 @@ pub fn tensorsolve(a: &RumpyArray, b: &RumpyArray, axes: Option<&[usize]>) -> Op
         // Move specified axes to the end
         let mut perm: Vec<usize> = (0..a.ndim()).filter(|i| !ax.contains(i)).collect();
         perm.extend(ax.iter().copied());
+        if perm.len() != a.ndim() || ax.iter().any(|&i| i >= a.ndim()) {
+            return None; // Axis out of range or repeated
+        }
         a.transpose_axes(&perm)
     } else {
         a.clone()
diff --git a/src/ops/loops/contiguous.rs b/src/ops/loops/contiguous.rs
index a410e04..a779d9d 100644
--- a/src/ops/loops/contiguous.rs
+++ b/src/ops/loops/contiguous.rs
@@ -118,9 +118,9 @@ pub fn reduce<T: Copy, K: ReduceKernel<T>>(data: &[T], _kernel: K) -> T {
     }
 
     // Combine 8 accumulators in tree pattern (matches NumPy)
-    let mut acc = K::combine(
-        K::combine(K::combine(r[0], r[1]), K::combine(r[2], r[3])),
-        K::combine(K::combine(r[4], r[5]), K::combine(r[6], r[7])),
+    let mut acc = K::merge(
+        K::merge(K::merge(r[0], r[1]), K::merge(r[2], r[3])),
+        K::merge(K::merge(r[4], r[5]), K::merge(r[6], r[7])),
     );
 
     // Handle remainder
diff --git a/src/ops/loops/strided.rs b/src/ops/loops/strided.rs
index 736234c..049ffdb 100644
--- a/src/ops/loops/strided.rs
+++ b/src/ops/loops/strided.rs
@@ -104,9 +104,9 @@ pub unsafe fn reduce_strided<T: Copy, K: ReduceKernel<T>>(
     }
 
     // Combine 8 accumulators in tree pattern (matches NumPy)
-    let mut acc = K::combine(
-        K::combine(K::combine(r[0], r[1]), K::combine(r[2], r[3])),
-        K::combine(K::combine(r[4], r[5]), K::combine(r[6], r[7])),
+    let mut acc = K::merge(
+        K::merge(K::merge(r[0], r[1]), K::merge(r[2], r[3])),
+        K::merge(K::merge(r[4], r[5]), K::merge(r[6], r[7])),
     );
 
     // Handle remainder
diff --git a/src/ops/solve.rs b/src/ops/solve.rs
index f128578..3540d8d 100644
--- a/src/ops/solve.rs
+++ b/src/ops/solve.rs
@@ -2,7 +2,7 @@
 //!
 //! Solves Ax = b for x using LU decomposition with partial pivoting.
 
-use crate::array::RumpyArray;
+use crate::array::{DType, RumpyArray};
 use faer::prelude::SpSolver;
 
 /// Solve linear system Ax = b.
@@ -15,7 +15,7 @@ use faer::prelude::SpSolver;
 /// * `b` - Right-hand side, either (n,) or (n, m)
 ///
 /// # Returns
-/// Solution x with same shape as b
+/// Solution x (float64) with same shape as b, or None if A is singular or the shapes do not match
 pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     // Validate A is 2D square
     if a.ndim() != 2 {
@@ -49,10 +49,14 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 
     // Solve using LU with partial pivoting
     let plu = fa.partial_piv_lu();
+    let u = plu.compute_u();
+    if (0..n).any(|i| u[(i, i)] == 0.0) {
+        return None; // Singular
+    }
     let fx = plu.solve(&fb);
 
     // Copy result to output
-    let result = RumpyArray::zeros(vec![n, m], a.dtype());
+    let result = RumpyArray::zeros(vec![n, m], DType::float64());
     let result_ptr = result.data_ptr() as *mut u8;
     let r_stride_0 = result.strides()[0];
     let r_stride_1 = result.strides()[1];
@@ -69,7 +73,7 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 
     // Squeeze back to 1D if input was 1D
     if squeeze {
-        Some(result.squeeze())
+        result.reshape(vec![n])
     } else {
         Some(result)
     }
diff --git a/src/python/linalg.rs b/src/python/linalg.rs
index 65d4512..829c275 100644
--- a/src/python/linalg.rs
+++ b/src/python/linalg.rs
@@ -127,152 +127,200 @@ pub fn tensordot(a: &PyRumpyArray, b: &PyRumpyArray, axes: Option<&Bound<'_, pyo
 // Linalg submodule functions (exposed as np.linalg.X)
 // ============================================================================
 
+/// The decompositions are real: refuse operands they would silently drop a part of.
+fn require_real(name: &str, a: &PyRumpyArray) -> PyResult<()> {
+    use crate::array::dtype::DTypeKind::*;
+    match a.inner.dtype().kind() {
+        Bool | Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64 | Float16 | Float32 | Float64 => Ok(()),
+        _ => Err(pyo3::exceptions::PyTypeError::new_err(format!("{}: only real numeric arrays are supported", name))),
+    }
+}
+
+/// As `require_real`, for the iterative methods that do not converge on NaN or infinity.
+fn require_finite(name: &str, a: &PyRumpyArray) -> PyResult<()> {
+    require_real(name, a)?;
+    let inner = &a.inner;
+    let ops = inner.dtype();
+    let finite = inner
+        .iter_offsets()
+        .all(|offset| unsafe { ops.ops().read_f64(inner.data_ptr(), offset) }.is_none_or(f64::is_finite));
+    if finite {
+        Ok(())
+    } else {
+        Err(LinAlgError::new_err(format!("{}: array must not contain infs or NaNs", name)))
+    }
+}
+
 /// Solve linear system Ax = b.
 #[pyfunction]
 pub fn solve(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_real("solve", a)?;
+    require_real("solve", b)?;
     solve_ops::solve(&a.inner, &b.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("solve: invalid dimensions or singular matrix"))
+        .ok_or_else(|| LinAlgError::new_err("solve: invalid dimensions or singular matrix"))
 }
 
 /// QR decomposition: A = QR.
 #[pyfunction]
 pub fn qr(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    require_real("qr", a)?;
     linalg_ops::qr(&a.inner)
         .map(|(q, r)| (PyRumpyArray::new(q), PyRumpyArray::new(r)))
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("qr requires 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("qr requires 2D array"))
 }
 
 /// SVD decomposition: A = U @ diag(S) @ Vt.
 #[pyfunction]
 #[pyo3(signature = (a, full_matrices=true))]
 pub fn svd(a: &PyRumpyArray, full_matrices: bool) -> PyResult<(PyRumpyArray, PyRumpyArray, PyRumpyArray)> {
+    require_finite("svd", a)?;
     // Note: we only have thin SVD, but numpy defaults to full_matrices=True
     // For now, we always return thin SVD regardless of the flag
     let _ = full_matrices; // TODO: implement full matrices support
     linalg_ops::svd(&a.inner)
         .map(|(u, s, vt)| (PyRumpyArray::new(u), PyRumpyArray::new(s), PyRumpyArray::new(vt)))
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("svd requires 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("svd requires 2D array"))
 }
 
 /// Matrix inverse.
 #[pyfunction]
 pub fn inv(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_real("inv", a)?;
     linalg_ops::inv(&a.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("inv requires square 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("inv requires a non-singular square 2D array"))
 }
 
 /// Eigendecomposition of symmetric matrix.
 #[pyfunction]
 pub fn eigh(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    require_finite("eigh", a)?;
     linalg_ops::eigh(&a.inner)
         .map(|(w, v)| (PyRumpyArray::new(w), PyRumpyArray::new(v)))
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eigh requires square 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("eigh requires square 2D array"))
 }
 
 /// Compute determinant of a square matrix.
 #[pyfunction]
 pub fn det(a: &PyRumpyArray) -> PyResult<f64> {
+    require_real("det", a)?;
     linalg_ops::det(&a.inner)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("det requires square 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("det requires square 2D array"))
 }
 
 /// Compute matrix/vector norm.
 #[pyfunction]
 #[pyo3(signature = (a, ord=None))]
 pub fn norm(a: &PyRumpyArray, ord: Option<&str>) -> PyResult<f64> {
+    if matches!(ord, Some("2" | "-2" | "nuc")) && a.inner.ndim() == 2 {
+        require_finite("norm", a)?;
+    }
     linalg_ops::norm(&a.inner, ord)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("unsupported norm type"))
+        .ok_or_else(|| LinAlgError::new_err("unsupported norm type"))
 }
 
 /// Cholesky decomposition: A = L @ L.T for symmetric positive-definite matrix.
 #[pyfunction]
 pub fn cholesky(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_real("cholesky", a)?;
     linalg_ops::cholesky(&a.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("cholesky requires SPD matrix"))
+        .ok_or_else(|| LinAlgError::new_err("cholesky requires SPD matrix"))
 }
 
 /// Sign and log of determinant.
 #[pyfunction]
 pub fn slogdet(a: &PyRumpyArray) -> PyResult<(f64, f64)> {
+    require_real("slogdet", a)?;
     linalg_ops::slogdet(&a.inner)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("slogdet requires square 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("slogdet requires square 2D array"))
 }
 
 /// Condition number.
 #[pyfunction]
 #[pyo3(signature = (a, p=None))]
 pub fn cond(a: &PyRumpyArray, p: Option<&str>) -> PyResult<f64> {
+    require_finite("cond", a)?;
     linalg_ops::cond(&a.inner, p)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("unsupported norm type or non-2D array"))
+        .ok_or_else(|| LinAlgError::new_err("unsupported norm type or non-2D array"))
 }
 
 /// Matrix rank.
 #[pyfunction]
 #[pyo3(signature = (a, tol=None))]
 pub fn matrix_rank(a: &PyRumpyArray, tol: Option<f64>) -> PyResult<usize> {
+    require_finite("matrix_rank", a)?;
     linalg_ops::matrix_rank(&a.inner, tol)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("matrix_rank requires 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("matrix_rank requires 2D array"))
 }
 
 /// Moore-Penrose pseudo-inverse.
 #[pyfunction]
 #[pyo3(signature = (a, rcond=None))]
 pub fn pinv(a: &PyRumpyArray, rcond: Option<f64>) -> PyResult<PyRumpyArray> {
+    require_finite("pinv", a)?;
     linalg_ops::pinv(&a.inner, rcond)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("pinv requires 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("pinv requires 2D array"))
 }
 
 /// Least squares solution.
 #[pyfunction]
 #[pyo3(signature = (a, b, rcond=None))]
 pub fn lstsq(a: &PyRumpyArray, b: &PyRumpyArray, rcond: Option<f64>) -> PyResult<(PyRumpyArray, PyRumpyArray, usize, PyRumpyArray)> {
+    require_finite("lstsq", a)?;
+    require_finite("lstsq", b)?;
     linalg_ops::lstsq(&a.inner, &b.inner, rcond)
         .map(|(x, residuals, rank, s)| (PyRumpyArray::new(x), PyRumpyArray::new(residuals), rank, PyRumpyArray::new(s)))
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("lstsq: invalid dimensions"))
+        .ok_or_else(|| LinAlgError::new_err("lstsq: invalid dimensions"))
 }
 
 /// Eigenvalues of a general matrix.
 #[pyfunction]
 pub fn eigvals(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_finite("eigvals", a)?;
     linalg_ops::eigvals(&a.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eigvals requires square 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("eigvals requires square 2D array"))
 }
 
 /// Eigendecomposition of a general matrix.
 #[pyfunction]
 pub fn eig(a: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    require_finite("eig", a)?;
     linalg_ops::eig(&a.inner)
         .map(|(w, v)| (PyRumpyArray::new(w), PyRumpyArray::new(v)))
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eig requires square 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("eig requires square 2D array"))
 }
 
 /// Eigenvalues only for symmetric/Hermitian matrix.
 #[pyfunction]
 pub fn eigvalsh(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_finite("eigvalsh", a)?;
     linalg_ops::eigvalsh(&a.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("eigvalsh requires square 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("eigvalsh requires square 2D array"))
 }
 
 /// Singular values only (no U or Vt).
 #[pyfunction]
 pub fn svdvals(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_finite("svdvals", a)?;
     linalg_ops::svdvals(&a.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("svdvals requires 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("svdvals requires 2D array"))
 }
 
 /// Raise a square matrix to an integer power.
 #[pyfunction]
 pub fn matrix_power(a: &PyRumpyArray, n: i64) -> PyResult<PyRumpyArray> {
+    if n < 0 {
+        require_real("matrix_power", a)?;
+    }
     linalg_ops::matrix_power(&a.inner, n)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("matrix_power requires square 2D array"))
+        .ok_or_else(|| LinAlgError::new_err("matrix_power requires square 2D array, non-singular for negative powers"))
 }
 
 /// Efficient matrix multiplication of multiple arrays.
@@ -281,25 +329,28 @@ pub fn multi_dot(arrays: Vec<PyRef<'_, PyRumpyArray>>) -> PyResult<PyRumpyArray>
     let refs: Vec<&crate::array::RumpyArray> = arrays.iter().map(|a| &a.inner).collect();
     linalg_ops::multi_dot(&refs)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("multi_dot: incompatible shapes"))
+        .ok_or_else(|| LinAlgError::new_err("multi_dot: incompatible shapes"))
 }
 
 /// Compute the inverse of a tensor.
 #[pyfunction]
 #[pyo3(signature = (a, ind=None))]
 pub fn tensorinv(a: &PyRumpyArray, ind: Option<usize>) -> PyResult<PyRumpyArray> {
+    require_real("tensorinv", a)?;
     linalg_ops::tensorinv(&a.inner, ind)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("tensorinv: invalid dimensions"))
+        .ok_or_else(|| LinAlgError::new_err("tensorinv: invalid dimensions or singular matrix"))
 }
 
 /// Solve the tensor equation A x = b for x.
 #[pyfunction]
 #[pyo3(signature = (a, b, axes=None))]
 pub fn tensorsolve(a: &PyRumpyArray, b: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+    require_real("tensorsolve", a)?;
+    require_real("tensorsolve", b)?;
     linalg_ops::tensorsolve(&a.inner, &b.inner, axes.as_deref())
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("tensorsolve: invalid dimensions"))
+        .ok_or_else(|| LinAlgError::new_err("tensorsolve: invalid dimensions or singular matrix"))
 }
 
 /// Vector norm with flexible ord parameter.
@@ -307,19 +358,22 @@ pub fn tensorsolve(a: &PyRumpyArray, b: &PyRumpyArray, axes: Option<Vec<usize>>)
 #[pyo3(signature = (a, ord=None))]
 pub fn vector_norm(a: &PyRumpyArray, ord: Option<f64>) -> PyResult<f64> {
     linalg_ops::vector_norm(&a.inner, ord)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("vector_norm failed"))
+        .ok_or_else(|| LinAlgError::new_err("vector_norm failed"))
 }
 
 /// Matrix norm with flexible ord parameter.
 #[pyfunction]
 #[pyo3(signature = (a, ord=None))]
 pub fn matrix_norm(a: &PyRumpyArray, ord: Option<&str>) -> PyResult<f64> {
+    if matches!(ord, Some("2" | "-2" | "nuc")) && a.inner.ndim() == 2 {
+        require_finite("matrix_norm", a)?;
+    }
     linalg_ops::matrix_norm(&a.inner, ord)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("matrix_norm: unsupported norm type or invalid array"))
+        .ok_or_else(|| LinAlgError::new_err("matrix_norm: unsupported norm type or invalid array"))
 }
 
 // LinAlgError exception class for linalg module.
-pyo3::create_exception!(rumpy, LinAlgError, pyo3::exceptions::PyException);
+pyo3::create_exception!(rumpy, LinAlgError, pyo3::exceptions::PyValueError);
 
 /// Register linalg submodule.
 pub fn register_submodule(parent: &Bound<'_, PyModule>) -> PyResult<()> {
-- 
2.43.0


From e27aa0a8a9591f4e4f67e200197b6afb0985a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 30/51] fix: fft: irfftn with output shape, axes and odd
 lengths; hfft of odd lengths; refuse complex input of real transforms and
 non-numbers

---
 src/ops/fft.rs    | 162 +++++++++++++++++++---------------------------
 src/python/fft.rs |  31 +++++++++
 2 files changed, 99 insertions(+), 94 deletions(-)

diff --git a/src/ops/fft.rs b/src/ops/fft.rs
index 3714109..678f56d 100644
--- a/src/ops/fft.rs
+++ b/src/ops/fft.rs
@@ -161,6 +161,9 @@ pub fn irfft(arr: &RumpyArray) -> Option<RumpyArray> {
     }
 
     let n = 2 * (n_freq - 1);
+    if n == 0 {
+        return None;
+    }
     let input = to_complex_buffer(arr);
 
     // Reconstruct full spectrum using Hermitian symmetry
@@ -411,6 +414,9 @@ pub fn rfftn(arr: &RumpyArray, axes: Option<&[usize]>) -> Option<RumpyArray> {
     let axes_to_use = validate_axes(axes, ndim)?;
     let last_axis = *axes_to_use.last().unwrap();
     let last_axis_len = shape[last_axis];
+    if last_axis_len == 0 {
+        return None;
+    }
     let rfft_out_len = last_axis_len / 2 + 1;
 
     // Step 1: Do rfft (truncated FFT) on the last axis
@@ -487,7 +493,7 @@ fn rfft_along_axis(
     let fft_plan = planner.plan_fft_forward(axis_in_len);
     let mut work_buffer = vec![Complex64::new(0.0, 0.0); axis_in_len];
 
-    for other_idx in 0..n_other.max(1) {
+    for other_idx in 0..n_other {
         let in_base = index_from_transform_idx(other_idx, &other_shape, &other_in_strides);
         let out_base = index_from_transform_idx(other_idx, &other_shape, &other_out_strides);
 
@@ -503,118 +509,91 @@ fn rfft_along_axis(
     out_buffer
 }
 
+/// Crop or zero-pad one axis of a C-ordered buffer to `len`.
+fn resize_axis(buffer: &[Complex64], shape: &mut [usize], axis: usize, len: usize) -> Vec<Complex64> {
+    let outer: usize = shape[..axis].iter().product();
+    let inner: usize = shape[axis + 1..].iter().product();
+    let (old, keep) = (shape[axis], shape[axis].min(len));
+    let mut out = vec![Complex64::new(0.0, 0.0); outer * len * inner];
+    for o in 0..outer {
+        out[o * len * inner..][..keep * inner].copy_from_slice(&buffer[o * old * inner..][..keep * inner]);
+    }
+    shape[axis] = len;
+    out
+}
+
 /// Inverse real N-dimensional FFT.
 /// Takes complex input with truncated last axis, returns real output.
+/// `s` gives the output length along each of the axes (the last ones if no axes are given).
 ///
 /// Strategy:
 /// 1. First do inverse FFT on all axes except the last (real) axis
 /// 2. Then for each slice along non-last axes, do irfft (Hermitian reconstruction + ifft)
-pub fn irfftn(arr: &RumpyArray, shape_hint: Option<&[usize]>, axes: Option<&[usize]>) -> Option<RumpyArray> {
-    let in_shape = arr.shape();
+pub fn irfftn(arr: &RumpyArray, s: Option<&[usize]>, axes: Option<&[usize]>) -> Option<RumpyArray> {
     let ndim = arr.ndim();
+    let mut shape = arr.shape().to_vec();
 
-    if ndim == 0 {
+    let axes_to_use = match (axes, s) {
+        (None, Some(s)) if s.len() <= ndim => validate_axes(Some(&(ndim - s.len()..ndim).collect::<Vec<_>>()), ndim)?,
+        _ => validate_axes(axes, ndim)?,
+    };
+    if s.is_some_and(|s| s.len() != axes_to_use.len()) {
         return None;
     }
-
-    let axes_to_use = validate_axes(axes, ndim)?;
-    let last_axis = *axes_to_use.last().unwrap();
-    let n_freq = in_shape[last_axis];
+    let (&last_axis, other_axes) = axes_to_use.split_last()?;
 
     // Determine output size on last axis
-    let out_last_len = match shape_hint {
-        Some(s) if last_axis < s.len() => s[last_axis],
-        _ => 2 * (n_freq - 1),  // Default: even length
+    let out_last_len = match s {
+        Some(s) => s[s.len() - 1],
+        None => 2 * shape[last_axis].saturating_sub(1), // Default: even length
     };
+    if out_last_len == 0 {
+        return None;
+    }
 
-    // Convert to complex buffer
+    // Step 1: inverse FFT along all axes except the last one
     let mut buffer = to_complex_buffer(arr);
     let mut planner = FftPlanner::new();
-
-    // Step 1: Apply inverse FFT along all axes except the last one
-    for &axis in &axes_to_use[..axes_to_use.len() - 1] {
-        let axis_len = in_shape[axis];
-        if axis_len > 0 {
-            let fft_plan = planner.plan_fft_inverse(axis_len);
-            fft_along_axis(&mut buffer, in_shape, axis, &fft_plan);
-        }
-    }
-
-    // Step 2: For the last axis, expand using Hermitian symmetry and apply ifft
-    let mut out_shape = in_shape.to_vec();
-    out_shape[last_axis] = out_last_len;
-
-    let in_strides = compute_strides(in_shape);
-    let out_strides = compute_strides(&out_shape);
-
-    let n_other: usize = in_shape.iter().enumerate()
-        .filter(|&(i, _)| i != last_axis)
-        .map(|(_, &s)| s)
-        .product();
-
-    let other_shape: Vec<usize> = in_shape.iter().enumerate()
-        .filter(|&(i, _)| i != last_axis)
-        .map(|(_, &s)| s)
-        .collect();
-    let other_in_strides: Vec<usize> = in_strides.iter().enumerate()
-        .filter(|&(i, _)| i != last_axis)
-        .map(|(_, &s)| s)
-        .collect();
-    let other_out_strides: Vec<usize> = out_strides.iter().enumerate()
-        .filter(|&(i, _)| i != last_axis)
-        .map(|(_, &s)| s)
-        .collect();
-
-    let last_in_stride = in_strides[last_axis];
-    let last_out_stride = out_strides[last_axis];
-
-    let out_size: usize = out_shape.iter().product();
-    let mut out_buffer = vec![Complex64::new(0.0, 0.0); out_size];
-
-    let ifft_plan = planner.plan_fft_inverse(out_last_len);
-    let mut work_buffer = vec![Complex64::new(0.0, 0.0); out_last_len];
-
-    for other_idx in 0..n_other.max(1) {
-        let in_base = index_from_transform_idx(other_idx, &other_shape, &other_in_strides);
-        let out_base = index_from_transform_idx(other_idx, &other_shape, &other_out_strides);
-
-        // Fill work buffer: positive frequencies from input
-        for i in 0..n_freq {
-            work_buffer[i] = buffer[in_base + i * last_in_stride];
+    let mut total_size = out_last_len;
+    for (i, &axis) in other_axes.iter().enumerate() {
+        if let Some(s) = s {
+            buffer = resize_axis(&buffer, &mut shape, axis, s[i]);
         }
-        // Clear rest first
-        for i in n_freq..out_last_len {
-            work_buffer[i] = Complex64::new(0.0, 0.0);
+        if shape[axis] == 0 {
+            return None;
         }
-        // Fill negative frequencies using Hermitian symmetry
-        for k in 1..(n_freq - 1) {
-            if out_last_len > k {
-                work_buffer[out_last_len - k] = buffer[in_base + k * last_in_stride].conj();
+        total_size *= shape[axis];
+        let fft_plan = planner.plan_fft_inverse(shape[axis]);
+        fft_along_axis(&mut buffer, &shape, axis, &fft_plan);
+    }
+
+    // Step 2: expand the last axis using Hermitian symmetry and apply ifft
+    let n_freq = out_last_len / 2 + 1;
+    buffer = resize_axis(&buffer, &mut shape, last_axis, n_freq);
+    buffer = resize_axis(&buffer, &mut shape, last_axis, out_last_len.max(n_freq));
+    let inner: usize = shape[last_axis + 1..].iter().product();
+    let line = shape[last_axis] * inner;
+    if line > 0 {
+        for slab in buffer.chunks_mut(line) {
+            for k in n_freq..out_last_len {
+                for i in 0..inner {
+                    slab[k * inner + i] = slab[(out_last_len - k) * inner + i].conj();
+                }
             }
         }
-
-        // Apply inverse FFT
-        ifft_plan.process(&mut work_buffer);
-
-        // Copy to output
-        for i in 0..out_last_len {
-            out_buffer[out_base + i * last_out_stride] = work_buffer[i];
-        }
     }
+    buffer = resize_axis(&buffer, &mut shape, last_axis, out_last_len);
+    let ifft_plan = planner.plan_fft_inverse(out_last_len);
+    fft_along_axis(&mut buffer, &shape, last_axis, &ifft_plan);
 
-    // Normalize
-    let total_size: usize = axes_to_use.iter()
-        .map(|&ax| if ax == last_axis { out_last_len } else { in_shape[ax] })
-        .product();
+    // Normalize and extract real part
     let scale = 1.0 / total_size as f64;
-
-    // Extract real part
-    let mut result = RumpyArray::zeros(out_shape.clone(), DType::float64());
+    let mut result = RumpyArray::zeros(shape, DType::float64());
     let data = result.buffer_mut();
     let data = std::sync::Arc::get_mut(data).expect("buffer must be unique");
     let ptr = data.as_mut_ptr() as *mut f64;
 
-    for (i, c) in out_buffer.iter().enumerate() {
+    for (i, c) in buffer.iter().enumerate() {
         unsafe { *ptr.add(i) = c.re * scale; }
     }
 
@@ -678,14 +657,9 @@ pub fn hfft(arr: &RumpyArray, n: Option<usize>) -> Option<RumpyArray> {
     }
 
     // Fill negative frequencies using Hermitian symmetry
-    // buffer[out_len - k] = conj(padded[k]) = input[k] for k = 1 to padded_len-2
-    for k in 1..(padded_len.min(out_len) - 1) {
-        if out_len > k && k < input.len() {
-            buffer[out_len - k] = input[k];
-        } else if out_len > k {
-            // Zero padding case
-            buffer[out_len - k] = Complex64::new(0.0, 0.0);
-        }
+    // buffer[out_len - k] = conj(padded[k]) for every k that is not its own mirror image
+    for k in padded_len..out_len {
+        buffer[k] = padded[out_len - k].conj();
     }
 
     let mut planner = FftPlanner::new();
diff --git a/src/python/fft.rs b/src/python/fft.rs
index a16e59c..f29ac4c 100644
--- a/src/python/fft.rs
+++ b/src/python/fft.rs
@@ -4,9 +4,27 @@ use pyo3::prelude::*;
 use crate::ops::fft as fft_ops;
 use crate::python::PyRumpyArray;
 
+/// A Fourier transform of something other than numbers is not zero: refuse it. Functions of real
+/// input refuse complex input, whose imaginary part they would ignore.
+fn require_numbers(name: &str, arr: &PyRumpyArray, real: bool) -> PyResult<()> {
+    use crate::array::dtype::DTypeKind::*;
+    let ok = match arr.inner.dtype().kind() {
+        Bool | Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64 | Float16 | Float32 | Float64 => true,
+        Complex64 | Complex128 => !real,
+        _ => false,
+    };
+    if ok {
+        Ok(())
+    } else {
+        let kind = if real { "real" } else { "numeric" };
+        Err(pyo3::exceptions::PyTypeError::new_err(format!("{} requires {} input", name, kind)))
+    }
+}
+
 /// 1D FFT.
 #[pyfunction]
 pub fn fft(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_numbers("fft", arr, false)?;
     fft_ops::fft(&arr.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("fft requires 1D array"))
@@ -15,6 +33,7 @@ pub fn fft(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// 1D inverse FFT.
 #[pyfunction]
 pub fn ifft(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_numbers("ifft", arr, false)?;
     fft_ops::ifft(&arr.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("ifft requires 1D array"))
@@ -23,6 +42,7 @@ pub fn ifft(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// 2D FFT.
 #[pyfunction]
 pub fn fft2(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_numbers("fft2", arr, false)?;
     fft_ops::fft2(&arr.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("fft2 requires 2D array"))
@@ -31,6 +51,7 @@ pub fn fft2(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// 2D inverse FFT.
 #[pyfunction]
 pub fn ifft2(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_numbers("ifft2", arr, false)?;
     fft_ops::ifft2(&arr.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("ifft2 requires 2D array"))
@@ -39,6 +60,7 @@ pub fn ifft2(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Real FFT (for real input, returns only positive frequencies).
 #[pyfunction]
 pub fn rfft(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_numbers("rfft", arr, true)?;
     fft_ops::rfft(&arr.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("rfft requires 1D array"))
@@ -47,6 +69,7 @@ pub fn rfft(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Inverse real FFT.
 #[pyfunction]
 pub fn irfft(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_numbers("irfft", arr, false)?;
     fft_ops::irfft(&arr.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("irfft requires 1D array"))
@@ -86,6 +109,7 @@ pub fn rfftfreq(n: usize, d: f64) -> PyRumpyArray {
 #[pyfunction]
 #[pyo3(signature = (arr, axes=None))]
 pub fn fftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+    require_numbers("fftn", arr, false)?;
     fft_ops::fftn(&arr.inner, axes.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("fftn failed"))
@@ -95,6 +119,7 @@ pub fn fftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArr
 #[pyfunction]
 #[pyo3(signature = (arr, axes=None))]
 pub fn ifftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+    require_numbers("ifftn", arr, false)?;
     fft_ops::ifftn(&arr.inner, axes.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("ifftn failed"))
@@ -104,6 +129,7 @@ pub fn ifftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyAr
 #[pyfunction]
 #[pyo3(signature = (arr, axes=None))]
 pub fn rfftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+    require_numbers("rfftn", arr, true)?;
     fft_ops::rfftn(&arr.inner, axes.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("rfftn failed"))
@@ -113,6 +139,7 @@ pub fn rfftn(arr: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyAr
 #[pyfunction]
 #[pyo3(signature = (arr, s=None, axes=None))]
 pub fn irfftn(arr: &PyRumpyArray, s: Option<Vec<usize>>, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+    require_numbers("irfftn", arr, false)?;
     fft_ops::irfftn(&arr.inner, s.as_deref(), axes.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("irfftn failed"))
@@ -121,6 +148,7 @@ pub fn irfftn(arr: &PyRumpyArray, s: Option<Vec<usize>>, axes: Option<Vec<usize>
 /// 2D real FFT.
 #[pyfunction]
 pub fn rfft2(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_numbers("rfft2", arr, true)?;
     fft_ops::rfft2(&arr.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("rfft2 requires 2D array"))
@@ -130,6 +158,7 @@ pub fn rfft2(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (arr, s=None))]
 pub fn irfft2(arr: &PyRumpyArray, s: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
+    require_numbers("irfft2", arr, false)?;
     fft_ops::irfft2(&arr.inner, s.as_deref())
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("irfft2 requires 2D array"))
@@ -139,6 +168,7 @@ pub fn irfft2(arr: &PyRumpyArray, s: Option<Vec<usize>>) -> PyResult<PyRumpyArra
 #[pyfunction]
 #[pyo3(signature = (arr, n=None))]
 pub fn hfft(arr: &PyRumpyArray, n: Option<usize>) -> PyResult<PyRumpyArray> {
+    require_numbers("hfft", arr, false)?;
     fft_ops::hfft(&arr.inner, n)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("hfft requires 1D array"))
@@ -147,6 +177,7 @@ pub fn hfft(arr: &PyRumpyArray, n: Option<usize>) -> PyResult<PyRumpyArray> {
 /// Inverse Hermitian FFT.
 #[pyfunction]
 pub fn ihfft(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_numbers("ihfft", arr, true)?;
     fft_ops::ihfft(&arr.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("ihfft requires 1D array"))
-- 
2.43.0


From 31ede9bbd8a1c6c5f95432cbfdd6cd9da5bf0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:21 +0000
Subject: [PATCH 31/51] fix: polynomials: compute in the operands' dtype,
 complex roots, weights, constants and scale; refuse text operands of
 arithmetic

---
 src/ops/poly.rs                  | 261 +++++++++++--------------------
 src/ops/ufunc.rs                 |  11 ++
 src/python/poly.rs               |  18 ++-
 src/python/pyarray/dunder_ops.rs |  12 +-
 src/python/pyarray/mod.rs        |   9 +-
 5 files changed, 127 insertions(+), 184 deletions(-)

diff --git a/src/ops/poly.rs b/src/ops/poly.rs
index 143f849..b4ee07a 100644
--- a/src/ops/poly.rs
+++ b/src/ops/poly.rs
@@ -3,7 +3,8 @@
 //! Follows NumPy's polynomial coefficient convention: highest degree first.
 //! E.g., [2, 3, 1] represents 2x² + 3x + 1.
 
-use crate::array::{DType, RumpyArray};
+use crate::array::dtype::{BinaryOp, DTypeKind};
+use crate::array::{concatenate, DType, RumpyArray};
 use crate::ops::linalg;
 
 /// Collect array elements to Vec<f64>, handling any dtype and striding.
@@ -23,97 +24,92 @@ fn array_to_vec(arr: &RumpyArray) -> Vec<f64> {
     values
 }
 
+/// Does the dtype hold real numbers?
+fn is_real(arr: &RumpyArray) -> bool {
+    use DTypeKind::*;
+    matches!(
+        arr.dtype().kind(),
+        Bool | Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64 | Float16 | Float32 | Float64
+    )
+}
+
+/// Elementwise arithmetic of two arrays of broadcastable shapes.
+fn arith(a: &RumpyArray, b: &RumpyArray, op: BinaryOp) -> Option<RumpyArray> {
+    a.binary_op(b, op).ok()
+}
+
 /// Evaluate polynomial at given points.
 ///
 /// Coefficients are in descending degree order (highest first).
-/// Uses Horner's method for numerical stability.
-pub fn polyval(p: &RumpyArray, x: &RumpyArray) -> RumpyArray {
-    let coeffs = array_to_vec(p);  // Coefficients are typically small
-    let n = coeffs.len();
-
-    if n == 0 {
-        return RumpyArray::zeros(x.shape().to_vec(), DType::float64());
+/// Uses Horner's method for numerical stability, in the promoted dtype of the operands.
+pub fn polyval(p: &RumpyArray, x: &RumpyArray) -> Option<RumpyArray> {
+    if p.ndim() != 1 {
+        return None;
     }
 
-    let size = x.size();
-    let mut result = Vec::with_capacity(size);
-
-    // Iterate directly over x without copying
-    let ptr = x.data_ptr();
-    let dtype = x.dtype();
-    let ops = dtype.ops();
-
     // Horner's method: p(x) = (...((c[0]*x + c[1])*x + c[2])*x + ... + c[n-1])
-    for offset in x.iter_offsets() {
-        let xv = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-        let mut acc = coeffs[0];
-        for &c in &coeffs[1..] {
-            acc = acc * xv + c;
-        }
-        result.push(acc);
+    let mut acc = RumpyArray::zeros(x.shape().to_vec(), x.dtype());
+    for i in 0..p.size() {
+        let c = p.view_with(p.strides()[0] * i as isize, vec![], vec![]);
+        acc = arith(&arith(&acc, x, BinaryOp::Mul)?, &c, BinaryOp::Add)?;
     }
+    Some(acc)
+}
 
-    let arr = RumpyArray::from_vec(result, DType::float64());
-    arr.reshape(x.shape().to_vec()).unwrap_or(arr)
+/// n, n-1, ..., 1
+fn descending(n: usize) -> RumpyArray {
+    RumpyArray::from_vec_i64((1..=n as i64).rev().collect(), DType::int64())
 }
 
 /// Compute polynomial derivative.
 ///
 /// Returns coefficients of d^m/dx^m polynomial.
 /// For a polynomial of degree n, derivative has degree n-1.
-pub fn polyder(p: &RumpyArray, m: usize) -> RumpyArray {
-    if m == 0 {
-        return p.copy();
+pub fn polyder(p: &RumpyArray, m: usize) -> Option<RumpyArray> {
+    if p.ndim() != 1 {
+        return None;
     }
 
-    let mut coeffs = array_to_vec(p);
-
+    let mut coeffs = p.copy();
     for _ in 0..m {
-        if coeffs.len() <= 1 {
-            // Derivative of constant or empty is empty
-            return RumpyArray::from_vec(Vec::new(), DType::float64());
-        }
-
-        let n = coeffs.len();
+        let n = coeffs.size();
         // d/dx (c[i] * x^(n-1-i)) = c[i] * (n-1-i) * x^(n-2-i)
-        let mut new_coeffs = Vec::with_capacity(n - 1);
-        for (i, &c) in coeffs.iter().take(n - 1).enumerate() {
-            let power = (n - 1 - i) as f64;
-            new_coeffs.push(c * power);
+        // Derivative of constant or empty is empty
+        let head = coeffs.slice_axis(0, 0, n.saturating_sub(1) as isize, 1);
+        coeffs = arith(&head, &descending(n.saturating_sub(1)), BinaryOp::Mul)?;
+        if n <= 1 {
+            break;
         }
-        coeffs = new_coeffs;
     }
-
-    RumpyArray::from_vec(coeffs, DType::float64())
+    Some(coeffs)
 }
 
 /// Compute polynomial integral.
 ///
 /// Returns coefficients of antiderivative. Integration constant k is appended.
-/// For multiple integrals, m specifies order and k can be array of constants.
-pub fn polyint(p: &RumpyArray, m: usize, k: Option<&RumpyArray>) -> RumpyArray {
-    if m == 0 {
-        return p.copy();
+/// For multiple integrals, m specifies order and k can be array of constants,
+/// the one of the first integration first; a single constant is used for all of them.
+pub fn polyint(p: &RumpyArray, m: usize, k: Option<&RumpyArray>) -> Option<RumpyArray> {
+    if p.ndim() != 1 {
+        return None;
     }
 
-    let mut coeffs = array_to_vec(p);
-    let k_values = k.map(array_to_vec).unwrap_or_default();
+    let constants = match k {
+        None => RumpyArray::zeros(vec![m], DType::float64()),
+        Some(k) if k.size() == 1 => k.reshape(vec![1])?.broadcast_to(&[m.max(1)])?,
+        Some(k) if k.ndim() == 1 && k.size() >= m => k.clone(),
+        Some(_) => return None,
+    };
 
+    let mut coeffs = p.copy();
     for i in 0..m {
-        let n = coeffs.len();
         // integral of c[i] * x^(n-1-i) = c[i]/(n-i) * x^(n-i)
-        let mut new_coeffs = Vec::with_capacity(n + 1);
-        for (j, &c) in coeffs.iter().enumerate() {
-            let power = (n - j) as f64;
-            new_coeffs.push(c / power);
-        }
+        let body = arith(&coeffs, &descending(coeffs.size()), BinaryOp::Div)?;
         // Append integration constant
-        let constant = k_values.get(m - 1 - i).copied().unwrap_or(0.0);
-        new_coeffs.push(constant);
-        coeffs = new_coeffs;
+        let constant = constants.slice_axis(0, i as isize, i as isize + 1, 1);
+        coeffs = concatenate(&[body, constant], 0)?;
     }
-
-    RumpyArray::from_vec(coeffs, DType::float64())
+    Some(coeffs)
 }
 
 /// Least squares polynomial fit.
@@ -125,6 +121,9 @@ pub fn polyint(p: &RumpyArray, m: usize, k: Option<&RumpyArray>) -> RumpyArray {
 /// V * c = y, where V[i,j] = x[i]^(deg-j)
 /// Solved using QR decomposition via linalg.
 pub fn polyfit(x: &RumpyArray, y: &RumpyArray, deg: usize, w: Option<&RumpyArray>) -> Option<RumpyArray> {
+    if x.ndim() != 1 || y.ndim() != 1 || !is_real(x) || !is_real(y) || w.is_some_and(|w| w.ndim() != 1 || !is_real(w)) {
+        return None;
+    }
     let x_vals = array_to_vec(x);
     let y_vals = array_to_vec(y);
     let n = x_vals.len();
@@ -162,16 +161,15 @@ pub fn polyfit(x: &RumpyArray, y: &RumpyArray, deg: usize, w: Option<&RumpyArray
             return None;
         }
 
-        // Weight by sqrt(w): W*V and W*y where W = diag(sqrt(w))
+        // Weights apply to the residuals: W*V and W*y where W = diag(w)
         let mut v_data = Vec::with_capacity(n * cols);
         let mut y_data = Vec::with_capacity(n);
 
         for i in 0..n {
-            let sw = w_vals[i].sqrt();
             for j in 0..cols {
-                v_data.push(vander.get_element(&[i, j]) * sw);
+                v_data.push(vander.get_element(&[i, j]) * w_vals[i]);
             }
-            y_data.push(y_vals[i] * sw);
+            y_data.push(y_vals[i] * w_vals[i]);
         }
 
         let vw = RumpyArray::from_vec(v_data, DType::float64()).reshape(vec![n, cols])?;
@@ -196,7 +194,9 @@ pub fn polyfit(x: &RumpyArray, y: &RumpyArray, deg: usize, w: Option<&RumpyArray
             sum -= r.get_element(&[i, j]) * coeffs[j];
         }
         let r_ii = r.get_element(&[i, i]);
-        if r_ii.abs() < 1e-15 {
+        // Length of the i-th column of V
+        let column: f64 = (0..=i).map(|k| r.get_element(&[k, i]).powi(2)).sum::<f64>().sqrt();
+        if r_ii.abs() <= n as f64 * f64::EPSILON * column {
             // Near-singular, use pseudoinverse behavior
             coeffs[i] = 0.0;
         } else {
@@ -209,120 +209,39 @@ pub fn polyfit(x: &RumpyArray, y: &RumpyArray, deg: usize, w: Option<&RumpyArray
 
 /// Find roots of polynomial.
 ///
-/// Uses direct formulas for low-degree polynomials and companion matrix
-/// eigenvalue computation for higher degrees.
+/// Eigenvalues of the companion matrix. The result is float64 if all roots are real, complex128 otherwise.
 pub fn roots(p: &RumpyArray) -> Option<RumpyArray> {
-    let mut coeffs = array_to_vec(p);
-
-    // Remove leading zeros
-    while !coeffs.is_empty() && coeffs[0].abs() < 1e-15 {
-        coeffs.remove(0);
-    }
-
-    let n = coeffs.len();
-    if n <= 1 {
-        // Constant or empty - no roots
-        return Some(RumpyArray::from_vec(Vec::new(), DType::float64()));
+    if p.ndim() > 1 || !is_real(p) {
+        return None;
     }
+    let coeffs = array_to_vec(p);
 
-    let degree = n - 1;
-
-    // Normalize by leading coefficient
-    let lead = coeffs[0];
-    for c in coeffs.iter_mut() {
-        *c /= lead;
-    }
+    // Remove leading zeros; trailing zeros are roots at zero
+    let (first, last) = match (coeffs.iter().position(|&c| c != 0.0), coeffs.iter().rposition(|&c| c != 0.0)) {
+        (Some(first), Some(last)) => (first, last),
+        _ => return Some(RumpyArray::from_vec(Vec::new(), DType::float64())),
+    };
+    let zeros = coeffs.len() - 1 - last;
+    let coeffs = &coeffs[first..=last];
+    let degree = coeffs.len() - 1;
 
-    // For low-degree polynomials, use direct formulas
-    // coeffs is now [1, a_{n-1}, ..., a_0] (monic)
-    match degree {
-        1 => {
-            // Linear: x + a_0 = 0 => x = -a_0
-            Some(RumpyArray::from_vec(vec![-coeffs[1]], DType::float64()))
-        }
-        2 => {
-            // Quadratic: x^2 + bx + c = 0
-            // x = (-b ± sqrt(b² - 4c)) / 2
-            let b = coeffs[1];
-            let c = coeffs[2];
-            let disc = b * b - 4.0 * c;
-            if disc >= 0.0 {
-                let sqrt_disc = disc.sqrt();
-                let r1 = (-b + sqrt_disc) / 2.0;
-                let r2 = (-b - sqrt_disc) / 2.0;
-                // Sort by magnitude descending (NumPy convention)
-                let mut roots = vec![r1, r2];
-                roots.sort_by(|a, b| b.abs().partial_cmp(&a.abs()).unwrap_or(std::cmp::Ordering::Equal));
-                Some(RumpyArray::from_vec(roots, DType::float64()))
-            } else {
-                // Complex roots - return empty for now (we don't support complex output)
-                // A more complete implementation would return complex128
-                Some(RumpyArray::from_vec(Vec::new(), DType::float64()))
-            }
-        }
-        _ => {
-            // For higher degrees, use companion matrix eigenvalue approach
-            roots_via_companion(&coeffs, degree)
+    // Companion matrix: first row -p[1:]/p[0], ones below the diagonal
+    let mut companion = vec![0.0; degree * degree];
+    for i in 0..degree {
+        companion[i] = -coeffs[i + 1] / coeffs[0];
+        if i > 0 {
+            companion[i * degree + i - 1] = 1.0;
         }
     }
-}
-
-/// Compute roots via companion matrix eigenvalues for degree >= 3.
-fn roots_via_companion(coeffs: &[f64], degree: usize) -> Option<RumpyArray> {
-    // Build companion matrix
-    // For monic polynomial x^n + a_{n-1}*x^{n-1} + ... + a_0:
-    // C = [[0, 0, ..., 0, -a_0],
-    //      [1, 0, ..., 0, -a_1],
-    //      [0, 1, ..., 0, -a_2],
-    //      ...
-    //      [0, 0, ..., 1, -a_{n-1}]]
-    let mut companion_data = vec![0.0; degree * degree];
-
-    // Sub-diagonal ones
-    for i in 1..degree {
-        companion_data[i * degree + (i - 1)] = 1.0;
+    if companion.iter().any(|c| !c.is_finite()) {
+        return None;
     }
+    let eigenvalues = linalg::eigvals(&RumpyArray::from_vec(companion, DType::float64()).reshape(vec![degree, degree])?)?;
+    let eigenvalues = concatenate(&[eigenvalues, RumpyArray::zeros(vec![zeros], DType::complex128())], 0)?;
 
-    // Last column: negative of normalized coefficients (except leading)
-    for i in 0..degree {
-        companion_data[i * degree + (degree - 1)] = -coeffs[degree - i];
+    if (0..degree).all(|i| eigenvalues.get_complex_element(&[i]).1 == 0.0) {
+        let real = (0..eigenvalues.size()).map(|i| eigenvalues.get_complex_element(&[i]).0).collect();
+        return Some(RumpyArray::from_vec(real, DType::float64()));
     }
-
-    let companion = RumpyArray::from_vec(companion_data, DType::float64())
-        .reshape(vec![degree, degree])?;
-
-    // Use QR iteration for eigenvalues
-    // 50 iterations is typically sufficient for convergence
-    let eigenvalues = qr_eigenvalues(&companion, 50)?;
-
     Some(eigenvalues)
 }
-
-/// QR algorithm for eigenvalues of a general matrix.
-/// Returns real eigenvalues (may miss complex conjugate pairs).
-fn qr_eigenvalues(a: &RumpyArray, max_iter: usize) -> Option<RumpyArray> {
-    let n = a.shape()[0];
-    if n == 0 {
-        return Some(RumpyArray::from_vec(Vec::new(), DType::float64()));
-    }
-
-    let mut matrix = a.copy();
-
-    // Plain QR iteration (no shifts)
-    for _ in 0..max_iter {
-        let (q, r) = linalg::qr(&matrix)?;
-        // A_new = R * Q
-        matrix = crate::ops::matmul::matmul(&r, &q)?;
-    }
-
-    // Extract diagonal (eigenvalues for converged matrix)
-    let mut eigenvalues = Vec::with_capacity(n);
-    for i in 0..n {
-        eigenvalues.push(matrix.get_element(&[i, i]));
-    }
-
-    // Sort by magnitude (largest first, matching NumPy convention)
-    eigenvalues.sort_by(|a, b| b.abs().partial_cmp(&a.abs()).unwrap_or(std::cmp::Ordering::Equal));
-
-    Some(RumpyArray::from_vec(eigenvalues, DType::float64()))
-}
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 40881f4..ecaadfc 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -73,6 +73,11 @@ fn is_numeric_kind(kind: &DTypeKind) -> bool {
 pub fn map_unary_op(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOpError> {
     let kind = arr.dtype().kind();
 
+    // Text has no arithmetic
+    if matches!(kind, DTypeKind::Str(_) | DTypeKind::Bytes(_)) {
+        return Err(UnaryOpError::UnsupportedDtype);
+    }
+
     // Transcendentals on non-float types: promote based on itemsize (like NumPy)
     // 1 byte -> float16, 2 bytes -> float32, 4+ bytes -> float64
     if is_transcendental(op) && !matches!(kind, DTypeKind::Float16 | DTypeKind::Float64 | DTypeKind::Float32 | DTypeKind::Complex64 | DTypeKind::Complex128) {
@@ -190,6 +195,12 @@ pub fn map_binary_op_inplace(
     op: BinaryOp,
     out: Option<RumpyArray>,
 ) -> Result<RumpyArray, BinaryOpError> {
+    // Text has no arithmetic (char.add concatenates)
+    let is_text = |arr: &RumpyArray| matches!(arr.dtype().kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_));
+    if is_text(a) || is_text(b) {
+        return Err(BinaryOpError::UnsupportedDtype);
+    }
+
     // Handle division type promotion
     if op == BinaryOp::Div {
         let is_int_or_bool = |kind: DTypeKind| kind == DTypeKind::Bool || is_integer_kind(&kind);
diff --git a/src/python/poly.rs b/src/python/poly.rs
index 15d977b..0378569 100644
--- a/src/python/poly.rs
+++ b/src/python/poly.rs
@@ -7,25 +7,31 @@ use super::PyRumpyArray;
 /// Evaluate polynomial at given points.
 /// Coefficients are in descending order (highest degree first).
 #[pyfunction]
-pub fn polyval(p: &PyRumpyArray, x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::polyval(&p.inner, &x.inner))
+pub fn polyval(p: &PyRumpyArray, x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::polyval(&p.inner, &x.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("polyval requires 1-dimensional numeric coefficients"))
 }
 
 /// Compute polynomial derivative.
 /// Returns coefficients of d^m/dx^m polynomial.
 #[pyfunction]
 #[pyo3(signature = (p, m=1))]
-pub fn polyder(p: &PyRumpyArray, m: usize) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::polyder(&p.inner, m))
+pub fn polyder(p: &PyRumpyArray, m: usize) -> PyResult<PyRumpyArray> {
+    crate::ops::polyder(&p.inner, m)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("polyder requires 1-dimensional numeric coefficients"))
 }
 
 /// Compute polynomial integral.
 /// Returns coefficients of m-th order antiderivative with integration constant(s) k.
 #[pyfunction]
 #[pyo3(signature = (p, m=1, k=None))]
-pub fn polyint(p: &PyRumpyArray, m: usize, k: Option<&PyRumpyArray>) -> PyRumpyArray {
+pub fn polyint(p: &PyRumpyArray, m: usize, k: Option<&PyRumpyArray>) -> PyResult<PyRumpyArray> {
     let k_inner = k.map(|arr| &arr.inner);
-    PyRumpyArray::new(crate::ops::polyint(&p.inner, m, k_inner))
+    crate::ops::polyint(&p.inner, m, k_inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("polyint requires 1-dimensional numeric coefficients, and as many constants as integrations or one"))
 }
 
 /// Fit polynomial of degree deg to data points (x, y).
diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index 74dfba8..488cfcc 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -118,12 +118,16 @@ impl PyRumpyArray {
 
     // Unary operations
 
-    fn __neg__(&self) -> Self {
-        Self::new(self.inner.neg().expect("neg always succeeds"))
+    fn __neg__(&self) -> PyResult<Self> {
+        self.inner.neg()
+            .map(Self::new)
+            .map_err(|_| pyo3::exceptions::PyTypeError::new_err("operation not supported for this dtype"))
     }
 
-    fn __abs__(&self) -> Self {
-        Self::new(self.inner.abs().expect("abs always succeeds"))
+    fn __abs__(&self) -> PyResult<Self> {
+        self.inner.abs()
+            .map(Self::new)
+            .map_err(|_| pyo3::exceptions::PyTypeError::new_err("operation not supported for this dtype"))
     }
 
     fn __float__(&self, py: Python<'_>) -> PyResult<f64> {
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 54dda98..b3a9c7d 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1238,7 +1238,8 @@ fn binary_op_dispatch_with_elision(
     } else if let Ok(scalar) = other.extract::<f64>() {
         // For scalar ops, result shape == arr shape, result dtype == arr dtype (usually)
         // TODO: Consider elision for scalar ops too
-        Ok(PyRumpyArray::new(arr.scalar_op(scalar, op)))
+        let scalar = RumpyArray::full(vec![], scalar, arr.dtype());
+        arr.binary_op(&scalar, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
@@ -1268,7 +1269,8 @@ fn binary_op_dispatch(
     } else if let Some(scalar) = scalar_operand(other, &arr.dtype()) {
         arr.binary_op(&scalar, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else if let Ok(scalar) = other.extract::<f64>() {
-        Ok(PyRumpyArray::new(arr.scalar_op(scalar, op)))
+        let scalar = RumpyArray::full(vec![], scalar, arr.dtype());
+        arr.binary_op(&scalar, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
@@ -1285,7 +1287,8 @@ fn rbinary_op_dispatch(
     if let Some(scalar) = scalar_operand(other, &arr.dtype()) {
         scalar.binary_op(arr, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else if let Ok(scalar) = other.extract::<f64>() {
-        Ok(PyRumpyArray::new(arr.rscalar_op(scalar, op)))
+        let scalar = RumpyArray::full(vec![], scalar, arr.dtype());
+        scalar.binary_op(arr, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be a number",
-- 
2.43.0


From 934b0a441baa12e650d8a49f0b526df6ca245f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:43 +0000
Subject: [PATCH 32/51] fix: char: strip sets, search bounds, strided operands,
 embedded nulls and odd centring; refuse text in reductions and conversions

---
 src/array/dtype/string.rs                |  30 +-
 src/ops/char.rs                          | 660 ++++++-----------------
 src/python/char.rs                       |  59 +-
 src/python/pyarray/methods_reductions.rs |   8 +
 src/python/pyarray/mod.rs                |  14 +
 src/python/reductions.rs                 |  34 ++
 6 files changed, 253 insertions(+), 552 deletions(-)

diff --git a/src/array/dtype/string.rs b/src/array/dtype/string.rs
index 12dc535..06a53be 100644
--- a/src/array/dtype/string.rs
+++ b/src/array/dtype/string.rs
@@ -30,12 +30,13 @@ impl StrOps {
     #[inline]
     unsafe fn read_string(&self, ptr: *const u8, byte_offset: isize) -> String {
         let start = ptr.offset(byte_offset) as *const u32;
-        let mut chars = Vec::with_capacity(self.max_chars);
-        for i in 0..self.max_chars {
+        let mut len = self.max_chars;
+        while len > 0 && *start.add(len - 1) == 0 {
+            len -= 1;
+        }
+        let mut chars = Vec::with_capacity(len);
+        for i in 0..len {
             let code_point = *start.add(i);
-            if code_point == 0 {
-                break;
-            }
             if let Some(c) = char::from_u32(code_point) {
                 chars.push(c);
             }
@@ -126,8 +127,8 @@ impl DTypeOps for StrOps {
     }
 
     unsafe fn copy_element(&self, src: *const u8, byte_offset: isize, dst: *mut u8, idx: usize) {
-        let s = self.read_string(src, byte_offset);
-        self.write_string(dst, idx, &s);
+        let len = self.itemsize();
+        std::ptr::copy_nonoverlapping(src.offset(byte_offset), dst.add(idx * len), len);
     }
 
     unsafe fn unary_op(
@@ -273,15 +274,11 @@ impl BytesOps {
     #[inline]
     unsafe fn read_bytes(&self, ptr: *const u8, byte_offset: isize) -> Vec<u8> {
         let start = ptr.offset(byte_offset);
-        let mut bytes = Vec::with_capacity(self.max_bytes);
-        for i in 0..self.max_bytes {
-            let b = *start.add(i);
-            if b == 0 {
-                break;
-            }
-            bytes.push(b);
+        let mut len = self.max_bytes;
+        while len > 0 && *start.add(len - 1) == 0 {
+            len -= 1;
         }
-        bytes
+        std::slice::from_raw_parts(start, len).to_vec()
     }
 
     /// Write bytes to buffer at element index.
@@ -356,8 +353,7 @@ impl DTypeOps for BytesOps {
     }
 
     unsafe fn copy_element(&self, src: *const u8, byte_offset: isize, dst: *mut u8, idx: usize) {
-        let data = self.read_bytes(src, byte_offset);
-        self.write_bytes(dst, idx, &data);
+        std::ptr::copy_nonoverlapping(src.offset(byte_offset), dst.add(idx * self.max_bytes), self.max_bytes);
     }
 
     unsafe fn unary_op(
diff --git a/src/ops/char.rs b/src/ops/char.rs
index 3701b90..4b347c8 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -150,15 +150,61 @@ fn apply_lower_fast(arr: &RumpyArray) -> Option<RumpyArray> {
 // Direct UTF-32 predicate operations
 // ============================================================================
 
-/// Get the actual length (non-null code points) of a UTF-32 string.
+/// Get the length of a UTF-32 string without its trailing nulls.
 #[inline]
 unsafe fn utf32_strlen(ptr: *const u32, max_chars: usize) -> usize {
-    for i in 0..max_chars {
-        if *ptr.add(i) == 0 {
-            return i;
-        }
+    let mut len = max_chars;
+    while len > 0 && *ptr.add(len - 1) == 0 {
+        len -= 1;
     }
-    max_chars
+    len
+}
+
+/// The code points of each element in C order, without trailing nulls.
+/// None unless this is a string array.
+fn elements(arr: &RumpyArray) -> Option<Vec<&[u32]>> {
+    let max_chars = match arr.dtype().kind() {
+        DTypeKind::Str(mc) => mc,
+        _ => return None,
+    };
+
+    let base = arr.data_ptr();
+    Some(arr.iter_offsets().take(arr.size()).map(|offset| unsafe {
+        let ptr = base.offset(offset) as *const u32;
+        std::slice::from_raw_parts(ptr, utf32_strlen(ptr, max_chars))
+    }).collect())
+}
+
+/// Write one value per element into a new array.
+fn map_elements<T, F>(arr: &RumpyArray, dtype: DType, f: F) -> Option<RumpyArray>
+where
+    F: Fn(&[u32]) -> T,
+{
+    let elements = elements(arr)?;
+    let mut out = RumpyArray::zeros(arr.shape().to_vec(), dtype);
+    let buffer = Arc::get_mut(out.buffer_mut()).expect("buffer must be unique");
+    let dst = buffer.as_mut_ptr() as *mut T;
+    for (i, cps) in elements.into_iter().enumerate() {
+        unsafe { dst.add(i).write(f(cps)) };
+    }
+    Some(out)
+}
+
+fn codepoints(s: &str) -> Vec<u32> {
+    s.chars().map(|c| c as u32).collect()
+}
+
+/// The part `cps[start:end]` in Python's sense and where it begins; None if it begins after its end.
+fn window(cps: &[u32], start: Option<isize>, end: Option<isize>) -> Option<(usize, &[u32])> {
+    let len = cps.len() as isize;
+    let clamp = |i: isize| if i < 0 { (i + len).max(0) } else { i };
+    let start = clamp(start.unwrap_or(0));
+    let end = clamp(end.unwrap_or(len)).min(len);
+    (start <= end).then(|| (start as usize, &cps[start as usize..end as usize]))
+}
+
+fn matches_at(cps: &[u32], sub: &[u32], i: usize) -> bool {
+    cps[i..].starts_with(sub)
 }
 
 /// Apply a predicate to each string element, returning a bool array.
@@ -248,7 +294,7 @@ fn cp_is_alnum(cp: u32) -> bool {
 #[inline]
 fn cp_is_space(cp: u32) -> bool {
     if cp <= 0x7F {
-        cp == 0x20 || cp == 0x09 || cp == 0x0A || cp == 0x0B || cp == 0x0C || cp == 0x0D
+        cp == 0x20 || cp == 0x09 || cp == 0x0A || cp == 0x0B || cp == 0x0C || cp == 0x0D || (0x1C..=0x1F).contains(&cp)
     } else {
         char::from_u32(cp).map_or(false, |c| c.is_whitespace())
     }
@@ -277,32 +323,10 @@ fn cp_is_cased(cp: u32) -> bool {
     cp_is_upper(cp) || cp_is_lower(cp)
 }
 
-/// Read a string from a string array at the given flat index.
-///
-/// # Safety
-/// The array must have a string dtype and the index must be valid.
-unsafe fn read_string(arr: &RumpyArray, flat_idx: usize) -> String {
-    let max_chars = match arr.dtype().kind() {
-        DTypeKind::Str(mc) => mc,
-        _ => return String::new(),
-    };
-
-    let itemsize = arr.dtype().itemsize();
-    let ptr = arr.data_ptr();
-    let byte_offset = (flat_idx * itemsize) as isize;
-    let start = ptr.offset(byte_offset) as *const u32;
-
-    let mut chars = Vec::with_capacity(max_chars);
-    for i in 0..max_chars {
-        let code_point = *start.add(i);
-        if code_point == 0 {
-            break;
-        }
-        if let Some(c) = char::from_u32(code_point) {
-            chars.push(c);
-        }
-    }
-    chars.into_iter().collect()
+/// The strings of a string array in C order.
+fn read_strings(arr: &RumpyArray) -> Option<Vec<String>> {
+    let to_string = |cps: &[u32]| cps.iter().filter_map(|&cp| char::from_u32(cp)).collect();
+    Some(elements(arr)?.into_iter().map(to_string).collect())
 }
 
 /// Write a string to a string array at the given flat index.
@@ -347,8 +371,7 @@ where
     // Compute max output length
     let mut max_out_len = 0usize;
     let mut results = Vec::with_capacity(size);
-    for i in 0..size {
-        let s = unsafe { read_string(arr, i) };
+    for s in read_strings(arr)? {
         let result = op(&s);
         max_out_len = max_out_len.max(result.chars().count());
         results.push(result);
@@ -389,9 +412,7 @@ where
     let mut max_out_len = 0usize;
     let mut results = Vec::with_capacity(size);
 
-    for i in 0..size {
-        let sa = unsafe { read_string(a, i) };
-        let sb = unsafe { read_string(b, i) };
+    for (sa, sb) in read_strings(a)?.into_iter().zip(read_strings(b)?) {
         let result = op(&sa, &sb);
         max_out_len = max_out_len.max(result.chars().count());
         results.push(result);
@@ -432,292 +453,88 @@ pub fn lower(arr: &RumpyArray) -> Option<RumpyArray> {
     apply_lower_fast(arr)
 }
 
-/// Strip helper - processes directly without intermediate allocations.
+/// Strip helper - removes whitespace, or the given characters.
 /// mode: 0 = strip both, 1 = lstrip, 2 = rstrip
-fn strip_fast(arr: &RumpyArray, mode: u8) -> Option<RumpyArray> {
+fn strip_fast(arr: &RumpyArray, chars: Option<&str>, mode: u8) -> Option<RumpyArray> {
     let max_chars = match arr.dtype().kind() {
         DTypeKind::Str(mc) => mc,
         _ => return None,
     };
+    let chars = chars.map(codepoints);
+    let stripped = |cp: u32| match &chars {
+        Some(chars) => chars.contains(&cp),
+        None => cp_is_space(cp),
+    };
 
-    let size = arr.size();
-    let dtype = arr.dtype().clone();
-    let mut out = RumpyArray::zeros(arr.shape().to_vec(), dtype);
-
-    if size == 0 {
-        return Some(out);
-    }
-
-    let buffer = out.buffer_mut();
-    let out_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
+    let mut out = RumpyArray::zeros(arr.shape().to_vec(), arr.dtype().clone());
+    let out_buffer = Arc::get_mut(out.buffer_mut()).expect("buffer must be unique");
     let dst_base = out_buffer.as_mut_ptr() as *mut u32;
 
-    if arr.is_c_contiguous() {
-        let src_base = arr.data_ptr() as *const u32;
-        for elem_idx in 0..size {
-            let src_str = unsafe { src_base.add(elem_idx * max_chars) };
-            let dst_str = unsafe { dst_base.add(elem_idx * max_chars) };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-
-            // Find start (skip leading whitespace)
-            let start = if mode == 2 { 0 } else {
-                let mut s = 0;
-                while s < len && cp_is_space(unsafe { *src_str.add(s) }) { s += 1; }
-                s
-            };
-
-            // Find end (skip trailing whitespace)
-            let end = if mode == 1 { len } else {
-                let mut e = len;
-                while e > start && cp_is_space(unsafe { *src_str.add(e - 1) }) { e -= 1; }
-                e
-            };
-
-            // Copy the result
-            let result_len = end - start;
-            unsafe {
-                std::ptr::copy_nonoverlapping(src_str.add(start), dst_str, result_len);
-            }
+    for (elem_idx, cps) in elements(arr)?.into_iter().enumerate() {
+        let mut kept = cps;
+        if mode != 2 {
+            while kept.first().is_some_and(|&cp| stripped(cp)) { kept = &kept[1..]; }
         }
-    } else {
-        let src_base = arr.data_ptr();
-        for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
-            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
-            let dst_str = unsafe { dst_base.add(elem_idx * max_chars) };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-
-            let start = if mode == 2 { 0 } else {
-                let mut s = 0;
-                while s < len && cp_is_space(unsafe { *src_str.add(s) }) { s += 1; }
-                s
-            };
-
-            let end = if mode == 1 { len } else {
-                let mut e = len;
-                while e > start && cp_is_space(unsafe { *src_str.add(e - 1) }) { e -= 1; }
-                e
-            };
-
-            let result_len = end - start;
-            unsafe {
-                std::ptr::copy_nonoverlapping(src_str.add(start), dst_str, result_len);
-            }
+        if mode != 1 {
+            while kept.last().is_some_and(|&cp| stripped(cp)) { kept = &kept[..kept.len() - 1]; }
         }
+        unsafe { std::ptr::copy_nonoverlapping(kept.as_ptr(), dst_base.add(elem_idx * max_chars), kept.len()) };
     }
 
     Some(out)
 }
 
-/// Strip leading and trailing whitespace.
-pub fn strip(arr: &RumpyArray) -> Option<RumpyArray> {
-    strip_fast(arr, 0)
+/// Strip leading and trailing whitespace, or the given characters.
+pub fn strip(arr: &RumpyArray, chars: Option<&str>) -> Option<RumpyArray> {
+    strip_fast(arr, chars, 0)
 }
 
-/// Strip leading whitespace.
-pub fn lstrip(arr: &RumpyArray) -> Option<RumpyArray> {
-    strip_fast(arr, 1)
+/// Strip leading whitespace, or the given characters.
+pub fn lstrip(arr: &RumpyArray, chars: Option<&str>) -> Option<RumpyArray> {
+    strip_fast(arr, chars, 1)
 }
 
-/// Strip trailing whitespace.
-pub fn rstrip(arr: &RumpyArray) -> Option<RumpyArray> {
-    strip_fast(arr, 2)
+/// Strip trailing whitespace, or the given characters.
+pub fn rstrip(arr: &RumpyArray, chars: Option<&str>) -> Option<RumpyArray> {
+    strip_fast(arr, chars, 2)
 }
 
 // ============================================================================
 // Tier 2 - Search/Replace Operations
 // ============================================================================
 
-/// Find substring - optimized direct implementation.
-pub fn find(arr: &RumpyArray, sub: &str) -> Option<RumpyArray> {
-    let max_chars = match arr.dtype().kind() {
-        DTypeKind::Str(mc) => mc,
-        _ => return None,
-    };
-
-    let sub_cps: Vec<u32> = sub.chars().map(|c| c as u32).collect();
-    let sub_len = sub_cps.len();
-
-    let size = arr.size();
-    let mut out = RumpyArray::zeros(arr.shape().to_vec(), DType::int64());
-
-    if size == 0 {
-        return Some(out);
-    }
-
-    let buffer = out.buffer_mut();
-    let out_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-    let dst = out_buffer.as_mut_ptr() as *mut i64;
-
-    // Empty substring returns 0
-    if sub_len == 0 {
-        // All zeros already from RumpyArray::zeros
-        return Some(out);
-    }
-
-    if arr.is_c_contiguous() {
-        let src_base = arr.data_ptr() as *const u32;
-        for elem_idx in 0..size {
-            let src_str = unsafe { src_base.add(elem_idx * max_chars) };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-
-            // Search for substring directly in memory
-            let result = if len < sub_len {
-                -1
-            } else {
-                let mut found: i64 = -1;
-                'outer: for i in 0..=(len - sub_len) {
-                    for j in 0..sub_len {
-                        if unsafe { *src_str.add(i + j) } != sub_cps[j] {
-                            continue 'outer;
-                        }
-                    }
-                    found = i as i64;
-                    break;
-                }
-                found
-            };
-            unsafe { *dst.add(elem_idx) = result };
-        }
-    } else {
-        let src_base = arr.data_ptr();
-        for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
-            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-
-            let result = if len < sub_len {
-                -1
-            } else {
-                let mut found: i64 = -1;
-                'outer: for i in 0..=(len - sub_len) {
-                    for j in 0..sub_len {
-                        if unsafe { *src_str.add(i + j) } != sub_cps[j] {
-                            continue 'outer;
-                        }
-                    }
-                    found = i as i64;
-                    break;
-                }
-                found
-            };
-            unsafe { *dst.add(elem_idx) = result };
-        }
-    }
-
-    Some(out)
+/// Find the lowest index of substring in each string, within string[start:end].
+/// Returns -1 if not found.
+pub fn find(arr: &RumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> Option<RumpyArray> {
+    let sub = codepoints(sub);
+    map_elements(arr, DType::int64(), |cps| {
+        let Some((first, part)) = window(cps, start, end) else { return -1i64 };
+        let found = (0..(part.len() + 1).saturating_sub(sub.len())).find(|&i| matches_at(part, &sub, i));
+        found.map_or(-1, |i| (first + i) as i64)
+    })
 }
 
-/// Find the highest index of substring in each string.
+/// Find the highest index of substring in each string, within string[start:end].
 /// Returns -1 if not found.
-pub fn rfind(arr: &RumpyArray, sub: &str) -> Option<RumpyArray> {
-    let max_chars = match arr.dtype().kind() {
-        DTypeKind::Str(mc) => mc,
-        _ => return None,
-    };
-
-    let sub_cps: Vec<u32> = sub.chars().map(|c| c as u32).collect();
-    let sub_len = sub_cps.len();
-
-    let size = arr.size();
-    let mut out = RumpyArray::zeros(arr.shape().to_vec(), DType::int64());
-
-    if size == 0 {
-        return Some(out);
-    }
-
-    let buffer = out.buffer_mut();
-    let out_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-    let dst = out_buffer.as_mut_ptr() as *mut i64;
-
-    if sub_len == 0 {
-        // Empty substring: return len of each string
-        if arr.is_c_contiguous() {
-            let src_base = arr.data_ptr() as *const u32;
-            for elem_idx in 0..size {
-                let src_str = unsafe { src_base.add(elem_idx * max_chars) };
-                let len = unsafe { utf32_strlen(src_str, max_chars) };
-                unsafe { *dst.add(elem_idx) = len as i64 };
-            }
-        } else {
-            let src_base = arr.data_ptr();
-            for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
-                let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
-                let len = unsafe { utf32_strlen(src_str, max_chars) };
-                unsafe { *dst.add(elem_idx) = len as i64 };
-            }
-        }
-        return Some(out);
-    }
-
-    if arr.is_c_contiguous() {
-        let src_base = arr.data_ptr() as *const u32;
-        for elem_idx in 0..size {
-            let src_str = unsafe { src_base.add(elem_idx * max_chars) };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-
-            // Search backwards
-            let result = if len < sub_len {
-                -1
-            } else {
-                let mut found: i64 = -1;
-                for i in (0..=(len - sub_len)).rev() {
-                    let mut matches = true;
-                    for j in 0..sub_len {
-                        if unsafe { *src_str.add(i + j) } != sub_cps[j] {
-                            matches = false;
-                            break;
-                        }
-                    }
-                    if matches {
-                        found = i as i64;
-                        break;
-                    }
-                }
-                found
-            };
-            unsafe { *dst.add(elem_idx) = result };
-        }
-    } else {
-        let src_base = arr.data_ptr();
-        for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
-            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-
-            let result = if len < sub_len {
-                -1
-            } else {
-                let mut found: i64 = -1;
-                for i in (0..=(len - sub_len)).rev() {
-                    let mut matches = true;
-                    for j in 0..sub_len {
-                        if unsafe { *src_str.add(i + j) } != sub_cps[j] {
-                            matches = false;
-                            break;
-                        }
-                    }
-                    if matches {
-                        found = i as i64;
-                        break;
-                    }
-                }
-                found
-            };
-            unsafe { *dst.add(elem_idx) = result };
-        }
-    }
-
-    Some(out)
+pub fn rfind(arr: &RumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> Option<RumpyArray> {
+    let sub = codepoints(sub);
+    map_elements(arr, DType::int64(), |cps| {
+        let Some((first, part)) = window(cps, start, end) else { return -1i64 };
+        let found = (0..(part.len() + 1).saturating_sub(sub.len())).rev().find(|&i| matches_at(part, &sub, i));
+        found.map_or(-1, |i| (first + i) as i64)
+    })
 }
 
 /// Like find, but returns -1 sentinel for "not found" (Python wrapper raises ValueError).
-pub fn index(arr: &RumpyArray, sub: &str) -> Option<RumpyArray> {
+pub fn index(arr: &RumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> Option<RumpyArray> {
     // Same as find - Python wrapper checks for -1 and raises ValueError
-    find(arr, sub)
+    find(arr, sub, start, end)
 }
 
 /// Like rfind, but returns -1 sentinel for "not found" (Python wrapper raises ValueError).
-pub fn rindex(arr: &RumpyArray, sub: &str) -> Option<RumpyArray> {
+pub fn rindex(arr: &RumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> Option<RumpyArray> {
     // Same as rfind - Python wrapper checks for -1 and raises ValueError
-    rfind(arr, sub)
+    rfind(arr, sub, start, end)
 }
 
 /// Partition each string at first occurrence of separator.
@@ -1077,9 +894,20 @@ pub fn replace(arr: &RumpyArray, old: &str, new: &str, count: Option<usize>) ->
         return Some(RumpyArray::zeros(arr.shape().to_vec(), arr.dtype().clone()));
     }
 
-    // Empty old string: no replacements
+    // The empty string occurs around every character
     if old_len == 0 {
-        return Some(arr.copy());
+        return apply_unary_string_op(arr, |s| {
+            let mut result = String::new();
+            let mut cnt = 0;
+            for c in s.chars().map(Some).chain([None]) {
+                if cnt < max_count {
+                    result.push_str(new);
+                    cnt += 1;
+                }
+                result.extend(c);
+            }
+            result
+        });
     }
 
     // First pass: compute max output length
@@ -1240,95 +1068,26 @@ pub fn replace(arr: &RumpyArray, old: &str, new: &str, count: Option<usize>) ->
     Some(out)
 }
 
-/// Count occurrences of substring in each string.
-pub fn count(arr: &RumpyArray, sub: &str) -> Option<RumpyArray> {
-    let max_chars = match arr.dtype().kind() {
-        DTypeKind::Str(mc) => mc,
-        _ => return None,
-    };
-
-    let sub_cps: Vec<u32> = sub.chars().map(|c| c as u32).collect();
-    let sub_len = sub_cps.len();
-
-    let size = arr.size();
-    let mut out = RumpyArray::zeros(arr.shape().to_vec(), DType::int64());
-
-    if size == 0 {
-        return Some(out);
-    }
-
-    let buffer = out.buffer_mut();
-    let out_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-    let dst = out_buffer.as_mut_ptr() as *mut i64;
-
-    // Empty substring: return len + 1 for each string (matches numpy)
-    if sub_len == 0 {
-        if arr.is_c_contiguous() {
-            let src_base = arr.data_ptr() as *const u32;
-            for elem_idx in 0..size {
-                let src_str = unsafe { src_base.add(elem_idx * max_chars) };
-                let len = unsafe { utf32_strlen(src_str, max_chars) };
-                unsafe { *dst.add(elem_idx) = (len + 1) as i64 };
-            }
-        } else {
-            let src_base = arr.data_ptr();
-            for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
-                let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
-                let len = unsafe { utf32_strlen(src_str, max_chars) };
-                unsafe { *dst.add(elem_idx) = (len + 1) as i64 };
-            }
-        }
-        return Some(out);
-    }
-
-    if arr.is_c_contiguous() {
-        let src_base = arr.data_ptr() as *const u32;
-        for elem_idx in 0..size {
-            let src_str = unsafe { src_base.add(elem_idx * max_chars) };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-
-            // Count non-overlapping occurrences
-            let mut cnt: i64 = 0;
-            if len >= sub_len {
-                let mut i = 0;
-                'outer: while i <= len - sub_len {
-                    for j in 0..sub_len {
-                        if unsafe { *src_str.add(i + j) } != sub_cps[j] {
-                            i += 1;
-                            continue 'outer;
-                        }
-                    }
-                    cnt += 1;
-                    i += sub_len; // non-overlapping
-                }
-            }
-            unsafe { *dst.add(elem_idx) = cnt };
+/// Count non-overlapping occurrences of substring in each string, within string[start:end].
+pub fn count(arr: &RumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> Option<RumpyArray> {
+    let sub = codepoints(sub);
+    map_elements(arr, DType::int64(), |cps| {
+        let Some((_, part)) = window(cps, start, end) else { return 0i64 };
+        // The empty string occurs around every character
+        if sub.is_empty() {
+            return part.len() as i64 + 1;
         }
-    } else {
-        let src_base = arr.data_ptr();
-        for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
-            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-
-            let mut cnt: i64 = 0;
-            if len >= sub_len {
-                let mut i = 0;
-                'outer: while i <= len - sub_len {
-                    for j in 0..sub_len {
-                        if unsafe { *src_str.add(i + j) } != sub_cps[j] {
-                            i += 1;
-                            continue 'outer;
-                        }
-                    }
-                    cnt += 1;
-                    i += sub_len;
-                }
+        let (mut cnt, mut i) = (0, 0);
+        while i + sub.len() <= part.len() {
+            if matches_at(part, &sub, i) {
+                cnt += 1;
+                i += sub.len(); // non-overlapping
+            } else {
+                i += 1;
             }
-            unsafe { *dst.add(elem_idx) = cnt };
         }
-    }
-
-    Some(out)
+        cnt
+    })
 }
 
 /// Get the length of each string (fast direct implementation).
@@ -1408,125 +1167,20 @@ pub fn isspace(arr: &RumpyArray) -> Option<RumpyArray> {
     apply_predicate_fast(arr, |cps| !cps.is_empty() && cps.iter().all(|&cp| cp_is_space(cp)))
 }
 
-/// Check if each string starts with the given prefix.
-pub fn startswith(arr: &RumpyArray, prefix: &str) -> Option<RumpyArray> {
-    let max_chars = match arr.dtype().kind() {
-        DTypeKind::Str(mc) => mc,
-        _ => return None,
-    };
-
-    let prefix_cps: Vec<u32> = prefix.chars().map(|c| c as u32).collect();
-    let prefix_len = prefix_cps.len();
-
-    let size = arr.size();
-    let mut out = RumpyArray::zeros(arr.shape().to_vec(), DType::bool());
-
-    if size == 0 {
-        return Some(out);
-    }
-
-    let buffer = out.buffer_mut();
-    let out_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-    let dst = out_buffer.as_mut_ptr();
-
-    if arr.is_c_contiguous() {
-        let src_base = arr.data_ptr() as *const u32;
-        for elem_idx in 0..size {
-            let src_str = unsafe { src_base.add(elem_idx * max_chars) };
-            // Check prefix directly without computing full length
-            let mut matches = true;
-            for i in 0..prefix_len {
-                let cp = unsafe { *src_str.add(i) };
-                if cp != prefix_cps[i] {
-                    matches = false;
-                    break;
-                }
-            }
-            unsafe { *dst.add(elem_idx) = if matches { 1 } else { 0 } };
-        }
-    } else {
-        let src_base = arr.data_ptr();
-        for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
-            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
-            let mut matches = true;
-            for i in 0..prefix_len {
-                let cp = unsafe { *src_str.add(i) };
-                if cp != prefix_cps[i] {
-                    matches = false;
-                    break;
-                }
-            }
-            unsafe { *dst.add(elem_idx) = if matches { 1 } else { 0 } };
-        }
-    }
-
-    Some(out)
+/// Check if each string[start:end] starts with the given prefix.
+pub fn startswith(arr: &RumpyArray, prefix: &str, start: Option<isize>, end: Option<isize>) -> Option<RumpyArray> {
+    let prefix = codepoints(prefix);
+    map_elements(arr, DType::bool(), |cps| {
+        window(cps, start, end).is_some_and(|(_, part)| part.starts_with(&prefix)) as u8
+    })
 }
 
-/// Check if each string ends with the given suffix.
-pub fn endswith(arr: &RumpyArray, suffix: &str) -> Option<RumpyArray> {
-    let max_chars = match arr.dtype().kind() {
-        DTypeKind::Str(mc) => mc,
-        _ => return None,
-    };
-
-    let suffix_cps: Vec<u32> = suffix.chars().map(|c| c as u32).collect();
-    let suffix_len = suffix_cps.len();
-
-    let size = arr.size();
-    let mut out = RumpyArray::zeros(arr.shape().to_vec(), DType::bool());
-
-    if size == 0 {
-        return Some(out);
-    }
-
-    let buffer = out.buffer_mut();
-    let out_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
-    let dst = out_buffer.as_mut_ptr();
-
-    if arr.is_c_contiguous() {
-        let src_base = arr.data_ptr() as *const u32;
-        for elem_idx in 0..size {
-            let src_str = unsafe { src_base.add(elem_idx * max_chars) };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-            let matches = if len >= suffix_len {
-                let start = len - suffix_len;
-                let mut ok = true;
-                for i in 0..suffix_len {
-                    if unsafe { *src_str.add(start + i) } != suffix_cps[i] {
-                        ok = false;
-                        break;
-                    }
-                }
-                ok
-            } else {
-                false
-            };
-            unsafe { *dst.add(elem_idx) = if matches { 1 } else { 0 } };
-        }
-    } else {
-        let src_base = arr.data_ptr();
-        for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
-            let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
-            let len = unsafe { utf32_strlen(src_str, max_chars) };
-            let matches = if len >= suffix_len {
-                let start = len - suffix_len;
-                let mut ok = true;
-                for i in 0..suffix_len {
-                    if unsafe { *src_str.add(start + i) } != suffix_cps[i] {
-                        ok = false;
-                        break;
-                    }
-                }
-                ok
-            } else {
-                false
-            };
-            unsafe { *dst.add(elem_idx) = if matches { 1 } else { 0 } };
-        }
-    }
-
-    Some(out)
+/// Check if each string[start:end] ends with the given suffix.
+pub fn endswith(arr: &RumpyArray, suffix: &str, start: Option<isize>, end: Option<isize>) -> Option<RumpyArray> {
+    let suffix = codepoints(suffix);
+    map_elements(arr, DType::bool(), |cps| {
+        window(cps, start, end).is_some_and(|(_, part)| part.ends_with(&suffix)) as u8
+    })
 }
 
 /// Check if each string is decimal (contains only decimal characters).
@@ -1584,7 +1238,8 @@ pub fn center(arr: &RumpyArray, width: usize, fillchar: char) -> Option<RumpyArr
             s.to_string()
         } else {
             let total_pad = width - len;
-            let left_pad = total_pad / 2;
+            // An odd pad puts the extra character where str.center does
+            let left_pad = total_pad / 2 + (total_pad & width & 1);
             let right_pad = total_pad - left_pad;
             format!(
                 "{}{}{}",
@@ -1785,20 +1440,20 @@ pub fn swapcase(arr: &RumpyArray) -> Option<RumpyArray> {
 #[derive(Clone, Copy)]
 enum StrCmp { Eq, Ne, Lt, Le, Gt, Ge }
 
-/// Compare two string arrays element-wise with given comparison.
+/// Compare two string arrays element-wise with given comparison, ignoring trailing whitespace as NumPy does.
 fn compare_strings(a: &RumpyArray, b: &RumpyArray, cmp: StrCmp) -> Option<RumpyArray> {
     if a.shape() != b.shape() {
         return None;
     }
 
-    let size = a.size();
+    let (strings_a, strings_b) = (read_strings(a)?, read_strings(b)?);
     let mut out = RumpyArray::zeros(a.shape().to_vec(), DType::bool());
     let buffer = Arc::get_mut(&mut out.buffer).expect("buffer must be unique");
     let ptr = buffer.as_mut_ptr();
 
-    for i in 0..size {
-        let sa = unsafe { read_string(a, i) };
-        let sb = unsafe { read_string(b, i) };
+    for (i, (sa, sb)) in strings_a.iter().zip(&strings_b).enumerate() {
+        let trim = |s: &'_ str| s.trim_end_matches(|c| cp_is_space(c as u32)).len();
+        let (sa, sb) = (&sa[..trim(sa)], &sb[..trim(sb)]);
         let result = match cmp {
             StrCmp::Eq => sa == sb,
             StrCmp::Ne => sa != sb,
@@ -1868,10 +1523,5 @@ pub fn expandtabs(arr: &RumpyArray, tabsize: usize) -> Option<RumpyArray> {
 
 /// Join array elements with separator.
 pub fn join_with(arr: &RumpyArray, sep: &str) -> Option<String> {
-    let size = arr.size();
-    let mut strings = Vec::with_capacity(size);
-    for i in 0..size {
-        strings.push(unsafe { read_string(arr, i) });
-    }
-    Some(strings.join(sep))
+    Some(read_strings(arr)?.join(sep))
 }
diff --git a/src/python/char.rs b/src/python/char.rs
index 3b492fb..515cd30 100644
--- a/src/python/char.rs
+++ b/src/python/char.rs
@@ -5,6 +5,15 @@ use pyo3::prelude::*;
 use crate::ops::char as char_ops;
 use super::pyarray::PyRumpyArray;
 
+/// The padding character: a string of one character.
+fn fill_char(fillchar: Option<&str>) -> PyResult<char> {
+    let mut chars = fillchar.unwrap_or(" ").chars();
+    match (chars.next(), chars.next()) {
+        (Some(c), None) => Ok(c),
+        _ => Err(pyo3::exceptions::PyTypeError::new_err("The fill character must be exactly one character long")),
+    }
+}
+
 /// Concatenate two string arrays element-wise.
 #[pyfunction]
 #[pyo3(name = "add")]
@@ -43,8 +52,7 @@ pub fn lower(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, chars=None))]
 pub fn strip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
-    let _ = chars; // TODO: Support custom chars
-    char_ops::strip(&a.inner)
+    char_ops::strip(&a.inner, chars)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("strip requires a string array"))
 }
@@ -53,8 +61,7 @@ pub fn strip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, chars=None))]
 pub fn lstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
-    let _ = chars;
-    char_ops::lstrip(&a.inner)
+    char_ops::lstrip(&a.inner, chars)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("lstrip requires a string array"))
 }
@@ -63,8 +70,7 @@ pub fn lstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, chars=None))]
 pub fn rstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
-    let _ = chars;
-    char_ops::rstrip(&a.inner)
+    char_ops::rstrip(&a.inner, chars)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rstrip requires a string array"))
 }
@@ -72,9 +78,8 @@ pub fn rstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
 /// Find the lowest index of substring in each string.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn find(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end); // TODO: Support start/end
-    char_ops::find(&a.inner, sub)
+pub fn find(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::find(&a.inner, sub, start, end)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("find requires a string array"))
 }
@@ -82,9 +87,8 @@ pub fn find(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize
 /// Find the highest index of substring in each string.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn rfind(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::rfind(&a.inner, sub)
+pub fn rfind(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::rfind(&a.inner, sub, start, end)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rfind requires a string array"))
 }
@@ -92,9 +96,8 @@ pub fn rfind(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usiz
 /// Like find, but raises ValueError if substring is not found.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn index(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    let result = char_ops::index(&a.inner, sub)
+pub fn index(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    let result = char_ops::index(&a.inner, sub, start, end)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("index requires a string array"))?;
 
     // Check for -1 values directly from buffer (fast path)
@@ -113,9 +116,8 @@ pub fn index(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usiz
 /// Like rfind, but raises ValueError if substring is not found.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn rindex(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    let result = char_ops::rindex(&a.inner, sub)
+pub fn rindex(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    let result = char_ops::rindex(&a.inner, sub, start, end)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rindex requires a string array"))?;
 
     let size = result.size();
@@ -166,9 +168,8 @@ pub fn replace(a: &PyRumpyArray, old: &str, new: &str, count: Option<usize>) ->
 /// Count occurrences of substring in each string.
 #[pyfunction]
 #[pyo3(name = "count", signature = (a, sub, start=None, end=None))]
-pub fn char_count(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::count(&a.inner, sub)
+pub fn char_count(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::count(&a.inner, sub, start, end)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("count requires a string array"))
 }
@@ -232,9 +233,8 @@ pub fn isspace(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Check if each string starts with the given prefix.
 #[pyfunction]
 #[pyo3(signature = (a, prefix, start=None, end=None))]
-pub fn startswith(a: &PyRumpyArray, prefix: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::startswith(&a.inner, prefix)
+pub fn startswith(a: &PyRumpyArray, prefix: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::startswith(&a.inner, prefix, start, end)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("startswith requires a string array"))
 }
@@ -242,9 +242,8 @@ pub fn startswith(a: &PyRumpyArray, prefix: &str, start: Option<usize>, end: Opt
 /// Check if each string ends with the given suffix.
 #[pyfunction]
 #[pyo3(signature = (a, suffix, start=None, end=None))]
-pub fn endswith(a: &PyRumpyArray, suffix: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::endswith(&a.inner, suffix)
+pub fn endswith(a: &PyRumpyArray, suffix: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::endswith(&a.inner, suffix, start, end)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("endswith requires a string array"))
 }
@@ -277,7 +276,7 @@ pub fn istitle(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, width, fillchar=None))]
 pub fn center(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResult<PyRumpyArray> {
-    let fillchar = fillchar.and_then(|s| s.chars().next()).unwrap_or(' ');
+    let fillchar = fill_char(fillchar)?;
     char_ops::center(&a.inner, width, fillchar)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("center requires a string array"))
@@ -287,7 +286,7 @@ pub fn center(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResul
 #[pyfunction]
 #[pyo3(signature = (a, width, fillchar=None))]
 pub fn ljust(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResult<PyRumpyArray> {
-    let fillchar = fillchar.and_then(|s| s.chars().next()).unwrap_or(' ');
+    let fillchar = fill_char(fillchar)?;
     char_ops::ljust(&a.inner, width, fillchar)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("ljust requires a string array"))
@@ -297,7 +296,7 @@ pub fn ljust(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (a, width, fillchar=None))]
 pub fn rjust(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResult<PyRumpyArray> {
-    let fillchar = fillchar.and_then(|s| s.chars().next()).unwrap_or(' ');
+    let fillchar = fill_char(fillchar)?;
     char_ops::rjust(&a.inner, width, fillchar)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rjust requires a string array"))
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index caf1dd5..e90da3d 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -7,11 +7,13 @@ use super::{
     ReductionResult,
 };
 use crate::array::{DType, RumpyArray};
+use crate::python::reductions::refuse_text;
 
 #[pymethods]
 impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn sum(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        refuse_text(&self.inner, "sum")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::sum, RumpyArray::sum_axis)),
             Some(ax) => {
@@ -28,6 +30,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn prod(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        refuse_text(&self.inner, "prod")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::prod, RumpyArray::prod_axis)),
             Some(ax) => {
@@ -44,6 +47,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn max(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        refuse_text(&self.inner, "max")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::max, RumpyArray::max_axis)),
             Some(ax) => {
@@ -60,6 +64,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn min(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        refuse_text(&self.inner, "min")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::min, RumpyArray::min_axis)),
             Some(ax) => {
@@ -76,6 +81,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn mean(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        refuse_text(&self.inner, "mean")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::mean, RumpyArray::mean_axis)),
             Some(ax) => {
@@ -92,6 +98,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn var(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        refuse_text(&self.inner, "var")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::var, RumpyArray::var_axis)),
             Some(ax) => {
@@ -108,6 +115,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn std(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        refuse_text(&self.inner, "std")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::std, RumpyArray::std_axis)),
             Some(ax) => {
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index b3a9c7d..72e4c9e 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -407,7 +407,19 @@ impl PyRumpyArray {
 
     /// Convert array to new dtype.
     fn astype(&self, dtype: &str) -> PyResult<Self> {
+        use crate::array::dtype::DTypeKind;
         let dt = parse_dtype(dtype)?;
+        // Text converts only to the same kind of text (another width)
+        let text = |k: DTypeKind| match k {
+            DTypeKind::Str(_) => 1,
+            DTypeKind::Bytes(_) => 2,
+            _ => 0,
+        };
+        if text(self.inner.dtype().kind()) != text(dt.kind()) {
+            return Err(pyo3::exceptions::PyTypeError::new_err(format!(
+                "cannot convert {} to {}", self.inner.dtype().ops().name(), dt.ops().name()
+            )));
+        }
         Ok(Self::new(self.inner.astype(dt)))
     }
 
@@ -473,6 +485,7 @@ impl PyRumpyArray {
     /// Cumulative sum along axis (or flattened if axis is None).
     #[pyo3(signature = (axis=None))]
     fn cumsum(&self, axis: Option<usize>) -> PyResult<Self> {
+        crate::python::reductions::refuse_text(&self.inner, "cumsum")?;
         if let Some(ax) = axis {
             if ax >= self.inner.ndim() {
                 return Err(pyo3::exceptions::PyValueError::new_err(format!(
@@ -487,6 +500,7 @@ impl PyRumpyArray {
     /// Cumulative product along axis (or flattened if axis is None).
     #[pyo3(signature = (axis=None))]
     fn cumprod(&self, axis: Option<usize>) -> PyResult<Self> {
+        crate::python::reductions::refuse_text(&self.inner, "cumprod")?;
         if let Some(ax) = axis {
             if ax >= self.inner.ndim() {
                 return Err(pyo3::exceptions::PyValueError::new_err(format!(
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 49f68f2..79886d0 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -38,6 +38,17 @@ pub fn check_axis_isize(axis: isize, ndim: usize) -> PyResult<usize> {
     Ok(resolve_axis(axis, ndim))
 }
 
+/// Refuse text (str and bytes), which has no arithmetic.
+pub fn refuse_text(arr: &RumpyArray, name: &str) -> PyResult<()> {
+    use crate::array::dtype::DTypeKind;
+    if matches!(arr.dtype().kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_)) {
+        return Err(pyo3::exceptions::PyTypeError::new_err(format!(
+            "{} is not supported for text arrays", name
+        )));
+    }
+    Ok(())
+}
+
 /// Parse axis parameter - can be None, a single int, or a tuple of ints.
 /// Returns None if axis is None, or Some(Vec<usize>) with normalized axes.
 fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Option<Vec<usize>>> {
@@ -111,6 +122,7 @@ where
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "sum")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::full_reduction(&x.inner, false, RumpyArray::sum, RumpyArray::sum_axis)),
@@ -128,6 +140,7 @@ pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "prod")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::full_reduction(&x.inner, false, RumpyArray::prod, RumpyArray::prod_axis)),
@@ -145,6 +158,7 @@ pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "mean")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::full_reduction(&x.inner, false, RumpyArray::mean, RumpyArray::mean_axis)),
@@ -162,6 +176,7 @@ pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn var(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "var")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.var())),
@@ -179,6 +194,7 @@ pub fn var(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(name = "std", signature = (x, axis=None))]
 pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "std")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.std())),
@@ -196,6 +212,7 @@ pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "max")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.max())),
@@ -213,6 +230,7 @@ pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "min")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.min())),
@@ -268,6 +286,7 @@ pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "nansum")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nansum())),
@@ -285,6 +304,7 @@ pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "nanprod")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanprod())),
@@ -302,6 +322,7 @@ pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "nanmean")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmean())),
@@ -319,6 +340,7 @@ pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "nanvar")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanvar())),
@@ -336,6 +358,7 @@ pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "nanstd")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanstd())),
@@ -353,6 +376,7 @@ pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "nanmin")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmin())),
@@ -370,6 +394,7 @@ pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "nanmax")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmax())),
@@ -471,6 +496,7 @@ pub fn any(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn cumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    refuse_text(&x.inner, "cumsum")?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
@@ -482,6 +508,7 @@ pub fn cumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn cumprod(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    refuse_text(&x.inner, "cumprod")?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
@@ -515,6 +542,7 @@ pub fn cumulative_prod(x: &PyRumpyArray, axis: isize, include_initial: bool) ->
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn median(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "median")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.median())),
@@ -556,6 +584,7 @@ pub fn average(
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn ptp(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "ptp")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.ptp())),
@@ -808,6 +837,7 @@ pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyRumpyArray {
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn amax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "amax")?;
     max(x, axis)
 }
 
@@ -815,6 +845,7 @@ pub fn amax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn amin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "amin")?;
     min(x, axis)
 }
 
@@ -826,6 +857,7 @@ pub fn amin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    refuse_text(&x.inner, "nanmedian")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmedian())),
@@ -896,6 +928,7 @@ pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opt
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nancumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    refuse_text(&x.inner, "nancumsum")?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
@@ -907,6 +940,7 @@ pub fn nancumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nancumprod(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    refuse_text(&x.inner, "nancumprod")?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
-- 
2.43.0


From 06030c2fd5520cf497c8108c09c687398bc156ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 33/51] fix: datetime: units, NaT, rounding to the past, exact
 casts, strict dates, weekmasks and business days; refuse meaningless date
 arithmetic

---
 src/array/dtype/datetime64.rs            | 314 ++++++++++-------------
 src/array/dtype/mod.rs                   |   2 +-
 src/array/mod.rs                         |  11 +-
 src/ops/array_methods/cumulative.rs      |   8 +-
 src/ops/array_methods/reductions.rs      |  17 +-
 src/ops/datetime.rs                      | 237 +++++++++++++++++
 src/ops/dispatch.rs                      |  49 +---
 src/ops/mod.rs                           |   1 +
 src/ops/ufunc.rs                         |  67 +----
 src/python/datetime.rs                   |  66 +++--
 src/python/pyarray/methods_reductions.rs |  16 +-
 src/python/pyarray/mod.rs                |  21 +-
 src/python/reductions.rs                 |  61 +++--
 13 files changed, 522 insertions(+), 348 deletions(-)
 create mode 100644 src/ops/datetime.rs

diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index 8fb8a2e..f51ff2f 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -167,8 +167,8 @@ impl DTypeOps for DateTime64Ops {
         let v = Self::read(src, byte_offset);
         // Most unary ops don't make sense for datetime, just copy
         let result = match op {
-            UnaryOp::Neg => -v,
-            UnaryOp::Abs => v.abs(),
+            UnaryOp::Neg => v.wrapping_neg(),
+            UnaryOp::Abs => v.wrapping_abs(),
             _ => v,
         };
         Self::write(out, idx, result);
@@ -205,7 +205,7 @@ impl DTypeOps for DateTime64Ops {
         let v = match op {
             ReduceOp::Sum => 0,
             ReduceOp::Prod => 1,
-            ReduceOp::Max => i64::MIN,
+            ReduceOp::Max => i64::MIN + 1, // the least value that is not NaT
             ReduceOp::Min => i64::MAX,
         };
         Self::write(out, idx, v);
@@ -214,12 +214,13 @@ impl DTypeOps for DateTime64Ops {
     unsafe fn reduce_acc(&self, op: ReduceOp, acc: *mut u8, idx: usize, val: *const u8, byte_offset: isize) {
         let a = Self::read(acc as *const u8, (idx * 8) as isize);
         let v = Self::read(val, byte_offset);
-        let result = match op {
+        // NaT propagates
+        let result = if a == NAT || v == NAT { NAT } else { match op {
             ReduceOp::Sum => a.wrapping_add(v),
             ReduceOp::Prod => a.wrapping_mul(v),
             ReduceOp::Max => a.max(v),
             ReduceOp::Min => a.min(v),
-        };
+        } };
         Self::write(acc, idx, result);
     }
 
@@ -238,12 +239,11 @@ impl DTypeOps for DateTime64Ops {
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
-        let v = Self::read(ptr, byte_offset);
-        v != 0 && v != NAT
+        Self::read(ptr, byte_offset) != 0
     }
 
     unsafe fn write_f64(&self, ptr: *mut u8, idx: usize, val: f64) -> bool {
-        Self::write(ptr, idx, val as i64);
+        Self::write(ptr, idx, if val.is_nan() { NAT } else { val as i64 });
         true
     }
 
@@ -261,7 +261,7 @@ impl DTypeOps for DateTime64Ops {
     }
 
     unsafe fn write_f64_at_byte_offset(&self, ptr: *mut u8, byte_offset: isize, val: f64) -> bool {
-        *(ptr.offset(byte_offset) as *mut i64) = val as i64;
+        *(ptr.offset(byte_offset) as *mut i64) = if val.is_nan() { NAT } else { val as i64 };
         true
     }
 
@@ -345,8 +345,8 @@ impl DTypeOps for TimeDelta64Ops {
     unsafe fn unary_op(&self, op: UnaryOp, src: *const u8, byte_offset: isize, out: *mut u8, idx: usize) {
         let v = Self::read(src, byte_offset);
         let result = match op {
-            UnaryOp::Neg => -v,
-            UnaryOp::Abs => v.abs(),
+            UnaryOp::Neg => v.wrapping_neg(),
+            UnaryOp::Abs => v.wrapping_abs(),
             _ => v,
         };
         Self::write(out, idx, result);
@@ -381,7 +381,7 @@ impl DTypeOps for TimeDelta64Ops {
         let v = match op {
             ReduceOp::Sum => 0,
             ReduceOp::Prod => 1,
-            ReduceOp::Max => i64::MIN,
+            ReduceOp::Max => i64::MIN + 1, // the least value that is not NaT
             ReduceOp::Min => i64::MAX,
         };
         Self::write(out, idx, v);
@@ -390,12 +390,13 @@ impl DTypeOps for TimeDelta64Ops {
     unsafe fn reduce_acc(&self, op: ReduceOp, acc: *mut u8, idx: usize, val: *const u8, byte_offset: isize) {
         let a = Self::read(acc as *const u8, (idx * 8) as isize);
         let v = Self::read(val, byte_offset);
-        let result = match op {
+        // NaT propagates
+        let result = if a == NAT || v == NAT { NAT } else { match op {
             ReduceOp::Sum => a.wrapping_add(v),
             ReduceOp::Prod => a.wrapping_mul(v),
             ReduceOp::Max => a.max(v),
             ReduceOp::Min => a.min(v),
-        };
+        } };
         Self::write(acc, idx, result);
     }
 
@@ -414,12 +415,11 @@ impl DTypeOps for TimeDelta64Ops {
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
-        let v = Self::read(ptr, byte_offset);
-        v != 0 && v != NAT
+        Self::read(ptr, byte_offset) != 0
     }
 
     unsafe fn write_f64(&self, ptr: *mut u8, idx: usize, val: f64) -> bool {
-        Self::write(ptr, idx, val as i64);
+        Self::write(ptr, idx, if val.is_nan() { NAT } else { val as i64 });
         true
     }
 
@@ -437,7 +437,7 @@ impl DTypeOps for TimeDelta64Ops {
     }
 
     unsafe fn write_f64_at_byte_offset(&self, ptr: *mut u8, byte_offset: isize, val: f64) -> bool {
-        *(ptr.offset(byte_offset) as *mut i64) = val as i64;
+        *(ptr.offset(byte_offset) as *mut i64) = if val.is_nan() { NAT } else { val as i64 };
         true
     }
 
@@ -458,35 +458,32 @@ pub fn format_datetime64(value: i64, unit: TimeUnit) -> String {
     match unit {
         TimeUnit::Years => {
             // value is years since 1970
-            let year = 1970 + value;
-            format!("{:04}", year)
+            format!("{:04}", 1970 + value as i128)
         }
         TimeUnit::Months => {
             // value is months since 1970-01
-            let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
-            format!("{:04}-{:02}", year, month)
+            let total_months = 1970 * 12 + value as i128;
+            format!("{:04}-{:02}", total_months.div_euclid(12), total_months.rem_euclid(12) + 1)
         }
         TimeUnit::Weeks => {
             // value is weeks since 1970-01-01 (Thursday)
             // NumPy week epoch starts at Thursday 1970-01-01
-            days_to_date_string(value * 7)
+            days_to_date_string(value as i128 * 7)
         }
         TimeUnit::Days => {
-            days_to_date_string(value)
+            days_to_date_string(value as i128)
         }
         TimeUnit::Hours => {
             let days = value.div_euclid(24);
             let hours = value.rem_euclid(24);
-            format!("{}T{:02}", days_to_date_string(days), hours)
+            format!("{}T{:02}", days_to_date_string(days as i128), hours)
         }
         TimeUnit::Minutes => {
             let days = value.div_euclid(24 * 60);
             let rem = value.rem_euclid(24 * 60);
             let hours = rem / 60;
             let minutes = rem % 60;
-            format!("{}T{:02}:{:02}", days_to_date_string(days), hours, minutes)
+            format!("{}T{:02}:{:02}", days_to_date_string(days as i128), hours, minutes)
         }
         TimeUnit::Seconds => {
             let days = value.div_euclid(24 * 60 * 60);
@@ -494,7 +491,7 @@ pub fn format_datetime64(value: i64, unit: TimeUnit) -> String {
             let hours = rem / 3600;
             let minutes = (rem % 3600) / 60;
             let seconds = rem % 60;
-            format!("{}T{:02}:{:02}:{:02}", days_to_date_string(days), hours, minutes, seconds)
+            format!("{}T{:02}:{:02}:{:02}", days_to_date_string(days as i128), hours, minutes, seconds)
         }
         TimeUnit::Milliseconds => {
             let days = value.div_euclid(24 * 60 * 60 * 1000);
@@ -503,7 +500,7 @@ pub fn format_datetime64(value: i64, unit: TimeUnit) -> String {
             let minutes = (rem % 3_600_000) / 60_000;
             let seconds = (rem % 60_000) / 1000;
             let ms = rem % 1000;
-            format!("{}T{:02}:{:02}:{:02}.{:03}", days_to_date_string(days), hours, minutes, seconds, ms)
+            format!("{}T{:02}:{:02}:{:02}.{:03}", days_to_date_string(days as i128), hours, minutes, seconds, ms)
         }
         TimeUnit::Microseconds => {
             let days = value.div_euclid(24 * 60 * 60 * 1_000_000);
@@ -512,7 +509,7 @@ pub fn format_datetime64(value: i64, unit: TimeUnit) -> String {
             let minutes = (rem % 3_600_000_000) / 60_000_000;
             let seconds = (rem % 60_000_000) / 1_000_000;
             let us = rem % 1_000_000;
-            format!("{}T{:02}:{:02}:{:02}.{:06}", days_to_date_string(days), hours, minutes, seconds, us)
+            format!("{}T{:02}:{:02}:{:02}.{:06}", days_to_date_string(days as i128), hours, minutes, seconds, us)
         }
         TimeUnit::Nanoseconds => {
             let days = value.div_euclid(24 * 60 * 60 * 1_000_000_000);
@@ -521,7 +518,7 @@ pub fn format_datetime64(value: i64, unit: TimeUnit) -> String {
             let minutes = (rem % 3_600_000_000_000) / 60_000_000_000;
             let seconds = (rem % 60_000_000_000) / 1_000_000_000;
             let ns = rem % 1_000_000_000;
-            format!("{}T{:02}:{:02}:{:02}.{:09}", days_to_date_string(days), hours, minutes, seconds, ns)
+            format!("{}T{:02}:{:02}:{:02}.{:09}", days_to_date_string(days as i128), hours, minutes, seconds, ns)
         }
     }
 }
@@ -561,19 +558,19 @@ fn format_timedelta64(value: i64, unit: TimeUnit) -> String {
 }
 
 /// Convert days since epoch (1970-01-01) to YYYY-MM-DD string.
-fn days_to_date_string(days: i64) -> String {
+fn days_to_date_string(days: i128) -> String {
     // Handle negative days (before 1970)
     let (year, month, day) = days_to_ymd(days);
     format!("{:04}-{:02}-{:02}", year, month, day)
 }
 
 /// Convert days since epoch to (year, month, day).
-fn days_to_ymd(days: i64) -> (i64, i64, i64) {
+fn days_to_ymd(days: i128) -> (i128, i128, i128) {
     // Algorithm from Howard Hinnant's date algorithms
     // http://howardhinnant.github.io/date_algorithms.html#civil_from_days
     let z = days + 719468; // Shift epoch from 1970-01-01 to 0000-03-01
     let era = if z >= 0 { z / 146097 } else { (z - 146096) / 146097 };
-    let doe = (z - era * 146097) as i64; // day of era [0, 146096]
+    let doe = z - era * 146097; // day of era [0, 146096]
     let yoe = (doe - doe/1460 + doe/36524 - doe/146096) / 365; // year of era [0, 399]
     let y = yoe + era * 400;
     let doy = doe - (365*yoe + yoe/4 - yoe/100); // day of year [0, 365]
@@ -585,185 +582,146 @@ fn days_to_ymd(days: i64) -> (i64, i64, i64) {
 }
 
 /// Convert (year, month, day) to days since epoch.
-pub fn ymd_to_days(year: i64, month: i64, day: i64) -> i64 {
+fn ymd_to_days(year: i128, month: i128, day: i128) -> i128 {
     // Algorithm from Howard Hinnant's date algorithms
     let y = if month <= 2 { year - 1 } else { year };
     let m = if month <= 2 { month + 12 } else { month };
     let era = if y >= 0 { y / 400 } else { (y - 399) / 400 };
-    let yoe = (y - era * 400) as i64; // year of era [0, 399]
+    let yoe = y - era * 400; // year of era [0, 399]
     let doy = (153 * (m - 3) + 2) / 5 + day - 1; // day of year [0, 365]
     let doe = yoe * 365 + yoe/4 - yoe/100 + doy; // day of era [0, 146096]
     era * 146097 + doe - 719468 // shift epoch from 0000-03-01 to 1970-01-01
 }
 
-/// Parse an ISO 8601 datetime string to a value in the given unit.
-/// Returns NAT on parse error.
+/// Parse an ISO 8601 datetime string (YYYY[-MM[-DD[Thh[:mm[:ss[.fraction]]]]]]) to a value in the
+/// given unit. Returns NAT on parse error.
 pub fn parse_datetime64(s: &str, unit: TimeUnit) -> i64 {
-    if s == "NaT" || s == "nat" {
-        return NAT;
-    }
+    parse_civil(s.trim()).map_or(NAT, |(days, nanoseconds)| {
+        let value = match unit {
+            TimeUnit::Years | TimeUnit::Months | TimeUnit::Weeks | TimeUnit::Days => days_to_unit(days, unit),
+            _ => (days * NS_PER_DAY + nanoseconds).div_euclid(ns_factor(unit)),
+        };
+        i64::try_from(value).unwrap_or(NAT)
+    })
+}
 
-    // Parse YYYY-MM-DDTHH:MM:SS.sss format
-    // Minimum is YYYY
-    let parts: Vec<&str> = s.split('T').collect();
-    let date_part = parts[0];
-    let time_part = parts.get(1).copied();
+const NS_PER_DAY: i128 = 24 * 60 * 60 * 1_000_000_000;
 
-    // Parse date: YYYY or YYYY-MM or YYYY-MM-DD
-    let date_parts: Vec<&str> = date_part.split('-').collect();
-    let year: i64 = match date_parts.first().and_then(|s| s.parse().ok()) {
-        Some(y) => y,
-        None => return NAT,
-    };
-    let month: i64 = date_parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
-    let day: i64 = date_parts.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
+fn ns_factor(unit: TimeUnit) -> i128 {
+    unit.to_ns_factor().unwrap_or(1) as i128
+}
 
-    // Calculate days since epoch
-    let days = ymd_to_days(year, month, day);
+/// A fixed-width number made of digits only.
+fn parse_digits(s: &str, width: usize) -> Option<i128> {
+    (s.len() == width && s.bytes().all(|b| b.is_ascii_digit())).then(|| s.parse().ok()).flatten()
+}
 
-    // Parse time if present
-    let (hours, minutes, seconds, subseconds) = if let Some(time_str) = time_part {
-        parse_time_part(time_str)
-    } else {
-        (0, 0, 0, 0.0)
+/// Parse a date with an optional time into days since the epoch and nanoseconds of the day.
+fn parse_civil(s: &str) -> Option<(i128, i128)> {
+    let (date, time) = match s.find(|c| c == 'T' || c == ' ') {
+        Some(at) => (&s[..at], Some(&s[at + 1..])),
+        None => (s, None),
     };
 
-    // Convert to target unit
-    match unit {
-        TimeUnit::Years => year - 1970,
-        TimeUnit::Months => (year - 1970) * 12 + (month - 1),
-        TimeUnit::Weeks => days / 7,
-        TimeUnit::Days => days,
-        TimeUnit::Hours => days * 24 + hours,
-        TimeUnit::Minutes => days * 24 * 60 + hours * 60 + minutes,
-        TimeUnit::Seconds => days * 86400 + hours * 3600 + minutes * 60 + seconds,
-        TimeUnit::Milliseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1000 + (subseconds * 1000.0) as i64
-        }
-        TimeUnit::Microseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000 + (subseconds * 1_000_000.0) as i64
-        }
-        TimeUnit::Nanoseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000_000 + (subseconds * 1_000_000_000.0) as i64
-        }
+    let (sign, date) = match date.strip_prefix('-') {
+        Some(rest) => (-1, rest),
+        None => (1, date),
+    };
+    let mut parts = date.split('-');
+    let year_digits = parts.next()?;
+    let year = sign * parse_digits(year_digits, year_digits.len().clamp(1, 18))?;
+    let month = parts.next().map_or(Some(1), |m| parse_digits(m, 2))?;
+    let day_part = parts.next();
+    let day = day_part.map_or(Some(1), |d| parse_digits(d, 2))?;
+    let leap = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
+    let month_length = match month {
+        4 | 6 | 9 | 11 => 30,
+        2 => 28 + leap as i128,
+        _ => 31,
+    };
+    if parts.next().is_some() || !(1..=12).contains(&month) || !(1..=month_length).contains(&day) {
+        return None;
     }
-}
+    let days = ymd_to_days(year, month, day);
 
-/// Parse time part HH:MM:SS.sss returning (hours, minutes, seconds, subseconds as fraction).
-fn parse_time_part(s: &str) -> (i64, i64, i64, f64) {
-    let parts: Vec<&str> = s.split(':').collect();
-    let hours: i64 = parts.first().and_then(|s| s.parse().ok()).unwrap_or(0);
-    let minutes: i64 = parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
-
-    // Seconds may have fractional part
-    let (seconds, subseconds) = if let Some(sec_str) = parts.get(2) {
-        if let Some(dot_pos) = sec_str.find('.') {
-            let secs: i64 = sec_str[..dot_pos].parse().unwrap_or(0);
-            let frac: f64 = format!("0.{}", &sec_str[dot_pos+1..]).parse().unwrap_or(0.0);
-            (secs, frac)
-        } else {
-            (sec_str.parse().unwrap_or(0), 0.0)
-        }
-    } else {
-        (0, 0.0)
+    let Some(time) = time else { return Some((days, 0)) };
+    // A time needs a full date
+    day_part?;
+    let mut parts = time.split(':');
+    let hour = parse_digits(parts.next()?, 2)?;
+    let minute = parts.next().map_or(Some(0), |m| parse_digits(m, 2))?;
+    let (second, fraction) = match parts.next() {
+        Some(part) => match part.split_once('.') {
+            Some((second, fraction)) => (parse_digits(second, 2)?, fraction),
+            None => (parse_digits(part, 2)?, ""),
+        },
+        None => (0, ""),
     };
-
-    (hours, minutes, seconds, subseconds)
+    if parts.next().is_some() || hour > 23 || minute > 59 || second > 59 || !fraction.bytes().all(|b| b.is_ascii_digit()) {
+        return None;
+    }
+    // Nanoseconds of the fraction; further digits are dropped
+    let nanoseconds: i128 = format!("{:0<9}", &fraction[..fraction.len().min(9)]).parse().ok()?;
+    Some((days, ((hour * 60 + minute) * 60 + second) * 1_000_000_000 + nanoseconds))
 }
 
-/// Convert datetime64 value from one unit to another.
-/// Returns NAT if conversion would overflow or for variable-length units.
+/// Convert datetime64 value from one unit to another, rounding towards the past.
+/// Returns NAT if conversion would overflow.
 pub fn convert_datetime64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) -> i64 {
-    if value == NAT {
-        return NAT;
-    }
-    if from_unit == to_unit {
+    if value == NAT || from_unit == to_unit {
         return value;
     }
+    let v = value as i128;
+    let converted = match (from_unit, to_unit) {
+        (TimeUnit::Years, TimeUnit::Months) => v * 12,
+        (TimeUnit::Months, TimeUnit::Years) => v.div_euclid(12),
 
-    // For fixed-length units, we can convert via common unit (nanoseconds)
-    // For variable-length units (Y, M), we need special handling
-    match (from_unit, to_unit) {
-        // Variable to variable
-        (TimeUnit::Years, TimeUnit::Months) => value * 12,
-        (TimeUnit::Months, TimeUnit::Years) => value / 12,
-
-        // Variable to fixed - convert via date calculation
-        (TimeUnit::Years, to) => {
-            let year = 1970 + value;
-            let days = ymd_to_days(year, 1, 1);
-            days_to_unit(days, to)
-        }
+        // From a calendar unit: through the first day of the period
+        (TimeUnit::Years, to) => days_to_unit(ymd_to_days(1970 + v, 1, 1), to),
         (TimeUnit::Months, to) => {
-            let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
-            let days = ymd_to_days(year, month, 1);
-            days_to_unit(days, to)
+            let total_months = 1970 * 12 + v;
+            days_to_unit(ymd_to_days(total_months.div_euclid(12), total_months.rem_euclid(12) + 1, 1), to)
         }
 
-        // Fixed to variable - approximate conversion
-        (from, TimeUnit::Years) => {
-            let days = unit_to_days(value, from);
-            let (year, _, _) = days_to_ymd(days);
-            year - 1970
-        }
-        (from, TimeUnit::Months) => {
-            let days = unit_to_days(value, from);
-            let (year, month, _) = days_to_ymd(days);
-            (year - 1970) * 12 + (month - 1)
+        // To a calendar unit: the period that contains the day
+        (from, TimeUnit::Years | TimeUnit::Months) => {
+            days_to_unit((v * ns_factor(from)).div_euclid(NS_PER_DAY), to_unit)
         }
 
-        // Fixed to fixed - use factors
-        (from, to) => {
-            let from_factor = from.to_ns_factor().unwrap();
-            let to_factor = to.to_ns_factor().unwrap();
-            if from_factor >= to_factor {
-                value * (from_factor / to_factor)
-            } else {
-                value / (to_factor / from_factor)
-            }
-        }
-    }
+        (from, to) => (v * ns_factor(from)).div_euclid(ns_factor(to)),
+    };
+    i64::try_from(converted).unwrap_or(NAT)
 }
 
-fn days_to_unit(days: i64, unit: TimeUnit) -> i64 {
-    match unit {
-        TimeUnit::Years | TimeUnit::Months => {
-            let (year, month, _) = days_to_ymd(days);
-            if matches!(unit, TimeUnit::Years) {
-                year - 1970
-            } else {
-                (year - 1970) * 12 + (month - 1)
-            }
-        }
-        TimeUnit::Weeks => days / 7,
-        TimeUnit::Days => days,
-        TimeUnit::Hours => days * 24,
-        TimeUnit::Minutes => days * 24 * 60,
-        TimeUnit::Seconds => days * 86400,
-        TimeUnit::Milliseconds => days * 86400 * 1000,
-        TimeUnit::Microseconds => days * 86400 * 1_000_000,
-        TimeUnit::Nanoseconds => days * 86400 * 1_000_000_000,
+/// Convert timedelta64 value from one unit to another, rounding down. A year counts as the
+/// average Gregorian year and a month as a twelfth of it.
+/// Returns NAT if conversion would overflow.
+pub fn convert_timedelta64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) -> i64 {
+    if value == NAT || from_unit == to_unit {
+        return value;
     }
+    // Length of a unit in nanoseconds, times 4800 (146097 days make 4800 months)
+    let length = |unit: TimeUnit| match unit {
+        TimeUnit::Years => 12 * 146097 * NS_PER_DAY,
+        TimeUnit::Months => 146097 * NS_PER_DAY,
+        _ => 4800 * ns_factor(unit),
+    };
+    let (from, to) = (length(from_unit), length(to_unit));
+    let common = gcd(from, to);
+    i64::try_from((value as i128 * (from / common)).div_euclid(to / common)).unwrap_or(NAT)
+}
+
+fn gcd(a: i128, b: i128) -> i128 {
+    if b == 0 { a } else { gcd(b, a % b) }
 }
 
-fn unit_to_days(value: i64, unit: TimeUnit) -> i64 {
+fn days_to_unit(days: i128, unit: TimeUnit) -> i128 {
     match unit {
-        TimeUnit::Years | TimeUnit::Months => {
-            // These should be handled separately
-            0
+        TimeUnit::Years => days_to_ymd(days).0 - 1970,
+        TimeUnit::Months => {
+            let (year, month, _) = days_to_ymd(days);
+            (year - 1970) * 12 + (month - 1)
         }
-        TimeUnit::Weeks => value * 7,
-        TimeUnit::Days => value,
-        TimeUnit::Hours => value / 24,
-        TimeUnit::Minutes => value / (24 * 60),
-        TimeUnit::Seconds => value / 86400,
-        TimeUnit::Milliseconds => value / (86400 * 1000),
-        TimeUnit::Microseconds => value / (86400 * 1_000_000),
-        TimeUnit::Nanoseconds => value / (86400 * 1_000_000_000),
+        _ => (days * NS_PER_DAY).div_euclid(ns_factor(unit)),
     }
 }
diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index b36f857..49fde2f 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -21,7 +21,7 @@ use self::bool::BoolOps;
 use complex64::Complex64Ops;
 use complex128::Complex128Ops;
 use datetime64::{DateTime64Ops, TimeDelta64Ops};
-pub use datetime64::{TimeUnit, NAT, parse_datetime64, format_datetime64, convert_datetime64};
+pub use datetime64::{TimeUnit, NAT, parse_datetime64, format_datetime64, convert_datetime64, convert_timedelta64};
 use float16::Float16Ops;
 use floats::{Float32Ops, Float64Ops};
 use integers::{Int8Ops, Int16Ops, Int32Ops, Int64Ops, Uint8Ops, Uint16Ops, Uint32Ops, Uint64Ops};
diff --git a/src/array/mod.rs b/src/array/mod.rs
index 033a3a3..c5756e5 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -36,6 +36,11 @@ pub struct RumpyArray {
     pub(crate) flags: ArrayFlags,
 }
 
+/// Whether the elements are integers, or dates or durations stored as such.
+fn holds_integers(dtype: &DType) -> bool {
+    dtype.is_integer() || matches!(dtype.kind(), DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_))
+}
+
 impl RumpyArray {
     /// Get array shape.
     pub fn shape(&self) -> &[usize] {
@@ -357,7 +362,7 @@ impl RumpyArray {
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let byte_offset = offset as isize / 8;
                         let val = unsafe { *src.offset(byte_offset) };
-                        let converted = dtype::convert_datetime64(val, *from_unit, *to_unit);
+                        let converted = dtype::convert_timedelta64(val, *from_unit, *to_unit);
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
@@ -387,8 +392,8 @@ impl RumpyArray {
                         unsafe { dst_ops.write_complex(result_ptr, i, re, im); }
                     }
                 }
-                _ if self.dtype.is_integer() && new_dtype.is_integer() => {
-                    // Integer to integer: exact, wrapping on narrowing
+                _ if holds_integers(&self.dtype) && holds_integers(&new_dtype) => {
+                    // Integers, dates and durations: exact, wrapping on narrowing
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let val = unsafe { src_ops.read_i64(src_ptr, offset) }.unwrap_or(0);
                         unsafe { dst_ops.write_i64(result_ptr, i, val); }
diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index 0d9cf58..bff3f49 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -67,7 +67,7 @@ impl RumpyArray {
             // Result has size 0 along axis
             let mut new_shape = self.shape().to_vec();
             new_shape[axis] = 0;
-            return RumpyArray::zeros(new_shape, self.dtype().clone());
+            return RumpyArray::zeros(new_shape, crate::ops::datetime::difference_dtype(&self.dtype()));
         }
 
         // Single diff: result[i] = input[i+1] - input[i]
@@ -87,7 +87,7 @@ impl RumpyArray {
         let src_ptr = self.data_ptr();
 
         // Fast path for 1D contiguous case
-        if self.ndim() == 1 && self.is_c_contiguous() {
+        if self.ndim() == 1 && self.is_c_contiguous() && !crate::ops::datetime::is_time(&dtype) {
             diff_1d_contiguous(src_ptr, result_ptr, out_size, &dtype);
         } else {
             // General strided case: x[1:] - x[:-1]
@@ -187,8 +187,8 @@ impl RumpyArray {
         if let Some(result) = crate::ops::dispatch::dispatch_cumsum(&self.accumulator_input(), axis) {
             return result;
         }
-        // Fallback for DateTime
-        self.cumulative_op(axis, 0.0, |acc, x| acc + x)
+        // Durations
+        crate::ops::datetime::cumulative_sum(self, axis)
     }
 
     /// Cumulative product along axis (or flattened if axis is None).
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 2bda941..cbb9cf6 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -95,7 +95,8 @@ impl RumpyArray {
     pub fn mean_axis(&self, axis: usize) -> RumpyArray {
         let sum = self.moment_input().sum_axis(axis);
         let count = self.shape()[axis] as f64;
-        let count_arr = RumpyArray::full(vec![], count, sum.dtype());
+        let count_dtype = if crate::ops::datetime::is_time(&sum.dtype()) { DType::int64() } else { sum.dtype() };
+        let count_arr = RumpyArray::full(vec![], count, count_dtype);
         sum.binary_op(&count_arr, BinaryOp::Div).expect("broadcast works")
     }
 
@@ -239,6 +240,16 @@ impl RumpyArray {
         map_unary_op(&self.var_axis(axis), UnaryOp::Sqrt).expect("sqrt always succeeds on numeric types")
     }
 
+    /// The 64-bit values of dates and durations, shifted (for a maximum) so that NaT comes first.
+    fn time_keys(&self, maximum: bool) -> RumpyArray {
+        let ptr = self.data_ptr();
+        let keys = self.iter_offsets()
+            .map(|offset| unsafe { *(ptr.offset(offset) as *const i64) })
+            .map(|v| if maximum { v.wrapping_sub(1) } else { v })
+            .collect();
+        RumpyArray::from_vec_i64_with_shape(keys, self.shape().to_vec(), DType::int64())
+    }
+
     /// Index of maximum element (flattened).
     pub fn argmax(&self) -> usize {
         use crate::array::dtype::DTypeKind;
@@ -253,6 +264,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => dispatch_argmax_full::<u32>(self),
             DTypeKind::Uint16 => dispatch_argmax_full::<u16>(self),
             DTypeKind::Uint8 => dispatch_argmax_full::<u8>(self),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => self.time_keys(true).argmax(),
             _ => self.argmax_slow(),
         }
     }
@@ -271,6 +283,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => dispatch_argmin_full::<u32>(self),
             DTypeKind::Uint16 => dispatch_argmin_full::<u16>(self),
             DTypeKind::Uint8 => dispatch_argmin_full::<u8>(self),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => self.time_keys(false).argmin(),
             _ => self.argmin_slow(),
         }
     }
@@ -288,6 +301,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => argmax_axis_typed::<u32>(self, axis),
             DTypeKind::Uint16 => argmax_axis_typed::<u16>(self, axis),
             DTypeKind::Uint8 => argmax_axis_typed::<u8>(self, axis),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => self.time_keys(true).argmax_axis(axis),
             _ => self.argmax_axis_slow(axis),
         }
     }
@@ -305,6 +319,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => argmin_axis_typed::<u32>(self, axis),
             DTypeKind::Uint16 => argmin_axis_typed::<u16>(self, axis),
             DTypeKind::Uint8 => argmin_axis_typed::<u8>(self, axis),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => self.time_keys(false).argmin_axis(axis),
             _ => self.argmin_axis_slow(axis),
         }
     }
diff --git a/src/ops/datetime.rs b/src/ops/datetime.rs
new file mode 100644
index 0000000..a91eddb
--- /dev/null
+++ b/src/ops/datetime.rs
@@ -0,0 +1,237 @@
+//! Arithmetic on datetime64 and timedelta64 arrays: units, NaT and result dtypes.
+
+use crate::array::dtype::{BinaryOp, DTypeKind, TimeUnit, UnaryOp, NAT};
+use crate::array::{broadcast_shapes, DType, RumpyArray};
+use super::ufunc::is_integer_kind;
+use super::{BinaryOpError, UnaryOpError};
+
+/// How an operand takes part in date arithmetic.
+#[derive(Clone, Copy, PartialEq)]
+enum Operand {
+    Date(TimeUnit),
+    Span(TimeUnit),
+    Integer,
+    Float,
+}
+
+fn operand(dtype: &DType) -> Option<Operand> {
+    match dtype.kind() {
+        DTypeKind::DateTime64(unit) => Some(Operand::Date(unit)),
+        DTypeKind::TimeDelta64(unit) => Some(Operand::Span(unit)),
+        DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64 => Some(Operand::Float),
+        kind if kind == DTypeKind::Bool || is_integer_kind(&kind) => Some(Operand::Integer),
+        _ => None,
+    }
+}
+
+/// Whether a dtype holds dates or durations.
+pub fn is_time(dtype: &DType) -> bool {
+    matches!(dtype.kind(), DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_))
+}
+
+fn is_calendar(unit: TimeUnit) -> bool {
+    matches!(unit, TimeUnit::Years | TimeUnit::Months)
+}
+
+/// The finer of two units.
+fn finer(a: TimeUnit, b: TimeUnit) -> TimeUnit {
+    if (a as u8) >= (b as u8) { a } else { b }
+}
+
+/// The unit two durations share; months and days have none.
+fn common_span_unit(a: TimeUnit, b: TimeUnit) -> Option<TimeUnit> {
+    (is_calendar(a) == is_calendar(b)).then(|| finer(a, b))
+}
+
+/// The unit of a date moved by a duration; a duration in months cannot move a day.
+fn moved_unit(date: TimeUnit, span: TimeUnit) -> Option<TimeUnit> {
+    (is_calendar(date) || !is_calendar(span)).then(|| finer(date, span))
+}
+
+/// Combine integers elementwise in 64 bits; NaT in either operand gives NaT.
+fn zip_nat<F: Fn(i64, i64) -> i64>(a: &RumpyArray, b: &RumpyArray, shape: &[usize], dtype: DType, f: F) -> RumpyArray {
+    zip_i64(a, b, shape, dtype, |x, y| if x == NAT || y == NAT { NAT } else { f(x, y) })
+}
+
+fn zip_i64<F: Fn(i64, i64) -> i64>(a: &RumpyArray, b: &RumpyArray, shape: &[usize], dtype: DType, f: F) -> RumpyArray {
+    let (a_ptr, b_ptr) = (a.data_ptr(), b.data_ptr());
+    let values = a.iter_offsets().zip(b.iter_offsets())
+        .map(|(x, y)| unsafe { f(*(a_ptr.offset(x) as *const i64), *(b_ptr.offset(y) as *const i64)) })
+        .collect();
+    RumpyArray::from_vec_i64_with_shape(values, shape.to_vec(), dtype)
+}
+
+/// A duration and a float, giving a duration (NaT where there is no such number).
+fn zip_span_float<F: Fn(f64, f64) -> f64>(a: &RumpyArray, b: &RumpyArray, shape: &[usize], dtype: DType, f: F) -> RumpyArray {
+    let (a_ptr, b_ptr) = (a.data_ptr(), b.data_ptr());
+    let values = a.iter_offsets().zip(b.iter_offsets())
+        .map(|(x, y)| {
+            let (x, y) = unsafe { (*(a_ptr.offset(x) as *const i64), *(b_ptr.offset(y) as *const f64)) };
+            let value = f(x as f64, y);
+            if x == NAT || !value.is_finite() { NAT } else { value as i64 }
+        })
+        .collect();
+    RumpyArray::from_vec_i64_with_shape(values, shape.to_vec(), dtype)
+}
+
+/// Binary operation in which at least one operand holds dates or durations.
+pub fn time_binary_op(a: &RumpyArray, b: &RumpyArray, op: BinaryOp) -> Result<RumpyArray, BinaryOpError> {
+    use BinaryOp::*;
+    use BinaryOpError::UnsupportedDtype;
+    use Operand::*;
+
+    let shape = broadcast_shapes(a.shape(), b.shape()).ok_or(BinaryOpError::ShapeMismatch)?;
+    let left = operand(&a.dtype()).ok_or(UnsupportedDtype)?;
+    let right = operand(&b.dtype()).ok_or(UnsupportedDtype)?;
+
+    // Both operands in the given dtypes, broadcast
+    let convert = |a_dtype: DType, b_dtype: DType| -> Result<(RumpyArray, RumpyArray), BinaryOpError> {
+        let cast = |x: &RumpyArray, dtype: DType| {
+            let x = if x.dtype() == dtype { x.clone() } else { x.astype(dtype) };
+            x.broadcast_to(&shape).ok_or(BinaryOpError::ShapeMismatch)
+        };
+        Ok((cast(a, a_dtype)?, cast(b, b_dtype)?))
+    };
+    // A plain integer counts as a duration in the unit of the other operand
+    let as_span = |o: Operand, unit: TimeUnit| if o == Integer { DType::int64() } else { DType::timedelta64(unit) };
+
+    match (op, left, right) {
+        (Add | Sub, Date(u), Span(v)) => {
+            let unit = moved_unit(u, v).ok_or(UnsupportedDtype)?;
+            let (x, y) = convert(DType::datetime64(unit), DType::timedelta64(unit))?;
+            let f = if op == Add { i64::wrapping_add } else { i64::wrapping_sub };
+            Ok(zip_nat(&x, &y, &shape, DType::datetime64(unit), f))
+        }
+        (Add | Sub, Date(unit), Integer) => {
+            let (x, y) = convert(DType::datetime64(unit), DType::int64())?;
+            let f = if op == Add { i64::wrapping_add } else { i64::wrapping_sub };
+            Ok(zip_nat(&x, &y, &shape, DType::datetime64(unit), f))
+        }
+        (Add, Span(_) | Integer, Date(_)) => time_binary_op(b, a, Add),
+        (Sub, Date(u), Date(v)) => {
+            let unit = finer(u, v);
+            let (x, y) = convert(DType::datetime64(unit), DType::datetime64(unit))?;
+            Ok(zip_nat(&x, &y, &shape, DType::timedelta64(unit), i64::wrapping_sub))
+        }
+        (Add | Sub, Span(u), Span(v)) => {
+            let unit = common_span_unit(u, v).ok_or(UnsupportedDtype)?;
+            let (x, y) = convert(DType::timedelta64(unit), DType::timedelta64(unit))?;
+            let f = if op == Add { i64::wrapping_add } else { i64::wrapping_sub };
+            Ok(zip_nat(&x, &y, &shape, DType::timedelta64(unit), f))
+        }
+        (Add | Sub, Span(unit), Integer) | (Add | Sub, Integer, Span(unit)) => {
+            let (x, y) = convert(as_span(left, unit), as_span(right, unit))?;
+            let f = if op == Add { i64::wrapping_add } else { i64::wrapping_sub };
+            Ok(zip_nat(&x, &y, &shape, DType::timedelta64(unit), f))
+        }
+        (Mul, Span(unit), Integer) => {
+            let (x, y) = convert(DType::timedelta64(unit), DType::int64())?;
+            Ok(zip_nat(&x, &y, &shape, DType::timedelta64(unit), i64::wrapping_mul))
+        }
+        (Mul, Span(unit), Float) => {
+            let (x, y) = convert(DType::timedelta64(unit), DType::float64())?;
+            Ok(zip_span_float(&x, &y, &shape, DType::timedelta64(unit), |x, y| x * y))
+        }
+        (Mul, Integer | Float, Span(_)) => time_binary_op(b, a, Mul),
+        // Division by a number truncates, as in NumPy
+        (Div | FloorDiv, Span(unit), Integer) => {
+            let (x, y) = convert(DType::timedelta64(unit), DType::int64())?;
+            Ok(zip_nat(&x, &y, &shape, DType::timedelta64(unit), |x, y| if y == 0 { NAT } else { x.wrapping_div(y) }))
+        }
+        (Div | FloorDiv, Span(unit), Float) => {
+            let (x, y) = convert(DType::timedelta64(unit), DType::float64())?;
+            Ok(zip_span_float(&x, &y, &shape, DType::timedelta64(unit), |x, y| x / y))
+        }
+        (Div | FloorDiv | Mod, Span(u), Span(v)) => {
+            let unit = common_span_unit(u, v).ok_or(UnsupportedDtype)?;
+            let (x, y) = convert(DType::timedelta64(unit), DType::timedelta64(unit))?;
+            Ok(match op {
+                Div => {
+                    let (x_ptr, y_ptr) = (x.data_ptr(), y.data_ptr());
+                    let values = x.iter_offsets().zip(y.iter_offsets())
+                        .map(|(i, j)| {
+                            let (p, q) = unsafe { (*(x_ptr.offset(i) as *const i64), *(y_ptr.offset(j) as *const i64)) };
+                            if p == NAT || q == NAT { f64::NAN } else { p as f64 / q as f64 }
+                        })
+                        .collect();
+                    RumpyArray::from_vec_with_shape(values, shape.clone(), DType::float64())
+                }
+                FloorDiv => zip_i64(&x, &y, &shape, DType::int64(), |p, q| {
+                    if p == NAT || q == NAT || q == 0 { 0 } else { floor_div(p, q) }
+                }),
+                _ => zip_nat(&x, &y, &shape, DType::timedelta64(unit), |p, q| {
+                    if q == 0 { NAT } else { p.wrapping_sub(floor_div(p, q).wrapping_mul(q)) }
+                }),
+            })
+        }
+        (Maximum | Minimum | FMax | FMin, Date(_), Date(_)) | (Maximum | Minimum | FMax | FMin, Span(_), Span(_)) => {
+            let dtype = match (left, right) {
+                (Date(u), Date(v)) => DType::datetime64(finer(u, v)),
+                (Span(u), Span(v)) => DType::timedelta64(common_span_unit(u, v).ok_or(UnsupportedDtype)?),
+                _ => return Err(UnsupportedDtype),
+            };
+            let (x, y) = convert(dtype.clone(), dtype.clone())?;
+            Ok(zip_i64(&x, &y, &shape, dtype, |p, q| match op {
+                // NaT propagates through maximum and minimum; fmax and fmin skip it
+                Maximum | Minimum if p == NAT || q == NAT => NAT,
+                _ if p == NAT => q,
+                _ if q == NAT => p,
+                Maximum | FMax => p.max(q),
+                _ => p.min(q),
+            }))
+        }
+        _ => Err(UnsupportedDtype),
+    }
+}
+
+/// Quotient rounded towards negative infinity.
+fn floor_div(p: i64, q: i64) -> i64 {
+    let quotient = p.wrapping_div(q);
+    if p.wrapping_rem(q) != 0 && (p < 0) != (q < 0) { quotient - 1 } else { quotient }
+}
+
+/// Unary operation on dates or durations.
+pub fn time_unary_op(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOpError> {
+    let is_span = matches!(arr.dtype().kind(), DTypeKind::TimeDelta64(_));
+    let ptr = arr.data_ptr();
+    let map = |dtype: DType, f: &dyn Fn(i64) -> i64| {
+        let values = arr.iter_offsets().map(|offset| f(unsafe { *(ptr.offset(offset) as *const i64) })).collect();
+        RumpyArray::from_vec_i64_with_shape(values, arr.shape().to_vec(), dtype)
+    };
+    match op {
+        // The negation of NaT wraps back to NaT
+        UnaryOp::Neg if is_span => Ok(map(arr.dtype(), &|v| v.wrapping_neg())),
+        UnaryOp::Abs if is_span => Ok(map(arr.dtype(), &|v| v.wrapping_abs())),
+        UnaryOp::Positive if is_span => Ok(arr.copy()),
+        UnaryOp::Sign if is_span => Ok(map(arr.dtype(), &|v| if v == NAT { NAT } else { v.signum() })),
+        UnaryOp::Isnan => Ok(map(DType::int64(), &|v| (v == NAT) as i64).astype(DType::bool())),
+        UnaryOp::Isfinite => Ok(map(DType::int64(), &|v| (v != NAT) as i64).astype(DType::bool())),
+        UnaryOp::Isinf => Ok(RumpyArray::zeros(arr.shape().to_vec(), DType::bool())),
+        _ => Err(UnaryOpError::UnsupportedDtype),
+    }
+}
+
+/// The dtype of the differences of an array's elements.
+pub fn difference_dtype(dtype: &DType) -> DType {
+    match dtype.kind() {
+        DTypeKind::DateTime64(unit) => DType::timedelta64(unit),
+        _ => dtype.clone(),
+    }
+}
+
+/// Running sum of durations along an axis, or of the flattened array. NaT stays NaT.
+pub fn cumulative_sum(a: &RumpyArray, axis: Option<usize>) -> RumpyArray {
+    let src = a.data_ptr();
+    let mut values: Vec<i64> = a.iter_offsets().map(|o| unsafe { *(src.offset(o) as *const i64) }).collect();
+    let (shape, step, len) = match axis {
+        Some(axis) => (a.shape().to_vec(), a.shape()[axis + 1..].iter().product::<usize>(), a.shape()[axis]),
+        None => (vec![values.len()], 1, values.len()),
+    };
+    for i in 0..values.len() {
+        if (i / step) % len > 0 {
+            let (sum, value) = (values[i - step], values[i]);
+            values[i] = if sum == NAT || value == NAT { NAT } else { sum.wrapping_add(value) };
+        }
+    }
+    RumpyArray::from_vec_i64_with_shape(values, shape, a.dtype())
+}
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 68a8390..bb0e13b 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -116,50 +116,6 @@ pub fn dispatch_binary_nextafter(a: &RumpyArray, b: &RumpyArray, out_shape: &[us
     dispatch_binary_kernel_float(a, b, out_shape, Nextafter)
 }
 
-/// Dispatch datetime + timedelta → datetime (fast path using i64 Add kernel).
-pub fn dispatch_datetime_add_timedelta(
-    datetime: &RumpyArray,
-    timedelta: &RumpyArray,
-    out_shape: &[usize],
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is datetime with same unit
-    let out_dtype = datetime.dtype();
-    dispatch_binary_typed::<i64, Add>(datetime, timedelta, out_shape, Add, out_dtype)
-}
-
-/// Dispatch timedelta + datetime → datetime (fast path using i64 Add kernel).
-pub fn dispatch_timedelta_add_datetime(
-    timedelta: &RumpyArray,
-    datetime: &RumpyArray,
-    out_shape: &[usize],
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is datetime with same unit
-    let out_dtype = datetime.dtype();
-    dispatch_binary_typed::<i64, Add>(timedelta, datetime, out_shape, Add, out_dtype)
-}
-
-/// Dispatch datetime - timedelta → datetime (fast path using i64 Sub kernel).
-pub fn dispatch_datetime_sub_timedelta(
-    datetime: &RumpyArray,
-    timedelta: &RumpyArray,
-    out_shape: &[usize],
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is datetime with same unit
-    let out_dtype = datetime.dtype();
-    dispatch_binary_typed::<i64, Sub>(datetime, timedelta, out_shape, Sub, out_dtype)
-}
-
-/// Dispatch datetime - datetime → timedelta (fast path using i64 Sub kernel).
-pub fn dispatch_datetime_sub_datetime(
-    a: &RumpyArray,
-    b: &RumpyArray,
-    out_shape: &[usize],
-    out_dtype: DType,
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is timedelta with same unit
-    dispatch_binary_typed::<i64, Sub>(a, b, out_shape, Sub, out_dtype)
-}
-
 /// Dispatch float_power: power operation that always outputs f64 (or complex128).
 /// Accepts any numeric input type, converts to f64/complex128 inline.
 pub fn dispatch_float_power(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize]) -> Option<RumpyArray> {
@@ -1119,10 +1075,7 @@ where
         DTypeKind::Uint8 => dispatch_compare_typed::<u8, K>(a, b, out_shape, kernel),
         DTypeKind::Complex128 => dispatch_compare_typed::<Complex<f64>, K>(a, b, out_shape, kernel),
         DTypeKind::Complex64 => dispatch_compare_typed::<Complex<f32>, K>(a, b, out_shape, kernel),
-        // datetime64/timedelta64 use i64 internally - route through fast path
-        DTypeKind::DateTime64(_) => dispatch_compare_typed::<i64, K>(a, b, out_shape, kernel),
-        DTypeKind::TimeDelta64(_) => dispatch_compare_typed::<i64, K>(a, b, out_shape, kernel),
-        _ => None, // bool fall back to trait dispatch
+        _ => None, // bool, dates and durations (NaT) fall back to trait dispatch
     }
 }
 
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 60bbded..301a7c0 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -6,6 +6,7 @@ pub mod array_methods;
 pub mod bitwise;
 pub mod char;
 pub mod comparison;
+pub mod datetime;
 pub mod dispatch;
 pub mod dot;
 pub mod einsum;
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index ecaadfc..b7a645d 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -12,6 +12,7 @@
 
 use crate::array::{broadcast_shapes, increment_indices, promote_dtype, DType, RumpyArray};
 use crate::array::dtype::{DTypeKind, UnaryOp, ReduceOp};
+use crate::ops::datetime::{is_time, time_binary_op, time_unary_op};
 use crate::ops::kernels::arithmetic::FlooredDivision;
 use crate::ops::registry::registry;
 use crate::ops::{BinaryOp, BinaryOpError, UnaryOpError, ComparisonOp};
@@ -78,6 +79,11 @@ pub fn map_unary_op(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOp
         return Err(UnaryOpError::UnsupportedDtype);
     }
 
+    // Dates and durations
+    if is_time(&arr.dtype()) {
+        return time_unary_op(arr, op);
+    }
+
     // Transcendentals on non-float types: promote based on itemsize (like NumPy)
     // 1 byte -> float16, 2 bytes -> float32, 4+ bytes -> float64
     if is_transcendental(op) && !matches!(kind, DTypeKind::Float16 | DTypeKind::Float64 | DTypeKind::Float32 | DTypeKind::Complex64 | DTypeKind::Complex128) {
@@ -153,7 +159,7 @@ pub fn map_unary_op(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOp
         }
     }
 
-    // Fallback: trait-based dispatch (for Float16, Bool, DateTime64, and Isnan/Isinf/Isfinite/Signbit)
+    // Fallback: trait-based dispatch (for Float16, Bool, and Isnan/Isinf/Isfinite/Signbit)
     let mut result = RumpyArray::zeros(arr.shape().to_vec(), dtype.clone());
     let size = arr.size();
     if size == 0 {
@@ -201,6 +207,11 @@ pub fn map_binary_op_inplace(
         return Err(BinaryOpError::UnsupportedDtype);
     }
 
+    // Dates and durations
+    if is_time(&a.dtype()) || is_time(&b.dtype()) {
+        return time_binary_op(a, b, op);
+    }
+
     // Handle division type promotion
     if op == BinaryOp::Div {
         let is_int_or_bool = |kind: DTypeKind| kind == DTypeKind::Bool || is_integer_kind(&kind);
@@ -232,58 +243,6 @@ pub fn map_binary_op_inplace(
     let a_bc = a.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
     let b_bc = b.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
 
-    // Fast dispatch for datetime/timedelta operations
-    let a_is_datetime = matches!(a_bc.dtype().kind(), DTypeKind::DateTime64(_));
-    let b_is_datetime = matches!(b_bc.dtype().kind(), DTypeKind::DateTime64(_));
-    let a_is_timedelta = matches!(a_bc.dtype().kind(), DTypeKind::TimeDelta64(_));
-    let b_is_timedelta = matches!(b_bc.dtype().kind(), DTypeKind::TimeDelta64(_));
-
-    if a_is_datetime || b_is_datetime || a_is_timedelta || b_is_timedelta {
-        use crate::ops::dispatch;
-
-        match op {
-            // datetime + datetime is invalid
-            BinaryOp::Add if a_is_datetime && b_is_datetime => {
-                return Err(BinaryOpError::UnsupportedDtype);
-            }
-            // datetime + timedelta => datetime (fast path)
-            BinaryOp::Add if a_is_datetime && b_is_timedelta => {
-                if let Some(result) = dispatch::dispatch_datetime_add_timedelta(&a_bc, &b_bc, &out_shape) {
-                    return Ok(result);
-                }
-            }
-            // timedelta + datetime => datetime (fast path)
-            BinaryOp::Add if a_is_timedelta && b_is_datetime => {
-                if let Some(result) = dispatch::dispatch_timedelta_add_datetime(&a_bc, &b_bc, &out_shape) {
-                    return Ok(result);
-                }
-            }
-            // datetime - datetime => timedelta (fast path)
-            BinaryOp::Sub if a_is_datetime && b_is_datetime => {
-                if let (DTypeKind::DateTime64(unit_a), DTypeKind::DateTime64(unit_b)) = (a_bc.dtype().kind(), b_bc.dtype().kind()) {
-                    if unit_a == unit_b {
-                        let result_dtype = DType::timedelta64(unit_a);
-                        if let Some(result) = dispatch::dispatch_datetime_sub_datetime(&a_bc, &b_bc, &out_shape, result_dtype) {
-                            return Ok(result);
-                        }
-                    }
-                }
-            }
-            // datetime - timedelta => datetime (fast path)
-            BinaryOp::Sub if a_is_datetime && b_is_timedelta => {
-                if let Some(result) = dispatch::dispatch_datetime_sub_timedelta(&a_bc, &b_bc, &out_shape) {
-                    return Ok(result);
-                }
-            }
-            // Invalid operations for datetime
-            BinaryOp::Mul | BinaryOp::Div | BinaryOp::Pow | BinaryOp::Mod | BinaryOp::FloorDiv
-                if a_is_datetime || b_is_datetime => {
-                return Err(BinaryOpError::UnsupportedDtype);
-            }
-            _ => {}
-        }
-    }
-
     // Mixed numeric dtypes: compute in the promoted dtype (exact integer arithmetic)
     if a_bc.dtype() != b_bc.dtype() && is_numeric_kind(&a_bc.dtype().kind()) && is_numeric_kind(&b_bc.dtype().kind()) {
         let common = promote_dtype(&a_bc.dtype(), &b_bc.dtype());
@@ -360,7 +319,7 @@ pub fn map_binary_op_inplace(
 
     let mut indices = vec![0usize; out_shape.len()];
 
-    // Fallback: trait-based dispatch (for Float16, Bool, DateTime64, mixed-dtype operations)
+    // Fallback: trait-based dispatch (for Float16, Bool, mixed-dtype operations)
     let same_dtype = a_bc.dtype() == b_bc.dtype() && a_bc.dtype() == result.dtype();
 
     if same_dtype {
diff --git a/src/python/datetime.rs b/src/python/datetime.rs
index c9bab52..dedb5b2 100644
--- a/src/python/datetime.rs
+++ b/src/python/datetime.rs
@@ -167,19 +167,19 @@ impl BusDayCalendar {
 
 /// Parse weekmask string like "Mon Tue Wed Thu Fri" or "1111100".
 fn parse_weekmask(mask: &str) -> PyResult<[bool; 7]> {
-    let mask_lower = mask.to_lowercase();
-
-    // Check for day name format
-    if mask_lower.contains("mon") || mask_lower.contains("tue") {
-        let mut result = [false; 7];
-        if mask_lower.contains("mon") { result[0] = true; }
-        if mask_lower.contains("tue") { result[1] = true; }
-        if mask_lower.contains("wed") { result[2] = true; }
-        if mask_lower.contains("thu") { result[3] = true; }
-        if mask_lower.contains("fri") { result[4] = true; }
-        if mask_lower.contains("sat") { result[5] = true; }
-        if mask_lower.contains("sun") { result[6] = true; }
-        return Ok(result);
+    // Day names, with or without spaces between them
+    const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
+    let letters: Vec<char> = mask.chars().filter(|c| !c.is_whitespace()).collect();
+    if !letters.is_empty() && letters.len() % 3 == 0 && letters.iter().all(|c| c.is_alphabetic()) {
+        let names: Vec<String> = letters.chunks(3).map(|name| name.iter().collect()).collect();
+        let index = |name: &String| DAYS.iter().position(|day| day.eq_ignore_ascii_case(name));
+        if names.iter().all(|name| index(name).is_some()) {
+            let mut result = [false; 7];
+            for name in &names {
+                if let Some(day) = index(name) { result[day] = true; }
+            }
+            return Ok(result);
+        }
     }
 
     // Check for binary format "1111100"
@@ -189,6 +189,9 @@ fn parse_weekmask(mask: &str) -> PyResult<[bool; 7]> {
         for (i, c) in clean.chars().enumerate() {
             result[i] = c == '1';
         }
+        if !result.contains(&true) {
+            return Err(pyo3::exceptions::PyValueError::new_err("weekmask has no business day"));
+        }
         return Ok(result);
     }
 
@@ -225,7 +228,13 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
 
     // Handle rumpy array
     if let Ok(arr) = dates.extract::<PyRef<'_, PyRumpyArray>>() {
-        let inner = &arr.inner;
+        // Dates in whole days or coarser units
+        let inner = match arr.inner.dtype().kind() {
+            DTypeKind::DateTime64(TimeUnit::Years | TimeUnit::Months | TimeUnit::Weeks | TimeUnit::Days) => {
+                arr.inner.astype(DType::datetime64_d())
+            }
+            _ => return Err(pyo3::exceptions::PyTypeError::new_err("is_busday requires a datetime64[D] array")),
+        };
         let mut result = RumpyArray::zeros(inner.shape().to_vec(), DType::bool());
         let src_ptr = inner.data_ptr() as *const i64;
         let dst_ptr = std::sync::Arc::get_mut(result.buffer_mut()).unwrap().as_mut_ptr() as *mut u8;
@@ -272,13 +281,14 @@ pub fn busday_offset(py: Python<'_>, dates: &Bound<'_, PyAny>, offsets: &Bound<'
     // Parse offsets
     let is_scalar_offset = offsets.extract::<i64>().is_ok();
     let offsets_vec: Vec<i64> = if let Ok(n) = offsets.extract::<i64>() {
-        vec![n; dates_vec.len()]
+        vec![n]
     } else if let Ok(list) = offsets.downcast::<PyList>() {
         list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<_>>()?
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err("offsets must be int or list"));
     };
 
+    let (dates_vec, offsets_vec) = broadcast_pair(dates_vec, offsets_vec)?;
     let result: Vec<i64> = dates_vec.iter().zip(offsets_vec.iter())
         .map(|(&date, &offset)| busday_offset_single(date, offset, cal))
         .collect();
@@ -294,6 +304,18 @@ pub fn busday_offset(py: Python<'_>, dates: &Bound<'_, PyAny>, offsets: &Bound<'
         .into_pyobject(py)?.into_any().unbind())
 }
 
+/// Stretch a list of one item to the length of the other.
+fn broadcast_pair(a: Vec<i64>, b: Vec<i64>) -> PyResult<(Vec<i64>, Vec<i64>)> {
+    match (a.len(), b.len()) {
+        (n, m) if n == m => Ok((a, b)),
+        (1, m) => Ok((vec![a[0]; m], b)),
+        (n, 1) => { let b = vec![b[0]; n]; Ok((a, b)) }
+        (n, m) => Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "lists of {} and {} items do not match", n, m
+        ))),
+    }
+}
+
 /// Offset a single date by business days.
 fn busday_offset_single(date: i64, offset: i64, cal: &BusDayCalendar) -> i64 {
     if date == NAT {
@@ -327,6 +349,10 @@ pub fn busday_count(py: Python<'_>, begindates: &Bound<'_, PyAny>, enddates: &Bo
     let begin_vec = parse_dates_input(begindates)?;
     let end_vec = parse_dates_input(enddates)?;
 
+    let (begin_vec, end_vec) = broadcast_pair(begin_vec, end_vec)?;
+    if begin_vec.contains(&NAT) || end_vec.contains(&NAT) {
+        return Err(pyo3::exceptions::PyValueError::new_err("cannot count business days from or to NaT"));
+    }
     let result: Vec<i64> = begin_vec.iter().zip(end_vec.iter())
         .map(|(&begin, &end)| busday_count_single(begin, end, cal))
         .collect();
@@ -340,14 +366,10 @@ pub fn busday_count(py: Python<'_>, begindates: &Bound<'_, PyAny>, enddates: &Bo
         .into_pyobject(py)?.into_any().unbind())
 }
 
-/// Count business days between two dates (exclusive of end date).
+/// Count business days between two dates (exclusive of end date), negative if end comes first.
 fn busday_count_single(begin: i64, end: i64, cal: &BusDayCalendar) -> i64 {
-    if begin == NAT || end == NAT {
-        return 0;
-    }
-
-    if begin >= end {
-        return 0;
+    if begin > end {
+        return -busday_count_single(end + 1, begin + 1, cal);
     }
 
     let mut count = 0i64;
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index e90da3d..c125d4f 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -7,13 +7,13 @@ use super::{
     ReductionResult,
 };
 use crate::array::{DType, RumpyArray};
-use crate::python::reductions::refuse_text;
+use crate::python::reductions::check_reducible;
 
 #[pymethods]
 impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn sum(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        refuse_text(&self.inner, "sum")?;
+        check_reducible(&self.inner, "sum")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::sum, RumpyArray::sum_axis)),
             Some(ax) => {
@@ -30,7 +30,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn prod(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        refuse_text(&self.inner, "prod")?;
+        check_reducible(&self.inner, "prod")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::prod, RumpyArray::prod_axis)),
             Some(ax) => {
@@ -47,7 +47,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn max(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        refuse_text(&self.inner, "max")?;
+        check_reducible(&self.inner, "max")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::max, RumpyArray::max_axis)),
             Some(ax) => {
@@ -64,7 +64,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn min(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        refuse_text(&self.inner, "min")?;
+        check_reducible(&self.inner, "min")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::min, RumpyArray::min_axis)),
             Some(ax) => {
@@ -81,7 +81,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn mean(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        refuse_text(&self.inner, "mean")?;
+        check_reducible(&self.inner, "mean")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::mean, RumpyArray::mean_axis)),
             Some(ax) => {
@@ -98,7 +98,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn var(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        refuse_text(&self.inner, "var")?;
+        check_reducible(&self.inner, "var")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::var, RumpyArray::var_axis)),
             Some(ax) => {
@@ -115,7 +115,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn std(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        refuse_text(&self.inner, "std")?;
+        check_reducible(&self.inner, "std")?;
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::std, RumpyArray::std_axis)),
             Some(ax) => {
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 72e4c9e..46ebb29 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -485,7 +485,7 @@ impl PyRumpyArray {
     /// Cumulative sum along axis (or flattened if axis is None).
     #[pyo3(signature = (axis=None))]
     fn cumsum(&self, axis: Option<usize>) -> PyResult<Self> {
-        crate::python::reductions::refuse_text(&self.inner, "cumsum")?;
+        crate::python::reductions::check_reducible(&self.inner, "cumsum")?;
         if let Some(ax) = axis {
             if ax >= self.inner.ndim() {
                 return Err(pyo3::exceptions::PyValueError::new_err(format!(
@@ -500,7 +500,7 @@ impl PyRumpyArray {
     /// Cumulative product along axis (or flattened if axis is None).
     #[pyo3(signature = (axis=None))]
     fn cumprod(&self, axis: Option<usize>) -> PyResult<Self> {
-        crate::python::reductions::refuse_text(&self.inner, "cumprod")?;
+        crate::python::reductions::check_reducible(&self.inner, "cumprod")?;
         if let Some(ax) = axis {
             if ax >= self.inner.ndim() {
                 return Err(pyo3::exceptions::PyValueError::new_err(format!(
@@ -1158,6 +1158,14 @@ pub(crate) fn scalar_operand(x: &Bound<'_, PyAny>, dtype: &DType) -> Option<Rump
     let is_complex = matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128);
     let is_float = matches!(kind, DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64);
     let is_integer = crate::ops::ufunc::is_integer_kind(&kind);
+    if crate::ops::datetime::is_time(dtype) {
+        // Numbers next to dates and durations keep their own kind
+        return if let Ok(value) = x.extract::<i64>() {
+            Some(RumpyArray::from_vec_i64_with_shape(vec![value], vec![], DType::int64()))
+        } else {
+            Some(RumpyArray::full(vec![], x.extract::<f64>().ok()?, DType::float64()))
+        };
+    }
     if !(is_complex || is_float || is_integer || kind == DTypeKind::Bool) {
         return None;
     }
@@ -1199,6 +1207,15 @@ pub(crate) fn comparison_operand(x: &Bound<'_, PyAny>, dtype: &DType) -> Option<
         let value = x.extract::<f64>().ok()?;
         return Some(RumpyArray::full(vec![], value, DType::float64()));
     }
+    if crate::ops::datetime::is_time(dtype) {
+        // An integer next to durations is one of the same unit
+        return match (dtype.kind(), x.extract::<i64>()) {
+            (crate::array::DTypeKind::TimeDelta64(_), Ok(value)) => {
+                Some(RumpyArray::from_vec_i64_with_shape(vec![value], vec![], dtype.clone()))
+            }
+            _ => None,
+        };
+    }
     scalar_operand(x, dtype)
 }
 
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 79886d0..a401672 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -38,12 +38,19 @@ pub fn check_axis_isize(axis: isize, ndim: usize) -> PyResult<usize> {
     Ok(resolve_axis(axis, ndim))
 }
 
-/// Refuse text (str and bytes), which has no arithmetic.
-pub fn refuse_text(arr: &RumpyArray, name: &str) -> PyResult<()> {
+/// Refuse a reduction that has no meaning for text (str and bytes), dates or durations.
+pub fn check_reducible(arr: &RumpyArray, name: &str) -> PyResult<()> {
     use crate::array::dtype::DTypeKind;
-    if matches!(arr.dtype().kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_)) {
+    let refused = match arr.dtype().kind() {
+        DTypeKind::Str(_) | DTypeKind::Bytes(_) => true,
+        // Dates can only be ordered; durations can be added as well
+        DTypeKind::DateTime64(_) => !matches!(name, "max" | "min" | "amax" | "amin" | "nanmax" | "nanmin" | "ptp"),
+        DTypeKind::TimeDelta64(_) => name.contains("prod") || name.contains("var") || name.contains("std"),
+        _ => false,
+    };
+    if refused {
         return Err(pyo3::exceptions::PyTypeError::new_err(format!(
-            "{} is not supported for text arrays", name
+            "{} is not supported for dtype {}", name, arr.dtype().ops().name()
         )));
     }
     Ok(())
@@ -122,7 +129,7 @@ where
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "sum")?;
+    check_reducible(&x.inner, "sum")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::full_reduction(&x.inner, false, RumpyArray::sum, RumpyArray::sum_axis)),
@@ -140,7 +147,7 @@ pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "prod")?;
+    check_reducible(&x.inner, "prod")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::full_reduction(&x.inner, false, RumpyArray::prod, RumpyArray::prod_axis)),
@@ -158,7 +165,7 @@ pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "mean")?;
+    check_reducible(&x.inner, "mean")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::full_reduction(&x.inner, false, RumpyArray::mean, RumpyArray::mean_axis)),
@@ -176,7 +183,7 @@ pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn var(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "var")?;
+    check_reducible(&x.inner, "var")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.var())),
@@ -194,7 +201,7 @@ pub fn var(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(name = "std", signature = (x, axis=None))]
 pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "std")?;
+    check_reducible(&x.inner, "std")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.std())),
@@ -212,7 +219,7 @@ pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "max")?;
+    check_reducible(&x.inner, "max")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.max())),
@@ -230,7 +237,7 @@ pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "min")?;
+    check_reducible(&x.inner, "min")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.min())),
@@ -286,7 +293,7 @@ pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "nansum")?;
+    check_reducible(&x.inner, "nansum")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nansum())),
@@ -304,7 +311,7 @@ pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "nanprod")?;
+    check_reducible(&x.inner, "nanprod")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanprod())),
@@ -322,7 +329,7 @@ pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "nanmean")?;
+    check_reducible(&x.inner, "nanmean")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmean())),
@@ -340,7 +347,7 @@ pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "nanvar")?;
+    check_reducible(&x.inner, "nanvar")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanvar())),
@@ -358,7 +365,7 @@ pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "nanstd")?;
+    check_reducible(&x.inner, "nanstd")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanstd())),
@@ -376,7 +383,7 @@ pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "nanmin")?;
+    check_reducible(&x.inner, "nanmin")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmin())),
@@ -394,7 +401,7 @@ pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "nanmax")?;
+    check_reducible(&x.inner, "nanmax")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmax())),
@@ -496,7 +503,7 @@ pub fn any(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn cumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
-    refuse_text(&x.inner, "cumsum")?;
+    check_reducible(&x.inner, "cumsum")?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
@@ -508,7 +515,7 @@ pub fn cumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn cumprod(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
-    refuse_text(&x.inner, "cumprod")?;
+    check_reducible(&x.inner, "cumprod")?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
@@ -542,7 +549,7 @@ pub fn cumulative_prod(x: &PyRumpyArray, axis: isize, include_initial: bool) ->
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn median(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "median")?;
+    check_reducible(&x.inner, "median")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.median())),
@@ -584,7 +591,7 @@ pub fn average(
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn ptp(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "ptp")?;
+    check_reducible(&x.inner, "ptp")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.ptp())),
@@ -837,7 +844,7 @@ pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyRumpyArray {
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn amax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "amax")?;
+    check_reducible(&x.inner, "amax")?;
     max(x, axis)
 }
 
@@ -845,7 +852,7 @@ pub fn amax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn amin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "amin")?;
+    check_reducible(&x.inner, "amin")?;
     min(x, axis)
 }
 
@@ -857,7 +864,7 @@ pub fn amin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    refuse_text(&x.inner, "nanmedian")?;
+    check_reducible(&x.inner, "nanmedian")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmedian())),
@@ -928,7 +935,7 @@ pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opt
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nancumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
-    refuse_text(&x.inner, "nancumsum")?;
+    check_reducible(&x.inner, "nancumsum")?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
@@ -940,7 +947,7 @@ pub fn nancumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nancumprod(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
-    refuse_text(&x.inner, "nancumprod")?;
+    check_reducible(&x.inner, "nancumprod")?;
     let normalized_axis = axis.map(|ax| {
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
-- 
2.43.0


From 9d18feb00c48a48ced0031e149e9e194395e3fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 34/51] fix: functional: typed elements and results, result
 axes in place, tuple outputs, any signature; small integers in emath

---
 src/python/emath.rs       |   3 +-
 src/python/functional.rs  | 382 +++++++++++++++++++-------------------
 src/python/indexing.rs    |  20 +-
 src/python/pyarray/mod.rs |   2 +-
 4 files changed, 202 insertions(+), 205 deletions(-)

diff --git a/src/python/emath.rs b/src/python/emath.rs
index 92d8f41..9b22273 100644
--- a/src/python/emath.rs
+++ b/src/python/emath.rs
@@ -17,7 +17,8 @@ fn get_complex_dtype(dtype: &DType) -> DType {
         DTypeKind::Complex64 => DType::complex64(),
         DTypeKind::Complex128 => DType::complex128(),
         DTypeKind::Float32 => DType::complex64(),
-        _ => DType::complex128(), // float64, int, etc.
+        DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Uint8 | DTypeKind::Uint16 => DType::complex64(),
+        _ => DType::complex128(), // float64, larger ints, etc.
     }
 }
 
diff --git a/src/python/functional.rs b/src/python/functional.rs
index 5941cc5..ea0e0e5 100644
--- a/src/python/functional.rs
+++ b/src/python/functional.rs
@@ -1,9 +1,12 @@
 // Python bindings for functional programming operations.
 // apply_along_axis, apply_over_axes, vectorize, frompyfunc
 
+use std::collections::HashMap;
+
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyList, PyTuple};
 
+use crate::array::dtype::DTypeKind;
 use crate::array::{increment_indices, DType, RumpyArray};
 use super::{PyRumpyArray, creation, parse_dtype};
 
@@ -50,7 +53,6 @@ pub fn apply_along_axis(
     }
 
     let shape = arr.shape();
-    let axis_len = shape[axis];
 
     // Build output shape (all dims except axis)
     let out_shape: Vec<usize> = shape.iter().enumerate()
@@ -66,16 +68,14 @@ pub fn apply_along_axis(
     }
 
     // Extract 1D slices and apply function
+    let order: Vec<usize> = (0..ndim).filter(|&i| i != axis).chain([axis]).collect();
+    let outer_first = arr.transpose_axes(&order);
     let mut results: Vec<PyObject> = Vec::with_capacity(out_size);
     let mut out_indices = vec![0usize; out_shape.len()];
 
     for _ in 0..out_size {
-        // Extract 1D slice along axis using efficient stride-based access
-        let slice_data = arr.get_slice_along_axis(axis, &out_indices);
-
-        // Create rumpy array from slice
-        let slice_arr = RumpyArray::from_vec(slice_data, arr.dtype());
-        let py_slice = PyRumpyArray::new(slice_arr);
+        // A copy, so that the function may write to its argument
+        let py_slice = PyRumpyArray::new(inner_view(&outer_first, &out_indices).copy());
 
         // Build args tuple: (slice, *args)
         let call_args = if args.is_empty() {
@@ -95,67 +95,101 @@ pub fn apply_along_axis(
         increment_indices(&mut out_indices, &out_shape);
     }
 
-    // Check first result to determine output shape
-    let first = results[0].bind(py);
-
-    // If result is scalar, output shape is out_shape
-    // If result is array, output shape is out_shape + result_shape
-    if let Ok(scalar) = first.extract::<f64>() {
-        // Scalar output - build array from scalars
-        let mut out_data: Vec<f64> = Vec::with_capacity(out_size);
-        out_data.push(scalar);
-        for r in results.iter().skip(1) {
-            out_data.push(r.bind(py).extract::<f64>()?);
+    // The dimensions of the results take the place of the axis
+    let out = assemble(py, &results, &out_shape, None)?;
+    let (outer, ndim) = (out_shape.len(), out.ndim());
+    let order: Vec<usize> = (0..axis).chain(outer..ndim).chain(axis..outer).collect();
+    Ok(PyRumpyArray::new(out.transpose_axes(&order)))
+}
+
+/// Collect the results of calls as one array of shape `outer` + the shape of a result.
+/// The dtype is that of the first result unless given, as in NumPy.
+fn assemble(py: Python<'_>, results: &[PyObject], outer: &[usize], dtype: Option<DType>) -> PyResult<RumpyArray> {
+    let items = results.iter()
+        .map(|r| result_array(py, r.bind(py)))
+        .collect::<PyResult<Vec<RumpyArray>>>()?;
+    let item_shape = items.first().map(|a| a.shape().to_vec()).unwrap_or_default();
+    let dtype = dtype.or_else(|| result_dtype(&items)).unwrap_or_else(DType::float64);
+
+    let mut shape = outer.to_vec();
+    shape.extend(&item_shape);
+    let mut out = RumpyArray::zeros(shape, dtype.clone());
+    let itemsize = dtype.itemsize();
+    let step = item_shape.iter().product::<usize>() * itemsize;
+    let dst = out.data_ptr_mut();
+    for (i, item) in items.iter().enumerate() {
+        if holds_text(&item.dtype()) != holds_text(&dtype) {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "results are neither all text nor all numbers"
+            ));
         }
-        let out = RumpyArray::from_vec(out_data, arr.dtype());
-        let out = out.reshape(out_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
+        let item = item.astype(dtype.clone());
+        let item = item.broadcast_to(&item_shape).ok_or_else(||
+            pyo3::exceptions::PyValueError::new_err("results of different shapes")
         )?;
-        Ok(PyRumpyArray::new(out))
-    } else if let Ok(arr_result) = first.extract::<PyRef<'_, PyRumpyArray>>() {
-        // Rumpy array output
-        let result_shape = arr_result.inner.shape().to_vec();
-        let result_size: usize = result_shape.iter().product();
-
-        // Final shape is out_shape + result_shape
-        let mut final_shape = out_shape.clone();
-        final_shape.extend(&result_shape);
-
-        let mut out_data: Vec<f64> = Vec::with_capacity(out_size * result_size);
-        for r in results.iter() {
-            let arr_r: PyRef<'_, PyRumpyArray> = r.bind(py).extract()?;
-            out_data.extend(arr_r.inner.to_vec());
+        let src = item.data_ptr();
+        for (j, offset) in item.iter_offsets().enumerate() {
+            unsafe { std::ptr::copy_nonoverlapping(src.offset(offset), dst.add(i * step + j * itemsize), itemsize); }
         }
+    }
+    Ok(out)
+}
 
-        let out = RumpyArray::from_vec(out_data, arr.dtype());
-        let out = out.reshape(final_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out))
-    } else {
-        // Try to convert through asarray (handles numpy arrays, lists, etc.)
-        let first_arr = creation::asarray(py, &first, None)?;
-        let result_shape = first_arr.inner.shape().to_vec();
-        let result_size: usize = result_shape.iter().product();
+/// What a call returned, as an array (0-d for a scalar).
+fn result_array(py: Python<'_>, result: &Bound<'_, PyAny>) -> PyResult<RumpyArray> {
+    let is_text = result.is_instance_of::<pyo3::types::PyString>() || result.is_instance_of::<pyo3::types::PyBytes>();
+    if !is_text && (result.hasattr("__array_interface__")? || result.try_iter().is_ok()) {
+        return Ok(creation::asarray(py, result, None)?.inner);
+    }
+    let list = PyList::new(py, [result])?;
+    Ok(creation::from_list(&list, None)?.inner.view_with(0, vec![], vec![]))
+}
 
-        // Final shape is out_shape + result_shape
-        let mut final_shape = out_shape.clone();
-        final_shape.extend(&result_shape);
+fn holds_text(dtype: &DType) -> bool {
+    matches!(dtype.kind(), DTypeKind::Str(_) | DTypeKind::Bytes(_))
+}
 
-        let mut out_data: Vec<f64> = Vec::with_capacity(out_size * result_size);
-        out_data.extend(first_arr.inner.to_vec());
+/// The dtype of the first result; text is as wide as the longest one.
+fn result_dtype(items: &[RumpyArray]) -> Option<DType> {
+    let first = items.first()?.dtype();
+    if !holds_text(&first) {
+        return Some(first);
+    }
+    items.iter().map(|a| a.dtype())
+        .filter(|d| std::mem::discriminant(&d.kind()) == std::mem::discriminant(&first.kind()))
+        .max_by_key(|d| d.itemsize())
+}
 
-        for r in results.iter().skip(1) {
-            let arr_r = creation::asarray(py, r.bind(py), None)?;
-            out_data.extend(arr_r.inner.to_vec());
+/// Several outputs per call, as one array each.
+fn assemble_tuple(
+    py: Python<'_>,
+    results: &[PyObject],
+    outer: &[usize],
+    otypes: Option<&[DType]>,
+) -> PyResult<PyObject> {
+    let count = match results.first().map(|r| r.bind(py).downcast::<PyTuple>().map(|t| t.len())) {
+        Some(Ok(count)) => count,
+        _ => {
+            let dtype = otypes.and_then(|d| d.first().cloned());
+            let out = assemble(py, results, outer, dtype)?;
+            return Ok(PyRumpyArray::new(out).into_pyobject(py)?.unbind().into_any());
         }
-
-        let out = RumpyArray::from_vec(out_data, arr.dtype());
-        let out = out.reshape(final_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out))
+    };
+    let mut outputs = Vec::with_capacity(count);
+    for k in 0..count {
+        let column = results.iter()
+            .map(|r| Ok(r.bind(py).downcast::<PyTuple>()?.get_item(k)?.unbind()))
+            .collect::<PyResult<Vec<_>>>()?;
+        let out = assemble(py, &column, outer, otypes.and_then(|d| d.get(k).cloned()))?;
+        outputs.push(PyRumpyArray::new(out).into_pyobject(py)?.into_any());
     }
+    Ok(PyTuple::new(py, outputs)?.into_any().unbind())
+}
+
+/// A view of the elements of `arr` at fixed indices of its first axes.
+fn inner_view(arr: &RumpyArray, indices: &[usize]) -> RumpyArray {
+    let offset = indices.iter().zip(arr.strides()).map(|(&i, &s)| i as isize * s).sum();
+    arr.view_with(offset, arr.shape()[indices.len()..].to_vec(), arr.strides()[indices.len()..].to_vec())
 }
 
 /// Apply a function repeatedly over multiple axes.
@@ -267,9 +301,13 @@ impl PyVectorize {
         signature: Option<String>,
     ) -> PyResult<Self> {
         let otypes = if let Some(otypes_obj) = otypes {
-            if let Ok(list) = otypes_obj.downcast::<PyList>() {
+            if let Ok(codes) = otypes_obj.extract::<String>() {
+                // A string of type codes, one per output
+                Some(codes.chars().map(type_code).collect::<PyResult<Vec<_>>>()?)
+            } else if otypes_obj.is_instance_of::<PyList>() || otypes_obj.is_instance_of::<PyTuple>() {
                 let mut dtypes = Vec::new();
-                for item in list.iter() {
+                for item in otypes_obj.try_iter()? {
+                    let item = item?;
                     let dtype_str = if let Ok(s) = item.extract::<String>() {
                         s
                     } else {
@@ -280,7 +318,7 @@ impl PyVectorize {
                 }
                 Some(dtypes)
             } else {
-                None
+                return Err(pyo3::exceptions::PyTypeError::new_err("otypes must be a string or a list of dtypes"));
             }
         } else {
             None
@@ -372,8 +410,7 @@ impl PyVectorize {
                     scalar_idx += 1;
                 } else if arr_idx < broadcasted.len() {
                     // Get element from broadcasted array
-                    let val = broadcasted[arr_idx].get_element(&indices);
-                    call_args.push(val.into_pyobject(py)?.unbind().into_any());
+                    call_args.push(inner_view(&broadcasted[arr_idx], &indices).to_pylist(py)?);
                     arr_idx += 1;
                 }
             }
@@ -383,24 +420,7 @@ impl PyVectorize {
             results.push(result.unbind());
         }
 
-        // Build output array
-        let dtype = if let Some(ref otypes) = self.otypes {
-            otypes[0].clone()
-        } else {
-            // Infer from first result
-            DType::float64()
-        };
-
-        let mut out_data: Vec<f64> = Vec::with_capacity(size);
-        for r in results {
-            out_data.push(r.bind(py).extract::<f64>()?);
-        }
-
-        let out = RumpyArray::from_vec(out_data, dtype);
-        let out = out.reshape(broadcast_shape).ok_or_else(||
-            pyo3::exceptions::PyValueError::new_err("reshape failed")
-        )?;
-        Ok(PyRumpyArray::new(out).into_pyobject(py)?.unbind().into_any())
+        assemble_tuple(py, &results, &broadcast_shape, self.otypes.as_deref())
     }
 }
 
@@ -411,110 +431,105 @@ impl PyVectorize {
         args: &Bound<'_, PyTuple>,
         kwargs: Option<&Bound<'_, PyDict>>,
     ) -> PyResult<PyObject> {
-        // Parse signature like "(n),(n)->()"
-        let sig = self.signature.as_ref().unwrap();
-        let parts: Vec<&str> = sig.split("->").collect();
-        if parts.len() != 2 {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "Invalid signature format"
-            ));
+        // Parse signature like "(m,n),(n)->(m)"
+        let invalid = || pyo3::exceptions::PyValueError::new_err("Invalid signature format");
+        let sig = self.signature.as_deref().unwrap_or_default();
+        let (inputs, outputs) = sig.split_once("->").ok_or_else(invalid)?;
+        let inputs = parse_core_dims(inputs).ok_or_else(invalid)?;
+        parse_core_dims(outputs).ok_or_else(invalid)?;
+
+        let arrays = args.iter()
+            .map(|arg| result_array(py, &arg))
+            .collect::<PyResult<Vec<RumpyArray>>>()?;
+        if arrays.len() != inputs.len() {
+            return Err(pyo3::exceptions::PyTypeError::new_err(format!(
+                "the signature has {} arguments, got {}", inputs.len(), arrays.len()
+            )));
         }
 
-        let input_sig = parts[0].trim();
-        let output_sig = parts[1].trim();
-
-        // Parse input dimensions
-        let input_dims: Vec<&str> = input_sig
-            .split(',')
-            .map(|s| s.trim().trim_matches(|c| c == '(' || c == ')'))
-            .collect();
+        // A name stands for one length in every argument
+        let mut lengths: HashMap<&str, usize> = HashMap::new();
+        let mut loop_shapes = Vec::with_capacity(arrays.len());
+        for (arr, core) in arrays.iter().zip(&inputs) {
+            let Some(outer) = arr.ndim().checked_sub(core.len()) else {
+                return Err(pyo3::exceptions::PyValueError::new_err("an argument has fewer dimensions than its signature"));
+            };
+            for (&name, &length) in core.iter().zip(&arr.shape()[outer..]) {
+                if *lengths.entry(name).or_insert(length) != length {
+                    return Err(pyo3::exceptions::PyValueError::new_err(format!(
+                        "inconsistent size for core dimension {}", name
+                    )));
+                }
+            }
+            loop_shapes.push(arr.shape()[..outer].to_vec());
+        }
+        let loop_shape = broadcast_shapes(&loop_shapes)?;
+        let broadcasted = arrays.iter().zip(&loop_shapes)
+            .map(|(arr, outer)| {
+                let mut shape = loop_shape.clone();
+                shape.extend(&arr.shape()[outer.len()..]);
+                arr.broadcast_to(&shape)
+            })
+            .collect::<Option<Vec<_>>>()
+            .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("broadcast failed"))?;
 
-        // For now, support simple case: "(n),(n)->()" meaning inner product
-        if output_sig == "()" {
-            // Output is scalar per outer iteration
-            let arrays: Vec<PyRumpyArray> = args
-                .iter()
-                .map(|arg| {
-                    if let Ok(arr) = arg.extract::<PyRef<'_, PyRumpyArray>>() {
-                        Ok(PyRumpyArray::new(arr.inner.clone()))
+        let size: usize = loop_shape.iter().product();
+        let mut results: Vec<PyObject> = Vec::with_capacity(size);
+        for i in 0..size {
+            let indices = flat_to_indices(i, &loop_shape);
+            let call_args = broadcasted.iter().zip(&inputs)
+                .map(|(arr, core)| {
+                    let view = inner_view(arr, &indices);
+                    if core.is_empty() {
+                        view.to_pylist(py)
                     } else {
-                        creation::asarray(py, &arg, None)
+                        Ok(PyRumpyArray::new(view.copy()).into_pyobject(py)?.unbind().into_any())
                     }
                 })
                 .collect::<PyResult<Vec<_>>>()?;
+            let result = self.pyfunc.bind(py).call(&PyTuple::new(py, call_args)?, kwargs)?;
+            results.push(result.unbind());
+        }
 
-            if arrays.is_empty() {
-                return self.pyfunc.bind(py).call(&args, kwargs).map(|r| r.unbind());
-            }
-
-            // Assume core dimensions are the last dimension
-            let core_len = if !input_dims.is_empty() && !input_dims[0].is_empty() {
-                arrays[0].inner.shape().last().copied().unwrap_or(1)
-            } else {
-                1
-            };
-
-            // Output shape is shape without core dimensions
-            let out_shape: Vec<usize> = if arrays[0].inner.ndim() > 1 {
-                arrays[0].inner.shape()[..arrays[0].inner.ndim() - 1].to_vec()
-            } else {
-                vec![]
-            };
-
-            let out_size: usize = out_shape.iter().product::<usize>().max(1);
-
-            let mut results: Vec<f64> = Vec::with_capacity(out_size);
-
-            for i in 0..out_size {
-                // Extract 1D slices for each array along last axis (core dimension)
-                let mut call_args: Vec<Bound<'_, PyAny>> = Vec::with_capacity(arrays.len());
-
-                // Indices for all dims except last (the core dimension)
-                let other_indices = if out_shape.is_empty() {
-                    vec![]
-                } else {
-                    flat_to_indices(i, &out_shape)
-                };
-
-                for arr in &arrays {
-                    let last_axis = arr.inner.ndim().saturating_sub(1);
-                    let slice_data = if other_indices.is_empty() {
-                        // 1D array - just convert to vec
-                        arr.inner.to_vec()
-                    } else {
-                        arr.inner.get_slice_along_axis(last_axis, &other_indices)
-                    };
-                    let slice_arr = RumpyArray::from_vec(slice_data, arr.inner.dtype());
-                    call_args.push(PyRumpyArray::new(slice_arr).into_pyobject(py)?.into_any());
-                }
-
-                let call_tuple = PyTuple::new(py, call_args)?;
-                let result = self.pyfunc.bind(py).call(&call_tuple, kwargs)?;
-                results.push(result.extract::<f64>()?);
-            }
+        // A single scalar stays a scalar
+        if loop_shape.is_empty() && self.otypes.is_none() && results[0].bind(py).extract::<f64>().is_ok() {
+            return Ok(results.swap_remove(0));
+        }
+        assemble_tuple(py, &results, &loop_shape, self.otypes.as_deref())
+    }
+}
 
-            let dtype = if let Some(ref otypes) = self.otypes {
-                otypes[0].clone()
-            } else {
-                DType::float64()
-            };
+/// The dtype of a one-letter type code.
+fn type_code(code: char) -> PyResult<DType> {
+    parse_dtype(match code {
+        '?' => "bool",
+        'b' => "int8", 'h' => "int16", 'i' => "int32", 'l' | 'q' => "int64",
+        'B' => "uint8", 'H' => "uint16", 'I' => "uint32", 'L' | 'Q' => "uint64",
+        'e' => "float16", 'f' => "float32", 'd' => "float64",
+        'F' => "complex64", 'D' => "complex128",
+        _ => return Err(pyo3::exceptions::PyValueError::new_err(format!("invalid otype code {}", code))),
+    })
+}
 
-            if !out_shape.is_empty() {
-                let out = RumpyArray::from_vec(results, dtype);
-                let out = out.reshape(out_shape).ok_or_else(||
-                    pyo3::exceptions::PyValueError::new_err("reshape failed")
-                )?;
-                Ok(PyRumpyArray::new(out).into_pyobject(py)?.unbind().into_any())
-            } else {
-                // Return scalar
-                let scalar = results[0];
-                Ok(scalar.into_pyobject(py)?.unbind().into_any())
-            }
+/// Names of the core dimensions of each argument in "(m,n),(n)".
+fn parse_core_dims(text: &str) -> Option<Vec<Vec<&str>>> {
+    let mut rest = text.trim();
+    let mut dims = Vec::new();
+    loop {
+        let (inside, after) = rest.strip_prefix('(')?.split_once(')')?;
+        let names: Vec<&str> = inside.split(',').map(str::trim).collect();
+        if names == [""] {
+            dims.push(vec![]);
+        } else if names.iter().all(|n| !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '_')) {
+            dims.push(names);
         } else {
-            Err(pyo3::exceptions::PyNotImplementedError::new_err(
-                "Only scalar output signatures are supported"
-            ))
+            return None;
+        }
+        rest = after.trim_start();
+        if rest.is_empty() {
+            return Some(dims);
         }
+        rest = rest.strip_prefix(',')?.trim_start();
     }
 }
 
@@ -607,8 +622,7 @@ impl PyFrompyfunc {
 
             for (j, maybe_arr) in broadcasted.iter().enumerate() {
                 if let Some(arr) = maybe_arr {
-                    let val = arr.get_element(&indices);
-                    call_args.push(val.into_pyobject(py)?.unbind().into_any());
+                    call_args.push(inner_view(arr, &indices).to_pylist(py)?);
                 } else {
                     // Use original scalar
                     call_args.push(args.get_item(j)?.unbind());
@@ -636,12 +650,8 @@ impl PyFrompyfunc {
             let out_list = PyList::new(py, all_results[0].iter().map(|r| r.bind(py)))?;
             let numpy = py.import("numpy")?;
             let np_arr = numpy.call_method1("array", (out_list,))?;
-            if broadcast_shape.len() > 1 {
-                let np_reshaped = np_arr.call_method1("reshape", (broadcast_shape.clone(),))?;
-                Ok(np_reshaped.unbind())
-            } else {
-                Ok(np_arr.unbind())
-            }
+            let shape = PyTuple::new(py, &broadcast_shape)?;
+            Ok(np_arr.call_method1("reshape", (shape,))?.unbind())
         } else {
             // Multiple outputs - return tuple of arrays
             let mut out_arrays: Vec<Bound<'_, PyAny>> = Vec::with_capacity(self.nout);
@@ -649,12 +659,8 @@ impl PyFrompyfunc {
                 let out_list = PyList::new(py, results.iter().map(|r| r.bind(py)))?;
                 let numpy = py.import("numpy")?;
                 let np_arr = numpy.call_method1("array", (out_list,))?;
-                if broadcast_shape.len() > 1 {
-                    let np_reshaped = np_arr.call_method1("reshape", (broadcast_shape.clone(),))?;
-                    out_arrays.push(np_reshaped);
-                } else {
-                    out_arrays.push(np_arr);
-                }
+                let shape = PyTuple::new(py, &broadcast_shape)?;
+                out_arrays.push(np_arr.call_method1("reshape", (shape,))?);
             }
             Ok(PyTuple::new(py, out_arrays)?.into_any().unbind())
         }
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index bd6d4c3..0d5fdba 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -879,23 +879,13 @@ impl NdEnumerate {
         slf
     }
 
-    fn __next__<'py>(mut slf: PyRefMut<'py, Self>) -> Option<(pyo3::PyObject, f64)> {
+    fn __next__(mut slf: PyRefMut<'_, Self>) -> PyResult<Option<(pyo3::PyObject, pyo3::PyObject)>> {
         if slf.flat_idx >= slf.size {
-            return None;
+            return Ok(None);
         }
 
         let indices = slf.indices.clone();
-        let ptr = slf.arr.data_ptr();
-        let dtype = slf.arr.dtype();
-        let ops = dtype.ops();
-
-        // Calculate offset from indices
-        let strides = slf.arr.strides();
-        let offset: isize = slf.indices.iter().zip(strides.iter())
-            .map(|(&i, &s)| (i as isize) * s)
-            .sum();
-
-        let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
+        let val = super::pyarray::scalar_at(slf.py(), &slf.arr, &indices)?;
 
         // Increment indices (clone shape to avoid borrow conflict)
         slf.flat_idx += 1;
@@ -904,9 +894,9 @@ impl NdEnumerate {
 
         // Convert indices to Python tuple
         let py = slf.py();
-        let tuple = pyo3::types::PyTuple::new(py, indices).ok()?.into();
+        let tuple = pyo3::types::PyTuple::new(py, indices)?.into();
 
-        Some((tuple, val))
+        Ok(Some((tuple, val)))
     }
 }
 
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 46ebb29..8c79658 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1498,6 +1498,6 @@ impl PyFlatIter {
 }
 
 /// The element at `indices` as a Python scalar of the array's own kind.
-fn scalar_at(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
+pub(crate) fn scalar_at(py: Python<'_>, arr: &RumpyArray, indices: &[usize]) -> PyResult<PyObject> {
     arr.view_with(arr.byte_offset_for(indices), vec![], vec![]).to_pylist(py)
 }
-- 
2.43.0


From 10515d94e9351abf404b3f45708ff7af235ad45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 35/51] fix: unary: complex rounding, sinc, inverse and
 hyperbolic functions; spacing of every float type; predicates of bool; refuse
 complex input of real functions

---
 src/array/dtype/bool.rs |   3 +
 src/ops/kernels/math.rs | 194 ++++++++++++++++++++--------------------
 src/ops/mod.rs          |  14 ++-
 src/ops/special.rs      |  99 +++++++++-----------
 src/python/ufuncs.rs    |  39 +++++---
 5 files changed, 183 insertions(+), 166 deletions(-)

diff --git a/src/array/dtype/bool.rs b/src/array/dtype/bool.rs
index 9e1f871..56c947d 100644
--- a/src/array/dtype/bool.rs
+++ b/src/array/dtype/bool.rs
@@ -43,6 +43,9 @@ impl DTypeOps for BoolOps {
         let result = match op {
             UnaryOp::Neg => !v,  // logical not for bool
             UnaryOp::Abs => v,
+            // A truth value is a finite, real and non-negative number
+            UnaryOp::Isfinite | UnaryOp::Isreal => true,
+            UnaryOp::Isnan | UnaryOp::Isinf | UnaryOp::Isneginf | UnaryOp::Isposinf | UnaryOp::Signbit | UnaryOp::Iscomplex => false,
             _ => v,  // transcendental ops make no sense for bool
         };
         Self::write(out, idx, result);
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 70f6c9b..885bb15 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -464,18 +464,99 @@ fn numpy_sqrt<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
     if re == F::zero() && im == F::zero() {
         return Complex::new(F::zero(), im); // Preserve signed zero
     }
-    let two = F::from(2.0).unwrap();
-    let mag = (re * re + im * im).sqrt();
-    let sqrt_r = ((mag + re) / two).sqrt();
-    let sqrt_i = ((mag - re) / two).sqrt();
-    // Sign of imaginary result matches sign of input imaginary (using is_sign_negative for -0.0)
-    if im.is_sign_negative() {
-        Complex::new(sqrt_r, -sqrt_i)
+    // Halving before hypot keeps large inputs finite; the part that would be a difference of
+    // nearly equal numbers is obtained by division instead.
+    let half = F::from(0.5).unwrap();
+    let mag = (re.abs() * half + (re * half).hypot(im * half)).sqrt();
+    let other = (im / mag) * half;
+    if re >= F::zero() {
+        Complex::new(mag, other)
     } else {
-        Complex::new(sqrt_r, sqrt_i)
+        Complex::new(other.abs(), if im.is_sign_negative() { -mag } else { mag })
     }
 }
 
+/// sqrt(1 - z) and sqrt(1 + z), keeping the sign of a zero imaginary part.
+#[inline]
+fn sqrt_one_minus_plus<F: Float + FloatConst>(z: Complex<F>) -> (Complex<F>, Complex<F>) {
+    let one = F::one();
+    (numpy_sqrt(Complex::new(one - z.re, -z.im)), numpy_sqrt(Complex::new(one + z.re, z.im)))
+}
+
+/// tanh, without the infinite quotient sinh / cosh far from the imaginary axis.
+#[inline]
+fn complex_tanh<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
+    let limit = F::from(20.0).unwrap();
+    if z.re.abs() <= limit || z.re.is_nan() {
+        return z.tanh();
+    }
+    let two = F::from(2.0).unwrap();
+    let im = two * (two * z.im).sin() * (-two * z.re.abs()).exp();
+    Complex::new(z.re.signum(), im)
+}
+
+#[inline]
+fn complex_tan<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
+    // tan(z) = -i * tanh(i * z)
+    let w = complex_tanh(Complex::new(-z.im, z.re));
+    Complex::new(w.im, -w.re)
+}
+
+// Inverse functions after Kahan, "Branch Cuts for Complex Elementary Functions".
+
+#[inline]
+fn complex_asin<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
+    let (m, p) = sqrt_one_minus_plus(z);
+    Complex::new(
+        z.re.atan2(m.re * p.re - m.im * p.im),
+        (m.re * p.im - m.im * p.re).asinh(),
+    )
+}
+
+#[inline]
+fn complex_acos<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
+    let (m, p) = sqrt_one_minus_plus(z);
+    let two = F::from(2.0).unwrap();
+    Complex::new(two * m.re.atan2(p.re), (p.re * m.im - p.im * m.re).asinh())
+}
+
+#[inline]
+fn complex_asinh<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
+    // asinh(z) = i * asin(-i * z)
+    let w = complex_asin(Complex::new(z.im, -z.re));
+    Complex::new(-w.im, w.re)
+}
+
+#[inline]
+fn complex_acosh<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
+    let one = F::one();
+    let two = F::from(2.0).unwrap();
+    let m = numpy_sqrt(Complex::new(z.re - one, z.im));
+    let p = numpy_sqrt(Complex::new(z.re + one, z.im));
+    Complex::new((m.re * p.re + m.im * p.im).asinh(), two * m.im.atan2(p.re))
+}
+
+#[inline]
+fn complex_atanh<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
+    let one = F::one();
+    let two = F::from(2.0).unwrap();
+    let x = z.re.abs();
+    let d = one - x;
+    let y2 = z.im * z.im;
+    let re = (two * two * x / (d * d + y2)).ln_1p() / (two * two);
+    Complex::new(
+        if z.re.is_sign_negative() { -re } else { re },
+        (two * z.im).atan2(d * (one + x) - y2) / two,
+    )
+}
+
+#[inline]
+fn complex_atan<F: Float + FloatConst>(z: Complex<F>) -> Complex<F> {
+    // atan(z) = -i * atanh(i * z)
+    let w = complex_atanh(Complex::new(-z.im, z.re));
+    Complex::new(w.im, -w.re)
+}
+
 macro_rules! impl_complex_math {
     ($F:ty) => {
         impl UnaryKernel<Complex<$F>> for Neg {
@@ -491,7 +572,7 @@ macro_rules! impl_complex_math {
         }
         impl UnaryKernel<Complex<$F>> for Sqrt {
             #[inline(always)]
-            fn apply(v: Complex<$F>) -> Complex<$F> { v.sqrt() }
+            fn apply(v: Complex<$F>) -> Complex<$F> { numpy_sqrt(v) }
         }
         impl UnaryKernel<Complex<$F>> for Exp {
             #[inline(always)]
@@ -519,7 +600,7 @@ macro_rules! impl_complex_math {
         }
         impl UnaryKernel<Complex<$F>> for Tan {
             #[inline(always)]
-            fn apply(v: Complex<$F>) -> Complex<$F> { v.tan() }
+            fn apply(v: Complex<$F>) -> Complex<$F> { complex_tan(v) }
         }
         impl UnaryKernel<Complex<$F>> for Floor {
             #[inline(always)]
@@ -547,61 +628,19 @@ macro_rules! impl_complex_math {
         }
         impl UnaryKernel<Complex<$F>> for Tanh {
             #[inline(always)]
-            fn apply(v: Complex<$F>) -> Complex<$F> { v.tanh() }
+            fn apply(v: Complex<$F>) -> Complex<$F> { complex_tanh(v) }
         }
         impl UnaryKernel<Complex<$F>> for Arcsin {
             #[inline(always)]
-            fn apply(v: Complex<$F>) -> Complex<$F> {
-                // arcsin(z) = -i * log(iz + sqrt(1 - z^2))
-                // Using numpy-compatible branch cuts
-                //
-                // Key issue: when computing 1 - z^2 for real z outside [-1,1],
-                // the imaginary part should be -0.0 (negative zero) to get correct
-                // sqrt branch. But complex arithmetic loses this sign.
-                //
-                // For real z with |z| > 1: 1-z^2 is negative real.
-                // The sqrt branch cut gives sqrt(negative) = +i*sqrt(|negative|)
-                // when computed from above the branch cut, but the formula requires
-                // we approach from below for z > 1.
-                //
-                // Solution: Manually compute with proper signed zero handling.
-                let one = 1.0 as $F;
-                let zero = 0.0 as $F;
-
-                // z^2 = (re^2 - im^2, 2*re*im)
-                let z2_re = v.re * v.re - v.im * v.im;
-                let z2_im = (2.0 as $F) * v.re * v.im;
-
-                // 1 - z^2 = (1 - z2_re, -z2_im)
-                // The key is: for z = x+0j with x > 0:
-                //   z^2 = x^2 + 0j, z2_im = 0
-                //   -z2_im should be -0.0 to preserve the sign
-                let one_minus_z2_re = one - z2_re;
-                let one_minus_z2_im = -z2_im;  // This preserves -0.0 when z2_im = +0.0
-
-                let one_minus_z2 = Complex::new(one_minus_z2_re, one_minus_z2_im);
-                let sqrt_val = numpy_sqrt(one_minus_z2);
-
-                // iz = (-im, re)
-                let iz = Complex::new(-v.im, v.re);
-
-                let log_arg = iz + sqrt_val;
-                let i = Complex::new(zero, one);
-                -i * log_arg.ln()
-            }
+            fn apply(v: Complex<$F>) -> Complex<$F> { complex_asin(v) }
         }
         impl UnaryKernel<Complex<$F>> for Arccos {
             #[inline(always)]
-            fn apply(v: Complex<$F>) -> Complex<$F> {
-                // arccos(z) = pi/2 - arcsin(z)
-                let pi_over_2 = <$F as FloatConst>::FRAC_PI_2();
-                let arcsin_v = <Arcsin as UnaryKernel<Complex<$F>>>::apply(v);
-                Complex::new(pi_over_2, 0.0 as $F) - arcsin_v
-            }
+            fn apply(v: Complex<$F>) -> Complex<$F> { complex_acos(v) }
         }
         impl UnaryKernel<Complex<$F>> for Arctan {
             #[inline(always)]
-            fn apply(v: Complex<$F>) -> Complex<$F> { v.atan() }
+            fn apply(v: Complex<$F>) -> Complex<$F> { complex_atan(v) }
         }
         impl UnaryKernel<Complex<$F>> for Sign {
             #[inline(always)]
@@ -654,52 +693,15 @@ macro_rules! impl_complex_math {
         }
         impl UnaryKernel<Complex<$F>> for Arcsinh {
             #[inline(always)]
-            fn apply(v: Complex<$F>) -> Complex<$F> {
-                // arcsinh(z) = log(z + sqrt(z^2 + 1))
-                let z2_plus_1 = v * v + Complex::new(1.0 as $F, 0.0 as $F);
-                let sqrt_val = numpy_sqrt(z2_plus_1);
-                (v + sqrt_val).ln()
-            }
+            fn apply(v: Complex<$F>) -> Complex<$F> { complex_asinh(v) }
         }
         impl UnaryKernel<Complex<$F>> for Arccosh {
             #[inline(always)]
-            fn apply(v: Complex<$F>) -> Complex<$F> {
-                // arccosh(z) = log(z + sqrt(z^2 - 1))
-                // For real x in [0, 1], result should be purely imaginary
-                let z2_minus_1 = v * v - Complex::new(1.0 as $F, 0.0 as $F);
-                let sqrt_val = numpy_sqrt(z2_minus_1);
-                (v + sqrt_val).ln()
-            }
+            fn apply(v: Complex<$F>) -> Complex<$F> { complex_acosh(v) }
         }
         impl UnaryKernel<Complex<$F>> for Arctanh {
             #[inline(always)]
-            fn apply(v: Complex<$F>) -> Complex<$F> {
-                // arctanh(z) = 0.5 * log((1+z)/(1-z))
-                // For numpy compatibility, both z>1 and z<-1 give positive imaginary part.
-                let one = 1.0 as $F;
-                let half = 0.5 as $F;
-
-                let num_re = one + v.re;
-                let num_im = v.im;
-                let den_re = one - v.re;
-                let den_im = -v.im;
-
-                // Complex division
-                let den_mag2 = den_re * den_re + den_im * den_im;
-                let ratio_re = (num_re * den_re + num_im * den_im) / den_mag2;
-                let ratio_im = (num_im * den_re - num_re * den_im) / den_mag2;
-
-                let ratio = Complex::new(ratio_re, ratio_im);
-
-                // For negative real ratio, use +pi branch for numpy compatibility
-                let log_val = if ratio_re < 0.0 as $F && ratio_im == 0.0 as $F {
-                    Complex::new((-ratio_re).ln(), <$F as FloatConst>::PI())
-                } else {
-                    ratio.ln()
-                };
-
-                Complex::new(half * log_val.re, half * log_val.im)
-            }
+            fn apply(v: Complex<$F>) -> Complex<$F> { complex_atanh(v) }
         }
     };
 }
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 301a7c0..1f18c93 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -274,10 +274,18 @@ impl RumpyArray {
         let ops = dtype.ops();
         let src_ptr = self.data_ptr();
 
+        let round = |val: f64| (val * scale).round() / scale;
+        let complex = matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128);
         for (i, offset) in self.iter_offsets().enumerate() {
-            let val = unsafe { ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
-            let rounded = (val * scale).round() / scale;
-            unsafe { ops.write_f64(result_ptr, i, rounded); }
+            unsafe {
+                if complex {
+                    let (re, im) = ops.read_complex(src_ptr, offset).unwrap_or((0.0, 0.0));
+                    ops.write_complex(result_ptr, i, round(re), round(im));
+                } else {
+                    let val = ops.read_f64(src_ptr, offset).unwrap_or(0.0);
+                    ops.write_f64(result_ptr, i, round(val));
+                }
+            }
         }
 
         result
diff --git a/src/ops/special.rs b/src/ops/special.rs
index 304211a..eb69859 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -7,6 +7,8 @@
 use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
 use crate::array::{broadcast_shapes, promote_dtype};
+use half::f16;
+use num_complex::Complex;
 use std::sync::Arc;
 
 /// Float dtype NumPy uses for a float-valued result of `dtype` input.
@@ -40,6 +42,7 @@ pub fn sinc(arr: &RumpyArray) -> RumpyArray {
     match arr.dtype().kind() {
         DTypeKind::Float32 => sinc_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => sinc_typed::<f64>(arr, DType::float64()),
+        DTypeKind::Complex64 | DTypeKind::Complex128 => sinc_complex(arr),
         _ => {
             // Convert to f64 for other types
             let arr_f64 = arr.astype(DType::float64());
@@ -48,6 +51,21 @@ pub fn sinc(arr: &RumpyArray) -> RumpyArray {
     }
 }
 
+fn sinc_complex(arr: &RumpyArray) -> RumpyArray {
+    let mut result = RumpyArray::zeros(arr.shape().to_vec(), arr.dtype());
+    let dtype = arr.dtype();
+    let ops = dtype.ops();
+    let src_ptr = arr.data_ptr();
+    let result_ptr = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+    for (i, offset) in arr.iter_offsets().enumerate() {
+        let (re, im) = unsafe { ops.read_complex(src_ptr, offset) }.unwrap_or((0.0, 0.0));
+        let pi_z = Complex::new(re, im) * std::f64::consts::PI;
+        let y = if re == 0.0 && im == 0.0 { Complex::new(1.0, 0.0) } else { pi_z.sin() / pi_z };
+        unsafe { ops.write_complex(result_ptr, i, y.re, y.im); }
+    }
+    result
+}
+
 fn sinc_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> RumpyArray {
     let size = arr.size();
     if size == 0 {
@@ -132,65 +150,32 @@ fn i0_scalar<T: Float>(x: T) -> T {
 // ============================================================================
 
 pub fn spacing(arr: &RumpyArray) -> RumpyArray {
-    let arr = &arr.copy();
-    match arr.dtype().kind() {
-        DTypeKind::Float32 => spacing_f32(arr),
-        DTypeKind::Float64 => spacing_f64(arr),
-        _ => {
-            let arr_f64 = arr.astype(DType::float64());
-            spacing_f64(&arr_f64)
-        }
-    }
-}
-
-fn spacing_f64(arr: &RumpyArray) -> RumpyArray {
-    let size = arr.size();
-    if size == 0 {
-        return RumpyArray::zeros(arr.shape().to_vec(), DType::float64());
-    }
-
-    let mut result = RumpyArray::zeros(arr.shape().to_vec(), DType::float64());
-    let buffer = result.buffer_mut();
-    let result_buffer = Arc::get_mut(buffer).expect("unique");
-    let result_ptr = result_buffer.as_mut_ptr() as *mut f64;
-
-    let src_ptr = arr.data_ptr() as *const f64;
-    for i in 0..size {
-        let x = unsafe { *src_ptr.add(i) };
-        let next = if x >= 0.0 {
-            f64::from_bits(x.to_bits().wrapping_add(1))
-        } else if x.to_bits() == 0x8000_0000_0000_0000 {
-            f64::from_bits(1)
-        } else {
-            f64::from_bits(x.to_bits().wrapping_sub(1))
-        };
-        unsafe { *result_ptr.add(i) = (next - x).abs() };
-    }
-    result
-}
-
-fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
+    let dtype = match arr.dtype().kind() {
+        DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64 => arr.dtype(),
+        _ => float_result(&arr.dtype()),
+    };
+    let arr = &arr.astype(dtype.clone()).copy();
+    match dtype.kind() {
+        DTypeKind::Float16 => spacing_typed(arr, dtype, |x: f16| {
+            if !x.is_finite() { f16::NAN } else if x.is_sign_negative() && x != f16::ZERO { f16::from_bits(x.to_bits() + 1) - x } else { f16::from_bits((x.to_bits() & 0x7FFF) + 1) - x }
+        }),
+        DTypeKind::Float32 => spacing_typed(arr, dtype, |x: f32| {
+            if !x.is_finite() { f32::NAN } else if x < 0.0 { f32::from_bits(x.to_bits() + 1) - x } else { x.next_up() - x }
+        }),
+        _ => spacing_typed(arr, dtype, |x: f64| {
+            if !x.is_finite() { f64::NAN } else if x < 0.0 { f64::from_bits(x.to_bits() + 1) - x } else { x.next_up() - x }
+        }),
+    }
+}
+
+/// `step` gives the distance from its argument to the next value away from zero.
+fn spacing_typed<T: Copy>(arr: &RumpyArray, dtype: DType, step: impl Fn(T) -> T) -> RumpyArray {
+    let mut result = RumpyArray::zeros(arr.shape().to_vec(), dtype);
     let size = arr.size();
-    if size == 0 {
-        return RumpyArray::zeros(arr.shape().to_vec(), DType::float32());
-    }
-
-    let mut result = RumpyArray::zeros(arr.shape().to_vec(), DType::float32());
-    let buffer = result.buffer_mut();
-    let result_buffer = Arc::get_mut(buffer).expect("unique");
-    let result_ptr = result_buffer.as_mut_ptr() as *mut f32;
-
-    let src_ptr = arr.data_ptr() as *const f32;
+    let result_ptr = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr() as *mut T;
+    let src_ptr = arr.data_ptr() as *const T;
     for i in 0..size {
-        let x = unsafe { *src_ptr.add(i) };
-        let next = if x >= 0.0 {
-            f32::from_bits(x.to_bits().wrapping_add(1))
-        } else if x.to_bits() == 0x8000_0000 {
-            f32::from_bits(1)
-        } else {
-            f32::from_bits(x.to_bits().wrapping_sub(1))
-        };
-        unsafe { *result_ptr.add(i) = (next - x).abs() };
+        unsafe { *result_ptr.add(i) = step(*src_ptr.add(i)); }
     }
     result
 }
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index c9409e2..977604f 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -2,6 +2,7 @@
 
 use pyo3::prelude::*;
 
+use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
 use super::PyRumpyArray;
 
@@ -45,6 +46,16 @@ where
     ))
 }
 
+/// Refuse complex input, whose imaginary part the function would lose.
+fn require_real(arr: &RumpyArray) -> PyResult<()> {
+    match arr.dtype().kind() {
+        DTypeKind::Complex64 | DTypeKind::Complex128 => {
+            Err(pyo3::exceptions::PyTypeError::new_err("ufunc not supported for complex input"))
+        }
+        _ => Ok(()),
+    }
+}
+
 // ============================================================================
 // Unary math functions
 // ============================================================================
@@ -172,7 +183,6 @@ pub fn iscomplex(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 /// Check if the array has a real-valued dtype (not complex).
 #[pyfunction]
 pub fn isrealobj(x: &Bound<'_, PyAny>) -> PyResult<bool> {
-    use crate::array::dtype::DTypeKind;
     if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
         let kind = arr.inner.dtype().kind();
         Ok(!matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128))
@@ -186,7 +196,6 @@ pub fn isrealobj(x: &Bound<'_, PyAny>) -> PyResult<bool> {
 /// Check if the array has a complex dtype.
 #[pyfunction]
 pub fn iscomplexobj(x: &Bound<'_, PyAny>) -> PyResult<bool> {
-    use crate::array::dtype::DTypeKind;
     if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
         let kind = arr.inner.dtype().kind();
         Ok(matches!(kind, DTypeKind::Complex64 | DTypeKind::Complex128))
@@ -520,6 +529,9 @@ pub fn nextafter(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRum
 pub fn deg2rad(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
     let deg_to_rad = std::f64::consts::PI / 180.0;
     apply_unary(x, |v| v * deg_to_rad, |a| {
+        if matches!(a.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+            return Err(crate::ops::UnaryOpError::UnsupportedDtype);
+        }
         // Promote to float64 if integer (numpy behavior)
         let arr = if a.dtype() != DType::float64() && a.dtype() != DType::float32() {
             a.astype(DType::float64())
@@ -534,6 +546,9 @@ pub fn deg2rad(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 pub fn rad2deg(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
     let rad_to_deg = 180.0 / std::f64::consts::PI;
     apply_unary(x, |v| v * rad_to_deg, |a| {
+        if matches!(a.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+            return Err(crate::ops::UnaryOpError::UnsupportedDtype);
+        }
         // Promote to float64 if integer (numpy behavior)
         let arr = if a.dtype() != DType::float64() && a.dtype() != DType::float32() {
             a.astype(DType::float64())
@@ -769,28 +784,32 @@ pub fn sinc(x: &PyRumpyArray) -> PyRumpyArray {
 
 /// Compute the modified Bessel function of the first kind, order 0.
 #[pyfunction]
-pub fn i0(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::i0(&x.inner))
+pub fn i0(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_real(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::i0(&x.inner)))
 }
 
 /// Compute spacing (ULP) for floating point values.
 #[pyfunction]
-pub fn spacing(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::spacing(&x.inner))
+pub fn spacing(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_real(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::spacing(&x.inner)))
 }
 
 /// Compute modf: return (fractional part, integer part).
 #[pyfunction]
-pub fn modf(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
+pub fn modf(x: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    require_real(&x.inner)?;
     let (frac, int) = crate::ops::modf(&x.inner);
-    (PyRumpyArray::new(frac), PyRumpyArray::new(int))
+    Ok((PyRumpyArray::new(frac), PyRumpyArray::new(int)))
 }
 
 /// Compute frexp: decompose x into (mantissa, exponent) where x = mantissa * 2^exponent.
 #[pyfunction]
-pub fn frexp(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
+pub fn frexp(x: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    require_real(&x.inner)?;
     let (mant, exp) = crate::ops::frexp(&x.inner);
-    (PyRumpyArray::new(mant), PyRumpyArray::new(exp))
+    Ok((PyRumpyArray::new(mant), PyRumpyArray::new(exp)))
 }
 
 /// Compute ldexp: x * 2^i.
-- 
2.43.0


From 55061b12b642333785aae8c647a87fc9803902a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:03 +0000
Subject: [PATCH 36/51] fix: ediff1d: convert the values put on either side,
 wrap integer differences, complex and half-precision input

---
 src/python/dtype.rs |   2 +-
 src/python/misc.rs  | 163 +++++++++-----------------------------------
 2 files changed, 33 insertions(+), 132 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index bb28a86..e4d81c2 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -438,7 +438,7 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
 }
 
 /// Check if cast is same_kind (numbers to numbers of same kind).
-fn can_cast_same_kind(from: &DType, to: &DType) -> bool {
+pub(super) fn can_cast_same_kind(from: &DType, to: &DType) -> bool {
     use DTypeKind::*;
 
     if can_cast_safe(from, to) {
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 0e9c122..f545b38 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -983,138 +983,39 @@ pub fn ediff1d(
     to_end: Option<&Bound<'_, pyo3::PyAny>>,
     to_begin: Option<&Bound<'_, pyo3::PyAny>>,
 ) -> PyResult<PyRumpyArray> {
-    let inner = &ary.inner;
-    let size = inner.size();
-    let dtype = inner.dtype();
-
-    // Get begin/end array references or scalars
-    let begin_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_begin.and_then(|v| v.extract().ok());
-    let end_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_end.and_then(|v| v.extract().ok());
-    let begin_scalar: Option<f64> = if begin_arr.is_none() { to_begin.and_then(|v| v.extract().ok()) } else { None };
-    let end_scalar: Option<f64> = if end_arr.is_none() { to_end.and_then(|v| v.extract().ok()) } else { None };
-
-    let begin_len = begin_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if begin_scalar.is_some() { 1 } else { 0 });
-    let end_len = end_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if end_scalar.is_some() { 1 } else { 0 });
-
-    let diff_len = if size > 0 { size - 1 } else { 0 };
-    let out_len = begin_len + diff_len + end_len;
-
-    let mut result = RumpyArray::zeros(vec![out_len], dtype.clone());
-    if out_len == 0 {
-        return Ok(PyRumpyArray::new(result));
-    }
-
-    let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-
-    macro_rules! ediff1d_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-                idx += 1;
-            }
-
-            // Write differences
-            if size > 1 {
-                let src = inner.data_ptr() as *const $ty;
-                if inner.is_c_contiguous() {
-                    for i in 1..size {
-                        unsafe { *dst.add(idx) = *src.add(i) - *src.add(i - 1); }
-                        idx += 1;
-                    }
-                } else {
-                    let offsets: Vec<isize> = inner.iter_offsets().collect();
-                    for i in 1..size {
-                        let curr = unsafe { *(inner.data_ptr().offset(offsets[i]) as *const $ty) };
-                        let prev = unsafe { *(inner.data_ptr().offset(offsets[i - 1]) as *const $ty) };
-                        unsafe { *dst.add(idx) = curr - prev; }
-                        idx += 1;
-                    }
-                }
-            }
-
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-            }
-        }};
-    }
-
-    match dtype.kind() {
-        DTypeKind::Float32 => ediff1d_typed!(f32),
-        DTypeKind::Float64 => ediff1d_typed!(f64),
-        DTypeKind::Int32 => ediff1d_typed!(i32),
-        DTypeKind::Int64 => ediff1d_typed!(i64),
-        DTypeKind::Uint32 => ediff1d_typed!(u32),
-        DTypeKind::Uint64 => ediff1d_typed!(u64),
-        DTypeKind::Int8 => ediff1d_typed!(i8),
-        DTypeKind::Int16 => ediff1d_typed!(i16),
-        DTypeKind::Uint8 => ediff1d_typed!(u8),
-        DTypeKind::Uint16 => ediff1d_typed!(u16),
-        _ => {
-            // Complex types fallback
-            let ops = dtype.ops();
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-                idx += 1;
-            }
-
-            // Write differences
-            if size > 1 {
-                let offsets: Vec<isize> = inner.iter_offsets().collect();
-                for i in 1..size {
-                    let curr = unsafe { ops.read_f64(inner.data_ptr(), offsets[i]) }.unwrap_or(0.0);
-                    let prev = unsafe { ops.read_f64(inner.data_ptr(), offsets[i - 1]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, curr - prev); }
-                    idx += 1;
-                }
-            }
-
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-            }
+    let dtype = ary.inner.dtype();
+    let flat = ary.inner.reshape(vec![ary.inner.size()])
+        .unwrap_or_else(|| ary.inner.copy().reshape(vec![ary.inner.size()]).expect("contiguous"));
+
+    // The values to put on either side, in the dtype of the differences
+    let ends = |values: Option<&Bound<'_, pyo3::PyAny>>, name: &str| -> PyResult<Option<RumpyArray>> {
+        let Some(values) = values else { return Ok(None) };
+        let is_array = values.is_instance_of::<PyRumpyArray>();
+        if let (false, Ok(scalar)) = (is_array, values.extract::<f64>()) {
+            return Ok(Some(RumpyArray::full(vec![1], scalar, dtype.clone())));
         }
-    }
-
-    Ok(PyRumpyArray::new(result))
+        let arr = to_rumpy_array(values)?;
+        if !super::dtype::can_cast_same_kind(&arr.dtype(), &dtype) {
+            return Err(pyo3::exceptions::PyTypeError::new_err(format!(
+                "dtype of `{}` must be compatible with input `ary` under the `same_kind` rule", name
+            )));
+        }
+        let arr = arr.astype(dtype.clone()).copy();
+        let size = arr.size();
+        Ok(arr.reshape(vec![size]))
+    };
+    let begin = ends(to_begin, "to_begin")?;
+    let end = ends(to_end, "to_end")?;
+
+    let size = flat.size() as isize;
+    let upper = flat.slice_axis(0, size.min(1), size, 1);
+    let lower = flat.slice_axis(0, 0, (size - 1).max(0), 1);
+    let differences = upper.binary_op(&lower, crate::ops::BinaryOp::Sub)
+        .map_err(|_| pyo3::exceptions::PyTypeError::new_err("ediff1d: dtype not supported"))?;
+    let parts: Vec<RumpyArray> = begin.into_iter().chain([differences]).chain(end).collect();
+    crate::array::concatenate(&parts, 0)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("ediff1d: incompatible parts"))
 }
 
 // ============================================================================
-- 
2.43.0


From 7c603bff0e5b3773cd1f27e6af9cd4794eb70edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:13 +0000
Subject: [PATCH 37/51] fix: in-place: accept the array itself as the value
 written (x[:] = x, copyto, put, put_along_axis, fill_diagonal), copy values
 that may overlap, copyto of sources with leading axes of length one

---
 src/python/creation.rs            |  8 ++++++--
 src/python/indexing.rs            | 16 +++++++++-------
 src/python/pyarray/dunder_item.rs |  2 +-
 src/python/pyarray/mod.rs         |  7 ++++---
 4 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index 878ef6c..4c39893 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -1092,7 +1092,7 @@ pub fn require(
 ///     Only copy where mask is True.
 #[pyfunction(signature = (dst, src, casting=None, r#where=None))]
 pub fn copyto(
-    dst: &mut PyRumpyArray,
+    dst: &PyRumpyArray,
     src: &PyRumpyArray,
     casting: Option<&str>,
     r#where: Option<&PyRumpyArray>,
@@ -1107,7 +1107,11 @@ pub fn copyto(
         })
     };
     // astype copies, so an overlapping source is read before anything is written
-    let source = broadcast(&src.inner.astype(dst.inner.dtype()), "input array")?;
+    let mut source = src.inner.astype(dst.inner.dtype());
+    while source.ndim() > dst.inner.ndim() && source.shape()[0] == 1 {
+        source = source.squeeze_axis(0);
+    }
+    let source = broadcast(&source, "input array")?;
     let mask = match where_mask {
         Some(m) => Some(broadcast(&m.inner.astype(crate::array::DType::bool()), "mask")?),
         None => None,
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 0d5fdba..d7d52b2 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -135,7 +135,7 @@ pub(crate) fn to_values(v: &Bound<'_, pyo3::PyAny>) -> PyResult<RumpyArray> {
 /// Replace values at specified flat indices.
 #[pyfunction]
 pub fn put(
-    a: &mut PyRumpyArray,
+    a: &PyRumpyArray,
     ind: &Bound<'_, pyo3::PyAny>,
     v: &Bound<'_, pyo3::PyAny>,
 ) -> PyResult<()> {
@@ -156,21 +156,23 @@ pub fn put(
         ));
     };
 
-    let values = to_values(v)?;
+    // A copy, as the values may overlap the elements written
+    let values = to_values(v)?.copy();
 
-    crate::ops::indexing::put(&mut a.inner, &indices, &values)
+    crate::ops::indexing::put(&mut a.inner.clone(), &indices, &values)
         .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
 }
 
 /// Put values into the destination array by matching 1d index and data slices.
 #[pyfunction]
 pub fn put_along_axis(
-    arr: &mut PyRumpyArray,
+    arr: &PyRumpyArray,
     indices: &PyRumpyArray,
     values: &PyRumpyArray,
     axis: usize,
 ) -> PyResult<()> {
-    crate::ops::indexing::put_along_axis(&mut arr.inner, &indices.inner, &values.inner, axis)
+    // Copies, as both may overlap the elements written
+    crate::ops::indexing::put_along_axis(&mut arr.inner.clone(), &indices.inner.copy(), &values.inner.copy(), axis)
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err(
                 "indices/values shape doesn't match or axis out of bounds",
@@ -776,7 +778,7 @@ pub fn ix_(_py: Python<'_>, args: &Bound<'_, pyo3::types::PyTuple>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (a, val, wrap=false))]
 pub fn fill_diagonal(
-    a: &mut PyRumpyArray,
+    a: &PyRumpyArray,
     val: &Bound<'_, pyo3::PyAny>,
     wrap: bool,
 ) -> PyResult<()> {
@@ -800,7 +802,7 @@ pub fn fill_diagonal(
     let min_dim = shape.iter().copied().min().unwrap_or(0);
 
     // Get mutable access to buffer
-    let ptr = a.inner.data_ptr_mut();
+    let ptr = a.inner.clone().data_ptr_mut();
     let dtype = a.inner.dtype();
     let strides = a.inner.strides();
     let itemsize = dtype.itemsize();
diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 31f8cca..bfa2526 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -116,7 +116,7 @@ impl PyRumpyArray {
     }
 
     /// Item assignment (slice or element).
-    fn __setitem__(&mut self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
+    fn __setitem__(&self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
         let items = if let Ok(tuple) = key.downcast::<PyTuple>() {
             expand_ellipsis(tuple, self.inner.ndim())?
         } else if key.extract::<isize>().is_ok()
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 8c79658..72ffa1d 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -577,10 +577,11 @@ impl PyRumpyArray {
     }
 
     /// Set values at indices (in-place).
-    fn put(&mut self, indices: &Bound<'_, PyAny>, values: &Bound<'_, PyAny>) -> PyResult<()> {
+    fn put(&self, indices: &Bound<'_, PyAny>, values: &Bound<'_, PyAny>) -> PyResult<()> {
         let idx_vec = extract_i64_vec(indices, "indices")?;
-        let values = super::indexing::to_values(values)?;
-        crate::ops::indexing::put(&mut self.inner, &idx_vec, &values)
+        // A copy, as the values may overlap the elements written
+        let values = super::indexing::to_values(values)?.copy();
+        crate::ops::indexing::put(&mut self.inner.clone(), &idx_vec, &values)
             .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
     }
 
-- 
2.43.0


From 11eb9e040bc989459bf9c0b86cd42e1b9d7e7ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:18 +0000
Subject: [PATCH 38/51] fix: real-only: refuse complex, text and date operands
 of functions computed with float64 instead of reading them as 0; isclose of
 complex; nancumsum/nancumprod of integers; diff of bool views and
 out-of-range axes

---
 src/ops/array_methods/cumulative.rs      |  7 ++-
 src/ops/comparison.rs                    | 32 +++++++++++
 src/ops/mod.rs                           |  7 ---
 src/python/indexing.rs                   |  6 +-
 src/python/misc.rs                       |  1 +
 src/python/numerical.rs                  | 14 +++++
 src/python/pyarray/methods_reductions.rs |  9 ++-
 src/python/pyarray/mod.rs                | 11 +++-
 src/python/reductions.rs                 | 73 +++++++++++++++++++++---
 src/python/ufuncs.rs                     |  5 +-
 10 files changed, 140 insertions(+), 25 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index bff3f49..6e25c44 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -93,7 +93,12 @@ impl RumpyArray {
             // General strided case: x[1:] - x[:-1]
             let upper = self.slice_axis(axis, 1, axis_len as isize, 1);
             let lower = self.slice_axis(axis, 0, axis_len as isize - 1, 1);
-            if let Ok(difference) = upper.binary_op(&lower, crate::ops::BinaryOp::Sub) {
+            if dtype.kind() == DTypeKind::Bool {
+                // Truth values differ or they do not
+                if let Some(difference) = upper.compare(&lower, crate::ops::ComparisonOp::Ne) {
+                    result = difference;
+                }
+            } else if let Ok(difference) = upper.binary_op(&lower, crate::ops::BinaryOp::Sub) {
                 result = difference;
             }
         }
diff --git a/src/ops/comparison.rs b/src/ops/comparison.rs
index 7a181b3..5cfa5a1 100644
--- a/src/ops/comparison.rs
+++ b/src/ops/comparison.rs
@@ -5,6 +5,7 @@
 //! - Approximate equality: isclose, allclose, array_equal
 //! - Logical operations: logical_and, logical_or, logical_not, logical_xor
 
+use crate::array::dtype::DTypeKind;
 use crate::array::{broadcast_shapes, increment_indices, DType, RumpyArray};
 use crate::ops::ufunc::map_compare_op;
 use crate::ops::ComparisonOp;
@@ -173,6 +174,10 @@ pub fn greater_equal(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 /// Element-wise approximate equality test: |a - b| <= atol + rtol * |b|.
 /// Handles NaN and infinity according to NumPy semantics.
 pub fn isclose(a: &RumpyArray, b: &RumpyArray, rtol: f64, atol: f64, equal_nan: bool) -> Option<RumpyArray> {
+    let complex = |arr: &RumpyArray| matches!(arr.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128);
+    if complex(a) || complex(b) {
+        return isclose_complex(a, b, rtol, atol, equal_nan);
+    }
     map_binary_to_bool(a, b, |x, y| {
         if x.is_nan() && y.is_nan() {
             equal_nan
@@ -186,6 +191,33 @@ pub fn isclose(a: &RumpyArray, b: &RumpyArray, rtol: f64, atol: f64, equal_nan:
     })
 }
 
+/// Approximate equality of complex values: the distance is compared with the modulus.
+fn isclose_complex(a: &RumpyArray, b: &RumpyArray, rtol: f64, atol: f64, equal_nan: bool) -> Option<RumpyArray> {
+    let (a_bc, b_bc, mut result, out_shape) = broadcast_binary_setup(a, b, DType::bool())?;
+    let size = result.size();
+    if size == 0 {
+        return Some(result);
+    }
+    let result_ptr = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    let mut indices = vec![0usize; out_shape.len()];
+    for i in 0..size {
+        let (xr, xi) = a_bc.get_complex_element(&indices);
+        let (yr, yi) = b_bc.get_complex_element(&indices);
+        let x_nan = xr.is_nan() || xi.is_nan();
+        let y_nan = yr.is_nan() || yi.is_nan();
+        let close = if x_nan || y_nan {
+            x_nan && y_nan && equal_nan
+        } else if yr.is_finite() && yi.is_finite() && xr.is_finite() && xi.is_finite() {
+            (xr - yr).hypot(xi - yi) <= atol + rtol * yr.hypot(yi)
+        } else {
+            xr == yr && xi == yi
+        };
+        unsafe { *result_ptr.add(i) = close as u8; }
+        increment_indices(&mut indices, &out_shape);
+    }
+    Some(result)
+}
+
 /// Test if all elements are approximately equal.
 pub fn allclose(a: &RumpyArray, b: &RumpyArray, rtol: f64, atol: f64, equal_nan: bool) -> Option<bool> {
     let close = isclose(a, b, rtol, atol, equal_nan)?;
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 1f18c93..56f3f72 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -126,13 +126,6 @@ impl RumpyArray {
         map_compare_op(self, other, op)
     }
 
-    /// Scalar comparison (arr op scalar).
-    pub fn compare_scalar(&self, scalar: f64, op: ComparisonOp) -> RumpyArray {
-        // Create scalar array and use broadcasting
-        let scalar_arr = RumpyArray::full(vec![], scalar, DType::float64());
-        self.compare(&scalar_arr, op).expect("scalar broadcast always succeeds")
-    }
-
     /// Negate each element.
     pub fn neg(&self) -> Result<RumpyArray, UnaryOpError> {
         map_unary_op(self, UnaryOp::Neg)
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index d7d52b2..1ae0945 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -683,8 +683,10 @@ pub fn mask_indices(
 /// Return the indices of the bins to which each value in input belongs.
 #[pyfunction]
 #[pyo3(signature = (x, bins, right=false))]
-pub fn digitize(x: &PyRumpyArray, bins: &PyRumpyArray, right: bool) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::indexing::digitize(&x.inner, &bins.inner, right))
+pub fn digitize(x: &PyRumpyArray, bins: &PyRumpyArray, right: bool) -> PyResult<PyRumpyArray> {
+    super::reductions::check_real(&x.inner, "digitize")?;
+    super::reductions::check_real(&bins.inner, "digitize")?;
+    Ok(PyRumpyArray::new(crate::ops::indexing::digitize(&x.inner, &bins.inner, right)))
 }
 
 /// Pack binary-valued array into uint8 array.
diff --git a/src/python/misc.rs b/src/python/misc.rs
index f545b38..3ef03a0 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -1032,6 +1032,7 @@ pub fn unwrap(
     period: Option<f64>,
 ) -> PyResult<PyRumpyArray> {
     let inner = &p.inner;
+    super::reductions::check_real(inner, "unwrap")?;
     let ndim = inner.ndim();
 
     if ndim == 0 {
diff --git a/src/python/numerical.rs b/src/python/numerical.rs
index a953bbb..79b2f46 100644
--- a/src/python/numerical.rs
+++ b/src/python/numerical.rs
@@ -6,11 +6,14 @@ use pyo3::IntoPyObject;
 
 use crate::array::RumpyArray;
 use super::PyRumpyArray;
+use super::reductions::check_real;
 
 /// 1D discrete convolution.
 #[pyfunction]
 #[pyo3(signature = (a, v, mode="full"))]
 pub fn convolve(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRumpyArray> {
+    check_real(&a.inner, "convolve")?;
+    check_real(&v.inner, "convolve")?;
     crate::array::convolve(&a.inner, &v.inner, mode)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -22,6 +25,8 @@ pub fn convolve(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRu
 #[pyfunction]
 #[pyo3(signature = (a, v, mode="full"))]
 pub fn correlate(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRumpyArray> {
+    check_real(&a.inner, "correlate")?;
+    check_real(&v.inner, "correlate")?;
     crate::ops::numerical::correlate(&a.inner, &v.inner, mode)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -41,6 +46,7 @@ pub fn gradient(
     axis: Option<isize>,
 ) -> PyResult<pyo3::PyObject> {
     let py = varargs.py();
+    check_real(&f.inner, "gradient")?;
 
     // Parse varargs for spacing
     let (spacing, coords): (Option<f64>, Option<RumpyArray>) = if varargs.is_empty() {
@@ -51,6 +57,7 @@ pub fn gradient(
         if let Ok(scalar) = arg.extract::<f64>() {
             (Some(scalar), None)
         } else if let Ok(py_arr) = arg.downcast::<PyRumpyArray>() {
+            check_real(&py_arr.borrow().inner, "gradient")?;
             (None, Some(py_arr.borrow().inner.clone()))
         } else {
             return Err(pyo3::exceptions::PyTypeError::new_err(
@@ -108,7 +115,11 @@ pub fn trapezoid(
     dx: f64,
     axis: isize,
 ) -> PyResult<PyRumpyArray> {
+    check_real(&y.inner, "trapezoid")?;
     let x_inner = x.map(|a| &a.inner);
+    if let Some(x) = x_inner {
+        check_real(x, "trapezoid")?;
+    }
     crate::ops::numerical::trapezoid(&y.inner, x_inner, dx, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -126,6 +137,9 @@ pub fn interp(
     left: Option<f64>,
     right: Option<f64>,
 ) -> PyResult<PyRumpyArray> {
+    for arr in [x, xp, fp] {
+        check_real(&arr.inner, "interp")?;
+    }
     crate::ops::numerical::interp(&x.inner, &xp.inner, &fp.inner, left, right)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index c125d4f..bfd5522 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -7,7 +7,7 @@ use super::{
     ReductionResult,
 };
 use crate::array::{DType, RumpyArray};
-use crate::python::reductions::check_reducible;
+use crate::python::reductions::{check_real, check_reducible};
 
 #[pymethods]
 impl PyRumpyArray {
@@ -133,6 +133,7 @@ impl PyRumpyArray {
     /// Central moment of order k.
     #[pyo3(signature = (k, axis=None, keepdims=false))]
     fn moment(&self, k: usize, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        check_real(&self.inner, "moment")?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -155,6 +156,7 @@ impl PyRumpyArray {
     /// Skewness (Fisher's definition).
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn skew(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        check_real(&self.inner, "skew")?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -177,6 +179,7 @@ impl PyRumpyArray {
     /// Kurtosis (Fisher's definition: excess kurtosis, normal = 0).
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn kurtosis(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        check_real(&self.inner, "kurtosis")?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -198,6 +201,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None))]
     fn argmax(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
+        check_reducible(&self.inner, "argmax")?;
         match axis {
             None => Ok(ReductionResult::Scalar(self.inner.argmax() as f64)),
             Some(ax) => {
@@ -212,6 +216,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None))]
     fn argmin(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
+        check_reducible(&self.inner, "argmin")?;
         match axis {
             None => Ok(ReductionResult::Scalar(self.inner.argmin() as f64)),
             Some(ax) => {
@@ -227,6 +232,7 @@ impl PyRumpyArray {
     /// Test if all elements evaluate to True.
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn all(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        check_reducible(&self.inner, "all")?;
         let val = if self.inner.all() { 1.0 } else { 0.0 };
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
@@ -250,6 +256,7 @@ impl PyRumpyArray {
     /// Test if any element evaluates to True.
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn any(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        check_reducible(&self.inner, "any")?;
         let val = if self.inner.any() { 1.0 } else { 0.0 };
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 72ffa1d..07b1be2 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -472,8 +472,9 @@ impl PyRumpyArray {
 
     /// Clip values to a range.
     #[pyo3(signature = (a_min=None, a_max=None))]
-    fn clip(&self, a_min: Option<f64>, a_max: Option<f64>) -> Self {
-        Self::new(self.inner.clip(a_min, a_max))
+    fn clip(&self, a_min: Option<f64>, a_max: Option<f64>) -> PyResult<Self> {
+        crate::python::reductions::check_real(&self.inner, "clip")?;
+        Ok(Self::new(self.inner.clip(a_min, a_max)))
     }
 
     /// Round to the given number of decimals.
@@ -719,6 +720,7 @@ impl PyRumpyArray {
     /// Peak-to-peak (maximum - minimum) value.
     #[pyo3(signature = (axis=None))]
     fn ptp(&self, axis: Option<usize>) -> PyResult<ReductionResult> {
+        crate::python::reductions::check_reducible(&self.inner, "ptp")?;
         match axis {
             None => Ok(ReductionResult::Scalar(self.inner.ptp())),
             Some(ax) => {
@@ -1345,7 +1347,10 @@ fn comparison_op_dispatch(
             pyo3::exceptions::PyTypeError::new_err("comparison not supported for these dtypes")
         })
     } else if let Ok(scalar) = other.extract::<f64>() {
-        Ok(PyRumpyArray::new(arr.compare_scalar(scalar, op)))
+        let scalar = RumpyArray::full(vec![], scalar, DType::float64());
+        arr.compare(&scalar, op).map(PyRumpyArray::new).ok_or_else(|| {
+            pyo3::exceptions::PyTypeError::new_err("comparison not supported for these dtypes")
+        })
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index a401672..102ed26 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -38,14 +38,33 @@ pub fn check_axis_isize(axis: isize, ndim: usize) -> PyResult<usize> {
     Ok(resolve_axis(axis, ndim))
 }
 
-/// Refuse a reduction that has no meaning for text (str and bytes), dates or durations.
+/// Refuse anything but real numbers (complex values, text, dates and durations), for functions that compute with f64.
+pub fn check_real(arr: &RumpyArray, name: &str) -> PyResult<()> {
+    use crate::array::dtype::DTypeKind;
+    match arr.dtype().kind() {
+        DTypeKind::Str(_) | DTypeKind::Bytes(_) | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_)
+        | DTypeKind::Complex64 | DTypeKind::Complex128 => Err(pyo3::exceptions::PyTypeError::new_err(format!(
+            "{} is not supported for dtype {}", name, arr.dtype().ops().name()
+        ))),
+        _ => Ok(()),
+    }
+}
+
+/// Refuse a reduction that has no meaning for text (str and bytes), dates or durations,
+/// or that is not implemented for complex numbers.
 pub fn check_reducible(arr: &RumpyArray, name: &str) -> PyResult<()> {
     use crate::array::dtype::DTypeKind;
     let refused = match arr.dtype().kind() {
         DTypeKind::Str(_) | DTypeKind::Bytes(_) => true,
         // Dates can only be ordered; durations can be added as well
-        DTypeKind::DateTime64(_) => !matches!(name, "max" | "min" | "amax" | "amin" | "nanmax" | "nanmin" | "ptp"),
-        DTypeKind::TimeDelta64(_) => name.contains("prod") || name.contains("var") || name.contains("std"),
+        DTypeKind::DateTime64(_) => !matches!(name, "max" | "min" | "amax" | "amin" | "argmax" | "argmin" | "ptp" | "any" | "all"),
+        DTypeKind::TimeDelta64(_) => {
+            name.contains("prod") || name.contains("var") || name.contains("std")
+                || matches!(name, "nanmax" | "nanmin" | "nanargmax" | "nanargmin")
+        }
+        DTypeKind::Complex64 | DTypeKind::Complex128 => {
+            !matches!(name, "sum" | "prod" | "mean" | "cumsum" | "cumprod" | "any" | "all")
+        }
         _ => false,
     };
     if refused {
@@ -255,6 +274,7 @@ pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    check_reducible(&x.inner, "argmax")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmax() as f64)),
@@ -272,6 +292,7 @@ pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    check_reducible(&x.inner, "argmin")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmin() as f64)),
@@ -419,6 +440,7 @@ pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::ReductionResult> {
+    check_reducible(&x.inner, "nanargmin")?;
     match axis {
         None => {
             match x.inner.nanargmin() {
@@ -440,6 +462,7 @@ pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::ReductionResult> {
+    check_reducible(&x.inner, "nanargmax")?;
     match axis {
         None => {
             match x.inner.nanargmax() {
@@ -465,6 +488,7 @@ pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn all(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    check_reducible(&x.inner, "all")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(if x.inner.all() { 1.0 } else { 0.0 })),
@@ -482,6 +506,7 @@ pub fn all(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn any(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
+    check_reducible(&x.inner, "any")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(if x.inner.any() { 1.0 } else { 0.0 })),
@@ -571,6 +596,10 @@ pub fn average(
     axis: Option<isize>,
     weights: Option<&PyRumpyArray>,
 ) -> PyResult<pyarray::ReductionResult> {
+    check_real(&x.inner, "average")?;
+    if let Some(w) = weights {
+        check_real(&w.inner, "average")?;
+    }
     match axis {
         None => {
             let weights_inner = weights.map(|w| &w.inner);
@@ -613,6 +642,7 @@ pub fn histogram(
     bins: usize,
     range: Option<(f64, f64)>,
 ) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
+    check_real(&x.inner, "histogram")?;
     let (counts, edges) = crate::ops::histogram(&x.inner, bins, range);
     Ok((PyRumpyArray::new(counts), PyRumpyArray::new(edges)))
 }
@@ -625,6 +655,7 @@ pub fn histogram_bin_edges(
     bins: Option<&pyo3::Bound<'_, pyo3::PyAny>>,
     range: Option<(f64, f64)>,
 ) -> PyResult<PyRumpyArray> {
+    check_real(&a.inner, "histogram_bin_edges")?;
     let Some(bins) = bins else {
         return Ok(PyRumpyArray::new(crate::ops::histogram_bin_edges(&a.inner, 10, range)));
     };
@@ -655,6 +686,8 @@ pub fn histogram2d(
     range: Option<Vec<Vec<f64>>>,
     density: Option<bool>,
 ) -> PyResult<(PyRumpyArray, PyRumpyArray, PyRumpyArray)> {
+    check_real(&x.inner, "histogram2d")?;
+    check_real(&y.inner, "histogram2d")?;
     // Parse bins - can be single integer or [bins_x, bins_y]
     let (bins_x, bins_y): (usize, usize) = match bins {
         None => (10, 10),
@@ -703,6 +736,7 @@ pub fn histogramdd(
     range: Option<Vec<Vec<f64>>>,
     density: Option<bool>,
 ) -> PyResult<(PyRumpyArray, Vec<PyRumpyArray>)> {
+    check_real(&sample.inner, "histogramdd")?;
     // Parse bins - can be single integer or list of integers per dimension
     let bins_vec: Vec<usize> = match bins {
         None => vec![10],
@@ -753,14 +787,16 @@ pub fn histogramdd(
 /// Compute covariance matrix.
 #[pyfunction]
 #[pyo3(name = "cov", signature = (x, ddof=1))]
-pub fn cov_fn(x: &PyRumpyArray, ddof: usize) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::cov(&x.inner, ddof))
+pub fn cov_fn(x: &PyRumpyArray, ddof: usize) -> PyResult<PyRumpyArray> {
+    check_real(&x.inner, "cov")?;
+    Ok(PyRumpyArray::new(crate::ops::cov(&x.inner, ddof)))
 }
 
 /// Compute correlation coefficient matrix.
 #[pyfunction]
-pub fn corrcoef(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::corrcoef(&x.inner))
+pub fn corrcoef(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    check_real(&x.inner, "corrcoef")?;
+    Ok(PyRumpyArray::new(crate::ops::corrcoef(&x.inner)))
 }
 
 /// Count occurrences of each non-negative integer value.
@@ -776,6 +812,7 @@ pub fn bincount(x: &PyRumpyArray, minlength: usize) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
 pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+    check_real(&a.inner, "percentile")?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -801,6 +838,7 @@ pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opti
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
 pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+    check_real(&a.inner, "quantile")?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -832,8 +870,13 @@ pub fn count_nonzero(x: &PyRumpyArray) -> usize {
 
 #[pyfunction]
 #[pyo3(signature = (x, n=1, axis=-1))]
-pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.diff(n, resolve_axis(axis, x.inner.ndim())))
+pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyResult<PyRumpyArray> {
+    use crate::array::dtype::DTypeKind;
+    if let DTypeKind::Str(_) | DTypeKind::Bytes(_) = x.inner.dtype().kind() {
+        return Err(pyo3::exceptions::PyTypeError::new_err("diff is not supported for text"));
+    }
+    let axis = check_axis_isize(axis, x.inner.ndim())?;
+    Ok(PyRumpyArray::new(x.inner.diff(n, axis)))
 }
 
 // ============================================================================
@@ -882,6 +925,7 @@ pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyR
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
 pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+    check_real(&a.inner, "nanpercentile")?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -907,6 +951,7 @@ pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: O
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
 pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+    check_real(&a.inner, "nanquantile")?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -940,6 +985,11 @@ pub fn nancumsum(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
     }).transpose()?;
+    // Without NaN to skip, the plain function has the right (wider) accumulator
+    if !matches!(x.inner.dtype().kind(), crate::array::dtype::DTypeKind::Float16
+        | crate::array::dtype::DTypeKind::Float32 | crate::array::dtype::DTypeKind::Float64) {
+        return Ok(PyRumpyArray::new(x.inner.cumsum(normalized_axis)));
+    }
     Ok(PyRumpyArray::new(x.inner.nancumsum(normalized_axis)))
 }
 
@@ -952,5 +1002,10 @@ pub fn nancumprod(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArra
         let ax = resolve_axis(ax, x.inner.ndim());
         check_axis(ax, x.inner.ndim()).map(|_| ax)
     }).transpose()?;
+    // Without NaN to skip, the plain function has the right (wider) accumulator
+    if !matches!(x.inner.dtype().kind(), crate::array::dtype::DTypeKind::Float16
+        | crate::array::dtype::DTypeKind::Float32 | crate::array::dtype::DTypeKind::Float64) {
+        return Ok(PyRumpyArray::new(x.inner.cumprod(normalized_axis)));
+    }
     Ok(PyRumpyArray::new(x.inner.nancumprod(normalized_axis)))
 }
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 977604f..5e7fd66 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -762,8 +762,9 @@ pub fn right_shift(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArra
 /// Clip (limit) values in an array.
 #[pyfunction]
 #[pyo3(signature = (x, a_min=None, a_max=None))]
-pub fn clip(x: &PyRumpyArray, a_min: Option<f64>, a_max: Option<f64>) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.clip(a_min, a_max))
+pub fn clip(x: &PyRumpyArray, a_min: Option<f64>, a_max: Option<f64>) -> PyResult<PyRumpyArray> {
+    super::reductions::check_real(&x.inner, "clip")?;
+    Ok(PyRumpyArray::new(x.inner.clip(a_min, a_max)))
 }
 
 #[pyfunction]
-- 
2.43.0


From ad7775bc741faf05a191435cbcaefeadebc54e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:07 +0000
Subject: [PATCH 39/51] fix: empty-lanes: reductions of nothing refuse or give
 NaN; repeated axes refused

---
 src/array/manipulation.rs                |  2 +-
 src/ops/array_methods/logical.rs         |  5 +-
 src/ops/array_methods/reductions.rs      |  2 +-
 src/ops/statistics.rs                    | 22 +++++----
 src/python/pyarray/methods_reductions.rs | 18 ++++++-
 src/python/reductions.rs                 | 60 ++++++++++++++++++++++--
 6 files changed, 94 insertions(+), 15 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 15c7ae7..5f165f7 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -437,7 +437,7 @@ fn nanpercentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyA
 
     let reduced_size: usize = reduced_shape.iter().product();
     if axis_len == 0 || reduced_size == 0 {
-        return Some(RumpyArray::zeros(out_shape, DType::float64()));
+        return Some(RumpyArray::full(out_shape, f64::NAN, DType::float64()));
     }
 
     let mut result = RumpyArray::zeros(out_shape, DType::float64());
diff --git a/src/ops/array_methods/logical.rs b/src/ops/array_methods/logical.rs
index c8c6e89..582b461 100644
--- a/src/ops/array_methods/logical.rs
+++ b/src/ops/array_methods/logical.rs
@@ -52,7 +52,10 @@ impl RumpyArray {
 
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
         let out_size = result.size();
-        if out_size == 0 || axis_len == 0 {
+        if axis_len == 0 {
+            return RumpyArray::full(out_shape, 1.0, DType::bool());
+        }
+        if out_size == 0 {
             return result;
         }
 
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index cbb9cf6..12f287d 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -706,7 +706,7 @@ impl RumpyArray {
 
         let mut result = RumpyArray::zeros(out_shape.clone(), result_dtype.clone());
         let out_size = result.size();
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index e1ed628..5f0d92b 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -369,13 +369,13 @@ pub fn cov(arr: &RumpyArray, ddof: usize) -> RumpyArray {
 /// Compute Pearson correlation coefficient matrix.
 /// Input should be 2D with each row representing a variable.
 pub fn corrcoef(arr: &RumpyArray) -> RumpyArray {
-    // For 1D input, return 1x1 matrix with 1.0 (perfect correlation with itself)
-    if arr.ndim() == 1 {
-        return RumpyArray::from_vec(vec![1.0], DType::float64()).reshape(vec![1, 1]).unwrap();
-    }
-
     // Compute covariance matrix first
     let cov_matrix = cov(arr, 1);
+    if arr.ndim() == 1 {
+        // Perfect correlation with itself, unless there is no variance to divide by
+        let variance = cov_matrix.to_vec()[0];
+        return RumpyArray::full(vec![1, 1], variance / variance, DType::float64());
+    }
     let shape = cov_matrix.shape();
     let nvars = shape[0];
 
@@ -394,7 +394,7 @@ pub fn corrcoef(arr: &RumpyArray) -> RumpyArray {
             let std_j = diag.get_element(&[j]).sqrt();
             let cov_ij = cov_matrix.get_element(&[i, j]);
             let corr = if std_i == 0.0 || std_j == 0.0 {
-                if i == j { 1.0 } else { f64::NAN }
+                f64::NAN
             } else {
                 cov_ij / (std_i * std_j)
             };
@@ -445,7 +445,10 @@ impl RumpyArray {
         let out_size: usize = out_shape.iter().product();
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::float64());
 
-        if out_size == 0 || axis_len == 0 {
+        if axis_len == 0 {
+            return RumpyArray::full(out_shape, f64::NAN, DType::float64());
+        }
+        if out_size == 0 {
             return result;
         }
 
@@ -574,9 +577,12 @@ impl RumpyArray {
         out_shape.extend_from_slice(&shape[axis + 1..]);
 
         let out_size: usize = out_shape.iter().product();
+        if axis_len == 0 {
+            return RumpyArray::full(out_shape, f64::NAN, DType::float64());
+        }
         let mut result = RumpyArray::zeros(out_shape, DType::float64());
 
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index bfd5522..378ad10 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -7,7 +7,7 @@ use super::{
     ReductionResult,
 };
 use crate::array::{DType, RumpyArray};
-use crate::python::reductions::{check_real, check_reducible};
+use crate::python::reductions::{check_nonempty, check_real, check_reducible};
 
 #[pymethods]
 impl PyRumpyArray {
@@ -48,11 +48,15 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn max(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         check_reducible(&self.inner, "max")?;
+        if axis.is_none() {
+            check_nonempty(&self.inner, None, "max")?;
+        }
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::max, RumpyArray::max_axis)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_nonempty(&self.inner, Some(&[ax]), "max")?;
                 Ok(axis_reduction_with_keepdims(
                     self.inner.max_axis(ax),
                     ax,
@@ -65,11 +69,15 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn min(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         check_reducible(&self.inner, "min")?;
+        if axis.is_none() {
+            check_nonempty(&self.inner, None, "min")?;
+        }
         match axis {
             None => Ok(full_reduction(&self.inner, keepdims, RumpyArray::min, RumpyArray::min_axis)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_nonempty(&self.inner, Some(&[ax]), "min")?;
                 Ok(axis_reduction_with_keepdims(
                     self.inner.min_axis(ax),
                     ax,
@@ -202,11 +210,15 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None))]
     fn argmax(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
         check_reducible(&self.inner, "argmax")?;
+        if axis.is_none() {
+            check_nonempty(&self.inner, None, "argmax")?;
+        }
         match axis {
             None => Ok(ReductionResult::Scalar(self.inner.argmax() as f64)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_nonempty(&self.inner, Some(&[ax]), "argmax")?;
                 Ok(ReductionResult::Array(Self::new(
                     self.inner.argmax_axis(ax),
                 )))
@@ -217,11 +229,15 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None))]
     fn argmin(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
         check_reducible(&self.inner, "argmin")?;
+        if axis.is_none() {
+            check_nonempty(&self.inner, None, "argmin")?;
+        }
         match axis {
             None => Ok(ReductionResult::Scalar(self.inner.argmin() as f64)),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_nonempty(&self.inner, Some(&[ax]), "argmin")?;
                 Ok(ReductionResult::Array(Self::new(
                     self.inner.argmin_axis(ax),
                 )))
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 102ed26..83ef191 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -60,7 +60,7 @@ pub fn check_reducible(arr: &RumpyArray, name: &str) -> PyResult<()> {
         DTypeKind::DateTime64(_) => !matches!(name, "max" | "min" | "amax" | "amin" | "argmax" | "argmin" | "ptp" | "any" | "all"),
         DTypeKind::TimeDelta64(_) => {
             name.contains("prod") || name.contains("var") || name.contains("std")
-                || matches!(name, "nanmax" | "nanmin" | "nanargmax" | "nanargmin")
+                || matches!(name, "median" | "nanmedian" | "nanmean" | "nanmax" | "nanmin" | "nanargmax" | "nanargmin")
         }
         DTypeKind::Complex64 | DTypeKind::Complex128 => {
             !matches!(name, "sum" | "prod" | "mean" | "cumsum" | "cumprod" | "any" | "all")
@@ -75,6 +75,28 @@ pub fn check_reducible(arr: &RumpyArray, name: &str) -> PyResult<()> {
     Ok(())
 }
 
+/// Refuse an extreme of no elements: there is no first, largest or smallest one.
+pub fn check_nonempty(arr: &RumpyArray, axes: Option<&[usize]>, name: &str) -> PyResult<()> {
+    let empty = match axes {
+        None => arr.size() == 0,
+        Some(axes) => axes.iter().any(|&ax| arr.shape()[ax] == 0),
+    };
+    if empty {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!("{} of an empty sequence is not defined", name)));
+    }
+    Ok(())
+}
+
+/// Refuse a repeated axis.
+fn check_distinct(axes: Vec<usize>) -> PyResult<Option<Vec<usize>>> {
+    for (i, ax) in axes.iter().enumerate() {
+        if axes[..i].contains(ax) {
+            return Err(pyo3::exceptions::PyValueError::new_err("duplicate value in 'axis'"));
+        }
+    }
+    Ok(Some(axes))
+}
+
 /// Parse axis parameter - can be None, a single int, or a tuple of ints.
 /// Returns None if axis is None, or Some(Vec<usize>) with normalized axes.
 fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Option<Vec<usize>>> {
@@ -99,7 +121,7 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
                 if axes.is_empty() {
                     return Err(pyo3::exceptions::PyValueError::new_err("axis tuple cannot be empty"));
                 }
-                Ok(Some(axes))
+                check_distinct(axes)
             }
             // Try to extract as a list
             else if let Ok(list) = obj.extract::<Vec<isize>>() {
@@ -112,7 +134,7 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
                 if axes.is_empty() {
                     return Err(pyo3::exceptions::PyValueError::new_err("axis list cannot be empty"));
                 }
-                Ok(Some(axes))
+                check_distinct(axes)
             }
             else {
                 Err(pyo3::exceptions::PyTypeError::new_err(
@@ -240,6 +262,7 @@ pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     check_reducible(&x.inner, "max")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
+    check_nonempty(&x.inner, axes.as_deref(), "max")?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.max())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -258,6 +281,7 @@ pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     check_reducible(&x.inner, "min")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
+    check_nonempty(&x.inner, axes.as_deref(), "min")?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.min())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -276,6 +300,7 @@ pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     check_reducible(&x.inner, "argmax")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
+    check_nonempty(&x.inner, axes.as_deref(), "argmax")?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmax() as f64)),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -294,6 +319,7 @@ pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     check_reducible(&x.inner, "argmin")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
+    check_nonempty(&x.inner, axes.as_deref(), "argmin")?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmin() as f64)),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -406,6 +432,7 @@ pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     check_reducible(&x.inner, "nanmin")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
+    check_nonempty(&x.inner, axes.as_deref(), "nanmin")?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmin())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -424,6 +451,7 @@ pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     check_reducible(&x.inner, "nanmax")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
+    check_nonempty(&x.inner, axes.as_deref(), "nanmax")?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmax())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -453,6 +481,7 @@ pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
+            check_nonempty(&x.inner, Some(&[ax]), "nanargmin")?;
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanargmin_axis(ax))))
         }
     }
@@ -475,6 +504,7 @@ pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
+            check_nonempty(&x.inner, Some(&[ax]), "nanargmax")?;
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanargmax_axis(ax))))
         }
     }
@@ -608,6 +638,7 @@ pub fn average(
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
+            check_nonempty(&x.inner, Some(&[ax]), "average")?;
             let weights_inner = weights.map(|w| &w.inner);
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(
                 x.inner.average_axis(ax, weights_inner),
@@ -622,6 +653,7 @@ pub fn average(
 pub fn ptp(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     check_reducible(&x.inner, "ptp")?;
     let axes = parse_axis(axis, x.inner.ndim())?;
+    check_nonempty(&x.inner, axes.as_deref(), "ptp")?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.ptp())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -643,6 +675,9 @@ pub fn histogram(
     range: Option<(f64, f64)>,
 ) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
     check_real(&x.inner, "histogram")?;
+    if bins == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("`bins` must be positive"));
+    }
     let (counts, edges) = crate::ops::histogram(&x.inner, bins, range);
     Ok((PyRumpyArray::new(counts), PyRumpyArray::new(edges)))
 }
@@ -672,6 +707,9 @@ pub fn histogram_bin_edges(
     let nbins: usize = bins.extract().map_err(|_| {
         pyo3::exceptions::PyTypeError::new_err("bins must be an integer or array-like")
     })?;
+    if nbins == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("`bins` must be positive"));
+    }
 
     Ok(PyRumpyArray::new(crate::ops::histogram_bin_edges(&a.inner, nbins, range)))
 }
@@ -789,6 +827,9 @@ pub fn histogramdd(
 #[pyo3(name = "cov", signature = (x, ddof=1))]
 pub fn cov_fn(x: &PyRumpyArray, ddof: usize) -> PyResult<PyRumpyArray> {
     check_real(&x.inner, "cov")?;
+    if !matches!(x.inner.ndim(), 1 | 2) {
+        return Err(pyo3::exceptions::PyValueError::new_err("cov takes a one- or two-dimensional array"));
+    }
     Ok(PyRumpyArray::new(crate::ops::cov(&x.inner, ddof)))
 }
 
@@ -796,6 +837,9 @@ pub fn cov_fn(x: &PyRumpyArray, ddof: usize) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 pub fn corrcoef(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     check_real(&x.inner, "corrcoef")?;
+    if !matches!(x.inner.ndim(), 1 | 2) {
+        return Err(pyo3::exceptions::PyValueError::new_err("corrcoef takes a one- or two-dimensional array"));
+    }
     Ok(PyRumpyArray::new(crate::ops::corrcoef(&x.inner)))
 }
 
@@ -808,11 +852,20 @@ pub fn bincount(x: &PyRumpyArray, minlength: usize) -> PyResult<PyRumpyArray> {
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("bincount requires 1D non-negative integer array"))
 }
 
+/// Refuse a quantile of no elements.
+fn check_quantile(arr: &RumpyArray, axis: Option<usize>) -> PyResult<()> {
+    if let Some(ax) = axis {
+        check_axis(ax, arr.ndim())?;
+    }
+    check_nonempty(arr, axis.as_ref().map(std::slice::from_ref), "quantile")
+}
+
 /// Compute percentiles of a dataset.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
 pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
     check_real(&a.inner, "percentile")?;
+    check_quantile(&a.inner, axis)?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -839,6 +892,7 @@ pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opti
 #[pyo3(signature = (a, q, axis=None))]
 pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
     check_real(&a.inner, "quantile")?;
+    check_quantile(&a.inner, axis)?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
-- 
2.43.0


From 8ae90269aca0c531548d8082c5dfe524b7991067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:07 +0000
Subject: [PATCH 40/51] fix: argument-range: refuse axes, counts and indices
 outside their range instead of panicking or guessing

---
 src/python/fft.rs       | 14 +++++---
 src/python/indexing.rs  | 48 ++++++++++++++-----------
 src/python/misc.rs      |  8 ++---
 src/python/numerical.rs | 10 ++++++
 src/python/shape.rs     | 80 ++++++++++++++++++++++++++++-------------
 5 files changed, 107 insertions(+), 53 deletions(-)

diff --git a/src/python/fft.rs b/src/python/fft.rs
index f29ac4c..121f4d7 100644
--- a/src/python/fft.rs
+++ b/src/python/fft.rs
@@ -94,15 +94,21 @@ pub fn ifftshift(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Return FFT sample frequencies.
 #[pyfunction]
 #[pyo3(signature = (n, d=1.0))]
-pub fn fftfreq(n: usize, d: f64) -> PyRumpyArray {
-    PyRumpyArray::new(fft_ops::fftfreq(n, d))
+pub fn fftfreq(n: usize, d: f64) -> PyResult<PyRumpyArray> {
+    if n == 0 {
+        return Err(pyo3::exceptions::PyZeroDivisionError::new_err("the window length must be positive"));
+    }
+    Ok(PyRumpyArray::new(fft_ops::fftfreq(n, d)))
 }
 
 /// Return FFT sample frequencies for rfft.
 #[pyfunction]
 #[pyo3(signature = (n, d=1.0))]
-pub fn rfftfreq(n: usize, d: f64) -> PyRumpyArray {
-    PyRumpyArray::new(fft_ops::rfftfreq(n, d))
+pub fn rfftfreq(n: usize, d: f64) -> PyResult<PyRumpyArray> {
+    if n == 0 {
+        return Err(pyo3::exceptions::PyZeroDivisionError::new_err("the window length must be positive"));
+    }
+    Ok(PyRumpyArray::new(fft_ops::rfftfreq(n, d)))
 }
 
 /// N-dimensional FFT.
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 1ae0945..2df93db 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -73,6 +73,14 @@ pub fn compress(
         ));
     };
 
+    let n = match axis {
+        None => a.inner.size(),
+        Some(ax) => a.inner.shape().get(ax).copied().unwrap_or(usize::MAX),
+    };
+    if cond_vec.iter().skip(n).any(|&c| c) {
+        return Err(pyo3::exceptions::PyIndexError::new_err("condition selects beyond the end of the axis"));
+    }
+
     crate::ops::indexing::compress(&cond_vec, &a.inner, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("axis out of bounds"))
@@ -192,6 +200,7 @@ pub fn choose(a: &PyRumpyArray, choices: &Bound<'_, PyList>) -> PyResult<PyRumpy
         .collect();
     let choice_arrs = choice_arrs?;
 
+    super::ufuncs::check_integer(&a.inner, "choose")?;
     crate::ops::indexing::choose(&a.inner, &choice_arrs)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -391,6 +400,7 @@ pub fn unravel_index(
     } else if let Ok(list) = indices.extract::<Vec<i64>>() {
         list
     } else if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+        super::ufuncs::check_integer(&arr.inner, "unravel_index")?;
         let ptr = arr.inner.data_ptr();
         let dtype = arr.inner.dtype();
         let ops = dtype.ops();
@@ -696,14 +706,8 @@ pub fn packbits(
     a: &PyRumpyArray,
     axis: Option<isize>,
     bitorder: &str,
-) -> PyRumpyArray {
-    let resolved_axis = axis.map(|ax| {
-        if ax < 0 {
-            (a.inner.ndim() as isize + ax) as usize
-        } else {
-            ax as usize
-        }
-    });
+) -> PyResult<PyRumpyArray> {
+    let resolved_axis = axis.map(|ax| super::shape::checked_axis(ax, a.inner.ndim())).transpose()?;
 
     // axis=None means flatten first (use default axis)
     let actual_axis = if axis.is_none() {
@@ -712,7 +716,7 @@ pub fn packbits(
         resolved_axis
     };
 
-    PyRumpyArray::new(crate::ops::indexing::packbits(&a.inner, actual_axis, bitorder))
+    Ok(PyRumpyArray::new(crate::ops::indexing::packbits(&a.inner, actual_axis, bitorder)))
 }
 
 /// Unpack elements of uint8 array into binary-valued output.
@@ -723,16 +727,13 @@ pub fn unpackbits(
     axis: Option<isize>,
     count: Option<usize>,
     bitorder: &str,
-) -> PyRumpyArray {
-    let resolved_axis = axis.map(|ax| {
-        if ax < 0 {
-            (a.inner.ndim() as isize + ax) as usize
-        } else {
-            ax as usize
-        }
-    });
+) -> PyResult<PyRumpyArray> {
+    let resolved_axis = axis.map(|ax| super::shape::checked_axis(ax, a.inner.ndim())).transpose()?;
+    if a.inner.dtype() != crate::array::DType::uint8() {
+        return Err(pyo3::exceptions::PyTypeError::new_err("unpackbits takes an array of uint8"));
+    }
 
-    PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder))
+    Ok(PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder)))
 }
 
 // ============================================================================
@@ -764,12 +765,19 @@ pub fn ix_(_py: Python<'_>, args: &Bound<'_, pyo3::types::PyTuple>) -> PyResult<
             ));
         }
 
+        // A mask stands for the positions where it is true
+        let indices = if arr.inner.dtype().kind() == crate::array::dtype::DTypeKind::Bool {
+            crate::ops::indexing::flatnonzero(&arr.inner)
+        } else {
+            arr.inner.clone()
+        };
+
         // Build the shape: (1, 1, ..., len, ..., 1)
         let mut new_shape = vec![1usize; n];
-        new_shape[i] = arr.inner.size();
+        new_shape[i] = indices.size();
 
         // Reshape the array
-        let reshaped = arr.inner.reshape(new_shape).expect("reshape failed");
+        let reshaped = indices.reshape(new_shape).expect("reshape failed");
         result.push(PyRumpyArray::new(reshaped));
     }
 
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 3ef03a0..cbcfd78 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -770,6 +770,9 @@ pub fn select(
     }
     let out_dtype = choicelist[1..].iter()
         .fold(choicelist[0].inner.dtype(), |acc, c| crate::array::promote_dtype(&acc, &c.inner.dtype()));
+    for c in &choicelist {
+        super::ufuncs::require_number(&c.inner)?;
+    }
     let condlist: Vec<RumpyArray> = condlist.iter().map(|c| as_bool(&c.inner)).collect();
     let choicelist: Vec<RumpyArray> = choicelist.iter()
         .map(|c| if c.inner.dtype() == out_dtype { c.inner.clone() } else { c.inner.astype(out_dtype.clone()) })
@@ -1035,10 +1038,6 @@ pub fn unwrap(
     super::reductions::check_real(inner, "unwrap")?;
     let ndim = inner.ndim();
 
-    if ndim == 0 {
-        return Ok(PyRumpyArray::new(inner.clone()));
-    }
-
     let axis = resolve_axis(axis, ndim)?;
     let period = period.unwrap_or(2.0 * std::f64::consts::PI);
     let discont = discont.unwrap_or(period / 2.0);
@@ -1108,6 +1107,7 @@ pub fn unwrap(
 #[pyo3(signature = (z, deg=false))]
 pub fn angle(z: &PyRumpyArray, deg: bool) -> PyResult<PyRumpyArray> {
     let inner = &z.inner;
+    super::ufuncs::require_number(inner)?;
 
     let mut result = RumpyArray::zeros(inner.shape().to_vec(), DType::float64());
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
diff --git a/src/python/numerical.rs b/src/python/numerical.rs
index 79b2f46..be2aeb0 100644
--- a/src/python/numerical.rs
+++ b/src/python/numerical.rs
@@ -14,6 +14,9 @@ use super::reductions::check_real;
 pub fn convolve(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRumpyArray> {
     check_real(&a.inner, "convolve")?;
     check_real(&v.inner, "convolve")?;
+    if a.inner.size() == 0 || v.inner.size() == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("convolve of an empty array"));
+    }
     crate::array::convolve(&a.inner, &v.inner, mode)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -27,6 +30,9 @@ pub fn convolve(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRu
 pub fn correlate(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRumpyArray> {
     check_real(&a.inner, "correlate")?;
     check_real(&v.inner, "correlate")?;
+    if a.inner.size() == 0 || v.inner.size() == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("correlate of an empty array"));
+    }
     crate::ops::numerical::correlate(&a.inner, &v.inner, mode)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -116,6 +122,7 @@ pub fn trapezoid(
     axis: isize,
 ) -> PyResult<PyRumpyArray> {
     check_real(&y.inner, "trapezoid")?;
+    super::reductions::check_axis_isize(axis, y.inner.ndim())?;
     let x_inner = x.map(|a| &a.inner);
     if let Some(x) = x_inner {
         check_real(x, "trapezoid")?;
@@ -140,6 +147,9 @@ pub fn interp(
     for arr in [x, xp, fp] {
         check_real(&arr.inner, "interp")?;
     }
+    if xp.inner.size() == 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err("array of sample points is empty"));
+    }
     crate::ops::numerical::interp(&x.inner, &xp.inner, &fp.inner, left, right)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 87fd19a..4858f5c 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::PyList;
 
 use crate::array::{DType, RumpyArray};
-use super::{PyRumpyArray, creation, reductions::resolve_axis};
+use super::{PyRumpyArray, creation};
 
 /// Convert a Python object to RumpyArray (for concatenate, etc.)
 pub fn to_rumpy_array(obj: &Bound<'_, pyo3::PyAny>) -> PyResult<RumpyArray> {
@@ -49,6 +49,10 @@ pub fn reshape(a: &PyRumpyArray, newshape: &Bound<'_, pyo3::PyAny>) -> PyResult<
         ));
     };
 
+    if newshape.iter().any(|&x| x < -1) {
+        return Err(pyo3::exceptions::PyValueError::new_err("negative dimensions are not allowed"));
+    }
+
     // Handle -1 in shape (infer dimension)
     let total = a.inner.size();
     let neg_one_count = newshape.iter().filter(|&&x| x == -1).count();
@@ -102,11 +106,33 @@ pub fn flatten(a: &PyRumpyArray) -> PyRumpyArray {
 /// Permute the dimensions of an array.
 #[pyfunction]
 #[pyo3(signature = (a, axes=None))]
-pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyRumpyArray {
+pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<isize>>) -> PyResult<PyRumpyArray> {
     match axes {
-        Some(ax) => PyRumpyArray::new(a.inner.transpose_axes(&ax)),
-        None => PyRumpyArray::new(a.inner.transpose()),
+        Some(ax) => Ok(PyRumpyArray::new(a.inner.transpose_axes(&checked_permutation(&ax, a.inner.ndim())?))),
+        None => Ok(PyRumpyArray::new(a.inner.transpose())),
+    }
+}
+
+/// Resolve axes that must name every dimension exactly once.
+pub fn checked_permutation(axes: &[isize], ndim: usize) -> PyResult<Vec<usize>> {
+    let resolved = checked_distinct(axes, ndim)?;
+    if resolved.len() != ndim {
+        return Err(pyo3::exceptions::PyValueError::new_err("axes don't match array"));
+    }
+    Ok(resolved)
+}
+
+/// Resolve axes, refusing one that is out of range or repeated.
+fn checked_distinct(axes: &[isize], ndim: usize) -> PyResult<Vec<usize>> {
+    let mut resolved = Vec::with_capacity(axes.len());
+    for &ax in axes {
+        let ax = checked_axis(ax, ndim)?;
+        if resolved.contains(&ax) {
+            return Err(pyo3::exceptions::PyValueError::new_err("repeated axis"));
+        }
+        resolved.push(ax);
     }
+    Ok(resolved)
 }
 
 /// Interchange two axes of an array.
@@ -148,12 +174,8 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     let ndim = a.inner.ndim();
 
     // Normalize axes
-    let src: Vec<usize> = source.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
-    let dst: Vec<usize> = destination.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
+    let src = checked_distinct(&source, ndim)?;
+    let dst = checked_distinct(&destination, ndim)?;
 
     if src.len() != dst.len() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -180,16 +202,14 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
 #[pyo3(signature = (a, axis, start=0))]
 pub fn rollaxis(a: &PyRumpyArray, axis: isize, start: isize) -> PyResult<PyRumpyArray> {
     let ndim = a.inner.ndim();
-    let axis = resolve_axis(axis, ndim);
-    let start = if start < 0 {
-        (ndim as isize + start) as usize
-    } else {
-        (start as usize).min(ndim)
-    };
-
-    if axis >= ndim {
-        return Err(pyo3::exceptions::PyValueError::new_err("axis out of bounds"));
+    let axis = checked_axis(axis, ndim)?;
+    let n = ndim as isize;
+    if start < -n || start > n {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "start {} is out of bounds for array of dimension {}", start, ndim
+        )));
     }
+    let start = if start < 0 { (n + start) as usize } else { start as usize };
 
     // Build permutation: move axis to start position
     let mut order: Vec<usize> = (0..ndim).collect();
@@ -653,6 +673,7 @@ pub fn append(arr: &PyRumpyArray, values: &PyRumpyArray, axis: Option<isize>) ->
 pub fn insert(arr: &PyRumpyArray, index: isize, values: &Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
     // Parse values - can be scalar or array
     let values_arr = if let Ok(scalar) = values.extract::<f64>() {
+        creation::refuse_text(&arr.inner.dtype(), "insert")?;
         RumpyArray::full(vec![1], scalar, arr.inner.dtype())
     } else if let Ok(arr_ref) = values.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr_ref.inner.clone()
@@ -718,6 +739,16 @@ pub fn pad(
         ));
     };
 
+    if mode == "constant" {
+        creation::refuse_text(&arr.inner.dtype(), "pad")?;
+    }
+    if mode == "edge" {
+        for (&n, &(before, after)) in arr.inner.shape().iter().zip(&pad_spec) {
+            if n == 0 && before + after > 0 {
+                return Err(pyo3::exceptions::PyValueError::new_err("can't extend an empty axis using mode 'edge'"));
+            }
+        }
+    }
     crate::array::pad(&arr.inner, &pad_spec, mode, constant_values)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -729,6 +760,9 @@ pub fn pad(
 #[pyfunction]
 #[pyo3(signature = (arr, shift, axis=None))]
 pub fn roll(arr: &PyRumpyArray, shift: isize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    if let Some(ax) = axis {
+        checked_axis(ax, arr.inner.ndim())?;
+    }
     Ok(PyRumpyArray::new(crate::array::roll(&arr.inner, shift, axis)))
 }
 
@@ -743,12 +777,8 @@ pub fn rot90(arr: &PyRumpyArray, k: isize, axes: (isize, isize)) -> PyResult<PyR
         ));
     }
 
-    let ax0 = if axes.0 < 0 { (ndim as isize + axes.0) as usize } else { axes.0 as usize };
-    let ax1 = if axes.1 < 0 { (ndim as isize + axes.1) as usize } else { axes.1 as usize };
-
-    if ax0 >= ndim || ax1 >= ndim {
-        return Err(pyo3::exceptions::PyValueError::new_err("axes out of range"));
-    }
+    let ax0 = checked_axis(axes.0, ndim)?;
+    let ax1 = checked_axis(axes.1, ndim)?;
     if ax0 == ax1 {
         return Err(pyo3::exceptions::PyValueError::new_err("axes must be different"));
     }
-- 
2.43.0


From 2bbbbb4c4fffeb3c98d6d590454fbf88fe0929b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:11 +0000
Subject: [PATCH 41/51] fix: dtype-refusals: refuse operands and Python ints
 the operation cannot represent

---
 src/ops/bitwise.rs        |  8 ++++
 src/ops/poly.rs           |  3 ++
 src/ops/ufunc.rs          | 18 ++++++++
 src/python/creation.rs    | 14 +++++-
 src/python/linalg.rs      | 10 ++++
 src/python/pyarray/mod.rs | 96 +++++++++++++++++++++++++--------------
 src/python/reductions.rs  |  1 -
 src/python/ufuncs.rs      | 84 ++++++++++++++++++++++++++++++----
 8 files changed, 188 insertions(+), 46 deletions(-)

diff --git a/src/ops/bitwise.rs b/src/ops/bitwise.rs
index be56671..233cf88 100644
--- a/src/ops/bitwise.rs
+++ b/src/ops/bitwise.rs
@@ -131,12 +131,20 @@ pub fn bitwise_not(a: &RumpyArray) -> Option<RumpyArray> {
     map_unary_bitwise_not(a)
 }
 
+/// Only integers and booleans can be shifted.
+fn require_integers(a: &RumpyArray, b: &RumpyArray) -> Option<()> {
+    let shiftable = |x: &RumpyArray| x.dtype().is_integer() || x.dtype().kind() == crate::array::dtype::DTypeKind::Bool;
+    (shiftable(a) && shiftable(b)).then_some(())
+}
+
 /// Element-wise left shift.
 pub fn left_shift(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    require_integers(a, b)?;
     map_binary_bitwise(a, b, BitwiseOp::LeftShift)
 }
 
 /// Element-wise right shift.
 pub fn right_shift(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    require_integers(a, b)?;
     map_binary_bitwise(a, b, BitwiseOp::RightShift)
 }
diff --git a/src/ops/poly.rs b/src/ops/poly.rs
index b4ee07a..4e09669 100644
--- a/src/ops/poly.rs
+++ b/src/ops/poly.rs
@@ -94,6 +94,9 @@ pub fn polyint(p: &RumpyArray, m: usize, k: Option<&RumpyArray>) -> Option<Rumpy
         return None;
     }
 
+    if let crate::array::dtype::DTypeKind::TimeDelta64(_) = p.dtype().kind() {
+        return None;
+    }
     let constants = match k {
         None => RumpyArray::zeros(vec![m], DType::float64()),
         Some(k) if k.size() == 1 => k.reshape(vec![1])?.broadcast_to(&[m.max(1)])?,
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index b7a645d..54d7138 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -207,6 +207,15 @@ pub fn map_binary_op_inplace(
         return Err(BinaryOpError::UnsupportedDtype);
     }
 
+    // Complex numbers have no order, remainder or angle to combine
+    let is_complex = |arr: &RumpyArray| matches!(arr.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128);
+    if (is_complex(a) || is_complex(b))
+        && matches!(op, BinaryOp::Mod | BinaryOp::FloorDiv | BinaryOp::Arctan2 | BinaryOp::Hypot | BinaryOp::Copysign
+            | BinaryOp::Logaddexp | BinaryOp::Logaddexp2 | BinaryOp::Nextafter)
+    {
+        return Err(BinaryOpError::UnsupportedDtype);
+    }
+
     // Dates and durations
     if is_time(&a.dtype()) || is_time(&b.dtype()) {
         return time_binary_op(a, b, op);
@@ -473,6 +482,15 @@ pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Optio
     if is_text(a) != is_text(b) {
         return None;
     }
+    // A date has no order among numbers or durations, a duration none among numbers with a fraction
+    let is_date = |x: &RumpyArray| matches!(x.dtype().kind(), DTypeKind::DateTime64(_));
+    let is_delta = |x: &RumpyArray| matches!(x.dtype().kind(), DTypeKind::TimeDelta64(_));
+    let whole = |x: &RumpyArray| x.dtype().is_integer() || x.dtype().kind() == DTypeKind::Bool;
+    if !matches!(op, ComparisonOp::Eq | ComparisonOp::Ne)
+        && (is_date(a) != is_date(b) || is_delta(a) && !(is_delta(b) || whole(b)) || is_delta(b) && !(is_delta(a) || whole(a)))
+    {
+        return None;
+    }
 
     // uint64 and a signed integer have no common integer dtype
     if a.dtype() != b.dtype() && a.dtype().is_integer() && b.dtype().is_integer()
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 4c39893..f41231b 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -104,6 +104,7 @@ pub fn linspace(
     dtype: Option<&Bound<'_, PyAny>>,
 ) -> PyResult<PyRumpyArray> {
     let dtype = resolve_dtype(dtype, "float64")?;
+    refuse_text(&dtype, "linspace")?;
     Ok(PyRumpyArray::new(RumpyArray::linspace(start, stop, num, dtype)))
 }
 
@@ -115,12 +116,22 @@ pub fn eye(n: usize, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray>
     Ok(PyRumpyArray::new(RumpyArray::eye(n, dtype)))
 }
 
+/// Refuse to write numbers into an array of text.
+pub fn refuse_text(dtype: &DType, name: &str) -> PyResult<()> {
+    use crate::array::dtype::DTypeKind;
+    if let DTypeKind::Str(_) | DTypeKind::Bytes(_) = dtype.kind() {
+        return Err(pyo3::exceptions::PyTypeError::new_err(format!("{} of numbers is not supported for text", name)));
+    }
+    Ok(())
+}
+
 /// Create array filled with given value.
 #[pyfunction]
 #[pyo3(signature = (shape, fill_value, dtype=None))]
 pub fn full(shape: &Bound<'_, PyAny>, fill_value: f64, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
     let dtype = resolve_dtype(dtype, "float64")?;
+    refuse_text(&dtype, "full")?;
     Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
 }
 
@@ -180,6 +191,7 @@ pub fn full_like(a: &PyRumpyArray, fill_value: f64, dtype: Option<&Bound<'_, PyA
         Some(dt) => parse_dtype_any(&dt)?,
         None => a.inner.dtype(),
     };
+    refuse_text(&dtype, "full")?;
     Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
 }
 
@@ -366,7 +378,7 @@ pub fn array_impl(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'
         if let Some(dt) = &dtype {
             let target_dtype = parse_dtype_any(dt)?;
             if arr.inner.dtype() != target_dtype {
-                return Ok(PyRumpyArray::new(arr.inner.astype(target_dtype)));
+                return arr.convert(target_dtype);
             }
         }
         return Ok(PyRumpyArray::new(arr.inner.clone()));
diff --git a/src/python/linalg.rs b/src/python/linalg.rs
index 829c275..cf06cc5 100644
--- a/src/python/linalg.rs
+++ b/src/python/linalg.rs
@@ -46,6 +46,7 @@ pub fn outer(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Compute trace of a matrix (sum of diagonal elements).
 #[pyfunction]
 pub fn trace(py: Python<'_>, a: &PyRumpyArray) -> PyResult<PyObject> {
+    super::ufuncs::require_number(&a.inner)?;
     let result = linalg_ops::trace(&a.inner)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("trace requires 2D array"))?;
     PyRumpyArray::new(result).python_scalar(py)
@@ -216,6 +217,10 @@ pub fn norm(a: &PyRumpyArray, ord: Option<&str>) -> PyResult<f64> {
     if matches!(ord, Some("2" | "-2" | "nuc")) && a.inner.ndim() == 2 {
         require_finite("norm", a)?;
     }
+    use crate::array::dtype::DTypeKind;
+    if let DTypeKind::Str(_) | DTypeKind::Bytes(_) | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) = a.inner.dtype().kind() {
+        return Err(pyo3::exceptions::PyTypeError::new_err("norm: only numeric arrays are supported"));
+    }
     linalg_ops::norm(&a.inner, ord)
         .ok_or_else(|| LinAlgError::new_err("unsupported norm type"))
 }
@@ -327,6 +332,10 @@ pub fn matrix_power(a: &PyRumpyArray, n: i64) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 pub fn multi_dot(arrays: Vec<PyRef<'_, PyRumpyArray>>) -> PyResult<PyRumpyArray> {
     let refs: Vec<&crate::array::RumpyArray> = arrays.iter().map(|a| &a.inner).collect();
+    let last = refs.len().saturating_sub(1);
+    if refs.iter().enumerate().any(|(i, a)| a.ndim() != 2 && (a.ndim() != 1 || i != 0 && i != last)) {
+        return Err(LinAlgError::new_err("multi_dot takes matrices, with a vector at either end"));
+    }
     linalg_ops::multi_dot(&refs)
         .map(PyRumpyArray::new)
         .ok_or_else(|| LinAlgError::new_err("multi_dot: incompatible shapes"))
@@ -357,6 +366,7 @@ pub fn tensorsolve(a: &PyRumpyArray, b: &PyRumpyArray, axes: Option<Vec<usize>>)
 #[pyfunction]
 #[pyo3(signature = (a, ord=None))]
 pub fn vector_norm(a: &PyRumpyArray, ord: Option<f64>) -> PyResult<f64> {
+    super::ufuncs::require_number(&a.inner)?;
     linalg_ops::vector_norm(&a.inner, ord)
         .ok_or_else(|| LinAlgError::new_err("vector_norm failed"))
 }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 07b1be2..8fe82ac 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -90,7 +90,9 @@ pub fn resolve_reshape_shape(shape: Vec<isize>, size: usize) -> PyResult<Vec<usi
             }
             neg_idx = Some(i);
         } else {
-            known_product *= dim as usize;
+            known_product = known_product.checked_mul(dim as usize).ok_or_else(|| {
+                pyo3::exceptions::PyValueError::new_err("array is too big")
+            })?;
         }
     }
 
@@ -211,6 +213,23 @@ pub struct PyRumpyArray {
 }
 
 impl PyRumpyArray {
+    /// The elements as another dtype.
+    pub(crate) fn convert(&self, dt: DType) -> PyResult<Self> {
+        use crate::array::dtype::DTypeKind;
+        // Text converts only to the same kind of text (another width)
+        let text = |k: DTypeKind| match k {
+            DTypeKind::Str(_) => 1,
+            DTypeKind::Bytes(_) => 2,
+            _ => 0,
+        };
+        if text(self.inner.dtype().kind()) != text(dt.kind()) {
+            return Err(pyo3::exceptions::PyTypeError::new_err(format!(
+                "cannot convert {} to {}", self.inner.dtype().ops().name(), dt.ops().name()
+            )));
+        }
+        Ok(Self::new(self.inner.astype(dt)))
+    }
+
     pub fn new(inner: RumpyArray) -> Self {
         Self { inner }
     }
@@ -407,20 +426,7 @@ impl PyRumpyArray {
 
     /// Convert array to new dtype.
     fn astype(&self, dtype: &str) -> PyResult<Self> {
-        use crate::array::dtype::DTypeKind;
-        let dt = parse_dtype(dtype)?;
-        // Text converts only to the same kind of text (another width)
-        let text = |k: DTypeKind| match k {
-            DTypeKind::Str(_) => 1,
-            DTypeKind::Bytes(_) => 2,
-            _ => 0,
-        };
-        if text(self.inner.dtype().kind()) != text(dt.kind()) {
-            return Err(pyo3::exceptions::PyTypeError::new_err(format!(
-                "cannot convert {} to {}", self.inner.dtype().ops().name(), dt.ops().name()
-            )));
-        }
-        Ok(Self::new(self.inner.astype(dt)))
+        self.convert(parse_dtype(dtype)?)
     }
 
     /// Dot product with numpy semantics.
@@ -480,6 +486,7 @@ impl PyRumpyArray {
     /// Round to the given number of decimals.
     #[pyo3(signature = (decimals=0))]
     fn round(&self, decimals: i32) -> PyResult<Self> {
+        crate::python::ufuncs::require_number(&self.inner)?;
         Ok(Self::new(self.inner.round(decimals)))
     }
 
@@ -722,9 +729,13 @@ impl PyRumpyArray {
     fn ptp(&self, axis: Option<usize>) -> PyResult<ReductionResult> {
         crate::python::reductions::check_reducible(&self.inner, "ptp")?;
         match axis {
-            None => Ok(ReductionResult::Scalar(self.inner.ptp())),
+            None => {
+                crate::python::reductions::check_nonempty(&self.inner, None, "ptp")?;
+                Ok(ReductionResult::Scalar(self.inner.ptp()))
+            }
             Some(ax) => {
                 check_axis(ax, self.inner.ndim())?;
+                crate::python::reductions::check_nonempty(&self.inner, Some(&[ax]), "ptp")?;
                 Ok(ReductionResult::Array(Self::new(self.inner.ptp_axis(ax))))
             }
         }
@@ -733,24 +744,7 @@ impl PyRumpyArray {
     /// Select elements using a boolean condition array.
     #[pyo3(signature = (condition, axis=None))]
     fn compress(&self, condition: &Bound<'_, PyAny>, axis: Option<usize>) -> PyResult<Self> {
-        // Extract condition as bool vec
-        let cond_vec: Vec<bool> = if let Ok(list) = condition.downcast::<PyList>() {
-            list.iter().map(|x| x.extract::<bool>()).collect::<PyResult<Vec<_>>>()?
-        } else if let Ok(arr) = condition.extract::<PyRef<'_, PyRumpyArray>>() {
-            let size = arr.inner.size();
-            let mut result = Vec::with_capacity(size);
-            for offset in arr.inner.iter_offsets() {
-                let val = unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }.unwrap_or(0.0);
-                result.push(val != 0.0);
-            }
-            result
-        } else {
-            return Err(pyo3::exceptions::PyTypeError::new_err("condition must be array or list"));
-        };
-
-        crate::ops::indexing::compress(&cond_vec, &self.inner, axis)
-            .map(Self::new)
-            .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("compress failed"))
+        crate::python::indexing::compress(condition, self, axis)
     }
 
     /// Construct an array from an index array and a set of arrays to choose from.
@@ -760,6 +754,7 @@ impl PyRumpyArray {
             .map(|c| c.extract::<PyRef<'_, PyRumpyArray>>().map(|a| a.inner.clone()))
             .collect::<PyResult<Vec<_>>>()?;
 
+        crate::python::ufuncs::check_integer(&self.inner, "choose")?;
         crate::ops::indexing::choose(&self.inner, &choice_arrays)
             .map(Self::new)
             .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("choose: index out of bounds"))
@@ -1152,6 +1147,34 @@ fn try_elision_candidate(
     Some(arr.clone())
 }
 
+/// Refuse a Python int that does not fit the integer dtype it would be converted to.
+pub(crate) fn check_scalar_fits(x: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<()> {
+    use crate::array::DTypeKind;
+
+    if !(dtype.is_integer() || dtype.kind() == DTypeKind::Bool) || x.extract::<bool>().is_ok() {
+        return Ok(());
+    }
+    let fits = match x.extract::<i128>() {
+        Ok(value) => match dtype.kind() {
+            DTypeKind::Int8 => i8::try_from(value).is_ok(),
+            DTypeKind::Int16 => i16::try_from(value).is_ok(),
+            DTypeKind::Int32 => i32::try_from(value).is_ok(),
+            DTypeKind::Uint8 => u8::try_from(value).is_ok(),
+            DTypeKind::Uint16 => u16::try_from(value).is_ok(),
+            DTypeKind::Uint32 => u32::try_from(value).is_ok(),
+            DTypeKind::Uint64 => u64::try_from(value).is_ok(),
+            _ => i64::try_from(value).is_ok(),
+        },
+        Err(_) => !x.is_instance_of::<pyo3::types::PyInt>(),
+    };
+    if !fits {
+        return Err(pyo3::exceptions::PyOverflowError::new_err(format!(
+            "Python integer {} out of bounds for {}", x, dtype.ops().name()
+        )));
+    }
+    Ok(())
+}
+
 /// A Python number as a 0-d array, in the dtype NumPy gives it next to an array of `dtype`:
 /// Python ints and floats never widen an array of their own kind.
 pub(crate) fn scalar_operand(x: &Bound<'_, PyAny>, dtype: &DType) -> Option<RumpyArray> {
@@ -1242,6 +1265,7 @@ fn binary_op_dispatch_with_elision(
     other: &Bound<'_, PyAny>,
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
+    check_scalar_fits(other, &arr.dtype())?;
     use crate::array::broadcast_shapes;
     use crate::ops::BinaryOpError;
 
@@ -1287,6 +1311,7 @@ fn binary_op_dispatch(
     other: &Bound<'_, PyAny>,
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
+    check_scalar_fits(other, &arr.dtype())?;
     // Try array first
     if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
         use crate::ops::BinaryOpError;
@@ -1318,6 +1343,7 @@ fn rbinary_op_dispatch(
     other: &Bound<'_, PyAny>,
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
+    check_scalar_fits(other, &arr.dtype())?;
     if let Some(scalar) = scalar_operand(other, &arr.dtype()) {
         scalar.binary_op(arr, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else if let Ok(scalar) = other.extract::<f64>() {
@@ -1367,6 +1393,7 @@ fn bitwise_binary_op_dispatch<F>(
 where
     F: Fn(&RumpyArray, &RumpyArray) -> Option<RumpyArray>,
 {
+    check_scalar_fits(other, &arr.dtype())?;
     if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
         op(arr, &other_arr.inner)
             .map(PyRumpyArray::new)
@@ -1397,6 +1424,7 @@ fn rbitwise_binary_op_dispatch<F>(
 where
     F: Fn(&RumpyArray, &RumpyArray) -> Option<RumpyArray>,
 {
+    check_scalar_fits(other, &arr.dtype())?;
     if let Ok(scalar) = other.extract::<i64>() {
         let scalar_arr = scalar_operand(other, &arr.dtype())
             .unwrap_or_else(|| RumpyArray::full(vec![], scalar as f64, DType::int64()));
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 83ef191..da14cc8 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -638,7 +638,6 @@ pub fn average(
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
-            check_nonempty(&x.inner, Some(&[ax]), "average")?;
             let weights_inner = weights.map(|w| &w.inner);
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(
                 x.inner.average_axis(ax, weights_inner),
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 5e7fd66..1ee1dbd 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -46,16 +46,34 @@ where
     ))
 }
 
-/// Refuse complex input, whose imaginary part the function would lose.
+/// Refuse input that is not a real number: complex (whose imaginary part the function would lose), text, dates.
 fn require_real(arr: &RumpyArray) -> PyResult<()> {
     match arr.dtype().kind() {
         DTypeKind::Complex64 | DTypeKind::Complex128 => {
             Err(pyo3::exceptions::PyTypeError::new_err("ufunc not supported for complex input"))
         }
+        _ => require_number(arr),
+    }
+}
+
+/// Refuse text, dates and durations.
+pub(crate) fn require_number(arr: &RumpyArray) -> PyResult<()> {
+    match arr.dtype().kind() {
+        DTypeKind::Str(_) | DTypeKind::Bytes(_) | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => {
+            Err(pyo3::exceptions::PyTypeError::new_err("ufunc not supported for text, dates or durations"))
+        }
         _ => Ok(()),
     }
 }
 
+/// As `require_real`, for an argument that may be a scalar.
+fn require_real_any(x: &Bound<'_, PyAny>) -> PyResult<()> {
+    match x.extract::<PyRef<'_, PyRumpyArray>>() {
+        Ok(arr) => require_real(&arr.inner),
+        Err(_) => Ok(()),
+    }
+}
+
 // ============================================================================
 // Unary math functions
 // ============================================================================
@@ -162,11 +180,13 @@ pub fn isfinite(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 #[pyfunction]
 pub fn isneginf(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
+    require_real_any(x)?;
     apply_unary(x, |v| if v == f64::NEG_INFINITY { 1.0 } else { 0.0 }, |a| a.isneginf())
 }
 
 #[pyfunction]
 pub fn isposinf(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
+    require_real_any(x)?;
     apply_unary(x, |v| if v == f64::INFINITY { 1.0 } else { 0.0 }, |a| a.isposinf())
 }
 
@@ -321,11 +341,13 @@ pub fn log1p(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 #[pyfunction]
 pub fn cbrt(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
+    require_real_any(x)?;
     apply_unary(x, |v| v.cbrt(), |a| a.cbrt())
 }
 
 #[pyfunction]
 pub fn trunc(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
+    require_real_any(x)?;
     apply_unary(x, |v| v.trunc(), |a| a.trunc())
 }
 
@@ -357,6 +379,7 @@ pub fn arctanh(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 #[pyfunction]
 pub fn signbit(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
+    require_real_any(x)?;
     apply_unary(x, |v| if v.is_sign_negative() { 1.0 } else { 0.0 }, |a| a.signbit())
 }
 
@@ -391,6 +414,11 @@ fn binary_operands(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<(Ru
     use crate::python::pyarray::scalar_operand;
     let a1 = x1.extract::<PyRef<'_, PyRumpyArray>>().ok().map(|a| a.inner.clone());
     let a2 = x2.extract::<PyRef<'_, PyRumpyArray>>().ok().map(|a| a.inner.clone());
+    for (x, array, other) in [(x1, &a1, &a2), (x2, &a2, &a1)] {
+        if let (None, Some(other)) = (array, other) {
+            crate::python::pyarray::check_scalar_fits(x, &other.dtype())?;
+        }
+    }
     let s1 = a2.as_ref().filter(|_| a1.is_none()).and_then(|a| scalar_operand(x1, &a.dtype()));
     let s2 = a1.as_ref().filter(|_| a2.is_none()).and_then(|a| scalar_operand(x2, &a.dtype()));
     Ok((
@@ -527,6 +555,7 @@ pub fn nextafter(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRum
 
 #[pyfunction]
 pub fn deg2rad(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
+    require_real_any(x)?;
     let deg_to_rad = std::f64::consts::PI / 180.0;
     apply_unary(x, |v| v * deg_to_rad, |a| {
         if matches!(a.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
@@ -544,6 +573,7 @@ pub fn deg2rad(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 #[pyfunction]
 pub fn rad2deg(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
+    require_real_any(x)?;
     let rad_to_deg = 180.0 / std::f64::consts::PI;
     apply_unary(x, |v| v * rad_to_deg, |a| {
         if matches!(a.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
@@ -586,8 +616,9 @@ pub fn imag(x: &PyRumpyArray) -> PyRumpyArray {
 }
 
 #[pyfunction]
-pub fn conj(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.conj())
+pub fn conj(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_number(&x.inner)?;
+    Ok(PyRumpyArray::new(x.inner.conj()))
 }
 
 // ============================================================================
@@ -616,8 +647,9 @@ pub fn logical_xor(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArra
 }
 
 #[pyfunction]
-pub fn logical_not(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::logical_not(&x.inner))
+pub fn logical_not(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_number(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::logical_not(&x.inner)))
 }
 
 #[pyfunction]
@@ -677,6 +709,9 @@ pub fn isclose(
     atol: f64,
     equal_nan: bool,
 ) -> PyResult<PyRumpyArray> {
+    for arr in [x1, x2] {
+        require_number(&arr.inner)?;
+    }
     crate::ops::isclose(&x1.inner, &x2.inner, rtol, atol, equal_nan)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("shapes not broadcastable"))
@@ -694,6 +729,9 @@ pub fn allclose(
 ) -> PyResult<bool> {
     let arr_a = super::shape::to_rumpy_array(a)?;
     let arr_b = super::shape::to_rumpy_array(b)?;
+    for arr in [&arr_a, &arr_b] {
+        require_number(arr)?;
+    }
     crate::ops::allclose(&arr_a, &arr_b, rtol, atol, equal_nan)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
@@ -769,8 +807,9 @@ pub fn clip(x: &PyRumpyArray, a_min: Option<f64>, a_max: Option<f64>) -> PyResul
 
 #[pyfunction]
 #[pyo3(signature = (x, decimals=0))]
-pub fn round(x: &PyRumpyArray, decimals: i32) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.round(decimals))
+pub fn round(x: &PyRumpyArray, decimals: i32) -> PyResult<PyRumpyArray> {
+    require_number(&x.inner)?;
+    Ok(PyRumpyArray::new(x.inner.round(decimals)))
 }
 
 // ============================================================================
@@ -779,8 +818,9 @@ pub fn round(x: &PyRumpyArray, decimals: i32) -> PyRumpyArray {
 
 /// Compute the normalized sinc function: sin(pi*x) / (pi*x).
 #[pyfunction]
-pub fn sinc(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::sinc(&x.inner))
+pub fn sinc(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    require_number(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::sinc(&x.inner)))
 }
 
 /// Compute the modified Bessel function of the first kind, order 0.
@@ -816,6 +856,8 @@ pub fn frexp(x: &PyRumpyArray) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
 /// Compute ldexp: x * 2^i.
 #[pyfunction]
 pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    super::reductions::check_real(&x.inner, "ldexp")?;
+    check_integer(&i.inner, "ldexp")?;
     crate::ops::ldexp(&x.inner, &i.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -824,14 +866,32 @@ pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Compute the Heaviside step function.
 #[pyfunction]
 pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    for arr in [x, h0] {
+        super::reductions::check_real(&arr.inner, "heaviside")?;
+    }
     crate::ops::heaviside(&x.inner, &h0.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
+/// Refuse operands that are not integers.
+pub(crate) fn check_integer(arr: &RumpyArray, name: &str) -> PyResult<()> {
+    use crate::array::dtype::DTypeKind;
+    match arr.dtype().kind() {
+        DTypeKind::Bool | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+        | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64 => Ok(()),
+        _ => Err(pyo3::exceptions::PyTypeError::new_err(format!(
+            "{} is not supported for dtype {}", name, arr.dtype().ops().name()
+        ))),
+    }
+}
+
 /// Compute the greatest common divisor element-wise.
 #[pyfunction]
 pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    for arr in [x1, x2] {
+        check_integer(&arr.inner, "gcd")?;
+    }
     crate::ops::gcd(&x1.inner, &x2.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -840,6 +900,9 @@ pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Compute the least common multiple element-wise.
 #[pyfunction]
 pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    for arr in [x1, x2] {
+        check_integer(&arr.inner, "lcm")?;
+    }
     crate::ops::lcm(&x1.inner, &x2.inner)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
@@ -857,7 +920,7 @@ pub fn absolute(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 /// Alias for conj - compute the complex conjugate element-wise.
 #[pyfunction]
-pub fn conjugate(x: &PyRumpyArray) -> PyRumpyArray {
+pub fn conjugate(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     conj(x)
 }
 
@@ -931,6 +994,7 @@ pub fn true_divide(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyR
 /// Note: In NumPy, fabs only accepts real floats. We accept any numeric type.
 #[pyfunction]
 pub fn fabs(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
+    require_real_any(x)?;
     abs(x)
 }
 
-- 
2.43.0


From 6c1e76b6d63e433221aa6423fa3dd44fefa1a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 42/51] fix: several-axes: reduce over several axes at once,
 not the reduction of reductions

---
 src/python/reductions.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index da14cc8..1c25598 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -145,21 +145,24 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
     }
 }
 
-/// Perform sequential reductions over multiple axes.
-/// When reducing axis N, all subsequent axes with index > N shift down by 1.
-/// To match NumPy, we sort axes in descending order and reduce from highest to lowest.
-fn reduce_multi_axis<F>(arr: &RumpyArray, mut axes: Vec<usize>, reduce_fn: F) -> RumpyArray
+/// Reduce over several axes at once: they are merged into one trailing axis first, since
+/// the variance or the median of partial results is not that of all the elements.
+fn reduce_multi_axis<F>(arr: &RumpyArray, axes: Vec<usize>, reduce_fn: F) -> RumpyArray
 where
     F: Fn(&RumpyArray, usize) -> RumpyArray,
 {
-    // Sort axes in descending order to avoid index shifting issues
-    axes.sort_by(|a, b| b.cmp(a));
-
-    let mut result = arr.clone();
-    for &axis in &axes {
-        result = reduce_fn(&result, axis);
-    }
-    result
+    let kept: Vec<usize> = (0..arr.ndim()).filter(|ax| !axes.contains(ax)).collect();
+    let mut merged_shape: Vec<usize> = kept.iter().map(|&ax| arr.shape()[ax]).collect();
+    merged_shape.push(axes.iter().map(|&ax| arr.shape()[ax]).product());
+
+    let mut order = kept;
+    let merged_axis = order.len();
+    let mut reduced = axes;
+    reduced.sort_unstable();
+    order.extend(reduced);
+
+    let merged = arr.transpose_axes(&order).copy().reshape(merged_shape).expect("same number of elements");
+    reduce_fn(&merged, merged_axis)
 }
 
 // ============================================================================
@@ -306,10 +309,7 @@ pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.argmax_axis(ax_vec[0]))))
         }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.argmax_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
+        Some(_) => Err(pyo3::exceptions::PyTypeError::new_err("argmax takes a single axis")),
     }
 }
 
@@ -325,10 +325,7 @@ pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
         Some(ax_vec) if ax_vec.len() == 1 => {
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.argmin_axis(ax_vec[0]))))
         }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.argmin_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
+        Some(_) => Err(pyo3::exceptions::PyTypeError::new_err("argmin takes a single axis")),
     }
 }
 
-- 
2.43.0


From 516a90a82309f80b73a4576dbcd41ef3b0928cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 43/51] fix: reshape-view: reshape and atleast_nd give a view
 where the strides allow it

---
 src/array/views.rs        | 40 +++++++++++++++++++++++++++++++++++++++
 src/python/pyarray/mod.rs |  2 +-
 src/python/shape.rs       | 20 +++++++++++++-------
 3 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 3efa89d..ae6253f 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -98,6 +98,46 @@ impl RumpyArray {
         Some(self.view_with(0, new_shape, new_strides))
     }
 
+    /// Reshape in C order without copying, where the strides allow it.
+    pub fn reshape_view(&self, new_shape: &[usize]) -> Option<Self> {
+        if self.size() == 0 || self.size() != new_shape.iter().product::<usize>() {
+            return None;
+        }
+        // Axes of length one have no say
+        let old: Vec<(usize, isize)> = self.shape.iter().copied().zip(self.strides.iter().copied())
+            .filter(|&(len, _)| len != 1)
+            .collect();
+
+        let mut new_strides = vec![self.dtype.itemsize() as isize; new_shape.len()];
+        let (mut oi, mut ni) = (0, 0);
+        while oi < old.len() {
+            // Match a group of old axes with a group of new ones of the same size
+            let (old_start, new_start) = (oi, ni);
+            let (mut old_len, mut new_len) = (old[oi].0, new_shape[ni]);
+            while old_len != new_len {
+                if new_len < old_len {
+                    ni += 1;
+                    new_len *= new_shape[ni];
+                } else {
+                    oi += 1;
+                    old_len *= old[oi].0;
+                }
+            }
+            // The old axes of the group have to step through memory evenly
+            if (old_start..oi).any(|k| old[k].1 != old[k + 1].1 * old[k + 1].0 as isize) {
+                return None;
+            }
+            let mut stride = old[oi].1;
+            for k in (new_start..=ni).rev() {
+                new_strides[k] = stride;
+                stride *= new_shape[k] as isize;
+            }
+            oi += 1;
+            ni += 1;
+        }
+        Some(self.view_with(0, new_shape.to_vec(), new_strides))
+    }
+
     /// Transpose the array (reverse axes). Returns a view.
     pub fn transpose(&self) -> Self {
         let new_shape: Vec<usize> = self.shape.iter().rev().copied().collect();
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 8fe82ac..23d0d9a 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -363,7 +363,7 @@ impl PyRumpyArray {
     fn reshape(&self, args: &Bound<'_, PyTuple>) -> PyResult<Self> {
         let shape_isize = parse_reshape_args_isize(args)?;
         let shape = resolve_reshape_shape(shape_isize, self.inner.size())?;
-        self.inner.reshape(shape).map(Self::new).ok_or_else(|| {
+        self.inner.reshape_view(&shape).or_else(|| self.inner.reshape(shape)).map(Self::new).ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err(
                 "cannot reshape array (size mismatch or non-contiguous)",
             )
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 4858f5c..ced8a3d 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -77,7 +77,8 @@ pub fn reshape(a: &PyRumpyArray, newshape: &Bound<'_, pyo3::PyAny>) -> PyResult<
         newshape.into_iter().map(|x| x as usize).collect()
     };
 
-    a.inner.reshape(shape.clone())
+    a.inner.reshape_view(&shape)
+        .or_else(|| a.inner.reshape(shape.clone()))
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err("cannot reshape array of given size into shape")
@@ -224,11 +225,16 @@ pub fn rollaxis(a: &PyRumpyArray, axis: isize, start: isize) -> PyResult<PyRumpy
 // Dimension manipulation
 // ============================================================================
 
+/// A view of another shape where the strides allow it, a copy otherwise.
+fn reshape_or_copy(arr: &RumpyArray, shape: Vec<usize>) -> RumpyArray {
+    arr.reshape_view(&shape).or_else(|| arr.reshape(shape)).expect("same number of elements")
+}
+
 /// Convert input to array with at least one dimension.
 #[pyfunction]
 pub fn atleast_1d(a: &PyRumpyArray) -> PyRumpyArray {
     if a.inner.ndim() == 0 {
-        PyRumpyArray::new(a.inner.reshape(vec![1]).unwrap_or_else(|| a.inner.clone()))
+        PyRumpyArray::new(reshape_or_copy(&a.inner, vec![1]))
     } else {
         PyRumpyArray::new(a.inner.clone())
     }
@@ -238,8 +244,8 @@ pub fn atleast_1d(a: &PyRumpyArray) -> PyRumpyArray {
 #[pyfunction]
 pub fn atleast_2d(a: &PyRumpyArray) -> PyRumpyArray {
     match a.inner.ndim() {
-        0 => PyRumpyArray::new(a.inner.reshape(vec![1, 1]).unwrap_or_else(|| a.inner.clone())),
-        1 => PyRumpyArray::new(a.inner.reshape(vec![1, a.inner.size()]).unwrap_or_else(|| a.inner.clone())),
+        0 => PyRumpyArray::new(reshape_or_copy(&a.inner, vec![1, 1])),
+        1 => PyRumpyArray::new(reshape_or_copy(&a.inner, vec![1, a.inner.size()])),
         _ => PyRumpyArray::new(a.inner.clone()),
     }
 }
@@ -248,14 +254,14 @@ pub fn atleast_2d(a: &PyRumpyArray) -> PyRumpyArray {
 #[pyfunction]
 pub fn atleast_3d(a: &PyRumpyArray) -> PyRumpyArray {
     match a.inner.ndim() {
-        0 => PyRumpyArray::new(a.inner.reshape(vec![1, 1, 1]).unwrap_or_else(|| a.inner.clone())),
+        0 => PyRumpyArray::new(reshape_or_copy(&a.inner, vec![1, 1, 1])),
         1 => {
             let n = a.inner.size();
-            PyRumpyArray::new(a.inner.reshape(vec![1, n, 1]).unwrap_or_else(|| a.inner.clone()))
+            PyRumpyArray::new(reshape_or_copy(&a.inner, vec![1, n, 1]))
         }
         2 => {
             let shape = a.inner.shape();
-            PyRumpyArray::new(a.inner.reshape(vec![shape[0], shape[1], 1]).unwrap_or_else(|| a.inner.clone()))
+            PyRumpyArray::new(reshape_or_copy(&a.inner, vec![shape[0], shape[1], 1]))
         }
         _ => PyRumpyArray::new(a.inner.clone()),
     }
-- 
2.43.0


From c556b745e509efa8d3eb58a16b3e57b59c38ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:24 +0000
Subject: [PATCH 44/51] fix: quantiles: NaN propagates, negative axes, a list
 of one; statistics of narrow floats keep their precision

---
 src/array/manipulation.rs | 10 ++---
 src/python/reductions.rs  | 79 +++++++++++++++++++++++++++------------
 2 files changed, 61 insertions(+), 28 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 5f165f7..7802996 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -265,7 +265,7 @@ fn percentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
     for offset in arr.iter_offsets() {
         values.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
     }
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    values.sort_by(f64::total_cmp);
 
     // Compute percentiles using linear interpolation
     let mut result = RumpyArray::zeros(vec![q.len()], DType::float64());
@@ -329,7 +329,7 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
             values.push(unsafe { ops.read_f64(ptr, 0) }.unwrap_or(0.0));
             ptr = unsafe { ptr.offset(axis_stride) };
         }
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        values.sort_by(f64::total_cmp);
 
         // Compute percentiles
         if q.len() == 1 {
@@ -347,7 +347,7 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
 /// Linear interpolation for percentile.
 fn interpolate_percentile(sorted: &[f64], pct: f64) -> f64 {
     let n = sorted.len();
-    if n == 0 {
+    if n == 0 || sorted[0].is_nan() || sorted[n - 1].is_nan() {
         return f64::NAN;
     }
     if n == 1 {
@@ -392,7 +392,7 @@ fn nanpercentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
         return Some(RumpyArray::full(shape, f64::NAN, DType::float64()));
     }
 
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    values.sort_by(f64::total_cmp);
 
     // Compute percentiles using linear interpolation
     // Match numpy behavior: single q returns scalar-like, multiple q returns 1D array
@@ -461,7 +461,7 @@ fn nanpercentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyA
             }
             ptr = unsafe { ptr.offset(axis_stride) };
         }
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        values.sort_by(f64::total_cmp);
 
         // Compute percentiles (NaN if all-NaN slice)
         if q.len() == 1 {
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 1c25598..615a691 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::PyTuple;
 
 use super::{pyarray, PyRumpyArray};
-use crate::array::RumpyArray;
+use crate::array::{DTypeKind, RumpyArray};
 
 /// Helper for axis bounds checking.
 fn check_axis(axis: usize, ndim: usize) -> PyResult<()> {
@@ -145,6 +145,14 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
     }
 }
 
+/// Statistics computed in float64, in the precision of the input where that is a narrower float.
+fn like_input(arr: &RumpyArray, result: RumpyArray) -> RumpyArray {
+    match arr.dtype().kind() {
+        DTypeKind::Float16 | DTypeKind::Float32 => result.astype(arr.dtype()),
+        _ => result,
+    }
+}
+
 /// Reduce over several axes at once: they are merged into one trailing axis first, since
 /// the variance or the median of partial results is not that of all the elements.
 fn reduce_multi_axis<F>(arr: &RumpyArray, axes: Vec<usize>, reduce_fn: F) -> RumpyArray
@@ -378,11 +386,11 @@ pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyRes
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmean())),
         Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmean_axis(ax_vec[0]))))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, x.inner.nanmean_axis(ax_vec[0])))))
         }
         Some(ax_vec) => {
             let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanmean_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, result))))
         }
     }
 }
@@ -396,11 +404,11 @@ pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanvar())),
         Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanvar_axis(ax_vec[0]))))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, x.inner.nanvar_axis(ax_vec[0])))))
         }
         Some(ax_vec) => {
             let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanvar_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, result))))
         }
     }
 }
@@ -414,11 +422,11 @@ pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanstd())),
         Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanstd_axis(ax_vec[0]))))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, x.inner.nanstd_axis(ax_vec[0])))))
         }
         Some(ax_vec) => {
             let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanstd_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, result))))
         }
     }
 }
@@ -606,11 +614,11 @@ pub fn median(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.median())),
         Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.median_axis(ax_vec[0]))))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, x.inner.median_axis(ax_vec[0])))))
         }
         Some(ax_vec) => {
             let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.median_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, result))))
         }
     }
 }
@@ -849,19 +857,36 @@ pub fn bincount(x: &PyRumpyArray, minlength: usize) -> PyResult<PyRumpyArray> {
 }
 
 /// Refuse a quantile of no elements.
-fn check_quantile(arr: &RumpyArray, axis: Option<usize>) -> PyResult<()> {
+fn check_quantile(arr: &RumpyArray, axis: Option<isize>) -> PyResult<Option<usize>> {
+    let axis = axis.map(|ax| resolve_axis(ax, arr.ndim()));
     if let Some(ax) = axis {
         check_axis(ax, arr.ndim())?;
     }
-    check_nonempty(arr, axis.as_ref().map(std::slice::from_ref), "quantile")
+    check_nonempty(arr, axis.as_ref().map(std::slice::from_ref), "quantile")?;
+    Ok(axis)
+}
+
+/// Give a quantile its dtype and shape: one q has the input's precision, a list of them leads with an axis of its own.
+fn finish_quantile(arr: &RumpyArray, q: &Bound<'_, pyo3::PyAny>, axis: Option<usize>, result: RumpyArray) -> PyRumpyArray {
+    if q.extract::<f64>().is_ok() {
+        return PyRumpyArray::new(like_input(arr, result));
+    }
+    let Some(axis) = axis else {
+        return PyRumpyArray::new(result);
+    };
+    let kept: Vec<usize> = (0..arr.ndim()).filter(|&ax| ax != axis).map(|ax| arr.shape()[ax]).collect();
+    let lanes: usize = kept.iter().product();
+    let mut shape = vec![if lanes == 0 { result.shape()[0] } else { result.size() / lanes }];
+    shape.extend(kept);
+    PyRumpyArray::new(result.reshape(shape).unwrap_or(result))
 }
 
 /// Compute percentiles of a dataset.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
     check_real(&a.inner, "percentile")?;
-    check_quantile(&a.inner, axis)?;
+    let axis = check_quantile(&a.inner, axis)?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -879,16 +904,16 @@ pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opti
     }
 
     crate::array::percentile(&a.inner, &q_values, axis)
-        .map(PyRumpyArray::new)
+        .map(|result| finish_quantile(&a.inner, q, axis, result))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("percentile computation failed"))
 }
 
 /// Compute quantiles of a dataset.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
     check_real(&a.inner, "quantile")?;
-    check_quantile(&a.inner, axis)?;
+    let axis = check_quantile(&a.inner, axis)?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -909,7 +934,7 @@ pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option
     let pct_values: Vec<f64> = q_values.iter().map(|&q| q * 100.0).collect();
 
     crate::array::percentile(&a.inner, &pct_values, axis)
-        .map(PyRumpyArray::new)
+        .map(|result| finish_quantile(&a.inner, q, axis, result))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("quantile computation failed"))
 }
 
@@ -962,11 +987,11 @@ pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyR
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmedian())),
         Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmedian_axis(ax_vec[0]))))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, x.inner.nanmedian_axis(ax_vec[0])))))
         }
         Some(ax_vec) => {
             let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanmedian_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(like_input(&x.inner, result))))
         }
     }
 }
@@ -974,8 +999,12 @@ pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyR
 /// Compute percentiles of a dataset ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
     check_real(&a.inner, "nanpercentile")?;
+    let axis = axis.map(|ax| resolve_axis(ax, a.inner.ndim()));
+    if let Some(ax) = axis {
+        check_axis(ax, a.inner.ndim())?;
+    }
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -993,15 +1022,19 @@ pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: O
     }
 
     crate::array::nanpercentile(&a.inner, &q_values, axis)
-        .map(PyRumpyArray::new)
+        .map(|result| finish_quantile(&a.inner, q, axis, result))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("nanpercentile computation failed"))
 }
 
 /// Compute quantiles of a dataset ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
     check_real(&a.inner, "nanquantile")?;
+    let axis = axis.map(|ax| resolve_axis(ax, a.inner.ndim()));
+    if let Some(ax) = axis {
+        check_axis(ax, a.inner.ndim())?;
+    }
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -1022,7 +1055,7 @@ pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opt
     let pct_values: Vec<f64> = q_values.iter().map(|&q| q * 100.0).collect();
 
     crate::array::nanpercentile(&a.inner, &pct_values, axis)
-        .map(PyRumpyArray::new)
+        .map(|result| finish_quantile(&a.inner, q, axis, result))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("nanquantile computation failed"))
 }
 
-- 
2.43.0


From f79bd7d9a82cc288ce13546be78426eb0f3cfd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:28 +0000
Subject: [PATCH 45/51] fix: printing: tiny and huge floats, complex zeros and
 NaN, and shapes of empty arrays are shown as they are

---
 src/array/dtype/complex128.rs |  7 +------
 src/array/dtype/complex64.rs  |  7 +------
 src/array/dtype/float16.rs    |  3 +--
 src/array/dtype/macros.rs     |  3 +--
 src/array/dtype/mod.rs        | 26 ++++++++++++++++++++++++++
 src/array/format.rs           |  6 ++++--
 6 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 672e2f7..0685620 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -381,12 +381,7 @@ impl DTypeOps for Complex128Ops {
 
     unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
         let (r, i) = Self::read(ptr, byte_offset);
-        // NumPy style: "(1+2j)" or "(1-2j)"
-        if i >= 0.0 {
-            format!("({:.8}+{:.8}j)", r, i).replace(".00000000", ".").replace("0j", "j")
-        } else {
-            format!("({:.8}{:.8}j)", r, i).replace(".00000000", ".").replace("0j", "j")
-        }
+        super::show_complex(r, i)
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 198e731..6597dfc 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -378,12 +378,7 @@ impl DTypeOps for Complex64Ops {
 
     unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
         let (r, i) = Self::read(ptr, byte_offset);
-        // NumPy style: "(1+2j)" or "(1-2j)"
-        if i >= 0.0 {
-            format!("({:.6}+{:.6}j)", r, i).replace(".000000", ".").replace("0j", "j")
-        } else {
-            format!("({:.6}{:.6}j)", r, i).replace(".000000", ".").replace("0j", "j")
-        }
+        super::show_complex(r, i)
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 61974f7..cbc6662 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -157,8 +157,7 @@ impl DTypeOps for Float16Ops {
 
     unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
         let v = Self::read(ptr, byte_offset).to_f32();
-        let s = format!("{:.4}", v);
-        s.trim_end_matches('0').to_string()
+        super::show_float(v, (v as f64).abs(), 4)
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 16842e7..a7ea9e2 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -165,8 +165,7 @@ macro_rules! impl_float_dtype {
 
             unsafe fn format_element(&self, ptr: *const u8, byte_offset: isize) -> String {
                 let v = Self::read(ptr, byte_offset);
-                let s = format!("{:.8}", v);
-                s.trim_end_matches('0').to_string()
+                super::show_float(v, (v as f64).abs(), 8)
             }
 
             unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> std::cmp::Ordering {
diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 49fde2f..65a6b04 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -505,6 +505,32 @@ impl std::fmt::Debug for DType {
     }
 }
 
+/// The printed form of a float: up to `decimals` fractional digits, or in scientific form
+/// (as NumPy writes it, `1.e-09`) where a fixed number of decimals would not show the value.
+pub(crate) fn show_float<T: std::fmt::Display + std::fmt::LowerExp>(v: T, size: f64, decimals: usize) -> String {
+    if size.is_nan() {
+        return "nan".to_string();
+    }
+    if size.is_infinite() || size == 0.0 || (1e-4..1e16).contains(&size) {
+        let s = format!("{:.*}", decimals, v);
+        return s.trim_end_matches('0').to_string();
+    }
+    let shortest = format!("{:e}", v);
+    let digits = shortest.bytes().take_while(|b| *b != b'e').filter(u8::is_ascii_digit).count();
+    let s = if digits > decimals + 1 { format!("{:.*e}", decimals, v) } else { shortest };
+    let (mantissa, exponent) = s.split_once('e').unwrap_or((&s, "0"));
+    let (whole, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
+    let sign = if exponent.starts_with('-') { '-' } else { '+' };
+    format!("{}.{}e{}{:0>2}", whole, fraction.trim_end_matches('0'), sign, exponent.trim_start_matches('-'))
+}
+
+/// The printed form of a complex number, `(1.+2.j)`.
+pub(crate) fn show_complex<T: std::fmt::Display + std::fmt::LowerExp + Copy + Into<f64>>(re: T, im: T) -> String {
+    let (r, i) = (show_float(re, re.into().abs(), 8), show_float(im, im.into().abs(), 8));
+    let plus = if i.starts_with('-') { "" } else { "+" };
+    format!("({}{}{}j)", r, plus, i)
+}
+
 /// Total order on floats for sorting: NaN compares equal to NaN and after everything else.
 #[inline]
 pub(crate) fn nan_last<T: PartialOrd>(a: &T, b: &T) -> std::cmp::Ordering {
diff --git a/src/array/format.rs b/src/array/format.rs
index 84187b1..1f65e8b 100644
--- a/src/array/format.rs
+++ b/src/array/format.rs
@@ -35,7 +35,9 @@ impl RumpyArray {
 
         // Empty arrays always show dtype
         let suffix = if self.size() == 0 {
-            format!(", dtype={}", self.dtype.ops().name())
+            // Brackets cannot show the shape of several axes
+            let shape = if self.ndim() == 1 { String::new() } else { format!(", shape={}", shape_str) };
+            format!("{}, dtype={}", shape, self.dtype.ops().name())
         } else if show_shape && needs_dtype {
             format!(
                 ", shape={}, dtype={}",
@@ -79,7 +81,7 @@ impl RumpyArray {
         let elements = self.collect_elements(truncate, edgeitems);
 
         // Calculate max width for alignment
-        let max_width = elements.iter().map(|s| s.len()).max().unwrap_or(0);
+        let max_width = elements.iter().map(|s| s.chars().count()).max().unwrap_or(0);
 
         // Format recursively
         self.format_recursive(&[], sep, truncate, edgeitems, max_width, base_indent)
-- 
2.43.0


From 36f76c732a5abd4d4a352131cbe5de1a22d9b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:09 +0000
Subject: [PATCH 46/51] fix: printing: blocks of more than three dimensions are
 set apart by their level

---
 src/array/format.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/array/format.rs b/src/array/format.rs
index 1f65e8b..840859d 100644
--- a/src/array/format.rs
+++ b/src/array/format.rs
@@ -192,12 +192,9 @@ impl RumpyArray {
         } else {
             // Multi-line formatting for higher dimensions
             let indent = " ".repeat(base_indent + depth);
-            let inner_sep = if depth == self.ndim() - 2 {
-                format!("{}\n{}", sep.trim_end(), indent)
-            } else {
-                // Extra blank line between highest-level blocks
-                format!("{}\n\n{}", sep.trim_end(), indent)
-            };
+            // One more blank line between blocks for every level above the rows
+            let newlines = "\n".repeat(self.ndim() - 1 - depth);
+            let inner_sep = format!("{}{}{}", sep.trim_end(), newlines, indent);
             format!("[{}]", parts.join(&inner_sep))
         }
     }
-- 
2.43.0


From 1af83757f601d79b74c7d3502865135b079a7251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 47/51] fix: printing: True is as wide as False in every
 boolean array

---
 src/array/format.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/array/format.rs b/src/array/format.rs
index 840859d..22b1d6d 100644
--- a/src/array/format.rs
+++ b/src/array/format.rs
@@ -81,7 +81,10 @@ impl RumpyArray {
         let elements = self.collect_elements(truncate, edgeitems);
 
         // Calculate max width for alignment
-        let max_width = elements.iter().map(|s| s.chars().count()).max().unwrap_or(0);
+        let mut max_width = elements.iter().map(|s| s.chars().count()).max().unwrap_or(0);
+        if self.ndim() > 0 && self.dtype.kind() == DTypeKind::Bool {
+            max_width = "False".len();
+        }
 
         // Format recursively
         self.format_recursive(&[], sep, truncate, edgeitems, max_width, base_indent)
-- 
2.43.0


From dd71b55e42ebd372cd290902d05b499ae2bbecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:00 +0000
Subject: [PATCH 48/51] fix: empty-difference: diff of an empty array of dates
 has the dtype of a duration

---
 src/ops/array_methods/cumulative.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index 6e25c44..bf72274 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -75,13 +75,12 @@ impl RumpyArray {
         new_shape[axis] = axis_len - 1;
 
         let dtype = self.dtype().clone();
-        let mut result = RumpyArray::zeros(new_shape.clone(), dtype.clone());
-
         let out_size: usize = new_shape.iter().product();
         if out_size == 0 {
-            return result;
+            return RumpyArray::zeros(new_shape, crate::ops::datetime::difference_dtype(&dtype));
         }
 
+        let mut result = RumpyArray::zeros(new_shape, dtype.clone());
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
         let result_ptr = result_buffer.as_mut_ptr();
         let src_ptr = self.data_ptr();
-- 
2.43.0


From 8f9d261a1d964c44fac7ccfd1ab5669edd0c43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:16 +0000
Subject: [PATCH 49/51] fix: slice-steps: a slice with a step of the order of
 2**63 panicked

---
 src/array/views.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index ae6253f..f9ac554 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -57,12 +57,12 @@ impl RumpyArray {
         // Compute new length
         let new_len = if step > 0 {
             if stop > start {
-                (stop - start + step - 1) / step
+                (stop - start - 1) / step + 1
             } else {
                 0
             }
         } else if start > stop {
-            (start - stop - step - 1) / (-step)
+            (start - stop - 1) / -step + 1
         } else {
             0
         };
@@ -72,9 +72,9 @@ impl RumpyArray {
         let old_stride = self.strides[axis];
         let offset_delta = if new_len == 0 { 0 } else { start * old_stride };
 
-        // New stride = old_stride * step
+        // New stride = old_stride * step (which overflows only where at most one element is taken)
         let mut new_strides = self.strides.clone();
-        new_strides[axis] = old_stride * step;
+        new_strides[axis] = old_stride.wrapping_mul(step);
 
         let mut new_shape = self.shape.clone();
         new_shape[axis] = new_len;
-- 
2.43.0


From 424e4fa6f38a9ae4d6a692198347bd0b01ac48bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:57 +0000
Subject: [PATCH 50/51] fix: word-arguments: searchsorted, packbits,
 unpackbits, meshgrid, trim_zeros, unravel_index and ravel_multi_index took
 any word for one of the valid ones

---
 src/python/creation.rs |  1 +
 src/python/indexing.rs | 16 ++++++++++++++++
 src/python/misc.rs     |  1 +
 3 files changed, 18 insertions(+)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index f41231b..341afd2 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -272,6 +272,7 @@ pub fn diagflat(v: &PyRumpyArray, k: isize) -> PyRumpyArray {
 #[pyfunction]
 #[pyo3(signature = (*xi, indexing="xy"))]
 pub fn meshgrid(xi: &Bound<'_, pyo3::types::PyTuple>, indexing: &str) -> PyResult<Vec<PyRumpyArray>> {
+    super::indexing::check_word("indexing", indexing, &["xy", "ij"])?;
     let mut arrays: Vec<RumpyArray> = Vec::with_capacity(xi.len());
     for item in xi.iter() {
         let arr = if let Ok(arr) = item.extract::<PyRef<'_, PyRumpyArray>>() {
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 2df93db..29975e8 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -6,6 +6,16 @@ use pyo3::types::PyList;
 use crate::array::{DType, RumpyArray};
 use super::{PyRumpyArray, creation};
 
+/// Refuse a word that is not among those an argument may be.
+pub(crate) fn check_word(name: &str, value: &str, words: &[&str]) -> PyResult<()> {
+    if words.contains(&value) {
+        return Ok(());
+    }
+    Err(pyo3::exceptions::PyValueError::new_err(format!(
+        "{} must be one of {:?} (got {:?})", name, words, value
+    )))
+}
+
 // ============================================================================
 // Selection operations
 // ============================================================================
@@ -98,6 +108,7 @@ pub fn searchsorted(
     v: &Bound<'_, pyo3::PyAny>,
     side: &str,
 ) -> PyResult<PyRumpyArray> {
+    check_word("side", side, &["left", "right"])?;
     let v_arr = if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr.inner.clone()
     } else if let Ok(scalar) = v.extract::<f64>() {
@@ -413,6 +424,7 @@ pub fn unravel_index(
         ));
     };
 
+    check_word("order", order, &["C", "F", "c", "f"])?;
     let order_char = if order.to_uppercase() == "F" { 'F' } else { 'C' };
 
     let result = crate::ops::indexing::unravel_index(&idx_vec, &shape, order_char)
@@ -485,6 +497,8 @@ pub fn ravel_multi_index(
         ));
     };
 
+    check_word("order", order, &["C", "F", "c", "f"])?;
+    check_word("mode", mode, &["raise", "wrap", "clip"])?;
     let order_char = if order.to_uppercase() == "F" { 'F' } else { 'C' };
 
     crate::ops::indexing::ravel_multi_index(&multi_idx, &dims, mode, order_char)
@@ -707,6 +721,7 @@ pub fn packbits(
     axis: Option<isize>,
     bitorder: &str,
 ) -> PyResult<PyRumpyArray> {
+    check_word("bitorder", bitorder, &["big", "little"])?;
     let resolved_axis = axis.map(|ax| super::shape::checked_axis(ax, a.inner.ndim())).transpose()?;
 
     // axis=None means flatten first (use default axis)
@@ -728,6 +743,7 @@ pub fn unpackbits(
     count: Option<usize>,
     bitorder: &str,
 ) -> PyResult<PyRumpyArray> {
+    check_word("bitorder", bitorder, &["big", "little"])?;
     let resolved_axis = axis.map(|ax| super::shape::checked_axis(ax, a.inner.ndim())).transpose()?;
     if a.inner.dtype() != crate::array::DType::uint8() {
         return Err(pyo3::exceptions::PyTypeError::new_err("unpackbits takes an array of uint8"));
diff --git a/src/python/misc.rs b/src/python/misc.rs
index cbcfd78..579a983 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -225,6 +225,7 @@ fn process_block(obj: &Bound<'_, PyAny>, ndim: usize, depth: usize) -> PyResult<
 #[pyfunction]
 #[pyo3(signature = (filt, trim="fb"))]
 pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
+    super::indexing::check_word("trim", &trim.to_lowercase(), &["f", "b", "fb", "bf"])?;
     let inner = &filt.inner;
 
     if inner.ndim() != 1 {
-- 
2.43.0


From d392ca486a4a9f86674e86bd5615f9a149d0fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:38 +0000
Subject: [PATCH 51/51] fix: text-width: array(list, dtype='str') and 'bytes'
 dropped all the text

---
 src/python/creation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index 341afd2..6e8d6b4 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -585,7 +585,12 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     use crate::array::dtype::parse_datetime64;
 
     let dtype = match dtype {
-        Some(dt) => parse_dtype_any(dt)?,
+        Some(dt) => match parse_dtype_any(dt)? {
+            // "str" and "bytes" are as wide as the longest element
+            d if d.kind() == DTypeKind::Str(0) => DType::str_(compute_max_string_length(list).unwrap_or(0).max(1)),
+            d if d.kind() == DTypeKind::Bytes(0) => DType::bytes_(compute_max_bytes_length(list).unwrap_or(0).max(1)),
+            d => d,
+        },
         None => infer_dtype_from_list(list).unwrap_or(DType::float64()),
     };
 
-- 
2.43.0

