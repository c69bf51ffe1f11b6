From f38de414ce237407e746305d8f832acaece9a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 01/65] fix: set_global_data selects local elements along the
 spatial axes of tensor fields

---
 dedalus/core/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index ac68dc5..7cfe0fc 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -623,7 +623,8 @@ class Field(Current):
 
     def set_global_data(self, global_data):
         elements = self.layout.local_elements(self.domain, self.scales)
-        self.set_local_data(global_data[np.ix_(*elements)])
+        component_elements = tuple(np.arange(cs.dim) for cs in self.tensorsig)
+        self.set_local_data(global_data[np.ix_(*component_elements, *elements)])
 
     def set_local_data(self, local_data):
         copyto(self.data, local_data)
-- 
2.43.0


From 0f8031cb07ed3ba26039944ea2fa184e795874c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 02/65] fix: RealFourier matrix transforms hold both parts of
 every mode for odd sizes

---
 dedalus/core/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 00758fb..5de1076 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -392,7 +392,7 @@ class RealFourierMMT(RealFourierTransform, SeparableMatrixTransform):
     def forward_matrix(self):
         """Build forward transform matrix."""
         N = self.N
-        M = max(2, self.M) # Account for sin and cos parts of m=0
+        M = 2 * (self.KM + 1) # Account for sin and cos parts of all modes
         Kmax = self.Kmax
         K = self.wavenumbers[::2, None]
         X = np.arange(N)[None, :]
@@ -410,7 +410,7 @@ class RealFourierMMT(RealFourierTransform, SeparableMatrixTransform):
     def backward_matrix(self):
         """Build backward transform matrix."""
         N = self.N
-        M = max(2, self.M) # Account for sin and cos parts of m=0
+        M = 2 * (self.KM + 1) # Account for sin and cos parts of all modes
         Kmax = self.Kmax
         K = self.wavenumbers[None, ::2]
         X = np.arange(N)[:, None]
-- 
2.43.0


From 6069a32e8d0bc292133dcc3c5fc5fbc809bd3096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 03/65] fix: grid shapes given to load_from_global_grid_data
 and low_pass_filter are met exactly

---
 dedalus/core/field.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 7cfe0fc..e8fa8dc 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -762,12 +762,21 @@ class Field(Current):
         else:
             self[layout] = func(global_data[local_slices])
 
+    def _grid_shape_scales(self, shape):
+        """Scales giving the specified global grid shape."""
+        shape = np.array(shape)
+        base_shape = np.array(self.dist.grid_layout.global_shape(self.domain, scales=1))
+        scales = shape / base_shape
+        # Grid sizes are rounded up, so back off where floating-point error overshoots
+        overshoot = np.ceil(scales * base_shape) > shape
+        return np.where(overshoot, (shape - 0.5) / base_shape, scales)
+
     def load_from_global_grid_data(self, global_data, pre_slices=tuple(), func=None):
         """Load local grid data from array-like global grid data."""
         dim = self.dist.dim
         layout = self.dist.grid_layout
         # Set scales to match saved data
-        scales = np.array(global_data.shape[-dim:]) / np.array(layout.global_shape(self.domain, scales=1))
+        scales = self._grid_shape_scales(global_data.shape[-dim:])
         self.preset_scales(scales)
         # Extract local data from global data
         component_slices = tuple(slice(None) for cs in self.tensorsig)
@@ -960,8 +969,7 @@ class Field(Current):
         if shape is not None:
             if scales is not None:
                 raise ValueError("Specify either shape or scales.")
-            global_shape = self.dist.grid_layout.global_shape(self.domain, scales=1)
-            scales = np.array(shape) / global_shape
+            scales = self._grid_shape_scales(shape)
         # Low-pass filter by changing scales
         self.change_scales(scales)
         self.require_grid_space()
-- 
2.43.0


From 4e2f9d30d99b5c82b0900cc7a42e23c7bedb7125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 04/65] fix: cosine transforms zero the unresolved modes on a
 one-point grid

---
 dedalus/core/transforms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 5de1076..17d565c 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -730,9 +730,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.forward_rescale_pos, data_out[posfreq])
-            if self.KM > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KM > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
     def resize_rescale_backward(self, data_in, data_out, axis, Kmax):
         """Resize by padding/trunction and rescale to unit amplitude."""
@@ -741,9 +741,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.backward_rescale_pos, data_out[posfreq])
-            if self.KN > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KN > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
 
 #@register_transform(basis.Cosine, 'scipy')
-- 
2.43.0


From 69bb21ff0d87713a7b45ddca3bf14d930d556f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 05/65] fix: Domain.grid_shape finds the axes of every basis

---
 dedalus/core/domain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/domain.py b/dedalus/core/domain.py
index 551882a..0542b09 100644
--- a/dedalus/core/domain.py
+++ b/dedalus/core/domain.py
@@ -202,9 +202,9 @@ class Domain(metaclass=CachedClass):
         """Cached grid shape computation."""
         shape = np.ones(self.dist.dim, dtype=int)
         for basis in self.bases:
-            subscales = scales[basis.axis:basis.axis+basis.dim]
-            subshape = basis.grid_shape(subscales)
-            shape[basis.axis:basis.axis+basis.dim] = subshape
+            first_axis = self.dist.get_basis_axis(basis)
+            basis_axes = slice(first_axis, first_axis+basis.dim)
+            shape[basis_axes] = basis.grid_shape(scales[basis_axes])
         return tuple(shape)
 
     # def expand_bases(self, bases):
-- 
2.43.0


From b2c2bd49280c01b54577e3ca1e085aaa0f2fc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 06/65] fix: groupset slices are split where other groups lie
 between the selected elements

---
 dedalus/core/distributor.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index c4cc766..6683138 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -478,21 +478,41 @@ class Layout:
             slices.append(subslices)
         group_slices = []
         for s in itertools.product(*slices):
-            sliced_selections = selections[tuple(s)]
-            if np.any(sliced_selections): # some elements match group
-                # assume selected groups are cartesian product, find left and right bounds
-                lefts = list(map(np.min, np.where(sliced_selections)))
-                rights = list(map(np.max, np.where(sliced_selections)))
+            sliced_selections = np.ma.filled(selections[tuple(s)], 0)
+            # split into contiguous blocks along the unlooped axes
+            for bounds in self._selection_blocks(sliced_selections, tuple(i for i in range(dim) if s[i] == slice(None))):
                 # build multidimensional group slice
                 group_slice = []
                 for i in range(dim):
                     if s[i] != slice(None):
                         group_slice.append(s[i])
                     else:
-                        group_slice.append(slice(lefts[i], rights[i]+1))
+                        group_slice.append(bounds[i])
                 group_slices.append(tuple(group_slice))
         return group_slices
 
+    @classmethod
+    def _selection_blocks(cls, selection, axes):
+        """Bounds of selected elements, divided where gaps along the specified axes separate them."""
+        # assume selected groups are cartesian product between gaps, find left and right bounds
+        indices = np.where(selection)
+        if indices[0].size == 0:
+            return []
+        bounds = tuple(slice(index.min(), index.max()+1) for index in indices)
+        for axis in axes:
+            unique = np.unique(indices[axis])
+            gaps = np.where(np.diff(unique) > 1)[0]
+            if gaps.size:
+                # Split at first gap
+                blocks = []
+                for split in (slice(None, unique[gaps[0]]+1), slice(unique[gaps[0]+1], None)):
+                    part = np.zeros_like(selection)
+                    part_slices = (slice(None),) * axis + (split,)
+                    part[part_slices] = selection[part_slices]
+                    blocks.extend(cls._selection_blocks(part, axes))
+                return blocks
+        return [bounds]
+
     def slices(self, domain, scales):
         """Local element slices by axis."""
         local_elements = self.local_elements(domain, scales)
-- 
2.43.0


From b271d0645c68591efcf49504807e3e54605992a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 07/65] fix: global coefficient shapes of odd-size Fourier
 bases hold complete groups

---
 dedalus/core/basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e7705f4..52b9bdf 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -405,7 +405,8 @@ class IntervalBasis(Basis):
         if grid_space[0]:
             return self.grid_shape(scales)
         else:
-            return self.shape
+            # Complete coefficient groups
+            return tuple(-(-n // group) * group for n, group in zip(self.shape, self.group_shape))
 
     def chunk_shape(self, grid_space):
         if grid_space[0]:
-- 
2.43.0


From a8a3104c751f65a8872aa7892cf4648f9bac4d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 08/65] fix: equations are split outside all brackets and
 comparison operators

---
 dedalus/tools/parsing.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dedalus/tools/parsing.py b/dedalus/tools/parsing.py
index ffa2e22..f6e2225 100644
--- a/dedalus/tools/parsing.py
+++ b/dedalus/tools/parsing.py
@@ -15,17 +15,19 @@ def split_equation(equation):
     ('f(x, y=5)', 'x**2')
 
     """
-    # Find top-level equals signs by tracking parenthetical level
-    # (to avoid capturing equals signs in keyword assignments)
-    parentheses = 0
+    # Find top-level equals signs by tracking bracket level
+    # (to avoid capturing equals signs in keyword assignments),
+    # passing over comparison operators
+    level = 0
     top_level_equals = []
-    for i, character in enumerate(equation):
-        if character == '(':
-            parentheses += 1
-        elif character == ')':
-            parentheses -= 1
-        elif (character == '=') and (parentheses == 0):
-            top_level_equals.append(i)
+    for match in re.finditer(r'[<>!=:]=|[()\[\]{}=]', equation):
+        token = match.group()
+        if token in '([{':
+            level += 1
+        elif token in ')]}':
+            level -= 1
+        elif (token == '=') and (level == 0):
+            top_level_equals.append(match.start())
     # Raise if there isn't exactly one top-level equals sign
     if len(top_level_equals) == 0:
         raise SymbolicParsingError("Equation contains no top-level equals signs.")
-- 
2.43.0


From 0050c10fe1aa83e59e37193541f1836dcaa29919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 09/65] fix: caches key calls by all effective arguments, keep
 their bound and respect super

---
 dedalus/tools/cache.py | 54 ++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/dedalus/tools/cache.py b/dedalus/tools/cache.py
index 6bccbf9..426e862 100644
--- a/dedalus/tools/cache.py
+++ b/dedalus/tools/cache.py
@@ -55,13 +55,8 @@ class CachedFunction:
         # Caching attributes
         self.cache = OrderedDict()
         self.max_size = max_size
-        # Retrieve arg names and default kw
-        argnames, _, _, defaults, _, _, _ = inspect.getfullargspec(function)
-        self.argnames = argnames
-        if defaults:
-            self.defaults = dict(zip(reversed(argnames), reversed(defaults)))
-        else:
-            self.defaults = dict()
+        # Store function signature
+        self.signature = inspect.signature(function)
 
     def __call__(self, *args, **kw):
         # First try direct call signature
@@ -71,23 +66,24 @@ class CachedFunction:
         except KeyError:
             pass
         # Then try full resolved call
-        resolved_call = serialize_call(args, kw, self.argnames, self.defaults)
+        resolved_call = resolve_call(args, kw, self.signature)
         try:
             result = self.cache[resolved_call]
-            # Add direct call key to avoid resolving it in subsequent calls
-            self.cache[direct_call] = result
-            return result
         except KeyError:
-            pass
-        # Reduce cache size if necessary
-        while len(self.cache) >= self.max_size:
-            self.cache.popitem(last=False)
-        # Compute and cache result
-        result = self.function(*args, **kw)
-        self.cache[direct_call] = result
-        self.cache[resolved_call] = result
+            # Compute and cache result
+            result = self.function(*args, **kw)
+            self._store(resolved_call, result)
+        # Add direct call key to avoid resolving it in subsequent calls
+        self._store(direct_call, result)
         return result
 
+    def _store(self, call, result):
+        """Add result to cache, dropping the oldest entries if necessary."""
+        if call not in self.cache:
+            while self.cache and (len(self.cache) >= self.max_size):
+                self.cache.popitem(last=False)
+        self.cache[call] = result
+
 
 class CachedMethod(CachedFunction):
     """Descriptor for caching method outputs."""
@@ -103,8 +99,9 @@ class CachedMethod(CachedFunction):
         bound_method = types.MethodType(new_cached_method, instance)
         # Set bound method as instance attribute
         # (overrides reference to descriptor from instance)
-        setattr(instance, self.__name__, bound_method)
-
+        # unless accessing an overridden method through super
+        if getattr(type(instance), self.__name__, None) is self:
+            setattr(instance, self.__name__, bound_method)
         return bound_method
 
 
@@ -150,14 +147,9 @@ class CachedClass(type):
         # return call.args[1:]
 
 
-def serialize_call(args, kw, argnames, defaults):
-    """Serialize args/kw into cache key."""
-    call = list(args)
-    for name in argnames[len(args):]:
-        try:
-            arg = kw[name]
-        except KeyError:
-            arg = defaults[name]
-        call.append(arg)
-    return tuple(call)
+def resolve_call(args, kw, signature):
+    """Resolve args/kw into cache key, including defaults."""
+    call = signature.bind(*args, **kw)
+    call.apply_defaults()
+    return (call.args, tuple(sorted(call.kwargs.items())))
 
-- 
2.43.0


From 0797ca7352bd9428887ba95791eb9d6e83af35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 10/65] fix: array kernels write non-contiguous outputs, accept
 empty arrays and reject complex matrices on real data

---
 dedalus/tools/array.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index ab9caf8..f11ebe6 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -22,6 +22,8 @@ def interleaved_view(data):
     # Check datatype
     if data.dtype != np.complex128:
         raise ValueError("Complex array required.")
+    if not data.flags.c_contiguous:
+        raise ValueError("C-contiguous array required.")
     # Create view array
     iv_shape = data.shape + (2,)
     iv = np.ndarray(iv_shape, dtype=np.float64, buffer=data.data)
@@ -112,7 +114,7 @@ def apply_dense(matrix, array, axis, out=None):
     # Flatten later axes
     if dim > 2:
         array_shape = array.shape
-        array = array.reshape((array_shape[0], -1)) # May allocate copy
+        array = array.reshape((array_shape[0], prod(array_shape[1:]))) # May allocate copy
     # Apply matmul
     temp = np.matmul(matrix, array) # Allocates temp
     # Unflatten later axes
@@ -151,7 +153,7 @@ def apply_sparse_dot(matrix, array, axis, out=None):
     # Flatten later axes
     if dim > 2:
         array_shape = array.shape
-        array = array.reshape((array_shape[0], -1)) # May allocate copy
+        array = array.reshape((array_shape[0], prod(array_shape[1:]))) # May allocate copy
     # Apply matmul
     temp = matrix.dot(array) # Allocates temp
     # Unflatten later axes
@@ -197,9 +199,16 @@ def apply_sparse(matrix, array, axis, out=None, check_shapes=False, num_threads=
     # TODO: find way to optimize this with fused types
     matrix_data = matrix.data
     if matrix_data.dtype != out.dtype:
+        if np.iscomplexobj(matrix_data) and not np.iscomplexobj(out):
+            raise ValueError("Cannot apply complex matrix to real array.")
         matrix_data = matrix_data.astype(out.dtype)
-    # Call cython routine
-    cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, out, axis, num_threads)
+    # Call cython routine, which only writes to contiguous outputs
+    if out.flags.c_contiguous:
+        cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, out, axis, num_threads)
+    else:
+        temp = np.empty(out.shape, dtype=out.dtype)
+        cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, temp, axis, num_threads)
+        np.copyto(out, temp)
     return out
 
 
@@ -211,7 +220,7 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
     # Check matrix
     if not isinstance(matrix, sparse.csr_matrix):
         raise ValueError("Matrix must be in CSR format.")
-    if not matrix._has_canonical_format: # avoid property hook (without underscore)
+    if not getattr(matrix, '_has_canonical_format', False): # avoid property hook (without underscore)
         matrix.sum_duplicates()
     # Setup output = rhs
     if out is None:
@@ -221,6 +230,8 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
     # Promote datatypes
     matrix_data = matrix.data
     if matrix_data.dtype != rhs.dtype:
+        if np.iscomplexobj(matrix_data) and not np.iscomplexobj(rhs):
+            raise ValueError("Cannot solve complex matrix for real array.")
         matrix_data = matrix_data.astype(rhs.dtype)
     # Check shapes
     if check_shapes:
@@ -228,8 +239,14 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
             raise ValueError("Axis out of bounds.")
         if not (matrix.shape[0] == matrix.shape[1] == rhs.shape[axis]):
             raise ValueError("Matrix shape mismatch.")
-    # Call cython routine
-    cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, out, axis, num_threads)
+    # Call cython routine, which only writes to contiguous outputs
+    if out.flags.c_contiguous:
+        cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, out, axis, num_threads)
+    else:
+        temp = out.copy(order='C')
+        cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, temp, axis, num_threads)
+        np.copyto(out, temp)
+    return out
 
 
 def csr_matvec(A_csr, x_vec, out_vec):
-- 
2.43.0


From ecd01839a8866741174cb72277c5d32be9a1d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 11/65] fix: subproblems follow reallocated field buffers when
 gathering and scattering

---
 dedalus/core/subsystems.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index e684c00..8e37ebb 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -319,23 +319,29 @@ class Subproblem:
             views.append(field_views)
         return buffer, views
 
-    @CachedMethod
     def _input_field_views(self, fields):
-        views = []
-        for field, buffer_data in zip(fields, self._input_views):
-            for buffer_view, field_slices in buffer_data:
-                field_view = field.data[field_slices]
-                views.append((buffer_view, field_view))
-        return tuple(views)
+        return self._build_field_views(fields, self._input_views)
 
-    @CachedMethod
     def _output_field_views(self, fields):
-        views = []
-        for field, buffer_data in zip(fields, self._output_views):
-            for buffer_view, field_slices in buffer_data:
-                field_view = field.data[field_slices]
-                views.append((buffer_view, field_view))
-        return tuple(views)
+        return self._build_field_views(fields, self._output_views)
+
+    @CachedAttribute
+    def _field_views_cache(self):
+        return {}
+
+    def _build_field_views(self, fields, buffer_views):
+        """Pair buffer views with views into field data, rebuilding if field buffers have been reallocated."""
+        key = (fields, id(buffer_views))
+        cached_buffers, views = self._field_views_cache.get(key, (None, None))
+        if (views is None) or any(f.buffer is not b for f, b in zip(fields, cached_buffers)):
+            views = []
+            for field, buffer_data in zip(fields, buffer_views):
+                for buffer_view, field_slices in buffer_data:
+                    field_view = field.data[field_slices]
+                    views.append((buffer_view, field_view))
+            views = tuple(views)
+            self._field_views_cache[key] = (tuple(f.buffer for f in fields), views)
+        return views
 
     def gather_inputs(self, fields, out=None):
         """Gather and precondition subproblem data from input-like field list."""
-- 
2.43.0


From c4ada652fc1de22e4ec89b860dd015658b6c3c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 12/65] fix: solvers evaluate the right-hand side at every
 step, whatever the iteration count

---
 dedalus/core/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index c63a5fb..2033a71 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -348,7 +348,7 @@ class LinearBoundaryValueSolver(SolverBase):
         self.subproblem_matsolvers = {}
         self.iteration = 0
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
@@ -449,7 +449,7 @@ class NonlinearBoundaryValueSolver(SolverBase):
             pert.valid_modes[:] = var.valid_modes
         self.iteration = 0
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
@@ -567,7 +567,7 @@ class InitialValueSolver(SolverBase):
         local_modes = sum([prod(sp.shape) for sp in self.subproblems])
         self.total_modes = self.dist.comm.allreduce(local_modes, op=MPI.SUM)
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
-- 
2.43.0


From a18686409086d77aacf6b4eb57fafce699b63215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 13/65] fix: building a second solver from a problem keeps the
 first solver's right-hand side up to date

---
 dedalus/core/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f500020..02b2fc1 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -349,7 +349,9 @@ class SystemHandler(Handler):
         for i, task in enumerate(self.tasks):
             op = task['operator']
             if isinstance(op, FutureField):
-                op.out = op.build_out()
+                # Share output with systems already built from the same operator
+                if op.out is None:
+                    op.out = op.build_out()
                 self.fields.append(op.out)
             else:
                 self.fields.append(op)
-- 
2.43.0


From 3eba0cc83085d1c7baa68cab3c4e2e76f6f0e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 14/65] fix: RKGFY can be selected by name

---
 dedalus/core/timesteppers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedalus/core/timesteppers.py b/dedalus/core/timesteppers.py
index 81da4c1..f9d7734 100644
--- a/dedalus/core/timesteppers.py
+++ b/dedalus/core/timesteppers.py
@@ -724,6 +724,7 @@ class RKSMR(RungeKuttaIMEX):
                   [α1, β1+α2, β2+α3, β3]])
 
 
+@add_scheme
 class RKGFY(RungeKuttaIMEX):
     """2nd-order 2-stage scheme from Hollerbach and Marti"""
 
-- 
2.43.0


From d90440deac0096191537725c9540c23189173fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 15/65] fix: run statistics can be logged before the first step
 and at the end of warmup

---
 dedalus/core/solvers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 2033a71..40e189b 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -580,6 +580,8 @@ class InitialValueSolver(SolverBase):
         self.sim_time = self.initial_sim_time = problem.time.allreduce_data_max(layout='g')
         self.iteration = self.initial_iteration = 0
         self.warmup_iterations = warmup_iterations
+        self.start_time_end = None
+        self.run_time_start = None
         if np.isrealobj(self.dtype.type()):
             self.enforce_real_cadence = enforce_real_cadence
         else:
@@ -755,13 +757,16 @@ class InitialValueSolver(SolverBase):
     def log_stats(self, format=".4g"):
         """Log timing statistics with specified string formatting (optional)."""
         self.run_time_end = self.wall_time
-        start_time = self.start_time_end
         logger.info(f"Final iteration: {self.iteration}")
         logger.info(f"Final sim time: {self.sim_time}")
+        if self.start_time_end is None:
+            logger.info("Timings unavailable because no steps were taken.")
+            return
+        start_time = self.start_time_end
         logger.info(f"Setup time (init - iter 0): {start_time:{format}} sec")
         if self.profile:
             self.dump_profiles(self.run_profiler, "runtime")
-        if self.iteration >= self.initial_iteration + self.warmup_iterations:
+        if self.run_time_start is not None:
             warmup_time = self.warmup_time_end - self.warmup_time_start
             run_time = self.run_time_end - self.run_time_start
             profile_output_time = (self.warmup_time_start-self.start_time_end) + (self.run_time_start-self.warmup_time_end)
-- 
2.43.0


From 562b131d5d9543082a38847db5378d316571b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 16/65] fix: rebuilding the matrices of an initial value
 problem refactorizes them

---
 dedalus/core/solvers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 40e189b..3664cf4 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -592,6 +592,13 @@ class InitialValueSolver(SolverBase):
         self.stop_iteration = np.inf
         logger.debug('Finished IVP instantiation')
 
+    def build_matrices(self, subproblems=None, matrices=None):
+        """Build matrices for selected subproblems."""
+        super().build_matrices(subproblems, matrices)
+        # Refactorize LHS matrices on the next step
+        if hasattr(self, 'timestepper'):
+            self.timestepper._LHS_params = None
+
     @property
     def sim_time(self):
         return self._sim_time
-- 
2.43.0


From 51c3c9e6f2fbd3da286e18ffad089381d561c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 17/65] fix: multistep schemes restart their history from a
 loaded state

---
 dedalus/core/solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 3664cf4..3ca7bcb 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -679,6 +679,8 @@ class InitialValueSolver(SolverBase):
                     logger.warning(f"Field '{field.name}' not found in savefile.")
                 else:
                     raise IOError(f"Field '{field.name}' not found in savefile. Set allow_missing=True to ignore this error.")
+            # Restart multistep history
+            self.timestepper._iteration = 0
         return write, dt
 
     def enforce_hermitian_symmetry(self, fields):
-- 
2.43.0


From 354a825974a0a94f53ef8fc278af497084b4d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:12 +0000
Subject: [PATCH 18/65] fix: steps whose right-hand side fails to evaluate can
 be repeated

---
 dedalus/core/timesteppers.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/timesteppers.py b/dedalus/core/timesteppers.py
index f9d7734..8ce5b7b 100644
--- a/dedalus/core/timesteppers.py
+++ b/dedalus/core/timesteppers.py
@@ -112,6 +112,11 @@ class MultistepIMEX:
         RHS = self.RHS
         axpy = self.axpy
 
+        # Evaluate F(X0)
+        # Precedes any change to the history so that failed evaluations leave it intact
+        evaluator.evaluate_scheduled(iteration=iteration, wall_time=wall_time, sim_time=sim_time, timestep=dt)
+        evaluator.require_coeff_space(F_fields)
+
         # Cycle and compute timesteps
         self.dt.rotate()
         self.dt[0] = dt
@@ -133,8 +138,8 @@ class MultistepIMEX:
 
         # Check on updating LHS
         update_LHS = ((a0, b0) != self._LHS_params)
-        self._LHS_params = (a0, b0)
         if update_LHS:
+            self._LHS_params = None
             # Remove old solver references
             for sp in subproblems:
                 sp.LHS_solver = None
@@ -146,9 +151,7 @@ class MultistepIMEX:
             apply_sparse(sp.M_min, spX, axis=0, out=MX0.get_subdata(sp))
             apply_sparse(sp.L_min, spX, axis=0, out=LX0.get_subdata(sp))
 
-        # Evaluate F(X0)
-        evaluator.evaluate_scheduled(iteration=iteration, wall_time=wall_time, sim_time=sim_time, timestep=dt)
-        evaluator.require_coeff_space(F_fields)
+        # Collect F(X0)
         for sp in subproblems:
             sp.gather_outputs(F_fields, out=F0.get_subdata(sp))
 
@@ -182,6 +185,7 @@ class MultistepIMEX:
             spRHS = RHS.get_subdata(sp)
             spX = sp.LHS_solver.solve(spRHS)  # CREATES TEMPORARY
             sp.scatter_inputs(spX, state_fields)
+        self._LHS_params = (a0, b0)
 
         # Update solver
         solver.sim_time += dt
@@ -576,8 +580,8 @@ class RungeKuttaIMEX:
 
         # Check on updating LHS
         update_LHS = (k != self._LHS_params)
-        self._LHS_params = k
         if update_LHS:
+            self._LHS_params = None
             # Remove old solver references
             for sp in subproblems:
                 sp.LHS_solvers = [None] * (self.stages+1)
@@ -642,6 +646,7 @@ class RungeKuttaIMEX:
                 spX = sp.LHS_solvers[i].solve(spRHS)  # CREATES TEMPORARY
                 sp.scatter_inputs(spX, state_fields)
             solver.sim_time = sim_time_0 + k*c[i]
+        self._LHS_params = k
 
 
 @add_scheme
-- 
2.43.0


From 6766a44c755648389b21e22b2eee590f4265f2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 19/65] fix: handlers with a simulation-time cadence fire from
 negative start times

---
 dedalus/core/evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 02b2fc1..dc13e48 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -238,10 +238,10 @@ class Handler:
         self.iter = iter
         self.custom_schedule = custom_schedule
         self.tasks = []
-        # Set initial divisors to be -1 to trigger output on first iteration
-        self.last_wall_div = -1
-        self.last_sim_div = -1
-        self.last_iter_div = -1
+        # Set initial divisors below any time or iteration to trigger output on first iteration
+        self.last_wall_div = -np.inf
+        self.last_sim_div = -np.inf
+        self.last_iter_div = -np.inf
 
     def check_schedule(self, **kw):
         scheduled = False
-- 
2.43.0


From 2567d908ed25c1fab76488f504fdb031a3839c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 20/65] fix: coefficient output scales hold the groups of their
 own axis

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index dc13e48..d1b8de4 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -555,7 +555,7 @@ class H5FileHandlerBase(Handler):
                         data = basis.global_grids(self.dist, scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
-                        data = layout.global_group_arrays(op.domain, scales)[subaxis]
+                        data = layout.global_group_arrays(op.domain, scales)[axis]
                     scale_hash = hashlib.sha1(data).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
-- 
2.43.0


From 1ef10f520841bd6b5dc3245302708c28d8aebb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 21/65] fix: grid output scales follow the scales of their own
 axis

---
 dedalus/core/evaluator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index d1b8de4..7af9cd7 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -549,10 +549,12 @@ class H5FileHandlerBase(Handler):
                 if basis is None:
                     sn = lookup = 'constant'
                 else:
-                    subaxis = axis - self.dist.get_basis_axis(basis)
+                    first_axis = self.dist.get_basis_axis(basis)
+                    subaxis = axis - first_axis
                     if layout.grid_space[axis]:
                         sn = basis.coordsys.coords[subaxis].name
-                        data = basis.global_grids(self.dist, scales)[subaxis].ravel()
+                        basis_scales = scales[first_axis:first_axis+basis.dim]
+                        data = basis.global_grids(self.dist, basis_scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
                         data = layout.global_group_arrays(op.domain, scales)[axis]
-- 
2.43.0


From 6888f572f12865f7c827e1b7badcaa12df4c780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 22/65] fix: output sets of handlers with dots in their names
 go to separate files

---
 dedalus/core/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 7af9cd7..0c8dbcc 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -494,7 +494,7 @@ class H5FileHandlerBase(Handler):
 
     @property
     def current_file(self):
-        return self.current_path.with_suffix('.h5')
+        return self.base_path.joinpath(f"{self.current_path.name}.h5")
 
     def get_file(self, **kw):
         """Return current HDF5 file, creating if necessary."""
-- 
2.43.0


From 244ada8be14b7cc65e97d6628d1b55b76cdf3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 23/65] fix: handlers recognize exactly their own output sets,
 with or without completed writes

---
 dedalus/core/evaluator.py | 67 +++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 0c8dbcc..39d997e 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -401,40 +401,19 @@ class H5FileHandlerBase(Handler):
 
         self.comm = comm = self.dist.comm_cart
         if comm.rank == 0:
-            set_pattern = '%s_s*' % (self.base_path.stem)
-            sets = list(self.base_path.glob(set_pattern))
+            sets = self.find_sets()
             if mode == "overwrite":
-                for set in sets:
-                    if set.is_dir():
-                        shutil.rmtree(str(set))
-                    else:
-                        set.unlink()
+                for paths in sets.values():
+                    for path in paths:
+                        if path.is_dir():
+                            shutil.rmtree(str(path))
+                        else:
+                            path.unlink()
                 set_num = 1
                 total_write_num = 0
             elif mode == "append":
-                set_nums = []
-                if sets:
-                    for set in sets:
-                        m = re.match("{}_s(\d+)$".format(base_path.stem), set.stem)
-                        if m:
-                            set_nums.append(int(m.groups()[0]))
-                    max_set = max(set_nums)
-                    joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
-                    p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
-                    if os.path.exists(str(joined_file)):
-                        with h5py.File(str(joined_file),'r') as testfile:
-                            last_write_num = testfile['/scales/write_number'][-1]
-                    elif os.path.exists(str(p0_file)):
-                        with h5py.File(str(p0_file),'r') as testfile:
-                            last_write_num = testfile['/scales/write_number'][-1]
-                    else:
-                        last_write_num = 0
-                        logger.warning("Cannot determine write num from files. Restarting count.")
-                else:
-                    max_set = 0
-                    last_write_num = 0
-                set_num = max_set + 1
-                total_write_num = last_write_num
+                set_num = max(sets, default=0) + 1
+                total_write_num = self.find_last_write(sets)
         else:
             set_num = None
             total_write_num = None
@@ -448,6 +427,34 @@ class H5FileHandlerBase(Handler):
             if comm.rank == 0:
                 base_path.mkdir(exist_ok=True, parents=True)
 
+    def find_sets(self):
+        """Find present output of this handler: paths of each set number."""
+        sets = defaultdict(list)
+        if self.base_path.is_dir():
+            for path in self.base_path.iterdir():
+                m = re.fullmatch(rf"{re.escape(self.name)}_s(\d+)(\.h5)?", path.name)
+                if m and path.is_dir() == (m.group(2) is None):
+                    sets[int(m.group(1))].append(path)
+        return sets
+
+    def find_last_write(self, sets):
+        """Find last write number in present output, skipping sets without completed writes."""
+        for set_num in sorted(sets, reverse=True):
+            set_name = f"{self.name}_s{set_num}"
+            joint_file = self.base_path.joinpath(f"{set_name}.h5")
+            p0_file = self.base_path.joinpath(set_name, f"{set_name}_p0.h5")
+            for path in [joint_file, p0_file]:
+                if path.exists():
+                    try:
+                        with h5py.File(str(path), 'r') as file:
+                            write_numbers = file['/scales/write_number'][:]
+                    except (OSError, KeyError):
+                        logger.warning(f"Cannot determine write numbers from {path}.")
+                        continue
+                    if write_numbers.size:
+                        return int(write_numbers[-1])
+        return 0
+
     def add_task(self, *args, **kw):
         super().add_task(*args, **kw)
         # Add data distribution information to task dictionary
-- 
2.43.0


From 87bdf5955a8f4a63706ffa31e607cb9dfb235363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:38 +0000
Subject: [PATCH 24/65] fix: output scales with equal values and different
 shapes are kept apart

---
 dedalus/core/evaluator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 39d997e..01c0246 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -565,7 +565,10 @@ class H5FileHandlerBase(Handler):
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
                         data = layout.global_group_arrays(op.domain, scales)[axis]
-                    scale_hash = hashlib.sha1(data).hexdigest()
+                    scale_hash = hashlib.sha1(data)
+                    if data.ndim > 1:
+                        scale_hash.update(str(data.shape).encode())
+                    scale_hash = scale_hash.hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
                         file['scales'].create_dataset(name=lookup, data=data)
-- 
2.43.0


From d8ea85f71c2183d63d548a8e9fb0641a1637e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 25/65] fix: grids and weights of constant directions are not
 scaled

---
 dedalus/core/basis.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 52b9bdf..f4486a4 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -143,6 +143,11 @@ class Basis:
         shape[np.array(self.shape) == 1] = 1
         return tuple(shape)
 
+    def subaxis_grid_size(self, subaxis, scale):
+        # Constant directions are never scaled
+        size = self.shape[subaxis]
+        return 1 if size == 1 else int(np.ceil(scale * size))
+
     def global_shape(self, grid_space, scales):
         # Subclasses must implement
         raise NotImplementedError
@@ -2126,14 +2131,14 @@ class AnnulusBasis(PolarBasis, metaclass=CachedClass):
 
     @CachedMethod
     def _radius_grid(self, scale):
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         z, weights = dedalus_sphere.jacobi.quadrature(N, self.alpha[0], self.alpha[1])
         r = self.dR/2*(z + self.rho)
         return r.astype(np.float64)
 
     @CachedMethod
     def _radius_weights(self, scale):
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         z_proj, weights_proj = dedalus_sphere.jacobi.quadrature(N, self.alpha[0], self.alpha[1])
         z0, weights0 = dedalus_sphere.jacobi.quadrature(N, 0, 0)
         Q0 = dedalus_sphere.jacobi.polynomials(N, self.alpha[0], self.alpha[1], z0)
@@ -2143,14 +2148,14 @@ class AnnulusBasis(PolarBasis, metaclass=CachedClass):
 
     def global_radius_weights(self, dist, scale=None):
         if scale == None: scale = 1
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         z, weights = dedalus_sphere.sphere.quadrature(2,N,k=self.alpha)
         return reshape_vector(weights.astype(np.float64), dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     def local_radius_weights(self, dist, scale=None):
         if scale == None: scale = 1
         local_elements = dist.grid_layout.local_elements(self.domain(dist), scales=scale)[dist.get_basis_axis(self)+1]
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         z, weights = dedalus_sphere.sphere.quadrature(2,N,k=self.alpha)
         return reshape_vector(weights.astype(np.float64)[local_elements], dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
@@ -2413,21 +2418,21 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
         return reshape_vector(r[local_elements], dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     def _native_radius_grid(self, scale):
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         z, weights = dedalus_sphere.zernike.quadrature(2,N,k=self.alpha)
         r = np.sqrt((z+1)/2).astype(np.float64)
         return r
 
     def global_radius_weights(self, dist, scale=None):
         if scale == None: scale = 1
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         z, weights = dedalus_sphere.sphere.quadrature(2,N,k=self.alpha)
         return reshape_vector(weights.astype(np.float64), dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     def local_radius_weights(self, dist, scale=None):
         if scale == None: scale = 1
         local_elements = dist.grid_layout.local_elements(self.domain(dist), scales=scale)[dist.get_basis_axis(self)+1]
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         z, weights = dedalus_sphere.sphere.quadrature(2,N,k=self.alpha)
         return reshape_vector(weights.astype(np.float64)[local_elements], dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
@@ -3043,21 +3048,21 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
         return reshape_vector(theta, dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     def _native_colatitude_grid(self, scale):
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         cos_theta, weights = dedalus_sphere.sphere.quadrature(Lmax=N-1)
         theta = np.arccos(cos_theta).astype(np.float64)
         return theta
 
     def global_colatitude_weights(self, dist, scale=None):
         if scale == None: scale = 1
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         cos_theta, weights = dedalus_sphere.sphere.quadrature(Lmax=N-1)
         return reshape_vector(weights.astype(np.float64), dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
     def local_colatitude_weights(self, dist, scale=None):
         if scale == None: scale = 1
         local_elements = dist.grid_layout.local_elements(self.domain(dist), scales=scale)[dist.get_basis_axis(self)+1]
-        N = int(np.ceil(scale * self.shape[1]))
+        N = self.subaxis_grid_size(1, scale)
         cos_theta, weights = dedalus_sphere.sphere.quadrature(Lmax=N-1)
         return reshape_vector(weights.astype(np.float64)[local_elements], dim=dist.dim, axis=dist.get_basis_axis(self)+1)
 
@@ -3768,14 +3773,14 @@ class ShellRadialBasis(RegularityBasis, metaclass=CachedClass):
 
     @CachedMethod
     def _radius_grid(self, scale):
-        N = int(np.ceil(scale * self.shape[2]))
+        N = self.subaxis_grid_size(2, scale)
         z, weights = dedalus_sphere.jacobi.quadrature(N, self.alpha[0], self.alpha[1])
         r = self.dR/2*(z + self.rho)
         return r.astype(np.float64)
 
     @CachedMethod
     def _radius_weights(self, scale):
-        N = int(np.ceil(scale * self.shape[2]))
+        N = self.subaxis_grid_size(2, scale)
         #z_proj, weights_proj = dedalus_sphere.annulus.quadrature(N, alpha=self.alpha)
         z_proj, weights_proj = dedalus_sphere.jacobi.quadrature(N, self.alpha[0], self.alpha[1])
         z0, weights0 = dedalus_sphere.jacobi.quadrature(N, 0, 0)
@@ -3990,14 +3995,14 @@ class BallRadialBasis(RegularityBasis, metaclass=CachedClass):
         return self.radial_COV.problem_coord(self._native_radius_grid(scale))
 
     def _native_radius_grid(self, scale):
-        N = int(np.ceil(scale * self.shape[2]))
+        N = self.subaxis_grid_size(2, scale)
         z, weights = dedalus_sphere.zernike.quadrature(3, N, k=self.alpha)
         r = np.sqrt((z + 1) / 2)
         return r.astype(np.float64)
 
     @CachedMethod
     def _radius_weights(self, scale):
-        N = int(np.ceil(scale * self.shape[2]))
+        N = self.subaxis_grid_size(2, scale)
         z, weights = dedalus_sphere.zernike.quadrature(3, N, k=self.alpha)
         return weights
 
-- 
2.43.0


From 4a76852495830c07b9f2ca571eb465b3f6006d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 26/65] fix: take Cartesian and direct-product components along
 the requested tensor index

---
 dedalus/core/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4547146..4918f01 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3354,7 +3354,7 @@ class CartesianComponent(CartCompBase):
         # Set output layout
         out.preset_layout(arg0.layout)
         # Copy specified comonent
-        take_comp = tuple([None] * self.index + [self.coord_subaxis])
+        take_comp = tuple([slice(None)] * self.index + [self.coord_subaxis])
         out.data[:] = arg0.data[take_comp]
 
 
@@ -3378,7 +3378,7 @@ class DirectProductComponent(CartCompBase):
         self.dtype = operand.dtype
         # Slicing for component
         comp_slice = slice(self.comp_subaxis, self.comp_subaxis+comp.dim)
-        self.comp_slices = tuple([None]*index + [comp_slice])
+        self.comp_slices = tuple([slice(None)]*index + [comp_slice])
 
     def check_conditions(self):
         """Check that operands are in a proper layout."""
-- 
2.43.0


From b6833a448ace73e4bd36aac8645428cf6cffac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 27/65] fix: radial/angular/azimuthal components accept
 negative tensor indices

---
 dedalus/core/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4918f01..a8277b9 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2245,6 +2245,7 @@ class RadialComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
@@ -2270,6 +2271,7 @@ class AngularComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         if isinstance(self.coordsys, coords.PolarCoordinates):
             self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
@@ -2303,6 +2305,7 @@ class AzimuthalComponent(Component, metaclass=MultiClass):
         super().__init__(operand, index=index, out=out)
         if not isinstance(self.coordsys, coords.PolarCoordinates):
             raise ValueError("Can only take the AzimuthalComponent of a PolarCoordinate vector")
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
-- 
2.43.0


From 42c1651d4ac08b9184e330226fe39c6ee5e1c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 28/65] fix: polar skew and trace use coordinate components on
 edges and constants

---
 dedalus/core/operators.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index a8277b9..2db7980 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1835,11 +1835,14 @@ class PolarTrace(Trace):
         self.radius_axis = self.dist.get_axis(self.coordsys.coords[1])
 
     def subproblem_matrix(self, subproblem):
-        m = subproblem.group[self.radius_axis - 1]
-        # [-+, +-] are 1, other components are 0
-        # [ 1,  2]
         trace_spin = np.zeros(4)
-        trace_spin[[1, 2]] = 1
+        if (self.input_basis is not None) and (self.input_basis.dim > 1):
+            # [-+, +-] are 1, other components are 0
+            # [ 1,  2]
+            trace_spin[[1, 2]] = 1
+        else:
+            # Constants and edges hold coordinate components in all layouts
+            trace_spin[[0, 3]] = 1
         # Kronecker up identity for remaining tensor components
         n_eye = prod(cs.dim for cs in self.tensorsig)
         # Kronecker up identity for coeff size
@@ -2130,12 +2133,19 @@ class SpinSkew(Skew):
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
         self.azimuth_axis = self.dist.get_axis(self.coordsys.coords[0])
+        # Constants and edges hold coordinate components in all layouts
+        basis = self.domain.get_basis(self.coordsys)
+        self.spin_coeffs = (basis is not None) and (basis.dim > 1)
 
     def subproblem_matrix(self, subproblem):
         """Build operator matrix for a specific subproblem."""
         # Build identity factors for each tangent space and coeffs
         shape = subproblem.field_shape(self)
         factors = [sparse.identity(size, format='csr') for size in shape]
+        # Left handed coordinate components
+        if not self.spin_coeffs:
+            factors[self.index] = np.array([[0, 1], [-1, 0]])
+            return reduce(sparse.kron, factors, 1).tocsr()
         # Weight by spin (spinorder: -, +)
         factors[self.index] = np.array([[-1, 0], [0, 1]])
         # Multiply by 1j
@@ -2158,7 +2168,7 @@ class SpinSkew(Skew):
         out.preset_layout(arg.layout)
         # Apply skew
         if arg.data.size:
-            if arg.layout.grid_space[azimuth_axis+1]:
+            if (not self.spin_coeffs) or arg.layout.grid_space[azimuth_axis+1]:
                 # Left handed
                 sx = axslice(self.index, 0, 1)
                 sy = axslice(self.index, 1, 2)
-- 
2.43.0


From 1ce96a0504393361d057c815d48f89062b145b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 29/65] fix: sums and products of edge fields with constants
 keep the edge basis in either order

---
 dedalus/core/arithmetic.py | 10 +++++-----
 dedalus/core/domain.py     |  3 +++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 64daa53..02e0a53 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -25,7 +25,7 @@ from ..tools.dispatch import MultiClass
 from ..tools.exceptions import NonlinearOperatorError
 from ..tools.exceptions import SymbolicParsingError
 from ..tools.exceptions import SkipDispatchException
-from ..tools.general import unify_attributes, DeferredTuple
+from ..tools.general import OrderedSet, unify_attributes, DeferredTuple
 
 # Public interface
 __all__ = ['Add',
@@ -98,7 +98,7 @@ class Add(Future, metaclass=MultiClass):
         """Build output bases."""
         dist = unify_attributes(args, 'dist')
         bases = []
-        for coord in args[0].domain.bases_by_coord:
+        for coord in OrderedSet(coord for arg in args for coord in arg.domain.bases_by_coord):
             ax_bases = tuple(arg.domain.bases_by_coord.get(coord, None) for arg in args)
             # All constant bases yields constant basis
             if all(basis is None for basis in ax_bases):
@@ -270,9 +270,9 @@ class Product(Future):
         bases = []
         arg0_bases = arg0.domain.bases_by_coord
         arg1_bases = arg1.domain.bases_by_coord
-        for coord in arg0_bases:
-            b0 = arg0_bases[coord]
-            b1 = arg1_bases[coord]
+        for coord in OrderedSet([*arg0_bases, *arg1_bases]):
+            b0 = arg0_bases.get(coord, None)
+            b1 = arg1_bases.get(coord, None)
             # All constant bases yields constant basis
             if b0 is None and b1 is None:
                 continue
diff --git a/dedalus/core/domain.py b/dedalus/core/domain.py
index 0542b09..b0c65ed 100644
--- a/dedalus/core/domain.py
+++ b/dedalus/core/domain.py
@@ -36,6 +36,9 @@ class Domain(metaclass=CachedClass):
         cs = [b.coordsys for b in bases]
         if len(set(cs)) < len(cs):
             raise ValueError("Overlapping bases specified.")
+        axes = [dist.get_basis_axis(b) + subaxis for b in bases for subaxis in range(b.dim)]
+        if len(set(axes)) < len(axes):
+            raise ValueError("Overlapping bases specified.")
         # Sort by first axis
         key = lambda basis: dist.get_basis_axis(basis)
         bases = tuple(sorted(bases, key=key))
-- 
2.43.0


From 892055f1c687dcf4927af300b03d4ec5a07f9000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 30/65] fix: polar bases of different shapes are different, so
 axisymmetric and full fields can be added

---
 dedalus/core/basis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index f4486a4..aac58b1 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1902,8 +1902,9 @@ class PolarBasis(SpinBasis):
             if self.dtype == other.dtype:
                 if self.coordsys == other.coordsys:
                     if self.grid_params == other.grid_params:
-                        if self.k == other.k:
-                            return True
+                        if self.shape == other.shape:
+                            if self.k == other.k:
+                                return True
         return False
 
     def __hash__(self):
-- 
2.43.0


From 79191d05da91d9661dc374e9b4b97fb47d2ee5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 31/65] fix: real radial fields in balls can be interpolated

---
 dedalus/core/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index aac58b1..94f61ed 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5806,6 +5806,8 @@ class BallRadialInterpolate(operators.Interpolate, operators.SphericalEllOperato
                    slices_in[axis] = radial_basis.n_slice(ell)
                    vec_in  = comp_in[tuple(slices_in)]
                    vec_out = comp_out[tuple(slices_out)]
+                   # Constants have no sine part
+                   vec_in = vec_in[axslice(axis-2, 0, vec_out.shape[axis-2])]
                    A = self.radial_matrix(regindex, regindex, ell)
                    apply_matrix(A, vec_in, axis=axis, out=vec_out)
         radial_basis.backward_regularity_recombination(operand.tensorsig, self.basis_subaxis, out.data, ell_maps=input_basis.ell_maps(self.dist))
-- 
2.43.0


From b715aa96b2b84f99f69b411950cb5ae5d5659b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 32/65] fix: conversions between azimuthal resolutions are
 applied in coefficient space

---
 dedalus/core/basis.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 94f61ed..e15315e 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2603,6 +2603,21 @@ class ConvertPolar(operators.Convert, operators.PolarMOperator):
     def __init__(self, operand, output_basis, out=None):
         operators.Convert.__init__(self, operand, output_basis, out=out)
         self.radius_axis = self.dist.last_axis(output_basis)
+        self.same_azimuth = (self.input_basis.shape[0] == output_basis.shape[0])
+
+    def check_conditions(self):
+        """Check that arguments are in a proper layout."""
+        # Require coeff space to change azimuthal resolution
+        if not self.same_azimuth and self.args[0].layout.grid_space[self.last_axis]:
+            return False
+        return super().check_conditions()
+
+    def enforce_conditions(self):
+        """Require arguments to be in a proper layout."""
+        # Require coeff space to change azimuthal resolution
+        if not self.same_azimuth:
+            self.args[0].require_coeff_space(self.last_axis)
+        super().enforce_conditions()
 
     def spinindex_out(self, spinindex_in):
         return (spinindex_in,)
-- 
2.43.0


From cdc1a89f9e28ed0ff1698352b1fb9898499e5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 33/65] fix: evaluations that raised or stopped half-way leave
 no stale operands behind

---
 dedalus/core/future.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedalus/core/future.py b/dedalus/core/future.py
index 58f9cd9..d8a4836 100644
--- a/dedalus/core/future.py
+++ b/dedalus/core/future.py
@@ -40,6 +40,7 @@ class Future(Operand):
     """
 
     store_last = STORE_LAST_DEFAULT
+    _attempt_id = None
 
     def __init__(self, *args, out=None):
         # # Check output consistency
@@ -158,6 +159,11 @@ class Future(Operand):
                 self.last_id = None
                 self.last_out = None
 
+        # Drop arguments substituted by unfinished evaluations, except by attempts with the same id
+        if id is None or id != self._attempt_id:
+            self.reset()
+        self._attempt_id = id
+
         # Recursively attempt evaluation of all operator arguments
         # Track evaluation success with flag
         all_eval = True
-- 
2.43.0


From 85b8bdc5c489e2540707a057c0aa40d4dd460cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 34/65] fix: stored operands are brought to dealias scales when
 evaluations at one id are resumed

---
 dedalus/core/future.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/future.py b/dedalus/core/future.py
index d8a4836..9816879 100644
--- a/dedalus/core/future.py
+++ b/dedalus/core/future.py
@@ -168,16 +168,16 @@ class Future(Operand):
         # Track evaluation success with flag
         all_eval = True
         for i, a in enumerate(self.args):
-            if isinstance(a, Field):
-                a.change_scales(a.domain.dealias)
             if isinstance(a, Future):
-                a_eval = a.evaluate(id=id, force=force)
+                a = a.evaluate(id=id, force=force)
                 # If evaluation succeeds, substitute result
-                if a_eval is not None:
-                    self.args[i] = a_eval
+                if a is not None:
+                    self.args[i] = a
                 # Otherwise change flag
                 else:
                     all_eval = False
+            if isinstance(a, Field):
+                a.change_scales(a.domain.dealias)
         # Return None if any arguments are not evaluable
         if not all_eval:
             return None
-- 
2.43.0


From 6c43b7fb198b947c9904bb25f27faf8d00c418ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 35/65] fix: linear operators replace nested operator types by
 the new operator, not the reverse

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 2db7980..635703a 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -694,7 +694,7 @@ class LinearOperator(FutureField):
             return new
         # Check base and call with replaced arguments
         elif isinstance(old, type) and isinstance(self, old):
-            new_operand = self.operand.replace(new, old)
+            new_operand = self.operand.replace(old, new)
             return new(new_operand)
         # Call with replaced arguments
         else:
-- 
2.43.0


From 5982987cb76f35173919325369a6bfb0fcab6431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 36/65] fix: products can be expanded

---
 dedalus/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 02e0a53..c10f85e 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -324,7 +324,7 @@ class Product(Future):
             # Sum over cartesian product of sums including specified variables
             arg_sets = [arg.args if (isinstance(arg, Add) and arg.has(*vars)) else [arg] for arg in args]
             arg_sets = itertools.product(*arg_sets)
-            return sum(self.new_operand(*args) for args in arg_sets)
+            return sum(self.new_operands(*args) for args in arg_sets)
         else:
             return self
 
-- 
2.43.0


From a0853c4904ed7b66566bd1d67a06eb99e953395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 37/65] fix: spell __rmatmul__ correctly

---
 dedalus/core/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index e8fa8dc..32b2d68 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -117,7 +117,7 @@ class Operand:
         from .arithmetic import DotProduct
         return DotProduct(self, other)
 
-    def __rmathmul__(self, other):
+    def __rmatmul__(self, other):
         # Call: other @ self
         from .arithmetic import DotProduct
         return DotProduct(other, self)
-- 
2.43.0


From 10b56f62c9d5b8ba9bf9cc9769b8c74070969bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 38/65] fix: every linear operator can be split, replaced,
 expanded and differentiated, with zero or constant parts

---
 dedalus/core/arithmetic.py |  2 +-
 dedalus/core/operators.py  | 34 +++++++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index c10f85e..bd23b90 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -320,7 +320,7 @@ class Product(Future):
         """Expand expression over specified variables."""
         if self.has(*vars):
             # Expand arguments
-            args = [arg.expand(*vars) for arg in self.args]
+            args = [arg.expand(*vars) if isinstance(arg, Operand) else arg for arg in self.args]
             # Sum over cartesian product of sums including specified variables
             arg_sets = [arg.args if (isinstance(arg, Add) and arg.has(*vars)) else [arg] for arg in args]
             arg_sets = itertools.product(*arg_sets)
diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 635703a..d31c4f8 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -672,6 +672,12 @@ class LinearOperator(FutureField):
         # Subclasses must implement with correct arguments
         raise NotImplementedError("%s has not implemented the new_operand method." %type(self))
 
+    def _apply(self, operand):
+        """Call operator with new operand, skipping zeros."""
+        if isinstance(operand, Number) and operand == 0:
+            return 0
+        return self.new_operand(operand)
+
     def split(self, *vars):
         """Split into expressions containing and not containing specified operands/operators."""
         # Check for matching operator
@@ -680,12 +686,12 @@ class LinearOperator(FutureField):
                 if isinstance(self, var):
                     return (self, 0)
         # Distribute over split operand
-        return tuple(self.new_operand(arg) for arg in self.operand.split(*vars))
+        return tuple(self._apply(arg) for arg in self.operand.split(*vars))
 
     def sym_diff(self, var):
         """Symbolically differentiate with respect to specified operand."""
         # Differentiate argument
-        return self.new_operand(self.operand.sym_diff(var))
+        return self._apply(self.operand.sym_diff(var))
 
     def replace(self, old, new):
         """Replace specified operand/operator."""
@@ -699,7 +705,7 @@ class LinearOperator(FutureField):
         # Call with replaced arguments
         else:
             new_operand = self.operand.replace(old, new)
-            return self.new_operand(new_operand)
+            return self._apply(new_operand)
 
     def expand(self, *vars):
         """Expand expression over specified variables."""
@@ -1020,6 +1026,12 @@ class TimeDerivative(LinearOperator):
     def base(self):
         return TimeDerivative
 
+    def new_operand(self, operand, **kw):
+        # Numbers are constant in time
+        if isinstance(operand, Number):
+            return 0
+        return TimeDerivative(operand, **kw)
+
     def _expand_linop(self, operand, vars):
         """Expand over linear operator."""
         # Halt expansion when hitting another time derivative
@@ -1085,6 +1097,9 @@ class Interpolate(SpectralOperator, metaclass=MultiClass):
             coord = operand.domain.get_coord(coord)
         else:
             raise ValueError("coord must be Coordinate or str")
+        # Skip constant directions
+        if isinstance(operand, Operand) and operand.domain.get_basis(coord) is None:
+            raise SkipDispatchException(output=operand)
         return (operand, coord, position), {'out': out}
 
 #    @classmethod
@@ -1283,6 +1298,9 @@ class Average(LinearOperator, metaclass=MultiClass):
         self.tensorsig = operand.tensorsig
         self.dtype = operand.dtype
 
+    def new_operand(self, operand, **kw):
+        return Average(operand, self.coord, **kw)
+
 
 # # CHECK NEW
 # @parseable('filter', 'f')
@@ -1586,6 +1604,16 @@ class Convert(SpectralOperator, metaclass=MultiClass):
         # Pass through without conversion
         return operand
 
+    def split(self, *vars):
+        """Split into expressions containing and not containing specified operands/operators."""
+        # Keep conversion of split operand
+        return tuple(convert(arg, [self.output_basis]) for arg in super().split(*vars))
+
+    def sym_diff(self, var):
+        """Symbolically differentiate with respect to specified operand."""
+        # Keep conversion of derivative
+        return convert(super().sym_diff(var), [self.output_basis])
+
     def check_conditions(self):
         """Check that arguments are in a proper layout."""
         arg0 = self.args[0]
-- 
2.43.0


From 810c44aef8ff8e2122a46e8bc123a57cb1518505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 39/65] fix: conversions of constants on separable Jacobi bases
 have empty matrices off the constant group

---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e15315e..601ac0a 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -700,8 +700,8 @@ class ConvertConstantJacobi(operators.ConvertConstant, operators.SpectralOperato
             unit_amplitude = 1 / output_basis.constant_mode_value
             return np.array([[unit_amplitude]])
         else:
-            # Constructor should only loop over group 0.
-            raise ValueError("This should never happen.")
+            # Constants only have group 0
+            return np.zeros(shape=(1, 0))
 
 
 class DifferentiateJacobi(operators.Differentiate, operators.SpectralOperator1D):
-- 
2.43.0


From 9cd8fd62a8bd56833ab7c8c26a4893b11c5a4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 40/65] fix: evaluated lifts of vectors and tensors recombine
 the taus like their matrices

---
 dedalus/core/basis.py | 44 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 601ac0a..4b496f6 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -4970,6 +4970,17 @@ class LiftDisk(operators.Lift, operators.PolarMOperator):
     def spinindex_out(self, spinindex_in):
         return (spinindex_in,)
 
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        if operand.tensorsig:
+            # Convert tau to spin first, as in matrices
+            spin_operand = operand.copy()
+            self.output_basis.forward_spin_recombination(operand.tensorsig, self.last_axis, operand.data.copy(), spin_operand.data)
+            self.args[0] = spin_operand
+        super().operate(out)
+        self.args[0] = operand
+
     def subproblem_matrix(self, subproblem):
         operand = self.args[0]
         radial_basis = self.output_basis  ## CHANGED RELATIVE TO POLARMOPERATOR
@@ -5022,6 +5033,17 @@ class LiftAnnulus(operators.Lift, operators.PolarMOperator):
     def spinindex_out(self, spinindex_in):
         return (spinindex_in,)
 
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        if operand.tensorsig:
+            # Convert tau to spin first, as in matrices
+            spin_operand = operand.copy()
+            self.output_basis.forward_spin_recombination(operand.tensorsig, self.last_axis, operand.data.copy(), spin_operand.data)
+            self.args[0] = spin_operand
+        super().operate(out)
+        self.args[0] = operand
+
     def subproblem_matrix(self, subproblem):
         operand = self.args[0]
         radial_basis = self.output_basis  ## CHANGED RELATIVE TO POLARMOPERATOR
@@ -5077,6 +5099,17 @@ class LiftBall(operators.Lift, operators.SphericalEllOperator):
     def regindex_out(self, regindex_in):
         return (regindex_in,)
 
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        if operand.tensorsig:
+            # Convert tau from spin to regularity first, as in matrices
+            reg_operand = operand.copy()
+            self.radial_basis.forward_regularity_recombination(operand.tensorsig, self.last_axis, reg_operand.data, ell_maps=self.output_basis.ell_maps(self.dist))
+            self.args[0] = reg_operand
+        super().operate(out)
+        self.args[0] = operand
+
     def subproblem_matrix(self, subproblem):
         operand = self.args[0]
         radial_basis = self.output_basis.radial_basis  ## CHANGED RELATIVE TO POLARMOPERATOR
@@ -5190,6 +5223,17 @@ class LiftShell(operators.Lift, operators.SphericalEllOperator):
     def regindex_out(self, regindex_in):
         return (regindex_in,)
 
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        if operand.tensorsig:
+            # Convert tau from spin to regularity first, as in matrices
+            reg_operand = operand.copy()
+            self.radial_basis.forward_regularity_recombination(operand.tensorsig, self.last_axis, reg_operand.data, ell_maps=self.output_basis.ell_maps(self.dist))
+            self.args[0] = reg_operand
+        super().operate(out)
+        self.args[0] = operand
+
     def subproblem_matrix(self, subproblem):
         matrix = super().subproblem_matrix(subproblem)
         # Get relevant Qs
-- 
2.43.0


From c99047cdb1a1dfc45845f7a7f09e5b6495fdceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 41/65] fix: spin skew matrices use the azimuthal group size of
 the operand

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index d31c4f8..521cf12 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2181,7 +2181,7 @@ class SpinSkew(Skew):
             factors[self.index] = 1j * factors[self.index]
         else:
             azimuth_index = len(self.tensorsig) + self.azimuth_axis
-            id_m = sparse.identity(shape[self.azimuth_axis]//2, format='csr')
+            id_m = sparse.identity(shape[azimuth_index]//2, format='csr')
             mul_1j = np.array([[0, -1], [1, 0]])
             factors[azimuth_index] = sparse.kron(id_m, mul_1j)
         return reduce(sparse.kron, factors, 1).tocsr()
-- 
2.43.0


From 5921d77cb93995975f7eb9e8789f2f37b670fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 42/65] fix: curl matrices can be built over expressions, and
 internal products are treated as NCCs

---
 dedalus/core/operators.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 521cf12..21534d0 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3758,7 +3758,16 @@ class CartesianCurl(Curl):
         self.domain = arg.domain
         self.tensorsig = arg.tensorsig
         self.dtype = arg.dtype
-        self.expression_matrices = arg.expression_matrices
+
+    def expression_matrices(self, subproblem, vars, **kw):
+        """Build expression matrices for a specific subproblem and variables."""
+        # Intercept calls to compute matrices over expressions
+        if self in vars:
+            size = subproblem.field_size(self)
+            matrix = sparse.identity(size, format='csr')
+            return {self: matrix}
+        # Build argument matrices
+        return self.args[0].expression_matrices(subproblem, vars, **kw)
 
     def matrix_dependence(self, *vars):
         return self.args[0].matrix_dependence(*vars)
@@ -3845,7 +3854,25 @@ class DirectProductCurl(Curl):
         self.domain = arg.domain
         self.tensorsig = arg.tensorsig
         self.dtype = arg.dtype
-        self.expression_matrices = arg.expression_matrices
+
+    def reinitialize(self, **kw):
+        out = super().reinitialize(**kw)
+        # Also reinitialize internal products, which may be treated as NCCs
+        arg = out.args[0].reinitialize(**kw)
+        out.args = [arg]
+        out.original_args = [arg]
+        out.domain = arg.domain
+        return out
+
+    def expression_matrices(self, subproblem, vars, **kw):
+        """Build expression matrices for a specific subproblem and variables."""
+        # Intercept calls to compute matrices over expressions
+        if self in vars:
+            size = subproblem.field_size(self)
+            matrix = sparse.identity(size, format='csr')
+            return {self: matrix}
+        # Build argument matrices
+        return self.args[0].expression_matrices(subproblem, vars, **kw)
 
     def matrix_dependence(self, *vars):
         return self.args[0].matrix_dependence(*vars)
-- 
2.43.0


From bb73d86f95e2d118c98f878acfd9bb8643cd62ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:45 +0000
Subject: [PATCH 43/65] fix: product intertwiners act on each tensor index of
 its own coordinate system

---
 dedalus/core/arithmetic.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index bd23b90..4348599 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -569,16 +569,28 @@ class Product(Future):
         if axis > 0:
             G = self.Gamma(A_tensorsig, B_tensorsig, C_tensorsig, A_group, B_group, C_group, axis-1)
         # Apply Q
-        cs = self.dist.get_coordsystem(axis)
-        cs_axis = self.dist.get_axis(cs)
-        subaxis = axis - cs_axis
-        QA = cs.backward_intertwiner(subaxis, len(A_tensorsig), A_group[cs_axis:]).T
-        QB = cs.backward_intertwiner(subaxis, len(B_tensorsig), B_group[cs_axis:]).T
-        QC = cs.forward_intertwiner(subaxis, len(C_tensorsig), C_group[cs_axis:])
+        QA = self._intertwiner('backward', A_tensorsig, A_group, axis).T
+        QB = self._intertwiner('backward', B_tensorsig, B_group, axis).T
+        QC = self._intertwiner('forward', C_tensorsig, C_group, axis)
         Q = kron(QA, QB, QC)
         G = (Q @ G.ravel()).reshape(G.shape)
         return G
 
+    def _intertwiner(self, direction, tensorsig, group, axis):
+        """Intertwiner over tensor components for specified axis."""
+        coord = self.dist.coords[axis]
+        def index_intertwiner(cs, order):
+            if coord in cs.coords:
+                subaxis = cs.coords.index(coord)
+                return getattr(cs, f"{direction}_intertwiner")(subaxis, order, group[axis-subaxis:])
+            else:
+                return np.identity(cs.dim**order)
+        # Use joint intertwiner for matching indices, since these may not be separable
+        if len(set(tensorsig)) == 1:
+            return index_intertwiner(tensorsig[0], len(tensorsig))
+        else:
+            return kron(*[index_intertwiner(cs, 1) for cs in tensorsig])
+
     def GammaCoord(self, A_tensorsig, B_tensorsig, C_tensorsig):
         raise NotImplementedError("%s has not implemented GammaCoord" %type(self))
 
-- 
2.43.0


From 235e3eb24f2ed45062e4e9bfe236350a3bb8ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 44/65] fix: disk NCC matrices use all coefficient modes and
 pad before truncating

---
 dedalus/core/basis.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 4b496f6..c3e9888 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2542,7 +2542,7 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
         return dedalus_sphere.zernike.polynomials(2, self.n_size(m), self.alpha + self.k, np.abs(m + spintotal), native_z)
 
     @CachedMethod
-    def radius_multiplication_matrix(self, m, spintotal, order, d):
+    def radius_multiplication_matrix(self, m, spintotal, order, d, size=None):
         if order == 0:
             operator = dedalus_sphere.zernike.operator(2, 'Id', radius=self.radius)
         else:
@@ -2555,7 +2555,9 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
             R = dedalus_sphere.zernike.operator(2, 'R', radius=1)
             R2 = R(-1) @ R(+1)
             operator = R2**(d//2) @ operator
-        return operator(self.n_size(m), self.alpha + self.k, abs(m + spintotal)).square.astype(np.float64)
+        if size is None:
+            size = self.n_size(m)
+        return operator(size, self.alpha + self.k, abs(m + spintotal)).square.astype(np.float64)
 
     @classmethod
     def _last_axis_component_ncc_matrix(cls, subproblem, ncc_basis, arg_basis, out_basis, coeffs, ncc_comp, arg_comp, out_comp, ncc_tensorsig, arg_tensorsig, out_tensorsig, cutoff=1e-6):
@@ -2572,21 +2574,24 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
         a_ncc = ncc_basis.alpha + ncc_basis.k
         b_ncc = regtotal_ncc
         N = ncc_basis.n_size(m)
+        N0 = ncc_basis.n_size(0)
+        # Pad for dealiasing
+        Nmat = 3*((N0+1)//2)
         d = regtotal_ncc - abs(diff_regtotal)
         if (d >= 0) and (d % 2 == 0):
-            J = arg_basis.operator_matrix('Z', m, spintotal_arg)
-            A, B = clenshaw.jacobi_recursion(N, a_ncc, b_ncc, J)
-            # assuming that we're doing ball for now...
-            f0 = dedalus_sphere.zernike.polynomials(2, 1, a_ncc, b_ncc, 1)[0] * sparse.identity(N)
-            prefactor = arg_basis.radius_multiplication_matrix(m, spintotal_arg, diff_regtotal, d)
+            J = arg_basis.operator_matrix('Z', m, spintotal_arg, size=Nmat)
+            A, B = clenshaw.jacobi_recursion(Nmat, a_ncc, b_ncc, J)
+            f0 = dedalus_sphere.zernike.polynomials(2, 1, a_ncc, b_ncc, 1)[0] * sparse.identity(Nmat)
+            prefactor = arg_basis.radius_multiplication_matrix(m, spintotal_arg, diff_regtotal, d, size=Nmat)
             if ncc_basis.dtype == np.float64:
-                coeffs_filter = coeffs.ravel()[:2*N]
-                matrix_cos = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[:N], A, B, f0, cutoff=cutoff)
-                matrix_msin = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[N:], A, B, f0, cutoff=cutoff)
+                coeffs_cos_filter = coeffs[0].ravel()[:N0]
+                coeffs_msin_filter = coeffs[1].ravel()[:N0]
+                matrix_cos = (prefactor @ clenshaw.matrix_clenshaw(coeffs_cos_filter, A, B, f0, cutoff=cutoff))[:N, :N]
+                matrix_msin = (prefactor @ clenshaw.matrix_clenshaw(coeffs_msin_filter, A, B, f0, cutoff=cutoff))[:N, :N]
                 matrix = sparse.bmat([[matrix_cos, -matrix_msin], [matrix_msin, matrix_cos]], format='csr')
             elif ncc_basis.dtype == np.complex128:
-                coeffs_filter = coeffs.ravel()[:N]
-                matrix = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter, A, B, f0, cutoff=cutoff)
+                coeffs_filter = coeffs.ravel()[:N0]
+                matrix = (prefactor @ clenshaw.matrix_clenshaw(coeffs_filter, A, B, f0, cutoff=cutoff))[:N, :N]
         else:
             if ncc_basis.dtype == np.float64:
                 matrix = sparse.csr_matrix((2*N, 2*N))
-- 
2.43.0


From d9fba6d8f18480f38d38cc18b094e8665e81f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 45/65] fix: dot products refuse missing indices and indices of
 different dimensions

---
 dedalus/core/arithmetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 4348599..7f33ffe 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -636,11 +636,13 @@ class DotProduct(Product, FutureField):
         arg1_rank = len(arg1.tensorsig)
         indices = list(indices)
         for i,(index,rank) in enumerate(zip(indices,(arg0_rank,arg1_rank))):
-            if index > rank or index < -rank:
+            if index >= rank or index < -rank:
                 raise ValueError("index %i out of range for field with rank %i" %(index,rank))
             if index < 0:
                 index += rank
             indices[i] = index
+        if arg0.tensorsig[indices[0]].dim != arg1.tensorsig[indices[1]].dim:
+            raise ValueError("Cannot contract indices with different dimensions.")
         return tuple(indices)
 
     def __str__(self):
-- 
2.43.0


From 4b3f8676d26f38016bdcbc0fe6ec75cf160e28f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 46/65] fix: NCCs varying along other axes of a product domain
 are refused

---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index c3e9888..60eb758 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -276,9 +276,9 @@ class Basis:
     def build_ncc_matrix(self, product, subproblem, ncc_cutoff, max_ncc_terms):
         # Default to last axis only
         dist = product.dist
-        if any(product.ncc.domain.nonconstant[dist.first_axis(self):dist.last_axis(self)]):
-            raise NotImplementedError("Only last-axis NCCs implemented for this basis.")
         axis = dist.last_axis(self)
+        if any(np.delete(product.ncc.domain.nonconstant, axis)):
+            raise NotImplementedError("Only last-axis NCCs implemented for this basis.")
         ncc_basis = product.ncc.domain.get_basis(axis)
         arg_basis = product.operand.domain.get_basis(axis)
         out_basis = product.domain.get_basis(axis)
-- 
2.43.0


From 6e149b16f06c3afcb7e87662c67da991e7300ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 47/65] fix: sphere NCC matrices reverse ell where the storage
 does

---
 dedalus/core/basis.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 60eb758..6443487 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -3276,6 +3276,8 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
         J = arg_basis.operator_matrix('Cos', m, spintotal_arg, size=Nmat)
         A, B = clenshaw.jacobi_recursion(Nmat, a_ncc, b_ncc, J)
         f0 = dedalus_sphere.jacobi.polynomials(1, a_ncc, b_ncc, 1)[0] * sparse.identity(Nmat)
+        # Some m's have ell's going in opposite direction
+        ell_reversed = out_basis.ell_reversed(subproblem.dist)[m]
         # Sine and sign prefactors
         prefactor = ncc_basis.sine_multiplication_matrix(m, spintotal_arg, spintotal_ncc, size=Nmat)
         if ncc_basis.dtype == np.float64:
@@ -3288,9 +3290,10 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
             matrix_cos[lmin_out:,lmin_arg:] = (prefactor @ clenshaw.matrix_clenshaw(coeffs_cos_filter, A, B, f0, cutoff=cutoff))[:N-lmin_out,:N-lmin_arg]
             matrix_msin = sparse.lil_matrix((N, N))
             matrix_msin[lmin_out:,lmin_arg:] = (prefactor @ clenshaw.matrix_clenshaw(coeffs_msin_filter, A, B, f0, cutoff=cutoff))[:N-lmin_out,:N-lmin_arg]
+            if ell_reversed:
+                matrix_cos = matrix_cos[::-1, ::-1]
+                matrix_msin = matrix_msin[::-1, ::-1]
             matrix = sparse.bmat([[matrix_cos, -matrix_msin], [matrix_msin, matrix_cos]], format='csr')
-            if m >= arg_basis.mmax//4:
-                matrix = matrix[::-1, ::-1] #for second half of m's, ell's go in opposite direction
         elif ncc_basis.dtype == np.complex128:
             coeffs_filter = coeffs.ravel()[abs(spintotal_ncc):N0]
             # ell_min of data is based off |m|, but ell_min of matrix takes into account |s| and |m|
@@ -3298,8 +3301,8 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
             lmin_arg = max(abs(spintotal_arg) - abs(m), 0 )
             matrix = sparse.lil_matrix((N, N), dtype=np.complex128)
             matrix[lmin_out:,lmin_arg:] = (prefactor @ clenshaw.matrix_clenshaw(coeffs_filter, A, B, f0, cutoff=cutoff))[:N-lmin_out,:N-lmin_arg]
-            if m < 0:
-                matrix = matrix[::-1, ::-1] #for negative m, ell's go in opposite direction
+            if ell_reversed:
+                matrix = matrix[::-1, ::-1]
         return matrix.tocsr()
 
 
-- 
2.43.0


From 61f6da2bdedc8634aaf1491c713ba67292f544b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 48/65] fix: evaluated lifts in disks and balls keep taus of
 azimuthal or spherical degree above one

---
 dedalus/core/operators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 21534d0..7b64a33 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2977,6 +2977,7 @@ class PolarMOperator(SpectralOperator):
         out.preset_layout(operand.layout)
         out.data[:] = 0
         # Apply operator
+        constant_in = operand.domain.constant[axis]
         S_in = basis.spin_weights(operand.tensorsig)
         slices = [slice(None) for i in range(self.dist.dim)]
         for spinindex_in, spintotal_in in np.ndenumerate(S_in):
@@ -2985,8 +2986,9 @@ class PolarMOperator(SpectralOperator):
                 comp_out = out.data[spinindex_out]
                 for m, mg_slice, mc_slice, n_slice in basis.m_maps(self.dist):
                     slices[axis-1] = mc_slice
-                    slices[axis] = n_slice
+                    slices[axis] = slice(None) if constant_in else n_slice
                     vec_in  = comp_in[tuple(slices)]
+                    slices[axis] = n_slice
                     vec_out = comp_out[tuple(slices)]
                     if vec_in.size and vec_out.size:
                         A = self.radial_matrix(spinindex_in, spinindex_out, m)
@@ -3187,6 +3189,7 @@ class SphericalEllOperator(SpectralOperator):
         out.preset_layout(operand.layout)
         out.data[:] = 0
         # Apply operator
+        constant_in = operand.domain.constant[axis]
         R_in = radial_basis.regularity_classes(operand.tensorsig)
         slices = [slice(None) for i in range(self.dist.dim)]
         for regindex_in, regtotal_in in np.ndenumerate(R_in):
@@ -3200,8 +3203,9 @@ class SphericalEllOperator(SpectralOperator):
                     if allowed_in and allowed_out:
                         slices[axis-2] = m_ind
                         slices[axis-1] = ell_ind
-                        slices[axis] = radial_basis.n_slice(ell)
+                        slices[axis] = slice(None) if constant_in else radial_basis.n_slice(ell)
                         vec_in  = comp_in[tuple(slices)]
+                        slices[axis] = radial_basis.n_slice(ell)
                         vec_out = comp_out[tuple(slices)]
                         if vec_in.size and vec_out.size:
                             A = self.radial_matrix(regindex_in, regindex_out, ell)
-- 
2.43.0


From f094af92756f250171508df62e4004e340900719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:19 +0000
Subject: [PATCH 49/65] fix: bordered (Woodbury) matrix solvers can be used

---
 dedalus/core/solvers.py         |  8 ++++----
 dedalus/core/timesteppers.py    |  4 ++--
 dedalus/libraries/matsolvers.py | 14 +++++++-------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 3ca7bcb..98763e3 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -112,7 +112,7 @@ class SolverBase:
         # Process option overrides from matsolver
         for key, value in matsolver.config.items():
             if getattr(self, key, None) is not value:
-                logger.info("matsolver overriding solver option '%i' with '%s'" %(key, value))
+                logger.info("matsolver overriding solver option '%s' with '%s'" %(key, value))
                 setattr(self, key, value)
         # Setup subsystems and subproblems without building matrices
         self.subsystems = subsystems.build_subsystems(self)
@@ -265,7 +265,7 @@ class EigenvalueSolver(SolverBase):
         if v0 is not None:
             v0 = sp.pre_right_pinv @ v0
         # Solve for the right (and optionally left) eigenvectors
-        eig_output = scipy_sparse_eigs(A=A, B=B, left=left, N=N, target=target, matsolver=self.matsolver, v0=v0, **kw)
+        eig_output = scipy_sparse_eigs(A=A, B=B, left=left, N=N, target=target, matsolver=lambda C: self.matsolver(C, sp), v0=v0, **kw)
         if left:
             # Note: this definition of "left eigenvectors" is consistent with the documentation for scipy.linalg.eig
             self.eigenvalues, pre_right_evecs, self.left_eigenvalues, pre_left_evecs = eig_output
@@ -390,7 +390,7 @@ class LinearBoundaryValueSolver(SolverBase):
         if sp_to_build:
             self.build_matrices(sp_to_build, ['L'])
             for sp in sp_to_build:
-                self.subproblem_matsolvers[sp] = self.matsolver(sp.L_min, self)
+                self.subproblem_matsolvers[sp] = self.matsolver(sp.L_min, sp)
         # Compute RHS
         self.evaluator.evaluate_scheduled(iteration=self.iteration)
         # Ensure coeff space before subsystem gathers/scatters
@@ -484,7 +484,7 @@ class NonlinearBoundaryValueSolver(SolverBase):
             # Gather RHS
             spF = sp.gather_outputs(self.F)
             # Solve
-            sp_matsolver = self.matsolver(sp.dF_min, self)
+            sp_matsolver = self.matsolver(sp.dF_min, sp)
             spX = sp_matsolver.solve(spF)  # CREATES TEMPORARY
             # Scatter solution to perturbations
             sp.scatter_inputs(spX, self.perturbations)
diff --git a/dedalus/core/timesteppers.py b/dedalus/core/timesteppers.py
index 8ce5b7b..ba0e6c8 100644
--- a/dedalus/core/timesteppers.py
+++ b/dedalus/core/timesteppers.py
@@ -180,7 +180,7 @@ class MultistepIMEX:
                     axpy(a=b0, x=sp.L_exp.data, y=sp.LHS.data)
                 else:
                     sp.LHS = (a0*sp.M_min + b0*sp.L_min)  # CREATES TEMPORARY
-                sp.LHS_solver = solver.matsolver(sp.LHS, solver)
+                sp.LHS_solver = solver.matsolver(sp.LHS, sp)
             # Slice out valid subdata, skipping invalid components
             spRHS = RHS.get_subdata(sp)
             spX = sp.LHS_solver.solve(spRHS)  # CREATES TEMPORARY
@@ -640,7 +640,7 @@ class RungeKuttaIMEX:
                         axpy(a=k_Hii, x=sp.L_exp.data, y=sp.LHS.data)
                     else:
                         sp.LHS = (sp.M_min + k_Hii*sp.L_min)  # CREATES TEMPORARY
-                    sp.LHS_solvers[i] = solver.matsolver(sp.LHS, solver)
+                    sp.LHS_solvers[i] = solver.matsolver(sp.LHS, sp)
                 # Slice out valid subdata, skipping invalid components
                 spRHS = RHS.get_subdata(sp)
                 spX = sp.LHS_solvers[i].solve(spRHS)  # CREATES TEMPORARY
diff --git a/dedalus/libraries/matsolvers.py b/dedalus/libraries/matsolvers.py
index f301d4f..b1488b5 100644
--- a/dedalus/libraries/matsolvers.py
+++ b/dedalus/libraries/matsolvers.py
@@ -4,7 +4,6 @@ import numpy as np
 import scipy.linalg as sla
 import scipy.sparse as sp
 import scipy.sparse.linalg as spla
-from functools import partial
 
 
 matsolvers = {}
@@ -286,10 +285,10 @@ class Woodbury(SparseSolver):
     """Solve top & right bordered matrix using Woodbury formula."""
 
     config = {'bc_top': True}
+    matsolver = None
 
-    def __init__(self, matrix, subproblem, matsolver):
+    def __init__(self, matrix, subproblem):
         self.matrix = matrix
-        self.matsolver = matsolver
         self.update_rank = R = subproblem.update_rank
         # Form Woodbury factors
         self.U = U = np.zeros((matrix.shape[0], 2*R), dtype=matrix.dtype)
@@ -298,11 +297,12 @@ class Woodbury(SparseSolver):
         U[:R, :R] = np.identity(R)
         V[:R, R:] = matrix[:R, R:].toarray()
         # Remove right border, leaving upper right and lower right subblocks
-        U[R:-R, R:] = matrix[R:-R, -R:].toarray()
-        V[-R:, -R:] = np.identity(R)
+        N = matrix.shape[0]
+        U[R:N-R, R:] = matrix[R:N-R, N-R:].toarray()
+        V[R:, N-R:] = np.identity(R)
         self.A = matrix - sp.csr_matrix(U) @ sp.csr_matrix(V)
         # Solve A using specified matsolver
-        self.A_matsolver = matsolver(self.A)
+        self.A_matsolver = self.matsolver(self.A)
         self.Ainv = self.A_matsolver.solve
         self.Ainv_U = self.Ainv(U)
         # Solve S using scipy dense inverse
@@ -317,6 +317,6 @@ class Woodbury(SparseSolver):
 
 woodbury_matsolvers = {}
 for name, matsolver in matsolvers.items():
-    woodbury_matsolvers['woodbury' + name] = partial(Woodbury, matsolver=matsolver)
+    woodbury_matsolvers['woodbury' + name] = type('Woodbury' + matsolver.__name__, (Woodbury,), {'matsolver': matsolver})
 matsolvers.update(woodbury_matsolvers)
 
-- 
2.43.0


From bbfe944f1bc6401a98ba6a90c0ec193405dcc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 50/65] fix: separable problems in balls, shells, and on
 spheres keep one subproblem per spherical degree

---
 dedalus/core/basis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 6443487..be9d5ce 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2803,6 +2803,8 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
         matrix_dependence = matrix_coupling.copy()
         if matrix_coupling[1]:
             matrix_dependence[0] = True
+        # Valid components depend on ell
+        matrix_dependence[1] = True
         return matrix_dependence
 
     def global_shape(self, grid_space, scales):
@@ -4218,6 +4220,9 @@ class Spherical3DBasis(MultidimensionalBasis):
         matrix_dependence = matrix_coupling.copy()
         if matrix_coupling[1]:
             matrix_dependence[0] = True
+        # Valid components and radial sizes depend on ell
+        if matrix_coupling[2]:
+            matrix_dependence[1] = True
         return matrix_dependence
 
     @CachedAttribute
-- 
2.43.0


From 0856c4e00b585c8a5323b669e6181caee1e01fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:34 +0000
Subject: [PATCH 51/65] fix: separable polar problems keep the sine modes of m
 > 0

---
 dedalus/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/coords.py b/dedalus/core/coords.py
index 39ffa2c..5967da9 100644
--- a/dedalus/core/coords.py
+++ b/dedalus/core/coords.py
@@ -261,7 +261,7 @@ class PolarCoordinates(SeparableIntertwiners, CurvilinearCoordinateSystem):
 
     spin_ordering = (-1, +1)
     dim = 2
-    default_nonconst_groups = (0, 0)
+    default_nonconst_groups = (1, 0) # m=0 has different validity
 
     def __init__(self, azimuth, radius):
         self.names = (azimuth, radius)
-- 
2.43.0


From ac75b9b9c87d1d20dcebfc8411db164e3e9a354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 52/65] fix: build_EVP linearizes about the problem variables
 by default

---
 dedalus/core/problems.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 5da537f..254a909 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -386,6 +386,8 @@ class InitialValueProblem(ProblemBase):
         """
         # Create eigenvalue problem for perturbations
         variables = self.variables
+        if backgrounds is None:
+            backgrounds = variables
         if eigenvalue is None:
             eigenvalue = self.dist.Field(name='λ')
         if perturbations is None:
-- 
2.43.0


From be26016b5ac9db060f13e63d3f66278eb0c4057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 53/65] fix: initial value problems refuse time derivatives of
 coefficients

---
 dedalus/core/problems.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 254a909..810f3ec 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -314,10 +314,18 @@ class InitialValueProblem(ProblemBase):
             self_name='IVP LHS', vars_name='time', error=UnsupportedEquationError)
         LHS.require_first_order(operators.TimeDerivative,
             self_name='IVP LHS', ops_name='time derivatives', error=UnsupportedEquationError)
+        self._require_variable_time_derivatives(LHS)
         RHS.require_independent(operators.TimeDerivative,
             self_name='IVP RHS', vars_name='time derivatives', error=UnsupportedEquationError)
         self._check_domain_containment(RHS, LHS, 'RHS', 'LHS')
 
+    def _require_variable_time_derivatives(self, expr):
+        """Require time derivatives to apply to the problem variables, rather than to coefficients."""
+        if isinstance(expr, operators.TimeDerivative) and not expr.has(*self.variables):
+            raise UnsupportedEquationError("IVP LHS time derivatives must act on the problem variables.")
+        for arg in getattr(expr, 'args', ()):
+            self._require_variable_time_derivatives(arg)
+
     def _build_matrix_expressions(self, eqn):
         """Build LHS matrix expressions."""
         vars = self.variables
-- 
2.43.0


From 65f43bd9ffe7ea85023d308727194045eea552da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:29 +0000
Subject: [PATCH 54/65] fix: equations may contain terms that vanish when
 reinitialized

---
 dedalus/core/problems.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 810f3ec..3ee9d65 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -341,9 +341,11 @@ class InitialValueProblem(ProblemBase):
         # Reinitialize and prep NCCs
         if M:
             M = M.reinitialize(ncc=True, ncc_vars=vars)
+        if M:
             M.prep_nccs(vars=vars)
         if L:
             L = L.reinitialize(ncc=True, ncc_vars=vars)
+        if L:
             L.prep_nccs(vars=vars)
         # Convert to same domain
         domain = (M + L - F).domain
@@ -489,9 +491,11 @@ class EigenvalueProblem(ProblemBase):
         # Reinitialize and prep NCCs
         if M:
             M = M.reinitialize(ncc=True, ncc_vars=vars)
+        if M:
             M.prep_nccs(vars=vars)
         if L:
             L = L.reinitialize(ncc=True, ncc_vars=vars)
+        if L:
             L.prep_nccs(vars=vars)
         # Convert to same domain
         domain = (M + L).domain
-- 
2.43.0


From 1c95f305642b80c79f72a4434c9f9d1962e3be0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:49 +0000
Subject: [PATCH 55/65] fix: grouped forward transposes without communication
 end in the forward layout

---
 dedalus/core/distributor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index 6683138..2468f22 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -941,7 +941,7 @@ class Transpose:
             else:
                 # No communication: just update field layouts
                 for field in fields:
-                    field.preset_layout(self.layout1)
+                    field.preset_layout(self.layout0)
 
     # def increment_group(self, *fields):
     #     """Transpose group from layout0 to layout1."""
-- 
2.43.0


From 7bae7d3090208d34208120b521ce8d32f3bde0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:09 +0000
Subject: [PATCH 56/65] fix: grouped transposes move fields of different data
 types separately

---
 dedalus/core/distributor.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index 2468f22..00aa42c 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -768,22 +768,19 @@ class Transpose:
 
     def _group_plans(self, fields):
         """Build group transpose plan."""
-        # Segment fields by sub_shapes and chunk_shapes
+        # Segment fields by sub_shapes, chunk_shapes, and dtypes
         field_groups = OrderedDict()
         for field in fields:
             sub_shape = self._sub_shape(field.domain, field.scales)
             chunk_shape = field.domain.chunk_shape(self.layout0)
-            if (sub_shape, chunk_shape) in field_groups:
-                field_groups[(sub_shape, chunk_shape)].append(field)
-            else:
-                field_groups[(sub_shape, chunk_shape)] = [field]
+            field_groups.setdefault((sub_shape, chunk_shape, field.dtype), []).append(field)
         # Plan for each field group
         plans = []
-        for (sub_shape, chunk_shape), fields in field_groups.items():
+        for (sub_shape, chunk_shape, dtype), fields in field_groups.items():
             ncomp = 0
             for field in fields:
                 ncomp += prod([cs.dim for cs in field.tensorsig])
-            plan = self._plan(ncomp, sub_shape, chunk_shape, field.dtype) # Assumes last field's dtype is good for everybody
+            plan = self._plan(ncomp, sub_shape, chunk_shape, dtype)
             plans.append((fields, plan))
         return plans
 
-- 
2.43.0


From 8502d460555596902b23ada30b4c6abd912e7376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 57/65] fix: the MPI transpose library takes the chunk shape

---
 dedalus/core/transposes.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index 145b7ee..38e9f17 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -267,6 +267,7 @@ cdef class AlltoallvTranspose:
     cdef readonly int datasize, axis
     cdef readonly int N0, N1, N2, N3
     cdef readonly int[::1] global_shape
+    cdef readonly int[::1] chunk_shape
     cdef readonly int[::1] col_starts
     cdef readonly int[::1] row_starts
     cdef readonly int[::1] col_ends
@@ -284,10 +285,11 @@ cdef class AlltoallvTranspose:
     cdef readonly int local_col_count
     cdef readonly int local_row_count
 
-    def __init__(self, global_shape, dtype, axis, pycomm):
+    def __init__(self, global_shape, chunk_shape, dtype, axis, pycomm):
         logger.debug("Building MPI transpose plan for (dtype, gshape, axis) = (%s, %s, %s)" %(dtype, global_shape, axis))
         # Attributes
-        self.global_shape = global_shape = global_shape.astype(np.int32)
+        self.global_shape = global_shape = np.array(global_shape, dtype=np.int32)
+        self.chunk_shape = chunk_shape = np.array(chunk_shape, dtype=np.int32)
         self.datasize = {np.float64: 1, np.complex128: 2}[np.dtype(dtype).type]
         self.axis = axis
         self.pycomm = pycomm
@@ -296,9 +298,15 @@ cdef class AlltoallvTranspose:
         self.N1 = N1 = global_shape[axis]
         self.N2 = N2 = global_shape[axis+1]
         self.N3 = N3 = prod(global_shape[axis+2:]) * self.datasize
+        # Chunks
+        C1 = chunk_shape[axis]
+        C2 = chunk_shape[axis+1]
+        # Global number of chunks
+        CG1 = -(-global_shape[axis] // C1)  # ceil
+        CG2 = -(-global_shape[axis+1] // C2)  # ceil
         # Blocks
-        B1 = math.ceil(global_shape[axis] / pycomm.size)
-        B2 = math.ceil(global_shape[axis+1] / pycomm.size)
+        B1 = C1 * -(-CG1 // pycomm.size)  # ceil
+        B2 = C2 * -(-CG2 // pycomm.size)  # ceil
         # Starting indices
         ranks = np.arange(pycomm.size, dtype=np.int32)
         self.col_starts = col_starts = np.minimum(B2*ranks, global_shape[axis+1])
-- 
2.43.0


From 1fd33eaedc22b9871bd56d8f4abd937ebe7c6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 58/65] fix: boundary value solvers build matrices together
 with processes that have no subproblems

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 98763e3..409c543 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -387,7 +387,8 @@ class LinearBoundaryValueSolver(SolverBase):
             sp_to_build = subproblems
         else:
             sp_to_build = [sp for sp in subproblems if sp not in self.subproblem_matsolvers]
-        if sp_to_build:
+        # Building matrices is collective, so agree in case some processes have no subproblems
+        if self.dist.comm.allreduce(bool(sp_to_build), op=MPI.LOR):
             self.build_matrices(sp_to_build, ['L'])
             for sp in sp_to_build:
                 self.subproblem_matsolvers[sp] = self.matsolver(sp.L_min, sp)
-- 
2.43.0


From c47058bbf76545a0e8826550b209dbe20d63fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 59/65] fix: output files are complete on all processes before
 any continues

---
 dedalus/core/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 01c0246..7809324 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -605,8 +605,9 @@ class H5FileHandlerBase(Handler):
             out.change_scales(task['scales'])
             out.change_layout(task['layout'])
             self.write_task(file, task)
-        # Finalize
-        self.close_file(file)
+        # Finalize, with output complete on all processes before any continues
+        with Sync(self.comm, enter=False):
+            self.close_file(file)
 
     def write_file_metadata(self, file, **kw):
         """Write file metadata and time scales."""
-- 
2.43.0


From 16fd036b22be0cafa3db153fabef3a44ae0bc093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 60/65] fix: CFL frequencies that vary along some axes only can
 be combined in parallel

---
 dedalus/extras/flow_tools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dedalus/extras/flow_tools.py b/dedalus/extras/flow_tools.py
index bc6798b..c72560e 100644
--- a/dedalus/extras/flow_tools.py
+++ b/dedalus/extras/flow_tools.py
@@ -198,7 +198,14 @@ class CFL:
             if (iteration-1) <= self.solver.initial_iteration:
                 return self.stored_dt
             # Sum across frequencies for each local grid point
-            local_freqs = sum(np.abs(field['g']) for field in self.frequencies.fields.values())
+            fields = list(self.frequencies.fields.values())
+            nonconst_dims = np.zeros(self.solver.dist.dim, dtype=bool)
+            for field in fields:
+                field.require_grid_space()
+                nonconst_dims |= ~np.array(field.domain.constant)
+            local_freqs = np.zeros((1,) * self.solver.dist.dim)
+            for field in fields:
+                local_freqs = local_freqs + np.abs(field.broadcast_ghosts(nonconst_dims))
             # Compute new timestep from max frequency across all grid points
             max_global_freq = self.reducer.global_max(local_freqs)
             if max_global_freq == 0.:
-- 
2.43.0


From af93e71b14eb7828280128357d41cda55509f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 61/65] fix: CFL keeps frequencies of equal names apart

---
 dedalus/extras/flow_tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedalus/extras/flow_tools.py b/dedalus/extras/flow_tools.py
index c72560e..7bc4ea8 100644
--- a/dedalus/extras/flow_tools.py
+++ b/dedalus/extras/flow_tools.py
@@ -222,7 +222,12 @@ class CFL:
 
     def add_frequency(self, freq):
         """Add an on-grid frequency."""
-        self.frequencies.add_task(freq, layout='g', scales=freq.domain.dealias)
+        # Number frequencies with equal names so that none replaces another
+        name = str(freq)
+        names = [task['name'] for task in self.frequencies.tasks]
+        if name in names:
+            name = f"{name} ({len(names)})"
+        self.frequencies.add_task(freq, layout='g', name=name, scales=freq.domain.dealias)
 
     def add_velocity(self, velocity):
         """
-- 
2.43.0


From c3e1e08a7dd17b48f1f4e301eeff285c822f6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 62/65] fix: CFL of Chebyshev axes behind other coordinate
 systems in direct products

---
 dedalus/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index be9d5ce..c81133b 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6173,7 +6173,7 @@ class CartesianAdvectiveCFL(operators.AdvectiveCFL):
                 N = basis.grid_shape((dealias,))[0]
             if isinstance(basis, Jacobi) and basis.a == -1/2 and basis.b == -1/2:
                 #Special case for ChebyshevT (a=b=-1/2)
-                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[i]
+                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[self.dist.get_basis_axis(basis)]
                 i = np.arange(N)[local_elements].reshape(axis_spacing.shape)
                 theta = np.pi * (i + 1/2) / N
                 axis_spacing[:] = dealias * basis.COV.stretch * np.sin(theta) * np.pi / N
-- 
2.43.0


From fddf6ad518307327ad5364d8bd6f2681676173d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 63/65] fix: grid spacings of axes with one or two points

---
 dedalus/core/basis.py  | 15 ++++++---------
 dedalus/tools/array.py |  8 ++++++++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index c81133b..3cdffab 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -12,7 +12,7 @@ from ..tools.array import kron, axslice, apply_matrix, permute_axis
 from ..tools.cache import CachedAttribute, CachedMethod, CachedClass
 from ..tools import jacobi
 from ..tools import clenshaw
-from ..tools.array import reshape_vector, axindex, axslice, interleave_matrices
+from ..tools.array import reshape_vector, axindex, axslice, interleave_matrices, grid_gradient
 from ..tools.dispatch import MultiClass, SkipDispatchException
 from ..tools.general import unify, DeferredTuple
 from .coords import Coordinate, CartesianCoordinates, S2Coordinates, SphericalCoordinates, PolarCoordinates, AzimuthalCoordinate, DirectProduct
@@ -386,7 +386,7 @@ class IntervalBasis(Basis):
     def global_grid_spacing(self, dist, scale):
         """Global grid spacings."""
         grid = self.global_grid(dist, scale=scale)
-        return np.gradient(grid, axis=dist.first_axis(self), edge_order=2)
+        return grid_gradient(grid, axis=dist.first_axis(self))
 
     def local_grid_spacing(self, dist, scale):
         """Local grids spacings."""
@@ -1958,7 +1958,7 @@ class PolarBasis(SpinBasis):
     def global_grid_spacing(self, dist, subaxis, scales):
         """Global grids spacings."""
         axis = dist.first_axis(self) + subaxis
-        return np.gradient(self.global_grids(dist, scales=scales)[subaxis], axis=axis, edge_order=2)
+        return grid_gradient(self.global_grids(dist, scales=scales)[subaxis], axis=axis)
 
     @CachedMethod
     def local_grid_spacing(self, dist, subaxis, scales):
@@ -3051,7 +3051,7 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
     def global_grid_spacing(self, dist, subaxis, scales):
         """Global grids spacings."""
         axis = dist.first_axis(self) + subaxis
-        return np.gradient(self.global_grids(dist, scales=scales)[subaxis], axis=axis, edge_order=2)
+        return grid_gradient(self.global_grids(dist, scales=scales)[subaxis], axis=axis)
 
     @CachedMethod
     def local_grid_spacing(self, dist, subaxis, scales):
@@ -4253,11 +4253,8 @@ class Spherical3DBasis(MultidimensionalBasis):
     def global_grid_spacing(self, dist, subaxis, scales):
         """Global grids spacings."""
         grid = self.global_grids(dist, scales=scales)[subaxis]
-        if grid.size == 1:
-            return np.array([np.inf,], dtype=grid.dtype)
-        else:
-            axis = dist.first_axis(self) + subaxis
-            return np.gradient(grid, axis=axis, edge_order=2)
+        axis = dist.first_axis(self) + subaxis
+        return grid_gradient(grid, axis=axis)
 
     @CachedMethod
     def local_grid_spacing(self, dist, subaxis, scales):
diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index f11ebe6..f700875 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -14,6 +14,14 @@ SPLIT_CSR_MATVECS = config['linear algebra'].getboolean('SPLIT_CSR_MATVECS')
 OLD_CSR_MATVECS = config['linear algebra'].getboolean('OLD_CSR_MATVECS')
 
 
+def grid_gradient(grid, axis):
+    """Grid spacings along an axis by second order differences, or as far as the size allows."""
+    size = grid.shape[axis]
+    if size == 1:
+        return np.full_like(grid, np.inf)
+    return np.gradient(grid, axis=axis, edge_order=min(2, size-1))
+
+
 def interleaved_view(data):
     """
     View n-dim complex array as (n+1)-dim real array, where the last axis
-- 
2.43.0


From ba6fc9d302f9fd2ad90a48d594da987f74df64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:54 +0000
Subject: [PATCH 64/65] fix: averages and integrals of complex flow properties
 keep their imaginary part

---
 dedalus/extras/flow_tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedalus/extras/flow_tools.py b/dedalus/extras/flow_tools.py
index 7bc4ea8..346ed81 100644
--- a/dedalus/extras/flow_tools.py
+++ b/dedalus/extras/flow_tools.py
@@ -54,6 +54,8 @@ class GlobalArrayReducer:
 
     def global_mean(self, data):
         """Compute global mean of all array data."""
+        if np.iscomplexobj(data) and not np.iscomplexobj(self._scalar_buffer):
+            return self.global_mean(data.real) + 1j*self.global_mean(data.imag)
         local_sum = np.sum(data)
         local_size = data.size
         global_sum = self.reduce_scalar(local_sum, MPI.SUM)
@@ -126,7 +128,10 @@ class GlobalFlowProperty:
             integral_op = operators.Integrate(field)
             integral_field = integral_op.evaluate()
         # Communicate integral value to all processes
-        integral_value = self.reducer.global_max(integral_field['g'])
+        integral_data = integral_field['g']
+        integral_value = self.reducer.global_max(integral_data.real)
+        if np.iscomplexobj(integral_data):
+            integral_value = integral_value + 1j*self.reducer.global_max(integral_data.imag)
         return integral_value
 
     def volume_average(self, name):
-- 
2.43.0


From 69ee486949134d86e1144333f03c651190e74c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:10 +0000
Subject: [PATCH 65/65] fix: CFL operators leave the cached grid spacings of
 curvilinear bases unchanged

---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 3cdffab..9d6cb2e 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6214,7 +6214,7 @@ class PolarAdvectiveCFL(operators.AdvectiveCFL):
         #Assumes velocity is a 2-length vector over polar coordinates
         basis   = self.input_basis
         dealias = basis.dealias
-        azimuth_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias)
+        azimuth_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias).copy()
         if basis.mmax == 0:
             azimuth_spacing[:] = np.inf
         elif isinstance(basis, DiskBasis):
@@ -6242,7 +6242,7 @@ class S2AdvectiveCFL(operators.AdvectiveCFL):
         dealias = basis.dealias
         if r is None:
             r = basis.radius
-        s2_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias)
+        s2_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias).copy()
         if basis.Lmax == 0:
             s2_spacing[:] = np.inf
         else:
-- 
2.43.0

