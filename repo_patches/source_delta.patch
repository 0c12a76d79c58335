From 8384bf0db556bb66aec8e1ae7984aaa3bdc7590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 01/11] fix: assigning to one element must not overwrite the
 others

solve_index returned the index () for every position of a zero-dimensional
array, so s[i, j] = v on COO, FlatCOO, CSR and DM arrays assigned v to all
specified elements.
---
 gcs/slice_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 208938d..cf91ab2 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -336,6 +336,9 @@ def solve_index(pos, shape, strides, data=None):
 
       A t + I s = b       2*N equalities with N+1 slack variables s
     """
+    if len(shape) == 0:
+        # a zero-dimensional array has only one element, at position 0
+        return () if pos == 0 else None
     if data is None:
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
-- 
2.43.0


From 4ba72dbbe55df570719d430d7d5348a1820e729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 02/11] fix: fixing an axis of a sliced DM array must use the
 slice's offset

DM.__getitem__ dropped the reduction offset of a dimension that is
eliminated by integer indices, so s[1:][0] returned the first row of s.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 0198cd7..5675438 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1113,7 +1113,7 @@ class DM(Storage):
                 rstrides += (kstrides,)
                 dindex += (None,)
             else:
-                dindex += (koffset,)
+                dindex += (self.roffset[k] + koffset,)
             t = tuple(axis_map[i] for i in self.rdimensions[k] if i not in axis_to_be_removed)
             if t:
                 rdimensions += (t,)
-- 
2.43.0


From 6030beec562f9a60680a5be36d6cab9f19281a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 03/11] fix: an empty Buffer can be sliced

Slicing an empty Buffer raised IndexError, so an array without specified
elements could not be converted to CSR, nor could an empty Strided array
be sliced.
---
 gcs/storage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 5675438..a882259 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -560,14 +560,14 @@ class Buffer(Storage):
         if isinstance(index, slice):
             start = self.offset + index.start if index.start is not None else self.offset
             stop = self.offset + index.stop if index.stop is not None else self.offset + self.size
-            if start < 0 or start >= len(self.data):
+            if start < 0 or start > len(self.data):
                 raise IndexError(
                     f'{type(self).__name__} start position must be in'
-                    f' range({len(self.data)}), got {start}')
-            if stop <= 0 or stop > len(self.data):
+                    f' range({len(self.data)+1}), got {start}')
+            if stop < 0 or stop > len(self.data):
                 raise IndexError(
                     f'{type(self).__name__} stop position must be in '
-                    f'range(1, {len(self.data)+1}), got {stop}')
+                    f'range({len(self.data)+1}), got {stop}')
             s = slice(start, stop, index.step)
             s = slice_tools.reduced(s, len(self.data))
             if s.step != 1:
-- 
2.43.0


From 69cb2aaa9ff8e5d6eee5794c89146fa6e8cc0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 04/11] fix: slicing an axis of size 0 must not divide by zero

x[1:1][:] and x[1:1] = [] raised ZeroDivisionError.
---
 gcs/slice_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index cf91ab2..7256d11 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -84,7 +84,7 @@ def apply_slices(slices, shape, strides):
             offset += stride * (s % size)
         elif isinstance(s, slice):
             s = reduced(s, size)
-            offset += stride * (s.start % size)
+            offset += stride * (s.start % size) if size else 0
             new_strides.append(stride * s.step)
             new_shape.append(nitems(s, size, reduce=False))
         elif s is None:  # None represents slice(None, None, None)
@@ -115,7 +115,7 @@ def index_strided(index, shape, strides, offset=0):
         if isinstance(ind, int):
             offset += stride * ind
         elif isinstance(ind, slice):
-            offset += stride * (ind.start % size)
+            offset += stride * (ind.start % size) if size else 0
             new_shape.append(nitems(ind, size, reduce=False))
             new_strides.append(stride * ind.step)
         elif ind is None:
-- 
2.43.0


From 283e8dfd8b8e29f6b1641aa365ecb8b707c4ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 05/11] fix: arrays with an axis of size 0 can be enumerated
 and sliced

init_diophantine failed on the zero strides of such arrays, so slicing an
empty slice of a COO, FlatCOO or CSR array, assigning to it, or
enumerating the elements of an empty FlatCOO array raised an exception.
---
 gcs/slice_tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 7256d11..b78eb61 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -206,6 +206,10 @@ def init_diophantine(a, shape=None):
     if len(a) == 0:
         return 1, (), (), (), (), None
 
+    if shape is not None and 0 in shape:
+        # no elements, hence no solutions; the strides may contain zeros
+        return 1, (), (), (), (), shape
+
     if len(a) == 1:
         d = a[0]
         return d, (1,), (), (), (), shape
@@ -339,6 +343,8 @@ def solve_index(pos, shape, strides, data=None):
     if len(shape) == 0:
         # a zero-dimensional array has only one element, at position 0
         return () if pos == 0 else None
+    if 0 in shape:
+        return  # an array without elements has no indices
     if data is None:
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
-- 
2.43.0


From 6449c4dc25034b5936bb5ebd3773c6ae52b4a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 06/11] fix: is_full of a sliced DM array

DM.is_full compared the number of elements in the storage that is shared
with the sliced array to the number of elements in the slice.
---
 gcs/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index a882259..c0a8918 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1077,6 +1077,11 @@ class DM(Storage):
             # of self.data values in general!
             yield index, rindex
 
+    def is_full(self):
+        # the storage of a sliced array may have more elements than the slice
+        return self.data.is_full() or all(
+            value != self.unspecified for _, value in self.elements())
+
     def get_data_position(self, index):
         return reduce_index(self.rshapes, self.rdimensions, self.rstrides, self.roffset, index)
 
-- 
2.43.0


From 1ef87d9fcf5e15ce54ec107a5efeaa74c6b4f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 07/11] fix: element-wise equality of arrays with unspecified
 elements

equal() compared the elements that the formats enumerate: a sparse array
differed from a Strided or DM array with the same elements, and sparse
arrays of different shapes could be equal.
---
 gcs/storage.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index c0a8918..acb91b2 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -332,15 +332,20 @@ class Storage:
         """Element-wise equality.
         """
         d1, d2 = {}, {}
-        for index, value in self.elements():
-            d1[index] = value
         if not isinstance(other, Storage):
             if isinstance(self, Buffer):
                 other = type(self).fromobject(other, unspecified=self.unspecified)
             else:
                 other = Strided.fromobject(other, unspecified=self.unspecified)
+        if self.shape != other.shape:
+            return False
+        # Not all formats store unspecified elements
+        for index, value in self.elements():
+            if value != self.unspecified:
+                d1[index] = value
         for index, value in other.elements():
-            d2[index] = value
+            if value != other.unspecified:
+                d2[index] = value
         if d1 != d2:
             print()
             print(f'{d1=}')
-- 
2.43.0


From 02c8b792137c2487c23eaeea9ad241a3b3796640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 08/11] fix: reject out of range integer indices

They wrapped around: s[len(s)] returned s[0], an assignment to s[len(s)]
overwrote s[0], and iterating over an array never ended.
---
 gcs/slice_tools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index b78eb61..883232c 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -127,11 +127,17 @@ def index_strided(index, shape, strides, offset=0):
     return tuple(new_shape), tuple(new_strides), offset
 
 
+def _normalize_int(index, size):
+    if not -size <= index < size:
+        raise IndexError(f'index {index} is out of range for axis of size {size}')
+    return index % size
+
+
 def normalize_index(index, shape):
     """Reduce slice indices and normalize negative integer indices.
     """
     if isinstance(index, int):
-        return (index % shape[0],) + (None,) * (len(shape)-1)
+        return (_normalize_int(index, shape[0]),) + (None,) * (len(shape)-1)
     elif isinstance(index, slice):
         return (reduced(index, shape[0]),) + (None,) * (len(shape)-1)
     elif index is None:
@@ -140,7 +146,7 @@ def normalize_index(index, shape):
     for i in range(len(index)):
         ind = index[i]
         if isinstance(ind, int):
-            new_index[i] = ind % shape[i]
+            new_index[i] = _normalize_int(ind, shape[i])
         elif isinstance(ind, slice):
             new_index[i] = reduced(ind, shape[i])
         elif ind is None:
-- 
2.43.0


From 1466cb7a3e28cd87554c3cde7a260dccdb19b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:35 +0000
Subject: [PATCH 09/11] fix: slicing a strided array without elements

---
 gcs/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index acb91b2..7368d68 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -654,6 +654,8 @@ class Strided(Storage):
         return get_position(index, self.shape, self.strides)
 
     def get_slice(self, shape, strides, offset):
+        if 0 in shape:
+            offset = 0  # no elements to address, offset may exceed an empty buffer
         return Strided(shape, strides, self.data[offset:])
 
 
-- 
2.43.0


From 5ff758505cf05fbea68310b6cfa348a1c5456957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 10/11] fix: assigning an array to a slice of the same memory
 read elements already overwritten

---
 gcs/storage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 7368d68..8f60b41 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -355,8 +355,11 @@ class Storage:
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
         shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
-        for value_index, data_pos in self.slice_indices_and_data_position(shape, strides, offset):
-            self.data[data_pos] = get_value(value, value_index)
+        # value may share memory with self, so read all of it before writing
+        updates = [(data_pos, get_value(value, value_index)) for value_index, data_pos
+                   in self.slice_indices_and_data_position(shape, strides, offset)]
+        for data_pos, element in updates:
+            self.data[data_pos] = element
 
     def get_data_position(self, index):
         raise NotImplementedError(f'{type(self).__name__}.get_data_position')
-- 
2.43.0


From b94453a282f34998a04a89e9442674b68c68033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 11/11] fix: solve_index finds the indices of arrays whose
 strides are not decreasing

init_diophantine restricts the solution to a hypercube correctly only when
the strides do not increase. Solve with the axes sorted by stride and put
the solution back into the original order.
---
 gcs/slice_tools.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 883232c..f47c22f 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -220,6 +220,17 @@ def init_diophantine(a, shape=None):
         d = a[0]
         return d, (1,), (), (), (), shape
 
+    if shape is not None:
+        # the restriction to a hypercube assumes that the strides do not
+        # increase, as in C-contiguous arrays and their slices
+        order = sorted(range(len(a)), key=lambda i: (-abs(a[i]), shape[i] == 1))
+        if order != list(range(len(a))):
+            d, z0, zs, D, b, s = init_diophantine(tuple(a[i] for i in order),
+                                                  shape=tuple(shape[i] for i in order))
+            inverse = sorted(range(len(a)), key=order.__getitem__)
+            return (d, tuple(z0[i] for i in inverse),
+                    tuple(tuple(z[i] for i in inverse) for z in zs), D, b, s)
+
     data = _init_diophantine(a)
 
     d, z0, zs = data[0][0], data[-1][-2], data[-1][-1]
-- 
2.43.0

