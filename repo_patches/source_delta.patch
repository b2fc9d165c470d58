From 508d06601b1530d7c334b1cd7fc13fc41bf67027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 01/15] fix: setting a matrix entry to zero must remove the
 entry

set_entry(0, col, row) returned early and left a stored non-zero entry in
place, although set_entry is documented to overwrite the entry.
---
 graphrox-rs/src/matrix/csr_adjacency_matrix.rs | 1 +
 graphrox-rs/src/matrix/csr_square_matrix.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
index 413e1bf..b010d80 100644
--- a/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_adjacency_matrix.rs
@@ -273,6 +273,7 @@ impl MatrixRepresentation<u8> for CsrAdjacencyMatrix {
         }
 
         if entry == 0 {
+            self.zero_entry(col, row);
             return;
         }
 
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index eafba5e..644c748 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -366,6 +366,7 @@ impl<T: Debug + Display + Numeric> MatrixRepresentation<T> for CsrSquareMatrix<T
         }
 
         if entry == T::zero() {
+            self.zero_entry(col, row);
             return;
         }
 
-- 
2.43.0


From 0e725e889ab7a4259884d91df849375f82eb6b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 02/15] fix: increment_entry must not store an entry that
 became zero

Incrementing an entry holding -1 left a stored zero which entry_count() and
the iterator reported as a non-zero entry.
---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index 644c748..d1de3a5 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -99,9 +99,13 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             self.entry_count += 1;
         }
 
-        entry
+        let incremented = *entry
             .and_modify(|e| *e = e.add_one())
             .or_insert_with(T::one);
+
+        if incremented == T::zero() {
+            self.zero_entry(col, row);
+        }
     }
 
     #[inline]
-- 
2.43.0


From f4b7139df4f2958931664516aba55e6360ec7c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 03/15] fix: i128 is not a decimal type

---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index eaa82ac..c36c21d 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -399,7 +399,7 @@ impl Numeric for i128 {
 
     #[inline(always)]
     fn has_decimal() -> bool {
-        true
+        false
     }
 
     #[inline(always)]
-- 
2.43.0


From b21658feee062dbfc6f8bf3f0968a440e6a8a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 04/15] fix: matrix strings must have aligned columns and exact
 entries

The width of an entry was derived from the integral digits of the extreme
values, which ignored rounding carries, the precision of negative integers,
infinities, precision zero and matrices whose entries were all removed:
entries overran their cells or the text buffer (panic). Widths are now those
of the formatted entries, and a precision that cannot be formatted is an error.
---
 graphrox-rs/src/matrix/csr_square_matrix.rs | 89 +++++++--------------
 1 file changed, 31 insertions(+), 58 deletions(-)

diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index d1de3a5..d5a6ee6 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -163,46 +163,36 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
             return Ok(String::new());
         }
 
-        let mut highest = T::min();
-        let mut lowest = T::max();
-
-        let edge_table_values = self.edges_table.values();
-
-        if edge_table_values.len() == 0 {
-            highest = T::zero();
-        } else {
-            for row_table in edge_table_values {
-                for val in row_table.values() {
-                    if val.gt(&highest) {
-                        highest = *val;
-                    }
-
-                    if val.lt(&lowest) {
-                        lowest = *val;
-                    }
-                }
-            }
+        // The formatting machinery cannot represent a greater precision
+        if decimal_digits > u16::MAX as usize {
+            return Err(GraphRoxError::CapacityOverflow(String::from(
+                "Too many decimal digits",
+            )));
         }
 
-        let highest_integral_count = highest.integral_digit_count();
-        let lowest_integral_count = lowest.integral_digit_count();
-        let mut entry_size = if highest_integral_count > lowest_integral_count {
-            highest_integral_count
-        } else {
-            lowest_integral_count
+        let format_entry = |value: T| {
+            if T::has_decimal() {
+                format!(
+                    "{number:.decimals$}",
+                    number = value,
+                    decimals = decimal_digits
+                )
+            } else if decimal_digits > 0 {
+                format!("{}.{}", value, "0".repeat(decimal_digits))
+            } else {
+                value.to_string()
+            }
         };
 
-        if T::has_decimal() || decimal_digits > 0 {
-            entry_size += 1 + decimal_digits;
-        }
+        // Entries that are not stored are formatted as a zero
+        let smallest_entry_chars = format_entry(T::zero()).len();
+        let mut entry_size = smallest_entry_chars;
 
-        // One for the digit in front of the decimal
-        let smallest_entry_chars = 1 + if T::has_decimal() || decimal_digits > 0 {
-            // One for the decimal, one for each decimal digit
-            1 + decimal_digits
-        } else {
-            0
-        };
+        for row_table in self.edges_table.values() {
+            for val in row_table.values() {
+                entry_size = entry_size.max(format_entry(*val).len());
+            }
+        }
 
         let entry_left_padding = entry_size - smallest_entry_chars;
         let chars_per_entry = entry_size + 2;
@@ -283,31 +273,14 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
                     + EXTRA_CHARS_PER_ROW_AT_FRONT
                     + chars_per_entry * *col as usize;
 
-                let num = if !T::has_decimal() && decimal_digits > 0 {
-                    let width = if lowest.lt(&T::zero()) {
-                        highest.integral_digit_count() + 1
-                    } else {
-                        highest.integral_digit_count()
-                    };
-
-                    let mut temp = format!("{number: >width$}.", number = value, width = width,);
-
-                    for _ in 0..decimal_digits {
-                        temp.push('0');
-                    }
-
-                    temp
-                } else {
-                    format!(
-                        "{number: >width$.decimals$}",
-                        number = value,
-                        width = entry_size,
-                        decimals = decimal_digits
-                    )
-                };
-
+                let num = format_entry(*value);
                 let num = num.as_bytes();
 
+                for _ in num.len()..entry_size {
+                    buffer[pos] = b' ';
+                    pos += 1;
+                }
+
                 for b in num {
                     buffer[pos] = *b;
                     pos += 1;
-- 
2.43.0


From 7f76d49b8dc299c7c118dda679df883ec8fe14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 05/15] fix: average pooling must survive large blocks and
 divide exactly

The square of the block dimension overflowed u64 (panic or infinities), and
multiplying by a rounded reciprocal made averages differ from the quotient of
the block's edges and entries, e.g. full blocks of 7x7 were below 1.0.
---
 graphrox-rs/src/graph/standard.rs           | 4 ++--
 graphrox-rs/src/matrix/csr_square_matrix.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index cad6326..14acee4 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -467,10 +467,10 @@ impl StandardGraph {
             occurrence_matrix.increment_entry(occurrence_col, occurrence_row);
         }
 
-        let block_multiplier = 1.0 / (block_dimension * block_dimension) as f64;
+        let entries_per_block = block_dimension as f64 * block_dimension as f64;
         let mut avg_pool_matrix = occurrence_matrix;
         avg_pool_matrix.set_minimum_dimension(blocks_per_row);
-        avg_pool_matrix.multiply_entries_by(block_multiplier);
+        avg_pool_matrix.divide_entries_by(entries_per_block);
 
         avg_pool_matrix
     }
diff --git a/graphrox-rs/src/matrix/csr_square_matrix.rs b/graphrox-rs/src/matrix/csr_square_matrix.rs
index d5a6ee6..dce0a4f 100644
--- a/graphrox-rs/src/matrix/csr_square_matrix.rs
+++ b/graphrox-rs/src/matrix/csr_square_matrix.rs
@@ -296,10 +296,10 @@ impl<T: Debug + Display + Numeric> CsrSquareMatrix<T> {
 
 impl CsrSquareMatrix<f64> {
     #[inline]
-    pub(crate) fn multiply_entries_by(&mut self, multiplier: f64) {
+    pub(crate) fn divide_entries_by(&mut self, divisor: f64) {
         for row_table in self.edges_table.values_mut() {
             for entry in row_table.values_mut() {
-                *entry *= multiplier;
+                *entry /= divisor;
             }
         }
     }
-- 
2.43.0


From af1821fe1482afd9ec1f5779c4b62253dbea3918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 06/15] fix: compression of graphs smaller than a block must
 count block entries

compress() pooled with a block dimension clamped to the vertex count, so for
graphs with fewer than eight vertices the level was a share of the vertices'
entries instead of the number of ones in the 8x8 block that it is documented
to be.
---
 graphrox-rs/src/graph/standard.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 14acee4..836550a 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -451,6 +451,10 @@ impl StandardGraph {
             block_dimension
         };
 
+        self.avg_pool_blocks(block_dimension)
+    }
+
+    fn avg_pool_blocks(&self, block_dimension: u64) -> CsrSquareMatrix<f64> {
         let are_edge_blocks_padded = !self.vertex_count().is_multiple_of(block_dimension);
 
         let mut blocks_per_row = self.vertex_count() / block_dimension;
@@ -631,7 +635,7 @@ impl StandardGraph {
         let mut builder =
             CompressedGraphBuilder::new(self.is_undirected, self.vertex_count(), compression_level);
 
-        let avg_pool_matrix = self.find_avg_pool_matrix(COMPRESSION_BLOCK_DIMENSION);
+        let avg_pool_matrix = self.avg_pool_blocks(COMPRESSION_BLOCK_DIMENSION);
         for (entry, col, row) in &avg_pool_matrix {
             if entry >= threshold {
                 let mut compressed_entry = 0;
-- 
2.43.0


From 0b43523fbf8bd0f607d8c9e285393b92d8d99479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 07/15] fix: reject images of graphs with repeated or one-sided
 edges

Graph::try_from mirrored every record of an undirected graph and compared only
the resulting number of edges with the header, so images in which an edge was
repeated while its reverse was missing were accepted.
---
 graphrox-rs/src/graph/standard.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/standard.rs b/graphrox-rs/src/graph/standard.rs
index 836550a..6147501 100644
--- a/graphrox-rs/src/graph/standard.rs
+++ b/graphrox-rs/src/graph/standard.rs
@@ -816,7 +816,7 @@ impl TryFrom<&[u8]> for StandardGraph {
                     "Graph edge exceeds matrix dimension",
                 )));
             }
-            graph.add_edge(col, row);
+            graph.adjacency_matrix.set_entry(1, col, row);
         }
 
         if graph.edge_count() != adjacency_matrix_entry_count {
@@ -825,6 +825,16 @@ impl TryFrom<&[u8]> for StandardGraph {
             )));
         }
 
+        if graph.is_undirected
+            && graph
+                .into_iter()
+                .any(|(from, to)| !graph.does_edge_exist(to, from))
+        {
+            return Err(GraphRoxError::InvalidFormat(String::from(
+                "Undirected graph is missing a reversed edge",
+            )));
+        }
+
         if adjacency_matrix_dimension > 0 {
             graph.add_vertex(adjacency_matrix_dimension - 1, None);
         }
-- 
2.43.0


From 5e2846f7e6ae102361d80aa591d73b8831133005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 08/15] fix: reject images of compressed graphs with repeated
 or one-sided entries

CompressedGraph::try_from counted the edges of a repeated block twice, giving
a graph whose edge count and further images were wrong, and accepted undirected
images in which blocks were not mirrored.
---
 graphrox-rs/src/graph/compressed.rs | 33 ++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/graphrox-rs/src/graph/compressed.rs b/graphrox-rs/src/graph/compressed.rs
index 0690b0a..99e72ae 100644
--- a/graphrox-rs/src/graph/compressed.rs
+++ b/graphrox-rs/src/graph/compressed.rs
@@ -376,10 +376,41 @@ impl TryFrom<&[u8]> for CompressedGraph {
             )));
         }
 
-        unsafe { Ok(compressed_graph_builder.finish()) }
+        let compressed_graph = unsafe { compressed_graph_builder.finish() };
+        let matrix = &compressed_graph.adjacency_matrix;
+
+        if matrix.entry_count() != adjacency_matrix_entry_count {
+            return Err(GraphRoxError::InvalidFormat(String::from(
+                "CompressedGraph contains a repeated entry",
+            )));
+        }
+
+        if compressed_graph.is_undirected
+            && matrix
+                .into_iter()
+                .any(|(entry, col, row)| matrix.get_entry(row, col) != transpose_entry(entry))
+        {
+            return Err(GraphRoxError::InvalidFormat(String::from(
+                "Undirected CompressedGraph is missing a reversed edge",
+            )));
+        }
+
+        Ok(compressed_graph)
     }
 }
 
+fn transpose_entry(entry: u64) -> u64 {
+    let mut transposed = 0;
+
+    for bit in 0..64 {
+        let col = bit % COMPRESSION_BLOCK_DIMENSION;
+        let row = bit / COMPRESSION_BLOCK_DIMENSION;
+        transposed |= ((entry >> bit) & 1) << (col * COMPRESSION_BLOCK_DIMENSION + row);
+    }
+
+    transposed
+}
+
 fn read_u32_be(bytes: &[u8], offset: usize) -> Result<u32, GraphRoxError> {
     let end = offset
         .checked_add(std::mem::size_of::<u32>())
-- 
2.43.0


From b6bb4d67603f942c7f8adc1fd059a049a99eb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 09/15] fix: gphrx_matrix_to_string must not abort on matrices
 that are too large

A matrix whose text cannot be allocated made Display fail, to_string() panic
and the process abort; like the other string functions it now returns null.
---
 graphrox-c/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index 982e01b..4717a54 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -735,9 +735,13 @@ pub unsafe extern "C" fn gphrx_matrix_to_string(matrix: GphrxCsrSquareMatrix) ->
     let Some(matrix) = matrix_ref(matrix) else {
         return ptr::null_mut();
     };
-    match ffi::CString::new(matrix.to_string()) {
-        Ok(s) => s.into_raw(),
-        Err(_) => ptr::null_mut(),
+    match matrix
+        .to_string_with_precision(2)
+        .ok()
+        .and_then(|s| ffi::CString::new(s).ok())
+    {
+        Some(s) => s.into_raw(),
+        None => ptr::null_mut(),
     }
 }
 
-- 
2.43.0


From dbb991a84aa256662312213acb358fd1406e3437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 10/15] fix: thresholds below 10^-18 must be treated as 10^-18

Thresholds in (0, 10^-18) were not clamped, contrary to the documentation.
---
 graphrox-rs/src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphrox-rs/src/util/mod.rs b/graphrox-rs/src/util/mod.rs
index c36c21d..e998646 100644
--- a/graphrox-rs/src/util/mod.rs
+++ b/graphrox-rs/src/util/mod.rs
@@ -14,7 +14,7 @@ pub mod constants {
 pub fn clamp_threshold(threshold: f64) -> f64 {
     if threshold > 1.0 {
         1.0
-    } else if threshold <= 0.0 {
+    } else if threshold < constants::GRAPH_APPROXIMATION_MIN_THRESHOLD {
         constants::GRAPH_APPROXIMATION_MIN_THRESHOLD
     } else {
         threshold
-- 
2.43.0


From 18cfdda3f446f088fa81a2b7c4065fb6c853fa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 11/15] fix: from_bytes must raise its ValueError

Calling __name__ raised a TypeError instead of the intended ValueError.
---
 graphrox-py/graphrox/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index c844f70..314840e 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -290,7 +290,7 @@ class Graph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                Graph.__name__() + ' could not be constructed from the provided bytes'
+                Graph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return Graph(_c_graph=c_graph)
@@ -605,7 +605,7 @@ class CompressedGraph:
 
         if error.value != _GphrxError.GPHRX_NO_ERROR.value:
             raise ValueError(
-                CompressedGraph.__name__() + ' could not be constructed from the provided bytes'
+                CompressedGraph.__name__ + ' could not be constructed from the provided bytes'
             )
 
         return CompressedGraph(c_graph)
-- 
2.43.0


From 2c1f2a5c607b0ac98b05e5beefaa158da06d94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:35 +0000
Subject: [PATCH 12/15] fix: indexing an empty list must raise IndexError

A negative index into an empty list raised ZeroDivisionError.
---
 graphrox-py/graphrox/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index 314840e..b8996e3 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -475,7 +475,7 @@ class _GraphEdgeList:
         _lib.free_gphrx_edge_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -531,7 +531,7 @@ class _GraphVertexList:
         _lib.free_gphrx_vertex_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
@@ -746,7 +746,7 @@ class _CsrSquareMatrixEntryList:
         _lib.free_gphrx_matrix_entry_list(self._ptr, self._size)
 
     def __getitem__(self, idx):
-        if idx >= self._size:
+        if idx >= self._size or self._size == 0:
             raise IndexError('list index out of range')
 
         if idx < 0:
-- 
2.43.0


From be391e952a18e4532fcb12b69bc29e22b3a19114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:48 +0000
Subject: [PATCH 13/15] fix: C texts must not abort for want of memory for the
 final byte

---
 graphrox-c/src/lib.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/graphrox-c/src/lib.rs b/graphrox-c/src/lib.rs
index 4717a54..f74c54a 100644
--- a/graphrox-c/src/lib.rs
+++ b/graphrox-c/src/lib.rs
@@ -45,6 +45,13 @@ fn boxed_bytes_to_raw(bytes: Vec<u8>, buffer_size: *mut usize) -> *mut u8 {
     Box::into_raw(bytes.into_boxed_slice()) as *mut u8
 }
 
+#[inline]
+fn string_to_c_string(mut string: String) -> Option<ffi::CString> {
+    // CString::new() appends a null byte and would abort if it could not get the memory
+    string.try_reserve_exact(1).ok()?;
+    ffi::CString::new(string).ok()
+}
+
 #[repr(C)]
 #[derive(Copy, Clone)]
 pub struct GphrxGraph {
@@ -205,11 +212,7 @@ pub unsafe extern "C" fn gphrx_matrix_string(graph: GphrxGraph) -> *mut ffi::c_c
     let Some(graph) = graph_ref(graph) else {
         return ptr::null_mut();
     };
-    match graph
-        .matrix_string()
-        .ok()
-        .and_then(|s| ffi::CString::new(s).ok())
-    {
+    match graph.matrix_string().ok().and_then(string_to_c_string) {
         Some(s) => s.into_raw(),
         None => ptr::null_mut(),
     }
@@ -582,11 +585,7 @@ pub unsafe extern "C" fn gphrx_compressed_graph_matrix_string(
     let Some(graph) = compressed_graph_ref(graph) else {
         return ptr::null_mut();
     };
-    match graph
-        .matrix_string()
-        .ok()
-        .and_then(|s| ffi::CString::new(s).ok())
-    {
+    match graph.matrix_string().ok().and_then(string_to_c_string) {
         Some(s) => s.into_raw(),
         None => ptr::null_mut(),
     }
@@ -738,7 +737,7 @@ pub unsafe extern "C" fn gphrx_matrix_to_string(matrix: GphrxCsrSquareMatrix) ->
     match matrix
         .to_string_with_precision(2)
         .ok()
-        .and_then(|s| ffi::CString::new(s).ok())
+        .and_then(string_to_c_string)
     {
         Some(s) => s.into_raw(),
         None => ptr::null_mut(),
@@ -756,7 +755,7 @@ pub unsafe extern "C" fn gphrx_matrix_to_string_with_precision(
     match matrix
         .to_string_with_precision(decimal_digits)
         .ok()
-        .and_then(|s| ffi::CString::new(s).ok())
+        .and_then(string_to_c_string)
     {
         Some(s) => s.into_raw(),
         None => ptr::null_mut(),
-- 
2.43.0


From cd4b35ac30de2edbbcd80111952ec851734ed12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:50 +0000
Subject: [PATCH 14/15] fix: Python must raise MemoryError when an image or
 text was not built

---
 graphrox-py/graphrox/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index b8996e3..a5a120d 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -272,6 +272,9 @@ class Graph:
     def __bytes__(self):
         size = ctypes.c_size_t()
         bytes_ptr = _lib.gphrx_to_bytes(self._graph, ctypes.byref(size))
+        if not bytes_ptr:
+            raise MemoryError('Unable to allocate graph bytes')
+
         py_bytes = bytes(bytes_ptr[:size.value])
 
         _lib.free_gphrx_bytes_buffer(bytes_ptr, size)
@@ -303,6 +306,9 @@ class Graph:
     def matrix_string(self):
         """Returns the adjacency matrix of the graph as a string."""
         c_str = _lib.gphrx_matrix_string(self._graph)
+        if not c_str:
+            raise MemoryError('Unable to build matrix string')
+
         py_str = ctypes.cast(c_str, ctypes.c_char_p).value
         _lib.free_gphrx_string_buffer(c_str)
         return py_str.decode('utf-8')
@@ -587,6 +593,9 @@ class CompressedGraph:
     def __bytes__(self):
         size = ctypes.c_size_t()
         bytes_ptr = _lib.gphrx_compressed_graph_to_bytes(self._graph, ctypes.byref(size))
+        if not bytes_ptr:
+            raise MemoryError('Unable to allocate graph bytes')
+
         py_bytes = bytes(bytes_ptr[:size.value])
 
         _lib.free_gphrx_bytes_buffer(bytes_ptr, size)
@@ -623,6 +632,9 @@ class CompressedGraph:
         uncompressed graph's adjacency matrix.
         """
         c_str = _lib.gphrx_compressed_graph_matrix_string(self._graph)
+        if not c_str:
+            raise MemoryError('Unable to build matrix string')
+
         py_str = ctypes.cast(c_str, ctypes.c_char_p).value
         _lib.free_gphrx_string_buffer(c_str)
         return py_str.decode('utf-8')
@@ -717,6 +729,9 @@ class CsrSquareMatrix:
         matrix string (default 2).
         """
         c_str = _lib.gphrx_matrix_to_string_with_precision(self._matrix, decimal_digits)
+        if not c_str:
+            raise MemoryError('Unable to build matrix string')
+
         py_str = ctypes.cast(c_str, ctypes.c_char_p).value
         _lib.free_gphrx_string_buffer(c_str)
         return py_str.decode('utf-8')
-- 
2.43.0


From 214bf8a7c56937b8dc7d8052c3e6f43d6e95058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:48 +0000
Subject: [PATCH 15/15] fix: Python must release an image or text it cannot
 copy

---
 graphrox-py/graphrox/__init__.py | 39 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/graphrox-py/graphrox/__init__.py b/graphrox-py/graphrox/__init__.py
index a5a120d..753fa0a 100644
--- a/graphrox-py/graphrox/__init__.py
+++ b/graphrox-py/graphrox/__init__.py
@@ -275,11 +275,10 @@ class Graph:
         if not bytes_ptr:
             raise MemoryError('Unable to allocate graph bytes')
 
-        py_bytes = bytes(bytes_ptr[:size.value])
-
-        _lib.free_gphrx_bytes_buffer(bytes_ptr, size)
-
-        return py_bytes
+        try:
+            return bytes(bytes_ptr[:size.value])
+        finally:
+            _lib.free_gphrx_bytes_buffer(bytes_ptr, size)
 
     @staticmethod
     def from_bytes(bytes_obj):
@@ -309,9 +308,10 @@ class Graph:
         if not c_str:
             raise MemoryError('Unable to build matrix string')
 
-        py_str = ctypes.cast(c_str, ctypes.c_char_p).value
-        _lib.free_gphrx_string_buffer(c_str)
-        return py_str.decode('utf-8')
+        try:
+            return ctypes.cast(c_str, ctypes.c_char_p).value.decode('utf-8')
+        finally:
+            _lib.free_gphrx_string_buffer(c_str)
 
     def is_undirected(self):
         """Returns `True` if the graph is undirected. Otherwise, returns `False`."""
@@ -596,11 +596,10 @@ class CompressedGraph:
         if not bytes_ptr:
             raise MemoryError('Unable to allocate graph bytes')
 
-        py_bytes = bytes(bytes_ptr[:size.value])
-
-        _lib.free_gphrx_bytes_buffer(bytes_ptr, size)
-
-        return py_bytes
+        try:
+            return bytes(bytes_ptr[:size.value])
+        finally:
+            _lib.free_gphrx_bytes_buffer(bytes_ptr, size)
 
     @staticmethod
     def from_bytes(bytes_obj):
@@ -635,9 +634,10 @@ class CompressedGraph:
         if not c_str:
             raise MemoryError('Unable to build matrix string')
 
-        py_str = ctypes.cast(c_str, ctypes.c_char_p).value
-        _lib.free_gphrx_string_buffer(c_str)
-        return py_str.decode('utf-8')
+        try:
+            return ctypes.cast(c_str, ctypes.c_char_p).value.decode('utf-8')
+        finally:
+            _lib.free_gphrx_string_buffer(c_str)
 
     def decompress(self):
         """Decompresses a `CompressedGraph` into a `Graph`."""
@@ -732,9 +732,10 @@ class CsrSquareMatrix:
         if not c_str:
             raise MemoryError('Unable to build matrix string')
 
-        py_str = ctypes.cast(c_str, ctypes.c_char_p).value
-        _lib.free_gphrx_string_buffer(c_str)
-        return py_str.decode('utf-8')
+        try:
+            return ctypes.cast(c_str, ctypes.c_char_p).value.decode('utf-8')
+        finally:
+            _lib.free_gphrx_string_buffer(c_str)
 
     def entry_list(self):
         """Generates a list of all the entries in the matrix.
-- 
2.43.0

