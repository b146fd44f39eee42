From 866f0ea9edb3f2b3dc507ac2d16e538b2c222ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 01/18] fix: flush buffered writers before reporting a
 successful save

A BufWriter that is dropped with bytes left in its buffer writes them out
but ignores the result, so saving an index, elements or embeddings to a
full disk could report success after losing the last bytes.
---
 src/elements/embeddings/parsing.rs | 6 +++++-
 src/index/io.rs                    | 3 ++-
 src/index/rw/mod.rs                | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index d3550b4..80ba078 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -13,7 +13,7 @@ use serde_json;
 use std::cmp;
 use std::collections::HashMap;
 use std::fs::{read_dir, File};
-use std::io::{BufRead, BufReader, BufWriter, Read};
+use std::io::{BufRead, BufReader, BufWriter, Read, Write};
 use std::path::{Path, PathBuf};
 
 pub fn parse_words(words_path: &Path) -> HashMap<String, usize> {
@@ -43,6 +43,7 @@ pub fn parse_elements_and_save_to_disk(
     let mut file = BufWriter::new(file);
 
     elements.write(&mut file).expect("Failed to write elements to disk");
+    file.flush().expect("Failed to write elements to disk");
 
     elements.len()
 }
@@ -94,6 +95,7 @@ pub fn parse_elements_and_save_shards_to_disk(
         elements
             .write_range(&mut file, begin, end)
             .expect("Failed to write elements to disk");
+        file.flush().expect("Failed to write elements to disk");
     }
 
     elements.len()
@@ -149,6 +151,8 @@ pub fn compute_embeddings_and_save_to_disk(
             progress_bar.add(vectors.len() as u64);
         }
     }
+
+    file.flush().expect("Failed to write embeddings to disk");
 }
 
 pub fn parse_elements_in_directory_or_file(
diff --git a/src/index/io.rs b/src/index/io.rs
index 242a6e1..ffdd9eb 100644
--- a/src/index/io.rs
+++ b/src/index/io.rs
@@ -66,7 +66,8 @@ pub(super) fn write_index(layers: &Layers, buffer: impl Write + Seek) -> Result<
 
     buffer.write_all(metadata.as_slice())?;
 
-    Ok(())
+    // a failure to write the last buffered bytes would go unnoticed on drop
+    buffer.flush()
 }
 
 pub(super) fn load_layers(buffer: &'_ [u8]) -> Layers<'_> {
diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5ce3ade..a6887e2 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -76,6 +76,7 @@ where
 
         let mut elements_file = BufWriter::new(elements_file);
         elements.write(&mut elements_file)?;
+        elements_file.flush()?;
 
         // this is safe because we have a write lock on self.write_lock, so no writes
         // can happen
-- 
2.43.0


From de75bd68af3b11ef1677a370e5cd750b53b6f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:45 +0000
Subject: [PATCH 02/18] fix: declare the arguments of
 compute_embeddings_and_save_to_disk in the order the function takes them

---
 py/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/src/lib.rs b/py/src/lib.rs
index 3696988..765cb53 100644
--- a/py/src/lib.rs
+++ b/py/src/lib.rs
@@ -46,8 +46,8 @@ py_module_initializer!(granne, initgranne, PyInit_granne, |py, m| {
         py_fn!(
             py,
             py_compute_embeddings_and_save_to_disk(
-                embeddings_path: String,
                 elements_path: String,
+                embeddings_path: String,
                 output_path: String,
                 show_progress: bool = true
             )
-- 
2.43.0


From 7bda9d6448d92e6e91221cb3a19998e364b0f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 03/18] fix: shards beyond the last element are empty instead
 of aborting the save

With more shards than needed (e.g. 5 elements in 4 shards) the begin of a
later shard lay beyond its end and write_range panicked.
---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index 80ba078..ccfc4b7 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -77,7 +77,7 @@ pub fn parse_elements_and_save_shards_to_disk(
     for shard in 0..num_shards {
         let output_path = get_shard_name(output_path, shard);
 
-        let begin = shard * shard_size;
+        let begin = std::cmp::min(shard * shard_size, elements.len());
         let end = std::cmp::min((shard + 1) * shard_size, elements.len());
         if show_progress {
             println!(
-- 
2.43.0


From 46acf910973dc6651dad9f1286b763b4efef8c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 04/18] fix: search the concurrent index also while it has only
 one layer

---
 src/index/rw/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index a6887e2..523dcf1 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -196,15 +196,18 @@ where
             &*elements,
         );
 
-        if let Some((entrypoint, _)) = index.search(&element, 1, 1).first() {
-            super::search_for_neighbors(current_layer.as_slice(), *entrypoint, &*elements, element, max_search)
-                .into_iter()
-                .take(num_neighbors)
-                .map(|(i, d)| (i, d.into_inner()))
-                .collect()
-        } else {
-            vec![]
+        if elements.len() == 0 {
+            return vec![];
         }
+
+        // element 0 is part of every layer, also when it is the only one in the last layer
+        let entrypoint = index.search(&element, 1, 1).first().map_or(0, |r| r.0);
+
+        super::search_for_neighbors(current_layer.as_slice(), entrypoint, &*elements, element, max_search)
+            .into_iter()
+            .take(num_neighbors)
+            .map(|(i, d)| (i, d.into_inner()))
+            .collect()
     }
 
     pub fn get_elements(self: &Self) -> parking_lot::RwLockReadGuard<Elements> {
-- 
2.43.0


From 6f89e47cef13ee729004e6405646e8881e718193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 05/18] fix: do not hold the write lock across the recursive
 insert of a batch

---
 src/index/rw/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 523dcf1..05f77e6 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -107,7 +107,7 @@ where
         }
 
         // signal that writes will happen
-        let _guard = self.write_lock.read();
+        let guard = self.write_lock.read();
 
         let (mut inserted, remaining) = {
             // write locks are needed to append elements and potentially append a new layer
@@ -174,6 +174,10 @@ where
             (ids, remaining)
         };
 
+        // the recursive call acquires this lock again, which would block on a waiting writer if it
+        // was still held
+        drop(guard);
+
         if !remaining.is_empty() {
             let ids = self.insert_batch(remaining);
             inserted.extend(ids.into_iter());
-- 
2.43.0


From 87c910446d03a241b7a9931ea194463104c4606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:47 +0000
Subject: [PATCH 06/18] fix: do not wait for the pool inside a worker thread
 while holding locks

---
 src/index/rw/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 05f77e6..0fbb15e 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -157,7 +157,9 @@ where
                 &*elements,
             );
 
-            if self.pool.current_num_threads() > 1 {
+            // a rayon worker waiting for the pool could steal another job that needs the locks held
+            // here, so insert sequentially if called from one
+            if self.pool.current_num_threads() > 1 && rayon::current_thread_index().is_none() {
                 self.pool.install(|| {
                     ids.par_iter().for_each(|id| {
                         GranneBuilder::index_element(&self.config, &*elements, &index, current_layer.as_slice(), *id)
-- 
2.43.0


From a94c4278115dd678db177dfda6fd241bc1ac8a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 07/18] fix: check that elements match before reordering and
 reorder indexes with fewer than two layers

---
 src/index/reorder.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index dfe9896..02f19de 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -57,6 +57,9 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     ```
      */
     pub fn reorder(self: &mut Self, show_progress: bool) -> Vec<usize> {
+        // check before anything is changed
+        assert_eq!(self.len(), self.elements.len());
+
         let order = self.compute_order(show_progress);
 
         let start_time = time::Instant::now();
@@ -90,7 +93,9 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     pub fn reorder_by_keys(self: &mut Self, keys: &[impl Ord + Sync + Send], show_progress: bool) -> Vec<usize> {
         let start_time = time::Instant::now();
 
+        // check before anything is changed
         assert_eq!(self.len(), keys.len());
+        assert_eq!(self.len(), self.elements.len());
 
         let layer_lens: Vec<usize> = (0..self.num_layers()).map(|i| self.layer_len(i)).collect();
 
@@ -125,8 +130,16 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     }
 
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
+        if self.num_layers() == 0 {
+            return Vec::new();
+        }
+
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
-        let mut order_inv = vec![0; self.layer_len(self.num_layers() - 2)];
+        let mut order_inv = if self.num_layers() > 1 {
+            vec![0; self.layer_len(self.num_layers() - 2)]
+        } else {
+            Vec::new()
+        };
 
         let start_time = time::Instant::now();
         let progress_bar = if show_progress {
-- 
2.43.0


From d34d2f93c5db7f5c30a41dfd4930547085e7598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:12 +0000
Subject: [PATCH 08/18] fix: add the word only after its embedding in
 Embeddings.append

append put the word into the dictionary before adding the embedding. If the
embedding has the wrong dimension the latter panics (SystemError in Python)
and the word stayed without an embedding, so that every word appended later
was looked up at the position of the next embedding.
---
 py/src/embeddings.rs   | 11 +++++++----
 py/src/variants/mod.rs |  4 ++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/py/src/embeddings.rs b/py/src/embeddings.rs
index c0dc6bb..1ac51f3 100644
--- a/py/src/embeddings.rs
+++ b/py/src/embeddings.rs
@@ -106,12 +106,15 @@ py_class!(pub class Embeddings |py| {
     ///     The word or label representing the vector
     ///
     def append(&self, embedding: Vec<f32>, word: String) -> PyResult<bool> {
-        let inserted = self.words(py).borrow_mut().push(word);
-        if inserted {
-            self.embeddings(py).borrow_mut().push_embedding(&embedding);
+        let mut words = self.words(py).borrow_mut();
+        if words.contains(&word) {
+            return Ok(false);
         }
 
-        Ok(inserted)
+        // panics if the embedding does not fit, in which case the word must not be added either
+        self.embeddings(py).borrow_mut().push_embedding(&embedding);
+
+        Ok(words.push(word))
     }
 
     /// Saves the embeddings (vectors) and words/labels to disk.
diff --git a/py/src/variants/mod.rs b/py/src/variants/mod.rs
index 7cc8310..8fbf2d8 100644
--- a/py/src/variants/mod.rs
+++ b/py/src/variants/mod.rs
@@ -57,6 +57,10 @@ impl WordDict {
             .collect()
     }
 
+    pub fn contains(self: &Self, word: &str) -> bool {
+        self.word_to_id.contains_key(word)
+    }
+
     pub fn push(self: &mut Self, word: String) -> bool {
         match self.word_to_id.entry(word.clone()) {
             hash_map::Entry::Vacant(e) => e.insert(self.id_to_word.len()),
-- 
2.43.0


From a625b873423d8fa562da27caf9824dcdcec83fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 09/18] fix: load compressed offsets from any position in a
 buffer

Chunks are reinterpreted in place wherever a layer happens to start, but
needed the alignment of usize. Store them as bytes; the format is unchanged.
---
 src/slice_vector/offsets.rs | 38 ++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index dd82d31..4687b33 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -6,6 +6,7 @@ use std::io::{Read, Result, Seek, SeekFrom, Write};
 use super::U64_LEN;
 pub const OFFSETS_PER_CHUNK: usize = 60;
 type DeltaType = u16;
+const DELTA_LEN: usize = ::std::mem::size_of::<DeltaType>();
 
 pub enum CompressedVariableWidthSliceVector<'a, T: Clone> {
     File(memmap::Mmap),
@@ -145,11 +146,12 @@ impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
     }
 }
 
+/// Stored as (little-endian) bytes, since chunks are loaded from arbitrary positions in a buffer.
 #[repr(C)]
 #[derive(Clone)]
 pub struct Chunk {
-    initial: usize,
-    deltas: [DeltaType; OFFSETS_PER_CHUNK],
+    initial: [u8; U64_LEN],
+    deltas: [[u8; DELTA_LEN]; OFFSETS_PER_CHUNK],
 }
 
 const UNUSED: DeltaType = DeltaType::max_value();
@@ -157,21 +159,31 @@ const UNUSED: DeltaType = DeltaType::max_value();
 impl Chunk {
     fn new(initial: usize) -> Self {
         Self {
-            initial,
-            deltas: [UNUSED; OFFSETS_PER_CHUNK],
+            initial: (initial as u64).to_le_bytes(),
+            deltas: [UNUSED.to_le_bytes(); OFFSETS_PER_CHUNK],
         }
     }
 
+    #[inline(always)]
+    fn initial(self: &Self) -> usize {
+        u64::from_le_bytes(self.initial) as usize
+    }
+
+    #[inline(always)]
+    fn delta(self: &Self, index: usize) -> DeltaType {
+        DeltaType::from_le_bytes(self.deltas[index])
+    }
+
     fn len(self: &Self) -> usize {
-        self.deltas.iter().take_while(|&&x| x != UNUSED).count()
+        (0..OFFSETS_PER_CHUNK).take_while(|&i| self.delta(i) != UNUSED).count()
     }
 
     fn is_empty(self: &Self) -> bool {
-        self.deltas[0] == UNUSED
+        self.delta(0) == UNUSED
     }
 
     fn is_full(self: &Self) -> bool {
-        self.deltas[OFFSETS_PER_CHUNK - 1] != UNUSED
+        self.delta(OFFSETS_PER_CHUNK - 1) != UNUSED
     }
 
     #[inline(always)]
@@ -179,17 +191,17 @@ impl Chunk {
         assert!(index < OFFSETS_PER_CHUNK);
         let mut res = 0;
         for i in 0..=index {
-            debug_assert!(UNUSED != self.deltas[i]);
-            res += self.deltas[i] as usize;
+            debug_assert!(UNUSED != self.delta(i));
+            res += self.delta(i) as usize;
         }
 
-        res + self.initial
+        res + self.initial()
     }
 
     fn get_consecutive(self: &Self, index: usize) -> (usize, usize) {
         assert!(index + 1 < OFFSETS_PER_CHUNK);
         let first = self.get(index);
-        let second = first + self.deltas[index + 1] as usize;
+        let second = first + self.delta(index + 1) as usize;
 
         (first, second)
     }
@@ -199,13 +211,13 @@ impl Chunk {
         let last_offset = if let Some(last) = self.last() {
             last
         } else {
-            self.initial
+            self.initial()
         };
 
         assert!(offset >= last_offset);
         let delta = offset - last_offset;
         assert!(delta <= DeltaType::max_value() as usize);
-        self.deltas[self.len()] = delta as DeltaType;
+        self.deltas[self.len()] = (delta as DeltaType).to_le_bytes();
     }
 
     fn last(self: &Self) -> Option<usize> {
-- 
2.43.0


From 2ccd22387526d29dbb18f132989c757b34408666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 10/18] fix: load fixed width vectors from unaligned buffers

A buffer handed to from_bytes may start at any address; reinterpreting it
in place is only sound when it happens to be aligned for the element type.
---
 src/io.rs               | 15 ++++++++++++++-
 src/slice_vector/mod.rs | 15 ++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 49ecdee..5a3ed6a 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,6 +1,7 @@
+use std::borrow::Cow;
 use std::io::{Result, Write};
 
-/// Loads a slice of bytes as a slice of type T
+/// Loads a slice of bytes as a slice of type T. `bytes` needs to be properly aligned for T.
 pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
     let elements: &[T] =
         ::std::slice::from_raw_parts(bytes.as_ptr() as *const T, bytes.len() / ::std::mem::size_of::<T>());
@@ -8,6 +9,18 @@ pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
     elements
 }
 
+/// Loads a slice of bytes as a slice of type T. The data is copied if `bytes` is not properly aligned for T.
+pub unsafe fn load_bytes_as_cow<T: Clone>(bytes: &[u8]) -> Cow<'_, [T]> {
+    if bytes.as_ptr() as usize % ::std::mem::align_of::<T>() == 0 {
+        return Cow::Borrowed(load_bytes_as(bytes));
+    }
+
+    let data = bytes.as_ptr() as *const T;
+    let len = bytes.len() / ::std::mem::size_of::<T>();
+
+    Cow::Owned((0..len).map(|i| data.add(i).read_unaligned()).collect())
+}
+
 pub fn write_as_bytes<T, B: Write>(elements: &[T], buffer: &mut B) -> Result<usize> {
     let size = elements.len() * ::std::mem::size_of::<T>();
     let data = unsafe { ::std::slice::from_raw_parts(elements.as_ptr() as *const u8, size) };
diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index bfe6111..46731ef 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -121,11 +121,14 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
-        let (data, width) = Self::load_mmap(buffer);
+        let (data, width) = Self::split_width(buffer);
+
+        // the buffer is not necessarily aligned for T
+        let data = unsafe { crate::io::load_bytes_as_cow(data) };
 
         assert!(width > 0 && data.len() % width == 0);
 
-        Self::Memory(Cow::Borrowed(data), width)
+        Self::Memory(data, width)
     }
 
     /// Returns an iterator over all slices in `self`.
@@ -211,13 +214,19 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     fn load_mmap(buffer: &[u8]) -> (&[T], usize) {
+        let (data, width) = Self::split_width(buffer);
+
+        (unsafe { crate::io::load_bytes_as(data) }, width)
+    }
+
+    fn split_width(buffer: &[u8]) -> (&[u8], usize) {
         let width = {
             let mut buf = [0x0; U64_LEN];
             buf.copy_from_slice(&buffer[..U64_LEN]);
             u64::from_le_bytes(buf) as usize
         };
 
-        (unsafe { crate::io::load_bytes_as(&buffer[U64_LEN..]) }, width)
+        (&buffer[U64_LEN..], width)
     }
 
     pub fn read<I: Read>(mut reader: I) -> Result<Self> {
-- 
2.43.0


From c2a7f846731476247683c287dc429584257e36fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 11/18] fix: reject offset deltas equal to the unused marker

---
 src/slice_vector/offsets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index 4687b33..fb7422e 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -216,7 +216,7 @@ impl Chunk {
 
         assert!(offset >= last_offset);
         let delta = offset - last_offset;
-        assert!(delta <= DeltaType::max_value() as usize);
+        assert!(delta < UNUSED as usize);
         self.deltas[self.len()] = (delta as DeltaType).to_le_bytes();
     }
 
-- 
2.43.0


From 2cad36cf661a82cfb0d333dd3360d54fa14f0f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 12/18] fix: do not silently drop neighbors when saving an
 index

In release builds every id beyond the first 255 of a node was lost.
---
 src/slice_vector/set_vector.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/slice_vector/set_vector.rs b/src/slice_vector/set_vector.rs
index 80f3c31..c5d4e7a 100644
--- a/src/slice_vector/set_vector.rs
+++ b/src/slice_vector/set_vector.rs
@@ -115,10 +115,8 @@ fn decode_into(encoded_data: &[u8], decoded_nums: &mut Vec<u32>) {
 }
 
 fn set_encode(mut data: Vec<u32>) -> Vec<u8> {
-    debug_assert!(data.len() < u8::max_value() as usize);
-    if data.len() >= u8::max_value() as usize {
-        data.resize(u8::max_value() as usize, 0)
-    }
+    // the count is stored in a single byte
+    assert!(data.len() <= u8::max_value() as usize);
 
     delta_encode(&mut data);
     let count = data.len();
-- 
2.43.0


From 6b35b0cc72c66e22280fb4a498ce861de37fc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 13/18] fix: check the id limit when inserting into
 RwGranneBuilder

As in GranneBuilder::push; the last id would be taken for an unused neighbor.
---
 src/index/rw/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 0fbb15e..3e24fdd 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -140,6 +140,7 @@ where
             // insert elements that fit in the current layer (the remaining will be inserted in a
             // recursive call)
             let num_to_insert = std::cmp::min(elements_to_insert.len(), current_layer.len() - elements.len());
+            assert!(num_to_insert < UNUSED as usize - elements.len());
             let ids: Vec<usize> = (elements.len()..).take(num_to_insert).collect();
 
             let remaining = elements_to_insert.split_off(num_to_insert);
-- 
2.43.0


From 1857aaecf2e8a5802eab21d6e7aa7dc54be30cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 14/18] fix: check vector lengths before calling blas

blas reads past the end of the shorter vector.
---
 src/math.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index e175236..abb94ab 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1,5 +1,7 @@
 #[cfg(feature = "blas")]
 use blas;
+#[cfg(feature = "blas")]
+use std::convert::TryFrom;
 
 #[cfg(not(feature = "blas"))]
 pub fn dot_product_f32(x: &[f32], y: &[f32]) -> f32 {
@@ -53,7 +55,9 @@ pub fn dot_product_f32(x: &[f32], y: &[f32]) -> f32 {
 
 #[cfg(feature = "blas")]
 pub fn dot_product_f32(x: &[f32], y: &[f32]) -> f32 {
-    unsafe { blas::sdot(x.len() as i32, x, 1, y, 1) }
+    // blas does not check the lengths
+    let n = std::cmp::min(x.len(), y.len());
+    unsafe { blas::sdot(i32::try_from(n).unwrap(), x, 1, y, 1) }
 }
 
 pub fn dot_product_and_squared_norms_i8(x: &[i8], y: &[i8]) -> (i32, i32, i32) {
@@ -117,7 +121,9 @@ pub fn sum_into_f32(x: &mut [f32], y: &[f32]) {
 
 #[cfg(feature = "blas")]
 pub fn sum_into_f32(x: &mut [f32], y: &[f32]) {
-    unsafe { blas::saxpy(x.len() as i32, 1f32, y, 1, x, 1) };
+    assert_eq!(x.len(), y.len());
+
+    unsafe { blas::saxpy(i32::try_from(x.len()).unwrap(), 1f32, y, 1, x, 1) };
 }
 
 #[cfg(not(feature = "blas"))]
@@ -151,7 +157,7 @@ pub fn normalize_f32(x: &mut [f32]) {
 
 #[cfg(feature = "blas")]
 pub fn normalize_f32(x: &mut [f32]) {
-    let n = x.len() as i32;
+    let n = i32::try_from(x.len()).unwrap();
     let norm = unsafe { blas::snrm2(n, x, 1) };
     if norm > 0.0 {
         unsafe { blas::sscal(n, 1.0 / norm, x, 1) };
-- 
2.43.0


From 8a1ace566c7b26c614dabf1ef13906d3e92d21db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:40 +0000
Subject: [PATCH 15/18] fix: count the header in the bytes written by
 FixedWidthSliceVector

---
 src/slice_vector/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 46731ef..f508867 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -469,9 +469,13 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     pub fn write<B: Write>(self: &Self, buffer: &mut B) -> Result<usize> {
         let (data, width) = self.load();
 
+        // write metadata
         buffer.write_all(&width.to_le_bytes())?;
+        let mut bytes_written = std::mem::size_of::<u64>();
 
-        io::write_as_bytes(&data[..], buffer)
+        bytes_written += io::write_as_bytes(&data[..], buffer)?;
+
+        Ok(bytes_written)
     }
 }
 
-- 
2.43.0


From 8bc370afb68ef9d50856235dce7f13a93f5111f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 16/18] fix: count header and offsets in the bytes written by
 write_range

---
 src/slice_vector/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index f508867..185a1b9 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -592,12 +592,14 @@ where
         for &offset in &offsets[begin..=end] {
             let offset = usize::try_from(offset).unwrap();
             let offset = Offset::try_from(offset - offset_begin).unwrap();
-            io::write_as_bytes(&[offset], buffer)?;
+            bytes_written += io::write_as_bytes(&[offset], buffer)?;
         }
 
         let data_begin = usize::try_from(offsets[begin]).unwrap();
         let data_end = usize::try_from(offsets[end]).unwrap();
-        io::write_as_bytes(&data[data_begin..data_end], buffer)
+        bytes_written += io::write_as_bytes(&data[data_begin..data_end], buffer)?;
+
+        Ok(bytes_written)
     }
 
     pub fn get(self: &Self, idx: usize) -> &[T] {
-- 
2.43.0


From 218609b63d5edeae0d6eb538773efb172a2d3957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:28 +0000
Subject: [PATCH 17/18] fix: check that a node is empty under the lock it is
 initialized with

Another thread can connect the node between the check and the write, and its
connection was overwritten (in debug builds, an assertion failed).
---
 src/index/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 5370b1e..472e17e 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -832,9 +832,7 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         }
 
         // if current node is empty, initialize it with the neighbors
-        if layer[idx].read()[0] == UNUSED {
-            Self::initialize_node(&layer[idx], &neighbors[..]);
-        } else {
+        if !Self::initialize_node(&layer[idx], &neighbors[..]) {
             for &(neighbor, d) in &neighbors {
                 Self::connect_nodes(elements, &layer[idx], idx, neighbor, d);
             }
@@ -883,15 +881,20 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
     }
 
     /// Sets neighbors for `node`.
-    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) {
-        debug_assert_eq!(&UNUSED, &node.read()[0]);
-
+    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) -> bool {
         // Write Lock!
         let mut node = node.write();
 
+        // needs to be checked under the write lock: another thread might already have connected the node
+        if node[0] != UNUSED {
+            return false;
+        }
+
         for (i, &(idx, _)) in neighbors.iter().enumerate().take(node.len()) {
             node[i] = NeighborId::try_from(idx).unwrap();
         }
+
+        true
     }
 
     /// Tries to add `j` as a neighbor to `i`. If the neighbor list is full, uses `select_neighbors`
-- 
2.43.0


From f68c51893435a09524cc8753613c8fdd999d72c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:11 +0000
Subject: [PATCH 18/18] fix: check that entry point ids fit when computing an
 order

---
 src/index/reorder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index 02f19de..571430e 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -161,7 +161,7 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
 
                     let mut eps =
                         find_entrypoint_trail(&self.layers.load(), &self.elements, layer, &self.get_element(idx));
-                    eps.iter_mut().for_each(|i| *i = order_inv[*i as usize] as NeighborId);
+                    eps.iter_mut().for_each(|i| *i = NeighborId::try_from(order_inv[*i as usize]).unwrap());
 
                     (eps, idx)
                 })
-- 
2.43.0

