From 96c77908b3763bf6536fa9cdf958033549d37949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 01/38] fix: return an error, not a panic, for the effective
 type of an extension type without fallback

---
 src/data_type.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 54dce7a..cdcf75c 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -304,7 +304,10 @@ impl ExtensibleDataType {
             Extended {
                 fallback: Some(d), ..
             } => Ok(*d),
-            _ => todo!(),
+            // There is no core type to access the elements as.
+            Extended { type_string, .. } => {
+                Err(MetadataError::UnexpectedType(type_string.clone().into()))
+            }
         }
     }
 }
-- 
2.43.0


From 63286177d52424f3a054d6cf559b31ea88379c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 02/38] fix: serialize raw data types without trailing NUL
 characters

---
 src/data_type.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index cdcf75c..a4f867c 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -156,8 +156,11 @@ impl Serialize for DataType {
                 std::str::from_utf8(&buf[..3]).unwrap()
             }
             Raw { size } => {
-                write!(&mut buf[..], "r{}", size).expect("TODO");
-                std::str::from_utf8(&buf[..]).unwrap()
+                let mut unused = &mut buf[..];
+                write!(unused, "r{}", size).expect("TODO");
+                let unused_len = unused.len();
+                let len = buf.len() - unused_len;
+                std::str::from_utf8(&buf[..len]).unwrap()
             }
         };
         serializer.serialize_str(s)
-- 
2.43.0


From 91c53f2d27fec37bec1d5d7a5080f6a79ce67189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 03/38] fix: compute the chunk grid extent as an exact ceiling
 division

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1455ad4..a65ed50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,7 +338,7 @@ pub trait HierarchyWriter: HierarchyReader {
 }
 
 fn u64_ceil_div(a: u64, b: u64) -> u64 {
-    (a + 1) / b + (if a % b != 0 { 1 } else { 0 })
+    a / b + (if a % b != 0 { 1 } else { 0 })
 }
 
 /// Metadata for groups.
-- 
2.43.0


From 0446ca19175e7c2f774ae8eb6232ad4cdcc378cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 04/38] fix: iterate the single chunk of zero-dimensional
 arrays

---
 src/ndarray.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 1a05c34..d4fccff 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -488,10 +488,25 @@ struct CoordIterator<T: Iterator<Item = Vec<u64>>> {
     total_coords: usize,
 }
 
-impl CoordIterator<itertools::MultiProduct<std::ops::Range<u64>>> {
+/// Cartesian product of ranges. As the product of no ranges is empty for
+/// `itertools`, the single, empty coordinate of a zero-dimensional grid is
+/// provided separately.
+type RangeProduct = std::iter::Chain<
+    std::option::IntoIter<Vec<u64>>,
+    itertools::MultiProduct<std::ops::Range<u64>>,
+>;
+
+fn range_product<I: Iterator<Item = std::ops::Range<u64>>>(ndim: usize, ranges: I) -> RangeProduct {
+    let zero_dim = if ndim == 0 { Some(vec![]) } else { None };
+    zero_dim
+        .into_iter()
+        .chain(ranges.multi_cartesian_product())
+}
+
+impl CoordIterator<RangeProduct> {
     fn new(ceil: &[u64]) -> Self {
         CoordIterator {
-            iter: ceil.iter().map(|&c| 0..c).multi_cartesian_product(),
+            iter: range_product(ceil.len(), ceil.iter().map(|&c| 0..c)),
             accumulator: 0,
             total_coords: ceil.iter().product::<u64>() as usize,
         }
@@ -504,11 +519,10 @@ impl CoordIterator<itertools::MultiProduct<std::ops::Range<u64>>> {
             .map(|(&f, &c)| c.saturating_sub(f))
             .product::<u64>() as usize;
         CoordIterator {
-            iter: floor
-                .iter()
-                .zip(ceil.iter())
-                .map(|(&f, &c)| f..c)
-                .multi_cartesian_product(),
+            iter: range_product(
+                floor.len(),
+                floor.iter().zip(ceil.iter()).map(|(&f, &c)| f..c),
+            ),
             accumulator: 0,
             total_coords,
         }
-- 
2.43.0


From 57ba13ab5fb6f18c29e907f542e226f92da355db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 05/38] fix: do not underflow the remaining length of an
 exhausted coordinate iterator

---
 src/ndarray.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index d4fccff..b4e9d19 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -533,8 +533,11 @@ impl<T: Iterator<Item = Vec<u64>>> Iterator for CoordIterator<T> {
     type Item = Vec<u64>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.accumulator += 1;
-        self.iter.next()
+        let next = self.iter.next();
+        if next.is_some() {
+            self.accumulator += 1;
+        }
+        next
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From 1c2864bb896cc1861e59a2fa0fd35cd867f35e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 06/38] fix: visit no chunks for regions that contain no
 element of the array

---
 src/ndarray.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index b4e9d19..889e823 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -405,6 +405,11 @@ impl ArrayMetadata {
     ) -> impl Iterator<Item = Vec<u64>> + ExactSizeIterator {
         let mut bbox = self.get_bounds();
         bbox.intersect(unbounded_bbox);
+        if bbox.is_empty() {
+            // Chunks at the offset of an empty region do not intersect it.
+            let none: GridCoord = smallvec![0; bbox.shape.len()];
+            return CoordIterator::floor_ceil(&none, &none);
+        }
         let floor_coord: GridCoord = bbox
             .offset
             .iter()
-- 
2.43.0


From f9980e24da1e9b987c38b9e514ee621dc4a8d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 07/38] fix: do not overflow when iterating the chunks of
 arrays of nearly maximal length

---
 src/ndarray.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 889e823..d43198d 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -14,6 +14,7 @@ use ndarray::{
 };
 
 use crate::{
+    u64_ceil_div,
     ArrayMetadata,
     ChunkCoord,
     CoordVec,
@@ -393,7 +394,7 @@ impl ArrayMetadata {
             .get_shape()
             .iter()
             .zip(self.get_chunk_shape().iter())
-            .map(|(&d, &s)| (d + u64::from(s) - 1) / u64::from(s))
+            .map(|(&d, &s)| u64_ceil_div(d, u64::from(s)))
             .collect::<GridCoord>();
 
         CoordIterator::new(&coord_ceil)
@@ -421,7 +422,7 @@ impl ArrayMetadata {
             .iter()
             .zip(&bbox.shape)
             .zip(self.chunk_grid.chunk_shape.iter().cloned().map(u64::from))
-            .map(|((&o, &s), cs)| (o + s + cs - 1) / cs)
+            .map(|((&o, &s), cs)| u64_ceil_div(o + s, cs))
             .collect();
 
         CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
-- 
2.43.0


From 90ac5c29a6999dd55749ad03bd5e0a33dc26806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 08/38] fix: return an error, not a panic, for region writes at
 an offset of the wrong rank

---
 src/ndarray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index d43198d..6483b30 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -288,7 +288,7 @@ pub trait ZarrNdarrayWriter: HierarchyWriter {
         A: ndarray::AsArray<'a, T, ndarray::Dim<ndarray::IxDynImpl>>,
     {
         let array = array.into();
-        if array.ndim() != array_meta.get_ndim() {
+        if array.ndim() != array_meta.get_ndim() || offset.len() != array_meta.get_ndim() {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 "Wrong number of dimensions",
-- 
2.43.0


From 35fdc7eea73522fca4ce12271b16e2054f015b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:51 +0000
Subject: [PATCH 09/38] fix: refuse keys that climb above the hierarchy root
 before descending again

---
 src/store/filesystem.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index de08f82..d749c26 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -177,16 +177,18 @@ impl FilesystemHierarchy {
                 Component::ParentDir => nest -= 1,
                 Component::Normal(_) => nest += 1,
             };
-        }
 
-        if nest < 0 {
-            Err(Error::new(
-                ErrorKind::NotFound,
-                "Path name is outside this Zarr filesystem",
-            ))
-        } else {
-            Ok(self.base_path.join(unrooted_path))
+            // A path that leaves the base path may not return into it, since
+            // what it returns into may be outside of the base path.
+            if nest < 0 {
+                return Err(Error::new(
+                    ErrorKind::NotFound,
+                    "Path name is outside this Zarr filesystem",
+                ));
+            }
         }
+
+        Ok(self.base_path.join(unrooted_path))
     }
 }
 
-- 
2.43.0


From 30bffb4451f83703ef1d2f3d8391df893ac68e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 10/38] fix: report errors of the final writes and flushes of
 chunk encoders

---
 src/chunk.rs          | 64 ++++++++++++++++++++++++++++++++++++++++---
 src/compression/lz.rs | 30 ++++++++++++++++----
 2 files changed, 84 insertions(+), 10 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index a0e5c29..1749199 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -301,6 +301,60 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     }
 }
 
+/// Writer that keeps the first error of its inner writer, since encoders that
+/// finish when they are dropped are not able to return it.
+struct ErrorSink<W: Write> {
+    inner: W,
+    error: Option<Error>,
+}
+
+impl<W: Write> ErrorSink<W> {
+    fn new(inner: W) -> Self {
+        ErrorSink { inner, error: None }
+    }
+
+    fn keep<V>(&mut self, result: Result<V>) -> Result<V> {
+        match result {
+            Err(e) if e.kind() != ErrorKind::Interrupted => {
+                let kind = e.kind();
+                self.error = Some(e);
+                Err(kind.into())
+            }
+            r => r,
+        }
+    }
+
+    /// Flush the inner writer if nothing has failed so far.
+    fn finish(mut self, written: Result<()>) -> Result<()> {
+        match self.error.take() {
+            Some(e) => Err(e),
+            None => written.and_then(|_| self.inner.flush()),
+        }
+    }
+}
+
+impl<W: Write> Write for ErrorSink<W> {
+    fn write(&mut self, buffer: &[u8]) -> Result<usize> {
+        if let Some(ref e) = self.error {
+            return Err(e.kind().into());
+        }
+        let result = match self.inner.write(buffer) {
+            // Not all encoders stop when no more bytes are accepted.
+            Ok(0) if !buffer.is_empty() => Err(ErrorKind::WriteZero.into()),
+            r => r,
+        };
+        self.keep(result)
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        if let Some(ref e) = self.error {
+            return Err(e.kind().into());
+        }
+        let result = self.inner.flush();
+        self.keep(result)
+    }
+}
+
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
@@ -316,10 +370,12 @@ pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + Write
                 ),
             ));
         }
-        let mut compressor = array_meta.compressor.encoder(buffer);
-        chunk.write_data(&mut compressor, array_meta)?;
-
-        Ok(())
+        let mut sink = ErrorSink::new(buffer);
+        let mut compressor = array_meta.compressor.encoder(&mut sink);
+        let written = chunk.write_data(&mut compressor, array_meta);
+        // Encoders write the end of their stream when dropped.
+        drop(compressor);
+        sink.finish(written)
     }
 }
 
diff --git a/src/compression/lz.rs b/src/compression/lz.rs
index e327c09..6e0485e 100644
--- a/src/compression/lz.rs
+++ b/src/compression/lz.rs
@@ -1,4 +1,5 @@
 use std::io::{
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -22,22 +23,31 @@ use super::Compression;
 // Kludge to finish Lz4 encoder on Drop.
 struct Wrapper<W: Write> {
     s: Option<Encoder<W>>,
+    // Why there is no encoder, if writing the frame header failed.
+    header_error: ErrorKind,
 }
 
 impl<W: Write> Write for Wrapper<W> {
     fn write(&mut self, buffer: &[u8]) -> Result<usize> {
-        self.s.as_mut().unwrap().write(buffer)
+        match self.s.as_mut() {
+            Some(s) => s.write(buffer),
+            None => Err(self.header_error.into()),
+        }
     }
 
     fn flush(&mut self) -> Result<()> {
-        self.s.as_mut().unwrap().flush()
+        match self.s.as_mut() {
+            Some(s) => s.flush(),
+            None => Err(self.header_error.into()),
+        }
     }
 }
 
 impl<W: Write> Drop for Wrapper<W> {
     fn drop(&mut self) {
         if let Some(s) = self.s.take() {
-            s.finish().1.unwrap();
+            // An error of the underlying writer can not be returned from here.
+            let _ = s.finish();
         }
     }
 }
@@ -86,9 +96,17 @@ impl Compression for Lz4Compression {
         let encoder = EncoderBuilder::new()
             .block_size(self.get_effective_block_size())
             .block_mode(BlockMode::Independent)
-            .build(w)
-            .expect("TODO");
-        Box::new(Wrapper { s: Some(encoder) })
+            .build(w);
+        Box::new(match encoder {
+            Ok(encoder) => Wrapper {
+                s: Some(encoder),
+                header_error: ErrorKind::Other,
+            },
+            Err(e) => Wrapper {
+                s: None,
+                header_error: e.kind(),
+            },
+        })
     }
 }
 
-- 
2.43.0


From ff4034759ecaf0b0ee68abee183ebce5bbb57287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 11/38] fix: report errors of the final flush of written
 metadata documents

---
 src/storage.rs          | 15 ++++++++++++---
 src/store/filesystem.rs |  3 ++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 887f63b..3933923 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -126,6 +126,15 @@ pub fn get_chunk_key(base_path: &str, array_meta: &ArrayMetadata, grid_position:
     chunk_key
 }
 
+/// Write a JSON document, flushing the writer so that its errors are reported.
+pub(crate) fn write_json<W: Write, V: serde::Serialize>(
+    mut writer: W,
+    value: &V,
+) -> Result<(), Error> {
+    serde_json::to_writer(&mut writer, value)?;
+    writer.flush()
+}
+
 const ATTRIBUTES_NAME: &str = "attributes";
 
 fn merge_top_level(a: &mut Value, b: JsonObject) {
@@ -391,7 +400,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         }
         if merged != existing {
             self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &merged)?)
+                write_json(writer, &merged)
             })?;
         }
         Ok(())
@@ -414,7 +423,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             Ok(())
         } else {
             self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &GroupMetadata::default())?)
+                write_json(writer, &GroupMetadata::default())
             })
         }
     }
@@ -436,7 +445,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             ))
         } else {
             self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, array_meta)?)
+                write_json(writer, array_meta)
             })
         }
     }
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index d749c26..b9d296a 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -23,6 +23,7 @@ use walkdir::WalkDir;
 
 use crate::{
     storage::{
+        write_json,
         ListableStore,
         ReadableStore,
         WriteableStore,
@@ -98,7 +99,7 @@ impl FilesystemHierarchy {
             file.lock_exclusive()?;
 
             let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, &metadata)?;
+            write_json(writer, &metadata)?;
             metadata
         };
 
-- 
2.43.0


From 0dc2ef66d0f6a55ec89f3dca6805941044509791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 12/38] fix: refuse chunks of the wrong type or size before
 discarding the stored chunk

---
 src/chunk.rs   | 33 ++++++++++++++++++++++-----------
 src/storage.rs |  3 +++
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 1749199..68bf989 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -265,6 +265,27 @@ fn check_array_type<T: ReflectedType>(array_meta: &ArrayMetadata) -> Result<()>
     }
 }
 
+/// Check that a chunk can be written to an array.
+pub(crate) fn check_writeable<T: ReflectedType, B: DataChunk<T>>(
+    array_meta: &ArrayMetadata,
+    chunk: &B,
+) -> Result<()> {
+    check_array_type::<T>(array_meta)?;
+
+    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            format!(
+                "Can not write chunk with too few elements. Expected {} given {}",
+                array_meta.get_chunk_num_elements(),
+                chunk.get_num_elements()
+            ),
+        ));
+    }
+
+    Ok(())
+}
+
 /// Reads chunks from rust readers.
 pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     fn read_chunk(
@@ -358,18 +379,8 @@ impl<W: Write> Write for ErrorSink<W> {
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
-        check_array_type::<T>(array_meta)?;
+        check_writeable(array_meta, chunk)?;
 
-        if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
-            return Err(Error::new(
-                ErrorKind::InvalidData,
-                format!(
-                    "Can not write chunk with too few elements. Expected {} given {}",
-                    array_meta.get_chunk_num_elements(),
-                    chunk.get_num_elements()
-                ),
-            ));
-        }
         let mut sink = ErrorSink::new(buffer);
         let mut compressor = array_meta.compressor.encoder(&mut sink);
         let written = chunk.write_data(&mut compressor, array_meta);
diff --git a/src/storage.rs b/src/storage.rs
index 3933923..865f894 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -470,6 +470,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
     ) -> Result<(), Error> {
         // TODO convert assert
         // assert!(array_meta.in_bounds(chunk.get_grid_position()));
+
+        // Refuse the chunk before the store discards the previous value.
+        crate::chunk::check_writeable::<T, B>(array_meta, chunk)?;
         let chunk_key = get_chunk_key(path_name, array_meta, chunk.get_grid_position());
         self.set(&chunk_key, |writer| {
             <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkWriter<T, _, _>>::write_chunk(
-- 
2.43.0


From 3a3daae6abfb72ec787fdcdd742e2db690ebeadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 13/38] fix: write one LZ4 frame per chunk with the pure Rust
 codec

---
 src/compression/lz_pure.rs | 59 +++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index e896e0c..aecd8ef 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    Error,
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -15,16 +17,18 @@ use serde::{
 
 use super::Compression;
 
+// `lz-fear` only compresses whole frames, so collect the data and write the
+// frame on Drop.
 struct Wrapper<W: Write> {
     writer: W,
     settings: CompressionSettings<'static>,
+    buffer: Vec<u8>,
 }
 
 impl<W: Write> Write for Wrapper<W> {
     fn write(&mut self, buffer: &[u8]) -> Result<usize> {
-        let len = buffer.len();
-        self.settings.compress(buffer, &mut self.writer)?;
-        Ok(len)
+        self.buffer.extend_from_slice(buffer);
+        Ok(buffer.len())
     }
 
     fn flush(&mut self) -> Result<()> {
@@ -32,6 +36,25 @@ impl<W: Write> Write for Wrapper<W> {
     }
 }
 
+impl<W: Write> Drop for Wrapper<W> {
+    fn drop(&mut self) {
+        // An error of the underlying writer can not be returned from here.
+        let _ = self.settings.compress(&self.buffer[..], &mut self.writer);
+    }
+}
+
+// Reader for streams whose frame header can not be read.
+struct HeaderError(Option<Error>);
+
+impl Read for HeaderError {
+    fn read(&mut self, _buffer: &mut [u8]) -> Result<usize> {
+        Err(self
+            .0
+            .take()
+            .unwrap_or_else(|| ErrorKind::InvalidData.into()))
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
 #[serde(rename_all = "camelCase")]
 pub struct Lz4Compression {
@@ -39,6 +62,19 @@ pub struct Lz4Compression {
     block_size: i32,
 }
 
+impl Lz4Compression {
+    /// LZ4 frames support few block sizes, so choose the smallest larger size
+    /// from those.
+    fn get_effective_block_size(&self) -> usize {
+        const SIZES: [usize; 3] = [64 << 10, 256 << 10, 1 << 20];
+        SIZES
+            .iter()
+            .cloned()
+            .find(|&size| self.block_size <= size as i32)
+            .unwrap_or(4 << 20)
+    }
+}
+
 fn default_lz4_block_size() -> i32 {
     65_536
 }
@@ -53,19 +89,22 @@ impl Default for Lz4Compression {
 
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(
-            LZ4FrameReader::new(r)
-                .expect("TODO: LZ4 returns a result here")
-                .into_read(),
-        )
+        match LZ4FrameReader::new(r) {
+            Ok(reader) => Box::new(reader.into_read()),
+            Err(e) => Box::new(HeaderError(Some(e.into()))),
+        }
     }
 
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
         let mut settings = CompressionSettings::default();
         settings
-            .block_size(self.block_size as usize)
+            .block_size(self.get_effective_block_size())
             .independent_blocks(true);
-        Box::new(Wrapper { writer, settings })
+        Box::new(Wrapper {
+            writer,
+            settings,
+            buffer: vec![],
+        })
     }
 }
 
-- 
2.43.0


From 0d1669f549201a0b6e069caad1af3a5ae57c1fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 14/38] fix: parse the LZ4 codec name with the pure Rust codec

---
 src/compression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression/mod.rs b/src/compression/mod.rs
index a30945c..9d505ed 100644
--- a/src/compression/mod.rs
+++ b/src/compression/mod.rs
@@ -147,7 +147,7 @@ impl std::str::FromStr for CompressionType {
             #[cfg(feature = "xz")]
             "xz" => Ok(Self::new::<xz::XzCompression>()),
 
-            #[cfg(feature = "lz")]
+            #[cfg(any(feature = "lz", feature = "lz_pure"))]
             "lz4" => Ok(Self::new::<lz::Lz4Compression>()),
 
             _ => Err(std::io::ErrorKind::InvalidInput.into()),
-- 
2.43.0


From 84affc69133a2e353f1c3fb98950acd42aa5d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 15/38] fix: use default bzip2 and xz settings for configured
 values out of range

---
 src/compression/bzip.rs | 12 +++++++++++-
 src/compression/xz.rs   | 13 +++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/compression/bzip.rs b/src/compression/bzip.rs
index f2741d4..b32f1d3 100644
--- a/src/compression/bzip.rs
+++ b/src/compression/bzip.rs
@@ -20,6 +20,16 @@ pub struct Bzip2Compression {
     block_size: u8,
 }
 
+impl Bzip2Compression {
+    /// Use the default block size if the configured size is not in [1, 9].
+    fn get_effective_block_size(&self) -> u32 {
+        match self.block_size {
+            1..=9 => u32::from(self.block_size),
+            _ => u32::from(default_bzip_block_size()),
+        }
+    }
+}
+
 fn default_bzip_block_size() -> u8 {
     9
 }
@@ -40,7 +50,7 @@ impl Compression for Bzip2Compression {
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
         Box::new(BzEncoder::new(
             w,
-            BzCompression::new(u32::from(self.block_size)),
+            BzCompression::new(self.get_effective_block_size()),
         ))
     }
 }
diff --git a/src/compression/xz.rs b/src/compression/xz.rs
index d2e13b5..7e6ba99 100644
--- a/src/compression/xz.rs
+++ b/src/compression/xz.rs
@@ -19,6 +19,16 @@ pub struct XzCompression {
     preset: i32,
 }
 
+impl XzCompression {
+    /// Use the default preset if the configured preset is not in [0, 9].
+    fn get_effective_preset(&self) -> u32 {
+        match self.preset {
+            0..=9 => self.preset as u32,
+            _ => default_xz_preset() as u32,
+        }
+    }
+}
+
 fn default_xz_preset() -> i32 {
     6
 }
@@ -37,8 +47,7 @@ impl Compression for XzCompression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        // TODO: check that preset is non-negative.s
-        Box::new(XzEncoder::new(w, self.preset as u32))
+        Box::new(XzEncoder::new(w, self.get_effective_preset()))
     }
 }
 
-- 
2.43.0


From e0e18ba8d485445d55ea9c8b849323be02842611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 16/38] fix: list keys and nodes by full names, for any prefix
 and metadata suffix

---
 src/storage.rs          | 58 +++++++++++++++++------------------------
 src/store/filesystem.rs | 15 +++++++++--
 2 files changed, 37 insertions(+), 36 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 865f894..d1a2776 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -317,51 +317,41 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
 
 impl<S: ListableStore + Hierarchy> HierarchyLister for S {
     fn list_nodes(&self, prefix_path: &str) -> Result<Vec<String>, Error> {
-        // TODO: Inelegant.
-
-        let key_prefix = format!(
+        let mut key_prefix = format!(
             "{}/{}",
             crate::META_ROOT_PATH,
             crate::canonicalize_path(prefix_path)
         );
-        let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
-
-        // Find array and group metadata keys.
-        keys.retain(|k| k.ends_with(&self.get_entry_point_metadata().metadata_key_suffix));
-        keys.iter_mut().for_each(|k| {
-            k.truncate(k.len() - self.get_entry_point_metadata().metadata_key_suffix.len())
-        });
-        keys.retain(|k| {
-            k.ends_with(&crate::ARRAY_METADATA_KEY_EXT)
-                || k.ends_with(&crate::GROUP_METADATA_KEY_EXT)
+        if !key_prefix.ends_with('/') {
+            key_prefix.push('/');
+        }
+        let (keys, prefixes) = self.list_dir(&key_prefix)?;
+
+        let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
+        let suffix = suffix.strip_prefix('.').unwrap_or(suffix);
+        let array_suffix = format!(".{}.{}", crate::ARRAY_METADATA_KEY_EXT, suffix);
+        let group_suffix = format!(".{}.{}", crate::GROUP_METADATA_KEY_EXT, suffix);
+
+        // Find array and group metadata keys and remove their extensions to
+        // partially convert to node paths.
+        let nodes = keys.iter().filter_map(|k| {
+            k.strip_suffix(array_suffix.as_str())
+                .or_else(|| k.strip_suffix(group_suffix.as_str()))
         });
-        assert_eq!(
-            crate::ARRAY_METADATA_KEY_EXT.len(),
-            crate::GROUP_METADATA_KEY_EXT.len()
-        );
-
-        // Remove metadata extensions from keys to partially convert to node paths.
-        let suffix_len = self.get_entry_point_metadata().metadata_key_suffix.len()
-            + crate::ARRAY_METADATA_KEY_EXT.len()
-            + 1;
-        keys.iter_mut()
-            .for_each(|k| k.truncate(k.len() - suffix_len));
-
         // Add potential implicit groups.
-        prefixes
-            .iter_mut()
-            .for_each(|p| p.truncate(p.trim_end_matches('/').len()));
-        keys.extend(prefixes.drain(..));
+        let implicit = prefixes.iter().map(|p| p.trim_end_matches('/'));
+
+        // Remove key prefix to convert to node path.
+        let mut keys: Vec<String> = nodes
+            .chain(implicit)
+            .filter_map(|k| k.rsplit('/').next())
+            .map(str::to_owned)
+            .collect();
 
         // Remove duplicates.
         keys.sort();
         keys.dedup();
 
-        // Remove key prefix to convert to node path.
-        keys.iter_mut().for_each(|k| {
-            k.drain(..key_prefix.len());
-        });
-
         Ok(keys)
     }
 }
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index b9d296a..8a38acd 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -230,13 +230,24 @@ impl ListableStore for FilesystemHierarchy {
         let mut keys = vec![];
         let mut prefixes = vec![];
         let target = self.get_path(prefix)?;
+        // Spell keys so that they can be passed to the store.
+        let key_prefix = if prefix.ends_with('/') {
+            prefix.to_owned()
+        } else {
+            format!("{}/", prefix)
+        };
+
+        // There are no keys under a prefix that does not exist.
+        if !target.is_dir() {
+            return Ok((keys, prefixes));
+        }
 
         // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
         let entries = fs::read_dir(target)?.filter_map(|e| {
             e.and_then(|file| {
                 fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
                     (
-                        format!("{}{}", prefix, file.file_name().to_str().unwrap()),
+                        format!("{}{}", key_prefix, file.file_name().to_str().unwrap()),
                         t,
                     )
                 })
@@ -249,7 +260,7 @@ impl ListableStore for FilesystemHierarchy {
                 keys.push(key);
             } else {
                 // t.is_dir() == true, because symlinks were followed.
-                prefixes.push(key);
+                prefixes.push(key + "/");
             }
         }
 
-- 
2.43.0


From 0c15116aee445a9582a45f1f9e4d0e55cdda0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:01 +0000
Subject: [PATCH 17/38] fix: implicit groups exist

---
 src/storage.rs          | 22 ++++++++++++++--------
 src/store/filesystem.rs |  5 +++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index d1a2776..bdcd172 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -4,6 +4,7 @@ use std::io::{
     Read,
     Write,
 };
+use std::path::PathBuf;
 
 use semver::VersionReq;
 use serde_json::Value;
@@ -38,6 +39,13 @@ pub trait ReadableStore {
 
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>, Error>;
 
+    /// Test whether there are keys under a prefix, for stores that are able to.
+    ///
+    /// TODO: not in zarr spec
+    fn exists_prefix(&self, _key_prefix: &str) -> Result<bool, Error> {
+        Ok(false)
+    }
+
     /// TODO: not in zarr spec
     fn uri(&self, key: &str) -> Result<String, Error>;
 }
@@ -135,6 +143,11 @@ pub(crate) fn write_json<W: Write, V: serde::Serialize>(
     writer.flush()
 }
 
+/// Prefix of the metadata keys of all descendants of a node.
+fn meta_path_key(path_name: &str) -> PathBuf {
+    PathBuf::from(crate::META_ROOT_PATH).join(canonicalize_path(path_name))
+}
+
 const ATTRIBUTES_NAME: &str = "attributes";
 
 fn merge_top_level(a: &mut Value, b: JsonObject) {
@@ -188,17 +201,10 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
 
     fn exists(&self, path_name: &str) -> Result<bool, Error> {
         // TODO: needless path allocs
-        // TODO: should follow spec more closely by using `list_dir` for implicit groups.
         Ok(
             self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))?
                 || self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?
-                || self.exists(
-                    self.group_metadata_key(path_name)
-                        .with_extension("")
-                        .with_extension("")
-                        .to_str()
-                        .expect("TODO"),
-                )?,
+                || self.exists_prefix(meta_path_key(path_name).to_str().expect("TODO"))?,
         )
     }
 
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 8a38acd..4e16d6d 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -212,6 +212,11 @@ impl ReadableStore for FilesystemHierarchy {
         }
     }
 
+    fn exists_prefix(&self, key_prefix: &str) -> Result<bool> {
+        let target = self.get_path(key_prefix)?;
+        Ok(target.is_dir())
+    }
+
     fn uri(&self, key: &str) -> Result<String> {
         self.get_path(key).and_then(|p| {
             p.into_os_string()
-- 
2.43.0


From 9d27224be2cc7dd65da3e667d5cb7bfe7ba09583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 18/38] fix: only erase keys under an erased prefix

---
 src/store/filesystem.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 4e16d6d..ac33cb6 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -301,19 +301,21 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase(&self, key: &str) -> Result<bool> {
         let path = self.get_path(key)?;
 
-        if path.exists() {
+        // A directory is not a key.
+        if path.is_file() {
             let file = File::open(&path)?;
             file.lock_exclusive()?;
             fs::remove_file(&path)?;
         }
 
-        Ok(!path.exists())
+        Ok(!path.is_file())
     }
 
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
-        if path.exists() {
+        // A file is a key equal to the prefix, not one under it.
+        if path.is_dir() {
             for entry in WalkDir::new(&path).contents_first(true) {
                 let entry = entry?;
 
@@ -327,7 +329,7 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        Ok(!path.exists())
+        Ok(!path.is_dir())
     }
 }
 
-- 
2.43.0


From 54a080db91f1674e27d8c830ce0f28856379fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 19/38] fix: remove the metadata of all descendants of a
 removed node

---
 src/storage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index bdcd172..da887e3 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -450,10 +450,10 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO: needless allocs
         let metadata_key = self.group_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        let mut metadata_key = self.array_metadata_key(path_name);
+        let metadata_key = self.array_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        metadata_key.set_extension("");
-        metadata_key.set_extension("");
+        // Remove all descendants.
+        self.erase_prefix(meta_path_key(path_name).to_str().expect("TODO"))?;
         self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
         Ok(())
     }
-- 
2.43.0


From 50a92308062c302abb3181e3894e296cedf234d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 20/38] fix: reject malformed data type strings with an error,
 not a panic

---
 src/data_type.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index a4f867c..35903b6 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -180,6 +180,8 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
     where
         E: serde::de::Error,
     {
+        let invalid =
+            || serde::de::Error::invalid_value(serde::de::Unexpected::Str(value), &self);
         let dtype = match value {
             "bool" => DataType::Bool,
             "i1" => DataType::Int {
@@ -192,7 +194,8 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
             },
             dtype if dtype.starts_with('r') => {
                 if let Ok(size) = dtype[1..].parse::<usize>() {
-                    if size % 8 == 0 {
+                    // Parsing accepts a sign.
+                    if size % 8 == 0 && !dtype[1..].starts_with('+') {
                         DataType::Raw { size }
                     } else {
                         // TODO: more specific error?
@@ -210,18 +213,23 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
             }
             dtype if dtype.len() == 3 => {
                 let mut chars = dtype.chars();
-                let endian = Endian::deserial_char(chars.next().unwrap()).expect("TODO");
-                match chars.next().unwrap() {
+                let endian = chars
+                    .next()
+                    .and_then(Endian::deserial_char)
+                    .ok_or_else(invalid)?;
+                let kind = chars.next().ok_or_else(invalid)?;
+                let size_char = chars.next().ok_or_else(invalid)?;
+                match kind {
                     'i' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = IntSize::deserial_char(size_char).ok_or_else(invalid)?;
                         DataType::Int { size, endian }
                     }
                     'u' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = IntSize::deserial_char(size_char).ok_or_else(invalid)?;
                         DataType::UInt { size, endian }
                     }
                     'f' => {
-                        let size = FloatSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = FloatSize::deserial_char(size_char).ok_or_else(invalid)?;
                         DataType::Float { size, endian }
                     }
                     _ => {
-- 
2.43.0


From 4494c91601a45c4e36be42427f49dc1c62ed24ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 21/38] fix: convert float fill values by numeric value

---
 src/data_type.rs | 41 ++++++++++++++++++++++++++++++++++++++---
 src/lib.rs       |  2 +-
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 35903b6..c4111c2 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -480,6 +480,32 @@ pub trait ReflectedType:
             vec![Self::default(); num_el as usize],
         )
     }
+
+    /// Convert the fill value of array metadata to this type.
+    fn from_fill_value(value: &serde_json::Value) -> Result<Self, std::io::Error> {
+        Ok(serde_json::from_value(value.clone())?)
+    }
+}
+
+/// Convert the fill value of array metadata to the value of a float type.
+///
+/// Values that are not finite are strings, because JSON has no numbers for them.
+fn float_from_fill_value<T>(
+    value: &serde_json::Value,
+    from_f64: fn(f64) -> T,
+    is_finite: fn(&T) -> bool,
+) -> Result<T, std::io::Error> {
+    match value.as_str() {
+        Some("NaN") => return Ok(from_f64(std::f64::NAN)),
+        Some("Infinity") => return Ok(from_f64(std::f64::INFINITY)),
+        Some("-Infinity") => return Ok(from_f64(std::f64::NEG_INFINITY)),
+        _ => (),
+    }
+    value
+        .as_f64()
+        .map(from_f64)
+        .filter(is_finite)
+        .ok_or_else(|| MetadataError::UnexpectedType(value.clone()).into())
 }
 
 macro_rules! reflected_type {
@@ -488,6 +514,15 @@ macro_rules! reflected_type {
             const ZARR_TYPE: DataType = $d_name;
         }
     };
+    ($d_name:expr, $d_type:ty, $from_f64:expr) => {
+        impl ReflectedType for $d_type {
+            const ZARR_TYPE: DataType = $d_name;
+
+            fn from_fill_value(value: &serde_json::Value) -> Result<Self, std::io::Error> {
+                float_from_fill_value(value, $from_f64, |v| v.is_finite())
+            }
+        }
+    };
 }
 
 #[rustfmt::skip] reflected_type!(DataType::Bool, bool);
@@ -499,9 +534,9 @@ macro_rules! reflected_type {
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B2, endian: NATIVE_ENDIAN}, i16);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B4, endian: NATIVE_ENDIAN}, i32);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B8, endian: NATIVE_ENDIAN}, i64);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B2, endian: NATIVE_ENDIAN}, f16);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64);
+#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B2, endian: NATIVE_ENDIAN}, f16, f16::from_f64);
+#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32, |v| v as f32);
+#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64, |v| v);
 
 // TODO: As example
 #[rustfmt::skip] reflected_type!(DataType::Raw {size: 8}, [u8; 1]);
diff --git a/src/lib.rs b/src/lib.rs
index a65ed50..3b0decc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -448,7 +448,7 @@ impl ArrayMetadata {
     pub fn get_effective_fill_value<T: ReflectedType>(&self) -> Result<T, Error> {
         Ok(self
             .get_fill_value()
-            .map(|v| serde_json::from_value(v.clone()))
+            .map(T::from_fill_value)
             .transpose()?
             .unwrap_or_else(T::default))
     }
-- 
2.43.0


From e14b935bb27cc6f00991d2d7a5a4d15c167aadc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 22/38] fix: refuse array metadata whose shape and chunk shape
 differ in rank

---
 src/storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index da887e3..72bf1fc 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -189,6 +189,12 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         let value_reader = ReadableStore::get(self, &array_path.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
         let metadata: ArrayMetadata = serde_json::from_reader(value_reader)?;
+        if metadata.chunk_grid.chunk_shape.len() != metadata.shape.len() {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Number of array dimensions must match number of chunk size dimensions.",
+            ));
+        }
         // TODO: erring immediately when encountering unknown extensions, while
         // it may be more appropriate to do so only when doing chunk IO.
         if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {
-- 
2.43.0


From f28e0d26d45b122bbdf8986656287f20e9ae09c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 23/38] fix: refuse array metadata of unknown chunk grid types

---
 src/storage.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 72bf1fc..b857dc3 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -189,6 +189,9 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         let value_reader = ReadableStore::get(self, &array_path.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
         let metadata: ArrayMetadata = serde_json::from_reader(value_reader)?;
+        if metadata.chunk_grid.grid_type != crate::REGULAR_GRID_TYPE {
+            return Err(MetadataError::UnexpectedType(metadata.chunk_grid.grid_type.into()).into());
+        }
         if metadata.chunk_grid.chunk_shape.len() != metadata.shape.len() {
             return Err(Error::new(
                 ErrorKind::InvalidData,
-- 
2.43.0


From ab3dfc9682f0caefe715c48ef9a05be8292699a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 24/38] fix: refuse entry points whose metadata key suffix
 contains path separators

---
 src/store/filesystem.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index ac33cb6..004eff0 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -57,6 +57,15 @@ impl FilesystemHierarchy {
             // way around.
             return Err(MetadataError::UnknownRequiredExtension(ext.clone()).into());
         }
+        if metadata
+            .metadata_key_suffix
+            .contains(std::path::is_separator)
+        {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Metadata key suffix can not contain path separators",
+            ));
+        }
         Ok(metadata)
     }
 
-- 
2.43.0


From d3d7138c352ed0955a84caf588110cb66d8c8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 25/38] fix: do not list attributes of metadata documents that
 are not objects

---
 src/storage.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index b857dc3..ae9b48e 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -317,11 +317,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         // For now return an error.
         let value_reader = ReadableStore::get(self, &metadata_key.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
-        let mut value: serde_json::Value = serde_json::from_reader(value_reader)?;
-        let attrs = match value
-            .as_object_mut()
-            .and_then(|o| o.remove(ATTRIBUTES_NAME))
-        {
+        let mut value: JsonObject = serde_json::from_reader(value_reader)?;
+        let attrs = match value.remove(ATTRIBUTES_NAME) {
             Some(Value::Object(map)) => map,
             Some(v) => return Err(MetadataError::UnexpectedType(v).into()),
             _ => JsonObject::new(),
-- 
2.43.0


From 055967e0f53afb9453d955557ccaa7c07e14897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:35 +0000
Subject: [PATCH 26/38] fix: refuse entry points whose format URI has an empty
 version

---
 src/storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index ae9b48e..0931a2d 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -170,6 +170,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
             .zarr_format
             .rsplit('/')
             .next()
+            // An empty version would be a requirement that any version matches.
+            .filter(|v| !v.trim().is_empty())
             .ok_or_else(|| {
                 Error::new(
                     ErrorKind::InvalidData,
-- 
2.43.0


From ba85f2347836a8f9e33935a7d5960c11fbc36caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:43 +0000
Subject: [PATCH 27/38] fix: name the same keys for paths with repeated slashes

---
 src/lib.rs     | 21 ++++++++++++++-------
 src/storage.rs |  2 +-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b0decc..05330b4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,7 @@ doc_comment::doctest!("../README.md");
 #[macro_use]
 pub extern crate smallvec;
 
+use std::borrow::Cow;
 use std::io::Error;
 use std::path::PathBuf;
 use std::time::SystemTime;
@@ -182,17 +183,23 @@ impl Default for EntryPointMetadata {
 }
 
 /// Canonicalize path for concatenation into keys by stripping leading or trailing
-/// slashes. This does not attempt to remove roots or relative paths as the
-/// store may do.
-fn canonicalize_path(path: &str) -> &str {
-    path.trim_start_matches('/').trim_end_matches('/')
+/// slashes and collapsing repeated slashes. This does not attempt to remove
+/// roots or relative paths as the store may do.
+fn canonicalize_path(path: &str) -> Cow<'_, str> {
+    let path = path.trim_start_matches('/').trim_end_matches('/');
+    if path.contains("//") {
+        let components: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
+        Cow::Owned(components.join("/"))
+    } else {
+        Cow::Borrowed(path)
+    }
 }
 
 pub trait Hierarchy {
     fn get_entry_point_metadata(&self) -> &EntryPointMetadata;
 
     fn array_metadata_key(&self, path_name: &str) -> PathBuf {
-        let mut key = PathBuf::from(META_ROOT_PATH).join(canonicalize_path(path_name));
+        let mut key = PathBuf::from(META_ROOT_PATH).join(&*canonicalize_path(path_name));
         let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
         let suffix = suffix.strip_prefix('.').unwrap_or(suffix);
         add_extension(&mut key, ARRAY_METADATA_KEY_EXT);
@@ -201,7 +208,7 @@ pub trait Hierarchy {
     }
 
     fn group_metadata_key(&self, path_name: &str) -> PathBuf {
-        let mut key = PathBuf::from(META_ROOT_PATH).join(canonicalize_path(path_name));
+        let mut key = PathBuf::from(META_ROOT_PATH).join(&*canonicalize_path(path_name));
         let suffix = &self.get_entry_point_metadata().metadata_key_suffix;
         let suffix = suffix.strip_prefix('.').unwrap_or(suffix);
         add_extension(&mut key, GROUP_METADATA_KEY_EXT);
@@ -210,7 +217,7 @@ pub trait Hierarchy {
     }
 
     fn data_path_key(&self, path_name: &str) -> PathBuf {
-        PathBuf::from(DATA_ROOT_PATH).join(canonicalize_path(path_name))
+        PathBuf::from(DATA_ROOT_PATH).join(&*canonicalize_path(path_name))
     }
 }
 
diff --git a/src/storage.rs b/src/storage.rs
index 0931a2d..861b231 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -145,7 +145,7 @@ pub(crate) fn write_json<W: Write, V: serde::Serialize>(
 
 /// Prefix of the metadata keys of all descendants of a node.
 fn meta_path_key(path_name: &str) -> PathBuf {
-    PathBuf::from(crate::META_ROOT_PATH).join(canonicalize_path(path_name))
+    PathBuf::from(crate::META_ROOT_PATH).join(&*canonicalize_path(path_name))
 }
 
 const ATTRIBUTES_NAME: &str = "attributes";
-- 
2.43.0


From f122c08b233c212f678ec08b6b41edf74741b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:48 +0000
Subject: [PATCH 28/38] fix: pass prefixes with a trailing slash to the store

---
 src/storage.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 861b231..c258448 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -148,6 +148,16 @@ fn meta_path_key(path_name: &str) -> PathBuf {
     PathBuf::from(crate::META_ROOT_PATH).join(&*canonicalize_path(path_name))
 }
 
+/// Spell a path key as a prefix, which has a trailing slash, so that it does not
+/// include keys that only extend the name of its last component.
+fn to_key_prefix(path_key: PathBuf) -> String {
+    let mut prefix = path_key.to_str().expect("TODO").to_owned();
+    if !prefix.ends_with('/') {
+        prefix.push('/');
+    }
+    prefix
+}
+
 const ATTRIBUTES_NAME: &str = "attributes";
 
 fn merge_top_level(a: &mut Value, b: JsonObject) {
@@ -215,7 +225,7 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         Ok(
             self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))?
                 || self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?
-                || self.exists_prefix(meta_path_key(path_name).to_str().expect("TODO"))?,
+                || self.exists_prefix(&to_key_prefix(meta_path_key(path_name)))?,
         )
     }
 
@@ -461,8 +471,8 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         let metadata_key = self.array_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
         // Remove all descendants.
-        self.erase_prefix(meta_path_key(path_name).to_str().expect("TODO"))?;
-        self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
+        self.erase_prefix(&to_key_prefix(meta_path_key(path_name)))?;
+        self.erase_prefix(&to_key_prefix(self.data_path_key(path_name)))?;
         Ok(())
     }
 
-- 
2.43.0


From 95b4ee4c4d06299cbcfc50ca1ecb3f95458e1661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:37 +0000
Subject: [PATCH 29/38] fix: skip names that are not unicode and special files
 when listing

---
 src/store/filesystem.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 004eff0..23df937 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -259,12 +259,13 @@ impl ListableStore for FilesystemHierarchy {
         // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
         let entries = fs::read_dir(target)?.filter_map(|e| {
             e.and_then(|file| {
-                fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
-                    (
-                        format!("{}{}", key_prefix, file.file_name().to_str().unwrap()),
-                        t,
-                    )
-                })
+                // A name that is not unicode is not that of a key.
+                let name = file
+                    .file_name()
+                    .into_string()
+                    .map_err(|_| Error::new(ErrorKind::InvalidData, "Name is not unicode"))?;
+                fs::metadata(file.path())
+                    .map(|f| (format!("{}{}", key_prefix, name), f.file_type()))
             })
             .ok()
         });
@@ -272,8 +273,8 @@ impl ListableStore for FilesystemHierarchy {
         for (key, t) in entries {
             if t.is_file() {
                 keys.push(key);
-            } else {
-                // t.is_dir() == true, because symlinks were followed.
+            } else if t.is_dir() {
+                // Symlinks were followed, what remains are special files.
                 prefixes.push(key + "/");
             }
         }
-- 
2.43.0


From dd34dc32a24f07e9a9f847dc3cf8de0351fd0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:37 +0000
Subject: [PATCH 30/38] fix: remove symbolic links and special files without
 opening them

---
 src/store/filesystem.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 23df937..e179577 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -331,10 +331,13 @@ impl WriteableStore for FilesystemHierarchy {
 
                 if entry.file_type().is_dir() {
                     fs::remove_dir(entry.path())?;
-                } else {
+                } else if entry.file_type().is_file() {
                     let file = File::open(entry.path())?;
                     file.lock_exclusive()?;
                     fs::remove_file(entry.path())?;
+                } else {
+                    // What a symlink leads to is not removed, and may not exist.
+                    fs::remove_file(entry.path())?;
                 }
             }
         }
-- 
2.43.0


From 741e0e2cdd4ca7071ec49d5ddc01756ef4330845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:08 +0000
Subject: [PATCH 31/38] fix: tolerate keys and directories that others remove
 at the same time

---
 src/store/filesystem.rs | 44 ++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index e179577..1a2754f 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -202,6 +202,16 @@ impl FilesystemHierarchy {
     }
 }
 
+/// The result of an operation, or none if what it operates on has been removed,
+/// e.g. by another user of the hierarchy.
+fn unless_missing<T>(result: Result<T>) -> Result<Option<T>> {
+    match result {
+        Ok(value) => Ok(Some(value)),
+        Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
 impl ReadableStore for FilesystemHierarchy {
     type GetReader = BufReader<File>;
 
@@ -213,7 +223,10 @@ impl ReadableStore for FilesystemHierarchy {
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
         let target = self.get_path(key)?;
         if target.is_file() {
-            let file = File::open(target)?;
+            let file = match unless_missing(File::open(target))? {
+                Some(file) => file,
+                None => return Ok(None),
+            };
             file.lock_shared()?;
             Ok(Some(BufReader::new(file)))
         } else {
@@ -257,7 +270,11 @@ impl ListableStore for FilesystemHierarchy {
         }
 
         // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
-        let entries = fs::read_dir(target)?.filter_map(|e| {
+        let dir = match unless_missing(fs::read_dir(target))? {
+            Some(dir) => dir,
+            None => return Ok((keys, prefixes)),
+        };
+        let entries = dir.filter_map(|e| {
             e.and_then(|file| {
                 // A name that is not unicode is not that of a key.
                 let name = file
@@ -313,9 +330,10 @@ impl WriteableStore for FilesystemHierarchy {
 
         // A directory is not a key.
         if path.is_file() {
-            let file = File::open(&path)?;
-            file.lock_exclusive()?;
-            fs::remove_file(&path)?;
+            if let Some(file) = unless_missing(File::open(&path))? {
+                file.lock_exclusive()?;
+                unless_missing(fs::remove_file(&path))?;
+            }
         }
 
         Ok(!path.is_file())
@@ -327,17 +345,21 @@ impl WriteableStore for FilesystemHierarchy {
         // A file is a key equal to the prefix, not one under it.
         if path.is_dir() {
             for entry in WalkDir::new(&path).contents_first(true) {
-                let entry = entry?;
+                let entry = match unless_missing(entry.map_err(Error::from))? {
+                    Some(entry) => entry,
+                    None => continue,
+                };
 
                 if entry.file_type().is_dir() {
-                    fs::remove_dir(entry.path())?;
+                    unless_missing(fs::remove_dir(entry.path()))?;
                 } else if entry.file_type().is_file() {
-                    let file = File::open(entry.path())?;
-                    file.lock_exclusive()?;
-                    fs::remove_file(entry.path())?;
+                    if let Some(file) = unless_missing(File::open(entry.path()))? {
+                        file.lock_exclusive()?;
+                        unless_missing(fs::remove_file(entry.path()))?;
+                    }
                 } else {
                     // What a symlink leads to is not removed, and may not exist.
-                    fs::remove_file(entry.path())?;
+                    unless_missing(fs::remove_file(entry.path()))?;
                 }
             }
         }
-- 
2.43.0


From a53aa4d75b996f51ad46a5b7b70ba3dedb762d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:24 +0000
Subject: [PATCH 32/38] fix: refuse chunks of more elements than chunks can
 count

The number of elements was truncated to 32 bits (and the product of the
chunk's lengths could overflow), so that chunks were read with the wrong
number of elements.
---
 src/chunk.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 68bf989..22f68f7 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -265,6 +265,15 @@ fn check_array_type<T: ReflectedType>(array_meta: &ArrayMetadata) -> Result<()>
     }
 }
 
+/// Get the number of elements of a chunk, which is limited to 32 bits.
+fn checked_chunk_num_elements(array_meta: &ArrayMetadata) -> Result<u32> {
+    array_meta
+        .get_chunk_shape()
+        .iter()
+        .try_fold(1u32, |n, &d| n.checked_mul(d))
+        .ok_or_else(|| Error::new(ErrorKind::InvalidData, "Chunk has too many elements"))
+}
+
 /// Check that a chunk can be written to an array.
 pub(crate) fn check_writeable<T: ReflectedType, B: DataChunk<T>>(
     array_meta: &ArrayMetadata,
@@ -272,13 +281,15 @@ pub(crate) fn check_writeable<T: ReflectedType, B: DataChunk<T>>(
 ) -> Result<()> {
     check_array_type::<T>(array_meta)?;
 
-    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+    let num_el = checked_chunk_num_elements(array_meta)?;
+    // Not the number of elements in 32 bits.
+    if chunk.get_data().len() != num_el as usize {
         return Err(Error::new(
             ErrorKind::InvalidData,
             format!(
                 "Can not write chunk with too few elements. Expected {} given {}",
-                array_meta.get_chunk_num_elements(),
-                chunk.get_num_elements()
+                num_el,
+                chunk.get_data().len()
             ),
         ));
     }
@@ -298,8 +309,8 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     {
         check_array_type::<T>(array_meta)?;
 
-        let mut chunk =
-            T::create_data_chunk(&grid_position, array_meta.get_chunk_num_elements() as u32);
+        let num_el = checked_chunk_num_elements(array_meta)?;
+        let mut chunk = T::create_data_chunk(&grid_position, num_el);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
 
@@ -314,7 +325,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     ) -> Result<()> {
         check_array_type::<T>(array_meta)?;
 
-        chunk.reinitialize(&grid_position, array_meta.get_chunk_num_elements() as u32);
+        chunk.reinitialize(&grid_position, checked_chunk_num_elements(array_meta)?);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
 
-- 
2.43.0


From 54e6eae57e1ca38843ef5c8c36a327f71e28b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:10 +0000
Subject: [PATCH 33/38] fix: refuse array metadata with a chunk length of zero

Such metadata has no chunk grid, and made in_bounds, read_chunk and region
access panic with a division by zero.
---
 src/storage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index c258448..b675905 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -210,6 +210,12 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
                 "Number of array dimensions must match number of chunk size dimensions.",
             ));
         }
+        if metadata.chunk_grid.chunk_shape.contains(&0) {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Chunk size dimensions can not be zero.",
+            ));
+        }
         // TODO: erring immediately when encountering unknown extensions, while
         // it may be more appropriate to do so only when doing chunk IO.
         if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {
-- 
2.43.0


From ce0b3e489ab0937d34f8cd938ce751be3e8c3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:57 +0000
Subject: [PATCH 34/38] fix: do not mistake errors of the filesystem for
 absence

---
 src/store/filesystem.rs | 100 +++++++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 33 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 1a2754f..a3eef4f 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -11,7 +11,10 @@ use std::io::{
     ErrorKind,
     Result,
 };
-use std::path::PathBuf;
+use std::path::{
+    Path,
+    PathBuf,
+};
 
 use fs2::FileExt;
 use serde_json::{
@@ -95,8 +98,9 @@ impl FilesystemHierarchy {
         let base_path = PathBuf::from(base_path.as_ref());
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
 
-        let entry_point_metadata = if entry_point_path.exists() {
-            Self::read_entry_point_metadata(&base_path)?
+        let existing = unless_missing(Self::read_entry_point_metadata(&base_path))?;
+        let entry_point_metadata = if let Some(metadata) = existing {
+            metadata
         } else {
             fs::create_dir_all(&base_path)?;
             let metadata = EntryPointMetadata::default();
@@ -129,7 +133,7 @@ impl FilesystemHierarchy {
     pub fn get_attributes(&self, key: &str) -> Result<Value> {
         // TODO: no longer used, but should be adapted for getting array/group user attributes
         let path = self.get_path(key)?;
-        if path.exists() && path.is_file() {
+        if is_file(&path)? {
             let file = File::open(path)?;
             file.lock_shared()?;
             let reader = BufReader::new(file);
@@ -140,7 +144,7 @@ impl FilesystemHierarchy {
             path.set_extension("");
             path.set_extension("");
             // Check for implicit group.
-            if path.exists() && path.is_file() {
+            if is_file(&path)? {
                 Ok(json!({}))
             } else {
                 Err(Error::new(ErrorKind::NotFound, "Path does not exist"))
@@ -153,10 +157,7 @@ impl FilesystemHierarchy {
         // Note: cannot use `canonicalize` on both the constructed array path
         // and `base_path` and check `starts_with`, because `canonicalize` also
         // requires the path exist.
-        use std::path::{
-            Component,
-            Path,
-        };
+        use std::path::Component;
 
         // Normalize the path to be relative.
         let mut components = Path::new(key).components();
@@ -212,17 +213,41 @@ fn unless_missing<T>(result: Result<T>) -> Result<Option<T>> {
     }
 }
 
+/// Get the type of what is at a path, following symlinks, or none if there is
+/// nothing. Unlike `Path::is_file` and `Path::is_dir`, this does not equivocate
+/// errors with there being nothing.
+fn file_type_at(path: &Path) -> Result<Option<fs::FileType>> {
+    match fs::metadata(path) {
+        Ok(metadata) => Ok(Some(metadata.file_type())),
+        Err(e) => match e.kind() {
+            ErrorKind::NotFound
+            | ErrorKind::NotADirectory
+            | ErrorKind::InvalidFilename
+            | ErrorKind::InvalidInput => Ok(None),
+            _ => Err(e),
+        },
+    }
+}
+
+fn is_file(path: &Path) -> Result<bool> {
+    Ok(file_type_at(path)?.map_or(false, |t| t.is_file()))
+}
+
+fn is_dir(path: &Path) -> Result<bool> {
+    Ok(file_type_at(path)?.map_or(false, |t| t.is_dir()))
+}
+
 impl ReadableStore for FilesystemHierarchy {
     type GetReader = BufReader<File>;
 
     fn exists(&self, key: &str) -> Result<bool> {
         let target = self.get_path(key)?;
-        Ok(target.is_file())
+        is_file(&target)
     }
 
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
         let target = self.get_path(key)?;
-        if target.is_file() {
+        if is_file(&target)? {
             let file = match unless_missing(File::open(target))? {
                 Some(file) => file,
                 None => return Ok(None),
@@ -236,7 +261,7 @@ impl ReadableStore for FilesystemHierarchy {
 
     fn exists_prefix(&self, key_prefix: &str) -> Result<bool> {
         let target = self.get_path(key_prefix)?;
-        Ok(target.is_dir())
+        is_dir(&target)
     }
 
     fn uri(&self, key: &str) -> Result<String> {
@@ -265,32 +290,41 @@ impl ListableStore for FilesystemHierarchy {
         };
 
         // There are no keys under a prefix that does not exist.
-        if !target.is_dir() {
+        if !is_dir(&target)? {
             return Ok((keys, prefixes));
         }
 
-        // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
         let dir = match unless_missing(fs::read_dir(target))? {
             Some(dir) => dir,
             None => return Ok((keys, prefixes)),
         };
-        let entries = dir.filter_map(|e| {
-            e.and_then(|file| {
+
+        for entry in dir {
+            let entry = match unless_missing(entry)? {
+                Some(entry) => entry,
+                None => continue,
+            };
+            let name = match entry.file_name().into_string() {
+                Ok(name) => name,
                 // A name that is not unicode is not that of a key.
-                let name = file
-                    .file_name()
-                    .into_string()
-                    .map_err(|_| Error::new(ErrorKind::InvalidData, "Name is not unicode"))?;
-                fs::metadata(file.path())
-                    .map(|f| (format!("{}{}", key_prefix, name), f.file_type()))
-            })
-            .ok()
-        });
-
-        for (key, t) in entries {
-            if t.is_file() {
+                Err(_) => continue,
+            };
+            let mut file_type = match unless_missing(entry.file_type())? {
+                Some(file_type) => file_type,
+                None => continue,
+            };
+            if file_type.is_symlink() {
+                file_type = match fs::metadata(entry.path()) {
+                    Ok(metadata) => metadata.file_type(),
+                    // A symlink may lead nowhere.
+                    Err(_) => continue,
+                };
+            }
+
+            let key = format!("{}{}", key_prefix, name);
+            if file_type.is_file() {
                 keys.push(key);
-            } else if t.is_dir() {
+            } else if file_type.is_dir() {
                 // Symlinks were followed, what remains are special files.
                 prefixes.push(key + "/");
             }
@@ -329,21 +363,21 @@ impl WriteableStore for FilesystemHierarchy {
         let path = self.get_path(key)?;
 
         // A directory is not a key.
-        if path.is_file() {
+        if is_file(&path)? {
             if let Some(file) = unless_missing(File::open(&path))? {
                 file.lock_exclusive()?;
                 unless_missing(fs::remove_file(&path))?;
             }
         }
 
-        Ok(!path.is_file())
+        Ok(!is_file(&path)?)
     }
 
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
         // A file is a key equal to the prefix, not one under it.
-        if path.is_dir() {
+        if is_dir(&path)? {
             for entry in WalkDir::new(&path).contents_first(true) {
                 let entry = match unless_missing(entry.map_err(Error::from))? {
                     Some(entry) => entry,
@@ -364,7 +398,7 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        Ok(!path.is_dir())
+        Ok(!is_dir(&path)?)
     }
 }
 
-- 
2.43.0


From eee9beb6ea29e964df40f44284549fa262c11507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:02 +0000
Subject: [PATCH 35/38] fix: report errors of reading array metadata when
 testing whether an array exists

---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 05330b4..1377255 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -234,7 +234,23 @@ pub trait HierarchyReader: Hierarchy {
 
     /// Test whether an array exists.
     fn array_exists(&self, path_name: &str) -> Result<bool, Error> {
-        Ok(self.exists(path_name)? && self.get_array_metadata(path_name).is_ok())
+        use std::io::ErrorKind;
+
+        if !self.exists(path_name)? {
+            return Ok(false);
+        }
+        match self.get_array_metadata(path_name) {
+            Ok(_) => Ok(true),
+            Err(e) => match e.kind() {
+                // There is no array metadata, or none that is supported.
+                ErrorKind::NotFound
+                | ErrorKind::InvalidData
+                | ErrorKind::UnexpectedEof
+                | ErrorKind::Other => Ok(false),
+                // It could not be read.
+                _ => Err(e),
+            },
+        }
     }
 
     /// Get a URI string for a data chunk.
-- 
2.43.0


From 0a0364d64fc9f5e6ee3ad4e47cf4c4796aea8715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:10 +0000
Subject: [PATCH 36/38] fix: repeat interrupted writes of the end of encoded
 chunks

---
 src/chunk.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 22f68f7..0cd1837 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -346,14 +346,11 @@ impl<W: Write> ErrorSink<W> {
     }
 
     fn keep<V>(&mut self, result: Result<V>) -> Result<V> {
-        match result {
-            Err(e) if e.kind() != ErrorKind::Interrupted => {
-                let kind = e.kind();
-                self.error = Some(e);
-                Err(kind.into())
-            }
-            r => r,
-        }
+        result.map_err(|e| {
+            let kind = e.kind();
+            self.error = Some(e);
+            kind.into()
+        })
     }
 
     /// Flush the inner writer if nothing has failed so far.
@@ -370,10 +367,14 @@ impl<W: Write> Write for ErrorSink<W> {
         if let Some(ref e) = self.error {
             return Err(e.kind().into());
         }
-        let result = match self.inner.write(buffer) {
-            // Not all encoders stop when no more bytes are accepted.
-            Ok(0) if !buffer.is_empty() => Err(ErrorKind::WriteZero.into()),
-            r => r,
+        let result = loop {
+            match self.inner.write(buffer) {
+                // Not all encoders repeat interrupted writes when dropped.
+                Err(e) if e.kind() == ErrorKind::Interrupted => (),
+                // Not all encoders stop when no more bytes are accepted.
+                Ok(0) if !buffer.is_empty() => break Err(ErrorKind::WriteZero.into()),
+                r => break r,
+            }
         };
         self.keep(result)
     }
-- 
2.43.0


From c6e985931f3839d17649a9bd6adcc6db2a0ed5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:55 +0000
Subject: [PATCH 37/38] fix: let many create a hierarchy at the same time

---
 src/store/filesystem.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index a3eef4f..62968db 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -9,6 +9,7 @@ use std::io::{
     BufWriter,
     Error,
     ErrorKind,
+    Read,
     Result,
 };
 use std::path::{
@@ -53,7 +54,12 @@ impl Hierarchy for FilesystemHierarchy {
 impl FilesystemHierarchy {
     fn read_entry_point_metadata(base_path: &PathBuf) -> Result<EntryPointMetadata> {
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
-        let reader = BufReader::new(File::open(entry_point_path)?);
+        let file = File::open(entry_point_path)?;
+        file.lock_shared()?;
+        Self::parse_entry_point_metadata(BufReader::new(file))
+    }
+
+    fn parse_entry_point_metadata<R: Read>(reader: R) -> Result<EntryPointMetadata> {
         let metadata: EntryPointMetadata = serde_json::from_reader(reader)?;
         if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {
             // TODO: returning an io::Error wrapped custom error, rather than other
@@ -98,12 +104,10 @@ impl FilesystemHierarchy {
         let base_path = PathBuf::from(base_path.as_ref());
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
 
-        let existing = unless_missing(Self::read_entry_point_metadata(&base_path))?;
-        let entry_point_metadata = if let Some(metadata) = existing {
-            metadata
+        let entry_point_metadata = if is_nonempty(&entry_point_path)? {
+            Self::read_entry_point_metadata(&base_path)?
         } else {
             fs::create_dir_all(&base_path)?;
-            let metadata = EntryPointMetadata::default();
             let file = fs::OpenOptions::new()
                 .read(true)
                 .write(true)
@@ -111,9 +115,15 @@ impl FilesystemHierarchy {
                 .open(entry_point_path)?;
             file.lock_exclusive()?;
 
-            let writer = BufWriter::new(file);
-            write_json(writer, &metadata)?;
-            metadata
+            // Others may have created the hierarchy in the meantime.
+            if file.metadata()?.len() > 0 {
+                Self::parse_entry_point_metadata(BufReader::new(file))?
+            } else {
+                let metadata = EntryPointMetadata::default();
+                let writer = BufWriter::new(file);
+                write_json(writer, &metadata)?;
+                metadata
+            }
         };
 
         let reader = FilesystemHierarchy {
@@ -229,6 +239,15 @@ fn file_type_at(path: &Path) -> Result<Option<fs::FileType>> {
     }
 }
 
+/// Whether something with content exists at a path. What is created at the same
+/// time by another user of the hierarchy may not have content yet.
+fn is_nonempty(path: &Path) -> Result<bool> {
+    match unless_missing(fs::metadata(path))? {
+        Some(metadata) => Ok(metadata.len() > 0),
+        None => Ok(false),
+    }
+}
+
 fn is_file(path: &Path) -> Result<bool> {
     Ok(file_type_at(path)?.map_or(false, |t| t.is_file()))
 }
-- 
2.43.0


From db6e7cb8d31e43f51b8411f3953d5ae89f1eaa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:39 +0000
Subject: [PATCH 38/38] fix: refuse metadata that can not be read back

---
 src/storage.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index b675905..ab3edbf 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -143,6 +143,14 @@ pub(crate) fn write_json<W: Write, V: serde::Serialize>(
     writer.flush()
 }
 
+/// Check that a value can be read back from its JSON document, which among others
+/// is limited in depth.
+fn check_json<V: serde::Serialize + serde::de::DeserializeOwned>(value: &V) -> Result<(), Error> {
+    let document = serde_json::to_vec(value)?;
+    serde_json::from_slice::<V>(&document)?;
+    Ok(())
+}
+
 /// Prefix of the metadata keys of all descendants of a node.
 fn meta_path_key(path_name: &str) -> PathBuf {
     PathBuf::from(crate::META_ROOT_PATH).join(&*canonicalize_path(path_name))
@@ -419,6 +427,8 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             }
         }
         if merged != existing {
+            // Refuse attributes before the store discards the previous document.
+            check_json(&merged)?;
             self.set(metadata_key.to_str().expect("TODO"), |writer| {
                 write_json(writer, &merged)
             })?;
@@ -464,6 +474,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
                 "Node already exists at array path",
             ))
         } else {
+            check_json(array_meta)?;
             self.set(metadata_key.to_str().expect("TODO"), |writer| {
                 write_json(writer, array_meta)
             })
-- 
2.43.0

