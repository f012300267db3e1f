From 3f998331ff668f7e18c7ca1f75c1bdb1a50423ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 01/37] hook: build against a controlled standard library under
 --cfg osm_io_mc

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3291da1..3832d19 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -101,8 +101,14 @@
 //!   not all features.
 //! * [osmpbf](https://crates.io/crates/osmpbf) - very efficient *.osm.pbf reader written in Rust
 //!
+#![allow(unexpected_cfgs)]
 extern crate core;
 
+// Model checking (RUSTFLAGS="--cfg osm_io_mc"): the standard library is taken from a build of
+// command_executor that puts threads, locks and atomics under a controlled scheduler.
+#[cfg(osm_io_mc)]
+extern crate command_executor as std;
+
 #[allow(clippy::enum_variant_names)]
 pub(crate) mod osmpbf {
     include!(concat!(env!("OUT_DIR"), "/osmpbf.rs"));
-- 
2.43.0


From 7ad2a0d4451d37401329616db8608d4b3d477ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 02/37] fix: Sentinel compares greater than every other
 element, as they compare less than it

---
 src/osm/model/element.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm/model/element.rs b/src/osm/model/element.rs
index 2d227a9..80a6ca0 100644
--- a/src/osm/model/element.rs
+++ b/src/osm/model/element.rs
@@ -300,13 +300,13 @@ impl Ord for Element {
             Element::Sentinel => {
                 match other {
                     Element::Node { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Way { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Relation { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Sentinel => {
                         Ordering::Equal
-- 
2.43.0


From d8a167493899833515e9f93c117d346bb587fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 03/37] fix: relations may follow nodes directly in the
 sequential writer

---
 src/osm/pbf/element_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/element_accumulator.rs b/src/osm/pbf/element_accumulator.rs
index 70eaa6b..33bc49e 100644
--- a/src/osm/pbf/element_accumulator.rs
+++ b/src/osm/pbf/element_accumulator.rs
@@ -43,7 +43,10 @@ impl ElementAccumulator {
                         self.add(element);
                     }
                     Element::Relation { .. } => {
-                        panic!("expected Element::Node or Element::Way but got Element::Relation");
+                        self.state = State::Relations;
+                        result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                        self.index += 1;
+                        self.add(element);
                     }
                     Element::Sentinel => {}
                 }
-- 
2.43.0


From cbf533af45f900fde60b5f115a961741608bae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 04/37] fix: Writer::write_elements keeps order and block
 limits, and no empty blocks are written

Lists went straight to the file: past the elements accumulated by
write_element, in one block of any size and any mix of kinds, of which
only one kind was written.
---
 src/osm/pbf/writer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index 9feb2b0..5542736 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -166,7 +166,7 @@ impl Writer {
         match elements {
             None => {}
             Some(elements) => {
-                self.write_elements(elements)?;
+                self.write_block(elements)?;
             }
         }
         Ok(())
@@ -176,6 +176,16 @@ impl Writer {
     /// Elements must be ordered, that is each element must be less then or equal to the following
     /// element
     pub fn write_elements(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
+        for element in elements {
+            self.write_element(element)?;
+        }
+        Ok(())
+    }
+
+    fn write_block(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
+        if elements.is_empty() {
+            return Ok(());
+        }
         let index = self.element_accumulator.index();
         let data = FileBlock::Data {
             metadata: FileBlockMetadata::new(
@@ -194,7 +204,7 @@ impl Writer {
     pub fn close(&mut self) -> Result<(), anyhow::Error> {
         let elements = self.element_accumulator.elements();
         if !elements.is_empty() {
-            self.write_elements(elements)?;
+            self.write_block(elements)?;
         }
         Ok(())
     }
-- 
2.43.0


From b2a4b3db328ed9751ba4444de59cdd03662dbc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 05/37] fix: a block with several kinds of elements keeps all
 of them when written

---
 src/osm/pbf/osm_data.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index fd3deba..dd6da8a 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -356,20 +356,22 @@ impl OsmData {
                 Element::Sentinel => {}
             }
         }
-        let mut primitivegroup = PrimitiveGroup::default();
+        let mut primitivegroup = Vec::<PrimitiveGroup>::new();
         if dense_group_builder.is_some() {
-            primitivegroup = dense_group_builder.unwrap().build();
-        } else if ways_group_builder.is_some() {
-            primitivegroup = ways_group_builder.unwrap().build();
-        } else if relations_group_builder.is_some() {
-            primitivegroup = relations_group_builder.unwrap().build();
+            primitivegroup.push(dense_group_builder.unwrap().build());
+        }
+        if ways_group_builder.is_some() {
+            primitivegroup.push(ways_group_builder.unwrap().build());
+        }
+        if relations_group_builder.is_some() {
+            primitivegroup.push(relations_group_builder.unwrap().build());
         }
 
         let stringtable = string_table_builder.build();
 
         let primitive_block = PrimitiveBlock {
             stringtable,
-            primitivegroup: vec![primitivegroup],
+            primitivegroup,
             granularity: Some(granularity),
             lat_offset: Some(lat_offset),
             lon_offset: Some(lon_offset),
-- 
2.43.0


From f52da2a259361f743b9b81d4d6453251acf5ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 06/37] fix: header bounding box is rounded, not truncated, to
 the nanodegree

---
 src/osm/pbf/osm_header.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osm/pbf/osm_header.rs b/src/osm/pbf/osm_header.rs
index fac0fab..cf80fe6 100644
--- a/src/osm/pbf/osm_header.rs
+++ b/src/osm/pbf/osm_header.rs
@@ -62,10 +62,10 @@ impl OsmHeader {
 
     fn header_bbox(&self) -> Option<osmpbf::HeaderBBox> {
         self.info.bounding_box().as_ref().map(|bounding_box| osmpbf::HeaderBBox {
-            left: (bounding_box.left() * NANODEG) as i64,
-            right: (bounding_box.right() * NANODEG) as i64,
-            top: (bounding_box.top() * NANODEG) as i64,
-            bottom: (bounding_box.bottom() * NANODEG) as i64,
+            left: (bounding_box.left() * NANODEG).round() as i64,
+            right: (bounding_box.right() * NANODEG).round() as i64,
+            top: (bounding_box.top() * NANODEG).round() as i64,
+            bottom: (bounding_box.bottom() * NANODEG).round() as i64,
         })
     }
 
-- 
2.43.0


From b6eddbacb5911ceb5d3ce5453ba437c8a74d81ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 07/37] fix: a bounding box string with more than four parts is
 refused

---
 src/osm/model/bounding_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm/model/bounding_box.rs b/src/osm/model/bounding_box.rs
index 782fc41..a1d0c12 100644
--- a/src/osm/model/bounding_box.rs
+++ b/src/osm/model/bounding_box.rs
@@ -94,7 +94,7 @@ impl FromStr for BoundingBox {
         let parts: Vec<&str> = s.split(',')
             .map(|s| s.trim())
             .collect();
-        if parts.len() < 4 {
+        if parts.len() != 4 {
             Err(e)
         } else {
             let left = f64::from_str(parts[0])?;
-- 
2.43.0


From c9c6d3da66a47785635d5c1d7b0c71bd246384c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 08/37] fix: a header without any information is written as a
 readable block

---
 src/osm/pbf/file_block.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index b211f4e..d65f85f 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -178,20 +178,16 @@ impl FileBlock {
             }
         };
 
-        let mut raw_size = None;
-        let mut data = None;
-        if !block_data.is_empty() {
-            raw_size = Some(block_data.len() as i32);
-            data = match compression {
-                CompressionType::Uncompressed => {
-                    Some(Data::Raw(block_data))
-                }
-                CompressionType::Zlib => {
-                    let encoded = Self::zlib_encode(block_data, compression_level)?;
-                    Some(Data::ZlibData(encoded))
-                }
-            };
-        }
+        let raw_size = Some(block_data.len() as i32);
+        let data = match compression {
+            CompressionType::Uncompressed => {
+                Some(Data::Raw(block_data))
+            }
+            CompressionType::Zlib => {
+                let encoded = Self::zlib_encode(block_data, compression_level)?;
+                Some(Data::ZlibData(encoded))
+            }
+        };
 
         let blob = osmpbf::Blob {
             raw_size,
-- 
2.43.0


From 1733f0c8b8d639e662528d80e6ab425654d0d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 09/37] fix: compressed blocks are read completely and
 verified, also without a declared size

---
 src/osm/pbf/file_block.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index d65f85f..b76cd0a 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -95,11 +95,19 @@ impl FileBlock {
         }
     }
 
-    fn zlib_decode(data: Vec<u8>, raw_size: usize) -> Result<Vec<u8>, anyhow::Error> {
+    fn zlib_decode(data: Vec<u8>, raw_size: Option<i32>) -> Result<Vec<u8>, anyhow::Error> {
         let mut decoder = ZlibDecoder::new(data.as_slice());
-        let mut decoded = vec![0_u8; raw_size];
-        decoder.read_exact(&mut decoded)?;
-        Ok(decoded)
+        let mut decoded = Vec::new();
+        // read to the end of the stream, for the decoder to verify the checksum
+        decoder.read_to_end(&mut decoded)?;
+        match raw_size {
+            Some(raw_size) if raw_size as i64 != decoded.len() as i64 => {
+                Err(anyhow!("Expected {} bytes of uncompressed data, got {}", raw_size, decoded.len()))
+            }
+            _ => {
+                Ok(decoded)
+            }
+        }
     }
 
     fn zlib_encode(buf: Vec<u8>, compression_level: Compression) -> Result<Vec<u8>, anyhow::Error> {
@@ -124,8 +132,7 @@ impl FileBlock {
                         Ok(raw_data)
                     }
                     Data::ZlibData(zlib_data) => {
-                        // for now ignore that the uncompressed size is optional
-                        FileBlock::zlib_decode(zlib_data, blob.raw_size.unwrap() as usize)
+                        FileBlock::zlib_decode(zlib_data, blob.raw_size)
                     }
                     Data::LzmaData(_) => {
                         Err(
-- 
2.43.0


From a674a12fa659ccf7925c8e268bccbda0b8161b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 10/37] fix: a truncated or damaged file does not pass for a
 shorter one

Errors while reading a block header ended the iteration as if the file
ended there; a damaged length could ask for any amount of memory.
---
 src/osm/pbf/blob_iterator.rs           | 62 +++++++++++++++++++-------
 src/osm/pbf/bounding_box_calculator.rs | 25 +++++++----
 src/osm/pbf/file_block_iterator.rs     |  3 +-
 src/osm/pbf/reader.rs                  | 29 +++++++-----
 4 files changed, 83 insertions(+), 36 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index a3ff881..2d7f0e2 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -12,7 +12,8 @@ use crate::osmpbf;
 pub struct BlobIterator {
     path: PathBuf,
     file: File,
-    jump: u64,
+    offset: u64,
+    file_length: u64,
     index: usize,
 }
 
@@ -20,35 +21,62 @@ impl BlobIterator {
     pub fn new(path: PathBuf) -> Result<BlobIterator, anyhow::Error> {
         let file = File::open(path.clone())
             .with_context(|| anyhow!("path: {}", path.display()))?;
+        let file_length = file.metadata()?.len();
         Ok(
             BlobIterator {
                 path: path.clone(),
                 file,
-                jump: 0,
+                offset: 0,
+                file_length,
                 index: 0,
             }
         )
     }
-}
 
-impl Iterator for BlobIterator {
-    type Item = osm::pbf::blob_desc::BlobDesc;
+    // A block that reaches beyond the end of the file was truncated or has a damaged length
+    fn verify_available(&self, offset: u64, length: i32) -> Result<u64, anyhow::Error> {
+        let length = u64::try_from(length)
+            .map_err(|_| anyhow!("Invalid length {} at offset {} in {:?}", length, offset, self.path))?;
+        if length > self.file_length.saturating_sub(offset) {
+            Err(anyhow!("Unexpected end of {:?}, expected {} bytes at offset {}", self.path, length, offset))
+        } else {
+            Ok(length)
+        }
+    }
 
-    fn next(&mut self) -> Option<Self::Item> {
-        self.file.seek(SeekFrom::Current(self.jump as i64)).ok()?;
+    fn read_blob_desc(&mut self) -> Result<osm::pbf::blob_desc::BlobDesc, anyhow::Error> {
+        self.file.seek(SeekFrom::Start(self.offset))?;
         let mut header_len_buffer = [0_u8; 4];
-        self.file.read_exact(&mut header_len_buffer).ok()?;
-        let blob_header_len = i32::from_be_bytes(header_len_buffer);
+        self.file.read_exact(&mut header_len_buffer)
+            .with_context(|| anyhow!("Failed to read the length of a blob header at offset {} in {:?}", self.offset, self.path))?;
+        let blob_header_len = self.verify_available(self.offset + 4, i32::from_be_bytes(header_len_buffer))?;
         let mut blob_header_buffer = vec![0; blob_header_len as usize];
-        self.file.read_exact(&mut blob_header_buffer).ok()?;
-        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer)).ok()?;
-        let current_offset = self.file.stream_position().ok()?;
-        let length = blob_header.datasize as u64;
-        self.jump = length;
+        self.file.read_exact(&mut blob_header_buffer)
+            .with_context(|| anyhow!("Failed to read a blob header at offset {} in {:?}", self.offset, self.path))?;
+        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer))
+            .with_context(|| anyhow!("Failed to decode a blob header at offset {} in {:?}", self.offset, self.path))?;
+        let start = self.offset + 4 + blob_header_len;
+        let length = self.verify_available(start, blob_header.datasize)?;
+        self.offset = start + length;
         let index = self.index;
         self.index.add_assign(1);
-        Some(
-            osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+        Ok(
+            osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, start, length, blob_header.r#type)
         )
     }
-}
\ No newline at end of file
+}
+
+impl Iterator for BlobIterator {
+    type Item = Result<osm::pbf::blob_desc::BlobDesc, anyhow::Error>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.offset >= self.file_length {
+            return None;
+        }
+        let blob_desc = self.read_blob_desc();
+        if blob_desc.is_err() {
+            self.offset = self.file_length;
+        }
+        Some(blob_desc)
+    }
+}
diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index d9806f6..36c497c 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -33,19 +33,28 @@ impl BoundingBoxCalculator {
             )
         );
         let reader = Reader::new(&self.path)?;
+        let mut read_result = Ok(());
         for blob in reader.blobs()? {
-            tp.submit(
-                Box::new(
-                    CalcBoundingBoxCommand::new(
-                        blob,
-                        result.clone(),
-                    )
-                )
-            );
+            match blob {
+                Ok(blob) => {
+                    tp.submit(
+                        Box::new(
+                            CalcBoundingBoxCommand::new(
+                                blob,
+                                result.clone(),
+                            )
+                        )
+                    );
+                }
+                Err(e) => {
+                    read_result = Err(e);
+                }
+            }
         }
 
         tp.shutdown();
         tp.join()?;
+        read_result?;
         let mut result_guard = result.lock().unwrap();
         Ok(result_guard.take().unwrap())
     }
diff --git a/src/osm/pbf/file_block_iterator.rs b/src/osm/pbf/file_block_iterator.rs
index a42d5df..f469843 100644
--- a/src/osm/pbf/file_block_iterator.rs
+++ b/src/osm/pbf/file_block_iterator.rs
@@ -18,7 +18,8 @@ impl Iterator for FileBlockIterator {
     type Item = FileBlock;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let blob_desc = self.blob_iterator.next()?;
+        let blob_desc = self.blob_iterator.next()?
+            .unwrap_or_else(|e| panic!("Failed to read a blob: {e:#}"));
         Some(
             FileBlock::from_blob_desc(&blob_desc)
                 .unwrap_or_else(|_| panic!("Failed to create a file block from blob {} from {:?}",
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 57db0df..e62b274 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -10,6 +10,7 @@ use command_executor::thread_pool_builder::ThreadPoolBuilder;
 use crate::osm::model::element::Element;
 use crate::osm::pbf::blob_iterator::BlobIterator;
 use crate::osm::pbf::element_iterator::ElementIterator;
+use crate::osm::pbf::file_block::FileBlock;
 use crate::osm::pbf::file_block_iterator::FileBlockIterator;
 use crate::osm::pbf::file_info::FileInfo;
 use crate::osm::pbf::parallel_element_iteration_command::ParallelElementIterationCommand;
@@ -49,10 +50,10 @@ impl Reader {
             path: path.to_path_buf(),
             info: Default::default(),
         };
-        let mut block_iterator = reader.clone().blocks()?;
-        let file_block = block_iterator.next().ok_or(
+        let blob_desc = reader.blobs()?.next().ok_or(
             anyhow!("Failed to parse file header, path: {}", path.display())
-        )?;
+        )??;
+        let file_block = FileBlock::from_blob_desc(&blob_desc)?;
         let osm_header = file_block.as_osm_header()?;
         reader.info = osm_header.info().clone();
 
@@ -189,18 +190,26 @@ impl Reader {
             .build()?;
 
         let f_wrapper = Arc::new(f);
+        let mut result = Ok(());
         for blob_desc in self.blobs()? {
-            let f_wrapper_clone = f_wrapper.clone();
-            iteration_pool.submit(
-                Box::new(
-                    ParallelElementIterationCommand::new(blob_desc, f_wrapper_clone)
-                )
-            );
+            match blob_desc {
+                Ok(blob_desc) => {
+                    let f_wrapper_clone = f_wrapper.clone();
+                    iteration_pool.submit(
+                        Box::new(
+                            ParallelElementIterationCommand::new(blob_desc, f_wrapper_clone)
+                        )
+                    );
+                }
+                Err(e) => {
+                    result = Err(e);
+                }
+            }
         }
 
         iteration_pool.shutdown();
         iteration_pool.join()?;
-        Ok(())
+        result
     }
 
     fn find_missing_features(supported_features: &[String], required_features: &[String]) -> Vec<String> {
-- 
2.43.0


From 74e3dafae847f8c496d0f5d2aa1b43e16247724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 11/37] fix: blocks of unknown type are skipped as the format
 requires

---
 src/osm/pbf/blob_iterator.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index 2d7f0e2..34db45d 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -70,13 +70,20 @@ impl Iterator for BlobIterator {
     type Item = Result<osm::pbf::blob_desc::BlobDesc, anyhow::Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.offset >= self.file_length {
-            return None;
-        }
-        let blob_desc = self.read_blob_desc();
-        if blob_desc.is_err() {
-            self.offset = self.file_length;
+        while self.offset < self.file_length {
+            let blob_desc = self.read_blob_desc();
+            match &blob_desc {
+                // the format requires to ignore unknown types of blocks, except for the header
+                Ok(desc) if desc.index() > 0 && !matches!(desc.t().as_str(), "OSMHeader" | "OSMData") => {
+                    continue;
+                }
+                Ok(_) => {}
+                Err(_) => {
+                    self.offset = self.file_length;
+                }
+            }
+            return Some(blob_desc);
         }
-        Some(blob_desc)
+        None
     }
 }
-- 
2.43.0


From 269640edfcc17cdf5e156d2382b0071c910b3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 12/37] fix: element iteration does not end at the first block
 without data nor recurse over empty ones

---
 src/osm/pbf/element_iterator.rs | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 256dd25..a338870 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -21,17 +21,13 @@ impl ElementIterator {
         }
     }
 
-    #[allow(clippy::collapsible_match)]
     fn create_element_iterator(file_block_iterator: &mut FileBlockIterator) -> Option<IntoIter<Element>> {
-        if let Some(current_block) = file_block_iterator.next() {
+        for current_block in file_block_iterator.by_ref() {
             if let FileBlock::Data { metadata: _, mut data } = current_block {
-                Some(data.take_elements().into_iter())
-            } else {
-                None
+                return Some(data.take_elements().into_iter());
             }
-        } else {
-            None
         }
+        None
     }
 }
 
@@ -39,22 +35,12 @@ impl Iterator for ElementIterator {
     type Item = Element;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.element_iterator {
-            None => {
-                None
-            }
-            Some(element_iterator) => {
-                let element = element_iterator.next();
-                match &element {
-                    None => {
-                        self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
-                        self.next()
-                    }
-                    Some(_) => {
-                        element
-                    }
-                }
+        loop {
+            let element = self.element_iterator.as_mut()?.next();
+            if element.is_some() {
+                return element;
             }
+            self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
         }
     }
 }
-- 
2.43.0


From 87c5a907234c2ef78e36f57f1e5b5c6074608caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 13/37] fix: dense nodes without some of the metadata arrays
 are read

---
 src/osm/pbf/osm_data.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index dd6da8a..4266935 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -114,18 +114,18 @@ impl OsmData {
                 let mut version = 0_i32;
                 let mut user: String = String::default();
                 if let Some(info) = &dense.denseinfo {
-                    last_timestamp += info.timestamp[i];
+                    last_timestamp += Self::dense_value(&info.timestamp, i);
                     timestamp = last_timestamp * date_granularity as i64;
-                    last_changeset += info.changeset[i];
-                    uid += info.uid[i];
-                    last_user_sid += info.user_sid[i];
+                    last_changeset += Self::dense_value(&info.changeset, i);
+                    uid += Self::dense_value(&info.uid, i);
+                    last_user_sid += Self::dense_value(&info.user_sid, i);
                     let user_sid = last_user_sid as usize;
                     if info.visible.len() > i {
                         visible = info.visible[i];
                     } else {
                         visible = true;
                     }
-                    version = info.version[i];
+                    version = Self::dense_value(&info.version, i);
                     user = string_table.index(user_sid).clone();
                 }
 
@@ -166,6 +166,15 @@ impl OsmData {
         }
     }
 
+    // The arrays of metadata are optional
+    fn dense_value<T: Copy + Default>(values: &[T], i: usize) -> T {
+        if values.is_empty() {
+            T::default()
+        } else {
+            values[i]
+        }
+    }
+
     fn read_nodes(node_group: &Vec<osmpbf::Node>, string_table: &[String], granularity: i64, date_granularity: i32, lat_offset: i64, lon_offset: i64, elements: &mut Vec<Element>) {
         for node in node_group {
             let id = node.id;
-- 
2.43.0


From 1b326674948612e71eed5c8cf58e50318daaee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 14/37] fix: the bounding box covers nodes behind other
 elements, and a file without nodes is an error

---
 src/osm/pbf/bounding_box_calculator.rs   | 4 +++-
 src/osm/pbf/calc_bounding_box_command.rs | 4 +---
 src/osm/pbf/osm_data.rs                  | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index 36c497c..7da1a2e 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -1,6 +1,7 @@
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 
+use anyhow::anyhow;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool_builder::ThreadPoolBuilder;
 
@@ -56,6 +57,7 @@ impl BoundingBoxCalculator {
         tp.join()?;
         read_result?;
         let mut result_guard = result.lock().unwrap();
-        Ok(result_guard.take().unwrap())
+        result_guard.take()
+            .ok_or_else(|| anyhow!("No nodes to calculate a bounding box from, path: {}", self.path.display()))
     }
 }
diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index 4244201..b66c254 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -39,9 +39,7 @@ impl Command for CalcBoundingBoxCommand {
                             bounding_box.as_mut().unwrap().merge_point(node.coordinate());
                         }
                     }
-                    _ => {
-                        break;
-                    }
+                    _ => {}
                 }
             }
             if bounding_box.is_some() {
diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index 4266935..3f0652c 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -77,9 +77,9 @@ impl OsmData {
                         result.as_mut().unwrap().merge_point(node.coordinate());
                     }
                 }
-                Element::Way { .. } => { break; }
-                Element::Relation { .. } => { break; }
-                Element::Sentinel => { break; }
+                Element::Way { .. } => {}
+                Element::Relation { .. } => {}
+                Element::Sentinel => {}
             }
         }
         result
-- 
2.43.0


From 8a6cfd4879c47833bcd9e7fafb89caca1b701bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 15/37] fix: parallel iteration and bounding box calculation
 return errors instead of panicking or hanging

---
 src/osm/pbf/bounding_box_calculator.rs        |  2 ++
 src/osm/pbf/calc_bounding_box_command.rs      | 11 +++++---
 src/osm/pbf/mod.rs                            |  1 +
 .../pbf/parallel_element_iteration_command.rs | 17 +++++++------
 src/osm/pbf/pool.rs                           | 25 +++++++++++++++++++
 src/osm/pbf/reader.rs                         |  2 ++
 6 files changed, 48 insertions(+), 10 deletions(-)
 create mode 100644 src/osm/pbf/pool.rs

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index 7da1a2e..65e1e6e 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -7,6 +7,7 @@ use command_executor::thread_pool_builder::ThreadPoolBuilder;
 
 use crate::osm::model::bounding_box::BoundingBox;
 use crate::osm::pbf::calc_bounding_box_command::CalcBoundingBoxCommand;
+use crate::osm::pbf::pool::log_join_error;
 use crate::osm::pbf::reader::Reader;
 
 pub struct BoundingBoxCalculator {
@@ -26,6 +27,7 @@ impl BoundingBoxCalculator {
             .with_tasks(num_cpus::get())
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
+            .with_join_error_handler(log_join_error)
             .build()?;
 
         let result = Arc::new(
diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index b66c254..f390d61 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -6,6 +6,7 @@ use crate::osm::model::bounding_box::BoundingBox;
 use crate::osm::model::element::Element;
 use crate::osm::pbf::blob_desc::BlobDesc;
 use crate::osm::pbf::file_block::FileBlock;
+use crate::osm::pbf::pool::no_panic;
 
 pub(crate) struct CalcBoundingBoxCommand {
     blob: BlobDesc,
@@ -22,11 +23,9 @@ impl CalcBoundingBoxCommand {
             result,
         }
     }
-}
 
-impl Command for CalcBoundingBoxCommand {
     #[allow(clippy::unnecessary_unwrap)]
-    fn execute(&self) -> Result<(), anyhow::Error> {
+    fn calc(&self) -> Result<(), anyhow::Error> {
         let file_block = FileBlock::from_blob_desc(&self.blob)?;
         if file_block.is_osm_data() {
             let mut bounding_box = None;
@@ -54,3 +53,9 @@ impl Command for CalcBoundingBoxCommand {
         Ok(())
     }
 }
+
+impl Command for CalcBoundingBoxCommand {
+    fn execute(&self) -> Result<(), anyhow::Error> {
+        no_panic(|| self.calc())
+    }
+}
diff --git a/src/osm/pbf/mod.rs b/src/osm/pbf/mod.rs
index 78259e5..f2c604f 100644
--- a/src/osm/pbf/mod.rs
+++ b/src/osm/pbf/mod.rs
@@ -14,6 +14,7 @@ pub(crate) mod string_table_builder;
 pub(crate) mod ways_group_builder;
 pub(crate) mod relations_group_builder;
 pub(crate) mod parallel_element_iteration_command;
+pub(crate) mod pool;
 pub(crate) mod element_accumulator;
 pub(crate) mod file_block_metadata;
 pub(crate) mod osm_data;
diff --git a/src/osm/pbf/parallel_element_iteration_command.rs b/src/osm/pbf/parallel_element_iteration_command.rs
index 131b4f0..5e2acc4 100644
--- a/src/osm/pbf/parallel_element_iteration_command.rs
+++ b/src/osm/pbf/parallel_element_iteration_command.rs
@@ -6,6 +6,7 @@ use command_executor::command::Command;
 use crate::osm::model::element::Element;
 use crate::osm::pbf::blob_desc::BlobDesc;
 use crate::osm::pbf::file_block::FileBlock;
+use crate::osm::pbf::pool::no_panic;
 
 pub(crate) struct ParallelElementIterationCommand {
     blob_desc: BlobDesc,
@@ -23,13 +24,15 @@ impl ParallelElementIterationCommand {
 
 impl Command for ParallelElementIterationCommand {
     fn execute(&self) -> Result<(), Error> {
-        let mut file_block = FileBlock::from_blob_desc(&self.blob_desc)?;
-        if file_block.is_osm_data() {
-            for element in file_block.take_elements() {
-                (self.f)(element)?;
+        no_panic(|| {
+            let mut file_block = FileBlock::from_blob_desc(&self.blob_desc)?;
+            if file_block.is_osm_data() {
+                for element in file_block.take_elements() {
+                    (self.f)(element)?;
+                }
+                (self.f)(Element::Sentinel)?;
             }
-            (self.f)(Element::Sentinel)?;
-        }
-        Ok(())
+            Ok(())
+        })
     }
 }
\ No newline at end of file
diff --git a/src/osm/pbf/pool.rs b/src/osm/pbf/pool.rs
new file mode 100644
index 0000000..6e79d47
--- /dev/null
+++ b/src/osm/pbf/pool.rs
@@ -0,0 +1,25 @@
+use std::panic::{catch_unwind, AssertUnwindSafe};
+
+use anyhow::{anyhow, Error};
+
+/// Execute the work of a command, turning a panic into an error.
+///
+/// A panic would end the thread of the pool and leave the commands that it should have executed in
+/// the queue, where [command_executor::thread_pool::ThreadPool::shutdown] would wait for them.
+pub(crate) fn no_panic(f: impl FnOnce() -> Result<(), Error>) -> Result<(), Error> {
+    match catch_unwind(AssertUnwindSafe(f)) {
+        Ok(result) => result,
+        Err(panic) => {
+            let message = panic.downcast_ref::<&'static str>().map(|s| s.to_string())
+                .or_else(|| panic.downcast_ref::<String>().cloned())
+                .unwrap_or_else(|| "unknown".to_string());
+            Err(anyhow!("panic: {message}"))
+        }
+    }
+}
+
+/// Join error handler that leaves the handling to the caller of
+/// [command_executor::thread_pool::ThreadPool::join], which gets the errors as well.
+pub(crate) fn log_join_error(name: String, message: String) {
+    log::error!("Thread {name} ended with an error: {message}");
+}
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index e62b274..0d5bd1f 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -14,6 +14,7 @@ use crate::osm::pbf::file_block::FileBlock;
 use crate::osm::pbf::file_block_iterator::FileBlockIterator;
 use crate::osm::pbf::file_info::FileInfo;
 use crate::osm::pbf::parallel_element_iteration_command::ParallelElementIterationCommand;
+use crate::osm::pbf::pool::log_join_error;
 
 #[derive(Debug, Clone)]
 pub struct Reader {
@@ -187,6 +188,7 @@ impl Reader {
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .with_name_str("parallel-element-iterator")
+            .with_join_error_handler(log_join_error)
             .build()?;
 
         let f_wrapper = Arc::new(f);
-- 
2.43.0


From bc4dd34fafb40ac332afd090762dad7c898f9681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 16/37] fix: the parallel writer does not write sentinels

---
 src/osm/pbf/parallel_writer.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index a53e951..d737173 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -159,8 +159,12 @@ impl Command for AddElementCommand {
     fn execute(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
-            assert_order(element_guard.as_ref().unwrap());
-            element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
+            let element = element_guard.take().unwrap();
+            if element.is_sentinel() {
+                return;
+            }
+            assert_order(&element);
+            element_ordering_buffer.borrow_mut().push_back(element);
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top()
             }
@@ -186,6 +190,9 @@ impl Command for AddElementsCommand {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut elements_guard = self.elements.lock().unwrap();
             for element in elements_guard.take().unwrap() {
+                if element.is_sentinel() {
+                    continue;
+                }
                 assert_order(&element);
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
-- 
2.43.0


From 2e48dfe920f845edfeb641b1292438e877925ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 17/37] fix: long lists do not leave the ordering buffer above
 its size

---
 src/osm/pbf/parallel_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index d737173..a84d690 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -196,7 +196,7 @@ impl Command for AddElementsCommand {
                 assert_order(&element);
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
-            if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
+            while element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top();
             }
         });
-- 
2.43.0


From 5256c49215b281daea70df6f677ffd99da66e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 18/37] fix: loss of order in the parallel writer is always
 reported and never hangs

The order was verified against the first, not the last element of the
block written last. A failed verification ended the ordering thread, and
close waited for it forever.
---
 src/osm/pbf/parallel_writer.rs | 46 +++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index a84d690..02078f4 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -17,6 +17,7 @@ use crate::osm::model::element::Element;
 use crate::osm::pbf::compression_type::CompressionType;
 use crate::osm::pbf::file_block::FileBlock;
 use crate::osm::pbf::file_info::FileInfo;
+use crate::osm::pbf::pool::log_join_error;
 use crate::osm::pbf::writer::Writer;
 
 thread_local! {
@@ -39,7 +40,7 @@ fn flush_sorted_top() {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         let elements = split_file_block(element_ordering_buffer);
-        set_current_min_element(elements.first());
+        set_current_min_element(elements.last());
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -54,7 +55,7 @@ fn flush_all_sorted() {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         while !element_ordering_buffer.borrow().is_empty() {
             let elements = split_file_block(element_ordering_buffer);
-            set_current_min_element(elements.first());
+            set_current_min_element(elements.last());
             NEXT_THREAD_POOL.with(|thread_pool| {
                 let thread_pool = thread_pool.borrow();
                 let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -106,16 +107,19 @@ fn compression_type() -> CompressionType {
     COMPRESSION_TYPE.with(|compression_type| compression_type.borrow().as_ref().unwrap().clone())
 }
 
-fn assert_order(element: &Element) {
-    if !element.is_sentinel() {
-        assert!(
-            compare_to_current_min_element(element).is_ge(),
-            "Element order, required by OSM PBF definition is lost. \
+fn verify_order(element: &Element) -> Result<(), Error> {
+    if compare_to_current_min_element(element).is_ge() {
+        Ok(())
+    } else {
+        Err(
+            anyhow!(
+                "Element order, required by OSM PBF definition is lost. \
                     Possible cause is that the length of the ordering buffer ({}) is too short \
                     to for compensate for the loss of order caused by concurrent processing. \
                     Recommended: reader_tasks * 8000 * n",
-            element_ordering_buffer_size()
-        );
+                element_ordering_buffer_size()
+            )
+        )
     }
 }
 
@@ -161,15 +165,15 @@ impl Command for AddElementCommand {
             let mut element_guard = self.element.lock().unwrap();
             let element = element_guard.take().unwrap();
             if element.is_sentinel() {
-                return;
+                return Ok(());
             }
-            assert_order(&element);
+            verify_order(&element)?;
             element_ordering_buffer.borrow_mut().push_back(element);
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top()
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -193,14 +197,14 @@ impl Command for AddElementsCommand {
                 if element.is_sentinel() {
                     continue;
                 }
-                assert_order(&element);
+                verify_order(&element)?;
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
             while element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top();
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -395,11 +399,12 @@ impl ParallelWriter {
     /// Flush internal buffers.
     pub fn close(&mut self) -> Result<(), Error> {
         self.flush_element_ordering();
-        Self::shutdown(self.element_ordering_pool.clone())?;
-        Self::shutdown(self.encoding_pool.clone())?;
+        // all the pools have to be shut down also when one of them failed
+        let element_ordering_result = Self::shutdown(self.element_ordering_pool.clone());
+        let encoding_result = Self::shutdown(self.encoding_pool.clone());
         self.flush_writing();
-        Self::shutdown(self.writing_pool.clone())?;
-        Ok(())
+        let writing_result = Self::shutdown(self.writing_pool.clone());
+        element_ordering_result.and(encoding_result).and(writing_result)
     }
 
     fn flush_element_ordering(&self) {
@@ -418,6 +423,7 @@ impl ParallelWriter {
                         .with_tasks(tasks)
                         .with_queue_size(queue_size)
                         .with_shutdown_mode(ShutdownMode::CompletePending)
+                        .with_join_error_handler(log_join_error)
                         .build()?
                 )
             )
-- 
2.43.0


From 72b00244ec8039e5608831b74d9dd3513bba7ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 19/37] fix: failures to write in the parallel writer are
 returned and do not hang close

---
 src/osm/pbf/parallel_writer.rs | 50 ++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 02078f4..81e0ea8 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -7,7 +7,7 @@ use std::path::PathBuf;
 use std::sync::{Arc, Mutex, RwLock};
 use std::thread::LocalKey;
 
-use anyhow::{anyhow, Error};
+use anyhow::{anyhow, Context, Error};
 use command_executor::command::Command;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool::ThreadPool;
@@ -34,6 +34,7 @@ thread_local! {
     // the first expected block is #1. #0 is the header
     pub static NEXT_TO_WRITE: RefCell<usize> = const { RefCell::new(1) };
     pub static PBF_WRITER: RefCell<Option<Writer>> = const { RefCell::new(None) };
+    static WRITE_FAILED: RefCell<bool> = const { RefCell::new(false) };
 }
 
 fn flush_sorted_top() {
@@ -272,6 +273,11 @@ impl Command for WriteBlobCommand {
             }
         );
 
+        if WRITE_FAILED.with(|write_failed| *write_failed.borrow()) {
+            // reported by the command that failed
+            return Ok(());
+        }
+
         BLOB_ORDERING_BUFFER.with(
             |buffer| {
                 NEXT_TO_WRITE.with(|next| {
@@ -285,17 +291,21 @@ impl Command for WriteBlobCommand {
                             Some((header, body)) => {
                                 PBF_WRITER.with(
                                     |writer| {
-                                        writer.borrow_mut().as_mut().unwrap().write_blob(header, body).expect("Failed to write a blob");
+                                        writer.borrow_mut().as_mut()
+                                            .ok_or_else(|| anyhow!("The header must be written before elements"))?
+                                            .write_blob(header, body)
+                                            .context("Failed to write a blob")
                                     }
-                                );
+                                ).inspect_err(|_| {
+                                    WRITE_FAILED.with(|write_failed| write_failed.replace(true));
+                                })?;
                             }
                         }
                     }
-                });
+                    Ok(())
+                })
             }
-        );
-
-        Ok(())
+        )
     }
 }
 
@@ -360,22 +370,32 @@ impl ParallelWriter {
         let path = self.path.clone();
         let file_info = self.file_info.clone();
         let compression_type = self.compression_type.clone();
+        let result = Arc::new(Mutex::new(Ok(())));
+        let result_clone = result.clone();
         writing_pool_guard.in_all_threads(
             Arc::new(move || {
                 PBF_WRITER.with(|writer| {
                     if writer.borrow().is_none() {
-                        let mut w = Writer::from_file_info(
-                            path.clone(),
-                            file_info.clone(),
-                            compression_type.clone(),
-                        ).unwrap();
-                        w.write_header().unwrap();
-                        writer.replace(Some(w));
+                        match Self::create_writer(path.clone(), file_info.clone(), compression_type.clone()) {
+                            Ok(w) => {
+                                writer.replace(Some(w));
+                            }
+                            Err(e) => {
+                                *result_clone.lock().unwrap() = Err(e);
+                            }
+                        }
                     }
                 })
             })
         );
-        Ok(())
+        let mut result_guard = result.lock().unwrap();
+        std::mem::replace(result_guard.deref_mut(), Ok(()))
+    }
+
+    fn create_writer(path: PathBuf, file_info: FileInfo, compression_type: CompressionType) -> Result<Writer, Error> {
+        let mut writer = Writer::from_file_info(path, file_info, compression_type)?;
+        writer.write_header()?;
+        Ok(writer)
     }
 
     /// Write an [Element]
-- 
2.43.0


From cd6b44e049474fe7d43859588bc493d5e148a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 20/37] fix: a panic while encoding a block is returned as an
 error by the parallel writer

---
 src/osm/pbf/parallel_writer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 81e0ea8..12259e9 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -17,7 +17,7 @@ use crate::osm::model::element::Element;
 use crate::osm::pbf::compression_type::CompressionType;
 use crate::osm::pbf::file_block::FileBlock;
 use crate::osm::pbf::file_info::FileInfo;
-use crate::osm::pbf::pool::log_join_error;
+use crate::osm::pbf::pool::{log_join_error, no_panic};
 use crate::osm::pbf::writer::Writer;
 
 thread_local! {
@@ -227,7 +227,12 @@ impl Command for EncodeFileBlockCommand {
     fn execute(&self) -> Result<(), Error> {
         let mut elements_guard = self.elements.lock().unwrap();
         let file_block = FileBlock::from_elements(self.index, std::mem::take(&mut elements_guard));
-        let (blob_header, blob_body) = FileBlock::serialize(&file_block, compression_type())?;
+        let mut blob_header = Vec::new();
+        let mut blob_body = Vec::new();
+        no_panic(|| {
+            (blob_header, blob_body) = FileBlock::serialize(&file_block, compression_type())?;
+            Ok(())
+        })?;
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
-- 
2.43.0


From 762556076a6a935fff34bc8bba9d38c5774309c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 21/37] fix: text in database dumps is escaped and restored as
 the COPY format requires

---
 src/osm/apidb_dump/read/table_reader.rs | 25 +++++------
 src/osm/apidb_dump/sql.rs               | 60 ++++++++++++++++++++++++-
 src/osm/apidb_dump/write/writer.rs      | 18 ++++----
 3 files changed, 80 insertions(+), 23 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index ee4abbc..9eb186d 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -4,7 +4,6 @@ use std::io::prelude::*;
 use std::str::FromStr;
 
 use anyhow::anyhow;
-use unescape::unescape;
 
 use crate::osm::apidb_dump::read::changeset_record::ChangesetRecord;
 use crate::osm::apidb_dump::read::node_record::NodeRecord;
@@ -19,7 +18,7 @@ use crate::osm::apidb_dump::read::user_record::{FormatEnum, UserRecord, UserStat
 use crate::osm::apidb_dump::read::way_node_record::WayNodeRecord;
 use crate::osm::apidb_dump::read::way_record::WayRecord;
 use crate::osm::apidb_dump::read::way_tag_record::WayTagRecord;
-use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time};
+use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time, unescape_text};
 
 struct RecordBuilder {
     f: fn(&str, &TableDef, usize) -> Option<TableRecord>,
@@ -182,8 +181,8 @@ impl TableReader {
                         node_tag_record: NodeTagRecord::new(
                             i64::from_str(columns[*node_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_text(columns[*k]),
+                            unescape_text(columns[*v]),
                         )
                     }
                 )
@@ -261,8 +260,8 @@ impl TableReader {
                         way_tag_record: WayTagRecord::new(
                             i64::from_str(columns[*way_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_text(columns[*k]),
+                            unescape_text(columns[*v]),
                         )
                     }
                 )
@@ -318,7 +317,7 @@ impl TableReader {
                             i64::from_str(columns[*relation_id]).unwrap(),
                             RelationMemberType::try_from(columns[*member_type]).unwrap(),
                             i64::from_str(columns[*member_id]).unwrap(),
-                            unescape(columns[*member_role]).unwrap_or(columns[*member_role].to_string()),
+                            unescape_text(columns[*member_role]),
                             i64::from_str(columns[*version]).unwrap(),
                             i64::from_str(columns[*sequence_id]).unwrap(),
                         )
@@ -344,8 +343,8 @@ impl TableReader {
                         relation_tag_record: RelationTagRecord::new(
                             i64::from_str(columns[*relation_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            unescape_text(columns[*k]),
+                            unescape_text(columns[*v]),
                         )
                     }
                 )
@@ -427,13 +426,13 @@ impl TableReader {
                 Some(
                     TableRecord::User {
                         user_record: UserRecord::new(
-                            columns[*email].to_string(),
+                            unescape_text(columns[*email]),
                             i64::from_str(columns[*id]).unwrap(),
-                            columns[*pass_crypt].to_string(),
+                            unescape_text(columns[*pass_crypt]),
                             parse_sql_time(columns[*creation_time]).unwrap(),
-                            columns[*display_name].to_string(),
+                            unescape_text(columns[*display_name]),
                             parse_sql_bool(columns[*data_public]).unwrap(),
-                            columns[*description].to_string(),
+                            unescape_text(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
                             i16::from_str(columns[*home_zoom]).unwrap(),
diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index f3cd056..5822351 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -30,11 +30,69 @@ pub(crate) fn parse_sql_null_string(s: &str) -> Option<String> {
             None
         }
         _ => {
-            Some(s.to_string())
+            Some(unescape_text(s))
         }
     }
 }
 
+/// Escape a text value as the text format of COPY requires
+pub(crate) fn escape_text(s: &str) -> String {
+    let mut escaped = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' => { escaped.push_str("\\\\") }
+            '\t' => { escaped.push_str("\\t") }
+            '\n' => { escaped.push_str("\\n") }
+            '\r' => { escaped.push_str("\\r") }
+            '\u{8}' => { escaped.push_str("\\b") }
+            '\u{c}' => { escaped.push_str("\\f") }
+            '\u{b}' => { escaped.push_str("\\v") }
+            _ => { escaped.push(c) }
+        }
+    }
+    escaped
+}
+
+/// Restore a text value from the text format of COPY
+pub(crate) fn unescape_text(s: &str) -> String {
+    let bytes = s.as_bytes();
+    let digits = |from: usize, max: usize, radix: u32| {
+        bytes[from..].iter().take(max).take_while(|b| (**b as char).is_digit(radix)).count()
+    };
+    let mut text = Vec::with_capacity(bytes.len());
+    let mut i = 0;
+    while i < bytes.len() {
+        if bytes[i] != b'\\' || i + 1 == bytes.len() {
+            text.push(bytes[i]);
+            i += 1;
+            continue;
+        }
+        i += 1;
+        let (radix, start, len) = match bytes[i] {
+            b'0'..=b'7' => { (8, i, digits(i, 3, 8)) }
+            b'x' => { (16, i + 1, digits(i + 1, 2, 16)) }
+            _ => { (0, i, 0) }
+        };
+        if len > 0 {
+            let code = u32::from_str_radix(&s[start..start + len], radix).unwrap_or_default();
+            text.push(code as u8);
+            i = start + len;
+            continue;
+        }
+        text.push(match bytes[i] {
+            b'b' => { 8 }
+            b'f' => { 12 }
+            b'n' => { b'\n' }
+            b'r' => { b'\r' }
+            b't' => { b'\t' }
+            b'v' => { 11 }
+            b => { b }
+        });
+        i += 1;
+    }
+    String::from_utf8(text).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).to_string())
+}
+
 pub(crate) fn to_sql_time_millis(t: i64) -> String {
     let datetime = DateTime::from_timestamp_millis(t).unwrap();
     let sql_time: String = datetime.to_rfc3339_opts(SecondsFormat::Secs, true);
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 626a4ff..82a94be 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -3,9 +3,8 @@ use std::io::Write;
 use std::path::PathBuf;
 
 use anyhow::{Context, Error};
-use escape_string::escape;
 
-use crate::osm::apidb_dump::sql::{calculate_tile, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
+use crate::osm::apidb_dump::sql::{calculate_tile, escape_text, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
 use crate::osm::apidb_dump::write::table_data_writers::TableDataWriters;
 use crate::osm::apidb_dump::write::toc::{load_template_mapping, write_toc};
@@ -121,8 +120,8 @@ impl Writer {
         for tag in tags {
             // public.node_tags (node_id, version, k, v)
             // template context: 4259.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_text(tag.k());
+            let escaped_tag = escape_text(tag.v());
             let node_tag_line = format!("{}\t{}\t{}\t{}\n",
                                         node.id(),
                                         node.version(),
@@ -196,8 +195,8 @@ impl Writer {
         for tag in way.take_tags() {
             // public.current_way_tags (way_id, k, v)
             // template context: 4235.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_text(tag.k());
+            let escaped_tag = escape_text(tag.v());
             let current_way_tag_line = format!("{}\t{}\t{}\n",
                                                way.id(),
                                                escaped_key,
@@ -277,7 +276,7 @@ impl Writer {
 
             // public.current_relation_members (relation_id, member_type, member_id, member_role, sequence_id)
             // template context: 4230.dat
-            let escaped_role = escape(member_role);
+            let escaped_role = escape_text(member_role);
             let current_relation_member_line = format!("{}\t{}\t{}\t{}\t{}\n",
                                                        relation.id(),
                                                        member_type,
@@ -314,8 +313,8 @@ impl Writer {
         for tag in relation.take_tags() {
             // public.current_relation_tags (relation_id, k, v)
             // template context: 4231.dat
-            let escaped_key = escape(tag.k());
-            let escaped_tag = escape(tag.v());
+            let escaped_key = escape_text(tag.k());
+            let escaped_tag = escape_text(tag.v());
             let current_relation_tag_line = format!("{}\t{}\t{}\n",
                                                     relation.id(),
                                                     escaped_key,
@@ -422,6 +421,7 @@ impl Writer {
         // template context: 4290.dat
         for element in self.writers.user_index.range(..)? {
             let (user_id, user_name) = element?;
+            let user_name = escape_text(&user_name);
 
             let t = chrono::offset::Utc::now();
             let osm_admin_user = format!("osm-admin-user-{}@example.com", user_id);
-- 
2.43.0


From 4f4d2d8ef6361c2783f8b77d0acba1f236557df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 22/37] fix: relation members are read from a dump in the order
 of their sequence

---
 src/osm/apidb_dump/read/table_pkey.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_pkey.rs b/src/osm/apidb_dump/read/table_pkey.rs
index 121b3c9..c4e8730 100644
--- a/src/osm/apidb_dump/read/table_pkey.rs
+++ b/src/osm/apidb_dump/read/table_pkey.rs
@@ -48,11 +48,9 @@ impl TablePkey {
             }
             "public.relation_members" => {
                 // ADD CONSTRAINT relation_members_pkey PRIMARY KEY (relation_id, version, member_type, member_id, member_role, sequence_id);
+                // the order of members within a relation is that of sequence_id
                 key.push(Field::new(Self::index("relation_id", &fields)?, FieldType::Integer).with_str_name("relation_id"));
                 key.push(Field::new(Self::index("version", &fields)?, FieldType::Integer).with_str_name("version"));
-                key.push(Field::new(Self::index("member_type", &fields)?, FieldType::String).with_str_name("member_type"));
-                key.push(Field::new(Self::index("member_id", &fields)?, FieldType::Integer).with_str_name("member_id"));
-                key.push(Field::new(Self::index("member_role", &fields)?, FieldType::String).with_str_name("member_role"));
                 key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
             }
             "public.relation_tags" => {
-- 
2.43.0


From 6c7a42f8104eab324f145230b2f87e508f366f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 23/37] fix: current rows of an object are not lost when the
 next object has a smaller id

---
 src/osm/apidb_dump/write/current_object.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/write/current_object.rs b/src/osm/apidb_dump/write/current_object.rs
index d7c9854..442a5fc 100644
--- a/src/osm/apidb_dump/write/current_object.rs
+++ b/src/osm/apidb_dump/write/current_object.rs
@@ -23,7 +23,7 @@ impl CurrentObjectLine {
                 std::mem::take(&mut self.last_line)
             };
 
-        if id > self.last_id {
+        if id != self.last_id {
             line_opt
         } else {
             None
@@ -60,7 +60,7 @@ impl CurrentObjectLines {
                 std::mem::take(&mut self.last_lines)
             };
 
-        if id > self.last_id {
+        if id != self.last_id {
             lines_opt
         } else {
             None
-- 
2.43.0


From f7b709c98c7c33378ab19817537cc2282c6122fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 24/37] fix: a dump table file that cannot be created is an
 error, not a panic

---
 .../apidb_dump/write/table_data_writers.rs    | 106 +++++++++---------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/osm/apidb_dump/write/table_data_writers.rs b/src/osm/apidb_dump/write/table_data_writers.rs
index 355b4bd..74df965 100644
--- a/src/osm/apidb_dump/write/table_data_writers.rs
+++ b/src/osm/apidb_dump/write/table_data_writers.rs
@@ -76,59 +76,59 @@ impl TableDataWriters {
         let changeset_user_index_buffer = HashMap::<i64, i64>::new();
 
         Ok(TableDataWriters {
-            acls: TableDataWriter::new("public.acls".to_string(), template_mapping["public.acls"].to_string(), output_path).unwrap(),
-            active_storage_attachments: TableDataWriter::new("public.active_storage_attachments".to_string(), template_mapping["public.active_storage_attachments"].to_string(), output_path).unwrap(),
-            active_storage_blobs: TableDataWriter::new("public.active_storage_blobs".to_string(), template_mapping["public.active_storage_blobs"].to_string(), output_path).unwrap(),
-            active_storage_variant_records: TableDataWriter::new("public.active_storage_variant_records".to_string(), template_mapping["public.active_storage_variant_records"].to_string(), output_path).unwrap(),
-            ar_internal_metadata: TableDataWriter::new("public.ar_internal_metadata".to_string(), template_mapping["public.ar_internal_metadata"].to_string(), output_path).unwrap(),
-            changeset_comments: TableDataWriter::new("public.changeset_comments".to_string(), template_mapping["public.changeset_comments"].to_string(), output_path).unwrap(),
-            changeset_tags: TableDataWriter::new("public.changeset_tags".to_string(), template_mapping["public.changeset_tags"].to_string(), output_path).unwrap(),
-            changesets: TableDataWriter::new("public.changesets".to_string(), template_mapping["public.changesets"].to_string(), output_path).unwrap(),
-            changesets_subscribers: TableDataWriter::new("public.changesets_subscribers".to_string(), template_mapping["public.changesets_subscribers"].to_string(), output_path).unwrap(),
-            client_applications: TableDataWriter::new("public.client_applications".to_string(), template_mapping["public.client_applications"].to_string(), output_path).unwrap(),
-            current_node_tags: TableDataWriter::new("public.current_node_tags".to_string(), template_mapping["public.current_node_tags"].to_string(), output_path).unwrap(),
-            current_nodes: TableDataWriter::new("public.current_nodes".to_string(), template_mapping["public.current_nodes"].to_string(), output_path).unwrap(),
-            current_relation_members: TableDataWriter::new("public.current_relation_members".to_string(), template_mapping["public.current_relation_members"].to_string(), output_path).unwrap(),
-            current_relation_tags: TableDataWriter::new("public.current_relation_tags".to_string(), template_mapping["public.current_relation_tags"].to_string(), output_path).unwrap(),
-            current_relations: TableDataWriter::new("public.current_relations".to_string(), template_mapping["public.current_relations"].to_string(), output_path).unwrap(),
-            current_way_nodes: TableDataWriter::new("public.current_way_nodes".to_string(), template_mapping["public.current_way_nodes"].to_string(), output_path).unwrap(),
-            current_way_tags: TableDataWriter::new("public.current_way_tags".to_string(), template_mapping["public.current_way_tags"].to_string(), output_path).unwrap(),
-            current_ways: TableDataWriter::new("public.current_ways".to_string(), template_mapping["public.current_ways"].to_string(), output_path).unwrap(),
-            delayed_jobs: TableDataWriter::new("public.delayed_jobs".to_string(), template_mapping["public.delayed_jobs"].to_string(), output_path).unwrap(),
-            diary_comments: TableDataWriter::new("public.diary_comments".to_string(), template_mapping["public.diary_comments"].to_string(), output_path).unwrap(),
-            diary_entries: TableDataWriter::new("public.diary_entries".to_string(), template_mapping["public.diary_entries"].to_string(), output_path).unwrap(),
-            diary_entry_subscriptions: TableDataWriter::new("public.diary_entry_subscriptions".to_string(), template_mapping["public.diary_entry_subscriptions"].to_string(), output_path).unwrap(),
-            friends: TableDataWriter::new("public.friends".to_string(), template_mapping["public.friends"].to_string(), output_path).unwrap(),
-            gps_points: TableDataWriter::new("public.gps_points".to_string(), template_mapping["public.gps_points"].to_string(), output_path).unwrap(),
-            gpx_file_tags: TableDataWriter::new("public.gpx_file_tags".to_string(), template_mapping["public.gpx_file_tags"].to_string(), output_path).unwrap(),
-            gpx_files: TableDataWriter::new("public.gpx_files".to_string(), template_mapping["public.gpx_files"].to_string(), output_path).unwrap(),
-            issue_comments: TableDataWriter::new("public.issue_comments".to_string(), template_mapping["public.issue_comments"].to_string(), output_path).unwrap(),
-            issues: TableDataWriter::new("public.issues".to_string(), template_mapping["public.issues"].to_string(), output_path).unwrap(),
-            languages: TableDataWriter::new("public.languages".to_string(), template_mapping["public.languages"].to_string(), output_path).unwrap(),
-            messages: TableDataWriter::new("public.messages".to_string(), template_mapping["public.messages"].to_string(), output_path).unwrap(),
-            node_tags: TableDataWriter::new("public.node_tags".to_string(), template_mapping["public.node_tags"].to_string(), output_path).unwrap(),
-            nodes: TableDataWriter::new("public.nodes".to_string(), template_mapping["public.nodes"].to_string(), output_path).unwrap(),
-            note_comments: TableDataWriter::new("public.note_comments".to_string(), template_mapping["public.note_comments"].to_string(), output_path).unwrap(),
-            notes: TableDataWriter::new("public.notes".to_string(), template_mapping["public.notes"].to_string(), output_path).unwrap(),
-            oauth_access_grants: TableDataWriter::new("public.oauth_access_grants".to_string(), template_mapping["public.oauth_access_grants"].to_string(), output_path).unwrap(),
-            oauth_access_tokens: TableDataWriter::new("public.oauth_access_tokens".to_string(), template_mapping["public.oauth_access_tokens"].to_string(), output_path).unwrap(),
-            oauth_applications: TableDataWriter::new("public.oauth_applications".to_string(), template_mapping["public.oauth_applications"].to_string(), output_path).unwrap(),
-            oauth_nonces: TableDataWriter::new("public.oauth_nonces".to_string(), template_mapping["public.oauth_nonces"].to_string(), output_path).unwrap(),
-            oauth_tokens: TableDataWriter::new("public.oauth_tokens".to_string(), template_mapping["public.oauth_tokens"].to_string(), output_path).unwrap(),
-            redactions: TableDataWriter::new("public.redactions".to_string(), template_mapping["public.redactions"].to_string(), output_path).unwrap(),
-            relation_members: TableDataWriter::new("public.relation_members".to_string(), template_mapping["public.relation_members"].to_string(), output_path).unwrap(),
-            relation_tags: TableDataWriter::new("public.relation_tags".to_string(), template_mapping["public.relation_tags"].to_string(), output_path).unwrap(),
-            relations: TableDataWriter::new("public.relations".to_string(), template_mapping["public.relations"].to_string(), output_path).unwrap(),
-            reports: TableDataWriter::new("public.reports".to_string(), template_mapping["public.reports"].to_string(), output_path).unwrap(),
-            schema_migrations: TableDataWriter::new("public.schema_migrations".to_string(), template_mapping["public.schema_migrations"].to_string(), output_path).unwrap(),
-            user_blocks: TableDataWriter::new("public.user_blocks".to_string(), template_mapping["public.user_blocks"].to_string(), output_path).unwrap(),
-            user_preferences: TableDataWriter::new("public.user_preferences".to_string(), template_mapping["public.user_preferences"].to_string(), output_path).unwrap(),
-            user_roles: TableDataWriter::new("public.user_roles".to_string(), template_mapping["public.user_roles"].to_string(), output_path).unwrap(),
-            user_tokens: TableDataWriter::new("public.user_tokens".to_string(), template_mapping["public.user_tokens"].to_string(), output_path).unwrap(),
-            users: TableDataWriter::new("public.users".to_string(), template_mapping["public.users"].to_string(), output_path).unwrap(),
-            way_nodes: TableDataWriter::new("public.way_nodes".to_string(), template_mapping["public.way_nodes"].to_string(), output_path).unwrap(),
-            way_tags: TableDataWriter::new("public.way_tags".to_string(), template_mapping["public.way_tags"].to_string(), output_path).unwrap(),
-            ways: TableDataWriter::new("public.ways".to_string(), template_mapping["public.ways"].to_string(), output_path).unwrap(),
+            acls: TableDataWriter::new("public.acls".to_string(), template_mapping["public.acls"].to_string(), output_path)?,
+            active_storage_attachments: TableDataWriter::new("public.active_storage_attachments".to_string(), template_mapping["public.active_storage_attachments"].to_string(), output_path)?,
+            active_storage_blobs: TableDataWriter::new("public.active_storage_blobs".to_string(), template_mapping["public.active_storage_blobs"].to_string(), output_path)?,
+            active_storage_variant_records: TableDataWriter::new("public.active_storage_variant_records".to_string(), template_mapping["public.active_storage_variant_records"].to_string(), output_path)?,
+            ar_internal_metadata: TableDataWriter::new("public.ar_internal_metadata".to_string(), template_mapping["public.ar_internal_metadata"].to_string(), output_path)?,
+            changeset_comments: TableDataWriter::new("public.changeset_comments".to_string(), template_mapping["public.changeset_comments"].to_string(), output_path)?,
+            changeset_tags: TableDataWriter::new("public.changeset_tags".to_string(), template_mapping["public.changeset_tags"].to_string(), output_path)?,
+            changesets: TableDataWriter::new("public.changesets".to_string(), template_mapping["public.changesets"].to_string(), output_path)?,
+            changesets_subscribers: TableDataWriter::new("public.changesets_subscribers".to_string(), template_mapping["public.changesets_subscribers"].to_string(), output_path)?,
+            client_applications: TableDataWriter::new("public.client_applications".to_string(), template_mapping["public.client_applications"].to_string(), output_path)?,
+            current_node_tags: TableDataWriter::new("public.current_node_tags".to_string(), template_mapping["public.current_node_tags"].to_string(), output_path)?,
+            current_nodes: TableDataWriter::new("public.current_nodes".to_string(), template_mapping["public.current_nodes"].to_string(), output_path)?,
+            current_relation_members: TableDataWriter::new("public.current_relation_members".to_string(), template_mapping["public.current_relation_members"].to_string(), output_path)?,
+            current_relation_tags: TableDataWriter::new("public.current_relation_tags".to_string(), template_mapping["public.current_relation_tags"].to_string(), output_path)?,
+            current_relations: TableDataWriter::new("public.current_relations".to_string(), template_mapping["public.current_relations"].to_string(), output_path)?,
+            current_way_nodes: TableDataWriter::new("public.current_way_nodes".to_string(), template_mapping["public.current_way_nodes"].to_string(), output_path)?,
+            current_way_tags: TableDataWriter::new("public.current_way_tags".to_string(), template_mapping["public.current_way_tags"].to_string(), output_path)?,
+            current_ways: TableDataWriter::new("public.current_ways".to_string(), template_mapping["public.current_ways"].to_string(), output_path)?,
+            delayed_jobs: TableDataWriter::new("public.delayed_jobs".to_string(), template_mapping["public.delayed_jobs"].to_string(), output_path)?,
+            diary_comments: TableDataWriter::new("public.diary_comments".to_string(), template_mapping["public.diary_comments"].to_string(), output_path)?,
+            diary_entries: TableDataWriter::new("public.diary_entries".to_string(), template_mapping["public.diary_entries"].to_string(), output_path)?,
+            diary_entry_subscriptions: TableDataWriter::new("public.diary_entry_subscriptions".to_string(), template_mapping["public.diary_entry_subscriptions"].to_string(), output_path)?,
+            friends: TableDataWriter::new("public.friends".to_string(), template_mapping["public.friends"].to_string(), output_path)?,
+            gps_points: TableDataWriter::new("public.gps_points".to_string(), template_mapping["public.gps_points"].to_string(), output_path)?,
+            gpx_file_tags: TableDataWriter::new("public.gpx_file_tags".to_string(), template_mapping["public.gpx_file_tags"].to_string(), output_path)?,
+            gpx_files: TableDataWriter::new("public.gpx_files".to_string(), template_mapping["public.gpx_files"].to_string(), output_path)?,
+            issue_comments: TableDataWriter::new("public.issue_comments".to_string(), template_mapping["public.issue_comments"].to_string(), output_path)?,
+            issues: TableDataWriter::new("public.issues".to_string(), template_mapping["public.issues"].to_string(), output_path)?,
+            languages: TableDataWriter::new("public.languages".to_string(), template_mapping["public.languages"].to_string(), output_path)?,
+            messages: TableDataWriter::new("public.messages".to_string(), template_mapping["public.messages"].to_string(), output_path)?,
+            node_tags: TableDataWriter::new("public.node_tags".to_string(), template_mapping["public.node_tags"].to_string(), output_path)?,
+            nodes: TableDataWriter::new("public.nodes".to_string(), template_mapping["public.nodes"].to_string(), output_path)?,
+            note_comments: TableDataWriter::new("public.note_comments".to_string(), template_mapping["public.note_comments"].to_string(), output_path)?,
+            notes: TableDataWriter::new("public.notes".to_string(), template_mapping["public.notes"].to_string(), output_path)?,
+            oauth_access_grants: TableDataWriter::new("public.oauth_access_grants".to_string(), template_mapping["public.oauth_access_grants"].to_string(), output_path)?,
+            oauth_access_tokens: TableDataWriter::new("public.oauth_access_tokens".to_string(), template_mapping["public.oauth_access_tokens"].to_string(), output_path)?,
+            oauth_applications: TableDataWriter::new("public.oauth_applications".to_string(), template_mapping["public.oauth_applications"].to_string(), output_path)?,
+            oauth_nonces: TableDataWriter::new("public.oauth_nonces".to_string(), template_mapping["public.oauth_nonces"].to_string(), output_path)?,
+            oauth_tokens: TableDataWriter::new("public.oauth_tokens".to_string(), template_mapping["public.oauth_tokens"].to_string(), output_path)?,
+            redactions: TableDataWriter::new("public.redactions".to_string(), template_mapping["public.redactions"].to_string(), output_path)?,
+            relation_members: TableDataWriter::new("public.relation_members".to_string(), template_mapping["public.relation_members"].to_string(), output_path)?,
+            relation_tags: TableDataWriter::new("public.relation_tags".to_string(), template_mapping["public.relation_tags"].to_string(), output_path)?,
+            relations: TableDataWriter::new("public.relations".to_string(), template_mapping["public.relations"].to_string(), output_path)?,
+            reports: TableDataWriter::new("public.reports".to_string(), template_mapping["public.reports"].to_string(), output_path)?,
+            schema_migrations: TableDataWriter::new("public.schema_migrations".to_string(), template_mapping["public.schema_migrations"].to_string(), output_path)?,
+            user_blocks: TableDataWriter::new("public.user_blocks".to_string(), template_mapping["public.user_blocks"].to_string(), output_path)?,
+            user_preferences: TableDataWriter::new("public.user_preferences".to_string(), template_mapping["public.user_preferences"].to_string(), output_path)?,
+            user_roles: TableDataWriter::new("public.user_roles".to_string(), template_mapping["public.user_roles"].to_string(), output_path)?,
+            user_tokens: TableDataWriter::new("public.user_tokens".to_string(), template_mapping["public.user_tokens"].to_string(), output_path)?,
+            users: TableDataWriter::new("public.users".to_string(), template_mapping["public.users"].to_string(), output_path)?,
+            way_nodes: TableDataWriter::new("public.way_nodes".to_string(), template_mapping["public.way_nodes"].to_string(), output_path)?,
+            way_tags: TableDataWriter::new("public.way_tags".to_string(), template_mapping["public.way_tags"].to_string(), output_path)?,
+            ways: TableDataWriter::new("public.ways".to_string(), template_mapping["public.ways"].to_string(), output_path)?,
 
             user_index,
             changeset_user_index,
-- 
2.43.0


From 9dcb263879a41cfbbe4dc0af54e35609b6540915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 25/37] fix: a blob header without a type is damage, not an
 unknown type of block

---
 src/osm/pbf/blob_iterator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index 34db45d..f638219 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -55,6 +55,9 @@ impl BlobIterator {
             .with_context(|| anyhow!("Failed to read a blob header at offset {} in {:?}", self.offset, self.path))?;
         let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer))
             .with_context(|| anyhow!("Failed to decode a blob header at offset {} in {:?}", self.offset, self.path))?;
+        if blob_header.r#type.is_empty() {
+            return Err(anyhow!("A blob header without a type at offset {} in {:?}", self.offset, self.path));
+        }
         let start = self.offset + 4 + blob_header_len;
         let length = self.verify_available(start, blob_header.datasize)?;
         self.offset = start + length;
-- 
2.43.0


From d9972f04ab9d9707fef37f47f67cdde368ed8d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 26/37] fix: read errors and incomplete or lost rows of a dump
 are reported, not passed over

---
 src/osm/apidb_dump/read/reader.rs       | 29 ++++++++++++++++++++++++-
 src/osm/apidb_dump/read/table_reader.rs |  4 ++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/osm/apidb_dump/read/reader.rs b/src/osm/apidb_dump/read/reader.rs
index a4d8d3d..ffbea3b 100644
--- a/src/osm/apidb_dump/read/reader.rs
+++ b/src/osm/apidb_dump/read/reader.rs
@@ -1,7 +1,9 @@
 use std::collections::HashMap;
 use std::fs;
+use std::fs::File;
+use std::io::{Read, Seek, SeekFrom};
 use std::ops::{AddAssign, SubAssign};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use anyhow::{anyhow, Context};
 
 use regex::Regex;
@@ -80,11 +82,36 @@ impl Reader {
             text_file.with_fields(table_def.pkey().key());
             text_file.with_ignore_empty();
             text_file.with_ignore_lines(ignore_regex.clone());
+            let rows_length = Self::rows_length(&table_def.path())?;
             text_file.sort()?;
+            let sorted_length = fs::metadata(table_def.sorted_path())?.len();
+            if sorted_length != rows_length {
+                return Err(anyhow!("Sorting {} lost data, {} bytes of {}", table_def.path().display(), sorted_length, rows_length));
+            }
         }
         Ok(())
     }
 
+    // pg_dump closes the data of every table by the end marker, possibly followed by empty lines
+    fn rows_length(path: &Path) -> Result<u64, anyhow::Error> {
+        const END_MARKER: &[u8] = "\\.".as_bytes();
+        let mut file = File::open(path)
+            .with_context(|| anyhow!("path: {}", path.display()))?;
+        let length = file.metadata()?.len();
+        file.seek(SeekFrom::Start(length.saturating_sub(16)))?;
+        let mut tail = Vec::new();
+        file.read_to_end(&mut tail)?;
+        let tail = tail.trim_ascii_end();
+        match tail.strip_suffix(END_MARKER) {
+            Some(rows) if rows.is_empty() || rows.ends_with(b"\n") => {
+                Ok(length.saturating_sub(16) + rows.len() as u64)
+            }
+            _ => {
+                Err(anyhow!("No end marker, {} is incomplete", path.display()))
+            }
+        }
+    }
+
     fn get_table_def_strings(toc: &[u8]) -> Vec<(String, String)> {
         // COPY public.node_tags (node_id, version, k, v) FROM stdin;......3838.dat
         let mut result: Vec<(String, String)> = Vec::new();
diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 9eb186d..b4bcee7 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -518,8 +518,8 @@ impl Iterator for TableIterator {
                     }
                 }
             }
-            Err(_) => {
-                None
+            Err(e) => {
+                panic!("Failed to read {}:{}: {}", self.record_builder.table_def.sorted_path().display(), self.line_number, e)
             }
         }
     }
-- 
2.43.0


From 4e431c67a037ce569b68eba28e22b7cff22150b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:04 +0000
Subject: [PATCH 27/37] fix: a sequential PBF writer does not forget that a
 write failed

---
 src/osm/pbf/writer.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index 5542736..390139f 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -63,6 +63,7 @@ pub struct Writer {
     compression_type: CompressionType,
     file: File,
     element_accumulator: ElementAccumulator,
+    failed: bool,
 }
 
 impl Writer {
@@ -81,6 +82,7 @@ impl Writer {
                 compression_type,
                 file,
                 element_accumulator: ElementAccumulator::new(),
+                failed: false,
             }
         )
     }
@@ -149,6 +151,13 @@ impl Writer {
 
     /// Low level API to write a bytes of a blob
     pub fn write_blob(&mut self, blob_header: Vec<u8>, blob_body: Vec<u8>) -> Result<(), anyhow::Error> {
+        self.verify_not_failed()?;
+        let result = self.write_blob_bytes(blob_header, blob_body);
+        self.failed = result.is_err();
+        result
+    }
+
+    fn write_blob_bytes(&mut self, blob_header: Vec<u8>, blob_body: Vec<u8>) -> Result<(), anyhow::Error> {
         let blob_header_len: i32 = blob_header.len() as i32;
         self.file.write_all(&blob_header_len.to_be_bytes())?;
         self.file.write_all(&blob_header)?;
@@ -157,6 +166,15 @@ impl Writer {
         Ok(())
     }
 
+    // what was lost by a failed write can't be made up for by later calls
+    fn verify_not_failed(&self) -> Result<(), anyhow::Error> {
+        if self.failed {
+            Err(anyhow!("An earlier write to {} failed", self.path.display()))
+        } else {
+            Ok(())
+        }
+    }
+
     /// Write element
     ///
     /// Elements must be ordered, that is each element must be less then or equal to the following
@@ -194,14 +212,16 @@ impl Writer {
             ),
             data: OsmData::from_elements(elements, None),
         };
-        self.write_file_block(data)?;
-        Ok(())
+        let result = self.write_file_block(data);
+        self.failed = result.is_err();
+        result
     }
 
     /// Flush the internal buffers.
     ///
     /// Must be called in the end to write any elements accumulated in internal buffers
     pub fn close(&mut self) -> Result<(), anyhow::Error> {
+        self.verify_not_failed()?;
         let elements = self.element_accumulator.elements();
         if !elements.is_empty() {
             self.write_block(elements)?;
-- 
2.43.0


From e1058fc997926aa2c35b182bfdbb94954e914015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 28/37] fix: the sequential PBF writer writes the header once
 and refuses elements without it

---
 src/osm/pbf/writer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index 390139f..ecc0fcf 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -63,6 +63,7 @@ pub struct Writer {
     compression_type: CompressionType,
     file: File,
     element_accumulator: ElementAccumulator,
+    started: bool,
     failed: bool,
 }
 
@@ -82,6 +83,7 @@ impl Writer {
                 compression_type,
                 file,
                 element_accumulator: ElementAccumulator::new(),
+                started: false,
                 failed: false,
             }
         )
@@ -136,6 +138,9 @@ impl Writer {
     /// bounding box must be calculated before writing the file. I some cases that can incur a
     /// costly additional iteration.
     pub fn write_header(&mut self) -> Result<(), anyhow::Error> {
+        if self.started {
+            return Err(anyhow!("The header must be written once, before everything else"));
+        }
         let file_block = FileBlock::from_header(
             OsmHeader::from_file_info(self.file_info.clone())
         );
@@ -152,6 +157,7 @@ impl Writer {
     /// Low level API to write a bytes of a blob
     pub fn write_blob(&mut self, blob_header: Vec<u8>, blob_body: Vec<u8>) -> Result<(), anyhow::Error> {
         self.verify_not_failed()?;
+        self.started = true;
         let result = self.write_blob_bytes(blob_header, blob_body);
         self.failed = result.is_err();
         result
@@ -204,6 +210,10 @@ impl Writer {
         if elements.is_empty() {
             return Ok(());
         }
+        if !self.started {
+            self.failed = true;
+            return Err(anyhow!("The header must be written before elements"));
+        }
         let index = self.element_accumulator.index();
         let data = FileBlock::Data {
             metadata: FileBlockMetadata::new(
-- 
2.43.0


From aee3048549fe0d61c28186be3d0c7f42d121ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:53 +0000
Subject: [PATCH 29/37] fix: a closed or failed dump writer is not written to
 again

---
 src/osm/apidb_dump/write/writer.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 82a94be..e952d18 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -2,7 +2,7 @@ use std::fs;
 use std::io::Write;
 use std::path::PathBuf;
 
-use anyhow::{Context, Error};
+use anyhow::{anyhow, Context, Error};
 
 use crate::osm::apidb_dump::sql::{calculate_tile, escape_text, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
@@ -13,6 +13,13 @@ use crate::osm::model::node::Node;
 use crate::osm::model::relation::{Member, Relation};
 use crate::osm::model::way::Way;
 
+#[derive(Clone, Copy, PartialEq)]
+enum WriterState {
+    Open,
+    Closed,
+    Failed,
+}
+
 /// Writer of apidb schema dump
 ///
 /// Writer of apidb schema dump that can be loaded using pg_restore into a Postgresql database
@@ -30,6 +37,7 @@ pub struct Writer {
     current_relation_line: CurrentObjectLine,
     current_relation_member_lines: CurrentObjectLines,
     current_relation_tag_lines: CurrentObjectLines,
+    state: WriterState,
 }
 
 impl Writer {
@@ -54,12 +62,20 @@ impl Writer {
                 current_relation_line: CurrentObjectLine::new(),
                 current_relation_member_lines: CurrentObjectLines::new(),
                 current_relation_tag_lines: CurrentObjectLines::new(),
+                state: WriterState::Open,
             }
         )
     }
 
     /// Write an element
     pub fn write_element(&mut self, element: Element) -> Result<(), Error> {
+        match self.state {
+            WriterState::Open => {}
+            WriterState::Closed => return Err(anyhow!("The writer of {:?} is closed", self.output_path)),
+            WriterState::Failed => return Err(self.failed_error()),
+        }
+        // what was lost by a failed write can't be made up for by later calls
+        self.state = WriterState::Failed;
         match element {
             Element::Node { node } => {
                 self.write_node(node)?;
@@ -72,9 +88,14 @@ impl Writer {
             }
             Element::Sentinel => {}
         }
+        self.state = WriterState::Open;
         Ok(())
     }
 
+    fn failed_error(&self) -> Error {
+        anyhow!("An earlier write to {:?} failed", self.output_path)
+    }
+
     fn write_node(&mut self, mut node: Node) -> Result<(), Error> {
         self.writers.user_index_buffer.insert(node.uid() as i64, node.take_user());
         self.writers.changeset_user_index_buffer.insert(node.changeset(), node.uid() as i64);
@@ -534,11 +555,18 @@ impl Writer {
 
     /// Flush internal buffers and add file terminators
     pub fn close(&mut self) -> Result<(), Error> {
+        match self.state {
+            WriterState::Open => {}
+            WriterState::Closed => return Ok(()),
+            WriterState::Failed => return Err(self.failed_error()),
+        }
+        self.state = WriterState::Failed;
         self.flush_current_object_lines()?;
         self.writers.flush_buffers()?;
         self.write_users()?;
         self.write_changesets()?;
         self.writers.close()?;
+        self.state = WriterState::Closed;
         Ok(())
     }
 
-- 
2.43.0


From 2dd143c6dd40445a38e734d0fa172443fd729c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 30/37] fix: parallel iteration with no tasks fails instead of
 waiting forever

---
 src/osm/pbf/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 0d5bd1f..8343eb0 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -183,6 +183,9 @@ impl Reader {
     /// }
     /// ```
     pub fn parallel_for_each(&self, tasks: usize, f: impl Fn(Element) -> Result<(), anyhow::Error> + Send + Sync + 'static) -> Result<(), anyhow::Error> {
+        if tasks == 0 {
+            return Err(anyhow!("At least one task is required"));
+        }
         let mut iteration_pool = ThreadPoolBuilder::new()
             .with_tasks(tasks)
             .with_queue_size(1024)
-- 
2.43.0


From cdc1769f3aec494a33d4ea01411db143e93eb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 31/37] fix: the parallel writer refuses empty blocks and takes
 blocks of any other size

---
 src/osm/pbf/parallel_writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 12259e9..8fc3e5a 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -68,7 +68,8 @@ fn flush_all_sorted() {
 }
 
 fn split_file_block(element_ordering_buffer: &RefCell<VecDeque<Element>>) -> Vec<Element> {
-    let mut elements = Vec::with_capacity(file_block_size());
+    let capacity = file_block_size().min(element_ordering_buffer.borrow().len());
+    let mut elements = Vec::with_capacity(capacity);
     for _i in 0..file_block_size() {
         let element = element_ordering_buffer.borrow_mut().pop_front();
         match element {
@@ -344,6 +345,9 @@ impl ParallelWriter {
         file_info: FileInfo,
         compression_type: CompressionType,
     ) -> Result<ParallelWriter, Error> {
+        if file_block_size == 0 {
+            return Err(anyhow!("file_block_size must be positive"));
+        }
         let element_ordering_pool = Self::create_thread_pool("element-ordering", 1, 256)?;
         let encoding_pool = Self::create_thread_pool("encoding", 4, 256)?;
         let writing_pool = Self::create_thread_pool("writing", 1, 256)?;
-- 
2.43.0


From 1c69af2fd8f321c823eebd50c79c3b756a20caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:52 +0000
Subject: [PATCH 32/37] fix: threads are not started for a file that cannot be
 opened, and so not left behind

---
 src/osm/pbf/bounding_box_calculator.rs | 4 ++--
 src/osm/pbf/reader.rs                  | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index 65e1e6e..21eb33b 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -22,6 +22,7 @@ impl BoundingBoxCalculator {
     }
 
     pub fn calc(&self) -> Result<BoundingBox, anyhow::Error> {
+        let blobs = Reader::new(&self.path)?.blobs()?;
         let mut tp = ThreadPoolBuilder::new()
             .with_name_str("bounding-box-calculator")
             .with_tasks(num_cpus::get())
@@ -35,9 +36,8 @@ impl BoundingBoxCalculator {
                 None
             )
         );
-        let reader = Reader::new(&self.path)?;
         let mut read_result = Ok(());
-        for blob in reader.blobs()? {
+        for blob in blobs {
             match blob {
                 Ok(blob) => {
                     tp.submit(
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 8343eb0..f250205 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -186,6 +186,7 @@ impl Reader {
         if tasks == 0 {
             return Err(anyhow!("At least one task is required"));
         }
+        let blobs = self.blobs()?;
         let mut iteration_pool = ThreadPoolBuilder::new()
             .with_tasks(tasks)
             .with_queue_size(1024)
@@ -196,7 +197,7 @@ impl Reader {
 
         let f_wrapper = Arc::new(f);
         let mut result = Ok(());
-        for blob_desc in self.blobs()? {
+        for blob_desc in blobs {
             match blob_desc {
                 Ok(blob_desc) => {
                     let f_wrapper_clone = f_wrapper.clone();
-- 
2.43.0


From 7a2450483f5a2271c76692b376796b5fdfd61777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 33/37] fix: dropping a parallel writer that was not closed
 stops its threads

---
 src/osm/pbf/parallel_writer.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 8fc3e5a..1160da1 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -334,6 +334,7 @@ pub struct ParallelWriter {
     element_ordering_pool: Arc<RwLock<ThreadPool>>,
     encoding_pool: Arc<RwLock<ThreadPool>>,
     writing_pool: Arc<RwLock<ThreadPool>>,
+    closed: bool,
 }
 
 impl ParallelWriter {
@@ -366,6 +367,7 @@ impl ParallelWriter {
                 element_ordering_pool,
                 encoding_pool,
                 writing_pool,
+                closed: false,
             }
         )
     }
@@ -427,6 +429,7 @@ impl ParallelWriter {
 
     /// Flush internal buffers.
     pub fn close(&mut self) -> Result<(), Error> {
+        self.closed = true;
         self.flush_element_ordering();
         // all the pools have to be shut down also when one of them failed
         let element_ordering_result = Self::shutdown(self.element_ordering_pool.clone());
@@ -474,4 +477,17 @@ impl ParallelWriter {
         thread_pool.shutdown();
         thread_pool.join()
     }
-}
\ No newline at end of file
+}
+
+impl Drop for ParallelWriter {
+    /// Stop the threads of a writer that was not closed
+    fn drop(&mut self) {
+        if !self.closed {
+            for pool in [&self.element_ordering_pool, &self.encoding_pool, &self.writing_pool] {
+                if let Err(e) = Self::shutdown(pool.clone()) {
+                    log::error!("Failed to stop a thread pool: {e}");
+                }
+            }
+        }
+    }
+}
-- 
2.43.0


From 71dca6e696145329a637f76b83f4c42d740225cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:23 +0000
Subject: [PATCH 34/37] fix: writers keep blobs within the size that the PBF
 format allows

---
 src/osm/pbf/file_block.rs      | 48 +++++++++++++++++++++++++++++---
 src/osm/pbf/parallel_writer.rs | 51 ++++++++++++++++------------------
 src/osm/pbf/writer.rs          | 20 ++++++-------
 3 files changed, 77 insertions(+), 42 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index b76cd0a..6bea570 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -18,6 +18,11 @@ use crate::osm::pbf::osm_header::OsmHeader;
 use crate::osmpbf::BlobHeader;
 use crate::osmpbf::blob::Data;
 
+// the uncompressed length of a blob should be less than this
+const RECOMMENDED_BLOB_SIZE: usize = 16 * 1024 * 1024;
+// the uncompressed length of a blob must be less than this
+const MAX_BLOB_SIZE: usize = 32 * 1024 * 1024;
+
 /// A header or data file block in *.osm.pbf file
 #[derive(Debug)]
 pub enum FileBlock {
@@ -176,16 +181,48 @@ impl FileBlock {
     }
 
     pub(crate) fn serialize(file_block: &FileBlock, compression: CompressionType) -> Result<(Vec<u8>, Vec<u8>), anyhow::Error> {
-        let (blob_type, compression_level, block_data) = match file_block {
+        Self::serialize_blob(file_block, file_block.serialize_data()?, compression)
+    }
+
+    /// Serialize elements of the same type to a blob, or to several blobs when they are too many
+    /// for the size that one blob may have
+    pub(crate) fn serialize_elements(index: usize, elements: Vec<Element>, compression: CompressionType) -> Result<Vec<(Vec<u8>, Vec<u8>)>, anyhow::Error> {
+        let len = elements.len();
+        let mut file_block = Self::from_elements(index, elements);
+        let block_data = file_block.serialize_data()?;
+        if block_data.len() < RECOMMENDED_BLOB_SIZE || len < 2 {
+            return Ok(vec![Self::serialize_blob(&file_block, block_data, compression)?]);
+        }
+        let mut elements = file_block.take_elements();
+        let tail = elements.split_off(len / 2);
+        let mut blobs = Self::serialize_elements(index, elements, compression.clone())?;
+        blobs.append(&mut Self::serialize_elements(index, tail, compression)?);
+        Ok(blobs)
+    }
+
+    fn serialize_data(&self) -> Result<Vec<u8>, anyhow::Error> {
+        match self {
             FileBlock::Header { metadata: _, header } => {
-                ("OSMHeader".to_string(), Compression::none(), header.serialize()?)
+                header.serialize()
             }
             FileBlock::Data { metadata: _, data } => {
-                ("OSMData".to_string(), Compression::default(), data.serialize()?)
+                data.serialize()
+            }
+        }
+    }
+
+    fn serialize_blob(file_block: &FileBlock, block_data: Vec<u8>, compression: CompressionType) -> Result<(Vec<u8>, Vec<u8>), anyhow::Error> {
+        let (blob_type, compression_level) = match file_block {
+            FileBlock::Header { .. } => {
+                ("OSMHeader".to_string(), Compression::none())
+            }
+            FileBlock::Data { .. } => {
+                ("OSMData".to_string(), Compression::default())
             }
         };
 
-        let raw_size = Some(block_data.len() as i32);
+        let block_data_len = block_data.len();
+        let raw_size = Some(block_data_len as i32);
         let data = match compression {
             CompressionType::Uncompressed => {
                 Some(Data::Raw(block_data))
@@ -201,6 +238,9 @@ impl FileBlock {
             data,
         };
         let body = blob.encode_to_vec();
+        if block_data_len.max(body.len()) >= MAX_BLOB_SIZE {
+            return Err(anyhow!("The data is too large for a blob: {} bytes", block_data_len));
+        }
 
         let blob_header = BlobHeader {
             r#type: blob_type,
diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 1160da1..9cca0d0 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -30,7 +30,7 @@ thread_local! {
     static CURRENT_MIN_ELEMENT: RefCell<Option<Element>> = const { RefCell::new(None) };
 
     #[allow(clippy::type_complexity)]
-    pub static BLOB_ORDERING_BUFFER: RefCell<HashMap<usize, (Vec<u8>, Vec<u8>)>> = RefCell::new(HashMap::new());
+    pub static BLOB_ORDERING_BUFFER: RefCell<HashMap<usize, Vec<(Vec<u8>, Vec<u8>)>>> = RefCell::new(HashMap::new());
     // the first expected block is #1. #0 is the header
     pub static NEXT_TO_WRITE: RefCell<usize> = const { RefCell::new(1) };
     pub static PBF_WRITER: RefCell<Option<Writer>> = const { RefCell::new(None) };
@@ -227,11 +227,10 @@ impl EncodeFileBlockCommand {
 impl Command for EncodeFileBlockCommand {
     fn execute(&self) -> Result<(), Error> {
         let mut elements_guard = self.elements.lock().unwrap();
-        let file_block = FileBlock::from_elements(self.index, std::mem::take(&mut elements_guard));
-        let mut blob_header = Vec::new();
-        let mut blob_body = Vec::new();
+        let elements = std::mem::take(elements_guard.deref_mut());
+        let mut blobs = Vec::new();
         no_panic(|| {
-            (blob_header, blob_body) = FileBlock::serialize(&file_block, compression_type())?;
+            blobs = FileBlock::serialize_elements(self.index, elements, compression_type())?;
             Ok(())
         })?;
         NEXT_THREAD_POOL.with(|thread_pool| {
@@ -240,7 +239,7 @@ impl Command for EncodeFileBlockCommand {
             thread_pool_guard.submit(
                 Box::new(
                     WriteBlobCommand::new(
-                        self.index, Mutex::new(blob_header), Mutex::new(blob_body),
+                        self.index, Mutex::new(blobs),
                     )
                 )
             );
@@ -251,16 +250,14 @@ impl Command for EncodeFileBlockCommand {
 
 struct WriteBlobCommand {
     index: usize,
-    blob_header: Mutex<Vec<u8>>,
-    blob_body: Mutex<Vec<u8>>,
+    blobs: Mutex<Vec<(Vec<u8>, Vec<u8>)>>,
 }
 
 impl WriteBlobCommand {
-    fn new(index: usize, blob_header: Mutex<Vec<u8>>, blob_body: Mutex<Vec<u8>>) -> WriteBlobCommand {
+    fn new(index: usize, blobs: Mutex<Vec<(Vec<u8>, Vec<u8>)>>) -> WriteBlobCommand {
         WriteBlobCommand {
             index,
-            blob_header,
-            blob_body,
+            blobs,
         }
     }
 }
@@ -269,13 +266,11 @@ impl Command for WriteBlobCommand {
     fn execute(&self) -> Result<(), Error> {
         BLOB_ORDERING_BUFFER.with(
             |buffer| {
-                let mut blob_header_guard = self.blob_header.lock().unwrap();
-                let blob_header = std::mem::take(blob_header_guard.deref_mut());
-                let mut blob_body_guard = self.blob_body.lock().unwrap();
-                let blob_body = std::mem::take(blob_body_guard.deref_mut());
+                let mut blobs_guard = self.blobs.lock().unwrap();
+                let blobs = std::mem::take(blobs_guard.deref_mut());
                 buffer
                     .borrow_mut()
-                    .insert(self.index, (blob_header, blob_body));
+                    .insert(self.index, blobs);
             }
         );
 
@@ -294,17 +289,19 @@ impl Command for WriteBlobCommand {
                                 *next.borrow_mut() = i;
                                 break;
                             }
-                            Some((header, body)) => {
-                                PBF_WRITER.with(
-                                    |writer| {
-                                        writer.borrow_mut().as_mut()
-                                            .ok_or_else(|| anyhow!("The header must be written before elements"))?
-                                            .write_blob(header, body)
-                                            .context("Failed to write a blob")
-                                    }
-                                ).inspect_err(|_| {
-                                    WRITE_FAILED.with(|write_failed| write_failed.replace(true));
-                                })?;
+                            Some(blobs) => {
+                                for (header, body) in blobs {
+                                    PBF_WRITER.with(
+                                        |writer| {
+                                            writer.borrow_mut().as_mut()
+                                                .ok_or_else(|| anyhow!("The header must be written before elements"))?
+                                                .write_blob(header, body)
+                                                .context("Failed to write a blob")
+                                        }
+                                    ).inspect_err(|_| {
+                                        WRITE_FAILED.with(|write_failed| write_failed.replace(true));
+                                    })?;
+                                }
                             }
                         }
                     }
diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index ecc0fcf..546881d 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -9,9 +9,7 @@ use crate::osm::model::element::Element;
 use crate::osm::pbf::compression_type::CompressionType;
 use crate::osm::pbf::element_accumulator::ElementAccumulator;
 use crate::osm::pbf::file_block::FileBlock;
-use crate::osm::pbf::file_block_metadata::FileBlockMetadata;
 use crate::osm::pbf::file_info::FileInfo;
-use crate::osm::pbf::osm_data::OsmData;
 use crate::osm::pbf::osm_header::OsmHeader;
 
 /// *.osm.pbf file reader
@@ -214,19 +212,19 @@ impl Writer {
             self.failed = true;
             return Err(anyhow!("The header must be written before elements"));
         }
-        let index = self.element_accumulator.index();
-        let data = FileBlock::Data {
-            metadata: FileBlockMetadata::new(
-                "OSMData".to_string(),
-                index,
-            ),
-            data: OsmData::from_elements(elements, None),
-        };
-        let result = self.write_file_block(data);
+        let result = self.write_elements_block(elements);
         self.failed = result.is_err();
         result
     }
 
+    fn write_elements_block(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
+        let index = self.element_accumulator.index();
+        for (blob_header, blob_body) in FileBlock::serialize_elements(index, elements, self.compression_type.clone())? {
+            self.write_blob(blob_header, blob_body)?;
+        }
+        Ok(())
+    }
+
     /// Flush the internal buffers.
     ///
     /// Must be called in the end to write any elements accumulated in internal buffers
-- 
2.43.0


From dd730810ccf43ad4d68e2575d7bb2ddea4ff31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:18 +0000
Subject: [PATCH 35/37] fix: dumps are read in which columns that may be NULL
 are NULL

A changeset without changes, or of relations only, has no bounding box, and the
home zoom of a user may be NULL as well.
---
 src/osm/apidb_dump/read/changeset_record.rs | 24 ++++++++++-----------
 src/osm/apidb_dump/read/table_reader.rs     | 12 +++++------
 src/osm/apidb_dump/read/user_record.rs      |  6 +++---
 src/osm/apidb_dump/sql.rs                   |  8 +++++++
 4 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/osm/apidb_dump/read/changeset_record.rs b/src/osm/apidb_dump/read/changeset_record.rs
index 928bacc..086d489 100644
--- a/src/osm/apidb_dump/read/changeset_record.rs
+++ b/src/osm/apidb_dump/read/changeset_record.rs
@@ -5,10 +5,10 @@ pub(crate) struct ChangesetRecord {
     id: i64,
     user_id: i64,
     created_at: NaiveDateTime,
-    min_lat: i32,
-    max_lat: i32,
-    min_lon: i32,
-    max_lon: i32,
+    min_lat: Option<i32>,
+    max_lat: Option<i32>,
+    min_lon: Option<i32>,
+    max_lon: Option<i32>,
     closed_at: NaiveDateTime,
     num_changes: i32,
 }
@@ -19,10 +19,10 @@ impl ChangesetRecord {
         id: i64,
         user_id: i64,
         created_at: NaiveDateTime,
-        min_lat: i32,
-        max_lat: i32,
-        min_lon: i32,
-        max_lon: i32,
+        min_lat: Option<i32>,
+        max_lat: Option<i32>,
+        min_lon: Option<i32>,
+        max_lon: Option<i32>,
         closed_at: NaiveDateTime,
         num_changes: i32,
     ) -> ChangesetRecord {
@@ -53,22 +53,22 @@ impl ChangesetRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lat(&self) -> i32 {
+    pub(crate) fn min_lat(&self) -> Option<i32> {
         self.min_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lat(&self) -> i32 {
+    pub(crate) fn max_lat(&self) -> Option<i32> {
         self.max_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lon(&self) -> i32 {
+    pub(crate) fn min_lon(&self) -> Option<i32> {
         self.min_lon
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lon(&self) -> i32 {
+    pub(crate) fn max_lon(&self) -> Option<i32> {
         self.max_lon
     }
 
diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index b4bcee7..8451a89 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -18,7 +18,7 @@ use crate::osm::apidb_dump::read::user_record::{FormatEnum, UserRecord, UserStat
 use crate::osm::apidb_dump::read::way_node_record::WayNodeRecord;
 use crate::osm::apidb_dump::read::way_record::WayRecord;
 use crate::osm::apidb_dump::read::way_tag_record::WayTagRecord;
-use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time, unescape_text};
+use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null, parse_sql_null_string, parse_sql_time, unescape_text};
 
 struct RecordBuilder {
     f: fn(&str, &TableDef, usize) -> Option<TableRecord>,
@@ -374,10 +374,10 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             i64::from_str(columns[*user_id]).unwrap(),
                             parse_sql_time(columns[*created_at]).unwrap(),
-                            i32::from_str(columns[*min_lat]).unwrap(),
-                            i32::from_str(columns[*max_lat]).unwrap(),
-                            i32::from_str(columns[*min_lon]).unwrap(),
-                            i32::from_str(columns[*max_lon]).unwrap(),
+                            parse_sql_null(columns[*min_lat]).unwrap(),
+                            parse_sql_null(columns[*max_lat]).unwrap(),
+                            parse_sql_null(columns[*min_lon]).unwrap(),
+                            parse_sql_null(columns[*max_lon]).unwrap(),
                             parse_sql_time(columns[*closed_at]).unwrap(),
                             i32::from_str(columns[*num_changes]).unwrap(),
                         )
@@ -435,7 +435,7 @@ impl TableReader {
                             unescape_text(columns[*description]),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
-                            i16::from_str(columns[*home_zoom]).unwrap(),
+                            parse_sql_null(columns[*home_zoom]).unwrap(),
                             parse_sql_null_string(columns[*pass_salt]),
                             parse_sql_bool(columns[*email_valid]).unwrap(),
                             parse_sql_null_string(columns[*new_email]),
diff --git a/src/osm/apidb_dump/read/user_record.rs b/src/osm/apidb_dump/read/user_record.rs
index d0d9670..df15ff7 100644
--- a/src/osm/apidb_dump/read/user_record.rs
+++ b/src/osm/apidb_dump/read/user_record.rs
@@ -76,7 +76,7 @@ pub(crate) struct UserRecord {
     description: String,
     home_lat: Option<f64>,
     home_lon: Option<f64>,
-    home_zoom: i16,
+    home_zoom: Option<i16>,
     pass_salt: Option<String>,
     email_valid: bool,
     new_email: Option<String>,
@@ -110,7 +110,7 @@ impl UserRecord {
         description: String,
         home_lat: Option<f64>,
         home_lon: Option<f64>,
-        home_zoom: i16,
+        home_zoom: Option<i16>,
         pass_salt: Option<String>,
         email_valid: bool,
         new_email: Option<String>,
@@ -208,7 +208,7 @@ impl UserRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn home_zoom(&self) -> i16 {
+    pub(crate) fn home_zoom(&self) -> Option<i16> {
         self.home_zoom
     }
 
diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index 5822351..ba76570 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -1,4 +1,5 @@
 use std::ops::{Shl, Shr};
+use std::str::FromStr;
 
 use anyhow::anyhow;
 use chrono::{DateTime, NaiveDateTime, ParseError, SecondsFormat};
@@ -24,6 +25,13 @@ pub(crate) fn to_sql_bool(v: bool) -> char {
     }
 }
 
+pub(crate) fn parse_sql_null<T: FromStr>(s: &str) -> Result<Option<T>, T::Err> {
+    match s {
+        "\\N" => { Ok(None) }
+        _ => { s.parse().map(Some) }
+    }
+}
+
 pub(crate) fn parse_sql_null_string(s: &str) -> Option<String> {
     match s {
         "\\N" => {
-- 
2.43.0


From 90342871406d436ae0cf88c07ccf463a0aa15ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:54 +0000
Subject: [PATCH 36/37] fix: versions and user ids of a dump that an element
 cannot hold are not cut silently

---
 src/osm/apidb_dump/read/element_iterator.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/osm/apidb_dump/read/element_iterator.rs b/src/osm/apidb_dump/read/element_iterator.rs
index 23e92b1..23b0f0d 100644
--- a/src/osm/apidb_dump/read/element_iterator.rs
+++ b/src/osm/apidb_dump/read/element_iterator.rs
@@ -96,6 +96,11 @@ impl ElementIterator {
         }
         Ok(user_index)
     }
+
+    // the database has wider columns than an element has fields
+    fn narrow(value: i64, what: &str) -> i32 {
+        i32::try_from(value).unwrap_or_else(|_| panic!("The {} {} is out of range", what, value))
+    }
 }
 
 impl Iterator for ElementIterator {
@@ -124,14 +129,14 @@ impl Iterator for ElementIterator {
                             Element::Node {
                                 node: Node::new(
                                     n.node().node_id(),
-                                    n.node().version() as i32,
+                                    Self::narrow(n.node().version(), "version"),
                                     Coordinate::new(
                                         n.node().latitude() as f64 / 10000000.0f64,
                                         n.node().longitude() as f64 / 10000000.0f64,
                                     ),
                                     n.node().timestamp().and_utc().timestamp_millis(),
                                     changeset_id,
-                                    uid as i32,
+                                    Self::narrow(uid, "user id"),
                                     user,
                                     n.node().visible(),
                                     n.take_tags().into_iter().map(
@@ -161,10 +166,10 @@ impl Iterator for ElementIterator {
                             Element::Way {
                                 way: Way::new(
                                     w.way().way_id(),
-                                    w.way().version() as i32,
+                                    Self::narrow(w.way().version(), "version"),
                                     w.way().timestamp().and_utc().timestamp_millis(),
                                     changeset_id,
-                                    uid as i32,
+                                    Self::narrow(uid, "user id"),
                                     user,
                                     w.way().visible(),
                                     w.take_way_nodes().into_iter().map(
@@ -198,10 +203,10 @@ impl Iterator for ElementIterator {
                             Element::Relation {
                                 relation: Relation::new(
                                     r.relation().relation_id(),
-                                    r.relation().version() as i32,
+                                    Self::narrow(r.relation().version(), "version"),
                                     r.relation().timestamp().and_utc().timestamp_millis(),
                                     changeset_id,
-                                    uid as i32,
+                                    Self::narrow(uid, "user id"),
                                     user,
                                     r.relation().visible(),
                                     r.take_relation_members().into_iter().map(
-- 
2.43.0


From 11a1058c74615c98ce88ed2286d902fecb40da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:29 +0000
Subject: [PATCH 37/37] fix: tables with quoted names and texts that mention
 COPY do not keep a dump from being read

---
 src/osm/apidb_dump/read/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/read/reader.rs b/src/osm/apidb_dump/read/reader.rs
index ffbea3b..d3c8baa 100644
--- a/src/osm/apidb_dump/read/reader.rs
+++ b/src/osm/apidb_dump/read/reader.rs
@@ -41,7 +41,10 @@ impl Reader {
         let re = Regex::new("^([^ ]+) \\((.+)\\)$").unwrap();
         for raw_table_def in raw_table_defs {
             let table_data_path = input_path.join(&raw_table_def.1);
-            let captures = re.captures(&raw_table_def.0).unwrap();
+            // none of the tables of interest has a quoted name or no columns
+            let Some(captures) = re.captures(&raw_table_def.0) else {
+                continue;
+            };
             let name = captures.get(1).unwrap().as_str();
             if !TableFields::is_of_interest(name) {
                 continue;
@@ -128,10 +131,19 @@ impl Reader {
                 i.add_assign(copy.len());
                 start_table_def = i;
                 while i < toc.len() {
+                    if toc[i..].starts_with(copy) {
+                        // what came before was only text
+                        start_table_def = i + copy.len();
+                    }
                     if toc[i..].starts_with(from_stdin) {
                         end_table_def = i;
                         i.add_assign(from_stdin.len());
                         while i < toc.len() {
+                            if toc[i..].starts_with(copy) {
+                                // only text, without data
+                                i.sub_assign(1);
+                                break;
+                            }
                             if toc[i..].starts_with(dotdat) {
                                 start_file_name = i - 1;
                                 i.add_assign(dotdat.len());
@@ -142,7 +154,7 @@ impl Reader {
                                 start_file_name.add_assign(1);
                                 result.push(
                                     (
-                                        String::from_utf8(toc[start_table_def..end_table_def].to_vec()).unwrap(),
+                                        String::from_utf8_lossy(&toc[start_table_def..end_table_def]).to_string(),
                                         String::from_utf8(toc[start_file_name..end_file_name].to_vec()).unwrap(),
                                     )
                                 );
-- 
2.43.0

