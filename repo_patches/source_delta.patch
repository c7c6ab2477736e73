From dc0b732453e09fca69522ead4edf72d0f9d7204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 01/33] fix: sequential PBF writer accepts streams that skip a
 type and writes no empty blocks

ElementAccumulator panicked on a relation directly after nodes (or first in the
stream) and handed out an empty block when a type change followed a full block
or when the stream had no nodes.
---
 src/osm/pbf/element_accumulator.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/osm/pbf/element_accumulator.rs b/src/osm/pbf/element_accumulator.rs
index 70eaa6b..327bfce 100644
--- a/src/osm/pbf/element_accumulator.rs
+++ b/src/osm/pbf/element_accumulator.rs
@@ -38,12 +38,20 @@ impl ElementAccumulator {
                     }
                     Element::Way { .. } => {
                         self.state = State::Ways;
-                        result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
-                        self.index += 1;
+                        if !self.elements.is_empty() {
+                            result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                            self.index += 1;
+                        }
                         self.add(element);
                     }
                     Element::Relation { .. } => {
-                        panic!("expected Element::Node or Element::Way but got Element::Relation");
+                        // there may be no ways at all
+                        self.state = State::Relations;
+                        if !self.elements.is_empty() {
+                            result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                            self.index += 1;
+                        }
+                        self.add(element);
                     }
                     Element::Sentinel => {}
                 }
@@ -62,8 +70,10 @@ impl ElementAccumulator {
                     }
                     Element::Relation { .. } => {
                         self.state = State::Relations;
-                        result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
-                        self.index += 1;
+                        if !self.elements.is_empty() {
+                            result = Some(std::mem::replace(&mut self.elements, Vec::with_capacity(self.block_size)));
+                            self.index += 1;
+                        }
                         self.add(element);
                     }
                     Element::Sentinel => {}
-- 
2.43.0


From e7e0d6fbe009175347dff3d8d571c6789dc69e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 02/33] fix: round header bounding box edges to nanodegrees
 instead of truncating

Truncation moved edges by one nanodegree on each write.
---
 src/osm/pbf/osm_header.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/osm/pbf/osm_header.rs b/src/osm/pbf/osm_header.rs
index fac0fab..cf80fe6 100644
--- a/src/osm/pbf/osm_header.rs
+++ b/src/osm/pbf/osm_header.rs
@@ -62,10 +62,10 @@ impl OsmHeader {
 
     fn header_bbox(&self) -> Option<osmpbf::HeaderBBox> {
         self.info.bounding_box().as_ref().map(|bounding_box| osmpbf::HeaderBBox {
-            left: (bounding_box.left() * NANODEG) as i64,
-            right: (bounding_box.right() * NANODEG) as i64,
-            top: (bounding_box.top() * NANODEG) as i64,
-            bottom: (bounding_box.bottom() * NANODEG) as i64,
+            left: (bounding_box.left() * NANODEG).round() as i64,
+            right: (bounding_box.right() * NANODEG).round() as i64,
+            top: (bounding_box.top() * NANODEG).round() as i64,
+            bottom: (bounding_box.bottom() * NANODEG).round() as i64,
         })
     }
 
-- 
2.43.0


From 106ae7de30cf417a360abbffb5d29de430488ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 03/33] fix: write a payload for a header block with no fields

A header with nothing set serializes to zero bytes; the blob was then written
without any data field and the file could not be opened again.
---
 src/osm/pbf/file_block.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index b211f4e..d65f85f 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -178,20 +178,16 @@ impl FileBlock {
             }
         };
 
-        let mut raw_size = None;
-        let mut data = None;
-        if !block_data.is_empty() {
-            raw_size = Some(block_data.len() as i32);
-            data = match compression {
-                CompressionType::Uncompressed => {
-                    Some(Data::Raw(block_data))
-                }
-                CompressionType::Zlib => {
-                    let encoded = Self::zlib_encode(block_data, compression_level)?;
-                    Some(Data::ZlibData(encoded))
-                }
-            };
-        }
+        let raw_size = Some(block_data.len() as i32);
+        let data = match compression {
+            CompressionType::Uncompressed => {
+                Some(Data::Raw(block_data))
+            }
+            CompressionType::Zlib => {
+                let encoded = Self::zlib_encode(block_data, compression_level)?;
+                Some(Data::ZlibData(encoded))
+            }
+        };
 
         let blob = osmpbf::Blob {
             raw_size,
-- 
2.43.0


From 5a6272317ab69a46bf76d44dbf773b1192d323ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 04/33] fix: Writer::write_elements goes through the element
 accumulator

A list was written at once as a single block: before elements already
accumulated by write_element, without the block size limit, and losing all but
one type of a mixed list.
---
 src/osm/pbf/writer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index 9feb2b0..424ff36 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -166,7 +166,7 @@ impl Writer {
         match elements {
             None => {}
             Some(elements) => {
-                self.write_elements(elements)?;
+                self.write_block(elements)?;
             }
         }
         Ok(())
@@ -176,6 +176,15 @@ impl Writer {
     /// Elements must be ordered, that is each element must be less then or equal to the following
     /// element
     pub fn write_elements(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
+        // through the accumulator, to keep the order relative to write_element and to split by type
+        // and block size
+        for element in elements {
+            self.write_element(element)?;
+        }
+        Ok(())
+    }
+
+    fn write_block(&mut self, elements: Vec<Element>) -> Result<(), anyhow::Error> {
         let index = self.element_accumulator.index();
         let data = FileBlock::Data {
             metadata: FileBlockMetadata::new(
@@ -194,7 +203,7 @@ impl Writer {
     pub fn close(&mut self) -> Result<(), anyhow::Error> {
         let elements = self.element_accumulator.elements();
         if !elements.is_empty() {
-            self.write_elements(elements)?;
+            self.write_block(elements)?;
         }
         Ok(())
     }
-- 
2.43.0


From 0e55dc41453ce2abd94cc35cef5927656d92c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 05/33] fix: sentinels compare greater than all other elements

Element::cmp answered Less for both (sentinel, x) and (x, sentinel), so it was
not a total order and sorting a list with a sentinel could panic or misplace it.
---
 src/osm/model/element.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm/model/element.rs b/src/osm/model/element.rs
index 2d227a9..80a6ca0 100644
--- a/src/osm/model/element.rs
+++ b/src/osm/model/element.rs
@@ -300,13 +300,13 @@ impl Ord for Element {
             Element::Sentinel => {
                 match other {
                     Element::Node { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Way { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Relation { .. } => {
-                        Ordering::Less
+                        Ordering::Greater
                     }
                     Element::Sentinel => {
                         Ordering::Equal
-- 
2.43.0


From 477b635048c913541573291f18dd4c91c1b65f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 06/33] fix: ParallelWriter ignores sentinels

Sentinels took up room in the ordering buffer, which shrank its reach for the
elements, and were written as blocks without elements.
---
 src/osm/pbf/parallel_writer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index a53e951..5ae42f2 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -159,6 +159,9 @@ impl Command for AddElementCommand {
     fn execute(&self) -> Result<(), Error> {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
+            if element_guard.as_ref().unwrap().is_sentinel() {
+                return;
+            }
             assert_order(element_guard.as_ref().unwrap());
             element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
@@ -186,6 +189,9 @@ impl Command for AddElementsCommand {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut elements_guard = self.elements.lock().unwrap();
             for element in elements_guard.take().unwrap() {
+                if element.is_sentinel() {
+                    continue;
+                }
                 assert_order(&element);
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
-- 
2.43.0


From 3b68625db340d4b9d26f5c9a9c8ad01f69da7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 07/33] fix: ParallelWriter checks the order against the last
 element handed on

The check compared with the first element of the last block, so elements that
belong inside that block passed it and were written out of order.
---
 src/osm/pbf/parallel_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index 5ae42f2..bf2b1b8 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -39,7 +39,7 @@ fn flush_sorted_top() {
     ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         let elements = split_file_block(element_ordering_buffer);
-        set_current_min_element(elements.first());
+        set_current_min_element(elements.last());
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
@@ -54,7 +54,7 @@ fn flush_all_sorted() {
         element_ordering_buffer.borrow_mut().make_contiguous().sort();
         while !element_ordering_buffer.borrow().is_empty() {
             let elements = split_file_block(element_ordering_buffer);
-            set_current_min_element(elements.first());
+            set_current_min_element(elements.last());
             NEXT_THREAD_POOL.with(|thread_pool| {
                 let thread_pool = thread_pool.borrow();
                 let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
-- 
2.43.0


From 6c10061517d403cea64ac0622193a9ac101d0645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 08/33] fix: ParallelWriter reports failures instead of
 panicking or hanging

A lost order, a failed write, or a file that cannot be created panicked in a
pool thread; the caller then waited forever or panicked in join. They are now
returned by write_header or close, which always shuts down all the pools.
---
 src/osm/pbf/parallel_writer.rs | 70 +++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index bf2b1b8..f07b486 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -106,17 +106,17 @@ fn compression_type() -> CompressionType {
     COMPRESSION_TYPE.with(|compression_type| compression_type.borrow().as_ref().unwrap().clone())
 }
 
-fn assert_order(element: &Element) {
-    if !element.is_sentinel() {
-        assert!(
-            compare_to_current_min_element(element).is_ge(),
+fn assert_order(element: &Element) -> Result<(), Error> {
+    if !element.is_sentinel() && compare_to_current_min_element(element).is_lt() {
+        return Err(anyhow!(
             "Element order, required by OSM PBF definition is lost. \
                     Possible cause is that the length of the ordering buffer ({}) is too short \
                     to for compensate for the loss of order caused by concurrent processing. \
                     Recommended: reader_tasks * 8000 * n",
             element_ordering_buffer_size()
-        );
+        ));
     }
+    Ok(())
 }
 
 fn compare_to_current_min_element(element: &Element) -> Ordering {
@@ -160,15 +160,15 @@ impl Command for AddElementCommand {
         ELEMENT_ORDERING_BUFFER.with(|element_ordering_buffer| {
             let mut element_guard = self.element.lock().unwrap();
             if element_guard.as_ref().unwrap().is_sentinel() {
-                return;
+                return Ok(());
             }
-            assert_order(element_guard.as_ref().unwrap());
+            assert_order(element_guard.as_ref().unwrap())?;
             element_ordering_buffer.borrow_mut().push_back(element_guard.take().unwrap());
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top()
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -192,14 +192,14 @@ impl Command for AddElementsCommand {
                 if element.is_sentinel() {
                     continue;
                 }
-                assert_order(&element);
+                assert_order(&element)?;
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
             if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top();
             }
-        });
-        Ok(())
+            Ok(())
+        })
     }
 }
 
@@ -280,17 +280,18 @@ impl Command for WriteBlobCommand {
                             Some((header, body)) => {
                                 PBF_WRITER.with(
                                     |writer| {
-                                        writer.borrow_mut().as_mut().unwrap().write_blob(header, body).expect("Failed to write a blob");
+                                        writer.borrow_mut().as_mut()
+                                            .ok_or_else(|| anyhow!("the file header was not written"))?
+                                            .write_blob(header, body)
                                     }
-                                );
+                                )?;
                             }
                         }
                     }
-                });
+                    Ok(())
+                })
             }
-        );
-
-        Ok(())
+        )
     }
 }
 
@@ -355,22 +356,34 @@ impl ParallelWriter {
         let path = self.path.clone();
         let file_info = self.file_info.clone();
         let compression_type = self.compression_type.clone();
+        let result = Arc::new(Mutex::new(Ok(())));
+        let result_clone = result.clone();
         writing_pool_guard.in_all_threads(
             Arc::new(move || {
                 PBF_WRITER.with(|writer| {
                     if writer.borrow().is_none() {
-                        let mut w = Writer::from_file_info(
+                        let created = Writer::from_file_info(
                             path.clone(),
                             file_info.clone(),
                             compression_type.clone(),
-                        ).unwrap();
-                        w.write_header().unwrap();
-                        writer.replace(Some(w));
+                        ).and_then(|mut w| {
+                            w.write_header()?;
+                            Ok(w)
+                        });
+                        match created {
+                            Ok(w) => {
+                                writer.replace(Some(w));
+                            }
+                            Err(e) => {
+                                *result_clone.lock().unwrap() = Err(e);
+                            }
+                        }
                     }
                 })
             })
         );
-        Ok(())
+        let mut result_guard = result.lock().unwrap();
+        std::mem::replace(result_guard.deref_mut(), Ok(()))
     }
 
     /// Write an [Element]
@@ -394,11 +407,12 @@ impl ParallelWriter {
     /// Flush internal buffers.
     pub fn close(&mut self) -> Result<(), Error> {
         self.flush_element_ordering();
-        Self::shutdown(self.element_ordering_pool.clone())?;
-        Self::shutdown(self.encoding_pool.clone())?;
+        // shut down all the pools, then report the first failure
+        let element_ordering = Self::shutdown(self.element_ordering_pool.clone());
+        let encoding = Self::shutdown(self.encoding_pool.clone());
         self.flush_writing();
-        Self::shutdown(self.writing_pool.clone())?;
-        Ok(())
+        let writing = Self::shutdown(self.writing_pool.clone());
+        element_ordering.and(encoding).and(writing)
     }
 
     fn flush_element_ordering(&self) {
@@ -417,6 +431,8 @@ impl ParallelWriter {
                         .with_tasks(tasks)
                         .with_queue_size(queue_size)
                         .with_shutdown_mode(ShutdownMode::CompletePending)
+                        // the default one panics, join reports the errors anyway
+                        .with_join_error_handler(|_, _| {})
                         .build()?
                 )
             )
-- 
2.43.0


From d2c22881fc3f87ff9bde791eb6d20e73d1e58cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 09/33] fix: parallel_for_each returns the error of a callback

The default join error handler of the thread pool panics, so an error returned
by a callback became a panic instead of the documented result.
---
 src/osm/pbf/reader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 57db0df..07b287a 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -186,6 +186,8 @@ impl Reader {
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
             .with_name_str("parallel-element-iterator")
+            // the default one panics, join reports the errors anyway
+            .with_join_error_handler(|_, _| {})
             .build()?;
 
         let f_wrapper = Arc::new(f);
-- 
2.43.0


From 3d84651bd42199041ad534368eee259d431ad662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 10/33] fix: bounding box covers nodes anywhere in a block and
 files without nodes

Calculation stopped at the first element of another type in a block, panicked
when the file had no nodes, and leaked a running pool for an unreadable file.
---
 src/osm/pbf/bounding_box_calculator.rs   | 9 +++++++--
 src/osm/pbf/calc_bounding_box_command.rs | 2 +-
 src/osm/pbf/osm_data.rs                  | 6 +++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index d9806f6..a8dbff8 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -1,6 +1,7 @@
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 
+use anyhow::anyhow;
 use command_executor::shutdown_mode::ShutdownMode;
 use command_executor::thread_pool_builder::ThreadPoolBuilder;
 
@@ -20,11 +21,14 @@ impl BoundingBoxCalculator {
     }
 
     pub fn calc(&self) -> Result<BoundingBox, anyhow::Error> {
+        let reader = Reader::new(&self.path)?;
         let mut tp = ThreadPoolBuilder::new()
             .with_name_str("bounding-box-calculator")
             .with_tasks(num_cpus::get())
             .with_queue_size(1024)
             .with_shutdown_mode(ShutdownMode::CompletePending)
+            // the default one panics, join reports the errors anyway
+            .with_join_error_handler(|_, _| {})
             .build()?;
 
         let result = Arc::new(
@@ -32,7 +36,6 @@ impl BoundingBoxCalculator {
                 None
             )
         );
-        let reader = Reader::new(&self.path)?;
         for blob in reader.blobs()? {
             tp.submit(
                 Box::new(
@@ -47,6 +50,8 @@ impl BoundingBoxCalculator {
         tp.shutdown();
         tp.join()?;
         let mut result_guard = result.lock().unwrap();
-        Ok(result_guard.take().unwrap())
+        result_guard.take().ok_or_else(
+            || anyhow!("There are no nodes in {}", self.path.display())
+        )
     }
 }
diff --git a/src/osm/pbf/calc_bounding_box_command.rs b/src/osm/pbf/calc_bounding_box_command.rs
index 4244201..1f888f5 100644
--- a/src/osm/pbf/calc_bounding_box_command.rs
+++ b/src/osm/pbf/calc_bounding_box_command.rs
@@ -40,7 +40,7 @@ impl Command for CalcBoundingBoxCommand {
                         }
                     }
                     _ => {
-                        break;
+                        continue;
                     }
                 }
             }
diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index fd3deba..908193e 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -77,9 +77,9 @@ impl OsmData {
                         result.as_mut().unwrap().merge_point(node.coordinate());
                     }
                 }
-                Element::Way { .. } => { break; }
-                Element::Relation { .. } => { break; }
-                Element::Sentinel => { break; }
+                Element::Way { .. } => { continue; }
+                Element::Relation { .. } => { continue; }
+                Element::Sentinel => { continue; }
             }
         }
         result
-- 
2.43.0


From d527f5a04de4a94a15b5f6b1ef8812fd3f760394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 11/33] fix: a block with several element types is serialized
 completely

OsmData::serialize wrote only one group, so copying a block with nodes and ways
or relations lost everything but one type.
---
 src/osm/pbf/osm_data.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index 908193e..9046246 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -324,7 +324,14 @@ impl OsmData {
         let mut dense_group_builder = None;
         let mut ways_group_builder = None;
         let mut relations_group_builder = None;
-        for element in &self.elements {
+        let mut primitivegroup = vec![];
+        for (i, element) in self.elements.iter().enumerate() {
+            // a group holds elements of a single type
+            if i > 0 && !Element::same_type(&self.elements[i - 1], element) {
+                primitivegroup.extend(
+                    Self::build_group(&mut dense_group_builder, &mut ways_group_builder, &mut relations_group_builder)
+                );
+            }
             match element {
                 Element::Node { node } => {
                     if dense_group_builder.is_none() {
@@ -356,20 +363,15 @@ impl OsmData {
                 Element::Sentinel => {}
             }
         }
-        let mut primitivegroup = PrimitiveGroup::default();
-        if dense_group_builder.is_some() {
-            primitivegroup = dense_group_builder.unwrap().build();
-        } else if ways_group_builder.is_some() {
-            primitivegroup = ways_group_builder.unwrap().build();
-        } else if relations_group_builder.is_some() {
-            primitivegroup = relations_group_builder.unwrap().build();
-        }
+        primitivegroup.extend(
+            Self::build_group(&mut dense_group_builder, &mut ways_group_builder, &mut relations_group_builder)
+        );
 
         let stringtable = string_table_builder.build();
 
         let primitive_block = PrimitiveBlock {
             stringtable,
-            primitivegroup: vec![primitivegroup],
+            primitivegroup,
             granularity: Some(granularity),
             lat_offset: Some(lat_offset),
             lon_offset: Some(lon_offset),
@@ -381,6 +383,20 @@ impl OsmData {
         Ok(buf)
     }
 
+    fn build_group(
+        dense_group_builder: &mut Option<DenseGroupBuilder>,
+        ways_group_builder: &mut Option<WaysGroupBuilder>,
+        relations_group_builder: &mut Option<RelationsGroupBuilder>,
+    ) -> Option<PrimitiveGroup> {
+        if let Some(mut builder) = dense_group_builder.take() {
+            Some(builder.build())
+        } else if let Some(mut builder) = ways_group_builder.take() {
+            Some(builder.build())
+        } else {
+            relations_group_builder.take().map(|mut builder| builder.build())
+        }
+    }
+
     pub fn elements(&self) -> &Vec<Element> {
         &self.elements
     }
-- 
2.43.0


From 0961471f3f9d4f31def2daf7c08103f09a1bdb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 12/33] fix: a truncated or damaged PBF file is an error, not
 an early end of file

BlobIterator turned every failure into the end of the file, so a truncated file
was silently read as a shorter one, and it trusted any length it found. Opening
a damaged file panicked instead of returning an error.
---
 src/osm/pbf/blob_iterator.rs           | 55 ++++++++++++++++++++------
 src/osm/pbf/bounding_box_calculator.rs | 12 +++++-
 src/osm/pbf/file_block_iterator.rs     | 29 ++++++++++----
 src/osm/pbf/reader.rs                  | 15 +++++--
 4 files changed, 87 insertions(+), 24 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index a3ff881..71a9e9b 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -12,18 +12,25 @@ use crate::osmpbf;
 pub struct BlobIterator {
     path: PathBuf,
     file: File,
+    length: u64,
     jump: u64,
     index: usize,
 }
 
+// limits of the PBF format
+const MAX_BLOB_HEADER_LENGTH: i32 = 64 * 1024;
+const MAX_BLOB_LENGTH: u64 = 32 * 1024 * 1024;
+
 impl BlobIterator {
     pub fn new(path: PathBuf) -> Result<BlobIterator, anyhow::Error> {
         let file = File::open(path.clone())
             .with_context(|| anyhow!("path: {}", path.display()))?;
+        let length = file.metadata()?.len();
         Ok(
             BlobIterator {
                 path: path.clone(),
                 file,
+                length,
                 jump: 0,
                 index: 0,
             }
@@ -31,24 +38,48 @@ impl BlobIterator {
     }
 }
 
-impl Iterator for BlobIterator {
-    type Item = osm::pbf::blob_desc::BlobDesc;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        self.file.seek(SeekFrom::Current(self.jump as i64)).ok()?;
+impl BlobIterator {
+    // None at the end of file, an error if the file ends inside a block or is not a PBF file
+    fn next_blob(&mut self) -> Result<Option<osm::pbf::blob_desc::BlobDesc>, anyhow::Error> {
+        let position = self.file.seek(SeekFrom::Current(self.jump as i64))?;
+        if position == self.length {
+            self.jump = 0;
+            return Ok(None);
+        }
         let mut header_len_buffer = [0_u8; 4];
-        self.file.read_exact(&mut header_len_buffer).ok()?;
+        self.file.read_exact(&mut header_len_buffer)?;
         let blob_header_len = i32::from_be_bytes(header_len_buffer);
+        if !(0..=MAX_BLOB_HEADER_LENGTH).contains(&blob_header_len) {
+            return Err(anyhow!("blob header length out of range: {}", blob_header_len));
+        }
         let mut blob_header_buffer = vec![0; blob_header_len as usize];
-        self.file.read_exact(&mut blob_header_buffer).ok()?;
-        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer)).ok()?;
-        let current_offset = self.file.stream_position().ok()?;
+        self.file.read_exact(&mut blob_header_buffer)?;
+        let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer))?;
+        let current_offset = self.file.stream_position()?;
         let length = blob_header.datasize as u64;
+        if length > MAX_BLOB_LENGTH {
+            return Err(anyhow!("blob length out of range: {}", blob_header.datasize));
+        }
+        if current_offset + length > self.length {
+            return Err(anyhow!("the file ends inside a blob"));
+        }
         self.jump = length;
         let index = self.index;
         self.index.add_assign(1);
-        Some(
-            osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+        Ok(
+            Some(
+                osm::pbf::blob_desc::BlobDesc::new(self.path.clone(), index, current_offset, length, blob_header.r#type)
+            )
         )
     }
-}
\ No newline at end of file
+}
+
+impl Iterator for BlobIterator {
+    type Item = Result<osm::pbf::blob_desc::BlobDesc, anyhow::Error>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        self.next_blob()
+            .with_context(|| anyhow!("Failed to read blob {} from {:?}", self.index, self.path))
+            .transpose()
+    }
+}
diff --git a/src/osm/pbf/bounding_box_calculator.rs b/src/osm/pbf/bounding_box_calculator.rs
index a8dbff8..f025532 100644
--- a/src/osm/pbf/bounding_box_calculator.rs
+++ b/src/osm/pbf/bounding_box_calculator.rs
@@ -22,6 +22,7 @@ impl BoundingBoxCalculator {
 
     pub fn calc(&self) -> Result<BoundingBox, anyhow::Error> {
         let reader = Reader::new(&self.path)?;
+        let blobs = reader.blobs()?;
         let mut tp = ThreadPoolBuilder::new()
             .with_name_str("bounding-box-calculator")
             .with_tasks(num_cpus::get())
@@ -36,7 +37,15 @@ impl BoundingBoxCalculator {
                 None
             )
         );
-        for blob in reader.blobs()? {
+        let mut blobs_result = Ok(());
+        for blob in blobs {
+            let blob = match blob {
+                Ok(blob) => blob,
+                Err(e) => {
+                    blobs_result = Err(e);
+                    break;
+                }
+            };
             tp.submit(
                 Box::new(
                     CalcBoundingBoxCommand::new(
@@ -49,6 +58,7 @@ impl BoundingBoxCalculator {
 
         tp.shutdown();
         tp.join()?;
+        blobs_result?;
         let mut result_guard = result.lock().unwrap();
         result_guard.take().ok_or_else(
             || anyhow!("There are no nodes in {}", self.path.display())
diff --git a/src/osm/pbf/file_block_iterator.rs b/src/osm/pbf/file_block_iterator.rs
index a42d5df..ab63c66 100644
--- a/src/osm/pbf/file_block_iterator.rs
+++ b/src/osm/pbf/file_block_iterator.rs
@@ -1,3 +1,5 @@
+use anyhow::{anyhow, Context};
+
 use crate::osm::pbf::blob_iterator::BlobIterator;
 use crate::osm::pbf::file_block::FileBlock;
 
@@ -12,18 +14,29 @@ impl FileBlockIterator {
             blob_iterator,
         }
     }
+
+    pub(crate) fn next_file_block(&mut self) -> Result<Option<FileBlock>, anyhow::Error> {
+        match self.blob_iterator.next() {
+            None => {
+                Ok(None)
+            }
+            Some(blob_desc) => {
+                let blob_desc = blob_desc?;
+                let file_block = FileBlock::from_blob_desc(&blob_desc)
+                    .with_context(|| anyhow!("Failed to create a file block from blob {} from {:?}",
+                                             blob_desc.index(),
+                                             blob_desc.path()))?;
+                Ok(Some(file_block))
+            }
+        }
+    }
 }
 
 impl Iterator for FileBlockIterator {
     type Item = FileBlock;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let blob_desc = self.blob_iterator.next()?;
-        Some(
-            FileBlock::from_blob_desc(&blob_desc)
-                .unwrap_or_else(|_| panic!("Failed to create a file block from blob {} from {:?}",
-                                           blob_desc.index(),
-                                           blob_desc.path()))
-        )
+        self.next_file_block()
+            .unwrap_or_else(|e| panic!("{e:?}"))
     }
-}
\ No newline at end of file
+}
diff --git a/src/osm/pbf/reader.rs b/src/osm/pbf/reader.rs
index 07b287a..6e01806 100644
--- a/src/osm/pbf/reader.rs
+++ b/src/osm/pbf/reader.rs
@@ -50,7 +50,7 @@ impl Reader {
             info: Default::default(),
         };
         let mut block_iterator = reader.clone().blocks()?;
-        let file_block = block_iterator.next().ok_or(
+        let file_block = block_iterator.next_file_block()?.ok_or(
             anyhow!("Failed to parse file header, path: {}", path.display())
         )?;
         let osm_header = file_block.as_osm_header()?;
@@ -181,6 +181,7 @@ impl Reader {
     /// }
     /// ```
     pub fn parallel_for_each(&self, tasks: usize, f: impl Fn(Element) -> Result<(), anyhow::Error> + Send + Sync + 'static) -> Result<(), anyhow::Error> {
+        let blobs = self.blobs()?;
         let mut iteration_pool = ThreadPoolBuilder::new()
             .with_tasks(tasks)
             .with_queue_size(1024)
@@ -191,7 +192,15 @@ impl Reader {
             .build()?;
 
         let f_wrapper = Arc::new(f);
-        for blob_desc in self.blobs()? {
+        let mut result = Ok(());
+        for blob_desc in blobs {
+            let blob_desc = match blob_desc {
+                Ok(blob_desc) => blob_desc,
+                Err(e) => {
+                    result = Err(e);
+                    break;
+                }
+            };
             let f_wrapper_clone = f_wrapper.clone();
             iteration_pool.submit(
                 Box::new(
@@ -202,7 +211,7 @@ impl Reader {
 
         iteration_pool.shutdown();
         iteration_pool.join()?;
-        Ok(())
+        result
     }
 
     fn find_missing_features(supported_features: &[String], required_features: &[String]) -> Vec<String> {
-- 
2.43.0


From 894ae05e5c58625b5d36080baee4a2e1cec8ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 13/33] fix: skip blocks of unknown type

The format asks readers to ignore blob types they do not know.
---
 src/osm/pbf/blob_iterator.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index 71a9e9b..a65bdf1 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -78,8 +78,17 @@ impl Iterator for BlobIterator {
     type Item = Result<osm::pbf::blob_desc::BlobDesc, anyhow::Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.next_blob()
-            .with_context(|| anyhow!("Failed to read blob {} from {:?}", self.index, self.path))
-            .transpose()
+        loop {
+            let blob = self.next_blob()
+                .with_context(|| anyhow!("Failed to read blob {} from {:?}", self.index, self.path))
+                .transpose();
+            match &blob {
+                // the format requires to skip blobs of unknown type
+                Some(Ok(blob_desc)) if !matches!(blob_desc.t().as_str(), "OSMHeader" | "OSMData") => {}
+                _ => {
+                    return blob;
+                }
+            }
+        }
     }
 }
-- 
2.43.0


From d2bd57566a7571db4bebc1430cb7bdad413bc46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 14/33] fix: sequential iteration over runs of empty blocks and
 embedded headers

Each empty block took a stack frame, so many of them overflowed the stack, and
a header block inside the file, as in concatenated files, ended the iteration
early although parallel iteration skips it.
---
 src/osm/pbf/element_iterator.rs | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/osm/pbf/element_iterator.rs b/src/osm/pbf/element_iterator.rs
index 256dd25..2d914bd 100644
--- a/src/osm/pbf/element_iterator.rs
+++ b/src/osm/pbf/element_iterator.rs
@@ -23,15 +23,13 @@ impl ElementIterator {
 
     #[allow(clippy::collapsible_match)]
     fn create_element_iterator(file_block_iterator: &mut FileBlockIterator) -> Option<IntoIter<Element>> {
-        if let Some(current_block) = file_block_iterator.next() {
+        // a header may follow, as in concatenated files
+        while let Some(current_block) = file_block_iterator.next() {
             if let FileBlock::Data { metadata: _, mut data } = current_block {
-                Some(data.take_elements().into_iter())
-            } else {
-                None
+                return Some(data.take_elements().into_iter());
             }
-        } else {
-            None
         }
+        None
     }
 }
 
@@ -39,22 +37,13 @@ impl Iterator for ElementIterator {
     type Item = Element;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.element_iterator {
-            None => {
-                None
-            }
-            Some(element_iterator) => {
-                let element = element_iterator.next();
-                match &element {
-                    None => {
-                        self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
-                        self.next()
-                    }
-                    Some(_) => {
-                        element
-                    }
-                }
+        while let Some(element_iterator) = &mut self.element_iterator {
+            let element = element_iterator.next();
+            if element.is_some() {
+                return element;
             }
+            self.element_iterator = ElementIterator::create_element_iterator(&mut self.file_block_iterator);
         }
+        None
     }
 }
-- 
2.43.0


From f29b262b4087be8965858a92c6845f00649684b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 15/33] fix: check size and checksum of compressed blobs

The zlib stream was read up to the declared size only, so its checksum was
never verified; a missing size panicked and a negative one aborted the process.
---
 src/osm/pbf/file_block.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index d65f85f..6354c04 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -18,6 +18,9 @@ use crate::osm::pbf::osm_header::OsmHeader;
 use crate::osmpbf::BlobHeader;
 use crate::osmpbf::blob::Data;
 
+// limit of the PBF format
+const MAX_BLOB_SIZE: i32 = 32 * 1024 * 1024;
+
 /// A header or data file block in *.osm.pbf file
 #[derive(Debug)]
 pub enum FileBlock {
@@ -99,6 +102,10 @@ impl FileBlock {
         let mut decoder = ZlibDecoder::new(data.as_slice());
         let mut decoded = vec![0_u8; raw_size];
         decoder.read_exact(&mut decoded)?;
+        // reaching the end verifies the checksum too
+        if decoder.read(&mut [0_u8; 1])? != 0 {
+            return Err(anyhow!("More data than the declared size: {raw_size}"));
+        }
         Ok(decoded)
     }
 
@@ -125,7 +132,11 @@ impl FileBlock {
                     }
                     Data::ZlibData(zlib_data) => {
                         // for now ignore that the uncompressed size is optional
-                        FileBlock::zlib_decode(zlib_data, blob.raw_size.unwrap() as usize)
+                        let raw_size = blob.raw_size.unwrap_or(-1);
+                        if !(0..=MAX_BLOB_SIZE).contains(&raw_size) {
+                            return Err(anyhow!("Uncompressed size out of range: {:?}", blob.raw_size));
+                        }
+                        FileBlock::zlib_decode(zlib_data, raw_size as usize)
                     }
                     Data::LzmaData(_) => {
                         Err(
-- 
2.43.0


From 6bae8d8a68b1d815a8872ac5ee0c6f4cc1355f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 16/33] fix: inconsistent data blocks are errors

Invalid UTF-8, string references out of range, parallel arrays of different
lengths, unknown member types or deltas that overflow panicked while decoding,
which in parallel iteration killed the worker threads and left the caller
waiting forever.
---
 src/osm/pbf/blob_iterator.rs |   3 +
 src/osm/pbf/osm_data.rs      | 132 ++++++++++++++++++++++++++++++++++-
 2 files changed, 133 insertions(+), 2 deletions(-)

diff --git a/src/osm/pbf/blob_iterator.rs b/src/osm/pbf/blob_iterator.rs
index a65bdf1..3ee0063 100644
--- a/src/osm/pbf/blob_iterator.rs
+++ b/src/osm/pbf/blob_iterator.rs
@@ -55,6 +55,9 @@ impl BlobIterator {
         let mut blob_header_buffer = vec![0; blob_header_len as usize];
         self.file.read_exact(&mut blob_header_buffer)?;
         let blob_header = osmpbf::BlobHeader::decode(&mut Cursor::new(blob_header_buffer))?;
+        if blob_header.r#type.is_empty() {
+            return Err(anyhow!("blob header without a type"));
+        }
         let current_offset = self.file.stream_position()?;
         let length = blob_header.datasize as u64;
         if length > MAX_BLOB_LENGTH {
diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index 9046246..d16afee 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -2,6 +2,7 @@ use std::borrow::Borrow;
 use std::io::Cursor;
 use std::ops::Index;
 
+use anyhow::anyhow;
 use prost::Message;
 
 use crate::{osm, osmpbf};
@@ -25,10 +26,11 @@ impl OsmData {
         let string_table: Vec<String> = primitive_block.stringtable.s.iter()
             .map(
                 |e| {
-                    String::from_utf8(e.clone()).unwrap()
+                    String::from_utf8(e.clone())
                 }
             )
-            .collect();
+            .collect::<Result<Vec<String>, _>>()?;
+        Self::verify(&primitive_block)?;
         let granularity = primitive_block.granularity() as i64;
         let date_granularity = primitive_block.date_granularity();
         let lat_offset = primitive_block.lat_offset();
@@ -46,6 +48,132 @@ impl OsmData {
         )
     }
 
+    /// Verify the references, the lengths of parallel arrays and the ranges of delta coded values,
+    /// on which the rest of the decoding relies
+    fn verify(block: &PrimitiveBlock) -> Result<(), anyhow::Error> {
+        let strings = block.stringtable.s.len();
+        let verify_string = |index: i64| {
+            if index < 0 || index as usize >= strings {
+                Err(anyhow!("string index {index} out of range, string table size: {strings}"))
+            } else {
+                Ok(())
+            }
+        };
+        let verify_tags = |keys: &[u32], vals: &[u32]| {
+            if keys.len() != vals.len() {
+                return Err(anyhow!("number of keys and values differ: {}, {}", keys.len(), vals.len()));
+            }
+            keys.iter().chain(vals).try_for_each(|index| verify_string(*index as i64))
+        };
+        let verify_coordinate = |value: i64, offset: i64| {
+            i64::try_from(value as i128 * block.granularity() as i128 + offset as i128)
+                .map(|_| ())
+                .map_err(|_| anyhow!("coordinate out of range"))
+        };
+        let verify_timestamp = |timestamp: i64| {
+            timestamp.checked_mul(block.date_granularity() as i64)
+                .map(|_| ())
+                .ok_or_else(|| anyhow!("timestamp out of range"))
+        };
+        let verify_info = |info: &Option<osmpbf::Info>| {
+            if let Some(info) = info {
+                verify_timestamp(info.timestamp())?;
+                if let Some(user_sid) = info.user_sid {
+                    verify_string(user_sid as i64)?;
+                }
+            }
+            Ok::<(), anyhow::Error>(())
+        };
+
+        for g in &block.primitivegroup {
+            if !g.changesets.is_empty() {
+                return Err(anyhow!("According to documentation changesets are not used"));
+            }
+            if let Some(dense) = &g.dense {
+                let n = dense.id.len();
+                if dense.lat.len() != n || dense.lon.len() != n {
+                    return Err(anyhow!("number of dense node coordinates differs from the number of nodes"));
+                }
+                Self::sum_deltas(&dense.id)?;
+                for lat in Self::sum_deltas(&dense.lat)? {
+                    verify_coordinate(lat, block.lat_offset())?;
+                }
+                for lon in Self::sum_deltas(&dense.lon)? {
+                    verify_coordinate(lon, block.lon_offset())?;
+                }
+                if let Some(info) = &dense.denseinfo {
+                    for len in [
+                        info.version.len(), info.timestamp.len(), info.changeset.len(),
+                        info.uid.len(), info.user_sid.len(), info.visible.len(),
+                    ] {
+                        if len != 0 && len != n {
+                            return Err(anyhow!("number of dense node metadata differs from the number of nodes"));
+                        }
+                    }
+                    for timestamp in Self::sum_deltas(&info.timestamp)? {
+                        verify_timestamp(timestamp)?;
+                    }
+                    Self::sum_deltas(&info.changeset)?;
+                    for uid in Self::sum_deltas(&info.uid.iter().map(|v| *v as i64).collect::<Vec<i64>>())? {
+                        i32::try_from(uid)?;
+                    }
+                    for user_sid in Self::sum_deltas(&info.user_sid.iter().map(|v| *v as i64).collect::<Vec<i64>>())? {
+                        verify_string(user_sid)?;
+                    }
+                }
+                let mut nodes = 0_usize;
+                let mut keys_vals = dense.keys_vals.iter();
+                while let Some(key) = keys_vals.next() {
+                    if *key == 0 {
+                        nodes += 1;
+                    } else {
+                        let val = keys_vals.next().ok_or_else(|| anyhow!("dense node tag without a value"))?;
+                        verify_string(*key as i64)?;
+                        verify_string(*val as i64)?;
+                    }
+                }
+                if !dense.keys_vals.is_empty() && (nodes != n || dense.keys_vals.last() != Some(&0)) {
+                    return Err(anyhow!("number of dense node tag lists differs from the number of nodes"));
+                }
+            }
+            for node in &g.nodes {
+                verify_coordinate(node.lat, block.lat_offset())?;
+                verify_coordinate(node.lon, block.lon_offset())?;
+                verify_tags(&node.keys, &node.vals)?;
+                verify_info(&node.info)?;
+            }
+            for way in &g.ways {
+                Self::sum_deltas(&way.refs)?;
+                verify_tags(&way.keys, &way.vals)?;
+                verify_info(&way.info)?;
+            }
+            for relation in &g.relations {
+                let n = relation.memids.len();
+                if relation.roles_sid.len() != n || relation.types.len() != n {
+                    return Err(anyhow!("number of relation member roles or types differs from the number of members"));
+                }
+                Self::sum_deltas(&relation.memids)?;
+                relation.roles_sid.iter().try_for_each(|index| verify_string(*index as i64))?;
+                for t in &relation.types {
+                    osmpbf::relation::MemberType::try_from(*t)?;
+                }
+                verify_tags(&relation.keys, &relation.vals)?;
+                verify_info(&relation.info)?;
+            }
+        }
+        Ok(())
+    }
+
+    fn sum_deltas(deltas: &[i64]) -> Result<Vec<i64>, anyhow::Error> {
+        let mut sum = 0_i64;
+        deltas.iter()
+            .map(|delta| {
+                sum = sum.checked_add(*delta).ok_or_else(|| anyhow!("delta coded value out of range"))?;
+                Ok(sum)
+            })
+            .collect()
+    }
+
     pub fn from_elements(elements: Vec<Element>, bounding_box: Option<BoundingBox>) -> OsmData {
         OsmData { elements, bounding_box }
     }
-- 
2.43.0


From 1043cc863d32f08b35c1f55f8cc503bf3a4280fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 17/33] fix: read files in which part of the optional metadata
 is absent

Dense nodes with only some metadata arrays, as written when a subset of the
metadata is selected, panicked; so did an absent user with no string table.
---
 src/osm/pbf/osm_data.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/osm/pbf/osm_data.rs b/src/osm/pbf/osm_data.rs
index d16afee..fa64338 100644
--- a/src/osm/pbf/osm_data.rs
+++ b/src/osm/pbf/osm_data.rs
@@ -242,19 +242,22 @@ impl OsmData {
                 let mut version = 0_i32;
                 let mut user: String = String::default();
                 if let Some(info) = &dense.denseinfo {
-                    last_timestamp += info.timestamp[i];
+                    // each of the arrays may be absent
+                    last_timestamp += info.timestamp.get(i).copied().unwrap_or(0);
                     timestamp = last_timestamp * date_granularity as i64;
-                    last_changeset += info.changeset[i];
-                    uid += info.uid[i];
-                    last_user_sid += info.user_sid[i];
+                    last_changeset += info.changeset.get(i).copied().unwrap_or(0);
+                    uid += info.uid.get(i).copied().unwrap_or(0);
+                    last_user_sid += info.user_sid.get(i).copied().unwrap_or(0);
                     let user_sid = last_user_sid as usize;
                     if info.visible.len() > i {
                         visible = info.visible[i];
                     } else {
                         visible = true;
                     }
-                    version = info.version[i];
-                    user = string_table.index(user_sid).clone();
+                    version = info.version.get(i).copied().unwrap_or(0);
+                    if !info.user_sid.is_empty() {
+                        user = string_table.index(user_sid).clone();
+                    }
                 }
 
                 let mut tags = Vec::<osm::model::tag::Tag>::new();
@@ -331,7 +334,6 @@ impl OsmData {
         let mut timestamp = -1_i64;
         let mut changeset = -1_i64;
         let mut uid = -1_i32;
-        let user_sid;
         let mut user: String = String::default();
         let mut visible = true;
         let mut version = 0_i32;
@@ -340,9 +342,10 @@ impl OsmData {
             timestamp = info.timestamp.unwrap_or(0) * (date_granularity as i64);
             changeset = info.changeset.unwrap_or(-1);
             uid = info.uid.unwrap_or(-1);
-            user_sid = info.user_sid.unwrap_or(0) as usize;
             visible = info.visible.unwrap_or(true);
-            user = string_table[user_sid].clone();
+            if let Some(user_sid) = info.user_sid {
+                user = string_table[user_sid as usize].clone();
+            }
             version = info.version();
         }
         (timestamp, changeset, uid, user, visible, version)
-- 
2.43.0


From 67128da3eea545dd7f2ee4ce8e3948c81447adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 18/33] fix: escape and decode dump values as COPY does

---
 src/osm/apidb_dump/read/table_reader.rs |  3 +-
 src/osm/apidb_dump/sql.rs               | 75 +++++++++++++++++++++++++
 src/osm/apidb_dump/write/writer.rs      |  3 +-
 3 files changed, 77 insertions(+), 4 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index ee4abbc..79d55e0 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -4,7 +4,6 @@ use std::io::prelude::*;
 use std::str::FromStr;
 
 use anyhow::anyhow;
-use unescape::unescape;
 
 use crate::osm::apidb_dump::read::changeset_record::ChangesetRecord;
 use crate::osm::apidb_dump::read::node_record::NodeRecord;
@@ -19,7 +18,7 @@ use crate::osm::apidb_dump::read::user_record::{FormatEnum, UserRecord, UserStat
 use crate::osm::apidb_dump::read::way_node_record::WayNodeRecord;
 use crate::osm::apidb_dump::read::way_record::WayRecord;
 use crate::osm::apidb_dump::read::way_tag_record::WayTagRecord;
-use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time};
+use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time, unescape};
 
 struct RecordBuilder {
     f: fn(&str, &TableDef, usize) -> Option<TableRecord>,
diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index f3cd056..95162ab 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -59,3 +59,78 @@ pub(crate) fn calculate_tile(lat: f64, lon: f64) -> u64 {
     }
     tile
 }
+
+
+/// Escape a value the way COPY TO writes it in text format
+pub(crate) fn escape(s: &str) -> String {
+    let mut result = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' => { result.push_str("\\\\") }
+            '\u{8}' => { result.push_str("\\b") }
+            '\u{c}' => { result.push_str("\\f") }
+            '\n' => { result.push_str("\\n") }
+            '\r' => { result.push_str("\\r") }
+            '\t' => { result.push_str("\\t") }
+            '\u{b}' => { result.push_str("\\v") }
+            c => { result.push(c) }
+        }
+    }
+    result
+}
+
+/// Decode a value the way COPY FROM reads it in text format
+///
+/// Returns None when the value is not a valid string
+pub(crate) fn unescape(s: &str) -> Option<String> {
+    let bytes = s.as_bytes();
+    let mut result = Vec::with_capacity(bytes.len());
+    let mut i = 0_usize;
+    while i < bytes.len() {
+        let c = bytes[i];
+        i += 1;
+        if c != b'\\' || i == bytes.len() {
+            result.push(c);
+            continue;
+        }
+        let c = bytes[i];
+        i += 1;
+        match c {
+            b'b' => { result.push(8) }
+            b'f' => { result.push(12) }
+            b'n' => { result.push(b'\n') }
+            b'r' => { result.push(b'\r') }
+            b't' => { result.push(b'\t') }
+            b'v' => { result.push(11) }
+            b'0'..=b'7' => {
+                // \digits - one to three octal digits
+                let (code, length) = parse_digits(&bytes[i - 1..], 8, 3);
+                result.push(code as u8);
+                i += length - 1;
+            }
+            b'x' if i < bytes.len() && bytes[i].is_ascii_hexdigit() => {
+                // \xdigits - one or two hexadecimal digits
+                let (code, length) = parse_digits(&bytes[i..], 16, 2);
+                result.push(code as u8);
+                i += length;
+            }
+            c => { result.push(c) }
+        }
+    }
+    String::from_utf8(result).ok()
+}
+
+fn parse_digits(bytes: &[u8], radix: u32, max_length: usize) -> (u32, usize) {
+    let mut code = 0_u32;
+    let mut length = 0_usize;
+    while length < max_length && length < bytes.len() {
+        match (bytes[length] as char).to_digit(radix) {
+            None => { break; }
+            Some(digit) => {
+                code = code * radix + digit;
+                length += 1;
+            }
+        }
+    }
+    (code, length)
+}
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 626a4ff..1012a66 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -3,9 +3,8 @@ use std::io::Write;
 use std::path::PathBuf;
 
 use anyhow::{Context, Error};
-use escape_string::escape;
 
-use crate::osm::apidb_dump::sql::{calculate_tile, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
+use crate::osm::apidb_dump::sql::{calculate_tile, escape, to_sql_bool, to_sql_time_millis, to_sql_time_micros};
 use crate::osm::apidb_dump::write::current_object::{CurrentObjectLine, CurrentObjectLines};
 use crate::osm::apidb_dump::write::table_data_writers::TableDataWriters;
 use crate::osm::apidb_dump::write::toc::{load_template_mapping, write_toc};
-- 
2.43.0


From 0002a27c75c7d189ca3b721b5956626f47f12f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 19/33] fix: escape user names in dumps

---
 src/osm/apidb_dump/read/table_reader.rs | 4 ++--
 src/osm/apidb_dump/write/writer.rs      | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 79d55e0..ec07d20 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -430,9 +430,9 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             columns[*pass_crypt].to_string(),
                             parse_sql_time(columns[*creation_time]).unwrap(),
-                            columns[*display_name].to_string(),
+                            unescape(columns[*display_name]).unwrap_or(columns[*display_name].to_string()),
                             parse_sql_bool(columns[*data_public]).unwrap(),
-                            columns[*description].to_string(),
+                            unescape(columns[*description]).unwrap_or(columns[*description].to_string()),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
                             i16::from_str(columns[*home_zoom]).unwrap(),
diff --git a/src/osm/apidb_dump/write/writer.rs b/src/osm/apidb_dump/write/writer.rs
index 1012a66..c7a588a 100644
--- a/src/osm/apidb_dump/write/writer.rs
+++ b/src/osm/apidb_dump/write/writer.rs
@@ -424,14 +424,15 @@ impl Writer {
 
             let t = chrono::offset::Utc::now();
             let osm_admin_user = format!("osm-admin-user-{}@example.com", user_id);
+            let escaped_user_name = escape(&user_name);
             let line = format!("{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
                                osm_admin_user,
                                user_id,
                                "00000000000000000000000000000000",
                                to_sql_time_micros(t.timestamp_micros()),
-                               user_name,
+                               escaped_user_name,
                                to_sql_bool(true),
-                               user_name,
+                               escaped_user_name,
                                0,
                                0,
                                3,
-- 
2.43.0


From 29ad904212447afd52a287013dfb6ff6d113925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 20/33] fix: read relation members in sequence order

---
 src/osm/apidb_dump/read/table_pkey.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_pkey.rs b/src/osm/apidb_dump/read/table_pkey.rs
index 121b3c9..8c2c6f2 100644
--- a/src/osm/apidb_dump/read/table_pkey.rs
+++ b/src/osm/apidb_dump/read/table_pkey.rs
@@ -48,11 +48,9 @@ impl TablePkey {
             }
             "public.relation_members" => {
                 // ADD CONSTRAINT relation_members_pkey PRIMARY KEY (relation_id, version, member_type, member_id, member_role, sequence_id);
+                // sorted by sequence_id within a version, that's the order of members
                 key.push(Field::new(Self::index("relation_id", &fields)?, FieldType::Integer).with_str_name("relation_id"));
                 key.push(Field::new(Self::index("version", &fields)?, FieldType::Integer).with_str_name("version"));
-                key.push(Field::new(Self::index("member_type", &fields)?, FieldType::String).with_str_name("member_type"));
-                key.push(Field::new(Self::index("member_id", &fields)?, FieldType::Integer).with_str_name("member_id"));
-                key.push(Field::new(Self::index("member_role", &fields)?, FieldType::String).with_str_name("member_role"));
                 key.push(Field::new(Self::index("sequence_id", &fields)?, FieldType::Integer).with_str_name("sequence_id"));
             }
             "public.relation_tags" => {
-- 
2.43.0


From dfd883fe062a0eb7f7d8cde8e54f67523b918efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 21/33] fix: accept NULL home_zoom and changeset bounds

---
 src/osm/apidb_dump/read/changeset_record.rs | 24 ++++++++++-----------
 src/osm/apidb_dump/read/table_reader.rs     | 10 ++++-----
 src/osm/apidb_dump/read/user_record.rs      |  6 +++---
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/osm/apidb_dump/read/changeset_record.rs b/src/osm/apidb_dump/read/changeset_record.rs
index 928bacc..086d489 100644
--- a/src/osm/apidb_dump/read/changeset_record.rs
+++ b/src/osm/apidb_dump/read/changeset_record.rs
@@ -5,10 +5,10 @@ pub(crate) struct ChangesetRecord {
     id: i64,
     user_id: i64,
     created_at: NaiveDateTime,
-    min_lat: i32,
-    max_lat: i32,
-    min_lon: i32,
-    max_lon: i32,
+    min_lat: Option<i32>,
+    max_lat: Option<i32>,
+    min_lon: Option<i32>,
+    max_lon: Option<i32>,
     closed_at: NaiveDateTime,
     num_changes: i32,
 }
@@ -19,10 +19,10 @@ impl ChangesetRecord {
         id: i64,
         user_id: i64,
         created_at: NaiveDateTime,
-        min_lat: i32,
-        max_lat: i32,
-        min_lon: i32,
-        max_lon: i32,
+        min_lat: Option<i32>,
+        max_lat: Option<i32>,
+        min_lon: Option<i32>,
+        max_lon: Option<i32>,
         closed_at: NaiveDateTime,
         num_changes: i32,
     ) -> ChangesetRecord {
@@ -53,22 +53,22 @@ impl ChangesetRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lat(&self) -> i32 {
+    pub(crate) fn min_lat(&self) -> Option<i32> {
         self.min_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lat(&self) -> i32 {
+    pub(crate) fn max_lat(&self) -> Option<i32> {
         self.max_lat
     }
 
     #[allow(dead_code)]
-    pub(crate) fn min_lon(&self) -> i32 {
+    pub(crate) fn min_lon(&self) -> Option<i32> {
         self.min_lon
     }
 
     #[allow(dead_code)]
-    pub(crate) fn max_lon(&self) -> i32 {
+    pub(crate) fn max_lon(&self) -> Option<i32> {
         self.max_lon
     }
 
diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index ec07d20..15c55b3 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -374,10 +374,10 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             i64::from_str(columns[*user_id]).unwrap(),
                             parse_sql_time(columns[*created_at]).unwrap(),
-                            i32::from_str(columns[*min_lat]).unwrap(),
-                            i32::from_str(columns[*max_lat]).unwrap(),
-                            i32::from_str(columns[*min_lon]).unwrap(),
-                            i32::from_str(columns[*max_lon]).unwrap(),
+                            i32::from_str(columns[*min_lat]).ok(),
+                            i32::from_str(columns[*max_lat]).ok(),
+                            i32::from_str(columns[*min_lon]).ok(),
+                            i32::from_str(columns[*max_lon]).ok(),
                             parse_sql_time(columns[*closed_at]).unwrap(),
                             i32::from_str(columns[*num_changes]).unwrap(),
                         )
@@ -435,7 +435,7 @@ impl TableReader {
                             unescape(columns[*description]).unwrap_or(columns[*description].to_string()),
                             f64::from_str(columns[*home_lat]).ok(),
                             f64::from_str(columns[*home_lon]).ok(),
-                            i16::from_str(columns[*home_zoom]).unwrap(),
+                            i16::from_str(columns[*home_zoom]).ok(),
                             parse_sql_null_string(columns[*pass_salt]),
                             parse_sql_bool(columns[*email_valid]).unwrap(),
                             parse_sql_null_string(columns[*new_email]),
diff --git a/src/osm/apidb_dump/read/user_record.rs b/src/osm/apidb_dump/read/user_record.rs
index d0d9670..df15ff7 100644
--- a/src/osm/apidb_dump/read/user_record.rs
+++ b/src/osm/apidb_dump/read/user_record.rs
@@ -76,7 +76,7 @@ pub(crate) struct UserRecord {
     description: String,
     home_lat: Option<f64>,
     home_lon: Option<f64>,
-    home_zoom: i16,
+    home_zoom: Option<i16>,
     pass_salt: Option<String>,
     email_valid: bool,
     new_email: Option<String>,
@@ -110,7 +110,7 @@ impl UserRecord {
         description: String,
         home_lat: Option<f64>,
         home_lon: Option<f64>,
-        home_zoom: i16,
+        home_zoom: Option<i16>,
         pass_salt: Option<String>,
         email_valid: bool,
         new_email: Option<String>,
@@ -208,7 +208,7 @@ impl UserRecord {
     }
 
     #[allow(dead_code)]
-    pub(crate) fn home_zoom(&self) -> i16 {
+    pub(crate) fn home_zoom(&self) -> Option<i16> {
         self.home_zoom
     }
 
-- 
2.43.0


From a797e6794aca82e4f27d86200c7c3ea52d7d1ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 22/33] fix: don't treat a failed read of a dump table as its
 end

---
 src/osm/apidb_dump/read/table_reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 15c55b3..7a1977d 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -1,6 +1,7 @@
 use std::fs::File;
 use std::io::BufReader;
 use std::io::prelude::*;
+use std::path::PathBuf;
 use std::str::FromStr;
 
 use anyhow::anyhow;
@@ -478,6 +479,7 @@ impl IntoIterator for TableReader {
 pub(crate) struct TableIterator {
     reader: BufReader<File>,
     record_builder: RecordBuilder,
+    path: PathBuf,
     line_number: usize,
 }
 
@@ -492,6 +494,7 @@ impl TableIterator {
             TableIterator {
                 reader,
                 record_builder,
+                path: table_reader.table_def.sorted_path(),
                 line_number: 0,
             }
         )
@@ -518,8 +521,8 @@ impl Iterator for TableIterator {
                     }
                 }
             }
-            Err(_) => {
-                None
+            Err(e) => {
+                panic!("failed to read {}:{}: {}", self.path.display(), self.line_number, e);
             }
         }
     }
-- 
2.43.0


From d1ffc2720289599cbdb8f99ecd0cba907c7ad36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 23/33] fix: report failure to create dump files

---
 .../apidb_dump/write/table_data_writers.rs    | 106 +++++++++---------
 1 file changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/osm/apidb_dump/write/table_data_writers.rs b/src/osm/apidb_dump/write/table_data_writers.rs
index 355b4bd..74df965 100644
--- a/src/osm/apidb_dump/write/table_data_writers.rs
+++ b/src/osm/apidb_dump/write/table_data_writers.rs
@@ -76,59 +76,59 @@ impl TableDataWriters {
         let changeset_user_index_buffer = HashMap::<i64, i64>::new();
 
         Ok(TableDataWriters {
-            acls: TableDataWriter::new("public.acls".to_string(), template_mapping["public.acls"].to_string(), output_path).unwrap(),
-            active_storage_attachments: TableDataWriter::new("public.active_storage_attachments".to_string(), template_mapping["public.active_storage_attachments"].to_string(), output_path).unwrap(),
-            active_storage_blobs: TableDataWriter::new("public.active_storage_blobs".to_string(), template_mapping["public.active_storage_blobs"].to_string(), output_path).unwrap(),
-            active_storage_variant_records: TableDataWriter::new("public.active_storage_variant_records".to_string(), template_mapping["public.active_storage_variant_records"].to_string(), output_path).unwrap(),
-            ar_internal_metadata: TableDataWriter::new("public.ar_internal_metadata".to_string(), template_mapping["public.ar_internal_metadata"].to_string(), output_path).unwrap(),
-            changeset_comments: TableDataWriter::new("public.changeset_comments".to_string(), template_mapping["public.changeset_comments"].to_string(), output_path).unwrap(),
-            changeset_tags: TableDataWriter::new("public.changeset_tags".to_string(), template_mapping["public.changeset_tags"].to_string(), output_path).unwrap(),
-            changesets: TableDataWriter::new("public.changesets".to_string(), template_mapping["public.changesets"].to_string(), output_path).unwrap(),
-            changesets_subscribers: TableDataWriter::new("public.changesets_subscribers".to_string(), template_mapping["public.changesets_subscribers"].to_string(), output_path).unwrap(),
-            client_applications: TableDataWriter::new("public.client_applications".to_string(), template_mapping["public.client_applications"].to_string(), output_path).unwrap(),
-            current_node_tags: TableDataWriter::new("public.current_node_tags".to_string(), template_mapping["public.current_node_tags"].to_string(), output_path).unwrap(),
-            current_nodes: TableDataWriter::new("public.current_nodes".to_string(), template_mapping["public.current_nodes"].to_string(), output_path).unwrap(),
-            current_relation_members: TableDataWriter::new("public.current_relation_members".to_string(), template_mapping["public.current_relation_members"].to_string(), output_path).unwrap(),
-            current_relation_tags: TableDataWriter::new("public.current_relation_tags".to_string(), template_mapping["public.current_relation_tags"].to_string(), output_path).unwrap(),
-            current_relations: TableDataWriter::new("public.current_relations".to_string(), template_mapping["public.current_relations"].to_string(), output_path).unwrap(),
-            current_way_nodes: TableDataWriter::new("public.current_way_nodes".to_string(), template_mapping["public.current_way_nodes"].to_string(), output_path).unwrap(),
-            current_way_tags: TableDataWriter::new("public.current_way_tags".to_string(), template_mapping["public.current_way_tags"].to_string(), output_path).unwrap(),
-            current_ways: TableDataWriter::new("public.current_ways".to_string(), template_mapping["public.current_ways"].to_string(), output_path).unwrap(),
-            delayed_jobs: TableDataWriter::new("public.delayed_jobs".to_string(), template_mapping["public.delayed_jobs"].to_string(), output_path).unwrap(),
-            diary_comments: TableDataWriter::new("public.diary_comments".to_string(), template_mapping["public.diary_comments"].to_string(), output_path).unwrap(),
-            diary_entries: TableDataWriter::new("public.diary_entries".to_string(), template_mapping["public.diary_entries"].to_string(), output_path).unwrap(),
-            diary_entry_subscriptions: TableDataWriter::new("public.diary_entry_subscriptions".to_string(), template_mapping["public.diary_entry_subscriptions"].to_string(), output_path).unwrap(),
-            friends: TableDataWriter::new("public.friends".to_string(), template_mapping["public.friends"].to_string(), output_path).unwrap(),
-            gps_points: TableDataWriter::new("public.gps_points".to_string(), template_mapping["public.gps_points"].to_string(), output_path).unwrap(),
-            gpx_file_tags: TableDataWriter::new("public.gpx_file_tags".to_string(), template_mapping["public.gpx_file_tags"].to_string(), output_path).unwrap(),
-            gpx_files: TableDataWriter::new("public.gpx_files".to_string(), template_mapping["public.gpx_files"].to_string(), output_path).unwrap(),
-            issue_comments: TableDataWriter::new("public.issue_comments".to_string(), template_mapping["public.issue_comments"].to_string(), output_path).unwrap(),
-            issues: TableDataWriter::new("public.issues".to_string(), template_mapping["public.issues"].to_string(), output_path).unwrap(),
-            languages: TableDataWriter::new("public.languages".to_string(), template_mapping["public.languages"].to_string(), output_path).unwrap(),
-            messages: TableDataWriter::new("public.messages".to_string(), template_mapping["public.messages"].to_string(), output_path).unwrap(),
-            node_tags: TableDataWriter::new("public.node_tags".to_string(), template_mapping["public.node_tags"].to_string(), output_path).unwrap(),
-            nodes: TableDataWriter::new("public.nodes".to_string(), template_mapping["public.nodes"].to_string(), output_path).unwrap(),
-            note_comments: TableDataWriter::new("public.note_comments".to_string(), template_mapping["public.note_comments"].to_string(), output_path).unwrap(),
-            notes: TableDataWriter::new("public.notes".to_string(), template_mapping["public.notes"].to_string(), output_path).unwrap(),
-            oauth_access_grants: TableDataWriter::new("public.oauth_access_grants".to_string(), template_mapping["public.oauth_access_grants"].to_string(), output_path).unwrap(),
-            oauth_access_tokens: TableDataWriter::new("public.oauth_access_tokens".to_string(), template_mapping["public.oauth_access_tokens"].to_string(), output_path).unwrap(),
-            oauth_applications: TableDataWriter::new("public.oauth_applications".to_string(), template_mapping["public.oauth_applications"].to_string(), output_path).unwrap(),
-            oauth_nonces: TableDataWriter::new("public.oauth_nonces".to_string(), template_mapping["public.oauth_nonces"].to_string(), output_path).unwrap(),
-            oauth_tokens: TableDataWriter::new("public.oauth_tokens".to_string(), template_mapping["public.oauth_tokens"].to_string(), output_path).unwrap(),
-            redactions: TableDataWriter::new("public.redactions".to_string(), template_mapping["public.redactions"].to_string(), output_path).unwrap(),
-            relation_members: TableDataWriter::new("public.relation_members".to_string(), template_mapping["public.relation_members"].to_string(), output_path).unwrap(),
-            relation_tags: TableDataWriter::new("public.relation_tags".to_string(), template_mapping["public.relation_tags"].to_string(), output_path).unwrap(),
-            relations: TableDataWriter::new("public.relations".to_string(), template_mapping["public.relations"].to_string(), output_path).unwrap(),
-            reports: TableDataWriter::new("public.reports".to_string(), template_mapping["public.reports"].to_string(), output_path).unwrap(),
-            schema_migrations: TableDataWriter::new("public.schema_migrations".to_string(), template_mapping["public.schema_migrations"].to_string(), output_path).unwrap(),
-            user_blocks: TableDataWriter::new("public.user_blocks".to_string(), template_mapping["public.user_blocks"].to_string(), output_path).unwrap(),
-            user_preferences: TableDataWriter::new("public.user_preferences".to_string(), template_mapping["public.user_preferences"].to_string(), output_path).unwrap(),
-            user_roles: TableDataWriter::new("public.user_roles".to_string(), template_mapping["public.user_roles"].to_string(), output_path).unwrap(),
-            user_tokens: TableDataWriter::new("public.user_tokens".to_string(), template_mapping["public.user_tokens"].to_string(), output_path).unwrap(),
-            users: TableDataWriter::new("public.users".to_string(), template_mapping["public.users"].to_string(), output_path).unwrap(),
-            way_nodes: TableDataWriter::new("public.way_nodes".to_string(), template_mapping["public.way_nodes"].to_string(), output_path).unwrap(),
-            way_tags: TableDataWriter::new("public.way_tags".to_string(), template_mapping["public.way_tags"].to_string(), output_path).unwrap(),
-            ways: TableDataWriter::new("public.ways".to_string(), template_mapping["public.ways"].to_string(), output_path).unwrap(),
+            acls: TableDataWriter::new("public.acls".to_string(), template_mapping["public.acls"].to_string(), output_path)?,
+            active_storage_attachments: TableDataWriter::new("public.active_storage_attachments".to_string(), template_mapping["public.active_storage_attachments"].to_string(), output_path)?,
+            active_storage_blobs: TableDataWriter::new("public.active_storage_blobs".to_string(), template_mapping["public.active_storage_blobs"].to_string(), output_path)?,
+            active_storage_variant_records: TableDataWriter::new("public.active_storage_variant_records".to_string(), template_mapping["public.active_storage_variant_records"].to_string(), output_path)?,
+            ar_internal_metadata: TableDataWriter::new("public.ar_internal_metadata".to_string(), template_mapping["public.ar_internal_metadata"].to_string(), output_path)?,
+            changeset_comments: TableDataWriter::new("public.changeset_comments".to_string(), template_mapping["public.changeset_comments"].to_string(), output_path)?,
+            changeset_tags: TableDataWriter::new("public.changeset_tags".to_string(), template_mapping["public.changeset_tags"].to_string(), output_path)?,
+            changesets: TableDataWriter::new("public.changesets".to_string(), template_mapping["public.changesets"].to_string(), output_path)?,
+            changesets_subscribers: TableDataWriter::new("public.changesets_subscribers".to_string(), template_mapping["public.changesets_subscribers"].to_string(), output_path)?,
+            client_applications: TableDataWriter::new("public.client_applications".to_string(), template_mapping["public.client_applications"].to_string(), output_path)?,
+            current_node_tags: TableDataWriter::new("public.current_node_tags".to_string(), template_mapping["public.current_node_tags"].to_string(), output_path)?,
+            current_nodes: TableDataWriter::new("public.current_nodes".to_string(), template_mapping["public.current_nodes"].to_string(), output_path)?,
+            current_relation_members: TableDataWriter::new("public.current_relation_members".to_string(), template_mapping["public.current_relation_members"].to_string(), output_path)?,
+            current_relation_tags: TableDataWriter::new("public.current_relation_tags".to_string(), template_mapping["public.current_relation_tags"].to_string(), output_path)?,
+            current_relations: TableDataWriter::new("public.current_relations".to_string(), template_mapping["public.current_relations"].to_string(), output_path)?,
+            current_way_nodes: TableDataWriter::new("public.current_way_nodes".to_string(), template_mapping["public.current_way_nodes"].to_string(), output_path)?,
+            current_way_tags: TableDataWriter::new("public.current_way_tags".to_string(), template_mapping["public.current_way_tags"].to_string(), output_path)?,
+            current_ways: TableDataWriter::new("public.current_ways".to_string(), template_mapping["public.current_ways"].to_string(), output_path)?,
+            delayed_jobs: TableDataWriter::new("public.delayed_jobs".to_string(), template_mapping["public.delayed_jobs"].to_string(), output_path)?,
+            diary_comments: TableDataWriter::new("public.diary_comments".to_string(), template_mapping["public.diary_comments"].to_string(), output_path)?,
+            diary_entries: TableDataWriter::new("public.diary_entries".to_string(), template_mapping["public.diary_entries"].to_string(), output_path)?,
+            diary_entry_subscriptions: TableDataWriter::new("public.diary_entry_subscriptions".to_string(), template_mapping["public.diary_entry_subscriptions"].to_string(), output_path)?,
+            friends: TableDataWriter::new("public.friends".to_string(), template_mapping["public.friends"].to_string(), output_path)?,
+            gps_points: TableDataWriter::new("public.gps_points".to_string(), template_mapping["public.gps_points"].to_string(), output_path)?,
+            gpx_file_tags: TableDataWriter::new("public.gpx_file_tags".to_string(), template_mapping["public.gpx_file_tags"].to_string(), output_path)?,
+            gpx_files: TableDataWriter::new("public.gpx_files".to_string(), template_mapping["public.gpx_files"].to_string(), output_path)?,
+            issue_comments: TableDataWriter::new("public.issue_comments".to_string(), template_mapping["public.issue_comments"].to_string(), output_path)?,
+            issues: TableDataWriter::new("public.issues".to_string(), template_mapping["public.issues"].to_string(), output_path)?,
+            languages: TableDataWriter::new("public.languages".to_string(), template_mapping["public.languages"].to_string(), output_path)?,
+            messages: TableDataWriter::new("public.messages".to_string(), template_mapping["public.messages"].to_string(), output_path)?,
+            node_tags: TableDataWriter::new("public.node_tags".to_string(), template_mapping["public.node_tags"].to_string(), output_path)?,
+            nodes: TableDataWriter::new("public.nodes".to_string(), template_mapping["public.nodes"].to_string(), output_path)?,
+            note_comments: TableDataWriter::new("public.note_comments".to_string(), template_mapping["public.note_comments"].to_string(), output_path)?,
+            notes: TableDataWriter::new("public.notes".to_string(), template_mapping["public.notes"].to_string(), output_path)?,
+            oauth_access_grants: TableDataWriter::new("public.oauth_access_grants".to_string(), template_mapping["public.oauth_access_grants"].to_string(), output_path)?,
+            oauth_access_tokens: TableDataWriter::new("public.oauth_access_tokens".to_string(), template_mapping["public.oauth_access_tokens"].to_string(), output_path)?,
+            oauth_applications: TableDataWriter::new("public.oauth_applications".to_string(), template_mapping["public.oauth_applications"].to_string(), output_path)?,
+            oauth_nonces: TableDataWriter::new("public.oauth_nonces".to_string(), template_mapping["public.oauth_nonces"].to_string(), output_path)?,
+            oauth_tokens: TableDataWriter::new("public.oauth_tokens".to_string(), template_mapping["public.oauth_tokens"].to_string(), output_path)?,
+            redactions: TableDataWriter::new("public.redactions".to_string(), template_mapping["public.redactions"].to_string(), output_path)?,
+            relation_members: TableDataWriter::new("public.relation_members".to_string(), template_mapping["public.relation_members"].to_string(), output_path)?,
+            relation_tags: TableDataWriter::new("public.relation_tags".to_string(), template_mapping["public.relation_tags"].to_string(), output_path)?,
+            relations: TableDataWriter::new("public.relations".to_string(), template_mapping["public.relations"].to_string(), output_path)?,
+            reports: TableDataWriter::new("public.reports".to_string(), template_mapping["public.reports"].to_string(), output_path)?,
+            schema_migrations: TableDataWriter::new("public.schema_migrations".to_string(), template_mapping["public.schema_migrations"].to_string(), output_path)?,
+            user_blocks: TableDataWriter::new("public.user_blocks".to_string(), template_mapping["public.user_blocks"].to_string(), output_path)?,
+            user_preferences: TableDataWriter::new("public.user_preferences".to_string(), template_mapping["public.user_preferences"].to_string(), output_path)?,
+            user_roles: TableDataWriter::new("public.user_roles".to_string(), template_mapping["public.user_roles"].to_string(), output_path)?,
+            user_tokens: TableDataWriter::new("public.user_tokens".to_string(), template_mapping["public.user_tokens"].to_string(), output_path)?,
+            users: TableDataWriter::new("public.users".to_string(), template_mapping["public.users"].to_string(), output_path)?,
+            way_nodes: TableDataWriter::new("public.way_nodes".to_string(), template_mapping["public.way_nodes"].to_string(), output_path)?,
+            way_tags: TableDataWriter::new("public.way_tags".to_string(), template_mapping["public.way_tags"].to_string(), output_path)?,
+            ways: TableDataWriter::new("public.ways".to_string(), template_mapping["public.ways"].to_string(), output_path)?,
 
             user_index,
             changeset_user_index,
-- 
2.43.0


From 93591be471267e64e763a3618794bb4b00c8b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 24/33] fix: reject bounding boxes with extra values

---
 src/osm/model/bounding_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm/model/bounding_box.rs b/src/osm/model/bounding_box.rs
index 782fc41..a1d0c12 100644
--- a/src/osm/model/bounding_box.rs
+++ b/src/osm/model/bounding_box.rs
@@ -94,7 +94,7 @@ impl FromStr for BoundingBox {
         let parts: Vec<&str> = s.split(',')
             .map(|s| s.trim())
             .collect();
-        if parts.len() < 4 {
+        if parts.len() != 4 {
             Err(e)
         } else {
             let left = f64::from_str(parts[0])?;
-- 
2.43.0


From 62d36872b080689b8e86fb2aa19ec0f957554af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 25/33] fix: report a panicking callback as an error

---
 src/osm/pbf/parallel_element_iteration_command.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/osm/pbf/parallel_element_iteration_command.rs b/src/osm/pbf/parallel_element_iteration_command.rs
index 131b4f0..d08265c 100644
--- a/src/osm/pbf/parallel_element_iteration_command.rs
+++ b/src/osm/pbf/parallel_element_iteration_command.rs
@@ -1,6 +1,7 @@
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 
-use anyhow::Error;
+use anyhow::{anyhow, Error};
 use command_executor::command::Command;
 
 use crate::osm::model::element::Element;
@@ -19,6 +20,12 @@ impl ParallelElementIterationCommand {
             f,
         }
     }
+
+    // a panic would end the worker thread, and a pool that has none left never completes
+    fn call(&self, element: Element) -> Result<(), Error> {
+        catch_unwind(AssertUnwindSafe(|| (self.f)(element)))
+            .unwrap_or_else(|_| Err(anyhow!("the callback panicked")))
+    }
 }
 
 impl Command for ParallelElementIterationCommand {
@@ -26,9 +33,9 @@ impl Command for ParallelElementIterationCommand {
         let mut file_block = FileBlock::from_blob_desc(&self.blob_desc)?;
         if file_block.is_osm_data() {
             for element in file_block.take_elements() {
-                (self.f)(element)?;
+                self.call(element)?;
             }
-            (self.f)(Element::Sentinel)?;
+            self.call(Element::Sentinel)?;
         }
         Ok(())
     }
-- 
2.43.0


From fbad0774c5010ab24fb6df017a074ffa470c4de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 26/33] fix: report failure to index users and changesets

---
 src/osm/apidb_dump/write/table_data_writers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/osm/apidb_dump/write/table_data_writers.rs b/src/osm/apidb_dump/write/table_data_writers.rs
index 74df965..8bad29a 100644
--- a/src/osm/apidb_dump/write/table_data_writers.rs
+++ b/src/osm/apidb_dump/write/table_data_writers.rs
@@ -138,14 +138,14 @@ impl TableDataWriters {
     }
 
     pub(crate) fn flush_buffers(&mut self) -> Result<(), anyhow::Error> {
-        self.user_index_buffer.iter().for_each(|(user_id, user)| {
-            self.user_index.insert(*user_id, user.to_string()).unwrap();
-        });
+        for (user_id, user) in self.user_index_buffer.iter() {
+            self.user_index.insert(*user_id, user.to_string())?;
+        }
         self.user_index_buffer.clear();
 
-        self.changeset_user_index_buffer.iter().for_each(|(changeset_id, user_id)| {
-            self.changeset_user_index.insert(*changeset_id, *user_id).unwrap();
-        });
+        for (changeset_id, user_id) in self.changeset_user_index_buffer.iter() {
+            self.changeset_user_index.insert(*changeset_id, *user_id)?;
+        }
         self.changeset_user_index_buffer.clear();
         Ok(())
     }
-- 
2.43.0


From a76bc561071878520a291d993c74a07051b4237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 27/33] fix: split data blocks that exceed the size limit of
 the format

---
 src/osm/pbf/file_block.rs      | 30 +++++++++++++++++++++++--
 src/osm/pbf/parallel_writer.rs | 40 ++++++++++++++++------------------
 src/osm/pbf/writer.rs          |  6 +++--
 3 files changed, 51 insertions(+), 25 deletions(-)

diff --git a/src/osm/pbf/file_block.rs b/src/osm/pbf/file_block.rs
index 6354c04..be3c284 100644
--- a/src/osm/pbf/file_block.rs
+++ b/src/osm/pbf/file_block.rs
@@ -179,7 +179,9 @@ impl FileBlock {
         Self::deserialize(blob_desc, &mut blob_buffer)
     }
 
-    pub(crate) fn serialize(file_block: &FileBlock, compression: CompressionType) -> Result<(Vec<u8>, Vec<u8>), anyhow::Error> {
+    /// Serialize to blob headers and bodies. Usually one of each, but a data block that exceeds the
+    /// limit of the format is split.
+    pub(crate) fn serialize(file_block: &FileBlock, compression: CompressionType) -> Result<Vec<(Vec<u8>, Vec<u8>)>, anyhow::Error> {
         let (blob_type, compression_level, block_data) = match file_block {
             FileBlock::Header { metadata: _, header } => {
                 ("OSMHeader".to_string(), Compression::none(), header.serialize()?)
@@ -189,6 +191,10 @@ impl FileBlock {
             }
         };
 
+        if block_data.len() >= MAX_BLOB_SIZE as usize {
+            return Self::serialize_split(file_block, compression);
+        }
+
         let raw_size = Some(block_data.len() as i32);
         let data = match compression {
             CompressionType::Uncompressed => {
@@ -205,6 +211,9 @@ impl FileBlock {
             data,
         };
         let body = blob.encode_to_vec();
+        if body.len() >= MAX_BLOB_SIZE as usize {
+            return Self::serialize_split(file_block, compression);
+        }
 
         let blob_header = BlobHeader {
             r#type: blob_type,
@@ -215,7 +224,24 @@ impl FileBlock {
 
         let header = blob_header.encode_to_vec();
 
-        Ok((header, body))
+        Ok(vec![(header, body)])
+    }
+
+    fn serialize_split(file_block: &FileBlock, compression: CompressionType) -> Result<Vec<(Vec<u8>, Vec<u8>)>, anyhow::Error> {
+        match file_block {
+            FileBlock::Data { metadata, data } if data.elements().len() > 1 => {
+                let (first, second) = data.elements().split_at(data.elements().len() / 2);
+                let mut blobs = vec![];
+                for elements in [first, second] {
+                    let part = Self::from_elements(metadata.index(), elements.to_vec());
+                    blobs.extend(Self::serialize(&part, compression.clone())?);
+                }
+                Ok(blobs)
+            }
+            _ => {
+                Err(anyhow!("Block exceeds the maximum size of {} bytes", MAX_BLOB_SIZE))
+            }
+        }
     }
 
     fn deserialize(blob_desc: &BlobDesc, blob_buffer: &mut Vec<u8>) -> Result<FileBlock, anyhow::Error> {
diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index f07b486..c59ecca 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -29,7 +29,7 @@ thread_local! {
     static CURRENT_MIN_ELEMENT: RefCell<Option<Element>> = const { RefCell::new(None) };
 
     #[allow(clippy::type_complexity)]
-    pub static BLOB_ORDERING_BUFFER: RefCell<HashMap<usize, (Vec<u8>, Vec<u8>)>> = RefCell::new(HashMap::new());
+    pub static BLOB_ORDERING_BUFFER: RefCell<HashMap<usize, Vec<(Vec<u8>, Vec<u8>)>>> = RefCell::new(HashMap::new());
     // the first expected block is #1. #0 is the header
     pub static NEXT_TO_WRITE: RefCell<usize> = const { RefCell::new(1) };
     pub static PBF_WRITER: RefCell<Option<Writer>> = const { RefCell::new(None) };
@@ -221,14 +221,14 @@ impl Command for EncodeFileBlockCommand {
     fn execute(&self) -> Result<(), Error> {
         let mut elements_guard = self.elements.lock().unwrap();
         let file_block = FileBlock::from_elements(self.index, std::mem::take(&mut elements_guard));
-        let (blob_header, blob_body) = FileBlock::serialize(&file_block, compression_type())?;
+        let blobs = FileBlock::serialize(&file_block, compression_type())?;
         NEXT_THREAD_POOL.with(|thread_pool| {
             let thread_pool = thread_pool.borrow();
             let thread_pool_guard = thread_pool.as_ref().unwrap().read().unwrap();
             thread_pool_guard.submit(
                 Box::new(
                     WriteBlobCommand::new(
-                        self.index, Mutex::new(blob_header), Mutex::new(blob_body),
+                        self.index, Mutex::new(blobs),
                     )
                 )
             );
@@ -239,16 +239,14 @@ impl Command for EncodeFileBlockCommand {
 
 struct WriteBlobCommand {
     index: usize,
-    blob_header: Mutex<Vec<u8>>,
-    blob_body: Mutex<Vec<u8>>,
+    blobs: Mutex<Vec<(Vec<u8>, Vec<u8>)>>,
 }
 
 impl WriteBlobCommand {
-    fn new(index: usize, blob_header: Mutex<Vec<u8>>, blob_body: Mutex<Vec<u8>>) -> WriteBlobCommand {
+    fn new(index: usize, blobs: Mutex<Vec<(Vec<u8>, Vec<u8>)>>) -> WriteBlobCommand {
         WriteBlobCommand {
             index,
-            blob_header,
-            blob_body,
+            blobs,
         }
     }
 }
@@ -257,13 +255,11 @@ impl Command for WriteBlobCommand {
     fn execute(&self) -> Result<(), Error> {
         BLOB_ORDERING_BUFFER.with(
             |buffer| {
-                let mut blob_header_guard = self.blob_header.lock().unwrap();
-                let blob_header = std::mem::take(blob_header_guard.deref_mut());
-                let mut blob_body_guard = self.blob_body.lock().unwrap();
-                let blob_body = std::mem::take(blob_body_guard.deref_mut());
+                let mut blobs_guard = self.blobs.lock().unwrap();
+                let blobs = std::mem::take(blobs_guard.deref_mut());
                 buffer
                     .borrow_mut()
-                    .insert(self.index, (blob_header, blob_body));
+                    .insert(self.index, blobs);
             }
         );
 
@@ -277,14 +273,16 @@ impl Command for WriteBlobCommand {
                                 *next.borrow_mut() = i;
                                 break;
                             }
-                            Some((header, body)) => {
-                                PBF_WRITER.with(
-                                    |writer| {
-                                        writer.borrow_mut().as_mut()
-                                            .ok_or_else(|| anyhow!("the file header was not written"))?
-                                            .write_blob(header, body)
-                                    }
-                                )?;
+                            Some(blobs) => {
+                                for (header, body) in blobs {
+                                    PBF_WRITER.with(
+                                        |writer| {
+                                            writer.borrow_mut().as_mut()
+                                                .ok_or_else(|| anyhow!("the file header was not written"))?
+                                                .write_blob(header, body)
+                                        }
+                                    )?;
+                                }
                             }
                         }
                     }
diff --git a/src/osm/pbf/writer.rs b/src/osm/pbf/writer.rs
index 424ff36..d71e052 100644
--- a/src/osm/pbf/writer.rs
+++ b/src/osm/pbf/writer.rs
@@ -143,8 +143,10 @@ impl Writer {
 
     /// Low level API to write a [FileBlock]
     pub fn write_file_block(&mut self, file_block: FileBlock) -> Result<(), anyhow::Error> {
-        let (blob_header, blob_body) = FileBlock::serialize(&file_block, self.compression_type.clone())?;
-        self.write_blob(blob_header, blob_body)
+        for (blob_header, blob_body) in FileBlock::serialize(&file_block, self.compression_type.clone())? {
+            self.write_blob(blob_header, blob_body)?;
+        }
+        Ok(())
     }
 
     /// Low level API to write a bytes of a blob
-- 
2.43.0


From 7e936cacaac308485bddaa1bfac2633c4458c26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 28/33] fix: refuse truncated or incompletely sorted tables of
 a dump

---
 src/osm/apidb_dump/read/reader.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/osm/apidb_dump/read/reader.rs b/src/osm/apidb_dump/read/reader.rs
index a4d8d3d..b3917b2 100644
--- a/src/osm/apidb_dump/read/reader.rs
+++ b/src/osm/apidb_dump/read/reader.rs
@@ -1,7 +1,9 @@
 use std::collections::HashMap;
 use std::fs;
+use std::fs::File;
+use std::io::{Read, Seek, SeekFrom};
 use std::ops::{AddAssign, SubAssign};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use anyhow::{anyhow, Context};
 
 use regex::Regex;
@@ -72,6 +74,7 @@ impl Reader {
         let ignore_regex = Regex::new("^\\\\\\.$")?;
         for (table_name, table_def) in tables {
             log::info!("Sort {} table data", table_name);
+            let rows_length = Self::rows_length(&table_def.path())?;
             fs::create_dir_all(table_def.tmp_path())?;
             let mut text_file = Sort::new(vec![table_def.path()], table_def.sorted_path());
             text_file.with_tmp_dir(table_def.tmp_path());
@@ -81,10 +84,36 @@ impl Reader {
             text_file.with_ignore_empty();
             text_file.with_ignore_lines(ignore_regex.clone());
             text_file.sort()?;
+            let sorted_length = fs::metadata(table_def.sorted_path())?.len();
+            if sorted_length != rows_length {
+                return Err(
+                    anyhow!("{} has {} bytes of rows, {} bytes after sorting", table_def.path().display(), rows_length, sorted_length)
+                );
+            }
         }
         Ok(())
     }
 
+    /// The length of table data up to the end-of-data marker, without which the data is incomplete
+    fn rows_length(path: &Path) -> Result<u64, anyhow::Error> {
+        let mut file = File::open(path)
+            .with_context(|| anyhow!("path: {}", path.display()))?;
+        let length = file.metadata()?.len();
+        let tail_start = length.saturating_sub(64);
+        file.seek(SeekFrom::Start(tail_start))?;
+        let mut tail = Vec::new();
+        file.read_to_end(&mut tail)
+            .with_context(|| anyhow!("path: {}", path.display()))?;
+        while tail.last() == Some(&b'\n') {
+            tail.pop();
+        }
+        if tail.ends_with(b"\n\\.") || (tail_start == 0 && tail == b"\\.") {
+            Ok(tail_start + tail.len() as u64 - 2)
+        } else {
+            Err(anyhow!("{} is truncated, there is no end-of-data marker", path.display()))
+        }
+    }
+
     fn get_table_def_strings(toc: &[u8]) -> Vec<(String, String)> {
         // COPY public.node_tags (node_id, version, k, v) FROM stdin;......3838.dat
         let mut result: Vec<(String, String)> = Vec::new();
-- 
2.43.0


From 7c28b7f6baa6dd715dd9fb31d1ce85b476b82f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 29/33] fix: refuse dump rows with too many columns

---
 src/osm/apidb_dump/read/table_def.rs    | 6 ++++++
 src/osm/apidb_dump/read/table_reader.rs | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/osm/apidb_dump/read/table_def.rs b/src/osm/apidb_dump/read/table_def.rs
index f986316..1f97195 100644
--- a/src/osm/apidb_dump/read/table_def.rs
+++ b/src/osm/apidb_dump/read/table_def.rs
@@ -10,6 +10,7 @@ pub(crate) struct TableDef {
     sorted_path: PathBuf,
     tmp_path: PathBuf,
     fields: TableFields,
+    columns: usize,
     pkey: TablePkey,
 }
 
@@ -26,6 +27,7 @@ impl TableDef {
             sorted_path: Self::build_sorted_path(name.clone(), tmp_path.clone()),
             tmp_path,
             fields: TableFields::new(name.clone(), fields.clone())?,
+            columns: fields.len(),
             pkey: TablePkey::new(name.clone(), fields.clone())?,
         };
         Ok(table_def)
@@ -56,6 +58,10 @@ impl TableDef {
         &self.fields
     }
 
+    pub(crate) fn columns(&self) -> usize {
+        self.columns
+    }
+
     pub(crate) fn pkey(&self) -> TablePkey {
         self.pkey.clone()
     }
diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 7a1977d..6f90ac8 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -28,6 +28,8 @@ struct RecordBuilder {
 
 impl RecordBuilder {
     fn build(&self, line: &str, line_number: usize) -> Option<TableRecord> {
+        let columns = line.split('\t').count();
+        assert_eq!(columns, self.table_def.columns(), "wrong number of columns in {}:{}", self.table_def.path().display(), line_number);
         (self.f)(line, &self.table_def, line_number)
     }
 }
-- 
2.43.0


From 0dce6fbec53fc5412f04b7a556c20731eedeff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:35 +0000
Subject: [PATCH 30/33] fix: rows of missing elements don't detach the rows
 after them

---
 src/osm/apidb_dump/read/node_relations_reader.rs     |  6 ++++++
 src/osm/apidb_dump/read/relation_relations_reader.rs | 12 ++++++++++++
 src/osm/apidb_dump/read/way_relations_reader.rs      | 12 ++++++++++++
 3 files changed, 30 insertions(+)

diff --git a/src/osm/apidb_dump/read/node_relations_reader.rs b/src/osm/apidb_dump/read/node_relations_reader.rs
index d0c1c29..bf010b7 100644
--- a/src/osm/apidb_dump/read/node_relations_reader.rs
+++ b/src/osm/apidb_dump/read/node_relations_reader.rs
@@ -93,6 +93,12 @@ impl Iterator for NodeRelationsIterator {
                         }
                     }
                 }
+                if let Some(node_tag_record) = &self.next_node_tag_record {
+                    assert!(
+                        (node_tag_record.node_id(), node_tag_record.version()) > (node_record.node_id(), node_record.version()),
+                        "tag of missing node {} version {}", node_tag_record.node_id(), node_tag_record.version()
+                    );
+                }
 
                 Some(
                     NodeRelation::new(
diff --git a/src/osm/apidb_dump/read/relation_relations_reader.rs b/src/osm/apidb_dump/read/relation_relations_reader.rs
index 47a65d5..3ff9cc0 100644
--- a/src/osm/apidb_dump/read/relation_relations_reader.rs
+++ b/src/osm/apidb_dump/read/relation_relations_reader.rs
@@ -108,6 +108,12 @@ impl Iterator for RelationRelationsIterator {
                         }
                     }
                 }
+                if let Some(relation_tag_record) = &self.next_relation_tag_record {
+                    assert!(
+                        (relation_tag_record.relation_id(), relation_tag_record.version()) > (relation_record.relation_id(), relation_record.version()),
+                        "tag of missing relation {} version {}", relation_tag_record.relation_id(), relation_tag_record.version()
+                    );
+                }
 
                 let mut current_relation_members = Vec::<RelationMemberRecord>::new();
                 if let Some(relation_member_record) = self.next_relation_member_record.take() {
@@ -142,6 +148,12 @@ impl Iterator for RelationRelationsIterator {
                         }
                     }
                 }
+                if let Some(relation_member_record) = &self.next_relation_member_record {
+                    assert!(
+                        (relation_member_record.relation_id(), relation_member_record.version()) > (relation_record.relation_id(), relation_record.version()),
+                        "member of missing relation {} version {}", relation_member_record.relation_id(), relation_member_record.version()
+                    );
+                }
 
                 Some(
                     RelationRelation::new(
diff --git a/src/osm/apidb_dump/read/way_relations_reader.rs b/src/osm/apidb_dump/read/way_relations_reader.rs
index 2fddec5..26a1774 100644
--- a/src/osm/apidb_dump/read/way_relations_reader.rs
+++ b/src/osm/apidb_dump/read/way_relations_reader.rs
@@ -108,6 +108,12 @@ impl Iterator for WayRelationsIterator {
                         }
                     }
                 }
+                if let Some(way_tag_record) = &self.next_way_tag_record {
+                    assert!(
+                        (way_tag_record.way_id(), way_tag_record.version()) > (way_record.way_id(), way_record.version()),
+                        "tag of missing way {} version {}", way_tag_record.way_id(), way_tag_record.version()
+                    );
+                }
 
                 let mut current_way_nodes = Vec::<WayNodeRecord>::new();
                 if let Some(way_node_record) = self.next_way_node_record.take() {
@@ -142,6 +148,12 @@ impl Iterator for WayRelationsIterator {
                         }
                     }
                 }
+                if let Some(way_node_record) = &self.next_way_node_record {
+                    assert!(
+                        (way_node_record.way_id(), way_node_record.version()) > (way_record.way_id(), way_record.version()),
+                        "node of missing way {} version {}", way_node_record.way_id(), way_node_record.version()
+                    );
+                }
 
                 Some(
                     WayRelation::new(
-- 
2.43.0


From 1abf0a45709b11dfa22287702eb16697d5093769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 31/33] fix: refuse NULL and undecodable text in a dump

---
 src/osm/apidb_dump/read/table_reader.rs | 18 +++++++++---------
 src/osm/apidb_dump/sql.rs               | 11 +++++++++++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/osm/apidb_dump/read/table_reader.rs b/src/osm/apidb_dump/read/table_reader.rs
index 6f90ac8..b947a4d 100644
--- a/src/osm/apidb_dump/read/table_reader.rs
+++ b/src/osm/apidb_dump/read/table_reader.rs
@@ -19,7 +19,7 @@ use crate::osm::apidb_dump::read::user_record::{FormatEnum, UserRecord, UserStat
 use crate::osm::apidb_dump::read::way_node_record::WayNodeRecord;
 use crate::osm::apidb_dump::read::way_record::WayRecord;
 use crate::osm::apidb_dump::read::way_tag_record::WayTagRecord;
-use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_time, unescape};
+use crate::osm::apidb_dump::sql::{parse_sql_bool, parse_sql_null_string, parse_sql_string, parse_sql_time, unescape};
 
 struct RecordBuilder {
     f: fn(&str, &TableDef, usize) -> Option<TableRecord>,
@@ -184,8 +184,8 @@ impl TableReader {
                         node_tag_record: NodeTagRecord::new(
                             i64::from_str(columns[*node_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            parse_sql_string(columns[*k]).unwrap(),
+                            parse_sql_string(columns[*v]).unwrap(),
                         )
                     }
                 )
@@ -263,8 +263,8 @@ impl TableReader {
                         way_tag_record: WayTagRecord::new(
                             i64::from_str(columns[*way_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            parse_sql_string(columns[*k]).unwrap(),
+                            parse_sql_string(columns[*v]).unwrap(),
                         )
                     }
                 )
@@ -320,7 +320,7 @@ impl TableReader {
                             i64::from_str(columns[*relation_id]).unwrap(),
                             RelationMemberType::try_from(columns[*member_type]).unwrap(),
                             i64::from_str(columns[*member_id]).unwrap(),
-                            unescape(columns[*member_role]).unwrap_or(columns[*member_role].to_string()),
+                            parse_sql_string(columns[*member_role]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
                             i64::from_str(columns[*sequence_id]).unwrap(),
                         )
@@ -346,8 +346,8 @@ impl TableReader {
                         relation_tag_record: RelationTagRecord::new(
                             i64::from_str(columns[*relation_id]).unwrap(),
                             i64::from_str(columns[*version]).unwrap(),
-                            unescape(columns[*k]).unwrap_or(columns[*k].to_string()),
-                            unescape(columns[*v]).unwrap_or(columns[*v].to_string()),
+                            parse_sql_string(columns[*k]).unwrap(),
+                            parse_sql_string(columns[*v]).unwrap(),
                         )
                     }
                 )
@@ -433,7 +433,7 @@ impl TableReader {
                             i64::from_str(columns[*id]).unwrap(),
                             columns[*pass_crypt].to_string(),
                             parse_sql_time(columns[*creation_time]).unwrap(),
-                            unescape(columns[*display_name]).unwrap_or(columns[*display_name].to_string()),
+                            parse_sql_string(columns[*display_name]).unwrap(),
                             parse_sql_bool(columns[*data_public]).unwrap(),
                             unescape(columns[*description]).unwrap_or(columns[*description].to_string()),
                             f64::from_str(columns[*home_lat]).ok(),
diff --git a/src/osm/apidb_dump/sql.rs b/src/osm/apidb_dump/sql.rs
index 95162ab..51fc424 100644
--- a/src/osm/apidb_dump/sql.rs
+++ b/src/osm/apidb_dump/sql.rs
@@ -35,6 +35,17 @@ pub(crate) fn parse_sql_null_string(s: &str) -> Option<String> {
     }
 }
 
+pub(crate) fn parse_sql_string(s: &str) -> Result<String, anyhow::Error> {
+    match s {
+        "\\N" => {
+            Err(anyhow!("Unexpected NULL"))
+        }
+        _ => {
+            unescape(s).ok_or_else(|| anyhow!("Not a valid string: {}", s))
+        }
+    }
+}
+
 pub(crate) fn to_sql_time_millis(t: i64) -> String {
     let datetime = DateTime::from_timestamp_millis(t).unwrap();
     let sql_time: String = datetime.to_rfc3339_opts(SecondsFormat::Secs, true);
-- 
2.43.0


From 9d67a2758c61593153ca1925c04ff0d1e39aa00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:36 +0000
Subject: [PATCH 32/33] fix: refuse versions and user ids of a dump beyond 32
 bits

---
 src/osm/apidb_dump/read/element_iterator.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/osm/apidb_dump/read/element_iterator.rs b/src/osm/apidb_dump/read/element_iterator.rs
index 23e92b1..00be89b 100644
--- a/src/osm/apidb_dump/read/element_iterator.rs
+++ b/src/osm/apidb_dump/read/element_iterator.rs
@@ -124,14 +124,14 @@ impl Iterator for ElementIterator {
                             Element::Node {
                                 node: Node::new(
                                     n.node().node_id(),
-                                    n.node().version() as i32,
+                                    i32::try_from(n.node().version()).unwrap(),
                                     Coordinate::new(
                                         n.node().latitude() as f64 / 10000000.0f64,
                                         n.node().longitude() as f64 / 10000000.0f64,
                                     ),
                                     n.node().timestamp().and_utc().timestamp_millis(),
                                     changeset_id,
-                                    uid as i32,
+                                    i32::try_from(uid).unwrap(),
                                     user,
                                     n.node().visible(),
                                     n.take_tags().into_iter().map(
@@ -161,10 +161,10 @@ impl Iterator for ElementIterator {
                             Element::Way {
                                 way: Way::new(
                                     w.way().way_id(),
-                                    w.way().version() as i32,
+                                    i32::try_from(w.way().version()).unwrap(),
                                     w.way().timestamp().and_utc().timestamp_millis(),
                                     changeset_id,
-                                    uid as i32,
+                                    i32::try_from(uid).unwrap(),
                                     user,
                                     w.way().visible(),
                                     w.take_way_nodes().into_iter().map(
@@ -198,10 +198,10 @@ impl Iterator for ElementIterator {
                             Element::Relation {
                                 relation: Relation::new(
                                     r.relation().relation_id(),
-                                    r.relation().version() as i32,
+                                    i32::try_from(r.relation().version()).unwrap(),
                                     r.relation().timestamp().and_utc().timestamp_millis(),
                                     changeset_id,
-                                    uid as i32,
+                                    i32::try_from(uid).unwrap(),
                                     user,
                                     r.relation().visible(),
                                     r.take_relation_members().into_iter().map(
-- 
2.43.0


From dce916c880b51ab256e53d4f9d627f57a55ab6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:58 +0000
Subject: [PATCH 33/33] fix: keep the ordering buffer of the parallel writer
 within its size

A list longer than a file block, or of several types, was followed by writing
a single block, so that the buffer kept growing with the data.
---
 src/osm/pbf/parallel_writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/osm/pbf/parallel_writer.rs b/src/osm/pbf/parallel_writer.rs
index c59ecca..c2c09a7 100644
--- a/src/osm/pbf/parallel_writer.rs
+++ b/src/osm/pbf/parallel_writer.rs
@@ -195,7 +195,8 @@ impl Command for AddElementsCommand {
                 assert_order(&element)?;
                 element_ordering_buffer.borrow_mut().push_back(element);
             }
-            if element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
+            // a list may be longer than a block, or its elements of several types
+            while element_ordering_buffer.borrow().len() > element_ordering_buffer_size() {
                 flush_sorted_top();
             }
             Ok(())
-- 
2.43.0

