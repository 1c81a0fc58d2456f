From 74edb11710e1c9dcb7c34460bb87c1d59e0ed179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 1/9] fix: do not overflow when decoding extreme deltas,
 coordinates and timestamps

---
 src/dense.rs    | 25 +++++++++++++++----------
 src/elements.rs | 30 +++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/dense.rs b/src/dense.rs
index 577e327..e0535fd 100644
--- a/src/dense.rs
+++ b/src/dense.rs
@@ -39,7 +39,9 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.lat
+        i64::from(self.block.granularity())
+            .wrapping_mul(self.lat)
+            .wrapping_add(self.block.lat_offset())
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -54,7 +56,9 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.lon
+        i64::from(self.block.granularity())
+            .wrapping_mul(self.lon)
+            .wrapping_add(self.block.lon_offset())
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -146,9 +150,9 @@ impl<'a> Iterator for DenseNodeIter<'a> {
             self.info_iter.as_mut().and_then(|iter| iter.next()),
         ) {
             (Some(did), Some(dlat), Some(dlon), info) => {
-                self.cid += *did;
-                self.clat += *dlat;
-                self.clon += *dlon;
+                self.cid = self.cid.wrapping_add(*did);
+                self.clat = self.clat.wrapping_add(*dlat);
+                self.clon = self.clon.wrapping_add(*dlon);
 
                 let start_index = self.keys_vals_index;
                 let mut end_index = start_index;
@@ -223,7 +227,8 @@ impl<'a> DenseNodeInfo<'a> {
 
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> i64 {
-        self.timestamp * i64::from(self.block.date_granularity())
+        self.timestamp
+            .wrapping_mul(i64::from(self.block.date_granularity()))
     }
 
     /// Returns the visibility status of an element. This is only relevant if the PBF file contains
@@ -296,10 +301,10 @@ impl<'a> Iterator for DenseNodeInfoIter<'a> {
                 Some(duser_sid),
                 visible_opt,
             ) => {
-                self.ctimestamp += *dtimestamp;
-                self.cchangeset += *dchangeset;
-                self.cuid += *duid;
-                self.cuser_sid += *duser_sid;
+                self.ctimestamp = self.ctimestamp.wrapping_add(*dtimestamp);
+                self.cchangeset = self.cchangeset.wrapping_add(*dchangeset);
+                self.cuid = self.cuid.wrapping_add(*duid);
+                self.cuser_sid = self.cuser_sid.wrapping_add(*duser_sid);
                 Some(DenseNodeInfo {
                     block: self.block,
                     version,
diff --git a/src/elements.rs b/src/elements.rs
index 9d52e10..c18c328 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -87,7 +87,9 @@ impl<'a> Node<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.osmnode.lat()
+        i64::from(self.block.granularity())
+            .wrapping_mul(self.osmnode.lat())
+            .wrapping_add(self.block.lat_offset())
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -102,7 +104,9 @@ impl<'a> Node<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.osmnode.lon()
+        i64::from(self.block.granularity())
+            .wrapping_mul(self.osmnode.lon())
+            .wrapping_add(self.block.lon_offset())
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -335,7 +339,7 @@ impl Iterator for WayRefIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.deltas.next() {
             Some(&d) => {
-                self.current += d;
+                self.current = self.current.wrapping_add(d);
                 Some(self.current)
             }
             None => None,
@@ -404,11 +408,15 @@ impl Iterator for WayNodeLocationsIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match (self.dlats.next(), self.dlons.next()) {
             (Some(&dlat), Some(&dlon)) => {
-                self.clat += dlat;
-                self.clon += dlon;
+                self.clat = self.clat.wrapping_add(dlat);
+                self.clon = self.clon.wrapping_add(dlon);
                 Some(WayNodeLocation {
-                    lat: self.block.lat_offset() + i64::from(self.block.granularity()) * self.clat,
-                    lon: self.block.lon_offset() + i64::from(self.block.granularity()) * self.clon,
+                    lat: i64::from(self.block.granularity())
+                        .wrapping_mul(self.clat)
+                        .wrapping_add(self.block.lat_offset()),
+                    lon: i64::from(self.block.granularity())
+                        .wrapping_mul(self.clon)
+                        .wrapping_add(self.block.lon_offset()),
                 })
             }
             _ => None,
@@ -491,7 +499,7 @@ impl<'a> Iterator for RelMemberIter<'a> {
             self.member_types.next(),
         ) {
             (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
-                self.current_member_id += *mem_id_delta;
+                self.current_member_id = self.current_member_id.wrapping_add(*mem_id_delta);
                 Some(RelMember {
                     block: self.block,
                     role_sid: *role_sid,
@@ -583,7 +591,11 @@ impl<'a> Info<'a> {
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> Option<i64> {
         if self.info.has_timestamp() {
-            Some(self.info.timestamp() * i64::from(self.block.date_granularity()))
+            Some(
+                self.info
+                    .timestamp()
+                    .wrapping_mul(i64::from(self.block.date_granularity())),
+            )
         } else {
             None
         }
-- 
2.43.0


From 58eb096c9ca224ea95c5dc4208e69900c129de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 2/9] fix: end the member list at an unknown member type
 instead of panicking

---
 src/elements.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elements.rs b/src/elements.rs
index c18c328..39d1cd3 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -499,6 +499,10 @@ impl<'a> Iterator for RelMemberIter<'a> {
             self.member_types.next(),
         ) {
             (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
+                if member_type.enum_value().is_err() {
+                    // A member of unknown type ends the iteration.
+                    return None;
+                }
                 self.current_member_id = self.current_member_id.wrapping_add(*mem_id_delta);
                 Some(RelMember {
                     block: self.block,
-- 
2.43.0


From a02427a58091f68cae098f85f5140f04c1a1205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 3/9] fix: report a negative blob size as an error

---
 src/blob.rs      | 9 +++++++++
 src/mmap_blob.rs | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 92f7328..39cd75c 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -224,6 +224,15 @@ impl<R: Read + Send> BlobReader<R> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(new_error(ErrorKind::Io(::std::io::Error::new(
+                ::std::io::ErrorKind::InvalidData,
+                "negative blob size",
+            )))));
+        }
+
         self.offset = self.offset.map(|x| ByteOffset(x.0 + header_size));
 
         Some(Ok(header))
diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index e07c733..d1e4bec 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -219,6 +219,13 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.last_blob_ok = false;
+            let io_error =
+                ::std::io::Error::new(::std::io::ErrorKind::InvalidData, "negative blob size");
+            return Some(Err(io_error.into()));
+        }
+
         let data_size = header.datasize() as usize;
         let chunk_size = 4 + header_size + data_size;
 
-- 
2.43.0


From fe4190db58f1ab10ef8eb05cd27079e9d1f6e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 4/9] fix: end MmapBlobReader's iteration after an error

---
 src/mmap_blob.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index d1e4bec..4d51615 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -175,6 +175,7 @@ impl MmapBlobReader<'_> {
     /// ```
     pub fn seek(&mut self, pos: ByteOffset) {
         self.offset = pos.0 as usize;
+        self.last_blob_ok = true;
     }
 }
 
@@ -182,6 +183,11 @@ impl<'a> Iterator for MmapBlobReader<'a> {
     type Item = Result<MmapBlob<'a>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Stop iteration if there was an error.
+        if !self.last_blob_ok {
+            return None;
+        }
+
         let slice = &self.mmap.as_slice()[self.offset..];
 
         match slice.len() {
-- 
2.43.0


From 6351ffb51d610bb34447705fd5958fd03cfcf4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 5/9] fix: do not panic in MmapBlobReader after seeking beyond
 the end

---
 src/mmap_blob.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index 4d51615..79520af 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -188,7 +188,8 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             return None;
         }
 
-        let slice = &self.mmap.as_slice()[self.offset..];
+        // There is nothing to read at or after the end of the memory map.
+        let slice = self.mmap.as_slice().get(self.offset..).unwrap_or(&[]);
 
         match slice.len() {
             0 => return None,
-- 
2.43.0


From 7370f3caff51a5333eb173adf766227cceaac218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 6/9] fix: allow reading again after a successful seek

---
 src/blob.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 39cd75c..01365cc 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -385,6 +385,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(SeekFrom::Start(pos.0)) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(())
             }
             Err(e) => {
@@ -399,6 +400,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(pos) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(offset)
             }
             Err(e) => {
-- 
2.43.0


From 27022cbe61e8170b2f236699d2a3b8d0381c3537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 7/9] fix: do not keep a partial index if create_index fails

---
 src/indexed.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/indexed.rs b/src/indexed.rs
index 8168326..6f63140 100644
--- a/src/indexed.rs
+++ b/src/indexed.rs
@@ -151,6 +151,9 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
         // Seek to the beginning of the reader.
         self.reader.seek(ByteOffset(0))?;
 
+        // Only keep the index if it is complete.
+        let mut index = vec![];
+
         while let Some(result) = self.reader.next_header_skip_blob() {
             let (header, offset) = result?;
             // Reader is seekable, so offset should be Some(ByteOffset)
@@ -161,13 +164,15 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
                 BlobType::Unknown(_) => SimpleBlobType::Unknown,
             };
 
-            self.index.push(BlobInfo {
+            index.push(BlobInfo {
                 offset,
                 blob_type,
                 id_ranges: None,
             });
         }
 
+        self.index = index;
+
         Ok(())
     }
 
-- 
2.43.0


From 8323fd9ff639a26c5f7e93780c912a1a7a12b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 8/9] fix: report blobs that are cut short by the end of the
 stream

---
 src/blob.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 01365cc..855f3a3 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -224,6 +224,15 @@ impl<R: Read + Send> BlobReader<R> {
             }
         };
 
+        if reader.limit() != 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(new_error(ErrorKind::Io(::std::io::Error::new(
+                ::std::io::ErrorKind::UnexpectedEof,
+                "content too short for header",
+            )))));
+        }
+
         if header.datasize() < 0 {
             self.offset = None;
             self.last_blob_ok = false;
@@ -295,6 +304,15 @@ impl<R: Read + Send> Iterator for BlobReader<R> {
             }
         };
 
+        if reader.limit() != 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(new_error(ErrorKind::Io(::std::io::Error::new(
+                ::std::io::ErrorKind::UnexpectedEof,
+                "content too short for block data",
+            )))));
+        }
+
         self.offset = self
             .offset
             .map(|x| ByteOffset(x.0 + header.datasize() as u64));
-- 
2.43.0


From 41c0881a9934514762cd0e7dd0f09b351486bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 9/9] fix: reject zlib content that exceeds the maximum message
 size

---
 src/blob.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index 855f3a3..3e27d5f 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -491,7 +491,15 @@ pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
         }
     } else if blob.has_zlib_data() {
         let mut decoder = ZlibDecoder::new(blob.zlib_data()).take(MAX_BLOB_MESSAGE_SIZE);
-        T::parse_from_reader(&mut decoder).map_err(|e| new_protobuf_error(e, "blob zlib data"))
+        let message = T::parse_from_reader(&mut decoder)
+            .map_err(|e| new_protobuf_error(e, "blob zlib data"))?;
+        if decoder.limit() == 0 {
+            // The content has reached the maximum size and might have been cut off.
+            return Err(new_blob_error(BlobError::MessageTooBig {
+                size: MAX_BLOB_MESSAGE_SIZE,
+            }));
+        }
+        Ok(message)
     } else {
         Err(new_blob_error(BlobError::Empty))
     }
-- 
2.43.0

