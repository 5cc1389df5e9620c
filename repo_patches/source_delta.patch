From 9ecd2bc275e05a47ec9fbb4544e833e03b60e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 01/12] fix: do not depend on how the reader splits or
 interrupts its reads

---
 src/lib.rs     |  4 +++-
 src/readers.rs | 24 ++++++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5f26ed..0969458 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -228,6 +228,8 @@ use std::{
 
 pub use formats::FileFormat;
 
+use readers::ReadData;
+
 impl FileFormat {
     /// Determines file format from bytes.
     ///
@@ -292,7 +294,7 @@ impl FileFormat {
     pub fn from_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
         // Creates and fills a buffer.
         let mut buf = [0; 36_870];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Determines file format.
         Ok(if nread == 0 {
diff --git a/src/readers.rs b/src/readers.rs
index ce1318c..3b34cf8 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -631,7 +631,7 @@ impl crate::FileFormat {
         let mut total_nread = 0;
         while total_nread < READ_LIMIT {
             // Reads a chunk of the stream into the buffer.
-            let nread = reader.read(&mut buf[OVERLAP_SIZE..])?;
+            let nread = reader.read_up_to(&mut buf[OVERLAP_SIZE..])?;
             if nread == 0 {
                 break;
             }
@@ -734,7 +734,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 32_768];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
 
         // Checks if the buffer holds the Sketch file format marker.
         if buf[..nread].holds(SKETCH_MARKER) {
@@ -784,7 +784,7 @@ impl crate::FileFormat {
 
         // Creates and fills a buffer.
         let mut buf = [0; 8192];
-        let nread = reader.read(&mut buf)?;
+        let nread = reader.read_up_to(&mut buf)?;
         let buf = &buf[..nread];
 
         // Checks if the buffer holds markers indicating the presence of various file formats.
@@ -1100,7 +1100,7 @@ impl crate::FileFormat {
 
 /// A trait for convenient data reading.
 #[allow(dead_code)]
-trait ReadData: Read {
+pub(crate) trait ReadData: Read {
     /// Reads a specified number of bytes into a `Vec<u8>`.
     #[inline]
     fn read_bytes(&mut self, size: usize) -> Result<Vec<u8>> {
@@ -1178,6 +1178,22 @@ trait ReadData: Read {
         self.read_exact(&mut buf)?;
         Ok(u64::from_le_bytes(buf))
     }
+
+    /// Reads bytes until the specified buffer is full or the end of the stream is reached, and
+    /// returns the number of bytes read.
+    #[inline]
+    fn read_up_to(&mut self, buf: &mut [u8]) -> Result<usize> {
+        let mut nread = 0;
+        while nread < buf.len() {
+            match self.read(&mut buf[nread..]) {
+                Ok(0) => break,
+                Ok(count) => nread += count,
+                Err(err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
+        Ok(nread)
+    }
 }
 
 /// Allows any type `R` that implements the `Read` trait to automatically benefit from the
-- 
2.43.0


From 5ddd5cdec07de76b30a71e367e206dd66a846e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 02/12] fix: do not overflow or seek past the end on oversized
 ASF objects

---
 src/readers.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 3b34cf8..53d2011 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -79,6 +79,9 @@ impl crate::FileFormat {
         // Creates a buffered reader.
         let mut reader = BufReader::new(reader);
 
+        // Retrieves the stream length.
+        let len = reader.seek(SeekFrom::End(0))?;
+
         // Reads the number of header objects.
         reader.seek(SeekFrom::Start(24))?;
         let number_of_header_objects = reader.read_u32_le()?;
@@ -92,12 +95,18 @@ impl crate::FileFormat {
 
         // Iterates through the header objects.
         for _ in 0..std::cmp::min(OBJECT_LIMIT, number_of_header_objects as usize) {
+            // Retrieves the offset of the object.
+            let offset = reader.stream_position()?;
+
             // Reads the object GUID.
             let guid = reader.read_guid()?;
 
             // Reads the object size.
             let size = reader.read_u64_le()?;
 
+            // Calculates the offset of the next object.
+            let next_offset = std::cmp::min(len, offset.saturating_add(size));
+
             // Checks the object GUID.
             match guid.as_str() {
                 STREAM_PROPERTIES_OBJECT_GUID => {
@@ -112,15 +121,12 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 40))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 EXTENDED_CONTENT_DESCRIPTION_OBJECT_GUID => {
                     // Reads the content descriptors count.
                     let count = reader.read_u16_le()?;
 
-                    // Calculates the offset of the content descriptors.
-                    let offset = reader.stream_position()?;
-
                     // Iterates through the content descriptors.
                     for _ in 0..std::cmp::min(DESCRIPTOR_LIMIT, count as usize) {
                         // Reads the descriptor name length.
@@ -147,11 +153,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Start(offset + size - 26))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 _ => {
                     // Seeks to the next object.
-                    reader.seek(SeekFrom::Current(size as i64 - 24))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
             }
         }
-- 
2.43.0


From 61f51376d3583d7e5b3a6a5eef74bb92a35fdd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 03/12] fix: skip MP4 boxes with a 64-bit size correctly and
 without overflow

---
 src/readers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 53d2011..230db81 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -558,6 +558,9 @@ impl crate::FileFormat {
         // Iterates through boxes.
         let mut box_count = 0;
         while box_count < BOX_LIMIT && reader.stream_position()? < len {
+            // Retrieves the offset of the box.
+            let offset = reader.stream_position()?;
+
             // Reads the box size.
             let size = reader.read_u32_be()?;
 
@@ -571,6 +574,9 @@ impl crate::FileFormat {
                 size as u64
             };
 
+            // Calculates the offset of the next box.
+            let next_offset = std::cmp::min(len, offset.saturating_add(size));
+
             // Checks the box type.
             match box_type.as_slice() {
                 b"moov" | b"trak" | b"mdia" => {}
@@ -588,11 +594,11 @@ impl crate::FileFormat {
                     }
 
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 20))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 _ => {
                     // Seeks to the next box.
-                    reader.seek(SeekFrom::Current(size as i64 - 8))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
             }
 
-- 
2.43.0


From 4bcfe1c5b3d9267bd1ee13f2bbbfff7f9f071b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 04/12] fix: do not overflow or seek past the end on invalid
 ZIP64 offsets

---
 src/readers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 230db81..942e98b 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -921,7 +921,7 @@ impl crate::FileFormat {
             let eocd64_offset = reader.read_u64_le()?;
 
             // Reads the number of entries.
-            reader.seek(SeekFrom::Start(eocd64_offset + 32))?;
+            reader.seek(SeekFrom::Start(eocd64_offset.saturating_add(32)))?;
             let number_of_entries = reader.read_u64_le()?;
 
             // Reads the start of central directory offset.
@@ -944,7 +944,7 @@ impl crate::FileFormat {
         };
 
         // Seeks to the start of central directory.
-        reader.seek(SeekFrom::Start(socd_offset))?;
+        reader.seek(SeekFrom::Start(std::cmp::min(len, socd_offset)))?;
 
         // Sets the default value.
         let mut fmt = Self::Zip;
-- 
2.43.0


From abc7b0050eda1fec4bd4a620c63b32c383e542f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 05/12] fix: do not allocate the declared size of a ZIP
 mimetype file

---
 src/readers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 942e98b..3fd2370 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -869,6 +869,9 @@ impl crate::FileFormat {
         // Maximum number of entries that can be processed by the reader.
         const ENTRY_LIMIT: usize = 1024;
 
+        // Maximum size of a mimetype file that can be processed by the reader.
+        const MIMETYPE_LIMIT: usize = 256;
+
         // Signature of the ZIP64 end of central directory locator.
         const EOCD64_LOCATOR_SIGNATURE: &[u8] = b"PK\x06\x07";
 
@@ -1007,7 +1010,8 @@ impl crate::FileFormat {
                     ))?;
 
                     // Reads the data.
-                    let data = reader.read_string(compressed_size as usize)?;
+                    let data = reader
+                        .read_string(std::cmp::min(MIMETYPE_LIMIT, compressed_size as usize))?;
 
                     // Checks the trimmed data.
                     return Ok(match data.trim() {
-- 
2.43.0


From 5d2c025b95cb59980536056f42a0e0b81d324be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 06/12] fix: do not seek past the end on oversized EBML
 elements

---
 src/readers.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 3fd2370..aa91703 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -354,6 +354,9 @@ impl crate::FileFormat {
                 size = (size << 8) | (byte as u64);
             }
 
+            // Calculates the offset of the next element.
+            let next_offset = std::cmp::min(len, reader.stream_position()?.saturating_add(size));
+
             // Checks the element ID.
             match id {
                 EBML_ELEMENT_ID
@@ -374,8 +377,7 @@ impl crate::FileFormat {
                     }
 
                     // Skips the remaining size.
-                    let remaining_size = size.saturating_sub(DOC_TYPE_LIMIT as u64);
-                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 CODEC_ID_ELEMENT_ID => {
                     // Reads the Codec ID.
@@ -392,8 +394,7 @@ impl crate::FileFormat {
                     }
 
                     // Skips the remaining size.
-                    let remaining_size = size.saturating_sub(CODEC_ID_LIMIT as u64);
-                    reader.seek(SeekFrom::Current(remaining_size as i64))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
@@ -407,7 +408,7 @@ impl crate::FileFormat {
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
                     // Seeks to the next element.
-                    reader.seek(SeekFrom::Current(size as i64))?;
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
             }
 
-- 
2.43.0


From 4124502aad27f55ca9f69a28688dcc8c9e238537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 07/12] fix: honor the size of the Matroska StereoMode element

---
 src/readers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index aa91703..d3b364f 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -278,6 +278,9 @@ impl crate::FileFormat {
         // Maximum size of a DocType that can be processed by the reader.
         const DOC_TYPE_LIMIT: usize = 8;
 
+        // Maximum size of a StereoMode that can be processed by the reader.
+        const STEREO_MODE_LIMIT: usize = 8;
+
         // DocType element ID.
         const DOC_TYPE_ELEMENT_ID: u32 = 0x4282;
 
@@ -398,12 +401,16 @@ impl crate::FileFormat {
                 }
                 STEREO_MODE_ELEMENT_ID => {
                     // Reads the StereoMode.
-                    let stereo_mode = reader.read_u8()?;
+                    let stereo_mode =
+                        reader.read_bytes(std::cmp::min(STEREO_MODE_LIMIT, size as usize))?;
 
                     // Checks the StereoMode.
-                    if stereo_mode > 0 {
+                    if stereo_mode.iter().any(|&byte| byte > 0) {
                         return Ok(Self::Matroska3dVideo);
                     }
+
+                    // Skips the remaining size.
+                    reader.seek(SeekFrom::Start(next_offset))?;
                 }
                 CLUSTER_ELEMENT_ID => break,
                 _ => {
-- 
2.43.0


From f736bcb2373c6638426c3538db805ab51e458672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 08/12] fix: do not count the ID3v2 extended header twice

---
 src/readers.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index d3b364f..531d4dc 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -497,19 +497,13 @@ impl crate::FileFormat {
                 | ((buf[8] as u64 & 0x7F) << 7)
                 | (buf[9] as u64 & 0x7F);
 
-            // Checks for extended header flag.
+            // Checks for footer flag.
             let flags = buf[5];
-            let extended_header_present = (flags & 0x40) != 0;
             let footer_present = (flags & 0x10) != 0;
 
             // Calculates next offset.
             let mut next_offset = offset + 10 + tag_size;
 
-            // Skips extended header if present.
-            if extended_header_present {
-                next_offset += reader.read_u32_be()? as u64;
-            }
-
             // Adds footer size if present.
             if footer_present {
                 next_offset += 10;
-- 
2.43.0


From d1ab4b639301d8b7b51eba72fccb630bd8ffad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 09/12] fix: recognize ID3v2 tags that are followed by less
 than 10 bytes

---
 src/readers.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 531d4dc..5d98d31 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -484,10 +484,11 @@ impl crate::FileFormat {
         loop {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
-            let buf = reader.read_bytes(10)?;
+            let mut buf = [0; 10];
+            let nread = reader.read_up_to(&mut buf)?;
 
             // Checks for ID3 magic bytes.
-            if &buf[..3] != b"ID3" {
+            if nread < buf.len() || &buf[..3] != b"ID3" {
                 break;
             }
 
@@ -517,7 +518,8 @@ impl crate::FileFormat {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Checks if the file contains the FLAC file format signature.
-        let buf = reader.read_bytes(4)?;
+        let mut buf = [0; 4];
+        reader.read_up_to(&mut buf)?;
         if buf.eq(b"fLaC") {
             return Ok(Self::FreeLosslessAudioCodec);
         }
-- 
2.43.0


From 712134d35a860653ff62c1c8ecc74486813174f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 10/12] fix: limit the number of ID3v2 tags processed by the
 reader

---
 src/readers.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/readers.rs b/src/readers.rs
index 5d98d31..33f0bec 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -479,9 +479,12 @@ impl crate::FileFormat {
     /// Determines file format from an ID3v2 reader.
     #[cfg(feature = "reader-id3v2")]
     pub(crate) fn from_id3v2_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {
+        // Maximum number of tags that can be processed by the reader.
+        const TAG_LIMIT: usize = 256;
+
         // Loops while in ID3v2 segment.
         let mut offset = 0;
-        loop {
+        for _ in 0..TAG_LIMIT {
             // Reads first 10 bytes.
             reader.seek(SeekFrom::Start(offset))?;
             let mut buf = [0; 10];
-- 
2.43.0


From 16996a9539d6b538e3bab09117c96051016b3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 11/12] fix: recognize MS-DOS executables smaller than 64 bytes

---
 src/readers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/readers.rs b/src/readers.rs
index 33f0bec..5adf5c6 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -441,6 +441,11 @@ impl crate::FileFormat {
         // Retrieves the stream length.
         let len = reader.seek(SeekFrom::End(0))?;
 
+        // Checks that the stream is large enough to hold an extended header address.
+        if len < 64 {
+            return Ok(Self::MsDosExecutable);
+        }
+
         // Reads the extended header address.
         reader.seek(SeekFrom::Start(60))?;
         let offset = reader.read_u32_le()?;
-- 
2.43.0


From f7f1cab3de4c0156cd0709f16eea544bf87f058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 12/12] fix: tolerate a character truncated by the read limit
 of the TXT reader

---
 src/readers.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/readers.rs b/src/readers.rs
index 5adf5c6..94a2c73 100644
--- a/src/readers.rs
+++ b/src/readers.rs
@@ -786,16 +786,26 @@ impl crate::FileFormat {
 
         // Determines if the reader contains only ASCII/UTF-8-encoded text by checking the first
         // lines for control characters other than whitespaces.
+        let mut total_nread = 0;
         reader
             .take(READ_LIMIT)
-            .lines()
+            .split(b'\n')
             .take(LINE_LIMIT)
             .try_for_each(|line| {
-                line?
-                    .chars()
-                    .find(|char| char.is_control() && !char.is_whitespace())
-                    .map(|_| Err(Error::new(ErrorKind::InvalidData, "invalid characters")))
-                    .unwrap_or(Ok(()))
+                let line = line?;
+                total_nread += line.len() as u64 + 1;
+                match std::str::from_utf8(&line) {
+                    Ok(line) => line,
+                    // Tolerates a character truncated by the read limit.
+                    Err(err) if err.error_len().is_none() && total_nread > READ_LIMIT => {
+                        std::str::from_utf8(&line[..err.valid_up_to()]).unwrap_or_default()
+                    }
+                    Err(err) => return Err(Error::new(ErrorKind::InvalidData, err)),
+                }
+                .chars()
+                .find(|char| char.is_control() && !char.is_whitespace())
+                .map(|_| Err(Error::new(ErrorKind::InvalidData, "invalid characters")))
+                .unwrap_or(Ok(()))
             })
             .map(|_| Self::PlainText)
     }
-- 
2.43.0

