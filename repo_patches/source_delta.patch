From fb8b6c4df1df4a7772cb2b2f6aff12f3aba06aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 01/21] fix: count utf-16 data in bytes instead of code units

---
 src/atom/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index c617a8e..ed084a0 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -133,7 +133,7 @@ impl Data {
         (match self {
             Self::Reserved(v) => v.len(),
             Self::Utf8(s) => s.len(),
-            Self::Utf16(s) => s.encode_utf16().count(),
+            Self::Utf16(s) => s.encode_utf16().count() * 2,
             Self::Jpeg(v) => v.len(),
             Self::Png(v) => v.len(),
             Self::BeSigned(v) => v.len(),
-- 
2.43.0


From 9627831f64f271a4a9184bb68e20cb17fcb26ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 02/21] fix: don't keep atoms without data when setting or
 adding no data

---
 src/tag/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tag/mod.rs b/src/tag/mod.rs
index eed2963..c0443a6 100644
--- a/src/tag/mod.rs
+++ b/src/tag/mod.rs
@@ -1278,6 +1278,8 @@ impl Tag {
                 self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect()));
             }
         }
+        // an atom without any data can't be read back
+        self.atoms.retain(|a| !a.data.is_empty());
     }
 
     /// If an atom corresponding to the identifier exists, the new data will be added to it,
@@ -1335,6 +1337,8 @@ impl Tag {
             Some(a) => a.data.extend(data),
             None => self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect())),
         }
+        // an atom without any data can't be read back
+        self.atoms.retain(|a| !a.data.is_empty());
     }
 
     /// Returns true if this tag contains any metadata atoms, false otherwise.
-- 
2.43.0


From 793b6e89c40035943944cd20f6e16c0bb4f2d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 03/21] fix: write the tag to the whole file regardless of the
 handle's cursor

---
 src/atom/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 5fb5b41..036c49e 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -357,6 +357,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     let mut reader = BufReader::new(file);
     let reader = &mut reader;
 
+    reader.seek(SeekFrom::Start(0))?;
     Ftyp::parse(reader)?;
 
     let len = data::remaining_stream_len(reader)?;
-- 
2.43.0


From 45b017e758bc98fbd2011570573579102c2ecafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 04/21] fix: reject extended lengths shorter than the head and
 content exceeding its atom

---
 src/atom/head.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index a0e2174..11e9605 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -118,6 +118,10 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
 
     if len == 1 {
         match reader.read_u64() {
+            Ok(l) if l < 16 || l > i64::MAX as u64 => Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Read invalid extended length of '{}': {}", ident, l),
+            )),
             Ok(l) => Ok(Head::new(true, l, ident)),
             Err(e) => Err(crate::Error::new(
                 ErrorKind::Io(e),
@@ -219,7 +223,12 @@ pub fn find_bounds(reader: &mut impl Seek, size: Size) -> crate::Result<AtomBoun
 
 pub fn seek_to_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
     let current = reader.seek(SeekFrom::Current(0))?;
-    let diff = bounds.end() - current;
+    let diff = bounds.end().checked_sub(current).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Read content which is longer than the atom".to_owned(),
+        )
+    })?;
     reader.seek(SeekFrom::Current(diff as i64))?;
     Ok(())
 }
-- 
2.43.0


From b247bc27b81e28b1d6ab7aa147f1d5cc8af6032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 05/21] fix: reject data, mean and name atoms which are too
 short for their fields

---
 src/atom/head.rs | 10 ++++++++++
 src/atom/mod.rs  |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index 11e9605..719fd2a 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -47,6 +47,16 @@ impl Size {
             false => self.len - 8,
         }
     }
+
+    /// Returns the length of the content following `fields_len` bytes of fixed size fields.
+    pub fn content_len_after(&self, fields_len: u64) -> crate::Result<u64> {
+        self.content_len().checked_sub(fields_len).ok_or_else(|| {
+            crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Read length which is too short to hold its content: {}", self.len),
+            )
+        })
+    }
 }
 
 /// A head specifying the size and type of an atom.
diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 036c49e..48de5d8 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -210,7 +210,7 @@ impl AtomData {
                     // Skipping 4 byte locale indicator
                     reader.seek(SeekFrom::Current(4))?;
 
-                    data.push(Data::parse(reader, datatype, head.content_len() - 8)?);
+                    data.push(Data::parse(reader, datatype, head.content_len_after(8)?)?);
                 }
                 MEAN => {
                     let (version, _) = parse_full_head(reader)?;
@@ -221,7 +221,7 @@ impl AtomData {
                         ));
                     }
 
-                    mean = Some(reader.read_utf8(head.content_len() - 4)?);
+                    mean = Some(reader.read_utf8(head.content_len_after(4)?)?);
                 }
                 NAME => {
                     let (version, _) = parse_full_head(reader)?;
@@ -232,7 +232,7 @@ impl AtomData {
                         ));
                     }
 
-                    name = Some(reader.read_utf8(head.content_len() - 4)?);
+                    name = Some(reader.read_utf8(head.content_len_after(4)?)?);
                 }
                 _ => {
                     reader.seek(SeekFrom::Current(head.content_len() as i64))?;
-- 
2.43.0


From 5207633897e48565404880acb02bd516899adaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 06/21] fix: don't allocate memory for lengths and counts the
 file doesn't contain

---
 src/atom/co64.rs |  2 +-
 src/atom/data.rs | 30 ++++++++++++++++++++++--------
 src/atom/stco.rs |  2 +-
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/atom/co64.rs b/src/atom/co64.rs
index 16fc9e5..a15f0bd 100644
--- a/src/atom/co64.rs
+++ b/src/atom/co64.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Co64 {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u64()?;
                     offsets.push(offset);
diff --git a/src/atom/data.rs b/src/atom/data.rs
index ed084a0..8ec39ce 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -464,24 +464,38 @@ pub trait ReadData: Read {
     }
 
     /// Attempts to read 8 bit unsigned integers from the reader to a vector of size length.
-    fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+    fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>>
+    where
+        Self: Sized,
+    {
+        // the length isn't trustworthy, only allocate what is actually there
+        let mut buf = Vec::new();
+        self.take(len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "failed to fill whole buffer",
+            ));
+        }
         Ok(buf)
     }
 
     /// Attempts to read a utf-8 string from the reader.
-    fn read_utf8(&mut self, len: u64) -> crate::Result<String> {
+    fn read_utf8(&mut self, len: u64) -> crate::Result<String>
+    where
+        Self: Sized,
+    {
         let data = self.read_u8_vec(len)?;
 
         Ok(String::from_utf8(data)?)
     }
 
     /// Attempts to read a utf-16 string from the reader.
-    fn read_utf16(&mut self, len: u64) -> crate::Result<String> {
-        let mut buf = vec![0u8; len as usize];
-
-        self.read_exact(&mut buf)?;
+    fn read_utf16(&mut self, len: u64) -> crate::Result<String>
+    where
+        Self: Sized,
+    {
+        let buf = self.read_u8_vec(len)?;
 
         let data: Vec<u16> =
             buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
diff --git a/src/atom/stco.rs b/src/atom/stco.rs
index e1b8ebc..b2fcd71 100644
--- a/src/atom/stco.rs
+++ b/src/atom/stco.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Stco {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u32()?;
                     offsets.push(offset);
-- 
2.43.0


From 5a67b1f730ac9639154ced03129ba52e2338dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 07/21] fix: compute durations without overflow and reject a
 timescale of zero

---
 src/atom/mvhd.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/atom/mvhd.rs b/src/atom/mvhd.rs
index d2a9c4b..08ffe0c 100644
--- a/src/atom/mvhd.rs
+++ b/src/atom/mvhd.rs
@@ -33,7 +33,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u32()? as u64;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scale_duration(duration, timescale)?;
             }
             1 => {
                 // # Version 1
@@ -48,7 +48,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u64()?;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scale_duration(duration, timescale)?;
             }
             v => {
                 return Err(crate::Error::new(
@@ -63,3 +63,16 @@ impl ParseAtom for Mvhd {
         Ok(mvhd)
     }
 }
+
+/// Converts a duration in units of the timescale.
+fn scale_duration(duration: u64, timescale: u64) -> crate::Result<Duration> {
+    if timescale == 0 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Movie header (mvhd) timescale is zero".to_owned(),
+        ));
+    }
+
+    let nanos = (duration % timescale) * 1_000_000_000 / timescale;
+    Ok(Duration::new(duration / timescale, nanos as u32))
+}
-- 
2.43.0


From d14697bde076874ad4e3adb45bf1cc0a6842180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 08/21] fix: handle descriptors which are too short for their
 fields

---
 src/atom/mp4a.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 530482f..34fb3a3 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -127,7 +127,7 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
         ));
     }
 
-    let max_len = size.content_len() - 4 - head_len;
+    let max_len = size.content_len_after(4 + head_len)?;
     parse_es_desc(reader, info, min(desc_len, max_len))?;
 
     Ok(())
@@ -221,7 +221,7 @@ fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
     let channel_config = ((num >> 3) & 0x0F) as u8;
     info.channel_config = ChannelConfig::try_from(channel_config).ok();
 
-    reader.seek(SeekFrom::Current((len - 2) as i64))?;
+    reader.seek(SeekFrom::Current(len as i64 - 2))?;
     Ok(())
 }
 
-- 
2.43.0


From ae106b3af4815761fcbe5ad4640f8ccb1058a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 09/21] fix: handle streams which end before the current
 position

---
 src/atom/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index 8ec39ce..c9d7fcf 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -510,7 +510,7 @@ impl<T: Read> ReadData for T {}
 pub fn remaining_stream_len(reader: &mut impl Seek) -> io::Result<u64> {
     let current_pos = reader.seek(SeekFrom::Current(0))?;
     let complete_len = reader.seek(SeekFrom::End(0))?;
-    let len = complete_len - current_pos;
+    let len = complete_len.saturating_sub(current_pos);
 
     reader.seek(SeekFrom::Start(current_pos))?;
 
-- 
2.43.0


From a4cdfba11490cc85de7ae6436fc83668d2d4e9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 10/21] fix: refuse to write to files with an item list
 hierarchy exceeding its bounds

---
 src/atom/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 48de5d8..d6ec8bd 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -449,6 +449,23 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
+    // the end of the inner most existing atom up to the end of the file
+    let mut max_end = moved_data_start;
+    for a in update_atoms.iter() {
+        if a.end() < max_end {
+            return Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                "Item list hierarchy contains an atom exceeding its parent".to_owned(),
+            ));
+        }
+        max_end = a.end();
+    }
+    if max_end > old_file_len {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Movie (moov) atom exceeds the end of the file".to_owned(),
+        ));
+    }
     let moved_data_len = old_file_len - moved_data_start;
     let mut moved_data = Vec::with_capacity(moved_data_len as usize);
     reader.seek(SeekFrom::Start(moved_data_start))?;
-- 
2.43.0


From b8df93a07f1d399198ad5b35b2c50da1165ec9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 11/21] fix: fail if the data to be moved can't be read
 completely

---
 src/atom/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index d6ec8bd..46fbc99 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -29,7 +29,7 @@
 
 use std::convert::TryFrom;
 use std::fs::File;
-use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
+use std::io::{self, BufReader, BufWriter, Read, Seek, SeekFrom, Write};
 use std::ops::{Deref, DerefMut};
 
 use crate::{AudioInfo, ErrorKind, Tag};
@@ -470,6 +470,12 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     let mut moved_data = Vec::with_capacity(moved_data_len as usize);
     reader.seek(SeekFrom::Start(moved_data_start))?;
     reader.read_to_end(&mut moved_data)?;
+    if moved_data.len() as u64 != moved_data_len {
+        return Err(crate::Error::new(
+            ErrorKind::Io(io::ErrorKind::UnexpectedEof.into()),
+            "File length changed while reading it".to_owned(),
+        ));
+    }
 
     let mut writer = BufWriter::new(file);
 
-- 
2.43.0


From 158a8818b2c21310e07493392baca925176e96f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 12/21] fix: read all chunk offsets and resize the file before
 modifying its content

---
 src/atom/mod.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 46fbc99..3541adf 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -477,9 +477,8 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         ));
     }
 
-    let mut writer = BufWriter::new(file);
-
-    // adjusting sample table chunk offsets
+    // adjusting sample table chunk offsets, nothing is written until everything has been read
+    let mut offset_tables = Vec::new();
     if mdat_pos > moov.pos() {
         let stbl_atoms = moov.trak.iter().filter_map(|a| {
             a.mdia.as_ref().and_then(|a| a.minf.as_ref()).and_then(|a| a.stbl.as_ref())
@@ -490,27 +489,38 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Stco::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
                     let new_offset = (*co as i64 + len_diff) as u32;
-                    writer.write_all(&u32::to_be_bytes(new_offset))?;
+                    table.write_all(&u32::to_be_bytes(new_offset))?;
                 }
-                writer.flush()?;
+                offset_tables.push((chunk_offset.table_pos, table));
             }
             if let Some(a) = &stbl.co64 {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Co64::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
                     let new_offset = (*co as i64 + len_diff) as u64;
-                    writer.write_all(&u64::to_be_bytes(new_offset))?;
+                    table.write_all(&u64::to_be_bytes(new_offset))?;
                 }
-                writer.flush()?;
+                offset_tables.push((chunk_offset.table_pos, table));
             }
         }
     }
 
+    // adjusting the file length
+    file.set_len((old_file_len as i64 + len_diff) as u64)?;
+
+    let mut writer = BufWriter::new(file);
+
+    // update sample table chunk offsets
+    for (table_pos, table) in offset_tables.iter() {
+        writer.seek(SeekFrom::Start(*table_pos))?;
+        writer.write_all(table)?;
+    }
+
     // update existing ilst hierarchy atom lengths
     for a in update_atoms.iter().rev() {
         let new_len = a.len() as i64 + len_diff;
@@ -524,9 +534,6 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         }
     }
 
-    // adjusting the file length
-    file.set_len((old_file_len as i64 + len_diff) as u64)?;
-
     // write missing ilst hierarchy and metadata
     writer.seek(SeekFrom::Start(new_atoms_start))?;
 
-- 
2.43.0


From 7e596b5744a92b879d4262512a1d12b968891945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 13/21] fix: only adjust chunk offsets of media data which is
 moved

---
 src/atom/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 3541adf..0900f99 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -491,6 +491,11 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
+                    // only data behind the item list is moved
+                    if (*co as u64) < moved_data_start {
+                        table.write_all(&u32::to_be_bytes(*co))?;
+                        continue;
+                    }
                     let new_offset = (*co as i64 + len_diff) as u32;
                     table.write_all(&u32::to_be_bytes(new_offset))?;
                 }
@@ -502,6 +507,11 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
+                    // only data behind the item list is moved
+                    if *co < moved_data_start {
+                        table.write_all(&u64::to_be_bytes(*co))?;
+                        continue;
+                    }
                     let new_offset = (*co as i64 + len_diff) as u64;
                     table.write_all(&u64::to_be_bytes(new_offset))?;
                 }
-- 
2.43.0


From 05f487a634828326efdf273d9d1d1ce309403f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 14/21] fix: adjust chunk offset tables located behind the item
 list

---
 src/atom/mod.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 0900f99..db4e4b1 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -520,6 +520,22 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
         }
     }
 
+    // update sample table chunk offsets inside the moved data
+    for (table_pos, table) in offset_tables.iter() {
+        if let Some(start) = table_pos.checked_sub(moved_data_start) {
+            let start = start as usize;
+            match moved_data.get_mut(start..start + table.len()) {
+                Some(old_table) => old_table.copy_from_slice(table),
+                None => {
+                    return Err(crate::Error::new(
+                        ErrorKind::Io(io::ErrorKind::UnexpectedEof.into()),
+                        "File length changed while reading it".to_owned(),
+                    ));
+                }
+            }
+        }
+    }
+
     // adjusting the file length
     file.set_len((old_file_len as i64 + len_diff) as u64)?;
 
@@ -527,6 +543,10 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // update sample table chunk offsets
     for (table_pos, table) in offset_tables.iter() {
+        if *table_pos >= moved_data_start {
+            // the table is written along with the moved data
+            continue;
+        }
         writer.seek(SeekFrom::Start(*table_pos))?;
         writer.write_all(table)?;
     }
-- 
2.43.0


From ba70a5227580f3ae588218916403f8bd8ddf8b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 15/21] fix: refuse to write lengths and chunk offsets which
 can't be represented

---
 src/atom/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index db4e4b1..92f4c47 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -449,7 +449,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
-    // the end of the inner most existing atom up to the end of the file
+    // validating bounds and new lengths of the existing ilst hierarchy
     let mut max_end = moved_data_start;
     for a in update_atoms.iter() {
         if a.end() < max_end {
@@ -458,6 +458,9 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                 "Item list hierarchy contains an atom exceeding its parent".to_owned(),
             ));
         }
+        if !a.ext() {
+            checked_move::<u32>(a.len(), len_diff)?;
+        }
         max_end = a.end();
     }
     if max_end > old_file_len {
@@ -496,7 +499,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                         table.write_all(&u32::to_be_bytes(*co))?;
                         continue;
                     }
-                    let new_offset = (*co as i64 + len_diff) as u32;
+                    let new_offset = checked_move::<u32>(*co as u64, len_diff)?;
                     table.write_all(&u32::to_be_bytes(new_offset))?;
                 }
                 offset_tables.push((chunk_offset.table_pos, table));
@@ -512,7 +515,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                         table.write_all(&u64::to_be_bytes(*co))?;
                         continue;
                     }
-                    let new_offset = (*co as i64 + len_diff) as u64;
+                    let new_offset = checked_move::<u64>(*co, len_diff)?;
                     table.write_all(&u64::to_be_bytes(new_offset))?;
                 }
                 offset_tables.push((chunk_offset.table_pos, table));
@@ -586,6 +589,16 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     Ok(())
 }
 
+/// Returns the length or offset changed by the difference, or an error if it can't be represented.
+fn checked_move<T: TryFrom<i128>>(value: u64, diff: i64) -> crate::Result<T> {
+    T::try_from(value as i128 + diff as i128).map_err(|_| {
+        crate::Error::new(
+            ErrorKind::Parsing,
+            format!("Length or offset can't be represented: {} changed by {}", value, diff),
+        )
+    })
+}
+
 /// Attempts to dump the metadata atoms to the writer. This doesn't include a complete MPEG-4
 /// container hierarchy and won't result in a usable file.
 pub(crate) fn dump_tag_to(writer: &mut impl Write, atoms: &[AtomData]) -> crate::Result<()> {
-- 
2.43.0


From 26f9bc84ed9a1e12b1fa9e97b2a29b33fd49dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 16/21] fix: take_genre removes the custom genres when a
 standard genre is returned

---
 src/tag/genre.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index baaa91d..a5c5ab2 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -168,11 +168,9 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g.to_owned());
-        }
-
-        self.take_custom_genre()
+        let standard = self.standard_genre().and_then(stanard_genre).map(str::to_owned);
+        let custom = self.take_custom_genre();
+        standard.or(custom)
     }
 
     /// Sets the custom genre (`©gen`). This will remove all other standard or custom genres.
-- 
2.43.0


From 8440ad4c6a70924cc037aad20e0f069a02650c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:41 +0000
Subject: [PATCH 17/21] fix: genre skips standard genre codes without a name,
 as genres does

---
 src/tag/genre.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index a5c5ab2..7b42df5 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -148,11 +148,7 @@ impl Tag {
 
     /// Returns the first genre (`gnre` or `©gen`).
     pub fn genre(&self) -> Option<&str> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g);
-        }
-
-        self.custom_genre()
+        self.genres().next()
     }
 
     /// Removes all custom genres (`©gen`) and returns all genres, first standard genres (`gnre`)
@@ -168,7 +164,7 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        let standard = self.standard_genre().and_then(stanard_genre).map(str::to_owned);
+        let standard = self.standard_genres().find_map(stanard_genre).map(str::to_owned);
         let custom = self.take_custom_genre();
         standard.or(custom)
     }
-- 
2.43.0


From a73bbd2a43291f0959108cbd0b2d3b8ecd7e5a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 18/21] fix: find the esds atom behind other atoms of an mp4a
 atom

---
 src/atom/mp4a.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 34fb3a3..b153a87 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -77,15 +77,25 @@ impl ParseAtom for Mp4a {
 
         reader.seek(SeekFrom::Current(28))?;
 
-        let head = parse_head(reader)?;
-        if head.fourcc() != ELEMENTARY_STREAM_DESCRIPTION {
-            return Err(crate::Error::new(
-                crate::ErrorKind::AtomNotFound(ELEMENTARY_STREAM_DESCRIPTION),
-                "Missing esds atom".to_owned(),
-            ));
-        }
+        // other atoms may precede the esds atom
+        let mut parsed_bytes = 28;
+        loop {
+            if parsed_bytes >= size.content_len() {
+                return Err(crate::Error::new(
+                    crate::ErrorKind::AtomNotFound(ELEMENTARY_STREAM_DESCRIPTION),
+                    "Missing esds atom".to_owned(),
+                ));
+            }
 
-        parse_esds(reader, &mut mp4a, head.size())?;
+            let head = parse_head(reader)?;
+            if head.fourcc() == ELEMENTARY_STREAM_DESCRIPTION {
+                parse_esds(reader, &mut mp4a, head.size())?;
+                break;
+            }
+
+            reader.seek(SeekFrom::Current(head.content_len() as i64))?;
+            parsed_bytes += head.len();
+        }
 
         seek_to_end(reader, &bounds)?;
 
-- 
2.43.0


From fc2a2254d318cfd03cb4318ba88f96d37d2f4fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 19/21] fix: escaped profiles and frequencies in decoder
 specific descriptors

---
 src/atom/mp4a.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index b153a87..c83b32c 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -45,7 +45,7 @@
 //!          1 byte ?
 //! ```
 
-use std::cmp::min;
+use std::cmp::{max, min};
 
 use crate::{ChannelConfig, SampleRate};
 
@@ -218,20 +218,43 @@ fn parse_dc_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
 /// 1 byte tag (0x05)
 /// 1~4 bytes len
 /// 5 bits profile
+/// 6 bits extended profile (if the profile is 31)
 /// 4 bits frequency index
+/// 24 bits frequency (if the frequency index is 15)
 /// 4 bits channel config
-/// 3 bits ?
+/// ? bits ?
 /// ```
 fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
-    let num = reader.read_u16()?;
+    // the fields take up 2 bytes, or up to 6 if the profile or the frequency are escaped
+    let read_len = max(2, min(len, 6));
+    let mut buf = [0u8; 8];
+    reader.read_exact(&mut buf[..read_len as usize])?;
+
+    let bits = u64::from_be_bytes(buf);
+    let mut pos = 0;
+    let mut next_bits = |count: u64| {
+        if pos + count > 8 * read_len {
+            pos = 8 * read_len;
+            return None;
+        }
+        pos += count;
+        Some((bits >> (64 - pos)) & ((1 << count) - 1))
+    };
 
-    let freq_index = ((num >> 7) & 0x0F) as u8;
-    info.sample_rate = SampleRate::try_from(freq_index).ok();
+    let profile = next_bits(5);
+    if profile == Some(31) {
+        next_bits(6);
+    }
 
-    let channel_config = ((num >> 3) & 0x0F) as u8;
-    info.channel_config = ChannelConfig::try_from(channel_config).ok();
+    info.sample_rate = match next_bits(4) {
+        Some(15) => next_bits(24).and_then(|hz| {
+            (0..15).filter_map(|i| SampleRate::try_from(i).ok()).find(|s| s.hz() as u64 == hz)
+        }),
+        freq_index => freq_index.and_then(|i| SampleRate::try_from(i as u8).ok()),
+    };
+    info.channel_config = next_bits(4).and_then(|c| ChannelConfig::try_from(c as u8).ok());
 
-    reader.seek(SeekFrom::Current(len as i64 - 2))?;
+    reader.seek(SeekFrom::Current(len as i64 - read_len as i64))?;
     Ok(())
 }
 
-- 
2.43.0


From c59b75d5e8bfab82acf6db1dad7497e3cdb0bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 20/21] fix: refuse a movie atom with contents exceeding it
 when saving

---
 src/atom/moov.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/atom/moov.rs b/src/atom/moov.rs
index 7ce7835..f692518 100644
--- a/src/atom/moov.rs
+++ b/src/atom/moov.rs
@@ -85,6 +85,8 @@ impl FindAtom for Moov<'_> {
 
             parsed_bytes += head.len();
         }
+        // an atom exceeding its parent would lead the search into the data behind the movie atom
+        seek_to_end(reader, &bounds)?;
 
         Ok(Self::Bounds { bounds, trak, udta })
     }
-- 
2.43.0


From 71e085d5a2218b4ea35d86e353a5c44703783f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:33 +0000
Subject: [PATCH 21/21] fix: refuse to write items whose length can't be
 represented

---
 src/atom/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 92f4c47..a1e1dc0 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -438,6 +438,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     }
     update_atoms.push(&moov.bounds);
 
+    check_item_lens(atoms)?;
     let new_atom_len = if let Some(a) = &new_udta {
         a.len()
     } else if let Some(a) = &new_meta {
@@ -599,9 +600,19 @@ fn checked_move<T: TryFrom<i128>>(value: u64, diff: i64) -> crate::Result<T> {
     })
 }
 
+/// Returns an error if the length of an item can't be represented.
+fn check_item_lens(atoms: &[AtomData]) -> crate::Result<()> {
+    for a in atoms.iter() {
+        checked_move::<u32>(a.len(), 0)?;
+    }
+    Ok(())
+}
+
 /// Attempts to dump the metadata atoms to the writer. This doesn't include a complete MPEG-4
 /// container hierarchy and won't result in a usable file.
 pub(crate) fn dump_tag_to(writer: &mut impl Write, atoms: &[AtomData]) -> crate::Result<()> {
+    check_item_lens(atoms)?;
+
     let ftyp = Ftyp("M4A \u{0}\u{0}\u{2}\u{0}isomiso2".to_owned());
     #[rustfmt::skip]
     let moov = Moov {
-- 
2.43.0

