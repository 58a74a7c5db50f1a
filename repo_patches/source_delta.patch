From 4cdcffa3df10f9dfbe72fe1c6f649c926e613ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 01/37] fix: display DeviceSQLString with invalid UTF-8 content
 without panicking

---
 src/pdb/string.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 321f3f7..e5491ae 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -150,11 +150,7 @@ impl fmt::Display for DeviceSQLString {
             | DeviceSQLStringImpl::Long {
                 content: LongBody::Ascii(content),
                 ..
-            } => {
-                f.write_str(std::str::from_utf8(content).expect(
-                    "internal invariant violated: ASCII/UTF-8 content expected to be valid",
-                ))
-            }
+            } => f.write_str(&String::from_utf8_lossy(content)),
             DeviceSQLStringImpl::Long {
                 content: LongBody::Isrc(null_str),
             } => {
-- 
2.43.0


From 64eb71afae12c29c15edfbc9414a7d3416a573bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 02/37] fix: reject DeviceSQLString lengths that are impossible
 or too long

---
 src/pdb/string.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index e5491ae..72b7e75 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -18,6 +18,10 @@ use std::{convert::TryInto, fmt, str::FromStr};
 use thiserror::Error;
 
 const MAX_SHORTSTR_SIZE: usize = ((u8::MAX >> 1) - 1) as usize;
+/// Size of the header of a long string, which is included in the length field.
+const LONG_HEADER_SIZE: u16 = 4;
+/// Body size of a string containing an ISRC (magic, 12 characters and a null byte).
+const ISRC_BODY_SIZE: u16 = 14;
 
 /// Error Objects occurring when dealing with [DeviceSQLString]'s
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Error)]
@@ -75,10 +79,14 @@ impl DeviceSQLString {
                     content: LongBody::Ascii(string.as_bytes().to_owned()),
                 }))
             } else {
+                // note: The DeviceSQL database may only support UCS-2 so
+                // we might need to do some additional filtering here
+                let content: Vec<u16> = string.encode_utf16().collect();
+                if content.len() * 2 > usize::from(u16::MAX - LONG_HEADER_SIZE) {
+                    return Err(StringError::TooLong);
+                }
                 Ok(Self(DeviceSQLStringImpl::Long {
-                    // note: The DeviceSQL database may only support UCS-2 so
-                    // we might need to do some additional filtering here
-                    content: LongBody::Ucs2le(string.encode_utf16().collect()),
+                    content: LongBody::Ucs2le(content),
                 }))
             }
         } else {
@@ -217,7 +225,7 @@ enum DeviceSQLStringImpl {
         // first byte (`header` here, `flags` in Long). If its set, the
         // string being parsed is a of the ShortASCII kind, if its not, its
         // the Long form.
-        #[br(temp, assert(header & 0b1 == 1))]
+        #[br(temp, assert(header & 0b1 == 1 && header > 1))]
         #[bw(calc = (((content.len() + 1) << 1) | 1) as u8)]
         header: u8,
 
@@ -231,12 +239,12 @@ enum DeviceSQLStringImpl {
         #[bw(calc = content.flags())]
         flags: u8,
 
-        #[br(temp)]
-        #[bw(calc = content.byte_count().unwrap() + 4)]
+        #[br(temp, assert(length >= LONG_HEADER_SIZE))]
+        #[bw(calc = content.byte_count().unwrap() + LONG_HEADER_SIZE)]
         length: u16,
 
         #[brw(magic(0u8))] // padding
-        #[br(args(flags, length - 4))]
+        #[br(args(flags, length - LONG_HEADER_SIZE))]
         content: LongBody,
     },
 }
-- 
2.43.0


From ff91a64eeeea0321072304a2e0a8253876ebc507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 03/37] fix: only read a DeviceSQLString as ISRC if it fills
 the whole string body

---
 src/pdb/string.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 72b7e75..3f7090b 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -257,9 +257,16 @@ enum LongBody {
     // instead of the stricter ISRC
 
     // ISRC strings are a bug/flaw in pioneers implementation, this is technically
-    // a semi-dirty workaround
+    // a semi-dirty workaround. They share their flags with UCS2LE strings, so
+    // only accept them if they fill the body exactly, and if the body does not
+    // have a size that is possible for UCS2LE strings but not for an ISRC.
     #[br(pre_assert(flags == 0x90))]
-    Isrc(#[brw(magic = 0x3u8)] binrw::NullString),
+    #[br(pre_assert(len == ISRC_BODY_SIZE || len % 2 == 1))]
+    Isrc(
+        #[brw(magic = 0x3u8)]
+        #[br(assert(self_0.is_ascii() && self_0.len() + 2 == usize::from(len)))]
+        binrw::NullString,
+    ),
     #[br(pre_assert(flags == 0x40))]
     Ascii(#[br(count = usize::from(len))] Vec<u8>),
     #[br(pre_assert(flags == 0x90))]
-- 
2.43.0


From 53595d848396d724f844ac01f21d7f7cbaf14f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 04/37] fix: report page index 0 as not present instead of
 panicking

---
 src/pdb/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index d87d81b..02bce75 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -102,10 +102,10 @@ impl<R: Read + Seek> Database<R> {
 
     /// Loads a page into memory.
     pub fn load_page(&mut self, index: PageIndex) -> RekordcrateResult<&mut Page> {
-        let page_entry = self
-            .content
-            .pages
-            .get_mut(index.0 as usize - 1)
+        // Page indices are 1-based.
+        let page_entry = (index.0 as usize)
+            .checked_sub(1)
+            .and_then(|i| self.content.pages.get_mut(i))
             .ok_or_else(|| RekordcrateError::PageNotPresent(index))?;
         if let LazyPage::NotLoaded = page_entry {
             let page = read_page(
-- 
2.43.0


From 7b806678557c782e5a46cb5282d7234685d4404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 05/37] fix: report rows of an unexpected type instead of
 panicking

---
 src/pdb/io.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 02bce75..8fbe503 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -179,9 +179,13 @@ impl<R: Read + Seek> Database<R> {
                     .into_fallible()
                     .map_err(|_: core::convert::Infallible| unreachable!()))
             })
-            // The parsed row type is determined from the page type, so if we find an unexpected
-            // variant then there is a code bug (not simply a corrupt DB).
-            .map(|row| Ok(row.as_variant_mut().expect("unexpected row type"))))
+            // The parsed row type is determined from the page type, so an unexpected variant means
+            // that the page type does not match the type of the table it belongs to.
+            .map(|row| {
+                row.as_variant_mut().ok_or(RekordcrateError::IntegrityError(
+                    "row type does not match the type of its table",
+                ))
+            }))
     }
 
     /// Returns a reference to the PDB header.
-- 
2.43.0


From 2679b990e05ab0cacdb1556af75093f2f4fc61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 06/37] fix: do not misinterpret pages when reading the storage
 fails halfway

---
 src/pdb/io.rs  | 10 ++++++++--
 src/pdb/mod.rs | 37 ++++++++++++++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 8fbe503..2de82d6 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -22,7 +22,7 @@ use super::*;
 use crate::util::{RekordcrateError, RekordcrateResult, TableIndex};
 use binrw::{binrw, io::SeekFrom, BinRead, BinResult, BinWrite, Endian};
 use fallible_iterator::{FallibleIterator, IteratorExt};
-use std::io::{Read, Seek, Write};
+use std::io::{Cursor, Read, Seek, Write};
 
 /// A lazily loaded PDB database.
 #[binrw]
@@ -75,7 +75,13 @@ fn read_page<IO: Read + Seek>(
     let endian = Endian::Little;
     let page_offset = SeekFrom::Start(page_index.offset(page_size));
     io.seek(page_offset).map_err(binrw::Error::Io)?;
-    let page = Page::read_options(io, endian, (page_size, db_type))?;
+    // Read the whole page before parsing it. Otherwise, a read failing in the middle of an enum
+    // would be treated like a mismatch, and the page would be parsed as something else.
+    let mut bytes = Vec::new();
+    io.take(page_size.into())
+        .read_to_end(&mut bytes)
+        .map_err(binrw::Error::Io)?;
+    let page = Page::read_options(&mut Cursor::new(bytes), endian, (page_size, db_type))?;
     Ok(page)
 }
 
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index f2786b7..2cb0e1f 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -40,8 +40,12 @@ use crate::pdb::ext::{ExtPageType, ExtRow};
 use crate::pdb::offset_array::OffsetSize;
 use crate::pdb::string::DeviceSQLString;
 use crate::util::{parse_at_offsets, write_at_offsets, ColorIndex, FileType, TableIndex};
-use binrw::{binrw, BinRead, BinResult, BinWrite, Endian};
-use std::io::{Read, Seek, SeekFrom, Write};
+use binrw::{
+    binrw, binwrite,
+    meta::{EndianKind, ReadEndian},
+    BinRead, BinResult, BinWrite, Endian,
+};
+use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 use thiserror::Error;
 
 /// An error that can occur when parsing a PDB file.
@@ -67,10 +71,9 @@ pub enum DatabaseType {
 }
 
 /// The type of pages found inside a `Table`.
-#[binrw]
+#[binwrite]
 #[derive(Debug, PartialEq, Eq, Clone, Copy)]
-#[brw(little)]
-#[br(import(db_type: DatabaseType))]
+#[bw(little)]
 pub enum PageType {
     #[br(pre_assert(db_type == DatabaseType::Plain))]
     /// Pagetypes present in `export.pdb` files.
@@ -82,6 +85,30 @@ pub enum PageType {
     Unknown(u32),
 }
 
+impl ReadEndian for PageType {
+    const ENDIAN: EndianKind = EndianKind::Endian(Endian::Little);
+}
+
+impl BinRead for PageType {
+    type Args<'a> = (DatabaseType,);
+
+    fn read_options<R: Read + Seek>(
+        reader: &mut R,
+        _: Endian,
+        (db_type,): Self::Args<'_>,
+    ) -> BinResult<Self> {
+        // Read the value before interpreting it, so that a failing read is reported instead of
+        // being treated like an unknown page type.
+        let value = u32::read_le(reader)?;
+        let mut bytes = Cursor::new(value.to_le_bytes());
+        let page_type = match db_type {
+            DatabaseType::Plain => PlainPageType::read(&mut bytes).map(Self::Plain),
+            DatabaseType::Ext => ExtPageType::read(&mut bytes).map(Self::Ext),
+        };
+        Ok(page_type.unwrap_or(Self::Unknown(value)))
+    }
+}
+
 /// The type of pages found inside a `Table` of export.pdb files.
 #[binrw]
 #[derive(Debug, PartialEq, Eq, Clone, Copy)]
-- 
2.43.0


From aac2c300b3a83e6d4084201de0f5a44d98f44486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 07/37] fix: refuse row allocations that cannot be represented
 instead of panicking

---
 src/pdb/bitfields.rs |  8 ++++++++
 src/pdb/mod.rs       | 17 +++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/pdb/bitfields.rs b/src/pdb/bitfields.rs
index 7b93471..8fb8189 100644
--- a/src/pdb/bitfields.rs
+++ b/src/pdb/bitfields.rs
@@ -59,6 +59,14 @@ impl PackedRowCounts {
         Some((rgi, rsi))
     }
 
+    /// Check if the packed fields can represent one more (valid) row.
+    pub(crate) fn can_add_row(&self) -> bool {
+        self.with_num_rows_checked(self.num_rows() + 1).is_ok()
+            && self
+                .with_num_rows_valid_checked(self.num_rows_valid() + 1)
+                .is_ok()
+    }
+
     /// Increment the number of rows e.g. when we allocate a row in the page.
     pub(crate) fn increment_num_rows(&mut self) {
         self.set_num_rows(self.num_rows() + 1);
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 2cb0e1f..b62df8b 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -601,19 +601,28 @@ impl Page {
         match self.content {
             PageContent::Index(_) => None,
             PageContent::Data(ref mut dpc) => {
+                // Without any space, the row would be indistinguishable from the next one.
+                if bytes == 0 {
+                    return None;
+                }
                 // Always align rows to 4 bytes.
-                let bytes = bytes.next_multiple_of(4);
+                let bytes = bytes.checked_next_multiple_of(4)?;
 
                 // Assume the upper bound of required space.
-                let required_bytes = bytes + RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE;
+                let required_bytes =
+                    bytes.checked_add(RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE)?;
                 if self.header.free_size < required_bytes {
                     return None;
                 }
+                let used_size = self.header.used_size.checked_add(bytes)?;
+                let row_counts = &mut self.header.packed_row_counts;
+                if !row_counts.can_add_row() {
+                    return None;
+                }
 
                 let offset = self.header.used_size;
-                self.header.used_size += bytes;
+                self.header.used_size = used_size;
                 self.header.free_size -= bytes;
-                let row_counts = &mut self.header.packed_row_counts;
                 row_counts.increment_num_rows();
                 let (row_group_index, row_subindex) = row_counts.last_row_index().unwrap();
 
-- 
2.43.0


From 5a47eaf5b1fda84dc08f7d42479a12faa8bd2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 08/37] fix: print index entries with invalid page indices
 without panicking

---
 src/pdb/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index b62df8b..76d69a6 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -333,7 +333,7 @@ impl fmt::Debug for IndexEntry {
         } else {
             f.debug_struct("IndexEntry")
                 .field("is_empty", &self.is_empty())
-                .field("page_index", &self.page_index().unwrap())
+                .field("page_index", &PageIndex(self.0 >> 3))
                 .field("index_flags", &self.index_flags())
                 .finish()
         }
-- 
2.43.0


From 0fe07f442c294d0bfcb1fed6f278fd3b697c3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 09/37] fix: reject index pages with more entries than fit
 instead of panicking when writing them

---
 src/pdb/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 76d69a6..9393451 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -395,7 +395,7 @@ pub struct IndexPageContent {
     // 20 bytes which are zeros instead.
     #[br(temp)]
     #[bw(calc = EmptyIndexEntries(
-        Self::total_entries(page_size) - usize::from(header.num_entries)
+        Self::total_entries(page_size).saturating_sub(usize::from(header.num_entries))
     ))]
     #[bw(pad_after = 20)]
     _empty_entries: EmptyIndexEntries,
@@ -462,7 +462,11 @@ pub enum PageContent {
     ),
     /// The page is an index page.
     #[br(pre_assert(header.page_flags.is_index_page()))]
-    Index(#[bw(args { page_size })] IndexPageContent),
+    Index(
+        #[br(assert(self_0.entries.len() <= IndexPageContent::total_entries(page_size), "index page {:?}: too many entries: {}", header.page_index, self_0.entries.len()))]
+        #[bw(args { page_size })]
+        IndexPageContent,
+    ),
 }
 
 impl PageContent {
-- 
2.43.0


From 560b2696224ba8131c067cdab2d2650262aeebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 10/37] fix: reject databases whose page size is too small to
 hold a page header

---
 src/pdb/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 9393451..9a888e6 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -235,6 +235,7 @@ pub struct Header {
     /// Size of a single page in bytes.
     ///
     /// The byte offset of a page can be calculated by multiplying a page index with this value.
+    #[br(assert(page_size >= Self::MIN_PAGE_SIZE, "page size {page_size} is too small"))]
     pub page_size: u32,
     /// Number of tables.
     pub num_tables: u32,
@@ -253,6 +254,10 @@ pub struct Header {
 }
 
 impl Header {
+    /// Size of the header of an index page including its trailing zeros, which is the largest
+    /// fixed-size part of all page kinds.
+    const MIN_PAGE_SIZE: u32 = PageHeader::BINARY_SIZE + IndexPageHeader::BINARY_SIZE + 20;
+
     /// Finds the table for a given page type.
     #[must_use]
     pub fn find_table(&self, page_type: PageType) -> Option<(TableIndex, &Table)> {
-- 
2.43.0


From 4672554e540777df378bc857edebe47fa4a377bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 11/37] fix: do not allocate memory for pages that do not exist

---
 src/pdb/io.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 2de82d6..c9145c5 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -35,11 +35,27 @@ struct LazyDatabase {
     #[bw(pad_size_to = header.page_size as usize)]
     header: Header,
     /// The pages of the database, initially not loaded.
-    #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
+    #[br(parse_with = Self::not_loaded_pages, args(&header))]
     #[bw(args(header.page_size))]
     pages: Vec<LazyPage>,
 }
 
+impl LazyDatabase {
+    /// Creates the initial list of pages, leaving out those that are beyond the end of the storage
+    /// no matter how many pages the header claims to exist.
+    #[binrw::parser(reader)]
+    fn not_loaded_pages(header: &Header) -> BinResult<Vec<LazyPage>> {
+        let position = reader.stream_position()?;
+        let size = reader.seek(SeekFrom::End(0))?;
+        reader.seek(SeekFrom::Start(position))?;
+        let stored_pages = size.div_ceil(header.page_size.into());
+        let num_pages = stored_pages
+            .min(header.next_unused_page.0.into())
+            .saturating_sub(1);
+        Ok(vec![LazyPage::NotLoaded; num_pages as usize])
+    }
+}
+
 #[derive(Debug, PartialEq, Clone)]
 enum LazyPage {
     NotLoaded,
-- 
2.43.0


From 23bf9aaf2d233346f02d3962a4dcdbf97cd9b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 12/37] fix: take the height of tiny waveform preview columns
 from the low four bits

---
 src/anlz.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 2b25ba2..18a8727 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -506,10 +506,10 @@ impl Default for TinyWaveformPreviewColumn {
 #[br(big, map = Self::from_bytes)]
 #[bw(big, map = |x: &TinyWaveformPreviewColumn| x.into_bytes())]
 pub struct TinyWaveformPreviewColumn {
-    #[allow(dead_code)]
-    unused: B4,
     /// Height of the Column in pixels.
     pub height: B4,
+    #[allow(dead_code)]
+    unused: B4,
 }
 
 /// Single Column value in a Waveform Color Preview.
-- 
2.43.0


From aa283c6040aa623ed9ebc8e9ff2616c8ca9ce11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 13/37] fix: decode waveform color detail columns as big-endian
 values with red in the highest bits

---
 src/anlz.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 18a8727..a80827d 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -546,20 +546,20 @@ impl Default for WaveformColorDetailColumn {
 /// <https://djl-analysis.deepsymmetry.org/rekordbox-export-analysis/anlz.html#color-detail>
 #[bitfield]
 #[derive(BinRead, BinWrite, Debug, PartialEq, Eq, Clone, Copy)]
-#[br(map = Self::from_bytes)]
-#[bw(big, map = |x: &WaveformColorDetailColumn| x.into_bytes())]
+#[br(big, map = |x: u16| Self::from_bytes(x.to_le_bytes()))]
+#[bw(big, map = |x: &WaveformColorDetailColumn| u16::from_le_bytes(x.into_bytes()))]
 pub struct WaveformColorDetailColumn {
-    /// Red color component.
-    pub red: B3,
-    /// Green color component.
-    pub green: B3,
-    /// Blue color component.
-    pub blue: B3,
-    /// Height of the column.
-    pub height: B5,
     /// Unknown field
     #[allow(dead_code)]
     unknown: B2,
+    /// Height of the column.
+    pub height: B5,
+    /// Blue color component.
+    pub blue: B3,
+    /// Green color component.
+    pub green: B3,
+    /// Red color component.
+    pub red: B3,
 }
 
 /// Single Column value in a Waveform 3-Band Preview.
-- 
2.43.0


From 7c2dd5a691cff407075603d8594bac69c4be6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 14/37] fix: keep the XOR key in step with the data when reads
 or writes are short

---
 src/xor.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/xor.rs b/src/xor.rs
index aff09f5..b61d651 100644
--- a/src/xor.rs
+++ b/src/xor.rs
@@ -39,7 +39,7 @@ impl<R: Read> Read for XorStream<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
         let bytes_read = self.stream.read(buf)?;
 
-        for byte in buf {
+        for byte in &mut buf[..bytes_read] {
             let key_byte = self.key.next().unwrap_or(0);
             *byte ^= key_byte;
         }
@@ -50,15 +50,20 @@ impl<R: Read> Read for XorStream<R> {
 
 impl<W: Write> Write for XorStream<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        // Only advance the key stream by the bytes that were actually written, because the caller
+        // passes the remaining ones again.
         let encrypted_buffer: Vec<u8> = buf
             .iter()
-            .map(|x| {
-                let key_byte = self.key.next().unwrap_or(0);
-                x ^ key_byte
-            })
+            .zip(self.key.clone())
+            .map(|(x, key_byte)| x ^ key_byte)
             .collect();
 
-        self.stream.write(&encrypted_buffer)
+        let bytes_written = self.stream.write(&encrypted_buffer)?;
+        for _ in 0..bytes_written {
+            self.key.next();
+        }
+
+        Ok(bytes_written)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 9dac341a6b9e89f9ff707ae03d13740c51b2b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 15/37] fix: compute the song structure key for large phrase
 counts without overflow

---
 src/anlz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index a80827d..3e0ba30 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -1077,7 +1077,7 @@ impl SongStructureData {
     /// Returns an iterator over the key bytes (RB6+).
     fn get_key(len_entries: u16) -> impl Iterator<Item = u8> {
         Self::KEY_DATA.into_iter().map(move |x: u8| -> u8 {
-            let value = u16::from(x) + len_entries;
+            let value = u16::from(x).wrapping_add(len_entries);
             (value % 256) as u8
         })
     }
-- 
2.43.0


From 212d36e30dc17639905a83a37bde2fb5a4fe6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:27 +0000
Subject: [PATCH 16/37] fix: reject impossible ANLZ header sizes and entry
 counts instead of overflowing

---
 src/anlz.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 3e0ba30..0d2ebfc 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -118,8 +118,10 @@ pub struct Header {
     /// Kind of content in this item.
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
+    #[br(assert(size >= 12, "header size {size} is too small"))]
     pub size: u32,
     /// Length of the section (including the header).
+    #[br(assert(total_size >= size, "section size {total_size} is smaller than header size {size}"))]
     pub total_size: u32,
 }
 
@@ -898,7 +900,7 @@ pub struct WaveformDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries)== header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -926,7 +928,7 @@ pub struct WaveformColorPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -950,7 +952,7 @@ pub struct WaveformColorDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -977,7 +979,7 @@ pub struct Waveform3BandPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Waveform preview column data.
     #[br(count = len_entries)]
@@ -999,7 +1001,7 @@ pub struct Waveform3BandDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
-- 
2.43.0


From 3ac551488c69cf05e6f727100b30f48563e3642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 17/37] fix: reject length-prefixed strings that would not be
 written back unchanged

---
 src/anlz.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 0d2ebfc..ceb3b5a 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -294,22 +294,33 @@ impl BinRead for LenPrefixedWideString {
         _args: Self::Args<'_>,
     ) -> BinResult<Self> {
         let len: u32 = u32::read_options(reader, endian, ())?;
-        let len = len as usize;
         if len == 0 {
             return Ok(Self(String::new()));
         }
-        let mut bytes = vec![0u8; len];
-        reader.read_exact(&mut bytes)?;
+        // Do not allocate `len` bytes up front, the length may be bogus.
+        let mut bytes = Vec::new();
+        reader.by_ref().take(len.into()).read_to_end(&mut bytes)?;
+        if bytes.len() as u64 != u64::from(len) {
+            return Err(binrw::Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
+        }
         let code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
             .collect();
-        let s = String::from_utf16(&code_units)
-            .map(|s| s.trim_end_matches('\0').to_string())
-            .map_err(|e| binrw::Error::Custom {
-                pos: reader.stream_position().unwrap_or(0),
-                err: Box::new(e),
-            })?;
+        // Empty strings do not have a terminator, all other strings have exactly one.
+        let text = match code_units.split_last() {
+            Some((0, text)) if bytes.len() % 2 == 0 && !text.is_empty() => text,
+            _ => {
+                return Err(binrw::Error::AssertFail {
+                    pos: reader.stream_position().unwrap_or(0),
+                    message: format!("string of {len} bytes is not NUL-terminated"),
+                })
+            }
+        };
+        let s = String::from_utf16(text).map_err(|e| binrw::Error::Custom {
+            pos: reader.stream_position().unwrap_or(0),
+            err: Box::new(e),
+        })?;
         Ok(Self(s))
     }
 }
-- 
2.43.0


From 6cbba5dd321f66cb2dc1c0dd9343bec6ffbd31cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 18/37] fix: reject ANLZ sections whose content contradicts
 their stored size

---
 src/anlz.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index ceb3b5a..4025c32 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -1195,8 +1195,17 @@ impl ANLZ {
         let final_position = reader.stream_position()? + u64::from(content_size);
 
         let mut sections: Vec<Section> = vec![];
-        while reader.stream_position()? < final_position {
+        let mut position = reader.stream_position()?;
+        while position < final_position {
             let section = Section::read_options(reader, endian, ())?;
+            let end = position + u64::from(section.header.total_size);
+            position = reader.stream_position()?;
+            if position != end || position > final_position {
+                return Err(binrw::Error::AssertFail {
+                    pos: position,
+                    message: format!("section does not end at its stored end {end}"),
+                });
+            }
             sections.push(section);
         }
 
-- 
2.43.0


From 6b75e3f9c94b5c8f279b7d3002949903f95df94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 19/37] fix: do not write absent XML track attributes as empty
 ones, which cannot be read back

---
 src/xml.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 0f5d07d..26c2f43 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -82,57 +82,70 @@ pub struct Track {
 
     /// Name of track
     #[serde(rename = "@Name")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub name: Option<String>,
 
     /// Name of artist
     #[serde(rename = "@Artist")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub artist: Option<String>,
 
     /// Name of composer (or producer)
     #[serde(rename = "@Composer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub composer: Option<String>,
 
     /// Name of Album
     #[serde(rename = "@Album")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub album: Option<String>,
 
     /// Name of goupe
     #[serde(rename = "@Grouping")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub grouping: Option<String>,
 
     /// Name of genre
     #[serde(rename = "@Genre")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub genre: Option<String>,
 
     /// Type of audio file
     #[serde(rename = "@Kind")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub kind: Option<String>,
 
     /// Size of audio file
     /// Unit : Octet
     #[serde(rename = "@Size")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub size: Option<i64>,
 
     /// Duration of track
     /// Unit : Second (without decimal numbers)
     #[serde(rename = "@TotalTime")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub totaltime: Option<f64>,
 
     /// Order number of the disc of the album
     #[serde(rename = "@DiscNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub discnumber: Option<i32>,
 
     /// Order number of the track in the album
     #[serde(rename = "@TrackNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tracknumber: Option<i32>,
 
     /// Year of release
     #[serde(rename = "@Year")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub year: Option<i32>,
 
     /// Value of average BPM
     /// Unit : Second (with decimal numbers)
     #[serde(rename = "@AverageBpm")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub averagebpm: Option<f64>,
 
     /// Date of last modification
@@ -150,19 +163,23 @@ pub struct Track {
     /// Encoding bit rate
     /// Unit : Kbps
     #[serde(rename = "@BitRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub bitrate: Option<i32>,
 
     /// Frequency of sampling
     /// Unit : Hertz
     #[serde(rename = "@SampleRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub samplerate: Option<f64>,
 
     /// Comments
     #[serde(rename = "@Comments")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub comments: Option<String>,
 
     /// Play count of the track
     #[serde(rename = "@PlayCount")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub playcount: Option<i32>,
 
     /// Date of last playing
@@ -174,6 +191,7 @@ pub struct Track {
     /// Rating of the track
     /// 0 star = "@0", 1 star = "51", 2 stars = "102", 3 stars = "153", 4 stars = "204", 5 stars = "255"
     #[serde(rename = "@Rating")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub rating: Option<i32>, // TODO: Use StarRating type here
 
     /// Location of the file
@@ -183,18 +201,22 @@ pub struct Track {
 
     /// Name of remixer
     #[serde(rename = "@Remixer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub remixer: Option<String>,
 
     /// Tonality (Kind of musical key)
     #[serde(rename = "@Tonality")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tonality: Option<String>,
 
     /// Name of record label
     #[serde(rename = "@Label")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub label: Option<String>,
 
     /// Name of mix
     #[serde(rename = "@Mix")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub mix: Option<String>,
 
     /// Colour for track grouping
-- 
2.43.0


From 9908f8a610a910b2e2ee8ebf6f14639f0f0cf063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 20/37] fix: read XML documents with an empty collection,
 folder or playlist

---
 src/xml.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 26c2f43..f544394 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -69,6 +69,7 @@ pub struct Collection {
 
     /// Track entries of collection.
     #[serde(rename = "TRACK")]
+    #[serde(default)]
     pub track: Vec<Track>,
 }
 
@@ -386,7 +387,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     // Create anonymous type
                                     #[derive(serde::Deserialize)]
                                     struct Nodes {
-                                        #[serde(rename = "NODE")]
+                                        #[serde(rename = "NODE", default)]
                                         content: Vec<PlaylistGenericNode>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -405,7 +406,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     // Create anonymous type
                                     #[derive(serde::Deserialize)]
                                     struct Tracks {
-                                        #[serde(rename = "TRACK")]
+                                        #[serde(rename = "TRACK", default)]
                                         content: Vec<PlaylistTrack>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -463,6 +464,7 @@ pub struct PlaylistFolderNode {
     // can just take the number of elements in the `tracks` vector instead.
     /// Nodes
     #[serde(rename = "NODE")]
+    #[serde(default)]
     pub nodes: Vec<PlaylistGenericNode>,
 }
 
-- 
2.43.0


From dc23093bfb8bdc33708cbd655fb85a629cfbf921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:06 +0000
Subject: [PATCH 21/37] fix: display the simplified Chinese language setting
 under its own name

---
 src/setting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setting.rs b/src/setting.rs
index 335f274..49d78ab 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -854,8 +854,8 @@ pub enum Language {
     #[display("한국어")]
     Korean,
     /// Named "简体中文" in the Rekordbox preferences.
-    ChineseSimplified,
     #[display("简体中文")]
+    ChineseSimplified,
     /// Named "繁體中文" in the Rekordbox preferences.
     #[display("繁體中文")]
     ChineseTraditional,
-- 
2.43.0


From a484b693577b768c40bf50f12b972f67d68a6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 22/37] fix: report XML files that cannot be parsed instead of
 panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 818a014..3b84e6e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -332,7 +332,7 @@ fn dump_setting(path: &Path, setting_type: SettingType) -> rekordcrate::Result<(
 fn dump_xml(path: &Path) -> rekordcrate::Result<()> {
     let file = File::open(path)?;
     let reader = std::io::BufReader::new(file);
-    let document: Document = quick_xml::de::from_reader(reader).expect("failed to deserialize XML");
+    let document: Document = quick_xml::de::from_reader(reader).map_err(std::io::Error::other)?;
     println!("{:#?}", document);
 
     Ok(())
-- 
2.43.0


From 801af1914294d889cbbaecc6ca2311d07448eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 23/37] fix: reject XML playlist nodes that are nested too
 deeply instead of overflowing the stack

---
 src/xml.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index f544394..24ece5b 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -18,6 +18,7 @@
 type NaiveDate = String; //Replace with "use chrono::naive::NaiveDate;"
 use serde::{de::Error, ser::Serializer, Deserialize, Serialize};
 use std::borrow::Cow;
+use std::cell::Cell;
 
 /// The XML root element of a rekordbox XML file.
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
@@ -341,11 +342,41 @@ pub enum PlaylistGenericNode {
     Playlist(PlaylistPlaylistNode),
 }
 
+/// Limits how deeply playlist nodes may be nested, so that reading a document cannot exhaust the
+/// stack.
+struct NestingGuard;
+
+impl NestingGuard {
+    const MAX_DEPTH: usize = 100;
+
+    fn enter<E: Error>() -> Result<Self, E> {
+        NESTING_DEPTH.with(|depth| {
+            if depth.get() >= Self::MAX_DEPTH {
+                return Err(E::custom("playlist nodes are nested too deeply"));
+            }
+            depth.set(depth.get() + 1);
+            Ok(Self)
+        })
+    }
+}
+
+impl Drop for NestingGuard {
+    fn drop(&mut self) {
+        NESTING_DEPTH.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
+thread_local! {
+    static NESTING_DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
 impl<'de> Deserialize<'de> for PlaylistGenericNode {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
         D: serde::Deserializer<'de>,
     {
+        let _guard = NestingGuard::enter::<D::Error>()?;
+
         struct PlaylistGenericNodeVisitor;
 
         impl<'de> serde::de::Visitor<'de> for PlaylistGenericNodeVisitor {
-- 
2.43.0


From 6dc95dc29673508c9815eafe522b6e83a15265d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 24/37] fix: terminate on cyclic and excessively nested
 playlist trees

---
 src/device.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index f7250fa..d53beef 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -521,6 +521,11 @@ pub struct Playlist {
     pub name: String,
 }
 
+/// Maximum number of folders that may be nested in the playlist tree.
+///
+/// Prevents deeply nested folders from exhausting the stack.
+const MAX_PLAYLIST_DEPTH: usize = 100;
+
 /// Get playlist tree.
 pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<PlaylistNode>> {
     let mut playlists: HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>> = HashMap::new();
@@ -533,21 +538,28 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
         Ok(())
     })?;
 
+    // Each list of child nodes is taken out of the map when it is visited, so that every node is
+    // listed only once even if the parent links form a cycle or folders share an ID.
     fn get_child_nodes(
-        playlists: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        playlists: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         id: PlaylistTreeNodeId,
-    ) -> impl Iterator<Item = crate::Result<PlaylistNode>> + '_ {
+        depth: usize,
+    ) -> crate::Result<Vec<PlaylistNode>> {
+        if depth > MAX_PLAYLIST_DEPTH {
+            return Err(crate::Error::IntegrityError(
+                "playlist tree is nested too deeply",
+            ));
+        }
         playlists
-            .get(&id)
+            .remove(&id)
+            .unwrap_or_default()
             .into_iter()
-            .flat_map(|nodes| nodes.iter())
             .map(|node| -> crate::Result<PlaylistNode> {
                 let child_node = if node.is_folder() {
                     let folder = PlaylistFolder {
                         id: node.id,
                         name: node.name.clone().into_string()?,
-                        children: get_child_nodes(playlists, node.id)
-                            .collect::<crate::Result<Vec<PlaylistNode>>>()?,
+                        children: get_child_nodes(playlists, node.id, depth + 1)?,
                     };
                     PlaylistNode::Folder(folder)
                 } else {
@@ -559,7 +571,8 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
                 };
                 Ok(child_node)
             })
+            .collect()
     }
 
-    get_child_nodes(&playlists, PlaylistTreeNodeId(0)).collect::<crate::Result<Vec<PlaylistNode>>>()
+    get_child_nodes(&mut playlists, PlaylistTreeNodeId(0), 0)
 }
-- 
2.43.0


From 98f3260d972c4314ad6dcf69eef2270933942ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 25/37] fix: terminate when listing cyclic and excessively
 nested playlist trees

---
 src/main.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3b84e6e..d4281ec 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -148,17 +148,24 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         println!("{} - {}", artist.offsets.name, track.offsets.title)
     }
     fn print_children_of(
-        tree: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        tree: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>,
         artists: &HashMap<ArtistId, Artist>,
         tracks: &HashMap<TrackId, Track>,
         id: PlaylistTreeNodeId,
         level: usize,
-    ) {
-        tree.get(&id)
+    ) -> rekordcrate::Result<()> {
+        if level > 100 {
+            return Err(rekordcrate::Error::IntegrityError(
+                "playlist tree is nested too deeply",
+            ));
+        }
+        // Take the child nodes out of the tree, so that every node is listed only once even if the
+        // parent links form a cycle.
+        tree.remove(&id)
+            .unwrap_or_default()
             .iter()
-            .flat_map(|nodes| nodes.iter())
-            .for_each(|node| {
+            .try_for_each(|node| {
                 let indentation = "    ".repeat(level);
                 println!(
                     "{}{} {}",
@@ -172,20 +179,18 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
                         print_track(track_id, artists, tracks);
                     }
                 }
-                print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1);
-            });
+                print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1)
+            })
     }
 
     print_children_of(
-        &playlist_tree,
+        &mut playlist_tree,
         &playlist_entries,
         &artists,
         &tracks,
         PlaylistTreeNodeId(0),
         0,
-    );
-
-    Ok(())
+    )
 }
 
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
-- 
2.43.0


From 8394449e5d9b1c40af85ef2a5945b6759339c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 26/37] fix: keep exported playlists inside the output
 directory whatever their names

---
 src/main.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d4281ec..6dd9cd8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -17,7 +17,7 @@ use rekordcrate::xml::Document;
 use rekordcrate::{anlz::ANLZ, util::TableIndex};
 use std::collections::BTreeMap;
 use std::fs::File;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 #[derive(Parser)]
 #[command(author, version, about)]
@@ -221,6 +221,16 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         .map(|track| Ok((track.id, track.offsets.file_path.clone().into_string()?)))
         .collect::<HashMap<_, _>>()?;
 
+    /// Turns a name into a single path component, so that it cannot refer to any other directory.
+    fn file_name(name: &str) -> String {
+        let name = name.replace(|c: char| c == '\0' || std::path::is_separator(c), "_");
+        match Path::new(&name).components().next() {
+            Some(Component::Normal(component)) if component == name.as_str() => name,
+            // Empty names, references to directories and drive prefixes.
+            _ => format!("_{}", name.replace(['.', ':'], "_")),
+        }
+    }
+
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
@@ -230,7 +240,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
             PlaylistNode::Folder(folder) => folder
                 .children
                 .into_iter()
-                .try_for_each(|child| walk_tree(child, &path.join(&folder.name), visit)),
+                .try_for_each(|child| walk_tree(child, &path.join(file_name(&folder.name)), visit)),
             PlaylistNode::Playlist(playlist) => visit(playlist, path),
         }
     }
@@ -238,7 +248,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     playlists.into_iter().try_for_each(|node| {
         walk_tree(node, output_dir, &|playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(format!("{}.m3u", playlist.name));
+            let playlist_path = path.join(file_name(&format!("{}.m3u", playlist.name)));
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From 2df2e4e10dafa429831eb3054bfdfaa9a20dfef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 27/37] fix: do not overwrite exported playlists with others of
 the same name

---
 src/main.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6dd9cd8..4c88c13 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -196,7 +196,7 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::device::{Playlist, PlaylistNode};
     use rekordcrate::DeviceExportLoader;
-    use std::collections::HashMap;
+    use std::collections::{HashMap, HashSet};
     use std::io::Write;
 
     let loader = DeviceExportLoader::new(path.into());
@@ -234,7 +234,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
-        visit: &impl Fn(Playlist, &Path) -> rekordcrate::Result<()>,
+        visit: &mut impl FnMut(Playlist, &Path) -> rekordcrate::Result<()>,
     ) -> rekordcrate::Result<()> {
         match node {
             PlaylistNode::Folder(folder) => folder
@@ -245,10 +245,18 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         }
     }
 
+    let mut written_paths = HashSet::new();
     playlists.into_iter().try_for_each(|node| {
-        walk_tree(node, output_dir, &|playlist, path| {
+        walk_tree(node, output_dir, &mut |playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(file_name(&format!("{}.m3u", playlist.name)));
+            let mut playlist_path = path.join(file_name(&format!("{}.m3u", playlist.name)));
+            // Playlists may have the same name, number them instead of overwriting files.
+            let mut number = 2;
+            while !written_paths.insert(playlist_path.clone()) {
+                playlist_path =
+                    path.join(file_name(&format!("{} ({}).m3u", playlist.name, number)));
+                number += 1;
+            }
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From 103646aa979416795c2d2c896b131b69aa0aba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:46 +0000
Subject: [PATCH 28/37] fix: write track paths with several leading slashes
 relative to the device

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4c88c13..40cff50 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -267,7 +267,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
                         "{}",
                         export_path
                             .canonicalize()?
-                            .join(track.strip_prefix('/').unwrap_or(track))
+                            .join(track.trim_start_matches('/'))
                             .display(),
                     )?;
                 }
-- 
2.43.0


From 4f8eb44a8a7fb0a6c61c4ee2e1d44dff669fcff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:47 +0000
Subject: [PATCH 29/37] fix: keep all playlist entries that have the same
 position

---
 src/main.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 40cff50..bbeaeb3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -93,7 +93,8 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     let mut db = Database::open_non_persistent(reader, DatabaseType::Plain)?;
 
     let mut playlist_tree: HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>> = HashMap::new();
-    let mut playlist_entries: HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>> = HashMap::new();
+    let mut playlist_entries: HashMap<PlaylistTreeNodeId, BTreeMap<u32, Vec<TrackId>>> =
+        HashMap::new();
     let mut artists: HashMap<ArtistId, Artist> = HashMap::new();
     let mut tracks: HashMap<TrackId, Track> = HashMap::new();
 
@@ -119,7 +120,9 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         playlist_entries
             .entry(entry.playlist_id)
             .or_default()
-            .insert(entry.entry_index, entry.track_id);
+            .entry(entry.entry_index)
+            .or_default()
+            .push(entry.track_id);
         Ok(())
     })?;
 
@@ -149,7 +152,7 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     }
     fn print_children_of(
         tree: &mut HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
-        tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>,
+        tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, Vec<TrackId>>>,
         artists: &HashMap<ArtistId, Artist>,
         tracks: &HashMap<TrackId, Track>,
         id: PlaylistTreeNodeId,
@@ -174,9 +177,11 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
                     node.name,
                 );
                 if let Some(playlist_tracks) = tree_entries.get(&node.id) {
-                    for (index, track_id) in playlist_tracks.iter() {
-                        print!("{}  ♫ {}: ", indentation, index);
-                        print_track(track_id, artists, tracks);
+                    for (index, track_ids) in playlist_tracks.iter() {
+                        for track_id in track_ids {
+                            print!("{}  ♫ {}: ", indentation, index);
+                            print_track(track_id, artists, tracks);
+                        }
                     }
                 }
                 print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1)
@@ -208,10 +213,14 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         .iter_rows::<PlaylistEntry>()?
         .map(|entry| Ok((entry.playlist_id, (entry.entry_index, entry.track_id))))
         .fold(
-            HashMap::<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>::new(),
+            HashMap::<PlaylistTreeNodeId, BTreeMap<u32, Vec<TrackId>>>::new(),
             |mut acc, (playlist_id, entry)| {
                 // BTreeMap keeps entries sorted by their index in the playlist.
-                acc.entry(playlist_id).or_default().insert(entry.0, entry.1);
+                acc.entry(playlist_id)
+                    .or_default()
+                    .entry(entry.0)
+                    .or_default()
+                    .push(entry.1);
                 Ok(acc)
             },
         )?;
@@ -261,7 +270,11 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
             if let Some(entries) = playlist_entries.get(&playlist.id) {
-                for track in entries.values().filter_map(|track_id| tracks.get(track_id)) {
+                for track in entries
+                    .values()
+                    .flatten()
+                    .filter_map(|track_id| tracks.get(track_id))
+                {
                     writeln!(
                         &mut file,
                         "{}",
-- 
2.43.0


From fd6fc70038a9dd286d53bf27a321305aef7ee389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:40 +0000
Subject: [PATCH 30/37] fix: reject databases whose table directory exceeds the
 header page

---
 src/pdb/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 9a888e6..074eca2 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -238,6 +238,7 @@ pub struct Header {
     #[br(assert(page_size >= Self::MIN_PAGE_SIZE, "page size {page_size} is too small"))]
     pub page_size: u32,
     /// Number of tables.
+    #[br(assert(num_tables <= Self::max_num_tables(page_size), "{num_tables} tables do not fit into the header page"))]
     pub num_tables: u32,
     /// Unknown field, not used as any `empty_candidate`, points past end of file.
     pub next_unused_page: PageIndex,
@@ -258,6 +259,11 @@ impl Header {
     /// fixed-size part of all page kinds.
     const MIN_PAGE_SIZE: u32 = PageHeader::BINARY_SIZE + IndexPageHeader::BINARY_SIZE + 20;
 
+    /// Number of tables that fit into the header page, behind the 28 bytes of fixed-size fields.
+    fn max_num_tables(page_size: u32) -> u32 {
+        (page_size - 28) / 16
+    }
+
     /// Finds the table for a given page type.
     #[must_use]
     pub fn find_table(&self, page_type: PageType) -> Option<(TableIndex, &Table)> {
-- 
2.43.0


From b3651dd56f71c5f64744922d22f40f351527cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 31/37] Expose the xor module to verification builds (cfg
 rekordcrate_verif)

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d050d34..894ebb7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,8 @@
 
 #![warn(unsafe_code)]
 #![warn(missing_docs)]
+// Verification hooks are built with `--cfg rekordcrate_verif`.
+#![allow(unexpected_cfgs)]
 #![cfg_attr(not(debug_assertions), deny(warnings))]
 #![deny(rust_2018_idioms)]
 #![deny(rust_2021_compatibility)]
@@ -29,7 +31,10 @@ pub mod pdb;
 pub mod setting;
 pub mod util;
 pub mod xml;
+#[cfg(not(rekordcrate_verif))]
 pub(crate) mod xor;
+#[cfg(rekordcrate_verif)]
+pub mod xor;
 
 pub use crate::device::DeviceExportLoader;
 pub use crate::util::RekordcrateError as Error;
-- 
2.43.0


From 3fcf58c0039dfe71c3d0c4e3682a799670ce7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 32/37] fix: refuse to allocate a row where another row is
 stored

---
 src/pdb/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 074eca2..2ffb047 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -636,6 +636,10 @@ impl Page {
                 }
 
                 let offset = self.header.used_size;
+                // If the used size of the page is wrong, the space is not actually free.
+                if dpc.rows.range(offset..).next().is_some() {
+                    return None;
+                }
                 self.header.used_size = used_size;
                 self.header.free_size -= bytes;
                 row_counts.increment_num_rows();
-- 
2.43.0


From e5ce473272d0be4032f76e56a3371489d6e924d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 33/37] fix: do not allocate memory for the claimed size of
 analysis data

---
 src/anlz.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 4025c32..4889ea2 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -236,6 +236,19 @@ pub struct Cue {
     unknown7: u32,
 }
 
+/// Reads the given number of bytes.
+///
+/// In contrast to `count`, this does not allocate all of them up front, as the number may be bogus.
+#[binrw::parser(reader)]
+fn read_bytes(len: u32) -> BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(len.into()).read_to_end(&mut bytes)?;
+    if bytes.len() as u64 != u64::from(len) {
+        return Err(binrw::Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
+    }
+    Ok(bytes)
+}
+
 /// A length-prefixed wide (UTF-16BE) string.
 ///
 /// The binary representation is a `u32` length (in bytes, including the trailing
@@ -297,12 +310,7 @@ impl BinRead for LenPrefixedWideString {
         if len == 0 {
             return Ok(Self(String::new()));
         }
-        // Do not allocate `len` bytes up front, the length may be bogus.
-        let mut bytes = Vec::new();
-        reader.by_ref().take(len.into()).read_to_end(&mut bytes)?;
-        if bytes.len() as u64 != u64::from(len) {
-            return Err(binrw::Error::Io(std::io::ErrorKind::UnexpectedEof.into()));
-        }
+        let bytes = read_bytes(reader, endian, (len,))?;
         let code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
@@ -479,7 +487,7 @@ pub struct ExtendedCue {
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(count = header.total_size.saturating_sub(68 + comment.byte_len()) as usize)]
+    #[br(parse_with = read_bytes, args(header.total_size.saturating_sub(68 + comment.byte_len())))]
     pub trailing: Vec<u8>,
 }
 
@@ -858,7 +866,7 @@ pub struct VBR {
     /// Unknown field.
     unknown1: u32,
     /// Unknown data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = read_bytes, args(header.content_size()))]
     unknown2: Vec<u8>,
 }
 
@@ -1148,10 +1156,10 @@ impl SongStructureData {
 #[br(import(header: Header))]
 pub struct Unknown {
     /// Unknown header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = read_bytes, args(header.remaining_size()))]
     header_data: Vec<u8>,
     /// Unknown content data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = read_bytes, args(header.content_size()))]
     content_data: Vec<u8>,
 }
 
@@ -1178,7 +1186,7 @@ pub struct ANLZ {
     #[br(assert(header.kind == ContentKind::File))]
     pub header: Header,
     /// The header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = read_bytes, args(header.remaining_size()))]
     pub header_data: Vec<u8>,
     /// The content sections.
     #[br(parse_with = Self::parse_sections, args(header.content_size()))]
-- 
2.43.0


From c1f44663cedc611ca2fc6794ab4ef1156081252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 34/37] fix: Writing offset arrays: stop at the first error

After an item could not be written, the items behind it still were, relative
to whatever position the writer was left at.
---
 src/util.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 2cf4f5c..688fe82 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -216,15 +216,21 @@ pub(crate) trait ArrayPolyfills<T, const N: usize> {
 }
 
 impl<T, const N: usize> ArrayPolyfills<T, N> for [T; N] {
-    fn try_map_polyfill<U, E>(self, f: impl FnMut(T) -> Result<U, E>) -> Result<[U; N], E> {
-        let results = self.map(f);
-        let has_error = results.iter().any(|r| r.is_err());
-        if has_error {
-            return Err(results.into_iter().find_map(|r| r.err()).unwrap());
+    fn try_map_polyfill<U, E>(self, mut f: impl FnMut(T) -> Result<U, E>) -> Result<[U; N], E> {
+        // `f` must not be called again after its first error (it may have side effects).
+        let mut error = None;
+        let results = self.map(|v| {
+            if error.is_some() {
+                return None;
+            }
+            f(v).map_err(|e| error = Some(e)).ok()
+        });
+        if let Some(e) = error {
+            return Err(e);
         }
         Ok(results.map(|r| match r {
-            Ok(v) => v,
-            Err(_) => unreachable!(),
+            Some(v) => v,
+            None => unreachable!(),
         }))
     }
 
-- 
2.43.0


From 49ddaca1e667df9b3b443ddc4ec34d459d5ac9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:02 +0000
Subject: [PATCH 35/37] fix: report data that buffering storage fails to write
 on flush

---
 src/pdb/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index c9145c5..04fbe42 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -240,6 +240,8 @@ impl<RW: Read + Write + Seek> Database<RW> {
         let endian = Endian::Little;
         self.io.seek(SeekFrom::Start(0))?;
         self.content.write_options(&mut self.io, endian, ())?;
+        // The underlying IO may buffer data and only then report that it could not be written.
+        self.io.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 93a7b8656ab71869402ab7caea6f9eada6c1e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 36/37] fix: reject ISRCs with NUL characters, which end the
 stored text

---
 src/pdb/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 3f7090b..d37dcca 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -106,7 +106,7 @@ impl DeviceSQLString {
         }
         // basic validation taken from
         // https://isrc.ifpi.org/downloads/ISRC_Bulletin-2015-01.pdf
-        if string.len() != 12 || !string.is_ascii() {
+        if string.len() != 12 || !string.is_ascii() || string.contains('\0') {
             return Err(StringError::InvalidISRC);
         }
         Ok(Self(DeviceSQLStringImpl::Long {
-- 
2.43.0


From 69d2de53d3d1398a27249c244caebe29bfb032d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 37/37] fix: report cue lists that are too long for their count
 when writing

---
 src/anlz.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 4889ea2..e945dc8 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -812,7 +812,7 @@ pub struct CueList {
     unknown: u16,
     /// Number of cues.
     #[br(temp)]
-    #[bw(calc = cues.len() as u16)]
+    #[bw(try_calc = u16::try_from(cues.len()))]
     len_cues: u16,
     /// Unknown field.
     memory_count: u32,
@@ -832,7 +832,7 @@ pub struct ExtendedCueList {
     pub list_type: CueListType,
     /// Number of cues.
     #[br(temp)]
-    #[bw(calc = cues.len() as u16)]
+    #[bw(try_calc = u16::try_from(cues.len()))]
     len_cues: u16,
     /// Unknown field
     #[br(assert(unknown == 0))]
-- 
2.43.0

