From 0e9de327b8a9a7aeaebd286e9830199a5c55b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:38 +0000
Subject: [PATCH 01/28] fix: store multi-sector files without compressed
 sectors as raw sectors

A file larger than one sector none of whose sectors compresses was written with a
sector offset table but without the COMPRESS flag, and read back with the table in
front of (and instead of the end of) its content.
---
 mopaq/src/archive.rs | 10 +++++++++-
 mopaq/src/builder.rs | 23 +++++++++++++++++++++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7deb01e..b106404 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1265,7 +1265,15 @@ impl Archive {
                 if data.len() <= 64 {
                     log::debug!("Before decrypt: {:02X?}", &data);
                 }
-                decrypt_file_data(&mut data, key);
+                if file_info.is_single_unit() {
+                    decrypt_file_data(&mut data, key);
+                } else {
+                    // Every sector of a stored multi-sector file has its own key
+                    let sector_size = self.header.sector_size();
+                    for (i, sector) in data.chunks_mut(sector_size).enumerate() {
+                        decrypt_file_data(sector, key.wrapping_add(i as u32));
+                    }
+                }
                 if data.len() <= 64 {
                     log::debug!("After decrypt: {:02X?}", &data);
                 }
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c2fe5d8..f7848fb 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1044,6 +1044,29 @@ impl ArchiveBuilder {
                 sector_data.extend_from_slice(&compressed_sector);
             }
 
+            // A file none of whose sectors is compressed is stored as its raw sectors: readers
+            // expect a sector offset table (and sector CRCs) only for compressed files
+            if flags & BlockEntry::FLAG_COMPRESS == 0 {
+                flags &= !BlockEntry::FLAG_SECTOR_CRC;
+                if *encrypt {
+                    flags |= BlockEntry::FLAG_ENCRYPTED;
+                    if *use_fix_key {
+                        flags |= BlockEntry::FLAG_FIX_KEY;
+                    }
+                    let key = self.calculate_file_key(
+                        archive_name,
+                        *file_pos,
+                        file_data.len() as u32,
+                        flags,
+                    );
+                    for (i, sector) in sector_data.chunks_mut(*sector_size).enumerate() {
+                        self.encrypt_data(sector, key.wrapping_add(i as u32));
+                    }
+                }
+                writer.write_all(&sector_data)?;
+                return Ok((sector_data.len(), flags));
+            }
+
             // Set last offset
             sector_offsets[sector_count] = (data_start + sector_data.len()) as u32;
 
-- 
2.43.0


From 0be54a2fe5ecb3b201f3f8bd008229c03d4dfedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 02/28] fix: keep compressed data only when it is shorter with
 its method byte

Data that shrank by exactly one byte was stored compressed at its original length; a
sector of that length is taken for a raw one when it is read back.
---
 mopaq/src/compression/compress.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 0582737..44188c3 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -15,7 +15,8 @@ pub fn compress(data: &[u8], method: u8) -> Result<Vec<u8>> {
 
     // MPQ format requires that compression saves at least 2 bytes
     // If it doesn't, we return the original data uncompressed
-    if compressed.len() >= data.len() {
+    // (readers recognise a compressed sector by being shorter than its content)
+    if compressed.len() + 1 >= data.len() {
         // Return uncompressed data (no compression byte prefix)
         Ok(data.to_vec())
     } else {
-- 
2.43.0


From 45a65df43832b7d35d17b38cc6959ec63eea207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:54 +0000
Subject: [PATCH 03/28] fix: sparse compression of 127 or more consecutive
 zeros

A run of 127 zeros was encoded as 0xFF, the end-of-stream marker, and everything after
it was lost.
---
 mopaq/src/compression/algorithms/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index fa82cd8..50efbf9 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -59,7 +59,8 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
         if zero_count > 0 {
             // Encode runs of zeros
             while zero_count > 0 {
-                let chunk = zero_count.min(0x7F);
+                // 0xFF is the end marker, so a run has at most 0x7E zeros
+                let chunk = zero_count.min(0x7E);
                 output.push(0x80 | (chunk as u8));
                 zero_count -= chunk;
             }
-- 
2.43.0


From d74478f03e000d50054de98dd9ff529ddd1b22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:19 +0000
Subject: [PATCH 04/28] fix: do not return another file on a partial HET hash
 match

A HET table match on a few bits of the name's hash was taken for the file, so some names
in larger V3 and V4 archives read back another file's content.
---
 mopaq/src/archive.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index b106404..76ffbf3 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type},
+    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -876,7 +876,13 @@ impl Archive {
         if let (Some(het), Some(bet)) = (&self.het_table, &self.bet_table) {
             // Check if tables have actual entries
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
-                if let Some(file_index) = het.find_file(filename) {
+                // The HET table holds only a few bits of a name's hash: a match counts when the full
+                // hash in the BET table agrees, or when there is no other table to consult
+                let name_matches = |index: u32| match bet.bet_hashes.get(index as usize) {
+                    Some(&hash) if bet.header.bet_hash_size == 64 => hash == jenkins_hash(filename),
+                    _ => self.hash_table.is_none() || self.block_table.is_none(),
+                };
+                if let Some(file_index) = het.find_file(filename).filter(|&i| name_matches(i)) {
                     if let Some(bet_info) = bet.get_file_info(file_index) {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
-- 
2.43.0


From 3f421ff60724264ddd7ba431d009439590d1589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:14 +0000
Subject: [PATCH 05/28] fix: BET entries wider than 64 bits and at the end of
 the file table

Entries were packed and unpacked in 64 bits: larger archives lost the upper fields (or
overflowed a shift), and entries in the last 8 bytes of the table were never returned.
---
 mopaq/src/builder.rs    | 36 +++++++++----------
 mopaq/src/tables/bet.rs | 76 +++++++++++++++++------------------------
 2 files changed, 49 insertions(+), 63 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index f7848fb..95c2c86 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1507,7 +1507,7 @@ impl ArchiveBuilder {
                     self.write_bit_entry(
                         &mut hash_table,
                         current_index,
-                        hash_entry,
+                        hash_entry as u128,
                         hash_entry_size + index_size,
                     )?;
 
@@ -1557,7 +1557,7 @@ impl ArchiveBuilder {
         &self,
         data: &mut [u8],
         index: usize,
-        value: u64,
+        value: u128,
         bit_size: u32,
     ) -> Result<()> {
         let bit_offset = index * bit_size as usize;
@@ -1581,20 +1581,20 @@ impl ArchiveBuilder {
             return Err(Error::invalid_format("Bit entry out of bounds"));
         }
 
-        // Read existing bits (limit to 8 bytes for u64)
-        let mut existing = 0u64;
-        let max_bytes = bytes_needed.min(8);
+        // Read existing bits (limit to 16 bytes for u128)
+        let mut existing = 0u128;
+        let max_bytes = bytes_needed.min(16);
         for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                existing |= (data[byte_offset + i] as u64) << (i * 8);
+            if byte_offset + i < data.len() && i * 8 < 128 {
+                existing |= (data[byte_offset + i] as u128) << (i * 8);
             }
         }
 
         // Clear the bits we're about to write
-        let value_mask = if bit_size >= 64 {
-            u64::MAX
+        let value_mask = if bit_size >= 128 {
+            u128::MAX
         } else {
-            (1u64 << bit_size) - 1
+            (1u128 << bit_size) - 1
         };
         let mask = value_mask << bit_shift;
         existing &= !mask;
@@ -1602,9 +1602,9 @@ impl ArchiveBuilder {
         // Write the new value
         existing |= (value & value_mask) << bit_shift;
 
-        // Write back (limit to 8 bytes for u64)
+        // Write back (limit to 16 bytes for u128)
         for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
+            if byte_offset + i < data.len() && i * 8 < 128 {
                 data[byte_offset + i] = (existing >> (i * 8)) as u8;
             }
         }
@@ -1773,11 +1773,11 @@ impl ArchiveBuilder {
                 let flag_index = flag_index_map.get(&entry.flags).unwrap();
 
                 // Pack entry data
-                let mut entry_bits = 0u64;
-                entry_bits |= (entry.file_pos as u64) << bit_index_file_pos;
-                entry_bits |= (entry.file_size as u64) << bit_index_file_size;
-                entry_bits |= (entry.compressed_size as u64) << bit_index_cmp_size;
-                entry_bits |= (*flag_index as u64) << bit_index_flag_index;
+                let mut entry_bits = 0u128;
+                entry_bits |= (entry.file_pos as u128) << bit_index_file_pos;
+                entry_bits |= (entry.file_size as u128) << bit_index_file_size;
+                entry_bits |= (entry.compressed_size as u128) << bit_index_cmp_size;
+                entry_bits |= (*flag_index as u128) << bit_index_flag_index;
 
                 // Write to file table
                 self.write_bit_entry(&mut file_table, i, entry_bits, table_entry_size)?;
@@ -1839,7 +1839,7 @@ impl ArchiveBuilder {
         // Write BET hashes (bit-packed)
         let mut hash_bytes = vec![0u8; bet_hash_array_size as usize];
         for (i, &hash) in bet_hashes.iter().enumerate() {
-            self.write_bit_entry(&mut hash_bytes, i, hash, bet_hash_size)?;
+            self.write_bit_entry(&mut hash_bytes, i, hash as u128, bet_hash_size)?;
         }
         result.extend_from_slice(&hash_bytes);
 
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index c15b61a..c7cf32a 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -227,36 +227,34 @@ impl BetTable {
         }
 
         // Read bit-packed entry
-        let entry_bits = self.read_table_entry(index as usize)?;
-
         // Extract fields
-        let file_pos = self.extract_bits(
-            entry_bits,
+        let file_pos = self.read_entry_bits(
+            index,
             self.header.bit_index_file_pos,
             self.header.bit_count_file_pos,
-        );
-        let file_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let file_size = self.read_entry_bits(
+            index,
             self.header.bit_index_file_size,
             self.header.bit_count_file_size,
-        );
-        let cmp_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let cmp_size = self.read_entry_bits(
+            index,
             self.header.bit_index_cmp_size,
             self.header.bit_count_cmp_size,
-        );
-        let flag_index = self.extract_bits(
-            entry_bits,
+        )?;
+        let flag_index = self.read_entry_bits(
+            index,
             self.header.bit_index_flag_index,
             self.header.bit_count_flag_index,
-        ) as u32;
+        )?;
 
         // Get flags
-        let flags = if flag_index < self.header.flag_count {
-            self.file_flags[flag_index as usize]
-        } else {
-            0
-        };
+        let flags = self
+            .file_flags
+            .get(flag_index as usize)
+            .copied()
+            .unwrap_or(0);
 
         Some(BetFileInfo {
             file_pos,
@@ -266,41 +264,29 @@ impl BetTable {
         })
     }
 
-    /// Read a table entry from bit-packed data
-    fn read_table_entry(&self, index: usize) -> Option<u64> {
-        let bit_offset = index * self.header.table_entry_size as usize;
-        let byte_offset = bit_offset / 8;
-        let bit_shift = bit_offset % 8;
-
-        if byte_offset + 8 > self.file_table.len() {
+    /// Read up to 64 bits, starting at bit `bit_offset`, of an entry of the bit-packed file table
+    fn read_entry_bits(&self, index: u32, bit_offset: u32, bit_count: u32) -> Option<u64> {
+        let start = index as u64 * self.header.table_entry_size as u64 + bit_offset as u64;
+        if bit_count > 64 || start + bit_count as u64 > self.file_table.len() as u64 * 8 {
             return None;
         }
 
-        // Read enough bytes to get the full entry
-        let mut value = 0u64;
-        let bytes_needed = (bit_shift + self.header.table_entry_size as usize)
-            .div_ceil(8)
-            .min(8);
+        let first_byte = (start / 8) as usize;
+        let bit_shift = (start % 8) as u32;
+        let byte_count = (bit_shift + bit_count).div_ceil(8) as usize;
 
-        for i in 0..bytes_needed {
-            if byte_offset + i < self.file_table.len() {
-                value |= (self.file_table[byte_offset + i] as u64) << (i * 8);
-            }
+        let mut value = 0u128;
+        for (i, &byte) in self.file_table[first_byte..first_byte + byte_count]
+            .iter()
+            .enumerate()
+        {
+            value |= (byte as u128) << (i * 8);
         }
 
-        // Shift and mask to get the actual entry
-        let entry = (value >> bit_shift) & ((1u64 << self.header.table_entry_size) - 1);
-        Some(entry)
-    }
-
-    /// Extract bits from a value
-    fn extract_bits(&self, value: u64, bit_offset: u32, bit_count: u32) -> u64 {
-        let mask = (1u64 << bit_count) - 1;
-        (value >> bit_offset) & mask
+        Some(((value >> bit_shift) & ((1u128 << bit_count) - 1)) as u64)
     }
 }
 
-/// File information from BET table
 #[derive(Debug)]
 pub struct BetFileInfo {
     /// File position in archive
-- 
2.43.0


From 96b2fe6aa2e29f8d27b6fbac8d0cfda74aae3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:07 +0000
Subject: [PATCH 06/28] fix: refuse headers whose sector size shift is out of
 range

---
 mopaq/src/header.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index c4dac24..516b297 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -35,6 +35,9 @@ pub const MPQ_USERDATA_SIGNATURE: u32 = 0x1B51504D;
 /// Header alignment requirement (512 bytes)
 pub const HEADER_ALIGNMENT: u64 = 0x200;
 
+/// Largest accepted sector size shift (2 GB sectors)
+const MAX_BLOCK_SIZE: u16 = 22;
+
 /// MPQ format version
 #[repr(u16)]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
@@ -175,6 +178,14 @@ impl MpqHeader {
         let format_version = FormatVersion::from_raw(format_version_raw)
             .ok_or(Error::UnsupportedVersion(format_version_raw))?;
 
+        // Sectors are at most 2 GB: larger shifts do not give a usable sector size
+        if block_size > MAX_BLOCK_SIZE {
+            return Err(Error::invalid_format(format!(
+                "Sector size shift {} too large",
+                block_size
+            )));
+        }
+
         // Validate header size
         if header_size < format_version.header_size() {
             return Err(Error::invalid_format(format!(
-- 
2.43.0


From 8535176aaaa6cd78a384f734e1632dcf76bffe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:19 +0000
Subject: [PATCH 07/28] fix: check sizes from an archive against its file
 before allocating

---
 mopaq/src/archive.rs       | 42 +++++++++++++++++++++-----------------
 mopaq/src/tables/bet.rs    | 25 +++++++++++++++--------
 mopaq/src/tables/block.rs  | 23 ++++++++-------------
 mopaq/src/tables/common.rs | 19 ++++++++++++++++-
 mopaq/src/tables/hash.rs   | 12 ++++-------
 mopaq/src/tables/het.rs    |  9 +++-----
 mopaq/src/tables/mod.rs    |  2 +-
 7 files changed, 74 insertions(+), 58 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 76ffbf3..dd1f714 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -14,7 +14,7 @@ use crate::{
     crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
-    tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
+    tables::{common::read_bytes_at, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
     Error, Result,
 };
 use std::fs::File;
@@ -539,10 +539,8 @@ impl Archive {
                 }
 
                 // Read raw table data
-                self.reader
-                    .seek(SeekFrom::Start(self.archive_offset + offset))?;
-                let mut table_data = vec![0u8; size as usize];
-                self.reader.read_exact(&mut table_data)?;
+                let offset = self.archive_offset.saturating_add(offset);
+                let table_data = read_bytes_at(&mut self.reader, offset, size)?;
 
                 // Calculate MD5
                 let mut hasher = Md5::new();
@@ -1253,13 +1251,18 @@ impl Archive {
             0
         };
 
-        // Read the file data
-        self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
+        // File sizes are 32-bit values
+        if file_info.file_size > u32::MAX as u64 {
+            return Err(Error::invalid_format("File size out of range"));
+        }
 
         if file_info.is_single_unit() || !file_info.is_compressed() {
             // Single unit or uncompressed file - read directly
-            let mut data = vec![0u8; file_info.compressed_size as usize];
-            self.reader.read_exact(&mut data)?;
+            let mut data = read_bytes_at(
+                &mut self.reader,
+                file_info.file_pos,
+                file_info.compressed_size,
+            )?;
 
             // Decrypt if needed
             if file_info.is_encrypted() {
@@ -1361,10 +1364,12 @@ impl Archive {
         );
 
         // Read sector offset table
-        self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
         let offset_table_size = (sector_count + 1) * 4;
-        let mut offset_data = vec![0u8; offset_table_size];
-        self.reader.read_exact(&mut offset_data)?;
+        let mut offset_data = read_bytes_at(
+            &mut self.reader,
+            file_info.file_pos,
+            offset_table_size as u64,
+        )?;
 
         // Decrypt sector offset table if needed
         if file_info.is_encrypted() {
@@ -1444,13 +1449,12 @@ impl Archive {
             let remaining = file_info.file_size as usize - decompressed_data.len();
             let expected_size = remaining.min(sector_size);
 
-            // Seek to sector data - offsets are absolute from file position
-            self.reader
-                .seek(SeekFrom::Start(file_info.file_pos + sector_start))?;
-
-            // Read sector data
-            let mut sector_data = vec![0u8; sector_size_compressed];
-            self.reader.read_exact(&mut sector_data)?;
+            // Read sector data - offsets are absolute from file position
+            let mut sector_data = read_bytes_at(
+                &mut self.reader,
+                file_info.file_pos.saturating_add(sector_start),
+                sector_size_compressed as u64,
+            )?;
 
             if i == 0 {
                 log::debug!(
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index c7cf32a..a82f6a9 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -1,9 +1,9 @@
 //! BET (Block Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes_at, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::{Error, Result};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Read, Seek};
 
 /// BET (Block Entry Table) for v3+ archives
 #[derive(Debug)]
@@ -73,11 +73,8 @@ impl BetTable {
         compressed_size: u64,
         key: u32,
     ) -> Result<Self> {
-        reader.seek(SeekFrom::Start(offset))?;
-
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes_at(reader, offset, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
@@ -163,6 +160,18 @@ impl BetTable {
         let data_start = 12 + std::mem::size_of::<BetHeader>();
         let mut cursor = std::io::Cursor::new(&table_data[data_start..]);
 
+        // Check the announced sizes against the data before allocating
+        let file_table_bits = header.file_count as u64 * header.table_entry_size as u64;
+        let needed = header.flag_count as u64 * 4
+            + file_table_bits.div_ceil(8)
+            + header.bet_hash_array_size as u64 / 8 * 8;
+        if needed > (table_data.len() - data_start) as u64 {
+            return Err(Error::invalid_format("BET table data too small"));
+        }
+        if header.file_count > 0 && header.table_entry_size == 0 {
+            return Err(Error::invalid_format("BET table entries are empty"));
+        }
+
         // Read file flags
         let mut file_flags = Vec::with_capacity(header.flag_count as usize);
         for _ in 0..header.flag_count {
@@ -170,9 +179,7 @@ impl BetTable {
         }
 
         // Calculate sizes
-        let file_table_size =
-            (header.file_count as usize * header.table_entry_size as usize).div_ceil(8);
-        let mut file_table = vec![0u8; file_table_size];
+        let mut file_table = vec![0u8; file_table_bits.div_ceil(8) as usize];
         cursor.read_exact(&mut file_table)?;
 
         // Read BET hashes
diff --git a/mopaq/src/tables/block.rs b/mopaq/src/tables/block.rs
index 4cf8183..4d1acff 100644
--- a/mopaq/src/tables/block.rs
+++ b/mopaq/src/tables/block.rs
@@ -1,9 +1,9 @@
 //! Block table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes_at, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Read, Seek};
 
 /// Block table entry (16 bytes)
 #[repr(C)]
@@ -109,13 +109,9 @@ impl BlockTable {
 
     /// Read and decrypt a block table from the archive
     pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> Result<Self> {
-        // Seek to block table position
-        reader.seek(SeekFrom::Start(offset))?;
-
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes_at(reader, offset, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(block table)", hash_type::FILE_KEY);
@@ -205,12 +201,11 @@ pub struct HiBlockTable {
 impl HiBlockTable {
     /// Read the hi-block table
     pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> Result<Self> {
-        reader.seek(SeekFrom::Start(offset))?;
-
-        let mut entries = Vec::with_capacity(size as usize);
-        for _ in 0..size {
-            entries.push(reader.read_u16_le()?);
-        }
+        let data = read_bytes_at(reader, offset, size as u64 * 2)?;
+        let entries = data
+            .chunks_exact(2)
+            .map(|entry| u16::from_le_bytes([entry[0], entry[1]]))
+            .collect();
 
         Ok(Self { entries })
     }
diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index ffa5809..d846117 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -1,7 +1,7 @@
 //! Common utilities and traits for MPQ tables
 
 use crate::Result;
-use std::io::Read;
+use std::io::{Read, Seek, SeekFrom};
 
 /// Helper trait for reading little-endian integers
 pub(crate) trait ReadLittleEndian: Read {
@@ -26,6 +26,23 @@ pub(crate) trait ReadLittleEndian: Read {
 
 impl<R: Read> ReadLittleEndian for R {}
 
+/// Read `size` bytes at `offset`, refusing sizes beyond the end of the data before allocating
+pub(crate) fn read_bytes_at<R: Read + Seek>(
+    reader: &mut R,
+    offset: u64,
+    size: u64,
+) -> Result<Vec<u8>> {
+    let available = reader.seek(SeekFrom::End(0))?.saturating_sub(offset);
+    if size > available {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+
+    reader.seek(SeekFrom::Start(offset))?;
+    let mut data = vec![0u8; size as usize];
+    reader.read_exact(&mut data)?;
+    Ok(data)
+}
+
 /// Helper function to decrypt table data
 pub(crate) fn decrypt_table_data(data: &mut [u8], key: u32) {
     use crate::crypto::decrypt_block;
diff --git a/mopaq/src/tables/hash.rs b/mopaq/src/tables/hash.rs
index 43800a8..6df9030 100644
--- a/mopaq/src/tables/hash.rs
+++ b/mopaq/src/tables/hash.rs
@@ -1,9 +1,9 @@
 //! Hash table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes_at, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Read, Seek};
 
 /// Hash table entry (16 bytes)
 #[repr(C)]
@@ -95,13 +95,9 @@ impl HashTable {
             return Err(Error::hash_table("Hash table size must be power of 2"));
         }
 
-        // Seek to hash table position
-        reader.seek(SeekFrom::Start(offset))?;
-
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes_at(reader, offset, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(hash table)", hash_type::FILE_KEY);
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 731a0dc..b5e8e5d 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -1,10 +1,10 @@
 //! HET (Hash Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bytes_at, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{Read, Seek};
 
 /// HET (Hash Entry Table) for v3+ archives
 #[derive(Debug)]
@@ -63,11 +63,8 @@ impl HetTable {
         compressed_size: u64,
         key: u32,
     ) -> Result<Self> {
-        reader.seek(SeekFrom::Start(offset))?;
-
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes_at(reader, offset, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
diff --git a/mopaq/src/tables/mod.rs b/mopaq/src/tables/mod.rs
index ac8ae00..8f6ed95 100644
--- a/mopaq/src/tables/mod.rs
+++ b/mopaq/src/tables/mod.rs
@@ -2,7 +2,7 @@
 
 mod bet;
 mod block;
-mod common;
+pub(crate) mod common;
 mod hash;
 mod het;
 
-- 
2.43.0


From 26e55973e0604d6bd412534a0e576bd60ab7e4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:48 +0000
Subject: [PATCH 08/28] fix: crafted table positions and HET sizes no longer
 overflow

---
 mopaq/src/archive.rs    | 28 +++++++++++++++++++---------
 mopaq/src/tables/het.rs | 10 +++++++---
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index dd1f714..a2c4571 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -373,7 +373,7 @@ impl Archive {
 
                         match HetTable::read(
                             &mut self.reader,
-                            self.archive_offset + het_pos,
+                            self.archive_offset.saturating_add(het_pos),
                             het_size,
                             key,
                         ) {
@@ -429,7 +429,7 @@ impl Archive {
 
                         match BetTable::read(
                             &mut self.reader,
-                            self.archive_offset + bet_pos,
+                            self.archive_offset.saturating_add(bet_pos),
                             bet_size,
                             key,
                         ) {
@@ -482,7 +482,7 @@ impl Archive {
         // Load hi-block table if present (v2+)
         if let Some(hi_block_pos) = self.header.hi_block_table_pos {
             if hi_block_pos != 0 {
-                let hi_block_offset = self.archive_offset + hi_block_pos;
+                let hi_block_offset = self.archive_offset.saturating_add(hi_block_pos);
                 self.hi_block_table = Some(HiBlockTable::read(
                     &mut self.reader,
                     hi_block_offset,
@@ -886,7 +886,7 @@ impl Archive {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
                             block_index: file_index as usize,
-                            file_pos: self.archive_offset + bet_info.file_pos,
+                            file_pos: self.archive_offset.saturating_add(bet_info.file_pos),
                             compressed_size: bet_info.compressed_size,
                             file_size: bet_info.file_size,
                             flags: bet_info.flags,
@@ -1614,11 +1614,11 @@ impl Archive {
                 bet_pos - het_pos
             } else {
                 // Calculate from hash table position
-                self.header.get_hash_table_pos() - het_pos
+                self.size_up_to_hash_table(het_pos)?
             }
         } else {
             // Calculate from hash table position
-            self.header.get_hash_table_pos() - het_pos
+            self.size_up_to_hash_table(het_pos)?
         };
 
         log::debug!(
@@ -1636,7 +1636,7 @@ impl Archive {
         log::debug!("Determining BET table size from file structure");
 
         // Calculate the actual size based on what comes after BET table (usually hash table)
-        let actual_size = self.header.get_hash_table_pos() - bet_pos;
+        let actual_size = self.size_up_to_hash_table(bet_pos)?;
 
         log::debug!(
             "BET table position: 0x{:X}, calculated size: {} bytes",
@@ -1647,6 +1647,14 @@ impl Archive {
         Ok(actual_size)
     }
 
+    /// Size of a table that ends where the hash table starts
+    fn size_up_to_hash_table(&self, table_pos: u64) -> Result<u64> {
+        self.header
+            .get_hash_table_pos()
+            .checked_sub(table_pos)
+            .ok_or_else(|| Error::invalid_format("Table lies behind the hash table"))
+    }
+
     /// Verify the digital signature of the archive
     pub fn verify_signature(&mut self) -> Result<SignatureStatus> {
         // First check for strong signature (external to archive)
@@ -1719,10 +1727,12 @@ impl Archive {
         let file_size = self.reader.get_ref().metadata()?.len();
 
         // Calculate expected archive end position
-        let archive_end = self.archive_offset + self.header.get_archive_size();
+        let archive_end = self
+            .archive_offset
+            .saturating_add(self.header.get_archive_size());
 
         // Check if there's enough space for a strong signature after the archive
-        if file_size < archive_end + STRONG_SIGNATURE_SIZE as u64 {
+        if file_size < archive_end.saturating_add(STRONG_SIGNATURE_SIZE as u64) {
             log::debug!("File too small for strong signature");
             return Ok(SignatureStatus::None);
         }
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index b5e8e5d..89e2434 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -237,8 +237,9 @@ impl HetTable {
         };
 
         // Calculate hash table index
-        let hash_table_entries = self.header.hash_table_size * 8 / self.header.hash_entry_size;
-        let hash_index = (hash & (hash_table_entries as u64 - 1)) as usize;
+        let hash_table_entries = (self.header.hash_table_size as u64 * 8)
+            .checked_div(self.header.hash_entry_size as u64)?;
+        let hash_index = (hash & hash_table_entries.checked_sub(1)?) as usize;
 
         // Read hash entry
         let hash_entry = self.read_hash_entry(hash_index)?;
@@ -249,7 +250,10 @@ impl HetTable {
         }
 
         // Extract file index from hash entry
-        let file_index = (hash_entry >> self.header.hash_entry_size) & index_mask;
+        let file_index = hash_entry
+            .checked_shr(self.header.hash_entry_size)
+            .unwrap_or(0)
+            & index_mask;
 
         // Verify file index is valid
         if file_index >= self.header.max_file_count as u64 {
-- 
2.43.0


From feebbc506b748293ef6b5c3c89a79e167fdb81a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:56 +0000
Subject: [PATCH 09/28] fix: malformed compressed data no longer panics the
 reader

---
 mopaq/src/archive.rs                       | 9 ++++++---
 mopaq/src/compression/algorithms/adpcm.rs  | 2 +-
 mopaq/src/compression/algorithms/sparse.rs | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index a2c4571..2a7dffd 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1298,8 +1298,9 @@ impl Archive {
                 // CRC is calculated on the decompressed data
                 let data_to_check = if file_info.is_compressed() {
                     // We need to decompress first to check CRC
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
+                    let (&compression_type, compressed_data) = data
+                        .split_first()
+                        .ok_or_else(|| Error::compression("Empty compressed data"))?;
                     compression::decompress(
                         compressed_data,
                         compression_type,
@@ -1446,7 +1447,9 @@ impl Archive {
             let sector_size_compressed = (sector_end - sector_start) as usize;
 
             // Calculate expected decompressed size for this sector
-            let remaining = file_info.file_size as usize - decompressed_data.len();
+            let remaining = (file_info.file_size as usize)
+                .checked_sub(decompressed_data.len())
+                .ok_or_else(|| Error::compression("Sectors hold more data than the file"))?;
             let expected_size = remaining.min(sector_size);
 
             // Read sector data - offsets are absolute from file position
diff --git a/mopaq/src/compression/algorithms/adpcm.rs b/mopaq/src/compression/algorithms/adpcm.rs
index b7e118a..6d378c8 100644
--- a/mopaq/src/compression/algorithms/adpcm.rs
+++ b/mopaq/src/compression/algorithms/adpcm.rs
@@ -265,7 +265,7 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
                 predicted_samples[channel_index] as i32,
                 encoded_sample,
                 step_size,
-                step_size >> bit_shift as i32,
+                step_size.checked_shr(bit_shift as u32).unwrap_or(0),
             ) as i16;
 
             write_sample(&mut output, predicted_samples[channel_index]);
diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index 50efbf9..d63315a 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -21,7 +21,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
         if control & 0x80 != 0 {
             // Run of zeros
             let count = (control & 0x7F) as usize;
-            output.resize(output.len() + count, 0);
+            output.resize((output.len() + count).min(expected_size), 0);
         } else {
             // Copy bytes
             let count = control as usize;
-- 
2.43.0


From 354d27499c108fe45dbeb0233cb50cb3b345fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 10/28] fix: a block that does not exist is not found under its
 name

---
 mopaq/src/archive.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 2a7dffd..af9f5bc 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -881,7 +881,10 @@ impl Archive {
                     _ => self.hash_table.is_none() || self.block_table.is_none(),
                 };
                 if let Some(file_index) = het.find_file(filename).filter(|&i| name_matches(i)) {
-                    if let Some(bet_info) = bet.get_file_info(file_index) {
+                    if let Some(bet_info) = bet
+                        .get_file_info(file_index)
+                        .filter(|info| info.flags & crate::tables::BlockEntry::FLAG_EXISTS != 0)
+                    {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
@@ -927,6 +930,11 @@ impl Archive {
                 .get(hash_entry.block_index as usize)
                 .ok_or_else(|| Error::block_table("Invalid block index"))?;
 
+            // A block without this flag is free space, whatever the hash table says
+            if !block_entry.exists() {
+                return Ok(None);
+            }
+
             // Calculate full file position for v2+ archives
             let file_pos = if let Some(hi_block) = &self.hi_block_table {
                 let high_bits = hi_block.get_file_pos_high(hash_entry.block_index as usize);
-- 
2.43.0


From 49a181f887ba25c8f9c04d15bb670dc272b10951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:04 +0000
Subject: [PATCH 11/28] fix: bytes behind the last whole word of encrypted data
 are stored as they are

---
 mopaq/src/archive.rs | 20 ++------------------
 mopaq/src/builder.rs | 19 ++++---------------
 2 files changed, 6 insertions(+), 33 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index af9f5bc..5ee2316 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
+    crypto::{decrypt_block, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{common::read_bytes_at, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -1837,23 +1837,7 @@ fn decrypt_file_data(data: &mut [u8], key: u32) {
         }
     }
 
-    // Handle remaining bytes if not aligned to 4
-    let remainder = data.len() % 4;
-    if remainder > 0 {
-        let offset = chunks * 4;
-
-        // Read remaining bytes into a u32 (padding with zeros)
-        let mut last_bytes = [0u8; 4];
-        last_bytes[..remainder].copy_from_slice(&data[offset..(remainder + offset)]);
-        let last_dword = u32::from_le_bytes(last_bytes);
-
-        // Decrypt with adjusted key
-        let decrypted = decrypt_dword(last_dword, key.wrapping_add(chunks as u32));
-
-        // Write back only the remainder bytes
-        let decrypted_bytes = decrypted.to_le_bytes();
-        data[offset..(remainder + offset)].copy_from_slice(&decrypted_bytes[..remainder]);
-    }
+    // Bytes behind the last whole u32 are not encrypted
 }
 
 /// Information about a file in the archive
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 95c2c86..ab539a9 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1364,7 +1364,8 @@ impl ArchiveBuilder {
         }
 
         // Process full u32 chunks
-        let (chunks, remainder) = data.split_at_mut((data.len() / 4) * 4);
+        let whole = (data.len() / 4) * 4;
+        let chunks = &mut data[..whole];
 
         // Convert chunks to u32 values, encrypt, and write back
         let mut u32_buffer = Vec::with_capacity(chunks.len() / 4);
@@ -1380,21 +1381,9 @@ impl ArchiveBuilder {
             chunks[i * 4..(i + 1) * 4].copy_from_slice(&bytes);
         }
 
-        // Handle remaining bytes
-        if !remainder.is_empty() {
-            let mut last_dword = [0u8; 4];
-            last_dword[..remainder.len()].copy_from_slice(remainder);
-
-            let mut last_u32 = u32::from_le_bytes(last_dword);
-            encrypt_block(
-                std::slice::from_mut(&mut last_u32),
-                key.wrapping_add((chunks.len() / 4) as u32),
-            );
-
-            let encrypted_bytes = last_u32.to_le_bytes();
-            remainder.copy_from_slice(&encrypted_bytes[..remainder.len()]);
-        }
+        // Bytes behind the last whole u32 are not encrypted
     }
+
     /// Encrypt u32 data in place
     fn encrypt_data_u32(&self, data: &mut [u32], key: u32) {
         encrypt_block(data, key);
-- 
2.43.0


From 67d1378ae2db79abfc631225a89636e266c310a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:45 +0000
Subject: [PATCH 12/28] fix: a weak signature is compared with its leading zero
 byte

---
 mopaq/src/crypto/signature.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index c614b4f..86b76a2 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -273,10 +273,9 @@ pub fn verify_weak_signature_stormlib<R: Read + std::io::Seek>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
 
     // Verify PKCS#1 v1.5 padding
-    verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
+    verify_weak_block(&decrypted, &hash)
 }
 
 /// Legacy verify function (kept for backward compatibility)
@@ -316,10 +315,9 @@ pub fn verify_weak_signature<R: Read>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
 
     // Verify PKCS#1 v1.5 padding
-    verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
+    verify_weak_block(&decrypted, &hash)
 }
 
 /// Verify a strong signature (2048-bit RSA with SHA-1)
@@ -365,6 +363,15 @@ pub fn verify_strong_signature<R: Read>(
     verify_mpq_strong_signature_padding(&decrypted_bytes, &hash)
 }
 
+/// Verify a decrypted weak signature, which has as many bytes as the key
+fn verify_weak_block(decrypted: &BigUint, expected_hash: &[u8]) -> Result<bool> {
+    // The number has no leading zeros, the padded block always starts with one
+    let bytes = decrypted.to_bytes_be();
+    let mut block = vec![0u8; WEAK_SIGNATURE_SIZE.saturating_sub(bytes.len())];
+    block.extend_from_slice(&bytes);
+    verify_pkcs1_v15_md5(&block, expected_hash)
+}
+
 /// Verify PKCS#1 v1.5 padding for MD5
 fn verify_pkcs1_v15_md5(decrypted: &[u8], expected_hash: &[u8]) -> Result<bool> {
     // PKCS#1 v1.5 structure for MD5:
-- 
2.43.0


From bf4e6d099096462382543933f01334470326a388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:04 +0000
Subject: [PATCH 13/28] verif hook: padding checks of signatures, behind cfg
 mopaq_verif

---
 mopaq/src/crypto/mod.rs       |  3 +++
 mopaq/src/crypto/signature.rs | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/mopaq/src/crypto/mod.rs b/mopaq/src/crypto/mod.rs
index e742425..80eb59a 100644
--- a/mopaq/src/crypto/mod.rs
+++ b/mopaq/src/crypto/mod.rs
@@ -11,6 +11,9 @@ mod types;
 pub use decryption::{decrypt_block, decrypt_dword};
 pub use encryption::encrypt_block;
 pub use hash::{hash_string, jenkins_hash};
+#[allow(unexpected_cfgs)]
+#[cfg(mopaq_verif)]
+pub use signature::verif;
 pub use signature::{
     calculate_mpq_hash_md5, parse_strong_signature, parse_weak_signature, public_keys,
     verify_strong_signature, verify_weak_signature, verify_weak_signature_stormlib, SignatureInfo,
diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index 86b76a2..8c03e1d 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -477,6 +477,20 @@ fn reverse_bytes(data: &[u8]) -> Vec<u8> {
     data.iter().rev().copied().collect()
 }
 
+/// Access to the padding checks for verification, compiled only with `--cfg mopaq_verif`
+#[allow(unexpected_cfgs)]
+#[cfg(mopaq_verif)]
+pub mod verif {
+    /// The verdict on a decrypted weak signature, given as a big-endian number
+    pub fn weak_verdict(decrypted: &[u8], hash: &[u8]) -> bool {
+        super::verify_weak_block(&super::BigUint::from_bytes_be(decrypted), hash).unwrap_or(false)
+    }
+    /// The verdict on a decrypted strong signature
+    pub fn strong_verdict(decrypted: &[u8], hash: &[u8]) -> bool {
+        super::verify_mpq_strong_signature_padding(decrypted, hash).unwrap_or(false)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 80348fe51ab10bc7cdf1dafe62b94b699ce4c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:38 +0000
Subject: [PATCH 14/28] fix: SFileSetFilePointer refuses to move before the
 start of a file

A target before the start wrapped to a huge value and was clamped to the end.
A low word with its top bit set overwrote the high word.
---
 storm-ffi/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8f59f25..369e3b0 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -526,25 +526,31 @@ pub unsafe extern "C" fn SFileSetFilePointer(
     };
 
     // Combine high and low parts into 64-bit offset
-    let mut offset = file_pos as i64;
-    if !file_pos_high.is_null() {
-        let high = *file_pos_high as i64;
-        offset |= high << 32;
-    }
+    let offset = if file_pos_high.is_null() {
+        file_pos as i64
+    } else {
+        ((*file_pos_high as i64) << 32) | file_pos as u32 as i64
+    };
 
     // Calculate new position
-    let new_pos = match move_method {
-        0 => offset as usize,                                   // FILE_BEGIN
-        1 => (file_handle.position as i64 + offset) as usize,   // FILE_CURRENT
-        2 => (file_handle.data.len() as i64 + offset) as usize, // FILE_END
+    let base = match move_method {
+        0 => 0,                                // FILE_BEGIN
+        1 => file_handle.position as i64,      // FILE_CURRENT
+        2 => file_handle.data.len() as i64,    // FILE_END
         _ => {
             set_last_error(ERROR_INVALID_PARAMETER);
             return 0xFFFFFFFF;
         }
     };
+    let new_pos = base.saturating_add(offset);
+    if new_pos < 0 {
+        // There is nothing before the start of the file
+        set_last_error(ERROR_INVALID_PARAMETER);
+        return 0xFFFFFFFF;
+    }
 
     // Clamp to file size
-    file_handle.position = new_pos.min(file_handle.data.len());
+    file_handle.position = (new_pos as usize).min(file_handle.data.len());
 
     // Return new position
     let pos = file_handle.position as u64;
-- 
2.43.0


From ed05f0357290b53ff19f18ec885d7606f1a8d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:38 +0000
Subject: [PATCH 15/28] fix: SFileEnumFiles calls back without holding the
 archive lock

A callback that used the archive, to open the file it was told of, say, never returned.
---
 storm-ffi/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 369e3b0..242f0cb 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -844,8 +844,10 @@ pub unsafe extern "C" fn SFileEnumFiles(
         return false;
     };
 
-    // List files
-    match archive_handle.archive.list() {
+    // List files; the callback runs without the lock, because it may use the archive itself
+    let listing = archive_handle.archive.list();
+    drop(archives);
+    match listing {
         Ok(entries) => {
             for entry in entries {
                 // Simple pattern matching (just * for now)
-- 
2.43.0


From e6c0f0ee633eb716ed04fc8c765eb4aaa46b1c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:38 +0000
Subject: [PATCH 16/28] fix: SFileVerifyArchive no longer takes its own lock
 twice

Verifying all files called SFileVerifyFile with the archive lock held.
---
 storm-ffi/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 242f0cb..9200126 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1235,7 +1235,8 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
             }
         };
 
-        // Verify each file individually
+        // Verify each file individually, without the lock that SFileVerifyFile takes itself
+        drop(archives);
         for file_entry in file_list {
             // Skip special files and directories
             if file_entry.name.starts_with('(') && file_entry.name.ends_with(')') {
-- 
2.43.0


From 2af965c0600378e3d5ad3ea94040c035d66da4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:38 +0000
Subject: [PATCH 17/28] fix: file keys are made of the plain file name

The key of an encrypted file is the hash of its name without directories. The full
path was hashed, so encrypted files of other tools in directories did not decrypt.
---
 mopaq/src/archive.rs     | 4 ++--
 mopaq/src/builder.rs     | 4 ++--
 mopaq/src/crypto/hash.rs | 8 ++++++++
 mopaq/src/crypto/mod.rs  | 2 +-
 storm-ffi/src/lib.rs     | 6 +++---
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 5ee2316..9a9a64f 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, hash_string, hash_type, jenkins_hash},
+    crypto::{decrypt_block, hash_string, hash_type, jenkins_hash, plain_name},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{common::read_bytes_at, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -1247,7 +1247,7 @@ impl Archive {
 
         // Calculate encryption key if needed
         let key = if file_info.is_encrypted() {
-            let base_key = hash_string(name, hash_type::FILE_KEY);
+            let base_key = hash_string(plain_name(name), hash_type::FILE_KEY);
             if file_info.has_fix_key() {
                 // Apply FIX_KEY modification
                 let file_pos = (file_info.file_pos - self.archive_offset) as u32;
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index ab539a9..c557f26 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     compression::{compress, flags as compression_flags},
-    crypto::{encrypt_block, hash_string, hash_type, jenkins_hash},
+    crypto::{encrypt_block, hash_string, hash_type, jenkins_hash, plain_name},
     header::{FormatVersion, MpqHeaderV4Data},
     tables::{BetHeader, BlockEntry, BlockTable, HashEntry, HashTable, HetHeader, HiBlockTable},
     Error, Result,
@@ -1347,7 +1347,7 @@ impl ArchiveBuilder {
 
     /// Calculate file encryption key
     fn calculate_file_key(&self, filename: &str, file_pos: u64, file_size: u32, flags: u32) -> u32 {
-        let base_key = hash_string(filename, hash_type::FILE_KEY);
+        let base_key = hash_string(plain_name(filename), hash_type::FILE_KEY);
 
         if flags & BlockEntry::FLAG_FIX_KEY != 0 {
             // For FIX_KEY, use only the low 32 bits of the file position
diff --git a/mopaq/src/crypto/hash.rs b/mopaq/src/crypto/hash.rs
index 6c43a60..7ef7a60 100644
--- a/mopaq/src/crypto/hash.rs
+++ b/mopaq/src/crypto/hash.rs
@@ -2,6 +2,14 @@
 
 use super::keys::{ASCII_TO_LOWER, ASCII_TO_UPPER, ENCRYPTION_TABLE};
 
+/// The part of a file name behind its last path separator, which file keys are made of
+pub fn plain_name(filename: &str) -> &str {
+    match filename.rfind(['\\', '/']) {
+        Some(pos) => &filename[pos + 1..],
+        None => filename,
+    }
+}
+
 /// Hash a string using the MPQ hash algorithm
 pub fn hash_string(filename: &str, hash_type: u32) -> u32 {
     let mut seed1: u32 = 0x7FED7FED;
diff --git a/mopaq/src/crypto/mod.rs b/mopaq/src/crypto/mod.rs
index 80eb59a..2b88494 100644
--- a/mopaq/src/crypto/mod.rs
+++ b/mopaq/src/crypto/mod.rs
@@ -10,7 +10,7 @@ mod types;
 // Re-export public API
 pub use decryption::{decrypt_block, decrypt_dword};
 pub use encryption::encrypt_block;
-pub use hash::{hash_string, jenkins_hash};
+pub use hash::{hash_string, jenkins_hash, plain_name};
 #[allow(unexpected_cfgs)]
 #[cfg(mopaq_verif)]
 pub use signature::verif;
diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 9200126..c93de42 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -534,9 +534,9 @@ pub unsafe extern "C" fn SFileSetFilePointer(
 
     // Calculate new position
     let base = match move_method {
-        0 => 0,                                // FILE_BEGIN
-        1 => file_handle.position as i64,      // FILE_CURRENT
-        2 => file_handle.data.len() as i64,    // FILE_END
+        0 => 0,                             // FILE_BEGIN
+        1 => file_handle.position as i64,   // FILE_CURRENT
+        2 => file_handle.data.len() as i64, // FILE_END
         _ => {
             set_last_error(ERROR_INVALID_PARAMETER);
             return 0xFFFFFFFF;
-- 
2.43.0


From 8dfb0aa8f970f4ba92951e8c380446db4130e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:39 +0000
Subject: [PATCH 18/28] fix: data that compression could not shorten is stored
 as it is

Single-unit files marked as compressed whose stored size is their full size hold no
method byte, like such sectors of other files.
---
 mopaq/src/archive.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 9a9a64f..55b34ab 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1265,7 +1265,10 @@ impl Archive {
         }
 
         if file_info.is_single_unit() || !file_info.is_compressed() {
-            // Single unit or uncompressed file - read directly
+            // Single unit or uncompressed file - read directly. Data that compression
+            // could not shorten is stored as it is, whatever the flags say.
+            let is_packed =
+                file_info.is_compressed() && file_info.compressed_size < actual_file_size;
             let mut data = read_bytes_at(
                 &mut self.reader,
                 file_info.file_pos,
@@ -1304,7 +1307,7 @@ impl Archive {
                 let expected_crc = u32::from_le_bytes(crc_bytes);
 
                 // CRC is calculated on the decompressed data
-                let data_to_check = if file_info.is_compressed() {
+                let data_to_check = if is_packed {
                     // We need to decompress first to check CRC
                     let (&compression_type, compressed_data) = data
                         .split_first()
@@ -1332,7 +1335,7 @@ impl Archive {
             }
 
             // Decompress if needed
-            if file_info.is_compressed() {
+            if is_packed {
                 // All compressed files should have a compression type byte prefix
                 // This matches StormLib's behavior
                 if !data.is_empty() {
-- 
2.43.0


From d4eab334c8b635329bec081b625d43b4a4aa4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:39 +0000
Subject: [PATCH 19/28] fix: imploded files carry no method byte

Files with the IMPLODE flag are PKWARE data from their first byte on.
---
 mopaq/src/archive.rs | 65 ++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 55b34ab..ce8d276 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1309,14 +1309,7 @@ impl Archive {
                 // CRC is calculated on the decompressed data
                 let data_to_check = if is_packed {
                     // We need to decompress first to check CRC
-                    let (&compression_type, compressed_data) = data
-                        .split_first()
-                        .ok_or_else(|| Error::compression("Empty compressed data"))?;
-                    compression::decompress(
-                        compressed_data,
-                        compression_type,
-                        actual_file_size as usize,
-                    )?
+                    decompress_stored(&file_info, &data, actual_file_size as usize)?
                 } else {
                     data.clone()
                 };
@@ -1336,25 +1329,12 @@ impl Archive {
 
             // Decompress if needed
             if is_packed {
-                // All compressed files should have a compression type byte prefix
-                // This matches StormLib's behavior
-                if !data.is_empty() {
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
-                    log::debug!(
-                        "Decompressing file: type=0x{:02X}, compressed_size={}, expected_size={}",
-                        compression_type,
-                        compressed_data.len(),
-                        actual_file_size
-                    );
-                    compression::decompress(
-                        compressed_data,
-                        compression_type,
-                        actual_file_size as usize,
-                    )
-                } else {
-                    Err(Error::compression("Empty compressed data"))
-                }
+                log::debug!(
+                    "Decompressing file: compressed_size={}, expected_size={}",
+                    data.len(),
+                    actual_file_size
+                );
+                decompress_stored(&file_info, &data, actual_file_size as usize)
             } else {
                 Ok(data)
             }
@@ -1506,15 +1486,7 @@ impl Archive {
             // Decompress sector
             let decompressed_sector =
                 if file_info.is_compressed() && sector_size_compressed < expected_size {
-                    // All compressed sectors should have compression type byte prefix
-                    // This matches StormLib's behavior
-                    if !sector_data.is_empty() {
-                        let compression_type = sector_data[0];
-                        let compressed_data = &sector_data[1..];
-                        compression::decompress(compressed_data, compression_type, expected_size)?
-                    } else {
-                        return Err(Error::compression("Empty compressed sector data"));
-                    }
+                    decompress_stored(file_info, &sector_data, expected_size)?
                 } else {
                     // Sector is not compressed
                     sector_data[..expected_size.min(sector_data.len())].to_vec()
@@ -1802,6 +1774,20 @@ impl Archive {
     }
 }
 
+/// Decompress a single unit or a sector as it is stored
+///
+/// Compressed data starts with a byte telling the methods; imploded data carries no such byte.
+fn decompress_stored(file_info: &FileInfo, data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
+    if file_info.is_imploded() {
+        return compression::decompress(data, compression::flags::PKWARE, expected_size);
+    }
+
+    let (&compression_type, compressed_data) = data
+        .split_first()
+        .ok_or_else(|| Error::compression("Empty compressed data"))?;
+    compression::decompress(compressed_data, compression_type, expected_size)
+}
+
 /// Decrypt file data in-place
 fn decrypt_file_data(data: &mut [u8], key: u32) {
     if data.is_empty() || key == 0 {
@@ -1871,6 +1857,13 @@ impl FileInfo {
         (self.flags & (BlockEntry::FLAG_IMPLODE | BlockEntry::FLAG_COMPRESS)) != 0
     }
 
+    /// Check if the file is compressed with PKWARE implode only, which has no method byte
+    pub fn is_imploded(&self) -> bool {
+        use crate::tables::BlockEntry;
+        (self.flags & (BlockEntry::FLAG_IMPLODE | BlockEntry::FLAG_COMPRESS))
+            == BlockEntry::FLAG_IMPLODE
+    }
+
     /// Check if the file is encrypted
     pub fn is_encrypted(&self) -> bool {
         use crate::tables::BlockEntry;
-- 
2.43.0


From 7eff3e925ac1de589ad8b4dbc0e341eb7b4d6593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:39 +0000
Subject: [PATCH 20/28] fix: extraction stays in the output directory

A file name of an archive that is absolute or holds '..' was followed out of the output
directory with --preserve-path, and a name without a last part ended the program.
---
 storm-cli/src/commands/file.rs | 37 ++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index dee6577..58d26fe 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -6,7 +6,7 @@ use glob::Pattern;
 use mopaq::Archive;
 use regex::Regex;
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use crate::output::{
     print_file_info, print_file_list, print_file_list_verbose, print_file_list_with_hashes,
@@ -71,6 +71,27 @@ pub fn list(
     Ok(())
 }
 
+/// The path below the output directory that a file of an archive is extracted to
+///
+/// Names come from the archive, so one that would lead out of the output directory is refused.
+fn extraction_path(filename: &str, preserve_path: bool) -> Result<PathBuf> {
+    let path = Path::new(filename);
+    let Some(file_name) = path.file_name() else {
+        anyhow::bail!("Not a file name: {}", filename);
+    };
+    if !preserve_path {
+        return Ok(PathBuf::from(file_name));
+    }
+
+    let is_inside = path
+        .components()
+        .all(|c| matches!(c, Component::Normal(_) | Component::CurDir));
+    if !is_inside {
+        anyhow::bail!("Path leads out of the output directory: {}", filename);
+    }
+    Ok(path.to_path_buf())
+}
+
 /// Extract files from an archive
 pub fn extract(
     archive_path: &str,
@@ -90,10 +111,8 @@ pub fn extract(
 
         let output_path = if let Some(out) = output {
             PathBuf::from(out)
-        } else if preserve_path {
-            PathBuf::from(filename)
         } else {
-            PathBuf::from(Path::new(filename).file_name().unwrap())
+            extraction_path(filename, preserve_path)?
         };
 
         // Create parent directories if needed
@@ -121,10 +140,12 @@ pub fn extract(
                 }
             };
 
-            let output_path = if preserve_path {
-                PathBuf::from(output_dir).join(filename)
-            } else {
-                PathBuf::from(output_dir).join(Path::new(filename).file_name().unwrap())
+            let output_path = match extraction_path(filename, preserve_path) {
+                Ok(path) => PathBuf::from(output_dir).join(path),
+                Err(e) => {
+                    eprintln!("Failed to extract {}: {}", filename, e);
+                    continue;
+                }
             };
 
             // Create parent directories if needed
-- 
2.43.0


From 16ed3cc47f383a0aaa989557851591cf99fc28e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:39 +0000
Subject: [PATCH 21/28] verif hook: entry points of the commands, behind cfg
 mopaq_verif

---
 storm-cli/src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/storm-cli/src/main.rs b/storm-cli/src/main.rs
index 86c3685..2c5e296 100644
--- a/storm-cli/src/main.rs
+++ b/storm-cli/src/main.rs
@@ -13,6 +13,13 @@ mod commands;
 mod config;
 mod output;
 
+/// Entry points for the verification harnesses
+#[allow(unexpected_cfgs)]
+#[cfg(mopaq_verif)]
+pub mod verif {
+    pub use crate::commands::{archive, file};
+}
+
 use mopaq::{FormatVersion, ListfileOption};
 
 // Global context for commands to access
-- 
2.43.0


From 77e79d901cc7377aeed46b7d6e198d2652a4b711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:08 +0000
Subject: [PATCH 22/28] fix: the stored size of a file covers its sector
 checksums

The compressed size left the checksum table out although it lies between the offsets
and the sectors, so the last bytes of the file were outside the space of its block.
---
 mopaq/src/builder.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c557f26..d600657 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1126,9 +1126,8 @@ impl ArchiveBuilder {
             // Write sector data
             writer.write_all(&sector_data)?;
 
-            // Return size NOT including CRC table (offset table + sector data only)
-            let total_size = offset_table_size + sector_data.len();
-            Ok((total_size, flags))
+            // The stored size covers the offset table, the CRC table and the sector data
+            Ok((data_start + sector_data.len(), flags))
         }
     }
 
-- 
2.43.0


From 14e410dc7be89c28c52a36ae0a9a5d52784d7baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:09 +0000
Subject: [PATCH 23/28] fix: sector checksums are those of the compressed
 sectors

The reader checks a sector before it is decompressed, as the format says, but the builder
wrote checksums of the uncompressed data, so every such sector was reported as corrupt.
---
 mopaq/src/builder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index d600657..af26b8e 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1017,13 +1017,6 @@ impl ArchiveBuilder {
 
                 *offset = (data_start + sector_data.len()) as u32;
 
-                // Calculate CRC for uncompressed sector if enabled
-                if self.generate_crcs {
-                    // MPQ uses ADLER32 for sector checksums
-                    let crc = adler::adler32_slice(sector_bytes);
-                    sector_crcs.push(crc);
-                }
-
                 // Compress sector if needed
                 let compressed_sector = if *compression != 0 && !sector_bytes.is_empty() {
                     // The compress function now handles the compression byte prefix
@@ -1041,6 +1034,13 @@ impl ArchiveBuilder {
                     sector_bytes.to_vec()
                 };
 
+                // Calculate CRC for the sector as it is stored (before encryption) if enabled
+                if self.generate_crcs {
+                    // MPQ uses ADLER32 for sector checksums
+                    let crc = adler::adler32_slice(&compressed_sector);
+                    sector_crcs.push(crc);
+                }
+
                 sector_data.extend_from_slice(&compressed_sector);
             }
 
-- 
2.43.0


From 75a84b305103004935ac06d73604560c2e7ea28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:49 +0000
Subject: [PATCH 24/28] fix: compressed HET and BET tables carry their method
 byte once

The second one made them unreadable, so such archives fell back to the hash table.
---
 mopaq/src/builder.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index af26b8e..322d495 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1638,11 +1638,8 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // The compress function puts the compression type byte in front
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
@@ -1863,11 +1860,8 @@ impl ArchiveBuilder {
                 (100 * (processed_data.len() - compressed.len()) / processed_data.len())
             );
 
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            // The compress function puts the compression type byte in front
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
-- 
2.43.0


From f4b02df50d4d7f4f7b8b32acb99102ae52a4909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:10 +0000
Subject: [PATCH 25/28] fix: get_info counts the files in use, empty ones too

Empty files were left out and deleted ones counted.
---
 mopaq/src/archive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index ce8d276..6d02f53 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -641,11 +641,11 @@ impl Archive {
         let file_count = if let Some(bet) = &self.bet_table {
             bet.header.file_count as usize
         } else if let Some(block_table) = &self.block_table {
-            // Count non-empty entries in block table
+            // Count entries in use in block table
             block_table
                 .entries()
                 .iter()
-                .filter(|entry| entry.file_size != 0)
+                .filter(|entry| entry.exists())
                 .count()
         } else {
             0
@@ -669,7 +669,7 @@ impl Archive {
             block_table
                 .entries()
                 .iter()
-                .any(|entry| (entry.flags & BlockEntry::FLAG_ENCRYPTED) != 0)
+                .any(|entry| entry.exists() && (entry.flags & BlockEntry::FLAG_ENCRYPTED) != 0)
         } else {
             false
         };
-- 
2.43.0


From 85a7603756476c0f12c1d709a4136b29cfafc2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:16 +0000
Subject: [PATCH 26/28] fix: BZip2 before ADPCM is decompressed whatever its
 intermediate size

---
 mopaq/src/compression/algorithms/bzip2.rs | 19 +++++++++++++------
 mopaq/src/compression/decompress.rs       |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index 6cb1ab7..34182ed 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -8,12 +8,7 @@ use std::io::{Read, Write};
 
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
-    let mut decoder = BzDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
-
-    decoder
-        .read_to_end(&mut decompressed)
-        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+    let decompressed = decompress_any_size(data)?;
 
     if decompressed.len() != expected_size {
         return Err(Error::compression(format!(
@@ -26,6 +21,18 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     Ok(decompressed)
 }
 
+/// Decompress using BZip2 where the size of the result is not known, as before another method
+pub(crate) fn decompress_any_size(data: &[u8]) -> Result<Vec<u8>> {
+    let mut decoder = BzDecoder::new(data);
+    let mut decompressed = Vec::new();
+
+    decoder
+        .read_to_end(&mut decompressed)
+        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+
+    Ok(decompressed)
+}
+
 /// Compress using BZip2
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
     let mut encoder = BzEncoder::new(Vec::new(), Compression::default());
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0330108..5986f12 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -101,7 +101,7 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
         current_data = algorithms::zlib::decompress(&current_data, expected_size * 4)?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
-        current_data = algorithms::bzip2::decompress(&current_data, expected_size * 4)?;
+        current_data = algorithms::bzip2::decompress_any_size(&current_data)?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
         current_data = algorithms::sparse::decompress(&current_data, expected_size * 4)?;
-- 
2.43.0


From 93ec00d7332f9f6d5d32cfcba1d0d006881266b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:37 +0000
Subject: [PATCH 27/28] fix: PKWare compression never gives out a stream that
 lost data

---
 mopaq/src/compression/algorithms/pkware.rs | 12 ++++++++++--
 mopaq/src/compression/compress.rs          |  5 ++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/compression/algorithms/pkware.rs b/mopaq/src/compression/algorithms/pkware.rs
index 27ec900..7d277bd 100644
--- a/mopaq/src/compression/algorithms/pkware.rs
+++ b/mopaq/src/compression/algorithms/pkware.rs
@@ -12,8 +12,16 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
 
     // Use ASCII mode with 2KB dictionary as default for MPQ archives
     // This provides good compression ratio for most data types
-    implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
-        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))
+    let compressed = implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
+        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))?;
+
+    // pklib drops what lies behind its 4 KB work buffer: never give out a stream that lost data
+    match explode_bytes(&compressed) {
+        Ok(restored) if restored == data => Ok(compressed),
+        _ => Err(Error::compression(
+            "PKWare compression cannot represent this data",
+        )),
+    }
 }
 
 /// Decompress PKWare compressed data
diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 44188c3..59602c3 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -40,7 +40,10 @@ fn compress_internal(data: &[u8], method: u8) -> Result<Vec<u8>> {
         CompressionMethod::Sparse => algorithms::sparse::compress(data),
         CompressionMethod::AdpcmMono => algorithms::adpcm::compress_mono(data, 5), // Default compression level
         CompressionMethod::AdpcmStereo => algorithms::adpcm::compress_stereo(data, 5), // Default compression level
-        CompressionMethod::PKWare => algorithms::pkware::compress(data),
+        // Data that PKWare cannot represent is stored as it is
+        CompressionMethod::PKWare => {
+            Ok(algorithms::pkware::compress(data).unwrap_or_else(|_| data.to_vec()))
+        }
         CompressionMethod::Implode => algorithms::implode::compress(data),
         CompressionMethod::Huffman => algorithms::huffman::compress(data),
         CompressionMethod::Multiple(flags) => compress_multiple(data, flags),
-- 
2.43.0


From 5913a03b5ca3da79acfe87381cff6792945a9f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:47 +0000
Subject: [PATCH 28/28] fix: the HET table's data size counts the table as it
 is written

---
 mopaq/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 322d495..369f791 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -1511,7 +1511,7 @@ impl ArchiveBuilder {
 
         // Calculate sizes
         let het_header_size = std::mem::size_of::<HetHeader>();
-        let data_size = het_header_size as u32 + hash_table_size + file_indices_size as u32;
+        let data_size = het_header_size as u32 + actual_hash_table_size + file_indices_size as u32;
         let table_size = 12 + data_size; // Extended header (12 bytes) + data
 
         // Update header with final size
-- 
2.43.0

