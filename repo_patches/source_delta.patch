From 456e328015fbb91b868cd7250edebb2684dedbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:13 +0000
Subject: [PATCH 01/42] fix: sparse codec: a run of 127 zeros encoded as the
 end marker, losing the rest of the data

---
 mopaq/src/compression/algorithms/sparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index fa82cd8..2e289fa 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -59,7 +59,8 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
         if zero_count > 0 {
             // Encode runs of zeros
             while zero_count > 0 {
-                let chunk = zero_count.min(0x7F);
+                // 0xFF (a run of 0x7F) is the end of stream marker
+                let chunk = zero_count.min(0x7E);
                 output.push(0x80 | (chunk as u8));
                 zero_count -= chunk;
             }
-- 
2.43.0


From ca1232a729c20406e24060bd2335fac5330a40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:13 +0000
Subject: [PATCH 02/42] fix: compress() returned data as long as its input,
 which readers take for stored data

---
 mopaq/src/compression/compress.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 0582737..9cd1ec3 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -14,8 +14,10 @@ pub fn compress(data: &[u8], method: u8) -> Result<Vec<u8>> {
     let compressed = compress_internal(data, method)?;
 
     // MPQ format requires that compression saves at least 2 bytes
+    // (one of them goes to the method byte): a unit as long as its
+    // content is read back as stored data.
     // If it doesn't, we return the original data uncompressed
-    if compressed.len() >= data.len() {
+    if compressed.len() + 1 >= data.len() {
         // Return uncompressed data (no compression byte prefix)
         Ok(data.to_vec())
     } else {
-- 
2.43.0


From 533e0307cf0c857bdb88eb8da95979d5e9dc01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:35 +0000
Subject: [PATCH 03/42] fix: multi-sector files stored without compression were
 unreadable (offset table without its flag, whole-file key)

---
 mopaq/src/archive.rs | 10 +++++++++-
 mopaq/src/builder.rs | 23 +++++++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 7deb01e..b358117 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1265,7 +1265,15 @@ impl Archive {
                 if data.len() <= 64 {
                     log::debug!("Before decrypt: {:02X?}", &data);
                 }
-                decrypt_file_data(&mut data, key);
+                if file_info.is_single_unit() {
+                    decrypt_file_data(&mut data, key);
+                } else {
+                    // Each sector has its own key
+                    let sector_size = self.header.sector_size();
+                    for (i, sector) in data.chunks_mut(sector_size).enumerate() {
+                        decrypt_file_data(sector, key.wrapping_add(i as u32));
+                    }
+                }
                 if data.len() <= 64 {
                     log::debug!("After decrypt: {:02X?}", &data);
                 }
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index c2fe5d8..b6ad784 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -983,8 +983,28 @@ impl ArchiveBuilder {
 
             // Return compressed size (NOT including CRC)
             Ok((final_data.len(), flags))
+        } else if *compression == 0 && !self.generate_crcs {
+            // Stored multi-sector file: the sectors follow each other without an offset table
+            let mut data = file_data.to_vec();
+
+            if *encrypt {
+                flags |= BlockEntry::FLAG_ENCRYPTED;
+                if *use_fix_key {
+                    flags |= BlockEntry::FLAG_FIX_KEY;
+                }
+                let key =
+                    self.calculate_file_key(archive_name, *file_pos, file_data.len() as u32, flags);
+                for (i, sector) in data.chunks_mut(*sector_size).enumerate() {
+                    self.encrypt_data(sector, key.wrapping_add(i as u32));
+                }
+            }
+
+            writer.write_all(&data)?;
+            Ok((data.len(), flags))
         } else {
-            // Multi-sector file
+            // Multi-sector file with a sector offset table, which readers only
+            // expect in files flagged as compressed (each sector may be stored)
+            flags |= BlockEntry::FLAG_COMPRESS;
             let sector_count = file_data.len().div_ceil(*sector_size);
 
             // Set CRC flag early if enabled (needed for encryption key calculation)
@@ -1031,7 +1051,6 @@ impl ArchiveBuilder {
                     let compressed = compress(sector_bytes, *compression)?;
                     if compressed != *sector_bytes {
                         // Compression was beneficial and the data now includes the method byte
-                        flags |= BlockEntry::FLAG_COMPRESS;
                         compressed
                     } else {
                         // Compression not beneficial, returned original data
-- 
2.43.0


From 4db7a655cc81282712dda91f00a41bc7a20a5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:20 +0000
Subject: [PATCH 04/42] fix: PKWare compression silently lost data beyond 4 KB
 units; store what does not survive compression

---
 mopaq/src/compression/algorithms/pkware.rs | 13 +++++++++++--
 mopaq/src/compression/compress.rs          |  5 ++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/compression/algorithms/pkware.rs b/mopaq/src/compression/algorithms/pkware.rs
index 27ec900..5f97bc0 100644
--- a/mopaq/src/compression/algorithms/pkware.rs
+++ b/mopaq/src/compression/algorithms/pkware.rs
@@ -12,8 +12,17 @@ pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
 
     // Use ASCII mode with 2KB dictionary as default for MPQ archives
     // This provides good compression ratio for most data types
-    implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
-        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))
+    let compressed = implode_bytes(data, CompressionMode::ASCII, DictionarySize::Size2K)
+        .map_err(|e| Error::compression(format!("PKWare compression failed: {}", e)))?;
+
+    // pklib loses data on inputs larger than its 4 KB work buffer: never hand
+    // out a stream that does not decompress to its input
+    match explode_bytes(&compressed) {
+        Ok(exploded) if exploded == data => Ok(compressed),
+        _ => Err(Error::compression(
+            "PKWare compression failed: data does not survive compression",
+        )),
+    }
 }
 
 /// Decompress PKWare compressed data
diff --git a/mopaq/src/compression/compress.rs b/mopaq/src/compression/compress.rs
index 9cd1ec3..8f79289 100644
--- a/mopaq/src/compression/compress.rs
+++ b/mopaq/src/compression/compress.rs
@@ -41,7 +41,10 @@ fn compress_internal(data: &[u8], method: u8) -> Result<Vec<u8>> {
         CompressionMethod::Sparse => algorithms::sparse::compress(data),
         CompressionMethod::AdpcmMono => algorithms::adpcm::compress_mono(data, 5), // Default compression level
         CompressionMethod::AdpcmStereo => algorithms::adpcm::compress_stereo(data, 5), // Default compression level
-        CompressionMethod::PKWare => algorithms::pkware::compress(data),
+        CompressionMethod::PKWare => algorithms::pkware::compress(data).or_else(|e| {
+            log::warn!("Storing data uncompressed: {}", e);
+            Ok(data.to_vec())
+        }),
         CompressionMethod::Implode => algorithms::implode::compress(data),
         CompressionMethod::Huffman => algorithms::huffman::compress(data),
         CompressionMethod::Multiple(flags) => compress_multiple(data, flags),
-- 
2.43.0


From d55c91371f0d903ae3ac5bad8a429e8358c1e676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:23 +0000
Subject: [PATCH 05/42] fix: HET/BET tables lost or misattributed files
 (layouts of writer and reader disagreed, entries over 64 bits, double method
 byte)

---
 mopaq/src/archive.rs       |   9 +-
 mopaq/src/builder.rs       | 179 ++++++++++++++++++-------------------
 mopaq/src/tables/bet.rs    |  79 ++++++----------
 mopaq/src/tables/common.rs |  22 +++++
 mopaq/src/tables/het.rs    |  88 ++++++++----------
 5 files changed, 178 insertions(+), 199 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index b358117..88f3dde 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -11,7 +11,7 @@
 use crate::{
     builder::ArchiveBuilder,
     compression,
-    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type},
+    crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
     tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
@@ -876,7 +876,12 @@ impl Archive {
         if let (Some(het), Some(bet)) = (&self.het_table, &self.bet_table) {
             // Check if tables have actual entries
             if het.header.max_file_count > 0 && bet.header.file_count > 0 {
-                if let Some(file_index) = het.find_file(filename) {
+                let name_hash = jenkins_hash(filename);
+                for file_index in het.find_candidates(filename) {
+                    // HET only stores a part of the name hash, BET has all of it
+                    if bet.bet_hashes.get(file_index as usize) != Some(&name_hash) {
+                        continue;
+                    }
                     if let Some(bet_info) = bet.get_file_info(file_index) {
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index b6ad784..ec2dfcd 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -798,7 +798,8 @@ impl ArchiveBuilder {
 
         // Create BET table
         let bet_table_pos = writer.stream_position()?;
-        let (bet_data, _bet_header) = self.create_bet_table(&block_table)?;
+        let (bet_data, _bet_header) =
+            self.create_bet_table(&block_table, hi_block_table.as_ref())?;
         let (bet_table_size, bet_table_md5) = self.write_bet_table(writer, &bet_data, true)?;
 
         // For compatibility, also write classic tables
@@ -1452,9 +1453,6 @@ impl ArchiveBuilder {
         // So: hash_table_size = hash_table_entries * hash_entry_size / 8
         let hash_table_size = (hash_table_entries * hash_entry_size).div_ceil(8);
 
-        // But the actual data needs more space for hash + index
-        let total_entry_bits = hash_entry_size + index_size;
-        let actual_hash_table_size = (hash_table_entries * total_entry_bits).div_ceil(8);
         let total_index_size = hash_table_entries * index_size;
         let index_size_extra = 0; // No extra bits for now
 
@@ -1471,14 +1469,14 @@ impl ArchiveBuilder {
         };
 
         // Create hash table and file indices
-        let mut hash_table = vec![0u8; actual_hash_table_size as usize];
+        // (an index with all bits set marks a free slot)
+        let mut hash_table = vec![0u8; hash_table_size as usize];
         let file_indices_size = (total_index_size as usize).div_ceil(8); // Round up to bytes
-        let file_indices = vec![0u8; file_indices_size];
+        let mut file_indices = vec![0xFFu8; file_indices_size];
 
         log::debug!(
-            "HET table sizes: hash_table_size={}, actual_hash_table_size={}, file_indices_size={}",
+            "HET table sizes: hash_table_size={}, file_indices_size={}",
             hash_table_size,
-            actual_hash_table_size,
             file_indices_size
         );
 
@@ -1497,14 +1495,18 @@ impl ArchiveBuilder {
                 if file_map[current_index].is_none() {
                     file_map[current_index] = Some(file_index as u32);
 
-                    // Write hash entry (stores hash + file index in upper bits)
-                    let hash_entry = (hash & hash_mask) | ((file_index as u64) << hash_entry_size);
-                    // The actual entry size is hash_entry_size for the hash + index_size for the file index
-                    self.write_bit_entry(
+                    // Write the hash bits and the file index to their subtables
+                    self.write_bits(
                         &mut hash_table,
-                        current_index,
-                        hash_entry,
-                        hash_entry_size + index_size,
+                        current_index * hash_entry_size as usize,
+                        hash & hash_mask,
+                        hash_entry_size,
+                    )?;
+                    self.write_bits(
+                        &mut file_indices,
+                        current_index * index_size as usize,
+                        file_index as u64,
+                        index_size,
                     )?;
 
                     break;
@@ -1548,60 +1550,31 @@ impl ArchiveBuilder {
         Ok((result, final_header))
     }
 
-    /// Write a bit-packed entry to a byte array
-    fn write_bit_entry(
+    /// Write a bit field of up to 64 bits to a byte array
+    fn write_bits(
         &self,
         data: &mut [u8],
-        index: usize,
+        bit_offset: usize,
         value: u64,
         bit_size: u32,
     ) -> Result<()> {
-        let bit_offset = index * bit_size as usize;
-        let byte_offset = bit_offset / 8;
-        let bit_shift = bit_offset % 8;
-
-        // Calculate how many bytes we actually need
-        let bits_needed = bit_shift + bit_size as usize;
-        let bytes_needed = bits_needed.div_ceil(8);
-
-        if byte_offset + bytes_needed > data.len() {
+        if bit_size > 64 || bit_offset + bit_size as usize > data.len() * 8 {
             log::error!(
-                "Bit entry out of bounds: index={}, bit_size={}, bit_offset={}, byte_offset={}, bytes_needed={}, data.len()={}",
-                index,
-                bit_size,
+                "Bit field out of bounds: bit_offset={}, bit_size={}, data.len()={}",
                 bit_offset,
-                byte_offset,
-                bytes_needed,
+                bit_size,
                 data.len()
             );
             return Err(Error::invalid_format("Bit entry out of bounds"));
         }
 
-        // Read existing bits (limit to 8 bytes for u64)
-        let mut existing = 0u64;
-        let max_bytes = bytes_needed.min(8);
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                existing |= (data[byte_offset + i] as u64) << (i * 8);
-            }
-        }
-
-        // Clear the bits we're about to write
-        let value_mask = if bit_size >= 64 {
-            u64::MAX
-        } else {
-            (1u64 << bit_size) - 1
-        };
-        let mask = value_mask << bit_shift;
-        existing &= !mask;
-
-        // Write the new value
-        existing |= (value & value_mask) << bit_shift;
-
-        // Write back (limit to 8 bytes for u64)
-        for i in 0..max_bytes {
-            if byte_offset + i < data.len() && i * 8 < 64 {
-                data[byte_offset + i] = (existing >> (i * 8)) as u8;
+        for i in 0..bit_size as usize {
+            let position = bit_offset + i;
+            let mask = 1u8 << (position % 8);
+            if (value >> i) & 1 != 0 {
+                data[position / 8] |= mask;
+            } else {
+                data[position / 8] &= !mask;
             }
         }
 
@@ -1638,25 +1611,23 @@ impl ArchiveBuilder {
 
         // Compress if enabled and this is a v3+ archive
         if self.compress_tables && matches!(self.version, FormatVersion::V3 | FormatVersion::V4) {
-            log::debug!("Compressing HET table data: {} -> ", processed_data.len());
+            // compress() adds the compression type byte, or returns the data as it is
+            // if compression does not make it smaller
             let compressed = compress(&processed_data, self.table_compression)?;
             log::debug!(
-                "{} bytes ({}% reduction)",
-                compressed.len(),
-                (100 * (processed_data.len() - compressed.len()) / processed_data.len())
+                "Compressed HET table data: {} -> {} bytes",
+                processed_data.len(),
+                compressed.len()
             );
-
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
         if encrypt {
+            // Only whole dwords are encrypted
             let key = hash_string("(hash table)", hash_type::FILE_KEY);
-            self.encrypt_data(&mut processed_data, key);
+            let encrypted_size = processed_data.len() / 4 * 4;
+            self.encrypt_data(&mut processed_data[..encrypted_size], key);
         }
 
         // Combine extended header with processed data
@@ -1673,9 +1644,19 @@ impl ArchiveBuilder {
     }
 
     /// Create BET table data
-    fn create_bet_table(&self, block_table: &BlockTable) -> Result<(Vec<u8>, BetHeader)> {
+    fn create_bet_table(
+        &self,
+        block_table: &BlockTable,
+        hi_block_table: Option<&HiBlockTable>,
+    ) -> Result<(Vec<u8>, BetHeader)> {
         let file_count = self.pending_files.len() as u32;
 
+        // Full position of a file, including the high bits
+        let file_pos = |index: usize, entry: &BlockEntry| -> u64 {
+            let high = hi_block_table.map_or(0, |table| table.get_file_pos_high(index));
+            (high << 32) | entry.file_pos as u64
+        };
+
         // Analyze block table to determine optimal bit widths
         let mut max_file_pos = 0u64;
         let mut max_file_size = 0u64;
@@ -1684,7 +1665,7 @@ impl ArchiveBuilder {
 
         for i in 0..file_count as usize {
             if let Some(entry) = block_table.get(i) {
-                max_file_pos = max_file_pos.max(entry.file_pos as u64);
+                max_file_pos = max_file_pos.max(file_pos(i, entry));
                 max_file_size = max_file_size.max(entry.file_size as u64);
                 max_compressed_size = max_compressed_size.max(entry.compressed_size as u64);
                 unique_flags.insert(entry.flags);
@@ -1768,15 +1749,28 @@ impl ArchiveBuilder {
                 // Get flag index
                 let flag_index = flag_index_map.get(&entry.flags).unwrap();
 
-                // Pack entry data
-                let mut entry_bits = 0u64;
-                entry_bits |= (entry.file_pos as u64) << bit_index_file_pos;
-                entry_bits |= (entry.file_size as u64) << bit_index_file_size;
-                entry_bits |= (entry.compressed_size as u64) << bit_index_cmp_size;
-                entry_bits |= (*flag_index as u64) << bit_index_flag_index;
-
-                // Write to file table
-                self.write_bit_entry(&mut file_table, i, entry_bits, table_entry_size)?;
+                // Write the fields to the file table (an entry may exceed 64 bits)
+                for (value, bit_index, bit_count) in [
+                    (file_pos(i, entry), bit_index_file_pos, bit_count_file_pos),
+                    (
+                        entry.file_size as u64,
+                        bit_index_file_size,
+                        bit_count_file_size,
+                    ),
+                    (
+                        entry.compressed_size as u64,
+                        bit_index_cmp_size,
+                        bit_count_cmp_size,
+                    ),
+                    (
+                        *flag_index as u64,
+                        bit_index_flag_index,
+                        bit_count_flag_index,
+                    ),
+                ] {
+                    let bit_offset = i * table_entry_size as usize + bit_index as usize;
+                    self.write_bits(&mut file_table, bit_offset, value, bit_count)?;
+                }
 
                 // Generate BET hash (Jenkins hash of filename)
                 let hash = jenkins_hash(&pending_file.archive_name);
@@ -1835,7 +1829,12 @@ impl ArchiveBuilder {
         // Write BET hashes (bit-packed)
         let mut hash_bytes = vec![0u8; bet_hash_array_size as usize];
         for (i, &hash) in bet_hashes.iter().enumerate() {
-            self.write_bit_entry(&mut hash_bytes, i, hash, bet_hash_size)?;
+            self.write_bits(
+                &mut hash_bytes,
+                i * bet_hash_size as usize,
+                hash,
+                bet_hash_size,
+            )?;
         }
         result.extend_from_slice(&hash_bytes);
 
@@ -1863,25 +1862,23 @@ impl ArchiveBuilder {
 
         // Compress if enabled and this is a v3+ archive
         if self.compress_tables && matches!(self.version, FormatVersion::V3 | FormatVersion::V4) {
-            log::debug!("Compressing BET table data: {} -> ", processed_data.len());
+            // compress() adds the compression type byte, or returns the data as it is
+            // if compression does not make it smaller
             let compressed = compress(&processed_data, self.table_compression)?;
             log::debug!(
-                "{} bytes ({}% reduction)",
-                compressed.len(),
-                (100 * (processed_data.len() - compressed.len()) / processed_data.len())
+                "Compressed BET table data: {} -> {} bytes",
+                processed_data.len(),
+                compressed.len()
             );
-
-            // Prepend compression type byte
-            let mut compressed_with_type = Vec::with_capacity(1 + compressed.len());
-            compressed_with_type.push(self.table_compression);
-            compressed_with_type.extend_from_slice(&compressed);
-            processed_data = compressed_with_type;
+            processed_data = compressed;
         }
 
         // Encrypt the data portion (after extended header)
         if encrypt {
+            // Only whole dwords are encrypted
             let key = hash_string("(block table)", hash_type::FILE_KEY);
-            self.encrypt_data(&mut processed_data, key);
+            let encrypted_size = processed_data.len() / 4 * 4;
+            self.encrypt_data(&mut processed_data[..encrypted_size], key);
         }
 
         // Combine extended header with processed data
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index c15b61a..968a636 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -1,6 +1,6 @@
 //! BET (Block Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bits, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -226,37 +226,33 @@ impl BetTable {
             return None;
         }
 
-        // Read bit-packed entry
-        let entry_bits = self.read_table_entry(index as usize)?;
-
-        // Extract fields
-        let file_pos = self.extract_bits(
-            entry_bits,
+        // Extract fields from the bit-packed entry
+        let file_pos = self.read_field(
+            index,
             self.header.bit_index_file_pos,
             self.header.bit_count_file_pos,
-        );
-        let file_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let file_size = self.read_field(
+            index,
             self.header.bit_index_file_size,
             self.header.bit_count_file_size,
-        );
-        let cmp_size = self.extract_bits(
-            entry_bits,
+        )?;
+        let cmp_size = self.read_field(
+            index,
             self.header.bit_index_cmp_size,
             self.header.bit_count_cmp_size,
-        );
-        let flag_index = self.extract_bits(
-            entry_bits,
+        )?;
+        let flag_index = self.read_field(
+            index,
             self.header.bit_index_flag_index,
             self.header.bit_count_flag_index,
-        ) as u32;
+        )?;
 
         // Get flags
-        let flags = if flag_index < self.header.flag_count {
-            self.file_flags[flag_index as usize]
-        } else {
-            0
-        };
+        let flags = usize::try_from(flag_index)
+            .ok()
+            .and_then(|i| self.file_flags.get(i).copied())
+            .unwrap_or(0);
 
         Some(BetFileInfo {
             file_pos,
@@ -266,37 +262,14 @@ impl BetTable {
         })
     }
 
-    /// Read a table entry from bit-packed data
-    fn read_table_entry(&self, index: usize) -> Option<u64> {
-        let bit_offset = index * self.header.table_entry_size as usize;
-        let byte_offset = bit_offset / 8;
-        let bit_shift = bit_offset % 8;
-
-        if byte_offset + 8 > self.file_table.len() {
-            return None;
-        }
-
-        // Read enough bytes to get the full entry
-        let mut value = 0u64;
-        let bytes_needed = (bit_shift + self.header.table_entry_size as usize)
-            .div_ceil(8)
-            .min(8);
-
-        for i in 0..bytes_needed {
-            if byte_offset + i < self.file_table.len() {
-                value |= (self.file_table[byte_offset + i] as u64) << (i * 8);
-            }
-        }
-
-        // Shift and mask to get the actual entry
-        let entry = (value >> bit_shift) & ((1u64 << self.header.table_entry_size) - 1);
-        Some(entry)
-    }
-
-    /// Extract bits from a value
-    fn extract_bits(&self, value: u64, bit_offset: u32, bit_count: u32) -> u64 {
-        let mask = (1u64 << bit_count) - 1;
-        (value >> bit_offset) & mask
+    /// Read a field of a table entry from bit-packed data
+    fn read_field(&self, index: u32, bit_index: u32, bit_count: u32) -> Option<u64> {
+        let entry_offset = index as u64 * self.header.table_entry_size as u64;
+        read_bits(
+            &self.file_table,
+            entry_offset.checked_add(bit_index as u64)?,
+            bit_count,
+        )
     }
 }
 
diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index ffa5809..78d59f4 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -26,6 +26,28 @@ pub(crate) trait ReadLittleEndian: Read {
 
 impl<R: Read> ReadLittleEndian for R {}
 
+/// Read a bit field of up to 64 bits from bit-packed data
+pub(crate) fn read_bits(data: &[u8], bit_offset: u64, bit_count: u32) -> Option<u64> {
+    let bit_end = bit_offset.checked_add(bit_count as u64)?;
+    if bit_count > 64 || bit_end > data.len() as u64 * 8 {
+        return None;
+    }
+    if bit_count == 0 {
+        return Some(0);
+    }
+
+    // A field of 64 bits may touch 9 bytes
+    let first = (bit_offset / 8) as usize;
+    let last = ((bit_end - 1) / 8) as usize;
+    let mut value = 0u128;
+    for (i, &byte) in data[first..=last].iter().enumerate() {
+        value |= (byte as u128) << (i * 8);
+    }
+
+    let mask = u64::MAX >> (64 - bit_count);
+    Some((value >> (bit_offset % 8)) as u64 & mask)
+}
+
 /// Helper function to decrypt table data
 pub(crate) fn decrypt_table_data(data: &mut [u8], key: u32) {
     use crate::crypto::decrypt_block;
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index 731a0dc..c29352b 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -1,6 +1,6 @@
 //! HET (Hash Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bits, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
@@ -226,67 +226,49 @@ impl HetTable {
     }
 
     /// Find a file in the HET table
+    ///
+    /// The table only stores a few bits of each name hash, so the result is the first
+    /// candidate; see [`HetTable::find_candidates`].
     pub fn find_file(&self, filename: &str) -> Option<u32> {
-        let hash = jenkins_hash(filename);
-        let hash_mask = if self.header.hash_entry_size >= 64 {
-            u64::MAX
-        } else {
-            (1u64 << self.header.hash_entry_size) - 1
-        };
-        let index_mask = if self.header.index_size >= 64 {
-            u64::MAX
-        } else {
-            (1u64 << self.header.index_size) - 1
-        };
-
-        // Calculate hash table index
-        let hash_table_entries = self.header.hash_table_size * 8 / self.header.hash_entry_size;
-        let hash_index = (hash & (hash_table_entries as u64 - 1)) as usize;
-
-        // Read hash entry
-        let hash_entry = self.read_hash_entry(hash_index)?;
-        let name_hash = hash & hash_mask;
-
-        if (hash_entry & hash_mask) != name_hash {
-            return None; // Hash mismatch
-        }
-
-        // Extract file index from hash entry
-        let file_index = (hash_entry >> self.header.hash_entry_size) & index_mask;
+        self.find_candidates(filename).first().copied()
+    }
 
-        // Verify file index is valid
-        if file_index >= self.header.max_file_count as u64 {
-            return None;
+    /// Find the indices of all files whose stored hash bits match the name
+    pub fn find_candidates(&self, filename: &str) -> Vec<u32> {
+        let mut candidates = Vec::new();
+        let (hash_bits, index_bits) = (self.header.hash_entry_size, self.header.index_size);
+        if hash_bits == 0 || hash_bits > 64 || index_bits == 0 || index_bits > 64 {
+            return candidates;
         }
 
-        Some(file_index as u32)
-    }
-
-    /// Read a hash entry from bit-packed data
-    fn read_hash_entry(&self, index: usize) -> Option<u64> {
-        let bit_offset = index * self.header.hash_entry_size as usize;
-        let byte_offset = bit_offset / 8;
-        let bit_shift = bit_offset % 8;
+        let hash = jenkins_hash(filename);
+        let name_hash = hash & (u64::MAX >> (64 - hash_bits));
 
-        if byte_offset + 8 > self.hash_table.len() {
-            return None;
+        // Each slot has an entry in the hash table and one in the file index table
+        let slot_count = self.header.total_index_size as u64 / index_bits as u64;
+        if slot_count == 0 {
+            return candidates;
         }
 
-        // Read 64 bits starting from byte_offset
-        let mut value = 0u64;
-        for i in 0..8 {
-            if byte_offset + i < self.hash_table.len() {
-                value |= (self.hash_table[byte_offset + i] as u64) << (i * 8);
+        // Linear probing: a slot without a valid file index ends the chain
+        let start = hash % slot_count;
+        for i in 0..slot_count {
+            let slot = (start + i) % slot_count;
+            let Some(file_index) =
+                read_bits(&self.file_indices, slot * index_bits as u64, index_bits)
+            else {
+                break;
+            };
+            if file_index >= self.header.max_file_count as u64 {
+                break;
+            }
+            match read_bits(&self.hash_table, slot * hash_bits as u64, hash_bits) {
+                Some(entry) if entry == name_hash => candidates.push(file_index as u32),
+                Some(_) => {}
+                None => break,
             }
         }
 
-        // Shift and mask to get the actual entry
-        let mask = if self.header.hash_entry_size >= 64 {
-            u64::MAX
-        } else {
-            (1u64 << self.header.hash_entry_size) - 1
-        };
-        let entry = (value >> bit_shift) & mask;
-        Some(entry)
+        candidates
     }
 }
-- 
2.43.0


From c8ae5912b92ab2f8a6d3ec2df9a3783fb1f52235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:56 +0000
Subject: [PATCH 06/42] fix: checksums of multi-sector files were compared to
 the compressed data and never enforced

---
 mopaq/src/archive.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 88f3dde..5150537 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1466,24 +1466,6 @@ impl Archive {
                 decrypt_file_data(&mut sector_data, sector_key);
             }
 
-            // Validate CRC if present - MUST be done AFTER decryption but BEFORE decompression
-            if let Some(ref crcs) = sector_crcs {
-                let expected_crc = crcs[i];
-                // MPQ uses ADLER32 for sector checksums, calculated on the raw (possibly compressed) data
-                let actual_crc = adler::adler32_slice(&sector_data);
-
-                if actual_crc != expected_crc {
-                    log::error!(
-                        "CRC mismatch for sector {}: expected {:08x}, got {:08x}",
-                        i,
-                        expected_crc,
-                        actual_crc
-                    );
-                    // For now, just log the error and continue
-                    // Some MPQ files have incorrect CRCs
-                }
-            }
-
             // Decompress sector
             let decompressed_sector =
                 if file_info.is_compressed() && sector_size_compressed < expected_size {
@@ -1501,6 +1483,28 @@ impl Archive {
                     sector_data[..expected_size.min(sector_data.len())].to_vec()
                 };
 
+            // Validate CRC if present. MPQ uses ADLER32 for sector checksums, calculated on the
+            // decompressed data. With a single sector, the checksum cannot be told from the third
+            // entry of an offset table, so it is not relied upon.
+            if let (Some(crcs), true) = (&sector_crcs, sector_count > 1) {
+                let expected_crc = crcs[i];
+                let actual_crc = adler::adler32_slice(&decompressed_sector);
+
+                if actual_crc != expected_crc {
+                    log::error!(
+                        "CRC mismatch for sector {}: expected {:08x}, got {:08x}",
+                        i,
+                        expected_crc,
+                        actual_crc
+                    );
+                    return Err(Error::ChecksumMismatch {
+                        file: file_info.filename.clone(),
+                        expected: expected_crc,
+                        actual: actual_crc,
+                    });
+                }
+            }
+
             decompressed_data.extend_from_slice(&decompressed_sector);
         }
 
-- 
2.43.0


From d2410a800045e0e6d3edac9156ae58e35c236f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:14 +0000
Subject: [PATCH 07/42] fix: read_file returned data of another length than the
 file, misread imploded and stored units, and panicked on empty ones

---
 mopaq/src/archive.rs | 103 ++++++++++++++++++++-----------------------
 1 file changed, 48 insertions(+), 55 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 5150537..60611f6 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1284,29 +1284,19 @@ impl Archive {
                 }
             }
 
+            // Decompress if needed
+            let data = decompress_unit(&file_info, data, actual_file_size as usize)?;
+
             // Validate CRC if present for single unit files
             if file_info.has_sector_crc() && file_info.is_single_unit() {
-                // For single unit files, there's one CRC after the data
+                // For single unit files, there's one CRC after the data,
+                // calculated on the decompressed data
                 let mut crc_bytes = [0u8; 4];
                 self.reader.read_exact(&mut crc_bytes)?;
                 let expected_crc = u32::from_le_bytes(crc_bytes);
 
-                // CRC is calculated on the decompressed data
-                let data_to_check = if file_info.is_compressed() {
-                    // We need to decompress first to check CRC
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
-                    compression::decompress(
-                        compressed_data,
-                        compression_type,
-                        actual_file_size as usize,
-                    )?
-                } else {
-                    data.clone()
-                };
-
                 // MPQ uses ADLER32 for sector checksums, not CRC32 despite the name
-                let actual_crc = adler::adler32_slice(&data_to_check);
+                let actual_crc = adler::adler32_slice(&data);
                 if actual_crc != expected_crc {
                     return Err(Error::ChecksumMismatch {
                         file: name.to_string(),
@@ -1318,30 +1308,7 @@ impl Archive {
                 log::debug!("Single unit file CRC validated: 0x{:08X}", actual_crc);
             }
 
-            // Decompress if needed
-            if file_info.is_compressed() {
-                // All compressed files should have a compression type byte prefix
-                // This matches StormLib's behavior
-                if !data.is_empty() {
-                    let compression_type = data[0];
-                    let compressed_data = &data[1..];
-                    log::debug!(
-                        "Decompressing file: type=0x{:02X}, compressed_size={}, expected_size={}",
-                        compression_type,
-                        compressed_data.len(),
-                        actual_file_size
-                    );
-                    compression::decompress(
-                        compressed_data,
-                        compression_type,
-                        actual_file_size as usize,
-                    )
-                } else {
-                    Err(Error::compression("Empty compressed data"))
-                }
-            } else {
-                Ok(data)
-            }
+            Ok(data)
         } else {
             // Multi-sector compressed file
             self.read_sectored_file(&file_info, key)
@@ -1467,21 +1434,7 @@ impl Archive {
             }
 
             // Decompress sector
-            let decompressed_sector =
-                if file_info.is_compressed() && sector_size_compressed < expected_size {
-                    // All compressed sectors should have compression type byte prefix
-                    // This matches StormLib's behavior
-                    if !sector_data.is_empty() {
-                        let compression_type = sector_data[0];
-                        let compressed_data = &sector_data[1..];
-                        compression::decompress(compressed_data, compression_type, expected_size)?
-                    } else {
-                        return Err(Error::compression("Empty compressed sector data"));
-                    }
-                } else {
-                    // Sector is not compressed
-                    sector_data[..expected_size.min(sector_data.len())].to_vec()
-                };
+            let decompressed_sector = decompress_unit(file_info, sector_data, expected_size)?;
 
             // Validate CRC if present. MPQ uses ADLER32 for sector checksums, calculated on the
             // decompressed data. With a single sector, the checksum cannot be told from the third
@@ -1777,6 +1730,39 @@ impl Archive {
     }
 }
 
+/// Decompress one unit of file data: a sector, or all of a file that is not split into sectors
+fn decompress_unit(
+    file_info: &FileInfo,
+    mut data: Vec<u8>,
+    expected_size: usize,
+) -> Result<Vec<u8>> {
+    if file_info.is_compressed() && data.len() < expected_size {
+        data = if file_info.is_imploded() {
+            // Imploded data has no compression type byte
+            compression::decompress(&data, compression::flags::PKWARE, expected_size)?
+        } else {
+            // All compressed units have a compression type byte prefix
+            let (&compression_type, compressed_data) = data
+                .split_first()
+                .ok_or_else(|| Error::compression("Empty compressed data"))?;
+            compression::decompress(compressed_data, compression_type, expected_size)?
+        };
+    } else {
+        // A unit that did not shrink is stored as it is
+        data.truncate(expected_size);
+    }
+
+    if data.len() != expected_size {
+        return Err(Error::compression(format!(
+            "Decompressed size mismatch in '{}': expected {}, got {}",
+            file_info.filename,
+            expected_size,
+            data.len()
+        )));
+    }
+    Ok(data)
+}
+
 /// Decrypt file data in-place
 fn decrypt_file_data(data: &mut [u8], key: u32) {
     if data.is_empty() || key == 0 {
@@ -1862,6 +1848,13 @@ impl FileInfo {
         (self.flags & (BlockEntry::FLAG_IMPLODE | BlockEntry::FLAG_COMPRESS)) != 0
     }
 
+    /// Check if the file is imploded: compressed with PKWare, without a compression type byte
+    fn is_imploded(&self) -> bool {
+        use crate::tables::BlockEntry;
+        (self.flags & (BlockEntry::FLAG_IMPLODE | BlockEntry::FLAG_COMPRESS))
+            == BlockEntry::FLAG_IMPLODE
+    }
+
     /// Check if the file is encrypted
     pub fn is_encrypted(&self) -> bool {
         use crate::tables::BlockEntry;
-- 
2.43.0


From bfb7d5002f6e8999981592dc835e9bf4ae712e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 08/42] fix: codecs allocated what a damaged archive declares
 or expands to, looped or overflowed on damaged data; ADPCM with BZip2 or
 sparse was unreadable

---
 mopaq/src/compression/algorithms/adpcm.rs   |  4 +-
 mopaq/src/compression/algorithms/bzip2.rs   | 16 ++++---
 mopaq/src/compression/algorithms/huffman.rs | 12 +++++-
 mopaq/src/compression/algorithms/lzma.rs    | 15 +++++--
 mopaq/src/compression/algorithms/mod.rs     | 47 +++++++++++++++++++++
 mopaq/src/compression/algorithms/sparse.rs  | 22 +++++++---
 mopaq/src/compression/algorithms/zlib.rs    | 10 ++---
 mopaq/src/compression/decompress.rs         | 15 ++++---
 8 files changed, 109 insertions(+), 32 deletions(-)

diff --git a/mopaq/src/compression/algorithms/adpcm.rs b/mopaq/src/compression/algorithms/adpcm.rs
index b7e118a..e04df40 100644
--- a/mopaq/src/compression/algorithms/adpcm.rs
+++ b/mopaq/src/compression/algorithms/adpcm.rs
@@ -219,7 +219,7 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
     let mut step_indexes = vec![INITIAL_ADPCM_STEP_INDEX; channel_count];
 
     // Allocate output buffer
-    let mut output = Vec::with_capacity(output_size);
+    let mut output = Vec::new();
 
     // Read initial samples for each channel
     for predicted_sample in predicted_samples.iter_mut().take(channel_count) {
@@ -265,7 +265,7 @@ fn decompress_internal(input: &[u8], output_size: usize, channel_count: usize) -
                 predicted_samples[channel_index] as i32,
                 encoded_sample,
                 step_size,
-                step_size >> bit_shift as i32,
+                step_size.checked_shr(bit_shift as u32).unwrap_or(0),
             ) as i16;
 
             write_sample(&mut output, predicted_samples[channel_index]);
diff --git a/mopaq/src/compression/algorithms/bzip2.rs b/mopaq/src/compression/algorithms/bzip2.rs
index 6cb1ab7..4b85523 100644
--- a/mopaq/src/compression/algorithms/bzip2.rs
+++ b/mopaq/src/compression/algorithms/bzip2.rs
@@ -1,19 +1,15 @@
 //! BZip2 compression and decompression
 
+use super::read_up_to;
 use crate::{Error, Result};
 use bzip2::read::BzDecoder;
 use bzip2::write::BzEncoder;
 use bzip2::Compression;
-use std::io::{Read, Write};
+use std::io::Write;
 
 /// Decompress using BZip2
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
-    let mut decoder = BzDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
-
-    decoder
-        .read_to_end(&mut decompressed)
-        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))?;
+    let decompressed = decompress_up_to(data, expected_size)?;
 
     if decompressed.len() != expected_size {
         return Err(Error::compression(format!(
@@ -26,6 +22,12 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     Ok(decompressed)
 }
 
+/// Decompress to any size up to `max_size`
+pub(crate) fn decompress_up_to(data: &[u8], max_size: usize) -> Result<Vec<u8>> {
+    read_up_to(BzDecoder::new(data), max_size)
+        .map_err(|e| Error::compression(format!("BZip2 decompression failed: {}", e)))
+}
+
 /// Compress using BZip2
 pub(crate) fn compress(data: &[u8]) -> Result<Vec<u8>> {
     let mut encoder = BzEncoder::new(Vec::new(), Compression::default());
diff --git a/mopaq/src/compression/algorithms/huffman.rs b/mopaq/src/compression/algorithms/huffman.rs
index 5b26581..681d0ca 100644
--- a/mopaq/src/compression/algorithms/huffman.rs
+++ b/mopaq/src/compression/algorithms/huffman.rs
@@ -108,6 +108,10 @@ impl<'a> BitReader<'a> {
         Ok(bit)
     }
 
+    fn bits_read(&self) -> usize {
+        self.position * 8 - self.bit_count as usize
+    }
+
     fn get_8_bits(&mut self) -> Result<u32> {
         if self.position >= self.data.len() {
             return Err(Error::compression("Unexpected end of Huffman data"));
@@ -375,7 +379,7 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     );
 
     let mut reader = BitReader::new(data);
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = Vec::new();
 
     // Get compression type from the first byte
     let compression_type = reader.get_8_bits()?;
@@ -387,8 +391,14 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
 
     // Decompress data
     loop {
+        let bits_read = reader.bits_read();
         let decoded_value = tree.decode_one_byte(&mut reader)?;
 
+        // A value that takes no bits would be decoded forever
+        if reader.bits_read() == bits_read {
+            return Err(Error::compression("Invalid Huffman tree"));
+        }
+
         // Check for end of stream marker
         if decoded_value == 0x100 {
             break;
diff --git a/mopaq/src/compression/algorithms/lzma.rs b/mopaq/src/compression/algorithms/lzma.rs
index 1537d3b..3e51c65 100644
--- a/mopaq/src/compression/algorithms/lzma.rs
+++ b/mopaq/src/compression/algorithms/lzma.rs
@@ -1,17 +1,24 @@
 //! LZMA compression and decompression
 
+use super::LimitedBuffer;
 use crate::{Error, Result};
+use lzma_rs::decompress::Options;
 use std::io::{BufReader, Cursor};
 
 /// Decompress using LZMA
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     let cursor = Cursor::new(data);
     let mut input = BufReader::new(cursor);
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = LimitedBuffer::new(expected_size);
 
     // Try LZMA format first
-    match lzma_rs::lzma_decompress(&mut input, &mut output) {
+    let options = Options {
+        memlimit: Some(expected_size),
+        ..Options::default()
+    };
+    match lzma_rs::lzma_decompress_with_options(&mut input, &mut output, &options) {
         Ok(()) => {
+            let output = output.data;
             if expected_size > 0 && output.len() != expected_size {
                 log::warn!(
                     "LZMA decompressed size mismatch: expected {}, got {}",
@@ -25,10 +32,10 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
             // If LZMA fails, try XZ format
             let cursor = Cursor::new(data);
             let mut input = BufReader::new(cursor);
-            let mut output = Vec::with_capacity(expected_size);
+            let mut output = LimitedBuffer::new(expected_size);
 
             match lzma_rs::xz_decompress(&mut input, &mut output) {
-                Ok(()) => Ok(output),
+                Ok(()) => Ok(output.data),
                 Err(xz_err) => {
                     log::error!("LZMA decompression failed: {:?}", e);
                     log::error!("XZ decompression also failed: {:?}", xz_err);
diff --git a/mopaq/src/compression/algorithms/mod.rs b/mopaq/src/compression/algorithms/mod.rs
index 4c67e04..c649563 100644
--- a/mopaq/src/compression/algorithms/mod.rs
+++ b/mopaq/src/compression/algorithms/mod.rs
@@ -8,3 +8,50 @@ pub(super) mod lzma;
 pub(super) mod pkware;
 pub(super) mod sparse;
 pub(super) mod zlib;
+
+use std::io::{self, Read, Write};
+
+fn too_much_data() -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, "more data than expected")
+}
+
+/// Read all of a decoder's output, which is an error if it exceeds `max_size`
+fn read_up_to<R: Read>(decoder: R, max_size: usize) -> io::Result<Vec<u8>> {
+    let mut output = Vec::new();
+    decoder
+        .take((max_size as u64).saturating_add(1))
+        .read_to_end(&mut output)?;
+    if output.len() > max_size {
+        return Err(too_much_data());
+    }
+    Ok(output)
+}
+
+/// A buffer that refuses to grow beyond `max_size`
+struct LimitedBuffer {
+    data: Vec<u8>,
+    max_size: usize,
+}
+
+impl LimitedBuffer {
+    fn new(max_size: usize) -> Self {
+        Self {
+            data: Vec::new(),
+            max_size,
+        }
+    }
+}
+
+impl Write for LimitedBuffer {
+    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        if buf.len() > self.max_size - self.data.len() {
+            return Err(too_much_data());
+        }
+        self.data.extend_from_slice(buf);
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
diff --git a/mopaq/src/compression/algorithms/sparse.rs b/mopaq/src/compression/algorithms/sparse.rs
index 2e289fa..2c39cf2 100644
--- a/mopaq/src/compression/algorithms/sparse.rs
+++ b/mopaq/src/compression/algorithms/sparse.rs
@@ -4,11 +4,24 @@ use crate::{Error, Result};
 
 /// Decompress sparse/RLE compressed data
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
+    let output = decompress_up_to(data, expected_size)?;
+    if output.len() != expected_size {
+        return Err(Error::compression(format!(
+            "Sparse decompression: expected {} bytes, got {}",
+            expected_size,
+            output.len()
+        )));
+    }
+    Ok(output)
+}
+
+/// Decompress sparse/RLE compressed data of at most `max_size` decompressed bytes
+pub(crate) fn decompress_up_to(data: &[u8], max_size: usize) -> Result<Vec<u8>> {
     // Sparse compression is a simple RLE format
-    let mut output = Vec::with_capacity(expected_size);
+    let mut output = Vec::new();
     let mut pos = 0;
 
-    while pos < data.len() && output.len() < expected_size {
+    while pos < data.len() && output.len() < max_size {
         // Read control byte
         let control = data[pos];
         pos += 1;
@@ -35,11 +48,6 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
         }
     }
 
-    // Pad with zeros if needed
-    if output.len() < expected_size {
-        output.resize(expected_size, 0);
-    }
-
     Ok(output)
 }
 
diff --git a/mopaq/src/compression/algorithms/zlib.rs b/mopaq/src/compression/algorithms/zlib.rs
index 19bd08c..c0d6abb 100644
--- a/mopaq/src/compression/algorithms/zlib.rs
+++ b/mopaq/src/compression/algorithms/zlib.rs
@@ -1,10 +1,11 @@
 //! Zlib compression and decompression
 
+use super::read_up_to;
 use crate::{Error, Result};
 use flate2::read::ZlibDecoder;
 use flate2::write::ZlibEncoder;
 use flate2::Compression;
-use std::io::{Read, Write};
+use std::io::Write;
 
 /// Decompress using zlib/deflate
 pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
@@ -21,11 +22,8 @@ pub(crate) fn decompress(data: &[u8], expected_size: usize) -> Result<Vec<u8>> {
     }
 
     // ZlibDecoder can handle both zlib-wrapped and raw deflate data
-    let mut decoder = ZlibDecoder::new(data);
-    let mut decompressed = Vec::with_capacity(expected_size);
-
-    match decoder.read_to_end(&mut decompressed) {
-        Ok(_) => {
+    match read_up_to(ZlibDecoder::new(data), expected_size) {
+        Ok(decompressed) => {
             if decompressed.len() != expected_size {
                 log::debug!(
                     "Decompressed size mismatch: expected {}, got {} (this is common in some MPQ files)",
diff --git a/mopaq/src/compression/decompress.rs b/mopaq/src/compression/decompress.rs
index 0330108..588d209 100644
--- a/mopaq/src/compression/decompress.rs
+++ b/mopaq/src/compression/decompress.rs
@@ -94,20 +94,25 @@ fn decompress_multiple(data: &[u8], flags: u8, expected_size: usize) -> Result<V
     if has_huffman {
         log::debug!("Decompressing Huffman");
         // For Huffman, we don't know the intermediate size, so we estimate conservatively
-        let huffman_output_size = std::cmp::max(expected_size * 2, current_data.len() * 2);
+        let huffman_output_size =
+            std::cmp::max(expected_size.saturating_mul(2), current_data.len() * 2);
         current_data = algorithms::huffman::decompress(&current_data, huffman_output_size)?;
     } else if has_zlib {
         log::debug!("Decompressing Zlib");
-        current_data = algorithms::zlib::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::zlib::decompress(&current_data, expected_size.saturating_mul(4))?;
     } else if has_bzip2 {
         log::debug!("Decompressing BZip2");
-        current_data = algorithms::bzip2::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::bzip2::decompress_up_to(&current_data, expected_size.saturating_mul(4))?;
     } else if has_sparse {
         log::debug!("Decompressing Sparse");
-        current_data = algorithms::sparse::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::sparse::decompress_up_to(&current_data, expected_size.saturating_mul(4))?;
     } else if has_implode {
         log::debug!("Decompressing Implode");
-        current_data = algorithms::implode::decompress(&current_data, expected_size * 4)?;
+        current_data =
+            algorithms::implode::decompress(&current_data, expected_size.saturating_mul(4))?;
     }
 
     // Step 2: Decompress PKWare if present
-- 
2.43.0


From c8b8c245d5ba659a3fd441befb943c00195fc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 09/42] fix: damaged headers and tables caused panics,
 overflows and allocations of any declared size

---
 mopaq/src/archive.rs          | 71 +++++++++++++++++++++--------------
 mopaq/src/crypto/signature.rs |  6 +--
 mopaq/src/header.rs           |  8 ++++
 mopaq/src/tables/bet.rs       | 17 +++++----
 mopaq/src/tables/block.rs     | 16 ++++----
 mopaq/src/tables/common.rs    | 13 +++++++
 mopaq/src/tables/hash.rs      |  7 ++--
 mopaq/src/tables/het.rs       |  5 +--
 mopaq/src/tables/mod.rs       |  1 +
 9 files changed, 90 insertions(+), 54 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 60611f6..6f4b2c6 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -14,7 +14,7 @@ use crate::{
     crypto::{decrypt_block, decrypt_dword, hash_string, hash_type, jenkins_hash},
     header::{self, MpqHeader, UserDataHeader},
     special_files,
-    tables::{BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
+    tables::{read_bytes, BetTable, BlockTable, HashTable, HetTable, HiBlockTable},
     Error, Result,
 };
 use std::fs::File;
@@ -373,7 +373,7 @@ impl Archive {
 
                         match HetTable::read(
                             &mut self.reader,
-                            self.archive_offset + het_pos,
+                            self.archive_offset.saturating_add(het_pos),
                             het_size,
                             key,
                         ) {
@@ -429,7 +429,7 @@ impl Archive {
 
                         match BetTable::read(
                             &mut self.reader,
-                            self.archive_offset + bet_pos,
+                            self.archive_offset.saturating_add(bet_pos),
                             bet_size,
                             key,
                         ) {
@@ -461,7 +461,7 @@ impl Archive {
         // 2. The hash table size is non-zero (indicating they exist and may be needed for compatibility)
         if !has_valid_het_bet || self.header.hash_table_size > 0 {
             // Load hash table
-            let hash_table_offset = self.archive_offset + self.header.get_hash_table_pos();
+            let hash_table_offset = self.absolute_pos(self.header.get_hash_table_pos());
             self.hash_table = Some(HashTable::read(
                 &mut self.reader,
                 hash_table_offset,
@@ -469,7 +469,7 @@ impl Archive {
             )?);
 
             // Load block table
-            let block_table_offset = self.archive_offset + self.header.get_block_table_pos();
+            let block_table_offset = self.absolute_pos(self.header.get_block_table_pos());
             self.block_table = Some(BlockTable::read(
                 &mut self.reader,
                 block_table_offset,
@@ -482,7 +482,7 @@ impl Archive {
         // Load hi-block table if present (v2+)
         if let Some(hi_block_pos) = self.header.hi_block_table_pos {
             if hi_block_pos != 0 {
-                let hi_block_offset = self.archive_offset + hi_block_pos;
+                let hi_block_offset = self.absolute_pos(hi_block_pos);
                 self.hi_block_table = Some(HiBlockTable::read(
                     &mut self.reader,
                     hi_block_offset,
@@ -531,6 +531,8 @@ impl Archive {
             None => return Ok(None),
         };
 
+        let archive_offset = self.archive_offset;
+
         // Helper function to calculate MD5 of raw table data
         let mut validate_table_md5 =
             |expected: &[u8; 16], offset: u64, size: u64| -> Result<bool> {
@@ -540,9 +542,8 @@ impl Archive {
 
                 // Read raw table data
                 self.reader
-                    .seek(SeekFrom::Start(self.archive_offset + offset))?;
-                let mut table_data = vec![0u8; size as usize];
-                self.reader.read_exact(&mut table_data)?;
+                    .seek(SeekFrom::Start(archive_offset.saturating_add(offset)))?;
+                let table_data = read_bytes(&mut self.reader, size)?;
 
                 // Calculate MD5
                 let mut hasher = Md5::new();
@@ -887,7 +888,7 @@ impl Archive {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
                             block_index: file_index as usize,
-                            file_pos: self.archive_offset + bet_info.file_pos,
+                            file_pos: self.absolute_pos(bet_info.file_pos),
                             compressed_size: bet_info.compressed_size,
                             file_size: bet_info.file_size,
                             flags: bet_info.flags,
@@ -940,7 +941,7 @@ impl Archive {
                 filename: filename.to_string(),
                 hash_index,
                 block_index: hash_entry.block_index as usize,
-                file_pos: self.archive_offset + file_pos,
+                file_pos: self.absolute_pos(file_pos),
                 compressed_size: block_entry.compressed_size as u64,
                 file_size: block_entry.file_size as u64,
                 flags: block_entry.flags,
@@ -1257,8 +1258,7 @@ impl Archive {
 
         if file_info.is_single_unit() || !file_info.is_compressed() {
             // Single unit or uncompressed file - read directly
-            let mut data = vec![0u8; file_info.compressed_size as usize];
-            self.reader.read_exact(&mut data)?;
+            let mut data = read_bytes(&mut self.reader, file_info.compressed_size)?;
 
             // Decrypt if needed
             if file_info.is_encrypted() {
@@ -1329,8 +1329,7 @@ impl Archive {
         // Read sector offset table
         self.reader.seek(SeekFrom::Start(file_info.file_pos))?;
         let offset_table_size = (sector_count + 1) * 4;
-        let mut offset_data = vec![0u8; offset_table_size];
-        self.reader.read_exact(&mut offset_data)?;
+        let mut offset_data = read_bytes(&mut self.reader, offset_table_size as u64)?;
 
         // Decrypt sector offset table if needed
         if file_info.is_encrypted() {
@@ -1362,8 +1361,7 @@ impl Archive {
 
             if first_data_offset >= expected_crc_table_start + expected_crc_table_size {
                 // CRC table follows the offset table
-                let mut crc_data = vec![0u8; expected_crc_table_size];
-                self.reader.read_exact(&mut crc_data)?;
+                let crc_data = read_bytes(&mut self.reader, expected_crc_table_size as u64)?;
 
                 // CRC table is not encrypted
                 let mut crcs = Vec::with_capacity(sector_count);
@@ -1391,7 +1389,7 @@ impl Archive {
         }
 
         // Read and decompress each sector
-        let mut decompressed_data = Vec::with_capacity(file_info.file_size as usize);
+        let mut decompressed_data = Vec::new();
 
         for i in 0..sector_count {
             let sector_start = sector_offsets[i] as u64;
@@ -1411,12 +1409,12 @@ impl Archive {
             let expected_size = remaining.min(sector_size);
 
             // Seek to sector data - offsets are absolute from file position
-            self.reader
-                .seek(SeekFrom::Start(file_info.file_pos + sector_start))?;
+            self.reader.seek(SeekFrom::Start(
+                file_info.file_pos.saturating_add(sector_start),
+            ))?;
 
             // Read sector data
-            let mut sector_data = vec![0u8; sector_size_compressed];
-            self.reader.read_exact(&mut sector_data)?;
+            let mut sector_data = read_bytes(&mut self.reader, sector_size_compressed as u64)?;
 
             if i == 0 {
                 log::debug!(
@@ -1505,7 +1503,11 @@ impl Archive {
                                 "Attempting to decompress attributes file with method 0x{:02X}",
                                 data[0]
                             );
-                            match compression::decompress(&data[1..], data[0], block_count * 100) {
+                            match compression::decompress(
+                                &data[1..],
+                                data[0],
+                                block_count.saturating_mul(100),
+                            ) {
                                 Ok(decompressed) => {
                                     log::info!("Successfully decompressed attributes file");
                                     data = decompressed;
@@ -1554,6 +1556,19 @@ impl Archive {
         ))
     }
 
+    /// Position in the file of a position in the archive
+    fn absolute_pos(&self, pos: u64) -> u64 {
+        self.archive_offset.saturating_add(pos)
+    }
+
+    /// Size of what is between a position and the hash table
+    fn size_up_to_hash_table(&self, pos: u64) -> Result<u64> {
+        self.header
+            .get_hash_table_pos()
+            .checked_sub(pos)
+            .ok_or_else(|| Error::invalid_format("Table position after the hash table"))
+    }
+
     /// Read HET table size from the table header for V3 archives
     fn read_het_table_size(&mut self, het_pos: u64) -> Result<u64> {
         // For compressed tables, calculate the actual size based on the next table position
@@ -1566,11 +1581,11 @@ impl Archive {
                 bet_pos - het_pos
             } else {
                 // Calculate from hash table position
-                self.header.get_hash_table_pos() - het_pos
+                self.size_up_to_hash_table(het_pos)?
             }
         } else {
             // Calculate from hash table position
-            self.header.get_hash_table_pos() - het_pos
+            self.size_up_to_hash_table(het_pos)?
         };
 
         log::debug!(
@@ -1588,7 +1603,7 @@ impl Archive {
         log::debug!("Determining BET table size from file structure");
 
         // Calculate the actual size based on what comes after BET table (usually hash table)
-        let actual_size = self.header.get_hash_table_pos() - bet_pos;
+        let actual_size = self.size_up_to_hash_table(bet_pos)?;
 
         log::debug!(
             "BET table position: 0x{:X}, calculated size: {} bytes",
@@ -1671,10 +1686,10 @@ impl Archive {
         let file_size = self.reader.get_ref().metadata()?.len();
 
         // Calculate expected archive end position
-        let archive_end = self.archive_offset + self.header.get_archive_size();
+        let archive_end = self.absolute_pos(self.header.get_archive_size());
 
         // Check if there's enough space for a strong signature after the archive
-        if file_size < archive_end + STRONG_SIGNATURE_SIZE as u64 {
+        if file_size < archive_end.saturating_add(STRONG_SIGNATURE_SIZE as u64) {
             log::debug!("File too small for strong signature");
             return Ok(SignatureStatus::None);
         }
diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index c614b4f..dd51803 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -71,9 +71,9 @@ impl SignatureInfo {
         Self {
             begin_mpq_data: archive_start,
             begin_exclude: signature_file_pos,
-            end_exclude: signature_file_pos + signature_file_size,
-            end_mpq_data: archive_start + archive_size,
-            end_of_file: archive_start + archive_size, // For weak signatures, no data after archive
+            end_exclude: signature_file_pos.saturating_add(signature_file_size),
+            end_mpq_data: archive_start.saturating_add(archive_size),
+            end_of_file: archive_start.saturating_add(archive_size), // For weak signatures, no data after archive
             signature: signature_data,
             signature_size,
             signature_types: 1, // SIGNATURE_TYPE_WEAK = 1
diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index c4dac24..9956d72 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -183,6 +183,14 @@ impl MpqHeader {
             )));
         }
 
+        // Sectors of 2 GB at most
+        if block_size > 22 {
+            return Err(Error::invalid_format(format!(
+                "Invalid block size: {}",
+                block_size
+            )));
+        }
+
         let mut header = MpqHeader {
             header_size,
             archive_size,
diff --git a/mopaq/src/tables/bet.rs b/mopaq/src/tables/bet.rs
index 968a636..3986b5f 100644
--- a/mopaq/src/tables/bet.rs
+++ b/mopaq/src/tables/bet.rs
@@ -1,6 +1,6 @@
 //! BET (Block Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, read_bits, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bits, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -76,8 +76,7 @@ impl BetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
@@ -164,20 +163,22 @@ impl BetTable {
         let mut cursor = std::io::Cursor::new(&table_data[data_start..]);
 
         // Read file flags
-        let mut file_flags = Vec::with_capacity(header.flag_count as usize);
+        let mut file_flags = Vec::new();
         for _ in 0..header.flag_count {
             file_flags.push(cursor.read_u32_le()?);
         }
 
         // Calculate sizes
+        if header.file_count > 0 && header.table_entry_size == 0 {
+            return Err(Error::invalid_format("BET table entries without content"));
+        }
         let file_table_size =
-            (header.file_count as usize * header.table_entry_size as usize).div_ceil(8);
-        let mut file_table = vec![0u8; file_table_size];
-        cursor.read_exact(&mut file_table)?;
+            (header.file_count as u64 * header.table_entry_size as u64).div_ceil(8);
+        let file_table = read_bytes(&mut cursor, file_table_size)?;
 
         // Read BET hashes
         let hash_count = header.bet_hash_array_size / 8; // Each hash is 8 bytes
-        let mut bet_hashes = Vec::with_capacity(hash_count as usize);
+        let mut bet_hashes = Vec::new();
         for _ in 0..hash_count {
             bet_hashes.push(cursor.read_u64_le()?);
         }
diff --git a/mopaq/src/tables/block.rs b/mopaq/src/tables/block.rs
index 4cf8183..9d78ac2 100644
--- a/mopaq/src/tables/block.rs
+++ b/mopaq/src/tables/block.rs
@@ -1,6 +1,6 @@
 //! Block table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -113,9 +113,8 @@ impl BlockTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(block table)", hash_type::FILE_KEY);
@@ -207,10 +206,11 @@ impl HiBlockTable {
     pub fn read<R: Read + Seek>(reader: &mut R, offset: u64, size: u32) -> Result<Self> {
         reader.seek(SeekFrom::Start(offset))?;
 
-        let mut entries = Vec::with_capacity(size as usize);
-        for _ in 0..size {
-            entries.push(reader.read_u16_le()?);
-        }
+        let raw_data = read_bytes(reader, size as u64 * 2)?;
+        let entries = raw_data
+            .chunks_exact(2)
+            .map(|chunk| u16::from_le_bytes([chunk[0], chunk[1]]))
+            .collect();
 
         Ok(Self { entries })
     }
diff --git a/mopaq/src/tables/common.rs b/mopaq/src/tables/common.rs
index 78d59f4..ecf63bc 100644
--- a/mopaq/src/tables/common.rs
+++ b/mopaq/src/tables/common.rs
@@ -26,6 +26,19 @@ pub(crate) trait ReadLittleEndian: Read {
 
 impl<R: Read> ReadLittleEndian for R {}
 
+/// Read exactly `size` bytes
+///
+/// Archives declare sizes they need not have: memory grows with the data that is
+/// actually there, and a size beyond it is an error.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, size: u64) -> Result<Vec<u8>> {
+    let mut data = Vec::new();
+    reader.take(size).read_to_end(&mut data)?;
+    if (data.len() as u64) < size {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(data)
+}
+
 /// Read a bit field of up to 64 bits from bit-packed data
 pub(crate) fn read_bits(data: &[u8], bit_offset: u64, bit_count: u32) -> Option<u64> {
     let bit_end = bit_offset.checked_add(bit_count as u64)?;
diff --git a/mopaq/src/tables/hash.rs b/mopaq/src/tables/hash.rs
index 43800a8..b9847e4 100644
--- a/mopaq/src/tables/hash.rs
+++ b/mopaq/src/tables/hash.rs
@@ -1,6 +1,6 @@
 //! Hash table implementation for MPQ archives
 
-use super::common::ReadLittleEndian;
+use super::common::{read_bytes, ReadLittleEndian};
 use crate::crypto::{decrypt_block, hash_string, hash_type};
 use crate::{Error, Result};
 use std::io::{Read, Seek, SeekFrom};
@@ -99,9 +99,8 @@ impl HashTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read raw data
-        let byte_size = size as usize * 16; // 16 bytes per entry
-        let mut raw_data = vec![0u8; byte_size];
-        reader.read_exact(&mut raw_data)?;
+        let byte_size = size as u64 * 16; // 16 bytes per entry
+        let mut raw_data = read_bytes(reader, byte_size)?;
 
         // Decrypt the table - SAFE VERSION
         let key = hash_string("(hash table)", hash_type::FILE_KEY);
diff --git a/mopaq/src/tables/het.rs b/mopaq/src/tables/het.rs
index c29352b..5dd6c51 100644
--- a/mopaq/src/tables/het.rs
+++ b/mopaq/src/tables/het.rs
@@ -1,6 +1,6 @@
 //! HET (Hash Extended Table) implementation for MPQ v3+ archives
 
-use super::common::{decrypt_table_data, read_bits, ReadLittleEndian};
+use super::common::{decrypt_table_data, read_bits, read_bytes, ReadLittleEndian};
 use crate::compression::decompress;
 use crate::crypto::jenkins_hash;
 use crate::{Error, Result};
@@ -66,8 +66,7 @@ impl HetTable {
         reader.seek(SeekFrom::Start(offset))?;
 
         // Read the compressed/encrypted data
-        let mut data = vec![0u8; compressed_size as usize];
-        reader.read_exact(&mut data)?;
+        let mut data = read_bytes(reader, compressed_size)?;
 
         // Check if we have at least the extended header (12 bytes)
         if data.len() < 12 {
diff --git a/mopaq/src/tables/mod.rs b/mopaq/src/tables/mod.rs
index ac8ae00..3406318 100644
--- a/mopaq/src/tables/mod.rs
+++ b/mopaq/src/tables/mod.rs
@@ -13,3 +13,4 @@ pub use hash::{HashEntry, HashTable};
 pub use het::{HetHeader, HetTable};
 
 // Re-export common utilities if needed
+pub(crate) use common::read_bytes;
-- 
2.43.0


From 9ef2b7460770016c34731985a39f2a837016bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 10/42] fix: a valid weak signature never verified (leading
 zero byte of the decrypted signature was dropped)

---
 mopaq/src/crypto/signature.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/crypto/signature.rs b/mopaq/src/crypto/signature.rs
index dd51803..4bc0057 100644
--- a/mopaq/src/crypto/signature.rs
+++ b/mopaq/src/crypto/signature.rs
@@ -273,7 +273,7 @@ pub fn verify_weak_signature_stormlib<R: Read + std::io::Seek>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_padded_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -316,7 +316,7 @@ pub fn verify_weak_signature<R: Read>(
 
     // Perform RSA operation: signature^e mod n
     let decrypted = signature_int.modpow(&e, &n);
-    let decrypted_bytes = decrypted.to_bytes_be();
+    let decrypted_bytes = to_padded_bytes_be(&decrypted, WEAK_SIGNATURE_SIZE);
 
     // Verify PKCS#1 v1.5 padding
     verify_pkcs1_v15_md5(&decrypted_bytes, &hash)
@@ -465,6 +465,14 @@ fn verify_mpq_strong_signature_padding(decrypted: &[u8], expected_hash: &[u8]) -
     Ok(true)
 }
 
+/// Big-endian bytes of a number, with the leading zeros that make up its full size
+fn to_padded_bytes_be(number: &BigUint, size: usize) -> Vec<u8> {
+    let bytes = number.to_bytes_be();
+    let mut padded = vec![0u8; size.saturating_sub(bytes.len())];
+    padded.extend_from_slice(&bytes);
+    padded
+}
+
 /// Reverse byte order (little-endian to big-endian conversion)
 fn reverse_bytes(data: &[u8]) -> Vec<u8> {
     data.iter().rev().copied().collect()
-- 
2.43.0


From 7d1ff0d7ae35df2d248583db28ebf35249815b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:47 +0000
Subject: [PATCH 11/42] fix: an archive with a damaged or foreign (attributes)
 file could not be opened

---
 mopaq/src/archive.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 6f4b2c6..2a06181 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -491,8 +491,10 @@ impl Archive {
             }
         }
 
-        // Load attributes if present
-        self.load_attributes()?;
+        // Load attributes if present: they are optional, the archive is usable without them
+        if let Err(e) = self.load_attributes() {
+            log::warn!("Failed to load (attributes): {}", e);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 70b4a4bae85e51c5bad1462173197c7ede763c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:18 +0000
Subject: [PATCH 12/42] fix: archive information did not count empty files, and
 counted what does not exist

---
 mopaq/src/archive.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 2a06181..d6af6b1 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -644,13 +644,16 @@ impl Archive {
 
         // Count files
         let file_count = if let Some(bet) = &self.bet_table {
-            bet.header.file_count as usize
+            (0..bet.header.file_count)
+                .filter_map(|i| bet.get_file_info(i))
+                .filter(|info| info.flags & crate::tables::BlockEntry::FLAG_EXISTS != 0)
+                .count()
         } else if let Some(block_table) = &self.block_table {
-            // Count non-empty entries in block table
+            // Count entries in block table that are files
             block_table
                 .entries()
                 .iter()
-                .filter(|entry| entry.file_size != 0)
+                .filter(|entry| entry.exists())
                 .count()
         } else {
             0
-- 
2.43.0


From c35547853de05d2d3c9437454565927d080dda48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:18 +0000
Subject: [PATCH 13/42] fix: a file whose table entry says it does not exist
 was found

---
 mopaq/src/archive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index d6af6b1..a63e28c 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -889,6 +889,9 @@ impl Archive {
                         continue;
                     }
                     if let Some(bet_info) = bet.get_file_info(file_index) {
+                        if bet_info.flags & crate::tables::BlockEntry::FLAG_EXISTS == 0 {
+                            return Ok(None);
+                        }
                         return Ok(Some(FileInfo {
                             filename: filename.to_string(),
                             hash_index: 0, // Not applicable for HET/BET
@@ -933,6 +936,9 @@ impl Archive {
             let block_entry = block_table
                 .get(hash_entry.block_index as usize)
                 .ok_or_else(|| Error::block_table("Invalid block index"))?;
+            if !block_entry.exists() {
+                return Ok(None);
+            }
 
             // Calculate full file position for v2+ archives
             let file_pos = if let Some(hi_block) = &self.hi_block_table {
-- 
2.43.0


From a5e589941af314caa0b2703e15e876346919748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:42 +0000
Subject: [PATCH 14/42] fix: archives opened with load_tables(false) did not
 load their tables on first access

---
 mopaq/src/archive.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index a63e28c..135d3f0 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -499,6 +499,16 @@ impl Archive {
         Ok(())
     }
 
+    /// Load the tables if this was deferred when the archive was opened
+    fn ensure_tables_loaded(&mut self) -> Result<()> {
+        let has_classic = self.hash_table.is_some() && self.block_table.is_some();
+        let has_extended = self.het_table.is_some() && self.bet_table.is_some();
+        if has_classic || has_extended {
+            return Ok(());
+        }
+        self.load_tables()
+    }
+
     /// Get the archive header
     pub fn header(&self) -> &MpqHeader {
         &self.header
@@ -634,10 +644,7 @@ impl Archive {
 
     /// Get detailed information about the archive
     pub fn get_info(&mut self) -> Result<ArchiveInfo> {
-        // Ensure tables are loaded
-        if self.hash_table.is_none() && self.het_table.is_none() {
-            self.load_tables()?;
-        }
+        self.ensure_tables_loaded()?;
 
         // Get file size
         let file_size = self.reader.get_ref().metadata()?.len();
@@ -965,6 +972,8 @@ impl Archive {
 
     /// List files in the archive
     pub fn list(&mut self) -> Result<Vec<FileEntry>> {
+        self.ensure_tables_loaded()?;
+
         // Try to find and read (listfile)
         if let Some(_listfile_info) = self.find_file("(listfile)")? {
             // Read the listfile
@@ -1065,6 +1074,8 @@ impl Archive {
     /// List all files in the archive by enumerating tables
     /// This shows all entries, using generic names for files not in listfile
     pub fn list_all(&mut self) -> Result<Vec<FileEntry>> {
+        self.ensure_tables_loaded()?;
+
         let mut entries = Vec::new();
 
         // For v3+ archives, prioritize HET/BET tables if they exist and are valid
@@ -1155,6 +1166,8 @@ impl Archive {
 
     /// List all files in the archive by enumerating tables with hash information
     pub fn list_all_with_hashes(&mut self) -> Result<Vec<FileEntry>> {
+        self.ensure_tables_loaded()?;
+
         let mut entries = Vec::new();
 
         // For v3+ archives, use HET/BET tables
@@ -1228,6 +1241,8 @@ impl Archive {
 
     /// Read a file from the archive
     pub fn read_file(&mut self, name: &str) -> Result<Vec<u8>> {
+        self.ensure_tables_loaded()?;
+
         let file_info = self
             .find_file(name)?
             .ok_or_else(|| Error::FileNotFound(name.to_string()))?;
@@ -1627,6 +1642,8 @@ impl Archive {
 
     /// Verify the digital signature of the archive
     pub fn verify_signature(&mut self) -> Result<SignatureStatus> {
+        self.ensure_tables_loaded()?;
+
         // First check for strong signature (external to archive)
         if let Ok(strong_status) = self.verify_strong_signature() {
             if strong_status != SignatureStatus::None {
-- 
2.43.0


From fd0e8f2ff25ad8541a9c70e9edb32fc0839ce7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:21 +0000
Subject: [PATCH 15/42] fix: SFileSetFilePointer misread negative distances and
 took positions before the file for its end

---
 storm-ffi/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8f59f25..2d0d31d 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -526,25 +526,31 @@ pub unsafe extern "C" fn SFileSetFilePointer(
     };
 
     // Combine high and low parts into 64-bit offset
-    let mut offset = file_pos as i64;
-    if !file_pos_high.is_null() {
-        let high = *file_pos_high as i64;
-        offset |= high << 32;
-    }
+    let offset = if file_pos_high.is_null() {
+        file_pos as i64
+    } else {
+        ((*file_pos_high as i64) << 32) | file_pos as u32 as i64
+    };
 
     // Calculate new position
-    let new_pos = match move_method {
-        0 => offset as usize,                                   // FILE_BEGIN
-        1 => (file_handle.position as i64 + offset) as usize,   // FILE_CURRENT
-        2 => (file_handle.data.len() as i64 + offset) as usize, // FILE_END
+    let base = match move_method {
+        0 => 0,                             // FILE_BEGIN
+        1 => file_handle.position as i64,   // FILE_CURRENT
+        2 => file_handle.data.len() as i64, // FILE_END
         _ => {
             set_last_error(ERROR_INVALID_PARAMETER);
             return 0xFFFFFFFF;
         }
     };
+    let new_pos = base.saturating_add(offset);
+    if new_pos < 0 {
+        // Before the beginning of the file
+        set_last_error(ERROR_INVALID_PARAMETER);
+        return 0xFFFFFFFF;
+    }
 
     // Clamp to file size
-    file_handle.position = new_pos.min(file_handle.data.len());
+    file_handle.position = (new_pos as u64).min(file_handle.data.len() as u64) as usize;
 
     // Return new position
     let pos = file_handle.position as u64;
-- 
2.43.0


From b8ce5aeb45e0654bbb297beda4a5722f4b3d952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:21 +0000
Subject: [PATCH 16/42] fix: SFileGetFileInfo wrote through pointers that need
 not be aligned

---
 storm-ffi/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 2d0d31d..88d1e90 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -647,7 +647,7 @@ unsafe fn get_file_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = file_handle.size;
+                (buffer as *mut u64).write_unaligned(file_handle.size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -661,7 +661,7 @@ unsafe fn get_file_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = file_handle.position as u64;
+                (buffer as *mut u64).write_unaligned(file_handle.position as u64);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -693,7 +693,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u64) = header.get_archive_size();
+                (buffer as *mut u64).write_unaligned(header.get_archive_size());
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -707,7 +707,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.hash_table_size;
+                (buffer as *mut u32).write_unaligned(header.hash_table_size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -721,7 +721,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.block_table_size;
+                (buffer as *mut u32).write_unaligned(header.block_table_size);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
@@ -735,7 +735,7 @@ unsafe fn get_archive_info(
                 *size_needed = needed;
             }
             if buffer_size >= needed {
-                *(buffer as *mut u32) = header.sector_size() as u32;
+                (buffer as *mut u32).write_unaligned(header.sector_size() as u32);
                 set_last_error(ERROR_SUCCESS);
                 true
             } else {
-- 
2.43.0


From ad0a41fba1fcf977d910fe52a63863d0f9818c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:22 +0000
Subject: [PATCH 17/42] fix: a file opened while its archive was being closed
 stayed open without it

---
 storm-ffi/src/lib.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 88d1e90..dfbee80 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -290,14 +290,15 @@ pub unsafe extern "C" fn SFileCreateArchive(
 #[no_mangle]
 pub extern "C" fn SFileCloseArchive(handle: HANDLE) -> bool {
     if let Some(handle_id) = handle_to_id(handle) {
-        // Remove any open files from this archive
-        FILES
-            .lock()
-            .unwrap()
-            .retain(|_, file| file.archive_handle != handle_id);
-
-        // Close the archive
-        if ARCHIVES.lock().unwrap().remove(&handle_id).is_some() {
+        // Close the archive, and hold the table so that no file of it is opened meanwhile
+        let mut archives = ARCHIVES.lock().unwrap();
+        if archives.remove(&handle_id).is_some() {
+            // Remove any open files from this archive
+            FILES
+                .lock()
+                .unwrap()
+                .retain(|_, file| file.archive_handle != handle_id);
+
             set_last_error(ERROR_SUCCESS);
             true
         } else {
-- 
2.43.0


From 9eaa4c55c4b908fde99d4c0232eb61239ab7b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:37 +0000
Subject: [PATCH 18/42] fix: SFileVerifyArchive locked itself out when
 verifying all files

---
 storm-ffi/src/lib.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index dfbee80..4f99174 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -1066,6 +1066,11 @@ pub unsafe extern "C" fn SFileVerifyFile(
         return false;
     };
 
+    verify_file(archive_handle, filename_str, flags)
+}
+
+// Helper function to verify a file of an archive that is already locked
+fn verify_file(archive_handle: &mut ArchiveHandle, filename_str: &str, flags: u32) -> bool {
     // Find the file first to get file info
     let file_info = match archive_handle.archive.find_file(filename_str) {
         Ok(Some(info)) => info,
@@ -1255,19 +1260,12 @@ pub unsafe extern "C" fn SFileVerifyArchive(archive: HANDLE, flags: u32) -> bool
             let all_verify_flags =
                 file_verify_flags | SFILE_VERIFY_FILE_CRC | SFILE_VERIFY_FILE_MD5;
 
-            // Use our own SFileVerifyFile function for consistency
-            unsafe {
-                let filename_cstr = match std::ffi::CString::new(file_entry.name.as_str()) {
-                    Ok(s) => s,
-                    Err(_) => continue, // Skip files with invalid names
-                };
-
-                if !SFileVerifyFile(archive, filename_cstr.as_ptr(), all_verify_flags) {
-                    let last_error = SFileGetLastError();
-                    // Only fail on corruption, not missing attributes
-                    if last_error == ERROR_FILE_CORRUPT {
-                        return false;
-                    }
+            // Use the same verification as SFileVerifyFile for consistency
+            if !verify_file(archive_handle, &file_entry.name, all_verify_flags) {
+                let last_error = SFileGetLastError();
+                // Only fail on corruption, not missing attributes
+                if last_error == ERROR_FILE_CORRUPT {
+                    return false;
                 }
             }
         }
-- 
2.43.0


From 08812054f5bb6c611b42c28b2b1a42ec9ae90d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:14 +0000
Subject: [PATCH 19/42] fix: SFileEnumFiles ran the callback with the archives
 locked, so that it could not use them

---
 storm-ffi/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 4f99174..8310342 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -845,8 +845,11 @@ pub unsafe extern "C" fn SFileEnumFiles(
         return false;
     };
 
-    // List files
-    match archive_handle.archive.list() {
+    // List files, and release the archives: the callback may use them
+    let entries = archive_handle.archive.list();
+    drop(archives);
+
+    match entries {
         Ok(entries) => {
             for entry in entries {
                 // Simple pattern matching (just * for now)
-- 
2.43.0


From fc9448de7f98a41444adce1ad9e763649ecec7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:16 +0000
Subject: [PATCH 20/42] fix: SFileEnumFiles matched masks with the stars taken
 out, as parts of the name

---
 storm-ffi/src/lib.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 8310342..5c3ee2d 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -852,8 +852,7 @@ pub unsafe extern "C" fn SFileEnumFiles(
     match entries {
         Ok(entries) => {
             for entry in entries {
-                // Simple pattern matching (just * for now)
-                if pattern == "*" || entry.name.contains(&pattern.replace("*", "")) {
+                if matches_mask(entry.name.as_bytes(), pattern.as_bytes()) {
                     let c_name = match CString::new(entry.name.as_str()) {
                         Ok(s) => s,
                         Err(_) => continue,
@@ -877,6 +876,30 @@ pub unsafe extern "C" fn SFileEnumFiles(
     }
 }
 
+// Helper function to match a name against a mask with * and ?, ignoring ASCII case
+fn matches_mask(name: &[u8], mask: &[u8]) -> bool {
+    let (mut n, mut m) = (0, 0);
+    let mut star = None; // Mask position behind the last *, and where its match ends
+
+    while n < name.len() {
+        if m < mask.len() && mask[m] == b'*' {
+            m += 1;
+            star = Some((m, n));
+        } else if m < mask.len() && (mask[m] == b'?' || mask[m].eq_ignore_ascii_case(&name[n])) {
+            m += 1;
+            n += 1;
+        } else if let Some((after, end)) = star {
+            star = Some((after, end + 1));
+            m = after;
+            n = end + 1;
+        } else {
+            return false;
+        }
+    }
+
+    mask[m..].iter().all(|&c| c == b'*')
+}
+
 /// Set locale for file operations
 #[no_mangle]
 pub extern "C" fn SFileSetLocale(locale: u32) -> u32 {
-- 
2.43.0


From 29d889dcce4f186796acec7d9138a04ede5ad004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:19 +0000
Subject: [PATCH 21/42] fix: SFileOpenArchive reported a missing file as access
 denied

---
 storm-ffi/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storm-ffi/src/lib.rs b/storm-ffi/src/lib.rs
index 5c3ee2d..fa58c4a 100644
--- a/storm-ffi/src/lib.rs
+++ b/storm-ffi/src/lib.rs
@@ -175,6 +175,9 @@ pub unsafe extern "C" fn SFileOpenArchive(
             let error_code = match e {
                 mopaq::Error::FileNotFound(_) => ERROR_FILE_NOT_FOUND,
                 mopaq::Error::InvalidFormat(_) => ERROR_FILE_CORRUPT,
+                mopaq::Error::Io(e) if e.kind() == std::io::ErrorKind::NotFound => {
+                    ERROR_FILE_NOT_FOUND
+                }
                 mopaq::Error::Io(_) => ERROR_ACCESS_DENIED,
                 _ => ERROR_FILE_CORRUPT,
             };
-- 
2.43.0


From 2ecd3e542819de966838a3abff2f457b86c6fd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:45 +0000
Subject: [PATCH 22/42] fix: file extract wrote wherever names in the archive
 pointed, panicked on some, and took backslashes for part of the name

---
 storm-cli/src/commands/file.rs | 35 ++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index dee6577..1654636 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -6,7 +6,7 @@ use glob::Pattern;
 use mopaq::Archive;
 use regex::Regex;
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use crate::output::{
     print_file_info, print_file_list, print_file_list_verbose, print_file_list_with_hashes,
@@ -90,10 +90,8 @@ pub fn extract(
 
         let output_path = if let Some(out) = output {
             PathBuf::from(out)
-        } else if preserve_path {
-            PathBuf::from(filename)
         } else {
-            PathBuf::from(Path::new(filename).file_name().unwrap())
+            relative_output_path(filename, preserve_path)?
         };
 
         // Create parent directories if needed
@@ -121,10 +119,12 @@ pub fn extract(
                 }
             };
 
-            let output_path = if preserve_path {
-                PathBuf::from(output_dir).join(filename)
-            } else {
-                PathBuf::from(output_dir).join(Path::new(filename).file_name().unwrap())
+            let output_path = match relative_output_path(filename, preserve_path) {
+                Ok(path) => PathBuf::from(output_dir).join(path),
+                Err(e) => {
+                    eprintln!("Failed to extract {}: {}", filename, e);
+                    continue;
+                }
             };
 
             // Create parent directories if needed
@@ -147,6 +147,25 @@ pub fn extract(
     Ok(())
 }
 
+/// Where a file goes below the output directory, which no name may leave
+fn relative_output_path(filename: &str, preserve_path: bool) -> Result<PathBuf> {
+    let mut path = PathBuf::new();
+    for part in filename.split(['/', '\\']) {
+        match Path::new(part).components().next() {
+            None | Some(Component::CurDir) => continue,
+            Some(Component::Normal(name)) if name == part => path.push(name),
+            _ => anyhow::bail!("Unsafe file name"),
+        }
+    }
+
+    let file_name = path.file_name().context("Invalid file name")?;
+    Ok(if preserve_path {
+        path
+    } else {
+        PathBuf::from(file_name)
+    })
+}
+
 /// Add files to an existing archive
 pub fn add(
     _archive_path: &str,
-- 
2.43.0


From 4b9d3075ece68e7c40869e3ff571ab3e1fe83cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:15 +0000
Subject: [PATCH 23/42] fix: file extract reported success when files could not
 be extracted, or gave up the rest

---
 storm-cli/src/commands/file.rs | 50 ++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index 1654636..8a48dcd 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -110,35 +110,24 @@ pub fn extract(
         let file_entries = archive.list()?;
         let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
 
-        for filename in &files {
-            let data = match archive.read_file(filename) {
-                Ok(data) => data,
-                Err(e) => {
-                    eprintln!("Failed to extract {}: {}", filename, e);
-                    continue;
-                }
-            };
-
-            let output_path = match relative_output_path(filename, preserve_path) {
-                Ok(path) => PathBuf::from(output_dir).join(path),
-                Err(e) => {
-                    eprintln!("Failed to extract {}: {}", filename, e);
-                    continue;
-                }
-            };
+        let mut failed = 0;
 
-            // Create parent directories if needed
-            if let Some(parent) = output_path.parent() {
-                fs::create_dir_all(parent)?;
+        for filename in &files {
+            if let Err(e) = extract_one(&mut archive, filename, output_dir, preserve_path) {
+                eprintln!("Failed to extract {}: {}", filename, e);
+                failed += 1;
+                continue;
             }
 
-            fs::write(&output_path, data)?;
-
             if !global_opts.quiet {
                 println!("Extracted: {}", filename);
             }
         }
 
+        if failed > 0 {
+            anyhow::bail!("Failed to extract {} of {} files", failed, files.len());
+        }
+
         if !global_opts.quiet {
             println!("{} Extracted {} files", "✓".green(), files.len());
         }
@@ -147,6 +136,25 @@ pub fn extract(
     Ok(())
 }
 
+/// Extract one of the files of an archive below the output directory
+fn extract_one(
+    archive: &mut Archive,
+    filename: &str,
+    output_dir: &str,
+    preserve_path: bool,
+) -> Result<()> {
+    let data = archive.read_file(filename)?;
+    let output_path = Path::new(output_dir).join(relative_output_path(filename, preserve_path)?);
+
+    // Create parent directories if needed
+    if let Some(parent) = output_path.parent() {
+        fs::create_dir_all(parent)?;
+    }
+
+    fs::write(&output_path, data)?;
+    Ok(())
+}
+
 /// Where a file goes below the output directory, which no name may leave
 fn relative_output_path(filename: &str, preserve_path: bool) -> Result<PathBuf> {
     let mut path = PathBuf::new();
-- 
2.43.0


From a0e231a7f703e5e147592d77145b6ed40a8006f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 24/42] fix: the command line panicked on file names with other
 than ASCII characters

---
 storm-cli/src/commands/archive.rs | 2 +-
 storm-cli/src/output.rs           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index ce1c57f..6e00a7e 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -135,7 +135,7 @@ fn add_directory_to_archive(
         // Normalize path separators
         let archive_path = archive_path.replace('\\', "/");
 
-        builder = builder.add_file(path.to_str().unwrap(), &archive_path);
+        builder = builder.add_file(path, &archive_path);
 
         if !quiet {
             println!("Added: {}", archive_path);
diff --git a/storm-cli/src/output.rs b/storm-cli/src/output.rs
index e2bb87c..091f1ca 100644
--- a/storm-cli/src/output.rs
+++ b/storm-cli/src/output.rs
@@ -451,8 +451,8 @@ pub fn print_file_list_verbose(files: &[FileEntry]) -> Result<(), io::Error> {
         };
 
         // Truncate long filenames
-        let display_name = if entry.name.len() > 39 {
-            format!("{}...", &entry.name[..36])
+        let display_name = if entry.name.chars().count() > 39 {
+            format!("{}...", entry.name.chars().take(36).collect::<String>())
         } else {
             entry.name.clone()
         };
-- 
2.43.0


From bf5bf8a0c7ad7bdee21d70b9fcd7463955a7d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:21 +0000
Subject: [PATCH 25/42] fix: archive verify failed for every archive without a
 listfile

---
 storm-cli/src/commands/archive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 6e00a7e..f2413de 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -219,7 +219,14 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
         Some(archive_info.signature_status.clone());
 
     // Verify individual files
-    let file_entries = archive.list()?;
+    let mut file_entries = archive.list()?;
+    if archive.find_file("(listfile)")?.is_none() {
+        // The names are made up, nothing can be found by them
+        verification_results
+            .warnings
+            .push("No (listfile), individual files are not verified".to_string());
+        file_entries.clear();
+    }
     let files: Vec<String> = file_entries.into_iter().map(|e| e.name).collect();
     verification_results.total_files = files.len();
 
-- 
2.43.0


From 062d14542aa12e4b3263b86493a02e3a4ebd9059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:37 +0000
Subject: [PATCH 26/42] fix: archive verify passed archives with damaged
 tables, digests or signatures

---
 storm-cli/src/commands/archive.rs | 32 +++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index f2413de..3045b0d 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -214,6 +214,38 @@ pub fn verify(archive_path: &str, check_crc: bool, check_contents: bool) -> Resu
         });
     }
 
+    // Tables or digests that do not check out are errors
+    let mut failed = Vec::new();
+    let tables = &verification_results.table_checks;
+    if !tables.hash_table_loaded || !tables.block_table_loaded {
+        failed.push("Tables failed to load");
+    }
+    if tables.het_table_loaded == Some(false) || tables.bet_table_loaded == Some(false) {
+        failed.push("Extended tables failed to load");
+    }
+    if let Some(md5) = &tables.md5_checksums {
+        if !(md5.header_valid
+            && md5.hash_table_valid
+            && md5.block_table_valid
+            && md5.hi_block_table_valid
+            && md5.het_table_valid
+            && md5.bet_table_valid)
+        {
+            failed.push("MD5 checksum mismatch");
+        }
+    }
+    if matches!(
+        archive_info.signature_status,
+        SignatureStatus::WeakInvalid | SignatureStatus::StrongInvalid
+    ) {
+        failed.push("Invalid digital signature");
+    }
+    for error in failed {
+        verification_results
+            .errors
+            .push((archive_path.to_string(), error.to_string()));
+    }
+
     // Check digital signature
     verification_results.header_checks.signature_status =
         Some(archive_info.signature_status.clone());
-- 
2.43.0


From 7837821a2b98fb5ffde62225ca14566efa58a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:07 +0000
Subject: [PATCH 27/42] fix: hash generate printed invalid JSON for names with
 backslashes or quotes

---
 storm-cli/src/commands/hash.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storm-cli/src/commands/hash.rs b/storm-cli/src/commands/hash.rs
index 2beef7e..e568a7f 100644
--- a/storm-cli/src/commands/hash.rs
+++ b/storm-cli/src/commands/hash.rs
@@ -47,8 +47,12 @@ pub fn generate(filename: &str, hash_type: Option<HashType>, all: bool) -> Resul
 
         if global_opts.output == crate::OutputFormat::Json {
             println!(
-                r#"{{"filename":"{}","type":"{:?}","value":"0x{:08x}"}}"#,
-                filename, ht, value
+                "{}",
+                serde_json::json!({
+                    "filename": filename,
+                    "type": format!("{:?}", ht),
+                    "value": format!("{:#010x}", value),
+                })
             );
         } else {
             println!("{:#010x}", value);
-- 
2.43.0


From 5d5afdecd0a2b6f7dde8f605f08006a70fd2a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:25 +0000
Subject: [PATCH 28/42] fix: archive create took --ignore patterns for parts of
 the source path and no globs

---
 storm-cli/src/commands/archive.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 3045b0d..00e238a 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -2,6 +2,7 @@
 
 use anyhow::{Context, Result};
 use colored::Colorize;
+use glob::Pattern;
 use mopaq::compression::CompressionMethod;
 use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption, OpenOptions, SignatureStatus};
 use serde_json;
@@ -108,24 +109,27 @@ fn add_directory_to_archive(
             continue;
         }
 
-        // Check ignore patterns
+        // Calculate relative path for archive
+        let relative_path = path
+            .strip_prefix(dir_path)
+            .context("Failed to calculate relative path")?;
+
+        // Check ignore patterns, wherever the source directory is
+        let name = relative_path.to_string_lossy();
         let should_ignore = options.ignore_patterns.iter().any(|pattern| {
-            path.to_string_lossy().contains(pattern)
-                || path
-                    .file_name()
-                    .map(|name| name.to_string_lossy().contains(pattern))
-                    .unwrap_or(false)
+            name.contains(pattern)
+                || Pattern::new(pattern).is_ok_and(|glob| {
+                    glob.matches(&name)
+                        || path
+                            .file_name()
+                            .is_some_and(|f| glob.matches(&f.to_string_lossy()))
+                })
         });
 
         if should_ignore {
             continue;
         }
 
-        // Calculate relative path for archive
-        let relative_path = path
-            .strip_prefix(dir_path)
-            .context("Failed to calculate relative path")?;
-
         let archive_path = if archive_prefix.is_empty() {
             relative_path.to_string_lossy().to_string()
         } else {
-- 
2.43.0


From c2f0ada6619a76db16a6b1690a9400b3b59c6913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:25 +0000
Subject: [PATCH 29/42] fix: file extract could not extract one file into a
 directory

---
 storm-cli/src/commands/file.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/storm-cli/src/commands/file.rs b/storm-cli/src/commands/file.rs
index 8a48dcd..3d72e38 100644
--- a/storm-cli/src/commands/file.rs
+++ b/storm-cli/src/commands/file.rs
@@ -88,10 +88,13 @@ pub fn extract(
             .read_file(filename)
             .context(format!("Failed to read file: {}", filename))?;
 
-        let output_path = if let Some(out) = output {
-            PathBuf::from(out)
-        } else {
-            relative_output_path(filename, preserve_path)?
+        let output_path = match output {
+            // A directory
+            Some(out) if out.ends_with(std::path::is_separator) || Path::new(out).is_dir() => {
+                Path::new(out).join(relative_output_path(filename, preserve_path)?)
+            }
+            Some(out) => PathBuf::from(out),
+            None => relative_output_path(filename, preserve_path)?,
         };
 
         // Create parent directories if needed
-- 
2.43.0


From 727da3f424a1a27e8e22b0c0aed9a2e9048fecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:55 +0000
Subject: [PATCH 30/42] fix: CSV output did not quote fields with commas or
 quotes

---
 storm-cli/src/commands/archive.rs |  4 ++--
 storm-cli/src/output.rs           | 22 ++++++++++++++++------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index 00e238a..d6ec259 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -10,7 +10,7 @@ use std::collections::HashMap;
 use std::path::Path;
 use walkdir::WalkDir;
 
-use crate::output::{print_archive_info, print_json};
+use crate::output::{csv_field, print_archive_info, print_json};
 use crate::{OutputFormat, GLOBAL_OPTS};
 
 #[derive(Debug, Clone)]
@@ -641,7 +641,7 @@ fn print_detailed_verify_result(
         }
         OutputFormat::Csv => {
             println!("metric,value");
-            println!("archive,{}", results.archive_path);
+            println!("archive,{}", csv_field(&results.archive_path));
             println!("format_version,{}", results.format_version as u16 + 1);
             println!("total_files,{}", results.total_files);
             println!("verified_files,{}", results.verified_files);
diff --git a/storm-cli/src/output.rs b/storm-cli/src/output.rs
index 091f1ca..e4ff715 100644
--- a/storm-cli/src/output.rs
+++ b/storm-cli/src/output.rs
@@ -2,6 +2,7 @@ use crate::{OutputFormat, GLOBAL_OPTS};
 use colored::*;
 use mopaq::{Archive, ArchiveInfo, FileEntry, SignatureStatus};
 use serde::Serialize;
+use std::borrow::Cow;
 use std::io;
 
 /// Print JSON output
@@ -281,7 +282,7 @@ fn print_archive_info_json(info: &ArchiveInfo) -> Result<(), io::Error> {
 
 fn print_archive_info_csv(info: &ArchiveInfo) -> Result<(), io::Error> {
     println!("property,value");
-    println!("path,{}", info.path.display());
+    println!("path,{}", csv_field(&info.path.to_string_lossy()));
     println!("file_size,{}", info.file_size);
     println!("archive_offset,{}", info.archive_offset);
     println!("format_version,{}", info.format_version as u16 + 1);
@@ -296,6 +297,15 @@ fn print_archive_info_csv(info: &ArchiveInfo) -> Result<(), io::Error> {
     Ok(())
 }
 
+/// A value as a field of CSV output
+pub fn csv_field(value: &str) -> Cow<'_, str> {
+    if value.contains([',', '"', '\r', '\n']) {
+        Cow::Owned(format!("\"{}\"", value.replace('"', "\"\"")))
+    } else {
+        Cow::Borrowed(value)
+    }
+}
+
 /// Print file list with hashes
 pub fn print_file_list_with_hashes(
     files: &[FileEntry],
@@ -336,15 +346,15 @@ pub fn print_file_list_with_hashes(
                 println!("filename,hash1,hash2");
                 for entry in files {
                     if let Some((hash1, hash2)) = entry.hashes {
-                        println!("{},{:08X},{:08X}", entry.name, hash1, hash2);
+                        println!("{},{:08X},{:08X}", csv_field(&entry.name), hash1, hash2);
                     } else {
-                        println!("{},NA,NA", entry.name);
+                        println!("{},NA,NA", csv_field(&entry.name));
                     }
                 }
             } else {
                 println!("filename");
                 for entry in files {
-                    println!("{}", entry.name);
+                    println!("{}", csv_field(&entry.name));
                 }
             }
         }
@@ -367,7 +377,7 @@ pub fn print_file_list(files: &[String], format: OutputFormat) -> Result<(), io:
         OutputFormat::Csv => {
             println!("filename");
             for file in files {
-                println!("{}", file);
+                println!("{}", csv_field(file));
             }
         }
     }
@@ -567,7 +577,7 @@ pub fn print_file_info(filename: &str, size: u64, format: OutputFormat) -> Resul
         }
         OutputFormat::Csv => {
             println!("filename,size");
-            println!("{},{}", filename, size);
+            println!("{},{}", csv_field(filename), size);
         }
     }
     Ok(())
-- 
2.43.0


From f76a45f9fcfd9a8f444f841c73f2c96db7f03e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:09 +0000
Subject: [PATCH 31/42] fix: the configured default_output was ignored

---
 storm-cli/src/main.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/storm-cli/src/main.rs b/storm-cli/src/main.rs
index 86c3685..2f9b998 100644
--- a/storm-cli/src/main.rs
+++ b/storm-cli/src/main.rs
@@ -42,8 +42,8 @@ pub enum OutputFormat {
 #[command(version)]
 struct Cli {
     /// Output format
-    #[arg(global = true, short = 'o', long, value_enum, default_value = "text")]
-    output: OutputFormat,
+    #[arg(global = true, short = 'o', long, value_enum)]
+    output: Option<OutputFormat>,
 
     /// Increase verbosity (-v, -vv, -vvv)
     #[arg(global = true, short = 'v', long, action = clap::ArgAction::Count)]
@@ -440,8 +440,14 @@ fn main() -> Result<()> {
         config::load_config(None)?
     };
 
+    // The output format asked for, or else the configured one
+    let output = cli.output.unwrap_or_else(|| {
+        let configured = config.default_output.as_deref().unwrap_or("text");
+        OutputFormat::from_str(configured, true).unwrap_or(OutputFormat::Text)
+    });
+
     // Set up colored output based on flags
-    if cli.no_color || cli.output != OutputFormat::Text {
+    if cli.no_color || output != OutputFormat::Text {
         colored::control::set_override(false);
     }
 
@@ -460,7 +466,7 @@ fn main() -> Result<()> {
 
     // Store global options for commands to access
     let global_opts = GlobalOptions {
-        output: cli.output,
+        output,
         verbose: cli.verbose,
         quiet: cli.quiet,
         no_color: cli.no_color,
-- 
2.43.0


From a887f6834dd57cbe90f3f47ab616b597b3fce386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:09 +0000
Subject: [PATCH 32/42] fix: archive analyze printed nothing, not even valid
 JSON, for an empty archive

---
 storm-cli/src/commands/archive.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/storm-cli/src/commands/archive.rs b/storm-cli/src/commands/archive.rs
index d6ec259..a2f3d42 100644
--- a/storm-cli/src/commands/archive.rs
+++ b/storm-cli/src/commands/archive.rs
@@ -673,10 +673,8 @@ pub fn analyze(
     // Get file entries with detailed info
     let file_entries = archive.list_with_hashes()?;
 
-    if file_entries.is_empty() {
-        if global_opts.output == OutputFormat::Text {
-            println!("No files found in archive");
-        }
+    if file_entries.is_empty() && global_opts.output == OutputFormat::Text {
+        println!("No files found in archive");
         return Ok(());
     }
 
-- 
2.43.0


From 69db58ec86c9495084aeadf4705119670bfab5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:32 +0000
Subject: [PATCH 33/42] fix: opening what cannot be read, like a directory,
 searched it for a header without end

---
 mopaq/src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index 9956d72..3eb8ccf 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -1,7 +1,7 @@
 //! MPQ header structures and parsing
 
 use crate::{Error, Result};
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, Seek, SeekFrom};
 
 /// Helper trait for reading little-endian integers
 trait ReadLittleEndian: Read {
@@ -301,6 +301,7 @@ pub fn find_header<R: Read + Seek>(
         // Try to read a signature
         let signature = match reader.read_u32_le() {
             Ok(sig) => sig,
+            Err(Error::Io(e)) if e.kind() != ErrorKind::UnexpectedEof => return Err(Error::Io(e)),
             Err(_) => {
                 offset += HEADER_ALIGNMENT;
                 continue;
-- 
2.43.0


From ae1d995ba5ac10cfe3d84229c31e27ca61d992be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:35 +0000
Subject: [PATCH 34/42] fix: archives built with block sizes above 22 could not
 be opened

---
 mopaq/src/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mopaq/src/header.rs b/mopaq/src/header.rs
index 3eb8ccf..6d99228 100644
--- a/mopaq/src/header.rs
+++ b/mopaq/src/header.rs
@@ -183,8 +183,8 @@ impl MpqHeader {
             )));
         }
 
-        // Sectors of 2 GB at most
-        if block_size > 22 {
+        // Sectors no larger than the builder allows, or than can be addressed
+        if u32::from(block_size) > 31.min(usize::BITS - 10) {
             return Err(Error::invalid_format(format!(
                 "Invalid block size: {}",
                 block_size
-- 
2.43.0


From 48ca664613ddfdb2a0c1c3d9b07ec832e5336ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 35/42] fix: version 4 headers declared the size of a hi-block
 table that was not written

---
 mopaq/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index ec2dfcd..4724aff 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -851,7 +851,7 @@ impl ArchiveBuilder {
             Some(MpqHeaderV4Data {
                 hash_table_size_64: hash_table_size as u64 * 16, // 16 bytes per hash entry
                 block_table_size_64: self.pending_files.len() as u64 * 16, // 16 bytes per block entry
-                hi_block_table_size_64: if hi_block_table.is_some() {
+                hi_block_table_size_64: if hi_block_table_pos.is_some() {
                     self.pending_files.len() as u64 * 2 // 2 bytes per hi-block entry
                 } else {
                     0
-- 
2.43.0


From 5d7a4f1b48d2f8ab7bea4fa0a070e4ed92be18c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 36/42] fix: sizes and positions beyond 32 bits were silently
 truncated by the builder

---
 mopaq/src/builder.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mopaq/src/builder.rs b/mopaq/src/builder.rs
index 4724aff..e426e5b 100644
--- a/mopaq/src/builder.rs
+++ b/mopaq/src/builder.rs
@@ -709,6 +709,11 @@ impl ArchiveBuilder {
 
         // Calculate archive size
         let archive_size = writer.stream_position()?;
+        if self.version == FormatVersion::V1 && archive_size > u32::MAX as u64 {
+            return Err(Error::invalid_format(
+                "Archive too large for version 1: positions have 32 bits",
+            ));
+        }
 
         // Write header at the beginning
         writer.seek(SeekFrom::Start(0))?;
@@ -912,6 +917,12 @@ impl ArchiveBuilder {
         } = params;
         let mut flags = 0u32;
 
+        // Sizes and sector offsets have 32 bits
+        let too_large = || Error::invalid_format(format!("File too large: {}", archive_name));
+        if file_data.len() > u32::MAX as usize {
+            return Err(too_large());
+        }
+
         // For small files or if single unit is requested, write as single unit
         let is_single_unit = file_data.len() <= *sector_size;
 
@@ -1066,6 +1077,9 @@ impl ArchiveBuilder {
 
             // Set last offset
             sector_offsets[sector_count] = (data_start + sector_data.len()) as u32;
+            if data_start + sector_data.len() > u32::MAX as usize {
+                return Err(too_large());
+            }
 
             // Log CRC generation if enabled
             if self.generate_crcs {
-- 
2.43.0


From 2d286cab0377f00a8af41e281b068148969632d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:50 +0000
Subject: [PATCH 37/42] fix: listing an archive without hash table and without
 existing files failed

---
 mopaq/src/archive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 135d3f0..83ff158 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1032,7 +1032,7 @@ impl Archive {
                     }
 
                     // If we enumerated from HET/BET successfully, return early
-                    if !entries.is_empty() {
+                    if !entries.is_empty() || self.hash_table.is_none() {
                         return Ok(entries);
                     }
                 }
@@ -1100,7 +1100,7 @@ impl Archive {
                 }
 
                 // If we enumerated from HET/BET successfully, return early
-                if !entries.is_empty() {
+                if !entries.is_empty() || self.hash_table.is_none() {
                     return Ok(entries);
                 }
             }
@@ -1190,7 +1190,7 @@ impl Archive {
                     }
                 }
 
-                if !entries.is_empty() {
+                if !entries.is_empty() || self.hash_table.is_none() {
                     return Ok(entries);
                 }
             }
-- 
2.43.0


From e2be6b6ac48ec698f12dc8d839c99c1234e65a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:58 +0000
Subject: [PATCH 38/42] fix: get_info reported archives without block table as
 not encrypted

---
 mopaq/src/archive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 83ff158..8d83ee5 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -685,6 +685,11 @@ impl Archive {
                 .entries()
                 .iter()
                 .any(|entry| (entry.flags & BlockEntry::FLAG_ENCRYPTED) != 0)
+        } else if let Some(bet) = &self.bet_table {
+            use crate::tables::BlockEntry;
+            (0..bet.header.file_count)
+                .filter_map(|i| bet.get_file_info(i))
+                .any(|info| (info.flags & BlockEntry::FLAG_ENCRYPTED) != 0)
         } else {
             false
         };
-- 
2.43.0


From 8331ea07e7652b3f3b52646483b078742c46ef1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:14 +0000
Subject: [PATCH 39/42] fix: a failed table load no longer leaves an archive
 marked as loaded

---
 mopaq/src/archive.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 8d83ee5..623273c 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -286,6 +286,8 @@ pub struct Archive {
     bet_table: Option<BetTable>,
     /// File attributes from (attributes) file
     attributes: Option<special_files::Attributes>,
+    /// Whether all tables of the archive have been loaded
+    tables_loaded: bool,
 }
 
 impl Archive {
@@ -315,6 +317,7 @@ impl Archive {
             bet_table: None,
             het_table: None,
             attributes: None,
+            tables_loaded: false,
         };
 
         // Load tables if requested
@@ -491,6 +494,8 @@ impl Archive {
             }
         }
 
+        self.tables_loaded = true;
+
         // Load attributes if present: they are optional, the archive is usable without them
         if let Err(e) = self.load_attributes() {
             log::warn!("Failed to load (attributes): {}", e);
@@ -501,9 +506,7 @@ impl Archive {
 
     /// Load the tables if this was deferred when the archive was opened
     fn ensure_tables_loaded(&mut self) -> Result<()> {
-        let has_classic = self.hash_table.is_some() && self.block_table.is_some();
-        let has_extended = self.het_table.is_some() && self.bet_table.is_some();
-        if has_classic || has_extended {
+        if self.tables_loaded {
             return Ok(());
         }
         self.load_tables()
@@ -753,6 +756,7 @@ impl Archive {
                         het_table: None,
                         bet_table: None,
                         attributes: None,
+                        tables_loaded: false,
                     };
 
                     if let Ok(size) = temp_archive.read_het_table_size(pos) {
@@ -796,6 +800,7 @@ impl Archive {
                         het_table: None,
                         bet_table: None,
                         attributes: None,
+                        tables_loaded: false,
                     };
 
                     if let Ok(size) = temp_archive.read_bet_table_size(pos) {
-- 
2.43.0


From caf5a2d48c935545e6d12312773fd42f43321976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:37 +0000
Subject: [PATCH 40/42] fix: a read failure while looking for a strong
 signature is reported, not taken for its absence

---
 mopaq/src/archive.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 623273c..3fd8879 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -1655,10 +1655,9 @@ impl Archive {
         self.ensure_tables_loaded()?;
 
         // First check for strong signature (external to archive)
-        if let Ok(strong_status) = self.verify_strong_signature() {
-            if strong_status != SignatureStatus::None {
-                return Ok(strong_status);
-            }
+        let strong_status = self.verify_strong_signature()?;
+        if strong_status != SignatureStatus::None {
+            return Ok(strong_status);
         }
 
         // Then check for weak signature (inside archive)
@@ -1775,10 +1774,11 @@ impl Archive {
                     }
                 }
             }
-            Err(e) => {
+            Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {
                 log::debug!("Failed to read potential strong signature: {}", e);
                 Ok(SignatureStatus::None)
             }
+            Err(e) => Err(e.into()),
         }
     }
 }
-- 
2.43.0


From d52476497014551800761b7fb8b93feb565e3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:37 +0000
Subject: [PATCH 41/42] fix: archive information reports strong signatures,
 which have no (signature) file

---
 mopaq/src/archive.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index 3fd8879..f2b28b1 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -697,18 +697,16 @@ impl Archive {
             false
         };
 
-        // Verify signature if present
-        let signature_status = if has_signature {
-            match self.verify_signature() {
-                Ok(status) => status,
-                Err(e) => {
-                    log::warn!("Failed to verify signature: {}", e);
-                    SignatureStatus::WeakInvalid
-                }
+        // Verify signature if present; a strong one follows the archive, outside of its files
+        let signature_status = match self.verify_signature() {
+            Ok(status) => status,
+            Err(e) if has_signature => {
+                log::warn!("Failed to verify signature: {}", e);
+                SignatureStatus::WeakInvalid
             }
-        } else {
-            SignatureStatus::None
+            Err(e) => return Err(e),
         };
+        let has_signature = has_signature || signature_status != SignatureStatus::None;
 
         // Build table info
         let hash_table_info = TableInfo {
-- 
2.43.0


From 28a752799c07d297f9a7a32a3185de598b01fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:29 +0000
Subject: [PATCH 42/42] fix: archive information does not reopen the archive by
 its path

---
 mopaq/src/archive.rs | 52 +++++---------------------------------------
 1 file changed, 6 insertions(+), 46 deletions(-)

diff --git a/mopaq/src/archive.rs b/mopaq/src/archive.rs
index f2b28b1..2b57f66 100644
--- a/mopaq/src/archive.rs
+++ b/mopaq/src/archive.rs
@@ -738,28 +738,8 @@ impl Archive {
             // For v3 without v4 data, try to determine the size
             if compressed_size.is_none() && self.header.format_version == header::FormatVersion::V3
             {
-                // Make a copy of the reader to avoid interfering with the main archive
-                if let Ok(temp_reader) =
-                    std::fs::File::open(&self.path).map(std::io::BufReader::new)
-                {
-                    let mut temp_archive = Self {
-                        path: self.path.clone(),
-                        reader: temp_reader,
-                        archive_offset: self.archive_offset,
-                        user_data: self.user_data.clone(),
-                        header: self.header.clone(),
-                        hash_table: None,
-                        block_table: None,
-                        hi_block_table: None,
-                        het_table: None,
-                        bet_table: None,
-                        attributes: None,
-                        tables_loaded: false,
-                    };
-
-                    if let Ok(size) = temp_archive.read_het_table_size(pos) {
-                        compressed_size = Some(size);
-                    }
+                if let Ok(size) = self.read_het_table_size(pos) {
+                    compressed_size = Some(size);
                 }
             }
 
@@ -782,28 +762,8 @@ impl Archive {
             // For v3 without v4 data, try to determine the size
             if compressed_size.is_none() && self.header.format_version == header::FormatVersion::V3
             {
-                // Make a copy of the reader to avoid interfering with the main archive
-                if let Ok(temp_reader) =
-                    std::fs::File::open(&self.path).map(std::io::BufReader::new)
-                {
-                    let mut temp_archive = Self {
-                        path: self.path.clone(),
-                        reader: temp_reader,
-                        archive_offset: self.archive_offset,
-                        user_data: self.user_data.clone(),
-                        header: self.header.clone(),
-                        hash_table: None,
-                        block_table: None,
-                        hi_block_table: None,
-                        het_table: None,
-                        bet_table: None,
-                        attributes: None,
-                        tables_loaded: false,
-                    };
-
-                    if let Ok(size) = temp_archive.read_bet_table_size(pos) {
-                        compressed_size = Some(size);
-                    }
+                if let Ok(size) = self.read_bet_table_size(pos) {
+                    compressed_size = Some(size);
                 }
             }
 
@@ -1604,7 +1564,7 @@ impl Archive {
     }
 
     /// Read HET table size from the table header for V3 archives
-    fn read_het_table_size(&mut self, het_pos: u64) -> Result<u64> {
+    fn read_het_table_size(&self, het_pos: u64) -> Result<u64> {
         // For compressed tables, calculate the actual size based on the next table position
         log::debug!("Determining HET table size from file structure");
 
@@ -1632,7 +1592,7 @@ impl Archive {
     }
 
     /// Read BET table size from the table header for V3 archives
-    fn read_bet_table_size(&mut self, bet_pos: u64) -> Result<u64> {
+    fn read_bet_table_size(&self, bet_pos: u64) -> Result<u64> {
         // For compressed tables, calculate the actual size based on the next table position
         log::debug!("Determining BET table size from file structure");
 
-- 
2.43.0

