From a660028a949886d07ad200796e6ed05d17b3aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 01/14] fix: add_partition_at must keep the whole partition
 inside a free section

The length was compared to the whole section, ignoring the offset of first_lba in
it, so a partition could overlap the following one or leave the usable area.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ca48a1..b15cf24 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,7 +603,12 @@ where
         }
 
         for (starting_lba, length) in self.find_free_sectors() {
-            if !(first_lba >= starting_lba && length_lba <= length) {
+            // the requested sectors must all be part of this free section
+            let fits = first_lba
+                .checked_sub(starting_lba)
+                .and_then(|offset| length.checked_sub(offset))
+                .map_or(false, |available| length_lba <= available);
+            if !fits {
                 continue;
             }
 
-- 
2.43.0


From af81d167cfa6663902d3099f021c134b2e12b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 02/14] fix: write records the disk guid set with update_guid

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index b15cf24..868c68a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -879,6 +879,7 @@ where
         trace!("old backup lba: {}", bak);
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
+            .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
-- 
2.43.0


From 5475205afc176c7d3173b2dedb2ad830e79129a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 03/14] fix: compute the partition array size without u32
 overflow

---
 src/header/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index d56b9a8..5a95995 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -132,8 +132,8 @@ impl HeaderBuilder {
             (self.backup_lba, self.primary_lba)
         };
 
-        let part_array_size = self.num_parts * self.part_size;
-        let part_array_lbs = u64_div_ceil(part_array_size as u64, lb_size.as_u64());
+        let part_array_size = u64::from(self.num_parts) * u64::from(self.part_size);
+        let part_array_lbs = u64_div_ceil(part_array_size, lb_size.as_u64());
 
         let first_usable = self.first_usable.max(
             // mbr, header, part_array
-- 
2.43.0


From a9ee5f39cfdd72bb4cd6328106c3d4dff1b5c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:56 +0000
Subject: [PATCH 04/14] fix: never place the backup partition array over the
 backup header

last_usable was raised to the end of the disk but never lowered to it, so growing
the partition count (or shrinking the disk) left the backup partition array
overlapping the backup header. The usable area of a grown disk is still extended.
---
 src/header/builder.rs | 16 ++++++++++------
 src/lib.rs            |  8 +++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 5a95995..f0419cf 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -140,12 +140,16 @@ impl HeaderBuilder {
             1 + 1 + part_array_lbs,
         );
 
-        let last_usable = self.last_usable.max(
-            // last is inclusive: end of disk is (partition array) (backup header)
-            self.backup_lba
-                .checked_sub(part_array_lbs + 1)
-                .ok_or(HeaderError::BackupLbaToEarly)?,
-        );
+        // last is inclusive: end of disk is (partition array) (backup header)
+        let max_last_usable = self
+            .backup_lba
+            .checked_sub(part_array_lbs + 1)
+            .ok_or(HeaderError::BackupLbaToEarly)?;
+        let last_usable = match self.last_usable {
+            // not set
+            0 => max_last_usable,
+            last_usable => last_usable.min(max_last_usable),
+        };
 
         if first_usable > last_usable {
             return Err(HeaderError::BackupLbaToEarly);
diff --git a/src/lib.rs b/src/lib.rs
index 868c68a..bd2fa0f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -822,7 +822,13 @@ where
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
         let num_parts = self.partitions.len() as u32;
 
-        let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
+        let mut builder = header::HeaderBuilder::from_maybe_header(self.try_header());
+        if matches!(self.try_header(), Ok(h) if bak > h.current_lba.max(h.backup_lba)) {
+            // the disk has grown, make the new space usable
+            builder.last_usable(0);
+        }
+
+        let h1 = builder
             .num_parts(num_parts)
             .backup_lba(bak)
             .disk_guid(self.guid)
-- 
2.43.0


From 26fe356f691706d0fd5a3b5fa40e9a8288e5eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 05/14] fix: do not shrink the partition count of an opened
 disk

update_partitions replaced the number of partition entries of the header with the
number of partitions, even if changing it was not allowed.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd2fa0f..559b4b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -820,7 +820,9 @@ where
     /// header.
     pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
-        let num_parts = self.partitions.len() as u32;
+        // the partition count never shrinks
+        let num_parts = (self.partitions.len() as u32)
+            .max(self.try_header().map_or(0, |header| header.num_parts));
 
         let mut builder = header::HeaderBuilder::from_maybe_header(self.try_header());
         if matches!(self.try_header(), Ok(h) if bak > h.current_lba.max(h.backup_lba)) {
-- 
2.43.0


From 928a6a096d0c448e3f3039579387a85d54073cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:58 +0000
Subject: [PATCH 06/14] fix: return an error instead of panicking on an
 unsupported partition entry size

---
 src/partition.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/partition.rs b/src/partition.rs
index e8df308..ec55c0b 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -258,7 +258,12 @@ pub fn file_read_partitions<D: Read + Seek>(
     let mut parts: BTreeMap<u32, Partition> = BTreeMap::new();
 
     // todo how should we deal with unuals part_sizes?
-    assert_eq!(header.part_size, 128);
+    if header.part_size != 128 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "unsupported partition entry size (must be 128)",
+        ));
+    }
 
     trace!("scanning {} partitions", header.num_parts);
     let mut empty_parts = 0;
-- 
2.43.0


From 5d2d8b3e7483ed58fd59032fa4d29f0a97cb6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:59 +0000
Subject: [PATCH 07/14] fix: do not ignore a failed seek when reading a header

---
 src/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index 222478c..a322aa2 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -322,7 +322,7 @@ pub(crate) fn file_read_header<D: Read + Seek>(
     file: &mut D,
     offset: u64,
 ) -> Result<Header, HeaderError> {
-    let _ = file.seek(SeekFrom::Start(offset));
+    let _ = file.seek(SeekFrom::Start(offset))?;
 
     let mut bytes = BytesArray::from([0u8; 92]);
     file.read_exact(bytes.as_mut())?;
-- 
2.43.0


From 85a9eba17efe27d9ef3768249f0ab86df3c27ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:00 +0000
Subject: [PATCH 08/14] fix: add_partition panicked on an alignment of zero or
 close to u64::MAX

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 559b4b9..9772188 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -519,8 +519,9 @@ where
             // We don't need to do any checked math here because we guarantee that with `(A % B)`,
             // `A` will always be between 0 and `B-1`.
             let alignment_offset_lba = match part_alignment {
+                // calculate_alignment returns 0 if there is nothing to align to
+                None | Some(0) => 0_u64,
                 Some(alignment) => (alignment - (starting_lba % alignment)) % alignment,
-                None => 0_u64,
             };
 
             debug!(
@@ -528,7 +529,7 @@ where
                 starting_lba, length, alignment_offset_lba
             );
 
-            if length >= (alignment_offset_lba + size_lba) {
+            if length >= alignment_offset_lba.saturating_add(size_lba) {
                 let starting_lba = starting_lba + alignment_offset_lba;
                 // Found our free slice.
                 let partition_id = self
-- 
2.43.0


From 44edc5b05700cec52ab755c7e02de0a1d6c1a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:51 +0000
Subject: [PATCH 09/14] fix: find_free_sectors returned used sectors for
 overlapping partitions

It paired up the sorted partition boundaries, which is only right if the partitions
are disjoint and inside the usable area, and panicked on headers or partitions at
the limits of u64. A table read from disk guarantees neither.
---
 src/lib.rs | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9772188..40b6257 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -715,34 +715,35 @@ where
         let header = self.header();
 
         trace!("first_usable: {}", header.first_usable);
-        // a list of boundaries between partitions each point is a used lba
-        let mut disk_positions = vec![header.first_usable - 1];
+        trace!("last_usable: {}", header.last_usable);
+        let mut used_sections = vec![];
         for part in self.partitions().iter().filter(|p| p.1.is_used()) {
             trace!(
                 "used partition: ({}, {})",
                 part.1.first_lba,
                 part.1.last_lba
             );
-            disk_positions.push(part.1.first_lba);
-            disk_positions.push(part.1.last_lba);
+            used_sections.push((part.1.first_lba, part.1.last_lba));
         }
-        disk_positions.push(header.last_usable + 1);
-        trace!("last_usable: {}", header.last_usable);
-        disk_positions.sort_unstable();
-
-        disk_positions
-            // Walk through the LBA's in chunks of 2 (ending, starting).
-            .chunks_exact(2)
-            // Add 1 to the ending and then subtract the starting if NOT the first usable sector
-            .filter_map(|p| {
-                // free lba
-                let start = p[0] + 1;
-                let end = p[1] - 1;
-
-                #[allow(clippy::unnecessary_lazy_evaluations)]
-                (start <= end).then(|| (start, end - start + 1))
-            })
-            .collect()
+        used_sections.sort_unstable();
+
+        // Walk through the used sections, which might overlap or be unusable. All ends are
+        // exclusive.
+        let usable_end = header.last_usable.saturating_add(1);
+        let mut free_sections = vec![];
+        let mut start = header.first_usable;
+        for (first_lba, last_lba) in used_sections {
+            let end = first_lba.min(usable_end);
+            if start < end {
+                free_sections.push((start, end - start));
+            }
+            start = start.max(first_lba.max(last_lba).saturating_add(1));
+        }
+        if start < usable_end {
+            free_sections.push((start, usable_end - start));
+        }
+
+        free_sections
     }
 
     /// Find next highest partition id.
-- 
2.43.0


From 1de8a7c6448155bce33221eec1c01e5293f93361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 10/14] fix: adding a partition must leave enough partition
 entries to write all of them

Only the new id was compared to the partition count. If update_partitions had set
ids above it, more partitions could be added than there are entries, and write
failed after it had already overwritten the partition array.
---
 src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 40b6257..3a8ce7b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -545,7 +545,7 @@ where
 
                 // let's try to increase the num parts
                 // because partition_id 0 will never exist the num_parts is without + 1
-                let num_parts_changes = self.header().num_parts_would_change(partition_id);
+                let num_parts_changes = self.num_parts_would_change_with(partition_id);
                 if num_parts_changes && !self.config.change_partition_count {
                     return Err(GptError::PartitionCountWouldChange);
                 }
@@ -628,7 +628,7 @@ where
 
             // let's try to increase the num parts
             // because partition_id 0 will never exist the num_parts is without + 1
-            let num_parts_changes = self.header().num_parts_would_change(id);
+            let num_parts_changes = self.num_parts_would_change_with(id);
 
             if num_parts_changes && !self.config.change_partition_count {
                 return Err(GptError::PartitionCountWouldChange);
@@ -659,6 +659,19 @@ where
         Err(GptError::NotEnoughSpace)
     }
 
+    /// Returns true if the num parts changes once the given id is used
+    ///
+    /// Partitions can have an id bigger than num parts, so both the id and the amount of
+    /// partitions need to be considered.
+    fn num_parts_would_change_with(&self, id: u32) -> bool {
+        let mut partitions_len = self.partitions.len() as u32;
+        if !self.partitions.contains_key(&id) {
+            partitions_len += 1;
+        }
+        self.header()
+            .num_parts_would_change(partitions_len.max(id))
+    }
+
     /// calculate sector alignment based on the current partitions
     /// in order to promise uniform alignment
     /// return 0 if no partitions existed
-- 
2.43.0


From ab6dcef1d36d271e4267a597087665a037c2ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:18 +0000
Subject: [PATCH 11/14] fix: leave the partitions unchanged if adding or
 updating them fails

The table was already replaced when computing the headers failed, for example
because the disk has no room for more partition entries.
---
 src/lib.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3a8ce7b..c0061bd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -558,12 +558,14 @@ where
                     flags,
                     name: name.to_string(),
                 };
-                if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
+                let old = self.partitions.insert(partition_id, part.clone());
+                if let Some(p) = &old {
                     debug!("Replacing\n{}\nwith\n{}", p, part);
                 }
                 if num_parts_changes {
                     // update headers
-                    self.init_headers()?;
+                    self.init_headers()
+                        .map_err(|e| self.restore_partition(partition_id, old, e))?;
                 }
                 return Ok(partition_id);
             }
@@ -643,13 +645,15 @@ where
                 name: name.to_string(),
             };
 
-            if let Some(p) = self.partitions.insert(id, part.clone()) {
+            let old = self.partitions.insert(id, part.clone());
+            if let Some(p) = &old {
                 debug!("Replacing\n{}\nwith\n{}", p, part);
             }
 
             if num_parts_changes {
                 // update headers
-                self.init_headers()?;
+                self.init_headers()
+                    .map_err(|e| self.restore_partition(id, old, e))?;
             }
 
             return Ok(id);
@@ -659,6 +663,20 @@ where
         Err(GptError::NotEnoughSpace)
     }
 
+    /// Undo adding a partition, passes on the error which made that necessary
+    fn restore_partition(
+        &mut self,
+        id: u32,
+        old: Option<partition::Partition>,
+        e: GptError,
+    ) -> GptError {
+        match old {
+            Some(p) => self.partitions.insert(id, p),
+            None => self.partitions.remove(&id),
+        };
+        e
+    }
+
     /// Returns true if the num parts changes once the given id is used
     ///
     /// Partitions can have an id bigger than num parts, so both the id and the amount of
@@ -826,9 +844,12 @@ where
             return Err(GptError::PartitionCountWouldChange);
         }
 
-        self.partitions = pp;
+        let old = std::mem::replace(&mut self.partitions, pp);
 
-        self.init_headers()
+        self.init_headers().map_err(|e| {
+            self.partitions = old;
+            e
+        })
     }
 
     /// Makes sure there exists a primary header and if allowed also creates the backup
-- 
2.43.0


From 90958a71b7c25dadccbdd334534f6d25854fd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:19 +0000
Subject: [PATCH 12/14] fix: do not split a surrogate pair when a partition
 name is too long

---
 src/partition.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index ec55c0b..2f964a4 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -85,8 +85,16 @@ impl Partition {
         buf.write_all(&self.flags.to_le_bytes())?;
 
         // Partition name as UTF16-LE.
-        for utf16_char in self.name.encode_utf16().take(36) {
-            buf.write_all(&utf16_char.to_le_bytes())?; // TODO: Check this
+        let mut name_len = 0;
+        for c in self.name.chars() {
+            name_len += c.len_utf16();
+            // don't split a surrogate pair
+            if name_len > 36 {
+                break;
+            }
+            for utf16_char in c.encode_utf16(&mut [0; 2]) {
+                buf.write_all(&utf16_char.to_le_bytes())?; // TODO: Check this
+            }
         }
 
         // Resize buffer to exact entry size.
-- 
2.43.0


From b370b5502891c8bda4bc0cc9372300ce2efc8f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:02 +0000
Subject: [PATCH 13/14] fix: do not overflow when computing the position of a
 partition entry

---
 src/partition.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index 2f964a4..c3c16dc 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -130,12 +130,13 @@ impl Partition {
         let pstart = start_lba
             .checked_mul(lb_size.into())
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow - start offset"))?;
-        // The offset is bytes_per_partition * partition_index
+        // The offset is pstart + bytes_per_partition * partition_index
         let offset = partition_index
             .checked_mul(u64::from(bytes_per_partition))
+            .and_then(|offset| pstart.checked_add(offset))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        trace!("seeking to partition start: {}", offset);
+        device.seek(SeekFrom::Start(offset))?;
         trace!("writing {:?}", &self.as_bytes(bytes_per_partition));
         device.write_all(&self.as_bytes(bytes_per_partition)?)?;
 
@@ -163,9 +164,10 @@ impl Partition {
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow - start offset"))?;
         let offset = starting_partition_index
             .checked_mul(u64::from(bytes_per_partition))
+            .and_then(|offset| pstart.checked_add(offset))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to starting partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        trace!("seeking to starting partition start: {}", offset);
+        device.seek(SeekFrom::Start(offset))?;
         let bytes_to_zero = u64::from(bytes_per_partition)
             .checked_mul(number_entries)
             .and_then(|x| usize::try_from(x).ok())
-- 
2.43.0


From d617891d8fe0c5bc65cff064ed4a0f3dc0e0faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 14/14] fix: do not overflow on a header at the last possible
 block which is its own backup

---
 src/header/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index f0419cf..1671cb8 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -122,7 +122,7 @@ impl HeaderBuilder {
     /// - backup_lba
     pub fn build(&mut self, lb_size: LogicalBlockSize) -> Result<Header, HeaderError> {
         // validate data
-        if self.backup_lba < self.primary_lba {
+        if self.backup_lba <= self.primary_lba {
             return Err(HeaderError::MissingBackupLba);
         }
 
-- 
2.43.0

