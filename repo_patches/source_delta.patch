From 949a4a48fb46eccd66abf9a638637f48e14eadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 01/20] fix: add_partition_at must not place a partition
 outside of the free section

Only the start and the length were compared with the free section, so a
partition starting late in (or even behind) a section was accepted and
could overlap the next partition or leave the usable range.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ca48a1..4389097 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -603,7 +603,11 @@ where
         }
 
         for (starting_lba, length) in self.find_free_sectors() {
-            if !(first_lba >= starting_lba && length_lba <= length) {
+            // the whole range needs to be inside this free section
+            if !(first_lba >= starting_lba
+                && length_lba <= length
+                && first_lba - starting_lba <= length - length_lba)
+            {
                 continue;
             }
 
-- 
2.43.0


From 7961b6c2853b0eed3320425fc0bb8616da99502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 02/20] fix: write a disk guid set with update_guid

write_inplace copied the guid from the old header, so update_guid had no
effect on the device.
---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4389097..e6a0f7d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -879,6 +879,7 @@ where
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
             .primary(true)
+            .disk_guid(self.guid)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
 
-- 
2.43.0


From 2a45d90a9dee60d6027518b26a0e96702ddcb3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 03/20] fix: return an error instead of panicking for
 unsupported entry sizes

A valid header may describe entries larger than 128 bytes, opening such a
disk panicked.
---
 src/partition.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/partition.rs b/src/partition.rs
index e8df308..ec55c0b 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -258,7 +258,12 @@ pub fn file_read_partitions<D: Read + Seek>(
     let mut parts: BTreeMap<u32, Partition> = BTreeMap::new();
 
     // todo how should we deal with unuals part_sizes?
-    assert_eq!(header.part_size, 128);
+    if header.part_size != 128 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "unsupported partition entry size (must be 128)",
+        ));
+    }
 
     trace!("scanning {} partitions", header.num_parts);
     let mut empty_parts = 0;
-- 
2.43.0


From 140aab93211cdbe8f672cb23c387662e7863fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:27 +0000
Subject: [PATCH 04/20] fix: report a failed seek when reading a header

The error was dropped and the header read from wherever the device was
positioned.
---
 src/header/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index 222478c..a322aa2 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -322,7 +322,7 @@ pub(crate) fn file_read_header<D: Read + Seek>(
     file: &mut D,
     offset: u64,
 ) -> Result<Header, HeaderError> {
-    let _ = file.seek(SeekFrom::Start(offset));
+    let _ = file.seek(SeekFrom::Start(offset))?;
 
     let mut bytes = BytesArray::from([0u8; 92]);
     file.read_exact(bytes.as_mut())?;
-- 
2.43.0


From c78ef9630285448108098fdf475c5ce28be470d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 05/20] fix: accept any alignment in add_partition

An alignment of zero, which calculate_alignment returns for an empty
table, divided by zero, and the sum of a huge alignment and the size
overflowed.
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e6a0f7d..c52451f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -518,9 +518,10 @@ where
             // Get the distance between the starting LBA of this section and the next aligned LBA
             // We don't need to do any checked math here because we guarantee that with `(A % B)`,
             // `A` will always be between 0 and `B-1`.
+            // An alignment of zero (see `calculate_alignment`) means no alignment.
             let alignment_offset_lba = match part_alignment {
+                Some(0) | None => 0_u64,
                 Some(alignment) => (alignment - (starting_lba % alignment)) % alignment,
-                None => 0_u64,
             };
 
             debug!(
@@ -528,7 +529,7 @@ where
                 starting_lba, length, alignment_offset_lba
             );
 
-            if length >= (alignment_offset_lba + size_lba) {
+            if length >= alignment_offset_lba.saturating_add(size_lba) {
                 let starting_lba = starting_lba + alignment_offset_lba;
                 // Found our free slice.
                 let partition_id = self
-- 
2.43.0


From 6ecd5a9df82ca539a732bfac7607d161758da404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 06/20] fix: compute the size of the partition array without
 overflow

num_parts * part_size was computed in 32 bits, and the array position
ignored where the primary header really is.
---
 src/header/builder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index d56b9a8..02cd62f 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -132,12 +132,14 @@ impl HeaderBuilder {
             (self.backup_lba, self.primary_lba)
         };
 
-        let part_array_size = self.num_parts * self.part_size;
-        let part_array_lbs = u64_div_ceil(part_array_size as u64, lb_size.as_u64());
+        let part_array_size = u64::from(self.num_parts) * u64::from(self.part_size);
+        let part_array_lbs = u64_div_ceil(part_array_size, lb_size.as_u64());
 
         let first_usable = self.first_usable.max(
             // mbr, header, part_array
-            1 + 1 + part_array_lbs,
+            self.primary_lba
+                .checked_add(1 + part_array_lbs)
+                .ok_or(HeaderError::Overflow("primary partition array"))?,
         );
 
         let last_usable = self.last_usable.max(
-- 
2.43.0


From 28a7dff7f67ab657ab20014135414e9727ddf936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 07/20] fix: never let the usable range reach into the backup
 partition array

last_usable was only ever raised. When the partition count grew (or the
disk got smaller) the usable range kept its old end, and the backup
array, which starts behind it, ran over the backup header.
---
 src/header/builder.rs | 15 +++++++++------
 src/lib.rs            |  2 ++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 02cd62f..5c455c7 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -142,12 +142,15 @@ impl HeaderBuilder {
                 .ok_or(HeaderError::Overflow("primary partition array"))?,
         );
 
-        let last_usable = self.last_usable.max(
-            // last is inclusive: end of disk is (partition array) (backup header)
-            self.backup_lba
-                .checked_sub(part_array_lbs + 1)
-                .ok_or(HeaderError::BackupLbaToEarly)?,
-        );
+        // last is inclusive: end of disk is (partition array) (backup header)
+        let max_last_usable = self
+            .backup_lba
+            .checked_sub(part_array_lbs + 1)
+            .ok_or(HeaderError::BackupLbaToEarly)?;
+        let last_usable = match self.last_usable {
+            0 => max_last_usable,
+            n => n.min(max_last_usable),
+        };
 
         if first_usable > last_usable {
             return Err(HeaderError::BackupLbaToEarly);
diff --git a/src/lib.rs b/src/lib.rs
index c52451f..f2f9528 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -825,6 +825,7 @@ where
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
             .backup_lba(bak)
+            .last_usable(0)
             .disk_guid(self.guid)
             .primary(true)
             .build(self.config.lb_size)?;
@@ -880,6 +881,7 @@ where
 
         let primary_header = header::HeaderBuilder::from_header(self.header())
             .primary(true)
+            .last_usable(0)
             .disk_guid(self.guid)
             .build(self.config.lb_size)?;
         let primary_header = self.primary_header.insert_ok(primary_header);
-- 
2.43.0


From c4c47d38b4d1dca5fe5702a5f18bbb247d3644f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 08/20] fix: do not take a header without a backup for a backup
 header

With backup_lba 0 the primary header was computed to be in lba 0, and
writing overwrote the mbr.
---
 src/header/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/header/builder.rs b/src/header/builder.rs
index 5c455c7..ef782bc 100644
--- a/src/header/builder.rs
+++ b/src/header/builder.rs
@@ -37,7 +37,8 @@ impl HeaderBuilder {
 
     /// Creates a new `HeaderBuilder` using the values from an existing Header
     pub fn from_header(header: &Header) -> Self {
-        let primary = header.current_lba < header.backup_lba;
+        // a primary header without a backup might have its backup_lba set to zero
+        let primary = header.current_lba < header.backup_lba || header.backup_lba == 0;
 
         let (primary_lba, backup_lba) = if primary {
             (header.current_lba, header.backup_lba)
-- 
2.43.0


From eb7fd03bd087e35df8506921f8d0602cb9a56ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 09/20] fix: size the partition table for the highest partition
 number

The number of entries was derived from how many partitions there are, so
it shrank on disks with more entries and could be too small for the
partition just added, making write fail after it had overwritten half of
the table. The headers are now also computed before the partitions are
changed, so that a failure leaves them as they were.
---
 src/lib.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f2f9528..3688dfe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -318,7 +318,7 @@ impl GptConfig {
             sync_all: None,
         };
         // setup default headers
-        disk.init_headers()?;
+        disk.init_headers(0)?;
         Ok(disk)
     }
 }
@@ -549,6 +549,10 @@ where
                 if num_parts_changes && !self.config.change_partition_count {
                     return Err(GptError::PartitionCountWouldChange);
                 }
+                if num_parts_changes {
+                    // update headers
+                    self.init_headers(partition_id)?;
+                }
 
                 let part = partition::Partition {
                     part_type_guid: part_type,
@@ -561,10 +565,6 @@ where
                 if let Some(p) = self.partitions.insert(partition_id, part.clone()) {
                     debug!("Replacing\n{}\nwith\n{}", p, part);
                 }
-                if num_parts_changes {
-                    // update headers
-                    self.init_headers()?;
-                }
                 return Ok(partition_id);
             }
         }
@@ -632,6 +632,10 @@ where
             if num_parts_changes && !self.config.change_partition_count {
                 return Err(GptError::PartitionCountWouldChange);
             }
+            if num_parts_changes {
+                // update headers
+                self.init_headers(id)?;
+            }
 
             let part = partition::Partition {
                 part_type_guid: part_type,
@@ -646,11 +650,6 @@ where
                 debug!("Replacing\n{}\nwith\n{}", p, part);
             }
 
-            if num_parts_changes {
-                // update headers
-                self.init_headers()?;
-            }
-
             return Ok(id);
         }
 
@@ -804,23 +803,27 @@ where
         assert!(!pp.contains_key(&0));
 
         // TODO(lucab): validate partitions.
-        let num_parts = pp.len() as u32;
+        let num_parts = pp.keys().next_back().copied().unwrap_or(0);
 
         let num_parts_changes = self.header().num_parts_would_change(num_parts);
         if num_parts_changes && !self.config.change_partition_count {
             return Err(GptError::PartitionCountWouldChange);
         }
 
+        self.init_headers(num_parts)?;
         self.partitions = pp;
 
-        self.init_headers()
+        Ok(())
     }
 
     /// Makes sure there exists a primary header and if allowed also creates the backup
     /// header.
-    pub(crate) fn init_headers(&mut self) -> Result<(), GptError> {
+    ///
+    /// The headers will have room for at least `num_parts` partitions.
+    pub(crate) fn init_headers(&mut self, num_parts: u32) -> Result<(), GptError> {
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
-        let num_parts = self.partitions.len() as u32;
+        // never reduce the number of partitions
+        let num_parts = self.try_header().map_or(0, |h| h.num_parts).max(num_parts);
 
         let h1 = header::HeaderBuilder::from_maybe_header(self.try_header())
             .num_parts(num_parts)
-- 
2.43.0


From b73d0d262873f554972005ceea04c52874e04eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 10/20] fix: find_free_sectors must not report used or unusable
 sectors as free

---
 src/lib.rs | 53 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3688dfe..875005d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -713,34 +713,45 @@ where
         let header = self.header();
 
         trace!("first_usable: {}", header.first_usable);
-        // a list of boundaries between partitions each point is a used lba
-        let mut disk_positions = vec![header.first_usable - 1];
+        trace!("last_usable: {}", header.last_usable);
+        // all used areas sorted by their start, they might overlap
+        let mut used: Vec<(u64, u64)> = vec![];
         for part in self.partitions().iter().filter(|p| p.1.is_used()) {
             trace!(
                 "used partition: ({}, {})",
                 part.1.first_lba,
                 part.1.last_lba
             );
-            disk_positions.push(part.1.first_lba);
-            disk_positions.push(part.1.last_lba);
+            used.push((
+                part.1.first_lba.min(part.1.last_lba),
+                part.1.first_lba.max(part.1.last_lba),
+            ));
         }
-        disk_positions.push(header.last_usable + 1);
-        trace!("last_usable: {}", header.last_usable);
-        disk_positions.sort_unstable();
-
-        disk_positions
-            // Walk through the LBA's in chunks of 2 (ending, starting).
-            .chunks_exact(2)
-            // Add 1 to the ending and then subtract the starting if NOT the first usable sector
-            .filter_map(|p| {
-                // free lba
-                let start = p[0] + 1;
-                let end = p[1] - 1;
-
-                #[allow(clippy::unnecessary_lazy_evaluations)]
-                (start <= end).then(|| (start, end - start + 1))
-            })
-            .collect()
+        used.sort_unstable();
+
+        let mut free = vec![];
+        // the first lba not known to be used
+        let mut start = Some(header.first_usable);
+        for (first, last) in used {
+            match start {
+                Some(s) if s <= last => {
+                    if s < first && s <= header.last_usable {
+                        let end = header.last_usable.min(first - 1);
+                        free.push((s, (end - s).saturating_add(1)));
+                    }
+                    start = last.checked_add(1);
+                }
+                _ => {}
+            }
+        }
+        match start {
+            Some(s) if s <= header.last_usable => {
+                free.push((s, (header.last_usable - s).saturating_add(1)));
+            }
+            _ => {}
+        }
+
+        free
     }
 
     /// Find next highest partition id.
-- 
2.43.0


From 57f14cdd90860f5c8c20c114e64240a87bf37e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 11/20] fix: keep the number of every partition when writing
 the table

---
 src/lib.rs | 87 +++++++++++++++++++++++-------------------------------
 1 file changed, 37 insertions(+), 50 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 875005d..939bbbb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -910,26 +910,44 @@ where
             None
         };
 
-        // Write all of the used partitions at the start of the partition array.
-        let mut next_partition_index = 0;
-        for (part_idx, partition) in self
-            .partitions
-            .clone()
-            .iter()
-            .filter(|p| p.1.is_used())
-            .enumerate()
-        {
-            // don't allow us to overflow partition array...
-            // todo this should not be possible since we
-            // check in add partition that it is valid
-            if part_idx >= primary_header.num_parts as usize {
-                return Err(GptError::OverflowPartitionCount);
-            }
+        // don't allow us to overflow partition array...
+        // todo this should not be possible since we
+        // check in add partition that it is valid
+        let highest_id = self.partitions.iter().rfind(|p| p.1.is_used());
+        if highest_id.map_or(false, |p| *p.0 > primary_header.num_parts) {
+            return Err(GptError::OverflowPartitionCount);
+        }
+
+        // First, write zeros to the primary/backup partition array
+        // (ensures any newly deleted partitions are truly removed from disk, etc.)
+        partition::Partition::write_zero_entries_to_device(
+            &mut self.device,
+            0,
+            primary_header.num_parts as u64,
+            primary_header.part_start,
+            self.config.lb_size,
+            primary_header.part_size,
+        )?;
+        if let Some(backup_header) = &backup_header {
+            partition::Partition::write_zero_entries_to_device(
+                &mut self.device,
+                0,
+                backup_header.num_parts as u64,
+                backup_header.part_start,
+                self.config.lb_size,
+                backup_header.part_size,
+            )?;
+        }
+
+        // Next, write all of the used partitions. The number of a partition is given by
+        // its position in the partition array, so every partition needs to keep its slot.
+        for (id, partition) in self.partitions.iter().filter(|p| p.1.is_used()) {
+            let part_idx = u64::from(*id) - 1;
 
             // Write to primary partition array
-            partition.1.write_to_device(
+            partition.write_to_device(
                 &mut self.device,
-                part_idx as u64,
+                part_idx,
                 primary_header.part_start,
                 self.config.lb_size,
                 primary_header.part_size,
@@ -938,47 +956,16 @@ where
             // area to store the partition array; otherwise backup header will not point
             // to an up to date partition array on disk.
             if let Some(backup_header) = &backup_header {
-                if part_idx >= backup_header.num_parts as usize {
-                    return Err(GptError::OverflowPartitionCount);
-                }
-
                 if primary_header.part_start != backup_header.part_start {
-                    partition.1.write_to_device(
+                    partition.write_to_device(
                         &mut self.device,
-                        part_idx as u64,
+                        part_idx,
                         backup_header.part_start,
                         self.config.lb_size,
                         backup_header.part_size,
                     )?;
                 }
             }
-            next_partition_index = part_idx + 1;
-        }
-
-        // Next, write zeros to the rest of the primary/backup partition array
-        // (ensures any newly deleted partitions are truly removed from disk, etc.)
-        // NOTE: we should never underflow here because of boundary checking in loop above.
-        partition::Partition::write_zero_entries_to_device(
-            &mut self.device,
-            next_partition_index as u64,
-            (primary_header.num_parts as u64)
-                .checked_sub(next_partition_index as u64)
-                .unwrap(),
-            primary_header.part_start,
-            self.config.lb_size,
-            primary_header.part_size,
-        )?;
-        if let Some(backup_header) = &backup_header {
-            partition::Partition::write_zero_entries_to_device(
-                &mut self.device,
-                next_partition_index as u64,
-                (backup_header.num_parts as u64)
-                    .checked_sub(next_partition_index as u64)
-                    .unwrap(),
-                backup_header.part_start,
-                self.config.lb_size,
-                backup_header.part_size,
-            )?;
         }
 
         if let Some(backup_header) = backup_header {
-- 
2.43.0


From cd3ffae5728d25950c5bd210f30327c6a54fe7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 12/20] fix: keep one copy of the table intact while writing
 the other one

---
 src/lib.rs | 102 +++++++++++++++++++++++++++--------------------------
 1 file changed, 52 insertions(+), 50 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 939bbbb..02223b2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -893,6 +893,15 @@ where
         let bak = header::find_backup_lba(&mut self.device, self.config.lb_size)?;
         trace!("old backup lba: {}", bak);
 
+        let primary = header::read_primary_header(&mut self.device, self.config.lb_size);
+        let backup = header::read_backup_header(&mut self.device, self.config.lb_size);
+        let [primary_intact, backup_intact] = [primary, backup].map(|header| match header {
+            Ok(h) => {
+                partition::file_read_partitions(&mut self.device, &h, self.config.lb_size).is_ok()
+            }
+            Err(_) => false,
+        });
+
         let primary_header = header::HeaderBuilder::from_header(self.header())
             .primary(true)
             .last_usable(0)
@@ -918,69 +927,62 @@ where
             return Err(GptError::OverflowPartitionCount);
         }
 
-        // First, write zeros to the primary/backup partition array
-        // (ensures any newly deleted partitions are truly removed from disk, etc.)
-        partition::Partition::write_zero_entries_to_device(
-            &mut self.device,
-            0,
-            primary_header.num_parts as u64,
-            primary_header.part_start,
-            self.config.lb_size,
-            primary_header.part_size,
-        )?;
-        if let Some(backup_header) = &backup_header {
+        // While one copy of the table gets written the other one needs to be intact. So the
+        // backup gets written first, except if it is the only intact copy.
+        let headers = if backup_intact && !primary_intact {
+            [Some(primary_header), backup_header]
+        } else {
+            [backup_header, Some(primary_header)]
+        };
+
+        let mut end_of_primary = 0;
+        for header in headers.into_iter().flatten() {
+            // First, write zeros to the partition array
+            // (ensures any newly deleted partitions are truly removed from disk, etc.)
             partition::Partition::write_zero_entries_to_device(
                 &mut self.device,
                 0,
-                backup_header.num_parts as u64,
-                backup_header.part_start,
+                header.num_parts as u64,
+                header.part_start,
                 self.config.lb_size,
-                backup_header.part_size,
+                header.part_size,
             )?;
-        }
 
-        // Next, write all of the used partitions. The number of a partition is given by
-        // its position in the partition array, so every partition needs to keep its slot.
-        for (id, partition) in self.partitions.iter().filter(|p| p.1.is_used()) {
-            let part_idx = u64::from(*id) - 1;
+            // Next, write all of the used partitions. The number of a partition is given by
+            // its position in the partition array, so every partition needs to keep its slot.
+            for (id, partition) in self.partitions.iter().filter(|p| p.1.is_used()) {
+                partition.write_to_device(
+                    &mut self.device,
+                    u64::from(*id) - 1,
+                    header.part_start,
+                    self.config.lb_size,
+                    header.part_size,
+                )?;
+            }
 
-            // Write to primary partition array
-            partition.write_to_device(
-                &mut self.device,
-                part_idx,
-                primary_header.part_start,
-                self.config.lb_size,
-                primary_header.part_size,
-            )?;
-            // IMPORTANT: must also write it to the backup header if it uses a different
-            // area to store the partition array; otherwise backup header will not point
-            // to an up to date partition array on disk.
-            if let Some(backup_header) = &backup_header {
-                if primary_header.part_start != backup_header.part_start {
-                    partition.write_to_device(
-                        &mut self.device,
-                        part_idx,
-                        backup_header.part_start,
-                        self.config.lb_size,
-                        backup_header.part_size,
-                    )?;
-                }
+            if header.current_lba < header.backup_lba {
+                debug!("Writing primary header");
+                header.write_primary(&mut self.device, self.config.lb_size)?;
+            } else {
+                debug!("Writing backup header");
+                header.write_backup(&mut self.device, self.config.lb_size)?;
             }
-        }
 
-        if let Some(backup_header) = backup_header {
-            debug!("Writing backup header");
-            backup_header.write_backup(&mut self.device, self.config.lb_size)?;
-        }
-        debug!("Writing primary header");
-        primary_header.write_primary(&mut self.device, self.config.lb_size)?;
+            // this copy must be complete before the other one gets touched
+            self.device.flush()?;
 
-        self.device.flush()?;
+            if let Some(sync_all) = self.sync_all {
+                sync_all(&mut self.device)?;
+            }
 
-        if let Some(sync_all) = self.sync_all {
-            sync_all(&mut self.device)?;
+            if header.current_lba < header.backup_lba {
+                end_of_primary = self.device.stream_position()?;
+            }
         }
 
+        // the position should not depend on the order above
+        self.device.seek(io::SeekFrom::Start(end_of_primary))?;
+
         Ok(())
     }
 }
-- 
2.43.0


From eadcc4f134560bba102533371e46bd131b23ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:24 +0000
Subject: [PATCH 13/20] fix: write the backup to the end of the current device

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 02223b2..2916657 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -902,7 +902,12 @@ where
             Err(_) => false,
         });
 
-        let primary_header = header::HeaderBuilder::from_header(self.header())
+        let mut builder = header::HeaderBuilder::from_header(self.header());
+        if !self.config.readonly_backup {
+            // the size of the device might not be the one the header was made for
+            builder.backup_lba(bak);
+        }
+        let primary_header = builder
             .primary(true)
             .last_usable(0)
             .disk_guid(self.guid)
-- 
2.43.0


From 51980f63ca1e2caf2d25e323271213d87a097a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 14/20] fix: open from the backup if the primary partition
 table is damaged

---
 src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2916657..a79cf60 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -283,7 +283,19 @@ impl GptConfig {
         };
 
         let header = h1.as_ref().or(h2.as_ref()).unwrap();
-        let table = partition::file_read_partitions(&mut device, header, self.lb_size)?;
+        let table = partition::file_read_partitions(&mut device, header, self.lb_size);
+
+        let (h1, table) = match (table, &h1, &h2) {
+            // the primary table is damaged but the backup might be intact
+            (Err(e), Ok(_), Ok(h2)) if !self.only_valid_headers => {
+                match partition::file_read_partitions(&mut device, h2, self.lb_size) {
+                    Ok(table) => (Err(HeaderError::Io(e)), table),
+                    Err(_) => return Err(e.into()),
+                }
+            }
+            (table, _, _) => (h1, table?),
+        };
+        let header = h1.as_ref().or(h2.as_ref()).unwrap();
 
         let disk = GptDisk {
             config: self,
-- 
2.43.0


From ae3ed841e382dd7883c5745e2df6904b0fa8edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 15/20] fix: recognize the guid of a partition type in every
 notation

---
 src/macros.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 00447a9..0b126b4 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -36,10 +36,8 @@ pub mod pub_macros {
                         )+
                         _ => {
                             match ::uuid::Uuid::from_str(s) {
-                                Ok(u) => Ok(Type {
-                                    guid: u,
-                                    os: OperatingSystem::None,
-                                }),
+                                // might be a known guid in another notation
+                                Ok(u) => Ok(u.into()),
                                 Err(_) => Err("Invalid Partition Type GUID.".to_string()),
                             }
                         }
-- 
2.43.0


From e790ee6f339e8d1d71815306b372782b91ae4175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:43 +0000
Subject: [PATCH 16/20] fix: return an error if the position of a partition
 entry overflows

---
 src/partition.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index ec55c0b..f14218d 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -126,8 +126,11 @@ impl Partition {
         let offset = partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         trace!("writing {:?}", &self.as_bytes(bytes_per_partition));
         device.write_all(&self.as_bytes(bytes_per_partition)?)?;
 
@@ -156,8 +159,11 @@ impl Partition {
         let offset = starting_partition_index
             .checked_mul(u64::from(bytes_per_partition))
             .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
-        trace!("seeking to starting partition start: {}", pstart + offset);
-        device.seek(SeekFrom::Start(pstart + offset))?;
+        let start = pstart
+            .checked_add(offset)
+            .ok_or_else(|| Error::new(ErrorKind::Other, "partition overflow"))?;
+        trace!("seeking to starting partition start: {}", start);
+        device.seek(SeekFrom::Start(start))?;
         let bytes_to_zero = u64::from(bytes_per_partition)
             .checked_mul(number_entries)
             .and_then(|x| usize::try_from(x).ok())
-- 
2.43.0


From 5926cf723e63bd6fb5601835311e913923c838d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 17/20] fix: verify the checksum of the partition table without
 holding it in memory

---
 src/partition.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/partition.rs b/src/partition.rs
index f14218d..f933e02 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -271,6 +271,21 @@ pub fn file_read_partitions<D: Read + Seek>(
         ));
     }
 
+    // don't keep anything before the checksum is verified, the table might be larger than
+    // the available memory
+    debug!("checking partition table CRC");
+    let mut digest = CRC_32.digest();
+    for _ in 0..header.num_parts {
+        let mut bytes = [0u8; 128];
+        file.read_exact(&mut bytes)?;
+        digest.update(&bytes);
+    }
+    let comp_crc = digest.finalize();
+    if comp_crc != header.crc32_parts {
+        return Err(Error::new(ErrorKind::Other, "partition table CRC mismatch"));
+    }
+
+    let _ = file.seek(SeekFrom::Start(pstart))?;
     trace!("scanning {} partitions", header.num_parts);
     let mut empty_parts = 0;
     let empty_bytes = [0u8; 128];
@@ -313,19 +328,6 @@ pub fn file_read_partitions<D: Read + Seek>(
     }
     debug!("Num Zeroed partitions {:?}\n\n", empty_parts);
 
-    debug!("checking partition table CRC");
-    let _ = file.seek(SeekFrom::Start(pstart))?;
-    let pt_len = u64::from(header.num_parts)
-        .checked_mul(header.part_size.into())
-        .ok_or_else(|| Error::new(ErrorKind::Other, "partitions - size"))?;
-    let mut table = vec![0; pt_len as usize];
-    file.read_exact(&mut table)?;
-
-    let comp_crc = CRC_32.checksum(&table);
-    if comp_crc != header.crc32_parts {
-        return Err(Error::new(ErrorKind::Other, "partition table CRC mismatch"));
-    }
-
     Ok(parts)
 }
 
-- 
2.43.0


From 16b7fb0c9b6b91dda4548ac13687c229cad8f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 18/20] fix: a partition may end at the last possible block

The end of a free section was computed as start + length - 1, which
overflows (and panics) if the section ends at the last 64 bit address, as
on a damaged disk.
---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a79cf60..916a9cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -552,7 +552,7 @@ where
                     partition_id,
                     part_type,
                     starting_lba,
-                    starting_lba + size_lba - 1_u64
+                    starting_lba + (size_lba - 1_u64)
                 );
 
                 // let's try to increase the num parts
@@ -570,7 +570,7 @@ where
                     part_type_guid: part_type,
                     part_guid: uuid::Uuid::new_v4(),
                     first_lba: starting_lba,
-                    last_lba: starting_lba + size_lba - 1_u64,
+                    last_lba: starting_lba + (size_lba - 1_u64),
                     flags,
                     name: name.to_string(),
                 };
@@ -634,7 +634,7 @@ where
                 id,
                 part_type,
                 first_lba,
-                first_lba + length_lba - 1_u64
+                first_lba + (length_lba - 1_u64)
             );
 
             // let's try to increase the num parts
@@ -653,7 +653,7 @@ where
                 part_type_guid: part_type,
                 part_guid: uuid::Uuid::new_v4(),
                 first_lba,
-                last_lba: first_lba + length_lba - 1_u64,
+                last_lba: first_lba + (length_lba - 1_u64),
                 flags,
                 name: name.to_string(),
             };
-- 
2.43.0


From ca851241ca332e2453bdc2fbc2bc9c88d52c69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 19/20] fix: never write the partition table beyond the end of
 the device

With a read-only backup the size of the device was not looked at. If the
device had become too small for the partition array (or the disk was
moved to a smaller device) the array was written beyond its end, which
extends a file, and the write reported success.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 916a9cd..74061e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -915,8 +915,13 @@ where
         });
 
         let mut builder = header::HeaderBuilder::from_header(self.header());
-        if !self.config.readonly_backup {
-            // the size of the device might not be the one the header was made for
+        // the size of the device might not be the one the header was made for
+        if self.config.readonly_backup {
+            // the header keeps pointing to the backup, but the table needs to fit on the device
+            let mut on_device = builder.clone();
+            on_device.backup_lba(bak).last_usable(0);
+            on_device.build(self.config.lb_size)?;
+        } else {
             builder.backup_lba(bak);
         }
         let primary_header = builder
-- 
2.43.0


From e08c3a53d5feb195f82bee6f444f0ec5fb44dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:37 +0000
Subject: [PATCH 20/20] fix: an outdated header must not become intact again
 during a write

---
 src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 74061e3..f209176 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -907,6 +907,7 @@ where
 
         let primary = header::read_primary_header(&mut self.device, self.config.lb_size);
         let backup = header::read_backup_header(&mut self.device, self.config.lb_size);
+        let [primary_valid, backup_valid] = [primary.is_ok(), backup.is_ok()];
         let [primary_intact, backup_intact] = [primary, backup].map(|header| match header {
             Ok(h) => {
                 partition::file_read_partitions(&mut self.device, &h, self.config.lb_size).is_ok()
@@ -959,6 +960,24 @@ where
 
         let mut end_of_primary = 0;
         for header in headers.into_iter().flatten() {
+            // A valid header without its array is outdated. It must not become intact again if
+            // the array looks, for a moment, like the one it was made for.
+            let torn = if header.current_lba < header.backup_lba {
+                primary_valid && !primary_intact
+            } else {
+                backup_valid && !backup_intact
+            };
+            if torn {
+                let start = header.current_lba * self.config.lb_size.as_u64();
+                self.device.seek(io::SeekFrom::Start(start))?;
+                self.device.write_all(&[0; 92])?;
+                self.device.flush()?;
+
+                if let Some(sync_all) = self.sync_all {
+                    sync_all(&mut self.device)?;
+                }
+            }
+
             // First, write zeros to the partition array
             // (ensures any newly deleted partitions are truly removed from disk, etc.)
             partition::Partition::write_zero_entries_to_device(
-- 
2.43.0

