From 2b843f48a3a870728b7662d942c7360bd671fd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 01/15] fix: honour the ToC metadata flag when loading a
 segment

---
 src/io/reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/reader.rs b/src/io/reader.rs
index 7d200b7..69020e2 100644
--- a/src/io/reader.rs
+++ b/src/io/reader.rs
@@ -46,14 +46,18 @@ pub trait TdmsReader<R: Read + Seek>: Sized {
         let next_segment_offset = self.read_value()?;
         let raw_data_offset = self.read_value()?;
 
-        //todo handle no meta data mode.
-        let meta_data = self.read_meta()?;
+        // Without the flag there is no metadata: the raw data follows the lead in directly.
+        let meta_data = if toc.contains_meta_data {
+            Some(self.read_meta()?)
+        } else {
+            None
+        };
 
         Ok(Segment {
             toc,
             next_segment_offset,
             raw_data_offset,
-            meta_data: Some(meta_data),
+            meta_data,
         })
     }
 }
-- 
2.43.0


From 257e1b5188aa39e6b2c828e43b90ac12de0788c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 02/15] fix: only write a data-only segment when channels and
 formats all match the live ones

---
 src/file/file_writer.rs | 10 ++++++++--
 src/index/writing.rs    |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 05d9b4b..bedfa83 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -2,7 +2,7 @@ use crate::error::TdmsError;
 use crate::index::{DataFormat, Index};
 use crate::io::data_types::TdmsStorageType;
 use crate::io::writer::TdmsWriter;
-use crate::meta_data::{MetaData, ObjectMetaData, Segment, ToC};
+use crate::meta_data::{MetaData, ObjectMetaData, RawDataIndex, Segment, ToC};
 use crate::paths::ChannelPath;
 use crate::raw_data::{MultiChannelSlice, WriteBlock};
 use crate::{DataLayout, PropertyPath, PropertyValue};
@@ -129,7 +129,13 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
 
         let (matches_live, channels) = index.check_write_values(channels);
 
-        let meta = if matches_live {
+        // The metadata can only be left out if the next block would be read with
+        // exactly the same channels and formats as are currently live.
+        let formats_match = channels
+            .iter()
+            .all(|(_, raw_index)| *raw_index == RawDataIndex::MatchPrevious);
+
+        let meta = if matches_live && formats_match {
             None
         } else {
             let objects: Vec<ObjectMetaData> = channels
diff --git a/src/index/writing.rs b/src/index/writing.rs
index 4ad8ed3..f8241ca 100644
--- a/src/index/writing.rs
+++ b/src/index/writing.rs
@@ -14,7 +14,9 @@ impl Index {
         &self,
         objects: Vec<(&'b str, DataFormat)>,
     ) -> (bool, Vec<(&'b str, RawDataIndex)>) {
-        let live_matches = if !self.active_objects.is_empty() {
+        let live_matches = if !self.active_objects.is_empty()
+            && self.active_objects.len() == objects.len()
+        {
             self.active_objects
                 .iter()
                 .zip(objects.iter())
-- 
2.43.0


From 2757dff3a20c34a60ad2439361056469174336c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:37 +0000
Subject: [PATCH 03/15] fix: use the stored size of timestamp and extended
 values when sizing raw data

---
 src/io/data_types/extended.rs | 2 ++
 src/io/data_types/mod.rs      | 8 ++++----
 src/raw_data/write.rs         | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/io/data_types/extended.rs b/src/io/data_types/extended.rs
index 33d11ef..f933f76 100644
--- a/src/io/data_types/extended.rs
+++ b/src/io/data_types/extended.rs
@@ -33,6 +33,8 @@ impl TdmsStorageType for ExtendedRaw {
 
     const NATURAL_TYPE: DataType = DataType::ExtendedFloat;
 
+    const SIZE_BYTES: usize = EXT_SIZE;
+
     fn read_le(reader: &mut impl Read) -> StorageResult<Self> {
         let mut buffer = [0u8; U128_SIZE];
         reader.read_exact(&mut buffer[0..EXT_SIZE])?;
diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index cf11837..69d62d6 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -73,13 +73,13 @@ impl DataType {
             DataType::I64 | DataType::U64 => 8,
             DataType::SingleFloat => 4,
             DataType::DoubleFloat => 8,
-            DataType::ExtendedFloat => 16,
+            DataType::ExtendedFloat => 10,
             DataType::SingleFloatWithUnit => 4,
             DataType::DoubleFloatWithUnit => 8,
-            DataType::ExtendedFloatWithUnit => 16,
+            DataType::ExtendedFloatWithUnit => 10,
             DataType::TdmsString => 0,
             DataType::Boolean => 1,
-            DataType::Timestamp => 8,
+            DataType::Timestamp => 16,
             DataType::FixedPoint => 8,
             DataType::ComplexSingleFloat => 8,
             DataType::ComplexDoubleFloat => 16,
@@ -124,7 +124,7 @@ pub trait TdmsStorageType: Sized + 'static {
     const SUPPORTED_TYPES: &'static [DataType];
     /// The [`DataType`] that this storage type is naturally written as.
     const NATURAL_TYPE: DataType;
-    /// Size in bytes of the type.
+    /// Size in bytes of the type when stored in the file.
     const SIZE_BYTES: usize = std::mem::size_of::<Self>();
     fn read_le(reader: &mut impl Read) -> StorageResult<Self>;
     fn read_be(reader: &mut impl Read) -> StorageResult<Self>;
diff --git a/src/raw_data/write.rs b/src/raw_data/write.rs
index 4650416..c6e5a54 100644
--- a/src/raw_data/write.rs
+++ b/src/raw_data/write.rs
@@ -33,7 +33,7 @@ impl<D: TdmsStorageType> WriteBlock for &[D] {
     }
 
     fn size(&self) -> usize {
-        std::mem::size_of_val(*self)
+        self.len() * D::SIZE_BYTES
     }
 }
 
-- 
2.43.0


From ffd3048b0643585d702b86bcfb29df13369b6f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:40 +0000
Subject: [PATCH 04/15] fix: correct the type codes of the double and extended
 with unit types

---
 src/io/data_types/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/data_types/mod.rs b/src/io/data_types/mod.rs
index 69d62d6..aac6ec3 100644
--- a/src/io/data_types/mod.rs
+++ b/src/io/data_types/mod.rs
@@ -51,8 +51,8 @@ pub enum DataType {
     DoubleFloat = 10,
     ExtendedFloat = 11,
     SingleFloatWithUnit = 0x19,
-    DoubleFloatWithUnit = 12,
-    ExtendedFloatWithUnit = 13,
+    DoubleFloatWithUnit = 0x1A,
+    ExtendedFloatWithUnit = 0x1B,
     TdmsString = 0x20,
     Boolean = 0x21,
     Timestamp = 0x44,
-- 
2.43.0


From c23233339a97a375b62f4235e82352db850f8f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 05/15] fix: report data blocks outside the addressable range
 instead of overflowing

---
 src/raw_data/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index a437311..c2b7034 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -142,8 +142,19 @@ impl DataBlock {
             return Err(TdmsError::NoActiveChannelsInDataBlock);
         }
 
+        // The whole block must be addressable. Seeks are relative and so use signed offsets.
+        let start = segment
+            .raw_data_offset
+            .checked_add(LEAD_IN_BYTES)
+            .and_then(|offset| offset.checked_add(segment_start))
+            .ok_or(TdmsError::SegmentAddressOverflow)?;
+        match start.checked_add(length.get()) {
+            Some(end) if end <= i64::MAX as u64 => {}
+            _ => return Err(TdmsError::SegmentAddressOverflow),
+        }
+
         Ok(DataBlock {
-            start: segment.raw_data_offset + LEAD_IN_BYTES + segment_start,
+            start,
             length,
             layout,
             channels: active_channels_meta,
-- 
2.43.0


From ee1abc15cdd831730939e443cca236116ecfd219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 06/15] fix: reject empty writes before the segment reaches the
 file

---
 src/file/file_writer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index bedfa83..59744fc 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -115,6 +115,10 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         layout: DataLayout,
     ) -> Result<Self, TdmsError> {
         let channel_count = NonZeroUsize::new(channels.len()).ok_or(TdmsError::NoChannels)?;
+        // The format can't represent an empty data block so catch it before touching the file.
+        if values.is_empty() {
+            return Err(TdmsError::ZeroLengthDataBlock);
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
             .data_structure()
-- 
2.43.0


From 56fa6a30e30626e1ce1f27237abdf94b37e5c10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 07/15] fix: report string channels as unsupported instead of
 corrupting or misreading data

---
 src/file/file_writer.rs | 4 ++++
 src/raw_data/records.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/file/file_writer.rs b/src/file/file_writer.rs
index 59744fc..407600f 100644
--- a/src/file/file_writer.rs
+++ b/src/file/file_writer.rs
@@ -119,6 +119,10 @@ impl<'a, F: Write, W: TdmsWriter<F>> DataStreamWriter<'a, F, W> {
         if values.is_empty() {
             return Err(TdmsError::ZeroLengthDataBlock);
         }
+        // We can't yet describe variable length data in the metadata.
+        if D::NATURAL_TYPE.size() == 0 {
+            return Err(TdmsError::UnsupportedType(D::NATURAL_TYPE));
+        }
         let raw_data = MultiChannelSlice::from_slice(values, channel_count)?;
         let data_structures = raw_data
             .data_structure()
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 913cd21..aaf35df 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -162,6 +162,10 @@ fn validate_types_match<T: TdmsStorageType>(
                 T::NATURAL_TYPE,
             ));
         }
+        // Variable length data cannot be planned.
+        if channels[*output_idx].data_type.size() == 0 {
+            return Err(TdmsError::UnsupportedType(channels[*output_idx].data_type));
+        }
     }
     Ok(())
 }
-- 
2.43.0


From dd35382d32a268b1085650b19ae13a1f8610ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 08/15] fix: append new segments at the position the index
 expects

---
 src/file/mod.rs  | 6 ++++--
 src/index/mod.rs | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index 7f37a88..c475281 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -179,8 +179,10 @@ impl<F: Write + Read + Seek> TdmsFile<F> {
     pub fn writer(
         &mut self,
     ) -> Result<TdmsFileWriter<'_, F, LittleEndianWriter<&mut F>>, TdmsError> {
-        //make sure we are at the end.
-        self.file.seek(SeekFrom::End(0))?;
+        //make sure we are where the next segment is expected. This may not be the end
+        //of the file if the last segment was only partly written.
+        self.file
+            .seek(SeekFrom::Start(self.index.next_segment_start()))?;
         Ok(TdmsFileWriter::new(
             &mut self.index,
             LittleEndianWriter::from_writer(&mut self.file),
diff --git a/src/index/mod.rs b/src/index/mod.rs
index e79241b..77e73b3 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -126,6 +126,11 @@ impl Index {
         Self::default()
     }
 
+    /// Get the file position where the next segment starts.
+    pub fn next_segment_start(&self) -> u64 {
+        self.next_segment_start
+    }
+
     /// Get all of the properties for the given object.
     ///
     /// Returns none if the object does not exist.
-- 
2.43.0


From cff9750f9072cd0ba266f5a1dd48409a49f419c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 09/15] fix: track the samples read per channel when reading
 several channels

---
 src/file/channel_reader.rs | 77 +++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/file/channel_reader.rs b/src/file/channel_reader.rs
index 60b9d93..caf49b0 100644
--- a/src/file/channel_reader.rs
+++ b/src/file/channel_reader.rs
@@ -1,5 +1,5 @@
 use crate::paths::ChannelPath;
-use crate::raw_data::BlockReadChannelConfig;
+use crate::raw_data::{BlockReadChannelConfig, DataBlock};
 use crate::{TdmsFile, error::TdmsError, index::DataLocation, io::data_types::TdmsStorageType};
 
 #[derive(Eq, PartialEq, Clone, Debug)]
@@ -41,6 +41,10 @@ impl ChannelProgress {
     fn add_samples(&mut self, samples: usize) {
         self.samples_read += samples;
     }
+
+    fn samples_remaining(&self) -> usize {
+        self.samples_target.saturating_sub(self.samples_read)
+    }
 }
 
 impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
@@ -169,26 +173,26 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
                     )
                 })?;
 
+            let sample_counts = get_block_sample_counts(&location, block, &channel_progress)?;
+
             // Use fast path if no skip needed, slow path otherwise
-            let location_samples_read = if any_skip_needed {
-                let mut channels_with_skip =
-                    get_block_read_data_with_skip(&location, output, &channel_progress);
-                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?
+            if any_skip_needed {
+                let mut channels_with_skip = get_block_read_data_with_skip(
+                    &location,
+                    output,
+                    &channel_progress,
+                    &sample_counts,
+                );
+                block.read_with_per_channel_skip(&mut self.file, &mut channels_with_skip)?;
             } else {
                 let mut channels_to_read =
-                    get_block_read_data(&location, output, &channel_progress);
-                block.read(&mut self.file, &mut channels_to_read)?
-            };
+                    get_block_read_data(&location, output, &channel_progress, &sample_counts);
+                block.read(&mut self.file, &mut channels_to_read)?;
+            }
 
-            // Update progress
-            for (plan, progress) in location
-                .channel_indexes
-                .iter()
-                .zip(channel_progress.iter_mut())
-            {
-                if plan.is_some() {
-                    progress.add_samples(location_samples_read);
-                }
+            // Update progress. Each channel can read a different number of samples.
+            for (samples_read, progress) in sample_counts.iter().zip(channel_progress.iter_mut()) {
+                progress.add_samples(*samples_read);
             }
 
             if all_channels_complete(&channel_progress) {
@@ -200,23 +204,52 @@ impl<F: std::io::Read + std::io::Seek> TdmsFile<F> {
     }
 }
 
+/// Get the number of samples each channel should read from this particular block.
+///
+/// This is limited to the samples the block holds for the channel after any skip and
+/// to the space left in its output.
+fn get_block_sample_counts(
+    location: &BlockRead,
+    block: &DataBlock,
+    channel_progress: &[ChannelProgress],
+) -> Result<Vec<usize>, TdmsError> {
+    let chunks = block.number_of_chunks()? as u64;
+    let mut sample_counts = Vec::with_capacity(channel_progress.len());
+    for (plan, progress) in location.channel_indexes.iter().zip(channel_progress.iter()) {
+        let count = match plan {
+            Some(plan) => {
+                let samples_in_block = block.channels[plan.index].number_of_values * chunks;
+                let available = samples_in_block.saturating_sub(plan.samples_to_skip);
+                available.min(progress.samples_remaining() as u64) as usize
+            }
+            None => 0,
+        };
+        sample_counts.push(count);
+    }
+    Ok(sample_counts)
+}
+
 /// Get the read parameters and output for this particular block.
 fn get_block_read_data<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    sample_counts: &[usize],
 ) -> Vec<(usize, &'o mut [D])> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(sample_counts.iter())
+        .filter_map(|(((plan, output), progress), count)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel.
-                (Some(plan), progress) => Some((plan.index, &mut output[progress.samples_read..])),
+                (Some(plan), progress) => {
+                    Some((plan.index, &mut output[progress.samples_read..][..*count]))
+                }
                 _ => None,
             }
         })
@@ -228,20 +261,22 @@ fn get_block_read_data_with_skip<'a, 'b: 'o, 'c: 'o, 'o, D: TdmsStorageType>(
     location: &'a BlockRead,
     output: &'b mut [&'c mut [D]],
     channel_progress: &[ChannelProgress],
+    sample_counts: &[usize],
 ) -> Vec<BlockReadChannelConfig<'b, D>> {
     location
         .channel_indexes
         .iter()
         .zip(output.iter_mut())
         .zip(channel_progress.iter())
-        .filter_map(|((plan, output), progress)| {
+        .zip(sample_counts.iter())
+        .filter_map(|(((plan, output), progress), count)| {
             match (plan, progress) {
                 // If we have hit our target, ignore this channel.
                 (Some(_), progress) if progress.is_complete() => None,
                 // More to read - include this channel with its skip amount.
                 (Some(plan), progress) => Some(BlockReadChannelConfig {
                     channel_index: plan.index,
-                    output: &mut output[progress.samples_read..],
+                    output: &mut output[progress.samples_read..][..*count],
                     samples_to_skip: plan.samples_to_skip,
                 }),
                 _ => None,
-- 
2.43.0


From 90554989863ec1dfa7f91aba764d21c5745cd751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 10/15] fix: apply per-channel skips to the right channel and
 across sub-blocks

---
 src/raw_data/contigious_multi_channel_read.rs | 148 +++---------------
 .../interleaved_multi_channel_read.rs         |   7 +-
 src/raw_data/mod.rs                           |  18 +--
 src/raw_data/records.rs                       |   7 +
 4 files changed, 37 insertions(+), 143 deletions(-)

diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index a724010..f430e84 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -31,161 +31,46 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
         }
     }
 
-    /// Read the data from the block for the channels specified into the output slices.
+    /// Read the data from the block for the channels specified into the output slices,
+    /// using the skip amounts provided in the plan.
     ///
     /// Returns the number of values read from the last read channel.
     /// *ASSUMPTION*: All channels have the same number of values available. The spec
     /// doesn't enforce this but all clients have I have seen do.
     ///
+    /// For contiguous data, each channel can skip independently by seeking.
     pub fn read<D: TdmsStorageType>(
-        &mut self,
-        channels: RecordPlan<D>,
-    ) -> Result<usize, TdmsError> {
-        // Since the skip is highly efficient for contiguous data, we can use a
-        // single implementation.
-        self.read_from(channels, 0)
-    }
-
-    /// Read the data from the block starting at a specific sample offset.
-    ///
-    /// For contiguous data, samples are stored sequentially per channel:
-    /// [Ch1 S0][Ch1 S1]...[Ch1 SN][Ch2 S0][Ch2 S1]...
-    ///
-    /// To skip samples, we need to skip within each channel's contiguous data.
-    pub fn read_from<D: TdmsStorageType>(
         &mut self,
         mut channels: RecordPlan<D>,
-        start_sample: u64,
     ) -> Result<usize, TdmsError> {
         self.reader.to_file_position(self.block_start)?;
 
         let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
 
-        // Calculate how many complete sub-blocks to skip and the remainder
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip = start_sample / sub_block_length;
-        let remainder_skip = start_sample % sub_block_length;
-
         let mut length = 0;
 
-        for sub_block_idx in 0..total_sub_blocks {
-            if sub_block_idx < sub_blocks_to_skip {
-                // Skip entire sub-block by seeking past it
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else if sub_block_idx == sub_blocks_to_skip {
-                // First sub-block to read - apply remainder skip
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = remainder_skip;
-                    }
-                }
-                length += self.read_sub_block(&mut channels)?;
-            } else {
-                for channel in channels.read_instructions() {
-                    if let RecordEntryPlan::Read {
-                        block_skip: skip_first_samples,
-                        ..
-                    } = &mut channel.plan
-                    {
-                        *skip_first_samples = 0;
-                    }
-                }
-                // Subsequent sub-blocks - no skip
-                length += self.read_sub_block(&mut channels)?;
-            }
+        for _ in 0..total_sub_blocks {
+            length += self.read_sub_block(&mut channels)?;
         }
 
         Ok(length)
     }
 
-    /// Read the data from the block with per-channel skip amounts.
+    /// Read the data from the block starting at a specific sample offset.
     ///
-    /// For contiguous data, each channel can skip independently by seeking.
-    pub fn read_with_per_channel_skip<D: TdmsStorageType>(
+    /// For contiguous data, samples are stored sequentially per channel:
+    /// [Ch1 S0][Ch1 S1]...[Ch1 SN][Ch2 S0][Ch2 S1]...
+    ///
+    /// To skip samples, we need to skip within each channel's contiguous data.
+    pub fn read_from<D: TdmsStorageType>(
         &mut self,
         mut channels: RecordPlan<D>,
-        skip_amounts: &[u64],
+        start_sample: u64,
     ) -> Result<usize, TdmsError> {
-        self.reader.to_file_position(self.block_start)?;
-
-        let total_sub_blocks = self.block_size.get() / channels.block_size() as u64;
-
-        // Calculate per-channel sub-blocks to skip and remainders
-        let sub_block_length = channels.read_instructions()[0].length as u64;
-        let sub_blocks_to_skip: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip / sub_block_length)
-            .collect();
-        let remainder_skips: Vec<u64> = skip_amounts
-            .iter()
-            .map(|&skip| skip % sub_block_length)
-            .collect();
-
-        let mut length = 0;
-
-        for sub_block_idx in 0..total_sub_blocks {
-            // Check if any channel needs to read from this sub-block
-            let any_channel_reads = sub_blocks_to_skip.iter().all(|&skip| sub_block_idx >= skip);
-
-            if !any_channel_reads {
-                // Skip entire sub-block
-                let skip_bytes = channels.block_size() as i64;
-                self.reader.move_position(skip_bytes)?;
-            } else {
-                // Build skip amounts for this sub-block
-                let channel_skip_values =
-                    channels
-                        .read_instructions()
-                        .iter_mut()
-                        .filter_map(|instruction| {
-                            if let RecordEntryPlan::Read {
-                                block_skip: skip_first_samples,
-                                ..
-                            } = &mut instruction.plan
-                            {
-                                Some(skip_first_samples)
-                            } else {
-                                None
-                            }
-                        });
-                for ((blocks_to_skip, remainder_skip), sub_block_skip) in sub_blocks_to_skip
-                    .iter()
-                    .zip(remainder_skips.iter())
-                    .zip(channel_skip_values)
-                {
-                    *sub_block_skip = Self::calculate_skip_for_this_block(
-                        sub_block_idx,
-                        *blocks_to_skip,
-                        *remainder_skip,
-                    );
-                }
-                length += self.read_sub_block(&mut channels)?;
-            }
-        }
-
-        Ok(length)
-    }
-
-    fn calculate_skip_for_this_block(
-        sub_block_idx: u64,
-        blocks_to_skip: u64,
-        remainder_skip: u64,
-    ) -> u64 {
-        if sub_block_idx == blocks_to_skip {
-            // First sub-block to read for this channel - use remainder
-            remainder_skip
-        } else if sub_block_idx > blocks_to_skip {
-            // Subsequent sub-blocks - no skip
-            0
-        } else {
-            // Should not happen if any_channel_reads is correct
-            0
+        for channel_skip in channels.block_skips_mut() {
+            *channel_skip = start_sample;
         }
+        self.read(channels)
     }
 
     fn read_sub_block<D: TdmsStorageType>(
@@ -204,6 +89,9 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
 
                     let samples_to_read = read_instruction.length.saturating_sub(skip);
 
+                    // Whatever is left is skipped from the next sub-block.
+                    *skip_first_samples -= skip as u64;
+
                     // Skip samples by seeking
                     if skip > 0 {
                         let skip_bytes = skip as i64 * D::SIZE_BYTES as i64;
diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index e39e548..d4863e4 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -74,9 +74,10 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
                         let read_value = self.reader.read_value()?;
 
                         // Only write if we've skipped enough for this channel
-                        if row >= *block_skip
-                            && let Some(value) = output.next()
-                        {
+                        if row < *block_skip {
+                            // This channel is still to be read from a later row.
+                            any_values_read = true;
+                        } else if let Some(value) = output.next() {
                             *value = read_value;
                             any_values_read = true;
                         }
diff --git a/src/raw_data/mod.rs b/src/raw_data/mod.rs
index c2b7034..3ef82c6 100644
--- a/src/raw_data/mod.rs
+++ b/src/raw_data/mod.rs
@@ -335,13 +335,14 @@ impl DataBlock {
         channels_to_read: &'b mut [BlockReadChannelConfig<'b, D>],
     ) -> Result<usize, TdmsError> {
         // Extract skip amounts first (before mutable borrow)
-        let skip_amounts: Vec<u64> = channels_to_read
+        let skip_amounts: Vec<(usize, u64)> = channels_to_read
             .iter()
             .map(
                 |BlockReadChannelConfig {
+                     channel_index,
                      samples_to_skip: skip,
                      ..
-                 }| *skip,
+                 }| (*channel_index, *skip),
             )
             .collect();
 
@@ -358,6 +359,9 @@ impl DataBlock {
             .collect();
 
         let mut record_plan = RecordPlan::build_record_plan(&self.channels, &mut channel_refs)?;
+        for (channel_index, skip_amount) in skip_amounts {
+            record_plan.set_block_skip(channel_index, skip_amount);
+        }
 
         match (self.layout, self.byte_order) {
             (DataLayout::Contigious, Endianess::Big) => MultiChannelContiguousReader::<_, _>::new(
@@ -365,19 +369,16 @@ impl DataBlock {
                 self.start,
                 self.length,
             )
-            .read_with_per_channel_skip(record_plan, &skip_amounts),
+            .read(record_plan),
             (DataLayout::Contigious, Endianess::Little) => {
                 MultiChannelContiguousReader::<_, _>::new(
                     LittleEndianReader::from_reader(reader),
                     self.start,
                     self.length,
                 )
-                .read_with_per_channel_skip(record_plan, &skip_amounts)
+                .read(record_plan)
             }
             (DataLayout::Interleaved, Endianess::Big) => {
-                for (plan_skip, skip_amount) in record_plan.block_skips_mut().zip(skip_amounts) {
-                    *plan_skip = skip_amount;
-                }
                 MultiChannelInterleavedReader::<_, _>::new(
                     BigEndianReader::from_reader(reader),
                     self.start,
@@ -386,9 +387,6 @@ impl DataBlock {
                 .read(record_plan)
             }
             (DataLayout::Interleaved, Endianess::Little) => {
-                for (plan_skip, skip_amount) in record_plan.block_skips_mut().zip(skip_amounts) {
-                    *plan_skip = skip_amount;
-                }
                 MultiChannelInterleavedReader::<_, _>::new(
                     LittleEndianReader::from_reader(reader),
                     self.start,
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index aaf35df..7f8f6c4 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -92,6 +92,13 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         })
     }
 
+    /// Set the samples to skip for a channel which is being read.
+    pub fn set_block_skip(&mut self, channel_index: usize, samples_to_skip: u64) {
+        if let RecordEntryPlan::Read { block_skip, .. } = &mut self.0[channel_index].plan {
+            *block_skip = samples_to_skip;
+        }
+    }
+
     /// Get the size of a single record in bytes.
     ///
     /// ## Panics
-- 
2.43.0


From fdf34ae047b759d9b0242695fb82873ad238e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 11/15] fix: parse object paths whose names contain the
 separator or escaped quotes

---
 src/paths.rs | 53 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index f22f764..1d876c6 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -33,9 +33,7 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
         return Ok((None, None));
     }
 
-    let mut parts = path
-        .split('/')
-        .skip(1)
+    let mut parts = split_names(path)
         .map(|p| parse_name(p).ok_or_else(|| TdmsError::InvalidObjectPath(path.to_string())));
     let group = invert(parts.next())?;
     let channel = invert(parts.next())?;
@@ -48,13 +46,32 @@ fn parse_path(path: ObjectPath<'_>) -> Result<(Option<&str>, Option<&str>), Tdms
     Ok((group, channel))
 }
 
+/// Split the path into its names including their quotes.
+///
+/// Names can contain the separator so only split where it is between a closing
+/// and an opening quote.
+fn split_names(path: ObjectPath<'_>) -> impl Iterator<Item = &str> {
+    let mut remaining = path.strip_prefix('/');
+    std::iter::from_fn(move || {
+        let names = remaining?;
+        // The first character is the opening quote.
+        match names.get(1..).and_then(|name| name.find("'/'")) {
+            Some(name_length) => {
+                let (name, others) = names.split_at(name_length + 2);
+                remaining = others.strip_prefix('/');
+                Some(name)
+            }
+            None => {
+                remaining = None;
+                Some(names)
+            }
+        }
+    })
+}
+
 //expects name with quotes and removes the quotes.
 fn parse_name(name: &str) -> Option<&str> {
-    if !name.starts_with('\'') || !name.ends_with('\'') {
-        return None;
-    }
-
-    Some(&name[1..name.len() - 1])
+    name.strip_prefix('\'')?.strip_suffix('\'')
 }
 
 /// Get the group name for the path, if one exists.
@@ -118,13 +135,7 @@ impl PropertyPath {
 
     /// Get the levels of the path structure
     fn path_levels(&self) -> impl Iterator<Item = &str> {
-        self.0.split('/').skip(1).filter_map(|value| {
-            if value.starts_with("'") && value.ends_with("'") {
-                Some(&value[1..value.len() - 1])
-            } else {
-                None
-            }
-        })
+        split_names(&self.0).filter_map(parse_name)
     }
 
     /// Get the group name from the path, if there is one.
@@ -164,7 +175,7 @@ impl PropertyPath {
     }
 
     fn path_depth(&self) -> usize {
-        self.0.chars().filter(|c| *c == '/').count()
+        self.path_levels().count()
     }
 
     fn is_channel(&self) -> bool {
@@ -188,13 +199,9 @@ impl<'a> TryFrom<ObjectPath<'a>> for PropertyPath {
     type Error = TdmsError;
 
     fn try_from(value: ObjectPath) -> Result<Self, Self::Error> {
-        let parsed = parse_path(value)?;
-        match parsed {
-            (None, None) => Ok(Self::file()),
-            (Some(group), None) => Ok(Self::group(group)),
-            (Some(group), Some(channel)) => Ok(Self::channel(group, channel)),
-            _ => unreachable!(),
-        }
+        parse_path(value)?;
+        // The names are already escaped so must be kept as they are.
+        Ok(Self(value.to_string()))
     }
 }
 
-- 
2.43.0


From 6eb5e53614b08fae84e2ec8379389ed3daa04b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 12/15] fix: only list channels which are in the requested
 group

---
 src/file/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/mod.rs b/src/file/mod.rs
index c475281..3b03750 100644
--- a/src/file/mod.rs
+++ b/src/file/mod.rs
@@ -148,7 +148,11 @@ impl<F: Read + Seek> TdmsFile<F> {
         group: &'b PropertyPath,
     ) -> impl Iterator<Item = ChannelPath> + 'c {
         let paths = self.index.paths_starting_with(group.path());
-        paths.filter_map(|path| ChannelPath::try_from(path).ok())
+        // A group name with an escaped quote can share our prefix without being in our group.
+        let group_name = group.group_name();
+        paths
+            .filter(move |path| group_name.is_none() || path_group_name(path) == group_name)
+            .filter_map(|path| ChannelPath::try_from(path).ok())
     }
 }
 
-- 
2.43.0


From 7f08e2a6070bd307e5b59ee11ad4a755cfbb3aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 13/15] fix: do not overflow the channel length of a corrupt
 file

---
 src/index/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 77e73b3..37d4d7d 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -177,7 +177,7 @@ impl Index {
                 .data_locations
                 .iter()
                 .map(|location| location.number_of_samples)
-                .sum()
+                .fold(0, u64::saturating_add)
         })
     }
 
-- 
2.43.0


From d44330710ab0864b5614da3aa631bffa9ba588bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 14/15] fix: stop reading a contiguous block once the outputs
 are full

---
 src/raw_data/contigious_multi_channel_read.rs | 5 +++++
 src/raw_data/records.rs                       | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/raw_data/contigious_multi_channel_read.rs b/src/raw_data/contigious_multi_channel_read.rs
index f430e84..9c304f0 100644
--- a/src/raw_data/contigious_multi_channel_read.rs
+++ b/src/raw_data/contigious_multi_channel_read.rs
@@ -51,6 +51,11 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelContiguousReader<R, T> {
 
         for _ in 0..total_sub_blocks {
             length += self.read_sub_block(&mut channels)?;
+
+            // A corrupt file can claim far more sub-blocks than it has data.
+            if channels.outputs_complete() {
+                break;
+            }
         }
 
         Ok(length)
diff --git a/src/raw_data/records.rs b/src/raw_data/records.rs
index 7f8f6c4..bd93672 100644
--- a/src/raw_data/records.rs
+++ b/src/raw_data/records.rs
@@ -99,6 +99,14 @@ impl<'o, 'b: 'o, T: TdmsStorageType> RecordPlan<'o, T> {
         }
     }
 
+    /// Check if there is no space left in any of the outputs.
+    pub fn outputs_complete(&self) -> bool {
+        self.0.iter().all(|entry| match &entry.plan {
+            RecordEntryPlan::Read { output, .. } => output.len() == 0,
+            RecordEntryPlan::Skip(_) => true,
+        })
+    }
+
     /// Get the size of a single record in bytes.
     ///
     /// ## Panics
-- 
2.43.0


From da8c0b43a2d8c3f7c0d273922f74e8240ed266e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 15/15] fix: do not overflow the row skip of an interleaved
 block with unequal channels

---
 src/raw_data/interleaved_multi_channel_read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raw_data/interleaved_multi_channel_read.rs b/src/raw_data/interleaved_multi_channel_read.rs
index d4863e4..e148e8b 100644
--- a/src/raw_data/interleaved_multi_channel_read.rs
+++ b/src/raw_data/interleaved_multi_channel_read.rs
@@ -49,7 +49,12 @@ impl<R: Read + Seek, T: TdmsReader<R>> MultiChannelInterleavedReader<R, T> {
         let total_row_count = self.block_size.get() / channels.row_size() as u64;
 
         // Find minimum skip (we can skip entire rows up to this point)
-        let min_skip = channels.block_skips().min().unwrap_or(0);
+        // A corrupt file can claim more samples for a channel than there are rows.
+        let min_skip = channels
+            .block_skips()
+            .min()
+            .unwrap_or(0)
+            .min(total_row_count);
 
         // Skip entire rows
         if min_skip > 0 {
-- 
2.43.0

