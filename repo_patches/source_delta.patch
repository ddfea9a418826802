From 57e8e2a2884c56983062a52197ceffcbe716b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 01/25] fix: bd-rt num_cpus returned the address of the
 function instead of the configured count

---
 bd-rt/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bd-rt/src/lib.rs b/bd-rt/src/lib.rs
index bb7a809..edb87b8 100644
--- a/bd-rt/src/lib.rs
+++ b/bd-rt/src/lib.rs
@@ -27,7 +27,7 @@ pub const MAX_RT_THREADPOOL_SIZE: usize = 4096;
 /// an explicit hint by e.g. our init system or kubelet or w/e, then falls back
 /// to the number of CPUs the host reports.
 ///
-/// Returns values in the range `[1, USIZE_MAX]`.
+/// Returns values in the range `[1, MAX_RT_THREADPOOL_SIZE]`.
 pub fn num_cpus() -> usize {
   // Extract the number of CPU shares we're allocated from the NUM_CPUS env
   // var, if it's given. Kubernetes environments will use this to tell us at
@@ -36,12 +36,12 @@ pub fn num_cpus() -> usize {
   if let Ok(num_cpus_env) = std::env::var("NUM_CPUS") {
     match num_cpus_env.parse::<f64>() {
       Ok(fractional_cpus) => {
-        if !fractional_cpus.is_normal() {
-          log::warn!(
-            "env variable NUM_CPUS set to subnormal float `{fractional_cpus}`; ignoring it"
-          );
+        if fractional_cpus.is_normal() {
+          // Float to integer casts truncate and saturate.
+          #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+          return (fractional_cpus as usize).clamp(1, MAX_RT_THREADPOOL_SIZE);
         }
-        return std::cmp::max(1, num_cpus as usize);
+        log::warn!("env variable NUM_CPUS set to non-normal float `{fractional_cpus}`; ignoring it");
       },
       Err(_) => {
         log::warn!("non-numeric value in `NUM_CPUS` environment variable; ignoring it");
-- 
2.43.0


From 7e709afe2ca124c7724b2d34f957baf5f7f57cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 02/25] fix: bd-key-value aborts on a stored value whose length
 prefix is damaged

Decode from the slice instead of through a reader: the reader based path allocates whatever length
the damaged text claims before looking at what is there (capacity overflow panic or allocation abort).
---
 bd-key-value/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-key-value/src/lib.rs b/bd-key-value/src/lib.rs
index 56c0ef3..9a61535 100644
--- a/bd-key-value/src/lib.rs
+++ b/bd-key-value/src/lib.rs
@@ -114,7 +114,7 @@ impl Store {
         let result = base64::engine::general_purpose::STANDARD.decode(base64);
         Ok(result.map_or_else(
           |e| anyhow::bail!("failed to decode base64 value: {:?}", e),
-          |bytes| match bincode::deserialize_from::<_, T>(&bytes[..]) {
+          |bytes| match bincode::deserialize::<T>(&bytes) {
             Ok(model) => Ok(Some(model)),
             Err(e) => anyhow::bail!("failed to deserialize model: {:?}", e),
           },
-- 
2.43.0


From e7de4e6c3fbc0af107da1e9caa735c95f28c43bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 03/25] fix: reject a buffer file whose optional index tags are
 neither None nor Some

The tags are mapped from the file but not covered by the header crc32, so a corrupted tag was used as an
invalid Option and led to a panic when the record was released. Report data loss, as for any other damaged
header.
---
 .../src/buffer/non_volatile_ring_buffer.rs     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index f0cf69c..f73b47f 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -795,6 +795,24 @@ impl RingBufferImpl {
       })?
     };
 
+    // The optional indexes are mapped directly from the file. A tag other than 0 (None) or 1 (Some)
+    // is not covered by the header crc32 and is not a valid Option, so it must not be looked at as one.
+    if !created_file
+      && [
+        offset_of!(FileHeader, committed_write_start),
+        offset_of!(FileHeader, last_write_end_before_wrap),
+        offset_of!(FileHeader, next_read_start),
+      ]
+      .iter()
+      .any(|&tag| u32::from_ne_bytes(memory[tag .. tag + 4].try_into().unwrap()) > 1)
+    {
+      log::error!("({name}) file corruption via bad index tag");
+      return Err(Error::AbslStatus(
+        AbslCode::DataLoss,
+        "file corruption via bad index tag".to_string(),
+      ));
+    }
+
     #[allow(clippy::ptr_as_ptr, clippy::cast_ptr_alignment)]
     let file_header_address = memory.as_mut_ptr() as *mut FileHeader;
     let file_header = unsafe { file_header_address.as_mut().unwrap() };
-- 
2.43.0


From 738db9c43a0a64d240779d0fbb56cab4aff50dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 04/25] fix: give back records that a cursor consumer drops as
 corrupted

A cursor read that skips a corrupted record left no reservation for it, so the next advance moved the
persisted read position by the wrong record's size: acknowledged records were delivered again after a
restart, unacknowledged ones were lost, and the space was never given back. Advance past dropped records in
order: at once when nothing older is being read, otherwise together with the reads before them.
---
 bd-buffer/src/buffer/common_ring_buffer.rs    | 17 ++++++++++++
 .../src/buffer/non_volatile_ring_buffer.rs    | 27 +++++++++++++++++--
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/bd-buffer/src/buffer/common_ring_buffer.rs b/bd-buffer/src/buffer/common_ring_buffer.rs
index 070b873..0a95b51 100644
--- a/bd-buffer/src/buffer/common_ring_buffer.rs
+++ b/bd-buffer/src/buffer/common_ring_buffer.rs
@@ -319,6 +319,23 @@ impl<ExtraLockedData> LockedData<ExtraLockedData> {
     Ok(size)
   }
 
+  // Returns the oldest stored record if the cursor has passed it and it is not the oldest record that
+  // is still being read.
+  pub fn next_dropped_cursor_read(&mut self, oldest_read: Option<u32>) -> Option<Range> {
+    let next_read_start = *self.next_read_start();
+    if next_read_start.is_none()
+      || next_read_start == oldest_read.or(self.next_cursor_read_start)
+    {
+      return None;
+    }
+    // The cursor has passed the record so its size was good.
+    let size = self.load_next_read_size(Cursor::No).ok()?;
+    Some(Range {
+      start: next_read_start?,
+      size: size + self.extra_bytes_per_record,
+    })
+  }
+
   // Checks to see if the wrap gap (the space after last_write_end_before_wrap) in this reservation
   // (if applicable) intersects with another range.
   const fn intersect_in_wrap_gap(
diff --git a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
index f73b47f..f4d21a0 100644
--- a/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
+++ b/bd-buffer/src/buffer/non_volatile_ring_buffer.rs
@@ -587,6 +587,10 @@ impl RingBufferCursorConsumer for CursorConsumerImpl {
       &next_reservation,
     );
     write_header_crc32(&mut common_ring_buffer);
+    finish_dropped_cursor_reads(
+      &mut common_ring_buffer,
+      &parent.common_ring_buffer.conditions,
+    );
     parent.no_consumer_reservation_condition.notify_all();
     Ok(())
   }
@@ -1090,6 +1094,22 @@ fn compute_header_crc_32(
   })
 }
 
+// Advance past records which a cursor consumer dropped due to corruption, up to the oldest record that
+// is still being read or, if there is none, up to the cursor.
+fn finish_dropped_cursor_reads(
+  common_ring_buffer: &mut MutexGuard<'_, LockedData<ExtraLockedData>>,
+  conditions: &Conditions,
+) {
+  let oldest_read = match common_ring_buffer.extra_locked_data.consumer.as_ref() {
+    Some(ConsumerType::CursorConsumer(c)) => c.front().map(|r| r.start),
+    _ => return,
+  };
+  while let Some(dropped) = common_ring_buffer.next_dropped_cursor_read(oldest_read) {
+    LockedData::finish_read_common(common_ring_buffer, conditions, &dropped);
+    write_header_crc32(common_ring_buffer);
+  }
+}
+
 // Common start read handling for regular and cursor consumers.
 fn common_consumer_start_read<'a>(
   common_ring_buffer: &'a mut MutexGuard<'_, LockedData<ExtraLockedData>>,
@@ -1131,8 +1151,9 @@ fn common_consumer_start_read<'a>(
 
         // What we do here depends on whether we are in cursor mode or not. If not in cursor mode
         // we need to finish the read so we advance past the record and can accept a new start
-        // read reservation. If we are in cursor mode, we can simply null out the reservation as
-        // it has not yet been committed to the reservation list.
+        // read reservation. If we are in cursor mode, the record has not been committed to the
+        // reservation list. We need to advance past it in order, so either now or along with the
+        // last outstanding read before it.
         if matches!(cursor, Cursor::No) {
           LockedData::finish_read_common(
             common_ring_buffer,
@@ -1140,6 +1161,8 @@ fn common_consumer_start_read<'a>(
             reservation.as_ref().unwrap(),
           );
           write_header_crc32(common_ring_buffer);
+        } else {
+          finish_dropped_cursor_reads(common_ring_buffer, conditions);
         }
 
         *reservation = None;
-- 
2.43.0


From 1c60e7e6df3514fc2bb165feef4492d1a1c4e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 05/25] fix: bd-log-matcher accepted an integer comparison
 without an operator

---
 bd-log-matcher/src/matcher.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bd-log-matcher/src/matcher.rs b/bd-log-matcher/src/matcher.rs
index c4c1cb4..a659143 100644
--- a/bd-log-matcher/src/matcher.rs
+++ b/bd-log-matcher/src/matcher.rs
@@ -133,6 +133,7 @@ pub struct IntMatch {
 impl IntMatch {
   fn new(operator: Operator, value: i32) -> Result<Self> {
     match operator {
+      Operator::OPERATOR_UNSPECIFIED => Err(anyhow!("UNSPECIFIED operator")),
       // Regex operator is not valid for int32
       Operator::OPERATOR_REGEX => Err(anyhow!("regex does not support int32")),
       _ => Ok(Self { operator, value }),
-- 
2.43.0


From d659296c27ed9e2faefca71cfc057f470f3a503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 06/25] fix: bd-log-filter replaced a binary field although
 overriding was not allowed

---
 bd-log-filter/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bd-log-filter/src/lib.rs b/bd-log-filter/src/lib.rs
index 3480d9c..db15ee3 100644
--- a/bd-log-filter/src/lib.rs
+++ b/bd-log-filter/src/lib.rs
@@ -275,7 +275,7 @@ impl SetField {
   }
 
   fn apply(&self, log: &mut Log) {
-    if !self.is_override_allowed && log.field_value(&self.field_name).is_some() {
+    if !self.is_override_allowed && has_field(log, &self.field_name) {
       // Return if a field with the desired field name already exists and the transform is not
       // allowed to override existing values.
       return;
@@ -395,6 +395,18 @@ fn set_field(fields: &mut LogFields, field: LogField) {
   fields.push(field);
 }
 
+// Whether the log has a field with a given name, whatever the type of its value.
+fn has_field(log: &Log, key: &str) -> bool {
+  matches!(
+    key,
+    LOG_FIELD_NAME_MESSAGE | LOG_FIELD_NAME_LEVEL | LOG_FIELD_NAME_TYPE
+  ) || log
+    .fields
+    .iter()
+    .chain(log.matching_fields.iter())
+    .any(|f| f.key == key)
+}
+
 trait FieldProvider {
   fn field_value(&self, key: &str) -> Option<Cow<'_, str>>;
 }
-- 
2.43.0


From 345b29957b37121ab15cc2d7e93f43f8dac8a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 07/25] fix: bd-time ceil left a time just past a multiple of
 the interval unrounded

---
 bd-time/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 640e411..3bb94cc 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -78,7 +78,7 @@ impl OffsetDateTimeExt for OffsetDateTime {
 
     let unix_timestamp = self.unix_timestamp();
     let rem = unix_timestamp.rem_euclid(interval.whole_seconds());
-    if rem == 0 {
+    if rem == 0 && self.nanosecond() == 0 {
       return *self;
     }
 
-- 
2.43.0


From 9c63e0615aa7c2ee951c1938aa062b88ff4b4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:30 +0000
Subject: [PATCH 08/25] fix: bd-runtime overflowed on a retry counter file
 holding the largest count

---
 bd-runtime/src/runtime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-runtime/src/runtime.rs b/bd-runtime/src/runtime.rs
index d7735de..481453e 100644
--- a/bd-runtime/src/runtime.rs
+++ b/bd-runtime/src/runtime.rs
@@ -235,7 +235,7 @@ impl ConfigLoader {
     // attempt to clear the cache directory) and disable caching. We do this because being unable
     // to update the retry count may result in us getting stuck processing what we think is retry
     // 0 over and over again.
-    self.persist_cache_load_retry_count(retry_count + 1)?;
+    self.persist_cache_load_retry_count(retry_count.saturating_add(1))?;
 
     // TODO(snowp): Should we read this from runtime as well? It would make it possible for a bad
     // runtime config to accidentally set this really high, but right now this is not
-- 
2.43.0


From 8bcfa42c249cb472c010b5dab4a944218ba5661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:52 +0000
Subject: [PATCH 09/25] fix: read_compressed_protobuf accepted a truncated file
 as a shorter message

---
 bd-client-common/src/file.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/bd-client-common/src/file.rs b/bd-client-common/src/file.rs
index ac6c5c6..660e0bb 100644
--- a/bd-client-common/src/file.rs
+++ b/bd-client-common/src/file.rs
@@ -6,8 +6,8 @@
 // https://polyformproject.org/wp-content/uploads/2020/06/PolyForm-Shield-1.0.0.txt
 
 use crate::zlib::DEFAULT_MOBILE_ZLIB_COMPRESSION_LEVEL;
-use flate2::read::{ZlibDecoder, ZlibEncoder};
-use flate2::Compression;
+use flate2::read::ZlibEncoder;
+use flate2::{Compression, Decompress, FlushDecompress, Status};
 use std::io::Read;
 
 pub fn write_compressed_protobuf<T: protobuf::Message>(message: &T) -> Vec<u8> {
@@ -34,8 +34,29 @@ pub fn read_compressed_protobuf<T: protobuf::Message>(
   // The files are likely not large enough to deal with streaming decompression on top of flate2.
   // For now we just read the entire thing and then decompress it in memory. We can consider
   // streaming later.
-  let mut decoder = ZlibDecoder::new(compressed_bytes);
+  //
+  // Note that the flate2 reader reports a truncated stream as a regular EOF, so the decompression
+  // is driven by hand to make sure that the end of the stream (and thus its CRC) has been reached.
+  let mut decompress = Decompress::new(true);
+  let mut bytes = Vec::new();
+  loop {
+    bytes.reserve(compressed_bytes.len().max(1024));
+    let consumed: usize = decompress.total_in().try_into()?;
+    match decompress.decompress_vec(
+      &compressed_bytes[consumed ..],
+      &mut bytes,
+      FlushDecompress::None,
+    )? {
+      Status::StreamEnd => break,
+      // There is always room for output, so this means that there is not enough input.
+      Status::Ok | Status::BufError if bytes.len() < bytes.capacity() => {
+        anyhow::bail!("unexpected end of compressed data")
+      },
+      Status::Ok | Status::BufError => {},
+    }
+  }
+
   // In the future if/when we switch to using Bytes/Chars in the compiled proto it may be more
   // efficient to read out the uncompressed into Bytes and then parse from that.
-  Ok(T::parse_from_reader(&mut decoder)?)
+  Ok(T::parse_from_bytes(&bytes)?)
 }
-- 
2.43.0


From dd683727727b0c7cd231ba9de3dc9b4441ac6f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 10/25] fix: bd-grpc-codec kept failing every compressed
 message of a thread after a corrupt one

---
 bd-grpc-codec/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bd-grpc-codec/src/lib.rs b/bd-grpc-codec/src/lib.rs
index 1344e04..5b2890b 100644
--- a/bd-grpc-codec/src/lib.rs
+++ b/bd-grpc-codec/src/lib.rs
@@ -395,8 +395,15 @@ impl<MessageType: Message> Decoder<MessageType> {
         // TODO(mattklein123): Using Decompress here directly should remove some copies that are
         // required by using the writer interface.
         DECOMPRESSOR.with_borrow_mut(|decompressor| {
-          decompressor.write_all(&compressed)?;
-          decompressor.reset(Vec::new())
+          let result = decompressor
+            .write_all(&compressed)
+            .and_then(|()| decompressor.reset(Vec::new()));
+          if result.is_err() {
+            // The decompressor is shared by all streams of this thread. Do not leave it in the
+            // failed state as it would fail every message from here on.
+            *decompressor = ZlibDecoder::new(Vec::new());
+          }
+          result
         })?
       },
     };
-- 
2.43.0


From bd56d8eb2648b191cc3479d5e12455643a50b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 11/25] fix: bd-client-stats panicked when the index of pending
 files was empty

With max_aggregated_files at 0 the first flush popped from an empty index, and an upload
response that came back after its entry had been popped panicked when nothing had been
written since.
---
 bd-client-stats/src/file_manager.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bd-client-stats/src/file_manager.rs b/bd-client-stats/src/file_manager.rs
index ce5958e..5fcfe16 100644
--- a/bd-client-stats/src/file_manager.rs
+++ b/bd-client-stats/src/file_manager.rs
@@ -253,7 +253,9 @@ impl FileManager {
     });
 
     if create_new_snapshot {
-      if self.max_aggregated_files.read() <= u32::try_from(initialized_inner.index.len()).unwrap() {
+      if !initialized_inner.index.is_empty()
+        && self.max_aggregated_files.read() <= u32::try_from(initialized_inner.index.len()).unwrap()
+      {
         log::debug!("max files reached, popping oldest snapshot");
         initialized_inner.delete_oldest_snapshot().await?;
       }
@@ -412,7 +414,13 @@ impl FileManager {
     let mut inner = self.inner.lock().await;
     let initialized_inner = inner.get_initialized().await?;
 
-    if initialized_inner.index[0].name != uuid {
+    let Some(oldest) = initialized_inner.index.front() else {
+      // The same race, with nothing having been written since the entry was popped.
+      log::debug!("pending upload {uuid} is no longer in the index");
+      return Ok(());
+    };
+
+    if oldest.name != uuid {
       // There is a race condition in which we could theoretically have reached max files, but
       // there is an upload in flight that comes back after we already popped the first entry.
       // We could handle this by having the max file code not pop inflight uploads, but that is
-- 
2.43.0


From 1652e782b397365695e31be2f023c0999f60a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 12/25] fix: bd-client-stats dropped what a metric's last
 holder recorded during a flush

The references were counted after the value had been taken, so a value recorded and a
reference dropped in between went away with the metric.
---
 bd-client-stats/src/stats.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/bd-client-stats/src/stats.rs b/bd-client-stats/src/stats.rs
index 597f1e9..ceaabed 100644
--- a/bd-client-stats/src/stats.rs
+++ b/bd-client-stats/src/stats.rs
@@ -268,14 +268,14 @@ impl Flusher {
     // During iteration if a metric has data, we retain it, since it is likely to be used again.
     // If there is no data we drop it if there are no outstanding references. This iteration
     // occurs under the collector lock so it is serialized with respect to new fetches.
+    // Outstanding references are looked at before the data is taken: a holder may record a value
+    // and drop its reference at any time, and what it recorded after the snap must not be dropped.
     collector.retain(|id, metric| {
-      metric.snap().map_or_else(
-        || metric.multiple_references(),
-        |metric| {
-          snapshot.add_metric(id.clone(), metric);
-          true
-        },
-      )
+      let has_references = metric.multiple_references();
+      metric.snap().map_or(has_references, |metric| {
+        snapshot.add_metric(id.clone(), metric);
+        true
+      })
     });
   }
 
-- 
2.43.0


From 526e59be9a247ebfa4c667f56ebfc203a206afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:13 +0000
Subject: [PATCH 13/25] fix: bd-logger counted uploads as given up on that had
 succeeded on their last attempt

---
 bd-logger/src/service.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/bd-logger/src/service.rs b/bd-logger/src/service.rs
index 70dcd4f..966ba4b 100644
--- a/bd-logger/src/service.rs
+++ b/bd-logger/src/service.rs
@@ -222,7 +222,7 @@ impl RetryPolicy {
   }
 
   fn remaining(&self) -> u32 {
-    self.max_retries.read() - self.attempts
+    self.max_retries.read().saturating_sub(self.attempts)
   }
 }
 
@@ -240,6 +240,12 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
       self.remaining()
     );
 
+    // Only failures are retried: a request that succeeded or was canceled isn't given up on, no matter
+    // how many attempts it took.
+    if !matches!(result, Ok(UploadResult::Failure)) {
+      return None;
+    }
+
     if !self.should_retry() {
       self.retry_limit_exceeded.inc();
       self
@@ -254,16 +260,13 @@ impl tower::retry::Policy<UploadRequest, UploadResult, Infallible> for RetryPoli
     let backoff_delay = backoff.next_backoff().unwrap();
     self.attempts += 1;
 
-    match result {
-      Ok(UploadResult::Failure) => Some(Box::pin(async move {
-        log::trace!(
-          "waiting for {}ms for next attempt",
-          backoff_delay.as_millis()
-        );
-        tokio::time::sleep(backoff_delay).await;
-      })),
-      _ => None,
-    }
+    Some(Box::pin(async move {
+      log::trace!(
+        "waiting for {}ms for next attempt",
+        backoff_delay.as_millis()
+      );
+      tokio::time::sleep(backoff_delay).await;
+    }))
   }
 
   fn clone_request(&mut self, req: &UploadRequest) -> Option<UploadRequest> {
-- 
2.43.0


From f125a27d4107f7acc4f9b7f664ee42203e021394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 14/25] fix: bd-workflows lost count of traversals when a run
 hit its matched logs limit

A run stopped by its matched logs limit after another of its traversals had forked or completed for the same log reported no created, advanced or completed traversals, so the engine's traversal count drifted away from the traversals that exist.
---
 bd-workflows/src/workflow.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 9cf0d77..3607689 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -597,9 +597,9 @@ impl Run {
           return RunResult {
             state: RunState::Stopped,
             triggered_actions: vec![],
-            created_traversals_count: 0,
-            advanced_traversals_count: 0,
-            completed_traversals_count: 0,
+            created_traversals_count,
+            advanced_traversals_count,
+            completed_traversals_count,
             matched_logs_count: run_matched_logs_count,
           };
         }
@@ -621,9 +621,9 @@ impl Run {
                 return RunResult {
                   state: RunState::Stopped,
                   triggered_actions: vec![],
-                  created_traversals_count: 0,
-                  advanced_traversals_count: 0,
-                  completed_traversals_count: 0,
+                  created_traversals_count,
+                  advanced_traversals_count,
+                  completed_traversals_count,
                   matched_logs_count: run_matched_logs_count,
                 };
               }
-- 
2.43.0


From dc7ffa563d9645fcb279e149a15fa63786172f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 15/25] fix: bd-workflows kept an answered upload action
 pending after its buffers changed

Pending actions were removed by comparing all their fields, so a configuration update that changed the buffers of an action under negotiation left it pending forever and it could never be triggered again.
---
 bd-workflows/src/engine.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 32bf67b..357c1d4 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -460,7 +460,7 @@ impl WorkflowsEngine {
               self.on_log_upload_approved(action).await;
           },
           NegotiatorOutput::UploadRejected(action) => {
-            self.state.pending_actions.remove(&action);
+            self.remove_pending_action(&action.id);
             self.needs_state_persistence = true;
           }
         }
@@ -468,8 +468,17 @@ impl WorkflowsEngine {
     }
   }
 
+  // Removes a pending action whose upload intent has been answered. The action is looked up by its
+  // ID as the buffers it refers to may have changed since its negotiation started.
+  fn remove_pending_action(&mut self, action_id: &str) {
+    self
+      .state
+      .pending_actions
+      .retain(|action| action.id != action_id);
+  }
+
   async fn on_log_upload_approved(&mut self, action: PendingFlushBuffersAction) {
-    self.state.pending_actions.remove(&action);
+    self.remove_pending_action(&action.id);
 
     // If there is already a pending buffer flush we don't want to signal another one, as
     // this would do nothing but mess up our tracking of the in-flight flush.
-- 
2.43.0


From 097dcab1126fbb21899d35e2f77d962e6060f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:56 +0000
Subject: [PATCH 16/25] fix: bd-workflows could abort while reading a corrupted
 state file

The lengths in the file were used to allocate memory before they were compared with the data that is there, so a corrupted one panicked (capacity overflow) or aborted the process instead of resulting in a fresh start.
---
 bd-workflows/src/engine.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index 357c1d4..f4f8853 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -46,7 +46,7 @@ use serde::{Deserialize, Serialize};
 use std::borrow::Cow;
 use std::collections::{BTreeSet, HashMap};
 use std::fs::File;
-use std::io::{BufReader, BufWriter, Write};
+use std::io::{BufWriter, Write};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::sync::mpsc::{Receiver, Sender};
@@ -982,10 +982,10 @@ impl StateStore {
   }
 
   pub(self) fn load_state(&self) -> anyhow::Result<WorkflowsState> {
-    let file = File::open(self.state_path.as_path())?;
-    // Wrap file in buffer to deserialize efficiently in place
-    let buf_reader = BufReader::new(file);
-    Ok(bincode::deserialize_from::<_, WorkflowsState>(buf_reader)?)
+    // Deserialize from memory so that the lengths found in a corrupted file are checked against the
+    // data that is there instead of being used to allocate memory.
+    let state = std::fs::read(self.state_path.as_path())?;
+    Ok(bincode::deserialize::<WorkflowsState>(&state)?)
   }
 
   /// Stores states of the passed workflows if all pre-conditions are met.
-- 
2.43.0


From 5c17141b41c2af40f5285c0a1d5a602b60616764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:56 +0000
Subject: [PATCH 17/25] fix: bd-workflows panicked on restored state that does
 not fit the configuration

State that points at states or transitions the configuration does not have - because the file is corrupted, or comes from a client that understood the same workflow differently - panicked (index out of bounds) at the first log. It is discarded now.
---
 bd-workflows/src/engine.rs   |  2 ++
 bd-workflows/src/workflow.rs | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/bd-workflows/src/engine.rs b/bd-workflows/src/engine.rs
index f4f8853..6d60f29 100644
--- a/bd-workflows/src/engine.rs
+++ b/bd-workflows/src/engine.rs
@@ -309,6 +309,8 @@ impl WorkflowsEngine {
     let workflows_and_configs = workflows.into_iter().map(|config| {
       let workflow = existing_workflow_ids_to_workflows
         .remove(config.id())
+        // Start from scratch if the cached state doesn't fit the config.
+        .filter(|workflow| workflow.is_compatible_with(&config))
         .map_or_else(
           // We have cache state for a given workflow ID.
           || Workflow::new(config.id().to_string()),
diff --git a/bd-workflows/src/workflow.rs b/bd-workflows/src/workflow.rs
index 3607689..ba941c2 100644
--- a/bd-workflows/src/workflow.rs
+++ b/bd-workflows/src/workflow.rs
@@ -77,6 +77,30 @@ impl Workflow {
     &self.id
   }
 
+  /// Whether the state of the workflow restored from disk can be used with the provided config. It
+  /// may not be the case if the state is corrupted or comes from a version of the client that
+  /// understood the workflow's configuration differently.
+  pub(crate) fn is_compatible_with(&self, config: &Config) -> bool {
+    // Initial state runs are not stored so there is at most one run of an exclusive workflow.
+    if config.execution() == &Execution::Exclusive && self.runs.len() > 1 {
+      return false;
+    }
+
+    // The traversals have to point at states and transitions that exist.
+    self
+      .runs
+      .iter()
+      .flat_map(|run| &run.traversals)
+      .all(|traversal| {
+        config
+          .states()
+          .get(traversal.state_index)
+          .map_or(false, |state| {
+            state.transitions().len() == traversal.matched_logs_counts.len()
+          })
+      })
+  }
+
   pub(crate) fn process_log<'a>(
     &mut self,
     config: &'a Config,
-- 
2.43.0


From e504efb47dbc31a6b68b933ae4e98a4993029cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 18/25] fix: an interval of zero taken from runtime must not
 panic

---
 bd-time/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bd-time/src/lib.rs b/bd-time/src/lib.rs
index 3bb94cc..bcb7095 100644
--- a/bd-time/src/lib.rs
+++ b/bd-time/src/lib.rs
@@ -107,6 +107,9 @@ impl TimestampExt for Timestamp {
 // TimeDurationExt
 //
 
+/// The shortest period of an interval. Tokio panics when given a period of zero.
+const MIN_INTERVAL_PERIOD: Duration = Duration::from_millis(1);
+
 pub trait TimeDurationExt {
   fn advance(self) -> impl Future<Output = ()>;
   fn sleep(self) -> impl Future<Output = ()>;
@@ -128,17 +131,21 @@ impl TimeDurationExt for time::Duration {
   }
 
   fn interval(self) -> Interval {
-    interval(self.unsigned_abs())
+    interval(self.unsigned_abs().max(MIN_INTERVAL_PERIOD))
   }
 
   fn interval_at(self) -> Interval {
-    interval_at(self.add_tokio_now(), self.unsigned_abs())
+    let period = self.unsigned_abs().max(MIN_INTERVAL_PERIOD);
+    interval_at(tokio::time::Instant::now() + period, period)
   }
 
   fn jittered_interval_at(self) -> Interval {
     let millis: u64 = self.whole_milliseconds().try_into().unwrap();
     let jittered = Duration::from_millis(thread_rng().gen_range(0 ..= millis));
-    interval_at(tokio::time::Instant::now() + jittered, self.unsigned_abs())
+    interval_at(
+      tokio::time::Instant::now() + jittered,
+      self.unsigned_abs().max(MIN_INTERVAL_PERIOD),
+    )
   }
 
   fn timeout<F: IntoFuture>(self, f: F) -> Timeout<F::IntoFuture> {
-- 
2.43.0


From 29e4d25d6d6d28e729e540c1a28c0783b72a5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 19/25] fix: a resource reporting interval of zero must not
 panic

---
 bd-resource-utilization/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bd-resource-utilization/src/lib.rs b/bd-resource-utilization/src/lib.rs
index ddd60a1..424972d 100644
--- a/bd-resource-utilization/src/lib.rs
+++ b/bd-resource-utilization/src/lib.rs
@@ -72,6 +72,8 @@ impl Reporter {
   }
 
   fn create_interval(interval: Duration, fire_immediately: bool) -> tokio::time::Interval {
+    // Tokio panics when given a period of zero.
+    let interval = interval.max(Duration::from_millis(1));
     let mut interval = if fire_immediately {
       tokio::time::interval(interval)
     } else {
-- 
2.43.0


From 5eb85b55b4961ed9bfe379cec0ee73fcccbda612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 20/25] fix: do not overflow network byte accounting on huge
 reported sizes

---
 bd-logger/src/network.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/bd-logger/src/network.rs b/bd-logger/src/network.rs
index 771d2b5..46002f3 100644
--- a/bd-logger/src/network.rs
+++ b/bd-logger/src/network.rs
@@ -28,7 +28,7 @@ use time::ext::NumericalDuration;
 macro_rules! sample_add {
   ($sample:expr, $field_name:ident, $value:expr) => {
     if let Some(unwrapped_value) = $value {
-      $sample.$field_name += unwrapped_value;
+      $sample.$field_name = $sample.$field_name.saturating_add(unwrapped_value);
     }
   };
 }
@@ -39,7 +39,7 @@ macro_rules! accumulate_samples {
   ($lhs:expr, $rhs:expr, $field_name:ident) => {
     $lhs.$field_name = vec![$lhs.$field_name, $rhs.$field_name]
       .into_iter()
-      .fold(0, |acc, x| acc + x)
+      .fold(0, |acc: u64, x| acc.saturating_add(x))
   };
 }
 
@@ -265,21 +265,15 @@ impl MetricsSample {
 
 impl MetricsSample {
   fn request_bytes_count(&self) -> u64 {
-    vec![
-      self.request_body_bytes_count,
-      self.request_headers_bytes_count,
-    ]
-    .into_iter()
-    .sum::<u64>()
+    self
+      .request_body_bytes_count
+      .saturating_add(self.request_headers_bytes_count)
   }
 
   fn response_bytes_count(&self) -> u64 {
-    vec![
-      self.response_body_bytes_count,
-      self.response_headers_bytes_count,
-    ]
-    .into_iter()
-    .sum::<u64>()
+    self
+      .response_body_bytes_count
+      .saturating_add(self.response_headers_bytes_count)
   }
 }
 
-- 
2.43.0


From 044eec75594f9f6652cb3130a726e3241f2d3e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:56 +0000
Subject: [PATCH 21/25] fix: a cached configuration cut short must not panic on
 startup

---
 bd-logger/src/client_config.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 881121a..2652b78 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -155,15 +155,13 @@ impl<A: ApplyConfig> Config<A> {
       let configuration_update: ConfigurationUpdate = ConfigurationUpdate::parse_from_bytes(&data)?;
 
       // If this function succeeds, it should write back the file to disk.
-      let maybe_nack = self
+      //
+      // We should never persist config that results in a Nack, but the file might have been cut
+      // short (e.g., full disk, crash in the middle of a write). In that case we effectively drop
+      // the config on startup as the function below won't write it back.
+      self
         .process_configuration_update(&configuration_update)
-        .await;
-
-      // We should never persist config that results in a Nack, but if we do we effectively drop the
-      // config on startup as the above function won't write it back.
-      debug_assert!(maybe_nack.is_ok());
-
-      Ok(())
+        .await
     };
 
     result.map_err(|e| e.context("failed to load persisted config"))
-- 
2.43.0


From ac9c76a5400cdb9ad5e024899091bc710e1ef482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:56 +0000
Subject: [PATCH 22/25] fix: a rejected configuration is not the last applied
 one

---
 bd-logger/src/client_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bd-logger/src/client_config.rs b/bd-logger/src/client_config.rs
index 2652b78..a31b649 100644
--- a/bd-logger/src/client_config.rs
+++ b/bd-logger/src/client_config.rs
@@ -179,7 +179,7 @@ impl<A: ApplyConfig + Send + Sync> bd_api::ConfigurationUpdate for Config<A> {
       .await
     {
       Some(Nack {
-        version_nonce: version_nonce.clone(),
+        version_nonce,
         error_details: e.to_string(),
         ..Default::default()
       })
@@ -190,7 +190,7 @@ impl<A: ApplyConfig + Send + Sync> bd_api::ConfigurationUpdate for Config<A> {
     Some(
       ClientConfigurationUpdate(ConfigurationUpdateAck {
         nack: nack.into(),
-        last_applied_version_nonce: version_nonce,
+        last_applied_version_nonce: self.configuration_version_id.clone().unwrap_or_default(),
         ..Default::default()
       })
       .into_request(),
-- 
2.43.0


From df387d29dc1835a80fe6dce3d966f2cf0dff320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:25 +0000
Subject: [PATCH 23/25] fix: add a log that triggers a flush to the flushed
 buffers when it went to another trigger buffer

---
 bd-logger/src/log_replay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 6075c91..230bfe4 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -439,7 +439,7 @@ impl ProcessingPipeline {
     // Therefore, we assume that the log ends up being uploaded only if it is directed to one of the
     // trigger buffers that is about to be flushed.
     let written_to_flushed_trigger_buffer =
-      !written_to_buffers.is_disjoint(&buffers.trigger_buffer_ids);
+      !written_to_buffers.is_disjoint(triggered_flushes_buffer_ids);
 
     let is_log_about_to_be_uploaded =
       written_to_continuous_buffer || written_to_flushed_trigger_buffer;
-- 
2.43.0


From ba5b9e0abcb4fcc1d3c1e0811e09eee7b382245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:59 +0000
Subject: [PATCH 24/25] fix: flush the buffers a blocking log was written to,
 not those it matched before streaming

---
 bd-logger/src/log_replay.rs | 45 ++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/bd-logger/src/log_replay.rs b/bd-logger/src/log_replay.rs
index 230bfe4..49034a1 100644
--- a/bd-logger/src/log_replay.rs
+++ b/bd-logger/src/log_replay.rs
@@ -239,7 +239,13 @@ impl ProcessingPipeline {
       },
     }
 
-    let mut matching_buffers =
+    // Check whether the caller is waiting for the log processing to complete. We call such logs
+    // "blocking".
+    let is_blocking = log_processing_completed_tx.is_some();
+    // The buffers the log was written to, tracked for blocking logs only.
+    let mut written_to_buffers = BTreeSet::<String>::new();
+
+    let matching_buffers =
       self
         .buffer_selector
         .buffers(log.log_type, log.log_level, log.message, log.fields);
@@ -271,22 +277,27 @@ impl ProcessingPipeline {
         result.triggered_flush_buffers_action_ids.iter().copied(),
       )?;
 
-      if let Some(extra_matching_buffer) = Self::process_flush_buffers_actions(
+      if is_blocking {
+        written_to_buffers.extend(
+          result
+            .log_destination_buffer_ids
+            .iter()
+            .map(ToString::to_string),
+        );
+      }
+
+      if let Some(extra_written_to_buffer) = Self::process_flush_buffers_actions(
         &result.triggered_flush_buffers_action_ids,
         &mut self.buffer_producers,
         &result.triggered_flushes_buffer_ids,
         &result.log_destination_buffer_ids,
         log,
       ) {
-        // We emitted a synthetic log. Add the buffer it was written to to the list of matching
-        // buffers.
-        matching_buffers.insert(extra_matching_buffer.into());
+        // We emitted a synthetic log. Add the buffer it was written to to the list of buffers that
+        // were written to.
+        written_to_buffers.insert(extra_written_to_buffer);
       }
 
-      // Check whether the caller is waiting for the log processing to complete. We call such logs
-      // "blocking".
-      let is_blocking = log_processing_completed_tx.is_some();
-
       // Force the persistence of workflows state to disk if log is blocking.
       workflows_engine.maybe_persist(is_blocking).await;
     } else {
@@ -296,13 +307,17 @@ impl ProcessingPipeline {
         log,
         std::iter::empty(),
       )?;
+
+      if is_blocking {
+        written_to_buffers.extend(matching_buffers.iter().map(ToString::to_string));
+      }
     }
 
     if let Some(log_processing_completed_tx) = log_processing_completed_tx {
       let result = Self::finish_blocking_log_processing(
         flush_buffers_tx,
         flush_stats_trigger,
-        matching_buffers,
+        written_to_buffers,
       )
       .await;
 
@@ -319,7 +334,7 @@ impl ProcessingPipeline {
   async fn finish_blocking_log_processing(
     flush_buffers_tx: tokio::sync::mpsc::Sender<BuffersWithAck>,
     flush_stats_trigger: Option<FlushTrigger>,
-    matching_buffers: BTreeSet<Cow<'_, str>>,
+    written_to_buffers: BTreeSet<String>,
   ) -> anyhow::Result<()> {
     // The processing of a blocking log is about to complete.
     // We make an arbitrary decision to start with the flushing of log buffers to disk first and
@@ -329,7 +344,7 @@ impl ProcessingPipeline {
 
     let flush_stats_trigger = flush_stats_trigger.clone();
 
-    if matching_buffers.is_empty() {
+    if written_to_buffers.is_empty() {
       // Return early to avoid unnecessary tokio messages.
       log::debug!(
         "blocking log: log processed but no buffers matched, returning without waiting for \
@@ -338,10 +353,8 @@ impl ProcessingPipeline {
     } else {
       let (tx, rx) = bd_completion::Sender::new();
       // call the sender to flush the buffers using the tx that was created along with the logger
-      let buffers_to_flush = BuffersWithAck::new(
-        matching_buffers.iter().map(ToString::to_string).collect(),
-        Some(tx),
-      );
+      let buffers_to_flush =
+        BuffersWithAck::new(written_to_buffers.into_iter().collect(), Some(tx));
 
       let result = flush_buffers_tx.send(buffers_to_flush).await;
       if let Err(e) = result {
-- 
2.43.0


From f0107f5b17daba68f3fdac35a1a06fe65139e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:49 +0000
Subject: [PATCH 25/25] fix: keep handling buffer flushes after a request that
 names a removed buffer

---
 bd-buffer/src/ring_buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bd-buffer/src/ring_buffer.rs b/bd-buffer/src/ring_buffer.rs
index 6416c10..9a53c62 100644
--- a/bd-buffer/src/ring_buffer.rs
+++ b/bd-buffer/src/ring_buffer.rs
@@ -212,8 +212,9 @@ impl Manager {
           log::debug!("buffer_id={buffer_id} signaled to flush");
           buffer.flush();
         } else {
+          // The buffer may have been removed since the flush was requested. There is nothing left
+          // to flush for it, but the other buffers and subsequent requests must still be handled.
           log::debug!("buffer_id={buffer_id} signaled to flush not found");
-          return Ok(());
         }
       }
 
-- 
2.43.0

