From a6ae68a84d6fb15b6bf73c4aac5fd9cb8d429ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 01/35] fix: ShardedSyncCache::pop picks the victim from the
 non-empty shards it counted

---
 common/cache/src/sharded_sync_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index f6174ab..2da95b5 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -95,7 +95,7 @@ where
         } else {
             let shard_len = none_empty_shard.len();
             let index = rand::thread_rng().next_u64() as usize % shard_len;
-            self.shard.get(index)?.pop()
+            none_empty_shard.get(index)?.pop()
         }
     }
 
-- 
2.43.0


From 8ceb4e501103bec2216afc4735f17d513711a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 02/35] fix: ShardedAsyncCache::pop returns an item whenever
 some shard is non-empty

---
 common/cache/src/sharded_async_cache.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/cache/src/sharded_async_cache.rs b/common/cache/src/sharded_async_cache.rs
index 04f80ea..d7c5dbd 100644
--- a/common/cache/src/sharded_async_cache.rs
+++ b/common/cache/src/sharded_async_cache.rs
@@ -72,8 +72,14 @@ where
     }
 
     async fn pop(&self) -> Option<(Self::K, Self::V)> {
-        let index = rand::thread_rng().next_u64() as usize % self.shard.len();
-        self.shard.get(index)?.lock().await.pop()
+        // Start from a random shard, an empty shard does not mean an empty cache.
+        let start = rand::thread_rng().next_u64() as usize % self.shard.len();
+        for shard in self.shard[start..].iter().chain(&self.shard[..start]) {
+            if let Some(kv) = shard.lock().await.pop() {
+                return Some(kv);
+            }
+        }
+        None
     }
 
     async fn set_capacity(&self, capacity: NonZeroUsize) {
-- 
2.43.0


From 42719088fecc4c4e30a08c2097a22692f8842308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 03/35] fix: storage config check accepts the supported
 tsm_meta_compress values

---
 config/src/tskv/storage_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/src/tskv/storage_config.rs b/config/src/tskv/storage_config.rs
index 8162767..24b0a15 100644
--- a/config/src/tskv/storage_config.rs
+++ b/config/src/tskv/storage_config.rs
@@ -233,8 +233,8 @@ impl CheckConfig for StorageConfig {
         }
 
         if self.tsm_meta_compress != "zstd"
-            || self.tsm_meta_compress != "snappy"
-            || self.tsm_meta_compress != "null"
+            && self.tsm_meta_compress != "snappy"
+            && self.tsm_meta_compress != "null"
         {
             ret.add_error(CheckConfigItemResult {
                 config: config_name,
-- 
2.43.0


From b9c5cba8eee947b48e28940664268043df854aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 04/35] fix: security config check reports its findings instead
 of dropping them

---
 config/src/tskv/security_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/src/tskv/security_config.rs b/config/src/tskv/security_config.rs
index 7a71dd9..e63389e 100644
--- a/config/src/tskv/security_config.rs
+++ b/config/src/tskv/security_config.rs
@@ -21,9 +21,9 @@ impl CheckConfig for SecurityConfig {
         }
 
         if ret.is_empty() {
-            Some(ret)
-        } else {
             None
+        } else {
+            Some(ret)
         }
     }
 }
-- 
2.43.0


From 5701816e2333403a76fbf9aae7581dda0ee42730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 05/35] fix: RateBucket no longer panics on a zero interval or
 an overflowing refill

---
 common/limiter_bucket/src/rate_bucket.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/limiter_bucket/src/rate_bucket.rs b/common/limiter_bucket/src/rate_bucket.rs
index 72cb477..b5eac34 100644
--- a/common/limiter_bucket/src/rate_bucket.rs
+++ b/common/limiter_bucket/src/rate_bucket.rs
@@ -231,7 +231,7 @@ impl RateBucket {
     fn update_critical(&self, critical: &mut MutexGuard<Critical>) {
         if let Some((tokens, deadline)) = calculate_drain(critical.deadline, self.interval) {
             critical.deadline = deadline;
-            critical.balance = critical.balance.saturating_add(tokens * self.refill);
+            critical.balance = critical.balance.saturating_add(tokens.saturating_mul(self.refill));
 
             if critical.balance > self.max {
                 critical.balance = self.max;
@@ -385,7 +385,8 @@ fn calculate_drain(
     }
 
     // Time elapsed in milliseconds since the last deadline.
-    let millis = interval.num_milliseconds();
+    // The interval may come from a config file, it must not be used as a zero divisor.
+    let millis = interval.num_milliseconds().max(1);
     let since = now.signed_duration_since(deadline).num_milliseconds();
 
     let tokens = usize::try_from(since / millis + 1).unwrap_or(usize::MAX);
-- 
2.43.0


From cb1eddc1f2a5b1cac5997ad6e7337a67be61bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 06/35] fix: ErrorResponse escapes its fields so the error body
 stays valid JSON

---
 common/http_protocol/src/response.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/common/http_protocol/src/response.rs b/common/http_protocol/src/response.rs
index 36234a2..43cd77a 100644
--- a/common/http_protocol/src/response.rs
+++ b/common/http_protocol/src/response.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::fmt::{Display, Write};
 
 use derive_traits::ErrorCode;
 pub use reqwest::Response;
@@ -31,14 +31,27 @@ impl std::error::Error for ErrorResponse {}
 
 impl Display for ErrorResponse {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(
-            f,
-            "{{\"error_code\": \"{}\", \"error_message\": \"{}\"}}",
-            self.error_code, self.error_message
-        )
+        f.write_str("{\"error_code\": \"")?;
+        write_json_escaped(f, &self.error_code)?;
+        f.write_str("\", \"error_message\": \"")?;
+        write_json_escaped(f, &self.error_message)?;
+        f.write_str("\"}")
     }
 }
 
+/// Write the content of a JSON string literal.
+fn write_json_escaped(f: &mut std::fmt::Formatter<'_>, s: &str) -> std::fmt::Result {
+    for c in s.chars() {
+        match c {
+            '"' => f.write_str("\\\"")?,
+            '\\' => f.write_str("\\\\")?,
+            c if c < ' ' => write!(f, "\\u{:04x}", c as u32)?,
+            c => f.write_char(c)?,
+        }
+    }
+    Ok(())
+}
+
 impl ErrorCode for ErrorResponse {
     fn code(&self) -> &'static str {
         Box::leak(self.error_code.clone().into_boxed_str())
-- 
2.43.0


From 769f396af0d5bf63a7724c5bb3450c928a8e2fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 07/35] fix: U64Average no longer loses values added while it
 is being read

---
 common/metrics/src/average.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/common/metrics/src/average.rs b/common/metrics/src/average.rs
index 85cb3e1..3e93df3 100644
--- a/common/metrics/src/average.rs
+++ b/common/metrics/src/average.rs
@@ -18,17 +18,12 @@ impl U64Average {
     }
 
     pub fn average(&self) -> u64 {
-        let count = self.count.load(Ordering::Relaxed);
-        let total = self.total.load(Ordering::Relaxed);
+        // Read and reset in one step, a value added in between must not be lost.
+        let count = self.count.swap(0, Ordering::Relaxed);
+        let total = self.total.swap(0, Ordering::Relaxed);
 
-        self.clear();
         total / (count + 1)
     }
-
-    fn clear(&self) {
-        self.count.store(0, Ordering::Relaxed);
-        self.total.store(0, Ordering::Relaxed);
-    }
 }
 
 impl MetricRecorder for U64Average {
-- 
2.43.0


From 621f4eafa723c4acf409454d078259602f1abb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 08/35] fix: U64Histogram::record_multiple does not panic when
 the total wraps

---
 common/metrics/src/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/metrics/src/histogram.rs b/common/metrics/src/histogram.rs
index 703e03c..1a662ce 100644
--- a/common/metrics/src/histogram.rs
+++ b/common/metrics/src/histogram.rs
@@ -60,7 +60,7 @@ impl U64Histogram {
             .as_mut()
         {
             bucket.count = bucket.count.wrapping_add(count);
-            state.total = state.total.wrapping_add(value * count);
+            state.total = state.total.wrapping_add(value.wrapping_mul(count));
         }
     }
 }
-- 
2.43.0


From 05c5ae7340b536495e60f9c27a7b0236b2dda164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:45 +0000
Subject: [PATCH 09/35] fix: a bloom filter restored from its bytes finds what
 was inserted

BloomFilter::with_data rounded the length of the data up to at least
8 bytes, so the bits of a filter of 8, 16 or 32 bits were looked up with
another mask than the one they were set with.
---
 common/utils/src/bloom_filter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/utils/src/bloom_filter.rs b/common/utils/src/bloom_filter.rs
index 10c1f4e..2e12b37 100644
--- a/common/utils/src/bloom_filter.rs
+++ b/common/utils/src/bloom_filter.rs
@@ -35,7 +35,9 @@ impl BloomFilter {
     /// Similar to `new()`
     pub fn with_data(data: &[u8]) -> Self {
         let mut b = data.to_vec();
-        let l = Self::pow2(b.len() as u64);
+        // The bytes of a filter have a length that is a power of 2, keep it,
+        // so that the bits are looked up where they were set.
+        let l = (b.len() as u64).next_power_of_two();
         if l != b.len() as u64 {
             b.resize(l as usize, 0);
         }
-- 
2.43.0


From 6705ae5119dbc9254bdc718c30ea97b837177089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 10/35] fix: WAL truncation and sync report I/O errors instead
 of dropping them

---
 tskv/src/wal/mod.rs       |  4 ++--
 tskv/src/wal/wal_store.rs | 12 +++++++++---
 tskv/src/wal/writer.rs    |  7 ++++---
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/tskv/src/wal/mod.rs b/tskv/src/wal/mod.rs
index 19382a2..196d6c0 100644
--- a/tskv/src/wal/mod.rs
+++ b/tskv/src/wal/mod.rs
@@ -149,14 +149,14 @@ impl VnodeWal {
 
     pub async fn truncate_wal_file(&mut self, file_id: u64, pos: u64) -> TskvResult<()> {
         if self.current_wal_id() == file_id {
-            self.current_wal.truncate(pos).await;
+            self.current_wal.truncate(pos).await?;
             self.current_wal.sync().await?;
             return Ok(());
         }
 
         let file_name = file_utils::make_wal_file(&self.wal_dir, file_id);
         let mut new_file = WalWriter::open(self.config.clone(), file_id, file_name).await?;
-        new_file.truncate(pos).await;
+        new_file.truncate(pos).await?;
         new_file.sync().await?;
 
         Ok(())
diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 67b2941..81eacba 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -141,8 +141,11 @@ impl EntryStorage for RaftEntryStorage {
         Ok(metrics)
     }
     async fn sync(&mut self) -> ReplicationResult<()> {
-        let _ = self.inner.wal.sync().await;
-        Ok(())
+        self.inner
+            .wal
+            .sync()
+            .await
+            .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })
     }
 }
 
@@ -328,7 +331,10 @@ impl RaftEntryStorageInner {
             if item.max_seq >= seq_no {
                 let pos = item.del_after(seq_no);
                 if pos > 0 {
-                    let _ = self.wal.truncate_wal_file(item.file_id, pos).await;
+                    self.wal
+                        .truncate_wal_file(item.file_id, pos)
+                        .await
+                        .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
                 }
             }
 
diff --git a/tskv/src/wal/writer.rs b/tskv/src/wal/writer.rs
index ca26558..0329a7f 100644
--- a/tskv/src/wal/writer.rs
+++ b/tskv/src/wal/writer.rs
@@ -81,14 +81,15 @@ impl WalWriter {
         Ok(WalReader::new(record_reader, self.config.compress))
     }
 
-    pub async fn truncate(&mut self, size: u64) {
+    pub async fn truncate(&mut self, size: u64) -> TskvResult<()> {
         if self.size <= size {
-            return;
+            return Ok(());
         }
 
-        let _ = self.inner.truncate(size).await;
+        self.inner.truncate(size).await?;
 
         self.size = size;
+        Ok(())
     }
 
     pub fn id(&self) -> u64 {
-- 
2.43.0


From 8a4d5917d3ea7e46704e351e0e2bdde3c6aae248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 11/35] fix: WAL entries are not read from a buffer filled
 before a truncation

---
 tskv/src/wal/wal_store.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 81eacba..88630b9 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -335,6 +335,12 @@ impl RaftEntryStorageInner {
                         .truncate_wal_file(item.file_id, pos)
                         .await
                         .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
+                    // The old reader may still buffer the truncated entries.
+                    item.reader = self
+                        .wal
+                        .wal_reader(item.file_id)
+                        .await
+                        .map_err(|e| ReplicationError::RaftInternalErr { msg: e.to_string() })?;
                 }
             }
 
-- 
2.43.0


From 1ce4dd2f8f6d6f389dbe3ef73bc12fa135f6daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 12/35] fix: record file reader treats a record header cut
 short as the end of the file

---
 tskv/src/record_file/reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index 61af5cd..c8511a0 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -190,10 +190,16 @@ impl Reader {
     async fn find_record_header(&mut self) -> TskvResult<(usize, &[u8])> {
         loop {
             let magic_number_sli = self.read_buf(RECORD_MAGIC_NUMBER_LEN).await?;
+            if magic_number_sli.len() < RECORD_MAGIC_NUMBER_LEN {
+                return Err(TskvError::Eof);
+            }
             let magic_number = decode_be_u32(magic_number_sli);
             if magic_number == RECORD_MAGIC_NUMBER {
                 let pos = self.pos;
                 let header = self.read_buf(RECORD_HEADER_LEN).await?;
+                if header.len() < RECORD_HEADER_LEN {
+                    return Err(TskvError::Eof);
+                }
                 return Ok((pos, header));
             } else {
                 self.set_pos(self.pos + 1).await?;
-- 
2.43.0


From 73be1bf3cdcbbd9840955c210a993a458ca85504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 13/35] fix: write_all_at fails when the file accepts no more
 bytes

---
 tskv/src/file_system/file/raw_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tskv/src/file_system/file/raw_file.rs b/tskv/src/file_system/file/raw_file.rs
index 58e5812..6894181 100644
--- a/tskv/src/file_system/file/raw_file.rs
+++ b/tskv/src/file_system/file/raw_file.rs
@@ -61,7 +61,7 @@ impl RawFile {
             file::asyncify(|| {
                 while !buf.is_empty() {
                     match self.pwrite(pos, buf) {
-                        Ok(0) => break,
+                        Ok(0) => return Err(ErrorKind::WriteZero.into()),
                         Ok(n) => {
                             let tmp = buf;
                             buf = &tmp[n..];
-- 
2.43.0


From ccc8cd5450f70f296f43421cda95d933f7cd9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:32 +0000
Subject: [PATCH 14/35] fix: WAL writer counts a written record even when
 syncing it fails

---
 tskv/src/wal/writer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tskv/src/wal/writer.rs b/tskv/src/wal/writer.rs
index 0329a7f..f575d6a 100644
--- a/tskv/src/wal/writer.rs
+++ b/tskv/src/wal/writer.rs
@@ -58,11 +58,13 @@ impl WalWriter {
             )
             .await?;
 
+        // The record is in the file now, even if syncing it fails.
+        self.size += written_size as u64;
+
         if self.config.wal_sync {
             self.inner.sync().await?;
         }
 
-        self.size += written_size as u64;
         Ok(written_size)
     }
 
-- 
2.43.0


From eddc7de6a083585b0ba3bf82bf265f12a18b49c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 15/35] fix: last raft log entry is found in the WAL files when
 the entry cache is empty

---
 tskv/src/wal/wal_store.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 88630b9..d4fe008 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -390,9 +390,13 @@ impl RaftEntryStorageInner {
 
     async fn wal_last_entry(&mut self) -> ReplicationResult<Option<RaftEntry>> {
         if let Some(entry) = self.entry_cache.last() {
-            Ok(Some(entry.clone()))
-        } else {
-            Ok(None)
+            return Ok(Some(entry.clone()));
+        }
+
+        // Truncation may have emptied the cache while older entries are still in the files.
+        match self.max_sequence() {
+            u64::MAX => Ok(None),
+            seq => self.read_raft_entry(seq).await,
         }
     }
 
-- 
2.43.0


From 1b6cf71c3302a9f1d8c89aec9053b978968f5d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 16/35] fix: RateBucket announces as many fields as it
 serializes

---
 common/limiter_bucket/src/rate_bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/limiter_bucket/src/rate_bucket.rs b/common/limiter_bucket/src/rate_bucket.rs
index b5eac34..51e9f3d 100644
--- a/common/limiter_bucket/src/rate_bucket.rs
+++ b/common/limiter_bucket/src/rate_bucket.rs
@@ -49,7 +49,7 @@ impl Serialize for RateBucket {
     where
         S: Serializer,
     {
-        let mut state = serializer.serialize_struct("RateBucket", 5)?;
+        let mut state = serializer.serialize_struct("RateBucket", 4)?;
         state.serialize_field("refill", &self.refill)?;
         state.serialize_field("interval", &self.interval.num_milliseconds())?;
         state.serialize_field("max", &self.max)?;
-- 
2.43.0


From 614e5747e0fd0f618131e604983afe127d6639f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 17/35] fix: a dropped tenant's request limiter is removed

The log entry of a removal carries no tenant, so that parsing it first
returned before the limiter was removed; and only the entries of the
tenant itself are the limiter's business.
---
 meta/src/limiter/limiter_manager.rs | 8 ++++----
 meta/src/model/meta_admin.rs        | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/meta/src/limiter/limiter_manager.rs b/meta/src/limiter/limiter_manager.rs
index a1a4cf2..70e04d0 100644
--- a/meta/src/limiter/limiter_manager.rs
+++ b/meta/src/limiter/limiter_manager.rs
@@ -86,12 +86,12 @@ impl LimiterManager {
         if entry.tye == ENTRY_LOG_TYPE_NOP {
             return Ok(());
         }
-        let tenant: Tenant =
-            serde_json::from_str(&entry.val).map_err(|err| MetaError::SerdeMsgInvalid {
-                err: err.to_string(),
-            })?;
         let key = LimiterKey::tenant_key(tenant_name.into());
         if entry.tye == ENTRY_LOG_TYPE_SET {
+            let tenant: Tenant =
+                serde_json::from_str(&entry.val).map_err(|err| MetaError::SerdeMsgInvalid {
+                    err: err.to_string(),
+                })?;
             let limiter_config = LimiterConfig::TenantRequestLimiterConfig {
                 tenant: tenant_name.to_string(),
                 config: Box::new(tenant.options().request_config().cloned()),
diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index c5d4475..b277a3f 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -391,7 +391,9 @@ impl AdminMeta {
             if len > 3 && strs[2] == key_path::TENANTS {
                 let tenant_name = strs[3];
                 let opt_client = self.tenants.read().get(tenant_name).cloned();
-                let _ = self.limiters.process_watch_log(tenant_name, entry).await;
+                if len == 4 {
+                    let _ = self.limiters.process_watch_log(tenant_name, entry).await;
+                }
                 if let Some(client) = opt_client {
                     let _ = client.process_watch_log(entry).await;
                 }
-- 
2.43.0


From b295d58f341490f226b1e4594d188879cdec0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 18/35] fix: CoordinatorError::BincodeSerde has an error code
 of its own

---
 coordinator/src/errors.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coordinator/src/errors.rs b/coordinator/src/errors.rs
index 2f849f2..466f390 100644
--- a/coordinator/src/errors.rs
+++ b/coordinator/src/errors.rs
@@ -46,6 +46,7 @@ pub enum CoordinatorError {
     },
 
     #[snafu(display("Fails to serialize or deserialize: {source}"))]
+    #[error_code(code = 3)]
     BincodeSerde {
         source: bincode::Error,
         location: Location,
-- 
2.43.0


From 0a556965c0da75a2c89947c3552c97eb25ac22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 19/35] fix: MetaError::MetaStoreErr and ObjectLimit have error
 codes of their own

---
 meta/src/error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meta/src/error.rs b/meta/src/error.rs
index a6f29d6..510ad5f 100644
--- a/meta/src/error.rs
+++ b/meta/src/error.rs
@@ -83,6 +83,7 @@ pub enum MetaError {
     DatabaseNotFound { database: String },
 
     #[snafu(display("Meta Store Operator Error: {:?}", msg))]
+    #[error_code(code = 21)]
     MetaStoreErr { msg: String },
 
     #[snafu(display("Database {:?} already exists", database))]
@@ -113,6 +114,7 @@ pub enum MetaError {
     Retry { msg: String },
 
     #[snafu(display("{}", msg))]
+    #[error_code(code = 23)]
     ObjectLimit { msg: String },
 
     #[snafu(display("Connect to Server({}) error reason: {}", addr, msg))]
-- 
2.43.0


From 2c3aa32cf8a6890ad4d2732ff9730652009ab671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 20/35] fix: byte numbers that do not fit their unit exactly
 are written in bytes

---
 common/utils/src/byte_nums.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/utils/src/byte_nums.rs b/common/utils/src/byte_nums.rs
index c65970d..9312b32 100644
--- a/common/utils/src/byte_nums.rs
+++ b/common/utils/src/byte_nums.rs
@@ -21,9 +21,14 @@ impl CnosByteNumber {
     }
 
     pub fn format_bytes(bytes: u64) -> String {
-        Byte::from_u64(bytes)
+        let s = Byte::from_u64(bytes)
             .get_appropriate_unit(UnitType::Both)
-            .to_string()
+            .to_string();
+        // The number may have been rounded to fit the unit.
+        match Self::parse_bytes(&s) {
+            Ok(n) if n == bytes => s,
+            _ => format!("{bytes} B"),
+        }
     }
     pub fn parse_bytes(s: &str) -> Result<u64, ParseError> {
         let mut str = s.to_string();
-- 
2.43.0


From f3f1321edcbf93d32aac40446e19290788b6904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 21/35] fix: a node's raft state claims a snapshot only after
 the engine restored it

---
 replication/src/node_store.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/replication/src/node_store.rs b/replication/src/node_store.rs
index 55fa87e..107ceab 100644
--- a/replication/src/node_store.rs
+++ b/replication/src/node_store.rs
@@ -174,12 +174,14 @@ impl NodeStorage {
         let group_id = self.group_id();
         let log_id = snap.meta.last_log_id.unwrap_or_default();
         let membership = snap.meta.last_membership;
-        self.state.set_last_applied_log(group_id, log_id)?;
-        self.state.set_last_membership(group_id, membership)?;
-        self.state.set_snapshot_applied_log(group_id, log_id)?;
 
+        // The state claims the snapshot only after the engine has it.
         self.engine.write().await.restore(&snap.data).await?;
 
+        self.state.set_last_membership(group_id, membership)?;
+        self.state.set_snapshot_applied_log(group_id, log_id)?;
+        self.state.set_last_applied_log(group_id, log_id)?;
+
         Ok(())
     }
     pub async fn sync_wal_writer(&self) {
-- 
2.43.0


From c4128b952af2866b3ec950bf63c08eb78025f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 22/35] fix: meta: dropping a user removes its memberships
 under its cluster

---
 meta/src/store/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index fe1f3ac..706623e 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1310,7 +1310,7 @@ impl StateMachine {
         if let Some(user) = self.get_struct::<UserDesc>(&user_key)? {
             // first delete member of tenant
             for tenant in self.children_data::<Tenant>(&tenants_key)?.into_values() {
-                let member_key = KeyPath::member(tenant.name(), tenant.name(), user.id());
+                let member_key = KeyPath::member(cluster, tenant.name(), user.id());
                 self.remove(&member_key)?;
             }
             self.remove(&user_key)?;
-- 
2.43.0


From b400ac64e0fc5078179ba58ce3557be50b5f45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 23/35] fix: meta: dropping a database reports a failed removal

---
 meta/src/store/storage.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 706623e..14764ef 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1003,16 +1003,16 @@ impl StateMachine {
 
     fn process_drop_db(&self, cluster: &str, tenant: &str, db_name: &str) -> MetaResult<()> {
         let key = KeyPath::tenant_db_name(cluster, tenant, db_name);
-        let _ = self.remove(&key);
+        self.remove(&key)?;
 
         let buckets_path = KeyPath::tenant_db_buckets(cluster, tenant, db_name);
         for it in self.children_fullpath(&buckets_path)?.iter() {
-            let _ = self.remove(it);
+            self.remove(it)?;
         }
 
         let schemas_path = KeyPath::tenant_schemas(cluster, tenant, db_name);
         for it in self.children_fullpath(&schemas_path)?.iter() {
-            let _ = self.remove(it);
+            self.remove(it)?;
         }
 
         Ok(())
-- 
2.43.0


From 2ba68708f00337b6525cc7f37a6614d80b24545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 24/35] fix: meta: restoring a snapshot empties the change log

---
 meta/src/store/command.rs | 9 +++++++++
 meta/src/store/storage.rs | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/meta/src/store/command.rs b/meta/src/store/command.rs
index fc25f74..18348e1 100644
--- a/meta/src/store/command.rs
+++ b/meta/src/store/command.rs
@@ -374,6 +374,15 @@ impl Watch {
         let _ = self.sender.send(());
     }
 
+    /// Forgets every entry; readers of older versions are told to do a full sync.
+    pub fn clear(&self) {
+        let mut logs = self.logs.write();
+        *logs = CircleBuf::new(logs.capacity);
+        drop(logs);
+
+        let _ = self.sender.send(());
+    }
+
     pub fn subscribe(&self) -> broadcast::Receiver<()> {
         self.sender.subscribe()
     }
diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 14764ef..20999e1 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -102,6 +102,9 @@ impl ApplyStorage for StateMachine {
         }
         writer.commit().context(HeedSnafu)?;
 
+        // the change log does not lead to the restored data
+        self.watch.clear();
+
         Ok(())
     }
 
-- 
2.43.0


From 8272bf7450aad1a292eaf17c7239367707f37e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 25/35] fix: meta: a tenant's watchers are told of changes to
 the tenant itself

---
 meta/src/store/command.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/meta/src/store/command.rs b/meta/src/store/command.rs
index 18348e1..87b7c6d 100644
--- a/meta/src/store/command.rs
+++ b/meta/src/store/command.rs
@@ -428,10 +428,9 @@ impl Watch {
 
             let prefix = KeyPath::tenants(cluster);
             if let Some(sub_str) = entry.key.strip_prefix(&prefix) {
-                if let Some((tenant, _)) = sub_str.split_once('/') {
-                    if tenants.contains(tenant) {
-                        return true;
-                    }
+                let tenant = sub_str.split_once('/').map_or(sub_str, |(t, _)| t);
+                if tenants.contains(tenant) {
+                    return true;
                 }
             }
 
-- 
2.43.0


From a87c5795ef050fb3d39990150361f859d0e85d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 26/35] fix: meta client: watch a new tenant from the version
 its data was read at

---
 meta/src/model/meta_admin.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index b277a3f..e134f3f 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -309,10 +309,9 @@ impl AdminMeta {
                     handle.abort();
                 }
 
-                let base_ver = admin
+                admin
                     .watch_version
                     .fetch_min(info.version, Ordering::Relaxed);
-                admin.watch_version.store(base_ver, Ordering::Relaxed);
 
                 let mut tenants = admin.watch_tenants.write();
                 if info.name.is_empty() {
-- 
2.43.0


From 17c299f1e437c37ea290038734f6a46a9cf18af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 27/35] fix: meta client: wait for the aborted watch task
 before moving the watch version

---
 meta/src/model/meta_admin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index e134f3f..b2975cc 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -307,6 +307,8 @@ impl AdminMeta {
             if let Some(info) = receiver.recv().await {
                 if let Some(handle) = task_handle {
                     handle.abort();
+                    // until it has ended it may still store its own watch version
+                    let _ = handle.await;
                 }
 
                 admin
-- 
2.43.0


From 4d08ec48b4752f71a8e2211d180d80bea20adfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 28/35] fix: tskv: a failed rewriting of the summary file must
 not redirect later edits into the temporary file

---
 tskv/src/tsfamily/summary.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index 5693016..a5521ed 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -185,8 +185,11 @@ impl Summary {
             return Ok(());
         }
 
+        // The edit is recorded and applied already, a failed rewriting is tried again next time.
         let ve = request.ts_family.read().await.build_version_edit();
-        self.rewrite_summary_file(&ve).await?;
+        if let Err(e) = self.rewrite_summary_file(&ve).await {
+            trace::error!("Failed to rewrite summary file of {}: {e}", self.tsf_id);
+        }
 
         Ok(())
     }
@@ -202,8 +205,9 @@ impl Summary {
         LocalFileSystem::remove_if_exists(&tmp_file)
             .map_err(|e| TskvError::FileSystemError { source: e })?;
 
-        self.writer = Writer::open(&tmp_file, SUMMARY_BUFFER_SIZE).await?;
-        self.write_record(ve).await?;
+        // Edits go to the current file until the new one has taken its place.
+        let mut tmp_writer = Writer::open(&tmp_file, SUMMARY_BUFFER_SIZE).await?;
+        Self::write_version_edit(&mut tmp_writer, ve).await?;
 
         trace::info!("Rename summary file {:?} -> {:?}", tmp_file, summary_file,);
         std::fs::rename(tmp_file, summary_file).context(IOSnafu)?;
@@ -216,9 +220,12 @@ impl Summary {
     }
 
     pub async fn write_record(&mut self, ve: &VersionEdit) -> TskvResult<()> {
+        Self::write_version_edit(&mut self.writer, ve).await
+    }
+
+    async fn write_version_edit(writer: &mut Writer, ve: &VersionEdit) -> TskvResult<()> {
         let buf = ve.encode()?;
-        let _ = self
-            .writer
+        let _ = writer
             .write_record(
                 RecordDataVersion::V1.into(),
                 RecordDataType::Summary.into(),
@@ -226,7 +233,7 @@ impl Summary {
             )
             .await?;
 
-        self.writer.sync().await
+        writer.sync().await
     }
 
     pub fn file_id(&self) -> IDGenerator {
-- 
2.43.0


From a7fc7e46a19b071681c9afa5de07b6c70b9bd77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 29/35] fix: tskv: flush: take the summary queue before the
 ts_family lock, a concurrent flush held them the other way round

---
 tskv/src/compaction/job.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 60ab266..360979c 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -354,6 +354,8 @@ impl FlushJob {
             .context(IndexErrSnafu)?;
         request.flush_metrics.write().await.flush_index_time = instant.elapsed().as_millis() as u64;
 
+        // The queue is locked before the ts_family, as in process_summary_tasks.
+        let mut queue = job.queue.write().await;
         let ts_family_w = request.ts_family.write().await;
         let mut mems = ts_family_w.im_cache().clone();
         mems.retain(|x| x.read().mark_flushing());
@@ -375,12 +377,10 @@ impl FlushJob {
                 sender,
             );
 
-            job.queue
-                .write()
-                .await
-                .insert(flush_seq, (request.clone(), summary_task));
+            queue.insert(flush_seq, (request.clone(), summary_task));
         }
         drop(ts_family_w);
+        drop(queue);
 
         if let Err(err) = Self::flush_memtables(job, request, mems.clone(), receivers).await {
             for item in mems.iter_mut() {
-- 
2.43.0


From 3c7cda12d3982b5b298724b45c8b97876b9024bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 30/35] fix: tskv: flush: a memcache whose version edit failed
 must be flushed again before newer ones are recorded

---
 tskv/src/compaction/job.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 360979c..3a30459 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -302,17 +302,25 @@ impl FlushJob {
             }
 
             info!("Flush: completion request {} at {}", flush_req, key);
-            let result = job
-                .summary
-                .write()
-                .await
-                .apply_version_edit(&summary_task.request)
-                .await;
+            let SummaryTask { request, call_back } = summary_task;
+            let result = job.summary.write().await.apply_version_edit(&request).await;
             info!("Flush: request {} apply version {:?}", flush_req, result);
-            if let Err(err) = summary_task.call_back.send(result) {
+            let is_applied = result.is_ok();
+            if let Err(err) = call_back.send(result) {
                 info!("Flush: apply version send to callback failed: {:?}", err);
             }
 
+            if !is_applied {
+                // Nothing newer may be recorded as flushed before this one is flushed again.
+                let (call_back, _) = oneshot::channel();
+                let flush_req = FlushReq {
+                    completion: false,
+                    ..flush_req
+                };
+                queue.insert(key, (flush_req, SummaryTask { request, call_back }));
+                break;
+            }
+
             if flush_req.trigger_compact {
                 let _ = job
                     .ctx
-- 
2.43.0


From 2be665caf5827e2f81e6111198421ea2178284d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 31/35] fix: an inserted row goes to its series' replication
 set whatever the column order or null tags

---
 coordinator/src/service.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/coordinator/src/service.rs b/coordinator/src/service.rs
index 5b2d77e..f45ee09 100644
--- a/coordinator/src/service.rs
+++ b/coordinator/src/service.rs
@@ -671,8 +671,7 @@ impl Coordinator for CoordService {
         let table_name = table_schema.name.as_str();
         let columns = record_batch.columns();
         for idx in 0..record_batch.num_rows() {
-            let mut hasher = BkdrHasher::new();
-            hasher.hash_with(table_name.as_bytes());
+            let mut tags = Vec::new();
             let mut ts = i64::MAX;
             let mut has_ts = false;
             let mut has_fileds = false;
@@ -698,18 +697,19 @@ impl Coordinator for CoordService {
                     has_ts = true;
                 }
                 if matches!(tskv_schema_column.column_type, ColumnType::Tag) {
-                    let value = column
-                        .as_any()
-                        .downcast_ref::<StringArray>()
-                        .ok_or_else(|| {
-                            CommonSnafu {
-                                msg: format!("column {} is not StringArray", name),
-                            }
-                            .build()
-                        })?
-                        .value(idx);
-                    hasher.hash_with(name.as_bytes());
-                    hasher.hash_with(value.as_bytes());
+                    let values =
+                        column
+                            .as_any()
+                            .downcast_ref::<StringArray>()
+                            .ok_or_else(|| {
+                                CommonSnafu {
+                                    msg: format!("column {} is not StringArray", name),
+                                }
+                                .build()
+                            })?;
+                    if !values.is_null(idx) {
+                        tags.push((name, values.value(idx)));
+                    }
                 }
 
                 if let ColumnType::Field(_) = tskv_schema_column.column_type {
@@ -733,6 +733,14 @@ impl Coordinator for CoordService {
                 return Err(FieldsIsEmptySnafu.build());
             }
 
+            // The same series as in the line protocols: tags that are there, ordered by name
+            tags.sort_by(|a, b| a.0.cmp(b.0));
+            let mut hasher = BkdrHasher::new();
+            hasher.hash_with(table_name.as_bytes());
+            for (name, value) in tags {
+                hasher.hash_with(name.as_bytes());
+                hasher.hash_with(value.as_bytes());
+            }
             let hash = hasher.number();
             let info = meta_client
                 .locate_replication_set_for_write(db, hash, ts)
-- 
2.43.0


From 4324d54a0eeb7ea132ae688c9cd48ad87d7c54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:21 +0000
Subject: [PATCH 32/35] fix: protocol_parser: JSON log lines carry their series
 hash, so they go where the series' other rows go

---
 common/protocol_parser/src/json_protocol/parser.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 1eb6f63..2157856 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -551,11 +551,5 @@ pub fn parse_to_line<'a>(
         }
     }
 
-    Ok(Line {
-        hash_id: 0,
-        table: Cow::Borrowed(table),
-        tags,
-        fields,
-        timestamp,
-    })
+    Ok(Line::new(Cow::Borrowed(table), tags, fields, timestamp))
 }
-- 
2.43.0


From dad5c3488281642e4d28799ec69dc047e5d4e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:37 +0000
Subject: [PATCH 33/35] fix: index: deleting a series fails when its id or key
 cannot be removed from the store

---
 tskv/src/index/ts_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index 5ddb6aa..b6a25a8 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -239,11 +239,11 @@ impl TSIndex {
 
     pub async fn del_series_info(&mut self, sid: u32) -> IndexResult<()> {
         let series_key = self.get_series_key(sid).await?;
-        let _ = self.storage.delete(&encode_series_id_key(sid));
+        self.storage.delete(&encode_series_id_key(sid))?;
         if let Some(series_key) = series_key {
             self.cache.del(sid, &series_key);
             let key_buf = encode_series_key(series_key.table(), series_key.tags());
-            let _ = self.storage.delete(&key_buf);
+            self.storage.delete(&key_buf)?;
             for tag in series_key.tags() {
                 let key = encode_inverted_index_key(series_key.table(), &tag.key, &tag.value);
                 self.storage.modify(&key, sid, false)?;
-- 
2.43.0


From 88e72dd727b46d434c6ef77d13e751758277518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:37 +0000
Subject: [PATCH 34/35] fix: index: the series of table 'a' are not those of
 table 'a.b'

---
 tskv/src/index/engine2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tskv/src/index/engine2.rs b/tskv/src/index/engine2.rs
index e86ea7f..e8f2de0 100644
--- a/tskv/src/index/engine2.rs
+++ b/tskv/src/index/engine2.rs
@@ -266,6 +266,12 @@ impl IndexEngine2 {
                 .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
             for val in it {
                 let val = val.map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
+                // The key of a tag is a column id, without any '.': such a key is one of a table
+                // named `{tab}.{...}`.
+                let tag_key = val.0[prefix.len()..].split(|b| *b == b'=').next();
+                if tag_key.is_some_and(|k| k.contains(&b'.')) {
+                    continue;
+                }
                 let rb = RoaringBitmap::deserialize_from(val.1).context(RoaringBitmapSnafu)?;
                 bitmap = bitmap.bitor(rb);
             }
-- 
2.43.0


From 7d872bd29d703a257ce4a92fe4293e3a581377ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:37 +0000
Subject: [PATCH 35/35] fix: index: what was not synced is not forgotten

---
 tskv/src/index/engine2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tskv/src/index/engine2.rs b/tskv/src/index/engine2.rs
index e8f2de0..1acb162 100644
--- a/tskv/src/index/engine2.rs
+++ b/tskv/src/index/engine2.rs
@@ -150,7 +150,9 @@ impl IndexEngine2 {
     }
 
     pub fn flush(&self) -> IndexResult<()> {
-        let _ = self.env.force_sync();
+        self.env
+            .force_sync()
+            .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
         Ok(())
     }
 
-- 
2.43.0

