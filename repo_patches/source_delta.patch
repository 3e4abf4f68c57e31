From 453272f77b765956556dd6042fbdcc6b5aa09404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 01/30] hooks: let a model checker intercept the atomics (cfg
 stream_download_mc)

---
 crates/stream-download/src/lib.rs            |  1 +
 crates/stream-download/src/source/handle.rs  |  3 ++-
 crates/stream-download/src/storage/memory.rs |  2 +-
 crates/stream-download/src/sync.rs           | 11 +++++++++++
 4 files changed, 15 insertions(+), 2 deletions(-)
 create mode 100644 crates/stream-download/src/sync.rs

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 278dff4..69597ec 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -26,6 +26,7 @@ pub mod registry;
 mod settings;
 pub mod source;
 pub mod storage;
+mod sync;
 
 /// A handle that can be usd to interact with the stream remotely.
 #[derive(Debug, Clone)]
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 8bdb92b..3401217 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -2,7 +2,6 @@ use std::fmt::Debug;
 use std::ops::Range;
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
 use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
@@ -11,6 +10,8 @@ use tokio::sync::mpsc::error::TrySendError;
 use tokio::sync::{Notify, mpsc};
 use tracing::{debug, error};
 
+use crate::sync::atomic::{AtomicBool, AtomicI64, Ordering};
+
 #[derive(Debug, Clone)]
 pub(crate) struct SourceHandle {
     pub(super) downloaded: Downloaded,
diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 09aa7f3..7c10563 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -5,12 +5,12 @@
 use std::io::{self, Read, Seek, SeekFrom, Write};
 use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
-use std::sync::atomic::{AtomicUsize, Ordering};
 
 use parking_lot::RwLock;
 
 use super::StorageProvider;
 use crate::WrapIoResult;
+use crate::sync::atomic::{AtomicUsize, Ordering};
 
 /// Creates a [`MemoryStorage`] with an initial size based on the supplied content length.
 #[derive(Default, Clone, Debug)]
diff --git a/crates/stream-download/src/sync.rs b/crates/stream-download/src/sync.rs
new file mode 100644
index 0000000..2aba5d2
--- /dev/null
+++ b/crates/stream-download/src/sync.rs
@@ -0,0 +1,11 @@
+//! Synchronization primitives that a model checker can intercept.
+//!
+//! Regular builds use the standard library. With `--cfg stream_download_mc`, the atomics come from
+//! the model checker's stand-in for `parking_lot` instead, so that every access is a scheduling
+//! point.
+#![expect(unexpected_cfgs)]
+
+#[cfg(stream_download_mc)]
+pub(crate) use parking_lot::mc::atomic;
+#[cfg(not(stream_download_mc))]
+pub(crate) use std::sync::atomic;
-- 
2.43.0


From 10e560c5f84604d176fc017cd7dd14b0032a7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 02/30] fix: return an error for seeks before the start of the
 stream

A negative result wrapped around to a huge position, which then panicked
with an overflow or in the storage layer.
---
 crates/stream-download/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 69597ec..127c626 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -433,12 +433,12 @@ impl<P: StorageProvider> StreamDownload<P> {
             }
             SeekFrom::Current(position) => {
                 debug!(seek_position = position, "seeking from current position");
-                (self.output_reader.stream_position()? as i64 + position) as u64
+                checked_seek(self.output_reader.stream_position()?, position)?
             }
             SeekFrom::End(position) => {
                 debug!(seek_position = position, "seeking from end");
                 if let Some(length) = self.handle.content_length() {
-                    (length as i64 + position) as u64
+                    checked_seek(length, position)?
                 } else {
                     return Err(io::Error::new(
                         io::ErrorKind::Unsupported,
@@ -555,7 +555,7 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
         trace!(buffer_length = buf.len(), "read requested");
         let stream_position = self.output_reader.stream_position()?;
         let requested_position =
-            self.normalize_requested_position(stream_position + buf.len() as u64);
+            self.normalize_requested_position(stream_position.saturating_add(buf.len() as u64));
         trace!(
             current_position = stream_position,
             requested_position = requested_position
@@ -622,6 +622,16 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
     }
 }
 
+/// Applies a relative offset, which may not move before the start of the stream.
+fn checked_seek(position: u64, offset: i64) -> io::Result<u64> {
+    position.checked_add_signed(offset).ok_or_else(|| {
+        io::Error::new(
+            io::ErrorKind::InvalidInput,
+            format!("seek from {position} by {offset} is out of range"),
+        )
+    })
+}
+
 pub(crate) trait WrapIoResult {
     fn wrap_err(self, msg: &str) -> Self;
 }
-- 
2.43.0


From 6756786d1b80ed7bc0a940ea570baab83aa45b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 03/30] fix: don't return unwritten bytes or panic in memory
 storage

Reads were limited by the number of bytes written instead of by the
furthest position written, so rewriting a range or skipping one made the
zeroed remainder of the buffer readable. Reading beyond the end of the
buffer panicked.
---
 crates/stream-download/src/storage/memory.rs | 31 +++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index 7c10563..f2e3196 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -60,9 +60,15 @@ impl Read for MemoryStorage {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let inner = self.inner.read();
 
-        let available_len =
-            (inner.len().saturating_sub(self.position)).min(self.written.load(Ordering::SeqCst));
+        // Anything past the furthest written position has not been filled in yet
+        let available_len = self
+            .written
+            .load(Ordering::SeqCst)
+            .saturating_sub(self.position);
         let read_len = available_len.min(buf.len());
+        if read_len == 0 {
+            return Ok(0);
+        }
         buf[..read_len].copy_from_slice(&inner[self.position..self.position + read_len]);
         self.position += read_len;
         Ok(read_len)
@@ -73,10 +79,18 @@ impl Seek for MemoryStorage {
     fn seek(&mut self, position: SeekFrom) -> io::Result<u64> {
         let len = self.inner.read().len();
         let new_position = match position {
-            SeekFrom::Start(position) => position as usize,
-            SeekFrom::Current(from_current) => (self.position as i64 + from_current) as usize,
-            SeekFrom::End(from_end) => (len as i64 + from_end) as usize,
-        };
+            SeekFrom::Start(position) => Some(position as usize),
+            SeekFrom::Current(from_current) => {
+                self.position.checked_add_signed(from_current as isize)
+            }
+            SeekFrom::End(from_end) => len.checked_add_signed(from_end as isize),
+        }
+        .ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "seek to a negative or overflowing position",
+            )
+        })?;
 
         self.position = new_position;
         Ok(new_position as u64)
@@ -85,6 +99,9 @@ impl Seek for MemoryStorage {
 
 impl Write for MemoryStorage {
     fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let mut inner = self.inner.write();
 
         if self.position + buf.len() > inner.len() {
@@ -94,7 +111,7 @@ impl Write for MemoryStorage {
         inner[self.position..self.position + buf.len()].copy_from_slice(buf);
 
         self.position += buf.len();
-        self.written.fetch_add(buf.len(), Ordering::SeqCst);
+        self.written.fetch_max(self.position, Ordering::SeqCst);
         Ok(buf.len())
     }
 
-- 
2.43.0


From 0493169aa7243dcc2b7a1c88c8f72969ed328b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 04/30] fix: don't read ahead in temp storage

The read buffer could cache parts of the file that weren't downloaded yet
and return them as zeros after they were.
---
 crates/stream-download/src/storage/temp.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/storage/temp.rs b/crates/stream-download/src/storage/temp.rs
index 8e724ec..3ce500e 100644
--- a/crates/stream-download/src/storage/temp.rs
+++ b/crates/stream-download/src/storage/temp.rs
@@ -5,7 +5,7 @@
 use std::ffi::OsString;
 use std::fmt::Debug;
 use std::fs::File;
-use std::io::{self, BufReader, Read, Seek};
+use std::io::{self, Read, Seek};
 use std::path::PathBuf;
 use std::sync::Arc;
 
@@ -124,9 +124,7 @@ impl StorageProvider for TempStorageProvider {
         .wrap_err("error creating temp file")?;
 
         let handle = tempfile.reopen().wrap_err("error reopening temp file")?;
-        let reader = TempStorageReader {
-            reader: BufReader::new(tempfile),
-        };
+        let reader = TempStorageReader { reader: tempfile };
         let writer = handle
             .try_clone()
             .wrap_err("error cloning temporary file")?;
@@ -137,7 +135,9 @@ impl StorageProvider for TempStorageProvider {
 /// Reader created by a [`TempStorageProvider`]. Reads from a temporary file.
 #[derive(Debug)]
 pub struct TempStorageReader {
-    reader: BufReader<NamedTempFile>,
+    // This must not be buffered. The part of the file after the current position may have a hole
+    // that's filled in later.
+    reader: NamedTempFile,
 }
 
 impl Read for TempStorageReader {
-- 
2.43.0


From 65a59231441354c1b379e842d6d1ec774f479d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 05/30] fix: track the readable window of bounded storage by
 position

The read and written counters underflowed when seeking back over a part
that was skipped before, and reading a skipped or overwritten position
within the size of the buffer returned unrelated bytes.
---
 crates/stream-download/src/storage/bounded.rs | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index 9ee8035..f05d09f 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -90,8 +90,7 @@ where
             ))?;
 
         let shared_info = Arc::new(AssertUnwindSafe(Mutex::new(SharedInfo {
-            read: 0,
-            written: 0,
+            valid_start: 0,
             read_position: 0,
             write_position: 0,
             size: buffer_size,
@@ -110,14 +109,20 @@ where
 
 #[derive(Debug)]
 struct SharedInfo {
-    read: usize,
-    written: usize,
+    // everything between this position and the write position was written contiguously
+    valid_start: usize,
     read_position: usize,
     write_position: usize,
     size: usize,
 }
 
 impl SharedInfo {
+    /// The lowest position that hasn't been overwritten yet.
+    fn lowest_position(&self) -> usize {
+        self.valid_start
+            .max(self.write_position.saturating_sub(self.size))
+    }
+
     fn mapped_read_position(&self, val: usize) -> usize {
         (val + (self.read_position % self.size)) % self.size
     }
@@ -162,7 +167,7 @@ where
             .write_position
             .saturating_sub(shared_info.read_position);
 
-        if available_len > shared_info.size {
+        if available_len > 0 && shared_info.read_position < shared_info.lowest_position() {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!(
@@ -172,11 +177,6 @@ where
             ));
         }
 
-        if shared_info.read >= shared_info.written {
-            debug!("read bytes >= written bytes, ending read");
-            return Ok(0);
-        }
-
         let size = shared_info.size.min(shared_info.write_position);
         let available_buf_size = available_len.min(buf.len());
 
@@ -184,6 +184,7 @@ where
 
         let buf = &mut buf[..available_buf_size];
         if buf.is_empty() {
+            debug!("no unread bytes, ending read");
             return Ok(0);
         }
 
@@ -195,7 +196,6 @@ where
             end,
             size,
             buf_len = buf.len(),
-            read = shared_info.read,
             "bounded read"
         );
 
@@ -224,7 +224,6 @@ where
 
         let buf_len = buf.len();
         shared_info.read_position += buf_len;
-        shared_info.read += buf_len;
 
         Ok(buf_len)
     }
@@ -239,10 +238,6 @@ where
         trace!("reader seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.read_position)?;
-        // If we performed a backwards seek,we need to adjust the absolute read position.
-        // Otherwise, if we've moved the read position back, but keep incrementing the
-        // read counter, it may look like we've read more bytes than we've written.
-        shared_info.read -= shared_info.read_position.saturating_sub(new_position);
         shared_info.read_position = new_position;
         Ok(new_position as u64)
     }
@@ -251,7 +246,14 @@ where
 fn handle_seek(position: SeekFrom, current_position: usize) -> io::Result<usize> {
     match position {
         SeekFrom::Start(position) => Ok(position as usize),
-        SeekFrom::Current(from_current) => Ok((current_position as i64 + from_current) as usize),
+        SeekFrom::Current(from_current) => current_position
+            .checked_add_signed(from_current as isize)
+            .ok_or_else(|| {
+                io::Error::new(
+                    io::ErrorKind::InvalidInput,
+                    "seek to a negative or overflowing position",
+                )
+            }),
         SeekFrom::End(_) => Err(io::Error::new(
             io::ErrorKind::Unsupported,
             "seek from end not supported",
@@ -296,7 +298,6 @@ where
             start,
             end,
             buf_len = buf.len(),
-            written = shared_info.written,
             "bounded write"
         );
 
@@ -322,7 +323,6 @@ where
 
         let buf_len = buf.len();
         shared_info.write_position += buf_len;
-        shared_info.written += buf_len;
 
         self.inner.flush().wrap_err("error flushing during write")?;
 
@@ -343,7 +343,10 @@ where
         trace!("writer seek");
         let mut shared_info = self.shared_info.lock();
         let new_position = handle_seek(position, shared_info.write_position)?;
-        shared_info.written -= shared_info.write_position.saturating_sub(new_position);
+        shared_info.valid_start = shared_info.lowest_position();
+        if !(shared_info.valid_start..=shared_info.write_position).contains(&new_position) {
+            shared_info.valid_start = new_position;
+        }
         shared_info.write_position = new_position;
         Ok(new_position as u64)
     }
-- 
2.43.0


From 082eedbb0794c6ea92b543a07fb380c21e03e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 06/30] fix: allow reads larger than the content in bounded
 storage

A read that fits the configured buffer size failed if the content was
shorter than the buffer.
---
 crates/stream-download/src/storage/bounded.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/storage/bounded.rs b/crates/stream-download/src/storage/bounded.rs
index f05d09f..63ddb5a 100644
--- a/crates/stream-download/src/storage/bounded.rs
+++ b/crates/stream-download/src/storage/bounded.rs
@@ -94,6 +94,7 @@ where
             read_position: 0,
             write_position: 0,
             size: buffer_size,
+            max_size: self.buffer_size,
         })));
         let reader = BoundedStorageReader {
             inner: reader,
@@ -114,6 +115,8 @@ struct SharedInfo {
     read_position: usize,
     write_position: usize,
     size: usize,
+    // the configured size, which may be larger than the content
+    max_size: usize,
 }
 
 impl SharedInfo {
@@ -152,13 +155,13 @@ where
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let mut shared_info = self.shared_info.lock();
 
-        if buf.len() > shared_info.size {
+        if buf.len() > shared_info.max_size {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 format!(
                     "read size {} is greater than buffer size {}",
                     buf.len(),
-                    shared_info.size
+                    shared_info.max_size
                 ),
             ));
         }
-- 
2.43.0


From 698960e62c16e9907134786c83091b97003f2fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 07/30] fix: skip empty chunks

Reporting the progress of an empty chunk looked up the position before it,
which panicked at the start of the stream or after a seek.
---
 crates/stream-download/src/source/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 26b7764..1ccbf46 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -376,6 +376,11 @@ where
             }
         };
 
+        if bytes.as_ref().is_some_and(Bytes::is_empty) {
+            trace!("skipping empty chunk");
+            return Ok(DownloadAction::Continue);
+        }
+
         if !self.prefetch_complete {
             return self
                 .handle_prefetch(stream, bytes, self.prefetch_start_position, download_start)
-- 
2.43.0


From 163a55e36170ad7cec530b884d8778100e8711ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 08/30] fix: drop the rest of a chunk when the stream position
 changes

The part of a chunk that didn't fit into bounded storage during prefetch
was written after a seek or reconnect, in front of the data of the new
position.
---
 crates/stream-download/src/source/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 1ccbf46..1a344fd 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -276,6 +276,10 @@ where
         // A retry policy on the client may cause an exponential backoff to be triggered here, so
         // we'll cap the reconnect time to prevent additional delays between reconnect attempts.
         let reconnect_pos = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
+        if matches!(reconnect_pos, Ok(Ok(()))) {
+            // the stream continues with the next byte to write, so it will send these again
+            self.remaining_bytes = None;
+        }
         if reconnect_pos
             .inspect_err(|e| warn!("error attempting to reconnect: {e:?}"))
             .is_ok()
@@ -472,6 +476,8 @@ where
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
         self.writer.seek(SeekFrom::Start(start))?;
+        // these belong to the previous position
+        self.remaining_bytes = None;
         Ok(())
     }
 
-- 
2.43.0


From 1bade8ac181c05d428d67501c945df798cd202ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 09/30] fix: only call on_reconnect when the stream reconnected

It was also called if the reconnect attempt returned an error.
---
 crates/stream-download/src/source/mod.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 1a344fd..f544412 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -275,17 +275,16 @@ where
         // We already know there's a network issue if we're attempting a reconnect.
         // A retry policy on the client may cause an exponential backoff to be triggered here, so
         // we'll cap the reconnect time to prevent additional delays between reconnect attempts.
-        let reconnect_pos = tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await;
-        if matches!(reconnect_pos, Ok(Ok(()))) {
-            // the stream continues with the next byte to write, so it will send these again
-            self.remaining_bytes = None;
-        }
-        if reconnect_pos
-            .inspect_err(|e| warn!("error attempting to reconnect: {e:?}"))
-            .is_ok()
-            && let Some(on_reconnect) = &mut self.on_reconnect
-        {
-            on_reconnect(stream, &self.cancellation_token);
+        match tokio::time::timeout(self.retry_timeout, stream.reconnect(pos)).await {
+            Ok(Ok(())) => {
+                // the stream continues with the next byte to write, so it will send these again
+                self.remaining_bytes = None;
+                if let Some(on_reconnect) = &mut self.on_reconnect {
+                    on_reconnect(stream, &self.cancellation_token);
+                }
+            }
+            Ok(Err(e)) => warn!("error attempting to reconnect: {e:?}"),
+            Err(e) => warn!("timed out attempting to reconnect: {e:?}"),
         }
 
         Ok(())
-- 
2.43.0


From bc1f3c39c5c602b57da28db7afdd73f72b7647c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 10/30] fix: request the range that is missing when seeking

---
 crates/stream-download/src/source/mod.rs | 58 ++++++++++++------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index f544412..602046a 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -234,36 +234,37 @@ where
     }
 
     async fn handle_seek(&mut self, stream: &mut S, position: u64) -> io::Result<()> {
+        let prefetch_complete = self.prefetch_complete;
+        if !prefetch_complete && stream.supports_seek() {
+            debug!("seeking during prefetch, ending prefetch early");
+            let current_stream_position = self.writer.stream_position()?;
+            self.downloaded
+                .add(self.prefetch_start_position..current_stream_position);
+            self.prefetch_complete = true;
+        }
         if self.should_seek(stream, position)? {
             debug!("seek position not yet downloaded");
-            let current_stream_position = self.writer.stream_position()?;
-            if self.prefetch_complete {
-                debug!("re-starting prefetch");
-                self.prefetch_start_position = position;
-                self.prefetch_complete = false;
-            } else {
-                debug!("seeking during prefetch, ending prefetch early");
-                self.downloaded
-                    .add(self.prefetch_start_position..current_stream_position);
-                self.prefetch_complete = true;
-            }
-            if let Some(content_length) = self.content_length {
-                // Get the minimum possible start position to ensure we capture the entire range
-                let min_start_position = current_stream_position.min(position);
-                debug!(
-                    start = min_start_position,
-                    end = content_length,
-                    "checking for seek range",
-                );
-                if let Some(gap) = self.downloaded.next_gap(min_start_position..content_length) {
-                    // Gap start may be too low if we're seeking forward, so check it against the
-                    // position
-                    let seek_start = gap.start.max(position);
-                    debug!(seek_start, seek_end = gap.end, "requesting seek range");
-                    self.seek(stream, seek_start, Some(gap.end)).await?;
+            let range = match self.content_length {
+                // Everything before the position is either downloaded or picked up at the end
+                Some(content_length) if position < content_length => self
+                    .downloaded
+                    .next_gap(position..content_length)
+                    .map(|gap| (gap.start, Some(gap.end))),
+                // There's nothing to download at the end of the stream, so finish what's missing
+                Some(content_length) => self
+                    .downloaded
+                    .next_gap(self.writer.stream_position()?.min(content_length)..content_length)
+                    .map(|gap| (gap.start, Some(gap.end))),
+                None => Some((position, None)),
+            };
+            if let Some((seek_start, seek_end)) = range {
+                if prefetch_complete {
+                    debug!("re-starting prefetch");
+                    self.prefetch_start_position = seek_start;
+                    self.prefetch_complete = false;
                 }
-            } else {
-                self.seek(stream, position, None).await?;
+                debug!(seek_start, seek_end, "requesting seek range");
+                self.seek(stream, seek_start, seek_end).await?;
             }
         }
         Ok(())
@@ -466,7 +467,8 @@ where
             return Ok(false);
         }
         Ok(if let Some(range) = self.downloaded.get(position) {
-            !range.contains(&self.writer.stream_position()?)
+            // the end of the range is where the next byte gets written
+            !(range.start..=range.end).contains(&self.writer.stream_position()?)
         } else {
             true
         })
-- 
2.43.0


From fb0011804bd5e7001c8ae83a909410e74be19387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 11/30] fix: don't miss wake-ups or read across gaps in the
 downloaded data

The reader re-checks what's downloaded each time it's woken up, asks for the
missing part if the download has skipped it, and replaces seek requests that
aren't relevant anymore.
---
 crates/stream-download/src/lib.rs           |   3 +-
 crates/stream-download/src/source/handle.rs | 154 ++++++++++++++------
 crates/stream-download/src/source/mod.rs    |  84 ++++++-----
 3 files changed, 156 insertions(+), 85 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 127c626..d271bd9 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -575,7 +575,8 @@ impl<P: StorageProvider> Read for StreamDownload<P> {
             debug!("stream position not yet downloaded");
         }
 
-        self.handle.wait_for_position(requested_position);
+        self.handle
+            .wait_for_position(stream_position, requested_position);
         self.check_for_failure()?;
         debug!(
             current_position = stream_position,
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 3401217..db92e1c 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -6,11 +6,10 @@ use std::time::Instant;
 
 use parking_lot::{Condvar, Mutex, RwLock};
 use rangemap::RangeSet;
-use tokio::sync::mpsc::error::TrySendError;
-use tokio::sync::{Notify, mpsc};
-use tracing::{debug, error};
+use tokio::sync::Notify;
+use tracing::debug;
 
-use crate::sync::atomic::{AtomicBool, AtomicI64, Ordering};
+use crate::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
 
 #[derive(Debug, Clone)]
 pub(crate) struct SourceHandle {
@@ -19,7 +18,8 @@ pub(crate) struct SourceHandle {
     pub(super) requested_position: RequestedPosition,
     pub(super) position_reached: PositionReached,
     pub(super) content_length: Option<u64>,
-    pub(super) seek_tx: mpsc::Sender<u64>,
+    pub(super) segment_start: SegmentStart,
+    pub(super) seek_request: SeekRequest,
     pub(super) notify_read: NotifyRead,
 }
 
@@ -28,24 +28,50 @@ impl SourceHandle {
         self.downloaded.get(position)
     }
 
-    pub(crate) fn wait_for_position(&self, requested_position: u64) {
-        self.request_position(requested_position);
-        debug!(
-            requested_position = requested_position,
-            "waiting for requested position"
-        );
-        self.notify_read.notify_waiting();
-        self.position_reached.wait_for_position_reached();
+    /// Waits until everything between the two positions is downloaded or the download ends.
+    pub(crate) fn wait_for_position(&self, current_position: u64, requested_position: u64) {
+        loop {
+            // Needs to be set before checking what's downloaded so that either the position is
+            // available here or the download task notifies us
+            self.requested_position.set(requested_position);
+            let missing_position = match self.downloaded.get(current_position) {
+                Some(range) if range.end >= requested_position => break,
+                Some(range) => range.end,
+                None => current_position,
+            };
+            if missing_position < self.segment_start.get() {
+                // The download has skipped this part, so it won't get there by itself
+                self.seek_request.set(missing_position);
+            }
+            debug!(
+                requested_position = requested_position,
+                "waiting for requested position"
+            );
+            self.notify_read.notify_waiting();
+            if self.position_reached.wait_for_position_reached() == WaitResult::StreamDone {
+                break;
+            }
+        }
+        self.seek_request.clear();
     }
 
+    /// Waits until the position is downloaded or the download ends.
     pub(crate) fn seek(&self, seek_position: u64) {
-        self.request_position(seek_position);
-        self.request_seek(seek_position);
-        debug!(
-            requested_position = seek_position,
-            "waiting for requested position"
-        );
-        self.position_reached.wait_for_position_reached();
+        loop {
+            self.requested_position.set(seek_position);
+            if self.downloaded.get(seek_position).is_some() {
+                break;
+            }
+            self.seek_request.set(seek_position);
+            debug!(
+                requested_position = seek_position,
+                "waiting for requested position"
+            );
+            if self.position_reached.wait_for_position_reached() == WaitResult::StreamDone {
+                break;
+            }
+        }
+        self.seek_request.clear();
     }
 
     pub(crate) fn notify_read(&self) {
@@ -59,21 +85,6 @@ impl SourceHandle {
     pub(crate) fn is_failed(&self) -> bool {
         self.download_status.is_failed()
     }
-
-    fn request_position(&self, position: u64) {
-        self.requested_position.set(position);
-    }
-
-    fn request_seek(&self, position: u64) {
-        self.seek_tx
-            .try_send(position)
-            .inspect_err(|e| {
-                if let TrySendError::Full(_) = e {
-                    error!("Sent multiple seek requests without waiting");
-                }
-            })
-            .ok();
-    }
 }
 
 #[derive(Debug, Clone)]
@@ -85,23 +96,76 @@ impl Default for RequestedPosition {
     }
 }
 
-// relaxed ordering as we are not using the atomic to
-// lock something or to synchronize threads.
+// The reader sets the position before it checks what's downloaded and the download task checks it
+// after it makes more data available. At least one of them has to see what the other one did.
 impl RequestedPosition {
     pub(super) fn clear(&self) {
-        self.0.store(-1, Ordering::Relaxed);
+        self.0.store(-1, Ordering::SeqCst);
     }
 
     pub(super) fn get(&self) -> Option<u64> {
-        let val = self.0.load(Ordering::Relaxed);
+        let val = self.0.load(Ordering::SeqCst);
+        if val == -1 { None } else { Some(val as u64) }
+    }
+
+    fn take(&self) -> Option<u64> {
+        let val = self.0.swap(-1, Ordering::SeqCst);
         if val == -1 { None } else { Some(val as u64) }
     }
 
     fn set(&self, position: u64) {
-        self.0.store(position as i64, Ordering::Relaxed);
+        self.0.store(position as i64, Ordering::SeqCst);
     }
 }
 
+/// Start of the contiguous part that's currently being downloaded.
+#[derive(Default, Debug, Clone)]
+pub(super) struct SegmentStart(Arc<AtomicU64>);
+
+impl SegmentStart {
+    pub(super) fn set(&self, position: u64) {
+        self.0.store(position, Ordering::SeqCst);
+    }
+
+    pub(super) fn get(&self) -> u64 {
+        self.0.load(Ordering::SeqCst)
+    }
+}
+
+/// Position the download task should continue at.
+///
+/// There's a single reader that waits for its request, so only the most recent one is relevant.
+#[derive(Default, Debug, Clone)]
+pub(super) struct SeekRequest {
+    position: RequestedPosition,
+    notify: Arc<Notify>,
+}
+
+impl SeekRequest {
+    fn set(&self, position: u64) {
+        self.position.set(position);
+        self.notify.notify_one();
+    }
+
+    fn clear(&self) {
+        self.position.clear();
+    }
+
+    pub(super) fn take(&self) -> Option<u64> {
+        self.position.take()
+    }
+
+    pub(super) async fn requested(&self) {
+        self.notify.notified().await;
+    }
+}
+
+#[derive(PartialEq, Eq)]
+enum WaitResult {
+    PositionReached,
+    StreamDone,
+}
+
 #[derive(Default, Debug)]
 struct Waiter {
     position_reached: bool,
@@ -128,11 +192,11 @@ impl PositionReached {
         cvar.notify_all();
     }
 
-    fn wait_for_position_reached(&self) {
+    fn wait_for_position_reached(&self) -> WaitResult {
         let (mutex, cvar) = self.0.as_ref();
         let mut waiter = mutex.lock();
         if waiter.stream_done {
-            return;
+            return WaitResult::StreamDone;
         }
 
         let wait_start = Instant::now();
@@ -144,9 +208,11 @@ impl PositionReached {
             elapsed = format!("{:?}", wait_start.elapsed()),
             "position reached"
         );
-        if !waiter.stream_done {
-            waiter.position_reached = false;
+        if waiter.stream_done {
+            return WaitResult::StreamDone;
         }
+        waiter.position_reached = false;
+        WaitResult::PositionReached
     }
 }
 
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 602046a..4b1064d 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -11,9 +11,9 @@ use std::time::{Duration, Instant};
 use bytes::{BufMut, Bytes, BytesMut};
 use futures_util::{Future, Stream, StreamExt, TryStream};
 use handle::{
-    DownloadStatus, Downloaded, NotifyRead, PositionReached, RequestedPosition, SourceHandle,
+    DownloadStatus, Downloaded, NotifyRead, PositionReached, RequestedPosition, SeekRequest,
+    SegmentStart, SourceHandle,
 };
-use tokio::sync::mpsc;
 use tokio::task::yield_now;
 use tokio::time::timeout;
 use tokio_util::sync::CancellationToken;
@@ -120,8 +120,8 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     position_reached: PositionReached,
     notify_read: NotifyRead,
     content_length: Option<u64>,
-    seek_tx: mpsc::Sender<u64>,
-    seek_rx: mpsc::Receiver<u64>,
+    segment_start: SegmentStart,
+    seek_request: SeekRequest,
     prefetch_bytes: u64,
     batch_write_size: usize,
     retry_timeout: Duration,
@@ -144,9 +144,6 @@ where
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
-        // buffer size of 1 is fine here because we wait for the position to update after we send
-        // each request
-        let (seek_tx, seek_rx) = mpsc::channel(1);
         Self {
             writer,
             downloaded: Downloaded::default(),
@@ -154,8 +151,8 @@ where
             requested_position: RequestedPosition::default(),
             position_reached: PositionReached::default(),
             notify_read: NotifyRead::default(),
-            seek_tx,
-            seek_rx,
+            segment_start: SegmentStart::default(),
+            seek_request: SeekRequest::default(),
             content_length,
             prefetch_complete: settings.prefetch_bytes == 0,
             prefetch_bytes: settings.prefetch_bytes,
@@ -202,9 +199,11 @@ where
             // chunk. Forcing the client to abort and retry may help in these cases.
             let next_chunk = timeout(self.retry_timeout, stream.next());
             tokio::select! {
-                position = self.seek_rx.recv() => {
-                    // seek_tx can't be dropped here since we keep a reference in this struct
-                    self.handle_seek(stream, position.expect("seek_tx dropped")).await?;
+                () = self.seek_request.requested() => {
+                    // the reader may not be waiting for its request anymore
+                    if let Some(position) = self.seek_request.take() {
+                        self.handle_seek(stream, position).await?;
+                    }
                 },
                 bytes = next_chunk => {
                     let Ok(bytes) = bytes else {
@@ -234,16 +233,16 @@ where
     }
 
     async fn handle_seek(&mut self, stream: &mut S, position: u64) -> io::Result<()> {
-        let prefetch_complete = self.prefetch_complete;
-        if !prefetch_complete && stream.supports_seek() {
-            debug!("seeking during prefetch, ending prefetch early");
-            let current_stream_position = self.writer.stream_position()?;
-            self.downloaded
-                .add(self.prefetch_start_position..current_stream_position);
-            self.prefetch_complete = true;
-        }
         if self.should_seek(stream, position)? {
             debug!("seek position not yet downloaded");
+            let prefetch_complete = self.prefetch_complete;
+            if !prefetch_complete {
+                debug!("seeking during prefetch, ending prefetch early");
+                let current_stream_position = self.writer.stream_position()?;
+                self.downloaded
+                    .add(self.prefetch_start_position..current_stream_position);
+                self.prefetch_complete = true;
+            }
             let range = match self.content_length {
                 // Everything before the position is either downloaded or picked up at the end
                 Some(content_length) if position < content_length => self
@@ -326,6 +325,7 @@ where
             self.downloaded.add(start_position..stream_position);
             debug!("prefetch complete");
             self.prefetch_complete = true;
+            self.check_requested_position(stream_position);
         }
 
         self.report_prefetch_progress(stream, stream_position, download_start, written);
@@ -431,19 +431,7 @@ where
                 self.downloaded.add(position..new_position);
             }
 
-            if let Some(requested) = self.requested_position.get() {
-                debug!(
-                    requested_position = requested,
-                    current_position = new_position,
-                    "received requested position"
-                );
-
-                if new_position >= requested {
-                    debug!("notifying position reached");
-                    self.requested_position.clear();
-                    self.position_reached.notify_position_reached();
-                }
-            }
+            self.check_requested_position(new_position);
             if new_written == 0 {
                 // We're not able to write any data, so we need to wait for space to be available
                 debug!("waiting for next read");
@@ -461,22 +449,37 @@ where
         Ok(new_position)
     }
 
+    fn check_requested_position(&self, current_position: u64) {
+        if let Some(requested) = self.requested_position.get() {
+            debug!(
+                requested_position = requested,
+                current_position, "received requested position"
+            );
+
+            if current_position >= requested {
+                debug!("notifying position reached");
+                self.requested_position.clear();
+                self.position_reached.notify_position_reached();
+            }
+        }
+    }
+
     fn should_seek(&mut self, stream: &S, position: u64) -> io::Result<bool> {
         if !stream.supports_seek() {
             warn!("Attempting to seek, but it's unsupported. Waiting for stream to catch up.");
             return Ok(false);
         }
-        Ok(if let Some(range) = self.downloaded.get(position) {
-            // the end of the range is where the next byte gets written
-            !(range.start..=range.end).contains(&self.writer.stream_position()?)
-        } else {
-            true
-        })
+        let (segment_start, current) = (self.segment_start.get(), self.writer.stream_position()?);
+        // If it's part of the current segment, it's either downloaded once the prefetch is done or
+        // it comes next
+        let in_progress = current > segment_start && (segment_start..=current).contains(&position);
+        Ok(self.downloaded.get(position).is_none() && !in_progress)
     }
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
         self.writer.seek(SeekFrom::Start(start))?;
+        self.segment_start.set(start);
         // these belong to the previous position
         self.remaining_bytes = None;
         Ok(())
@@ -558,7 +561,8 @@ where
             requested_position: self.requested_position.clone(),
             notify_read: self.notify_read.clone(),
             position_reached: self.position_reached.clone(),
-            seek_tx: self.seek_tx.clone(),
+            segment_start: self.segment_start.clone(),
+            seek_request: self.seek_request.clone(),
             content_length: self.content_length,
         }
     }
-- 
2.43.0


From 391b04ef19d3d6e8dffe67da1671a42a068ed7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 12/30] fix: fetch skipped parts only if the storage has room
 for them

Streams of unknown length were left with gaps that were read as data, and
bounded storage was rewound to parts it can't hold.
---
 crates/stream-download/src/lib.rs           |  8 ++++++-
 crates/stream-download/src/source/handle.rs |  8 +++++++
 crates/stream-download/src/source/mod.rs    | 23 +++++++++++++++++----
 3 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index d271bd9..39dcc42 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -403,7 +403,13 @@ impl<P: StorageProvider> StreamDownload<P> {
             .map_err(StreamInitializationError::StorageCreationFailure)?;
         let cancellation_token = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
-        let mut source = Source::new(writer, content_length, settings, cancellation_token.clone());
+        let mut source = Source::new(
+            writer,
+            content_length,
+            storage_capacity,
+            settings,
+            cancellation_token.clone(),
+        );
         let handle = source.source_handle();
 
         tokio::spawn({
diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index db92e1c..65eda09 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -227,6 +227,14 @@ impl Downloaded {
         }
     }
 
+    pub(super) fn clear(&self) {
+        self.0.write().clear();
+    }
+
+    pub(super) fn end(&self) -> Option<u64> {
+        self.0.read().last().map(|range| range.end)
+    }
+
     pub(super) fn get(&self, position: u64) -> Option<Range<u64>> {
         self.0.read().get(&position).cloned()
     }
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 4b1064d..e887fdb 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -120,6 +120,7 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     position_reached: PositionReached,
     notify_read: NotifyRead,
     content_length: Option<u64>,
+    is_bounded: bool,
     segment_start: SegmentStart,
     seek_request: SeekRequest,
     prefetch_bytes: u64,
@@ -141,6 +142,7 @@ where
     pub(crate) fn new(
         writer: W,
         content_length: Option<u64>,
+        storage_capacity: Option<usize>,
         settings: Settings<S>,
         cancellation_token: CancellationToken,
     ) -> Self {
@@ -154,6 +156,7 @@ where
             segment_start: SegmentStart::default(),
             seek_request: SeekRequest::default(),
             content_length,
+            is_bounded: storage_capacity.is_some(),
             prefetch_complete: settings.prefetch_bytes == 0,
             prefetch_bytes: settings.prefetch_bytes,
             batch_write_size: settings.batch_write_size,
@@ -333,10 +336,18 @@ where
     }
 
     async fn finish_or_find_next_gap(&mut self, stream: &mut S) -> io::Result<DownloadAction> {
-        if stream.supports_seek()
-            && let Some(content_length) = self.content_length
-        {
-            let gap = self.downloaded.next_gap(0..content_length);
+        if stream.supports_seek() {
+            let gap = if self.is_bounded {
+                // There's no room for the parts that were skipped
+                let position = self.writer.stream_position()?;
+                self.content_length
+                    .filter(|content_length| position < *content_length)
+                    .map(|content_length| position..content_length)
+            } else {
+                self.content_length
+                    .or_else(|| self.downloaded.end())
+                    .and_then(|end| self.downloaded.next_gap(0..end))
+            };
             if let Some(gap) = gap {
                 debug!(
                     missing = format!("{gap:?}"),
@@ -479,6 +490,10 @@ where
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
         self.writer.seek(SeekFrom::Start(start))?;
+        if self.is_bounded {
+            // The storage only holds a single contiguous part
+            self.downloaded.clear();
+        }
         self.segment_start.set(start);
         // these belong to the previous position
         self.remaining_bytes = None;
-- 
2.43.0


From d3074f41f3471379125fdfd0b184ad3d1862cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 13/30] fix: let seeks proceed when bounded storage is full

---
 crates/stream-download/src/lib.rs        | 11 ++++++++-
 crates/stream-download/src/source/mod.rs | 31 ++++++++++++++++++------
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 39dcc42..fa49aaa 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -603,6 +603,7 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
         let absolute_seek_position = self.get_absolute_seek_position(relative_position)?;
         let absolute_seek_position = self.normalize_requested_position(absolute_seek_position);
         self.check_for_excessive_seek(absolute_seek_position)?;
+        let stream_position = self.output_reader.stream_position()?;
 
         debug!(absolute_seek_position, "absolute seek position");
         if let Some(closest_set) = self
@@ -619,8 +620,16 @@ impl<P: StorageProvider> Seek for StreamDownload<P> {
                 .inspect_err(|p| debug!(position = format!("{p:?}"), "returning seek position"));
         }
 
+        if self.storage_capacity.is_some() {
+            // Free up the skipped part, otherwise there may not be enough space to get there
+            self.output_reader
+                .seek(SeekFrom::Start(absolute_seek_position))?;
+        }
         self.handle.seek(absolute_seek_position);
-        self.check_for_failure()?;
+        self.check_for_failure().or_else(|e| {
+            self.output_reader.seek(SeekFrom::Start(stream_position))?;
+            Err(e)
+        })?;
         debug!("reached seek position");
 
         self.output_reader
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index e887fdb..50f234c 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -235,7 +235,8 @@ where
         Ok(StreamOutcome::Completed)
     }
 
-    async fn handle_seek(&mut self, stream: &mut S, position: u64) -> io::Result<()> {
+    /// Returns whether the stream position changed.
+    async fn handle_seek(&mut self, stream: &mut S, position: u64) -> io::Result<bool> {
         if self.should_seek(stream, position)? {
             debug!("seek position not yet downloaded");
             let prefetch_complete = self.prefetch_complete;
@@ -267,9 +268,10 @@ where
                 }
                 debug!(seek_start, seek_end, "requesting seek range");
                 self.seek(stream, seek_start, seek_end).await?;
+                return Ok(true);
             }
         }
-        Ok(())
+        Ok(false)
     }
 
     async fn handle_reconnect(&mut self, stream: &mut S) -> io::Result<()> {
@@ -416,13 +418,15 @@ where
             }
         };
         let bytes_len = bytes.len();
-        let new_position = self.write(bytes).await?;
-        self.report_downloading_progress(stream, new_position, download_start, bytes_len)?;
+        if let Some(new_position) = self.write(stream, bytes).await? {
+            self.report_downloading_progress(stream, new_position, download_start, bytes_len)?;
+        }
 
         Ok(DownloadAction::Continue)
     }
 
-    async fn write(&mut self, bytes: Bytes) -> io::Result<u64> {
+    /// Returns the new position unless there was a seek before everything was written.
+    async fn write(&mut self, stream: &mut S, bytes: Bytes) -> io::Result<Option<u64>> {
         let mut written = 0;
         let position = self.writer.stream_position()?;
         let mut new_position = position;
@@ -446,8 +450,19 @@ where
             if new_written == 0 {
                 // We're not able to write any data, so we need to wait for space to be available
                 debug!("waiting for next read");
-                self.notify_read.wait_for_read().await;
-                debug!("read finished");
+                tokio::select! {
+                    () = self.notify_read.wait_for_read() => {
+                        debug!("read finished");
+                    }
+                    () = self.seek_request.requested() => {
+                        // The reader may not need the rest of this chunk
+                        if let Some(position) = self.seek_request.take()
+                            && self.handle_seek(stream, position).await?
+                        {
+                            return Ok(None);
+                        }
+                    }
+                }
             }
 
             trace!(
@@ -457,7 +472,7 @@ where
                 "received response chunk"
             );
         }
-        Ok(new_position)
+        Ok(Some(new_position))
     }
 
     fn check_requested_position(&self, current_position: u64) {
-- 
2.43.0


From 70a775dc044f2fb3d36b00bcdf97bb4b483c6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 14/30] fix: keep what's downloaded when the stream continues
 at the same position

---
 crates/stream-download/src/source/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 50f234c..66f3844 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -308,6 +308,7 @@ where
             self.writer.flush()?;
             let position = self.writer.stream_position()?;
             self.downloaded.add(start_position..position);
+            self.check_requested_position(position);
 
             return self.finish_or_find_next_gap(stream).await;
         };
@@ -504,12 +505,14 @@ where
 
     async fn seek(&mut self, stream: &mut S, start: u64, end: Option<u64>) -> io::Result<()> {
         stream.seek_range(start, end).await?;
-        self.writer.seek(SeekFrom::Start(start))?;
-        if self.is_bounded {
-            // The storage only holds a single contiguous part
-            self.downloaded.clear();
+        if start != self.writer.stream_position()? {
+            self.writer.seek(SeekFrom::Start(start))?;
+            if self.is_bounded {
+                // The storage only holds a single contiguous part
+                self.downloaded.clear();
+            }
+            self.segment_start.set(start);
         }
-        self.segment_start.set(start);
         // these belong to the previous position
         self.remaining_bytes = None;
         Ok(())
-- 
2.43.0


From 56c7e945c56e925b34e99956779eb223a3efe2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 15/30] fix: respect the size of the buffer that adaptive
 storage uses for streams of unknown length

---
 crates/stream-download/src/lib.rs              |  2 +-
 crates/stream-download/src/storage/adaptive.rs | 13 +++++++++++++
 crates/stream-download/src/storage/mod.rs      |  7 +++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index fa49aaa..3b36a84 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -397,7 +397,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             .await
             .map_err(StreamInitializationError::StreamCreationFailure)?;
         let content_length = stream.content_length();
-        let storage_capacity = storage_provider.max_capacity();
+        let storage_capacity = storage_provider.max_capacity_for(content_length);
         let (reader, writer) = storage_provider
             .into_reader_writer(content_length)
             .map_err(StreamInitializationError::StorageCreationFailure)?;
diff --git a/crates/stream-download/src/storage/adaptive.rs b/crates/stream-download/src/storage/adaptive.rs
index 2da8418..dc05aa4 100644
--- a/crates/stream-download/src/storage/adaptive.rs
+++ b/crates/stream-download/src/storage/adaptive.rs
@@ -104,6 +104,19 @@ where
     type Reader = AdaptiveStorageReader<F::Reader, V::Reader>;
     type Writer = AdaptiveStorageWriter<F::Writer, V::Writer>;
 
+    fn max_capacity_for(&self, content_length: Option<u64>) -> Option<usize> {
+        match content_length {
+            None => Some(self.buffer_size.get()),
+            Some(length) => {
+                if u64::try_from(self.buffer_size.get()).is_ok_and(|buffer| length <= buffer) {
+                    self.fixed_storage.max_capacity_for(content_length)
+                } else {
+                    self.variable_storage.max_capacity_for(content_length)
+                }
+            }
+        }
+    }
+
     fn into_reader_writer(
         self,
         content_length: Option<u64>,
diff --git a/crates/stream-download/src/storage/mod.rs b/crates/stream-download/src/storage/mod.rs
index ea41bf5..4edad08 100644
--- a/crates/stream-download/src/storage/mod.rs
+++ b/crates/stream-download/src/storage/mod.rs
@@ -28,6 +28,13 @@ pub trait StorageProvider: Send {
     fn max_capacity(&self) -> Option<usize> {
         None
     }
+
+    /// Returns the maximum number of bytes the storage created for the given content length can
+    /// hold at a time. This only needs to be implemented if it depends on the content length.
+    fn max_capacity_for(&self, content_length: Option<u64>) -> Option<usize> {
+        let _ = content_length;
+        self.max_capacity()
+    }
 }
 
 /// Trait used to read from a storage layer
-- 
2.43.0


From 7cb34e639c210005b6a26479eb6ee7a0e939cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 16/30] fix: find the end of streams of unknown length after
 seeking past it

---
 crates/stream-download/src/source/handle.rs |  4 ++--
 crates/stream-download/src/source/mod.rs    | 25 ++++++++++++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/stream-download/src/source/handle.rs b/crates/stream-download/src/source/handle.rs
index 65eda09..cacd760 100644
--- a/crates/stream-download/src/source/handle.rs
+++ b/crates/stream-download/src/source/handle.rs
@@ -231,8 +231,8 @@ impl Downloaded {
         self.0.write().clear();
     }
 
-    pub(super) fn end(&self) -> Option<u64> {
-        self.0.read().last().map(|range| range.end)
+    pub(super) fn end(&self) -> u64 {
+        self.0.read().last().map_or(0, |range| range.end)
     }
 
     pub(super) fn get(&self, position: u64) -> Option<Range<u64>> {
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 66f3844..3ad255f 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -307,8 +307,10 @@ where
             debug!("file shorter than prefetch length, download finished");
             self.writer.flush()?;
             let position = self.writer.stream_position()?;
-            self.downloaded.add(start_position..position);
-            self.check_requested_position(position);
+            if position > start_position {
+                self.downloaded.add(start_position..position);
+                self.check_requested_position(position);
+            }
 
             return self.finish_or_find_next_gap(stream).await;
         };
@@ -340,16 +342,27 @@ where
 
     async fn finish_or_find_next_gap(&mut self, stream: &mut S) -> io::Result<DownloadAction> {
         if stream.supports_seek() {
+            let position = self.writer.stream_position()?;
             let gap = if self.is_bounded {
                 // There's no room for the parts that were skipped
-                let position = self.writer.stream_position()?;
                 self.content_length
                     .filter(|content_length| position < *content_length)
                     .map(|content_length| position..content_length)
             } else {
-                self.content_length
-                    .or_else(|| self.downloaded.end())
-                    .and_then(|end| self.downloaded.next_gap(0..end))
+                let content_length = match self.content_length {
+                    Some(content_length) => content_length,
+                    None => {
+                        let downloaded_end = self.downloaded.end();
+                        if position > downloaded_end {
+                            debug!("position is past the end, continuing at {downloaded_end}");
+                            self.seek(stream, downloaded_end, None).await?;
+                            return Ok(DownloadAction::Continue);
+                        }
+                        self.content_length = Some(downloaded_end);
+                        downloaded_end
+                    }
+                };
+                self.downloaded.next_gap(0..content_length)
             };
             if let Some(gap) = gap {
                 debug!(
-- 
2.43.0


From fb32013e718f87c43b7e4ccd906e61f4f77964cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 17/30] fix: stop cancelled downloads wherever they are waiting

---
 crates/stream-download/src/source/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 3ad255f..96793e0 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -171,7 +171,16 @@ where
 
     #[instrument(skip_all)]
     pub(crate) async fn download(&mut self, mut stream: S) {
-        let res = self.download_inner(&mut stream).await;
+        let cancellation_token = self.cancellation_token.clone();
+        let res = tokio::select! {
+            biased;
+            res = self.download_inner(&mut stream) => res,
+            // The download may be waiting for something other than the next chunk
+            () = cancellation_token.cancelled() => {
+                debug!("received cancellation request, stopping download task");
+                Ok(StreamOutcome::CancelledByUser)
+            }
+        };
         let (res, stream_res) = match res {
             Ok(StreamOutcome::Completed) => (Ok(()), StreamOutcome::Completed),
             Ok(StreamOutcome::CancelledByUser) => (
-- 
2.43.0


From 30e246095789b112619d522c523d010f7f162e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 18/30] fix: don't report completion before the outcome is
 known

---
 crates/stream-download/src/source/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 96793e0..ddae6b9 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -383,7 +383,6 @@ where
             }
         }
         self.writer.flush()?;
-        self.signal_download_complete();
         Ok(DownloadAction::Complete)
     }
 
-- 
2.43.0


From 5ee73e53bdbb42e5b50389e931415868245de9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 19/30] fix: release the reader if the download task dies

---
 crates/stream-download/src/lib.rs        | 10 +++-------
 crates/stream-download/src/source/mod.rs | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 3b36a84..133d298 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -412,13 +412,9 @@ impl<P: StorageProvider> StreamDownload<P> {
         );
         let handle = source.source_handle();
 
-        tokio::spawn({
-            let cancellation_token = cancellation_token.clone();
-            async move {
-                source.download(stream).await;
-                cancellation_token.cancel();
-                debug!("download task finished");
-            }
+        tokio::spawn(async move {
+            source.download(stream).await;
+            debug!("download task finished");
         });
 
         Ok(Self {
diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index ddae6b9..114686c 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -132,6 +132,18 @@ pub(crate) struct Source<S: SourceStream, W: StorageWriter> {
     prefetch_start_position: u64,
     remaining_bytes: Option<Bytes>,
     cancellation_token: CancellationToken,
+    finished: bool,
+}
+
+impl<S: SourceStream, W: StorageWriter> Drop for Source<S, W> {
+    fn drop(&mut self) {
+        if !self.finished {
+            // the download task panicked or was aborted
+            self.download_status.set_failed();
+            self.position_reached.notify_stream_done();
+        }
+        self.cancellation_token.cancel();
+    }
 }
 
 impl<S, W> Source<S, W>
@@ -166,6 +178,7 @@ where
             prefetch_start_position: 0,
             remaining_bytes: None,
             cancellation_token,
+            finished: false,
         }
     }
 
@@ -199,6 +212,7 @@ where
             }
             self.download_status.set_failed();
         }
+        self.finished = true;
         self.signal_download_complete();
     }
 
-- 
2.43.0


From ef0c648a4a39e929e8dd18335eb4867c9ce58806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 20/30] fix: wait for the download task to end in
 wait_for_completion

---
 crates/stream-download/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/lib.rs b/crates/stream-download/src/lib.rs
index 133d298..fc910ef 100644
--- a/crates/stream-download/src/lib.rs
+++ b/crates/stream-download/src/lib.rs
@@ -66,6 +66,7 @@ pub struct StreamDownload<P: StorageProvider> {
     output_reader: P::Reader,
     handle: SourceHandle,
     download_task_cancellation_token: CancellationToken,
+    finished: CancellationToken,
     cancel_on_drop: bool,
     content_length: Option<u64>,
     storage_capacity: Option<usize>,
@@ -374,7 +375,7 @@ impl<P: StorageProvider> StreamDownload<P> {
     /// the stream remotely.
     pub fn handle(&self) -> StreamHandle {
         StreamHandle {
-            finished: self.download_task_cancellation_token.clone(),
+            finished: self.finished.clone(),
         }
     }
 
@@ -403,7 +404,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             .map_err(StreamInitializationError::StorageCreationFailure)?;
         let cancellation_token = CancellationToken::new();
         let cancel_on_drop = settings.cancel_on_drop;
-        let mut source = Source::new(
+        let source = Source::new(
             writer,
             content_length,
             storage_capacity,
@@ -412,7 +413,11 @@ impl<P: StorageProvider> StreamDownload<P> {
         );
         let handle = source.source_handle();
 
+        let finished = CancellationToken::new();
+        let finished_guard = finished.clone().drop_guard();
         tokio::spawn(async move {
+            let _finished_guard = finished_guard;
+            let mut source = source;
             source.download(stream).await;
             debug!("download task finished");
         });
@@ -421,6 +426,7 @@ impl<P: StorageProvider> StreamDownload<P> {
             output_reader: reader,
             handle,
             download_task_cancellation_token: cancellation_token,
+            finished,
             cancel_on_drop,
             content_length,
             storage_capacity,
-- 
2.43.0


From 6c5d5ce48bd669721b0aa6b58fcaf309bc357e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 21/30] fix: report the downloaded chunk when prefetching after
 a seek

---
 crates/stream-download/src/source/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 114686c..6009681 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -6,6 +6,7 @@ use std::error::Error;
 use std::fmt::Debug;
 use std::future;
 use std::io::{self, SeekFrom};
+use std::ops::Range;
 use std::time::{Duration, Instant};
 
 use bytes::{BufMut, Bytes, BytesMut};
@@ -359,7 +360,12 @@ where
             self.check_requested_position(stream_position);
         }
 
-        self.report_prefetch_progress(stream, stream_position, download_start, written);
+        self.report_prefetch_progress(
+            stream,
+            start_position..stream_position,
+            download_start,
+            written,
+        );
         Ok(DownloadAction::Continue)
     }
 
@@ -566,15 +572,15 @@ where
     fn report_prefetch_progress(
         &mut self,
         stream: &S,
-        stream_position: u64,
+        current_chunk: Range<u64>,
         download_start: Instant,
         chunk_size: usize,
     ) {
         self.report_progress(
             stream,
             StreamState {
-                current_position: stream_position,
-                current_chunk: (0..stream_position),
+                current_position: current_chunk.end,
+                current_chunk,
                 elapsed: download_start.elapsed(),
                 phase: StreamPhase::Prefetching {
                     target: self.prefetch_bytes,
-- 
2.43.0


From 69392f3152212774cdb285f770e179b537c438aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 22/30] fix: don't stream the body of an error response after
 reconnecting

---
 crates/stream-download/src/http/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 07f2daf..b7b9bdf 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -350,6 +350,14 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 .await
                 .map_err(|e| io::Error::other(e.to_string()))
                 .wrap_err(&format!("error sending HTTP request to {}", self.url))?;
+            let response = match response.into_result() {
+                Ok(response) => response,
+                Err(e) => {
+                    let error = e.decode_error().await;
+                    return Err(io::Error::other(error))
+                        .wrap_err(&format!("error getting HTTP response from {}", self.url));
+                }
+            };
             self.stream = Box::new(response.stream());
             Ok(())
         }
-- 
2.43.0


From 72c298158cf7ab5963be0488be6692a7e88fa038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 23/30] fix: don't keep readers waiting for data that was
 downloaded earlier

When the current segment caught up with a part that was already downloaded,
a reader waiting for a position in that part kept waiting until the source
delivered something else.
---
 crates/stream-download/src/source/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index 6009681..f0c1862 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -524,7 +524,12 @@ where
                 current_position, "received requested position"
             );
 
-            if current_position >= requested {
+            // The current segment may have caught up with a part that was downloaded earlier
+            let available = self
+                .downloaded
+                .get(current_position)
+                .map_or(current_position, |range| range.end);
+            if available >= requested {
                 debug!("notifying position reached");
                 self.requested_position.clear();
                 self.position_reached.notify_position_reached();
-- 
2.43.0


From ec26f10acace86913553fd0bd71f85d1cb75ef8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 24/30] fix: report the stderr of a failed command if it's not
 valid UTF-8

---
 crates/stream-download/src/process/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/process/mod.rs b/crates/stream-download/src/process/mod.rs
index 254b61e..eb98b3e 100644
--- a/crates/stream-download/src/process/mod.rs
+++ b/crates/stream-download/src/process/mod.rs
@@ -224,11 +224,15 @@ impl ProcessStream {
                 .reopen()
                 .inspect_err(|e| error!("error opening file: {e:?}"))
             {
-                let mut buf = String::new();
+                // The output isn't necessarily valid UTF-8
+                let mut buf = Vec::new();
                 let _ = file_handle
-                    .read_to_string(&mut buf)
+                    .read_to_end(&mut buf)
                     .inspect_err(|e| error!("error reading file: {e:?}"));
-                warn!("stderr from child process: {buf}");
+                warn!(
+                    "stderr from child process: {}",
+                    String::from_utf8_lossy(&buf)
+                );
             }
         }
     }
-- 
2.43.0


From cc67124eb95b25b1f88bec95702fb76f3dbbb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 25/30] fix: end all processes of a pipeline when the stream is
 cancelled

---
 .../src/process/command_builder.rs            | 26 ++++++++++---------
 crates/stream-download/src/process/mod.rs     | 22 +++++++++++++---
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/crates/stream-download/src/process/command_builder.rs b/crates/stream-download/src/process/command_builder.rs
index 2102b11..8666a31 100644
--- a/crates/stream-download/src/process/command_builder.rs
+++ b/crates/stream-download/src/process/command_builder.rs
@@ -36,35 +36,37 @@ impl CommandBuilder {
 impl SpawnCommand for CommandBuilder {
     fn spawn(mut self) -> io::Result<SpawnedCommand> {
         let last = self.commands.pop().expect("prevented by constructor");
-        let mut prev_stdout = None;
+        let mut prev_stdout: Option<Stdio> = None;
+        let mut upstream_handles = Vec::new();
         let mut stderr_files = Vec::new();
 
         for command in self.commands {
-            let mut std_command = std::process::Command::new(command.program);
-            std_command
+            let mut tokio_command = tokio::process::Command::new(command.program);
+            tokio_command
                 .args(command.args.clone())
-                .stdout(Stdio::piped());
+                .stdout(Stdio::piped())
+                .kill_on_drop(true);
             if let Some(handle) = command.stderr_handle {
-                std_command.stderr(handle);
+                tokio_command.stderr(handle);
             } else {
                 let (stdio, stderr_file) = stdio_to_tmp_file()?;
-                std_command.stderr(stdio);
+                tokio_command.stderr(stdio);
                 stderr_files.push(stderr_file);
             }
 
             #[cfg(target_os = "windows")]
             {
                 // CREATE_NO_WINDOW
-                use std::os::windows::process::CommandExt;
-                std_command.creation_flags(0x08000000);
+                tokio_command.creation_flags(0x08000000);
             }
 
             if let Some(prev_stdout) = prev_stdout.take() {
-                std_command.stdin(prev_stdout);
+                tokio_command.stdin(prev_stdout);
             }
-            let mut command_out = std_command.spawn().wrap_err("error spawning process")?;
-            prev_stdout = command_out.stdout.take();
+            let mut child = tokio_command.spawn().wrap_err("error spawning process")?;
+            prev_stdout = child.stdout.take().map(TryInto::try_into).transpose()?;
+            upstream_handles.push(child);
         }
-        SpawnedCommand::new(last, prev_stdout, stderr_files)
+        SpawnedCommand::new(last, prev_stdout, upstream_handles, stderr_files)
     }
 }
diff --git a/crates/stream-download/src/process/mod.rs b/crates/stream-download/src/process/mod.rs
index eb98b3e..2f2cd8c 100644
--- a/crates/stream-download/src/process/mod.rs
+++ b/crates/stream-download/src/process/mod.rs
@@ -19,7 +19,7 @@ use std::ffi::OsString;
 use std::io::{self, Read, Write};
 use std::mem;
 use std::pin::Pin;
-use std::process::{ChildStdout, Stdio};
+use std::process::Stdio;
 use std::task::Poll;
 
 use bytes::Bytes;
@@ -114,7 +114,7 @@ impl Command {
 
 impl SpawnCommand for Command {
     fn spawn(self) -> io::Result<SpawnedCommand> {
-        SpawnedCommand::new(self, None, Vec::new())
+        SpawnedCommand::new(self, None, Vec::new(), Vec::new())
     }
 }
 
@@ -122,13 +122,16 @@ impl SpawnCommand for Command {
 #[derive(Debug)]
 pub struct SpawnedCommand {
     child_handle: tokio::process::Child,
+    // the commands that feed the last one, if it's part of a pipeline
+    upstream_handles: Vec<tokio::process::Child>,
     stderr_files: Vec<NamedTempFile>,
 }
 
 impl SpawnedCommand {
     fn new(
         command: Command,
-        prev_out: Option<ChildStdout>,
+        prev_out: Option<Stdio>,
+        upstream_handles: Vec<tokio::process::Child>,
         mut stderr_files: Vec<NamedTempFile>,
     ) -> Result<Self, io::Error> {
         let mut tokio_command = tokio::process::Command::new(command.program);
@@ -155,6 +158,7 @@ impl SpawnedCommand {
 
         Ok(Self {
             child_handle: tokio_command.spawn().wrap_err("error spawning process")?,
+            upstream_handles,
             stderr_files,
         })
     }
@@ -209,6 +213,7 @@ impl ProcessStreamParams {
 pub struct ProcessStream {
     stream: AsyncReadStream<tokio::process::ChildStdout>,
     child_handle: tokio::process::Child,
+    upstream_handles: Vec<tokio::process::Child>,
     stderr_files: Vec<NamedTempFile>,
 }
 
@@ -262,6 +267,7 @@ impl SourceStream for ProcessStream {
                 content_length,
             ),
             child_handle: command.child_handle,
+            upstream_handles: command.upstream_handles,
             stderr_files: command.stderr_files,
         })
     }
@@ -289,6 +295,10 @@ impl SourceStream for ProcessStream {
     ) -> io::Result<()> {
         let check_command_error = if result.is_ok() {
             let wait_res = self.child_handle.wait().await?;
+            for mut handle in mem::take(&mut self.upstream_handles) {
+                // They may take longer than the last command, let them finish in the background
+                tokio::spawn(async move { handle.wait().await });
+            }
             let command_failed = !wait_res.success();
             if command_failed {
                 warn!("command exited with error code: {wait_res:?}");
@@ -297,6 +307,12 @@ impl SourceStream for ProcessStream {
         } else {
             debug!("killing child process");
             self.child_handle.kill().await?;
+            for handle in &mut self.upstream_handles {
+                let _ = handle
+                    .kill()
+                    .await
+                    .inspect_err(|e| warn!("error killing process: {e:?}"));
+            }
             debug!("child process killed");
             // Don't need to check process for errors if the user explicitly cancelled the stream
             outcome == StreamOutcome::Completed
-- 
2.43.0


From 73855ef36cb7eac05d1d395324f488fecf816849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 26/30] fix: skip what's already downloaded when reconnecting
 without range requests

---
 crates/stream-download/src/http/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index b7b9bdf..9a2466d 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -32,10 +32,10 @@ use std::error::Error;
 use std::fmt::{Debug, Display, Formatter};
 use std::io;
 use std::pin::Pin;
-use std::task::{self, Poll};
+use std::task::{self, Poll, ready};
 use std::time::Instant;
 
-use bytes::Bytes;
+use bytes::{Buf, Bytes};
 use educe::Educe;
 use futures_util::{Future, Stream};
 use mediatype::MediaTypeBuf;
@@ -185,6 +185,8 @@ pub struct HttpStream<C: Client> {
     url: C::Url,
     #[educe(Debug = false)]
     headers: C::Headers,
+    // Bytes at the beginning of the current response that come before the stream position
+    skip: u64,
 }
 
 impl<C: Client> HttpStream<C> {
@@ -249,6 +251,7 @@ impl<C: Client> HttpStream<C> {
             content_type,
             headers,
             url,
+            skip: 0,
         })
     }
 
@@ -280,7 +283,14 @@ impl<C: Client> Stream for HttpStream<C> {
     type Item = Result<Bytes, <<C as Client>::Response as ClientResponse>::StreamError>;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut task::Context<'_>) -> Poll<Option<Self::Item>> {
-        Pin::new(&mut self.stream).poll_next(cx)
+        let mut item = ready!(Pin::new(&mut self.stream).poll_next(cx));
+        if let Some(Ok(bytes)) = &mut item {
+            let skipped =
+                usize::try_from(self.skip).map_or(bytes.len(), |skip| skip.min(bytes.len()));
+            bytes.advance(skipped);
+            self.skip -= skipped as u64;
+        }
+        Poll::Ready(item)
     }
 }
 
@@ -304,6 +314,7 @@ impl<C: Client> SourceStream for HttpStream<C> {
                  stream"
             );
             self.stream = Box::new(futures_util::stream::empty());
+            self.skip = 0;
             return Ok(());
         }
 
@@ -336,6 +347,7 @@ impl<C: Client> SourceStream for HttpStream<C> {
             }
         }?;
         self.stream = Box::new(response.stream());
+        self.skip = 0;
         debug!("done seeking");
         Ok(())
     }
@@ -359,6 +371,12 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 }
             };
             self.stream = Box::new(response.stream());
+            // The response starts at the beginning again, unless it's a live stream
+            self.skip = if self.content_length.is_some() {
+                current_position
+            } else {
+                0
+            };
             Ok(())
         }
     }
-- 
2.43.0


From d1b1463c3a95378a49781a1ccfe17c0e04a10c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 27/30] fix: skip to the requested position when the server
 ignores the range

---
 crates/stream-download/src/http/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index 9a2466d..a87b255 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -346,8 +346,12 @@ impl<C: Client> SourceStream for HttpStream<C> {
                 ))
             }
         }?;
+        // The response is the whole content if the server doesn't know about ranges
+        let is_range = self.content_length.is_none()
+            || response.content_length() != self.content_length
+            || response.headers().header("Content-Range").is_some();
         self.stream = Box::new(response.stream());
-        self.skip = 0;
+        self.skip = if is_range { 0 } else { start };
         debug!("done seeking");
         Ok(())
     }
-- 
2.43.0


From 5c288806322638f495388fa1304bee734d1864a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 28/30] fix: don't overflow when prefetching an unlimited
 amount after a seek

---
 crates/stream-download/src/source/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/source/mod.rs b/crates/stream-download/src/source/mod.rs
index f0c1862..7d9d48f 100644
--- a/crates/stream-download/src/source/mod.rs
+++ b/crates/stream-download/src/source/mod.rs
@@ -353,7 +353,8 @@ where
             );
             self.remaining_bytes = Some(bytes.slice(written..));
         }
-        if (stream_position >= start_position + self.prefetch_bytes) || partial_write {
+        let prefetch_end = start_position.saturating_add(self.prefetch_bytes);
+        if stream_position >= prefetch_end || partial_write {
             self.downloaded.add(start_position..stream_position);
             debug!("prefetch complete");
             self.prefetch_complete = true;
-- 
2.43.0


From 5475e1dbf37ea9c4d49cd64e6d0c3f85cc91c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 29/30] fix: report an error when the memory for the content
 can't be allocated

---
 crates/stream-download/src/storage/memory.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/stream-download/src/storage/memory.rs b/crates/stream-download/src/storage/memory.rs
index f2e3196..a3da5a5 100644
--- a/crates/stream-download/src/storage/memory.rs
+++ b/crates/stream-download/src/storage/memory.rs
@@ -32,16 +32,26 @@ impl StorageProvider for MemoryStorageProvider {
                 "Requested buffer size of {initial_buffer_size} exceeds the maximum value"
             ))?;
 
-        let inner = Arc::new(AssertUnwindSafe(RwLock::new(vec![0; initial_buffer_size])));
+        // The content length comes from the remote, it may be more than what can be allocated
+        let mut buffer = Vec::new();
+        buffer
+            .try_reserve_exact(initial_buffer_size)
+            .map_err(io::Error::other)
+            .wrap_err(&format!(
+                "Failed to allocate a buffer of size {initial_buffer_size}"
+            ))?;
+        let inner = Arc::new(AssertUnwindSafe(RwLock::new(buffer)));
         let written = Arc::new(AtomicUsize::new(0));
         let reader = MemoryStorage {
             inner: inner.clone(),
             position: 0,
+            initial_buffer_size,
             written: written.clone(),
         };
         let writer = MemoryStorage {
             inner,
             position: 0,
+            initial_buffer_size,
             written,
         };
         Ok((reader, writer))
@@ -53,6 +63,7 @@ impl StorageProvider for MemoryStorageProvider {
 pub struct MemoryStorage {
     inner: Arc<AssertUnwindSafe<RwLock<Vec<u8>>>>,
     position: usize,
+    initial_buffer_size: usize,
     written: Arc<AtomicUsize>,
 }
 
@@ -77,7 +88,7 @@ impl Read for MemoryStorage {
 
 impl Seek for MemoryStorage {
     fn seek(&mut self, position: SeekFrom) -> io::Result<u64> {
-        let len = self.inner.read().len();
+        let len = self.inner.read().len().max(self.initial_buffer_size);
         let new_position = match position {
             SeekFrom::Start(position) => Some(position as usize),
             SeekFrom::Current(from_current) => {
-- 
2.43.0


From af42a57727972a4776c7cbc858aecde961826b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:54 +0000
Subject: [PATCH 30/30] fix: keep the suffix of the content type

---
 crates/stream-download/src/http/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/stream-download/src/http/mod.rs b/crates/stream-download/src/http/mod.rs
index a87b255..a0e1f56 100644
--- a/crates/stream-download/src/http/mod.rs
+++ b/crates/stream-download/src/http/mod.rs
@@ -232,7 +232,11 @@ impl<C: Client> HttpStream<C> {
                 match content_type.parse::<MediaTypeBuf>() {
                     Ok(content_type) => Some(ContentType {
                         r#type: content_type.ty().to_string(),
-                        subtype: content_type.subty().to_string(),
+                        // The part after the plus sign is parsed separately
+                        subtype: match content_type.suffix() {
+                            Some(suffix) => format!("{}+{suffix}", content_type.subty()),
+                            None => content_type.subty().to_string(),
+                        },
                     }),
                     Err(e) => {
                         warn!("error parsing content type: {e:?}");
-- 
2.43.0

