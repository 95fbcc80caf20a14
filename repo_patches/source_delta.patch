From ce5cb6f5c4a5a6ec84ccdd41c024ab0f55bcbfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 1/7] fix: do not trust the result of a flash scan that failed
 or was cancelled

get_or_populate_latest() recorded every record it found directly in the list's
seq_state. When the scan then failed (read error) or its future was dropped, the
next call took the partial result for a completed scan: stale values were handed
out and garbage collection removed newer valid records. Collect the result on the
side and store it only when the scan has reached the end.
---
 crates/cfg-noodle/src/storage_list.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index e1b8438..cf85265 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -631,6 +631,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         // We have NOT hydrated, do so now.
         //
         // Start by getting an iterator, and setting up some tracking state
+        //
+        // The result is collected on the side and only stored once the scan has been
+        // completed: if it fails or is cancelled halfway, what was found so far must not
+        // be mistaken for the content of the flash.
+        let mut state = SeqState::new();
         let mut iter = s.iter_elems().await.map_err(LoadStoreError::FlashRead)?;
         let mut current: Option<(NonZeroU32, usize)> = None;
         let mut crc = Crc32::new();
@@ -696,7 +701,7 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
                         start_idx,
                         idx
                     );
-                    self.seq_state.insert_good(GoodWriteRecord {
+                    state.insert_good(GoodWriteRecord {
                         seq: seq_no,
                         range: start_idx..=idx,
                     });
@@ -704,10 +709,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             }
         }
 
-        let highest = self.seq_state.highest_seen();
+        let highest = state.highest_seen();
         if highest.is_none() {
-            self.seq_state.next_seq = NonZeroU32::new(1);
+            state.next_seq = NonZeroU32::new(1);
         }
+        self.seq_state = state;
 
         Ok(highest)
     }
-- 
2.43.0


From 21d4c0112a66bc98381c4c75a5edcd4c54550ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:03 +0000
Subject: [PATCH 2/7] fix: collect the remains of interrupted writes even
 without a valid record

needs_gc was only set when a valid record was found, so on a storage that holds
nothing but torn records (power lost during the first write-back) garbage
collection never did anything, the remains were kept, and repeated interruptions
filled the storage for good.
---
 crates/cfg-noodle/src/storage_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index cf85265..92e6328 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -712,6 +712,9 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         let highest = state.highest_seen();
         if highest.is_none() {
             state.next_seq = NonZeroU32::new(1);
+            // No valid record, but there may be remains of interrupted writes. They have to
+            // be collected too, otherwise a series of them would fill up the storage.
+            state.needs_gc = ctr > 0;
         }
         self.seq_state = state;
 
-- 
2.43.0


From c2ddb7801bf455045869b7fb0ee5af2a1e8a4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 3/7] fix: require garbage collection after a failed or
 cancelled write-back

The next write-back reuses the sequence number. With the remains of the failed one
still on flash, verification found the old start marker first and failed every
retry, or two records with the same number were left on flash.
---
 crates/cfg-noodle/src/storage_list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 92e6328..08db983 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -377,6 +377,10 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
 
         // TODO: Retries have to be handled in the OUTER context, so we can
         // start over from the beginning.
+        //
+        // If anything goes wrong from here on (or this future is dropped), part of a record may
+        // be left behind: it has to be collected before the same sequence number is used again.
+        inner.seq_state.needs_gc = true;
         let rpt = inner.write_to_flash(buf, storage, next_seq).await?;
 
         // Read back all items in the list any verify the data on the flash
-- 
2.43.0


From ba9be635f4570336edb862fadf9d44700f0435bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 4/7] fix: release the node when a waiting attach is dropped

The taken bit was set at the start of attach but only cleared by the drop of the
handle, which did not exist yet while the attach waited. A cancelled attach (for
example by a timeout around it) left the node taken for good: it could neither be
attached again nor detached.
---
 crates/cfg-noodle/src/storage_node.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index b056ce7..d91aacb 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -440,6 +440,14 @@ where
             debug!("attach() release Lock on list");
         }
 
+        // From here on, dropping this guard clears the "taken" bit again, so that the node does
+        // not remain taken forever if this future is dropped while it waits. It is only handed
+        // out as a handle below, once the node contains a value.
+        let handle = StorageListNodeHandle {
+            list_ty: PhantomData,
+            inner: self,
+        };
+
         debug!("Waiting for reading_done");
 
         // We know our node is now on the list. Create a ref to the header which
@@ -502,10 +510,7 @@ where
         // - Rule 6.1: The node is attached to a list
         // - Rule 6.2: No other handles exist
         // - Rule 6.3: We have passed the Initial/NonResident state
-        Ok(StorageListNodeHandle {
-            list_ty: PhantomData,
-            inner: self,
-        })
+        Ok(handle)
     }
 
     /// Detach a node from a given list
-- 
2.43.0


From 9fd5e9934b02e6ddfc65b35e85629eb8b9b2806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 5/7] fix: report a value that is too large as an error in
 debug builds too

The length check in serialize() ran before the result of the encoder was looked at.
For a value that does not fit the buffer it panicked in debug builds instead of
letting process_writes return Error::Serialization.
---
 crates/cfg-noodle/src/storage_node.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index d91aacb..7556f6b 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -884,12 +884,13 @@ where
         len_with(tref, &mut ()),
         &cursor.get_ref()[..cursor.position()],
     );
-    // Make sure len_with returns the correct number of bytes
-    // Important because we depend on it in deserialize()
-    debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
-
     match res {
-        Ok(()) => Ok(cursor.position()),
+        Ok(()) => {
+            // Make sure len_with returns the correct number of bytes
+            // Important because we depend on it in deserialize()
+            debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
+            Ok(cursor.position())
+        }
         Err(_e) => {
             // We know this was an "end of slice" error
             Err(())
-- 
2.43.0


From df3db9bc223c71929da8ca12c9752d371223477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 6/7] fix: keep pending read and write signals while the
 default worker handles another one

The futures that wait for read, write and garbage collection signals were
created anew after every event, which dropped the ones that were debouncing
a signal they had already received: that request was never served.
---
 crates/cfg-noodle/src/worker_task.rs | 97 ++++++++++++++--------------
 1 file changed, 47 insertions(+), 50 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 5427418..d4e5c9b 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -1,9 +1,8 @@
 //! Default worker task implementation
 
-use core::fmt::Debug;
+use core::{cell::Cell, fmt::Debug};
 use embassy_futures::select::{Either, Either3, select};
-use embassy_sync::{blocking_mutex::raw::NoopRawMutex, signal::Signal};
-use embassy_time::Duration;
+use embassy_time::{Duration, Instant};
 use mutex_traits::ScopedRawMutex;
 
 use crate::{
@@ -62,61 +61,33 @@ pub async fn default_worker_task<
     // future and the `stopper` future.
     let waker_future = async {
         let mut first_gc_done = false;
-        let needs_gc: Signal<NoopRawMutex, Duration> = Signal::new();
+
+        // When debouncing of read or write signals ends, and when the first garbage collection
+        // is due. These are kept outside of the futures that are `select`ed between below: when
+        // one of them completes, the others are dropped, but the signals they have already
+        // received must not be forgotten.
+        let read_due: Cell<Option<Instant>> = Cell::new(None);
+        let write_due: Cell<Option<Instant>> = Cell::new(None);
+        let gc_due: Cell<Option<Instant>> = Cell::new(None);
 
         // Wait for either the needs_read or needs_write to be signaled
         loop {
-            let read_fut = async {
-                // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_read signal");
-                list.needs_read().await;
-
-                // Run debounce loop that breaks when needs_read hasn't been signaled
-                // for more than 100ms
-                'debounce: loop {
-                    // Make sure we go 100ms with no changes
-                    debug!("Debounce needs_read with 100ms timeout");
-                    if embassy_time::with_timeout(Duration::from_millis(100), list.needs_read())
-                        .await
-                        .is_err()
-                    {
-                        // Error means timeout reached, so no more debouncing
-                        debug!("Timeout reached, stop debouncing needs_read");
-                        break 'debounce;
-                    }
-                }
-            };
-            let write_fut = async {
-                // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_write signal");
-                list.needs_write().await;
-
-                // Run debounce loop that breaks when needs_write hasn't been signaled
-                // for more than 100ms
-                'debounce: loop {
-                    debug!("Debounce needs_write with 10s timeout");
-                    // Make sure we go 10s with no changes
-                    if embassy_time::with_timeout(Duration::from_secs(10), list.needs_write())
-                        .await
-                        .is_err()
-                    {
-                        // Error means timeout reached, so no more debouncing
-                        debug!("Timeout reached, stop debouncing needs_write");
-                        break 'debounce;
-                    }
-                }
-            };
-
+            // Go 100ms with no further read signals
+            let read_fut = debounce(|| list.needs_read(), Duration::from_millis(100), &read_due);
+            // Go 10s with no further write signals
+            let write_fut = debounce(|| list.needs_write(), Duration::from_secs(10), &write_due);
             let gc_fut = async {
-                let delay = needs_gc.wait().await;
-                debug!("Got needs_gc signal. Continuing after delay of {}", delay);
-                embassy_time::Timer::after(delay).await;
+                match gc_due.get() {
+                    Some(due) => embassy_time::Timer::at(due).await,
+                    None => core::future::pending().await,
+                }
             };
 
             info!("worker_task waiting for signals");
             match embassy_futures::select::select3(read_fut, write_fut, gc_fut).await {
                 // needs_read signaled
                 Either3::First(_) => {
+                    read_due.set(None);
                     info!("worker task got needs_read signal, processing reads");
 
                     match list.process_reads(&mut flash, buf).await {
@@ -128,16 +99,17 @@ pub async fn default_worker_task<
                     // have everything in a clean state.
                     // Delay this by 120 seconds to give other tasks time to do work before we potentially
                     // block the for a longer time with garbage collection.
-                    if !first_gc_done {
+                    if !first_gc_done && gc_due.get().is_none() {
                         info!(
                             "worker task finished process_reads. Trigger process_garbage with delay"
                         );
 
-                        needs_gc.signal(Duration::from_secs(120));
+                        gc_due.set(Some(Instant::now() + Duration::from_secs(120)));
                     }
                 }
                 // needs_write signaled
                 Either3::Second(_) => {
+                    write_due.set(None);
                     info!("worker task got needs_write signal, first process_garbage then write");
 
                     match list.process_garbage(&mut flash, buf).await {
@@ -156,6 +128,7 @@ pub async fn default_worker_task<
                     }
                 }
                 Either3::Third(_) => {
+                    gc_due.set(None);
                     info!("worker task got needs_gc signal, run process_garbage");
                     match list.process_garbage(&mut flash, buf).await {
                         Ok(rpt) => {
@@ -197,6 +170,30 @@ pub async fn default_worker_task<
     info!("worker task stopped!");
 }
 
+/// Waits until `signal` has been received and then not again for `delay`
+///
+/// The end of the waiting time is kept in `due`, so that it is not lost if the future is dropped.
+async fn debounce<F: Future<Output = ()>>(
+    signal: impl Fn() -> F,
+    delay: Duration,
+    due: &Cell<Option<Instant>>,
+) {
+    loop {
+        match due.get() {
+            None => signal().await,
+            Some(at) => {
+                // Error means timeout reached, so no more debouncing
+                if embassy_time::with_deadline(at, signal()).await.is_err() {
+                    debug!("Timeout reached, stop debouncing");
+                    return;
+                }
+            }
+        }
+        debug!("Signaled, debounce with timeout {}", delay);
+        due.set(Some(Instant::now() + delay));
+    }
+}
+
 /// A worker tasks that always reads no entries and ignores all writes
 ///
 /// This is useful in testing to always start out with an empty flash.
-- 
2.43.0


From 932f40e87ebc7b8b38eee807d2619342a7ab180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 7/7] fix: do not lose writes in the default worker when a read
 or a garbage collection is needed first

When a node was attached but not yet read at the end of the write
debouncing, or when the worker was stopped, process_writes refused to write
and the pending writes of the other nodes were dropped with only a log line.
---
 crates/cfg-noodle/src/worker_task.rs | 72 +++++++++++++++++++---------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index d4e5c9b..47f5bce 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -9,7 +9,7 @@ use crate::{
     NdlDataStorage, StorageList,
     error::{Error, LoadStoreError},
     flash::empty::AlwaysEmptyFlash,
-    logging::{debug, error, info, warn},
+    logging::{debug, error, info},
 };
 
 /// A default worker task that manages storage operations based on read/write signals.
@@ -38,7 +38,8 @@ use crate::{
 ///   followed by garbage collection.
 ///
 /// When the stopper future completes, the task attempts to flush any pending writes before
-/// terminating. If garbage collection is needed during shutdown, it will be performed automatically.
+/// terminating. If a read or a garbage collection is needed during shutdown, it will be performed
+/// automatically.
 ///
 /// # Errors
 ///
@@ -116,10 +117,7 @@ pub async fn default_worker_task<
                         Ok(rpt) => info!("process_garbage success: {:?}", rpt),
                         Err(e) => error!("Error in process_garbage: {:?}", e),
                     }
-                    match list.process_writes(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                        Err(e) => error!("Error in process_writes: {:?}", e),
-                    }
+                    flush(list, &mut flash, buf).await;
 
                     info!("worker task finished process_writes, triggering process_garbage");
                     match list.process_garbage(&mut flash, buf).await {
@@ -149,23 +147,7 @@ pub async fn default_worker_task<
     let Either::Second(_) = select(waker_future, stopper).await;
 
     info!("stopper future completed, stopping worker task");
-    match list.process_writes(&mut flash, buf).await {
-        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
-            match list.process_garbage(&mut flash, buf).await {
-                Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                Err(e) => error!("Error in process_garbage: {:?}", e),
-            }
-            match list.process_writes(&mut flash, buf).await {
-                Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                Err(e) => error!("Error in process_writes: {:?}", e),
-            }
-        }
-        Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
-            warn!("closing worker without performing first read");
-        }
-        Err(e) => error!("Error in process_writes: {:?}", e),
-    }
+    flush(list, &mut flash, buf).await;
 
     info!("worker task stopped!");
 }
@@ -194,6 +176,50 @@ async fn debounce<F: Future<Output = ()>>(
     }
 }
 
+/// Writes all pending changes, after the reads and garbage collections that have to come first
+///
+/// Errors are logged.
+async fn flush<R: ScopedRawMutex + Sync, S: NdlDataStorage, const KEPT_RECORDS: usize>(
+    list: &'static StorageList<R, KEPT_RECORDS>,
+    flash: &mut S,
+    buf: &mut [u8],
+) where
+    S::Error: Debug,
+{
+    // A read and a garbage collection are usually enough. There is more to do only if nodes are
+    // attached in the meantime.
+    loop {
+        match list.process_writes(flash, buf).await {
+            Ok(rpt) => {
+                info!("process_writes success: {:?}", rpt);
+                return;
+            }
+            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
+                match list.process_reads(flash, buf).await {
+                    Ok(rpt) => info!("process_reads success: {:?}", rpt),
+                    Err(e) => {
+                        error!("Error in process_reads: {:?}", e);
+                        return;
+                    }
+                }
+            }
+            Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
+                match list.process_garbage(flash, buf).await {
+                    Ok(rpt) => info!("process_garbage success: {:?}", rpt),
+                    Err(e) => {
+                        error!("Error in process_garbage: {:?}", e);
+                        return;
+                    }
+                }
+            }
+            Err(e) => {
+                error!("Error in process_writes: {:?}", e);
+                return;
+            }
+        }
+    }
+}
+
 /// A worker tasks that always reads no entries and ignores all writes
 ///
 /// This is useful in testing to always start out with an empty flash.
-- 
2.43.0

