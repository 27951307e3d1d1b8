From aaeba0590b677d1a79727cbd133bc4ca032df33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:09 +0000
Subject: [PATCH 01/21] Add guarded verification hooks (cfg paladin_verif)

---
 .../coordinated_channel/coordinated_stream.rs |   9 +-
 .../src/channel/coordinated_channel/mod.rs    |   9 +-
 paladin-core/src/channel/queue.rs             |   6 +
 paladin-core/src/contiguous/queue.rs          |   4 +
 paladin-core/src/lib.rs                       |   4 +
 paladin-core/src/queue/in_memory.rs           |  24 +-
 paladin-core/src/runtime/mod.rs               |  25 ++
 paladin-core/src/verif.rs                     | 215 ++++++++++++++++++
 8 files changed, 284 insertions(+), 12 deletions(-)
 create mode 100644 paladin-core/src/verif.rs

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index d45ec4f..c245eb4 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -16,12 +16,11 @@
 //! - Decrements the number of pending sends when an item is yielded and it is
 //!   acknowledged.
 
+#[cfg(not(paladin_verif))]
+use std::sync::atomic::AtomicBool;
 use std::{
     pin::Pin,
-    sync::{
-        atomic::{AtomicBool, Ordering},
-        Arc,
-    },
+    sync::{atomic::Ordering, Arc},
     task::{Context, Poll, Waker},
 };
 
@@ -30,6 +29,8 @@ use pin_project::pin_project;
 
 use super::ChannelState;
 use crate::acker::Acker;
+#[cfg(paladin_verif)]
+use crate::verif::atomic::AtomicBool;
 
 /// The [`Stream`] end of a coordinated channel.
 ///
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index f88e6ca..7f5daad 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -12,15 +12,16 @@
 //! problems by binding the sender and receiver to a shared state that tracks
 //! sender closure and pending sends.
 
-use std::sync::{
-    atomic::{AtomicBool, AtomicUsize, Ordering},
-    Arc,
-};
+#[cfg(not(paladin_verif))]
+use std::sync::atomic::{AtomicBool, AtomicUsize};
+use std::sync::{atomic::Ordering, Arc};
 
 use futures::Stream;
 
 use self::{coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedStream};
 use crate::queue::Publisher;
+#[cfg(paladin_verif)]
+use crate::verif::atomic::{AtomicBool, AtomicUsize};
 
 pub mod coordinated_publisher;
 pub mod coordinated_stream;
diff --git a/paladin-core/src/channel/queue.rs b/paladin-core/src/channel/queue.rs
index 6afdf1a..c9d69d0 100644
--- a/paladin-core/src/channel/queue.rs
+++ b/paladin-core/src/channel/queue.rs
@@ -126,6 +126,12 @@ impl<Conn> QueueChannelFactory<Conn> {
     pub fn new(connection: Conn) -> Self {
         Self { connection }
     }
+
+    /// Verification hook: the underlying connection.
+    #[cfg(paladin_verif)]
+    pub fn verif_connection(&self) -> &Conn {
+        &self.connection
+    }
 }
 
 /// A [`Channel`] implementation for a queue.
diff --git a/paladin-core/src/contiguous/queue.rs b/paladin-core/src/contiguous/queue.rs
index 43144a5..209e21d 100644
--- a/paladin-core/src/contiguous/queue.rs
+++ b/paladin-core/src/contiguous/queue.rs
@@ -1,7 +1,11 @@
+#[cfg(not(paladin_verif))]
 use crossbeam::atomic::AtomicCell;
+#[cfg(not(paladin_verif))]
 use crossbeam_skiplist::SkipMap;
 
 use super::Contiguous;
+#[cfg(paladin_verif)]
+use crate::verif::{AtomicCell, SkipMap};
 
 /// Utility for queueing and assembling values in a monoidal fashion.
 ///
diff --git a/paladin-core/src/lib.rs b/paladin-core/src/lib.rs
index 449e4c6..ad107e9 100644
--- a/paladin-core/src/lib.rs
+++ b/paladin-core/src/lib.rs
@@ -1,4 +1,6 @@
 #![cfg_attr(docsrs, feature(doc_cfg))]
+// `paladin_verif` guards the hooks of the external verification harness.
+#![allow(unexpected_cfgs)]
 
 //! Distributed computation library for Rust.
 //!
@@ -217,6 +219,8 @@ pub mod queue;
 pub mod runtime;
 pub mod serializer;
 pub mod task;
+#[cfg(paladin_verif)]
+pub mod verif;
 pub use async_trait::async_trait;
 pub use paladin_opkind_derive::*;
 
diff --git a/paladin-core/src/queue/in_memory.rs b/paladin-core/src/queue/in_memory.rs
index 5023b79..2f1bc86 100644
--- a/paladin-core/src/queue/in_memory.rs
+++ b/paladin-core/src/queue/in_memory.rs
@@ -9,19 +9,19 @@
 //! The [`InMemoryConnection`] is cloneable can be used to simulate a connection
 //! pool to a real queue. Each clone of the connection will maintain references
 //! to same underlying queues.
+#[cfg(not(paladin_verif))]
+use std::sync::atomic::AtomicU64;
 use std::{
     collections::HashMap,
     pin::Pin,
-    sync::{
-        atomic::{AtomicU64, Ordering},
-        Arc,
-    },
+    sync::{atomic::Ordering, Arc},
     task::{Context, Poll},
 };
 
 use anyhow::Result;
 use async_trait::async_trait;
 use bytes::Bytes;
+#[cfg(not(paladin_verif))]
 use crossbeam::queue::SegQueue;
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::{ready, Stream};
@@ -29,6 +29,8 @@ use tokio::sync::{OwnedSemaphorePermit, Semaphore};
 use tokio_util::sync::PollSemaphore;
 
 use super::{Connection, DeliveryMode, Publisher, QueueHandle, QueueOptions, SyndicationMode};
+#[cfg(paladin_verif)]
+use crate::verif::{atomic::AtomicU64, SegQueue};
 use crate::{
     acker::NoopAcker,
     serializer::{Serializable, Serializer},
@@ -77,6 +79,12 @@ impl InMemoryConnection {
             serializer,
         }
     }
+
+    /// Verification hook: the names of the existing queues.
+    #[cfg(paladin_verif)]
+    pub fn verif_queue_names(&self) -> Vec<String> {
+        self.queues.iter().map(|q| q.key().clone()).collect()
+    }
 }
 
 #[async_trait]
@@ -146,6 +154,8 @@ impl ExactlyOnceQueue {
     fn publish<PayloadTarget: Serializable>(&self, payload: &PayloadTarget) -> Result<()> {
         let bytes = self.serializer.to_bytes(payload)?;
         self.messages.push(bytes.clone());
+        #[cfg(paladin_verif)]
+        crate::verif::yield_point("exactly_once.publish.pushed");
         self.num_messages.add_permits(1);
         Ok(())
     }
@@ -244,6 +254,9 @@ impl BroadcastQueue {
         // track which messages they've seen.
         let message_id = self.message_counter.fetch_add(1, Ordering::Relaxed);
 
+        #[cfg(paladin_verif)]
+        crate::verif::yield_point("broadcast.publish.id_assigned");
+
         // If the delivery mode is persistent and there are no consumers, push
         // the message to the history queue such that new consumers can replay
         // the message.
@@ -251,6 +264,9 @@ impl BroadcastQueue {
             self.history.push((message_id, bytes.clone()));
         }
 
+        #[cfg(paladin_verif)]
+        crate::verif::yield_point("broadcast.publish.history_settled");
+
         for consumer in self.consumers.iter() {
             // Newly added consumers may _concurrently_ see messages from history while
             // propagating the new message. In other words, a new consumer may come online
diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index cdd8f6c..031eccc 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -383,6 +383,31 @@ impl Runtime {
 impl Drop for Runtime {
     fn drop(&mut self) {
         if let Some(worker_emulator) = self.worker_emulator.take() {
+/// Verification hooks.
+#[cfg(paladin_verif)]
+impl Runtime {
+    /// A [`WorkerRuntime`] connected to the channels of this [`Runtime`], such
+    /// that a harness can take the place of the emulated workers.
+    pub fn verif_worker(&self) -> WorkerRuntime {
+        WorkerRuntime {
+            channel_factory: self.channel_factory.clone(),
+            task_channel: self.task_channel.clone(),
+            _marker: Marker,
+        }
+    }
+
+    /// The names of the queues that currently exist in this [`Runtime`]'s
+    /// in-memory connection.
+    pub fn verif_queue_names(&self) -> Vec<String> {
+        match &self.channel_factory {
+            DynamicChannelFactory::InMemory(factory) => {
+                factory.verif_connection().verif_queue_names()
+            }
+            _ => Vec::new(),
+        }
+    }
+}
+
             for handle in worker_emulator {
                 handle.abort();
             }
diff --git a/paladin-core/src/verif.rs b/paladin-core/src/verif.rs
new file mode 100644
index 0000000..e0196d6
--- /dev/null
+++ b/paladin-core/src/verif.rs
@@ -0,0 +1,215 @@
+//! Verification hooks.
+//!
+//! Compiled only with `--cfg paladin_verif`; nothing in here is part of the
+//! public API. The module lets an external harness
+//! - own the schedule: the shared-memory primitives of the lock-free parts of
+//!   the crate are wrapped such that a registered callback runs in front of
+//!   every access, and
+//! - stand in for a worker of an in-memory
+//!   [`Runtime`](crate::runtime::Runtime).
+//!
+//! Every wrapper dereferences to the type it wraps, such that the full API of
+//! the latter remains available.
+use std::{
+    borrow::Borrow,
+    ops::{Deref, DerefMut, RangeBounds},
+    sync::OnceLock,
+};
+
+/// A callback invoked in front of every instrumented access.
+pub type YieldFn = fn(site: &'static str);
+
+static YIELD: OnceLock<YieldFn> = OnceLock::new();
+
+/// Register the callback to be invoked in front of every instrumented access.
+/// Only the first registration has an effect.
+pub fn set_yield_fn(f: YieldFn) {
+    _ = YIELD.set(f);
+}
+
+/// Invoke the registered callback, if any.
+#[inline]
+pub fn yield_point(site: &'static str) {
+    if let Some(f) = YIELD.get() {
+        f(site)
+    }
+}
+
+macro_rules! wrapper {
+    ($name:ident<$($param:ident),*>, $inner:ty) => {
+        pub struct $name<$($param),*>($inner);
+
+        impl<$($param),*> Deref for $name<$($param),*> {
+            type Target = $inner;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
+        impl<$($param),*> DerefMut for $name<$($param),*> {
+            fn deref_mut(&mut self) -> &mut Self::Target {
+                &mut self.0
+            }
+        }
+    };
+}
+
+/// Instrumented versions of [`std::sync::atomic`] types.
+pub mod atomic {
+    use std::sync::atomic::Ordering;
+
+    use super::*;
+
+    macro_rules! atomic {
+        ($name:ident, $inner:ty, $value:ty) => {
+            wrapper!($name<>, $inner);
+
+            impl Default for $name {
+                fn default() -> Self {
+                    Self::new(Default::default())
+                }
+            }
+
+            impl $name {
+                pub const fn new(value: $value) -> Self {
+                    Self(<$inner>::new(value))
+                }
+
+                pub fn load(&self, order: Ordering) -> $value {
+                    yield_point("atomic.load");
+                    self.0.load(order)
+                }
+
+                pub fn store(&self, value: $value, order: Ordering) {
+                    yield_point("atomic.store");
+                    self.0.store(value, order)
+                }
+
+                pub fn swap(&self, value: $value, order: Ordering) -> $value {
+                    yield_point("atomic.swap");
+                    self.0.swap(value, order)
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    current: $value,
+                    new: $value,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$value, $value> {
+                    yield_point("atomic.compare_exchange");
+                    self.0.compare_exchange(current, new, success, failure)
+                }
+            }
+        };
+    }
+
+    macro_rules! atomic_int {
+        ($name:ident, $inner:ty, $value:ty) => {
+            atomic!($name, $inner, $value);
+
+            impl $name {
+                pub fn fetch_add(&self, value: $value, order: Ordering) -> $value {
+                    yield_point("atomic.fetch_add");
+                    self.0.fetch_add(value, order)
+                }
+
+                pub fn fetch_sub(&self, value: $value, order: Ordering) -> $value {
+                    yield_point("atomic.fetch_sub");
+                    self.0.fetch_sub(value, order)
+                }
+            }
+        };
+    }
+
+    atomic!(AtomicBool, std::sync::atomic::AtomicBool, bool);
+    atomic_int!(AtomicUsize, std::sync::atomic::AtomicUsize, usize);
+    atomic_int!(AtomicU64, std::sync::atomic::AtomicU64, u64);
+}
+
+wrapper!(SegQueue<T>, crossbeam::queue::SegQueue<T>);
+
+impl<T> Default for SegQueue<T> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<T> SegQueue<T> {
+    pub const fn new() -> Self {
+        Self(crossbeam::queue::SegQueue::new())
+    }
+
+    pub fn push(&self, value: T) {
+        yield_point("seg_queue.push");
+        self.0.push(value)
+    }
+
+    pub fn pop(&self) -> Option<T> {
+        yield_point("seg_queue.pop");
+        self.0.pop()
+    }
+}
+
+wrapper!(AtomicCell<T>, crossbeam::atomic::AtomicCell<T>);
+
+impl<T> AtomicCell<T> {
+    pub const fn new(value: T) -> Self {
+        Self(crossbeam::atomic::AtomicCell::new(value))
+    }
+
+    pub fn as_ptr(&self) -> *mut T {
+        yield_point("atomic_cell.as_ptr");
+        self.0.as_ptr()
+    }
+}
+
+impl<T: Default> AtomicCell<T> {
+    pub fn take(&self) -> T {
+        yield_point("atomic_cell.take");
+        self.0.take()
+    }
+}
+
+wrapper!(SkipMap<K, V>, crossbeam_skiplist::SkipMap<K, V>);
+
+impl<K, V> SkipMap<K, V> {
+    pub fn new() -> Self {
+        Self(crossbeam_skiplist::SkipMap::new())
+    }
+}
+
+impl<K: Ord, V> SkipMap<K, V> {
+    pub fn range<Q, R>(&self, range: R) -> crossbeam_skiplist::map::Range<'_, Q, R, K, V>
+    where
+        K: Borrow<Q>,
+        R: RangeBounds<Q>,
+        Q: Ord + ?Sized,
+    {
+        yield_point("skip_map.range");
+        self.0.range(range)
+    }
+}
+
+impl<K: Ord + Send + 'static, V: Send + 'static> SkipMap<K, V> {
+    pub fn insert(&self, key: K, value: V) -> crossbeam_skiplist::map::Entry<'_, K, V> {
+        yield_point("skip_map.insert");
+        self.0.insert(key, value)
+    }
+
+    pub fn remove<Q>(&self, key: &Q) -> Option<crossbeam_skiplist::map::Entry<'_, K, V>>
+    where
+        K: Borrow<Q>,
+        Q: Ord + ?Sized,
+    {
+        yield_point("skip_map.remove");
+        self.0.remove(key)
+    }
+}
+
+impl<K: Ord, V> FromIterator<(K, V)> for SkipMap<K, V> {
+    fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
+        Self(iter.into_iter().collect())
+    }
+}
-- 
2.43.0


From 6c6d02a0be5a3271b8eccf881f26fcc203bffe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:18 +0000
Subject: [PATCH 02/21] fix: fold hangs if the final result arrives before the
 input is exhausted

---
 .../src/directive/indexed_stream/foldable.rs  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index ddb5a63..790f166 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -156,6 +156,9 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
         let should_dispatch = Arc::new(Notify::new());
         // The running count of inputs.
         let count = Arc::new(AtomicUsize::new(0));
+        // The smallest index seen in the input, i.e., the start of the range of the
+        // final result.
+        let first_idx = Arc::new(AtomicUsize::new(usize::MAX));
         // The size of the input is not known until every item in the input stream has
         // been received. We don't want to block result stream consumption waiting for
         // the initialization future to finish, as there may be a significant delay if
@@ -173,6 +176,7 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                 let dispatcher = dispatcher.clone();
                 let should_dispatch = should_dispatch.clone();
                 let count = count.clone();
+                let first_idx = first_idx.clone();
                 async move {
                     // Given that the operation is a monoid, and input type must match output type,
                     // we can safely place the input into a `TaskResult`.
@@ -183,6 +187,7 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                         output: item,
                     };
 
+                    first_idx.fetch_min(idx, Ordering::Relaxed);
                     let next_sum = count.fetch_add(1, Ordering::Relaxed) + 1;
                     if next_sum < 2 {
                         // Do not attempt a dispatch if we've seen fewer than two inputs.
@@ -201,6 +206,7 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
             })
             .and_then({
                 let count = count.clone();
+                let first_idx = first_idx.clone();
                 let dispatcher = dispatcher.clone();
                 let resolved_input_size = resolved_input_size.clone();
                 |_| {
@@ -223,7 +229,20 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                                 .expect("Expected dispatcher to have a single element at index 0")
                                 .output),
                             // Otherwise, we wait for the result stream to complete.
-                            _ => futures::future::pending().await,
+                            _ => {
+                                // The final result may have been received before the size of the
+                                // job was known, in which case it couldn't be identified as such
+                                // and has been queued. There won't be any further results to wait
+                                // for then.
+                                let first_idx = first_idx.load(Ordering::Relaxed);
+                                if let Some(result) = dispatcher.dequeue(&first_idx).await {
+                                    if result.is_final(size) {
+                                        return Ok(result.output);
+                                    }
+                                    dispatcher.queue(result).await;
+                                }
+                                futures::future::pending().await
+                            }
                         }
                     }
                 }
-- 
2.43.0


From d39c0d2944671321b5f4855c542b47ae5b3da7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:20 +0000
Subject: [PATCH 03/21] fix: fold panics on a single element whose index is not
 0

---
 paladin-core/src/directive/indexed_stream/foldable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index 790f166..1fc71da 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -224,9 +224,9 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                             // at this point, so we can safely dequeue it. If it doesn't, this is a
                             // logic error.
                             1 => Ok(dispatcher
-                                .dequeue(&0)
+                                .dequeue(&first_idx.load(Ordering::Relaxed))
                                 .await
-                                .expect("Expected dispatcher to have a single element at index 0")
+                                .expect("Expected dispatcher to have a single element")
                                 .output),
                             // Otherwise, we wait for the result stream to complete.
                             _ => {
-- 
2.43.0


From 727094f2f2af60864ea42e23ba70076a3e6df094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:06 +0000
Subject: [PATCH 04/21] fix: a parked coordinated stream isn't woken when its
 channel is closed

---
 .../src/channel/coordinated_channel/coordinated_stream.rs  | 5 +++++
 paladin-core/src/channel/coordinated_channel/mod.rs        | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index c245eb4..6b03b85 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -96,6 +96,8 @@ impl CoordinatedAcker {
 
         if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
             self.waker.wake_by_ref();
+            // The stream may have been moved to another task in the meantime.
+            self.state.waker.wake();
         }
     }
 
@@ -125,6 +127,9 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
+        // Register for a wake-up before inspecting any state, such that changes
+        // happening thereafter aren't missed.
+        this.state.waker.register(cx.waker());
         let item = this.inner.poll_next(cx);
 
         match item {
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index 7f5daad..6229018 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -16,7 +16,7 @@
 use std::sync::atomic::{AtomicBool, AtomicUsize};
 use std::sync::{atomic::Ordering, Arc};
 
-use futures::Stream;
+use futures::{task::AtomicWaker, Stream};
 
 use self::{coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedStream};
 use crate::queue::Publisher;
@@ -33,6 +33,9 @@ pub struct ChannelState {
     closed: AtomicBool,
     /// The number of pending sends.
     num_pending_sends: AtomicUsize,
+    /// The task waiting on the receiver, which must be woken when the channel
+    /// is closed or the last pending send is settled.
+    waker: AtomicWaker,
 }
 
 impl ChannelState {
@@ -48,6 +51,8 @@ impl ChannelState {
         }
 
         self.closed.store(true, Ordering::SeqCst);
+        // The receiver may have nothing left to wait for.
+        self.waker.wake();
     }
 }
 
-- 
2.43.0


From b190d7c4b3c8756ae32d256a20ac62550145bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:07 +0000
Subject: [PATCH 05/21] fix: coordinated stream loses a send racing with its
 termination check

---
 .../src/channel/coordinated_channel/coordinated_stream.rs  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index 6b03b85..bd89f50 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -142,8 +142,11 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
                 // stream has terminated.
-                let num_pending_sends = this.state.num_pending_sends.load(Ordering::SeqCst);
-                if this.state.closed.load(Ordering::SeqCst) && num_pending_sends == 0 {
+                //
+                // The order of the loads matters: there are no further sends once the channel
+                // is closed, whereas sends preceding the closure must not be missed.
+                let closed = this.state.closed.load(Ordering::SeqCst);
+                if closed && this.state.num_pending_sends.load(Ordering::SeqCst) == 0 {
                     return Poll::Ready(None);
                 }
 
-- 
2.43.0


From 39afc61d02f411705fb4e3a54662d61a28c858d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:09 +0000
Subject: [PATCH 06/21] fix: a failed publish keeps a coordinated channel from
 terminating

---
 .../channel/coordinated_channel/coordinated_publisher.rs | 9 +++++----
 paladin-core/src/channel/coordinated_channel/mod.rs      | 7 +++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index d28535f..7e0725e 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -60,10 +60,11 @@ where
 
         self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
 
-        self.inner
-            .publish(payload)
-            .await
-            .map_err(CoordinatedPublisherError::Inner)?;
+        if let Err(err) = self.inner.publish(payload).await {
+            // Nothing has been sent, so there's nothing to be acknowledged.
+            self.state.settle_send();
+            bail!(CoordinatedPublisherError::Inner(err));
+        }
 
         Ok(())
     }
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index 6229018..dbc8a91 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -54,6 +54,13 @@ impl ChannelState {
         // The receiver may have nothing left to wait for.
         self.waker.wake();
     }
+
+    /// Settle a pending send, waking the receiver if it was the last one.
+    fn settle_send(&self) {
+        if self.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+            self.waker.wake();
+        }
+    }
 }
 
 /// State coordination between two distinct channel pipes (a
-- 
2.43.0


From 24229016e2f0c884f81fc9130e3a2173e0644274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:10 +0000
Subject: [PATCH 07/21] fix: publish racing with the closure of a coordinated
 channel is lost

---
 .../channel/coordinated_channel/coordinated_publisher.rs   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index 7e0725e..f2fe324 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -54,12 +54,15 @@ where
     Inner: Publisher<T> + Sync,
 {
     async fn publish(&self, payload: &T) -> Result<()> {
+        // Announce the send before checking for closure, such that the receiver either
+        // waits for it, or the closure is observed here.
+        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
+
         if self.state.closed.load(Ordering::SeqCst) {
+            self.state.settle_send();
             return err_closed();
         }
 
-        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
-
         if let Err(err) = self.inner.publish(payload).await {
             // Nothing has been sent, so there's nothing to be acknowledged.
             self.state.settle_send();
-- 
2.43.0


From f4b6b0fdc1611a4a38c056466a7e2e3b67774472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:36 +0000
Subject: [PATCH 08/21] fix: worker drops the remaining tasks of a job after an
 ignored failure

---
 paladin-core/src/runtime/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 031eccc..8845b4e 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -807,13 +807,17 @@ impl WorkerRuntime {
                         }
                         Err(err) => {
                             error!(routing_key = %routing_key, "execution error: {err:?}");
-                            mark_terminated(&terminated_jobs, routing_key.clone());
+                            let strategy = err.fatal_strategy();
+                            // An ignored failure doesn't concern the job's other tasks.
+                            if matches!(strategy, FatalStrategy::Terminate) {
+                                mark_terminated(&terminated_jobs, routing_key.clone());
+                            }
 
                             try_join!(
                                 acker.nack(),
                                 self.dispatch_fatal(ExecutionErr {
                                     routing_key,
-                                    strategy: err.fatal_strategy(),
+                                    strategy,
                                     err,
                                 })
                             )?;
-- 
2.43.0


From 0358333c9e927ae7f8c10b8419419c382153d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:39 +0000
Subject: [PATCH 09/21] fix: abort all command is lost if directly followed by
 another abort command

---
 paladin-core/src/runtime/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 8845b4e..0e2109a 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -776,6 +776,7 @@ impl WorkerRuntime {
                 let mut ipc_sig_term_rx = ipc_sig_term_rx.clone();
                 let abort_worker_execution = abort_worker_execution.clone();
                 let routing_key = routing_key.clone();
+                let terminated_jobs = terminated_jobs.clone();
                 async move {
                     loop {
                         ipc_sig_term_rx.changed().await.expect("IPC channel closed");
@@ -783,7 +784,11 @@ impl WorkerRuntime {
                         debug!(routing_key = %routing_key, received_key = %received_key,
                             "received IPC termination signal");
 
-                        if received_key == COMMAND_IPC_ABORT_ALL_KEY {
+                        // The IPC channel only retains the most recent key, such that the abort all
+                        // key may have been superseded by the key of a job.
+                        if received_key == COMMAND_IPC_ABORT_ALL_KEY
+                            || terminated_jobs.contains_key(COMMAND_IPC_ABORT_ALL_KEY)
+                        {
                             warn!(routing_key = %routing_key, "worker abort signal received");
                             abort_worker_execution.store(true, Ordering::SeqCst);
                             return true;
-- 
2.43.0


From d3dde25d348fc8dfa0353c34ab7b73a743952e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:40 +0000
Subject: [PATCH 10/21] fix: random routing keys are too short to be unique

---
 paladin-core/src/common/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paladin-core/src/common/mod.rs b/paladin-core/src/common/mod.rs
index bf2e1c4..dce9847 100644
--- a/paladin-core/src/common/mod.rs
+++ b/paladin-core/src/common/mod.rs
@@ -3,7 +3,7 @@ use rand::{distributions::Alphanumeric, Rng};
 pub fn get_random_routing_key() -> String {
     rand::thread_rng()
         .sample_iter(&Alphanumeric)
-        .take(5)
+        .take(16)
         .map(char::from)
         .collect()
 }
-- 
2.43.0


From cd9caaa8f53e6bcb18ffe8a6d9df950e67cdfe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 11/21] fix: runtime initialization panics if the AMQP URI is
 missing

---
 paladin-core/src/runtime/dynamic_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/dynamic_channel.rs b/paladin-core/src/runtime/dynamic_channel.rs
index ad649ff..52632b3 100644
--- a/paladin-core/src/runtime/dynamic_channel.rs
+++ b/paladin-core/src/runtime/dynamic_channel.rs
@@ -128,7 +128,7 @@ impl DynamicChannelFactory {
         match config.runtime {
             config::Runtime::Amqp => {
                 let connection = AMQPConnection::new(AMQPConnectionOptions {
-                    uri: config.amqp_uri.as_ref().expect("amqp_uri is required"),
+                    uri: config.amqp_uri.as_ref().context("amqp_uri is required")?,
                     qos: Some(1),
                     serializer,
                 })
-- 
2.43.0


From 733673ebcdec84ab120ae0b935a1d507a0d014d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:49 +0000
Subject: [PATCH 12/21] fix: tasks execute the wrong operation if operations
 are spread over modules or crates

---
 paladin-core/src/lib.rs           |  9 ++++++---
 paladin-core/src/operation/mod.rs |  2 +-
 paladin-core/src/task/mod.rs      | 16 ++++++++++++----
 paladin-opkind-derive/src/lib.rs  | 25 +++++++++++++++++--------
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/paladin-core/src/lib.rs b/paladin-core/src/lib.rs
index ad107e9..bdedc2a 100644
--- a/paladin-core/src/lib.rs
+++ b/paladin-core/src/lib.rs
@@ -241,12 +241,15 @@ pub mod __private {
     pub use tracing;
 
     #[doc(hidden)]
-    #[linkme::distributed_slice]
-    pub static OPERATIONS: [fn(
+    pub type ExecuteFn = fn(
         crate::task::AnyTask,
         abort: crate::AbortSignal,
     ) -> futures::future::BoxFuture<
         'static,
         crate::operation::Result<crate::task::AnyTaskOutput>,
-    >];
+    >;
+
+    #[doc(hidden)]
+    #[linkme::distributed_slice]
+    pub static OPERATIONS: [(&'static str, ExecuteFn)];
 }
diff --git a/paladin-core/src/operation/mod.rs b/paladin-core/src/operation/mod.rs
index 3b42609..3e724b5 100644
--- a/paladin-core/src/operation/mod.rs
+++ b/paladin-core/src/operation/mod.rs
@@ -103,7 +103,7 @@ use crate::serializer::{Serializable, Serializer};
 /// These will be automatically implemented by the
 /// [`RemoteExecute`](crate::RemoteExecute) derive macro.
 pub trait RemoteExecute {
-    const ID: u8;
+    const ID: &'static str;
 }
 
 /// An operation that can be performed by a worker.
diff --git a/paladin-core/src/task/mod.rs b/paladin-core/src/task/mod.rs
index 780f81d..753b292 100644
--- a/paladin-core/src/task/mod.rs
+++ b/paladin-core/src/task/mod.rs
@@ -12,7 +12,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     __private::OPERATIONS,
-    operation::Operation,
+    operation::{FatalError, FatalStrategy, Operation},
     serializer::{Serializable, Serializer},
     AbortSignal,
 };
@@ -71,7 +71,7 @@ pub struct AnyTask {
     /// The serialized [`Operation`] to be executed.
     pub op: Bytes,
     /// The unique identifier of the [`Operation`] to be executed.
-    pub operation_id: u8,
+    pub operation_id: String,
     /// Serialized arguments to the [`Operation`].
     pub input: Bytes,
     /// The [`Serializer`] used to serialize and deserialize the [`Operation`]
@@ -127,7 +127,7 @@ impl<Op: Operation, Metadata: Serializable> Task<'_, Op, Metadata> {
         Ok(AnyTask {
             routing_key,
             metadata,
-            operation_id: Op::ID,
+            operation_id: Op::ID.to_string(),
             op,
             input,
             serializer,
@@ -166,6 +166,14 @@ impl AnyTask {
         self,
         abort: AbortSignal,
     ) -> crate::operation::Result<AnyTaskOutput> {
-        OPERATIONS[self.operation_id as usize](self, abort).await
+        let Some((_, execute)) = OPERATIONS.iter().find(|(id, _)| *id == self.operation_id) else {
+            return FatalError::from_str(
+                &format!("unknown operation {}", self.operation_id),
+                FatalStrategy::default(),
+            )
+            .into();
+        };
+
+        execute(self, abort).await
     }
 }
diff --git a/paladin-opkind-derive/src/lib.rs b/paladin-opkind-derive/src/lib.rs
index d0de2ca..3b6e98a 100644
--- a/paladin-opkind-derive/src/lib.rs
+++ b/paladin-opkind-derive/src/lib.rs
@@ -10,21 +10,22 @@
 //! A globally unique identifier is assigned to each operation. Then, a unique
 //! function that handles deserialization, execution, and re-serialization of
 //! the result is generated for each operation. A pointer to this function is
-//! registered with the distributed slice at the index of the operation's
-//! identifier. This allows execution function to be dereferenced by only the
-//! operation identifier, which is serialized with the task.
+//! registered with the distributed slice along with the operation's identifier.
+//! This allows the execution function to be looked up by only the operation
+//! identifier, which is serialized with the task. Note that the position within
+//! the slice has no significance, as it's up to the linker.
 //!
 //! This scheme allows the tasks sent to workers to be opaque, while still
 //! enabling efficient lookup and execution of the appropriate operation.
 extern crate proc_macro;
 
-use std::sync::atomic::{AtomicU8, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::{parse_macro_input, Attribute, DeriveInput, Error, Ident, Result};
 
-static OPERATION_ID_COUNTER: AtomicU8 = AtomicU8::new(0);
+static OPERATION_ID_COUNTER: AtomicUsize = AtomicUsize::new(0);
 
 /// Check if the `internal` attribute is present on the derive macro.
 ///
@@ -99,16 +100,24 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
     let name = &input.ident;
     let generics = &input.generics;
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-    let operation_id = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
-    let function_name = Ident::new(&format!("__execute_{}", operation_id), name.span());
+    // The counter is only unique within the crate being compiled. It's qualified
+    // with the path of the operation to make for a globally unique identifier.
+    let operation_count = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
+    let operation_id = quote! {
+        concat!(module_path!(), "::", stringify!(#name), "#", #operation_count)
+    };
+    let function_name = Ident::new(&format!("__execute_{}", operation_count), name.span());
+    let registration_name = Ident::new(&format!("__OPERATION_{}", operation_count), name.span());
 
     let expanded = quote! {
         impl #impl_generics #paladin_path::operation::RemoteExecute for #name #ty_generics #where_clause {
-            const ID: u8 = #operation_id;
+            const ID: &'static str = #operation_id;
         }
 
         #[#paladin_path::__private::linkme::distributed_slice(#paladin_path::__private::OPERATIONS)]
         #linkme_path_override
+        static #registration_name: (&'static str, #paladin_path::__private::ExecuteFn) = (#operation_id, #function_name);
+
         fn #function_name(task: #paladin_path::task::AnyTask, abort: #paladin_path::AbortSignal,) -> #paladin_path::__private::futures::future::BoxFuture<
             'static,
             #paladin_path::operation::Result<#paladin_path::task::AnyTaskOutput>
-- 
2.43.0


From 3b5243c40b7dd5980e0224fb97d084c02dd02012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:52 +0000
Subject: [PATCH 13/21] Move the runtime verification hooks out of Drop::drop

---
 paladin-core/src/runtime/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 0e2109a..d44de74 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -383,6 +383,13 @@ impl Runtime {
 impl Drop for Runtime {
     fn drop(&mut self) {
         if let Some(worker_emulator) = self.worker_emulator.take() {
+            for handle in worker_emulator {
+                handle.abort();
+            }
+        }
+    }
+}
+
 /// Verification hooks.
 #[cfg(paladin_verif)]
 impl Runtime {
@@ -408,13 +415,6 @@ impl Runtime {
     }
 }
 
-            for handle in worker_emulator {
-                handle.abort();
-            }
-        }
-    }
-}
-
 /// A runtime for worker nodes.
 ///
 /// This runtime provides functionality for the three responsibilities of a
-- 
2.43.0


From 7fcadc9dfba7ed3b62a3ed1a16bda407a8265ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:22 +0000
Subject: [PATCH 14/21] fix: an undecodable message stalls AMQP consumers

The consumer returned Poll::Pending without arranging to be woken up, and
left the message unacknowledged, such that the broker didn't send any
further messages once the prefetch limit was reached.
---
 paladin-core/src/queue/amqp.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index df16277..4c4e464 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -521,6 +521,15 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
                     Ok(payload) => Poll::Ready(Some((payload, AMQPAcker { delivery }))),
                     Err(err) => {
                         error!("Error deserializing message, error: {err}");
+                        // Reject the message, as the broker would otherwise withhold subsequent
+                        // messages once the prefetch limit is reached.
+                        tokio::spawn(async move {
+                            if let Err(err) = delivery.nack(Default::default()).await {
+                                error!("Error rejecting message, error: {err}");
+                            }
+                        });
+                        // Poll again, as there may be more messages available.
+                        cx.waker().wake_by_ref();
                         Poll::Pending
                     }
                 }
-- 
2.43.0


From b6f80a66a8c61cd6987531e66dccc6d14dffe45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:44 +0000
Subject: [PATCH 15/21] fix: AMQP broadcasts reach only one of the consumers

All consumers of a broadcast shared a single queue, such that the broker
delivered each message to only one of them: an abort command stopped only
one worker. Bind a queue per consumer to the exchange instead.
---
 paladin-core/src/queue/amqp.rs | 57 ++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 4c4e464..b04f363 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -203,24 +203,6 @@ impl AMQPConnection {
             )
             .await?;
 
-        self.channel
-            .queue_declare(
-                name,
-                options.into_queue_declare_options(),
-                options.into_declare_arguments(),
-            )
-            .await?;
-
-        self.channel
-            .queue_bind(
-                name,
-                name,
-                "", // Routing key is ignored in fanout exchanges
-                Default::default(),
-                Default::default(),
-            )
-            .await?;
-
         Ok(AMQPQueueHandle {
             channel: self.channel.clone(),
             name: name.to_string(),
@@ -325,6 +307,39 @@ impl Connection for AMQPConnection {
 }
 
 impl AMQPQueueHandle {
+    /// Declare a queue for a single consumer of a broadcast, and bind it to the
+    /// exchange.
+    ///
+    /// Consumers can't share a queue, as the broker would deliver each message
+    /// to only one of them. The queue is deleted along with its consumer.
+    async fn declare_subscription(&self) -> Result<String> {
+        let queue = self
+            .channel
+            .queue_declare(
+                "", // Let the broker choose a unique name
+                lapin::options::QueueDeclareOptions {
+                    exclusive: true,
+                    auto_delete: true,
+                    ..Default::default()
+                },
+                self.options.into_declare_arguments(),
+            )
+            .await?;
+        let queue_name = queue.name().as_str();
+
+        self.channel
+            .queue_bind(
+                queue_name,
+                &self.name,
+                "", // Routing key is ignored in fanout exchanges
+                Default::default(),
+                Default::default(),
+            )
+            .await?;
+
+        Ok(queue_name.to_string())
+    }
+
     async fn publish_broadcast<PayloadTarget: Serializable>(
         &self,
         payload: &PayloadTarget,
@@ -483,10 +498,14 @@ impl QueueHandle for AMQPQueueHandle {
         &self,
         consumer_name: &str,
     ) -> Result<Self::Consumer<PayloadTarget>> {
+        let queue_name = match self.options.syndication_mode {
+            SyndicationMode::ExactlyOnce => self.name.clone(),
+            SyndicationMode::Broadcast => self.declare_subscription().await?,
+        };
         let consumer = self
             .channel
             .basic_consume(
-                &self.name,
+                &queue_name,
                 consumer_name,
                 Default::default(),
                 Default::default(),
-- 
2.43.0


From 0419dd9ef0e6b60bbea9875f9332d870d8162941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:45 +0000
Subject: [PATCH 16/21] fix: concurrent deletions of AMQP queues deadlock

The entry of the map of queue options was held on to while waiting for the
broker, such that another deletion blocked the thread that was to drive the
first.
---
 paladin-core/src/queue/amqp.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index b04f363..778ba91 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -50,7 +50,7 @@ use std::{
 
 use anyhow::Result;
 use async_trait::async_trait;
-use dashmap::{mapref::entry::Entry, DashMap};
+use dashmap::DashMap;
 use futures::Stream;
 use lapin::{options::QueueDeleteOptions, types::FieldTable, ExchangeKind};
 use pin_project::pin_project;
@@ -290,19 +290,17 @@ impl Connection for AMQPConnection {
     }
 
     async fn delete_queue(&self, name: &str) -> Result<()> {
-        match self.queue_options.entry(name.to_string()) {
-            Entry::Occupied(options) => {
-                match options.get().syndication_mode {
-                    SyndicationMode::ExactlyOnce => self.delete_single(name).await?,
-                    SyndicationMode::Broadcast => self.delete_broadcast(name).await?,
-                };
+        // Don't hold on to the map's entry while waiting for the broker, as that would
+        // block the threads of concurrent deletions.
+        let options = self.queue_options.get(name).map(|options| *options);
+        match options.map(|options| options.syndication_mode) {
+            Some(SyndicationMode::ExactlyOnce) => self.delete_single(name).await?,
+            Some(SyndicationMode::Broadcast) | None => self.delete_broadcast(name).await?,
+        };
 
-                options.remove();
+        self.queue_options.remove(name);
 
-                Ok(())
-            }
-            Entry::Vacant(_) => self.delete_broadcast(name).await,
-        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 2dd7235a0fda311291f672f5923f4a643e99c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 17/21] verif: more of the wrapped types' traits (cfg
 paladin_verif)

---
 paladin-core/src/verif.rs | 83 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 83 insertions(+)

diff --git a/paladin-core/src/verif.rs b/paladin-core/src/verif.rs
index e0196d6..a2d308d 100644
--- a/paladin-core/src/verif.rs
+++ b/paladin-core/src/verif.rs
@@ -39,6 +39,15 @@ macro_rules! wrapper {
     ($name:ident<$($param:ident),*>, $inner:ty) => {
         pub struct $name<$($param),*>($inner);
 
+        impl<$($param),*> std::fmt::Debug for $name<$($param),*>
+        where
+            $inner: std::fmt::Debug,
+        {
+            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                self.0.fmt(f)
+            }
+        }
+
         impl<$($param),*> Deref for $name<$($param),*> {
             type Target = $inner;
 
@@ -71,6 +80,12 @@ pub mod atomic {
                 }
             }
 
+            impl From<$value> for $name {
+                fn from(value: $value) -> Self {
+                    Self::new(value)
+                }
+            }
+
             impl $name {
                 pub const fn new(value: $value) -> Self {
                     Self(<$inner>::new(value))
@@ -152,6 +167,15 @@ impl<T> SegQueue<T> {
     }
 }
 
+impl<T> IntoIterator for SegQueue<T> {
+    type Item = T;
+    type IntoIter = <crossbeam::queue::SegQueue<T> as IntoIterator>::IntoIter;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.into_iter()
+    }
+}
+
 wrapper!(AtomicCell<T>, crossbeam::atomic::AtomicCell<T>);
 
 impl<T> AtomicCell<T> {
@@ -159,6 +183,20 @@ impl<T> AtomicCell<T> {
         Self(crossbeam::atomic::AtomicCell::new(value))
     }
 
+    pub fn store(&self, value: T) {
+        yield_point("atomic_cell.store");
+        self.0.store(value)
+    }
+
+    pub fn swap(&self, value: T) -> T {
+        yield_point("atomic_cell.swap");
+        self.0.swap(value)
+    }
+
+    pub fn into_inner(self) -> T {
+        self.0.into_inner()
+    }
+
     pub fn as_ptr(&self) -> *mut T {
         yield_point("atomic_cell.as_ptr");
         self.0.as_ptr()
@@ -172,6 +210,18 @@ impl<T: Default> AtomicCell<T> {
     }
 }
 
+impl<T: Default> Default for AtomicCell<T> {
+    fn default() -> Self {
+        Self::new(Default::default())
+    }
+}
+
+impl<T> From<T> for AtomicCell<T> {
+    fn from(value: T) -> Self {
+        Self::new(value)
+    }
+}
+
 wrapper!(SkipMap<K, V>, crossbeam_skiplist::SkipMap<K, V>);
 
 impl<K, V> SkipMap<K, V> {
@@ -180,7 +230,22 @@ impl<K, V> SkipMap<K, V> {
     }
 }
 
+impl<K, V> Default for SkipMap<K, V> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl<K: Ord, V> SkipMap<K, V> {
+    pub fn get<Q>(&self, key: &Q) -> Option<crossbeam_skiplist::map::Entry<'_, K, V>>
+    where
+        K: Borrow<Q>,
+        Q: Ord + ?Sized,
+    {
+        yield_point("skip_map.get");
+        self.0.get(key)
+    }
+
     pub fn range<Q, R>(&self, range: R) -> crossbeam_skiplist::map::Range<'_, Q, R, K, V>
     where
         K: Borrow<Q>,
@@ -208,6 +273,24 @@ impl<K: Ord + Send + 'static, V: Send + 'static> SkipMap<K, V> {
     }
 }
 
+impl<K, V> IntoIterator for SkipMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = crossbeam_skiplist::map::IntoIter<K, V>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.into_iter()
+    }
+}
+
+impl<'a, K: Ord, V> IntoIterator for &'a SkipMap<K, V> {
+    type Item = crossbeam_skiplist::map::Entry<'a, K, V>;
+    type IntoIter = crossbeam_skiplist::map::Iter<'a, K, V>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.0.iter()
+    }
+}
+
 impl<K: Ord, V> FromIterator<(K, V)> for SkipMap<K, V> {
     fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
         Self(iter.into_iter().collect())
-- 
2.43.0


From 4debdee8fb5e886f80a7f813e6442a3d8b8bda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:19 +0000
Subject: [PATCH 18/21] fix: background tasks of a worker outlive its main loop

The tasks that clear terminated jobs and listen for commands were only
aborted when the main loop ended by itself. When it was dropped instead,
such as by dropping a runtime with emulated workers, they kept running
forever, holding on to the connection and to the task being executed.
---
 paladin-core/src/runtime/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index d44de74..1e2c6f8 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -58,7 +58,11 @@ use anyhow::Result;
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::{stream::BoxStream, Stream, StreamExt};
 use serde::{Deserialize, Serialize};
-use tokio::{select, task::JoinHandle, try_join};
+use tokio::{
+    select,
+    task::{JoinHandle, JoinSet},
+    try_join,
+};
 use tracing::{debug, debug_span, error, instrument, trace, warn, Instrument};
 
 use self::dynamic_channel::{DynamicChannel, DynamicChannelFactory};
@@ -694,8 +698,12 @@ impl WorkerRuntime {
         // them.
         let terminated_jobs: Arc<DashMap<String, Instant>> = Default::default();
 
+        // The tasks that support the main loop. They are aborted as soon as it ends,
+        // including when it is dropped.
+        let mut background_tasks = JoinSet::new();
+
         // Spawn a task that will periodically clear the terminated jobs map.
-        let reaper = tokio::spawn({
+        background_tasks.spawn({
             let terminated_jobs = terminated_jobs.clone();
             async move {
                 loop {
@@ -714,7 +722,7 @@ impl WorkerRuntime {
         // Spawn a task that will listen for IPC termination signals and mark jobs as
         // terminated.
         let mut command_receiver = self.get_command_ipc_receiver().await?;
-        let remote_command_sig_term_handler = tokio::spawn({
+        background_tasks.spawn({
             let terminated_jobs = terminated_jobs.clone();
 
             async move {
@@ -839,9 +847,6 @@ impl WorkerRuntime {
             }
         }
 
-        remote_command_sig_term_handler.abort();
-        reaper.abort();
-
         Ok(())
     }
 }
-- 
2.43.0


From 5fd79cca56b81af5a8cf53ef695ae6dec45b16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 19/21] verif: take the times of aborted jobs from the tokio
 clock under cfg(paladin_verif)

---
 paladin-core/src/runtime/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 1e2c6f8..9e0bd66 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -49,15 +49,16 @@
 //! channels.
 
 use std::sync::atomic::Ordering;
-use std::{
-    sync::Arc,
-    time::{Duration, Instant},
-};
+#[cfg(not(paladin_verif))]
+use std::time::Instant;
+use std::{sync::Arc, time::Duration};
 
 use anyhow::Result;
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::{stream::BoxStream, Stream, StreamExt};
 use serde::{Deserialize, Serialize};
+#[cfg(paladin_verif)]
+use tokio::time::Instant;
 use tokio::{
     select,
     task::{JoinHandle, JoinSet},
-- 
2.43.0


From 4b9e0a7159a12a73e5b4a4b4ceba8a85703eab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 20/21] fix: aborting a job again renews the time its tasks are
 discarded

---
 paladin-core/src/runtime/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 9e0bd66..8876679 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -750,11 +750,17 @@ impl WorkerRuntime {
             terminated_jobs: &DashMap<String, Instant>,
             routing_key: String,
         ) -> bool {
-            if let Entry::Vacant(entry) = terminated_jobs.entry(routing_key.clone()) {
-                entry.insert(Instant::now());
-                return true;
+            match terminated_jobs.entry(routing_key) {
+                Entry::Vacant(entry) => {
+                    entry.insert(Instant::now());
+                    true
+                }
+                // The time to keep track of the job starts over.
+                Entry::Occupied(mut entry) => {
+                    entry.insert(Instant::now());
+                    false
+                }
             }
-            false
         }
 
         while let Some((payload, acker)) = task_stream.next().await {
-- 
2.43.0


From 181b63d153842ad5152494f47dcb625e291d9c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 21/21] fix: an idle worker forgets about an abort of all work
 after a minute

---
 paladin-core/src/runtime/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 8876679..b784338 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -708,7 +708,11 @@ impl WorkerRuntime {
             let terminated_jobs = terminated_jobs.clone();
             async move {
                 loop {
-                    terminated_jobs.retain(|_, v| v.elapsed() < TERMINATION_CLEAR_INTERVAL);
+                    // Aborting all work is final.
+                    terminated_jobs.retain(|routing_key, v| {
+                        routing_key == COMMAND_IPC_ABORT_ALL_KEY
+                            || v.elapsed() < TERMINATION_CLEAR_INTERVAL
+                    });
                     tokio::time::sleep(TERMINATION_CLEAR_INTERVAL).await;
                 }
             }
-- 
2.43.0

