From 32fa054ae6de85836261739528aa93fa0ee6d11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 01/14] verif hook: route std/core through a stand-in under
 cfg(orx_concurrent_iter_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 32238c4..6762a84 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -331,6 +331,7 @@
 //!
 //! This library is licensed under MIT license. See LICENSE for details.
 
+#![allow(unexpected_cfgs)]
 #![warn(
     missing_docs,
     clippy::unwrap_in_result,
@@ -343,6 +344,13 @@
     clippy::todo
 )]
 
+// Verification hook: with `--cfg orx_concurrent_iter_verif`, `std` and `core` resolve to a stand-in
+// whose synchronization primitives report to a deterministic scheduler; otherwise nothing changes.
+#[cfg(orx_concurrent_iter_verif)]
+extern crate orx_verif_std as core;
+#[cfg(orx_concurrent_iter_verif)]
+extern crate orx_verif_std as std;
+
 mod has_more;
 /// Module defining concurrent iterator traits and implementations.
 pub mod iter;
-- 
2.43.0


From 97c5e00b6c7cff78dc5f572434a085cc9e1f1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 02/14] fix: read the counters with acquire ordering

A pull on ConIterOfIter enters the wrapped iterator once the yielded counter
has reached its ticket. With a relaxed load nothing ordered that use after the
previous thread's use of the same non-atomic state: a data race.
---
 src/iter/atomic_counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index fa0b710..5c7d984 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -27,7 +27,7 @@ impl AtomicCounter {
     /// Fetches and returns the current value of the counter.
     #[inline(always)]
     pub fn current(&self) -> usize {
-        self.current.load(Ordering::Relaxed)
+        self.current.load(Ordering::Acquire)
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
-- 
2.43.0


From c0f9f1673b990df1c2d32b2459105c5c7dcca216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 03/14] fix: saturate the counter instead of wrapping around

Pulls keep advancing the counter after the end, skip_to_end of a wrapped
iterator stores usize::MAX and a chunk may be as large as usize::MAX. A counter
that wraps hands out positions again: elements were revived after the end or
after a skip, and elements of vectors and arrays were moved out twice.
---
 src/iter/atomic_counter.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 5c7d984..e7518f1 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -13,15 +13,30 @@ impl AtomicCounter {
     }
 
     /// Fetches and returns the current value of the counter, and adds `len` to it.
+    ///
+    /// The counter saturates at `usize::MAX`; it never wraps around to values that it has already passed.
     #[inline(always)]
     pub fn fetch_and_add(&self, len: usize) -> usize {
-        self.current.fetch_add(len, Ordering::AcqRel)
+        let mut current = self.current.load(Ordering::Acquire);
+        loop {
+            match self.current.compare_exchange_weak(
+                current,
+                current.saturating_add(len),
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(previous) => return previous,
+                Err(actual) => current = actual,
+            }
+        }
     }
 
     /// Fetches and returns the current value of the counter, and adds `1` to it.
+    ///
+    /// The counter saturates at `usize::MAX`; it never wraps around to values that it has already passed.
     #[inline(always)]
     pub fn fetch_and_increment(&self) -> usize {
-        self.current.fetch_add(1, Ordering::AcqRel)
+        self.fetch_and_add(1)
     }
 
     /// Fetches and returns the current value of the counter.
-- 
2.43.0


From ddcf174a9ee965a30f30af264be1c01fa004203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 04/14] fix: the end of a wrapped iterator is permanent

A chunk cut short by the end of the wrapped iterator did not mark the iteration
as completed, and a ticket that became due later advanced the wrapped iterator
again: elements of a non-fused iterator appeared after the end, and has_more
answered Maybe after it. Completion is now recorded before the next ticket is
served, and a due ticket checks it.
---
 src/iter/buffered/iter.rs     |  5 +++++
 src/iter/implementors/iter.rs | 27 ++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index c7830f5..962ae91 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -50,6 +50,11 @@ where
             }
         }
 
+        if i < self.chunk_size() {
+            // must be visible before the next ticket is served
+            iter.complete();
+        }
+
         let older_count = iter.progress_yielded_counter(self.chunk_size());
         assert_eq!(older_count, begin_idx);
 
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 2ccf8cb..b334686 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -62,6 +62,12 @@ where
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
     }
+
+    /// Marks that the wrapped iterator has reported its end, it must not be advanced any more.
+    #[inline(always)]
+    pub(crate) fn complete(&self) {
+        self.completed.store(true, atomic::Ordering::SeqCst);
+    }
 }
 
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
@@ -89,8 +95,11 @@ where
         loop {
             let yielded_count = self.yielded_counter.current();
             match begin_idx.cmp(&yielded_count) {
-                // begin_idx==yielded_count => it is our job to provide the items
-                Ordering::Equal => return Some(begin_idx),
+                // begin_idx==yielded_count => it is our job to provide the items, unless the iteration has completed
+                Ordering::Equal => match self.completed.load(atomic::Ordering::Relaxed) {
+                    true => return None,
+                    false => return Some(begin_idx),
+                },
 
                 Ordering::Less => return None,
 
@@ -110,6 +119,11 @@ where
             match item_idx.cmp(&yielded_count) {
                 // item_idx==yielded_count => it is our job to provide the item
                 Ordering::Equal => {
+                    // no element may follow once the iteration has completed
+                    if self.completed.load(atomic::Ordering::Relaxed) {
+                        return None;
+                    }
+
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
                     let next = unsafe { self.mut_iter() }.next();
                     match next.is_some() {
@@ -137,16 +151,19 @@ where
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-            let end_idx = begin_idx + n;
-            let buffer = (begin_idx..end_idx)
+            let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
 
+            if buffer.len() < n {
+                // must be visible before the next ticket is served
+                self.complete();
+            }
+
             match buffer.len() {
                 0 => {
-                    self.completed.store(true, atomic::Ordering::SeqCst);
                     let older_count = self.progress_yielded_counter(n);
                     assert_eq!(older_count, begin_idx);
                     None
-- 
2.43.0


From 24fe0d726ad82833b43c98df494c6d04ad706c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 05/14] fix: a chunk pull of size zero leaves a wrapped
 iterator unchanged

It delivered nothing but marked the iteration as completed, which dropped all
remaining elements.
---
 src/iter/implementors/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index b334686..8175fd5 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -148,6 +148,10 @@ where
     }
 
     fn fetch_n(&self, n: usize) -> Option<NextChunk<T, impl ExactSizeIterator<Item = T>>> {
+        if n == 0 {
+            return None;
+        }
+
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-- 
2.43.0


From bec54a4bbd48b09a43573b30225827f4bb6a5950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 06/14] fix: a panic in the wrapped iterator does not hang the
 other threads

The panicking pull never served its ticket, and every other pull waited for it
forever. The iteration is now completed when next() unwinds.
---
 src/iter/buffered/iter.rs     |  2 ++
 src/iter/implementors/iter.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 962ae91..990d616 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -37,6 +37,7 @@ where
     ) -> Option<impl ExactSizeIterator<Item = T>> {
         let core_iter = unsafe { iter.mut_iter() };
 
+        let guard = iter.complete_on_unwind();
         let mut i = 0;
         loop {
             match core_iter.next() {
@@ -49,6 +50,7 @@ where
                 break;
             }
         }
+        guard.disarm();
 
         if i < self.chunk_size() {
             // must be visible before the next ticket is served
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 8175fd5..a8ab1e5 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -63,6 +63,12 @@ where
         self.yielded_counter.fetch_and_add(num_yielded)
     }
 
+    /// Creates the guard which must be armed while the wrapped iterator is advanced.
+    #[inline(always)]
+    pub(crate) fn complete_on_unwind(&self) -> CompleteOnUnwind<'_> {
+        CompleteOnUnwind(&self.completed)
+    }
+
     /// Marks that the wrapped iterator has reported its end, it must not be advanced any more.
     #[inline(always)]
     pub(crate) fn complete(&self) {
@@ -70,6 +76,22 @@ where
     }
 }
 
+/// Marks the iteration as completed when dropped; i.e., when the wrapped iterator panics.
+/// The ticket of the panicking pull will not be served; others must not wait for it.
+pub(crate) struct CompleteOnUnwind<'a>(&'a AtomicBool);
+
+impl CompleteOnUnwind<'_> {
+    pub(crate) fn disarm(self) {
+        std::mem::forget(self);
+    }
+}
+
+impl Drop for CompleteOnUnwind<'_> {
+    fn drop(&mut self) {
+        self.0.store(true, atomic::Ordering::SeqCst);
+    }
+}
+
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
 where
     Iter: Iterator<Item = T>,
@@ -125,7 +147,9 @@ where
                     }
 
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
+                    let guard = self.complete_on_unwind();
                     let next = unsafe { self.mut_iter() }.next();
+                    guard.disarm();
                     match next.is_some() {
                         true => {
                             _ = self.yielded_counter.fetch_and_increment();
@@ -155,11 +179,13 @@ where
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
+            let guard = self.complete_on_unwind();
             let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
+            guard.disarm();
 
             if buffer.len() < n {
                 // must be visible before the next ticket is served
-- 
2.43.0


From 93777102e32b775bc007711f68314999d32dd305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 07/14] fix: size_hint of buffered chunks of a wrapped iterator

ExactSizeIterator requires size_hint to agree with len; the default (0, None)
makes rposition, zip(..).len() and others panic or misbehave.
---
 src/iter/buffered/iter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 990d616..542466c 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -98,6 +98,12 @@ impl<'a, T> Iterator for BufferedIter<'a, T> {
             None
         }
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> ExactSizeIterator for BufferedIter<'a, T> {
-- 
2.43.0


From e88068af58814aeb8a1d6dc18e2153e2d076d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 08/14] fix: buffered iterators over a wrapped iterator accept
 any chunk size

The buffer was allocated up front, so that a chunk size near usize::MAX
panicked with a capacity overflow. It now grows with the elements.
---
 src/iter/buffered/iter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 542466c..dce1cd1 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -8,6 +8,7 @@ where
     T: Send + Sync,
     Iter: Iterator<Item = T>,
 {
+    chunk_size: usize,
     values: Vec<Option<T>>,
     phantom: PhantomData<Iter>,
 }
@@ -21,13 +22,14 @@ where
 
     fn new(chunk_size: usize) -> Self {
         Self {
-            values: (0..chunk_size).map(|_| None).collect(),
+            chunk_size,
+            values: Vec::new(),
             phantom: PhantomData,
         }
     }
 
     fn chunk_size(&self) -> usize {
-        self.values.len()
+        self.chunk_size
     }
 
     fn pull(
@@ -41,7 +43,10 @@ where
         let mut i = 0;
         loop {
             match core_iter.next() {
-                Some(x) => self.values[i] = Some(x),
+                Some(x) => match self.values.get_mut(i) {
+                    Some(slot) => *slot = Some(x),
+                    None => self.values.push(Some(x)),
+                },
                 None => break,
             }
 
-- 
2.43.0


From 93bb87e52befe19a94ff21047665e3293cd3ec66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 09/14] fix: boundary arithmetic of ranges

Pulls near the largest index overflowed start + index and begin + chunk size:
they delivered wrapped-around values, or panicked with overflow checks.
Converting an exhausted or an inverted range back gave out-of-range values. All
arithmetic is now on indices, bounded by the length of the range.
---
 src/iter/buffered/range.rs     | 10 ++++++----
 src/iter/implementors/range.rs | 18 +++++++-----------
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 8d6fee0..e3fa639 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -1,5 +1,5 @@
 use super::buffered_chunk::BufferedChunk;
-use crate::ConIterOfRange;
+use crate::{iter::atomic_iter::AtomicIterWithInitialLen, ConIterOfRange};
 use std::{
     cmp::Ordering,
     ops::{Add, Range, Sub},
@@ -38,10 +38,12 @@ where
         begin_idx: usize,
     ) -> Option<impl ExactSizeIterator<Item = Idx>> {
         let range = iter.range();
-        let begin_value = begin_idx + range.start.into();
-        match begin_value.cmp(&range.end.into()) {
+        let initial_len = iter.initial_len();
+        match begin_idx.cmp(&initial_len) {
             Ordering::Less => {
-                let end_value = (begin_value + self.chunk_size).min(range.end.into());
+                let end_idx = begin_idx.saturating_add(self.chunk_size).min(initial_len);
+                let begin_value = begin_idx + range.start.into();
+                let end_value = end_idx + range.start.into();
                 let values = (begin_value..end_value).map(Idx::from);
                 Some(values)
             }
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 6839d66..3c43710 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -105,9 +105,8 @@ where
     }
 
     fn get(&self, item_idx: usize) -> Option<Idx> {
-        let value = self.range.start + item_idx.into();
-        match value.cmp(&self.range.end) {
-            Ordering::Less => Some(value),
+        match item_idx.cmp(&self.initial_len()) {
+            Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
         }
     }
@@ -117,16 +116,13 @@ where
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let begin_value = begin_idx + self.range.start.into();
-        let end_value = match begin_value.cmp(&self.range.end.into()) {
-            Ordering::Less => (begin_value + n).min(self.range.end.into()),
-            _ => begin_value,
-        };
-        let end_idx: usize = end_value - self.range.start.into();
+        let end_idx = begin_idx.saturating_add(n).min(self.initial_len());
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
             _ => {
+                let begin_value = begin_idx + self.range.start.into();
+                let end_value = end_idx + self.range.start.into();
                 let values = (begin_value..end_value).map(Idx::from);
                 Some(NextChunk { begin_idx, values })
             }
@@ -134,7 +130,7 @@ where
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.range.end.into())
+        self.counter().store(self.initial_len())
     }
 }
 
@@ -243,7 +239,7 @@ where
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
+        let current = self.counter().current().min(self.initial_len());
         (self.range.start + current.into())..self.range.end
     }
 
-- 
2.43.0


From ed7d61bd18f1f20e5c673c00acee3b5bbe3da692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 10/14] fix: end of chunks with extreme sizes over slices,
 vectors and arrays

begin + chunk size overflowed: an empty answer or a bad slice in optimized
builds, a panic with overflow checks.
---
 src/iter/buffered/slice.rs     | 3 ++-
 src/iter/implementors/array.rs | 4 ++--
 src/iter/implementors/slice.rs | 2 +-
 src/iter/implementors/vec.rs   | 4 ++--
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 8bed6e8..859989b 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -32,7 +32,8 @@ where
         let slice = iter.as_slice();
         match begin_idx.cmp(&slice.len()) {
             Ordering::Less => {
-                let end_idx = (begin_idx + self.chunk_size)
+                let end_idx = begin_idx
+                    .saturating_add(self.chunk_size)
                     .min(slice.len())
                     .max(begin_idx);
                 let values = slice[begin_idx..end_idx].iter();
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 21a7a6d..f9b4b72 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -56,7 +56,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let array = &mut *self.array.get();
-        let end_idx = (begin_idx + len).min(array.len());
+        let end_idx = begin_idx.saturating_add(len).min(array.len());
         let len = end_idx - begin_idx;
 
         let ptr = array.as_mut_ptr().add(begin_idx);
@@ -113,7 +113,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(N).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(N).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 523007c..0c669e2 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -74,7 +74,7 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(self.initial_len()).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 333774b..d293f4e 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -56,7 +56,7 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let vec = &mut *self.vec.get();
-        let end_idx = (begin_idx + len).min(vec.len());
+        let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
@@ -109,7 +109,7 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(self.initial_len()).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
-- 
2.43.0


From 6671ec2137a5e7b42ad409bbc773839e8dd146d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 11/14] fix: release skipped elements and the buffer of a
 consumed vector

---
 src/iter/atomic_counter.rs   |  6 ++++++
 src/iter/implementors/vec.rs | 25 +++++++++++++++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index e7518f1..51937ce 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -45,6 +45,12 @@ impl AtomicCounter {
         self.current.load(Ordering::Acquire)
     }
 
+    /// Updates the value of the counter as the given `new_value`, and returns its previous value.
+    #[inline(always)]
+    pub(crate) fn swap(&self, new_value: usize) -> usize {
+        self.current.swap(new_value, Ordering::SeqCst)
+    }
+
     /// Updates the value of the current value of the counter as the given `new_value`.
     #[inline(always)]
     pub fn store(&self, new_value: usize) {
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index d293f4e..51cebfa 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -22,10 +22,8 @@ pub struct ConIterOfVec<T: Send + Sync> {
 
 impl<T: Send + Sync> Drop for ConIterOfVec<T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= self.vec_len {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let current = self.counter().current().min(self.vec_len);
+        let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
     }
 }
 
@@ -64,13 +62,18 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         vec.into_iter()
     }
 
+    /// Takes the remaining elements starting from `left_len` out, and releases the buffer of the vector.
+    ///
+    /// # Safety
+    ///
+    /// All elements before `left_len` must have been taken out, and the vector must not be accessed afterwards.
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
         debug_assert!(left_len <= self.vec_len);
 
         let man_vec = &mut *self.vec.get();
         let mut left_vec: Vec<T> = ManuallyDrop::take(man_vec);
         let right_vec = left_vec.split_off(left_len);
-        *man_vec = ManuallyDrop::new(left_vec);
+        left_vec.set_len(0);
         right_vec
     }
 }
@@ -121,7 +124,11 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.vec_len)
+        // elements which are skipped will not be pulled by anyone
+        let current = self.counter().swap(self.vec_len);
+        if current < self.vec_len {
+            let _skipped = unsafe { self.take_slice(current, self.vec_len - current) };
+        }
     }
 }
 
@@ -178,8 +185,10 @@ impl<T: Send + Sync> ConcurrentIter for ConIterOfVec<T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(self.vec_len)) };
+        // vector is taken out here, it must not be taken once more on drop
+        let con_iter = ManuallyDrop::new(self);
+        let current = con_iter.counter().current();
+        let remaining_vec = unsafe { con_iter.split_off_right(current.min(con_iter.vec_len)) };
         remaining_vec.into_iter()
     }
 
-- 
2.43.0


From 42656ae1a9b28a77d2a47dbfce112c13ddba63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 12/14] fix: own the elements of a consumed array exactly once

---
 src/iter/implementors/array.rs | 35 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index f9b4b72..32e6d8a 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -23,10 +23,8 @@ pub struct ConIterOfArray<const N: usize, T: Send + Sync> {
 
 impl<const N: usize, T: Send + Sync> Drop for ConIterOfArray<N, T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= N {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let current = self.counter().current().min(N);
+        let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
     }
 }
 
@@ -64,16 +62,21 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         vec.into_iter()
     }
 
+    /// Moves the remaining elements starting from `left_len` out.
+    ///
+    /// # Safety
+    ///
+    /// All elements before `left_len` must have been taken out, and the array must not be accessed afterwards.
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
         debug_assert!(left_len <= N);
 
-        let man_array = &mut *self.array.get();
-        let mut array = ManuallyDrop::take(man_array);
-
-        let mut vec = Vec::from_raw_parts(array.as_mut_ptr(), N, 0);
-        let right_vec = vec.split_off(left_len);
+        let array = &mut *self.array.get();
+        let right_len = N - left_len;
 
-        *man_array = ManuallyDrop::new(array);
+        let mut right_vec = Vec::with_capacity(right_len);
+        let right_ptr = array.as_ptr().add(left_len);
+        std::ptr::copy_nonoverlapping(right_ptr, right_vec.as_mut_ptr(), right_len);
+        right_vec.set_len(right_len);
         right_vec
     }
 }
@@ -125,7 +128,11 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(N)
+        // elements which are skipped will not be pulled by anyone
+        let current = self.counter().swap(N);
+        if current < N {
+            let _skipped = unsafe { self.take_slice(current, N - current) };
+        }
     }
 }
 
@@ -185,8 +192,10 @@ impl<const N: usize, T: Send + Sync> ConcurrentIter for ConIterOfArray<N, T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(N)) };
+        // remaining elements are moved out here, they must not be moved once more on drop
+        let con_iter = ManuallyDrop::new(self);
+        let current = con_iter.counter().current();
+        let remaining_vec = unsafe { con_iter.split_off_right(current.min(N)) };
         remaining_vec.into_iter()
     }
 
-- 
2.43.0


From ae3fcaaa2b42c00c9426a76869a9d23a099d18ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 13/14] fix: chunks of a consumed vector or array do not pose
 as vectors

---
 src/iter/implementors/array.rs       | 19 +++++++-----
 src/iter/implementors/mod.rs         |  1 +
 src/iter/implementors/taken_slice.rs | 45 ++++++++++++++++++++++++++++
 src/iter/implementors/vec.rs         | 19 +++++++-----
 4 files changed, 68 insertions(+), 16 deletions(-)
 create mode 100644 src/iter/implementors/taken_slice.rs

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 32e6d8a..88102b2 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -4,6 +4,7 @@ use crate::{
         buffered::{
             array::BufferedArray, buffered_chunk::BufferedChunk, buffered_iter::BufferedIter,
         },
+        implementors::taken_slice::TakenSlice,
     },
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
@@ -37,9 +38,13 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         }
     }
 
+    /// Pointer to the first element, obtained without creating an exclusive reference to the shared array.
+    fn as_mut_ptr(&self) -> *mut T {
+        self.array.get().cast::<T>()
+    }
+
     unsafe fn take_one(&self, item_idx: usize) -> T {
-        let array = &mut *self.array.get();
-        let src_ptr = array.as_mut_ptr().add(item_idx);
+        let src_ptr = self.as_mut_ptr().add(item_idx);
 
         let mut value = MaybeUninit::<T>::uninit();
         let dst_ptr = value.as_mut_ptr();
@@ -52,14 +57,12 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
-        let array = &mut *self.array.get();
-        let end_idx = begin_idx.saturating_add(len).min(array.len());
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
+        let end_idx = begin_idx.saturating_add(len).min(N);
         let len = end_idx - begin_idx;
 
-        let ptr = array.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        let ptr = self.as_mut_ptr().add(begin_idx);
+        TakenSlice::new(ptr, len)
     }
 
     /// Moves the remaining elements starting from `left_len` out.
diff --git a/src/iter/implementors/mod.rs b/src/iter/implementors/mod.rs
index c6dc775..7f49a25 100644
--- a/src/iter/implementors/mod.rs
+++ b/src/iter/implementors/mod.rs
@@ -2,4 +2,5 @@ pub mod array;
 pub mod iter;
 pub mod range;
 pub mod slice;
+mod taken_slice;
 pub mod vec;
diff --git a/src/iter/implementors/taken_slice.rs b/src/iter/implementors/taken_slice.rs
new file mode 100644
index 0000000..210638b
--- /dev/null
+++ b/src/iter/implementors/taken_slice.rs
@@ -0,0 +1,45 @@
+use std::{mem::MaybeUninit, slice};
+
+/// Iterator over the elements of a slice which are already taken out of their collection.
+///
+/// It owns the elements, but not the memory that they live in.
+/// Elements which are not consumed are dropped together with the iterator.
+pub(crate) struct TakenSlice<'a, T>(slice::IterMut<'a, MaybeUninit<T>>);
+
+impl<T> TakenSlice<'_, T> {
+    /// Creates an iterator over `len` elements starting at `ptr`.
+    ///
+    /// # Safety
+    ///
+    /// `ptr` must point to `len` initialized elements.
+    /// These elements must not be accessed by any other means during or after the lifetime of the created iterator.
+    pub(crate) unsafe fn new(ptr: *mut T, len: usize) -> Self {
+        Self(slice::from_raw_parts_mut(ptr.cast(), len).iter_mut())
+    }
+}
+
+impl<T> Iterator for TakenSlice<'_, T> {
+    type Item = T;
+
+    #[inline(always)]
+    fn next(&mut self) -> Option<T> {
+        // SAFETY: each element is initialized and visited exactly once
+        self.0.next().map(|x| unsafe { x.assume_init_read() })
+    }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
+}
+
+impl<T> ExactSizeIterator for TakenSlice<'_, T> {}
+
+impl<T> Drop for TakenSlice<'_, T> {
+    fn drop(&mut self) {
+        let remaining = std::mem::take(&mut self.0).into_slice();
+        let remaining: *mut [MaybeUninit<T>] = remaining;
+        // SAFETY: elements which are not yet visited are initialized
+        unsafe { std::ptr::drop_in_place(remaining as *mut [T]) };
+    }
+}
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 51cebfa..0ecf844 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -2,6 +2,7 @@ use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
         buffered::{buffered_chunk::BufferedChunk, buffered_iter::BufferedIter, vec::BufferedVec},
+        implementors::taken_slice::TakenSlice,
     },
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
@@ -37,9 +38,13 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         }
     }
 
+    /// Pointer to the first element, obtained without creating an exclusive reference to the shared vec.
+    fn as_mut_ptr(&self) -> *mut T {
+        unsafe { (*self.vec.get()).as_ptr().cast_mut() }
+    }
+
     unsafe fn take_one(&self, item_idx: usize) -> T {
-        let vec = &mut *self.vec.get();
-        let src_ptr = vec.as_mut_ptr().add(item_idx);
+        let src_ptr = self.as_mut_ptr().add(item_idx);
 
         let mut value = MaybeUninit::<T>::uninit();
         let dst_ptr = value.as_mut_ptr();
@@ -52,14 +57,12 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
-        let vec = &mut *self.vec.get();
-        let end_idx = begin_idx.saturating_add(len).min(vec.len());
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
+        let end_idx = begin_idx.saturating_add(len).min(self.vec_len);
         let len = end_idx - begin_idx;
 
-        let ptr = vec.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        let ptr = self.as_mut_ptr().add(begin_idx);
+        TakenSlice::new(ptr, len)
     }
 
     /// Takes the remaining elements starting from `left_len` out, and releases the buffer of the vector.
-- 
2.43.0


From 82b4f9a15079c9667746a975175405fb1f8a3df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 14/14] fix: safe calls cannot get an element of an atomic
 iterator twice

---
 src/iter/atomic_counter.rs     |  2 +-
 src/iter/atomic_iter.rs        | 10 ++++++++--
 src/iter/cloned.rs             |  2 +-
 src/iter/copied.rs             |  2 +-
 src/iter/implementors/array.rs |  2 +-
 src/iter/implementors/iter.rs  |  2 +-
 src/iter/implementors/range.rs |  2 +-
 src/iter/implementors/slice.rs |  2 +-
 src/iter/implementors/vec.rs   |  2 +-
 9 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 51937ce..29e153a 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -53,7 +53,7 @@ impl AtomicCounter {
 
     /// Updates the value of the current value of the counter as the given `new_value`.
     #[inline(always)]
-    pub fn store(&self, new_value: usize) {
+    pub(crate) fn store(&self, new_value: usize) {
         self.current.store(new_value, Ordering::SeqCst)
     }
 }
diff --git a/src/iter/atomic_iter.rs b/src/iter/atomic_iter.rs
index 8ddef85..bd638ae 100644
--- a/src/iter/atomic_iter.rs
+++ b/src/iter/atomic_iter.rs
@@ -15,13 +15,19 @@ pub trait AtomicIter<T: Send + Sync>: Send + Sync {
     fn progress_and_get_begin_idx(&self, number_to_fetch: usize) -> Option<usize>;
 
     /// Returns the `item_idx`-th item that the iterator yields; returns None if the iterator completes before.
-    fn get(&self, item_idx: usize) -> Option<T>;
+    ///
+    /// # Safety
+    ///
+    /// The caller must have reserved the `item_idx`-th item by progressing the counter, and must get it at most once.
+    /// Otherwise, an iterator which owns its elements might hand over an element twice.
+    unsafe fn get(&self, item_idx: usize) -> Option<T>;
 
     /// Returns the next item that the iterator yields; returns None if the iteration has completed.
     #[inline(always)]
     fn fetch_one(&self) -> Option<Next<T>> {
         let idx = self.counter().fetch_and_increment();
-        self.get(idx).map(|value| Next { idx, value })
+        // SAFETY: idx is reserved only for this call
+        unsafe { self.get(idx) }.map(|value| Next { idx, value })
     }
 
     /// Returns an iterator of the next `n` **consecutive items** that the iterator yields.
diff --git a/src/iter/cloned.rs b/src/iter/cloned.rs
index 4977889..73195c8 100644
--- a/src/iter/cloned.rs
+++ b/src/iter/cloned.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).cloned()
     }
 
diff --git a/src/iter/copied.rs b/src/iter/copied.rs
index 35f7841..95d0db5 100644
--- a/src/iter/copied.rs
+++ b/src/iter/copied.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).copied()
     }
 
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 88102b2..e3600f5 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -106,7 +106,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&N) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index a8ab1e5..65184ff 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -135,7 +135,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         loop {
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 3c43710..bd565e9 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -104,7 +104,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<Idx> {
+    unsafe fn get(&self, item_idx: usize) -> Option<Idx> {
         match item_idx.cmp(&self.initial_len()) {
             Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 0c669e2..3bdfa03 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -65,7 +65,7 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<&'a T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<&'a T> {
         self.slice.get(item_idx)
     }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 0ecf844..2e5e692 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -103,7 +103,7 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&self.vec_len) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
-- 
2.43.0

