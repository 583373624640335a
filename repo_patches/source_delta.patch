From fcbea8f0d6e09e6a28ac7f6142b52975a36aa77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 01/11] fix: count elements which are being accessed in len

An element held by another thread was treated as not pushed yet, hence
len, get, iter, swap, etc. missed completed pushes.
---
 src/vec.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 10606d6..dda49d9 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -3,6 +3,7 @@ use crate::ConcurrentSlice;
 use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
+use orx_concurrent_option::State;
 use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -128,9 +129,10 @@ where
         let iter = unsafe { self.core.iter_over_range(len..until) };
         let mut num_pushed = 0;
         for x in iter {
-            match x.0.is_some_with_order(Ordering::Relaxed) {
-                true => num_pushed += 1,
-                false => break,
+            // an element in reserved state is already pushed, it is currently being accessed
+            match x.0.state(Ordering::Relaxed) {
+                State::None => break,
+                State::Some | State::Reserved => num_pushed += 1,
             }
         }
         let new_len = len + num_pushed;
-- 
2.43.0


From fdf192358dff4ef9d54a8153f97b18bd1970bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 02/11] fix: reference and raw pointer accessors skip elements
 which are being accessed

Wait for the handle as get_mut and iter_mut do, rather than reporting a
completed element as missing.
---
 src/concurrent_slice/unsafe_api.rs | 3 +--
 src/unsafe_api.rs                  | 9 ++++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/concurrent_slice/unsafe_api.rs b/src/concurrent_slice/unsafe_api.rs
index 8aefdc2..7174c68 100644
--- a/src/concurrent_slice/unsafe_api.rs
+++ b/src/concurrent_slice/unsafe_api.rs
@@ -1,6 +1,5 @@
 use super::ConcurrentSlice;
 use crate::ConcurrentElement;
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<'a, T, P> ConcurrentSlice<'a, T, P>
@@ -255,7 +254,7 @@ where
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let b = self.a + self.len;
         unsafe { self.vec.core.iter_over_range(self.a..b) }
-            .flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+            .flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
diff --git a/src/unsafe_api.rs b/src/unsafe_api.rs
index 24c4f29..3273081 100644
--- a/src/unsafe_api.rs
+++ b/src/unsafe_api.rs
@@ -1,5 +1,4 @@
 use crate::{ConcurrentElement, ConcurrentVec};
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -43,7 +42,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw())
             }
             false => None,
         }
@@ -159,7 +158,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = self.core.get(i);
-                maybe.and_then(|x| x.0.as_ref_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.as_ref())
             }
             false => None,
         }
@@ -270,7 +269,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let x = self.core.iter(self.reserved_len());
-        x.flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        x.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
@@ -308,7 +307,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_mut_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw_mut())
             }
             false => None,
         }
-- 
2.43.0


From 51936065f2cf3c748152912a31c80d567eea5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 03/11] fix: hold the elements while comparing them

Comparison of two elements read the values without synchronization,
which is a data race with concurrent updates.
---
 src/common_traits/eq.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common_traits/eq.rs b/src/common_traits/eq.rs
index 37db614..a456a4e 100644
--- a/src/common_traits/eq.rs
+++ b/src/common_traits/eq.rs
@@ -1,10 +1,17 @@
 use crate::{ConcurrentElement, ConcurrentSlice, ConcurrentVec};
+use core::cmp::Ordering;
 
 // elem
 impl<T: PartialEq> PartialEq for ConcurrentElement<T> {
     #[inline]
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        // values are only read while the elements are held;
+        // two elements are always held in the order of their addresses so that threads do not wait for each other
+        match (self as *const Self).cmp(&(other as *const Self)) {
+            Ordering::Equal => self.map(|x| x.eq(x)),
+            Ordering::Less => self.map(|x| other.map(|y| x == y)),
+            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
+        }
     }
 }
 
-- 
2.43.0


From a8f6443d933c316275bee24b3dd3bc786891a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 04/11] fix: swap never waits for itself or for another swap

swap(i, i) waited forever for the handle it already held, and swap(i, j)
with a concurrent swap(j, i) could wait for each other forever.
---
 src/helpers.rs  | 18 ------------------
 src/mut_elem.rs | 28 +++++++++++++++++++++-------
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 478fb4f..5d69cb2 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,6 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
 use core::sync::atomic::AtomicUsize;
-use orx_concurrent_option::{MutHandle, StateU8};
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 use orx_split_vec::{Doubling, SplitVec};
 
@@ -19,21 +18,4 @@ where
     pub(crate) fn len_written(&self) -> &AtomicUsize {
         &self.core.state().len_written
     }
-
-    #[inline(always)]
-    pub(crate) unsafe fn mut_handle(
-        &self,
-        i: usize,
-        initial_state: StateU8,
-        success_state: StateU8,
-    ) -> Option<MutHandle<T>> {
-        match i < self.len() {
-            true => unsafe {
-                self.core
-                    .get(i)
-                    .and_then(|e| e.0.mut_handle(initial_state, success_state))
-            },
-            false => None,
-        }
-    }
 }
diff --git a/src/mut_elem.rs b/src/mut_elem.rs
index 54139f5..52ed624 100644
--- a/src/mut_elem.rs
+++ b/src/mut_elem.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::cmp::Ordering;
 use orx_concurrent_option::SOME;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -28,14 +29,27 @@ where
     /// assert_eq!(&vec, &[2, 1, 0, 3]);
     /// ```
     pub fn swap(&self, i: usize, j: usize) -> bool {
-        let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
-        let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
+        let (Some(e_i), Some(e_j)) = (self.get(i), self.get(j)) else {
+            return false;
+        };
 
-        match (h_i, h_j) {
-            (Some(h_i), Some(h_j)) => {
-                let mut_i = unsafe { h_i.get_mut() };
-                let mut_j = unsafe { h_j.get_mut() };
-                core::mem::swap(mut_i, mut_j);
+        // two elements are always held in the order of their addresses so that threads do not wait for each other
+        let (first, second) = match (e_i as *const ConcurrentElement<T>)
+            .cmp(&(e_j as *const ConcurrentElement<T>))
+        {
+            Ordering::Equal => return true,
+            Ordering::Less => (e_i, e_j),
+            Ordering::Greater => (e_j, e_i),
+        };
+
+        let h_first = unsafe { first.0.mut_handle(SOME, SOME) };
+        let h_second = unsafe { second.0.mut_handle(SOME, SOME) };
+
+        match (h_first, h_second) {
+            (Some(h_first), Some(h_second)) => {
+                let mut_first = unsafe { h_first.get_mut() };
+                let mut_second = unsafe { h_second.get_mut() };
+                core::mem::swap(mut_first, mut_second);
                 true
             }
             _ => false,
-- 
2.43.0


From 85b33102a6c3cd60b30b4c7433bf9910e3ae8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 05/11] fix: push_for_idx secures its position before calling
 the closure

When the closure of the position which has to grow the storage panicked,
or pushed to the same vector, all later growth was waiting forever.
---
 src/grow.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grow.rs b/src/grow.rs
index c433a0d..5f53b96 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -156,10 +156,12 @@ where
         F: FnOnce(usize) -> T,
     {
         let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
-        let value = f(idx);
 
         // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
         let maybe = unsafe { self.core.single_item_as_ref(idx) };
+
+        // storage for idx is secured before calling f, otherwise, other threads would wait forever if f panics
+        let value = f(idx);
         unsafe { maybe.0.initialize_unchecked(value) };
 
         idx
-- 
2.43.0


From 241999392f2e7b75ad7d32bf641828abd3b14d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 06/11] fix: exclusive operations after a failed growth only
 consider written positions

A growth call which panics, for instance when the maximum capacity is
reached, leaves reserved positions behind. Converting, clearing or
reserving used these positions, even those beyond the capacity.
---
 src/exclusive.rs |  4 ++--
 src/vec.rs       | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index b7085e2..9787a5d 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -7,7 +7,7 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.core.state().len()) };
+        unsafe { self.core.clear(self.len_until_last_written()) };
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
@@ -30,7 +30,7 @@ where
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
         unsafe {
             self.core
-                .reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)
+                .reserve_maximum_capacity(self.len_until_last_written(), new_maximum_capacity)
         }
     }
 }
diff --git a/src/vec.rs b/src/vec.rs
index dda49d9..31b9fd3 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -85,7 +85,7 @@ where
     /// Any `PinnedVec` implementation can be converted to a `ConcurrentVec` using the `From` trait.
     /// Similarly, underlying pinned vector can be obtained by calling the consuming `into_inner` method.
     pub fn into_inner(self) -> P {
-        let len = self.core.state().len();
+        let len = self.len_until_last_written();
         // # SAFETY: ConcurrentBag only allows to push to the end of the bag, keeping track of the length.
         // Therefore, the underlying pinned vector is in a valid condition at any given time.
         unsafe { self.core.into_inner(len) }
@@ -103,6 +103,21 @@ where
         }
     }
 
+    /// Returns the number of positions up to and including the last written one.
+    ///
+    /// Positions reserved by growth calls which could not complete, say due to reaching the maximum capacity,
+    /// do not have values.
+    pub(crate) fn len_until_last_written(&self) -> usize {
+        let mut len = self.reserved_len();
+        while len > 0 {
+            match unsafe { self.core.get(len - 1) }.map(|x| x.0.state(Ordering::Acquire)) {
+                None | Some(State::None) => len -= 1,
+                _ => break,
+            }
+        }
+        len
+    }
+
     /// Returns the number of elements which are pushed to the vec,
     /// excluding the elements which received their reserved locations and are currently being pushed.
     ///
-- 
2.43.0


From b36e24567e1e4151f027686fce3b56aa5c6f9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 07/11] fix: clear and reserve_maximum_capacity rebuild the
 concurrent vector

With FixedVec, clear left stale element states behind leading to double
drops, and reserve left a dangling pointer. With SplitVec, the maximum
capacity could not be reserved after clear.
---
 src/exclusive.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index 9787a5d..91a438b 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -7,7 +7,9 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.len_until_last_written()) };
+        let mut pinned_vec = self.take_inner(self.len_until_last_written());
+        pinned_vec.clear();
+        *self = Self::new_from_pinned(pinned_vec);
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
@@ -28,9 +30,17 @@ where
     ///
     /// This method can safely be called if entries in all positions 0..len are written.
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
-        unsafe {
-            self.core
-                .reserve_maximum_capacity(self.len_until_last_written(), new_maximum_capacity)
-        }
+        let len = self.len_until_last_written();
+        unsafe { self.core.reserve_maximum_capacity(len, new_maximum_capacity) };
+
+        // reserving might have moved the storage, the concurrent state is rebuilt from the pinned vec
+        *self = Self::new_from_pinned(self.take_inner(len));
+        self.maximum_capacity()
+    }
+
+    /// Takes the pinned vector with the first `len` elements out, leaving an empty vector behind.
+    fn take_inner(&mut self, len: usize) -> P {
+        let vec = core::mem::replace(self, Self::new_from_pinned(P::pseudo_default()));
+        unsafe { vec.core.into_inner(len) }
     }
 }
-- 
2.43.0


From 965167f46d85dc2af3d5c5df9eb1b886596dec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 08/11] fix: extending by a number of items exceeding the
 maximum capacity does not overflow the reservation counter

The counter used to wrap around, after which growth overwrote existing
elements.
---
 src/grow.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/grow.rs b/src/grow.rs
index 5f53b96..dfbec1b 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -313,6 +313,7 @@ where
         Iter: Iterator<Item = T> + ExactSizeIterator,
         F: FnOnce(usize) -> IntoIter,
     {
+        self.assert_extendable_by(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = f(begin_idx).into_iter();
@@ -434,6 +435,7 @@ where
     where
         IntoIter: IntoIterator<Item = T>,
     {
+        self.assert_extendable_by(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = values.into_iter();
@@ -449,4 +451,12 @@ where
 
         begin_idx
     }
+
+    /// A number of items which can never fit must not reach the reservation counter, which would otherwise wrap around.
+    fn assert_extendable_by(&self, num_items: usize) {
+        assert!(
+            num_items <= self.maximum_capacity(),
+            "Out of capacity. Number of items exceeds the maximum capacity of the vector."
+        );
+    }
 }
-- 
2.43.0


From 570aee3e40c0e0c65263e5d47abc152ec98100ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 09/11] fix: sharing a vector or an element requires elements
 that can be sent

---
 src/elem.rs | 3 +++
 src/vec.rs  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elem.rs b/src/elem.rs
index 7f12c57..a652ceb 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -10,6 +10,9 @@ use orx_concurrent_option::ConcurrentOption;
 /// [`vec.iter()`]: crate::ConcurrentVec::iter
 pub struct ConcurrentElement<T>(pub(crate) ConcurrentOption<T>);
 
+// values can be moved in and out through a shared reference, hence `Send` is required as well
+unsafe impl<T: Send + Sync> Sync for ConcurrentElement<T> {}
+
 impl<T> From<ConcurrentOption<T>> for ConcurrentElement<T> {
     fn from(value: ConcurrentOption<T>) -> Self {
         Self(value)
diff --git a/src/vec.rs b/src/vec.rs
index 31b9fd3..9bdc8c3 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -436,7 +436,8 @@ where
     }
 }
 
-unsafe impl<T: Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
+// values can be moved in and out through a shared reference, hence `Send` is required as well
+unsafe impl<T: Send + Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
     for ConcurrentVec<T, P>
 {
 }
-- 
2.43.0


From 9711bd4025682cffcd30befbf5e049808239eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 10/11] fix: positions left without a value are not counted
 after a conversion or reserve

---
 src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index c31c5e8..6ccfa52 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -19,9 +19,10 @@ impl<T> ConcurrentState<ConcurrentElement<T>> for ConcurrentVecState {
     }
 
     fn new_for_pinned_vec<P: PinnedVec<ConcurrentElement<T>>>(pinned_vec: &P) -> Self {
+        // positions might have been left without a value, the written ones are counted by `len`
         Self {
             len_reserved: pinned_vec.len().into(),
-            len_written: pinned_vec.len().into(),
+            len_written: 0.into(),
         }
     }
 
-- 
2.43.0


From e4b08d512cb68c97160609fe41919327bb31d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:54 +0000
Subject: [PATCH 11/11] fix: ranges with bounds at usize::MAX do not overflow

---
 src/concurrent_slice/slice.rs |  8 ++++++--
 src/helpers.rs                | 17 ++++++++++++++++-
 src/vec.rs                    |  7 +++++--
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/concurrent_slice/slice.rs b/src/concurrent_slice/slice.rs
index 340e705..e6eae9b 100644
--- a/src/concurrent_slice/slice.rs
+++ b/src/concurrent_slice/slice.rs
@@ -1,4 +1,8 @@
-use crate::{elem::ConcurrentElement, helpers::DefaultPinVec, ConcurrentVec};
+use crate::{
+    elem::ConcurrentElement,
+    helpers::{range_limits, DefaultPinVec},
+    ConcurrentVec,
+};
 use core::ops::RangeBounds;
 use orx_fixed_vec::IntoConcurrentPinnedVec;
 
@@ -112,7 +116,7 @@ where
     /// assert_eq!(&sub_slice, &[2, 3]);
     /// ```
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> ConcurrentSlice<T, P> {
-        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));
+        let [a, b] = range_limits(&range, self.len());
         let len = b - a;
         ConcurrentSlice::new(self.vec, self.a + a, len)
     }
diff --git a/src/helpers.rs b/src/helpers.rs
index 5d69cb2..958994e 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,6 +1,7 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::ops::{Bound, RangeBounds};
 use core::sync::atomic::AtomicUsize;
-use orx_pinned_vec::IntoConcurrentPinnedVec;
+use orx_pinned_vec::{utils::slice::vec_range_limits, IntoConcurrentPinnedVec};
 use orx_split_vec::{Doubling, SplitVec};
 
 pub(crate) type DefaultPinVec<T> = SplitVec<ConcurrentElement<T>, Doubling>;
@@ -19,3 +20,17 @@ where
         &self.core.state().len_written
     }
 }
+
+/// Returns the limits of the `range` over a vec or slice with the given `len`.
+pub(crate) fn range_limits<R: RangeBounds<usize>>(range: &R, len: usize) -> [usize; 2] {
+    // limits following the bounds must not overflow
+    let begin = match range.start_bound() {
+        Bound::Excluded(a) => Bound::Included(a.saturating_add(1)),
+        begin => begin.cloned(),
+    };
+    let end = match range.end_bound() {
+        Bound::Included(b) => Bound::Excluded(b.saturating_add(1)),
+        end => end.cloned(),
+    };
+    vec_range_limits(&(begin, end), Some(len))
+}
diff --git a/src/vec.rs b/src/vec.rs
index 9bdc8c3..e4b0e59 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1,6 +1,9 @@
 use crate::elem::ConcurrentElement;
 use crate::ConcurrentSlice;
-use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
+use crate::{
+    helpers::{range_limits, DefaultPinVec},
+    state::ConcurrentVecState,
+};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
 use orx_concurrent_option::State;
@@ -232,7 +235,7 @@ where
     /// assert_eq!(&sub_slice, &[2, 3]);
     /// ```
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> ConcurrentSlice<T, P> {
-        let [a, b] = orx_pinned_vec::utils::slice::vec_range_limits(&range, Some(self.len()));
+        let [a, b] = range_limits(&range, self.len());
         let len = b - a;
         ConcurrentSlice::new(self, a, len)
     }
-- 
2.43.0

