From 74bfdf0f5dd0f41331ee076dea95752f4f49c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 01/14] fix: Chunk clear, drop_left and drop_right drop
 elements twice when a destructor panics

---
 src/sized_chunk/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index c269655..0859b97 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -406,8 +406,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_left(&mut self, index: usize) {
         if index > 0 {
-            unsafe { ptr::drop_in_place(&mut self[..index]) }
+            let dropped: *mut [A] = &mut self[..index];
+            // Panic safety: the items must not be reachable while they're being dropped.
             self.left += index;
+            unsafe { ptr::drop_in_place(dropped) }
         }
     }
 
@@ -418,8 +420,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_right(&mut self, index: usize) {
         if index != self.len() {
-            unsafe { ptr::drop_in_place(&mut self[index..]) }
+            let dropped: *mut [A] = &mut self[index..];
+            // Panic safety: the items must not be reachable while they're being dropped.
             self.right = self.left + index;
+            unsafe { ptr::drop_in_place(dropped) }
         }
     }
 
@@ -673,9 +677,11 @@ impl<A, const N: usize> Chunk<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        unsafe { ptr::drop_in_place(self.as_mut_slice()) }
+        let dropped: *mut [A] = self.as_mut_slice();
+        // Panic safety: the items must not be reachable while they're being dropped.
         self.left = 0;
         self.right = 0;
+        unsafe { ptr::drop_in_place(dropped) }
     }
 
     /// Get a reference to the contents of the chunk as a slice.
-- 
2.43.0


From eff82533cdc130061626f3a1294f1d9819561753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 02/14] fix: RingBuffer clear, drop_left and drop_right drop
 elements twice when a destructor panics

---
 src/ring_buffer/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a6f2071..18565c1 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -467,11 +467,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
             if index > self.len() {
                 panic!("RingBuffer::drop_left: index out of bounds");
             }
-            for i in self.range().take(index) {
-                unsafe { self.force_drop(i) }
-            }
+            let dropped = self.range().take(index);
+            // Panic safety: the items must not be reachable while they're being dropped.
             self.origin += index;
             self.length -= index;
+            for i in dropped {
+                unsafe { self.force_drop(i) }
+            }
         }
     }
 
@@ -487,10 +489,12 @@ impl<A, const N: usize> RingBuffer<A, N> {
         if index == self.len() {
             return;
         }
-        for i in self.range().skip(index) {
+        let dropped = self.range().skip(index);
+        // Panic safety: the items must not be reachable while they're being dropped.
+        self.length = index;
+        for i in dropped {
             unsafe { self.force_drop(i) }
         }
-        self.length = index;
     }
 
     /// Split a buffer into two, the original buffer containing
@@ -750,11 +754,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        for i in self.range() {
-            unsafe { self.force_drop(i) };
-        }
+        let dropped = self.range();
+        // Panic safety: the items must not be reachable while they're being dropped.
         self.origin = 0.into();
         self.length = 0;
+        for i in dropped {
+            unsafe { self.force_drop(i) };
+        }
     }
 }
 
-- 
2.43.0


From c79326b5b2feb79f89bb20285a2ad004a3137faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 03/14] fix: Chunk::insert_from writes out of bounds when the
 iterator changes its reported length

---
 src/sized_chunk/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 0859b97..4a598b7 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -271,7 +271,7 @@ impl<A, const N: usize> Chunk<A, N> {
         }
     }
 
-    /// Write values from iterator into range starting at write_index.
+    /// Write `len` values from iterator into range starting at write_index.
     ///
     /// Will overwrite values at the relevant range without dropping even in case the values were
     /// already initialized (it is expected they are empty). Does not update the left or right
@@ -286,7 +286,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// If the iterator panics, the chunk becomes conceptually empty and will leak any previous
     /// elements (even the ones outside the range).
     #[inline]
-    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, chunk: &mut Self)
+    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, len: usize, chunk: &mut Self)
     where
         I: ExactSizeIterator<Item = A>,
     {
@@ -299,7 +299,6 @@ impl<A, const N: usize> Chunk<A, N> {
         // Should we worry about some better panic recovery than this?
         let left = replace(&mut chunk.left, 0);
         let right = replace(&mut chunk.right, 0);
-        let len = iter.len();
         let expected_end = write_index + len;
         for value in iter.take(len) {
             Chunk::force_write(write_index, value, chunk);
@@ -619,14 +618,14 @@ impl<A, const N: usize> Chunk<A, N> {
             unsafe {
                 Chunk::force_copy(self.left, self.left - insert_size, left_size, self);
                 let write_index = real_index - insert_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.left -= insert_size;
         } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right += insert_size;
         } else {
@@ -634,7 +633,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::force_copy(self.left, 0, left_size, self);
                 Chunk::force_copy(real_index, left_size + insert_size, right_size, self);
                 let write_index = left_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right -= self.left;
             self.right += insert_size;
-- 
2.43.0


From 44005aeac3a7543d9a4c448aa2a3ad64a61161dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 04/14] fix: Chunk::insert_from capacity check overflows in
 release builds

---
 src/sized_chunk/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 4a598b7..868f8d8 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -602,7 +602,7 @@ impl<A, const N: usize> Chunk<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From 36ddb9f424593f3b1f14462f109b064e8474c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 05/14] fix: RingBuffer::insert_from capacity check overflows
 in release builds

---
 src/ring_buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 18565c1..9664949 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -656,7 +656,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From a3ac3d9519bd06a1c9c9fd48c6d5e24f6cc3f39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 06/14] fix: Chunk::from_front and from_back read out of bounds
 in release builds

---
 src/sized_chunk/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 868f8d8..1aeb881 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -199,7 +199,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_front(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.left, 0, count, other, &mut chunk) };
         chunk.right = count;
@@ -213,7 +213,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_back(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.right - count, 0, count, other, &mut chunk) };
         chunk.right = count;
-- 
2.43.0


From b6bffd1aebe637b93c81f7a558de235ec6eaa38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 07/14] fix: RingBuffer::slice accepts an out of bounds
 ..=usize::MAX in release builds

---
 src/ring_buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 9664949..3719d0a 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -351,7 +351,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
-                Bound::Included(index) => *index + 1,
+                Bound::Included(index) => index.saturating_add(1),
                 Bound::Excluded(index) => *index,
             },
         };
-- 
2.43.0


From bb3de4dd9d08834f9436e41e491c9b47277315cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 08/14] fix: Slice::slice bounds checks overflow in release
 builds

---
 src/ring_buffer/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index a54bb7a..1d546c5 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -76,13 +76,13 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index).saturating_add(1),
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
@@ -357,13 +357,13 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index).saturating_add(1),
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
-- 
2.43.0


From afee9801481b98fc065328b48c14e5ad072101ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 09/14] fix: InlineArray::clear drops elements twice when a
 destructor panics

---
 src/inline_array/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 4fea8f1..eeb8b3f 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -395,8 +395,10 @@ impl<A, T> InlineArray<A, T> {
     /// Time: O(n)
     pub fn clear(&mut self) {
         unsafe {
-            self.drop_contents();
+            let dropped: *mut [A] = &mut **self;
+            // Panic safety: the items must not be reachable while they're being dropped.
             *self.len_mut() = 0;
+            ptr::drop_in_place(dropped);
         }
     }
 
-- 
2.43.0


From 8c071668269a0473e610720fb41fc425c8f5f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 10/14] fix: indexing a Slice or SliceMut reaches elements
 outside the slice

---
 src/ring_buffer/slice.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 1d546c5..2b4b944 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -164,7 +164,10 @@ impl<'a, A: 'a, const N: usize> Index<usize> for Slice<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
-        self.buffer.index(self.range.start + index)
+        match self.get(index) {
+            Some(value) => value,
+            None => panic!("Slice::index: index out of bounds"),
+        }
     }
 }
 
@@ -442,7 +445,10 @@ impl<'a, A: 'a, const N: usize> Index<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
-        self.buffer.index(self.range.start + index)
+        match self.get(index) {
+            Some(value) => value,
+            None => panic!("Slice::index: index out of bounds"),
+        }
     }
 }
 
@@ -450,7 +456,10 @@ impl<'a, A: 'a, const N: usize> IndexMut<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
-        self.buffer.index_mut(self.range.start + index)
+        match self.get_mut(index) {
+            Some(value) => value,
+            None => panic!("SliceMut::index_mut: index out of bounds"),
+        }
     }
 }
 
-- 
2.43.0


From 1c810e66e0bbb23b09b8efd186a6f58c7f27d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 11/14] fix: writing bytes to a RingBuffer panics in debug
 builds when the data wraps around

---
 src/ring_buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 3719d0a..2f19746 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,7 +189,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
-        debug_assert!(to.to_usize() + count <= Self::CAPACITY);
+        debug_assert!(count <= Self::CAPACITY);
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From a659156dd924dbd593ec3cac5327b87d8f63326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 12/14] fix: Arbitrary::size_hint overflows for large element
 size hints

---
 src/arbitrary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arbitrary.rs b/src/arbitrary.rs
index f82b7a8..1373026 100644
--- a/src/arbitrary.rs
+++ b/src/arbitrary.rs
@@ -27,7 +27,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
 }
@@ -49,7 +49,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
 }
@@ -71,7 +71,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = Option::<A>::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
 }
@@ -92,7 +92,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
 }
-- 
2.43.0


From e0de1840d678e8e4e90f99b511c4f4a95128d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 13/14] fix: Chunk and InlineArray hash differently from the
 slice they can be borrowed as

---
 src/inline_array/mod.rs | 4 +---
 src/sized_chunk/mod.rs  | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index eeb8b3f..a9b0e1c 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -525,9 +525,7 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        self[..].hash(hasher)
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 1aeb881..616b0ab 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -747,9 +747,7 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        self.as_slice().hash(hasher)
     }
 }
 
-- 
2.43.0


From d0ee0b7dc2b7121137a8d6079273d1fa999c9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:26 +0000
Subject: [PATCH 14/14] fix: Arbitrary size hints account for the bytes
 separating elements

Every generated element is preceded by a byte which decides whether another
one follows, so a full container consumes more than CAPACITY times the
element's upper bound.
---
 src/arbitrary.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arbitrary.rs b/src/arbitrary.rs
index 1373026..90bae22 100644
--- a/src/arbitrary.rs
+++ b/src/arbitrary.rs
@@ -27,6 +27,8 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
+            // Every element is preceded by a byte which decides whether to go on.
+            let upper = upper.and_then(|upper| upper.checked_add(1));
             (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
@@ -49,6 +51,8 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
+            // Every element is preceded by a byte which decides whether to go on.
+            let upper = upper.and_then(|upper| upper.checked_add(1));
             (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
@@ -71,6 +75,8 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = Option::<A>::size_hint(depth);
+            // Every element is preceded by a byte which decides whether to go on.
+            let upper = upper.and_then(|upper| upper.checked_add(1));
             (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
@@ -92,6 +98,8 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
+            // Every element is preceded by a byte which decides whether to go on.
+            let upper = upper.and_then(|upper| upper.checked_add(1));
             (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
-- 
2.43.0

