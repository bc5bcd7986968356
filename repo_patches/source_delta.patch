From 0426dec442376e8a1db021dc387b9491d8b43e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 01/16] fix: stop instead of using memory that was not granted
 or sizes that wrapped

---
 src/allocator.rs                        | 19 ++++++++++---------
 src/string/mod.rs                       |  3 ++-
 src/string/null_terminator_allocator.rs |  3 ++-
 src/vector/mod.rs                       |  5 ++++-
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/allocator.rs b/src/allocator.rs
index 7544ff5..7861449 100644
--- a/src/allocator.rs
+++ b/src/allocator.rs
@@ -13,11 +13,11 @@ pub unsafe trait Allocator {
     ///
     /// `n`: The number of array elements
     fn allocate<T>(&mut self, n: usize) -> *mut T {
-        unsafe {
-            std::mem::transmute(
-                self.allocate_raw_aligned(n * std::mem::size_of::<T>(), std::mem::align_of::<T>()),
-            )
-        }
+        // a size that wrapped around would be a block too small for `n` items
+        let size = n
+            .checked_mul(std::mem::size_of::<T>())
+            .expect("capacity overflow");
+        unsafe { std::mem::transmute(self.allocate_raw_aligned(size, std::mem::align_of::<T>())) }
     }
 
     /// Allocate `n` bytes aligned to usize. `n` must not be zero.
@@ -102,11 +102,12 @@ unsafe impl Allocator for DefaultAllocator {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         assert_ne!(n, 0, "`n` must not be zero!");
 
-        unsafe {
-            std::mem::transmute(alloc::alloc(
-                Layout::array::<u8>(n).unwrap().align_to(align).unwrap(),
-            ))
+        let layout = Layout::array::<u8>(n).unwrap().align_to(align).unwrap();
+        let p = unsafe { alloc::alloc(layout) };
+        if p.is_null() {
+            alloc::handle_alloc_error(layout);
         }
+        p.cast()
     }
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
diff --git a/src/string/mod.rs b/src/string/mod.rs
index e1987a2..be2a4b9 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -167,7 +167,8 @@ impl<A: Allocator> String<A> {
     /// `capacity`: The new capacity of the string
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
-        self.vec.reserve(capacity + 1)
+        self.vec
+            .reserve(capacity.checked_add(1).expect("capacity overflow"))
     }
 
     /// Null terminate the string.
diff --git a/src/string/null_terminator_allocator.rs b/src/string/null_terminator_allocator.rs
index 326ae80..3deeff1 100644
--- a/src/string/null_terminator_allocator.rs
+++ b/src/string/null_terminator_allocator.rs
@@ -5,7 +5,8 @@ pub(crate) struct NullTerminatorAllocator<A: Allocator>(pub(crate) A);
 unsafe impl<A: Allocator> Allocator for NullTerminatorAllocator<A> {
     fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
         // always leave room for the null terminator
-        let res = self.0.allocate_raw_aligned(n + 1, align);
+        let size = n.checked_add(1).expect("capacity overflow");
+        let res = self.0.allocate_raw_aligned(size, align);
         // null terminate
         *(unsafe { &mut *(res as *mut u8).add(n) }) = 0;
         res
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 4153e90..923d547 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -206,7 +206,10 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
         }
         // allocate a new bit of memory
         let size = self.len();
-        let new_capacity = self.capacity() + additional;
+        let new_capacity = self
+            .capacity()
+            .checked_add(additional)
+            .expect("capacity overflow");
         // allocate the new buffer
         let new_begin_ptr = self.allocator.allocate::<T>(new_capacity);
         // copy from the old array if we should
-- 
2.43.0


From b8d7646fd0caca2651f459ce58b55f9c02036edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 02/16] fix: vector append and assign no longer drop elements
 that were never there

---
 src/vector/mod.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 923d547..72c6c53 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -281,16 +281,19 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
     ///
     /// `buf`: The buffer or elements.
     pub fn append(&mut self, buf: &[T]) {
-        let old_len = self.len();
-        let new_len = old_len + buf.len();
+        let new_len = self.len() + buf.len();
         if new_len > self.capacity() {
             self.reserve(new_len - self.capacity());
         }
 
-        // copy in place
-        unsafe {
-            self.end_ptr = self.end_ptr.add(buf.len());
-            self.as_slice_mut()[old_len..old_len + buf.len()].clone_from_slice(buf);
+        // the spare room holds no elements yet, so the clones must be written
+        // without dropping what was there. keep the length right at every step
+        // because cloning may unwind
+        for elem in buf {
+            unsafe {
+                self.end_ptr.write(elem.clone());
+                self.increment_size();
+            }
         }
     }
 
@@ -304,10 +307,22 @@ impl<T: Sized + Clone, A: Allocator> Vector<T, A> {
             self.reserve(buf.len() - self.capacity());
         }
 
-        unsafe {
-            self.end_ptr = self.begin_ptr.add(buf.len());
-            self.as_slice_mut().clone_from_slice(buf);
+        // drop the elements that have no counterpart in `buf`
+        let len = self.len();
+        if len > buf.len() {
+            unsafe {
+                self.end_ptr = self.begin_ptr.add(buf.len());
+                ptr::drop_in_place(ptr::slice_from_raw_parts_mut(
+                    self.end_ptr,
+                    len - buf.len(),
+                ));
+            }
         }
+
+        // overwrite the elements that are already there, and add the rest
+        let (present, missing) = buf.split_at(self.len());
+        self.as_slice_mut().clone_from_slice(present);
+        self.append(missing);
     }
 }
 
-- 
2.43.0


From 364a4246f3d7fe79e3b1d1c1005997dc66469546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 03/16] fix: free the vector's array when dropping an element
 unwinds

---
 src/vector/into_iter.rs | 18 +++++++++++-------
 src/vector/mod.rs       | 41 +++++++++++++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/src/vector/into_iter.rs b/src/vector/into_iter.rs
index 7405bfa..9e6a40e 100644
--- a/src/vector/into_iter.rs
+++ b/src/vector/into_iter.rs
@@ -2,6 +2,7 @@
 //! Copyright (C) Warsaw Revamped. Any unauthorized use, modification, or distribution of any portion of this file is prohibited. All rights reserved.
 //!
 
+use crate::vector::ArrayGuard;
 use crate::Allocator;
 
 /// Implements a consuming
@@ -51,13 +52,16 @@ impl<T: Sized, A: Allocator> IntoIter<T, A> {
 impl<T: Sized, A: Allocator> Drop for IntoIter<T, A> {
     fn drop(&mut self) {
         if !self.begin_ptr.is_null() {
-            unsafe {
-                // drop all elements in place
-                std::ptr::drop_in_place(self.as_slice_mut());
-                // free the array
-                self.allocator
-                    .deallocate::<T>(self.begin_ptr, self.capacity())
-            }
+            let remaining: *mut [T] = self.as_slice_mut();
+            let capacity = self.capacity();
+            // free the array, even if dropping an element unwinds
+            let _array = ArrayGuard {
+                begin_ptr: self.begin_ptr,
+                capacity,
+                allocator: &mut self.allocator,
+            };
+            // drop all elements in place
+            unsafe { std::ptr::drop_in_place(remaining) };
         }
     }
 }
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 72c6c53..05ce255 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -29,6 +29,22 @@ pub struct Vector<T: Sized, A: Allocator> {
     pub(crate) _holds_data: PhantomData<T>,
 }
 
+/// Frees an array when it goes out of scope
+struct ArrayGuard<'a, T: Sized, A: Allocator> {
+    begin_ptr: *mut T,
+    capacity: usize,
+    allocator: &'a mut A,
+}
+
+impl<T: Sized, A: Allocator> Drop for ArrayGuard<'_, T, A> {
+    fn drop(&mut self) {
+        unsafe {
+            self.allocator
+                .deallocate::<T>(self.begin_ptr, self.capacity)
+        }
+    }
+}
+
 impl<T: Sized, A: Allocator + Default> Vector<T, A> {
     /// Creates a new vector
     pub fn new() -> Self {
@@ -87,20 +103,25 @@ impl<T: Sized, A: Allocator> Vector<T, A> {
 
     /// Clears all of the contents
     pub fn clear(&mut self) {
-        if !self.begin_ptr.is_null() {
-            unsafe {
-                // drop all elements in place
-                std::ptr::drop_in_place(self.as_slice_mut());
-                // free the array
-                self.allocator
-                    .deallocate::<T>(self.begin_ptr, self.capacity())
-            }
-        }
+        let begin_ptr = self.begin_ptr;
+        let (len, capacity) = (self.len(), self.capacity());
 
-        // reset our contents
+        // reset our contents first, so that nothing is released twice if an
+        // element unwinds while it is dropped
         self.begin_ptr = std::ptr::null_mut();
         self.end_ptr = std::ptr::null_mut();
         self.capacity_ptr = std::ptr::null_mut();
+
+        if !begin_ptr.is_null() {
+            // free the array, even if dropping an element unwinds
+            let _array = ArrayGuard {
+                begin_ptr,
+                capacity,
+                allocator: &mut self.allocator,
+            };
+            // drop all elements in place
+            unsafe { ptr::drop_in_place(ptr::slice_from_raw_parts_mut(begin_ptr, len)) };
+        }
     }
 
     /// Returns true if the vector is empty
-- 
2.43.0


From 27ed7bd9664a88532bb0263cfb3df4a20446d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 04/16] fix: fixed vectors keep their allocator when moved and
 their buffer when cleared

---
 src/fixed_vector/mod.rs | 50 +++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/fixed_vector/mod.rs b/src/fixed_vector/mod.rs
index 7dc0538..7f11461 100644
--- a/src/fixed_vector/mod.rs
+++ b/src/fixed_vector/mod.rs
@@ -8,8 +8,8 @@ use std::fmt::Debug;
 use std::mem::{size_of, MaybeUninit};
 use std::ops::{Deref, DerefMut};
 use std::pin::Pin;
+use std::ptr;
 use std::ptr::null_mut;
-use std::{mem, ptr};
 
 mod allocator;
 
@@ -64,29 +64,25 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator + Default> FixedVector<T, N
 unsafe impl<T: Sized, const NODE_COUNT: usize, A: Allocator> MoveNew
     for FixedVector<T, NODE_COUNT, A>
 {
-    unsafe fn move_new(mut src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
-        let this = this.get_unchecked_mut().assume_init_mut();
-        let src = src.as_mut().get_unchecked_mut();
-        // Swap the allocator over
-        mem::swap(&mut this.base_vec.allocator, &mut src.base_vec.allocator);
-        if !src.has_overflowed() {
-            // We haven't overflowed, so we need to move the buffer
-            mem::swap(&mut this.buffer, &mut src.buffer);
-            // ... and re-init the base vec pointers point to it
+    unsafe fn move_new(src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
+        let mut src = Pin::into_inner_unchecked(src);
+        let old = MoveRef::as_mut_ptr(&mut src);
+        let overflowed = src.has_overflowed();
+        let len = src.base_vec.len();
+        // Move everything over, `src` is not dropped
+        let this = this.get_unchecked_mut().write(MoveRef::into_inner(src));
+        if !overflowed {
+            // We haven't overflowed, so the base vec pointers have to point to the new buffer
             this.init_base_vec();
             // we have to fix the end pointer since it will be set to begin_ptr by init_base_vec
-            this.base_vec.end_ptr = (this.base_vec.begin_ptr as usize
-                + (src.base_vec.end_ptr as usize - src.base_vec.begin_ptr as usize))
-                as *mut T;
+            this.base_vec.end_ptr = this.base_vec.begin_ptr.add(len);
         } else {
-            // We have overflowed - we are not going to use `buffer` anymore so we might as well
-            // leave it uninit - so we only copy over the base vec pointers
-            this.base_vec.begin_ptr = src.base_vec.begin_ptr;
-            this.base_vec.end_ptr = src.base_vec.end_ptr;
-            this.base_vec.capacity_ptr = src.base_vec.capacity_ptr;
+            // We have overflowed - the base vec pointers stay as they are, but the allocator must
+            // not mistake a later allocation for the old buffer
+            this.base_vec.allocator.pool_begin = this.buffer[0].as_mut_ptr() as *mut c_void;
         }
         // zero `src` `begin_ptr` so any allocated data will not be dropped (we pretend like we never allocated it)
-        src.base_vec.begin_ptr = null_mut();
+        (*old).base_vec.begin_ptr = null_mut();
     }
 }
 
@@ -100,6 +96,22 @@ impl<T: Sized, const NODE_COUNT: usize, A: Allocator> FixedVector<T, NODE_COUNT,
     pub fn has_overflowed(&self) -> bool {
         !ptr::eq(self.base_vec.begin_ptr, self.buffer[0].as_ptr())
     }
+
+    /// Clears all of the contents. The elements that follow live in the fixed buffer again
+    pub fn clear(&mut self) {
+        /// Points the base vec back to the buffer, even if dropping an element unwinds
+        struct Reset<'a, T: Sized, const NODE_COUNT: usize, A: Allocator>(
+            &'a mut FixedVector<T, NODE_COUNT, A>,
+        );
+
+        impl<T: Sized, const NODE_COUNT: usize, A: Allocator> Drop for Reset<'_, T, NODE_COUNT, A> {
+            fn drop(&mut self) {
+                self.0.init_base_vec();
+            }
+        }
+
+        Reset(self).0.base_vec.clear();
+    }
 }
 
 impl<T: Sized, const NODE_COUNT: usize, A: Allocator> AsRef<[T]> for FixedVector<T, NODE_COUNT, A> {
-- 
2.43.0


From ba5c86ed866c887ebf63ca68f794dab6b6dc43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:47 +0000
Subject: [PATCH 05/16] fix: string assignment replaces the text, and reserved
 strings stay null-terminated

---
 src/string/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index be2a4b9..34c7573 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -36,10 +36,14 @@ impl<A: Allocator + Default> String<A> {
     ///
     /// `capacity`: The initial capacity of the string
     pub fn with_capacity(capacity: usize) -> Self {
-        Self {
+        let mut ret = Self {
             // make space for the null terminator
             vec: Vector::with_capacity(capacity),
-        }
+        };
+        // make sure the end is null-terminated
+        unsafe { ret.null_terminate() }
+
+        ret
     }
 }
 
@@ -73,10 +77,8 @@ impl<A: Allocator> String<A> {
 
     /// Assigns a string to a slice
     pub fn assign<S: AsRef<str>>(&mut self, buf: S) {
-        self.reserve(buf.as_ref().len());
-
         // copy over and null terminate
-        self.vec.append(buf.as_ref().as_bytes());
+        self.vec.assign(buf.as_ref().as_bytes());
 
         // make sure the end is null-terminated
         unsafe { self.null_terminate() }
@@ -168,7 +170,10 @@ impl<A: Allocator> String<A> {
     pub fn reserve(&mut self, capacity: usize) {
         // make space for the null terminator
         self.vec
-            .reserve(capacity.checked_add(1).expect("capacity overflow"))
+            .reserve(capacity.checked_add(1).expect("capacity overflow"));
+
+        // the text may have moved, make sure its end is null-terminated
+        unsafe { self.null_terminate() }
     }
 
     /// Null terminate the string.
-- 
2.43.0


From 2f91ec34d1be500307c48cb217694873a95e5483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 06/16] fix: strings insert and remove whole characters

---
 src/string/mod.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/string/mod.rs b/src/string/mod.rs
index 34c7573..1c1de76 100644
--- a/src/string/mod.rs
+++ b/src/string/mod.rs
@@ -125,12 +125,8 @@ impl<A: Allocator> String<A> {
 
     /// Pops an element off of the back of the array
     pub fn pop(&mut self) -> Option<char> {
-        let elem = self.vec.pop().map(|elem| elem as char);
-
-        // null terminate
-        unsafe { self.null_terminate() }
-
-        elem
+        let elem = self.chars().next_back()?;
+        self.remove(self.len() - elem.len_utf8())
     }
 
     /// Inserts a char into the string at an index.
@@ -142,7 +138,19 @@ impl<A: Allocator> String<A> {
     ///
     /// `elem`: The char to add to the string
     pub fn insert(&mut self, index: usize, elem: char) {
-        self.vec.insert(index, elem as u8);
+        assert!(self.is_char_boundary(index), "index out of bounds");
+
+        // make space for the entire char at once
+        let mut buf = [0; 4];
+        let bytes = elem.encode_utf8(&mut buf).as_bytes();
+        let room = self.capacity() - self.len();
+        if room < bytes.len() {
+            self.vec
+                .reserve(std::cmp::max(self.capacity(), bytes.len() - room));
+        }
+        for (i, byte) in bytes.iter().enumerate() {
+            self.vec.insert(index + i, *byte);
+        }
 
         // null terminate
         unsafe { self.null_terminate() }
@@ -158,7 +166,16 @@ impl<A: Allocator> String<A> {
         if index >= self.len() {
             None
         } else {
-            self.vec.remove(index).map(|elem| elem as char)
+            // panics when `index` is inside of a char
+            let elem = self[index..].chars().next()?;
+            for _ in 0..elem.len_utf8() {
+                self.vec.remove(index);
+            }
+
+            // null terminate
+            unsafe { self.null_terminate() }
+
+            Some(elem)
         }
     }
 
-- 
2.43.0


From 5bb1da5cceca10ac3e03decc4a83821be37d9757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 07/16] fix: deques free every sub-array and lose no element
 when an allocation or a drop unwinds

---
 src/deque/mod.rs | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/deque/mod.rs b/src/deque/mod.rs
index f0dbd10..a7a7f63 100644
--- a/src/deque/mod.rs
+++ b/src/deque/mod.rs
@@ -182,11 +182,11 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
             {
                 self.realloc_ptr_array(1, false);
             }
-            // write our element to the last position in the subarray
-            unsafe { self.end_it.current.write(elem) };
             // allocate a new subarray
             unsafe {
                 *self.end_it.current_array.add(1) = self.allocate_subarray();
+                // write our element to the last position in the old subarray
+                self.end_it.current.write(elem);
                 self.end_it
                     .set_subarray(self.end_it.current_array.add(1), Self::SUBARRAY_SIZE);
                 self.end_it.current = self.end_it.begin;
@@ -308,11 +308,11 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
 
     /// Initializes the subarray
     fn init(&mut self) {
-        self.ptr_array_size = Self::INITIAL_PTR_ARRAY_SIZE;
-
         // allocate the subarrays
-        let ptr_array = self.allocate_ptr_array(self.ptr_array_size as usize);
+        let ptr_array = self.allocate_ptr_array(Self::INITIAL_PTR_ARRAY_SIZE as usize);
         ptr_array.fill_with(std::ptr::null_mut);
+        self.ptr_array = ptr_array.as_mut_ptr();
+        self.ptr_array_size = Self::INITIAL_PTR_ARRAY_SIZE;
 
         // we start with an empty deque, so only allocate the first array mid-way through
         ptr_array[((Self::INITIAL_PTR_ARRAY_SIZE - 1) / 2) as usize] = self.allocate_subarray();
@@ -326,8 +326,6 @@ impl<'a, T: 'a, A: Allocator> Deque<'a, T, A> {
                 .set_subarray(&mut ptr_array[3], Self::SUBARRAY_SIZE);
             self.end_it.current = self.end_it.begin;
         };
-
-        self.ptr_array = ptr_array.as_mut_ptr();
     }
 
     /// Returns a mutable iterator over the deque.
@@ -435,24 +433,27 @@ impl<'a, T: 'a, A: Allocator + Default> Default for Deque<'a, T, A> {
 
 impl<'a, T: 'a, A: Allocator> Drop for Deque<'a, T, A> {
     fn drop(&mut self) {
-        // drop all elements
-        for elem in self.iter_mut() {
-            unsafe { std::ptr::drop_in_place(elem as *mut T) }
-        }
+        /// Drops what is left in the deque, even if dropping an element unwinds
+        struct DropRest<'b, 'a, T: 'a, A: Allocator>(&'b mut Deque<'a, T, A>);
 
-        // free the sub-arrays
-        if let Some(current_array) = unsafe { self.begin_it.current_array.as_mut() } {
-            for subarray in unsafe {
-                std::slice::from_raw_parts_mut(
-                    current_array,
-                    self.end_it.current_array.offset_from(current_array) as usize,
-                )
-            } {
-                self.free_subarray(*subarray);
+        impl<'a, T: 'a, A: Allocator> Drop for DropRest<'_, 'a, T, A> {
+            fn drop(&mut self) {
+                while self.0.pop_front().is_some() {}
+
+                // free the last sub-array, popping freed the others
+                if !self.0.begin_it.begin.is_null() {
+                    self.0.free_subarray(self.0.begin_it.begin);
+                }
+
+                if !self.0.ptr_array.is_null() {
+                    self.0.free_ptr_array();
+                }
             }
         }
 
-        self.free_ptr_array();
+        // drop all elements
+        let rest = DropRest(self);
+        while rest.0.pop_front().is_some() {}
     }
 }
 
-- 
2.43.0


From 36e32f3c1254ecf27d0469ed23da4fd57da964cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 08/16] fix: hash tables free their bucket arrays, and survive
 elements that unwind and long buckets

---
 src/internal/hash_table/mod.rs | 67 ++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index f18c54a..bd2f713 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -62,7 +62,6 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     /// Clears the hash table, removing all key-value pairs
     pub fn clear(&mut self) {
         self.free_buckets();
-        self.element_count = 0;
     }
 
     /// Checks if the hash table contains the given key
@@ -314,36 +313,38 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         None
     }
 
-    /// Frees a bucket and all of the child nodes
-    ///
-    /// # Arguments
-    ///
-    /// `bucket_node`: The node in the bucket
-    fn free_bucket(&mut self, bucket_node: &mut Node<K, V>) {
-        // free the next node
-        if let Some(next_node) = bucket_node.next_mut() {
-            self.free_bucket(next_node);
-        }
-        // drop and free our node
-        unsafe {
-            std::ptr::drop_in_place(bucket_node as *mut Node<K, V>);
-            self.allocator.deallocate(bucket_node, 1)
+    /// Frees the bucket array. The buckets must be empty
+    fn free_bucket_array(&mut self) {
+        // an empty hash table uses a static array
+        if self.bucket_count > 1 {
+            // account for the sentinel
+            unsafe {
+                self.allocator
+                    .deallocate(self.bucket_array, (self.bucket_count + 1) as usize)
+            }
         }
     }
 
-    /// Frees all buckets
+    /// Frees all nodes in the buckets. If dropping an element unwinds, the nodes
+    /// that were not freed yet stay in the hash table
     fn free_buckets(&mut self) {
         if self.bucket_count > 1 {
-            // we can't use `buckets_mut` here because it would cause us to
-            // hold a mutable reference to self and later immutable. any ideas?
-            let buckets = unsafe {
-                std::slice::from_raw_parts_mut(self.bucket_array, self.bucket_count as usize)
-            };
-            for bucket in buckets.iter().filter_map(|elem| unsafe { elem.as_mut() }) {
-                self.free_bucket(bucket)
+            for index in 0..self.bucket_count as usize {
+                unsafe {
+                    let bucket = self.bucket_array.add(index);
+                    while !(*bucket).is_null() {
+                        // take the node out of the bucket first, so that it is
+                        // not met again if dropping it unwinds
+                        let node = *bucket;
+                        *bucket = (*node).next;
+                        self.element_count -= 1;
+                        // free the node before dropping the element
+                        let _key = std::ptr::read(&(*node).key);
+                        let _value = std::ptr::read(&(*node).val);
+                        self.allocator.deallocate(node, 1);
+                    }
+                }
             }
-            // zero the pointers
-            buckets.fill_with(std::ptr::null_mut)
         }
     }
 
@@ -412,7 +413,7 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
                 *bucket_node_ref = std::ptr::null_mut();
             });
         // free the old buckets before setting new ones
-        self.free_buckets();
+        self.free_bucket_array();
         self.bucket_array = new_buckets.as_mut_ptr();
         self.bucket_count = bucket_count;
     }
@@ -430,7 +431,19 @@ where
 
 impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Drop for HashTable<K, V, A, H, E> {
     fn drop(&mut self) {
-        self.free_buckets();
+        /// Frees what is left in the hash table, even if dropping an element unwinds
+        struct FreeRest<'a, K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>>(
+            &'a mut HashTable<K, V, A, H, E>,
+        );
+
+        impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> Drop for FreeRest<'_, K, V, A, H, E> {
+            fn drop(&mut self) {
+                self.0.free_buckets();
+                self.0.free_bucket_array();
+            }
+        }
+
+        FreeRest(self).0.free_buckets();
     }
 }
 
-- 
2.43.0


From 1ae33db790e3591de6d564df989b59c3a3bef012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:21 +0000
Subject: [PATCH 09/16] fix: growing a hash table keeps every node when hashing
 or allocating unwinds

---
 src/internal/hash_table/mod.rs           | 19 +++++++++++++++----
 src/internal/hash_table/rehash_policy.rs |  1 +
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/internal/hash_table/mod.rs b/src/internal/hash_table/mod.rs
index bd2f713..d052e7c 100644
--- a/src/internal/hash_table/mod.rs
+++ b/src/internal/hash_table/mod.rs
@@ -362,14 +362,18 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
         value: V,
     ) -> &mut Node<K, V> {
         // check if we need to re-hash
+        let mut rehash_policy = self.rehash_policy.clone();
         if let Some(bucket_count) =
-            self.rehash_policy
-                .get_rehash_required(self.bucket_count, self.element_count, 1)
+            rehash_policy.get_rehash_required(self.bucket_count, self.element_count, 1)
         {
+            // hash before anything changes, the hash may unwind
+            let new_index = Self::bucket_index(bucket_count, &key);
             self.rehash(bucket_count);
             // update the target bucket
-            target_bucket = self.bucket_for_key_mut(&key);
+            target_bucket = unsafe { self.bucket_array.add(new_index) };
         }
+        // the policy must not consider us resized unless we were
+        self.rehash_policy = rehash_policy;
         // allocate a new node and add it to the bucket
         let node = self.allocator.allocate::<Node<K, V>>(1);
         unsafe {
@@ -387,6 +391,13 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
     ///
     /// `bucket_count`: The desired bucket count
     fn rehash(&mut self, bucket_count: u32) {
+        // hash all keys before any node is moved, because a hash that unwinds would
+        // lose the nodes that are in neither array
+        let mut new_indices = self
+            .iter()
+            .map(|(key, _)| Self::bucket_index(bucket_count, key))
+            .collect::<Vec<_>>()
+            .into_iter();
         let new_buckets = unsafe {
             // allocate space for the sentinel
             std::slice::from_raw_parts_mut(
@@ -404,7 +415,7 @@ impl<K: PartialEq, V, A: Allocator, H: Hash<K>, E: Equals<K>> HashTable<K, V, A,
             .for_each(|bucket_node_ref| {
                 let mut bucket_node = *bucket_node_ref;
                 while let Some(node) = unsafe { bucket_node.as_mut() } {
-                    let new_index = Self::bucket_index(bucket_count, node.key());
+                    let new_index = new_indices.next().unwrap();
                     let next_node = node.next;
                     node.next = new_buckets[new_index];
                     new_buckets[new_index] = node as *mut Node<K, V>;
diff --git a/src/internal/hash_table/rehash_policy.rs b/src/internal/hash_table/rehash_policy.rs
index 97404fa..838df9b 100644
--- a/src/internal/hash_table/rehash_policy.rs
+++ b/src/internal/hash_table/rehash_policy.rs
@@ -2,6 +2,7 @@ use superslice::Ext;
 
 /// The default hash policy which always keeps prime
 /// numbers of buckets
+#[derive(Clone)]
 #[repr(C)]
 pub struct PrimeRehashPolicy {
     max_load_factor: f32,
-- 
2.43.0


From 3361c9dd61ef8c852c718f760bd69984d0580288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 10/16] fix: set insertion reports success for new keys

---
 src/hash_set/mod.rs | 2 +-
 src/set/mod.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hash_set/mod.rs b/src/hash_set/mod.rs
index c6acb6b..635326b 100644
--- a/src/hash_set/mod.rs
+++ b/src/hash_set/mod.rs
@@ -69,7 +69,7 @@ impl<K: PartialEq, A: Allocator, H: Hash<K>, E: Equals<K>> HashSet<K, A, H, E> {
     ///
     /// `value`: The associated value
     pub fn insert(&mut self, key: K) -> bool {
-        self.hash_table.insert(key, ()).is_some()
+        self.hash_table.insert(key, ()).is_none()
     }
 
     /// Creates a hash set backed by an allocator
diff --git a/src/set/mod.rs b/src/set/mod.rs
index 676ba9e..b028426 100644
--- a/src/set/mod.rs
+++ b/src/set/mod.rs
@@ -74,7 +74,7 @@ impl<K: PartialEq, A: Allocator, C: Compare<K>> Set<K, A, C> {
     ///
     /// `key`: The key to insert and index by
     fn _insert(&mut self, key: K) -> bool {
-        self.inner._insert(key, ()).is_some()
+        self.inner._insert(key, ()).is_none()
     }
 
     /// Returns an iterator over the elements in the tree.
-- 
2.43.0


From d6289c4e7550379d700ba9a5e487668b1cbff5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 11/16] fix: lists return each node with the size it was
 requested with and survive values that unwind

---
 src/list/mod.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 3bae954..3d3e7f6 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -3,7 +3,6 @@ use crate::list::iter::{Iter, IterMut};
 use crate::list::node::{ListNode, ListNodeBase};
 use moveit::{new, New};
 use std::marker::PhantomData;
-use std::mem::size_of;
 use std::{fmt, ptr};
 
 pub(crate) mod iter;
@@ -72,20 +71,9 @@ impl<T, A: Allocator> List<T, A> {
 
     /// Remove all elements from this list
     pub fn clear(&mut self) {
-        let mut next = self.node.next;
-        unsafe {
-            while next != &mut self.node {
-                let to_drop = next;
-                // Advance the next pointer before we delete the current node
-                next = (*next).next;
-                // Drop the value
-                ptr::drop_in_place(&mut (*(to_drop as *mut ListNode<T>)).value);
-                // Deallocate the memory for the node
-                self.allocator.deallocate(to_drop, size_of::<ListNode<T>>());
-            }
-        }
-        self.init_sentinel_node();
-        self.size = 0;
+        // Take every node out before its value is dropped, so that the list stays intact if a
+        // value unwinds
+        while self.pop_front().is_some() {}
     }
 
     /// If the list is empty or not
@@ -207,7 +195,7 @@ impl<T, A: Allocator> List<T, A> {
         (*node).remove();
         let value = ptr::read(&(*(node as *mut ListNode<T>)).value);
         // Deallocate the memory for the node
-        self.allocator.deallocate(node, size_of::<ListNode<T>>());
+        self.allocator.deallocate(node as *mut ListNode<T>, 1);
         self.size -= 1;
         value
     }
@@ -215,7 +203,16 @@ impl<T, A: Allocator> List<T, A> {
 
 impl<T, A: Allocator> Drop for List<T, A> {
     fn drop(&mut self) {
-        self.clear()
+        /// Clears what is left in the list, even if dropping a value unwinds
+        struct ClearRest<'a, T, A: Allocator>(&'a mut List<T, A>);
+
+        impl<T, A: Allocator> Drop for ClearRest<'_, T, A> {
+            fn drop(&mut self) {
+                self.0.clear()
+            }
+        }
+
+        ClearRest(self).0.clear()
     }
 }
 
-- 
2.43.0


From 72ecbf9fea0db97a964f2759b5b1dbb15e7df770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 12/16] fix: a block right behind the pool belongs to the
 overflow allocator

---
 src/fixed_pool/with_overflow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_pool/with_overflow.rs b/src/fixed_pool/with_overflow.rs
index d5cb777..6f32ba2 100644
--- a/src/fixed_pool/with_overflow.rs
+++ b/src/fixed_pool/with_overflow.rs
@@ -85,7 +85,7 @@ unsafe impl<Node: Sized, OverflowAllocator: Allocator> Allocator
 
     unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), _n: usize, _align: usize) {
         // if it's contained within the pool allocator, use the pool allocator
-        if self.pool_begin <= p && p <= self.pool_allocator.capacity.cast() {
+        if self.pool_begin <= p && p < self.pool_allocator.capacity.cast() {
             self.pool_allocator.deallocate_raw_aligned(p, _n, _align)
         } else {
             self.overflow_allocator
-- 
2.43.0


From 9ef9bac47a1665c04937b38878a975fcda4452ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 13/16] fix: clearing or dropping a tree drops its elements and
 leaves it empty

---
 src/internal/rb_tree/mod.rs | 71 ++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/src/internal/rb_tree/mod.rs b/src/internal/rb_tree/mod.rs
index b7b1936..a45ea08 100644
--- a/src/internal/rb_tree/mod.rs
+++ b/src/internal/rb_tree/mod.rs
@@ -247,27 +247,21 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
         unsafe { prev_node.as_mut() }
     }
 
-    /// Frees a node and its children
-    ///
-    /// # Arguments
-    ///
-    /// `root`: The root node of the tree
-    fn free_tree(&mut self, root: &mut Node<K, V>) {
-        if let Some(left) = root.left() {
-            self.free_tree(left)
-        }
-        if let Some(right) = root.right() {
-            self.free_tree(right)
-        }
-        // deallocate the current node
-        unsafe { self.allocator.deallocate(root, 1) }
-    }
-
-    /// Frees all of the nodes in the tree
+    /// Frees all of the nodes in the tree, leaving it empty
     fn free_nodes(&mut self) {
-        if let Some(node) = unsafe { self.parent.as_mut() } {
-            self.free_tree(node)
-        }
+        // take the nodes out first, so that none of them is met again if dropping an element
+        // unwinds
+        let root = self.parent;
+        self.begin = std::ptr::null_mut();
+        self.end = std::ptr::null_mut();
+        self.parent = std::ptr::null_mut();
+        self.size = 0;
+
+        let mut remaining = RemainingNodes {
+            root,
+            allocator: &mut self.allocator,
+        };
+        while remaining.free_lowest() {}
     }
 
     /// Returns the parent node
@@ -286,6 +280,43 @@ impl<K: PartialEq, V, A: Allocator, C: Compare<K>> RBTree<K, V, A, C> {
     }
 }
 
+/// The nodes that were taken out of a tree but not freed yet. Frees what is left when it goes out
+/// of scope, even if dropping an element unwinds
+struct RemainingNodes<'a, K, V, A: Allocator> {
+    root: *mut Node<K, V>,
+    allocator: &'a mut A,
+}
+
+impl<K, V, A: Allocator> RemainingNodes<'_, K, V, A> {
+    /// Frees the lowest node and drops its pair. Returns false if there are no nodes left
+    fn free_lowest(&mut self) -> bool {
+        let mut root = self.root;
+        if root.is_null() {
+            return false;
+        }
+        unsafe {
+            // rotate the lowest node to the top. parents are not needed any more
+            while !(*root).left.is_null() {
+                let left = (*root).left;
+                (*root).left = (*left).right;
+                (*left).right = root;
+                root = left;
+            }
+            self.root = (*root).right;
+
+            let _pair = std::ptr::read(&(*root).pair);
+            self.allocator.deallocate(root, 1);
+        }
+        true
+    }
+}
+
+impl<K, V, A: Allocator> Drop for RemainingNodes<'_, K, V, A> {
+    fn drop(&mut self) {
+        while self.free_lowest() {}
+    }
+}
+
 #[cfg(test)]
 mod test {
     use crate::allocator::DefaultAllocator;
-- 
2.43.0


From 999f032da4dc2c14945e1cea677dd64583e7a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:18 +0000
Subject: [PATCH 14/16] fix: list operations in a row see the sentinel as the
 previous one left it

---
 src/list/mod.rs  | 37 ++++++++++++++++++++++++++++++++++---
 src/list/node.rs | 17 -----------------
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/list/mod.rs b/src/list/mod.rs
index 3d3e7f6..bdeab06 100644
--- a/src/list/mod.rs
+++ b/src/list/mod.rs
@@ -157,7 +157,8 @@ impl<T, A: Allocator> List<T, A> {
     pub fn push_back(&mut self, value: T) {
         unsafe {
             let new_node = self.create_node(value);
-            (*new_node).base.insert(&mut self.node);
+            let sentinel: *mut ListNodeBase = &mut self.node;
+            self.insert_node(new_node.cast(), self.node.prev, sentinel);
         }
         self.size += 1;
     }
@@ -166,7 +167,8 @@ impl<T, A: Allocator> List<T, A> {
     pub fn push_front(&mut self, value: T) {
         unsafe {
             let new_node = self.create_node(value);
-            (*new_node).base.insert(self.node.next);
+            let sentinel: *mut ListNodeBase = &mut self.node;
+            self.insert_node(new_node.cast(), sentinel, self.node.next);
         }
 
         self.size += 1;
@@ -190,9 +192,38 @@ impl<T, A: Allocator> List<T, A> {
         self.node.next = &mut self.node;
     }
 
+    /// Inserts a node between two neighbours, of which either can be the sentinel node
+    unsafe fn insert_node(
+        &mut self,
+        node: *mut ListNodeBase,
+        prev: *mut ListNodeBase,
+        next: *mut ListNodeBase,
+    ) {
+        self.link_nodes(prev, node);
+        self.link_nodes(node, next);
+    }
+
+    /// Makes two nodes neighbours, of which either can be the sentinel node.
+    ///
+    /// The sentinel node is part of the list, so it must be written to through `self`. While `self`
+    /// is borrowed the compiler assumes that it can not change through any other pointer, and would
+    /// carry on with a node that is already gone
+    unsafe fn link_nodes(&mut self, prev: *mut ListNodeBase, next: *mut ListNodeBase) {
+        if ptr::eq(prev, &self.node) {
+            self.node.next = next;
+        } else {
+            (*prev).next = next;
+        }
+        if ptr::eq(next, &self.node) {
+            self.node.prev = prev;
+        } else {
+            (*next).prev = prev;
+        }
+    }
+
     /// Removes the given node, extracting its value
     unsafe fn remove_node(&mut self, node: *mut ListNodeBase) -> T {
-        (*node).remove();
+        self.link_nodes((*node).prev, (*node).next);
         let value = ptr::read(&(*(node as *mut ListNode<T>)).value);
         // Deallocate the memory for the node
         self.allocator.deallocate(node as *mut ListNode<T>, 1);
diff --git a/src/list/node.rs b/src/list/node.rs
index 6aff4b0..cb8c297 100644
--- a/src/list/node.rs
+++ b/src/list/node.rs
@@ -15,23 +15,6 @@ impl Default for ListNodeBase {
     }
 }
 
-impl ListNodeBase {
-    /// Inserts this node in `next`s list before `next`.
-    pub(crate) unsafe fn insert(&mut self, next: *mut ListNodeBase) {
-        self.next = next;
-        self.prev = (*next).prev;
-        (*(*next).prev).next = self;
-        (*next).prev = self;
-    }
-
-    // Removes this node from the list that it's in. Assumes that the
-    // node is within a list and thus that its prev/next pointers are valid.
-    pub(crate) unsafe fn remove(&mut self) {
-        (*self.next).prev = self.prev;
-        (*self.prev).next = self.next;
-    }
-}
-
 #[repr(C)]
 pub struct ListNode<T> {
     pub(crate) base: ListNodeBase,
-- 
2.43.0


From 51c18a1232dcc588c4e69c3d9fe88106a35cbdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:18 +0000
Subject: [PATCH 15/16] fix: do not copy the pool address into the allocator of
 a cloned fixed vector

A clone of a fixed vector's base vector has no pool, yet its allocator kept
the address of the original's. Once the original is gone, an allocation
placed at that address was taken for the pool and never returned.
---
 src/fixed_vector/allocator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fixed_vector/allocator.rs b/src/fixed_vector/allocator.rs
index e2491e0..90d12e1 100644
--- a/src/fixed_vector/allocator.rs
+++ b/src/fixed_vector/allocator.rs
@@ -3,7 +3,6 @@ use std::ffi::c_void;
 use std::ptr;
 use std::ptr::null_mut;
 
-#[derive(Copy, Clone)]
 #[repr(C)]
 pub struct FixedVectorAllocator<A: Allocator> {
     overflow_allocator: A,
@@ -23,6 +22,14 @@ impl<A: Allocator> FixedVectorAllocator<A> {
     }
 }
 
+impl<A: Allocator + Clone> Clone for FixedVectorAllocator<A> {
+    /// A clone belongs to a vector without a pool of its own, so it must not take the memory that
+    /// the pool of the original has occupied for its own pool
+    fn clone(&self) -> Self {
+        Self::new_with(self.overflow_allocator.clone())
+    }
+}
+
 impl<A: Allocator + Default> Default for FixedVectorAllocator<A> {
     fn default() -> Self {
         Self {
-- 
2.43.0


From d269a9545c94ec75d2975e23eb75809cbf43f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:53 +0000
Subject: [PATCH 16/16] fix: hash iterators: use the foreign library's
 positions

A foreign iterator's bucket pointer is the bucket its node hangs from, and
the end position is the end mark behind the last bucket. The pairs given
out and taken in did not follow that: taking in a pair yielded the current
bucket again or walked into the end mark.
---
 src/internal/hash_table/iter.rs | 126 +++++++++++++++++++-------------
 1 file changed, 76 insertions(+), 50 deletions(-)

diff --git a/src/internal/hash_table/iter.rs b/src/internal/hash_table/iter.rs
index 5b49303..e297209 100644
--- a/src/internal/hash_table/iter.rs
+++ b/src/internal/hash_table/iter.rs
@@ -39,27 +39,69 @@ pub struct CompatIterMut<'a, K: PartialEq + 'a, V: 'a> {
 struct RawIter<'a, K: PartialEq + 'a, V: 'a> {
     bucket_iter: std::slice::Iter<'a, *mut Node<K, V>>,
     node_ptr: *mut Node<K, V>,
+    /// The node to stop in front of. Null at the end of the table
+    end_ptr: *mut Node<K, V>,
 }
 
+/// The node and the bucket holding it, as C++ iterators store them
+type Position<K, V> = (*mut Node<K, V>, *const *mut Node<K, V>);
+
 impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
+    /// The `(begin, end)` positions of the remaining elements. In C++ the
+    /// end of the table is the value of the sentinel behind the last bucket
+    fn positions(&self) -> (Position<K, V>, Position<K, V>) {
+        let buckets = self.bucket_iter.as_slice().as_ptr_range();
+        let end = if self.end_ptr.is_null() {
+            (!0usize as *mut Node<K, V>, buckets.end)
+        } else {
+            (self.end_ptr, unsafe { buckets.end.sub(1) })
+        };
+        if self.node_ptr == self.end_ptr {
+            return (end, end);
+        }
+        // the bucket of the current node was already taken from the iterator
+        ((self.node_ptr, unsafe { buckets.start.sub(1) }), end)
+    }
+
+    /// Constructs a Rust iterator from its `(begin, end)` positions
+    ///
+    /// # Safety
+    ///
+    /// The positions must be valid positions of the same hash table
+    unsafe fn from_positions(begin: Position<K, V>, end: Position<K, V>) -> Self {
+        let end_ptr = if end.0 == !0usize as *mut Node<K, V> {
+            std::ptr::null_mut()
+        } else {
+            end.0
+        };
+        // the end node's bucket must be visited to find that node
+        let last_bucket = end.1.add(!end_ptr.is_null() as usize);
+        let (node_ptr, next_bucket) = if begin.0 == end.0 {
+            (end_ptr, last_bucket)
+        } else {
+            (begin.0, begin.1.add(1))
+        };
+        Self {
+            bucket_iter: std::slice::from_raw_parts(
+                next_bucket,
+                last_bucket.offset_from(next_bucket) as usize,
+            )
+            .iter(),
+            node_ptr,
+            end_ptr,
+        }
+    }
+
     /// Converts the Rust iterator into a pair of
     /// `(begin, end)` compatibility iterators
     fn into_compat(self) -> (CompatIter<'a, K, V>, CompatIter<'a, K, V>) {
-        (
-            CompatIter::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>,
-                _marker: PhantomData,
-            },
-            CompatIter::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: unsafe {
-                    (self.bucket_iter.as_slice().as_ptr() as *const *const Node<K, V>)
-                        .add(self.bucket_iter.as_slice().len())
-                },
-                _marker: PhantomData,
-            },
-        )
+        let (begin, end) = self.positions();
+        let compat = |(node_ptr, bucket_ptr): Position<K, V>| CompatIter::<'a, K, V> {
+            node_ptr,
+            bucket_ptr: bucket_ptr as *const *const Node<K, V>,
+            _marker: PhantomData,
+        };
+        (compat(begin), compat(end))
     }
 
     /// Converts the Rust iterator into a pair of
@@ -70,22 +112,13 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     /// Mutability of the exposed iterator must be enforced.
     /// POLLO: Is there a better way to do this?
     unsafe fn into_compat_mut(self) -> (CompatIterMut<'a, K, V>, CompatIterMut<'a, K, V>) {
-        (
-            CompatIterMut::<'a, K, V> {
-                node_ptr: self.node_ptr,
-                bucket_ptr: self.bucket_iter.as_slice().as_ptr(),
-                _marker: PhantomData,
-            },
-            CompatIterMut::<'a, K, V> {
-                node_ptr: std::ptr::null_mut(),
-                bucket_ptr: self
-                    .bucket_iter
-                    .as_slice()
-                    .as_ptr()
-                    .add(self.bucket_iter.as_slice().len()),
-                _marker: PhantomData,
-            },
-        )
+        let (begin, end) = self.positions();
+        let compat = |(node_ptr, bucket_ptr): Position<K, V>| CompatIterMut::<'a, K, V> {
+            node_ptr,
+            bucket_ptr,
+            _marker: PhantomData,
+        };
+        (compat(begin), compat(end))
     }
 
     /// Constructs a Rust iterator from a pair of
@@ -102,14 +135,10 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat(begin: CompatIter<K, V>, end: CompatIter<K, V>) -> Self {
-        Self {
-            bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr as *const *mut Node<K, V>,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
-            )
-            .iter(),
-            node_ptr: begin.node_ptr,
-        }
+        Self::from_positions(
+            (begin.node_ptr, begin.bucket_ptr as *const *mut Node<K, V>),
+            (end.node_ptr, end.bucket_ptr as *const *mut Node<K, V>),
+        )
     }
 
     /// Constructs a Rust iterator from a pair of
@@ -126,14 +155,10 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     ///
     /// `end`: The ending compatibility iterator
     unsafe fn from_compat_mut(begin: CompatIterMut<K, V>, end: CompatIterMut<K, V>) -> Self {
-        Self {
-            node_ptr: begin.node_ptr,
-            bucket_iter: std::slice::from_raw_parts(
-                begin.bucket_ptr,
-                end.bucket_ptr.offset_from(begin.bucket_ptr) as usize,
-            )
-            .iter(),
-        }
+        Self::from_positions(
+            (begin.node_ptr, begin.bucket_ptr),
+            (end.node_ptr, end.bucket_ptr),
+        )
     }
 
     /// Creates a new hash table iterator from the
@@ -146,6 +171,7 @@ impl<'a, K: PartialEq, V> RawIter<'a, K, V> {
     fn new(buckets: &'a [*mut Node<K, V>]) -> Self {
         let mut new_iter = Self {
             node_ptr: std::ptr::null_mut(),
+            end_ptr: std::ptr::null_mut(),
             bucket_iter: buckets.iter(),
         };
         // find the first next node
@@ -166,9 +192,9 @@ impl<'a, K: PartialEq, V> Iterator for RawIter<'a, K, V> {
     type Item = (&'a K, &'a mut V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // the only way for the node pointer to be null is
-        // if we already hit the end
-        if self.node_ptr.is_null() {
+        // the only way for the node pointer to be the end
+        // pointer is if we already hit the end
+        if self.node_ptr == self.end_ptr {
             return None;
         }
         // traverse to the next node, but return the current
-- 
2.43.0

