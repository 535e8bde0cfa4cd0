From 359e90b20feb4d4a05f5156525f536f4d54bef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 1/9] fix: clone only the elements stored in a circular buffer

The derived Clone cloned every slot of the internal buffer, including the
ones that hold no element, which is undefined behavior for types that are
not plain data.
---
 src/circular_buffer/circular.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index e2e8d09..4e9a62d 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -46,7 +46,6 @@ fn main(){
 }
 ```
 */
-#[derive(Clone)]
 pub struct CircularBuffer<T> {
     buffer: Box<[ManuallyDrop<T>]>,
     start: usize,
@@ -753,6 +752,15 @@ impl<T> CircularBuffer<T> {
     }
 }
 
+impl<T> Clone for CircularBuffer<T> where T: Clone {
+    fn clone(&self) -> Self {
+        //slots outside of start..end hold no element, so they cannot be cloned
+        let mut result = Self::with_capacity(self.capacity());
+        result.extend(self.iter());
+        result
+    }
+}
+
 impl<T> Drop for CircularBuffer<T> {
     fn drop(&mut self) {
         self.clear();
-- 
2.43.0


From 228505dbfeff867bdbff8c3af1ff3b474476512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 2/9] fix: keep free slots of a circular buffer in MaybeUninit

mem::uninitialized() aborts the process for element types that do not
accept every bit pattern (char, Box, references, ...), so a buffer of such
elements could not be created, and it is undefined behavior for the others.
---
 src/circular_buffer/circular.rs | 57 +++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 4e9a62d..8be8d09 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -1,4 +1,4 @@
-use std::mem::{ManuallyDrop, uninitialized, swap, drop, transmute};
+use std::mem::{MaybeUninit, ManuallyDrop, swap, drop, transmute};
 use std::ops::{Index, IndexMut};
 use std::iter::{Extend, FromIterator, IntoIterator};
 use std::cmp::{Ord, PartialEq, Eq, PartialOrd, Ordering};
@@ -47,7 +47,7 @@ fn main(){
 ```
 */
 pub struct CircularBuffer<T> {
-    buffer: Box<[ManuallyDrop<T>]>,
+    buffer: Box<[MaybeUninit<T>]>,
     start: usize,
     end:usize
 }
@@ -89,7 +89,7 @@ impl<T> CircularBuffer<T> {
 
         let mut buffer = Vec::with_capacity(capacity+1);
         for _ in 0..capacity+1 {
-            buffer.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            buffer.push(MaybeUninit::uninit());
         }
         Self {
             buffer: buffer.into_boxed_slice(),
@@ -168,10 +168,10 @@ impl<T> CircularBuffer<T> {
         } else {
             0
         };
-        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| ManuallyDrop::new(x)));
+        new_buf.extend(self.drain().skip(to_be_skipped).map(|x| MaybeUninit::new(x)));
         let elem_num = new_buf.len();
         for _ in 0..capacity -new_buf.len() + 1{
-            new_buf.push(ManuallyDrop::new(unsafe{uninitialized()}));
+            new_buf.push(MaybeUninit::uninit());
         }
         new_buf.shrink_to_fit();
         self.buffer = new_buf.into_boxed_slice();
@@ -477,7 +477,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(0)])
+            Some(&self[0])
         }
     }
 
@@ -502,7 +502,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut *self.buffer[self.internal_index(0)])
+            Some(&mut self[0])
         }
     }
 
@@ -526,7 +526,7 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&* self.buffer[self.internal_index(self.len()-1)])
+            Some(&self[self.len()-1])
         }
     }
 
@@ -551,7 +551,8 @@ impl<T> CircularBuffer<T> {
         if self.is_empty(){
             None
         } else {
-            Some(&mut * self.buffer[self.internal_index(self.len()-1)])
+            let last = self.len()-1;
+            Some(&mut self[last])
         }
     }
 
@@ -582,7 +583,7 @@ impl<T> CircularBuffer<T> {
             (&self.buffer[self.start..], &self.buffer[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper, slots with elements can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -619,7 +620,7 @@ impl<T> CircularBuffer<T> {
             (y,  &mut x[..self.end])
         };
 
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper, slots with elements can be safely converted into slice of T
         unsafe{(transmute(a), transmute(b))}
     }
 
@@ -644,7 +645,7 @@ impl<T> CircularBuffer<T> {
         self.buffer.rotate_left(self.start);
         self.end = self.len();
         self.start = 0;
-        //ManuallyDrop is a zero-cost wrapper, can be safely converted into slice of T
+        //MaybeUninit is a zero-cost wrapper, slots with elements can be safely converted into slice of T
         unsafe{transmute(&mut self.buffer[..self.end])}
     }
 
@@ -741,14 +742,14 @@ impl<T> CircularBuffer<T> {
 
     fn pop_at(&mut self, index: usize) -> T {
         //replace place in the array with uninitialized object
-        let mut tmp = ManuallyDrop::new(unsafe{uninitialized()});
+        let mut tmp = MaybeUninit::uninit();
         swap(&mut self.buffer[index], &mut tmp);
-        ManuallyDrop::into_inner(tmp)
+        unsafe{tmp.assume_init()}
     }
 
     fn push_at(&mut self, val: T, index: usize) {
         //the replaced value is unitialized, so it should not be dropped
-        self.buffer[index] = ManuallyDrop::new(val);
+        self.buffer[index] = MaybeUninit::new(val);
     }
 }
 
@@ -771,13 +772,14 @@ impl <T> Index<usize> for CircularBuffer<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &<Self as Index<usize>>::Output {
-        &*self.buffer[self.internal_index(index)]
+        //internal_index() accepts only slots that hold an element
+        unsafe{&*self.buffer[self.internal_index(index)].as_ptr()}
     }
 }
 
 impl <T> IndexMut<usize> for CircularBuffer<T> {
     fn index_mut(&mut self, index: usize) -> &mut <Self as Index<usize>>::Output {
-        &mut *self.buffer[self.internal_index(index)]
+        unsafe{&mut *self.buffer[self.internal_index(index)].as_mut_ptr()}
     }
 }
 
@@ -789,8 +791,8 @@ impl <T> fmt::Debug for CircularBuffer<T> {
 
 impl <T> FromIterator<T> for CircularBuffer<T>{
     fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x)));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x)));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
 
         let end = buf.len() -1;
@@ -804,8 +806,8 @@ impl <T> FromIterator<T> for CircularBuffer<T>{
 
 impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
     fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| ManuallyDrop::new(x.clone())));
-        buf.push(unsafe{uninitialized()});
+        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
+        buf.push(MaybeUninit::uninit());
         buf.shrink_to_fit();
         let end = buf.len() -1;
         Self {
@@ -819,10 +821,17 @@ impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
 impl<T> From<Vec<T>> for CircularBuffer<T>{
     fn from(mut v : Vec<T>) -> Self {
         let buf_len = v.len();
-        v.push(unsafe{uninitialized()});
-        v.shrink_to_fit();
+        v.reserve_exact(1);
+        v.shrink_to(buf_len + 1);
+        let mut v = ManuallyDrop::new(v);
+        //the elements move into the buffer, followed by one slot without an element
+        let buf = unsafe{
+            let mut buf = Vec::from_raw_parts(v.as_mut_ptr() as *mut MaybeUninit<T>, buf_len, v.capacity());
+            buf.set_len(buf_len + 1);
+            buf
+        };
         Self{
-            buffer: unsafe{transmute(v.into_boxed_slice())},
+            buffer: buf.into_boxed_slice(),
             start: 0,
             end: buf_len
         }
-- 
2.43.0


From f8bbb4c57ad1a05c53483293225498b9d105ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 3/9] fix: do not leak collected elements when the source of a
 circular buffer panics

---
 src/circular_buffer/circular.rs | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 8be8d09..420c089 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -791,30 +791,14 @@ impl <T> fmt::Debug for CircularBuffer<T> {
 
 impl <T> FromIterator<T> for CircularBuffer<T>{
     fn from_iter<I: IntoIterator<Item=T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x)));
-        buf.push(MaybeUninit::uninit());
-        buf.shrink_to_fit();
-
-        let end = buf.len() -1;
-        Self {
-            buffer: buf.into_boxed_slice(),
-            start: 0,
-            end
-        }
+        //the vector owns the collected elements if the iterator panics
+        Self::from(Vec::from_iter(iter))
     }
 }
 
 impl <'a, T> FromIterator<&'a T> for CircularBuffer<T> where T: Clone{
     fn from_iter<I: IntoIterator<Item=&'a T>>(iter: I) -> Self {
-        let mut buf = Vec::from_iter(iter.into_iter().map(|x| MaybeUninit::new(x.clone())));
-        buf.push(MaybeUninit::uninit());
-        buf.shrink_to_fit();
-        let end = buf.len() -1;
-        Self {
-            buffer: buf.into_boxed_slice(),
-            start: 0,
-            end
-        }
+        Self::from(Vec::from_iter(iter.into_iter().map(|x| x.clone())))
     }
 }
 
-- 
2.43.0


From 9ce17633f3b5ccc328739df73c8ac14a2b627d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 4/9] fix: reject a circular buffer capacity that overflows
 instead of wrapping to 0

In release builds with_capacity(usize::MAX) created a broken buffer without
any slot and resize(usize::MAX) pushed slots until memory was exhausted.
---
 src/circular_buffer/circular.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/circular_buffer/circular.rs b/src/circular_buffer/circular.rs
index 420c089..2ce221e 100644
--- a/src/circular_buffer/circular.rs
+++ b/src/circular_buffer/circular.rs
@@ -87,8 +87,10 @@ impl<T> CircularBuffer<T> {
     */
     pub fn with_capacity(capacity: usize) -> Self {
 
-        let mut buffer = Vec::with_capacity(capacity+1);
-        for _ in 0..capacity+1 {
+        //one slot always stays free
+        let slots = capacity.checked_add(1).expect("capacity overflow");
+        let mut buffer = Vec::with_capacity(slots);
+        for _ in 0..slots {
             buffer.push(MaybeUninit::uninit());
         }
         Self {
@@ -162,7 +164,7 @@ impl<T> CircularBuffer<T> {
     ```
     */
     pub fn resize (&mut self, capacity: usize) {
-        let mut new_buf = Vec::with_capacity(capacity+1);
+        let mut new_buf = Vec::with_capacity(capacity.checked_add(1).expect("capacity overflow"));
         let to_be_skipped = if self.len()>capacity{
             self.len() - capacity
         } else {
-- 
2.43.0


From 7dcd540f9e544e0495d61b4f2f9d58a1fb82ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 5/9] fix: register an element of a disjoint set only after its
 node was allocated

If growing the vector of nodes failed, the element stayed registered with an
identifier that has no node, and every later element got a wrong node.
---
 src/disjoint_set/disjoint_set.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disjoint_set/disjoint_set.rs b/src/disjoint_set/disjoint_set.rs
index 65794d2..96811ec 100644
--- a/src/disjoint_set/disjoint_set.rs
+++ b/src/disjoint_set/disjoint_set.rs
@@ -244,9 +244,10 @@ impl<T, S> DisjointSet<T, S> where T:Eq + Hash , S:BuildHasher{
         //insert but do not override existing one
         match self.ids.entry(val) {
             Entry::Vacant(entry) => {
-                entry.insert(next_id);
                 //make element its own parent
+                //may fail to allocate, so it needs to happen before the element gets registered
                 self.data_by_id.push(Data::new(next_id));
+                entry.insert(next_id);
                 next_id
             },
             Entry::Occupied(entry) => *entry.get()
-- 
2.43.0


From c4d23b606dc1ca52ced152b89e6561e648651964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 6/9] fix: do not leave an interval half-modified when an
 in-place operation panics

When the operation on the upper bound panicked (for example on overflow), the
lower bound had already been replaced, so the interval got a mix of old and
new bounds, possibly with the lower bound above the upper one.
---
 src/interval/interval_math.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/interval/interval_math.rs b/src/interval/interval_math.rs
index 6855391..d5d2da9 100644
--- a/src/interval/interval_math.rs
+++ b/src/interval/interval_math.rs
@@ -21,11 +21,14 @@ impl<T, U> Add<U> for Interval<T> where T:Ord+Add<U, Output=T>, U:Clone {
 
 impl<T> AddAssign<T> for Interval<T> where T:Ord+AddAssign + Clone {
     fn add_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //a copy is modified, a panic of the operation must not leave the bounds half-modified
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo += rhs.clone();
             a.up += rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
@@ -48,11 +51,14 @@ impl<T, U> Sub<U> for Interval<T> where T:Ord+Sub<U, Output=T>, U:Clone {
 
 impl<T> SubAssign<T> for Interval<T> where T:Ord + SubAssign + Clone {
     fn sub_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //a copy is modified, a panic of the operation must not leave the bounds half-modified
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo -= rhs.clone();
             a.up -= rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
@@ -76,11 +82,14 @@ impl<T, U> Mul<U> for Interval<T> where T:Ord+Mul<U, Output=T>, U: Clone {
 
 impl<T> MulAssign<T> for Interval<T> where T:Ord+MulAssign+Clone {
     fn mul_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //a copy is modified, a panic of the operation must not leave the bounds half-modified
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo *= rhs.clone();
             a.up *= rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
@@ -106,11 +115,14 @@ impl<T, U> Div<U> for Interval<T> where T:Ord+Div<U, Output=T>, U:Clone {
 
 impl<T> DivAssign<T> for Interval<T> where T: Ord+DivAssign + Clone {
     fn div_assign(&mut self, rhs: T) {
-        if let Some(ref mut a) = self.imp{
+        //a copy is modified, a panic of the operation must not leave the bounds half-modified
+        let mut result = self.clone();
+        if let Some(ref mut a) = result.imp{
             a.lo /= rhs.clone();
             a.up /= rhs;
         }
-        self.fix_after_modification()
+        result.fix_after_modification();
+        *self = result;
     }
 }
 
-- 
2.43.0


From 1c52584db9fa8d56c9eb6c80d06b442ad3bceaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 7/9] fix: an empty interval contains no value and intersects
 no interval

---
 src/interval/interval.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interval/interval.rs b/src/interval/interval.rs
index adf8f6d..a257d21 100644
--- a/src/interval/interval.rs
+++ b/src/interval/interval.rs
@@ -509,7 +509,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn contains_val(&self, val: &T) -> bool {
-        !(self > val || self < val)
+        !(self.is_empty() || self > val || self < val)
     }
 
     /**
@@ -658,7 +658,7 @@ impl<T> Interval<T>  where T: Ord  {
     ```
     */
     pub fn intersects(&self, other: &Self) -> bool {
-        !(self > other || self < other)
+        !(self.is_empty() || other.is_empty() || self > other || self < other)
     }
 
     /**
-- 
2.43.0


From f9514fc934aebee72411c6909de6e1a3340b9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 8/9] fix: clear the nodes of a disjoint set before its
 elements

A panicking destructor of an element left nodes of removed elements behind, so
that later elements started out united with each other.
---
 src/disjoint_set/disjoint_set.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disjoint_set/disjoint_set.rs b/src/disjoint_set/disjoint_set.rs
index 96811ec..efea059 100644
--- a/src/disjoint_set/disjoint_set.rs
+++ b/src/disjoint_set/disjoint_set.rs
@@ -230,8 +230,9 @@ impl<T, S> DisjointSet<T, S> where T:Eq + Hash , S:BuildHasher{
     }
 
     pub fn clear(&mut self) {
-        self.ids.clear();
-        self.data_by_id.clear()
+        //a panicking destructor of an element must not leave nodes of removed elements behind
+        self.data_by_id.clear();
+        self.ids.clear()
     }
 
     pub fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From fec19caadfb6d592e56931d8ec80b389fd48b8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 9/9] fix: a lower and an upper bound compare as unequal with
 != too

---
 src/interval/bounds.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/interval/bounds.rs b/src/interval/bounds.rs
index 8d1e315..583e090 100644
--- a/src/interval/bounds.rs
+++ b/src/interval/bounds.rs
@@ -343,10 +343,6 @@ impl <T> PartialEq<UpperBound<T>> for LowerBound<T> where T: Ord {
     fn eq(&self, _other: &UpperBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &UpperBound<T>) -> bool {
-        false
-    }
 }
 
 
@@ -664,10 +660,6 @@ impl <T> PartialEq<LowerBound<T>> for UpperBound<T> where T: Ord {
     fn eq(&self, _other: &LowerBound<T>) -> bool {
         false
     }
-
-    fn ne(&self, _other: &LowerBound<T>) -> bool {
-        false
-    }
 }
 
 impl <T> PartialOrd<T> for UpperBound<T> where T: Ord {
-- 
2.43.0

