From 4adff9e2d4eac113dbd84a96184e777d85bf80c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 01/16] fix: IntoIter::next_back must not yield elements
 already taken from the front

---
 src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.rs b/src/vector.rs
index eaa6b3c..89ad5c3 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -798,7 +798,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         debug_assert!(self.back <= N::to_usize());
 
-        if self.back > 0 {
+        if self.next < self.back {
             self.back -= 1;
 
             Some(unsafe {
-- 
2.43.0


From dd343f139308bd2a4b18cceb86b54528c8dcaec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 02/16] fix: IntoIter::nth must not skip past the end of the
 remaining elements

---
 src/vector.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 89ad5c3..e6cd73e 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -785,11 +785,10 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<T> {
-        for i in self.next..self.next+n {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+        for _ in 0..cmp::min(n, self.len()) {
+            self.next();
         }
 
-        self.next += n;
         self.next()
     }
 }
-- 
2.43.0


From def2e94f136b79d8504dac7ee5e01f00543da574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 03/16] fix: RowsIter and ColsIter lengths must account for
 items taken from the back

---
 src/matrix/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 1a672c1..033e5a7 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -38,13 +38,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Row::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -68,7 +68,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for RowsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Row::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
@@ -130,13 +130,13 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let s = Col::to_usize() - self.1;
+        let s = self.2 - self.1;
         (s, Some(s))
     }
 
     #[inline]
     fn count(self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 
     #[inline]
@@ -160,7 +160,7 @@ impl<'a, T: 'a, Row, Col> ExactSizeIterator for ColsIter<'a, T, Row, Col>
     // avoiding an assert in the provided method
     #[inline]
     fn len(&self) -> usize {
-        Col::to_usize() - self.1
+        self.2 - self.1
     }
 }
 
-- 
2.43.0


From 0d17a6338abf03aba4e381f3d5cdd4d5335c6191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 04/16] fix: nth on row and column iterators must not move past
 the end

---
 src/matrix/iter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index 033e5a7..ead21d2 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -1,5 +1,7 @@
 use ::vector::{Vector, ArrayLen};
 
+use std::cmp;
+
 pub struct RowsIter<'a, T: 'a, Row, Col>
     (&'a Vector<Vector<T, Col>, Row>, usize, usize)
     where
@@ -54,7 +56,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -146,7 +148,7 @@ impl<'a, T: 'a, Row, Col> Iterator
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.1 += n;
+        self.1 += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -247,7 +249,7 @@ impl<'a, T: 'a, Row, Col> Iterator for RowsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -343,7 +345,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRef<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
@@ -442,7 +444,7 @@ impl<'a, T: 'a, Row, Col> Iterator for ColsIterRefInner<'a, T, Row, Col>
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.front += n;
+        self.front += cmp::min(n, self.len());
         self.next()
     }
 }
-- 
2.43.0


From 0d684ddaa180349388ec335656d8285bf17a3760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 05/16] fix: Debug of a matrix without rows must not underflow

---
 src/matrix/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index cc59bb8..c0c74e6 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -309,10 +309,9 @@ impl<T, Row, Col> Debug for Matrix<T, Row, Col>
     fn fmt(&self, fmt: &mut Formatter) -> FmtResult {
         try!(write!(fmt, "Matrix["));
 
-        let last = self.0.len() - 1;
         for (i, row) in self.0.iter().enumerate() {
+            if i != 0 { try!(write!(fmt, ", ")); }
             try!(row.as_slice().fmt(fmt));
-            if i != last { try!(write!(fmt, ", ")); }
         }
 
         write!(fmt, "]")
-- 
2.43.0


From 4d86c26a0458b3fdb834f868a52357a81ce2c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 06/16] fix: inverse must exchange rows when it meets a zero
 pivot

---
 src/matrix/ops.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index 7326f05..9e1043f 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -359,13 +359,17 @@ impl<T, U, Ba, Bb, Bc> Inverse for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>, UI
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         for i in 0..n {
-            let rcp = {
-                let d = mat[(i, i)].clone();
-                if d.is_zero() {
-                    return None;
-                }
-                T::one() / d
+            // the matrix is singular if there is no row left with a non-zero pivot
+            let pivot = match (i..n).find(|&j| !mat[(j, i)].is_zero()) {
+                Some(j) => j,
+                None => return None,
             };
+            if pivot != i {
+                mat.0.as_slice_mut().swap(i, pivot);
+                inv.0.as_slice_mut().swap(i, pivot);
+            }
+
+            let rcp = T::one() / mat[(i, i)].clone();
 
             for j in 0..n {
                 mat[(i, j)] = mat[(i, j)].clone() * rcp.clone();
-- 
2.43.0


From aac8b9bab4cf3d14aabc2922de853317996fbc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 07/16] fix: indexing an empty vector with U0 must not compile

---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index e6cd73e..717d943 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -272,7 +272,10 @@ impl<T, N, IU, IB> Index<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> Index<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     type Output = T;
 
@@ -301,7 +304,10 @@ impl<T, N, IU, IB> IndexMut<UInt<IU, IB>> for Vector<T, N>
 }
 
 impl<T, N> IndexMut<U0> for Vector<T, N>
-    where N: ArrayLen<T>,
+    where
+        N: ArrayLen<T>,
+        U0: typenum::Cmp<N>,
+        typenum::Compare<U0, N>: Same<typenum::Less>,
 {
     #[inline]
     fn index_mut(&mut self, _: U0) -> &mut T {
-- 
2.43.0


From 08d9d134930b79e08f712575748d19b5c5579619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 08/16] fix: Matrix2f64 must be a matrix of f64

---
 src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index fec6972..ed0cb36 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -27,7 +27,7 @@ pub type Vector10f32 = Vector<f32, U10>;
 pub type Vector10f64 = Vector<f64, U10>;
 
 pub type Matrix2f32 = Matrix<f32, U2, U2>;
-pub type Matrix2f64 = Matrix<f32, U2, U2>;
+pub type Matrix2f64 = Matrix<f64, U2, U2>;
 pub type Matrix3f32 = Matrix<f32, U3, U3>;
 pub type Matrix3f64 = Matrix<f64, U3, U3>;
 pub type Matrix4f32 = Matrix<f32, U4, U4>;
-- 
2.43.0


From ccd48cc1bcefbaf4980115ff7844daed5569c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 09/16] fix: ColsIterRefInner::new must reject columns outside
 the matrix in every build

---
 src/matrix/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/iter.rs b/src/matrix/iter.rs
index ead21d2..74c6723 100644
--- a/src/matrix/iter.rs
+++ b/src/matrix/iter.rs
@@ -396,7 +396,7 @@ impl<'a, T: 'a, Row, Col> ColsIterRefInner<'a, T, Row, Col>
         Col: ArrayLen<T> + 'a,
 {
     pub fn new(mat: &'a Vector<Vector<T, Col>, Row>, col: usize) -> Self {
-        debug_assert!(col < Col::to_usize());
+        assert!(col < Col::to_usize());
         ColsIterRefInner {
             mat: mat,
             col: col,
-- 
2.43.0


From 7eec1b7a4b21c1be05551449bbd71ff182dbdced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 10/16] fix: Display must not leave out rows whose entries are
 all empty

---
 src/matrix/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index c0c74e6..8746065 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -355,7 +355,8 @@ impl<T, Row, Col> Display for Matrix<T, Row, Col>
                     let len = s.lines().map(|l| str_len(l)).max().unwrap_or(0);
                     if ws[j] < len { ws[j] = len; }
 
-                    let lin = s.lines().count();
+                    // an entry without text still takes a line
+                    let lin = cmp::max(1, s.lines().count());
                     if hs[i] < lin { hs[i] = lin; }
 
                     (s, len)
-- 
2.43.0


From 31de5ca2fe918f0dbe764371b3a026fc87f4cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 11/16] fix: collecting into a vector must not create
 uninitialized elements

---
 src/vector.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 717d943..5deb777 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -701,24 +701,22 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
         let mut it = iter.into_iter();
 
         let arr = unsafe {
-            // NOTE: somehow `NoDrop` drops performance - it should be optimized out
-            let mut arr = NoDrop::new(mem::uninitialized::<N::Array>());
+            let mut arr = mem::MaybeUninit::<N::Array>::uninit();
+            let elems = arr.as_mut_ptr() as *mut T;
 
             for i in 0..N::to_usize() {
                 let item = match it.next() {
                     Some(item) => item,
                     None => {
-                        let mut arr = arr.into_inner();
                         for j in 0..i {
-                            ptr::drop_in_place(arr.as_mut().get_unchecked_mut(j));
+                            ptr::drop_in_place(elems.offset(j as isize));
                         }
-                        mem::forget(arr);
 
                         panic!("Vector<_, U{0}> can only be created with exactly {0} elements.",
                                N::to_usize())
                     }
                 };
-                ptr::write(arr.as_mut().get_unchecked_mut(i), item);
+                ptr::write(elems.offset(i as isize), item);
             }
 
             // making this `assert_eq` slows down matrix multiplication by 7x in release build!
@@ -726,7 +724,7 @@ impl<T, N> FromIterator<T> for Vector<T, N> where N: ArrayLen<T> {
                              "Vector<_, U{0}> can only be created with exactly {0} elements.",
                              N::to_usize());
 
-            arr.into_inner()
+            arr.assume_init()
         };
 
         Vector::new(arr)
-- 
2.43.0


From 1b857fdb18be42b5c90f0bc4ef662aab7d5afec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:17 +0000
Subject: [PATCH 12/16] fix: IntoIter must not keep moved-out elements as valid
 values

---
 src/vector.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 5deb777..8e8e697 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -7,8 +7,6 @@ use typenum::type_operators::Same;
 use num;
 use num::Float;
 
-use nodrop::NoDrop;
-
 use std::ops::{Deref, DerefMut, Add, Sub, Mul, Div, Neg, Rem,
     AddAssign, SubAssign, MulAssign, DivAssign, Index, IndexMut};
 use std::marker::PhantomData;
@@ -738,7 +736,7 @@ impl<T, N> IntoIterator for Vector<T, N> where N: ArrayLen<T> {
     #[inline]
     fn into_iter(self) -> Self::IntoIter {
         IntoIter {
-            arr: NoDrop::new(self.into_inner()),
+            arr: mem::MaybeUninit::new(self.into_inner()),
             next: 0,
             back: N::to_usize(),
         }
@@ -746,7 +744,8 @@ impl<T, N> IntoIterator for Vector<T, N> where N: ArrayLen<T> {
 }
 
 pub struct IntoIter<T, N> where N: ArrayLen<T> {
-    arr: NoDrop<N::Array>,
+    // elements outside of `next..back` have been moved out
+    arr: mem::MaybeUninit<N::Array>,
     next: usize,
     back: usize,
 }
@@ -754,7 +753,7 @@ pub struct IntoIter<T, N> where N: ArrayLen<T> {
 impl<T, N> Drop for IntoIter<T, N> where N: ArrayLen<T> {
     fn drop(&mut self) {
         for i in self.next..self.back {
-            unsafe { ptr::drop_in_place(self.arr.as_mut().get_unchecked_mut(i)) };
+            unsafe { ptr::drop_in_place((self.arr.as_mut_ptr() as *mut T).offset(i as isize)) };
         }
     }
 }
@@ -770,7 +769,7 @@ impl<T, N> Iterator for IntoIter<T, N> where N: ArrayLen<T> {
             self.next += 1;
 
             Some(unsafe {
-                ptr::read(self.arr.as_ref().get_unchecked(i))
+                ptr::read((self.arr.as_ptr() as *const T).offset(i as isize))
             })
         } else {
             None
@@ -805,7 +804,7 @@ impl<T, N> DoubleEndedIterator for IntoIter<T, N> where N: ArrayLen<T> {
             self.back -= 1;
 
             Some(unsafe {
-                ptr::read(self.arr.as_ref().get_unchecked(self.back))
+                ptr::read((self.arr.as_ptr() as *const T).offset(self.back as isize))
             })
         } else {
             None
-- 
2.43.0


From af5087db40418083be0ba88b6a7f7cafe7a06f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 13/16] fix: vector! and matrix! must not rely on ::std or on
 their own name being in scope

---
 src/macros.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 57ca2f9..fd19354 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -40,11 +40,11 @@ macro_rules! vector {
     };
 
     (@count $first:expr, $($rest:tt),*) => {
-        <$crate::typenum::consts::U1 as ::std::ops::Add< vector!(@count $($rest),*) >>::Output
+        $crate::typenum::Sum<$crate::typenum::consts::U1, $crate::vector!(@count $($rest),*)>
     };
 
     ($($elem:expr),*) => {
-        $crate::vector::Vector::<_, vector!(@count $($elem),*)>::new([ $($elem),* ])
+        $crate::vector::Vector::<_, $crate::vector!(@count $($elem),*)>::new([ $($elem),* ])
     };
 }
 
@@ -86,7 +86,7 @@ macro_rules! matrix {
     (@countrow [$($elem:expr),*] ) => { $crate::typenum::consts::U1 };
 
     (@countrow [$($elem:expr),*], $($rest:tt)*) => {
-        <$crate::typenum::consts::U1 as ::std::ops::Add<matrix!(@countrow $($rest)*)>>::Output
+        $crate::typenum::Sum<$crate::typenum::consts::U1, $crate::matrix!(@countrow $($rest)*)>
     };
 
     (@countcol) => { $crate::typenum::consts::U0 };
@@ -98,16 +98,16 @@ macro_rules! matrix {
     };
 
     (@countcol [$first:expr, $($rest:expr),*] ) => {
-        <$crate::typenum::consts::U1 as ::std::ops::Add<matrix!(@countcol [$($rest),*])>>::Output
+        $crate::typenum::Sum<$crate::typenum::consts::U1, $crate::matrix!(@countcol [$($rest),*])>
     };
 
-    (@countcol [$($elem:expr),*], $($drop:tt)*) => { matrix!(@countcol [$($elem),*]) };
+    (@countcol [$($elem:expr),*], $($drop:tt)*) => { $crate::matrix!(@countcol [$($elem),*]) };
 
     ($( [$($elem:expr),*] ),*) => {
         {
             $crate::matrix::Matrix::<_,
-                matrix!(@countrow $( [ $( $elem ),* ] ),*),
-                matrix!(@countcol $( [ $( $elem ),* ] ),*)>::new([ $([ $($elem),* ]),* ])
+                $crate::matrix!(@countrow $( [ $( $elem ),* ] ),*),
+                $crate::matrix!(@countcol $( [ $( $elem ),* ] ),*)>::new([ $([ $($elem),* ]),* ])
         }
     };
 }
-- 
2.43.0


From ea40145df4a27849c053fd6f1ea05b52021ec511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:43 +0000
Subject: [PATCH 14/16] fix: ArrayLen is an unsafe trait

Elements are written to and read from ArrayLen::Array through raw pointers, so
that a safe implementation for a type of one's own, with an array of another
length, made safe code write out of bounds.
---
 src/vector.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 8e8e697..74d3136 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -904,13 +904,19 @@ fn test_vector_chunks() {
     assert_eq!(it.next(), None);
 }
 
-pub trait ArrayLen<T>: typenum::Unsigned {
+/// A length vectors of `T` can have, and the array that holds their elements.
+///
+/// # Safety
+///
+/// `Array` must be `[T; N]`, where `N` is the value of the implementing type-level integer:
+/// elements are written to and read from it through raw pointers.
+pub unsafe trait ArrayLen<T>: typenum::Unsigned {
     type Array: AsRef<[T]> + AsMut<[T]>;
 }
 
 macro_rules! impl_arraylen {
     ($tn:ident, $len:expr) => {
-        impl<T> ArrayLen<T> for $tn {
+        unsafe impl<T> ArrayLen<T> for $tn {
             type Array = [T; $len];
         }
     }
-- 
2.43.0


From e050067fd4558d3644c0437bf3197fed0fc4bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:28 +0000
Subject: [PATCH 15/16] fix: vectors and matrices are Eq only if their elements
 are

---
 src/matrix/mod.rs | 2 +-
 src/vector.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index 8746065..3326322 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -296,7 +296,7 @@ impl<T, Row, Col> Eq for Matrix<T, Row, Col>
     where
         Row: ArrayLen<Vector<T, Col>>,
         Col: ArrayLen<T>,
-        T: PartialEq,
+        T: Eq,
 {
 }
 
diff --git a/src/vector.rs b/src/vector.rs
index 74d3136..6073b06 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -206,7 +206,7 @@ impl<T, U, N> PartialEq<Vector<U, N>> for Vector<T, N>
 
 impl<T, N> Eq for Vector<T, N>
     where
-        T: PartialEq,
+        T: Eq,
         N: ArrayLen<T>,
 {
 }
-- 
2.43.0


From 336be194431996f4ef8ec7df698996bab4006267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 16/16] fix: determinant must exchange rows when it meets a
 zero pivot

---
 src/matrix/ops.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/matrix/ops.rs b/src/matrix/ops.rs
index 9e1043f..8f30755 100644
--- a/src/matrix/ops.rs
+++ b/src/matrix/ops.rs
@@ -89,19 +89,21 @@ impl<T, U, Ba, Bb, Bc> Determinant for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>
         let n = <UInt<UInt<UInt<U, Ba>, Bb>, Bc> as typenum::Unsigned>::to_usize();
 
         let mut mat = self.clone();
+        let mut negative = false;
 
         // http://thira.plavox.info/blog/2008/06/_c.html
         for i in 0..n {
-            for j in (i+1)..n {
-                if mat[(i, i)].is_zero() {
-                    // cannot create triangular matrix, falling back
-                    return (0 .. n)
-                        .map(|i| {
-                            self[(i, 0)].clone() * self.cofactor((i, 0))
-                        })
-                        .fold(T::zero(), Add::add);
+            // exchange rows when the pivot is zero, which changes the sign
+            match (i..n).find(|&j| !mat[(j, i)].is_zero()) {
+                Some(j) if j != i => {
+                    mat.0.as_slice_mut().swap(i, j);
+                    negative = !negative;
                 }
+                Some(_) => {}
+                None => return T::zero(),
+            }
 
+            for j in (i+1)..n {
                 let d = mat[(j, i)].clone() / mat[(i, i)].clone();
 
                 for k in 0..n {
@@ -112,7 +114,9 @@ impl<T, U, Ba, Bb, Bc> Determinant for Matrix<T, UInt<UInt<UInt<U, Ba>, Bb>, Bc>
             }
         }
 
-        (0..n).map(|i| mat[(i, i)].clone()).fold(T::one(), Mul::mul)
+        let det = (0..n).map(|i| mat[(i, i)].clone()).fold(T::one(), Mul::mul);
+
+        if negative { T::zero() - det } else { det }
     }
 }
 
-- 
2.43.0

