From 6bed425e549314f41c1d7a58cfec96445c7a9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 1/3] fix: FlatIter skips empty inner sequences instead of
 ending early

---
 src/matrix/base/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index dcf7eaa..11b3571 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -35,12 +35,12 @@ where
 {
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
-        self.subiter.next().or_else(|| {
-            self.iter.next().and_then(|a| {
-                self.subiter = a.into_iter();
-                self.subiter.next()
-            })
-        })
+        loop {
+            if let Some(x) = self.subiter.next() {
+                return Some(x);
+            }
+            self.subiter = self.iter.next()?.into_iter();
+        }
     }
 }
 
-- 
2.43.0


From d035fe1f9ecb4b74462be4f4e34b90bcf66b1589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 2/3] fix: formatting a vector without components no longer
 panics

---
 src/vector/base/format.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vector/base/format.rs b/src/vector/base/format.rs
index c76a13c..6e23d7c 100644
--- a/src/vector/base/format.rs
+++ b/src/vector/base/format.rs
@@ -7,10 +7,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{:?}, ", self[i])?;
+        for i in 0..N {
+            if i > 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{:?}", self[i])?;
         }
-        write!(f, "{:?})", self[N - 1])?;
+        write!(f, ")")?;
         Ok(())
     }
 }
@@ -21,10 +24,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{}, ", self[i])?;
+        for i in 0..N {
+            if i > 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{}", self[i])?;
         }
-        write!(f, "{})", self[N - 1])?;
+        write!(f, ")")?;
         Ok(())
     }
 }
-- 
2.43.0


From a8b9fde2cae3c26ca01315ed0494a3971c9751a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 3/3] fix: iterating a matrix without rows yields nothing
 instead of panicking

---
 src/matrix/base/iter.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index 11b3571..500c603 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -9,7 +9,7 @@ where
     II: Iterator,
 {
     iter: I,
-    subiter: II,
+    subiter: Option<II>,
 }
 
 impl<I, IT, II> FlatIter<I, IT, II>
@@ -22,9 +22,16 @@ where
     pub fn new(mut iter: I) -> Option<Self> {
         iter.next().map(|a| Self {
             iter,
-            subiter: a.into_iter(),
+            subiter: Some(a.into_iter()),
         })
     }
+    /// Like `new`, but an empty sequence gives an empty iterator.
+    fn from_sequence(iter: I) -> Self {
+        Self {
+            iter,
+            subiter: None,
+        }
+    }
 }
 
 impl<I, IT, II> Iterator for FlatIter<I, IT, II>
@@ -36,10 +43,10 @@ where
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if let Some(x) = self.subiter.next() {
+            if let Some(x) = self.subiter.as_mut().and_then(Iterator::next) {
                 return Some(x);
             }
-            self.subiter = self.iter.next()?.into_iter();
+            self.subiter = Some(self.iter.next()?.into_iter());
         }
     }
 }
@@ -47,11 +54,11 @@ where
 impl<T, const M: usize, const N: usize> Matrix<T, M, N> {
     /// Returns iterator over matrix element refrences.
     pub fn iter(&self) -> impl Iterator<Item = &T> {
-        FlatIter::new(self.data.iter()).unwrap()
+        FlatIter::from_sequence(self.data.iter())
     }
     /// Returns iterator over matrix element mutable refrences.
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
-        FlatIter::new(self.data.iter_mut()).unwrap()
+        FlatIter::from_sequence(self.data.iter_mut())
     }
 }
 
@@ -66,14 +73,14 @@ impl<T, const M: usize, const N: usize> IntoIterator for Matrix<T, M, N> {
     >;
 
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.into_iter()).unwrap()
+        Self::IntoIter::from_sequence(self.data.into_iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a Matrix<T, M, N> {
     type Item = &'a T;
     type IntoIter = FlatIter<slice::Iter<'a, Vector<T, N>>, &'a Vector<T, N>, slice::Iter<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter()).unwrap()
+        Self::IntoIter::from_sequence(self.data.iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M, N> {
@@ -81,7 +88,7 @@ impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M
     type IntoIter =
         FlatIter<slice::IterMut<'a, Vector<T, N>>, &'a mut Vector<T, N>, slice::IterMut<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter_mut()).unwrap()
+        Self::IntoIter::from_sequence(self.data.iter_mut())
     }
 }
 
-- 
2.43.0

