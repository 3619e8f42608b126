From 7bce308a78150a498f6ddef0915c0c95e1e30e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 1/7] fix: reject out-of-range integers in read_integer

A negative or over-long INTEGER was not consumed: the decoder stayed at the
start of its content octets and parsed them again as the next element, so
e.g. 3023 0221 021f.. decoded as r=0, s=<the content of r>. Strict DER
signatures have no use for such integers, so refuse them. The 0xFF padding
check only concerned negative integers, and goes away with them.
---
 core/src/der.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 7166a30..27547d9 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -151,13 +151,9 @@ impl<'a> Decoder<'a> {
             return Err(Error::InvalidSignature);
         }
 
-        if self.peek(0)? == 0xff && rlen > 1 && (self.peek(1)? & 0x80) == 0x00 {
-            return Err(Error::InvalidSignature);
-        }
-
-        let mut overflow = false;
+        // Negative integers are never part of a signature
         if self.peek(0)? & 0x80 == 0x80 {
-            overflow |= true;
+            return Err(Error::InvalidSignature);
         }
 
         // Skip leading zero bytes
@@ -166,21 +162,18 @@ impl<'a> Decoder<'a> {
             self.read()?;
         }
 
+        // Neither are integers longer than a scalar
         if rlen > 32 {
-            overflow |= true;
+            return Err(Error::InvalidSignature);
         }
 
         let mut int = Scalar::default();
 
-        if !overflow {
-            let mut b32 = [0u8; 32];
-            b32[32 - rlen..].copy_from_slice(self.peek_slice(rlen)?);
-            self.skip(rlen)?;
+        let mut b32 = [0u8; 32];
+        b32[32 - rlen..].copy_from_slice(self.peek_slice(rlen)?);
+        self.skip(rlen)?;
 
-            overflow |= bool::from(int.set_b32(&b32));
-        }
-
-        if overflow {
+        if bool::from(int.set_b32(&b32)) {
             int = Scalar::default();
         }
 
-- 
2.43.0


From e2537f4375ff61b6c91dd5eec573a5c94ae1616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:56 +0000
Subject: [PATCH 2/7] fix: consume over-long integers in read_integer_lax

An INTEGER of more than 32 significant octets was replaced by zero without
skipping its content, so its octets were parsed again as the next element.
Skip them, as the reference lax parser does.
---
 core/src/der.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/der.rs b/core/src/der.rs
index 27547d9..a7380da 100644
--- a/core/src/der.rs
+++ b/core/src/der.rs
@@ -247,11 +247,12 @@ impl<'a> Decoder<'a> {
         if !overflow {
             let mut b32 = [0u8; 32];
             b32[32 - len..].copy_from_slice(&self.peek_slice(len)?);
-            self.skip(len)?;
 
             overflow |= bool::from(int.set_b32(&b32));
         }
 
+        self.skip(len)?;
+
         if overflow {
             int = Scalar::default();
         }
-- 
2.43.0


From 8224e5a5128dd6f747248b73d08ec94aa8f37e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 3/7] fix: build without the std feature

The base64 imports are only used by the std-only serde impls, and the crate
denies unused imports, so every no_std configuration failed to compile.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b09b0e..57b063f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,11 +17,12 @@
 pub use libsecp256k1_core::*;
 
 use arrayref::{array_mut_ref, array_ref};
-use base64::{engine::Engine as _, prelude::BASE64_STANDARD};
 use core::convert::TryFrom;
 use digest::{generic_array::GenericArray, Digest};
 use rand::Rng;
 
+#[cfg(feature = "std")]
+use base64::{engine::Engine as _, prelude::BASE64_STANDARD};
 #[cfg(feature = "std")]
 use core::fmt;
 #[cfg(feature = "hmac")]
-- 
2.43.0


From 4cf542f4bad80cd980dd632c9d76ab0657dcd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 4/7] fix: handle allocation failure in the boxed context
 constructors

The pointer returned by alloc() was turned into a Box and written through
without a null check.
---
 core/src/ecmult.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/src/ecmult.rs b/core/src/ecmult.rs
index 8c892a4..b114331 100644
--- a/core/src/ecmult.rs
+++ b/core/src/ecmult.rs
@@ -4,7 +4,7 @@ use crate::{
     scalar::Scalar,
 };
 use alloc::{
-    alloc::{alloc, Layout},
+    alloc::{alloc, handle_alloc_error, Layout},
     boxed::Box,
     vec,
     vec::Vec,
@@ -67,7 +67,11 @@ impl ECMultContext {
         // because the struct is big. All values in `ECMultContext` are manually
         // initialized after allocation.
         let mut this = unsafe {
-            let ptr = alloc(Layout::new::<ECMultContext>()) as *mut ECMultContext;
+            let layout = Layout::new::<ECMultContext>();
+            let ptr = alloc(layout) as *mut ECMultContext;
+            if ptr.is_null() {
+                handle_alloc_error(layout);
+            }
             let mut this = Box::from_raw(ptr);
 
             for i in 0..ECMULT_TABLE_SIZE_G {
@@ -192,7 +196,11 @@ impl ECMultGenContext {
         // because the struct is big. All values in `ECMultGenContext` are
         // manually initialized after allocation.
         let mut this = unsafe {
-            let ptr = alloc(Layout::new::<ECMultGenContext>()) as *mut ECMultGenContext;
+            let layout = Layout::new::<ECMultGenContext>();
+            let ptr = alloc(layout) as *mut ECMultGenContext;
+            if ptr.is_null() {
+                handle_alloc_error(layout);
+            }
             let mut this = Box::from_raw(ptr);
 
             for j in 0..64 {
-- 
2.43.0


From bd11fc35acd1932e3f4da587c161596695cd042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 5/7] fix: do not underflow on an empty table

set_table_gej_var and globalz_set_table_gej handle the empty table, but
computed r.len() - 1 before checking for it.
---
 core/src/group.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/group.rs b/core/src/group.rs
index e713a62..89b9020 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -217,10 +217,10 @@ impl Affine {
 pub fn set_table_gej_var(r: &mut [Affine], a: &[Jacobian], zr: &[Field]) {
     debug_assert!(r.len() == a.len());
 
-    let mut i = r.len() - 1;
     let mut zi: Field;
 
     if !r.is_empty() {
+        let mut i = r.len() - 1;
         zi = a[i].z.inv();
         r[i].set_gej_zinv(&a[i], &zi);
 
@@ -235,10 +235,10 @@ pub fn set_table_gej_var(r: &mut [Affine], a: &[Jacobian], zr: &[Field]) {
 pub fn globalz_set_table_gej(r: &mut [Affine], globalz: &mut Field, a: &[Jacobian], zr: &[Field]) {
     debug_assert!(r.len() == a.len() && a.len() == zr.len());
 
-    let mut i = r.len() - 1;
     let mut zs: Field;
 
     if !r.is_empty() {
+        let mut i = r.len() - 1;
         r[i].x = a[i].x;
         r[i].y = a[i].y;
         *globalz = a[i].z;
-- 
2.43.0


From 8e110ba514f34e74912cc71f1290f068a6a98270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:43 +0000
Subject: [PATCH 6/7] fix: do not treat (n-1)/2 as a high scalar in is_high

---
 core/src/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/scalar.rs b/core/src/scalar.rs
index 91615d2..79c86ac 100644
--- a/core/src/scalar.rs
+++ b/core/src/scalar.rs
@@ -282,7 +282,7 @@ impl Scalar {
         yes |= Choice::from((self.0[2] > SECP256K1_N_H_2) as u8) & !no;
         no |= Choice::from((self.0[1] < SECP256K1_N_H_1) as u8) & !yes;
         yes |= Choice::from((self.0[1] > SECP256K1_N_H_1) as u8) & !no;
-        yes |= Choice::from((self.0[0] >= SECP256K1_N_H_0) as u8) & !no;
+        yes |= Choice::from((self.0[0] > SECP256K1_N_H_0) as u8) & !no;
         yes.into()
     }
 
-- 
2.43.0


From 68a8a73668a87b53b06a493f638b725f3201072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:44 +0000
Subject: [PATCH 7/7] fix: no secret-dependent branch in the constant-time
 point addition

Jacobian::add_ge skipped the second comparison when the first was false;
evaluate both, as the constant-time documentation of the callers requires.
---
 core/src/group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/group.rs b/core/src/group.rs
index 89b9020..b0a1a48 100644
--- a/core/src/group.rs
+++ b/core/src/group.rs
@@ -475,7 +475,7 @@ impl Jacobian {
         let mut m_alt = u2.neg(1);
         let tt = u1 * m_alt;
         rr += tt;
-        let degenerate = m.normalizes_to_zero() && rr.normalizes_to_zero();
+        let degenerate = m.normalizes_to_zero() & rr.normalizes_to_zero();
         let mut rr_alt = s1;
         rr_alt.mul_int(2);
         m_alt += u1;
-- 
2.43.0

