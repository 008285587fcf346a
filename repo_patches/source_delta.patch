From a3d0c842fe3e10ad006991e8f7179c1a2ffbffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:14 +0000
Subject: [PATCH 1/6] fix: pointer vector offset_from measures self from
 origin, not the reverse

wrapping_offset_from (and offset_from) computed (origin - self), so the
distance had the wrong sign: it is documented as the inverse of offset and
must agree with the scalar pointer method.
---
 src/api/minimal/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/minimal/ptr.rs b/src/api/minimal/ptr.rs
index d9e47c9..290ffb5 100644
--- a/src/api/minimal/ptr.rs
+++ b/src/api/minimal/ptr.rs
@@ -1166,7 +1166,7 @@ macro_rules! impl_minimal_p {
                 let x: $isize_ty = unsafe { crate::mem::transmute(self) };
                 let y: $isize_ty = unsafe { crate::mem::transmute(origin) };
                 // note: {-,/} currently perform wrapping_{sub, div}
-                (y - x) / (crate::mem::size_of::<T>() as isize)
+                (x - y) / (crate::mem::size_of::<T>() as isize)
             }
 
             /// Calculates the offset from a pointer (convenience for
-- 
2.43.0


From 77620a28945c608cc49b7db95cfa26b640f6c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:14 +0000
Subject: [PATCH 2/6] fix: rotate_left/rotate_right of signed lanes and
 negative amounts

The right shift is arithmetic for signed lanes, so the wrapped bits were
or-ed with copies of the sign bit, and a negative amount left a negative
shift amount after %, which is undefined behavior.
---
 src/api/ops/vector_rotates.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/api/ops/vector_rotates.rs b/src/api/ops/vector_rotates.rs
index 6c4bed7..11a17dc 100644
--- a/src/api/ops/vector_rotates.rs
+++ b/src/api/ops/vector_rotates.rs
@@ -15,8 +15,14 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self << n) | (self >> ((LANE_WIDTH - n) % LANE_WIDTH))
+                // (LANE_WIDTH is a power of two; `%` would keep the sign of
+                // negative amounts)
+                let n = n & (LANE_WIDTH - 1);
+                let low = self >> ((LANE_WIDTH - n) & (LANE_WIDTH - 1));
+                // `>>` is arithmetic for signed lanes: only the `n` low bits
+                // are the ones that wrap around
+                let low = if $elem_ty::min_value() == 0 { low } else { low & !($id::splat(!0) << n) };
+                (self << n) | low
             }
 
             /// Shifts the bits of each lane to the right by the specified
@@ -30,8 +36,15 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self >> n) | (self << ((LANE_WIDTH - n) % LANE_WIDTH))
+                // (LANE_WIDTH is a power of two; `%` would keep the sign of
+                // negative amounts)
+                let n = n & (LANE_WIDTH - 1);
+                let m = (LANE_WIDTH - n) & (LANE_WIDTH - 1);
+                let low = self >> n;
+                // `>>` is arithmetic for signed lanes: only the `m` low bits
+                // belong to the result (all bits come from `<<` if n == 0)
+                let low = if $elem_ty::min_value() == 0 { low } else { low & !($id::splat(!0) << m) };
+                low | (self << m)
             }
         }
 
-- 
2.43.0


From 06c7bf1d43da86765054ebc1f477da4187b77a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:26 +0000
Subject: [PATCH 3/6] fix: casting float vectors to integer vectors saturates
 like scalar as

simd_cast is undefined for NaN and out-of-range lanes, but cast() is a safe
method documented as a numeric cast; simd_as has the semantics of the scalar
conversion (saturating, NaN to zero) and is otherwise identical.
---
 src/api/cast/macros.rs | 4 ++--
 src/codegen/llvm.rs    | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/cast/macros.rs b/src/api/cast/macros.rs
index 3bb29f0..3f980f8 100644
--- a/src/api/cast/macros.rs
+++ b/src/api/cast/macros.rs
@@ -5,9 +5,9 @@ macro_rules! impl_from_cast_ {
         impl crate::api::cast::FromCast<$from_ty> for $id {
             #[inline]
             fn from_cast(x: $from_ty) -> Self {
-                use crate::llvm::simd_cast;
+                use crate::llvm::simd_as;
                 debug_assert_eq!($from_ty::lanes(), $id::lanes());
-                Simd(unsafe { simd_cast(x.0) })
+                Simd(unsafe { simd_as(x.0) })
             }
         }
 
diff --git a/src/codegen/llvm.rs b/src/codegen/llvm.rs
index bb482fa..f3a1e31 100644
--- a/src/codegen/llvm.rs
+++ b/src/codegen/llvm.rs
@@ -81,6 +81,7 @@ extern "platform-intrinsic" {
     pub(crate) fn simd_extract<T, U>(x: T, idx: u32) -> U;
 
     pub(crate) fn simd_cast<T, U>(x: T) -> U;
+    pub(crate) fn simd_as<T, U>(x: T) -> U;
 
     pub(crate) fn simd_add<T>(x: T, y: T) -> T;
     pub(crate) fn simd_sub<T>(x: T, y: T) -> T;
-- 
2.43.0


From 5d2f653e3b940f21a618bc3ba2ce7c69f94532b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 4/6] fix: shuffle! of pointer vectors produces the pointer
 vector type

The Output of Shuffle for *const T / *mut T named a vector of T instead of a
vector of pointers, so no shuffle! of a pointer vector compiled.
---
 src/codegen/shuffle.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index d3acd48..383d1a7 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -113,28 +113,28 @@ impl_shuffle! { [u32; 8], msize, crate::codegen::msizex8 }
 
 impl<T> Seal<[u32; 2]> for *const T {}
 impl<T> Shuffle<[u32; 2]> for *const T {
-    type Output = crate::codegen::cptrx2<T>;
+    type Output = crate::codegen::cptrx2<*const T>;
 }
 impl<T> Seal<[u32; 4]> for *const T {}
 impl<T> Shuffle<[u32; 4]> for *const T {
-    type Output = crate::codegen::cptrx4<T>;
+    type Output = crate::codegen::cptrx4<*const T>;
 }
 impl<T> Seal<[u32; 8]> for *const T {}
 impl<T> Shuffle<[u32; 8]> for *const T {
-    type Output = crate::codegen::cptrx8<T>;
+    type Output = crate::codegen::cptrx8<*const T>;
 }
 
 impl<T> Seal<[u32; 2]> for *mut T {}
 impl<T> Shuffle<[u32; 2]> for *mut T {
-    type Output = crate::codegen::mptrx2<T>;
+    type Output = crate::codegen::mptrx2<*mut T>;
 }
 impl<T> Seal<[u32; 4]> for *mut T {}
 impl<T> Shuffle<[u32; 4]> for *mut T {
-    type Output = crate::codegen::mptrx4<T>;
+    type Output = crate::codegen::mptrx4<*mut T>;
 }
 impl<T> Seal<[u32; 8]> for *mut T {}
 impl<T> Shuffle<[u32; 8]> for *mut T {
-    type Output = crate::codegen::mptrx8<T>;
+    type Output = crate::codegen::mptrx8<*mut T>;
 }
 
 impl_shuffle! { [u32; 1], i128, crate::codegen::i128x1 }
-- 
2.43.0


From 8b58c2d47662a6e86c9f7755fac746bd5ee18437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 5/6] fix: shuffle! producing 32-lane 16-bit masks

The Shuffle implementation for m16x32 was missing, unlike i16x32 and u16x32.
---
 src/codegen/shuffle.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen/shuffle.rs b/src/codegen/shuffle.rs
index 383d1a7..f8b132f 100644
--- a/src/codegen/shuffle.rs
+++ b/src/codegen/shuffle.rs
@@ -50,6 +50,7 @@ impl_shuffle! { [u32; 2], m16, crate::codegen::m16x2 }
 impl_shuffle! { [u32; 4], m16, crate::codegen::m16x4 }
 impl_shuffle! { [u32; 8], m16, crate::codegen::m16x8 }
 impl_shuffle! { [u32; 16], m16, crate::codegen::m16x16 }
+impl_shuffle! { [u32; 32], m16, crate::codegen::m16x32 }
 
 impl_shuffle! { [u32; 2], i32, crate::codegen::i32x2 }
 impl_shuffle! { [u32; 4], i32, crate::codegen::i32x4 }
-- 
2.43.0


From 5107a9ae6678e378b35fc59de5abc637fa7d375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:46 +0000
Subject: [PATCH 6/6] fix: casting 128-bit integers to m128x1 yields a
 canonical mask

---
 src/api/cast/v128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/cast/v128.rs b/src/api/cast/v128.rs
index 2e10b97..e310a35 100644
--- a/src/api/cast/v128.rs
+++ b/src/api/cast/v128.rs
@@ -299,4 +299,4 @@ impl_from_cast_mask!(
 // FIXME[test_v128]: 64-bit single element vectors into_cast impls
 impl_from_cast!(i128x1[test_v128]: u128x1, m128x1);
 impl_from_cast!(u128x1[test_v128]: i128x1, m128x1);
-impl_from_cast!(m128x1[test_v128]: i128x1, u128x1);
+impl_from_cast_mask!(m128x1[test_v128]: i128x1, u128x1);
-- 
2.43.0

