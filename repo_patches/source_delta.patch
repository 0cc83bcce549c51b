From a747ef75f8939aa5fb31c2436df8d747b8fd42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:02 +0000
Subject: [PATCH 1/3] verif: feature-query hook in vsimd::isa under
 cfg(vsimd_verif)

---
 crates/vsimd/src/isa.rs | 39 +++++++++++++++++++++++++++++++++++++--
 crates/vsimd/src/lib.rs |  3 ++-
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/crates/vsimd/src/isa.rs b/crates/vsimd/src/isa.rs
index 95dba94..4e0a9ac 100644
--- a/crates/vsimd/src/isa.rs
+++ b/crates/vsimd/src/isa.rs
@@ -92,20 +92,55 @@ unsafe impl InstructionSet for Fallback {
     }
 }
 
+/// Verification hook: lets a harness observe and veto CPU feature queries.
+#[cfg(vsimd_verif)]
+pub mod verif {
+    use core::sync::atomic::{AtomicPtr, Ordering::SeqCst};
+
+    static HOOK: AtomicPtr<()> = AtomicPtr::new(core::ptr::null_mut());
+
+    #[inline]
+    pub fn install(f: fn(&'static str) -> bool) {
+        HOOK.store(f as *mut (), SeqCst);
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn allows(feature: &'static str) -> bool {
+        let p = HOOK.load(SeqCst);
+        if p.is_null() {
+            return true;
+        }
+        let f: fn(&'static str) -> bool = unsafe { core::mem::transmute(p) };
+        f(feature)
+    }
+}
+
 #[allow(unused_macros)]
 macro_rules! is_feature_detected {
     ($feature:tt) => {{
-        #[cfg(target_feature = $feature)]
+        #[cfg(all(target_feature = $feature, not(vsimd_verif)))]
         {
             true
         }
+        #[cfg(all(target_feature = $feature, vsimd_verif))]
+        {
+            $crate::isa::verif::allows($feature)
+        }
         #[cfg(not(target_feature = $feature))]
         {
             #[cfg(feature = "detect")]
             {
                 #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
                 {
-                    std::arch::is_x86_feature_detected!($feature)
+                    #[cfg(not(vsimd_verif))]
+                    {
+                        std::arch::is_x86_feature_detected!($feature)
+                    }
+                    #[cfg(vsimd_verif)]
+                    {
+                        std::arch::is_x86_feature_detected!($feature) && $crate::isa::verif::allows($feature)
+                    }
                 }
                 #[cfg(target_arch = "arm")]
                 {
diff --git a/crates/vsimd/src/lib.rs b/crates/vsimd/src/lib.rs
index 09b12ec..c5e9dc5 100644
--- a/crates/vsimd/src/lib.rs
+++ b/crates/vsimd/src/lib.rs
@@ -35,7 +35,8 @@
     clippy::items_after_statements,
     clippy::match_same_arms,
     clippy::many_single_char_names,
-    clippy::let_underscore_untyped
+    clippy::let_underscore_untyped,
+    unexpected_cfgs
 )]
 
 #[cfg(feature = "alloc")]
-- 
2.43.0


From adc5e95c4e25197aba79358c18305942505e6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 2/3] fix: byte-swap vectors panicked on CPUs with SSSE3 but
 not AVX2

The dispatch tables of unicode-simd select the ssse3 kernel, while
u16x8_bswap/u32x4_bswap/u64x2_bswap were only implemented from SSE4.1 on,
so utf16/utf32_swap_endianness hit unreachable!() for one full vector or more.
pshufb, the only instruction they need, is SSSE3.
---
 crates/vsimd/src/simd128.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/vsimd/src/simd128.rs b/crates/vsimd/src/simd128.rs
index 867eca3..4fb20b9 100644
--- a/crates/vsimd/src/simd128.rs
+++ b/crates/vsimd/src/simd128.rs
@@ -1,13 +1,10 @@
 #![allow(clippy::missing_transmute_annotations)]
 
-use crate::isa::{NEON, SSE2, SSE41, WASM128};
+use crate::isa::{NEON, SSE2, SSE41, SSSE3, WASM128};
 use crate::unified;
 use crate::vector::V128;
 use crate::SIMD64;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-use crate::isa::SSSE3;
-
 #[cfg(any(
     any(target_arch = "x86", target_arch = "x86_64"),
     any(all(feature = "unstable", target_arch = "arm"), target_arch = "aarch64"),
@@ -643,10 +640,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u16x8_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U16X8);
         }
 
@@ -661,10 +658,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u32x4_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U32X4);
         }
 
@@ -679,10 +676,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u64x2_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U64X2);
         }
 
-- 
2.43.0


From 0c94ca6b41f11d8aab64a9bba8f2871eda7ecafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 3/3] fix: par_encode returns Err instead of panicking when dst
 is too short

The documentation promises Err; the parallel path sliced dst without checking its length.
---
 crates/base64-simd/src/parallel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/base64-simd/src/parallel.rs b/crates/base64-simd/src/parallel.rs
index 285860e..08c6c9a 100644
--- a/crates/base64-simd/src/parallel.rs
+++ b/crates/base64-simd/src/parallel.rs
@@ -21,8 +21,10 @@ impl Base64 {
         }
 
         let encoded_len = encoded_length_unchecked(src.len(), self.config);
+        ensure!(dst.len() >= encoded_len);
+
         let dst = unsafe { dst.into_uninit_slice() };
-        let dst = &mut dst[..encoded_len]; // panic?
+        let dst = &mut dst[..encoded_len];
 
         let chunks = (b + p) / p;
 
-- 
2.43.0

