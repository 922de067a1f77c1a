From 50c29a2ceff9334071545c0b89f0a6bb0474f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:51 +0000
Subject: [PATCH 1/2] fix: check load and store orderings on pre-v6 Arm without
 atomics

load and store of the single-core backend for pre-v6 Arm ignored their
ordering argument, so load(Release), load(AcqRel), store(Acquire) and
store(AcqRel) did not panic there as documented and as on every other
target.
---
 src/imp/interrupt/armv4t.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/imp/interrupt/armv4t.rs b/src/imp/interrupt/armv4t.rs
index 7d3567f..c0277c4 100644
--- a/src/imp/interrupt/armv4t.rs
+++ b/src/imp/interrupt/armv4t.rs
@@ -108,7 +108,12 @@ pub(super) mod atomic {
 
             impl $(<$($generics)*>)? $atomic_type $(<$($generics)*>)? {
                 #[inline]
-                pub(crate) fn load(&self, _order: Ordering) -> $value_type {
+                #[cfg_attr(
+                    all(debug_assertions, not(portable_atomic_no_track_caller)),
+                    track_caller
+                )]
+                pub(crate) fn load(&self, order: Ordering) -> $value_type {
+                    crate::utils::assert_load_ordering(order);
                     let src = self.v.get();
                     // SAFETY: any data races are prevented by atomic intrinsics and the raw
                     // pointer passed in is valid because we got it from a reference.
@@ -128,7 +133,12 @@ pub(super) mod atomic {
                 }
 
                 #[inline]
-                pub(crate) fn store(&self, val: $value_type, _order: Ordering) {
+                #[cfg_attr(
+                    all(debug_assertions, not(portable_atomic_no_track_caller)),
+                    track_caller
+                )]
+                pub(crate) fn store(&self, val: $value_type, order: Ordering) {
+                    crate::utils::assert_store_ordering(order);
                     let dst = self.v.get();
                     // SAFETY: any data races are prevented by atomic intrinsics and the raw
                     // pointer passed in is valid because we got it from a reference.
-- 
2.43.0


From 4fd9bd4893e826d99fb0fa67a8c04f2434e78bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:40 +0000
Subject: [PATCH 2/2] fix: do not clobber high halves of registers in 128-bit
 RMWs on s390x

rustc treats asm operands `out(..) _` on s390x as 32-bit, so with the
high-word facility (z196 or later) LLVM may keep a live value in the high
half of r12, r13, or the temporary register, which these RMWs overwrite.
---
 src/imp/atomic128/s390x.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/imp/atomic128/s390x.rs b/src/imp/atomic128/s390x.rs
index 1b74d17..0dc71d4 100644
--- a/src/imp/atomic128/s390x.rs
+++ b/src/imp/atomic128/s390x.rs
@@ -251,12 +251,16 @@ unsafe fn atomic_swap(dst: *mut u128, val: u128, _order: Ordering) -> u128 {
 /// - r0/r1 pair: previous value loaded (read-only for `$op`)
 /// - r12/r13 pair: new value that will be stored
 macro_rules! atomic_rmw_cas_3 {
-    ($name:ident, [$($reg:tt)*], $($op:tt)*) => {
+    ($name:ident, [$($tmp:ident),*], $($op:tt)*) => {
         #[inline]
         unsafe fn $name(dst: *mut u128, val: u128, _order: Ordering) -> u128 {
             debug_assert!(dst.addr() % 16 == 0);
             let val = U128 { whole: val };
             let (mut prev_hi, mut prev_lo);
+            // Do not use `out(..) _` because rustc treats it as a 32-bit operand, and LLVM
+            // may keep a live value in the high half of the register on z196 or later.
+            let (_new_hi, _new_lo): (u64, u64);
+            $(let $tmp: u64;)*
 
             // SAFETY: the caller must uphold the safety contract.
             // CDSG has SeqCst semantics.
@@ -271,15 +275,16 @@ macro_rules! atomic_rmw_cas_3 {
                     dst = in(reg) ptr_reg!(dst),
                     val_hi = in(reg) val.pair.hi,
                     val_lo = in(reg) val.pair.lo,
-                    $($reg)*
+                    $($tmp = out(reg) $tmp,)*
                     // Quadword atomic instructions work with even/odd pair of specified register and subsequent register.
                     out("r0") prev_hi,
                     out("r1") prev_lo,
-                    out("r12") _,
-                    out("r13") _,
+                    out("r12") _new_hi,
+                    out("r13") _new_lo,
                     // Do not use `preserves_flags` because CDSG modifies the condition code.
                     options(nostack),
                 );
+                $(let _ = $tmp;)*
                 U128 { pair: Pair { hi: prev_hi, lo: prev_lo } }.whole
             }
         }
@@ -297,6 +302,9 @@ macro_rules! atomic_rmw_cas_2 {
         unsafe fn $name(dst: *mut u128, _order: Ordering) -> u128 {
             debug_assert!(dst.addr() % 16 == 0);
             let (mut prev_hi, mut prev_lo);
+            // Do not use `out(..) _` because rustc treats it as a 32-bit operand, and LLVM
+            // may keep a live value in the high half of the register on z196 or later.
+            let (_new_hi, _new_lo): (u64, u64);
 
             // SAFETY: the caller must uphold the safety contract.
             // CDSG has SeqCst semantics.
@@ -313,8 +321,8 @@ macro_rules! atomic_rmw_cas_2 {
                     // Quadword atomic instructions work with even/odd pair of specified register and subsequent register.
                     out("r0") prev_hi,
                     out("r1") prev_lo,
-                    out("r12") _,
-                    out("r13") _,
+                    out("r12") _new_hi,
+                    out("r13") _new_lo,
                     // Do not use `preserves_flags` because CDSG modifies the condition code.
                     options(nostack),
                 );
@@ -393,7 +401,7 @@ cfg_sel!({
             select_op!("h", "%r12", "%r0", "{val_hi}"), // if cc == 2 { r12 = r0 } else { r12 = val_hi }
         }
         atomic_rmw_cas_3! {
-            atomic_umax, [tmp = out(reg) _,],
+            atomic_umax, [tmp],
             "clgr %r1, {val_lo}",                        // if r1(u) < val_lo(u) { cc = 1 } else if r1(u) > val_lo(u) { cc = 2 } else { cc = 0 }
             select_op!("h", "{tmp}", "%r1", "{val_lo}"), // if cc == 2 { tmp = r1 } else { tmp = val_lo }
             "clgr %r0, {val_hi}",                        // if r0(u) < val_hi(u) { cc = 1 } else if r0(u) > val_hi(u) { cc = 2 } else { cc = 0 }
@@ -412,7 +420,7 @@ cfg_sel!({
             select_op!("l", "%r12", "%r0", "{val_hi}"), // if cc == 1 { r12 = r0 } else { r12 = val_hi }
         }
         atomic_rmw_cas_3! {
-            atomic_umin, [tmp = out(reg) _,],
+            atomic_umin, [tmp],
             "clgr %r1, {val_lo}",                        // if r1(u) < val_lo(u) { cc = 1 } else if r1(u) > val_lo(u) { cc = 2 } else { cc = 0 }
             select_op!("l", "{tmp}", "%r1", "{val_lo}"), // if cc == 1 { tmp = r1 } else { tmp = val_lo }
             "clgr %r0, {val_hi}",                        // if r0(u) < val_hi(u) { cc = 1 } else if r0(u) > val_hi(u) { cc = 2 } else { cc = 0 }
-- 
2.43.0

