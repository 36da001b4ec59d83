From 8699dcbb3770b9be8ab56321428af806357b3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 1/5] hook: cfg(ragu_verif) access to private items of
 ragu_circuits

---
 crates/ragu_circuits/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/ragu_circuits/src/lib.rs b/crates/ragu_circuits/src/lib.rs
index 3768fe4..a6d8a57 100644
--- a/crates/ragu_circuits/src/lib.rs
+++ b/crates/ragu_circuits/src/lib.rs
@@ -324,3 +324,11 @@ impl<'a, F: Field, R: Rank> BondingObject<'a, F, R> {
         self.inner
     }
 }
+
+/// Access to private items for the verification harness; absent from normal builds.
+#[allow(unexpected_cfgs)]
+#[cfg(ragu_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("RAGU_VERIF_HOOKS"), "/circuits.rs"));
+}
-- 
2.43.0


From 73233b3cbbf7766c0693bfa90355937ff4780772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 2/5] fix: sy evaluator must not hold its table borrow while a
 linear combination is built

LinearExpression::extend takes wires by value, so a virtual wire is cloned and
dropped while enforce_zero collects terms; the held RefMut made that panic.
---
 crates/ragu_circuits/src/s/sy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/ragu_circuits/src/s/sy.rs b/crates/ragu_circuits/src/s/sy.rs
index 380fd5e..c1b71da 100644
--- a/crates/ragu_circuits/src/s/sy.rs
+++ b/crates/ragu_circuits/src/s/sy.rs
@@ -71,7 +71,7 @@ use ragu_core::{
 };
 
 use alloc::{vec, vec::Vec};
-use core::cell::{RefCell, RefMut};
+use core::cell::RefCell;
 
 use crate::{
     DriverScope,
@@ -450,21 +450,21 @@ impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F
 ///
 /// # Tuple Fields
 ///
-/// - `.0` — Mutable borrow of the [`VirtualTable`] for value distribution,
-///   held for the duration of the linear combination to avoid repeated
-///   [`RefCell::borrow_mut`] calls.
+/// - `.0` — The [`VirtualTable`] for value distribution. Borrowed per term only:
+///   wires may be cloned or dropped while the linear combination is built, as
+///   [`LinearExpression::extend`] does with the wires it is given.
 /// - `.1` — The $y^j$ coefficient for this constraint (from `current_y`).
 ///
 /// [`Driver::enforce_zero`]: ragu_core::drivers::Driver::enforce_zero
 struct TermEnforcer<'table, 'sy, F: Field, R: Rank>(
-    RefMut<'table, VirtualTable<'sy, F, R>>,
+    &'table RefCell<VirtualTable<'sy, F, R>>,
     Coeff<F>,
 );
 impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F>
     for TermEnforcer<'table, 'sy, F, R>
 {
-    fn add_term(mut self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
-        self.0.add(wire.index, coeff * self.1);
+    fn add_term(self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
+        self.0.borrow_mut().add(wire.index, coeff * self.1);
         self
     }
 
@@ -592,7 +592,7 @@ impl<'table, 'sy, F: Field, R: Rank> Driver<'table> for Evaluator<'table, 'sy, '
         self.scope.constraints += 1;
 
         lc(TermEnforcer(
-            self.virtual_table.borrow_mut(),
+            self.virtual_table,
             Coeff::Arbitrary(self.scope.current_y),
         ));
 
-- 
2.43.0


From 07f1b54e9cf0d03403d309a9e44f2a7597fdcfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:04 +0000
Subject: [PATCH 3/5] fix: fingerprints must tell a nested routine's outputs
 from the caller's own gates

Remapped outputs drew from the caller's gate sequences, so a constraint on an
output had the evaluation of one on a gate in its place: routines that differ
only in that shared a fingerprint.
---
 crates/ragu_circuits/src/metrics.rs | 64 ++++++++++++++---------------
 1 file changed, 30 insertions(+), 34 deletions(-)

diff --git a/crates/ragu_circuits/src/metrics.rs b/crates/ragu_circuits/src/metrics.rs
index 76aaf79..6673dab 100644
--- a/crates/ragu_circuits/src/metrics.rs
+++ b/crates/ragu_circuits/src/metrics.rs
@@ -231,10 +231,25 @@ struct CounterScope<F> {
     /// Running monomial for $d$ wires: $x_3^{i+1}$ at gate $i$.
     current_d: F,
 
+    /// Running $a$, $b$, $c$, $d$ monomials for remapped outputs of nested
+    /// routines, scaled by $h$ so that they never meet those of a gate.
+    current_output: [F; 4],
+
     /// Horner accumulator for the fingerprint evaluation result.
     result: F,
 }
 
+impl<F> CounterScope<F> {
+    /// Exchanges the sequences of gates and those of nested routines' outputs.
+    fn swap_sequences(&mut self) {
+        let [a, b, c, d] = &mut self.current_output;
+        core::mem::swap(&mut self.current_a, a);
+        core::mem::swap(&mut self.current_b, b);
+        core::mem::swap(&mut self.current_c, c);
+        core::mem::swap(&mut self.current_d, d);
+    }
+}
+
 /// A [`Driver`] that simultaneously counts constraints and computes routine
 /// identity fingerprints via Schwartz–Zippel evaluation.
 ///
@@ -323,6 +338,7 @@ impl<F: FromUniformBytes<64>> Counter<F> {
                 current_b: x1,
                 current_c: x2,
                 current_d: x3,
+                current_output: [x0, x1, x2, x3].map(|x| h * x),
                 result: h,
             },
             num_constraints: 0,
@@ -448,6 +464,7 @@ impl<'dr, F: FromUniformBytes<64>> Driver<'dr> for Counter<F> {
                 current_b: self.x1,
                 current_c: self.x2,
                 current_d: self.x3,
+                current_output: [self.x0, self.x1, self.x2, self.x3].map(|x| self.h * x),
                 result: self.h,
             },
         );
@@ -484,46 +501,25 @@ impl<'dr, F: FromUniformBytes<64>> Driver<'dr> for Counter<F> {
         // parent's geometric sequences.
         //
         // The remap calls `alloc` for each output wire, which may call
-        // `gate` internally. This has two side effects on the parent scope:
-        //
-        // 1. Geometric sequences advance — `current_a`, `current_b`,
-        //    `current_c` move past the remap gates.
-        // 2. `available_d` changes — the remap may consume a pending
-        //    d-wire or create a new one.
-        //
-        // Effect (1) is kept; effect (2) is rolled back. The asymmetry is
-        // deliberate:
-        //
-        // Sequences must advance because the remapped output wires need
-        // evaluations that are distinct from each other and from any
-        // subsequent parent allocation. Letting the sequences advance past
-        // the remap positions achieves this — each output wire lands at a
-        // unique geometric position in the parent's sequence space.
-        //
-        // `available_d` must be restored because in the real drivers
-        // (sxy, sx, sy), output wires are received directly from the
-        // child's evaluation — no parent gates are consumed and the
-        // parent's pairing state is untouched. The output remap is a
-        // Counter-only operation that exists solely to assign parent-scope
-        // evaluations to child output wires. If the remap were allowed to
-        // mutate `available_d`, the parent's subsequent allocation pattern
-        // would diverge from the real drivers: a pending d-wire could be
-        // consumed or created by the remap, changing which wire types
-        // subsequent `alloc` calls return. Restoring `available_d` keeps
-        // the parent's pairing trajectory identical to the real drivers.
+        // `gate` internally. Neither may leave a mark on the parent's gates:
         //
-        // After a routine call where the parent had a pending d-wire, the
-        // stashed wire retains its pre-call geometric value while the
-        // sequences have jumped forward past the remap positions. This
-        // creates a non-contiguous gap in the parent's sequence coverage.
-        // The gap is harmless — the stashed wire already has a distinct
-        // value, and Schwartz–Zippel only requires that all wire
-        // evaluations be distinct, not contiguous.
+        // 1. Geometric sequences. The outputs draw from sequences of their own
+        //    (`current_output`). Drawing from the parent's would give an output
+        //    the evaluation that a gate in its place would have, so that
+        //    routines which differ in which of the two they constrain would
+        //    share a fingerprint.
+        // 2. `available_d`. In the real drivers (sxy, sx, sy), output wires are
+        //    received directly from the child's evaluation — no parent gates
+        //    are consumed and the parent's pairing state is untouched. If the
+        //    remap were allowed to consume or create a pending d-wire, the
+        //    parent's subsequent allocation pattern would diverge from theirs.
+        self.scope.swap_sequences();
         let saved_d = self.scope.available_d.take();
 
         let parent_output = self.uncounted(|c| Ro::Output::map_gadget(&output, c))?;
 
         self.scope.available_d = saved_d;
+        self.scope.swap_sequences();
 
         Ok(parent_output)
     }
-- 
2.43.0


From 3fff320a3757eef0ddf3baddb5edc2a3df30b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:16 +0000
Subject: [PATCH 4/5] hook: cfg(ragu_verif) access to private items of ragu_pcd

---
 crates/ragu_pcd/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/ragu_pcd/src/lib.rs b/crates/ragu_pcd/src/lib.rs
index df42d56..66bf35f 100644
--- a/crates/ragu_pcd/src/lib.rs
+++ b/crates/ragu_pcd/src/lib.rs
@@ -274,3 +274,11 @@ impl<C: Cycle, R: Rank, const HEADER_SIZE: usize> Application<'_, C, R, HEADER_S
         .map(|(pcd, ())| pcd)
     }
 }
+
+/// Access to private items for the verification harness; absent from normal builds.
+#[allow(unexpected_cfgs, missing_docs)]
+#[cfg(ragu_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("RAGU_VERIF_HOOKS"), "/pcd.rs"));
+}
-- 
2.43.0


From 1f5ddf4c3481a7c1d0f89e31e2b08ab4ca2d56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:16 +0000
Subject: [PATCH 5/5] fix: refuse header suffixes that would wrap onto reserved
 ones

---
 crates/ragu_pcd/src/header.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ragu_pcd/src/header.rs b/crates/ragu_pcd/src/header.rs
index 50a5fe0..10dbd8b 100644
--- a/crates/ragu_pcd/src/header.rs
+++ b/crates/ragu_pcd/src/header.rs
@@ -38,7 +38,17 @@ pub struct Suffix {
 
 impl Suffix {
     /// Creates a new application-defined [`Header`] suffix.
+    ///
+    /// # Panics
+    ///
+    /// Panics if `value` is so large that no encoded suffix is left for it: the
+    /// smallest encoded suffixes are reserved for internal headers.
     pub const fn new(value: usize) -> Self {
+        assert!(
+            value <= usize::MAX - NUM_INTERNAL_SUFFIXES as usize,
+            "application header suffix is too large"
+        );
+
         Suffix {
             suffix: HeaderSuffix::Application(value),
         }
-- 
2.43.0

