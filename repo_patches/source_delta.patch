From d5a336c641f8082ce017fe5af9bcca28ef687441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:28 +0000
Subject: [PATCH 1/9] hook: expose the wide endoscalar integer under
 cfg(ragu_verif)

---
 crates/ragu_arithmetic/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ragu_arithmetic/src/lib.rs b/crates/ragu_arithmetic/src/lib.rs
index 2ced12e..7ce485e 100644
--- a/crates/ragu_arithmetic/src/lib.rs
+++ b/crates/ragu_arithmetic/src/lib.rs
@@ -62,6 +62,7 @@
 #![no_std]
 #![allow(non_snake_case)]
 #![allow(clippy::type_complexity)]
+#![allow(unexpected_cfgs)] // `ragu_verif` guards monitoring hooks
 #![deny(rustdoc::broken_intra_doc_links)]
 #![deny(missing_docs)]
 #![deny(unsafe_code)]
@@ -104,6 +105,14 @@ pub use ragu_macros::repr256;
 /// like 134-bit challenges. This may end up being removed if 128 bits suffices.
 pub use u128 as Uendo;
 
+/// Access to private items for external runtime monitors; compiled only with
+/// `--cfg ragu_verif`.
+#[cfg(ragu_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::uendo::Uendo as WideUendo;
+}
+
 /// Represents a "cycle" of elliptic curves where the scalar field of one curve
 /// is the base field of the other, and vice-versa.
 ///
-- 
2.43.0


From 4f32c567464cd56559c378a89d27763f2e16c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 2/9] hook: expose circuit measurements, placements and traces
 under cfg(ragu_verif)

---
 crates/ragu_circuits/src/lib.rs   |   3 +
 crates/ragu_circuits/src/verif.rs | 153 ++++++++++++++++++++++++++++++
 2 files changed, 156 insertions(+)
 create mode 100644 crates/ragu_circuits/src/verif.rs

diff --git a/crates/ragu_circuits/src/lib.rs b/crates/ragu_circuits/src/lib.rs
index 3768fe4..c46842a 100644
--- a/crates/ragu_circuits/src/lib.rs
+++ b/crates/ragu_circuits/src/lib.rs
@@ -31,6 +31,9 @@ mod s;
 pub mod staging;
 mod trace;
 mod trivial;
+#[cfg(ragu_verif)]
+#[doc(hidden)]
+pub mod verif;
 
 pub use metrics::{RoutineFingerprint, RoutineIdentity, SegmentRecord};
 pub use trace::Trace;
diff --git a/crates/ragu_circuits/src/verif.rs b/crates/ragu_circuits/src/verif.rs
new file mode 100644
index 0000000..974be5d
--- /dev/null
+++ b/crates/ragu_circuits/src/verif.rs
@@ -0,0 +1,153 @@
+//! Read access to private structures for external runtime monitors.
+//!
+//! Compiled only with `--cfg ragu_verif`; nothing in the library uses it.
+
+#![allow(missing_docs)]
+
+use ff::{Field, FromUniformBytes};
+use ragu_core::Result;
+
+use alloc::{boxed::Box, vec::Vec};
+
+use crate::{
+    BondingObject, Circuit, CircuitObject, RoutineFingerprint, RoutineIdentity,
+    floor_planner::{ConstraintSegment, floor_plan},
+    metrics::{self, SegmentRecord},
+    polynomials::{Rank, sparse},
+    trace::{Segment, Trace},
+};
+
+/// One segment's placement: first gate, first constraint, gates, constraints.
+pub type Place = (usize, usize, usize, usize);
+
+/// One segment's measurement: gates, constraints, routine fingerprint.
+pub type Measure = (usize, usize, Option<RoutineFingerprint>);
+
+fn measures(records: &[SegmentRecord]) -> Vec<Measure> {
+    records
+        .iter()
+        .map(|r| {
+            let id = match r.identity() {
+                RoutineIdentity::Root => None,
+                RoutineIdentity::Routine(f) => Some(*f),
+            };
+            (r.num_gates(), r.num_constraints(), id)
+        })
+        .collect()
+}
+
+fn to_plan(plan: &[Place]) -> Vec<ConstraintSegment> {
+    plan.iter()
+        .map(
+            |&(gate_start, constraint_start, num_gates, num_constraints)| ConstraintSegment {
+                gate_start,
+                constraint_start,
+                num_gates,
+                num_constraints,
+            },
+        )
+        .collect()
+}
+
+fn of_plan(plan: &[ConstraintSegment]) -> Vec<Place> {
+    plan.iter()
+        .map(|s| {
+            (
+                s.gate_start,
+                s.constraint_start,
+                s.num_gates,
+                s.num_constraints,
+            )
+        })
+        .collect()
+}
+
+/// What measuring a circuit reports.
+pub struct Metrics {
+    pub num_gates: usize,
+    pub num_constraints: usize,
+    pub degree_ky: usize,
+    pub segments: Vec<Measure>,
+    pub plan: Vec<Place>,
+}
+
+/// Measures a circuit without checking any bound.
+pub fn measure<F: FromUniformBytes<64>, C: Circuit<F>>(circuit: &C) -> Result<Metrics> {
+    let m = metrics::eval(circuit)?;
+    Ok(Metrics {
+        num_gates: m.num_gates,
+        num_constraints: m.num_constraints,
+        degree_ky: m.degree_ky,
+        plan: of_plan(&floor_plan(&m.segments)),
+        segments: measures(&m.segments),
+    })
+}
+
+/// A single circuit's wiring polynomial, outside any registry.
+pub struct Object<'a, F: Field, R: Rank>(Box<dyn CircuitObject<F, R> + 'a>);
+
+impl<'a, F: Field, R: Rank> Object<'a, F, R> {
+    pub fn new<C: Circuit<F> + 'a>(circuit: C) -> Result<Self>
+    where
+        F: FromUniformBytes<64>,
+    {
+        crate::into_circuit_object(circuit).map(Self)
+    }
+
+    pub fn bonding(object: BondingObject<'a, F, R>) -> Self {
+        Self(object.into_inner())
+    }
+
+    pub fn counts(&self) -> (usize, usize) {
+        self.0.constraint_counts()
+    }
+
+    pub fn segments(&self) -> Vec<Measure> {
+        measures(self.0.segment_records())
+    }
+
+    /// The floor plan the registry would use.
+    pub fn plan(&self) -> Vec<Place> {
+        of_plan(&floor_plan(self.0.segment_records()))
+    }
+
+    pub fn sxy(&self, x: F, y: F, plan: &[Place]) -> F {
+        self.0.sxy(x, y, &to_plan(plan))
+    }
+
+    pub fn sx(&self, x: F, plan: &[Place]) -> sparse::Polynomial<F, R> {
+        self.0.sx(x, &to_plan(plan))
+    }
+
+    pub fn sy(&self, y: F, plan: &[Place]) -> sparse::Polynomial<F, R> {
+        self.0.sy(y, &to_plan(plan))
+    }
+}
+
+/// A trace's segments in order, each as its four wire vectors.
+pub fn trace_segments<F: Field>(trace: &Trace<F>) -> Vec<[Vec<F>; 4]> {
+    trace
+        .segments
+        .iter()
+        .map(|s| [s.a.clone(), s.b.clone(), s.c.clone(), s.d.clone()])
+        .collect()
+}
+
+/// The inverse of [`trace_segments`].
+pub fn trace_from<F: Field>(segments: Vec<[Vec<F>; 4]>) -> Trace<F> {
+    Trace {
+        segments: segments
+            .into_iter()
+            .map(|[a, b, c, d]| Segment { a, b, c, d })
+            .collect(),
+    }
+}
+
+/// Assembles a trace under an explicit floor plan.
+pub fn assemble<F: Field, R: Rank>(
+    trace: &Trace<F>,
+    plan: &[Place],
+    alpha: F,
+) -> Result<sparse::Polynomial<F, R>> {
+    trace.assemble(&to_plan(plan), alpha)
+}
-- 
2.43.0


From 5965e4878c31c8c164acec4e9179c9d5a7dfb248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 3/9] fix: let enforce_zero closures clone wires when
 restricting s(X, y)

The restriction evaluator kept its wire table mutably borrowed for the whole
linear combination, so a closure that cloned or dropped a wire produced by
add panicked with 'RefCell already borrowed' although every other driver
accepts it.
---
 crates/ragu_circuits/src/s/sy.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/ragu_circuits/src/s/sy.rs b/crates/ragu_circuits/src/s/sy.rs
index 380fd5e..9d05966 100644
--- a/crates/ragu_circuits/src/s/sy.rs
+++ b/crates/ragu_circuits/src/s/sy.rs
@@ -71,7 +71,7 @@ use ragu_core::{
 };
 
 use alloc::{vec, vec::Vec};
-use core::cell::{RefCell, RefMut};
+use core::cell::RefCell;
 
 use crate::{
     DriverScope,
@@ -450,21 +450,21 @@ impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F
 ///
 /// # Tuple Fields
 ///
-/// - `.0` — Mutable borrow of the [`VirtualTable`] for value distribution,
-///   held for the duration of the linear combination to avoid repeated
-///   [`RefCell::borrow_mut`] calls.
+/// - `.0` — The shared [`VirtualTable`] for value distribution. It is borrowed
+///   per term, because the closure building the linear combination may clone
+///   or drop wires, which borrows the table too.
 /// - `.1` — The $y^j$ coefficient for this constraint (from `current_y`).
 ///
 /// [`Driver::enforce_zero`]: ragu_core::drivers::Driver::enforce_zero
 struct TermEnforcer<'table, 'sy, F: Field, R: Rank>(
-    RefMut<'table, VirtualTable<'sy, F, R>>,
+    &'table RefCell<VirtualTable<'sy, F, R>>,
     Coeff<F>,
 );
 impl<'table, 'sy, F: Field, R: Rank> LinearExpression<Wire<'table, 'sy, F, R>, F>
     for TermEnforcer<'table, 'sy, F, R>
 {
-    fn add_term(mut self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
-        self.0.add(wire.index, coeff * self.1);
+    fn add_term(self, wire: &Wire<'table, 'sy, F, R>, coeff: Coeff<F>) -> Self {
+        self.0.borrow_mut().add(wire.index, coeff * self.1);
         self
     }
 
@@ -592,7 +592,7 @@ impl<'table, 'sy, F: Field, R: Rank> Driver<'table> for Evaluator<'table, 'sy, '
         self.scope.constraints += 1;
 
         lc(TermEnforcer(
-            self.virtual_table.borrow_mut(),
+            self.virtual_table,
             Coeff::Arbitrary(self.scope.current_y),
         ));
 
-- 
2.43.0


From 98dc9fcb07f276957f4916b5dc7b303d247c6124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 4/9] fix: resolve chains of virtual wires without recursion

Dropping the last wire of a long chain of add calls recursed once per link
and overflowed the stack while restricting s(X, y), aborting the process
for circuits every other evaluator handles.
---
 crates/ragu_circuits/src/s/sy.rs | 36 +++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/crates/ragu_circuits/src/s/sy.rs b/crates/ragu_circuits/src/s/sy.rs
index 9d05966..ca06af6 100644
--- a/crates/ragu_circuits/src/s/sy.rs
+++ b/crates/ragu_circuits/src/s/sy.rs
@@ -283,26 +283,32 @@ impl<F: Field, R: Rank> VirtualTable<'_, F, R> {
     /// to the `self.free` vector) if the count reaches zero.
     ///
     /// Resolved virtual wires distribute their accumulated value to all
-    /// constituent terms, which are then recursively freed. This cascading
+    /// constituent terms, which are then freed in turn. This cascading
     /// resolution eventually reaches allocated wires (A, B, C, D) where the values
     /// are written to the polynomial.
     fn free(&mut self, index: WireIndex) {
-        if let WireIndex::Virtual(index) = index {
-            // Invariant: refcount must be positive before decrementing.
-            assert!(self.wires[index].refcount > 0);
-            self.wires[index].refcount -= 1;
-
-            if self.wires[index].refcount == 0 {
-                let mut terms = vec![];
-                core::mem::swap(&mut terms, &mut self.wires[index].terms);
-                let value = self.wires[index].value;
-                for (wire, coeff) in terms.drain(..) {
-                    self.add(wire, value * coeff);
-                    self.free(wire);
+        // Worklist rather than recursion: chains of virtual wires can be
+        // arbitrarily long.
+        let mut pending = vec![];
+        let mut next = Some(index);
+        while let Some(index) = next {
+            if let WireIndex::Virtual(index) = index {
+                // Invariant: refcount must be positive before decrementing.
+                assert!(self.wires[index].refcount > 0);
+                self.wires[index].refcount -= 1;
+
+                if self.wires[index].refcount == 0 {
+                    let terms = core::mem::take(&mut self.wires[index].terms);
+                    let value = self.wires[index].value;
+                    for (wire, coeff) in terms {
+                        self.add(wire, value * coeff);
+                        pending.push(wire);
+                    }
+                    self.wires[index].value = Coeff::Zero;
+                    self.free.push(index);
                 }
-                self.wires[index].value = Coeff::Zero;
-                self.free.push(index);
             }
+            next = pending.pop();
         }
     }
 
-- 
2.43.0


From 239ee3901f55ad09682708fade8a11a92b3d2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:18 +0000
Subject: [PATCH 5/9] fix: keep nested routine outputs apart from local wires
 in fingerprints

---
 crates/ragu_circuits/src/metrics.rs | 112 +++++++++++++++-------------
 1 file changed, 61 insertions(+), 51 deletions(-)

diff --git a/crates/ragu_circuits/src/metrics.rs b/crates/ragu_circuits/src/metrics.rs
index 76aaf79..58ec372 100644
--- a/crates/ragu_circuits/src/metrics.rs
+++ b/crates/ragu_circuits/src/metrics.rs
@@ -231,6 +231,10 @@ struct CounterScope<F> {
     /// Running monomial for $d$ wires: $x_3^{i+1}$ at gate $i$.
     current_d: F,
 
+    /// Running value for the output wires of nested routines:
+    /// $x_4^{i+1}$ for the first output wire of the $i$-th nested call.
+    current_output: F,
+
     /// Horner accumulator for the fingerprint evaluation result.
     result: F,
 }
@@ -245,8 +249,9 @@ struct CounterScope<F> {
 /// context.
 ///
 /// Nested routine outputs are treated as auxiliary inputs to the caller: on
-/// return, output wires are remapped to fresh allocations in the parent scope
-/// rather than folding the child's fingerprint scalar. This makes each
+/// return, output wires are remapped to fresh values, drawn from sequences of
+/// their own (bases $x_4$ and $x_5$), rather than folding the child's
+/// fingerprint scalar. This makes each
 /// routine's fingerprint capture only its *internal* constraint structure.
 struct Counter<F> {
     scope: CounterScope<F>,
@@ -255,7 +260,7 @@ struct Counter<F> {
     segments: Vec<SegmentRecord>,
 
     /// When false, `gate` advances geometric sequences but does not increment
-    /// constraint counts.  Used during input and output wire remapping in
+    /// constraint counts.  Used during input wire remapping in
     /// [`routine`](Driver::routine), where only `alloc` (and transitively
     /// `mul`, which calls `gate`) is reachable via [`WireMap::convert_wire`].
     counting: bool,
@@ -272,6 +277,12 @@ struct Counter<F> {
     /// Base for the $d$-wire geometric sequence.
     x3: F,
 
+    /// Base for the sequence over nested routine calls.
+    x4: F,
+
+    /// Base for the sequence over the output wires of one nested call.
+    x5: F,
+
     /// Multiplier for Horner accumulation, applied per [`enforce_zero`] call.
     ///
     /// [`enforce_zero`]: ragu_core::drivers::Driver::enforce_zero
@@ -314,6 +325,8 @@ impl<F: FromUniformBytes<64>> Counter<F> {
         let y = point(4);
         let h = point(5);
         let one = point(6);
+        let x4 = point(7);
+        let x5 = point(8);
 
         Self {
             scope: CounterScope {
@@ -323,6 +336,7 @@ impl<F: FromUniformBytes<64>> Counter<F> {
                 current_b: x1,
                 current_c: x2,
                 current_d: x3,
+                current_output: x4,
                 result: h,
             },
             num_constraints: 0,
@@ -337,6 +351,8 @@ impl<F: FromUniformBytes<64>> Counter<F> {
             x1,
             x2,
             x3,
+            x4,
+            x5,
             y,
             one,
             h,
@@ -448,6 +464,7 @@ impl<'dr, F: FromUniformBytes<64>> Driver<'dr> for Counter<F> {
                 current_b: self.x1,
                 current_c: self.x2,
                 current_d: self.x3,
+                current_output: self.x4,
                 result: self.h,
             },
         );
@@ -474,56 +491,31 @@ impl<'dr, F: FromUniformBytes<64>> Driver<'dr> for Counter<F> {
         // Restore parent scope.
         self.scope = saved;
 
-        // Remap child output wires as fresh parent allocations.
-        //
-        // The child's a/b/c sequences were reset to (x0, x1, x2) on entry,
-        // so its output wires carry child-local evaluations. After restoring
-        // the parent scope those values are no longer globally distinct —
-        // they could collide with the parent's own wires. Re-allocating via
-        // `map_gadget` assigns each output wire a fresh position in the
-        // parent's geometric sequences.
-        //
-        // The remap calls `alloc` for each output wire, which may call
-        // `gate` internally. This has two side effects on the parent scope:
+        // Remap child output wires to fresh values in the parent scope.
         //
-        // 1. Geometric sequences advance — `current_a`, `current_b`,
-        //    `current_c` move past the remap gates.
-        // 2. `available_d` changes — the remap may consume a pending
-        //    d-wire or create a new one.
+        // The child's sequences were reset on entry, so its output wires carry
+        // child-local evaluations. After restoring the parent scope those
+        // values are no longer globally distinct — they could collide with the
+        // parent's own wires.
         //
-        // Effect (1) is kept; effect (2) is rolled back. The asymmetry is
-        // deliberate:
-        //
-        // Sequences must advance because the remapped output wires need
-        // evaluations that are distinct from each other and from any
-        // subsequent parent allocation. Letting the sequences advance past
-        // the remap positions achieves this — each output wire lands at a
-        // unique geometric position in the parent's sequence space.
-        //
-        // `available_d` must be restored because in the real drivers
-        // (sxy, sx, sy), output wires are received directly from the
-        // child's evaluation — no parent gates are consumed and the
-        // parent's pairing state is untouched. The output remap is a
-        // Counter-only operation that exists solely to assign parent-scope
-        // evaluations to child output wires. If the remap were allowed to
-        // mutate `available_d`, the parent's subsequent allocation pattern
-        // would diverge from the real drivers: a pending d-wire could be
-        // consumed or created by the remap, changing which wire types
-        // subsequent `alloc` calls return. Restoring `available_d` keeps
-        // the parent's pairing trajectory identical to the real drivers.
-        //
-        // After a routine call where the parent had a pending d-wire, the
-        // stashed wire retains its pre-call geometric value while the
-        // sequences have jumped forward past the remap positions. This
-        // creates a non-contiguous gap in the parent's sequence coverage.
-        // The gap is harmless — the stashed wire already has a distinct
-        // value, and Schwartz–Zippel only requires that all wire
-        // evaluations be distinct, not contiguous.
-        let saved_d = self.scope.available_d.take();
-
-        let parent_output = self.uncounted(|c| Ro::Output::map_gadget(&output, c))?;
-
-        self.scope.available_d = saved_d;
+        // The fresh values come from sequences reserved for the outputs of
+        // nested routines. Drawing them from the parent's gate sequences
+        // instead would let an output wire take the value that another routine
+        // assigns to one of its own gates' wires, identifying a routine that
+        // constrains the output of a nested call with one that constrains a
+        // wire it allocated itself. Keeping them apart also leaves the parent's
+        // gate sequences and pairing state (`available_d`) as in the real
+        // drivers (sxy, sx, sy), which receive output wires directly from the
+        // child's evaluation.
+        let current = self.scope.current_output;
+        self.scope.current_output *= self.x4;
+        let parent_output = Ro::Output::map_gadget(
+            &output,
+            &mut OutputRemap {
+                current,
+                base: self.x5,
+            },
+        )?;
 
         Ok(parent_output)
     }
@@ -540,6 +532,24 @@ impl<F: FromUniformBytes<64>> WireMap<F> for Counter<F> {
     }
 }
 
+/// [`WireMap`] for `Counter`→`Counter` over the output of a nested routine:
+/// wires are replaced by consecutive terms of a geometric sequence.
+struct OutputRemap<F> {
+    current: F,
+    base: F,
+}
+
+impl<F: FromUniformBytes<64>> WireMap<F> for OutputRemap<F> {
+    type Src = Counter<F>;
+    type Dst = Counter<F>;
+
+    fn convert_wire(&mut self, _: &WireEval<F>) -> Result<WireEval<F>> {
+        let value = self.current;
+        self.current *= self.base;
+        Ok(WireEval::Value(value))
+    }
+}
+
 /// Evaluates the constraint topology of a circuit.
 pub fn eval<F: FromUniformBytes<64>, C: Circuit<F>>(circuit: &C) -> Result<CircuitMetrics> {
     eval_raw(&super::raw::CircuitAdapterRef(circuit))
-- 
2.43.0


From 9a4fad2f67652a19d8de6c81a19e845eb85ade67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:16 +0000
Subject: [PATCH 6/9] fix: validate the outputs of bonding circuits

---
 crates/ragu_circuits/src/staging/bonding.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/ragu_circuits/src/staging/bonding.rs b/crates/ragu_circuits/src/staging/bonding.rs
index 7d7968b..ca14de5 100644
--- a/crates/ragu_circuits/src/staging/bonding.rs
+++ b/crates/ragu_circuits/src/staging/bonding.rs
@@ -25,8 +25,9 @@ use ragu_core::{
     drivers::{Driver, DriverTypes, LinearExpression},
     maybe::Empty,
 };
+use ragu_primitives::{Element, GadgetExt as _};
 
-use alloc::boxed::Box;
+use alloc::{boxed::Box, vec::Vec};
 
 use crate::{
     BondingObject, Circuit, CircuitObject, SegmentRecord,
@@ -65,7 +66,15 @@ where
     {
         // Validate: run synthesis with a driver that rejects mul/gate and ONE usage.
         let mut validator = BondingValidator::<F>::new();
-        self.witness(&mut validator, Empty)?;
+        let output = self.witness(&mut validator, Empty)?.into_output();
+
+        // The output is serialized and constrained during synthesis too.
+        let mut outputs: Vec<Element<'_, _>> = Vec::new();
+        output.write(&mut validator, &mut outputs)?;
+        for output in &outputs {
+            validator.enforce_zero(|lc| lc.add_term(output.wire(), Coeff::<F>::One))?;
+        }
+
         if let Some(msg) = validator.error {
             return Err(ragu_core::Error::InvalidWitness(msg.into()));
         }
-- 
2.43.0


From 7c05ebf68fe298bef6dda0166a660741be9de86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 7/9] fix: report stages beyond the last gate as an error

---
 crates/ragu_circuits/src/staging/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ragu_circuits/src/staging/mod.rs b/crates/ragu_circuits/src/staging/mod.rs
index 6189464..5e34175 100644
--- a/crates/ragu_circuits/src/staging/mod.rs
+++ b/crates/ragu_circuits/src/staging/mod.rs
@@ -342,6 +342,10 @@ pub trait StageExt<F: Field, R: Rank>: Stage<F, R> {
         alpha: F,
         witness: Self::Witness<'_>,
     ) -> Result<sparse::Polynomial<F, R>> {
+        if Self::skip_gates() + Self::num_gates() > R::n() {
+            return Err(ragu_core::Error::GateBoundExceeded { limit: R::n() });
+        }
+
         let values = {
             let mut dr = Emulator::extractor();
             let out = self.witness(&mut dr, Always::maybe_just(|| witness))?;
-- 
2.43.0


From 79d87911c337a2233f52ca2cc6342dc91004b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:53 +0000
Subject: [PATCH 8/9] hook: expose proof components and header encodings under
 cfg(ragu_verif)

---
 crates/ragu_pcd/src/lib.rs   |   3 +
 crates/ragu_pcd/src/verif.rs | 243 +++++++++++++++++++++++++++++++++++
 2 files changed, 246 insertions(+)
 create mode 100644 crates/ragu_pcd/src/verif.rs

diff --git a/crates/ragu_pcd/src/lib.rs b/crates/ragu_pcd/src/lib.rs
index df42d56..8a1724f 100644
--- a/crates/ragu_pcd/src/lib.rs
+++ b/crates/ragu_pcd/src/lib.rs
@@ -29,6 +29,9 @@ pub mod header;
 mod internal;
 mod proof;
 pub mod step;
+#[cfg(ragu_verif)]
+#[doc(hidden)]
+pub mod verif;
 mod verify;
 
 use ragu_arithmetic::Cycle;
diff --git a/crates/ragu_pcd/src/verif.rs b/crates/ragu_pcd/src/verif.rs
new file mode 100644
index 0000000..4f55399
--- /dev/null
+++ b/crates/ragu_pcd/src/verif.rs
@@ -0,0 +1,243 @@
+//! Access to internals for external runtime monitors; only compiled with
+//! `--cfg ragu_verif`.
+
+use ff::PrimeField;
+use ragu_arithmetic::Cycle;
+use ragu_circuits::{
+    polynomials::{Rank, sparse},
+    registry::{CircuitIndex, Registry},
+};
+use ragu_core::{Result, drivers::Driver, drivers::DriverValue, gadgets::Bound};
+use ragu_primitives::{Element, GadgetExt};
+
+use alloc::{format, string::String, string::ToString, vec::Vec};
+
+pub use crate::internal::*;
+
+use crate::{
+    Application, Pcd, Proof,
+    header::{Header, Suffix},
+    proof::{Bridge, RxTriple},
+    step::{Encoded, internal::padded},
+};
+
+/// Domain separation tag of the transcript.
+pub const TAG: &[u8] = crate::RAGU_TAG;
+
+/// One mutable part of a proof.
+pub enum Slot<'a, C: Cycle, R: Rank> {
+    /// Polynomial over the circuit field.
+    Native(&'a mut sparse::Polynomial<C::CircuitField, R>),
+    /// Polynomial over the scalar field.
+    Nested(&'a mut sparse::Polynomial<C::ScalarField, R>),
+    /// Commitment to a native polynomial.
+    Host(&'a mut C::HostCurve),
+    /// Commitment to a nested polynomial.
+    Bridge(&'a mut C::NestedCurve),
+    /// A field element.
+    Scalar(&'a mut C::CircuitField),
+    /// Header of a child.
+    Header(&'a mut Vec<C::CircuitField>),
+    /// Which circuit the step used.
+    Index(&'a mut CircuitIndex),
+    /// Polynomials of the endoscaling steps.
+    Steps(&'a mut Vec<sparse::Polynomial<C::ScalarField, R>>),
+}
+
+/// Every part of a proof, by name.
+pub fn slots<C: Cycle, R: Rank>(p: &mut Proof<C, R>) -> Vec<(String, Slot<'_, C, R>)> {
+    fn triple<'a, C: Cycle, R: Rank>(
+        out: &mut Vec<(String, Slot<'a, C, R>)>,
+        name: &str,
+        t: &'a mut RxTriple<C, R>,
+    ) {
+        out.push((format!("{name}.rx"), Slot::Native(&mut t.rx)));
+        out.push((format!("{name}.commitment"), Slot::Host(&mut t.commitment)));
+    }
+    fn bridge<'a, C: Cycle, R: Rank>(
+        out: &mut Vec<(String, Slot<'a, C, R>)>,
+        name: &str,
+        b: &'a mut Bridge<C, R>,
+    ) {
+        out.push((format!("{name}.bridge.rx"), Slot::Nested(&mut b.rx)));
+        out.push((
+            format!("{name}.bridge.commitment"),
+            Slot::Bridge(&mut b.commitment),
+        ));
+    }
+
+    let mut out = Vec::new();
+    macro_rules! put {
+        ($name:expr, $kind:ident, $value:expr) => {
+            out.push(($name.to_string(), Slot::$kind(&mut $value)))
+        };
+    }
+    put!("application.circuit_id", Index, p.application.circuit_id);
+    put!("application.left_header", Header, p.application.left_header);
+    put!(
+        "application.right_header",
+        Header,
+        p.application.right_header
+    );
+    triple(&mut out, "application", &mut p.application.rx_triple);
+    triple(&mut out, "preamble", &mut p.preamble.native);
+    bridge(&mut out, "preamble", &mut p.preamble.bridge);
+    put!(
+        "s_prime.registry_wx0_poly",
+        Native,
+        p.s_prime.native.registry_wx0_poly
+    );
+    put!(
+        "s_prime.registry_wx0_commitment",
+        Host,
+        p.s_prime.native.registry_wx0_commitment
+    );
+    put!(
+        "s_prime.registry_wx1_poly",
+        Native,
+        p.s_prime.native.registry_wx1_poly
+    );
+    put!(
+        "s_prime.registry_wx1_commitment",
+        Host,
+        p.s_prime.native.registry_wx1_commitment
+    );
+    bridge(&mut out, "s_prime", &mut p.s_prime.bridge);
+    put!(
+        "inner_error.registry_wy_poly",
+        Native,
+        p.inner_error.native.registry_wy_poly
+    );
+    put!(
+        "inner_error.registry_wy_commitment",
+        Host,
+        p.inner_error.native.registry_wy_commitment
+    );
+    triple(&mut out, "inner_error", &mut p.inner_error.native.rx_triple);
+    bridge(&mut out, "inner_error", &mut p.inner_error.bridge);
+    triple(&mut out, "outer_error", &mut p.outer_error.native);
+    bridge(&mut out, "outer_error", &mut p.outer_error.bridge);
+    put!("ab.a_poly", Native, p.ab.native.a_poly);
+    put!("ab.a_commitment", Host, p.ab.native.a_commitment);
+    put!("ab.b_poly", Native, p.ab.native.b_poly);
+    put!("ab.b_commitment", Host, p.ab.native.b_commitment);
+    put!("ab.c", Scalar, p.ab.native.c);
+    bridge(&mut out, "ab", &mut p.ab.bridge);
+    put!(
+        "query.registry_xy_poly",
+        Native,
+        p.query.native.registry_xy_poly
+    );
+    put!(
+        "query.registry_xy_commitment",
+        Host,
+        p.query.native.registry_xy_commitment
+    );
+    triple(&mut out, "query", &mut p.query.native.rx_triple);
+    bridge(&mut out, "query", &mut p.query.bridge);
+    put!("f.poly", Native, p.f.native.poly);
+    put!("f.commitment", Host, p.f.native.commitment);
+    bridge(&mut out, "f", &mut p.f.bridge);
+    triple(&mut out, "eval", &mut p.eval.native);
+    bridge(&mut out, "eval", &mut p.eval.bridge);
+    put!("p.poly", Native, p.p.native.poly);
+    put!("p.commitment", Host, p.p.native.commitment);
+    put!("p.v", Scalar, p.p.native.v);
+    put!("p.step_rxs", Steps, p.p.nested.step_rxs);
+    put!("p.endoscalar_rx", Nested, p.p.nested.endoscalar_rx);
+    put!("p.points_rx", Nested, p.p.nested.points_rx);
+    put!("challenges.w", Scalar, p.challenges.w);
+    put!("challenges.y", Scalar, p.challenges.y);
+    put!("challenges.z", Scalar, p.challenges.z);
+    put!("challenges.mu", Scalar, p.challenges.mu);
+    put!("challenges.nu", Scalar, p.challenges.nu);
+    put!("challenges.mu_prime", Scalar, p.challenges.mu_prime);
+    put!("challenges.nu_prime", Scalar, p.challenges.nu_prime);
+    put!("challenges.x", Scalar, p.challenges.x);
+    put!("challenges.alpha", Scalar, p.challenges.alpha);
+    put!("challenges.u", Scalar, p.challenges.u);
+    put!("challenges.pre_beta", Scalar, p.challenges.pre_beta);
+    triple(&mut out, "hashes_1", &mut p.circuits.hashes_1);
+    triple(&mut out, "hashes_2", &mut p.circuits.hashes_2);
+    triple(&mut out, "inner_collapse", &mut p.circuits.inner_collapse);
+    triple(&mut out, "outer_collapse", &mut p.circuits.outer_collapse);
+    triple(&mut out, "compute_v", &mut p.circuits.compute_v);
+    out
+}
+
+/// The proof and header data of a `Pcd`.
+pub fn split<C: Cycle, R: Rank, H: Header<C::CircuitField>>(
+    pcd: Pcd<C, R, H>,
+) -> (Proof<C, R>, H::Data) {
+    pcd.into_parts()
+}
+
+/// The native registry.
+pub fn native_registry<'a, 'p, C: Cycle, R: Rank, const HEADER_SIZE: usize>(
+    app: &'a Application<'p, C, R, HEADER_SIZE>,
+) -> &'a Registry<'p, C::CircuitField, R> {
+    &app.native_registry
+}
+
+/// The nested registry.
+pub fn nested_registry<'a, 'p, C: Cycle, R: Rank, const HEADER_SIZE: usize>(
+    app: &'a Application<'p, C, R, HEADER_SIZE>,
+) -> &'a Registry<'p, C::ScalarField, R> {
+    &app.nested_registry
+}
+
+/// The placeholder proof used for the children of a seed.
+pub fn trivial<C: Cycle, R: Rank, const HEADER_SIZE: usize>(
+    app: &Application<'_, C, R, HEADER_SIZE>,
+) -> Proof<C, R> {
+    app.trivial_proof()
+}
+
+/// Elements an encoded header contributes to its step.
+pub fn write_encoded<
+    'dr,
+    D: Driver<'dr, F: PrimeField>,
+    H: Header<D::F>,
+    const HEADER_SIZE: usize,
+>(
+    dr: &mut D,
+    encoded: Encoded<'dr, D, H, HEADER_SIZE>,
+) -> Result<Vec<Element<'dr, D>>> {
+    let mut buf = Vec::new();
+    encoded.write(dr, &mut buf)?;
+    Ok(buf)
+}
+
+/// The uniform encoding of a header.
+pub fn encode_uniform<
+    'dr,
+    D: Driver<'dr, F: PrimeField>,
+    H: Header<D::F>,
+    const HEADER_SIZE: usize,
+>(
+    dr: &mut D,
+    data: DriverValue<D, H::Data>,
+) -> Result<Encoded<'dr, D, H, HEADER_SIZE>> {
+    Encoded::new_uniform(dr, data)
+}
+
+/// Padded serialization of a header gadget.
+pub fn padded_header<
+    'dr,
+    D: Driver<'dr, F: PrimeField>,
+    H: Header<D::F>,
+    const HEADER_SIZE: usize,
+>(
+    dr: &mut D,
+    gadget: Bound<'dr, D, H::Output>,
+) -> Result<Vec<Element<'dr, D>>> {
+    let padded = padded::for_header::<H, HEADER_SIZE, _>(dr, gadget)?;
+    let mut buf = Vec::new();
+    padded.write(dr, &mut buf)?;
+    Ok(buf)
+}
+
+/// The number a suffix contributes to an encoding.
+pub fn suffix_value(suffix: &Suffix) -> u64 {
+    suffix.get()
+}
-- 
2.43.0


From c830e3e803605d2d170a8b7354f363fe5f8fe9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:04 +0000
Subject: [PATCH 9/9] fix: refuse header suffixes that wrap onto the internal
 ones

---
 crates/ragu_pcd/src/header.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ragu_pcd/src/header.rs b/crates/ragu_pcd/src/header.rs
index 50a5fe0..41ff282 100644
--- a/crates/ragu_pcd/src/header.rs
+++ b/crates/ragu_pcd/src/header.rs
@@ -38,7 +38,17 @@ pub struct Suffix {
 
 impl Suffix {
     /// Creates a new application-defined [`Header`] suffix.
+    ///
+    /// # Panics
+    ///
+    /// Panics if `value` is so large that its encoding would wrap around onto
+    /// the suffixes reserved for internal headers.
     pub const fn new(value: usize) -> Self {
+        assert!(
+            value <= usize::MAX - NUM_INTERNAL_SUFFIXES as usize,
+            "application header suffix is too large"
+        );
+
         Suffix {
             suffix: HeaderSuffix::Application(value),
         }
-- 
2.43.0

