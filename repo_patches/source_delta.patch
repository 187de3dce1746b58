From 7e35f0c4f587c63c438db632f7d8c836c2071648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 01/25] fix: from_canonical_u8_vec reports an error instead of
 panicking on a partial limb

---
 src/field/field.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/field/field.rs b/src/field/field.rs
index bdb225e..d847128 100644
--- a/src/field/field.rs
+++ b/src/field/field.rs
@@ -81,6 +81,9 @@ pub trait Field:
     }
 
     fn from_canonical_u8_vec(u8_limbs: Vec<u8>) -> Result<Self> {
+        if u8_limbs.len() % 8 != 0 {
+            return Err(Error::msg("Invalid length"));
+        }
         let mut u64_chunks = Vec::new();
         for u8_chunk in u8_limbs.chunks(8) {
             u64_chunks.push(
-- 
2.43.0


From 56ab7cebc527c9afbbed256824d67b0b53c8d317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:10 +0000
Subject: [PATCH 02/25] fix: the BLS12-377 subgroup generators are generators
 of the multiplicative groups

---
 src/field/bls12_377_base.rs   | 6 +++++-
 src/field/bls12_377_scalar.rs | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/field/bls12_377_base.rs b/src/field/bls12_377_base.rs
index bdafdae..4e2cd69 100644
--- a/src/field/bls12_377_base.rs
+++ b/src/field/bls12_377_base.rs
@@ -195,7 +195,11 @@ impl Field for Bls12377Base {
             8738795276227363922, 81297770384137296]
     };
 
-    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self::FIVE;
+    // 5 is a seventh power in this field, so it only generates a subgroup; 15 is a generator.
+    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self {
+        limbs: [1580481994230331156, 7393753505699199837, 15893201093018099506, 15064395564155502359,
+            7595513421530309810, 112614884009382239]
+    };
 
     const ALPHA: Self = Self::FIVE;
 
diff --git a/src/field/bls12_377_scalar.rs b/src/field/bls12_377_scalar.rs
index 14f5d56..78fabfc 100644
--- a/src/field/bls12_377_scalar.rs
+++ b/src/field/bls12_377_scalar.rs
@@ -163,7 +163,8 @@ impl Field for Bls12377Scalar {
     const FIVE: Self = Self { limbs: [6006113053051977660, 3366551019440832441, 5772352412093595556, 754655161751966990] };
     const NEG_ONE: Self = Self { limbs: [10157024534604021774, 16668528035959406606, 5322190058819395602, 387181115924875961] };
 
-    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self { limbs: [1855201571499933546, 8511318076631809892, 6222514765367795509, 1122129207579058019] };
+    // 11 is a fifth power in this field, so it only generates a subgroup; 22 is a generator.
+    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Self { limbs: [2984901390528151251, 10561528701063790279, 5476750214495080041, 898978044469942640] };
 
     /// x^11 is a permutation in this field.
     const ALPHA: Self = Self { limbs: [1855201571499933546, 8511318076631809892, 6222514765367795509, 1122129207579058019] };
-- 
2.43.0


From cedf29a3b820af3ced44497214f213ec63a302aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 03/25] fix: doubling a point of order two gives the identity

---
 src/curve/curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/curve.rs b/src/curve/curve.rs
index 1be98a8..bfe2b43 100644
--- a/src/curve/curve.rs
+++ b/src/curve/curve.rs
@@ -116,7 +116,8 @@ impl<C: Curve> AffinePoint<C> {
             zero,
         } = *self;
 
-        if zero {
+        // The double of a point of order two is the identity.
+        if zero || y1.is_zero() {
             return AffinePoint::ZERO;
         }
 
@@ -233,7 +234,8 @@ impl<C: Curve> ProjectivePoint<C> {
 
     pub fn double(&self) -> Self {
         let Self { x, y, z, zero } = *self;
-        if zero {
+        // The double of a point of order two is the identity.
+        if zero || y.is_zero() {
             return ProjectivePoint::ZERO;
         }
 
-- 
2.43.0


From 88390009de56f0b4af3c7a1bd6254bbcf59e2316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 04/25] fix: ProjectivePoint::is_valid rejects off-curve points
 instead of panicking

---
 src/curve/curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/curve.rs b/src/curve/curve.rs
index bfe2b43..459c169 100644
--- a/src/curve/curve.rs
+++ b/src/curve/curve.rs
@@ -201,7 +201,9 @@ impl<C: Curve> ProjectivePoint<C> {
     }
 
     pub fn is_valid(&self) -> bool {
-        self.to_affine().is_valid()
+        let Self { x, y, z, zero } = *self;
+        zero || (z.is_nonzero()
+            && y.square() * z == x.cube() + (C::A * x + C::B * z) * z.square())
     }
 
     pub fn to_affine(&self) -> AffinePoint<C> {
-- 
2.43.0


From 40e0ec657a510c49a78593e4290bc47f954c23ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:29 +0000
Subject: [PATCH 05/25] fix: RescueStepBGate recursive evaluation multiplies
 MDS row entries by their own column

---
 src/gates/rescue_b.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/rescue_b.rs b/src/gates/rescue_b.rs
index 5a116a6..1edb937 100644
--- a/src/gates/rescue_b.rs
+++ b/src/gates/rescue_b.rs
@@ -84,7 +84,7 @@ impl<C: HaloCurve> Gate<C> for RescueStepBGate<C> {
             let mut computed_out_i = local_constant_values[Self::PREFIX.len() + i];
             for j in 0..RESCUE_SPONGE_WIDTH {
                 let mds_entry = builder.constant_wire(mds.get(i, j));
-                computed_out_i = builder.mul_add(mds_entry, exps[i], computed_out_i);
+                computed_out_i = builder.mul_add(mds_entry, exps[j], computed_out_i);
             }
             constraints.push(builder.sub(computed_out_i, outs[i]));
         }
-- 
2.43.0


From 668f8575c7f79e0e85e5a8630c968d1ce3df96a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:29 +0000
Subject: [PATCH 06/25] fix: recursive curve gate constraints have the native
 sign

---
 src/gates/curve_add.rs  | 6 +++---
 src/gates/curve_endo.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index a236a74..af0ba23 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::gates::{assert_binary_recursively, assert_inverses_recursively, Gate};
+use crate::gates::{assert_inverses_recursively, Gate};
 use crate::{CircuitBuilder, Curve, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator};
 
 /// A gate which performs incomplete point addition, conditioned on an input bit. In order to
@@ -135,8 +135,8 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> Gate<C> for CurveA
             builder.sub(computed_lambda, lambda),
             builder.sub(computed_x4, x4),
             builder.sub(computed_y4, y4),
-            builder.sub(computed_scalar_acc_new, scalar_acc_new),
-            assert_binary_recursively(builder, scalar_bit),
+            builder.sub(scalar_acc_new, computed_scalar_acc_new),
+            builder.mul(scalar_bit, not_scalar_bit),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
         ]
     }
diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a9c87f8..a81afd1 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -143,8 +143,8 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> Gate<C>
         vec![
             builder.sub(computed_x3, x3),
             builder.sub(computed_y3, y3),
-            builder.sub(computed_scalar_acc_unsigned_new, scalar_acc_unsigned_new),
-            builder.sub(computed_scalar_acc_signed_new, scalar_acc_signed_new),
+            builder.sub(scalar_acc_unsigned_new, computed_scalar_acc_unsigned_new),
+            builder.sub(scalar_acc_signed_new, computed_scalar_acc_signed_new),
             assert_binary_recursively(builder, scalar_bit_0),
             assert_binary_recursively(builder, scalar_bit_1),
             assert_inverses_recursively(builder, inverse, x1_minus_x2),
-- 
2.43.0


From 2577801761bef61698787d9dd8de06c7e9438c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:52 +0000
Subject: [PATCH 07/25] fix: CurveEndoGate generator fills the wires its
 constraints read

---
 src/gates/curve_endo.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/gates/curve_endo.rs b/src/gates/curve_endo.rs
index a81afd1..8b18949 100644
--- a/src/gates/curve_endo.rs
+++ b/src/gates/curve_endo.rs
@@ -1,7 +1,7 @@
 use std::marker::PhantomData;
 
 use crate::gates::{assert_binary_recursively, assert_inverses_recursively, Gate};
-use crate::{AffinePoint, CircuitBuilder, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator, GRID_WIDTH};
+use crate::{CircuitBuilder, Field, HaloCurve, PartialWitness, Target, Wire, WitnessGenerator, GRID_WIDTH};
 
 /// A gate which performs an iteration of an simultaneous doubling MSM loop, employing the
 /// endomorphism described in the Halo paper. `C` is the curve of the inner proof.
@@ -216,19 +216,19 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         let scalar_acc_unsigned_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_unsigned_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_UNSIGNED,
         };
         let scalar_acc_signed_old_target = Wire {
             gate: self.index,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
         let scalar_acc_signed_new_target = Wire {
             gate: self.index + GRID_WIDTH,
-            input: Self::WIRE_GROUP_ACC_Y,
+            input: Self::WIRE_SCALAR_ACC_SIGNED,
         };
 
         let addend_x_target = Wire {
@@ -254,7 +254,6 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
 
         let group_acc_old_x = witness.get_wire(group_acc_old_x_target);
         let group_acc_old_y = witness.get_wire(group_acc_old_y_target);
-        let group_acc_old = AffinePoint::<InnerC>::nonzero(group_acc_old_x, group_acc_old_y);
 
         let scalar_acc_unsigned_old = witness.get_wire(scalar_acc_unsigned_old_target);
         let scalar_acc_signed_old = witness.get_wire(scalar_acc_signed_old_target);
@@ -268,15 +267,21 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
         let p_y = witness.get_wire(addend_y_target);
 
         let mut s_i_x = p_x;
-        if scalar_bit_0 == InnerC::BaseField::ONE {
+        if scalar_bit_1 == InnerC::BaseField::ONE {
             s_i_x = s_i_x * InnerC::ZETA;
         }
         let mut s_i_y = p_y;
-        if scalar_bit_1 == InnerC::BaseField::ZERO {
+        if scalar_bit_0 == InnerC::BaseField::ZERO {
             s_i_y = -s_i_y;
         }
-        let s_i = AffinePoint::nonzero(s_i_x, s_i_y);
-        let group_acc_new = group_acc_old + s_i;
+
+        // Add S_i to the accumulator, keeping the inverse since we need to populate its wire.
+        let dx = group_acc_old_x - s_i_x;
+        let dy = group_acc_old_y - s_i_y;
+        let inverse = dx.multiplicative_inverse().expect("x_1 = x_2");
+        let lambda = dy * inverse;
+        let group_acc_new_x = lambda.square() - group_acc_old_x - s_i_x;
+        let group_acc_new_y = lambda * (group_acc_old_x - group_acc_new_x) - group_acc_old_y;
 
         let scalar_acc_unsigned_new =
             scalar_acc_unsigned_old.quadruple() + scalar_bit_0 + scalar_bit_1.double();
@@ -292,15 +297,9 @@ impl<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>> WitnessGenerat
         }
         let scalar_acc_signed_new = scalar_acc_signed_old.double() + scalar_acc_signed_limb;
 
-        // Here's where our abstraction leaks a bit. Although we already have the sum, we need to
-        // redo part of the computation in order to populate the purported inverse wire.
-        let dx = group_acc_old_x - p_x;
-        let _dy = group_acc_old_y - p_y;
-        let inverse = dx.multiplicative_inverse().expect("x_1 = x_2");
-
         let mut result = PartialWitness::new();
-        result.set_wire(group_acc_new_x_target, group_acc_new.x);
-        result.set_wire(group_acc_new_y_target, group_acc_new.y);
+        result.set_wire(group_acc_new_x_target, group_acc_new_x);
+        result.set_wire(group_acc_new_y_target, group_acc_new_y);
         result.set_wire(scalar_acc_unsigned_new_target, scalar_acc_unsigned_new);
         result.set_wire(scalar_acc_signed_new_target, scalar_acc_signed_new);
         result.set_wire(inverse_target, inverse);
-- 
2.43.0


From 74d8cc4817afc4cbd26b4c1790b18666c5aa85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:52 +0000
Subject: [PATCH 08/25] fix: CurveAddGate generator depends on its scalar bit

---
 src/gates/curve_add.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gates/curve_add.rs b/src/gates/curve_add.rs
index af0ba23..a077e84 100644
--- a/src/gates/curve_add.rs
+++ b/src/gates/curve_add.rs
@@ -167,6 +167,10 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
                 gate: self.index,
                 input: Self::WIRE_ADDEND_Y,
             }),
+            Target::Wire(Wire {
+                gate: self.index,
+                input: Self::WIRE_SCALAR_BIT,
+            }),
         ]
     }
 
-- 
2.43.0


From 9fb3021054a792f6f005cbd051fec5d44686ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:52 +0000
Subject: [PATCH 09/25] fix: CurveDblGate generator includes the curve
 coefficient A

---
 src/gates/curve_dbl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gates/curve_dbl.rs b/src/gates/curve_dbl.rs
index 3b22814..0200f11 100644
--- a/src/gates/curve_dbl.rs
+++ b/src/gates/curve_dbl.rs
@@ -155,7 +155,7 @@ impl<C: HaloCurve, InnerC: Curve<BaseField = C::ScalarField>> WitnessGenerator<C
         let y_old = witness.get_wire(y_old_target);
 
         let inverse = y_old.double().multiplicative_inverse().expect("y = 0");
-        let lambda = x_old.square().triple() * inverse;
+        let lambda = (x_old.square().triple() + InnerC::A) * inverse;
         let x_new = lambda.square() - x_old.double();
         let y_new = lambda * (x_old - x_new) - y_old;
 
-- 
2.43.0


From a7012a26e7e4df781d078ce878122d913c73638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 10/25] fix: decomposition gadgets must populate Base4SumGate
 accumulators and weigh limbs correctly

---
 src/circuit_builder.rs | 108 ++++++++++++++++++++++++++++++++---------
 1 file changed, 84 insertions(+), 24 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index 5fb3c1e..cab13f3 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -192,9 +192,60 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                     }),
                 )
             }
+            self.add_base_4_sum_generator(gate, chunk);
         }
     }
 
+    /// Adds a generator to populate the new accumulator wire of the given `Base4SumGate`. Any limbs
+    /// which are not given are taken to be zero.
+    fn add_base_4_sum_generator(&mut self, gate: usize, limbs: &[Target<C::ScalarField>]) {
+        struct Base4SumGenerator<F: Field> {
+            acc_old: Target<F>,
+            acc_new: Target<F>,
+            limbs: Vec<Target<F>>,
+            num_limbs: usize,
+        }
+
+        impl<F: Field> WitnessGenerator<F> for Base4SumGenerator<F> {
+            fn dependencies(&self) -> Vec<Target<F>> {
+                let mut deps = self.limbs.clone();
+                deps.push(self.acc_old);
+                deps
+            }
+
+            fn generate(
+                &self,
+                _constants: &[Vec<F>],
+                witness: &PartialWitness<F>,
+            ) -> PartialWitness<F> {
+                let mut acc = witness.get_target(self.acc_old);
+                for i in 0..self.num_limbs {
+                    acc = acc.quadruple();
+                    if i < self.limbs.len() {
+                        acc = acc + witness.get_target(self.limbs[i]);
+                    }
+                }
+
+                let mut result = PartialWitness::new();
+                result.set_target(self.acc_new, acc);
+                result
+            }
+        }
+
+        self.add_generator(Base4SumGenerator {
+            acc_old: Target::Wire(Wire {
+                gate,
+                input: Base4SumGate::<C>::WIRE_ACC_OLD,
+            }),
+            acc_new: Target::Wire(Wire {
+                gate,
+                input: Base4SumGate::<C>::WIRE_ACC_NEW,
+            }),
+            limbs: limbs.to_vec(),
+            num_limbs: Base4SumGate::<C>::NUM_LIMBS,
+        });
+    }
+
     pub fn assert_nonzero(&mut self, x: Target<C::ScalarField>) {
         // An element is nonzero iff it has an inverse.
         self.inv(x);
@@ -516,7 +567,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             f_bits, 254,
             "We currently only handle fields of size 2^254 + epsilon"
         );
-        let (bits, dibits) = self.split_binary_and_base_4(x_sqrt, 2, 126);
+        let (bits, mut dibits) = self.split_binary_and_base_4(x_sqrt, 2, 126);
 
         // Verify that x_sqrt * x_sqrt = x.
         let x_sqrt_squared = self.square(x_sqrt);
@@ -526,10 +577,12 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         self.assert_zero(bits[0]);
         self.assert_binary(bits[1]);
 
-        // Verify the decomposition by taking a weighted sum of the limbs. Since the first bit is
-        // always zero, we start with the second bit (scaled by its weight of 2) and then add the
-        // base 4 limbs.
-        let mut sum = self.double(bits[1]);
+        // Verify the decomposition by taking a weighted sum of the limbs. We accumulate the base 4
+        // limbs, most significant limb first, and then shift the result to make room for the two
+        // bits. Since the first bit is always zero, only the second bit (scaled by its weight of 2)
+        // needs to be added.
+        dibits.reverse();
+        let mut sum = self.zero_wire();
         for chunk in dibits.chunks(Base4SumGate::<C>::NUM_LIMBS) {
             assert_eq!(
                 chunk.len(),
@@ -537,30 +590,34 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                 "Should not have a partial chunk"
             );
 
-            let index = self.num_gates();
-            self.add_gate_no_constants(Base4SumGate::new(index));
-            for i in 0..chunk.len() {
-                self.copy(
-                    sum,
-                    Target::Wire(Wire {
-                        gate: index,
-                        input: Base4SumGate::<C>::WIRE_ACC_OLD,
-                    }),
-                );
+            let gate = self.num_gates();
+            self.add_gate_no_constants(Base4SumGate::new(gate));
+            self.copy(
+                sum,
+                Target::Wire(Wire {
+                    gate,
+                    input: Base4SumGate::<C>::WIRE_ACC_OLD,
+                }),
+            );
+            for (i, &dibit) in chunk.iter().enumerate() {
                 self.copy(
-                    chunk[i],
+                    dibit,
                     Target::Wire(Wire {
-                        gate: index,
+                        gate,
                         input: Base4SumGate::<C>::wire_limb(i),
                     }),
                 );
-                sum = Target::Wire(Wire {
-                    gate: index,
-                    input: Base4SumGate::<C>::WIRE_ACC_NEW,
-                })
             }
+            self.add_base_4_sum_generator(gate, chunk);
+            sum = Target::Wire(Wire {
+                gate,
+                input: Base4SumGate::<C>::WIRE_ACC_NEW,
+            });
         }
-        self.copy(sum, x);
+        let four = self.constant_wire_u32(4);
+        let second_bit_shifted = self.double(bits[1]);
+        sum = self.mul_add(sum, four, second_bit_shifted);
+        self.copy(sum, x_sqrt);
 
         x_sqrt
     }
@@ -821,8 +878,10 @@ impl<C: HaloCurve> CircuitBuilder<C> {
     ///
     /// Note: This is most efficient when `num_dibits` is a multiple of `Base4SumGate::NUM_LIMBS`.
     pub(crate) fn assert_dibit_length(&mut self, x: Target<C::ScalarField>, num_dibits: usize) {
-        // Get the purported base 4 decomposition of x.
-        let dibits = self.split_base_4(x, num_dibits);
+        // Get the purported base 4 decomposition of x, most significant dibit first, since
+        // Base4SumGate shifts its accumulator before adding each limb.
+        let mut dibits = self.split_base_4(x, num_dibits);
+        dibits.reverse();
 
         // Accumulate each full chunk of NUM_LIMBS dibits using a Base4SumGate.
         let mut sum = self.zero_wire();
@@ -849,6 +908,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
                     }),
                 );
             }
+            self.add_base_4_sum_generator(gate, chunk);
 
             // Take WIRE_ACC_NEW as our updated sum.
             sum = Target::Wire(Wire {
-- 
2.43.0


From f40017b5a077e3d1107dfa20cb84350f6f8c78e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 11/25] fix: bigint_mul handles operands without limbs

---
 src/circuit_bigint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index b256f89..d4a0f51 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -349,6 +349,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         let x_n = x.num_limbs();
         let y_n = y.num_limbs();
 
+        // A bigint with no limbs encodes zero, in which case the product is zero as well.
+        if x_n == 0 || y_n == 0 {
+            return BigIntTarget::zero();
+        }
+
         let mut result_digits = Vec::new();
         let mut carry: BigIntTarget<C::ScalarField> = BigIntTarget::zero();
 
-- 
2.43.0


From d5a7823bdcc3beb1a89d76f701fe20575f57b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 12/25] Verification hooks behind cfg(plonky_verif): wrappers
 for crate-private functions

---
 src/lib.rs         |  2 ++
 src/verif_hooks.rs | 62 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 42cb6e4..0f51790 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,6 +66,8 @@ mod rescue;
 mod serialization;
 mod target;
 pub mod util;
+#[cfg(plonky_verif)]
+pub mod verif_hooks;
 mod verifier;
 mod witness;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..04d7de7
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,62 @@
+//! Access to crate-private functions for the verification harness. Compiled only with `--cfg plonky_verif`.
+use crate::plonk_challenger::RecursiveChallenger;
+use crate::{plonk_util, CircuitBuilder, Field, HaloCurve, Polynomial, Target};
+
+pub fn eval_l_1<F: Field>(n: usize, x: F) -> F {
+    plonk_util::eval_l_1(n, x)
+}
+
+pub fn eval_zero_poly<F: Field>(n: usize, x: F) -> F {
+    plonk_util::eval_zero_poly(n, x)
+}
+
+pub fn scale_polynomials<F: Field>(
+    polynomials: Vec<Polynomial<F>>,
+    alpha: F,
+    degree: usize,
+) -> Polynomial<F> {
+    plonk_util::scale_polynomials(polynomials, alpha, degree)
+}
+
+pub fn get_subgroup_shift<F: Field>(i: usize) -> F {
+    crate::partition::get_subgroup_shift(i)
+}
+
+pub fn mds_matrix<F: Field>(n: usize) -> Vec<Vec<F>> {
+    let m = crate::mds::mds_matrix::<F>(n);
+    (0..n)
+        .map(|r| (0..n).map(|c| m.get(r, c)).collect())
+        .collect()
+}
+
+/// Observes the given targets; squeezes a challenge for each `None`.
+pub fn recursive_challenges<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    operations: &[Option<Target<C::ScalarField>>],
+) -> Vec<Target<C::ScalarField>> {
+    let mut challenger = RecursiveChallenger::new(builder);
+    let mut challenges = Vec::new();
+    for operation in operations {
+        match operation {
+            Some(target) => challenger.observe_element(*target),
+            None => challenges.push(challenger.get_challenge(builder)),
+        }
+    }
+    challenges
+}
+
+pub fn reduce_with_powers_recursive<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    terms: &[Target<C::ScalarField>],
+    alpha: Target<C::ScalarField>,
+) -> Target<C::ScalarField> {
+    plonk_util::reduce_with_powers_recursive(builder, terms, alpha)
+}
+
+pub fn powers_recursive<C: HaloCurve>(
+    builder: &mut CircuitBuilder<C>,
+    x: Target<C::ScalarField>,
+    n: usize,
+) -> Vec<Target<C::ScalarField>> {
+    plonk_util::powers_recursive(builder, x, n)
+}
-- 
2.43.0


From 5fd12fb54c0a8775a84100318a4035cb32402951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 13/25] fix: polynomial division handles zero dividends, padded
 divisors and quotients with zero coefficients

---
 src/polynomial.rs | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 4f0b474..3fa4dd4 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -230,12 +230,14 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Generally slower that the equivalent function `Polynomial::polynomial_division`.
     pub fn polynomial_long_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        }
+        if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else {
             // Now we know that self.degree() >= divisor.degree();
@@ -248,7 +250,7 @@ impl<F: Field> Polynomial<F> {
                 let cur_q_degree = remainder.degree() - b_degree;
                 quotient[cur_q_degree] = cur_q_coeff;
 
-                for (i, &div_coeff) in b.iter().enumerate() {
+                for (i, &div_coeff) in b[..=b_degree].iter().enumerate() {
                     remainder[cur_q_degree + i] =
                         remainder[cur_q_degree + i] - (cur_q_coeff * div_coeff);
                 }
@@ -272,7 +274,7 @@ impl<F: Field> Polynomial<F> {
             let h0 = h[..l].to_vec().into();
             let mut h1: Polynomial<F> = h[l..].to_vec().into();
             let mut c = a.mul(&h0);
-            if l == c.len() {
+            if c.len() <= l {
                 c = Self::zero(1);
             } else {
                 c.drain(0..l);
@@ -283,10 +285,8 @@ impl<F: Field> Polynomial<F> {
             tmp.iter_mut().for_each(|x| *x = -(*x));
             tmp.trim();
             let mut b = a.mul(&tmp);
-            b.trim();
-            if b.len() > l {
-                b.drain(l..);
-            }
+            // Exactly the `l` next coefficients, including zeros, so that later ones are aligned.
+            b.0.resize(l, F::ZERO);
             a.0.extend_from_slice(&b[..]);
         }
         a.drain(n..);
@@ -297,12 +297,14 @@ impl<F: Field> Polynomial<F> {
     /// Returns `(q,r)` the quotient and remainder of the polynomial division of `a` by `b`.
     /// Algorithm from http://people.csail.mit.edu/madhu/ST12/scribe/lect06.pdf
     pub fn polynomial_division(&self, b: &Self) -> (Self, Self) {
-        let (a_degree, b_degree) = (self.degree(), b.degree());
-        if self.is_zero() {
-            (Self::zero(1), Self::empty())
-        } else if b.is_zero() {
+        if b.is_zero() {
             panic!("Division by zero polynomial");
-        } else if a_degree < b_degree {
+        }
+        if self.is_zero() {
+            return (Self::zero(1), Self::empty());
+        }
+        let (a_degree, b_degree) = (self.degree(), b.degree());
+        if a_degree < b_degree {
             (Self::zero(1), self.clone())
         } else if b_degree == 0 {
             (
@@ -312,11 +314,11 @@ impl<F: Field> Polynomial<F> {
         } else {
             let rev_b = b.rev();
             let rev_b_inv = rev_b.inv_mod_xn(a_degree - b_degree + 1);
-            let rev_q: Polynomial<F> = rev_b_inv
-                .mul(&self.rev()[..=a_degree - b_degree].to_vec().into())[..=a_degree - b_degree]
-                .to_vec()
-                .into();
-            let mut q = rev_q.rev();
+            let mut rev_q =
+                rev_b_inv.mul(&self.rev()[..=a_degree - b_degree].to_vec().into());
+            rev_q.0.resize(a_degree - b_degree + 1, F::ZERO);
+            // The quotient's low coefficients can be zero, so all of `rev_q` has to be reversed.
+            let mut q: Polynomial<F> = rev_q.0.into_iter().rev().collect::<Vec<_>>().into();
             let mut qb = q.mul(b);
             qb.pad(self.len());
             let mut r = self.add(&qb.neg());
-- 
2.43.0


From 6ab00202b4133c2e2d7a64a8919a5ecfcd84695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 14/25] fix: consecutive challenges are fresh sponge outputs

---
 src/plonk_challenger.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/plonk_challenger.rs b/src/plonk_challenger.rs
index 7d422f9..fb398f8 100644
--- a/src/plonk_challenger.rs
+++ b/src/plonk_challenger.rs
@@ -92,6 +92,11 @@ impl<F: Field> Challenger<F> {
 
     /// Absorb any buffered inputs. After calling this, the input buffer will be empty.
     fn absorb_buffered_inputs(&mut self) {
+        if self.input_buffer.is_empty() {
+            // Keep the buffered outputs: refilling them would repeat earlier challenges.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
@@ -211,6 +216,11 @@ impl<F: Field> RecursiveChallenger<F> {
         &mut self,
         builder: &mut CircuitBuilder<C>,
     ) {
+        if self.input_buffer.is_empty() {
+            // Keep the buffered outputs: refilling them would repeat earlier challenges.
+            return;
+        }
+
         for input_chunk in self.input_buffer.chunks(RESCUE_SPONGE_RATE) {
             // Add the inputs to our sponge state.
             for (i, &input) in input_chunk.iter().enumerate() {
-- 
2.43.0


From 3bf66692e4a90f28265e0cef390709091d2f2fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 15/25] fix: Lagrange basis polynomials evaluate to one at
 their own point

---
 plookup/src/plookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 47ac708..961a0e3 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -275,7 +275,7 @@ fn vanishing_polynomial<F: Field>(
 pub fn eval_l_i<F: Field>(n: usize, i: usize, generator: F, x: F) -> F {
     let g = generator.exp_usize(i);
     if x == g {
-        F::ZERO
+        F::ONE
     } else {
         g * (x.exp_usize(n) - F::ONE) / (F::from_canonical_usize(n) * (x - g))
     }
-- 
2.43.0


From f4c5cd5dcac88b0888344947ddc1956e27ed22e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 16/25] fix: rescue_sponge returns when no outputs are
 requested

---
 src/rescue.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rescue.rs b/src/rescue.rs
index 6cd74fd..19094e8 100644
--- a/src/rescue.rs
+++ b/src/rescue.rs
@@ -56,6 +56,9 @@ pub fn rescue_sponge<F: Field>(inputs: Vec<F>, num_outputs: usize, security_bits
 
     // Squeeze until we have the desired number of outputs.
     let mut outputs = Vec::new();
+    if num_outputs == 0 {
+        return outputs;
+    }
     loop {
         for i in 0..rate {
             outputs.push(state[i]);
-- 
2.43.0


From b77fd339928cde4b963f8ac08e7bfe86f89e7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 17/25] fix: read back the bytes written for the point at
 infinity and reject malformed point flags

---
 src/serialization.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serialization.rs b/src/serialization.rs
index cd3e80e..ea8cd4f 100644
--- a/src/serialization.rs
+++ b/src/serialization.rs
@@ -48,6 +48,12 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
         let mut mask = vec![0u8];
         reader.read_exact(&mut mask)?;
         let mask = mask[0];
+        if mask > 3 {
+            return Err(Error::new(ErrorKind::Other, "Invalid flags"));
+        }
+        // The `x` coordinate is always written, also for the point at infinity.
+        let mut buf = vec![0u8; C::BaseField::BYTES];
+        reader.read_exact(&mut buf)?;
         if mask & 1 == 1 {
             return Ok(AffinePoint {
                 x: C::BaseField::ZERO,
@@ -55,8 +61,6 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
                 zero: true,
             });
         }
-        let mut buf = vec![0u8; C::BaseField::BYTES];
-        reader.read_exact(&mut buf)?;
         let x = C::BaseField::from_canonical_u8_vec(buf.to_vec())
             .map_err(|e| Error::new(ErrorKind::Other, e.to_string()))?;
         let square_candidate = x.cube() + C::A * x + C::B;
@@ -65,6 +69,8 @@ impl<C: Curve> FromBytes for AffinePoint<C> {
             .ok_or_else(|| Error::new(ErrorKind::Other, "Invalid x coordinate"))?;
         if (y.to_canonical_u64_vec()[0] % 2) as u8 == (mask & 2) >> 1 {
             Ok(AffinePoint::nonzero(x, y))
+        } else if y.is_zero() {
+            Err(Error::new(ErrorKind::Other, "Invalid sign of a zero y coordinate"))
         } else {
             Ok(AffinePoint::nonzero(x, -y))
         }
-- 
2.43.0


From 6825795dbb25f2349e4c9fb5b793c1dd9671e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 18/25] fix: the verifier checks the proof shape, the public
 inputs length and the quotient commitment

---
 src/verifier.rs | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/verifier.rs b/src/verifier.rs
index 5602716..911eded 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -2,6 +2,7 @@ use anyhow::{bail, ensure, Result};
 use serde::{Deserialize, Serialize};
 
 use crate::partition::get_subgroup_shift;
+use crate::plonk::{NUM_CONSTANTS, QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER};
 
 use crate::gates::evaluate_all_constraints;
 use crate::halo::verify_ipa;
@@ -56,8 +57,13 @@ pub fn verify_proof<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField>>
     vk: &VerificationKey<C>,
     verify_g: bool,
 ) -> Result<Option<OldProof<C>>> {
+    // Verify that the public inputs match the verification key.
+    ensure!(
+        public_inputs.len() == vk.num_public_inputs,
+        "Incorrect number of public inputs."
+    );
     // Verify that the proof parameters are valid.
-    check_proof_parameters(proof)?;
+    check_proof_parameters(proof, vk.degree)?;
 
     // Observe the transcript and generate the associated challenge points using Fiat-Shamir.
     let challs = proof.get_challenges(public_inputs, old_proofs)?;
@@ -286,19 +292,43 @@ fn verify_old_proof_evaluation<C: HaloCurve>(
 }
 
 /// Check that the parameters in a proof are well-formed, i.e,
-/// that curve points are on the curve, and field elements are in range.
-/// Panics otherwise.
-fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
+/// that the vectors have the expected lengths, that curve points are on the curve,
+/// and that field elements are in range.
+fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>, degree: usize) -> Result<()> {
     let Proof {
         c_wires,
         c_plonk_z,
         c_plonk_t,
+        c_pis_quotient,
         halo_l,
         halo_r,
         halo_g,
         schnorr_proof,
         ..
     } = proof;
+    // Verify that the vectors have the expected lengths.
+    ensure!(
+        c_wires.len() == NUM_WIRES,
+        "Incorrect number of wire polynomial commitments."
+    );
+    ensure!(
+        c_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER,
+        "Incorrect number of t polynomial commitments."
+    );
+    ensure!(
+        halo_l.len() == log2_strict(degree),
+        "Incorrect number of Halo rounds."
+    );
+    ensure!(
+        proof.all_opening_sets().iter().all(|v| {
+            v.o_constants.len() == NUM_CONSTANTS
+                && v.o_plonk_sigmas.len() == NUM_ROUTED_WIRES
+                && v.o_wires.len() == NUM_WIRES
+                && v.o_plonk_t.len() == QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER
+                && v.o_old_proofs.len() == proof.o_local.o_old_proofs.len()
+        }),
+        "Incorrect number of openings."
+    );
     // Verify that the curve points are valid.
     ensure!(
         c_wires.iter().all(|p| p.is_valid()),
@@ -312,6 +342,10 @@ fn check_proof_parameters<C: HaloCurve>(proof: &Proof<C>) -> Result<()> {
         c_plonk_t.iter().all(|p| p.is_valid()),
         "A t polynomial commitment is not on the curve."
     );
+    ensure!(
+        c_pis_quotient.is_valid(),
+        "The public inputs quotient polynomial commitment is not on the curve."
+    );
     ensure!(
         halo_l.iter().all(|p| p.is_valid()),
         "A Halo left point is not on the curve."
-- 
2.43.0


From b1a3eaa40df11107998b59a327de2f2e72d4494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 19/25] fix: plookup pads tables and lookups without adding
 elements, accepts power-of-two lookups and repeated entries

---
 plookup/src/plookup.rs  | 42 ++++++++++++++++++++++++++++-------------
 plookup/src/verifier.rs | 17 +++++++++++++++--
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/plookup/src/plookup.rs b/plookup/src/plookup.rs
index 961a0e3..5c28e1a 100644
--- a/plookup/src/plookup.rs
+++ b/plookup/src/plookup.rs
@@ -17,9 +17,9 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
     let (n, f, t) = pad_inputs(f, t);
 
     // Compute the `s` multiset of the Plookup protocol.
-    let mut s = f.clone();
-    s.extend_from_slice(&t);
-    sort_by(&mut s, &t);
+    let mut sorted_f = f.clone();
+    sort_by(&mut sorted_f, &t);
+    let s = insert_into(&sorted_f, &t);
 
     // Initiate the Fiat-Shamir challenger.
     let mut challenger = Challenger::new(SECURITY_BITS);
@@ -152,20 +152,23 @@ pub fn prove<C: HaloCurve>(f: &[C::ScalarField], t: &[C::ScalarField]) -> Result
     Ok(PlookupProof::from((commitments, openings, halo_proof, n)))
 }
 
+/// Pads `f` and `t` to the sizes `n` and `n+1`, for some `n` such that `n+1` is a power of two.
+/// Both are padded with the last element of `t`, which leaves the set of elements of `t` unchanged.
 fn pad_inputs<F: Field>(f: &[F], t: &[F]) -> (usize, Vec<F>, Vec<F>) {
-    let d = t.len();
-    let f = if f.len() + 1 < d {
-        padded(f, d - 1)
-    } else {
-        f.to_vec()
-    };
-    let n = f.len().next_power_of_two() - 1;
-
-    let f = padded(&f, n);
-    let t = padded(t, n + 1);
+    let n = (f.len() + 1).max(t.len()).max(2).next_power_of_two() - 1;
+    let t = pad_table(t, n + 1);
+    let mut f = f.to_vec();
+    f.resize(n, t[n]);
     (n, f, t)
 }
 
+/// Pads a non-empty table with copies of its last element.
+pub(crate) fn pad_table<F: Field>(t: &[F], n: usize) -> Vec<F> {
+    let mut pad = t.to_vec();
+    pad.resize(n, t[t.len() - 1]);
+    pad
+}
+
 /// Sorts a vector `f` by another `t` in-place. `f` is sorted by `t` if `f` is a subset of `t`,
 /// and elements of `f` appear in the same order as elements of `t`.
 fn sort_by<F: Field>(f: &mut [F], t: &[F]) {
@@ -176,6 +179,19 @@ fn sort_by<F: Field>(f: &mut [F], t: &[F]) {
     });
 }
 
+/// Inserts the elements of `f`, which is sorted by `t`, next to their first occurrence in `t`.
+fn insert_into<F: Field>(f: &[F], t: &[F]) -> Vec<F> {
+    let mut f = f.iter().peekable();
+    let mut s = Vec::new();
+    for x in t {
+        s.push(*x);
+        while f.peek() == Some(&x) {
+            s.extend(f.next());
+        }
+    }
+    s
+}
+
 /// Computes the Plookup grand product polynomial.
 fn grand_polynomial<F: Field>(f: &[F], t: &[F], s: &[F], beta: F, gamma: F) -> Vec<F> {
     let n = f.len();
diff --git a/plookup/src/verifier.rs b/plookup/src/verifier.rs
index f655577..ab3acc1 100644
--- a/plookup/src/verifier.rs
+++ b/plookup/src/verifier.rs
@@ -1,4 +1,4 @@
-use crate::plookup::{eval_l_i, padded, SECURITY_BITS};
+use crate::plookup::{eval_l_i, pad_table, SECURITY_BITS};
 use crate::proof::{PlookupProof, PlookupProofChallenge};
 use anyhow::{ensure, Result};
 use plonky::halo::verify_ipa;
@@ -10,7 +10,20 @@ use plonky::{blake_hash_usize_to_curve, fft_precompute, ifft_with_precomputation
 /// TODO: The verifier should have some auxiliary knowledge of `c_t`. For now, it is stored in the `proof`.
 pub fn verify<C: HaloCurve>(t: &[C::ScalarField], proof: &PlookupProof<C>) -> Result<()> {
     let n = proof.n;
-    let t = padded(t, n + 1);
+    ensure!(
+        n > 0 && n < usize::MAX && (n + 1).is_power_of_two(),
+        "Invalid size."
+    );
+    ensure!(
+        !t.is_empty() && t.len() <= n + 1,
+        "The table does not fit the size of the proof."
+    );
+    ensure!(
+        proof.halo_proof.halo_l.len() == log2_strict(2 * n + 2)
+            && proof.halo_proof.halo_r.len() == log2_strict(2 * n + 2),
+        "Incorrect number of Halo rounds."
+    );
+    let t = pad_table(t, n + 1);
     let fft_precomputation = fft_precompute(n + 1);
     let gs = (0..2 * n + 2)
         .map(blake_hash_usize_to_curve::<C>)
-- 
2.43.0


From 764464e590c921d6256b31db63d860492c67c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 20/25] Add guarded hook for the public input polynomial

---
 src/verif_hooks.rs | 18 +++++++++++++++++-
 src/verifier.rs    |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 04d7de7..ff93f5e 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -1,6 +1,6 @@
 //! Access to crate-private functions for the verification harness. Compiled only with `--cfg plonky_verif`.
 use crate::plonk_challenger::RecursiveChallenger;
-use crate::{plonk_util, CircuitBuilder, Field, HaloCurve, Polynomial, Target};
+use crate::{plonk_util, CircuitBuilder, FftPrecomputation, Field, HaloCurve, Polynomial, Target};
 
 pub fn eval_l_1<F: Field>(n: usize, x: F) -> F {
     plonk_util::eval_l_1(n, x)
@@ -60,3 +60,19 @@ pub fn powers_recursive<C: HaloCurve>(
 ) -> Vec<Target<C::ScalarField>> {
     plonk_util::powers_recursive(builder, x, n)
 }
+
+pub fn public_inputs_to_polynomial<F: Field>(
+    public_inputs: &[F],
+    alpha: F,
+    degree: usize,
+    num_gates_without_pis: usize,
+    fft_precomputation: Option<&FftPrecomputation<F>>,
+) -> Polynomial<F> {
+    crate::verifier::public_inputs_to_polynomial(
+        public_inputs,
+        alpha,
+        degree,
+        num_gates_without_pis,
+        fft_precomputation,
+    )
+}
diff --git a/src/verifier.rs b/src/verifier.rs
index 911eded..233b3c0 100644
--- a/src/verifier.rs
+++ b/src/verifier.rs
@@ -408,7 +408,7 @@ fn public_inputs_to_wires_vec<F: Field>(public_inputs: &[F]) -> Vec<Vec<F>> {
 }
 
 /// Returns the polynomial interpolating the (scaled) public input values at the `PublicInputGate`s.
-fn public_inputs_to_polynomial<F: Field>(
+pub(crate) fn public_inputs_to_polynomial<F: Field>(
     public_inputs: &[F],
     alpha: F,
     degree: usize,
-- 
2.43.0


From 8a64c531fbe90b465f48ce55fb82acacfea676ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 21/25] fix: square, not double, when the recursive verifier
 raises zeta to powers of two

---
 src/plonk_recursion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plonk_recursion.rs b/src/plonk_recursion.rs
index 464b125..a3b6ed4 100644
--- a/src/plonk_recursion.rs
+++ b/src/plonk_recursion.rs
@@ -510,7 +510,7 @@ fn verify_assumptions<C: HaloCurve, InnerC: HaloCurve<BaseField = C::ScalarField
     // Evaluate zeta^degree.
     let mut zeta_power_d = zeta;
     for _i in 0..degree_pow {
-        zeta_power_d = builder.double(zeta_power_d);
+        zeta_power_d = builder.square(zeta_power_d);
     }
 
     // Evaluate Z_H(zeta) = zeta^degree - 1.
@@ -603,7 +603,7 @@ fn halo_g_recursive<C: HaloCurve>(
         let u_i_inv = builder.inv(u_i);
         let term = builder.mul_add(u_i, x_power, u_i_inv);
         product = builder.mul(product, term);
-        x_power = builder.double(x_power);
+        x_power = builder.square(x_power);
     }
     product
 }
-- 
2.43.0


From 314d81cc3b7d17484e7a6f6e6b25cb979b144996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 22/25] fix: in-circuit rescue_sponge with no outputs looped
 forever

---
 src/circuit_builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index cab13f3..f063e2c 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -977,6 +977,9 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         // Squeeze until we have the desired number of outputs.
         let mut outputs = Vec::new();
+        if num_outputs == 0 {
+            return outputs;
+        }
         loop {
             for i in 0..(RESCUE_SPONGE_WIDTH - 1) {
                 outputs.push(state[i]);
-- 
2.43.0


From ee21486b2eb1b6965e253204248278763726f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 23/25] fix: generators depending on a public input never ran

---
 src/circuit_builder.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/circuit_builder.rs b/src/circuit_builder.rs
index f063e2c..c564a87 100644
--- a/src/circuit_builder.rs
+++ b/src/circuit_builder.rs
@@ -1166,7 +1166,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         let degree = self.num_gates();
         let degree_pow = log2_strict(degree);
-        let routing_target_partitions = self.get_routing_partitions();
+        let routing_target_partitions = self.get_routing_partitions(num_gates_without_pis);
         let wire_partitions = routing_target_partitions.to_wire_partitions();
         let sigma = wire_partitions.to_sigma();
 
@@ -1248,7 +1248,7 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         }
     }
 
-    fn get_routing_partitions(&self) -> TargetPartitions<C::ScalarField> {
+    fn get_routing_partitions(&self, pis_offset: usize) -> TargetPartitions<C::ScalarField> {
         let mut partitions = TargetPartitions::new();
 
         for i in 0..self.virtual_target_index {
@@ -1261,6 +1261,13 @@ impl<C: HaloCurve> CircuitBuilder<C> {
             }
         }
 
+        // A public input shares the value of its wire, so that generators can depend on it directly.
+        for i in 0..self.public_input_index {
+            let pi = PublicInput::new(i);
+            partitions.add_partition(Target::PublicInput(pi));
+            partitions.merge(Target::PublicInput(pi), pi.routable_target(pis_offset));
+        }
+
         for &(a, b) in &self.copy_constraints {
             partitions.merge(a, b);
         }
-- 
2.43.0


From 0cb101b56aa0033dac828bb26eb98f259a43aa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 24/25] fix: bound the top limb of a split bigint

add_virtual_bigint_target range-checked every limb to 86 bits, so a 3-limb
split of a native value also admitted that value plus the field order, and
products and remainders could be forged.
---
 src/circuit_bigint.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index d4a0f51..6ca5894 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -110,8 +110,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
 
         if validate {
             // Check that we have a valid bigint encoding, with each limb being in the proper range.
-            for &limb in &limbs {
-                self.assert_dibit_length(limb, LIMB_DIBITS);
+            // The bound of the most significant limb follows from `max`; without it, a split of a
+            // field element into limbs would also admit the same value plus the field order.
+            for (i, &limb) in limbs.iter().enumerate() {
+                let limb_bits = LIMB_BITS.min(max.bits() as usize - i * LIMB_BITS);
+                self.assert_dibit_length(limb, ceil_div_usize(limb_bits, 2));
             }
         }
 
-- 
2.43.0


From ce5d1c5bb25780fec0c997e9e78f56fad5108cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 25/25] fix: constrain bigint limbs whose bound is zero

sum_limbs dropped them from the sum without constraining them, so the carry
past a product's bound was free and division only held modulo a power of the
limb base.
---
 src/circuit_bigint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/circuit_bigint.rs b/src/circuit_bigint.rs
index 6ca5894..c590515 100644
--- a/src/circuit_bigint.rs
+++ b/src/circuit_bigint.rs
@@ -260,6 +260,11 @@ impl<C: HaloCurve> CircuitBuilder<C> {
         &mut self,
         limbs: &[BoundedTarget<C::ScalarField>],
     ) -> BigIntTarget<C::ScalarField> {
+        // Limbs with a bound of zero don't contribute to the sum, but we must enforce that bound.
+        for limb in limbs.iter().filter(|l| l.max.is_zero()) {
+            self.assert_zero(limb.target);
+        }
+
         let nonzero_limbs: Vec<BoundedTarget<C::ScalarField>> =
             limbs.iter().cloned().filter(|l| !l.max.is_zero()).collect();
 
-- 
2.43.0

