From 8e4cfc079501c131c09c8dbb24ad077424c3b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 01/23] fix: groth16 setup evaluates tau over the whole padded
 domain

The lagrange coefficients and the h query were built from cs.m() powers of
tau, so honest proofs for a constraint count that is not a power of two
never verified.
---
 groth16/src/zksnark.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index f20d93a..a5d1cee 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -37,10 +37,10 @@ impl ZkSnark {
         let gamma_inverse = gamma.invert().ok_or(Error::ProverInversionFailed)?;
         let delta_inverse = delta.invert().ok_or(Error::ProverInversionFailed)?;
 
-        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (cs.m() - 1) as usize];
+        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (size - 1) as usize];
 
         // Compute (1, tau, tau^2, ...)
-        let mut powers_of_tau = PointsValue(vec![Fr::zero(); cs.m() as usize]);
+        let mut powers_of_tau = PointsValue(vec![Fr::zero(); size as usize]);
         let mut current_pow_of_tau = Fr::one();
         for x in powers_of_tau.0.iter_mut() {
             *x = current_pow_of_tau;
-- 
2.43.0


From 542fe16a2473eee1722afdfd3adafc217a05d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 02/23] fix: groth16 supports circuits with fewer than two
 constraints

Setup and proving panicked in the fft because a one element domain was
requested.
---
 groth16/src/prover.rs  | 3 ++-
 groth16/src/zksnark.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index 678ff26..92acb25 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -25,7 +25,8 @@ impl Prover {
         let mut cs = R1cs::default();
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        // the smallest domain supported by fft has two elements
+        let size = cs.m().next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let vk = self.params.vk.clone();
 
diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index a5d1cee..e0ddee0 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -20,7 +20,8 @@ impl ZkSnark {
 
         circuit.synthesize(&mut cs)?;
 
-        let size = cs.m().next_power_of_two();
+        // the smallest domain supported by fft has two elements
+        let size = cs.m().next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let fft = Fft::<Fr>::new(k as usize);
 
-- 
2.43.0


From 9c2449bcb3c44236ac2943df310886a5ff0feeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 03/23] sim: groth16 proof parts behind cfg kogarashi_sim

---
 groth16/src/proof.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/groth16/src/proof.rs b/groth16/src/proof.rs
index d6f1506..946b00b 100644
--- a/groth16/src/proof.rs
+++ b/groth16/src/proof.rs
@@ -49,3 +49,17 @@ impl Proof {
         Ok(())
     }
 }
+
+/// Simulation seam, compiled only with `--cfg kogarashi_sim`: takes a proof
+/// apart and puts it together again, so that it can travel over a simulated
+/// network.
+#[cfg(kogarashi_sim)]
+impl Proof {
+    pub fn sim_parts(&self) -> (G1Affine, G2Affine, G1Affine) {
+        (self.a, self.b, self.c)
+    }
+
+    pub fn sim_from_parts((a, b, c): (G1Affine, G2Affine, G1Affine)) -> Self {
+        Self { a, b, c }
+    }
+}
-- 
2.43.0


From 9938da0a57c0a214f5601a93631d2a79c1c06ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 04/23] fix: groth16 gives every public input a dummy
 constraint

Public inputs that no constraint depends on, or whose polynomials are linearly
dependent, could be altered in a delivery without the proof being rejected.
---
 groth16/src/prover.rs  |  8 +++++---
 groth16/src/zksnark.rs | 16 +++++++++++-----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index 92acb25..96e3942 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -25,13 +25,15 @@ impl Prover {
         let mut cs = R1cs::default();
         circuit.synthesize(&mut cs)?;
 
-        // the smallest domain supported by fft has two elements
-        let size = cs.m().next_power_of_two().max(2);
+        // every public input has a dummy constraint of its own, and the smallest
+        // domain supported by fft has two elements
+        let size = (cs.m() as usize + cs.l()).next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let vk = self.params.vk.clone();
 
         let fft = Fft::<Fr>::new(k as usize);
-        let (a, b, c) = cs.evaluate();
+        let (mut a, b, c) = cs.evaluate();
+        a.extend(cs.x());
 
         // Do the calculation of H(X): A(X) * B(X) - C(X) == H(X) * T(X)
         let a = fft.idft(PointsValue(a));
diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index e0ddee0..138c248 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -20,8 +20,9 @@ impl ZkSnark {
 
         circuit.synthesize(&mut cs)?;
 
-        // the smallest domain supported by fft has two elements
-        let size = cs.m().next_power_of_two().max(2);
+        // every public input has a dummy constraint of its own, and the smallest
+        // domain supported by fft has two elements
+        let size = (cs.m() as usize + cs.l()).next_power_of_two().max(2);
         let k = size.trailing_zeros();
         let fft = Fft::<Fr>::new(k as usize);
 
@@ -38,10 +39,10 @@ impl ZkSnark {
         let gamma_inverse = gamma.invert().ok_or(Error::ProverInversionFailed)?;
         let delta_inverse = delta.invert().ok_or(Error::ProverInversionFailed)?;
 
-        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; (size - 1) as usize];
+        let mut h = vec![G1Affine::ADDITIVE_IDENTITY; size - 1];
 
         // Compute (1, tau, tau^2, ...)
-        let mut powers_of_tau = PointsValue(vec![Fr::zero(); size as usize]);
+        let mut powers_of_tau = PointsValue(vec![Fr::zero(); size]);
         let mut current_pow_of_tau = Fr::one();
         for x in powers_of_tau.0.iter_mut() {
             *x = current_pow_of_tau;
@@ -66,9 +67,14 @@ impl ZkSnark {
         let mut ic = vec![G1Affine::ADDITIVE_IDENTITY; cs.l()];
         let mut l = vec![G1Affine::ADDITIVE_IDENTITY; cs.m_l_1()];
 
-        let ((at_inputs, bt_inputs, ct_inputs), (at_aux, bt_aux, ct_aux)) =
+        let ((mut at_inputs, bt_inputs, ct_inputs), (at_aux, bt_aux, ct_aux)) =
             cs.z_vectors(cs.l(), cs.m_l_1());
 
+        // x_i * 0 = 0, so that the polynomials of the public inputs are independent
+        for (i, at) in at_inputs.iter_mut().enumerate() {
+            at.push((Fr::one(), cs.m() as usize + i));
+        }
+
         // Evaluate for inputs.
         eval(
             g1,
-- 
2.43.0


From 4c8b38ae14d2201175c9b02a121a3da744f3da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 05/23] fix: groth16 setup refuses a trapdoor inside the
 evaluation domain

The Lagrange coefficients then end in zeros, which are trimmed, and setup
panicked; with one constraint left the key would not have been sound.
---
 groth16/src/zksnark.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groth16/src/zksnark.rs b/groth16/src/zksnark.rs
index 138c248..bd7d254 100644
--- a/groth16/src/zksnark.rs
+++ b/groth16/src/zksnark.rs
@@ -50,6 +50,10 @@ impl ZkSnark {
         }
 
         let mut coeff = fft.z(&tau);
+        // the target polynomial vanishes at tau, which is an element of the domain
+        if coeff.is_zero() {
+            return Err(Error::ProverInversionFailed);
+        }
         // (tau^m - 1) / delta
         coeff.mul_assign(&delta_inverse);
 
-- 
2.43.0


From 455b8e3b23e2b1fdf79bec40ccbcd6bd9df498e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:09 +0000
Subject: [PATCH 06/23] sim: corrupted witness assignment and nova prover
 access behind cfg kogarashi_sim

---
 nova/src/lib.rs                    |  2 +
 nova/src/relaxed_r1cs.rs           |  7 ++++
 nova/src/sim.rs                    | 61 ++++++++++++++++++++++++++++++
 zkstd/src/circuit/gadget/binary.rs |  9 ++++-
 zkstd/src/circuit/gadget/field.rs  |  2 +
 zkstd/src/r1cs.rs                  |  2 +
 zkstd/src/r1cs/sim.rs              | 51 +++++++++++++++++++++++++
 7 files changed, 133 insertions(+), 1 deletion(-)
 create mode 100644 nova/src/sim.rs
 create mode 100644 zkstd/src/r1cs/sim.rs

diff --git a/nova/src/lib.rs b/nova/src/lib.rs
index 280a236..80923d9 100644
--- a/nova/src/lib.rs
+++ b/nova/src/lib.rs
@@ -13,6 +13,8 @@ mod relaxed_r1cs;
 mod verifier;
 
 mod driver;
+#[cfg(kogarashi_sim)]
+pub mod sim;
 #[cfg(test)]
 mod test;
 
diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index 476e318..38ab64d 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -1,6 +1,13 @@
 mod instance;
 mod witness;
 
+/// Simulation seam, compiled only with `--cfg kogarashi_sim`.
+#[cfg(kogarashi_sim)]
+pub mod sim {
+    pub use super::instance::{R1csInstance, RelaxedR1csInstance};
+    pub use super::witness::{R1csWitness, RelaxedR1csWitness};
+}
+
 use crate::PedersenCommitment;
 pub(crate) use instance::{R1csInstance, RelaxedR1csInstance};
 pub(crate) use witness::{R1csWitness, RelaxedR1csWitness};
diff --git a/nova/src/sim.rs b/nova/src/sim.rs
new file mode 100644
index 0000000..ef29705
--- /dev/null
+++ b/nova/src/sim.rs
@@ -0,0 +1,61 @@
+//! Simulation seam, compiled only with `--cfg kogarashi_sim`: what a prover
+//! that does not follow `Ivc` has at hand.
+pub use crate::relaxed_r1cs::sim::*;
+
+use crate::circuit::AugmentedFCircuit;
+use crate::hash::{MimcRO, CHALLENGE_BITS, MIMC_ROUNDS};
+use crate::relaxed_r1cs::r1cs_instance_and_witness;
+use crate::{FunctionCircuit, PedersenCommitment, R1csShape};
+use zkstd::circuit::prelude::{CircuitDriver, R1cs};
+use zkstd::matrix::DenseVectors;
+
+/// One step of the augmented circuit with inputs of the caller's choice: the
+/// constraint system and the state after the step.
+#[allow(clippy::type_complexity, clippy::too_many_arguments)]
+pub fn step<C, CS, FC>(
+    is_primary: bool,
+    i: u64,
+    z_0: DenseVectors<C::Base>,
+    z_i: Option<DenseVectors<C::Base>>,
+    u_single: Option<R1csInstance<C>>,
+    u_range: Option<RelaxedR1csInstance<C>>,
+    commit_t: Option<C::Affine>,
+) -> (R1cs<CS>, DenseVectors<C::Base>)
+where
+    C: CircuitDriver,
+    CS: CircuitDriver<Scalar = C::Base>,
+    FC: FunctionCircuit<C::Base>,
+{
+    let mut cs = R1cs::<CS>::default();
+    let z = AugmentedFCircuit::<C, FC> {
+        is_primary,
+        i,
+        z_0,
+        z_i,
+        u_single,
+        u_range,
+        commit_t,
+        f: Default::default(),
+    }
+    .generate(&mut cs);
+    let z = DenseVectors::new(z.into_iter().map(|x| x.value(&cs)).collect());
+    (cs, z)
+}
+
+pub fn instance_and_witness<C: CircuitDriver>(
+    cs: &R1cs<C>,
+    shape: &R1csShape<C>,
+    ck: &PedersenCommitment<C::Affine>,
+) -> (R1csInstance<C>, R1csWitness<C>) {
+    r1cs_instance_and_witness(cs, shape, ck)
+}
+
+pub fn challenge<C: CircuitDriver>(
+    commit_t: C::Affine,
+    u_range: &RelaxedR1csInstance<C>,
+) -> C::Scalar {
+    let mut transcript = MimcRO::<MIMC_ROUNDS, C>::default();
+    transcript.append_point(commit_t);
+    u_range.absorb_by_transcript(&mut transcript);
+    transcript.squeeze(CHALLENGE_BITS)
+}
diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index bcb86a8..04eae88 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -30,7 +30,10 @@ impl BinaryAssignment {
 
     pub fn witness<C: CircuitDriver>(cs: &mut R1cs<C>, bit: u8) -> Self {
         let wire = cs.private_wire();
-        cs.w.push(C::Scalar::from(bit as u64));
+        let bit = C::Scalar::from(bit as u64);
+        #[cfg(kogarashi_sim)]
+        let bit = crate::r1cs::sim::assign(bit);
+        cs.w.push(bit);
 
         Self(wire)
     }
@@ -44,6 +47,8 @@ impl BinaryAssignment {
             C::Scalar::one()
         };
 
+        #[cfg(kogarashi_sim)]
+        let new_val = crate::r1cs::sim::assign(new_val);
         cs.w.push(new_val);
 
         Self(wire)
@@ -59,6 +64,8 @@ impl BinaryAssignment {
             C::Scalar::zero()
         };
 
+        #[cfg(kogarashi_sim)]
+        let a_and_b = crate::r1cs::sim::assign(a_and_b);
         cs.w.push(a_and_b);
 
         Self(wire)
diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 131d9db..0e471c4 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -20,6 +20,8 @@ impl<F: PrimeField> FieldAssignment<F> {
 
     pub fn witness<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, witness: F) -> Self {
         let wire = cs.private_wire();
+        #[cfg(kogarashi_sim)]
+        let witness = crate::r1cs::sim::assign(witness);
         cs.w.push(witness);
 
         Self(SparseRow::from(wire))
diff --git a/zkstd/src/r1cs.rs b/zkstd/src/r1cs.rs
index d83ebdb..33ce2d8 100644
--- a/zkstd/src/r1cs.rs
+++ b/zkstd/src/r1cs.rs
@@ -1,3 +1,5 @@
+#[cfg(kogarashi_sim)]
+pub mod sim;
 pub mod test;
 mod wire;
 
diff --git a/zkstd/src/r1cs/sim.rs b/zkstd/src/r1cs/sim.rs
new file mode 100644
index 0000000..bcab1bf
--- /dev/null
+++ b/zkstd/src/r1cs/sim.rs
@@ -0,0 +1,51 @@
+//! Simulation seam, compiled only with `--cfg kogarashi_sim`: a prover whose
+//! memory is corrupted while it assigns one witness. Everything computed later
+//! follows from the corrupted value.
+use super::R1cs;
+use crate::circuit::CircuitDriver;
+use crate::common::PrimeField;
+use core::sync::atomic::{AtomicU64, Ordering::Relaxed};
+
+static COUNT: AtomicU64 = AtomicU64::new(0);
+static FIRST: AtomicU64 = AtomicU64::new(u64::MAX);
+static LEN: AtomicU64 = AtomicU64::new(0);
+static KIND: AtomicU64 = AtomicU64::new(0);
+static HITS: AtomicU64 = AtomicU64::new(0);
+
+/// Corrupts `len` witnesses from the `first` one assigned from now on.
+pub fn arm(first: u64, len: u64, kind: u64) {
+    COUNT.store(0, Relaxed);
+    HITS.store(0, Relaxed);
+    LEN.store(len, Relaxed);
+    KIND.store(kind, Relaxed);
+    FIRST.store(first, Relaxed);
+}
+
+/// Ends the fault; witnesses assigned and corrupted since `arm`.
+pub fn disarm() -> (u64, u64) {
+    FIRST.store(u64::MAX, Relaxed);
+    (COUNT.load(Relaxed), HITS.load(Relaxed))
+}
+
+pub(crate) fn assign<F: PrimeField>(v: F) -> F {
+    let n = COUNT.fetch_add(1, Relaxed);
+    let first = FIRST.load(Relaxed);
+    if n < first || n - first >= LEN.load(Relaxed) {
+        return v;
+    }
+    HITS.fetch_add(1, Relaxed);
+    let kind = KIND.load(Relaxed);
+    match kind % 4 {
+        0 => F::one() - v,
+        1 => F::zero(),
+        2 => -v,
+        _ => v + F::from(kind / 4),
+    }
+}
+
+impl<C: CircuitDriver> R1cs<C> {
+    /// Overwrites a witness after the assignment is complete.
+    pub fn sim_set_witness(&mut self, i: usize, v: C::Scalar) {
+        self.w[i] = v
+    }
+}
-- 
2.43.0


From ae4eca6ed27e06b7807ec7c271230f6b40f2e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 07/23] fix: decoding rejects field elements not below the
 modulus

---
 bn254/src/fq.rs | 29 ++++++++++++++++++++++++++++-
 bn254/src/fr.rs | 29 ++++++++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/bn254/src/fq.rs b/bn254/src/fq.rs
index ed73055..b1fac26 100644
--- a/bn254/src/fq.rs
+++ b/bn254/src/fq.rs
@@ -1,6 +1,7 @@
 use crate::Fr;
 use core::borrow::Borrow;
 use core::iter::{Product, Sum};
+use parity_scale_codec::{Error, Input};
 use zkstd::arithmetic::bits_256::*;
 use zkstd::common::*;
 use zkstd::macros::field::*;
@@ -44,9 +45,26 @@ pub(crate) const R3: [u64; 4] = [
 pub(crate) const INV: u64 = 0x87d20782e4866389;
 
 /// bn254 curve base field
-#[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
+#[derive(Clone, Copy, Encode, Serialize)]
 pub struct Fq(pub(crate) [u64; 4]);
 
+impl Decode for Fq {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        Fq::from_limbs(<[u64; 4]>::decode(input)?).ok_or_else(|| "Fq not reduced".into())
+    }
+}
+
+impl<'de> Deserialize<'de> for Fq {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "Fq")]
+        struct Limbs([u64; 4]);
+
+        Fq::from_limbs(Limbs::deserialize(deserializer)?.0)
+            .ok_or_else(|| serde::de::Error::custom("Fq not reduced"))
+    }
+}
+
 impl SigUtils<32> for Fq {
     fn to_bytes(self) -> [u8; Self::LENGTH] {
         let tmp = self.montgomery_reduce();
@@ -80,6 +98,15 @@ impl SigUtils<32> for Fq {
 }
 
 impl Fq {
+    /// Montgomery form limbs, only if they are below the modulus.
+    fn from_limbs(limbs: [u64; 4]) -> Option<Self> {
+        limbs
+            .iter()
+            .rev()
+            .lt(MODULUS.iter().rev())
+            .then_some(Self(limbs))
+    }
+
     pub const fn new_unchecked(val: [u64; 4]) -> Self {
         Self(val)
     }
diff --git a/bn254/src/fr.rs b/bn254/src/fr.rs
index ca2c17b..ff44b56 100644
--- a/bn254/src/fr.rs
+++ b/bn254/src/fr.rs
@@ -3,6 +3,7 @@ use crate::fqn::Fq2;
 
 use core::borrow::Borrow;
 use core::iter::{Product, Sum};
+use parity_scale_codec::{Error, Input};
 use zkstd::arithmetic::bits_256::*;
 use zkstd::common::*;
 use zkstd::macros::field::*;
@@ -67,9 +68,26 @@ pub const ROOT_OF_UNITY: Fr = Fr::to_mont_form([
 pub const TWO_ADACITY: u32 = 32;
 
 /// Bn254 curve scalar field
-#[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
+#[derive(Clone, Copy, Encode, Serialize)]
 pub struct Fr(pub [u64; 4]);
 
+impl Decode for Fr {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        Fr::from_limbs(<[u64; 4]>::decode(input)?).ok_or_else(|| "Fr not reduced".into())
+    }
+}
+
+impl<'de> Deserialize<'de> for Fr {
+    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        #[derive(Deserialize)]
+        #[serde(rename = "Fr")]
+        struct Limbs([u64; 4]);
+
+        Fr::from_limbs(Limbs::deserialize(deserializer)?.0)
+            .ok_or_else(|| serde::de::Error::custom("Fr not reduced"))
+    }
+}
+
 impl SigUtils<32> for Fr {
     fn to_bytes(self) -> [u8; Self::LENGTH] {
         let tmp = self.montgomery_reduce();
@@ -104,6 +122,15 @@ impl SigUtils<32> for Fr {
 }
 
 impl Fr {
+    /// Montgomery form limbs, only if they are below the modulus.
+    fn from_limbs(limbs: [u64; 4]) -> Option<Self> {
+        limbs
+            .iter()
+            .rev()
+            .lt(MODULUS.iter().rev())
+            .then_some(Self(limbs))
+    }
+
     pub const fn new_unchecked(val: [u64; 4]) -> Self {
         Self(val)
     }
-- 
2.43.0


From c3212080e655555da691aa54cbe69b832c21e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 08/23] fix: decoding rejects points that are not on their
 curve

---
 bn254/src/g1.rs       | 30 ++++++++++++++++++++++++++++--
 bn254/src/g2.rs       | 30 ++++++++++++++++++++++++++++--
 grumpkin/src/curve.rs | 30 ++++++++++++++++++++++++++++--
 3 files changed, 84 insertions(+), 6 deletions(-)

diff --git a/bn254/src/g1.rs b/bn254/src/g1.rs
index 3974d1d..8cabb5d 100644
--- a/bn254/src/g1.rs
+++ b/bn254/src/g1.rs
@@ -2,6 +2,7 @@ use crate::params::{BN_X, BN_X_IS_NEGATIVE, G1_GENERATOR_X, G1_GENERATOR_Y, G1_P
 use crate::{Fq, Fr};
 use core::borrow::Borrow;
 use core::iter::Sum;
+use parity_scale_codec::{Error, Input};
 use zkstd::arithmetic::weierstrass::*;
 use zkstd::common::*;
 use zkstd::macros::curve::weierstrass::*;
@@ -14,13 +15,25 @@ pub const BETA: Fq = Fq([
 ]);
 
 /// The projective form of coordinate
-#[derive(Debug, Clone, Copy, Decode, Encode)]
+#[derive(Debug, Clone, Copy, Encode)]
 pub struct G1Affine {
     pub(crate) x: Fq,
     pub(crate) y: Fq,
     is_infinity: bool,
 }
 
+impl Decode for G1Affine {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let (x, y, is_infinity) = Decode::decode(input)?;
+        let point = Self { x, y, is_infinity };
+        if point.is_on_curve() {
+            Ok(point)
+        } else {
+            Err("G1Affine not on curve".into())
+        }
+    }
+}
+
 fn endomorphism(p: &G1Affine) -> G1Affine {
     // Endomorphism of the points on the curve.
     // endomorphism_p(x,y) = (BETA * x, y)
@@ -115,13 +128,26 @@ impl Mul<G1Affine> for Fr {
 }
 
 /// The projective form of coordinate
-#[derive(Debug, Clone, Copy, Decode, Encode)]
+#[derive(Debug, Clone, Copy, Encode)]
 pub struct G1Projective {
     pub(crate) x: Fq,
     pub(crate) y: Fq,
     pub(crate) z: Fq,
 }
 
+impl Decode for G1Projective {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let (x, y, z) = Decode::decode(input)?;
+        let point = Self { x, y, z };
+        // the only point with a zero `z` is `(0 : y : 0)`
+        if point.is_on_curve() && (!point.is_identity() || (x.is_zero() && !y.is_zero())) {
+            Ok(point)
+        } else {
+            Err("G1Projective not on curve".into())
+        }
+    }
+}
+
 impl G1Projective {
     /// Multiply `self` by `crate::BN_X`, using double and add.
     fn mul_by_x(&self) -> G1Projective {
diff --git a/bn254/src/g2.rs b/bn254/src/g2.rs
index fb7c64f..95e4e77 100644
--- a/bn254/src/g2.rs
+++ b/bn254/src/g2.rs
@@ -5,6 +5,7 @@ use crate::pairing::{SIX_U_PLUS_2_NAF, XI_TO_Q_MINUS_1_OVER_2};
 use crate::params::*;
 use core::borrow::Borrow;
 use core::iter::Sum;
+use parity_scale_codec::{Error, Input};
 use zkstd::arithmetic::weierstrass::*;
 use zkstd::common::*;
 use zkstd::macros::curve::weierstrass::*;
@@ -12,13 +13,25 @@ use zkstd::macros::curve::weierstrass::*;
 const B3: Fq2 = G2_PARAM_B.add_const(G2_PARAM_B).add_const(G2_PARAM_B);
 
 /// The projective form of coordinate
-#[derive(Debug, Clone, Copy, Decode, Encode)]
+#[derive(Debug, Clone, Copy, Encode)]
 pub struct G2Affine {
     x: Fq2,
     y: Fq2,
     is_infinity: bool,
 }
 
+impl Decode for G2Affine {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let (x, y, is_infinity) = Decode::decode(input)?;
+        let point = Self { x, y, is_infinity };
+        if point.is_on_curve() {
+            Ok(point)
+        } else {
+            Err("G2Affine not on curve".into())
+        }
+    }
+}
+
 impl G2Affine {
     /// Returns true if this point is free of an $h$-torsion component, and so it
     /// exists within the $q$-order subgroup $\mathbb{G}_2$. This should always return true
@@ -78,13 +91,26 @@ impl Mul<G2Affine> for Fr {
 }
 
 /// The projective form of coordinate
-#[derive(Debug, Clone, Copy, Decode, Encode)]
+#[derive(Debug, Clone, Copy, Encode)]
 pub struct G2Projective {
     pub(crate) x: Fq2,
     pub(crate) y: Fq2,
     pub(crate) z: Fq2,
 }
 
+impl Decode for G2Projective {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let (x, y, z) = Decode::decode(input)?;
+        let point = Self { x, y, z };
+        // the only point with a zero `z` is `(0 : y : 0)`
+        if point.is_on_curve() && (!point.is_identity() || (x.is_zero() && !y.is_zero())) {
+            Ok(point)
+        } else {
+            Err("G2Projective not on curve".into())
+        }
+    }
+}
+
 impl G2Projective {
     /// Multiply `self` by `crate::BN_X`, using double and add.
     fn mul_by_x(&self) -> G2Projective {
diff --git a/grumpkin/src/curve.rs b/grumpkin/src/curve.rs
index 0290575..9783035 100644
--- a/grumpkin/src/curve.rs
+++ b/grumpkin/src/curve.rs
@@ -2,18 +2,31 @@ use crate::params::{GENERATOR_X, GENERATOR_Y, PARAM_B, PARAM_B3};
 use bn_254::{Fq, Fr};
 use core::borrow::Borrow;
 use core::iter::Sum;
+use parity_scale_codec::{Error, Input};
 use zkstd::arithmetic::weierstrass::*;
 use zkstd::common::*;
 use zkstd::macros::curve::weierstrass::*;
 
 /// The projective form of coordinate
-#[derive(Debug, Clone, Copy, Decode, Encode)]
+#[derive(Debug, Clone, Copy, Encode)]
 pub struct Affine {
     pub(crate) x: Fr,
     pub(crate) y: Fr,
     is_infinity: bool,
 }
 
+impl Decode for Affine {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let (x, y, is_infinity) = Decode::decode(input)?;
+        let point = Self { x, y, is_infinity };
+        if point.is_on_curve() {
+            Ok(point)
+        } else {
+            Err("Affine not on curve".into())
+        }
+    }
+}
+
 impl Affine {
     pub const RAW_SIZE: usize = 97;
 
@@ -104,13 +117,26 @@ impl Mul<Affine> for Fq {
 }
 
 /// The projective form of coordinate
-#[derive(Debug, Clone, Copy, Decode, Encode)]
+#[derive(Debug, Clone, Copy, Encode)]
 pub struct Projective {
     pub(crate) x: Fr,
     pub(crate) y: Fr,
     pub(crate) z: Fr,
 }
 
+impl Decode for Projective {
+    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
+        let (x, y, z) = Decode::decode(input)?;
+        let point = Self { x, y, z };
+        // the only point with a zero `z` is `(0 : y : 0)`
+        if point.is_on_curve() && (!point.is_identity() || (x.is_zero() && !y.is_zero())) {
+            Ok(point)
+        } else {
+            Err("Projective not on curve".into())
+        }
+    }
+}
+
 impl Projective {
     /// Converts a batch of `G1Projective` elements into `G1Affine` elements. This
     /// function will panic if `p.len() != q.len()`.
-- 
2.43.0


From 602c4dca5d122999aa791173b32b32a2bc59e078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:57 +0000
Subject: [PATCH 09/23] fix: inputize constrains the public wire to the value
 it publishes

---
 zkstd/src/circuit/gadget/field.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 0e471c4..66365b3 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -32,7 +32,10 @@ impl<F: PrimeField> FieldAssignment<F> {
         let value = witness.inner().evaluate(&cs.x, &cs.w);
         cs.x.push(value);
 
-        Self(SparseRow::from(wire))
+        let instance = Self(SparseRow::from(wire));
+        Self::enforce_eq(cs, &witness, &instance);
+
+        instance
     }
 
     pub fn value<C: CircuitDriver<Scalar = F>>(&self, cs: &R1cs<C>) -> F {
-- 
2.43.0


From d04b4a094f937f343274629bbbc907c068308499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:57 +0000
Subject: [PATCH 10/23] fix: bits and their negation and conjunction are
 constrained

---
 zkstd/src/circuit/gadget/binary.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/zkstd/src/circuit/gadget/binary.rs b/zkstd/src/circuit/gadget/binary.rs
index 04eae88..fb59d7a 100644
--- a/zkstd/src/circuit/gadget/binary.rs
+++ b/zkstd/src/circuit/gadget/binary.rs
@@ -1,6 +1,7 @@
 use crate::circuit::prelude::FieldAssignment;
 use crate::circuit::CircuitDriver;
 use crate::common::{IntGroup, Ring};
+use crate::matrix::SparseRow;
 use crate::r1cs::{R1cs, Wire};
 
 #[derive(Clone, Debug)]
@@ -35,6 +36,9 @@ impl BinaryAssignment {
         let bit = crate::r1cs::sim::assign(bit);
         cs.w.push(bit);
 
+        let row = SparseRow::from(wire);
+        cs.mul_gate(&row, &row, &row);
+
         Self(wire)
     }
 
@@ -51,6 +55,9 @@ impl BinaryAssignment {
         let new_val = crate::r1cs::sim::assign(new_val);
         cs.w.push(new_val);
 
+        let sum = SparseRow::from(wire) + SparseRow::from(b.0);
+        cs.equal_gate(&sum, &SparseRow::one());
+
         Self(wire)
     }
 
@@ -68,6 +75,12 @@ impl BinaryAssignment {
         let a_and_b = crate::r1cs::sim::assign(a_and_b);
         cs.w.push(a_and_b);
 
+        cs.mul_gate(
+            &SparseRow::from(a.0),
+            &SparseRow::from(b.0),
+            &SparseRow::from(wire),
+        );
+
         Self(wire)
     }
 
-- 
2.43.0


From 360ab8ab8894dba03b41daddeae8b9b423c2ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:57 +0000
Subject: [PATCH 11/23] fix: to_bits constrains the bits to the value they
 represent

---
 zkstd/src/circuit/gadget/field.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/zkstd/src/circuit/gadget/field.rs b/zkstd/src/circuit/gadget/field.rs
index 66365b3..0319fc4 100644
--- a/zkstd/src/circuit/gadget/field.rs
+++ b/zkstd/src/circuit/gadget/field.rs
@@ -159,7 +159,7 @@ impl<F: PrimeField> FieldAssignment<F> {
         }
     }
 
-    /// To bit representation in Big-endian
+    /// The low `num_bits` bits of the canonical representation in Big-endian
     pub fn to_bits<C: CircuitDriver<Scalar = F>>(
         cs: &mut R1cs<C>,
         x: &Self,
@@ -174,15 +174,13 @@ impl<F: PrimeField> FieldAssignment<F> {
             .to_bits()
             .iter()
             .map(|b| BinaryAssignment::witness(cs, *b))
-            .skip(256 - num_bits) // TODO: Decide on how to store bits. LE or BE
             .collect();
-        if num_bits < C::NUM_BITS as usize {
-            FieldAssignment::range_check_bits(cs, &bit_repr, num_bits as u64);
-        } else {
-            FieldAssignment::range_check(cs, &bit_repr, bound);
-        }
+        // the bits recompose to x without wrapping around the modulus
+        FieldAssignment::range_check(cs, &bit_repr, bound);
+        FieldAssignment::enforce_eq_bits(cs, x, &bit_repr);
 
-        bit_repr
+        // TODO: Decide on how to store bits. LE or BE
+        bit_repr[256 - num_bits..].to_vec()
     }
 
     pub fn enforce_eq<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, x: &Self, y: &Self) {
-- 
2.43.0


From 19419b6a182b479f1f48922e079d73802d7777d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:57 +0000
Subject: [PATCH 12/23] fix: descale constrains the inverse of the z coordinate

---
 zkstd/src/circuit/gadget/curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkstd/src/circuit/gadget/curve.rs b/zkstd/src/circuit/gadget/curve.rs
index d6d61a4..35df4d9 100644
--- a/zkstd/src/circuit/gadget/curve.rs
+++ b/zkstd/src/circuit/gadget/curve.rs
@@ -35,6 +35,9 @@ impl<F: PrimeField> PointAssignment<F> {
         let take_value =
             FieldAssignment::is_neq(cs, &self.z, &FieldAssignment::constant(&F::zero()));
         let inv = FieldAssignment::witness(cs, self.z.value(cs).invert().unwrap_or_else(F::zero));
+        // z * inv = 1 unless z is zero
+        let z_inv = FieldAssignment::mul(cs, &self.z, &inv);
+        FieldAssignment::enforce_eq(cs, &z_inv, &FieldAssignment::from(&take_value));
 
         let p = Self {
             x: FieldAssignment::mul(cs, &self.x, &inv),
-- 
2.43.0


From 2cbbc94cd4774721c8e424ffc49d6e7d682cd20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:05 +0000
Subject: [PATCH 13/23] fix: witnessed points are constrained to be points of
 the curve

---
 zkstd/src/circuit/gadget/curve.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/zkstd/src/circuit/gadget/curve.rs b/zkstd/src/circuit/gadget/curve.rs
index 35df4d9..1ba9837 100644
--- a/zkstd/src/circuit/gadget/curve.rs
+++ b/zkstd/src/circuit/gadget/curve.rs
@@ -66,7 +66,33 @@ impl<F: PrimeField> PointAssignment<F> {
         let y = FieldAssignment::witness(cs, y);
         let z = FieldAssignment::witness(cs, if is_infinity { F::zero() } else { F::one() });
 
-        Self { x, y, z }
+        let point = Self { x, y, z };
+        point.enforce_normalized_on_curve(cs);
+
+        point
+    }
+
+    /// constrain the point to be (x, y, 1) on the curve or the identity (0, 1, 0)
+    fn enforce_normalized_on_curve<C: CircuitDriver<Scalar = F>>(&self, cs: &mut R1cs<C>) {
+        let Self { x, y, z } = self;
+        let one = FieldAssignment::constant(&F::one());
+        let zero = FieldAssignment::constant(&F::zero());
+
+        let is_infinity = &one - z;
+        for factor in [z, x, &(y - &one)] {
+            let product = FieldAssignment::mul(cs, &is_infinity, factor);
+            FieldAssignment::enforce_eq(cs, &product, &zero);
+        }
+
+        // z * (3 * y^2 - 3 * x^3 - 3 * b) = 0
+        let xx = FieldAssignment::square(cs, x);
+        let xxx = FieldAssignment::mul(cs, &xx, x);
+        let yy = FieldAssignment::square(cs, y);
+        let diff = &yy - &xxx;
+        let diff = &(&diff + &diff) + &diff;
+        let diff = &diff - &FieldAssignment::constant(&C::b3());
+        let product = FieldAssignment::mul(cs, z, &diff);
+        FieldAssignment::enforce_eq(cs, &product, &zero);
     }
 
     pub fn assert_equal_public_point<C: CircuitDriver<Scalar = F>>(
-- 
2.43.0


From b3737eb1c9839bd515172f7ebef64a7e2bbba47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:56 +0000
Subject: [PATCH 14/23] fix: big natural gadgets use constants for constants
 and bind limbs to the field element

---
 nova/src/gadget/big_nat.rs | 51 ++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/nova/src/gadget/big_nat.rs b/nova/src/gadget/big_nat.rs
index 51f486c..2d9a3bd 100644
--- a/nova/src/gadget/big_nat.rs
+++ b/nova/src/gadget/big_nat.rs
@@ -110,6 +110,17 @@ impl<F: PrimeField> BigNatAssignment<F> {
         }
     }
 
+    /// The `BigNat` that is `num` in every assignment
+    pub fn constant(num: BigInt, limb_width: usize, n_limbs: usize) -> Self {
+        Self {
+            limbs: nat_to_limbs::<F>(&num, limb_width, n_limbs)
+                .iter()
+                .map(|limb| FieldAssignment::constant(limb))
+                .collect(),
+            params: BigNatParams::new(limb_width, n_limbs),
+        }
+    }
+
     /// Allocates a `BigNat` in the circuit with `n_limbs` limbs of width `limb_width` each.
     /// The `max_word` is guaranteed to be `(2 << limb_width) - 1`.
     /// The value is provided by an allocated number
@@ -122,10 +133,12 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let big_nat = Self::witness_from_big_int(cs, f_to_nat(&f.value(cs)), limb_width, n_limbs);
 
         // check if bignat equals n
-        // (1) decompose `bignat` into a bitvector `bv`
-        let bv = big_nat.decompose(cs);
-        // (2) recompose bits and check if it equals n
-        FieldAssignment::enforce_eq_bits(cs, f, &bv);
+        // (1) decompose n into its canonical bitvector
+        let bits = FieldAssignment::to_bits(cs, f, limb_width * n_limbs);
+        // (2) recompose the bits of each limb and check if they equal the limb
+        for (limb, bits) in big_nat.limbs.iter().rev().zip(bits.chunks(limb_width)) {
+            FieldAssignment::enforce_eq_bits(cs, limb, bits);
+        }
 
         big_nat
     }
@@ -160,26 +173,6 @@ impl<F: PrimeField> BigNatAssignment<F> {
         self.limbs.clone()
     }
 
-    /// Break `self` up into a bit-vector.
-    pub fn decompose<C: CircuitDriver<Scalar = F>>(
-        &self,
-        cs: &mut R1cs<C>,
-    ) -> Vec<BinaryAssignment> {
-        let limb_values_split = self.limbs.iter().map(|limb| limb.value(cs));
-        let bitvectors: Vec<Vec<BinaryAssignment>> = self
-            .limbs
-            .iter()
-            .rev()
-            .map(|limb| FieldAssignment::to_bits::<C>(cs, limb, self.params.limb_width))
-            .collect();
-        let mut bits = Vec::new();
-
-        for bv in bitvectors {
-            bits.extend(bv);
-        }
-        bits
-    }
-
     pub fn enforce_eq<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, x: &Self, y: &Self) {
         assert_eq!(x.limbs.len(), y.limbs.len());
         for (x, y) in x.limbs.iter().zip(y.limbs.iter()) {
@@ -250,12 +243,12 @@ impl<F: PrimeField> BigNatAssignment<F> {
             );
             accumulated_extra += max_word;
 
-            let target_base_ass = FieldAssignment::witness(cs, nat_to_f::<F>(&target_base));
+            let target_base_ass = FieldAssignment::constant(&nat_to_f::<F>(&target_base));
             let target = FieldAssignment::mul(cs, &target_base_ass, &carry);
             let carry_sum = &(&carry_in + &self.limbs[i]) - &other.limbs[i];
             let accumulated =
-                FieldAssignment::witness(cs, nat_to_f::<F>(&(&accumulated_extra % &target_base)));
-            let max_word = FieldAssignment::witness(cs, nat_to_f::<F>(max_word));
+                FieldAssignment::constant(&nat_to_f::<F>(&(&accumulated_extra % &target_base)));
+            let max_word = FieldAssignment::constant(&nat_to_f::<F>(max_word));
 
             FieldAssignment::enforce_eq_constant(
                 cs,
@@ -269,7 +262,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
                 FieldAssignment::range_check_bits(cs, &carry_decomposition, carry_bits as u64);
             } else {
                 let accumulated_extra_ass =
-                    FieldAssignment::witness(cs, nat_to_f(&accumulated_extra));
+                    FieldAssignment::constant(&nat_to_f(&accumulated_extra));
                 FieldAssignment::enforce_eq_constant(
                     cs,
                     &(&carry - &accumulated_extra_ass),
@@ -417,7 +410,7 @@ impl<F: PrimeField> BigNatAssignment<F> {
         let n_groups = (self.limbs.len() - 1) / limbs_per_group + 1;
         let mut limbs = vec![FieldAssignment::constant(&F::zero()); n_groups];
         let mut shift = FieldAssignment::constant(&F::one());
-        let limb_block = FieldAssignment::witness(cs, F::pow_of_2(self.params.limb_width as u64));
+        let limb_block = FieldAssignment::constant(&F::pow_of_2(self.params.limb_width as u64));
         for (i, limb) in self.limbs.iter().enumerate() {
             if i % limbs_per_group == 0 {
                 shift = FieldAssignment::constant(&F::one());
-- 
2.43.0


From cf7039fc8d5dee603eb975786cc6e504f84ba377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:57 +0000
Subject: [PATCH 15/23] fix: the folding gadget binds the modulus and the
 folded inputs

---
 nova/src/circuit/nifs.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nova/src/circuit/nifs.rs b/nova/src/circuit/nifs.rs
index 2dd7888..4d1c304 100644
--- a/nova/src/circuit/nifs.rs
+++ b/nova/src/circuit/nifs.rs
@@ -36,16 +36,16 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let m_bn = BigInt::from_str_radix(C::ORDER_STR, 16).unwrap();
         let r_bn_ass =
             BigNatAssignment::witness_from_field_assignment(cs, &r, BN_LIMB_WIDTH, BN_N_LIMBS);
-        let m_bn_ass = BigNatAssignment::witness_from_big_int(cs, m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
+        let m_bn_ass = BigNatAssignment::constant(m_bn, BN_LIMB_WIDTH, BN_N_LIMBS);
 
         // u_fold = U.u + r
         let u_fold = FieldAssignment::witness(cs, u_range.u.value(cs) + r.value(cs));
         FieldAssignment::enforce_eq_constant(cs, &(&(&u_fold - &u_range.u) - &r), &C::Base::zero());
 
         // Fold U.x0 + r * x0
-        let x0_single_bn = BigNatAssignment::witness_from_big_int(
+        let x0_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x0.value(cs)),
+            &u_single.x0,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
@@ -53,9 +53,9 @@ impl<C: CircuitDriver> NifsCircuit<C> {
         let x0_fold = u_range.x0.add(&r_x0).red_mod(cs, &m_bn_ass);
 
         // Fold U.x1 + r * x1
-        let x1_single_bn = BigNatAssignment::witness_from_big_int(
+        let x1_single_bn = BigNatAssignment::witness_from_field_assignment(
             cs,
-            f_to_nat(&u_single.x1.value(cs)),
+            &u_single.x1,
             BN_LIMB_WIDTH,
             BN_N_LIMBS,
         );
-- 
2.43.0


From 01f5856e03ccbc48a5a0a5fb08c4d63a69c1b420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 16/23] fix: the step circuit starts the first step from z_0
 and the empty accumulation

---
 nova/src/circuit/augmented.rs       |  8 +++++++-
 nova/src/gadget/relaxed_instance.rs | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/nova/src/circuit/augmented.rs b/nova/src/circuit/augmented.rs
index c79892e..b07f71e 100644
--- a/nova/src/circuit/augmented.rs
+++ b/nova/src/circuit/augmented.rs
@@ -59,7 +59,7 @@ impl<C: CircuitDriver, FC: FunctionCircuit<C::Base>> AugmentedFCircuit<C, FC> {
             .collect::<Vec<_>>();
 
         let u_dummy_native = RelaxedR1csInstance::<C>::dummy(2);
-        let u_dummy = RelaxedR1csInstanceAssignment::witness(cs, &u_dummy_native);
+        let u_dummy = RelaxedR1csInstanceAssignment::dummy();
         let u_single = R1csInstanceAssignment::witness(
             cs,
             &self
@@ -109,6 +109,12 @@ impl<C: CircuitDriver, FC: FunctionCircuit<C::Base>> AugmentedFCircuit<C, FC> {
             &base_case,
         );
 
+        // the first step starts from z_0
+        let z_i = z_0
+            .iter()
+            .zip(z_i.iter())
+            .map(|(z_0, z_i)| FieldAssignment::conditional_select(cs, z_0, z_i, &base_case))
+            .collect::<Vec<_>>();
         let z_next = FC::invoke_cs(cs, z_i);
 
         let u_next_x = u_range_next.hash(
diff --git a/nova/src/gadget/relaxed_instance.rs b/nova/src/gadget/relaxed_instance.rs
index 2f9385f..42d56c0 100644
--- a/nova/src/gadget/relaxed_instance.rs
+++ b/nova/src/gadget/relaxed_instance.rs
@@ -5,10 +5,11 @@ use crate::driver::scalar_as_base;
 use crate::gadget::big_nat::{BigNatAssignment, BN_LIMB_WIDTH, BN_N_LIMBS};
 use crate::gadget::{f_to_nat, R1csInstanceAssignment};
 use crate::hash::{HASH_BITS, MIMC_ROUNDS};
+use num_bigint::BigInt;
 use zkstd::circuit::prelude::{
     BinaryAssignment, CircuitDriver, FieldAssignment, PointAssignment, R1cs,
 };
-use zkstd::common::{CurveGroup, Ring};
+use zkstd::common::{CurveGroup, IntGroup, Ring};
 
 #[derive(Clone)]
 pub(crate) struct RelaxedR1csInstanceAssignment<C: CircuitDriver> {
@@ -58,6 +59,18 @@ impl<C: CircuitDriver> RelaxedR1csInstanceAssignment<C> {
         }
     }
 
+    /// U⊥, the instance of the empty accumulation
+    pub(crate) fn dummy() -> Self {
+        let zero = BigNatAssignment::constant(BigInt::from(0), BN_LIMB_WIDTH, BN_N_LIMBS);
+        Self {
+            commit_w: PointAssignment::identity(),
+            commit_e: PointAssignment::identity(),
+            u: FieldAssignment::constant(&C::Base::zero()),
+            x0: zero.clone(),
+            x1: zero,
+        }
+    }
+
     /// E = 0, u = 1
     pub fn from_r1cs_instance<CS: CircuitDriver<Scalar = C::Base>>(
         cs: &mut R1cs<CS>,
-- 
2.43.0


From c9e66e568f89959395b6b47180f070150c02f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 17/23] fix: satisfaction checks reject vectors and matrices of
 other dimensions

---
 nova/src/pedersen.rs     |  5 +++++
 nova/src/relaxed_r1cs.rs | 15 +++++++++++++++
 zkstd/src/matrix.rs      |  9 +++++++++
 3 files changed, 29 insertions(+)

diff --git a/nova/src/pedersen.rs b/nova/src/pedersen.rs
index 51b4049..b8d00de 100644
--- a/nova/src/pedersen.rs
+++ b/nova/src/pedersen.rs
@@ -12,6 +12,11 @@ impl<C: BNAffine> PedersenCommitment<C> {
         Self { g }
     }
 
+    /// the most values a commitment binds
+    pub(crate) fn len(&self) -> usize {
+        self.g.len()
+    }
+
     pub(crate) fn commit(&self, m: &DenseVectors<C::Scalar>) -> C {
         (m.iter()
             .zip(self.g.iter())
diff --git a/nova/src/relaxed_r1cs.rs b/nova/src/relaxed_r1cs.rs
index 38ab64d..a8cdf08 100644
--- a/nova/src/relaxed_r1cs.rs
+++ b/nova/src/relaxed_r1cs.rs
@@ -84,12 +84,24 @@ impl<C: CircuitDriver> R1csShape<C> {
         self.witness_length
     }
 
+    /// check that vectors have the lengths of this structure, whose matrices stay within them
+    fn is_well_formed(&self, x: &DenseVectors<C::Scalar>, w: &DenseVectors<C::Scalar>) -> bool {
+        x.len() as u64 == self.instance_length
+            && w.len() as u64 == self.witness_length
+            && [&self.a, &self.b, &self.c]
+                .iter()
+                .all(|matrix| matrix.is_within(self.m, x.len() + 1, w.len()))
+    }
+
     ///  check (A · Z) ◦ (B · Z) = u · (C · Z) + E
     pub fn is_sat_relaxed(
         &self,
         instance: &RelaxedR1csInstance<C>,
         witness: &RelaxedR1csWitness<C>,
     ) -> bool {
+        if !self.is_well_formed(&instance.x, &witness.w) || witness.e.len() as u64 != self.m {
+            return false;
+        }
         let Self { m, a, b, c, .. } = self;
 
         let RelaxedR1csInstance {
@@ -127,6 +139,9 @@ impl<C: CircuitDriver> R1csShape<C> {
         instance: &R1csInstance<C>,
         witness: &R1csWitness<C>,
     ) -> bool {
+        if !self.is_well_formed(&instance.x, &witness.w) || witness.w.len() > ck.len() {
+            return false;
+        }
         let Self { m, a, b, c, .. } = self;
 
         let R1csInstance { commit_w, x } = instance;
diff --git a/zkstd/src/matrix.rs b/zkstd/src/matrix.rs
index 6261a00..4dc1d63 100644
--- a/zkstd/src/matrix.rs
+++ b/zkstd/src/matrix.rs
@@ -32,6 +32,15 @@ impl<F: PrimeField> SparseMatrix<F> {
         self.0.iter().map(|row| row.evaluate(x, w)).collect()
     }
 
+    /// check that there are m rows over l instance and w witness wires
+    pub fn is_within(&self, m: u64, l: usize, w: usize) -> bool {
+        self.0.len() as u64 == m
+            && self.0.iter().flat_map(|row| row.iter()).all(|(wire, _)| match wire {
+                Wire::Instance(i) => *i < l as u64,
+                Wire::Witness(i) => *i < w as u64,
+            })
+    }
+
     // matrix-vector multiplication
     pub fn prod(&self, m: u64, l: usize, z: &DenseVectors<F>) -> DenseVectors<F> {
         let mut vectors = DenseVectors::zero(m as usize);
-- 
2.43.0


From 63a97705bc813abd943e2334790ee8203d8d51b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 18/23] fix: nova setup makes commitment keys that cover the
 witness

---
 nova/src/ivc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nova/src/ivc.rs b/nova/src/ivc.rs
index 2772809..51864b3 100644
--- a/nova/src/ivc.rs
+++ b/nova/src/ivc.rs
@@ -300,11 +300,17 @@ where
         circuit_secondary.generate(&mut cs);
         let r1cs_shape_secondary = R1csShape::from(cs);
 
-        let k = r1cs_shape_primary.m().next_power_of_two().trailing_zeros();
+        // the commitment keys cover error vectors and witnesses
+        let k = r1cs_shape_primary
+            .m()
+            .max(r1cs_shape_primary.m_l_1())
+            .next_power_of_two()
+            .trailing_zeros();
         let ck_primary = PedersenCommitment::<E1::Affine>::new(k.into(), rng);
 
         let k = r1cs_shape_secondary
             .m()
+            .max(r1cs_shape_secondary.m_l_1())
             .next_power_of_two()
             .trailing_zeros();
         let ck_secondary = PedersenCommitment::<E2::Affine>::new(k.into(), rng);
-- 
2.43.0


From af3632455e00e181ad5a835c5d893690e762dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 19/23] fix: recursive proof verification opens the folded
 commitments

---
 nova/src/proof.rs                |  2 ++
 nova/src/relaxed_r1cs/witness.rs | 13 +++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index 5bf15cf..97909a8 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -77,5 +77,7 @@ where
                 &u_single_secondary,
                 &w_single_secondary,
             )
+            && w_range_primary.opens(&pp.ck_primary, &u_range_primary)
+            && w_range_secondary.opens(&pp.ck_secondary, &u_range_secondary)
     }
 }
diff --git a/nova/src/relaxed_r1cs/witness.rs b/nova/src/relaxed_r1cs/witness.rs
index 2af2ecb..1b03065 100644
--- a/nova/src/relaxed_r1cs/witness.rs
+++ b/nova/src/relaxed_r1cs/witness.rs
@@ -1,3 +1,4 @@
+use super::RelaxedR1csInstance;
 use crate::{PedersenCommitment, R1csShape};
 use zkstd::circuit::prelude::CircuitDriver;
 use zkstd::common::{Decode, Encode, IntGroup};
@@ -46,6 +47,18 @@ impl<C: CircuitDriver> RelaxedR1csWitness<C> {
         self.w.clone()
     }
 
+    /// check that the witness opens the commitments of the instance
+    pub(crate) fn opens(
+        &self,
+        ck: &PedersenCommitment<C::Affine>,
+        instance: &RelaxedR1csInstance<C>,
+    ) -> bool {
+        self.w.len() <= ck.len()
+            && self.e.len() <= ck.len()
+            && ck.commit(&self.w) == instance.commit_w
+            && ck.commit(&self.e) == instance.commit_e
+    }
+
     pub(crate) fn dummy(w_len: usize, m: usize) -> Self {
         Self {
             e: DenseVectors::zero(m),
-- 
2.43.0


From 2eec1196a57966b68caecfa7a660090f45321ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:38 +0000
Subject: [PATCH 20/23] fix: recursive proof verification rejects zero steps
 and states of different arity

---
 nova/src/proof.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nova/src/proof.rs b/nova/src/proof.rs
index 97909a8..dc41088 100644
--- a/nova/src/proof.rs
+++ b/nova/src/proof.rs
@@ -48,6 +48,14 @@ where
             (u_range_secondary, w_range_secondary),
         ) = self.instances.clone();
 
+        // a proof is about at least one step, from states to states of the same arity
+        if self.i == 0
+            || self.z0_primary.len() != self.zi_primary.len()
+            || self.z0_secondary.len() != self.zi_secondary.len()
+        {
+            return false;
+        }
+
         if u_single_secondary.x.len() != 2
             || u_range_primary.x.len() != 2
             || u_range_secondary.x.len() != 2
-- 
2.43.0


From f06b9bc422a171a5a1a2f700488d80fc9ec9d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:06 +0000
Subject: [PATCH 21/23] sim: stand-in for term-by-term commitments under keys
 of known structure

---
 nova/src/pedersen.rs |  4 ++++
 nova/src/sim.rs      | 25 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/nova/src/pedersen.rs b/nova/src/pedersen.rs
index b8d00de..01ac65c 100644
--- a/nova/src/pedersen.rs
+++ b/nova/src/pedersen.rs
@@ -18,6 +18,10 @@ impl<C: BNAffine> PedersenCommitment<C> {
     }
 
     pub(crate) fn commit(&self, m: &DenseVectors<C::Scalar>) -> C {
+        #[cfg(kogarashi_sim)]
+        if let Some(c) = crate::sim::commit(&self.g, m) {
+            return c;
+        }
         (m.iter()
             .zip(self.g.iter())
             .fold(C::Extended::ADDITIVE_IDENTITY, |sum, (v, e)| sum + *e * v))
diff --git a/nova/src/sim.rs b/nova/src/sim.rs
index ef29705..432ae15 100644
--- a/nova/src/sim.rs
+++ b/nova/src/sim.rs
@@ -7,6 +7,7 @@ use crate::hash::{MimcRO, CHALLENGE_BITS, MIMC_ROUNDS};
 use crate::relaxed_r1cs::r1cs_instance_and_witness;
 use crate::{FunctionCircuit, PedersenCommitment, R1csShape};
 use zkstd::circuit::prelude::{CircuitDriver, R1cs};
+use zkstd::common::BNAffine;
 use zkstd::matrix::DenseVectors;
 
 /// One step of the augmented circuit with inputs of the caller's choice: the
@@ -59,3 +60,27 @@ pub fn challenge<C: CircuitDriver>(
     u_range.absorb_by_transcript(&mut transcript);
     transcript.squeeze(CHALLENGE_BITS)
 }
+
+/// Stands in for summing up a commitment term by term, for keys whose structure
+/// the simulation knows: name of the point type, points, values, where the
+/// commitment goes; false if the key is not such a key.
+pub type Commit =
+    unsafe fn(&'static str, *const (), usize, *const (), usize, *mut ()) -> bool;
+pub static mut COMMIT: Option<Commit> = None;
+
+pub(crate) fn commit<C: BNAffine>(g: &[C], m: &DenseVectors<C::Scalar>) -> Option<C> {
+    let m = m.get();
+    let mut c = C::ADDITIVE_IDENTITY;
+    unsafe {
+        let f = COMMIT?;
+        f(
+            std::any::type_name::<C>(),
+            g.as_ptr() as *const (),
+            g.len(),
+            m.as_ptr() as *const (),
+            m.len(),
+            &mut c as *mut C as *mut (),
+        )
+    }
+    .then(|| c)
+}
-- 
2.43.0


From 3030cf5136e84eb2e4b27e8e09214dab0a239b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:40 +0000
Subject: [PATCH 22/23] sim: shift one assigned witness by a chosen amount

---
 zkstd/src/r1cs/sim.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/zkstd/src/r1cs/sim.rs b/zkstd/src/r1cs/sim.rs
index bcab1bf..a44a100 100644
--- a/zkstd/src/r1cs/sim.rs
+++ b/zkstd/src/r1cs/sim.rs
@@ -11,6 +11,13 @@ static FIRST: AtomicU64 = AtomicU64::new(u64::MAX);
 static LEN: AtomicU64 = AtomicU64::new(0);
 static KIND: AtomicU64 = AtomicU64::new(0);
 static HITS: AtomicU64 = AtomicU64::new(0);
+static SHIFT: [AtomicU64; 4] = [
+    AtomicU64::new(0),
+    AtomicU64::new(0),
+    AtomicU64::new(0),
+    AtomicU64::new(0),
+];
+const SHIFTED: u64 = u64::MAX;
 
 /// Corrupts `len` witnesses from the `first` one assigned from now on.
 pub fn arm(first: u64, len: u64, kind: u64) {
@@ -21,6 +28,15 @@ pub fn arm(first: u64, len: u64, kind: u64) {
     FIRST.store(first, Relaxed);
 }
 
+/// Adds the number with these limbs, lowest first, to the witness assigned as
+/// number `n` from now on.
+pub fn arm_shift(n: u64, by: [u64; 4]) {
+    for (s, b) in SHIFT.iter().zip(by) {
+        s.store(b, Relaxed);
+    }
+    arm(n, 1, SHIFTED);
+}
+
 /// Ends the fault; witnesses assigned and corrupted since `arm`.
 pub fn disarm() -> (u64, u64) {
     FIRST.store(u64::MAX, Relaxed);
@@ -35,6 +51,10 @@ pub(crate) fn assign<F: PrimeField>(v: F) -> F {
     }
     HITS.fetch_add(1, Relaxed);
     let kind = KIND.load(Relaxed);
+    if kind == SHIFTED {
+        let limb = F::from(1 << 32) * F::from(1 << 32);
+        return SHIFT.iter().rev().fold(F::zero(), |a, s| a * limb + F::from(s.load(Relaxed))) + v;
+    }
     match kind % 4 {
         0 => F::one() - v,
         1 => F::zero(),
-- 
2.43.0


From d9f1736532241f2b7d58dcdc68774c2bcf17755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:48 +0000
Subject: [PATCH 23/23] fix: the sum of the sample's values saturates instead
 of overflowing

---
 sample/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/src/lib.rs b/sample/src/lib.rs
index 098c5d6..86432ef 100644
--- a/sample/src/lib.rs
+++ b/sample/src/lib.rs
@@ -83,6 +83,6 @@ pub mod pallet {
 
 impl<T: Config> Pallet<T> {
     pub fn get_sum() -> u32 {
-        Thing1::<T>::get() + Thing2::<T>::get()
+        Thing1::<T>::get().saturating_add(Thing2::<T>::get())
     }
 }
-- 
2.43.0

