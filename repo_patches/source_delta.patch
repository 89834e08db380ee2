From e565857b79faf4799805f6c65e66058b063994bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:27 +0000
Subject: [PATCH 01/17] verif: constructors for circuits with private fields,
 behind cfg(verif)

---
 proof_of_space/src/circuit/mimc3_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_df_circuit.rs   | 7 +++++++
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 7 +++++++
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/proof_of_space/src/circuit/mimc3_df_circuit.rs b/proof_of_space/src/circuit/mimc3_df_circuit.rs
index b119055..4a88b31 100644
--- a/proof_of_space/src/circuit/mimc3_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc3_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC3DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif)]
+impl<'a, F: Field> MiMC3DFDemo<'a, F> {
+    pub fn verif_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        MiMC3DFDemo { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_df_circuit.rs b/proof_of_space/src/circuit/mimc5_df_circuit.rs
index d48845f..ca2dbb7 100644
--- a/proof_of_space/src/circuit/mimc5_df_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_df_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5DFDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif)]
+impl<'a, F: Field> MiMC5DFDemo<'a, F> {
+    pub fn verif_new(xl: Option<F>, xr: Option<F>, constants: &'a [F]) -> Self {
+        MiMC5DFDemo { xl, xr, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index 7070c58..e6b74c4 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC5HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif)]
+impl<'a, F: Field> MiMC5HashDemo<'a, F> {
+    pub fn verif_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        MiMC5HashDemo { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 074fcb5..9bf5848 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -19,6 +19,13 @@ pub struct MiMC7HashDemo<'a, F: Field> {
     constants: &'a [F],
 }
 
+#[cfg(verif)]
+impl<'a, F: Field> MiMC7HashDemo<'a, F> {
+    pub fn verif_new(x_inputs: &'a [Option<F>], key: Option<F>, constants: &'a [F]) -> Self {
+        MiMC7HashDemo { x_inputs, key, constants }
+    }
+}
+
 /// Our demo circuit implements this `Circuit` trait which
 /// is used during paramgen and proving in order to
 /// synthesize the constraint system.
-- 
2.43.0


From 2ef4a61722f820e728fd07e65575b9ecb4fd72d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 02/17] fix: verify() accepted rejected proofs (Ok(false)
 treated as success)

---
 proof_of_space/src/proof_of_space/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 7313605..2e1023f 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -40,5 +40,5 @@ pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key
 
     verify_input.push(x_hash);
 
-    assert!(verify_proof(&pvk, &proof, &verify_input).is_ok());
+    assert!(verify_proof(&pvk, &proof, &verify_input).unwrap());
 }
-- 
2.43.0


From b9eb3a2574c251120de683d42f754a2843575172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 03/17] fix: hash circuits left the chaining key unconstrained

---
 proof_of_space/src/circuit/mimc5_hash_circuit.rs | 2 +-
 proof_of_space/src/circuit/mimc7_hash_circuit.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/proof_of_space/src/circuit/mimc5_hash_circuit.rs b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
index e6b74c4..2f9e302 100644
--- a/proof_of_space/src/circuit/mimc5_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc5_hash_circuit.rs
@@ -42,7 +42,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC5HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
diff --git a/proof_of_space/src/circuit/mimc7_hash_circuit.rs b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
index 9bf5848..4430038 100644
--- a/proof_of_space/src/circuit/mimc7_hash_circuit.rs
+++ b/proof_of_space/src/circuit/mimc7_hash_circuit.rs
@@ -42,7 +42,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for MiMC7HashDemo<'a, F> {
             let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(F::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 92b6132e2a61b3995a6a5c81d6c539dc07479278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 04/17] fix: pow circuit left the initial accumulator
 unconstrained

---
 proof_of_space/src/circuit/pow_circuit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/circuit/pow_circuit.rs b/proof_of_space/src/circuit/pow_circuit.rs
index 6c8cdb5..34f9024 100644
--- a/proof_of_space/src/circuit/pow_circuit.rs
+++ b/proof_of_space/src/circuit/pow_circuit.rs
@@ -24,7 +24,7 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for PowDemo<'a, F> {
         let cs = ns.cs();
 
         let mut y_val = Some(F::one());
-        let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut y = Variable::One;
 
         let mut g_val = self.g;
         let mut g = cs.new_witness_variable(|| g_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 924736b40fb79c93c50b1929e936cf6d63bb74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 05/17] fix: equal circuit left initial values free and
 admitted non-canonical bits

---
 proof_of_space/src/circuit/canonical.rs     | 44 +++++++++++++++++++++
 proof_of_space/src/circuit/equal_circuit.rs | 18 ++++++++-
 proof_of_space/src/circuit/mod.rs           |  2 +
 3 files changed, 63 insertions(+), 1 deletion(-)
 create mode 100644 proof_of_space/src/circuit/canonical.rs

diff --git a/proof_of_space/src/circuit/canonical.rs b/proof_of_space/src/circuit/canonical.rs
new file mode 100644
index 0000000..6a88f5e
--- /dev/null
+++ b/proof_of_space/src/circuit/canonical.rs
@@ -0,0 +1,44 @@
+use ark_ff::Field;
+use ark_relations::{
+    lc,
+    r1cs::{ConstraintSystemRef, SynthesisError, Variable},
+};
+
+/// Enforce that the integer encoded by `bits` (little-endian, each already
+/// constrained to 0 or 1) is smaller than the field modulus, so that a field
+/// element has exactly one such expansion.
+pub fn enforce_canonical<F: Field>(
+    cs: &ConstraintSystemRef<F>,
+    bits: &[Variable],
+    bits_val: &[Option<F>],
+) -> Result<(), SynthesisError> {
+    let modulus = F::characteristic();
+
+    // run = 1 as long as every higher bit equals the one of (modulus - 1)
+    let mut run = Variable::One;
+    let mut run_val = Some(F::one());
+    for i in (0..bits.len()).rev() {
+        // the modulus is odd: modulus - 1 only differs in bit 0
+        let max_bit = i > 0 && i / 64 < modulus.len() && (modulus[i / 64] >> (i % 64)) & 1 == 1;
+        if max_bit {
+            let new_run_val = run_val.and_then(|r| bits_val[i].map(|b| r * b));
+            let new_run = cs.new_witness_variable(|| new_run_val.ok_or(SynthesisError::AssignmentMissing))?;
+            cs.enforce_constraint(
+                lc!() + run,
+                lc!() + bits[i],
+                lc!() + new_run
+            )?;
+            run = new_run;
+            run_val = new_run_val;
+        }
+        else {
+            cs.enforce_constraint(
+                lc!() + run,
+                lc!() + bits[i],
+                lc!()
+            )?;
+        }
+    }
+
+    Ok(())
+}
diff --git a/proof_of_space/src/circuit/equal_circuit.rs b/proof_of_space/src/circuit/equal_circuit.rs
index 0233124..ca6994a 100644
--- a/proof_of_space/src/circuit/equal_circuit.rs
+++ b/proof_of_space/src/circuit/equal_circuit.rs
@@ -6,6 +6,8 @@ use ark_relations::{
     r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable},
 };
 
+use super::canonical::enforce_canonical;
+
 pub const INPUT_SIZE: usize = 256;
 
 /// Prove two equations: 
@@ -30,9 +32,18 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
         let mut x_val = Some(F::zero());
         let mut two_val = Some(F::one());
 
-        let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut two = Variable::One;
 
+        // x = 0
         let mut x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+        cs.enforce_constraint(
+            lc!() + x,
+            lc!() + Variable::One,
+            lc!()
+        )?;
+
+        let mut bits = vec![];
+        let mut bits_val = vec![];
 
         for i in 0..INPUT_SIZE {
             let bit = self.x_bits[i];
@@ -52,6 +63,8 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
                 lc!() + bit,
                 lc!() + bit
             )?;
+            bits.push(bit);
+            bits_val.push(bit_val);
             
             // tmp1 = xi * 2^i
             let tmp1_val = bit_val.map(|mut e| {
@@ -116,6 +129,9 @@ impl<'a, F: Field> ConstraintSynthesizer<F> for EqualDemo<'a, F> {
             x_val = tmp2_val;
         }
 
+        // x_bits is the canonical expansion of x2 (and not of x2 + modulus)
+        enforce_canonical(&cs, &bits, &bits_val)?;
+
         Ok(())
     }
 }
diff --git a/proof_of_space/src/circuit/mod.rs b/proof_of_space/src/circuit/mod.rs
index 7ede2e4..fafa55d 100644
--- a/proof_of_space/src/circuit/mod.rs
+++ b/proof_of_space/src/circuit/mod.rs
@@ -1,3 +1,5 @@
+pub mod canonical;
+
 pub mod equal_circuit;
 
 pub mod pow_circuit;
-- 
2.43.0


From 70bd74133966831394fcad5b5585d8f3cd196520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 06/17] fix: pospace circuit did not tie y bits, m and x_hash
 to the delay function

---
 proof_of_space/src/circuit/pospace_circuit.rs | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/proof_of_space/src/circuit/pospace_circuit.rs b/proof_of_space/src/circuit/pospace_circuit.rs
index 4c9fc82..84fce2b 100644
--- a/proof_of_space/src/circuit/pospace_circuit.rs
+++ b/proof_of_space/src/circuit/pospace_circuit.rs
@@ -7,6 +7,7 @@ use ark_relations::{
     r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable},
 };
 
+use super::canonical::enforce_canonical;
 use crate::proof_of_space::pospace::N;
 use crate::mimc::{mimc_df::MIMC5_DF_ROUNDS, mimc_hash::MIMC5_HASH_ROUNDS};
 
@@ -48,11 +49,14 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         let key = cs.new_input_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;
 
         let m_val = self.m;
-        cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let m = cs.new_input_variable(|| m_val.ok_or(SynthesisError::AssignmentMissing))?;
+
+        let mut x_vars = vec![];
     
         for i in 0..self.x.len() {
             let x_val = self.x[i];
             let x = cs.new_witness_variable(|| x_val.ok_or(SynthesisError::AssignmentMissing))?;
+            x_vars.push(x);
 
             // xl = key + x
             let mut xl_val = key_val.map(|mut e| {
@@ -68,7 +72,7 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
 
             // xr = m
             let mut xr_val = m_val;
-            let mut xr = cs.new_witness_variable(|| xr_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let mut xr = m;
 
             // 1.证明延迟函数计算的正确性：y = mimc_vde(key + x, m)
             for j in 0..MIMC5_DF_ROUNDS {
@@ -128,9 +132,18 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                     
                     let mut y_val = Some(Fr::zero());
                     let mut y = cs.new_witness_variable(|| y_val.ok_or(SynthesisError::AssignmentMissing))?;
+                    // y = 0
+                    cs.enforce_constraint(
+                        lc!() + y,
+                        lc!() + Variable::One,
+                        lc!()
+                    )?;
 
                     let mut two_val = Some(Fr::one());
-                    let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+                    let mut two = Variable::One;
+
+                    let mut bits = vec![];
+                    let mut bits_val = vec![];
 
                     for k in 0..y_bits_val.len() {
                         // 2.证明y的二进制展开每一位都是0或者1（Y_SIZE位）
@@ -151,6 +164,8 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             lc!() + bit,
                             lc!() + bit
                         )?;
+                        bits.push(bit);
+                        bits_val.push(bit_val);
                         
                         // tmp1 = yi * 2^i
                         let tmp_val = bit_val.map(|mut e| {
@@ -183,13 +198,12 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                         y_val = tmp_val;
                         
                         if k == y_bits_val.len() - 1 {
-                            let yy_val = xl_val;
-                            let yy = cs.new_witness_variable(|| yy_val.ok_or(SynthesisError::AssignmentMissing))?;
                             cs.enforce_constraint(
                                 lc!() + y,
                                 lc!() + Variable::One,
-                                lc!() + yy
+                                lc!() + xl
                             )?;
+                            enforce_canonical(&cs, &bits, &bits_val)?;
                         }
 
                         // 5.证明yn的二进制展开的正确性：yn_bits = yn
@@ -207,9 +221,15 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
                             
                             let mut yn_val = Some(Fr::zero());
                             let mut yn = cs.new_witness_variable(|| yn_val.ok_or(SynthesisError::AssignmentMissing))?;
+                            // yn = 0
+                            cs.enforce_constraint(
+                                lc!() + yn,
+                                lc!() + Variable::One,
+                                lc!()
+                            )?;
                             
                             let mut two_val = Some(Fr::one());
-                            let mut two = cs.new_witness_variable(|| two_val.ok_or(SynthesisError::AssignmentMissing))?;
+                            let mut two = Variable::One;
     
                             for m in 0..yn_bits_val.len() {
 
@@ -285,15 +305,15 @@ impl<'a> ConstraintSynthesizer<Fr> for PospaceDemo<'a> {
         }
 
         let mut res_val  = self.key;
-        let mut res = cs.new_witness_variable(|| res_val.ok_or(SynthesisError::AssignmentMissing))?;
+        let mut res = key;
 
         // 7.证明x_hash是x的哈希结果：x_hash = hash(x[0], x[1], .. , x[n-1])
         for i in 0..self.x.len() {
             let x_in_val= self.x[i];
-            let x_in = cs.new_witness_variable(|| x_in_val.ok_or(SynthesisError::AssignmentMissing))?;
+            let x_in = x_vars[i];
 
             let key_val = res_val;
-            let key = cs.new_witness_variable(|| key_val.ok_or(SynthesisError::AssignmentMissing))?;    
+            let key = res;
             
             let mut h_val = Some(Fr::zero());
             let mut h = cs.new_witness_variable(|| h_val.ok_or(SynthesisError::AssignmentMissing))?;
-- 
2.43.0


From 6941829859263d3f3b8501871611a22d8762472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:16 +0000
Subject: [PATCH 07/17] fix: prepare_space rounded the plot size down, losing
 cells of small plots

---
 proof_of_space/src/proof_of_space/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_space/src/proof_of_space/prover.rs b/proof_of_space/src/proof_of_space/prover.rs
index e9105d9..1484cbc 100644
--- a/proof_of_space/src/proof_of_space/prover.rs
+++ b/proof_of_space/src/proof_of_space/prover.rs
@@ -35,7 +35,7 @@ pub fn prepare_space(path: &str, n: usize) -> std::io::Result<()> {
     let count = base.pow(n.try_into().unwrap());
 
     let buf = [0u8; 1];
-    for _ in 0..(n + 1) * count / 8 {
+    for _ in 0..((n + 1) * count + 7) / 8 {
         file.write_all(&buf).unwrap();
     }
     Ok(())
-- 
2.43.0


From 6f24be68461103c75de905fd283b2db6cf3d9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 08/17] fix: verify() counted one answered challenge any number
 of times

---
 proof_of_space/src/proof_of_space/verifier.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proof_of_space/src/proof_of_space/verifier.rs b/proof_of_space/src/proof_of_space/verifier.rs
index 2e1023f..4e69a12 100644
--- a/proof_of_space/src/proof_of_space/verifier.rs
+++ b/proof_of_space/src/proof_of_space/verifier.rs
@@ -34,6 +34,8 @@ pub fn verify(pvk: PreparedVerifyingKey<Bls12_381>, proof: Proof<Bls12_381>, key
     verify_input.push(m);
 
     for i in 0.. idx_response.len() {
+        // 同一个挑战只能计入一次
+        assert!(!idx_response[..i].contains(&idx_response[i]));
         let yn = challenges[idx_response[i]];
         verify_input.push(Fr::from_str(&yn.to_string()).unwrap());
     }
-- 
2.43.0


From dc5cbc06fe296d3c9f8b42b48ccccc94e301fa56 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 03:51:10 +0000
Subject: [PATCH 09/17] fix: proof_of_storage did not compile (zk_vde legendre
 had no value)

---
 proof_of_storage/src/zk_vde/sloth.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/proof_of_storage/src/zk_vde/sloth.rs b/proof_of_storage/src/zk_vde/sloth.rs
index 98621b2..5c905fc 100644
--- a/proof_of_storage/src/zk_vde/sloth.rs
+++ b/proof_of_storage/src/zk_vde/sloth.rs
@@ -1,7 +1,6 @@
 use ark_ff::Field;
 
-pub fn legendre<F: Field>(mut x: F, p: F) -> F {
-    let mut s = F::one();
+pub fn legendre<F: Field>(x: F, _p: F) -> F {
     if x.clone() == F::zero() {
         return F::zero();
     }
@@ -9,6 +8,13 @@ pub fn legendre<F: Field>(mut x: F, p: F) -> F {
         return F::one();
     }
     else {
+        // x^((p - 1) / 2), p: the (odd) characteristic of F
+        let mut e = F::characteristic().to_vec();
+        for i in 0..e.len() {
+            let high = if i + 1 < e.len() { e[i + 1] << 63 } else { 0 };
+            e[i] = (e[i] >> 1) | high;
+        }
+        return x.pow(&e);
     }
 }
 
-- 
2.43.0


From 39aaeac9f1a01d2c6da32231c79ef14ea4b26c50 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 10/17] fix: Merkle tree of a file skipped the first leaf and
 read past the end

---
 proof_of_storage/src/proof_of_storage/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/merkle_tree.rs b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
index c2235d7..d426126 100644
--- a/proof_of_storage/src/proof_of_storage/merkle_tree.rs
+++ b/proof_of_storage/src/proof_of_storage/merkle_tree.rs
@@ -14,7 +14,7 @@ pub fn generate_merkle_tree_from_file(path: &str, data_len: usize, leaf_len: usi
 
     let mut leaf_values = vec![];
     for i in (0..data_len).step_by(leaf_len) {
-        let buf = read_file(&mut file, i + leaf_len, leaf_len);
+        let buf = read_file(&mut file, i, leaf_len);
         leaf_values.push(buf);
     }
     let leaves: Vec< [u8; 32]> = leaf_values.iter().map(|x| Sha256::hash(x)).collect();
-- 
2.43.0


From 8ed661ce5801c02cf6852af26e13dbb6726f1829 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 11/17] fix: unseal read the wrong blocks for deterministic
 long dependencies

---
 proof_of_storage/src/proof_of_storage/prover.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index d0f14af..628d3f5 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -378,7 +378,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
                 }
             }
             else {
-                for i in 0..idxs_l[idx2].len() {
+                for &i in &idxs_l[idx2] {
                     let start = Instant::now();
                     let buf = read_file(&mut file, i * params.block_pl, params.block_pl);
                     file_cost += start.elapsed().as_secs_f32();
-- 
2.43.0


From 9e42adf7a105662d3d82a0388d68fe28032bd306 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 12/17] fix: short dependencies were built for the number of
 blocks, not of units

---
 proof_of_storage/src/proof_of_storage/prover.rs   | 4 ++--
 proof_of_storage/src/proof_of_storage/verifier.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/prover.rs b/proof_of_storage/src/proof_of_storage/prover.rs
index 628d3f5..94ae344 100644
--- a/proof_of_storage/src/proof_of_storage/prover.rs
+++ b/proof_of_storage/src/proof_of_storage/prover.rs
@@ -76,7 +76,7 @@ pub fn seal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>) -> (V
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -293,7 +293,7 @@ pub fn unseal(params: &PosPara, path: &str, vde_key: &Integer, iv: &Vec<u8>)
     };
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(block_cnt, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
diff --git a/proof_of_storage/src/proof_of_storage/verifier.rs b/proof_of_storage/src/proof_of_storage/verifier.rs
index ccfa522..648e06a 100644
--- a/proof_of_storage/src/proof_of_storage/verifier.rs
+++ b/proof_of_storage/src/proof_of_storage/verifier.rs
@@ -210,7 +210,7 @@ pub fn batch_unseal_prepare(sealed_path: &str, idx_begin: usize, idx_end: usize,
 pub fn batch_unseal_and_verify(params: &PosPara, origin_path: &str, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>) {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
@@ -379,7 +379,7 @@ pub fn batch_unseal(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &mut Vec<
 pub fn batch_unseal_parallel(params: &PosPara, blocks_idx: &Vec<usize>, blocks: &Vec<Vec<Vec<u8>>>, before_block_ids: &Vec<Vec<u8>>, depend_blocks: &Vec<Vec<Vec<Vec<u8>>>>, vde_key: &Integer, iv: &Vec<u8>, parallel_num: usize) -> Vec<Vec<Vec<u8>>> {
     let idxs_s = {
         if params.mode_s != 0 {
-            create_short_depend(params.data_l / params.block_l, params.cnt_s, params.mode_s)
+            create_short_depend(params.block_l / params.unit_l, params.cnt_s, params.mode_s)
         }
         else {
             vec![]
-- 
2.43.0


From 63d15c378b11f9765e1a634878feae4b233319b0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 13/17] fix: sloth was not invertible at 0 (gave -1)

---
 proof_of_storage/src/vde/rug_sloth.rs | 6 ++++++
 proof_of_storage/src/vde/sloth.rs     | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/proof_of_storage/src/vde/rug_sloth.rs b/proof_of_storage/src/vde/rug_sloth.rs
index 6e3525e..47d900a 100644
--- a/proof_of_storage/src/vde/rug_sloth.rs
+++ b/proof_of_storage/src/vde/rug_sloth.rs
@@ -62,6 +62,9 @@ fn test_legendre() {
 }
 
 pub fn single_sloth(x: &Integer, p: &Integer) -> Integer {
+    if *x == 0 {
+        return Integer::new();
+    }
     let flag = legendre(x.clone(), &p);
     // let flag = x.clone().pow_mod(&((p - Integer::from_str("1").unwrap()) / Integer::from_str("2").unwrap()), &p).unwrap();
     let mut y;
@@ -96,6 +99,9 @@ pub fn sloth(y: &Integer, p: &Integer, t: usize) -> Integer {
 }
 
 pub fn single_sloth_inv(y: &Integer, p: &Integer) -> Integer {
+    if *y == 0 {
+        return Integer::new();
+    }
     let x;
     if y.clone() % 2 == Integer::from_str("1").unwrap() {
         x = (y + Integer::from_str("1").unwrap()) % p;
diff --git a/proof_of_storage/src/vde/sloth.rs b/proof_of_storage/src/vde/sloth.rs
index 9099e95..04470a7 100644
--- a/proof_of_storage/src/vde/sloth.rs
+++ b/proof_of_storage/src/vde/sloth.rs
@@ -54,6 +54,9 @@ pub fn legendre(mut x: BigInt, p: &BigInt) -> BigInt {
 }
 
 pub fn single_sloth(x: &BigInt, p: &BigInt) -> BigInt {
+    if *x == 0.to_bigint().unwrap() {
+        return x.clone();
+    }
     let flag = legendre(x.clone(), &p);
     // let flag = x.modpow(&((p - 1.to_bigint().unwrap()) / 2.to_bigint().unwrap()), &p);
     let mut y;
@@ -88,6 +91,9 @@ pub fn sloth(y: &BigInt, p: &BigInt, t: usize) -> BigInt {
 }
 
 pub fn single_sloth_inv(y: &BigInt, p: &BigInt) -> BigInt {
+    if *y == 0.to_bigint().unwrap() {
+        return y.clone();
+    }
     let x;
     if y.clone() % 2 == 1.to_bigint().unwrap() {
         x = (y + 1.to_bigint().unwrap()) % p;
-- 
2.43.0


From 458f5e62fecb9d289f4b9df08f313e5312c7ac42 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 14/17] fix: modsub gave wrong results for subtrahends above
 left + p

---
 proof_of_storage/src/proof_of_storage/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proof_of_storage/src/proof_of_storage/common.rs b/proof_of_storage/src/proof_of_storage/common.rs
index 5849075..07cd57e 100644
--- a/proof_of_storage/src/proof_of_storage/common.rs
+++ b/proof_of_storage/src/proof_of_storage/common.rs
@@ -3,6 +3,7 @@ use std::io::{Seek, Read, SeekFrom};
 use md5::{Md5, Digest};
 use rug::Integer;
 use rug::integer::Order;
+use rug::ops::RemRounding;
 use blake3;
 
 use super::postorage::PosPara;
@@ -138,7 +139,7 @@ pub fn modadd(left: &Vec<u8>, right: &Vec<u8>, p: &Integer) -> Vec<u8> {
 pub fn modsub(left: &Vec<u8>, right: &Vec<u8>, p: &Integer) -> Vec<u8> {
     let left_int = Integer::from_digits(left, Order::Lsf);
     let right_int = Integer::from_digits(right, Order::Lsf);
-    let res_int = (left_int + p - right_int) % p;
+    let res_int = (left_int - right_int).rem_euc(p);
     let mut res = res_int.to_digits::<u8>(Order::Lsf);
     res.append(&mut vec![0u8; left.len() - res.len()]);
     res
-- 
2.43.0


From 8e32e8b0f20788d2c61c441c0bd4fe21a4350d46 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 15/17] fix: random dependencies read past the hash and could
 not reach high indices

---
 proof_of_storage/src/proof_of_storage/depend.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 7b5c0b4..e116ae8 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -72,11 +72,11 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..17-step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
-                data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                data_idx += 2_usize.pow(8 * j as u32) * data_hash[i+j] as usize;
             }
             let depend_idx = data_idx % index;
             long_index.push(depend_idx);
@@ -94,11 +94,11 @@ pub fn long_mode_random(num: usize, data: &Vec<u8>, index: usize, count: usize)
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..17-step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-                    data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                    data_idx += 2_usize.pow(8 * j as u32) * data_hash[i+j] as usize;
                 }
                 let depend_idx = data_idx % index;
                 long_index.push(depend_idx);
@@ -239,11 +239,11 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
     let mut blake3_res = hasher.finalize();
 
     let mut data_hash: [u8; 16] = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
-    for i in (0..16).step_by(step) {
+    for i in (0..17-step).step_by(step) {
         if c < count {
             let mut data_idx = 0;
             for j in 0..step {
-                data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                data_idx += 2_usize.pow(8 * j as u32) * data_hash[i+j] as usize;
             }
             let depend_idx = data_idx % num;
             if depend_idx != index {
@@ -263,11 +263,11 @@ pub fn short_depend_random(num: usize, data: &Vec<u8>, index: usize, count: usiz
 
         data_hash = blake3_res.as_bytes().as_slice()[..16].try_into().unwrap();
 
-        for i in (0..16).step_by(step) {
+        for i in (0..17-step).step_by(step) {
             if c < count {
                 let mut data_idx = 0;
                 for j in 0..step {
-                    data_idx += j * 2_usize.pow(8) + data_hash[i+j] as usize;
+                    data_idx += 2_usize.pow(8 * j as u32) * data_hash[i+j] as usize;
                 }
                 let depend_idx = data_idx % num;
                 if depend_idx != index {
-- 
2.43.0


From 4669b37e9301cd094b44abb739a175a3d620774c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 16/17] fix: long dependency modes 2 and 3 overflowed for large
 counts

---
 proof_of_storage/src/proof_of_storage/depend.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index e116ae8..24d8d50 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -24,6 +24,9 @@ pub fn long_mode_2(index: usize, count: usize) -> Vec<usize> {
     for i in 0..count {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
+        if i >= usize::BITS as usize || index >> i == 0 {
+            break;
+        }
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
         if index >= dis {
             long_index.push(index - dis);
@@ -39,6 +42,9 @@ pub fn long_mode_3(index: usize) -> Vec<usize> {
     for i in 0..count {
         // dis = 1 + 2^i
         // dis = 2, 3, 5, 9..
+        if i >= usize::BITS as usize || index >> i == 0 {
+            break;
+        }
         let dis = 1 + usize::pow(2, i.try_into().unwrap());
         if index >= dis {
             long_index.push(index - dis);
-- 
2.43.0


From 3aefc292bd34e6fab0b232443683812194657cec Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 17/17] fix: short dependency mode 2 overflowed on its negative
 distances

---
 proof_of_storage/src/proof_of_storage/depend.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/proof_of_storage/src/proof_of_storage/depend.rs b/proof_of_storage/src/proof_of_storage/depend.rs
index 24d8d50..218efc3 100644
--- a/proof_of_storage/src/proof_of_storage/depend.rs
+++ b/proof_of_storage/src/proof_of_storage/depend.rs
@@ -203,13 +203,13 @@ pub fn short_mode_2(num: usize, index: usize, count: usize) -> Vec<usize> {
     let mut flag = false;
     for i in 0..count {
         let idx;
-        let dis1 = 1 - usize::pow(2, i.try_into().unwrap());
+        let dis1 = usize::pow(2, i.try_into().unwrap()) - 1;
         let dis2 = 1 + usize::pow(2, i.try_into().unwrap());
         if flag == true {
-            idx = index - dis1;
+            idx = index.wrapping_add(dis1);
         }
         else {
-            idx = index - dis2;
+            idx = index.wrapping_sub(dis2);
         }
         flag = !flag;
 
-- 
2.43.0

