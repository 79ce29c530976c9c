From bf81010e51f1712cd03115399ce2ec063634db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:30 +0000
Subject: [PATCH 1/7] fix: evaluating an empty shared polynomial at zero
 returns a zero share instead of panicking

---
 mpc-core/src/protocols/rep3/poly.rs   | 4 +++-
 mpc-core/src/protocols/shamir/poly.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/poly.rs b/mpc-core/src/protocols/rep3/poly.rs
index bb36194..e12d443 100644
--- a/mpc-core/src/protocols/rep3/poly.rs
+++ b/mpc-core/src/protocols/rep3/poly.rs
@@ -37,7 +37,9 @@ fn horner_evaluate<F: PrimeField>(poly_coeffs: &[FieldShare<F>], point: F) -> Fi
 // https://docs.rs/ark-poly/latest/src/ark_poly/polynomial/univariate/dense.rs.html#56
 /// Evaluate the shared polynomial at a public point.
 pub fn eval_poly<F: PrimeField>(coeffs: &[FieldShare<F>], point: F) -> FieldShare<F> {
-    if point.is_zero() {
+    if coeffs.is_empty() {
+        return FieldShare::zero_share();
+    } else if point.is_zero() {
         return coeffs[0];
     }
 
diff --git a/mpc-core/src/protocols/shamir/poly.rs b/mpc-core/src/protocols/shamir/poly.rs
index 741142d..04b5b0e 100644
--- a/mpc-core/src/protocols/shamir/poly.rs
+++ b/mpc-core/src/protocols/shamir/poly.rs
@@ -37,7 +37,9 @@ fn horner_evaluate<F: PrimeField>(poly_coeffs: &[FieldShare<F>], point: F) -> Fi
 // https://docs.rs/ark-poly/latest/src/ark_poly/polynomial/univariate/dense.rs.html#56
 /// Evaluate the shared polynomial at a public point.
 pub fn eval_poly<F: PrimeField>(coeffs: &[FieldShare<F>], point: F) -> FieldShare<F> {
-    if point.is_zero() {
+    if coeffs.is_empty() {
+        return FieldShare::zero_share();
+    } else if point.is_zero() {
         return coeffs[0];
     }
 
-- 
2.43.0


From a824ce8e6033ea6b8fdda2ef2e989cd1c439e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 2/7] fix: merkle_tree: a tree of a single leaf panicked

---
 mpc-core/src/gadgets/merkle_tree/plain.rs  | 24 ++++++++++++++++++++++
 mpc-core/src/gadgets/merkle_tree/rep3.rs   |  8 ++++++++
 mpc-core/src/gadgets/merkle_tree/shamir.rs |  8 ++++++++
 3 files changed, 40 insertions(+)

diff --git a/mpc-core/src/gadgets/merkle_tree/plain.rs b/mpc-core/src/gadgets/merkle_tree/plain.rs
index b8d0d72..7832db0 100644
--- a/mpc-core/src/gadgets/merkle_tree/plain.rs
+++ b/mpc-core/src/gadgets/merkle_tree/plain.rs
@@ -17,6 +17,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return input_[0];
+        }
 
         // Prepare for sponge mode
         let mut input = Vec::with_capacity(T * len / ARITY);
@@ -59,6 +63,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return (input_[0], Vec::new());
+        }
         let mut witness = Vec::with_capacity(log as usize);
 
         // Prepare for sponge mode
@@ -115,6 +123,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return input_[0];
+        }
 
         // Prepare padding
         let mut input = if T == ARITY {
@@ -164,6 +176,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return (input_[0], Vec::new());
+        }
         let mut witness = Vec::with_capacity(log as usize);
 
         // Prepare padding
@@ -228,6 +244,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         mut leaf: F,
         witness: Vec<MerkleWitnessElement<F>>,
     ) -> bool {
+        if witness.is_empty() {
+            // A single leaf is its own root
+            return root == leaf;
+        }
         let arity = witness[0].other.len() + 1;
         assert!(T > arity);
 
@@ -262,6 +282,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         mut leaf: F,
         witness: Vec<MerkleWitnessElement<F>>,
     ) -> bool {
+        if witness.is_empty() {
+            // A single leaf is its own root
+            return root == leaf;
+        }
         let arity = witness[0].other.len() + 1;
         assert!(T >= arity);
 
diff --git a/mpc-core/src/gadgets/merkle_tree/rep3.rs b/mpc-core/src/gadgets/merkle_tree/rep3.rs
index c6a13d1..6e073de 100644
--- a/mpc-core/src/gadgets/merkle_tree/rep3.rs
+++ b/mpc-core/src/gadgets/merkle_tree/rep3.rs
@@ -17,6 +17,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return Ok(input_[0]);
+        }
 
         let num_hashes = (len - 1) / (ARITY - 1);
         let mut precomp = self.precompute_rep3(num_hashes, net, state)?;
@@ -66,6 +70,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return Ok(input_[0]);
+        }
 
         let num_hashes = (len - 1) / (ARITY - 1);
         let mut precomp = self.precompute_rep3(num_hashes, net, state)?;
diff --git a/mpc-core/src/gadgets/merkle_tree/shamir.rs b/mpc-core/src/gadgets/merkle_tree/shamir.rs
index c5e0705..d0eb7fc 100644
--- a/mpc-core/src/gadgets/merkle_tree/shamir.rs
+++ b/mpc-core/src/gadgets/merkle_tree/shamir.rs
@@ -17,6 +17,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return Ok(input_[0]);
+        }
 
         let num_hashes = (len - 1) / (ARITY - 1);
         state.buffer_triples(net, self.rand_required(num_hashes, true))?;
@@ -68,6 +72,10 @@ impl<F: PrimeField, const T: usize, const D: u64> Poseidon2<F, T, D> {
         let mut len = input_.len();
         let log = len.ilog(ARITY);
         assert_eq!(len, ARITY.pow(log));
+        if len == 1 {
+            // A single leaf is its own root
+            return Ok(input_[0]);
+        }
 
         let num_hashes = (len - 1) / (ARITY - 1);
         state.buffer_triples(net, self.rand_required(num_hashes, true))?;
-- 
2.43.0


From 964dc23c61cf7a017593da3ddd1797e68b0cedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 3/7] fix: blocking frame reader: retry a read that was
 interrupted

An interrupted read (EINTR) was treated like a lost connection, although
the writing side retries interrupted writes.
---
 mpc-net/src/blocking.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 84e0830..c3c9434 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -281,6 +281,11 @@ impl<R: Read> FrameReader<R> {
                 self.buf.truncate(old + n);
                 Ok(())
             }
+            // Nothing was read; the caller retries, like the writer side does.
+            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {
+                self.buf.truncate(old);
+                Ok(())
+            }
             Err(e) => {
                 self.buf.truncate(old);
                 Err(e.into())
-- 
2.43.0


From 719f13f4af2679687ab6a95a367b05ca9b543d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 4/7] fix: traffic statistics: count sent bytes only when the
 send succeeded

A send that failed (unknown channel state, time-out on a full queue, closed peer) was
counted as sent, so the statistics claimed bytes that never left the party.
---
 mpc-net/src/async_net.rs | 4 +++-
 mpc-net/src/blocking.rs  | 4 +++-
 mpc-net/src/local.rs     | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index 1d0f863..7bc3eba 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -149,9 +149,11 @@ impl AsyncChannels {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
         let (tx, sent_bytes) = self.send.get(&to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
+        let len = data.len();
         tx.blocking_send(WriteMsg::Frame(data))
             .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+        // only count data that was actually handed over to the writer
+        sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
     }
 
diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index c3c9434..2d75139 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -92,11 +92,13 @@ impl BlockingChannels {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
         let (tx, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
+        let len = data.len();
         // The payload moves into the queue unchanged; the writer thread prepends the
         // length prefix with a vectored write (no copy of the payload).
         tx.send(WriteMsg::Frame(data))
             .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
+        // only count data that was actually handed over to the writer
+        sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
     }
 
diff --git a/mpc-net/src/local.rs b/mpc-net/src/local.rs
index 4937dd9..6313a13 100644
--- a/mpc-net/src/local.rs
+++ b/mpc-net/src/local.rs
@@ -70,7 +70,7 @@ impl Network for LocalNetwork {
 
     fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
         let (sender, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), std::sync::atomic::Ordering::Relaxed);
+        let len = data.len();
         if let Some(timeout) = self.timeout {
             sender
                 .send_timeout(data, timeout)
@@ -78,6 +78,8 @@ impl Network for LocalNetwork {
         } else {
             sender.send(data)?;
         }
+        // only count data that was actually handed over to the channel
+        sent_bytes.fetch_add(len, std::sync::atomic::Ordering::Relaxed);
         Ok(())
     }
 
-- 
2.43.0


From 829c11e115ff45c900355046b1d91b849deac752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 5/7] fix: reject a wrong number of public inputs in Groth16
 verification

The arkworks verifier zips the inputs with the key's points, so a
superfluous input was ignored and a missing one taken as zero: a proof
verified for statements it was not made for.
---
 co-circom/co-groth16/src/verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/co-circom/co-groth16/src/verifier.rs b/co-circom/co-groth16/src/verifier.rs
index 40fd42e..1762497 100644
--- a/co-circom/co-groth16/src/verifier.rs
+++ b/co-circom/co-groth16/src/verifier.rs
@@ -14,11 +14,21 @@ use co_circom_types::VerificationError;
 impl<P: Pairing> Groth16<P> {
     /// Verify a Groth16 proof.
     /// This method is a wrapper arkworks Groth16 and does not use MPC.
+    ///
+    /// The number of public inputs must be the one the verification key was made for.
     pub fn verify(
         vk: &VerifyingKey<P>,
         proof: &Proof<P>,
         public_inputs: &[P::ScalarField],
     ) -> Result<(), VerificationError> {
+        // the arkworks verifier ignores superfluous and defaults missing public inputs
+        if public_inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(VerificationError::Malformed(eyre::eyre!(
+                "Invalid number of public inputs: expected {}, got {}",
+                vk.gamma_abc_g1.len().saturating_sub(1),
+                public_inputs.len()
+            )));
+        }
         let vk = ark_groth16::prepare_verifying_key(vk);
         let proof_valid = ArkworksGroth16::<P>::verify_proof(&vk, proof, public_inputs)
             .map_err(eyre::Report::from)?;
-- 
2.43.0


From 3a36f09ff3fdc052b8269ac969ed301c365e6158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 6/7] fix: PLONK witness lookup: a witness that is too short is
 an error, not a panic

---
 co-circom/co-plonk/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/co-circom/co-plonk/src/lib.rs b/co-circom/co-plonk/src/lib.rs
index 4b0da35..0191885 100644
--- a/co-circom/co-plonk/src/lib.rs
+++ b/co-circom/co-plonk/src/lib.rs
@@ -144,13 +144,18 @@ mod plonk_utils {
         tracing::trace!("get witness on {index}");
         let result = if index <= zkey.n_public {
             tracing::trace!("indexing public input!");
-            T::promote_to_trivial_share(id, witness.public_inputs[index])
+            let public = witness.public_inputs.get(index);
+            let public = public.ok_or(PlonkProofError::CorruptedWitness(index))?;
+            T::promote_to_trivial_share(id, *public)
         } else if index < zkey.n_vars - zkey.n_additions {
             tracing::trace!("indexing private input!");
-            witness.witness[index - zkey.n_public - 1]
+            let private = witness.witness.get(index - zkey.n_public - 1);
+            *private.ok_or(PlonkProofError::CorruptedWitness(index))?
         } else if index < zkey.n_vars {
             tracing::trace!("indexing additions!");
-            witness.addition_witness[index + zkey.n_additions - zkey.n_vars].to_owned()
+            let position = index + zkey.n_additions - zkey.n_vars;
+            let addition = witness.addition_witness.get(position);
+            *addition.ok_or(PlonkProofError::CorruptedWitness(index))?
         } else {
             tracing::warn!("Witness corrupted with invalid Index {index}");
             return Err(PlonkProofError::CorruptedWitness(index));
-- 
2.43.0


From 837f0fd3f951452a397d6aaf88dbc7f2316955e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 7/7] fix: PLONK quotient: circuits without public inputs have
 no Lagrange polynomial in the key

---
 co-circom/co-plonk/src/round3.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/co-circom/co-plonk/src/round3.rs b/co-circom/co-plonk/src/round3.rs
index 20fa232..db02fbd 100644
--- a/co-circom/co-plonk/src/round3.rs
+++ b/co-circom/co-plonk/src/round3.rs
@@ -9,6 +9,7 @@ use crate::{
 use ark_ec::CurveGroup;
 use ark_ec::pairing::Pairing;
 use ark_ff::Field;
+use ark_poly::EvaluationDomain;
 use circom_types::plonk::Zkey;
 use itertools::izip;
 use mpc_core::MpcState;
@@ -428,6 +429,16 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
         )?;
         mul4vec_span.exit();
 
+        // Without public inputs the zkey holds no Lagrange polynomial, but the first one is needed anyway
+        let l0 = match zkey.lagrange.first() {
+            Some(lagrange) => lagrange.evaluations.to_owned(),
+            None => {
+                let n = P::ScalarField::from(zkey.domain_size as u64);
+                let coeff = n.inverse().expect("domain size is not zero in the field");
+                domains.extended_domain.fft(&vec![coeff; zkey.domain_size])
+            }
+        };
+
         let t_tz_span = tracing::debug_span!("t, tz").entered();
         let mut t_vec = Vec::with_capacity(len);
         let mut tz_vec = Vec::with_capacity(len);
@@ -448,10 +459,10 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
             e3z = T::mul_with_public(e3z, challenges.alpha);
 
             let mut e4 = T::add_with_public(id, z, -P::ScalarField::one());
-            e4 = T::mul_with_public(e4, zkey.lagrange[0].evaluations[i]);
+            e4 = T::mul_with_public(e4, l0[i]);
             e4 = T::mul_with_public(e4, challenges.alpha2);
 
-            let mut e4z = T::mul_with_public(zp, zkey.lagrange[0].evaluations[i]);
+            let mut e4z = T::mul_with_public(zp, l0[i]);
             e4z = T::mul_with_public(e4z, challenges.alpha2);
 
             let mut t = T::add(e1[i], e2);
-- 
2.43.0

