From 092559d54b156998785ca6f6cabc468d3cb491d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:13 +0000
Subject: [PATCH 01/14] fix: multiopen verifier rejects proofs whose q_evals do
 not match the opening sets

Zipping the opening sets with proof.q_evals silently dropped every opening set
beyond the supplied evaluations, so their openings were never checked.
---
 src/multiproof/error.rs    | 3 +++
 src/multiproof/piop/mod.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/multiproof/error.rs b/src/multiproof/error.rs
index 35e408a..44755b3 100644
--- a/src/multiproof/error.rs
+++ b/src/multiproof/error.rs
@@ -9,6 +9,9 @@ pub enum Error<E> {
 
     /// Pairing check does not hold.
     OpeningCheckFailed,
+
+    /// Proof does not carry exactly one evaluation per opening set.
+    WrongNumberOfQEvals,
 }
 
 impl<E> Error<E> {
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 0034221..357780c 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -165,6 +165,10 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
             oracles.push(oracle)
         }
 
+        if proof.q_evals.len() != opening_sets.len() {
+            return Err(Error::WrongNumberOfQEvals);
+        }
+
         // Max number of oracles in one opening set are all oracles
         let x1_powers: Vec<F> = successors(Some(F::one()), |x1_i| {
             Some(*x1_i * verifier_first_msg.x1)
-- 
2.43.0


From b34f6f6f49e5013dc5d05e02f56871d965d10da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:29 +0000
Subject: [PATCH 02/14] fix: bind the claimed permutation and q_blind
 evaluations in the multiopening

Their oracles registered no rotation, so multiopen placed them in an opening
set without points and never checked the evaluations the verifier used.
---
 src/data_structures.rs | 7 ++++++-
 src/turbo_plonk.rs     | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index c9a11b0..47bb275 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -6,7 +6,8 @@ use crate::{
     commitment::HomomorphicCommitment,
     oracles::{
         fixed::{FixedProverOracle, FixedVerifierOracle},
-        traits::Instantiable,
+        rotation::Rotation,
+        traits::{ConcreteOracle, Instantiable},
     },
     permutation::PermutationArgument,
     vo::LookupVirtualOracle,
@@ -81,6 +82,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
         }
 
         for oracle in permutation_oracles.iter_mut() {
+            // opened just in evaluation challenge
+            oracle.register_rotation(Rotation::curr());
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
@@ -89,6 +92,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
         }
 
         let mut q_blind = q_blind.clone();
+        // opened just in evaluation challenge
+        q_blind.register_rotation(Rotation::curr());
         q_blind.compute_extended_evals(&index_info.extended_coset_domain);
 
         Self {
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 63470fc..442a4a5 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -879,6 +879,7 @@ where
             .iter_mut()
             .zip(proof.permutation_oracle_evals.iter())
         {
+            sigma.register_rotation(Rotation::curr());
             sigma.register_eval_at_challenge(verifier_second_msg.xi, eval);
         }
 
@@ -1075,6 +1076,7 @@ where
             };
         }
 
+        preprocessed.q_blind.register_rotation(Rotation::curr());
         preprocessed.q_blind.register_eval_at_challenge(
             verifier_second_msg.xi,
             proof.q_blind_eval,
-- 
2.43.0


From 96009381e1962ab66ce8c77822d39afdf92a4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:38 +0000
Subject: [PATCH 03/14] fix: verifier returns an error instead of panicking on
 malformed proofs

Also rejects a wrong number of witness commitments, which left commitments of
an earlier proof registered on the remaining oracles.
---
 src/error.rs       |  2 ++
 src/turbo_plonk.rs | 56 ++++++++++++++++++++++++++++------------------
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 8de93b6..9074eab 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -15,6 +15,8 @@ pub enum Error<E> {
     PolynomialCommitmentError(E),
     /// Prover sent commitments to more or less chunks of quotient than needed
     WrongNumberOfChunks,
+    /// Number of commitments or evaluations in proof does not match the index
+    MalformedProof,
     /// Non zero over K indentity does not hold
     QuotientNotZero,
     MultiproofError(MultiproofError<E>),
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 442a4a5..6c8ea67 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -730,6 +730,20 @@ where
         //     return Err(Error::WrongNumberOfChunks);
         // }
 
+        if num_of_quotient_chunks != proof.quotient_chunks_evals.len() {
+            return Err(Error::WrongNumberOfChunks);
+        }
+
+        let num_of_lookups = vk.index_info.lookups.len();
+        if proof.witness_commitments.len() != witness_oracles.len()
+            || proof.lookup_commitments.len() != 2 * num_of_lookups
+            || proof.lookup_evals.len() != 3 * num_of_lookups
+            || proof.lookup_z_commitments.len() != num_of_lookups
+            || proof.lookup_z_evals.len() != 2 * num_of_lookups
+        {
+            return Err(Error::MalformedProof);
+        }
+
         // --------------------------------------------------------------------
         // First round
 
@@ -800,7 +814,9 @@ where
             &omegas,
         );
 
-        assert_eq!(query_set.len(), proof.witness_evals.len());
+        if query_set.len() != proof.witness_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         // map claimed evaluations with proper oracles
         for ((poly_label, (_, point)), &evaluation) in
@@ -826,7 +842,9 @@ where
             &omegas,
         );
 
-        assert_eq!(fixed_query_set.len(), proof.fixed_oracle_evals.len());
+        if fixed_query_set.len() != proof.fixed_oracle_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             fixed_query_set.iter().zip(proof.fixed_oracle_evals.iter())
@@ -851,7 +869,9 @@ where
             &omegas,
         );
 
-        assert_eq!(table_query_set.len(), proof.table_oracle_evals.len());
+        if table_query_set.len() != proof.table_oracle_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             table_query_set.iter().zip(proof.table_oracle_evals.iter())
@@ -870,10 +890,11 @@ where
 
         // Map permutation evals
         // Permutation oracles are opened just in evaluation challenge
-        assert_eq!(
-            preprocessed.permutation_oracles.len(),
-            proof.permutation_oracle_evals.len()
-        );
+        if preprocessed.permutation_oracles.len()
+            != proof.permutation_oracle_evals.len()
+        {
+            return Err(Error::MalformedProof);
+        }
         for (sigma, &eval) in preprocessed
             .permutation_oracles
             .iter_mut()
@@ -903,16 +924,8 @@ where
 
         let lookup_permuted_oracles_commitments =
             proof.lookup_commitments.chunks(2);
-        assert_eq!(
-            lookup_permuted_oracles_commitments.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_permuted_oracles_evals = proof.lookup_evals.chunks(3);
-        assert_eq!(
-            lookup_permuted_oracles_evals.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_polys: Vec<_> = vk
             .index_info
@@ -983,11 +996,6 @@ where
             .flat_map(|(_, _, a_prime, s_prime)| vec![a_prime, s_prime]);
 
         let lookup_z_evals_chunks = proof.lookup_z_evals.chunks(2);
-        assert_eq!(
-            proof.lookup_z_commitments.len(),
-            vk.index_info.lookups.len()
-        );
-        assert_eq!(lookup_z_evals_chunks.len(), vk.index_info.lookups.len());
 
         let lookup_z_polys = proof
             .lookup_z_commitments
@@ -1017,7 +1025,9 @@ where
             .index_info
             .permutation_argument
             .number_of_z_polys(oracles_to_copy.len());
-        assert_eq!(num_of_z_polys, proof.z_commitments.len());
+        if num_of_z_polys != proof.z_commitments.len() {
+            return Err(Error::MalformedProof);
+        }
 
         // Each z is evaluated at: x, wx and w^ux(except the last one)
         let mut z_polys: Vec<_> = proof
@@ -1053,7 +1063,9 @@ where
             &omegas,
         );
 
-        assert_eq!(z_query_set.len(), proof.z_evals.len());
+        if z_query_set.len() != proof.z_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         let z_mapping: BTreeMap<String, usize> = z_polys
             .iter()
-- 
2.43.0


From a5b115810b72f7d60f5967b628cb6e6fd5bd9047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:41 +0000
Subject: [PATCH 04/14] fix: absorb the instance oracles into the transcript on
 both sides

The public inputs did not influence any challenge.
---
 src/turbo_plonk.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 6c8ea67..5c13a3b 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -210,7 +210,11 @@ where
         zk_rng: &mut R,
     ) -> Result<TPProof<F, PC>, Error<PC::Error>> {
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        for oracle in instance_oracles.iter() {
+            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
+        }
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
@@ -688,7 +692,11 @@ where
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript, fixed evals
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        for oracle in instance_oracles.iter() {
+            fs_rng.absorb(&to_bytes![oracle.poly.coeffs].unwrap());
+        }
 
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
-- 
2.43.0


From 9321abafb0d6e3d8a2b23c2ad3d29124b6a84a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:44 +0000
Subject: [PATCH 05/14] fix: absorb the claimed evaluations before the
 multiopen challenges

x1 and x2 did not depend on the evaluations they batch.
---
 src/turbo_plonk.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 5c13a3b..c1c48f8 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -415,8 +415,6 @@ where
         let domain = GeneralEvaluationDomain::new(domain_size).unwrap();
         let omegas: Vec<F> = domain.elements().collect();
 
-        // TODO!!!! PUT ALL EVALS IN TRANSCRIPT
-
         // Compute witness evals
         let witness_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
             witness_oracles,
@@ -428,7 +426,6 @@ where
         let witness_evals: Vec<F> =
             evaluate_query_set(witness_oracles, &witness_query_set)?;
 
-        // fs_rng.absorb(&to_bytes![witness_evals].unwrap());
         // Compute fixed evals
 
         let fixed_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
@@ -509,6 +506,21 @@ where
             .polynomial()
             .evaluate(&verifier_second_msg.xi);
 
+        fs_rng.absorb(
+            &to_bytes![
+                witness_evals,
+                fixed_oracle_evals,
+                table_oracle_evals,
+                lookup_evals,
+                lookup_z_evals,
+                quotient_chunks_evals,
+                permutation_oracle_evals,
+                z_evals,
+                q_blind_eval
+            ]
+            .unwrap(),
+        );
+
         // Multiopen
         let mut oracles: Vec<&dyn Instantiable<F>> = witness_oracles
             .iter()
@@ -1269,6 +1281,21 @@ where
             return Err(Error::QuotientNotZero);
         }
 
+        fs_rng.absorb(
+            &to_bytes![
+                proof.witness_evals,
+                proof.fixed_oracle_evals,
+                proof.table_oracle_evals,
+                proof.lookup_evals,
+                proof.lookup_z_evals,
+                proof.quotient_chunks_evals,
+                proof.permutation_oracle_evals,
+                proof.z_evals,
+                proof.q_blind_eval
+            ]
+            .unwrap(),
+        );
+
         let mut oracles: Vec<&dyn CommittedOracle<F, PC>> = witness_oracles
             .iter()
             .chain(lookup_polys_to_check_in_opening)
-- 
2.43.0


From 59378bd680ab98b355d1c91c5d87f805a8852a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:10 +0000
Subject: [PATCH 06/14] fix: lookup verifier honours the rotation of instance
 and fixed queries

The prover evaluates them rotated, the verifier evaluated them at xi.
---
 src/lookup/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 480075f..434f6fa 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -450,6 +450,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         }
                     }
                     OracleType::Instance => {
+                        let evaluation_challenge =
+                            query.rotation.compute_evaluation_point(
+                                evaluation_challenge,
+                                omegas,
+                            );
                         match instance_oracles_mapping.get(&query.label) {
                             Some(index) => instance_oracles[*index]
                                 .query(&evaluation_challenge),
@@ -459,6 +464,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         }
                     }
                     OracleType::Fixed => {
+                        let evaluation_challenge =
+                            query.rotation.compute_evaluation_point(
+                                evaluation_challenge,
+                                omegas,
+                            );
                         match fixed_oracles_mapping.get(&query.label) {
                             Some(index) => fixed_oracles[*index]
                                 .query(&evaluation_challenge),
-- 
2.43.0


From b26ef410a6e147d44ad00dbd0c45ecc14bdd4f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:13 +0000
Subject: [PATCH 07/14] fix: lookups honour the rotation of table queries

configure() registers the rotation of a table query, but prover and verifier
both read the table column unrotated.
---
 src/lookup/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 434f6fa..29b4421 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -273,9 +273,11 @@ impl<F: PrimeField> LookupArgument<F> {
                         OracleType::Fixed => {
                             match table_oracles_mapping.get(&table_query.label)
                             {
-                                Some(index) => {
-                                    Ok(table_oracles[*index].evals[i])
-                                }
+                                Some(index) => Ok(table_oracles[*index]
+                                    .query_at_omega_in_original_domain(
+                                        i,
+                                        table_query.rotation,
+                                    )),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -313,7 +315,7 @@ impl<F: PrimeField> LookupArgument<F> {
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => table_oracles[*index]
-                                    .query_in_coset(i, Rotation::curr()),
+                                    .query_in_coset(i, table_query.rotation),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -516,8 +518,14 @@ impl<F: PrimeField> LookupArgument<F> {
                         OracleType::Fixed => {
                             match table_oracles_mapping.get(&table_query.label)
                             {
-                                Some(index) => table_oracles[*index]
-                                    .query(&evaluation_challenge),
+                                Some(index) => table_oracles[*index].query(
+                                    &table_query
+                                        .rotation
+                                        .compute_evaluation_point(
+                                            evaluation_challenge,
+                                            omegas,
+                                        ),
+                                ),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
-- 
2.43.0


From 7a3011ed456f5a9c77ec5122ccd2ffe8582d82be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:15 +0000
Subject: [PATCH 08/14] fix: first lookup constraint gets its own power of
 alpha

It shared the power of the last permutation constraint, so a violation of one
could cancel a violation of the other.
---
 src/piop/prover.rs | 6 +++---
 src/turbo_plonk.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/piop/prover.rs b/src/piop/prover.rs
index 0fabd05..7019ca6 100644
--- a/src/piop/prover.rs
+++ b/src/piop/prover.rs
@@ -282,12 +282,12 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
             .collect();
 
         // For each lookup argument we need 5 alphas
-        // Again begin with last alpha after permutation argument
+        // Again begin with next alpha after permutation argument
         let lookups_begin_with = if let Some(alpha) = permutation_alphas.last()
         {
-            *alpha
+            *alpha * verifier_msg.alpha
         } else {
-            *powers_of_alpha.last().unwrap()
+            *powers_of_alpha.last().unwrap() * verifier_msg.alpha
         };
 
         let lookup_alphas: Vec<F> =
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index c1c48f8..1134a11 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -1138,12 +1138,12 @@ where
             .collect();
 
         // For each lookup argument we need 5 alphas
-        // Again begin with last alpha after permutation argument
+        // Again begin with next alpha after permutation argument
         let lookups_begin_with = if let Some(alpha) = permutation_alphas.last()
         {
-            *alpha
+            *alpha * verifier_first_msg.alpha
         } else {
-            *powers_of_alpha.last().unwrap()
+            *powers_of_alpha.last().unwrap() * verifier_first_msg.alpha
         };
 
         let lookup_alphas: Vec<F> =
-- 
2.43.0


From 0456c736fb427d8e4000282daef11dda322bff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:17 +0000
Subject: [PATCH 09/14] fix: PlonkArith4 reads its fourth wire

d queried witness 2, the same column as c, and was not declared.
---
 src/vo/precompiled/plonk_arith.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vo/precompiled/plonk_arith.rs b/src/vo/precompiled/plonk_arith.rs
index a30ed27..c4991b1 100644
--- a/src/vo/precompiled/plonk_arith.rs
+++ b/src/vo/precompiled/plonk_arith.rs
@@ -68,7 +68,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
         let a = VirtualQuery::new(0, Rotation::curr(), OracleType::Witness);
         let b = VirtualQuery::new(1, Rotation::curr(), OracleType::Witness);
         let c = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
-        let d = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
+        let d = VirtualQuery::new(3, Rotation::curr(), OracleType::Witness);
 
         let plonk_expression = {
             let qm: VirtualExpression<F> = qm.clone().into();
@@ -83,7 +83,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
             let a: VirtualExpression<F> = a.clone().into();
             let b: VirtualExpression<F> = b.clone().into();
             let c: VirtualExpression<F> = c.clone().into();
-            let d: VirtualExpression<F> = d.into();
+            let d: VirtualExpression<F> = d.clone().into();
 
             a.clone() * b.clone() * qm
                 + a * ql
@@ -94,7 +94,10 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
                 + qc
         };
 
-        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c])
+        (
+            plonk_expression,
+            vec![qm, ql, qr, q4, qo, qc, pi, a, b, c, d],
+        )
     }
 }
 
-- 
2.43.0


From d07daad4690dd1f30cadcc3fd22f3d0e86d1f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:37 +0000
Subject: [PATCH 10/14] fix: indexing constraints of degree below the vanishing
 polynomial is an error

The subtraction underflowed: a panic in debug builds, and in release builds a
huge quotient degree.
---
 src/indexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 2fd8190..62090f5 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -92,7 +92,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             max_degree = max(max_degree, vo_degree?);
         }
 
-        Ok(max_degree - z_h_degree)
+        max_degree
+            .checked_sub(z_h_degree)
+            .ok_or(Error::QuotientTooSmall)
     }
 
     fn compute_zh_evals(
-- 
2.43.0


From d7d62e05f7fc9785f4b951889604f7531fb80afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:39 +0000
Subject: [PATCH 11/14] fix: size the extended domain for quotient_degree + 1
 coefficients

A quotient whose degree is exactly a power of two did not fit the domain.
---
 src/indexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 62090f5..1bcae12 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -178,7 +178,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
-- 
2.43.0


From bf06e647ba6dc8bbd76b1ecda27be4b7fc488665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:49 +0000
Subject: [PATCH 12/14] fix: lookup expressions of degree above one

---
 src/indexer.rs    | 70 +++++++++++++++++++++++++++++++++++++++++++++--
 src/lookup/mod.rs | 11 +++-----
 2 files changed, 72 insertions(+), 9 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 1bcae12..8837c7d 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -18,7 +18,7 @@ use crate::{
     permutation::PermutationArgument,
     piop::error::Error as PiopError,
     util::compute_vanishing_poly_over_coset,
-    vo::{LookupVirtualOracle, VirtualOracle},
+    vo::{expression::Expression, LookupVirtualOracle, VirtualOracle},
 };
 
 /*
@@ -97,6 +97,45 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             .ok_or(Error::QuotientTooSmall)
     }
 
+    #[allow(clippy::too_many_arguments)]
+    fn compute_expression_degree(
+        expression: &Expression<F>,
+        witness_oracles: &[impl WitnessOracle<F>],
+        instance_oracles: &[impl InstanceOracle<F>],
+        fixed_oracles: &[impl FixedOracle<F>],
+        witness_oracles_mapping: &BTreeMap<String, usize>,
+        instance_oracles_mapping: &BTreeMap<String, usize>,
+        fixed_oracles_mapping: &BTreeMap<String, usize>,
+        domain_size: usize,
+    ) -> Result<usize, PiopError> {
+        expression.degree(&|query| {
+            let degree = match query.oracle_type {
+                OracleType::Witness => witness_oracles_mapping
+                    .get(&query.label)
+                    .map(|index| witness_oracles[*index].get_degree(domain_size)),
+                OracleType::Instance => instance_oracles_mapping
+                    .get(&query.label)
+                    .map(|index| {
+                        instance_oracles[*index].get_degree(domain_size)
+                    }),
+                OracleType::Fixed => fixed_oracles_mapping
+                    .get(&query.label)
+                    .map(|index| fixed_oracles[*index].get_degree(domain_size)),
+            };
+            degree.ok_or_else(|| match query.oracle_type {
+                OracleType::Witness => {
+                    PiopError::MissingWitnessOracle(query.label.clone())
+                }
+                OracleType::Instance => {
+                    PiopError::MissingInstanceOracle(query.label.clone())
+                }
+                OracleType::Fixed => {
+                    PiopError::MissingFixedOracle(query.label.clone())
+                }
+            })
+        })
+    }
+
     fn compute_zh_evals(
         domain: &GeneralEvaluationDomain<F>,
         extended_coset_domain: &GeneralEvaluationDomain<F>,
@@ -205,7 +244,34 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         };
 
         let scaling_factor = if !lookups.is_empty() {
-            max(scaling_factor, LookupArgument::<F>::MINIMAL_SCALING_FACTOR)
+            let mut scaling_factor =
+                max(scaling_factor, LookupArgument::<F>::MINIMAL_SCALING_FACTOR);
+            for lookup in &lookups {
+                for expression in lookup.get_expressions()? {
+                    let degree = Self::compute_expression_degree(
+                        expression,
+                        witness_oracles,
+                        instance_oracles,
+                        fixed_oracles,
+                        &witness_oracles_mapping,
+                        &instance_oracles_mapping,
+                        &fixed_oracles_mapping,
+                        domain.size(),
+                    )?;
+                    // q_blind * z * a * (s + gamma), where a is the expression
+                    let quotient_degree =
+                        (3 * (domain.size() - 1) + degree)
+                            .saturating_sub(z_h.degree());
+                    let quotient_domain =
+                        GeneralEvaluationDomain::<F>::new(quotient_degree + 1)
+                            .unwrap();
+                    scaling_factor = max(
+                        scaling_factor,
+                        quotient_domain.size() / domain.size(),
+                    );
+                }
+            }
+            scaling_factor
         } else {
             scaling_factor
         };
diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 29b4421..9920166 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -232,8 +232,11 @@ impl<F: PrimeField> LookupArgument<F> {
 
         let a = WitnessProverOracle {
             label: format!("lookup_a_{}_poly", lookup_index),
+            // interpolated from the coset, expressions may have degree above
+            // the original domain
             poly: DensePolynomial::from_coefficients_slice(
-                &domain.ifft(&a_original_domain_evals),
+                &extended_coset_domain
+                    .coset_ifft(&a_extended_coset_domain_evals),
             ),
             evals: a_original_domain_evals,
             evals_at_coset_of_extended_domain: Some(
@@ -243,12 +246,6 @@ impl<F: PrimeField> LookupArgument<F> {
             should_permute: false,
         };
 
-        // sanity check
-        assert_eq!(
-            a.evals_at_coset_of_extended_domain.clone().unwrap(),
-            extended_coset_domain.coset_fft(&a.poly)
-        );
-
         // For now we are supporting just fixed table queries, easily we can extend it to table expressions and
         // we will just repeat what is done for A
         let mut s_original_domain_evals =
-- 
2.43.0


From f47c481853380fab19907b31a8e80a288eefff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 13/14] fix: permutation constraints fit the extended domain
 for any vanishing polynomial

With a vanishing polynomial of fewer roots than the domain (blinding rows left
out) the grand product constraint overflowed the extended domain: the quotient
was truncated and honest proofs were rejected.
---
 src/indexer.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 8837c7d..a099ef7 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -1,4 +1,9 @@
-use std::{cmp::max, collections::BTreeMap, iter, marker::PhantomData};
+use std::{
+    cmp::{max, min},
+    collections::BTreeMap,
+    iter,
+    marker::PhantomData,
+};
 
 use ark_ff::PrimeField;
 use ark_poly::{
@@ -235,9 +240,17 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         let scaling_factor = extended_coset_domain.size() / domain.size();
         let scaling_factor = if num_of_oracles_to_permute > 0 {
+            // (1 - (l_u + q_blind)) * z * w, with one column per grand product
+            let quotient_degree =
+                (3 * (domain.size() - 1)).saturating_sub(z_h.degree());
+            let quotient_domain =
+                GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
             max(
-                scaling_factor,
-                PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
+                max(
+                    scaling_factor,
+                    PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
+                ),
+                quotient_domain.size() / domain.size(),
             )
         } else {
             scaling_factor
@@ -277,9 +290,19 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         };
 
         // Even if there are no oracles to permute we construct permutation argument to omit Option handling on many places
-        let permutation_argument =
+        let mut permutation_argument =
             PermutationArgument::new(scaling_factor, &permutation_info);
 
+        if num_of_oracles_to_permute > 0 && domain.size() > 1 {
+            // When z_h has less roots than the domain, max_cols + 2 polynomials multiplied in
+            // one grand product constraint do not necessarily fit into the extended domain
+            let max_factors = (scaling_factor * domain.size() + z_h.degree()
+                - 1)
+                / (domain.size() - 1);
+            permutation_argument.max_cols =
+                min(permutation_argument.max_cols, max_factors - 2);
+        }
+
         let extended_coset_domain =
             GeneralEvaluationDomain::<F>::new(scaling_factor * domain.size())
                 .unwrap();
-- 
2.43.0


From 466da76a46c0c0c2d7149e4ba6b37549d5c9d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:05 +0000
Subject: [PATCH 14/14] fix: indexing a circuit whose extended domain does not
 exist is an error

The field's two-adicity bounds the domain size; beyond it index() panicked.
---
 src/indexer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index a099ef7..bbf2af7 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -222,7 +222,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1)
+                .ok_or(Error::IndexTooLarge)?;
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
@@ -244,7 +245,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             let quotient_degree =
                 (3 * (domain.size() - 1)).saturating_sub(z_h.degree());
             let quotient_domain =
-                GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap();
+                GeneralEvaluationDomain::<F>::new(quotient_degree + 1)
+                    .ok_or(Error::IndexTooLarge)?;
             max(
                 max(
                     scaling_factor,
@@ -277,7 +279,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
                             .saturating_sub(z_h.degree());
                     let quotient_domain =
                         GeneralEvaluationDomain::<F>::new(quotient_degree + 1)
-                            .unwrap();
+                            .ok_or(Error::IndexTooLarge)?;
                     scaling_factor = max(
                         scaling_factor,
                         quotient_domain.size() / domain.size(),
@@ -305,7 +307,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         let extended_coset_domain =
             GeneralEvaluationDomain::<F>::new(scaling_factor * domain.size())
-                .unwrap();
+                .ok_or(Error::IndexTooLarge)?;
 
         let zh_inverses_over_coset = Self::compute_zh_evals(
             &domain,
-- 
2.43.0

