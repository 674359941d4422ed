From 3e06126d342cc33962b75b5df7f2ff330f125a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 1/5] fix: reject too short pairing power tables instead of
 reading past their end

---
 src/encryption.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index a48f92b..eabde18 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -548,12 +548,12 @@ impl<E: Pairing> Encryption<E> {
         p: PairingOutput<E>,
         pairing_powers: &[Vec<PairingOutput<E>>],
     ) -> crate::Result<CHUNK_TYPE> {
-        if pairing_powers.len() < chunk_index {
+        if pairing_powers.len() <= chunk_index {
             return Err(SaverError::InvalidPairingPowers);
         }
         for j in 1..=chunk_max_val {
             let j = j as usize - 1;
-            if pairing_powers[chunk_index].len() < j {
+            if pairing_powers[chunk_index].len() <= j {
                 return Err(SaverError::InvalidPairingPowers);
             }
             if pairing_powers[chunk_index][j] == p {
-- 
2.43.0


From bcb82e1cd0791cb5b50aa44d71179d8c50207670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 2/5] fix: refuse keys for more than 255 chunks instead of
 truncating their chunk count

---
 src/keygen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index dd26e39..12893e7 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -179,7 +179,7 @@ macro_rules! impl_enc_key_funcs {
             if self.Z.len() != (n + 1) {
                 return Err(SaverError::MalformedEncryptionKey(self.Z.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedEncryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
@@ -202,7 +202,7 @@ macro_rules! impl_dec_key_funcs {
             if self.V_2.len() != n {
                 return Err(SaverError::MalformedDecryptionKey(self.V_2.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedDecryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
-- 
2.43.0


From 0ccacd14ef4ebb8aad559fcc4336ac2cff837e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 3/5] fix: return an error from pairing_powers when there are
 fewer generators than chunks

---
 src/keygen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keygen.rs b/src/keygen.rs
index 12893e7..54ec77b 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -285,6 +285,9 @@ impl<E: Pairing> PreparedDecryptionKey<E> {
         g_i: &[E::G1Affine],
     ) -> crate::Result<Vec<Vec<PairingOutput<E>>>> {
         let n = self.supported_chunks_count()? as usize;
+        if n > g_i.len() {
+            return Err(SaverError::VectorShorterThanExpected(n, g_i.len()));
+        }
         let chunk_max_val = (1 << chunk_bit_size) - 1;
         let mut powers = Vec::<Vec<PairingOutput<E>>>::with_capacity(n);
         for i in 0..n {
-- 
2.43.0


From 84ed5f5dfdd46ad1447d7c5080481b3d4e4cbb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 4/5] fix: refuse mismatched lengths when adding or
 re-encrypting ciphertexts instead of panicking or truncating

---
 src/encryption.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index eabde18..c0f5995 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -399,6 +399,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
         let n = c.len();
+        if sk.s.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(n, sk.s.len()));
+        }
         // r
         let rho = E::ScalarField::rand(rng);
         // g * r
@@ -421,6 +424,9 @@ impl<E: Pairing> Encryption<E> {
         w2: &[E::G1Affine],
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
+        if w1.len() != w2.len() {
+            return Err(SaverError::VectorShorterThanExpected(w1.len(), w2.len()));
+        }
         let mut w_combined = vec![];
         // w_combined = w1 + w2
         for i in 0..w1.len(){
@@ -441,6 +447,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
         
         let n = c.len();
+        if w.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(n, w.len()));
+        }
 
         let mut ct = vec![];
         // c[0] = g_r
@@ -459,6 +468,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
    
         let n = ct1.len();
+        if ct2.len() != n {
+            return Err(SaverError::VectorShorterThanExpected(n, ct2.len()));
+        }
 
         let mut ct = vec![];
 
-- 
2.43.0


From 0ec21b308d4f06698e059ee23e0352d150706f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 5/5] fix: refuse a commitment key of the wrong length instead
 of dropping the blinding

---
 src/commitment.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/commitment.rs b/src/commitment.rs
index d0fcb4e..50a42d0 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -1,4 +1,5 @@
 use crate::{
+    error::SaverError,
     setup::ChunkedCommitmentGens,
     utils::{chunks_count, decompose, multiply_field_elems_with_same_group_elem},
     serde_utils::*
@@ -75,6 +76,12 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
         comm_key: &[G],
     ) -> crate::Result<G> {
         let decomposed = Self::get_values_to_commit(message, blinding, chunk_bit_size)?;
+        if comm_key.len() != decomposed.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                decomposed.len(),
+                comm_key.len(),
+            ));
+        }
         Ok(G::Group::msm_bigint(comm_key, &decomposed).into_affine())
     }
 
-- 
2.43.0

