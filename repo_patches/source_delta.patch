From 96ae29e79615047dbe90238672f11fb6a0299fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 1/8] fix: reject short or out-of-range input in
 compress_signature and compress_pubkey instead of aborting

---
 crates/bls-snark-sys/src/serialization.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/bls-snark-sys/src/serialization.rs b/crates/bls-snark-sys/src/serialization.rs
index 25410cd..b805863 100644
--- a/crates/bls-snark-sys/src/serialization.rs
+++ b/crates/bls-snark-sys/src/serialization.rs
@@ -172,8 +172,9 @@ pub extern "C" fn compress_signature(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let signature = unsafe { slice::from_raw_parts(in_signature, in_signature_len as usize) };
-        let x = Fq::read(&signature[0..48]).unwrap();
-        let y = Fq::read(&signature[48..96]).unwrap();
+        let mut reader = signature;
+        let x = Fq::read(&mut reader)?;
+        let y = Fq::read(&mut reader)?;
         let affine = G1Affine::new(x, y, false);
         let sig = Signature::from(affine.into_projective());
         let mut obj_bytes = vec![];
@@ -197,8 +198,9 @@ pub extern "C" fn compress_pubkey(
 ) -> bool {
     convert_result_to_bool::<_, BLSError, _>(|| {
         let pubkey = unsafe { slice::from_raw_parts(in_pubkey, in_pubkey_len as usize) };
-        let x = Fq2::read(&pubkey[0..96]).unwrap();
-        let y = Fq2::read(&pubkey[96..192]).unwrap();
+        let mut reader = pubkey;
+        let x = Fq2::read(&mut reader)?;
+        let y = Fq2::read(&mut reader)?;
         let affine = G2Affine::new(x, y, false);
         let pk = PublicKey::from(affine.into_projective());
 
-- 
2.43.0


From dd9ccc5d5ab089bb9a71ec44cf5bb89f18b1b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 2/8] fix: batch_verify_strict must not accept a batch with
 unpaired keys or signatures

---
 crates/bls-snark-sys/src/signatures.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/bls-snark-sys/src/signatures.rs b/crates/bls-snark-sys/src/signatures.rs
index 1e3540c..9de8799 100644
--- a/crates/bls-snark-sys/src/signatures.rs
+++ b/crates/bls-snark-sys/src/signatures.rs
@@ -382,12 +382,15 @@ pub extern "C" fn batch_verify_strict(
                     context.add(pk.clone(), sig.clone());
                 });
 
-            let result = match (should_use_composite, should_use_cip22) {
+            // every signature must be paired with exactly one public key
+            let is_paired = public_keys.len() == signatures.len();
+            let verified = match (should_use_composite, should_use_cip22) {
                 (true, true) => context.verify(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
                 (false, true) => false, // bad hash to curve configuration
                 (true, false) => context.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
                 (false, false) => context.verify(&*DIRECT_HASH_TO_G1).is_ok(),
             };
+            let result = is_paired && verified;
 
             if !result {
                 all_valid = false;
-- 
2.43.0


From 0df32317d84b036e9db3d3412cf625280c484300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 3/8] fix: report the uncompressed size of public keys and
 signatures

---
 crates/bls-crypto/src/bls/public.rs    | 4 ++++
 crates/bls-crypto/src/bls/signature.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/bls-crypto/src/bls/public.rs b/crates/bls-crypto/src/bls/public.rs
index e5706dc..869cb40 100644
--- a/crates/bls-crypto/src/bls/public.rs
+++ b/crates/bls-crypto/src/bls/public.rs
@@ -132,6 +132,10 @@ impl CanonicalSerialize for PublicKey {
     fn serialized_size(&self) -> usize {
         self.0.into_affine().serialized_size()
     }
+
+    fn uncompressed_size(&self) -> usize {
+        self.0.into_affine().uncompressed_size()
+    }
 }
 
 impl CanonicalDeserialize for PublicKey {
diff --git a/crates/bls-crypto/src/bls/signature.rs b/crates/bls-crypto/src/bls/signature.rs
index 46aa7b3..0a37762 100644
--- a/crates/bls-crypto/src/bls/signature.rs
+++ b/crates/bls-crypto/src/bls/signature.rs
@@ -40,6 +40,10 @@ impl CanonicalSerialize for Signature {
     fn serialized_size(&self) -> usize {
         self.0.into_affine().serialized_size()
     }
+
+    fn uncompressed_size(&self) -> usize {
+        self.0.into_affine().uncompressed_size()
+    }
 }
 
 impl CanonicalDeserialize for Signature {
-- 
2.43.0


From 77b568e665f2c6146f3f2fd7df2ac84573fa1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 4/8] fix: return an error instead of panicking on messages too
 long for the composite hasher

---
 crates/bls-crypto/src/hashers/composite.rs | 10 ++++++++++
 crates/bls-crypto/src/lib.rs               |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/crates/bls-crypto/src/hashers/composite.rs b/crates/bls-crypto/src/hashers/composite.rs
index e46ceff..269538a 100644
--- a/crates/bls-crypto/src/hashers/composite.rs
+++ b/crates/bls-crypto/src/hashers/composite.rs
@@ -31,6 +31,12 @@ mod window {
 #[allow(clippy::upper_case_acronyms)]
 pub type CRH = bowe_hopwood::CRH<EdwardsParameters, window::Window>;
 
+/// The longest message the Bowe-Hopwood Pedersen CRH can hash, in bytes
+const MAX_MESSAGE_BYTES: usize = <window::Window as pedersen::Window>::WINDOW_SIZE
+    * <window::Window as pedersen::Window>::NUM_WINDOWS
+    * bowe_hopwood::CHUNK_SIZE
+    / 8;
+
 /// Lazily evaluated composite hasher instantiated over the
 /// Bowe-Hopwood-Pedersen CRH.
 pub static COMPOSITE_HASHER: Lazy<CompositeHasher<CRH>> =
@@ -78,6 +84,10 @@ impl<H: FixedLengthCRH<Output = EdwardsProjective>> Hasher for CompositeHasher<H
     // TODO: Should we improve the trait design somehow? Seems like there's a bad abstraction
     // here if we do not use the 2 params
     fn crh(&self, _: &[u8], message: &[u8], _: usize) -> Result<Vec<u8>, Self::Error> {
+        // the CRH panics on inputs which do not fit its windows
+        if message.len() > MAX_MESSAGE_BYTES {
+            return Err(BLSError::MessageTooLarge(message.len()));
+        }
         let h = H::evaluate(&self.parameters, message)?.into_affine();
         let mut res = vec![];
         h.x.serialize(&mut res)?;
diff --git a/crates/bls-crypto/src/lib.rs b/crates/bls-crypto/src/lib.rs
index 4d42b7a..561a437 100644
--- a/crates/bls-crypto/src/lib.rs
+++ b/crates/bls-crypto/src/lib.rs
@@ -99,6 +99,10 @@ pub enum BLSError {
     #[error("domain length is too large: {0}")]
     DomainTooLarge(usize),
 
+    /// The message does not fit the fixed length CRH
+    #[error("message length is too large: {0}")]
+    MessageTooLarge(usize),
+
     /// Hashing to curve failed
     #[error("Could not hash to curve")]
     HashToCurveError,
-- 
2.43.0


From 648e10a34b77598d70850f047b5504cc30720679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 5/8] fix: return an error instead of panicking on domains
 longer than 8 bytes

---
 crates/bls-crypto/src/hashers/direct.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bls-crypto/src/hashers/direct.rs b/crates/bls-crypto/src/hashers/direct.rs
index eddfb7f..3e82876 100644
--- a/crates/bls-crypto/src/hashers/direct.rs
+++ b/crates/bls-crypto/src/hashers/direct.rs
@@ -26,6 +26,9 @@ impl Hasher for DirectHasher {
         message: &[u8],
         xof_digest_length: usize,
     ) -> Result<Vec<u8>, Self::Error> {
+        if domain.len() > 8 {
+            return Err(BLSError::DomainTooLarge(domain.len()));
+        }
         let hash_result = Params::new()
             .hash_length(32)
             .node_offset(xof_digest_length_to_node_offset(0, xof_digest_length)?)
-- 
2.43.0


From a3fbad34b9f4cd753527e1dd917dcde3f497b5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 6/8] fix: do not mark padding keys as signers in dummy updates
 of a padded proof

---
 crates/epoch-snark/src/api/prover.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/epoch-snark/src/api/prover.rs b/crates/epoch-snark/src/api/prover.rs
index 2d45e84..875cb5f 100644
--- a/crates/epoch-snark/src/api/prover.rs
+++ b/crates/epoch-snark/src/api/prover.rs
@@ -40,10 +40,16 @@ pub fn prove(
 
     let num_epochs = epochs.len();
     if num_epochs < max_transitions {
+        // The validators in place when the dummy updates are processed
+        let current_validators = if num_epochs > 1 {
+            &transitions[num_epochs - 2].block
+        } else {
+            initial_epoch
+        };
         epochs = [
             &epochs[..num_epochs - 1],
             &(0..max_transitions - num_epochs)
-                .map(|_| to_dummy_update(num_validators))
+                .map(|_| to_dummy_update(num_validators, current_validators))
                 .collect::<Vec<_>>(),
             &[epochs[num_epochs - 1].clone()],
         ]
@@ -143,7 +149,15 @@ fn to_update(transition: &EpochTransition) -> SingleUpdate<BLSCurve> {
     }
 }
 
-fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
+fn to_dummy_update(num_validators: u32, current_validators: &EpochBlock) -> SingleUpdate<BLSCurve> {
+    // Padding keys can never be marked as signers, not even in a dummy update
+    let padding_key = BLSCurveG2::prime_subgroup_generator();
+    let signed_bitmap = current_validators
+        .new_public_keys
+        .iter()
+        .map(|pubkey| Some(*pubkey.as_ref() != padding_key))
+        .collect::<Vec<_>>();
+
     SingleUpdate {
         epoch_data: EpochData {
             maximum_non_signers: 0,
@@ -155,6 +169,6 @@ fn to_dummy_update(num_validators: u32) -> SingleUpdate<BLSCurve> {
                 .map(|_| Some(BLSCurveG2::prime_subgroup_generator()))
                 .collect::<Vec<_>>(),
         },
-        signed_bitmap: (0..num_validators).map(|_| Some(true)).collect::<Vec<_>>(),
+        signed_bitmap,
     }
 }
-- 
2.43.0


From 91bfeb2c3b892754e45774b79b6046bd8884bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 7/8] fix: honour the requested length when hashing to bits
 without constraints

---
 crates/bls-gadgets/src/hash_to_group.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/bls-gadgets/src/hash_to_group.rs b/crates/bls-gadgets/src/hash_to_group.rs
index 7fbc6a9..c1e908f 100644
--- a/crates/bls-gadgets/src/hash_to_group.rs
+++ b/crates/bls-gadgets/src/hash_to_group.rs
@@ -230,15 +230,17 @@ pub fn hash_to_bits<F: PrimeField>(
     } else {
         trace!("generating hash without constraints");
         let bits = if message.cs().is_in_setup_mode() {
-            vec![false; 512]
+            vec![false; hash_length as usize]
         } else {
             let message = message
                 .iter()
                 .map(|m| m.value())
                 .collect::<Result<Vec<_>, _>>()?;
             let message = bits_le_to_bytes_le(&message);
-            let hash_result = DirectHasher.xof(&personalization, &message, 64).unwrap();
-            bytes_le_to_bits_le(&hash_result, 512)
+            let hash_result = DirectHasher
+                .xof(&personalization, &message, hash_length as usize / 8)
+                .unwrap();
+            bytes_le_to_bits_le(&hash_result, hash_length as usize)
         };
 
         bits.iter()
-- 
2.43.0


From f771d0736d7e4cb99be6bfcbcf6983d046e43a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 8/8] fix: count more than 255 occurrences in a bitmap

---
 crates/bls-gadgets/src/bitmap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bls-gadgets/src/bitmap.rs b/crates/bls-gadgets/src/bitmap.rs
index c78d3b8..b19c625 100644
--- a/crates/bls-gadgets/src/bitmap.rs
+++ b/crates/bls-gadgets/src/bitmap.rs
@@ -31,7 +31,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
         // will be empty
         let is_setup = self.cs().is_in_setup_mode();
 
-        let mut occurrences = 0;
+        let mut occurrences = 0u64;
         let mut occurrences_lc = LinearCombination::zero();
         // For each bit, increment the number of occurences if the bit matched `value`
         // We calculate both the number of occurrences
@@ -49,7 +49,7 @@ impl<F: PrimeField> Bitmap<F> for [Boolean<F>] {
             // Update our count
             if !is_setup {
                 let got_value = bit.value()?;
-                occurrences += (got_value == value) as u8;
+                occurrences += (got_value == value) as u64;
             }
         }
 
-- 
2.43.0

