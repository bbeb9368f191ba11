From 4ef7d8b120ec7abd8facbdd9e4cdc767c1b5ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 01/34] fix: check output pointers for null in FFI entry points
 that store to them

---
 libursa/src/ffi/bls.rs       | 3 +++
 libursa/src/ffi/cl/issuer.rs | 4 ++++
 libursa/src/ffi/cl/mod.rs    | 1 +
 libursa/src/ffi/cl/prover.rs | 1 +
 4 files changed, 9 insertions(+)

diff --git a/libursa/src/ffi/bls.rs b/libursa/src/ffi/bls.rs
index b536685..0eada8b 100644
--- a/libursa/src/ffi/bls.rs
+++ b/libursa/src/ffi/bls.rs
@@ -167,6 +167,7 @@ pub extern "C" fn ursa_bls_sign_key_new(
         ErrorCode::CommonInvalidParam1,
         ErrorCode::CommonInvalidParam2
     );
+    check_useful_c_ptr!(sign_key_p, ErrorCode::CommonInvalidParam3);
 
     trace!("ursa_bls_sign_key_new: seed: {:?}", secret!(&seed));
 
@@ -325,6 +326,7 @@ pub extern "C" fn ursa_bls_ver_key_new(
 
     check_useful_c_reference!(gen, Generator, ErrorCode::CommonInvalidParam1);
     check_useful_c_reference!(sign_key, SignKey, ErrorCode::CommonInvalidParam2);
+    check_useful_c_ptr!(ver_key_p, ErrorCode::CommonInvalidParam3);
 
     trace!(
         "ursa_bls_ver_key_new: gen: {:?}, sign_key: {:?}",
@@ -475,6 +477,7 @@ pub extern "C" fn ursa_bls_pop_new(
 
     check_useful_c_reference!(ver_key, VerKey, ErrorCode::CommonInvalidParam1);
     check_useful_c_reference!(sign_key, SignKey, ErrorCode::CommonInvalidParam2);
+    check_useful_c_ptr!(pop_p, ErrorCode::CommonInvalidParam3);
 
     trace!(
         "ursa_bls_pop_new: ver_key: {:?}, sign_key: {:?}",
diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 1a3dc3f..ffdee40 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1845,6 +1845,7 @@ pub extern "C" fn ursa_revocation_registry_delta_from_parts(
         ErrorCode::CommonInvalidParam5,
         ErrorCode::CommonInvalidParam6
     );
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!("ursa_revocation_registry_delta_from_parts: >>> rev_reg_from: {:?}, rev_reg_to: {:?}, issued: {:?}, revoked: {:?}",
            rev_reg_from, rev_reg_to, issued, revoked);
@@ -1895,6 +1896,7 @@ pub extern "C" fn ursa_cl_issuer_revoke_credential(
     put_tail {:?}, rev_reg_delta_p {:?}", rev_reg, max_cred_num, rev_idx, ctx_tails, take_tail, put_tail, rev_reg_delta_p);
 
     check_useful_mut_c_reference!(rev_reg, RevocationRegistry, ErrorCode::CommonInvalidParam1);
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!(
         "ursa_cl_issuer_revoke_credential: entities: rev_reg: {:?}",
@@ -1941,6 +1943,7 @@ pub extern "C" fn ursa_cl_issuer_recovery_credential(
     put_tail {:?}, rev_reg_delta_p {:?}", rev_reg, max_cred_num, rev_idx, ctx_tails, take_tail, put_tail, rev_reg_delta_p);
 
     check_useful_mut_c_reference!(rev_reg, RevocationRegistry, ErrorCode::CommonInvalidParam1);
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!(
         "ursa_cl_issuer_recovery_credential: entities: rev_reg: {:?}",
@@ -1985,6 +1988,7 @@ pub extern "C" fn ursa_cl_issuer_merge_revocation_registry_deltas(
         RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam2
     );
+    check_useful_c_ptr!(merged_revoc_reg_delta_p, ErrorCode::CommonInvalidParam3);
 
     trace!("ursa_cl_issuer_merge_revocation_registry_deltas: entities: revoc_reg_delta: {:?}, other_revoc_reg_delta: {:?}",
            revoc_reg_delta, other_revoc_reg_delta);
diff --git a/libursa/src/ffi/cl/mod.rs b/libursa/src/ffi/cl/mod.rs
index 537e239..cd72fac 100644
--- a/libursa/src/ffi/cl/mod.rs
+++ b/libursa/src/ffi/cl/mod.rs
@@ -117,6 +117,7 @@ pub extern "C" fn ursa_cl_witness_new(
         RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam3
     );
+    check_useful_c_ptr!(witness_p, ErrorCode::CommonInvalidParam8);
 
     let rta = FFITailsAccessor::new(ctx_tails, take_tail, put_tail);
     let res = match Witness::new(
diff --git a/libursa/src/ffi/cl/prover.rs b/libursa/src/ffi/cl/prover.rs
index 36caaf8..14eb809 100644
--- a/libursa/src/ffi/cl/prover.rs
+++ b/libursa/src/ffi/cl/prover.rs
@@ -868,6 +868,7 @@ pub extern "C" fn ursa_cl_prover_get_credential_revocation_index(
         CredentialSignature,
         ErrorCode::CommonInvalidParam1
     );
+    check_useful_c_ptr!(cred_rev_indx, ErrorCode::CommonInvalidParam2);
 
     trace!(
         "ursa_cl_prover_get_credential_revocation_index: >>> credential_signature: {:?}",
-- 
2.43.0


From 130cb698bd1713f9947626c13b4fbaaa69264ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 02/34] fix: reject null elements in FFI arrays of handles

---
 libursa/src/utils/ctypes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libursa/src/utils/ctypes.rs b/libursa/src/utils/ctypes.rs
index d4f9a2c..37af647 100644
--- a/libursa/src/utils/ctypes.rs
+++ b/libursa/src/utils/ctypes.rs
@@ -113,7 +113,14 @@ macro_rules! check_useful_c_reference_array {
             return $err2;
         }
 
-        let $ptrs: Vec<&$type> = unsafe { slice::from_raw_parts($ptrs, $ptrs_len) }
+        let $ptrs = unsafe { slice::from_raw_parts($ptrs, $ptrs_len) };
+
+        if $ptrs.iter().any(|ptr| ptr.is_null()) {
+            set_current_error(&err_msg($err1.into(), "Invalid pointer has been passed"));
+            return $err1;
+        }
+
+        let $ptrs: Vec<&$type> = $ptrs
             .iter()
             .map(|ptr| unsafe { &*(*ptr as *const $type) })
             .collect();
-- 
2.43.0


From 1e9a165bb8c3d1264d135edc11906418afc444a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 03/34] fix: read and write revocation registry deltas, not
 signature correctness proofs, in the delta JSON functions

---
 libursa/src/ffi/cl/issuer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index ffdee40..e012c7e 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1687,7 +1687,7 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_to_json(
 
     check_useful_c_reference!(
         revocation_registry_delta,
-        SignatureCorrectnessProof,
+        RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam1
     );
     check_useful_c_ptr!(
@@ -1756,9 +1756,8 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_from_json(
         revocation_registry_delta_json
     );
 
-    let res = match serde_json::from_str::<SignatureCorrectnessProof>(
-        &revocation_registry_delta_json,
-    ) {
+    let res = match serde_json::from_str::<RevocationRegistryDelta>(&revocation_registry_delta_json)
+    {
         Ok(revocation_registry_delta) => {
             trace!(
                 "ursa_cl_revocation_registry_delta_from_json: revocation_registry_delta: {:?}",
-- 
2.43.0


From 8b543aae2b68a4216176d25ebdf7feb4e521e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 04/34] fix: return the merged delta from
 ursa_cl_issuer_merge_revocation_registry_deltas

---
 libursa/src/ffi/cl/issuer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index e012c7e..6c4103c 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1996,7 +1996,8 @@ pub extern "C" fn ursa_cl_issuer_merge_revocation_registry_deltas(
         Ok(_) => {
             trace!("ursa_cl_issuer_merge_revocation_registry_deltas: merged_revoc_reg_delta: ()");
             unsafe {
-                *merged_revoc_reg_delta_p = Box::into_raw(Box::new(())) as *const c_void;
+                *merged_revoc_reg_delta_p =
+                    Box::into_raw(Box::new(revoc_reg_delta.clone())) as *const c_void;
                 trace!("ursa_cl_issuer_merge_revocation_registry_deltas: *merged_revoc_reg_delta_p: {:?}", *merged_revoc_reg_delta_p);
             }
             ErrorCode::Success
-- 
2.43.0


From b52c17a511f00aa189264d3244a2b2aebfe06903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 05/34] fix: ursa_get_current_error does not store through a
 null pointer

---
 libursa/src/ffi/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libursa/src/ffi/mod.rs b/libursa/src/ffi/mod.rs
index 9a9a969..c6ad837 100644
--- a/libursa/src/ffi/mod.rs
+++ b/libursa/src/ffi/mod.rs
@@ -182,8 +182,10 @@ pub extern "C" fn ursa_get_current_error(error_json_p: *mut *const c_char) {
         error_json_p
     );
 
-    let error = get_current_error_c_json();
-    unsafe { *error_json_p = error };
+    if !error_json_p.is_null() {
+        let error = get_current_error_c_json();
+        unsafe { *error_json_p = error };
+    }
 
     trace!("ursa_get_current_error: <<<");
 }
-- 
2.43.0


From 725159f989d3545bed2ae05022563e1661cb0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 06/34] fix: decrypt accepts every ciphertext that encrypt
 produces

The length checks in decrypt and the declared minimum sizes were larger than
the shortest ciphertext, so short messages could be encrypted but not
decrypted.
---
 libursa/src/encryption/symm/aescbc.rs                | 2 +-
 libursa/src/encryption/symm/aescbc_asm.rs            | 2 +-
 libursa/src/encryption/symm/aesgcm.rs                | 6 +++---
 libursa/src/encryption/symm/aesgcm_asm.rs            | 6 +++---
 libursa/src/encryption/symm/chacha20poly1305.rs      | 4 ++--
 libursa/src/encryption/symm/chacha20poly1305_asm.rs  | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305.rs     | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305_asm.rs | 4 ++--
 8 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/libursa/src/encryption/symm/aescbc.rs b/libursa/src/encryption/symm/aescbc.rs
index ad12717..6d42617 100644
--- a/libursa/src/encryption/symm/aescbc.rs
+++ b/libursa/src/encryption/symm/aescbc.rs
@@ -72,7 +72,7 @@ macro_rules! aes_cbc_hmac_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + $algokeysize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aescbc_asm.rs b/libursa/src/encryption/symm/aescbc_asm.rs
index b95e2d8..20a89d6 100644
--- a/libursa/src/encryption/symm/aescbc_asm.rs
+++ b/libursa/src/encryption/symm/aescbc_asm.rs
@@ -76,7 +76,7 @@ macro_rules! aes_cbc_hmac_impl {
                 let payload = ciphertext.into();
                 let cipher = OpenSslCipher::$cipherid();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + cipher.key_len() {
+                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm.rs b/libursa/src/encryption/symm/aesgcm.rs
index 6c4c460..60ca833 100644
--- a/libursa/src/encryption/symm/aesgcm.rs
+++ b/libursa/src/encryption/symm/aesgcm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -19,7 +19,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -52,7 +52,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm_asm.rs b/libursa/src/encryption/symm/aesgcm_asm.rs
index 6471f28..b477c43 100644
--- a/libursa/src/encryption/symm/aesgcm_asm.rs
+++ b/libursa/src/encryption/symm/aesgcm_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -21,7 +21,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -65,7 +65,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/chacha20poly1305.rs b/libursa/src/encryption/symm/chacha20poly1305.rs
index 999788c..1c59b9c 100644
--- a/libursa/src/encryption/symm/chacha20poly1305.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U12, U16, U32, U36},
+        typenum::{U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/chacha20poly1305_asm.rs b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
index 5d9fdf0..ec0ce01 100644
--- a/libursa/src/encryption/symm/chacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32, U36},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305.rs b/libursa/src/encryption/symm/xchacha20poly1305.rs
index 930d224..a6dad06 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U16, U24, U32, U48},
+        typenum::{U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
index 92576f0..7c6df03 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U16, U24, U32, U48},
+        typenum::{Unsigned, U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
-- 
2.43.0


From 149e080c3867c1bba672a4d075dee691ada31b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 07/34] fix: decode PS proofs over the other group with that
 group's element size

---
 libzmix/src/signatures/ps/mod.rs     | 4 ++++
 libzmix/src/signatures/ps/pok_sig.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/ps/mod.rs b/libzmix/src/signatures/ps/mod.rs
index 0e93378..857dd2a 100644
--- a/libzmix/src/signatures/ps/mod.rs
+++ b/libzmix/src/signatures/ps/mod.rs
@@ -24,6 +24,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G2")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
+#[cfg(feature = "PS_Signature_G2")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
 
 #[cfg(feature = "PS_Signature_G1")]
 pub type SignatureGroup = amcl_wrapper::group_elem_g1::G1;
@@ -44,6 +46,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G1")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
+#[cfg(feature = "PS_Signature_G1")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
 
 pub mod blind_signature;
 pub mod errors;
diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index 99f415c..e7db392 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -7,7 +7,7 @@ use super::{ate_2_pairing, OtherGroup, OtherGroupVec};
 use crate::commitments::pok_vc::{PoKVCError, PoKVCErrorKind};
 use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
-use signatures::ps::{keys::Params, SIGNATURE_GROUP_SIZE};
+use signatures::ps::{keys::Params, OTHER_GROUP_SIZE};
 use std::collections::{HashMap, HashSet};
 
 // Implement proof of knowledge of committed values in a vector commitment for `SignatureGroup`
@@ -18,7 +18,7 @@ impl_PoK_VC!(
     ProofOtherGroup,
     OtherGroup,
     OtherGroupVec,
-    SIGNATURE_GROUP_SIZE
+    OTHER_GROUP_SIZE
 );
 
 /*
-- 
2.43.0


From 3d981ca9be579f4ef54f93f21149508ac42bc627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 08/34] fix: Share::to_bytes appends the share value instead of
 calling itself

---
 ursa_sharing/src/shamir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ursa_sharing/src/shamir.rs b/ursa_sharing/src/shamir.rs
index 9ce63cc..3e789d7 100644
--- a/ursa_sharing/src/shamir.rs
+++ b/ursa_sharing/src/shamir.rs
@@ -43,7 +43,7 @@ impl Share {
     /// The identifier is the first 4 bytes
     pub fn to_bytes(&self) -> Vec<u8> {
         let mut o = self.identifier.to_be_bytes().to_vec();
-        o.append(&mut self.to_bytes());
+        o.extend_from_slice(&self.value);
         o
     }
 
-- 
2.43.0


From a4a61822610305b33c17e7d3cf5c5f4670828943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 09/34] fix: verifier set decoding reads every commitment and
 rejects truncated input

---
 ursa_sharing/src/feldman.rs  | 11 +++++++++--
 ursa_sharing/src/pedersen.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 89c64db..8cb672f 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -175,15 +175,22 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for FeldmanVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
-        let mut commitments = Vec::with_capacity(cs);
         offset = end;
-        end += R::Size::to_usize();
+        if (value.len() - offset) / R::Size::to_usize() < cs {
+            return Err(SharingError::PedersenVerifierMinSize(
+                offset + R::Size::to_usize() * cs,
+                value.len(),
+            ));
+        }
+        let mut commitments = Vec::with_capacity(cs);
         for _ in 0..cs {
+            end = offset + R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
                 phantom: PhantomData,
             });
+            offset = end;
         }
         Ok(Self { g, commitments })
     }
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index f22ae4b..764c456 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -207,15 +207,22 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for PedersenVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
-        let mut commitments = Vec::with_capacity(cs);
         offset = end;
-        end += R::Size::to_usize();
+        if (value.len() - offset) / R::Size::to_usize() < cs {
+            return Err(SharingError::PedersenVerifierMinSize(
+                offset + R::Size::to_usize() * cs,
+                value.len(),
+            ));
+        }
+        let mut commitments = Vec::with_capacity(cs);
         for _ in 0..cs {
+            end = offset + R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
             commitments.push(ShareVerifier {
                 value: c,
                 phantom: PhantomData,
             });
+            offset = end;
         }
         Ok(Self { g, h, commitments })
     }
-- 
2.43.0


From e16daaa9be0a2160931f500326ef07cdd87f988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 10/34] fix: BBS+ types decode byte strings that the serializer
 presents as a sequence

---
 libzmix/bbs/src/macros.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libzmix/bbs/src/macros.rs b/libzmix/bbs/src/macros.rs
index d15354a..51d5fe7 100644
--- a/libzmix/bbs/src/macros.rs
+++ b/libzmix/bbs/src/macros.rs
@@ -218,6 +218,18 @@ macro_rules! serdes_impl {
                             DError::invalid_value(serde::de::Unexpected::Bytes(value), &self)
                         })
                     }
+
+                    // formats without a byte string type (such as JSON) carry bytes as a sequence
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$name, A::Error>
+                    where
+                        A: serde::de::SeqAccess<'a>,
+                    {
+                        let mut value = Vec::new();
+                        while let Some(b) = seq.next_element::<u8>()? {
+                            value.push(b);
+                        }
+                        self.visit_bytes(value.as_slice())
+                    }
                 }
 
                 deserializer.deserialize_bytes(DeserializeVisitor)
-- 
2.43.0


From 7ee7ae387966985f164f63ff5fab2244441c437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 11/34] fix: secp256k1 scheme serializes its name instead of
 calling itself

---
 libursa/src/signatures/secp256k1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index e68d5ec..d7c9855 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -78,7 +78,7 @@ impl Serialize for EcdsaSecp256k1Sha256 {
     where
         S: Serializer,
     {
-        serializer.serialize_newtype_struct("EcdsaSecp256k1Sha256", &self)
+        serializer.serialize_newtype_struct("EcdsaSecp256k1Sha256", "EcdsaSecp256k1Sha256")
     }
 }
 
-- 
2.43.0


From 19fe7e430cbc186dd611b000e240171963d76172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 12/34] fix: CL verifier rejects a missing non-revocation proof
 when revocation is requested

---
 libursa/src/cl/verifier.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index ea47cc2..08c1235 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -229,17 +229,22 @@ impl ProofVerifier {
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
             let credential = &self.credentials[idx];
-            if let (
-                Some(non_revocation_proof),
-                Some(cred_rev_pub_key),
-                Some(rev_reg),
-                Some(rev_key_pub),
-            ) = (
-                proof_item.non_revoc_proof.as_ref(),
-                credential.pub_key.r_key.as_ref(),
-                credential.rev_reg.as_ref(),
-                credential.rev_key_pub.as_ref(),
-            ) {
+            if let (Some(rev_reg), Some(rev_key_pub)) =
+                (credential.rev_reg.as_ref(), credential.rev_key_pub.as_ref())
+            {
+                let cred_rev_pub_key = credential.pub_key.r_key.as_ref().ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::ProofRejected,
+                        "Issuer public key does not support revocation",
+                    )
+                })?;
+                let non_revocation_proof =
+                    proof_item.non_revoc_proof.as_ref().ok_or_else(|| {
+                        err_msg(
+                            UrsaCryptoErrorKind::ProofRejected,
+                            "Non-revocation proof is required",
+                        )
+                    })?;
                 tau_list.extend_from_slice(
                     &ProofVerifier::_verify_non_revocation_proof(
                         &cred_rev_pub_key,
-- 
2.43.0


From 63a8fa304373377617b470a69b676d4ce9bedf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 13/34] fix: CL verifier binds predicates to the presented
 credential's attribute

---
 libursa/src/cl/verifier.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 08c1235..3c7ed3a 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -394,6 +394,19 @@ impl ProofVerifier {
                 ));
             }
 
+            if proof_for_credential
+                .primary_proof
+                .eq_proof
+                .m
+                .keys()
+                .any(|attr| proof_revealed_attrs.contains(attr))
+            {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    "Proof contains a blinded value for a revealed attribute",
+                ));
+            }
+
             let proof_predicates = proof_for_credential
                 .primary_proof
                 .ne_proofs
@@ -435,6 +448,17 @@ impl ProofVerifier {
         )?;
 
         for ne_proof in primary_proof.ne_proofs.iter() {
+            // The predicate must be about the attribute of the presented credential
+            if primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name) != Some(&ne_proof.mj) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    format!(
+                        "Blinded value for predicate attribute '{}' differs from proof.m",
+                        ne_proof.predicate.attr_name
+                    ),
+                ));
+            }
+
             t_hat.append(&mut ProofVerifier::_verify_ne_predicate(
                 p_pub_key, ne_proof, c_hash,
             )?)
-- 
2.43.0


From 33da51e3cc201838b752c8b30cd66585a2c6e86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 14/34] fix: CL verifier hashes only the commitments of the sub
 proofs

---
 libursa/src/cl/verifier.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 3c7ed3a..5c2d54c 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -225,6 +225,7 @@ impl ProofVerifier {
         ProofVerifier::_check_verify_params_consistency(&self.credentials, proof)?;
 
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
+        let mut c_list: Vec<Vec<u8>> = Vec::new();
 
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
@@ -255,6 +256,7 @@ impl ProofVerifier {
                     )?
                     .as_slice()?,
                 );
+                c_list.extend_from_slice(&non_revocation_proof.c_list.as_list()?);
             };
 
             // Check that `m_hat`s of all common attributes are same. Also `m_hat` for each common attribute must be present in each sub proof
@@ -306,6 +308,17 @@ impl ProofVerifier {
                 &credential.non_credential_schema,
                 &credential.sub_proof_request,
             )?)?;
+            c_list.extend_from_slice(&ProofVerifier::_primary_proof_commitments(
+                &proof_item.primary_proof,
+            )?);
+        }
+
+        // The hashed commitments must be the ones the equations were computed with
+        if c_list != proof.aggregated_proof.c_list {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Aggregated commitments do not correspond to the sub proofs",
+            ));
         }
 
         let mut values: Vec<Vec<u8>> = Vec::new();
@@ -472,6 +485,27 @@ impl ProofVerifier {
         Ok(t_hat)
     }
 
+    fn _primary_proof_commitments(primary_proof: &PrimaryProof) -> UrsaCryptoResult<Vec<Vec<u8>>> {
+        let mut c_list = vec![primary_proof.eq_proof.a_prime.to_bytes()?];
+
+        for ne_proof in primary_proof.ne_proofs.iter() {
+            for key in (0..ITERATION)
+                .map(|i| i.to_string())
+                .chain(std::iter::once("DELTA".to_string()))
+            {
+                let t = ne_proof.t.get(&key).ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::ProofRejected,
+                        format!("Value by key '{}' not found in proof.t", key),
+                    )
+                })?;
+                c_list.push(t.to_bytes()?);
+            }
+        }
+
+        Ok(c_list)
+    }
+
     fn _verify_equality(
         p_pub_key: &CredentialPrimaryPublicKey,
         proof: &PrimaryEqualProof,
-- 
2.43.0


From 2c97b0dd074daee5cf75ae02cda84743e2f45c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 15/34] fix: malformed blinded secrets proofs are refused with
 an error

---
 libursa/src/cl/issuer.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 086f309..6a437f4 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1045,7 +1045,15 @@ impl Issuer {
                         format!("Value by key '{}' not found in cred_pr_pub_key.r", attr),
                     )
                 })?;
-                let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[attr];
+                let m_cap = blinded_cred_secrets_correctness_proof
+                    .m_caps
+                    .get(attr)
+                    .ok_or_else(|| {
+                        err_msg(
+                            UrsaCryptoErrorKind::InvalidStructure,
+                            format!("Value by key '{}' not found in m_caps", attr),
+                        )
+                    })?;
                 acc?.mod_mul(
                     &pk_r.mod_exp(&m_cap, &cred_pr_pub_key.n, Some(&mut ctx))?,
                     &cred_pr_pub_key.n,
@@ -1055,7 +1063,24 @@ impl Issuer {
         )?;
 
         for (key, value) in &blinded_cred_secrets.committed_attributes {
-            let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[key];
+            let m_cap = blinded_cred_secrets_correctness_proof
+                .m_caps
+                .get(key)
+                .ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::InvalidStructure,
+                        format!("Value by key '{}' not found in m_caps", key),
+                    )
+                })?;
+            let r_cap = blinded_cred_secrets_correctness_proof
+                .r_caps
+                .get(key)
+                .ok_or_else(|| {
+                    err_msg(
+                        UrsaCryptoErrorKind::InvalidStructure,
+                        format!("Value by key '{}' not found in r_caps", key),
+                    )
+                })?;
             let comm_att_cap = value
                 .inverse(&cred_pr_pub_key.n, Some(&mut ctx))?
                 .mod_exp(
@@ -1068,7 +1093,7 @@ impl Issuer {
                         &cred_pr_pub_key.z,
                         &m_cap,
                         &cred_pr_pub_key.s,
-                        &blinded_cred_secrets_correctness_proof.r_caps[key],
+                        &r_cap,
                         &cred_pr_pub_key.n,
                         &mut ctx,
                     )?,
-- 
2.43.0


From 16b55fe094632e81fef2bedccd6bf1e1923e4721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 16/34] fix: revocation indices outside the registry are
 refused

---
 libursa/src/cl/helpers.rs | 11 +++++++++++
 libursa/src/cl/issuer.rs  | 23 +++++++++++++----------
 libursa/src/cl/mod.rs     | 15 ++++++++++++++-
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index cfc03e2..8b44a88 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -312,6 +312,17 @@ pub fn get_mtilde<S: ::std::hash::BuildHasher>(
     Ok(())
 }
 
+/// Revocation indices of a registry for `max_cred_num` credentials are 1..=max_cred_num
+pub fn check_rev_idx(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<()> {
+    if rev_idx == 0 || rev_idx > max_cred_num {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Revocation index is outside the registry",
+        ));
+    }
+    Ok(())
+}
+
 pub fn calc_teq<S: ::std::hash::BuildHasher>(
     p_pub_key: &CredentialPrimaryPublicKey,
     a_prime: &BigNumber,
diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 6a437f4..96b07a6 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -537,7 +537,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.sub(tail).unwrap();
@@ -638,7 +638,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.add(tail).unwrap();
@@ -743,18 +743,20 @@ impl Issuer {
         );
 
         let prev_acc = rev_reg.accum;
+        let mut accum = prev_acc;
         for rev_idx in issued.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.add(tail).unwrap()
+                accum = accum.add(tail).unwrap()
             })?;
         }
         for rev_idx in revoked.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.sub(tail).unwrap()
+                accum = accum.sub(tail).unwrap()
             })?;
         }
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_acc),
@@ -959,7 +961,7 @@ impl Issuer {
 
         if issuance_by_default {
             for i in 1..=max_cred_num {
-                let index = Issuer::_get_index(max_cred_num, i);
+                let index = Issuer::_get_index(max_cred_num, i)?;
                 accum = accum.add(&Tail::new_tail(
                     index,
                     &cred_rev_pub_key.g_dash,
@@ -1317,8 +1319,9 @@ impl Issuer {
         Ok(signature_correctness_proof)
     }
 
-    fn _get_index(max_cred_num: u32, rev_idx: u32) -> u32 {
-        max_cred_num + 1 - rev_idx
+    fn _get_index(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<u32> {
+        check_rev_idx(max_cred_num, rev_idx)?;
+        Ok(max_cred_num + 1 - rev_idx)
     }
 
     fn _new_non_revocation_credential(
@@ -1398,7 +1401,7 @@ impl Issuer {
                     &transform_u32_to_array_of_u8(rev_idx),
                 )?)?)?;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         let rev_reg_delta = if issuance_by_default {
             None
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index df7c573..89ff201 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -580,7 +580,13 @@ pub struct SimpleTailsAccessor {
 
 impl RevocationTailsAccessor for SimpleTailsAccessor {
     fn access_tail(&self, tail_id: u32, accessor: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()> {
-        accessor(&self.tails[tail_id as usize]);
+        let tail = self.tails.get(tail_id as usize).ok_or_else(|| {
+            err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("Tail {} not found", tail_id),
+            )
+        })?;
+        accessor(tail);
         Ok(())
     }
 }
@@ -688,6 +694,8 @@ impl Witness {
         trace!("Witness::new: >>> rev_idx: {:?}, max_cred_num: {:?}, issuance_by_default: {:?}, rev_reg_delta: {:?}",
                rev_idx, max_cred_num, issuance_by_default, rev_reg_delta);
 
+        helpers::check_rev_idx(max_cred_num, rev_idx)?;
+
         let mut omega = PointG2::new_inf()?;
 
         let mut issued = if issuance_by_default {
@@ -700,6 +708,7 @@ impl Witness {
 
         issued.remove(&rev_idx);
         for j in issued.iter() {
+            helpers::check_rev_idx(max_cred_num, *j)?;
             let index = max_cred_num + 1 - j + rev_idx;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega = omega.add(tail).unwrap();
@@ -730,12 +739,15 @@ impl Witness {
             rev_reg_delta
         );
 
+        helpers::check_rev_idx(max_cred_num, rev_idx)?;
+
         let mut omega_denom = PointG2::new_inf()?;
         for j in rev_reg_delta.revoked.iter() {
             if rev_idx.eq(j) {
                 continue;
             }
 
+            helpers::check_rev_idx(max_cred_num, *j)?;
             let index = max_cred_num + 1 - j + rev_idx;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_denom = omega_denom.add(tail).unwrap();
@@ -748,6 +760,7 @@ impl Witness {
                 continue;
             }
 
+            helpers::check_rev_idx(max_cred_num, *j)?;
             let index = max_cred_num + 1 - j + rev_idx;
             rev_tails_accessor.access_tail(index, &mut |tail| {
                 omega_num = omega_num.add(tail).unwrap();
-- 
2.43.0


From 5bc0a2ea124b8d700bc16b70389660d09b1e9405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 17/34] fix: strict predicate bounds do not wrap around

---
 libursa/src/cl/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index 89ff201..59fb91c 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -964,9 +964,9 @@ impl Predicate {
     pub fn get_delta_prime(&self) -> UrsaCryptoResult<BigNumber> {
         match self.p_type {
             PredicateType::GE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::GT => BigNumber::from_dec(&(self.value + 1).to_string()),
+            PredicateType::GT => BigNumber::from_dec(&(i64::from(self.value) + 1).to_string()),
             PredicateType::LE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::LT => BigNumber::from_dec(&(self.value - 1).to_string()),
+            PredicateType::LT => BigNumber::from_dec(&(i64::from(self.value) - 1).to_string()),
         }
     }
 
-- 
2.43.0


From e4653c64f8fd21741a69abc22b7f5c069dfd872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 18/34] fix: x25519 refuses keys of the wrong length

---
 libursa/src/kex/x25519.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libursa/src/kex/x25519.rs b/libursa/src/kex/x25519.rs
index 0ddd5ae..321a807 100644
--- a/libursa/src/kex/x25519.rs
+++ b/libursa/src/kex/x25519.rs
@@ -30,6 +30,11 @@ impl KeyExchangeScheme for X25519Sha256 {
                     (pk, sk)
                 }
                 KeyGenOption::FromSecretKey(ref s) => {
+                    if s.len() != Self::private_key_size() {
+                        return Err(CryptoError::ParseError(
+                            "Invalid private key length".to_string(),
+                        ));
+                    }
                     let sk = StaticSecret::from(*array_ref!(&s[..], 0, 32));
                     let pk = X25519PublicKey::from(&sk);
                     (pk, sk)
@@ -53,6 +58,16 @@ impl KeyExchangeScheme for X25519Sha256 {
         local_private_key: &PrivateKey,
         remote_public_key: &PublicKey,
     ) -> Result<SessionKey, CryptoError> {
+        if local_private_key.len() != Self::private_key_size() {
+            return Err(CryptoError::ParseError(
+                "Invalid private key length".to_string(),
+            ));
+        }
+        if remote_public_key.len() != Self::public_key_size() {
+            return Err(CryptoError::ParseError(
+                "Invalid public key length".to_string(),
+            ));
+        }
         let sk = StaticSecret::from(*array_ref!(&local_private_key[..], 0, 32));
         let pk = X25519PublicKey::from(*array_ref!(&remote_public_key[..], 0, 32));
         let shared_secret = sk.diffie_hellman(&pk);
-- 
2.43.0


From f2e1b4c9bf312480b5668649bdefb433b51eccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 19/34] fix: secp256k1 key generation refuses short seeds

---
 libursa/src/kex/secp256k1.rs        | 6 ++++++
 libursa/src/signatures/secp256k1.rs | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/libursa/src/kex/secp256k1.rs b/libursa/src/kex/secp256k1.rs
index 33105b5..6937eff 100644
--- a/libursa/src/kex/secp256k1.rs
+++ b/libursa/src/kex/secp256k1.rs
@@ -69,6 +69,9 @@ mod ecdh_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError("Seed is too short".to_string()));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
@@ -150,6 +153,9 @@ mod ecdh_secp256k1 {
             match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < PRIVATE_KEY_SIZE {
+                            return Err(CryptoError::KeyGenError("Seed is too short".to_string()));
+                        }
                         let mut rng =
                             ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, PRIVATE_KEY_SIZE));
                         seed.zeroize();
diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index d7c9855..99af3d0 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -148,6 +148,9 @@ mod ecdsa_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError("Seed is too short".to_string()));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
-- 
2.43.0


From 5220d84b13b05ed9de6a7cd0a8aacff36d4f3832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 20/34] fix: batched chain verification weights every equation
 of even links with its own randomiser

---
 libzmix/src/signatures/delg_cred_cdd/groth_sig.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 1b7c67b..921321b 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -492,7 +492,7 @@ impl Groth2Sig {
             temp.push(var_time_mul_scl_mul_with_same_field_element!(
                 G1,
                 G1LookupTable,
-                r_vec[i + 1],
+                r_vec[r_vec_offset + i + 1],
                 &setup_params.g1,
                 &verkey.0,
                 &negR
-- 
2.43.0


From 73e799c69fa25850447cdb52aac7a4f6cde2b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:30 +0000
Subject: [PATCH 21/34] fix: delegation chains of inconsistent shape are
 refused with an error

---
 .../src/signatures/delg_cred_cdd/groth_sig.rs | 28 ++++++++++++++++
 .../src/signatures/delg_cred_cdd/issuer.rs    | 32 ++++++++++++++++---
 2 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 921321b..8d04676 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -211,6 +211,13 @@ impl Groth1Sig {
             }
             .into());
         }
+        if messages.len() > self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(S, R) == e(y_0, g2) * (g1, V) => e(y_0, g2) * (g1, V) * e(S, R)^-1 == 1 => e(y_0, g2) * (g1, V) * e(S^-1, R) == 1
         let negS = self.S.negation();
@@ -262,6 +269,13 @@ impl Groth1Sig {
             }
             .into());
         }
+        if messages.len() > self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
@@ -383,6 +397,13 @@ impl Groth2Sig {
             }
             .into());
         }
+        if messages.len() > self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         // e(R, S) == e(g1, y_0) * (V, g2) => 1 == e(g1, y_0) * (V, g2) * e(R, S)^-1 => 1 == e(g1, y_0) * (V, g2) * e(R^-1, S)
         let negR = self.R.negation();
@@ -433,6 +454,13 @@ impl Groth2Sig {
             }
             .into());
         }
+        if messages.len() > self.T.len() {
+            return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                expected: self.T.len(),
+                given: messages.len(),
+            }
+            .into());
+        }
 
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index 7b3229e..b455dcd 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -30,7 +30,7 @@ macro_rules! impl_CredLink {
             }
 
             pub fn has_verkey(&self, vk: &$delegatee_vk) -> bool {
-                self.attributes[self.attributes.len() - 1] == vk.0
+                self.attributes.len() > 0 && self.attributes[self.attributes.len() - 1] == vk.0
             }
 
             /// Check that link correct number of attributes, has the delegatee's verkey and has
@@ -59,6 +59,13 @@ macro_rules! impl_CredLink {
                     }
                     .into());
                 }
+                if self.attributes.len() > self.signature.T.len() {
+                    return Err(DelgCredCDDErrorKind::UnsupportedNoOfMessages {
+                        expected: self.signature.T.len(),
+                        given: self.attributes.len(),
+                    }
+                    .into());
+                }
                 if !self.has_verkey(delegatee_vk) {
                     return Err(DelgCredCDDErrorKind::VerkeyNotFoundInDelegationLink {}.into());
                 }
@@ -199,7 +206,7 @@ impl CredChain {
             }
             .into());
         } else if self.odd_size() != 0
-            && ((link.level - self.odd_links[self.odd_size() - 1].level) != 2)
+            && link.level != self.odd_links[self.odd_size() - 1].level + 2
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.odd_links[self.odd_size() - 1].level + 2,
@@ -222,7 +229,7 @@ impl CredChain {
             }
             .into());
         } else if self.even_size() != 0
-            && ((link.level - self.even_links[self.even_size() - 1].level) != 2)
+            && link.level != self.even_links[self.even_size() - 1].level + 2
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.even_links[self.even_size() - 1].level + 2,
@@ -408,11 +415,11 @@ impl CredChain {
         let mut new_chain = CredChain::new();
         for i in 1..=size {
             if (i % 2) == 1 {
-                new_chain.odd_links.push(self.odd_links[i / 2].clone());
+                new_chain.odd_links.push(self.get_odd_link(i / 2)?.clone());
             } else {
                 new_chain
                     .even_links
-                    .push(self.even_links[(i / 2) - 1].clone());
+                    .push(self.get_even_link((i / 2) - 1)?.clone());
             }
         }
         Ok(new_chain)
@@ -428,6 +435,21 @@ impl CredChain {
         if size == 0 {
             return Err(DelgCredCDDErrorKind::ChainEmpty {}.into());
         }
+        // Levels alternate, starting with an odd link
+        if self.even_size() < size / 2 {
+            return Err(DelgCredCDDErrorKind::NoEvenLinkInChainAtGivenIndex {
+                given_index: self.even_size(),
+                size: self.even_size(),
+            }
+            .into());
+        }
+        if self.even_size() > size / 2 {
+            return Err(DelgCredCDDErrorKind::NoOddLinkInChainAtGivenIndex {
+                given_index: self.odd_size(),
+                size: self.odd_size(),
+            }
+            .into());
+        }
         if (even_level_vks.len() + odd_level_vks.len()) != (size + 1) {
             return Err(DelgCredCDDErrorKind::IncorrectNumberOfVerkeys {
                 expected: size + 1,
-- 
2.43.0


From 1ef118fd07c9090597ad7f6b5b6329a6026265d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 22/34] fix: PS proof verification refuses out-of-range message
 indices

---
 libzmix/src/signatures/ps/pok_sig.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index e7db392..d06c680 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -185,12 +185,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<FieldElement, PSError> {
         // 1 element in self.proof_vc.responses is reserved for the random `t`
-        if msg_idx >= (self.proof_vc.responses.len() - 1) {
+        if msg_idx + 1 >= self.proof_vc.responses.len() {
             return Err(PSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
                     msg_idx,
-                    self.proof_vc.responses.len() - 1
+                    self.proof_vc.responses.len().saturating_sub(1)
                 ),
             }
             .into());
@@ -211,6 +211,15 @@ impl PoKOfSignatureProof {
             return Ok(false);
         }
 
+        for idx in revealed_msgs.keys() {
+            if *idx >= vk.Y_tilde.len() {
+                return Err(PSErrorKind::GeneralError {
+                    msg: format!("Index {} should be less than {}", idx, vk.Y_tilde.len()),
+                }
+                .into());
+            }
+        }
+
         // +1 for `t`
         let hidden_msg_count = vk.Y_tilde.len() - revealed_msgs.len() + 1;
         let mut bases = OtherGroupVec::with_capacity(hidden_msg_count);
-- 
2.43.0


From 7c16612aa104e1a9395f2802b3fb36c3c47ba88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 23/34] fix: the verifiable encryption verifier refuses
 ciphertexts that decryption would refuse

---
 .../cs_verifiable_encryption.rs               | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index 0a85479..bc85c89 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -354,12 +354,31 @@ pub fn reconstruct_blindings_ciphertext(
         ));
     }
 
+    if message_s_values.len() != ciphertext.e.len() {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!(
+                "number of messages {} is different from the number of ciphertexts {}",
+                message_s_values.len(),
+                ciphertext.e.len()
+            ),
+        ));
+    }
+
     let challenge = &(challenge.lshift1()?);
     let r_hat = &(r_hat.lshift1()?);
 
     let paillier_group = &pub_key.paillier_group;
     let mut ctx = BigNumber::new_context()?;
 
+    // Check if abs(v) == v, decryption refuses any other v
+    if ciphertext.v != paillier_group.abs(&ciphertext.v, Some(&mut ctx))? {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!("absolute check failed for v {:?}", &ciphertext.v),
+        ));
+    }
+
     let u_c = paillier_group.exponentiate(&ciphertext.u, challenge, Some(&mut ctx))?;
     let g_r_hat = paillier_group.exponentiate_g(r_hat, Some(&mut ctx))?;
     // Reconstruct u blinding
-- 
2.43.0


From d9c36f6ba8b37c12aa05dcef14d8f51938b52825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 24/34] fix: BBS+ proofs reveal exactly the requested messages

---
 libzmix/bbs/src/verifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 03d6325..88b10c4 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -46,6 +46,16 @@ impl Verifier {
         signature_proof: &SignatureProof,
         nonce: &ProofNonce,
     ) -> Result<Vec<SignatureMessage>, BBSError> {
+        if !signature_proof
+            .revealed_messages
+            .keys()
+            .eq(proof_request.revealed_messages.iter())
+        {
+            return Err(BBSErrorKind::InvalidProof {
+                status: PoKOfSignatureProofStatus::BadRevealedMessage,
+            }
+            .into());
+        }
         let mut challenge_bytes = signature_proof.proof.get_bytes_for_challenge(
             proof_request.revealed_messages.clone(),
             &proof_request.verification_key,
-- 
2.43.0


From 0b397b9fd14d3dc3bb436f6a1984ba56a105f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 25/34] fix: BBS+ message indices outside the key are refused

---
 libzmix/bbs/src/pok_sig.rs   | 6 +++---
 libzmix/bbs/src/prover.rs    | 2 +-
 libzmix/bbs/src/signature.rs | 3 +++
 libzmix/bbs/src/verifier.rs  | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index d69aef2..ae23a0d 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -325,12 +325,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<SignatureMessage, BBSError> {
         // 2 elements in self.proof_vc_2.responses are reserved for `&signature.e` and `r2`
-        if msg_idx >= (self.proof_vc_2.responses.len() - 2) {
+        let message_count = self.proof_vc_2.responses.len().saturating_sub(2);
+        if msg_idx >= message_count {
             return Err(BBSError::from_kind(BBSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc_2.responses.len() - 2
+                    msg_idx, message_count
                 ),
             }));
         }
diff --git a/libzmix/bbs/src/prover.rs b/libzmix/bbs/src/prover.rs
index 23c3f62..ace9a9d 100644
--- a/libzmix/bbs/src/prover.rs
+++ b/libzmix/bbs/src/prover.rs
@@ -46,7 +46,7 @@ impl Prover {
         let mut secrets = Vec::new();
         secrets.push(SignatureMessage(blinding_factor.0));
         for (i, m) in messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
diff --git a/libzmix/bbs/src/signature.rs b/libzmix/bbs/src/signature.rs
index 3b130d2..c9fb7b5 100644
--- a/libzmix/bbs/src/signature.rs
+++ b/libzmix/bbs/src/signature.rs
@@ -160,6 +160,9 @@ impl BlindSignature {
             verkey.message_count(),
             messages.len()
         );
+        for i in messages.keys() {
+            check_verkey_message!(*i >= verkey.message_count(), verkey.message_count(), *i);
+        }
         signkey.validate()?;
         verkey.validate()?;
         let e = rand_non_zero_fr();
diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 88b10c4..6c27902 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -26,7 +26,7 @@ impl Verifier {
             .copied()
             .collect::<BTreeSet<usize>>();
         for i in &revealed_messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
-- 
2.43.0


From 2843d60ca19cbb03a99aa773840d917a961c811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 26/34] fix: BBS+ decoders refuse truncated and inconsistent
 inputs

---
 libzmix/bbs/src/keys.rs    |  7 +++++--
 libzmix/bbs/src/lib.rs     | 15 ++++++++++++++-
 libzmix/bbs/src/pok_sig.rs |  7 +++++--
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/libzmix/bbs/src/keys.rs b/libzmix/bbs/src/keys.rs
index 9892628..8c8f5c9 100644
--- a/libzmix/bbs/src/keys.rs
+++ b/libzmix/bbs/src/keys.rs
@@ -124,7 +124,7 @@ impl PublicKey {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if (data.len() - 4) % g1_size != 0 {
+        if data.len() < 4 || (data.len() - 4) % g1_size != 0 {
             return Err(BBSErrorKind::MalformedPublicKey.into());
         }
         let mut c = Cursor::new(data);
@@ -132,9 +132,12 @@ impl PublicKey {
         let h0 = GeneratorG1(G1::deserialize(&mut c, compressed)?);
 
         let mut h_bytes = [0u8; 4];
-        c.read_exact(&mut h_bytes).unwrap();
+        c.read_exact(&mut h_bytes)?;
 
         let h_size = u32::from_be_bytes(h_bytes) as usize;
+        if h_size > data.len() / g1_size {
+            return Err(BBSErrorKind::MalformedPublicKey.into());
+        }
         let mut h = Vec::with_capacity(h_size);
         for _ in 0..h_size {
             let p = GeneratorG1(G1::deserialize(&mut c, compressed)?);
diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index b18381e..6fe49e5 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -553,6 +553,9 @@ impl ProofRequest {
         }
         let bitvector_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize;
         let offset = 4 + bitvector_len;
+        if data.len() < offset {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(offset, data.len()).into());
+        }
         let revealed_messages = bitvector_to_revealed(&data[4..offset]);
         let verification_key = PublicKey::from_bytes(&data[offset..], g1_size, compressed)?;
         Ok(Self {
@@ -647,6 +650,9 @@ impl SignatureProof {
         }
 
         let proof_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize + 4;
+        if data.len() < proof_len + 4 {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(proof_len + 4, data.len()).into());
+        }
         let proof = PoKOfSignatureProof::from_bytes(&data[4..proof_len], g1_size, compressed)?;
 
         let mut offset = proof_len;
@@ -656,12 +662,19 @@ impl SignatureProof {
 
         let mut revealed_messages = BTreeMap::new();
         for _ in 0..revealed_messages_len {
+            if data.len() < end + FR_COMPRESSED_SIZE {
+                return Err(BBSErrorKind::InvalidNumberOfBytes(
+                    end + FR_COMPRESSED_SIZE,
+                    data.len(),
+                )
+                .into());
+            }
             let i = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
 
             offset = end;
             end = offset + FR_COMPRESSED_SIZE;
 
-            let m = SignatureMessage::from(array_ref![data, offset, FR_COMPRESSED_SIZE]);
+            let m = SignatureMessage::try_from(&data[offset..end])?;
 
             offset = end;
             end = offset + 4;
diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index ae23a0d..a7ed62a 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -450,9 +450,9 @@ impl PoKOfSignatureProof {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if data.len() < g1_size * 3 {
+        if data.len() < g1_size * 3 + 4 {
             return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
-                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3),
+                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3 + 4),
             }));
         }
         let mut c = Cursor::new(data);
@@ -474,6 +474,9 @@ impl PoKOfSignatureProof {
 
         offset = end;
         end = offset + proof1_bytes;
+        if data.len() < end {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(end, data.len()).into());
+        }
         let proof_vc_1 = ProofG1::from_bytes(&data[offset..end], g1_size, compressed)?;
 
         let proof_vc_2 = ProofG1::from_bytes(&data[end..], g1_size, compressed)?;
-- 
2.43.0


From 72395a41b5bd5c1bb9056a14198c81b1a01930ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 27/34] fix: verifiable shares need a non-zero, matching
 identifier and a full set of commitments

---
 ursa_sharing/src/feldman.rs  | 3 +++
 ursa_sharing/src/pedersen.rs | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 8cb672f..f45fb01 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -81,6 +81,9 @@ impl Scheme {
         if verifier.commitments.len() < self.threshold {
             return Err(SharingError::ShareMinThreshold);
         }
+        if share.identifier == 0 {
+            return Err(SharingError::ShareInvalidIdentifier);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index 764c456..1beac04 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -95,6 +95,15 @@ impl Scheme {
         blind_share: &ShamirShare,
         verifier: &PedersenVerifier<S, R>,
     ) -> SharingResult<()> {
+        if verifier.commitments.len() < self.threshold {
+            return Err(SharingError::ShareMinThreshold);
+        }
+        if share.identifier == 0 {
+            return Err(SharingError::ShareInvalidIdentifier);
+        }
+        if share.identifier != blind_share.identifier {
+            return Err(SharingError::PedersenBlindShareInvalid);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
-- 
2.43.0


From d066e82f8fdf98a220298651a03824fb86b32d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 28/34] fix: Shamir shares outside the field are refused

---
 libursa/src/sharing/shamir.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index ecd3570..9377253 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -233,6 +233,11 @@ impl Share {
     /// Convert a share from bytes, assumes the last byte is the identifier
     pub fn from_bytes<B: AsRef<[u8]>>(data: B, modulus: &BigNumber) -> CryptoResult<Self> {
         let data = data.as_ref();
+        if data.is_empty() {
+            return Err(CryptoError::GeneralError(
+                "share cannot be empty".to_string(),
+            ));
+        }
         let value = BigNumber::from_bytes(&data[..(data.len() - 1)])?.modulus(modulus, None)?;
         let identifier = data[data.len() - 1];
         Ok(Self { identifier, value })
@@ -283,6 +288,11 @@ pub fn split_secret<B: AsRef<[u8]>>(
             "field must be greater than 1".to_string(),
         ));
     }
+    if field <= &BigNumber::from_u32(total as usize)? {
+        return Err(CryptoError::GeneralError(
+            "field must be greater than the total number of shares".to_string(),
+        ));
+    }
     let element = Element {
         modulus: field.try_clone()?,
         value: BigNumber::from_bytes(secret)?,
@@ -339,6 +349,11 @@ pub fn combine_shares<B: AsRef<[Share]>>(shares: B, field: &BigNumber) -> Crypto
                 "Share must have a non-zero identifier".to_string(),
             ));
         }
+        if &share.value >= field || &BigNumber::from_u32(share.identifier as usize)? >= field {
+            return Err(CryptoError::GeneralError(
+                "Share must be within the field".to_string(),
+            ));
+        }
         if dups.contains(&share.identifier) {
             return Err(CryptoError::GeneralError(
                 "Duplicate shares cannot be used to reconstruct the secret".to_string(),
-- 
2.43.0


From dbeb45c44d611a912483988bd9e5620514fe017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 29/34] fix: inner product proofs of inconsistent length are
 refused with an error

---
 libzmix/bulletproofs_amcl/src/ipp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/ipp.rs b/libzmix/bulletproofs_amcl/src/ipp.rs
index a5fd701..e7294ed 100644
--- a/libzmix/bulletproofs_amcl/src/ipp.rs
+++ b/libzmix/bulletproofs_amcl/src/ipp.rs
@@ -225,7 +225,7 @@ impl IPP {
         // The prover does not have access to all the challenges in the beginning but the verifier does.
         // The verifier uses all the challenges to compute scalars such that it can efficiently compute
         // the final g, h, L^{x^2}, L^{x^-2}
-        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -260,7 +260,7 @@ impl IPP {
 
         let expected_P = G1Vector::from(bases)
             .multi_scalar_mul_var_time(exponents.as_slice())
-            .unwrap();
+            .map_err(|_| BulletproofErrorKind::IPPVerificationError)?;
 
         if expected_P == *P {
             Ok(())
@@ -278,6 +278,9 @@ impl IPP {
     ) -> Result<(Vec<FieldElement>, Vec<FieldElement>, Vec<FieldElement>), BulletproofError> {
         // lg_n is the number of rounds of recursion
         let lg_n = L_vec.len();
+        if R_vec.len() != lg_n {
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
         if lg_n >= 32 {
             // 2 billion (2^31) multiplications should be enough for anyone
             // and this check prevents overflow in 1<<lg_n below.
-- 
2.43.0


From 5d6cbe8af598eb87c77d9efc8000fa570b4a905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 30/34] fix: symmetric keys and nonces of the wrong length are
 refused with an error

---
 libursa/src/encryption/symm/mod.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/libursa/src/encryption/symm/mod.rs b/libursa/src/encryption/symm/mod.rs
index 0eda1e7..b1b8134 100644
--- a/libursa/src/encryption/symm/mod.rs
+++ b/libursa/src/encryption/symm/mod.rs
@@ -81,7 +81,9 @@ macro_rules! serialize_impl {
                         E: serde::de::Error,
                     {
                         let key = hex::decode(value).map_err(E::custom)?;
-                        Ok($name::new(GenericArray::from_slice(key.as_slice())))
+                        let key = GenericArray::from_exact_iter(key)
+                            .ok_or_else(|| E::custom("invalid key length"))?;
+                        Ok($name::new(&key))
                     }
                 }
 
@@ -147,8 +149,9 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
     }
 
     pub fn new_with_key<A: AsRef<[u8]>>(key: A) -> Result<Self, Error> {
+        let key = sized_array(key.as_ref())?;
         Ok(Self {
-            encryptor: <E as NewAead>::new(GenericArray::from_slice(key.as_ref())),
+            encryptor: <E as NewAead>::new(&key),
         })
     }
 
@@ -165,12 +168,12 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         plaintext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = sized_array(nonce.as_ref())?;
         let payload = Payload {
             msg: plaintext.as_ref(),
             aad: aad.as_ref(),
         };
-        self.encryptor.encrypt(nonce, payload)
+        self.encryptor.encrypt(&nonce, payload)
     }
 
     // Decrypt `ciphertext` using integrity protected `aad`. The result is the plaintext if successful
@@ -192,12 +195,12 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         ciphertext: A,
     ) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::from_slice(nonce.as_ref());
+        let nonce = sized_array(nonce.as_ref())?;
         let payload = Payload {
             msg: ciphertext.as_ref(),
             aad: aad.as_ref(),
         };
-        self.encryptor.decrypt(nonce, payload)
+        self.encryptor.decrypt(&nonce, payload)
     }
 
     // Similar to `encrypt_easy` but reads from a stream instead of a slice
@@ -319,7 +322,7 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn encrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        let nonce = sized_array(nonce)?;
         let payload = Payload { msg, aad };
         self.encrypt(&nonce, payload)
     }
@@ -329,7 +332,7 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn decrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
-        let nonce = GenericArray::clone_from_slice(nonce);
+        let nonce = sized_array(nonce)?;
         let payload = Payload { msg, aad };
         self.decrypt(&nonce, payload)
     }
@@ -457,6 +460,11 @@ impl std::fmt::Display for EncryptorType {
     }
 }
 
+// A key or nonce of exactly the size the algorithm needs, or an error
+fn sized_array<N: ArrayLength<u8>>(bytes: &[u8]) -> Result<GenericArray<u8, N>, Error> {
+    GenericArray::from_exact_iter(bytes.iter().copied()).ok_or(Error)
+}
+
 fn read_buffer<I: Read>(buffer: &mut I) -> Result<Vec<u8>, Error> {
     let mut v = Vec::new();
     let bytes_read = buffer.read_to_end(&mut v).map_err(|_| Error)?;
-- 
2.43.0


From f6e2ab2a3ac800729a70b52e5ff703b8a05d0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:40 +0000
Subject: [PATCH 31/34] fix: textual group elements that are malformed are
 refused with an error

---
 libursa/src/pair/amcl.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 25b1b43..900c9dc 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -48,6 +48,26 @@ impl PairMocksHelper {
     }
 }
 
+fn is_hex(str: &str) -> bool {
+    !str.is_empty() && str.bytes().all(|b| b.is_ascii_hexdigit())
+}
+
+/// The textual form of `count` base field elements: an excess and a hex value for each
+fn check_field_elements(str: &str, count: usize) -> UrsaCryptoResult<()> {
+    let tokens: Vec<&str> = str.split_whitespace().collect();
+    if tokens.len() != 2 * count
+        || !tokens
+            .chunks(2)
+            .all(|t| t[0].parse::<i32>().is_ok() && is_hex(t[1]))
+    {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid textual representation of field elements",
+        ));
+    }
+    Ok(())
+}
+
 #[cfg(not(test))]
 fn random_mod_order() -> UrsaCryptoResult<BIG> {
     _random_mod_order()
@@ -145,6 +165,7 @@ impl PointG1 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG1> {
+        check_field_elements(str, 3)?;
         Ok(PointG1 {
             point: ECP::from_hex(str.to_string()),
         })
@@ -298,6 +319,7 @@ impl PointG2 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG2> {
+        check_field_elements(str, 6)?;
         Ok(PointG2 {
             point: ECP2::from_hex(str.to_string()),
         })
@@ -468,6 +490,12 @@ impl GroupOrderElement {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<GroupOrderElement> {
+        if !is_hex(str) {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid textual representation for GroupOrderElement",
+            ));
+        }
         Ok(GroupOrderElement {
             bn: BIG::from_hex(str.to_string()),
         })
@@ -604,6 +632,7 @@ impl Pair {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<Pair> {
+        check_field_elements(str, 12)?;
         Ok(Pair {
             pair: FP12::from_hex(str.to_string()),
         })
-- 
2.43.0


From 8cfed0b73e7621d6eae8ae9b31b0647c98f4f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:20 +0000
Subject: [PATCH 32/34] fix: a signer with a malformed key reports an error
 instead of crashing

---
 libursa/src/signatures/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libursa/src/signatures/mod.rs b/libursa/src/signatures/mod.rs
index 7676b68..423b546 100644
--- a/libursa/src/signatures/mod.rs
+++ b/libursa/src/signatures/mod.rs
@@ -76,8 +76,7 @@ impl<'a, 'b, T: 'a + SignatureScheme> Signer<'a, 'b, T> {
         let sk = PrivateKey(self.key[..].to_vec());
         let (pubk, _) = self
             .scheme
-            .keypair(Some(KeyGenOption::FromSecretKey(sk)))
-            .unwrap();
+            .keypair(Some(KeyGenOption::FromSecretKey(sk)))?;
         Ok(pubk)
     }
 }
-- 
2.43.0


From fbc45704a87bc62c96265fdc5311e0121ffcdd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:11 +0000
Subject: [PATCH 33/34] fix: key exchange with a private key of the wrong
 length reports an error instead of crashing

---
 libursa/src/kex/secp256k1.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libursa/src/kex/secp256k1.rs b/libursa/src/kex/secp256k1.rs
index 6937eff..9dc9df9 100644
--- a/libursa/src/kex/secp256k1.rs
+++ b/libursa/src/kex/secp256k1.rs
@@ -164,7 +164,14 @@ mod ecdh_secp256k1 {
                         let d = D::digest(&sk[..]);
                         array_copy!(d.as_slice(), sk)
                     }
-                    KeyGenOption::FromSecretKey(ref s) => array_copy!(s, sk),
+                    KeyGenOption::FromSecretKey(ref s) => {
+                        if s.len() != PRIVATE_KEY_SIZE {
+                            return Err(CryptoError::ParseError(
+                                "Invalid private key length".to_string(),
+                            ));
+                        }
+                        array_copy!(s, sk)
+                    }
                 },
                 None => {
                     OsRng.fill_bytes(&mut sk);
@@ -189,6 +196,12 @@ mod ecdh_secp256k1 {
         where
             D: Digest<OutputSize = U32> + Default,
         {
+            // k256 panics on any other length
+            if local_private_key.len() != PRIVATE_KEY_SIZE {
+                return Err(CryptoError::ParseError(
+                    "Invalid private key length".to_string(),
+                ));
+            }
             let sk = k256::SecretKey::from_bytes(&local_private_key)
                 .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?;
 
-- 
2.43.0


From 4c831f08d393ef06d3ece21cad34dd94cc7d04ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:30 +0000
Subject: [PATCH 34/34] fix: the difference of scalars is reduced modulo the
 group order when it is negative

---
 libursa/src/pair/amcl.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 900c9dc..36f1bc5 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -445,18 +445,10 @@ impl GroupOrderElement {
 
     /// (GroupOrderElement - GroupOrderElement) mod GroupOrder
     pub fn sub_mod(&self, r: &GroupOrderElement) -> UrsaCryptoResult<GroupOrderElement> {
-        //need to use modneg if sub is negative
+        let order = BIG::new_ints(&CURVE_ORDER);
         let mut diff = self.bn;
-        diff.sub(&r.bn);
-        let mut zero = BIG::new();
-        zero.zero();
-
-        if diff < zero {
-            return Ok(GroupOrderElement {
-                bn: BIG::modneg(&diff, &BIG::new_ints(&CURVE_ORDER)),
-            });
-        }
-
+        diff.add(&BIG::modneg(&r.bn, &order));
+        diff.rmod(&order);
         Ok(GroupOrderElement { bn: diff })
     }
 
-- 
2.43.0

