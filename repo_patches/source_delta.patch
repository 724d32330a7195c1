From 1120a40b9915e4dd1bb30bbcde8f14a9a169b413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 01/87] fix: ChaCha20Poly1305 and XChaCha20Poly1305 could not
 decrypt_easy messages shorter than 8 bytes

MinSize is the size of the encryption of the empty message: nonce + tag.
---
 libursa/src/encryption/symm/chacha20poly1305.rs      | 4 ++--
 libursa/src/encryption/symm/chacha20poly1305_asm.rs  | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305.rs     | 4 ++--
 libursa/src/encryption/symm/xchacha20poly1305_asm.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libursa/src/encryption/symm/chacha20poly1305.rs b/libursa/src/encryption/symm/chacha20poly1305.rs
index 999788c..1c59b9c 100644
--- a/libursa/src/encryption/symm/chacha20poly1305.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U12, U16, U32, U36},
+        typenum::{U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/chacha20poly1305_asm.rs b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
index 5d9fdf0..ec0ce01 100644
--- a/libursa/src/encryption/symm/chacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/chacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32, U36},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct ChaCha20Poly1305 {
 }
 
 impl Encryptor for ChaCha20Poly1305 {
-    type MinSize = U36;
+    type MinSize = U28;
 }
 
 impl NewAead for ChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305.rs b/libursa/src/encryption/symm/xchacha20poly1305.rs
index 930d224..a6dad06 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{U0, U16, U24, U32, U48},
+        typenum::{U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -17,7 +17,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
diff --git a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
index 92576f0..7c6df03 100644
--- a/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
+++ b/libursa/src/encryption/symm/xchacha20poly1305_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U16, U24, U32, U48},
+        typenum::{Unsigned, U0, U16, U24, U32, U40},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -25,7 +25,7 @@ pub struct XChaCha20Poly1305 {
 }
 
 impl Encryptor for XChaCha20Poly1305 {
-    type MinSize = U48;
+    type MinSize = U40;
 }
 
 impl NewAead for XChaCha20Poly1305 {
-- 
2.43.0


From a91bb87a11591c2beeb1ddc7ba1b76bd5130d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 02/87] fix: AES-GCM could not decrypt messages shorter than 12
 bytes

The nonce is not part of the ciphertext given to decrypt, only the tag is.
---
 libursa/src/encryption/symm/aesgcm.rs     | 6 +++---
 libursa/src/encryption/symm/aesgcm_asm.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libursa/src/encryption/symm/aesgcm.rs b/libursa/src/encryption/symm/aesgcm.rs
index 6c4c460..60ca833 100644
--- a/libursa/src/encryption/symm/aesgcm.rs
+++ b/libursa/src/encryption/symm/aesgcm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -19,7 +19,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -52,7 +52,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aesgcm_asm.rs b/libursa/src/encryption/symm/aesgcm_asm.rs
index 6471f28..b477c43 100644
--- a/libursa/src/encryption/symm/aesgcm_asm.rs
+++ b/libursa/src/encryption/symm/aesgcm_asm.rs
@@ -1,7 +1,7 @@
 use super::Encryptor;
 use aead::{
     generic_array::{
-        typenum::{Unsigned, U0, U12, U16, U32},
+        typenum::{Unsigned, U0, U12, U16, U28, U32},
         GenericArray,
     },
     Aead, Error, NewAead, Payload,
@@ -21,7 +21,7 @@ macro_rules! aes_gcm_impl {
         }
 
         impl Encryptor for $name {
-            type MinSize = U32;
+            type MinSize = U28;
         }
 
         impl NewAead for $name {
@@ -65,7 +65,7 @@ macro_rules! aes_gcm_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() {
                     return Err(Error);
                 }
 
-- 
2.43.0


From 27a9c3875ad6b45eb6891a5abfec10264132fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 03/87] fix: Aes256CbcHmac512 could not decrypt messages
 shorter than 16 bytes

The smallest ciphertext is one block (not one key) and the tag.
---
 libursa/src/encryption/symm/aescbc.rs     | 2 +-
 libursa/src/encryption/symm/aescbc_asm.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libursa/src/encryption/symm/aescbc.rs b/libursa/src/encryption/symm/aescbc.rs
index ad12717..6d42617 100644
--- a/libursa/src/encryption/symm/aescbc.rs
+++ b/libursa/src/encryption/symm/aescbc.rs
@@ -72,7 +72,7 @@ macro_rules! aes_cbc_hmac_impl {
             ) -> Result<Vec<u8>, Error> {
                 let payload = ciphertext.into();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + $algokeysize::to_usize() {
+                if payload.msg.len() < Self::TagSize::to_usize() + Self::NonceSize::to_usize() {
                     return Err(Error);
                 }
 
diff --git a/libursa/src/encryption/symm/aescbc_asm.rs b/libursa/src/encryption/symm/aescbc_asm.rs
index b95e2d8..100bd05 100644
--- a/libursa/src/encryption/symm/aescbc_asm.rs
+++ b/libursa/src/encryption/symm/aescbc_asm.rs
@@ -76,7 +76,7 @@ macro_rules! aes_cbc_hmac_impl {
                 let payload = ciphertext.into();
                 let cipher = OpenSslCipher::$cipherid();
 
-                if payload.msg.len() < Self::TagSize::to_usize() + cipher.key_len() {
+                if payload.msg.len() < Self::TagSize::to_usize() + cipher.block_size() {
                     return Err(Error);
                 }
 
-- 
2.43.0


From 4e9b978c215d36269e94e57ba2b134ba2c1e238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 04/87] fix: wrong key and nonce sizes aborted symmetric
 encryption instead of giving an error

---
 libursa/src/encryption/symm/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libursa/src/encryption/symm/mod.rs b/libursa/src/encryption/symm/mod.rs
index 0eda1e7..ac6ebcd 100644
--- a/libursa/src/encryption/symm/mod.rs
+++ b/libursa/src/encryption/symm/mod.rs
@@ -81,6 +81,10 @@ macro_rules! serialize_impl {
                         E: serde::de::Error,
                     {
                         let key = hex::decode(value).map_err(E::custom)?;
+                        let size = <<$name as NewAead>::KeySize as ::aead::generic_array::typenum::Unsigned>::to_usize();
+                        if key.len() != size {
+                            return Err(E::invalid_length(key.len(), &self));
+                        }
                         Ok($name::new(GenericArray::from_slice(key.as_slice())))
                     }
                 }
@@ -147,6 +151,9 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
     }
 
     pub fn new_with_key<A: AsRef<[u8]>>(key: A) -> Result<Self, Error> {
+        if key.as_ref().len() != <E as NewAead>::KeySize::to_usize() {
+            return Err(Error);
+        }
         Ok(Self {
             encryptor: <E as NewAead>::new(GenericArray::from_slice(key.as_ref())),
         })
@@ -165,6 +172,9 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         plaintext: A,
     ) -> Result<Vec<u8>, Error> {
+        if nonce.as_ref().len() != <E as Aead>::NonceSize::to_usize() {
+            return Err(Error);
+        }
         let nonce = GenericArray::from_slice(nonce.as_ref());
         let payload = Payload {
             msg: plaintext.as_ref(),
@@ -192,6 +202,9 @@ impl<E: Encryptor> SymmetricEncryptor<E> {
         aad: A,
         ciphertext: A,
     ) -> Result<Vec<u8>, Error> {
+        if nonce.as_ref().len() != <E as Aead>::NonceSize::to_usize() {
+            return Err(Error);
+        }
         let nonce = GenericArray::from_slice(nonce.as_ref());
         let payload = Payload {
             msg: ciphertext.as_ref(),
@@ -319,6 +332,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn encrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
+        if nonce.len() != <Self as Aead>::NonceSize::to_usize() {
+            return Err(Error);
+        }
         let nonce = GenericArray::clone_from_slice(nonce);
         let payload = Payload { msg, aad };
         self.encrypt(&nonce, payload)
@@ -329,6 +345,9 @@ impl<D: Encryptor> DynEncryptor for D {
     }
 
     fn decrypt(&self, nonce: &[u8], aad: &[u8], msg: &[u8]) -> Result<Vec<u8>, Error> {
+        if nonce.len() != <Self as Aead>::NonceSize::to_usize() {
+            return Err(Error);
+        }
         let nonce = GenericArray::clone_from_slice(nonce);
         let payload = Payload { msg, aad };
         self.decrypt(&nonce, payload)
-- 
2.43.0


From b1bf66a347432db0ad4c4ac318dbc3c86f4b6558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 05/87] fix: serializing EcdsaSecp256k1Sha256 recursed until
 the stack overflowed

---
 libursa/src/signatures/secp256k1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index e68d5ec..a57d6be 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -78,7 +78,7 @@ impl Serialize for EcdsaSecp256k1Sha256 {
     where
         S: Serializer,
     {
-        serializer.serialize_newtype_struct("EcdsaSecp256k1Sha256", &self)
+        serializer.serialize_newtype_struct("EcdsaSecp256k1Sha256", ALGORITHM_NAME)
     }
 }
 
-- 
2.43.0


From 2499b9c39d8f0caa2d23328d5dc9e75b5ceedacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 06/87] fix: keys and seeds of unusable size aborted key
 generation and agreement instead of giving an error

---
 libursa/src/kex/secp256k1.rs        | 14 +++++++++++++-
 libursa/src/kex/x25519.rs           | 10 ++++++++++
 libursa/src/signatures/mod.rs       |  3 +--
 libursa/src/signatures/secp256k1.rs |  5 +++++
 4 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/libursa/src/kex/secp256k1.rs b/libursa/src/kex/secp256k1.rs
index 33105b5..4196382 100644
--- a/libursa/src/kex/secp256k1.rs
+++ b/libursa/src/kex/secp256k1.rs
@@ -150,6 +150,11 @@ mod ecdh_secp256k1 {
             match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < PRIVATE_KEY_SIZE {
+                            return Err(CryptoError::KeyGenError(
+                                "the seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut rng =
                             ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, PRIVATE_KEY_SIZE));
                         seed.zeroize();
@@ -158,7 +163,14 @@ mod ecdh_secp256k1 {
                         let d = D::digest(&sk[..]);
                         array_copy!(d.as_slice(), sk)
                     }
-                    KeyGenOption::FromSecretKey(ref s) => array_copy!(s, sk),
+                    KeyGenOption::FromSecretKey(ref s) => {
+                        if s.len() != PRIVATE_KEY_SIZE {
+                            return Err(CryptoError::ParseError(
+                                "the secret key must have 32 bytes".to_string(),
+                            ));
+                        }
+                        array_copy!(s, sk)
+                    }
                 },
                 None => {
                     OsRng.fill_bytes(&mut sk);
diff --git a/libursa/src/kex/x25519.rs b/libursa/src/kex/x25519.rs
index 0ddd5ae..f6c1b00 100644
--- a/libursa/src/kex/x25519.rs
+++ b/libursa/src/kex/x25519.rs
@@ -30,6 +30,11 @@ impl KeyExchangeScheme for X25519Sha256 {
                     (pk, sk)
                 }
                 KeyGenOption::FromSecretKey(ref s) => {
+                    if s.len() < 32 {
+                        return Err(CryptoError::ParseError(
+                            "the secret key must have 32 bytes".to_string(),
+                        ));
+                    }
                     let sk = StaticSecret::from(*array_ref!(&s[..], 0, 32));
                     let pk = X25519PublicKey::from(&sk);
                     (pk, sk)
@@ -53,6 +58,11 @@ impl KeyExchangeScheme for X25519Sha256 {
         local_private_key: &PrivateKey,
         remote_public_key: &PublicKey,
     ) -> Result<SessionKey, CryptoError> {
+        if local_private_key.len() < 32 || remote_public_key.len() != 32 {
+            return Err(CryptoError::ParseError(
+                "keys must have 32 bytes".to_string(),
+            ));
+        }
         let sk = StaticSecret::from(*array_ref!(&local_private_key[..], 0, 32));
         let pk = X25519PublicKey::from(*array_ref!(&remote_public_key[..], 0, 32));
         let shared_secret = sk.diffie_hellman(&pk);
diff --git a/libursa/src/signatures/mod.rs b/libursa/src/signatures/mod.rs
index 7676b68..423b546 100644
--- a/libursa/src/signatures/mod.rs
+++ b/libursa/src/signatures/mod.rs
@@ -76,8 +76,7 @@ impl<'a, 'b, T: 'a + SignatureScheme> Signer<'a, 'b, T> {
         let sk = PrivateKey(self.key[..].to_vec());
         let (pubk, _) = self
             .scheme
-            .keypair(Some(KeyGenOption::FromSecretKey(sk)))
-            .unwrap();
+            .keypair(Some(KeyGenOption::FromSecretKey(sk)))?;
         Ok(pubk)
     }
 }
diff --git a/libursa/src/signatures/secp256k1.rs b/libursa/src/signatures/secp256k1.rs
index a57d6be..21de06a 100644
--- a/libursa/src/signatures/secp256k1.rs
+++ b/libursa/src/signatures/secp256k1.rs
@@ -148,6 +148,11 @@ mod ecdsa_secp256k1 {
             let sk = match option {
                 Some(mut o) => match o {
                     KeyGenOption::UseSeed(ref mut seed) => {
+                        if seed.len() < 32 {
+                            return Err(CryptoError::KeyGenError(
+                                "the seed must have at least 32 bytes".to_string(),
+                            ));
+                        }
                         let mut s = [0u8; PRIVATE_KEY_SIZE];
                         let mut rng = ChaChaRng::from_seed(*array_ref!(seed.as_slice(), 0, 32));
                         seed.zeroize();
-- 
2.43.0


From e54dc4f5f05fdece6a0452f078d9d793a67e3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 07/87] fix: secp256k1 key agreement aborted on secret keys
 that do not have 32 bytes

---
 libursa/src/kex/secp256k1.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libursa/src/kex/secp256k1.rs b/libursa/src/kex/secp256k1.rs
index 4196382..aa55874 100644
--- a/libursa/src/kex/secp256k1.rs
+++ b/libursa/src/kex/secp256k1.rs
@@ -195,6 +195,11 @@ mod ecdh_secp256k1 {
         where
             D: Digest<OutputSize = U32> + Default,
         {
+            if local_private_key.len() != PRIVATE_KEY_SIZE {
+                return Err(CryptoError::ParseError(
+                    "the secret key must have 32 bytes".to_string(),
+                ));
+            }
             let sk = k256::SecretKey::from_bytes(&local_private_key)
                 .map_err(|e| CryptoError::ParseError(format!("{:?}", e)))?;
 
-- 
2.43.0


From 12809582c8a165f0c4b4effea643d10d42220279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 08/87] fix: the verifier did not bound e in primary proofs, so
 presentations could be made without a credential

---
 libursa/src/cl/verifier.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index ea47cc2..e7e9443 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -1,5 +1,5 @@
 use bn::BigNumber;
-use cl::constants::{ITERATION, LARGE_E_START_VALUE};
+use cl::constants::{ITERATION, LARGE_ETILDE, LARGE_E_START_VALUE};
 use cl::hash::get_hash_as_int;
 use cl::helpers::*;
 use cl::*;
@@ -454,6 +454,14 @@ impl ProofVerifier {
         trace!("ProofVerifier::_verify_equality: >>> p_pub_key: {:?}, proof: {:?}, c_hash: {:?}, cred_schema: {:?}, sub_proof_request: {:?}",
                p_pub_key, proof, c_hash, cred_schema, sub_proof_request);
 
+        // Without this bound a signature can be made up without the issuer's secret key
+        if proof.e.is_negative() || proof.e.num_bits()? > (LARGE_ETILDE + 1) as i32 {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Value of e is out of range in the primary proof",
+            ));
+        }
+
         let unrevealed_attrs = cred_schema
             .attrs
             .union(&non_cred_schema.attrs)
-- 
2.43.0


From 0f0f49debca6477078f8b46f81ff299cace67f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 09/87] fix: the verifier did not tie predicate proofs to the
 signed attribute

---
 libursa/src/cl/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index e7e9443..63ac945 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -430,6 +430,17 @@ impl ProofVerifier {
         )?;
 
         for ne_proof in primary_proof.ne_proofs.iter() {
+            // The predicate must be about the signed attribute
+            if primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name) != Some(&ne_proof.mj) {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    format!(
+                        "Predicate proof does not correspond to the attribute '{}'",
+                        ne_proof.predicate.attr_name
+                    ),
+                ));
+            }
+
             t_hat.append(&mut ProofVerifier::_verify_ne_predicate(
                 p_pub_key, ne_proof, c_hash,
             )?)
-- 
2.43.0


From 99020f43a6346145b99cec8330f390d279df168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 10/87] fix: the verifier did not tie the hashed commitment
 list to the commitments of the sub proofs

---
 libursa/src/cl/verifier.rs | 48 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 63ac945..7c73314 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -224,6 +224,8 @@ impl ProofVerifier {
 
         ProofVerifier::_check_verify_params_consistency(&self.credentials, proof)?;
 
+        ProofVerifier::_check_c_list(proof)?;
+
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
 
         for idx in 0..proof.proofs.len() {
@@ -409,6 +411,52 @@ impl ProofVerifier {
         Ok(())
     }
 
+    /// The challenge is computed over `aggregated_proof.c_list`, so the list has to consist of
+    /// exactly the commitments which the sub proofs contain.
+    fn _check_c_list(proof: &Proof) -> UrsaCryptoResult<()> {
+        let mut c_list: Vec<Vec<u8>> = Vec::new();
+
+        for proof_item in &proof.proofs {
+            if let Some(ref non_revoc_proof) = proof_item.non_revoc_proof {
+                c_list.extend_from_slice(&non_revoc_proof.c_list.as_list()?);
+            }
+
+            let mut commitments = vec![&proof_item.primary_proof.eq_proof.a_prime];
+            for ne_proof in &proof_item.primary_proof.ne_proofs {
+                for key in (0..ITERATION)
+                    .map(|i| i.to_string())
+                    .chain(Some("DELTA".to_string()))
+                {
+                    commitments.push(ne_proof.t.get(&key).ok_or_else(|| {
+                        err_msg(
+                            UrsaCryptoErrorKind::ProofRejected,
+                            format!("Value by key '{}' not found in proof.t", key),
+                        )
+                    })?);
+                }
+            }
+
+            for commitment in commitments {
+                if commitment.is_negative() {
+                    return Err(err_msg(
+                        UrsaCryptoErrorKind::ProofRejected,
+                        "Negative commitment in the proof",
+                    ));
+                }
+                c_list.push(commitment.to_bytes()?);
+            }
+        }
+
+        if c_list != proof.aggregated_proof.c_list {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::ProofRejected,
+                "Commitments of the aggregated proof do not correspond to the sub proofs",
+            ));
+        }
+
+        Ok(())
+    }
+
     fn _verify_primary_proof(
         p_pub_key: &CredentialPrimaryPublicKey,
         c_hash: &BigNumber,
-- 
2.43.0


From a50fb5d1995695f60aaa74d8e793a12098d4573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 11/87] fix: the verifier accepted presentations without the
 non-revocation proof it asked for

---
 libursa/src/cl/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index 7c73314..bacee4f 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -404,6 +404,17 @@ impl ProofVerifier {
                     "Proof predicates not correspond to requested predicates",
                 ));
             }
+
+            if credential.pub_key.r_key.is_some()
+                && credential.rev_key_pub.is_some()
+                && credential.rev_reg.is_some()
+                && proof_for_credential.non_revoc_proof.is_none()
+            {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::ProofRejected,
+                    "Proof does not contain the requested proof of non-revocation",
+                ));
+            }
         }
 
         trace!("ProofVerifier::_check_verify_params_consistency: <<<");
-- 
2.43.0


From 8134d2bb3071bbf91a004f57a15eec0ee9ab42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 12/87] fix: a verifier with common attributes could verify
 only one proof

---
 libursa/src/cl/verifier.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index bacee4f..db1a22c 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -228,6 +228,11 @@ impl ProofVerifier {
 
         let mut tau_list: Vec<Vec<u8>> = Vec::new();
 
+        // `m_hat`s of the common attributes belong to the proof being verified, not to the verifier
+        for m_hat in self.common_attributes.values_mut() {
+            *m_hat = None;
+        }
+
         for idx in 0..proof.proofs.len() {
             let proof_item = &proof.proofs[idx];
             let credential = &self.credentials[idx];
-- 
2.43.0


From a06d93a81c3d729ee014350cc65e82b1d5f0c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 13/87] fix: the verifier took unproven values for common
 attributes that are revealed or not in the schema

---
 libursa/src/cl/verifier.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index db1a22c..c9bd310 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -266,7 +266,15 @@ impl ProofVerifier {
                 .map(|s| s.to_string())
                 .collect();
             for attr_name in attr_names {
-                if proof_item.primary_proof.eq_proof.m.contains_key(&attr_name) {
+                // `m_hat` of a revealed attribute would not be covered by the proof
+                if proof_item.primary_proof.eq_proof.m.contains_key(&attr_name)
+                    && (credential.credential_schema.attrs.contains(&attr_name)
+                        || credential.non_credential_schema.attrs.contains(&attr_name))
+                    && !credential
+                        .sub_proof_request
+                        .revealed_attrs
+                        .contains(&attr_name)
+                {
                     let m_hat = &proof_item.primary_proof.eq_proof.m[&attr_name];
                     match self.common_attributes.entry(attr_name.clone()) {
                         Entry::Occupied(mut entry) => {
-- 
2.43.0


From 398a3d5edd65fca86918ff585f71e5aec1849095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 14/87] fix: predicates whose difference or bound does not fit
 i32 overflowed

---
 libursa/src/cl/helpers.rs |  2 +-
 libursa/src/cl/mod.rs     | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index cfc03e2..5f80d3e 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -475,7 +475,7 @@ fn largest_square_less_than(delta: usize) -> usize {
 
 //Express the natural number `delta` as a sum of four integer squares,
 // i.e `delta = a^2 + b^2 + c^2 + d^2` using Lagrange's four-square theorem
-pub fn four_squares(delta: i32) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
+pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>> {
     trace!("Helpers::four_squares: >>> delta: {:?}", delta);
 
     if delta < 0 {
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index df7c573..2dcc0cc 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -939,21 +939,24 @@ pub struct Predicate {
 }
 
 impl Predicate {
-    pub fn get_delta(&self, attr_value: i32) -> i32 {
+    pub fn get_delta(&self, attr_value: i32) -> i64 {
+        // The difference of two i32 does not fit i32
+        let (attr_value, value) = (i64::from(attr_value), i64::from(self.value));
         match self.p_type {
-            PredicateType::GE => attr_value - self.value,
-            PredicateType::GT => attr_value - self.value - 1,
-            PredicateType::LE => self.value - attr_value,
-            PredicateType::LT => self.value - attr_value - 1,
+            PredicateType::GE => attr_value - value,
+            PredicateType::GT => attr_value - value - 1,
+            PredicateType::LE => value - attr_value,
+            PredicateType::LT => value - attr_value - 1,
         }
     }
 
     pub fn get_delta_prime(&self) -> UrsaCryptoResult<BigNumber> {
+        let value = i64::from(self.value);
         match self.p_type {
-            PredicateType::GE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::GT => BigNumber::from_dec(&(self.value + 1).to_string()),
-            PredicateType::LE => BigNumber::from_dec(&self.value.to_string()),
-            PredicateType::LT => BigNumber::from_dec(&(self.value - 1).to_string()),
+            PredicateType::GE => BigNumber::from_dec(&value.to_string()),
+            PredicateType::GT => BigNumber::from_dec(&(value + 1).to_string()),
+            PredicateType::LE => BigNumber::from_dec(&value.to_string()),
+            PredicateType::LT => BigNumber::from_dec(&(value - 1).to_string()),
         }
     }
 
-- 
2.43.0


From 7ad159c211101d39b1df1173a9bb4c2186d38e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 15/87] fix: less-than predicate proofs ignored the sign of one
 of their responses

---
 libursa/src/cl/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index 5f80d3e..ffea77a 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -418,7 +418,7 @@ pub fn calc_tne<S: ::std::hash::BuildHasher>(
         )
     })?;
     let delta_predicate = if is_less {
-        delta.set_negative(true)?
+        delta.set_negative(!delta.is_negative())?
     } else {
         delta.try_clone()?
     };
-- 
2.43.0


From ffd63c3f9036f64186dbd847fa4527feac663169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 16/87] fix: incomplete proofs of blinded secrets aborted the
 issuer

---
 libursa/src/cl/issuer.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 086f309..c83f7e2 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1045,7 +1045,15 @@ impl Issuer {
                         format!("Value by key '{}' not found in cred_pr_pub_key.r", attr),
                     )
                 })?;
-                let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[attr];
+                let m_cap = blinded_cred_secrets_correctness_proof
+                    .m_caps
+                    .get(attr)
+                    .ok_or_else(|| {
+                        err_msg(
+                            UrsaCryptoErrorKind::InvalidStructure,
+                            format!("Value by key '{}' not found in the correctness proof", attr),
+                        )
+                    })?;
                 acc?.mod_mul(
                     &pk_r.mod_exp(&m_cap, &cred_pr_pub_key.n, Some(&mut ctx))?,
                     &cred_pr_pub_key.n,
@@ -1055,7 +1063,18 @@ impl Issuer {
         )?;
 
         for (key, value) in &blinded_cred_secrets.committed_attributes {
-            let m_cap = &blinded_cred_secrets_correctness_proof.m_caps[key];
+            let (m_cap, r_cap) = match (
+                blinded_cred_secrets_correctness_proof.m_caps.get(key),
+                blinded_cred_secrets_correctness_proof.r_caps.get(key),
+            ) {
+                (Some(m_cap), Some(r_cap)) => (m_cap, r_cap),
+                _ => {
+                    return Err(err_msg(
+                        UrsaCryptoErrorKind::InvalidStructure,
+                        format!("Value by key '{}' not found in the correctness proof", key),
+                    ))
+                }
+            };
             let comm_att_cap = value
                 .inverse(&cred_pr_pub_key.n, Some(&mut ctx))?
                 .mod_exp(
@@ -1068,7 +1087,7 @@ impl Issuer {
                         &cred_pr_pub_key.z,
                         &m_cap,
                         &cred_pr_pub_key.s,
-                        &blinded_cred_secrets_correctness_proof.r_caps[key],
+                        r_cap,
                         &cred_pr_pub_key.n,
                         &mut ctx,
                     )?,
-- 
2.43.0


From f29c1ecb243d86d36ad262bad1f72b0ca8b67d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 17/87] fix: a holder could alter known attribute values by
 blinding them as hidden attributes too

---
 libursa/src/cl/issuer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index c83f7e2..d3e2b5a 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -1219,6 +1219,19 @@ impl Issuer {
 
         let mut context = BigNumber::new_context()?;
 
+        // The holder must not be able to add to the values chosen by the issuer
+        if let Some(attr) = blinded_cred_secrets.hidden_attributes.iter().find(|attr| {
+            cred_values
+                .attrs_values
+                .get(attr.as_str())
+                .map_or(false, |value| value.is_known())
+        }) {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                format!("Attribute '{}' is both known and hidden", attr),
+            ));
+        }
+
         let mut rx = p_pub_key.s.mod_exp(&v, &p_pub_key.n, Some(&mut context))?;
 
         if blinded_cred_secrets.u != BigNumber::from_u32(0)? {
-- 
2.43.0


From 1afde49a9ee7768a7b0ef4630e051895b373ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 18/87] fix: revocation indices outside the registry aborted
 the caller or corrupted the registry

---
 libursa/src/cl/issuer.rs | 33 ++++++++++++++++++++++-----------
 libursa/src/cl/mod.rs    | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index d3e2b5a..6cd5c74 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -537,7 +537,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.sub(tail).unwrap();
@@ -638,7 +638,7 @@ impl Issuer {
 
         let prev_accum = rev_reg.accum;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
         rev_tails_accessor.access_tail(index, &mut |tail| {
             rev_reg.accum = rev_reg.accum.add(tail).unwrap();
@@ -743,18 +743,20 @@ impl Issuer {
         );
 
         let prev_acc = rev_reg.accum;
+        let mut accum = rev_reg.accum;
         for rev_idx in issued.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.add(tail).unwrap()
+                accum = accum.add(tail).unwrap()
             })?;
         }
         for rev_idx in revoked.iter() {
-            let tail_id = Self::_get_index(max_cred_num, *rev_idx);
+            let tail_id = Self::_get_index(max_cred_num, *rev_idx)?;
             rev_tails_accessor.access_tail(tail_id, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.sub(tail).unwrap()
+                accum = accum.sub(tail).unwrap()
             })?;
         }
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_acc),
@@ -959,7 +961,7 @@ impl Issuer {
 
         if issuance_by_default {
             for i in 1..=max_cred_num {
-                let index = Issuer::_get_index(max_cred_num, i);
+                let index = Issuer::_get_index(max_cred_num, i)?;
                 accum = accum.add(&Tail::new_tail(
                     index,
                     &cred_rev_pub_key.g_dash,
@@ -1324,8 +1326,17 @@ impl Issuer {
         Ok(signature_correctness_proof)
     }
 
-    fn _get_index(max_cred_num: u32, rev_idx: u32) -> u32 {
-        max_cred_num + 1 - rev_idx
+    fn _get_index(max_cred_num: u32, rev_idx: u32) -> UrsaCryptoResult<u32> {
+        if rev_idx == 0 || rev_idx > max_cred_num {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidRevocationAccumulatorIndex,
+                format!(
+                    "Revocation index {} is not in the range 1..={}",
+                    rev_idx, max_cred_num
+                ),
+            ));
+        }
+        Ok(max_cred_num + 1 - rev_idx)
     }
 
     fn _new_non_revocation_credential(
@@ -1371,6 +1382,8 @@ impl Issuer {
                 )
             })?;
 
+        let index = Issuer::_get_index(max_cred_num, rev_idx)?;
+
         let vr_prime_prime = GroupOrderElement::new()?;
         let c = GroupOrderElement::new()?;
         let m2 = GroupOrderElement::from_bytes(&cred_context.to_bytes()?)?;
@@ -1405,8 +1418,6 @@ impl Issuer {
                     &transform_u32_to_array_of_u8(rev_idx),
                 )?)?)?;
 
-        let index = Issuer::_get_index(max_cred_num, rev_idx);
-
         let rev_reg_delta = if issuance_by_default {
             None
         } else {
diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index 2dcc0cc..6ad20e0 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -580,7 +580,13 @@ pub struct SimpleTailsAccessor {
 
 impl RevocationTailsAccessor for SimpleTailsAccessor {
     fn access_tail(&self, tail_id: u32, accessor: &mut dyn FnMut(&Tail)) -> UrsaCryptoResult<()> {
-        accessor(&self.tails[tail_id as usize]);
+        let tail = self.tails.get(tail_id as usize).ok_or_else(|| {
+            err_msg(
+                UrsaCryptoErrorKind::InvalidRevocationAccumulatorIndex,
+                format!("There is no tail with index {}", tail_id),
+            )
+        })?;
+        accessor(tail);
         Ok(())
     }
 }
@@ -688,6 +694,8 @@ impl Witness {
         trace!("Witness::new: >>> rev_idx: {:?}, max_cred_num: {:?}, issuance_by_default: {:?}, rev_reg_delta: {:?}",
                rev_idx, max_cred_num, issuance_by_default, rev_reg_delta);
 
+        Witness::_check_indices(rev_idx, max_cred_num, rev_reg_delta)?;
+
         let mut omega = PointG2::new_inf()?;
 
         let mut issued = if issuance_by_default {
@@ -730,6 +738,8 @@ impl Witness {
             rev_reg_delta
         );
 
+        Witness::_check_indices(rev_idx, max_cred_num, rev_reg_delta)?;
+
         let mut omega_denom = PointG2::new_inf()?;
         for j in rev_reg_delta.revoked.iter() {
             if rev_idx.eq(j) {
@@ -762,6 +772,26 @@ impl Witness {
 
         Ok(())
     }
+
+    fn _check_indices(
+        rev_idx: u32,
+        max_cred_num: u32,
+        rev_reg_delta: &RevocationRegistryDelta,
+    ) -> UrsaCryptoResult<()> {
+        let is_invalid = |index: &u32| *index == 0 || *index > max_cred_num;
+
+        if is_invalid(&rev_idx)
+            || rev_reg_delta.issued.iter().any(is_invalid)
+            || rev_reg_delta.revoked.iter().any(is_invalid)
+        {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidRevocationAccumulatorIndex,
+                format!("Revocation index is not in the range 1..={}", max_cred_num),
+            ));
+        }
+
+        Ok(())
+    }
 }
 
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-- 
2.43.0


From ff9a9d0852b01e868c0e3d1ba686d727f51e8285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 19/87] fix: the tails generator published the tail with which
 revoked credentials pass as valid

---
 libursa/src/cl/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/mod.rs b/libursa/src/cl/mod.rs
index 6ad20e0..19b8f00 100755
--- a/libursa/src/cl/mod.rs
+++ b/libursa/src/cl/mod.rs
@@ -560,7 +560,13 @@ impl RevocationTailsGenerator {
             return Ok(None);
         }
 
-        let tail = Tail::new_tail(self.current_index, &self.g_dash, &self.gamma)?;
+        let tail = if self.current_index == (self.size + 1) / 2 {
+            // The (L+1)th tail is never used, and knowing it is enough to make a witness for a
+            // revoked credential, so only its place is filled.
+            Tail::new_inf()?
+        } else {
+            Tail::new_tail(self.current_index, &self.g_dash, &self.gamma)?
+        };
 
         self.current_index += 1;
 
-- 
2.43.0


From 3c9a5640d9ff6a5541090b5413e7a16ca8e23988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 20/87] fix: predicate proofs over revealed attributes were not
 tied to the revealed value

---
 libursa/src/cl/verifier.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libursa/src/cl/verifier.rs b/libursa/src/cl/verifier.rs
index c9bd310..75a85f0 100644
--- a/libursa/src/cl/verifier.rs
+++ b/libursa/src/cl/verifier.rs
@@ -502,8 +502,13 @@ impl ProofVerifier {
         )?;
 
         for ne_proof in primary_proof.ne_proofs.iter() {
-            // The predicate must be about the signed attribute
-            if primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name) != Some(&ne_proof.mj) {
+            // The predicate must be about the signed attribute; `m` proves nothing about revealed ones
+            if sub_proof_request
+                .revealed_attrs
+                .contains(&ne_proof.predicate.attr_name)
+                || primary_proof.eq_proof.m.get(&ne_proof.predicate.attr_name)
+                    != Some(&ne_proof.mj)
+            {
                 return Err(err_msg(
                     UrsaCryptoErrorKind::ProofRejected,
                     format!(
-- 
2.43.0


From 8499939d0a164a024ed011e18b046ab950d3d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 21/87] fix: strings that do not encode a curve element or
 scalar aborted the decoder

---
 libursa/src/pair/amcl.rs | 48 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 25b1b43..88237f2 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -1,6 +1,6 @@
 use errors::prelude::*;
 
-use amcl::bn254::big::BIG;
+use amcl::bn254::big::{BASEBITS, BIG, NLEN};
 
 use amcl::bn254::rom::{
     CURVE_GX, CURVE_GY, CURVE_ORDER, CURVE_PXA, CURVE_PXB, CURVE_PYA, CURVE_PYB, MODBYTES,
@@ -8,6 +8,7 @@ use amcl::bn254::rom::{
 
 use amcl::bn254::ecp::ECP;
 use amcl::bn254::ecp2::ECP2;
+use amcl::bn254::fp::FEXCESS;
 use amcl::bn254::fp12::FP12;
 use amcl::bn254::fp2::FP2;
 use amcl::bn254::pair::{ate, ate2, fexp, g1mul, g2mul, gtpow};
@@ -76,6 +77,47 @@ fn _random_mod_order() -> UrsaCryptoResult<BIG> {
     Ok(BIG::randomnum(&BIG::new_ints(&CURVE_ORDER), &mut rng))
 }
 
+/// The decoders of amcl abort when the string does not have the form that its encoders produce
+fn _check_hex(val: &str) -> UrsaCryptoResult<()> {
+    // what fits into the limbs of a BIG
+    if val.is_empty() || val.len() > NLEN * BASEBITS / 4 {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid len of a hexadecimal number",
+        ));
+    }
+    if !val.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid digit in a hexadecimal number",
+        ));
+    }
+    Ok(())
+}
+
+/// The same for elements that consist of `count` coordinates, each preceded by its excess
+fn _check_coordinates(val: &str, count: usize) -> UrsaCryptoResult<()> {
+    let parts: Vec<&str> = val.split_whitespace().collect();
+    if parts.len() != 2 * count {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid number of coordinates",
+        ));
+    }
+    for part in parts.chunks(2) {
+        match part[0].parse::<i32>() {
+            Ok(excess) if excess > 0 && excess <= FEXCESS => _check_hex(part[1])?,
+            _ => {
+                return Err(err_msg(
+                    UrsaCryptoErrorKind::InvalidStructure,
+                    "Invalid excess of a coordinate",
+                ))
+            }
+        }
+    }
+    Ok(())
+}
+
 #[derive(Copy, Clone, PartialEq)]
 pub struct PointG1 {
     point: ECP,
@@ -145,6 +187,7 @@ impl PointG1 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG1> {
+        _check_coordinates(str, 3)?;
         Ok(PointG1 {
             point: ECP::from_hex(str.to_string()),
         })
@@ -298,6 +341,7 @@ impl PointG2 {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG2> {
+        _check_coordinates(str, 6)?;
         Ok(PointG2 {
             point: ECP2::from_hex(str.to_string()),
         })
@@ -468,6 +512,7 @@ impl GroupOrderElement {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<GroupOrderElement> {
+        _check_hex(str)?;
         Ok(GroupOrderElement {
             bn: BIG::from_hex(str.to_string()),
         })
@@ -604,6 +649,7 @@ impl Pair {
     }
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<Pair> {
+        _check_coordinates(str, 12)?;
         Ok(Pair {
             pair: FP12::from_hex(str.to_string()),
         })
-- 
2.43.0


From 08b2861376dc66b09df1e47265901f4de04f42bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 22/87] fix: the four squares of some predicate differences
 took hours to find

---
 libursa/src/cl/helpers.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/helpers.rs b/libursa/src/cl/helpers.rs
index ffea77a..8c9ef3d 100644
--- a/libursa/src/cl/helpers.rs
+++ b/libursa/src/cl/helpers.rs
@@ -488,7 +488,14 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
         ));
     }
 
-    let d = delta as usize;
+    let mut d = delta as usize;
+    // All roots of a multiple of 8 are even: without them the search for a large 2^k, which is
+    // a sum of four squares in one way only, would not end in reasonable time
+    let mut scale = 1;
+    while d > 0 && d % 8 == 0 {
+        d /= 4;
+        scale *= 2;
+    }
     let mut roots: [usize; 4] = [largest_square_less_than(d), 0, 0, 0];
 
     'outer: for i in (1..=roots[0]).rev() {
@@ -524,6 +531,10 @@ pub fn four_squares(delta: i64) -> UrsaCryptoResult<HashMap<String, BigNumber>>
         }
     }
 
+    for root in roots.iter_mut() {
+        *root *= scale;
+    }
+
     let res = hashmap![
         "0".to_string() => BigNumber::from_dec(&roots[0].to_string()[..])?,
         "1".to_string() => BigNumber::from_dec(&roots[1].to_string()[..])?,
-- 
2.43.0


From d3e86f48c56b6f150c99e3c586370cb05dbacff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 23/87] fix: numbers followed by anything else were decoded,
 and a NUL byte in them aborted the caller

---
 libursa/src/bn/openssl.rs | 18 ++++++++++++++++++
 libursa/src/bn/rust.rs    | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index ba7e82e..d9e5307 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -23,6 +23,22 @@ pub struct BigNumber {
     openssl_bn: BigNum,
 }
 
+/// A decimal or hexadecimal number: digits with at most a minus sign in front of them
+fn check_digits(text: &str, radix: u32) -> UrsaCryptoResult<()> {
+    let digits = if text.starts_with('-') {
+        &text[1..]
+    } else {
+        text
+    };
+    if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid number",
+        ));
+    }
+    Ok(())
+}
+
 impl BigNumber {
     pub fn new_context() -> UrsaCryptoResult<BigNumberContext> {
         let ctx = BigNumContext::new()?;
@@ -144,11 +160,13 @@ impl BigNumber {
     }
 
     pub fn from_dec(dec: &str) -> UrsaCryptoResult<BigNumber> {
+        check_digits(dec, 10)?;
         let bn = BigNum::from_dec_str(dec)?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
     pub fn from_hex(hex: &str) -> UrsaCryptoResult<BigNumber> {
+        check_digits(hex, 16)?;
         let bn = BigNum::from_hex_str(hex)?;
         Ok(BigNumber { openssl_bn: bn })
     }
diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 6f77067..5cc628d 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -49,6 +49,22 @@ macro_rules! prime_check {
     };
 }
 
+/// A decimal or hexadecimal number: digits with at most a minus sign in front of them
+fn check_digits(text: &str, radix: u32) -> UrsaCryptoResult<()> {
+    let digits = if text.starts_with('-') {
+        &text[1..]
+    } else {
+        text
+    };
+    if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix)) {
+        return Err(err_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            "Invalid number",
+        ));
+    }
+    Ok(())
+}
+
 impl BigNumber {
     pub fn new_context() -> UrsaCryptoResult<BigNumberContext> {
         Ok(BigNumberContext {})
@@ -168,12 +184,14 @@ impl BigNumber {
     }
 
     pub fn from_dec(dec: &str) -> UrsaCryptoResult<BigNumber> {
+        check_digits(dec, 10)?;
         Ok(BigNumber {
             bn: BigInt::from_str_radix(dec, 10)?,
         })
     }
 
     pub fn from_hex(hex: &str) -> UrsaCryptoResult<BigNumber> {
+        check_digits(hex, 16)?;
         Ok(BigNumber {
             bn: BigInt::from_str_radix(hex, 16)?,
         })
-- 
2.43.0


From ca1ef282eb13cfcc03f50693708217e72274696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 24/87] fix: increment and decrement of negative numbers lost
 the sign

---
 libursa/src/bn/openssl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index d9e5307..1bfd5a2 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -517,13 +517,13 @@ impl BigNumber {
     }
 
     pub fn increment(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        let mut bn = self.try_clone()?.openssl_bn;
         bn.add_word(1)?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
     pub fn decrement(&self) -> UrsaCryptoResult<BigNumber> {
-        let mut bn = BigNum::from_slice(&self.openssl_bn.to_vec())?;
+        let mut bn = self.try_clone()?.openssl_bn;
         bn.sub_word(1)?;
         Ok(BigNumber { openssl_bn: bn })
     }
-- 
2.43.0


From c339e69d3d7ba27f2b369c011a442ed1f25a2c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 25/87] fix: from_u32 dropped the upper half of the given
 number

---
 libursa/src/bn/openssl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 1bfd5a2..3779b90 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -155,7 +155,7 @@ impl BigNumber {
     }
 
     pub fn from_u32(n: usize) -> UrsaCryptoResult<BigNumber> {
-        let bn = BigNum::from_u32(n as u32)?;
+        let bn = BigNum::from_slice(&(n as u64).to_be_bytes())?;
         Ok(BigNumber { openssl_bn: bn })
     }
 
-- 
2.43.0


From 5ba582a4ba4ef9ebf268aacc5c7c04e4f98949e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 26/87] fix: inverses of negative numbers were wrong without
 OpenSSL

---
 libursa/src/bn/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 5cc628d..f34ee1c 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -415,7 +415,7 @@ impl BigNumber {
         //    return t
         //
         let (mut t, mut new_t) = (BigInt::zero(), BigInt::one());
-        let (mut r, mut new_r) = (n.clone(), self.bn.clone());
+        let (mut r, mut new_r) = (n.clone(), self.bn.mod_floor(&n));
 
         while !new_r.is_zero() {
             let quotient = &r / &new_r;
-- 
2.43.0


From 67d8f55620f9ac69f32af21322c11985d5190938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 27/87] fix: bits and shifts of negative numbers differed
 without OpenSSL

---
 libursa/src/bn/rust.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index f34ee1c..58e2404 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -165,15 +165,28 @@ impl BigNumber {
     }
 
     pub fn is_bit_set(&self, n: i32) -> UrsaCryptoResult<bool> {
-        let bits = n as usize;
-        let res = &self.bn >> bits;
+        if n < 0 {
+            return Ok(false);
+        }
+        let res = self.bn.abs() >> n as usize;
         Ok(res.is_odd())
     }
 
     pub fn set_bit(&mut self, n: i32) -> Result<&mut BigNumber, UrsaCryptoError> {
-        let bits = n as usize;
-        let mask = BigInt::one() << bits;
-        self.bn |= mask;
+        if n < 0 {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Bits have no negative numbers",
+            ));
+        }
+        if !self.is_bit_set(n)? {
+            let mask = BigInt::one() << n as usize;
+            if self.is_negative() {
+                self.bn -= mask;
+            } else {
+                self.bn += mask;
+            }
+        }
         Ok(self)
     }
 
@@ -477,12 +490,14 @@ impl BigNumber {
     }
 
     pub fn rshift1(&self) -> UrsaCryptoResult<BigNumber> {
-        Ok(BigNumber { bn: &self.bn >> 1 })
+        self.rshift(1)
     }
 
     pub fn rshift(&self, n: u32) -> UrsaCryptoResult<BigNumber> {
-        let n = n as usize;
-        Ok(BigNumber { bn: &self.bn >> n })
+        let bn = self.bn.abs() >> n as usize;
+        Ok(BigNumber {
+            bn: if self.is_negative() { -bn } else { bn },
+        })
     }
 
     pub fn mod_div(
-- 
2.43.0


From 50a440c574b3ed3c1c9e40ea22adf198217db661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 28/87] fix: zero and odd-length numbers were encoded
 differently without OpenSSL

---
 libursa/src/bn/rust.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 58e2404..f140bff 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -221,10 +221,20 @@ impl BigNumber {
     }
 
     pub fn to_hex(&self) -> UrsaCryptoResult<String> {
-        Ok(self.bn.to_str_radix(16).to_uppercase())
+        let digits = self.bn.abs().to_str_radix(16).to_uppercase();
+        let sign = if self.is_negative() { "-" } else { "" };
+        let pad = if digits.len() % 2 == 1 && !self.bn.is_zero() {
+            "0"
+        } else {
+            ""
+        };
+        Ok(format!("{}{}{}", sign, pad, digits))
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
+        if self.bn.is_zero() {
+            return Ok(vec![]);
+        }
         let (_, res) = self.bn.to_bytes_be();
         Ok(res)
     }
-- 
2.43.0


From 2b480153b553685acd95fb65234522de42098056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 29/87] fix: zero to the power of zero was zero without OpenSSL

---
 libursa/src/bn/rust.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index f140bff..7d35c55 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -393,7 +393,9 @@ impl BigNumber {
         a: &BigNumber,
         _ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
-        if self.bn.bits() == 0 {
+        if a.bn.is_zero() {
+            return BigNumber::from_u32(1);
+        } else if self.bn.is_zero() {
             return Ok(BigNumber::default());
         } else if a.bn.is_one() {
             return Ok(self.try_clone()?);
-- 
2.43.0


From 5f73da32536b5ea93560cdb6f31c86a445f3c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 30/87] fix: Carmichael numbers were taken for primes without
 OpenSSL

---
 libursa/src/bn/rust.rs | 55 ++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 7d35c55..2c3bdca 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -33,20 +33,40 @@ macro_rules! prime_generation {
     };
 }
 
-macro_rules! prime_check {
-    ($f:ident, $value:expr, $msg:expr) => {
-        if $value.is_negative() {
-            Ok(false)
-        } else {
-            match $value.bn.to_biguint() {
-                Some(bn) => Ok($f::check(&bn)),
-                None => Err(UrsaCryptoError::from_msg(
-                    UrsaCryptoErrorKind::InvalidState,
-                    $msg.to_string(),
-                )),
-            }
+/// Miller-Rabin with random bases
+fn is_probable_prime(n: &BigUint) -> bool {
+    const ROUNDS: usize = 40;
+    let one = BigUint::one();
+    let two = BigUint::from(2u32);
+
+    if n.is_even() || *n <= one {
+        return *n == two;
+    }
+    for p in [3u32, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47].iter() {
+        if (n % *p).is_zero() {
+            return *n == BigUint::from(*p);
         }
-    };
+    }
+
+    let n_minus_1 = n - &one;
+    let mut d = n_minus_1.clone();
+    let mut s = 0;
+    while d.is_even() {
+        d >>= 1;
+        s += 1;
+    }
+
+    let mut rng = OsRng::default();
+    (0..ROUNDS).all(|_| {
+        let mut x = rng.gen_biguint_range(&two, &n_minus_1).modpow(&d, n);
+        if x == one || x == n_minus_1 {
+            return true;
+        }
+        (1..s).any(|_| {
+            x = x.modpow(&two, n);
+            x == n_minus_1
+        })
+    })
 }
 
 /// A decimal or hexadecimal number: digits with at most a minus sign in front of them
@@ -118,7 +138,7 @@ impl BigNumber {
             res = rng.gen_biguint_range(&start, &end);
             res |= BigUint::one();
 
-            if prime::check(&res) {
+            if is_probable_prime(&res) {
                 debug!("Found prime in {} iteration", iteration);
                 break;
             }
@@ -135,11 +155,14 @@ impl BigNumber {
     }
 
     pub fn is_prime(&self, _ctx: Option<&mut BigNumberContext>) -> UrsaCryptoResult<bool> {
-        prime_check!(prime, self, "An error in is_prime")
+        Ok(self
+            .bn
+            .to_biguint()
+            .map_or(false, |bn| is_probable_prime(&bn)))
     }
 
     pub fn is_safe_prime(&self, _ctx: Option<&mut BigNumberContext>) -> UrsaCryptoResult<bool> {
-        prime_check!(safe_prime, self, "An error in is_safe_prime")
+        Ok(self.is_prime(None)? && self.rshift1()?.is_prime(None)?)
     }
 
     pub fn rand(size: usize) -> UrsaCryptoResult<BigNumber> {
-- 
2.43.0


From 4908ffbcba3baadc282c4f6c00ef81bad30595f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 31/87] fix: prime ranges could yield their excluded end, and
 never 2, without OpenSSL

---
 libursa/src/bn/rust.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 2c3bdca..01b789b 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -136,7 +136,6 @@ impl BigNumber {
 
         loop {
             res = rng.gen_biguint_range(&start, &end);
-            res |= BigUint::one();
 
             if is_probable_prime(&res) {
                 debug!("Found prime in {} iteration", iteration);
-- 
2.43.0


From 90f80f95e69f3844c50d5b01f3d09c5f129aac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 32/87] fix: empty ranges and zero moduli aborted the caller
 without OpenSSL

---
 libursa/src/bn/rust.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 01b789b..8739120 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -171,6 +171,12 @@ impl BigNumber {
     }
 
     pub fn rand_range(&self) -> UrsaCryptoResult<BigNumber> {
+        if !self.bn.is_positive() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Invalid range",
+            ));
+        }
         let mut rng = OsRng::default();
         let res = rng.gen_bigint_range(&BigInt::zero(), &self.bn);
         match res.to_bigint() {
@@ -367,6 +373,12 @@ impl BigNumber {
         b: &BigNumber,
         _ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
+        if b.bn.is_zero() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidState,
+                "Cannot have modulus==0",
+            ));
+        }
         if b.bn.is_one() {
             return BigNumber::new();
         }
-- 
2.43.0


From 49d65dd9865990136fd26f7a92ad3647e2794aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 33/87] fix: is_safe_prime denied that 7 is a safe prime

---
 libursa/src/bn/openssl.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/libursa/src/bn/openssl.rs b/libursa/src/bn/openssl.rs
index 3779b90..2a25135 100644
--- a/libursa/src/bn/openssl.rs
+++ b/libursa/src/bn/openssl.rs
@@ -106,16 +106,9 @@ impl BigNumber {
     pub fn is_safe_prime(&self, ctx: Option<&mut BigNumberContext>) -> UrsaCryptoResult<bool> {
         match ctx {
             Some(c) => {
-                // according to https://eprint.iacr.org/2003/186.pdf
-                // a safe prime is congruent to 2 mod 3
-
                 // a safe prime satisfies (p-1)/2 is prime. Since a
                 // prime is odd, We just need to divide by 2
-                Ok(
-                    self.modulus(&BigNumber::from_u32(3)?, Some(c))? == BigNumber::from_u32(2)?
-                        && self.is_prime(Some(c))?
-                        && self.rshift1()?.is_prime(Some(c))?,
-                )
+                Ok(self.is_prime(Some(c))? && self.rshift1()?.is_prime(Some(c))?)
             }
             None => {
                 let mut context = BigNumber::new_context()?;
-- 
2.43.0


From 6eb0795872fba58e3394883f651a74e8303857e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 34/87] fix: generated primes were shorter than asked for
 without OpenSSL

---
 libursa/src/bn/rust.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 8739120..926b889 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -21,18 +21,6 @@ pub struct BigNumber {
     bn: BigInt,
 }
 
-macro_rules! prime_generation {
-    ($f:ident, $size:ident, $msg:expr) => {
-        match $f::new($size)?.to_bigint() {
-            Some(bn) => Ok(BigNumber { bn }),
-            None => Err(UrsaCryptoError::from_msg(
-                UrsaCryptoErrorKind::InvalidState,
-                $msg.to_string(),
-            )),
-        }
-    };
-}
-
 /// Miller-Rabin with random bases
 fn is_probable_prime(n: &BigUint) -> bool {
     const ROUNDS: usize = 40;
@@ -95,11 +83,21 @@ impl BigNumber {
     }
 
     pub fn generate_prime(size: usize) -> UrsaCryptoResult<BigNumber> {
-        prime_generation!(prime, size, "Unable to generate prime")
+        loop {
+            let p = prime::new(size)?;
+            if p.bits() >= size as u64 {
+                return Ok(BigNumber { bn: p.into() });
+            }
+        }
     }
 
     pub fn generate_safe_prime(size: usize) -> UrsaCryptoResult<BigNumber> {
-        prime_generation!(safe_prime, size, "Unable to generate safe prime")
+        loop {
+            let p = safe_prime::new(size)?;
+            if p.bits() >= size as u64 {
+                return Ok(BigNumber { bn: p.into() });
+            }
+        }
     }
 
     pub fn generate_prime_in_range(
-- 
2.43.0


From bb206d327b40dab1750cce81a018735d7b382ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 35/87] fix: inverses modulo -1 were made up without OpenSSL

---
 libursa/src/bn/rust.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libursa/src/bn/rust.rs b/libursa/src/bn/rust.rs
index 926b889..c972eed 100644
--- a/libursa/src/bn/rust.rs
+++ b/libursa/src/bn/rust.rs
@@ -449,13 +449,13 @@ impl BigNumber {
         n: &BigNumber,
         _ctx: Option<&mut BigNumberContext>,
     ) -> UrsaCryptoResult<BigNumber> {
-        if n.bn.is_one() || n.bn.is_zero() {
+        let n = BigNumber::_get_modulus(&n.bn);
+        if n.is_one() || n.is_zero() {
             return Err(UrsaCryptoError::from_msg(
                 UrsaCryptoErrorKind::InvalidState,
                 "Invalid modulus".to_string(),
             ));
         }
-        let n = BigNumber::_get_modulus(&n.bn);
 
         // Euclid's extended algorithm, Bèzout coefficient of `n` is not needed
         //n is either prime or coprime
-- 
2.43.0


From 8a2e5b438add7cbb1c5c8427dd672e7d75778d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 36/87] fix: GroupOrderElement subtraction, negation of zero
 and inverse of zero

sub_mod returned the opposite of a negative difference and mod_neg(0) the
group order; inverse() of zero never returned.
---
 libursa/src/pair/amcl.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 88237f2..8616ea3 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -467,19 +467,7 @@ impl GroupOrderElement {
 
     /// (GroupOrderElement - GroupOrderElement) mod GroupOrder
     pub fn sub_mod(&self, r: &GroupOrderElement) -> UrsaCryptoResult<GroupOrderElement> {
-        //need to use modneg if sub is negative
-        let mut diff = self.bn;
-        diff.sub(&r.bn);
-        let mut zero = BIG::new();
-        zero.zero();
-
-        if diff < zero {
-            return Ok(GroupOrderElement {
-                bn: BIG::modneg(&diff, &BIG::new_ints(&CURVE_ORDER)),
-            });
-        }
-
-        Ok(GroupOrderElement { bn: diff })
+        self.add_mod(&r.mod_neg()?)
     }
 
     /// (GroupOrderElement * GroupOrderElement) mod GroupOrder
@@ -493,16 +481,29 @@ impl GroupOrderElement {
 
     /// 1 / GroupOrderElement
     pub fn inverse(&self) -> UrsaCryptoResult<GroupOrderElement> {
+        let order = BIG::new_ints(&CURVE_ORDER);
         let mut bn = self.bn;
-        bn.invmodp(&BIG::new_ints(&CURVE_ORDER));
+        bn.rmod(&order);
+        if bn.iszilch() {
+            // invmodp does not return for zero
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Zero has no inverse",
+            ));
+        }
+        bn.invmodp(&order);
 
         Ok(GroupOrderElement { bn })
     }
 
     /// - GroupOrderElement mod GroupOrder
     pub fn mod_neg(&self) -> UrsaCryptoResult<GroupOrderElement> {
+        let order = BIG::new_ints(&CURVE_ORDER);
+        // modneg wants a reduced element, and turns zero into the order
         let mut r = self.bn;
-        r = BIG::modneg(&r, &BIG::new_ints(&CURVE_ORDER));
+        r.rmod(&order);
+        r = BIG::modneg(&r, &order);
+        r.rmod(&order);
         Ok(GroupOrderElement { bn: r })
     }
 
-- 
2.43.0


From 789ac13ecda993ccbaa49d328dbc84f5372de7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 37/87] fix: reject bytes that are not a point of BN254

from_bytes read anything else as infinity, so malformed keys and signatures
verified for every message, and ignored excess bytes; the bytes of infinity
depended on how it was reached.
---
 libursa/src/pair/amcl.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 8616ea3..ffed747 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -194,8 +194,13 @@ impl PointG1 {
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
+        // the coordinates of infinity depend on how it was reached
+        let mut point = self.point;
+        if point.is_infinity() {
+            point.inf();
+        }
         let mut vec = vec![0u8; Self::BYTES_REPR_SIZE];
-        self.point.tobytes(&mut vec, false);
+        point.tobytes(&mut vec, false);
         Ok(vec)
     }
 
@@ -206,9 +211,17 @@ impl PointG1 {
                 "Invalid len of bytes representation for PointG1",
             ));
         }
-        Ok(PointG1 {
+        // frombytes returns infinity for bytes that are not a point
+        let point = PointG1 {
             point: ECP::frombytes(b),
-        })
+        };
+        if point.to_bytes()? != b {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid bytes representation for PointG1",
+            ));
+        }
+        Ok(point)
     }
 
     pub fn from_hash(hash: &[u8]) -> UrsaCryptoResult<PointG1> {
@@ -348,8 +361,13 @@ impl PointG2 {
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
+        // the coordinates of infinity depend on how it was reached
+        let mut point = self.point;
+        if point.is_infinity() {
+            point.inf();
+        }
         let mut vec = vec![0u8; Self::BYTES_REPR_SIZE];
-        self.point.tobytes(&mut vec);
+        point.tobytes(&mut vec);
         Ok(vec)
     }
 
@@ -360,9 +378,17 @@ impl PointG2 {
                 "Invalid len of bytes representation for PoingG2",
             ));
         }
-        Ok(PointG2 {
+        // frombytes returns infinity for bytes that are not a point
+        let point = PointG2 {
             point: ECP2::frombytes(b),
-        })
+        };
+        if point.to_bytes()? != b {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid bytes representation for PointG2",
+            ));
+        }
+        Ok(point)
     }
 }
 
-- 
2.43.0


From e652b2ef9767d3c732a7f19d51d105f775719408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 38/87] fix: the identity is not a verification key, nor
 (0,0,0) a point

With a zero key every message verified; (0,0,0) compares equal to every point.
---
 libursa/src/bls/mod.rs   |  4 ++++
 libursa/src/pair/amcl.rs | 29 +++++++++++++++++++++++------
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/libursa/src/bls/mod.rs b/libursa/src/bls/mod.rs
index fbc86a0..46200d2 100644
--- a/libursa/src/bls/mod.rs
+++ b/libursa/src/bls/mod.rs
@@ -577,6 +577,10 @@ impl Bls {
     where
         T: Digest,
     {
+        // With the identity as the key every message would verify
+        if ver_key.is_inf()? {
+            return Ok(false);
+        }
         let h = Bls::_hash(message, hasher)?;
         // e(&signature, &gen.point) == e(&h, &ver_key) => 1 == e(&h, &ver_key)*e(&signature, &gen.point)^-1 == e(&h, &ver_key)*e(&signature, -&gen.point)
         Pair::pair2(&signature, &gen.point.neg()?, &h, &ver_key)?.is_unity()
diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index ffed747..5a5f53a 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -188,9 +188,15 @@ impl PointG1 {
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG1> {
         _check_coordinates(str, 3)?;
-        Ok(PointG1 {
-            point: ECP::from_hex(str.to_string()),
-        })
+        let point = ECP::from_hex(str.to_string());
+        // infinity is the only element with z = 0; (0, 0, 0) equals every point
+        if point.is_infinity() && point.gety().iszilch() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid string representation for PointG1",
+            ));
+        }
+        Ok(PointG1 { point })
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
@@ -316,6 +322,11 @@ impl PointG2 {
         Ok(PointG2 { point })
     }
 
+    /// Checks infinity
+    pub fn is_inf(&self) -> UrsaCryptoResult<bool> {
+        Ok(self.point.is_infinity())
+    }
+
     /// PointG2 * PointG2
     pub fn add(&self, q: &PointG2) -> UrsaCryptoResult<PointG2> {
         let mut r = self.point;
@@ -355,9 +366,15 @@ impl PointG2 {
 
     pub fn from_string(str: &str) -> UrsaCryptoResult<PointG2> {
         _check_coordinates(str, 6)?;
-        Ok(PointG2 {
-            point: ECP2::from_hex(str.to_string()),
-        })
+        let point = ECP2::from_hex(str.to_string());
+        // infinity is the only element with z = 0; (0, 0, 0) equals every point
+        if point.is_infinity() && point.gety().iszilch() {
+            return Err(err_msg(
+                UrsaCryptoErrorKind::InvalidStructure,
+                "Invalid string representation for PointG2",
+            ));
+        }
+        Ok(PointG2 { point })
     }
 
     pub fn to_bytes(&self) -> UrsaCryptoResult<Vec<u8>> {
-- 
2.43.0


From ff37a2d27b3c9843e1c6f426a8c7a9eed7637b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 39/87] fix: Shamir sharing refuses fields without enough
 points and accepts zero shares

Identifiers repeat modulo a field that is not larger than the total; a share
whose value is zero is as good as any other; an empty encoding panicked.
---
 libursa/src/sharing/shamir.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libursa/src/sharing/shamir.rs b/libursa/src/sharing/shamir.rs
index ecd3570..a735b35 100644
--- a/libursa/src/sharing/shamir.rs
+++ b/libursa/src/sharing/shamir.rs
@@ -233,6 +233,11 @@ impl Share {
     /// Convert a share from bytes, assumes the last byte is the identifier
     pub fn from_bytes<B: AsRef<[u8]>>(data: B, modulus: &BigNumber) -> CryptoResult<Self> {
         let data = data.as_ref();
+        if data.is_empty() {
+            return Err(CryptoError::GeneralError(
+                "share cannot be empty".to_string(),
+            ));
+        }
         let value = BigNumber::from_bytes(&data[..(data.len() - 1)])?.modulus(modulus, None)?;
         let identifier = data[data.len() - 1];
         Ok(Self { identifier, value })
@@ -283,6 +288,11 @@ pub fn split_secret<B: AsRef<[u8]>>(
             "field must be greater than 1".to_string(),
         ));
     }
+    if field <= &BigNumber::from_u32(total as usize)? {
+        return Err(CryptoError::GeneralError(
+            "field must be greater than the total".to_string(),
+        ));
+    }
     let element = Element {
         modulus: field.try_clone()?,
         value: BigNumber::from_bytes(secret)?,
@@ -328,12 +338,13 @@ pub fn combine_shares<B: AsRef<[Share]>>(shares: B, field: &BigNumber) -> Crypto
     let mut x_coordinates = Vec::with_capacity(shares.len());
     let mut y_coordinates = Vec::with_capacity(shares.len());
 
+    // A single share may well be zero
+    if shares.iter().all(|share| share.value == zero) {
+        return Err(CryptoError::GeneralError(
+            "Share must have a non-zero value".to_string(),
+        ));
+    }
     for share in shares {
-        if &share.value == &zero {
-            return Err(CryptoError::GeneralError(
-                "Share must have a non-zero value".to_string(),
-            ));
-        }
         if share.identifier == 0 {
             return Err(CryptoError::GeneralError(
                 "Share must have a non-zero identifier".to_string(),
-- 
2.43.0


From bb6a820fc6a6e22f6109fced3612c4783ef723f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 40/87] fix: the identity is not a BLS12-381 key and nothing is
 not a batch

With a zero key, or keys that cancel, the identity was a valid signature of
every message.
---
 libursa/src/signatures/bls.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/libursa/src/signatures/bls.rs b/libursa/src/signatures/bls.rs
index 7c73c7f..2517855 100644
--- a/libursa/src/signatures/bls.rs
+++ b/libursa/src/signatures/bls.rs
@@ -289,6 +289,10 @@ macro_rules! bls_impl {
                 pk: &PublicKey,
                 g: &Generator,
             ) -> bool {
+                // With the identity as the key every message would verify
+                if pk.0.is_identity() {
+                    return false;
+                }
                 let hash = hash_msg(message, context);
                 $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
@@ -303,9 +307,15 @@ macro_rules! bls_impl {
                 context: Option<&'static [u8]>,
                 g: &Generator,
             ) -> bool {
+                if inputs.is_empty() {
+                    return false;
+                }
                 let mut msg_check = ::std::collections::HashSet::new();
                 let mut pairs = Vec::new();
                 for (msg, pk) in inputs {
+                    if pk.0.is_identity() {
+                        return false;
+                    }
                     let hash = hash_msg(msg, context);
                     if msg_check.contains(&hash) {
                         return false;
@@ -330,6 +340,9 @@ macro_rules! bls_impl {
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
+                    if apk.0.is_identity() {
+                        return false;
+                    }
                     let random_exponent = FieldElement::random();
                     let hash = hash_msg(msg, context);
                     sig += &asg.0 * &random_exponent;
@@ -384,6 +397,9 @@ macro_rules! bls_impl {
                 pk: &PublicKey,
                 g: &Generator,
             ) -> bool {
+                if pk.0.is_identity() {
+                    return false;
+                }
                 let hash = hash_key(pk, context);
                 $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
@@ -413,6 +429,10 @@ macro_rules! bls_impl {
                 pk: &AggregatedPublicKey,
                 g: &Generator,
             ) -> bool {
+                // With the identity as the key every message would verify
+                if pk.0.is_identity() {
+                    return false;
+                }
                 let hash = hash_msg(message, context);
                 $ate_2_pairing_is_one(&g, &self.0, &pk.0, &hash)
             }
@@ -429,6 +449,9 @@ macro_rules! bls_impl {
                 g: &Generator,
             ) -> bool {
                 let apk = pks.iter().fold(Generator::identity(), |a, p| a + &p.0);
+                if apk.is_identity() {
+                    return false;
+                }
                 let hash = hash_msg(message, context);
                 $ate_2_pairing_is_one(&g, &self.0, &apk, &hash)
             }
@@ -449,6 +472,9 @@ macro_rules! bls_impl {
                 let mut pairs = Vec::new();
                 let mut sig = SignatureGroup::identity();
                 for (msg, asg, apk) in inputs {
+                    if apk.0.is_identity() {
+                        return false;
+                    }
                     let random_exponent = FieldElement::random();
                     let hash = hash_msg(msg, context);
                     sig += &asg.0 * &random_exponent;
-- 
2.43.0


From db24b95404af43c122cb73e28c3a588b51c7ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:38 +0000
Subject: [PATCH 41/87] fix: the pairing of infinity with infinity was not one

Inverses of pairing values were not reduced either, so that equal values had
different bytes.
---
 libursa/src/pair/amcl.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libursa/src/pair/amcl.rs b/libursa/src/pair/amcl.rs
index 5a5f53a..3707bd0 100644
--- a/libursa/src/pair/amcl.rs
+++ b/libursa/src/pair/amcl.rs
@@ -648,6 +648,12 @@ impl Pair {
     pub const BYTES_REPR_SIZE: usize = MODBYTES * 16;
     /// e(PointG1, PointG2)
     pub fn pair(p: &PointG1, q: &PointG2) -> UrsaCryptoResult<Pair> {
+        // ate has no coordinates to work with when both are infinity
+        if p.is_inf()? && q.is_inf()? {
+            return Ok(Pair {
+                pair: FP12::new_int(1),
+            });
+        }
         let mut result = fexp(&ate(&q.point, &p.point));
         result.reduce();
 
@@ -656,6 +662,9 @@ impl Pair {
 
     /// e(PointG1, PointG2, PointG1_1, PointG2_1)
     pub fn pair2(p: &PointG1, q: &PointG2, r: &PointG1, s: &PointG2) -> UrsaCryptoResult<Pair> {
+        if (p.is_inf()? && q.is_inf()?) || (r.is_inf()? && s.is_inf()?) {
+            return Pair::pair(p, q)?.mul(&Pair::pair(r, s)?);
+        }
         let mut result = fexp(&ate2(&q.point, &p.point, &s.point, &r.point));
         result.reduce();
 
@@ -681,6 +690,7 @@ impl Pair {
     pub fn inverse(&self) -> UrsaCryptoResult<Pair> {
         let mut r = self.pair;
         r.conj();
+        r.reduce();
         Ok(Pair { pair: r })
     }
 
-- 
2.43.0


From 6bd1d44f7bacd5e53922aaaefac074651a668574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 42/87] fix: deserialize BBS+ types from formats that write
 bytes as a sequence

---
 libzmix/bbs/src/macros.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libzmix/bbs/src/macros.rs b/libzmix/bbs/src/macros.rs
index d15354a..34aade1 100644
--- a/libzmix/bbs/src/macros.rs
+++ b/libzmix/bbs/src/macros.rs
@@ -218,6 +218,18 @@ macro_rules! serdes_impl {
                             DError::invalid_value(serde::de::Unexpected::Bytes(value), &self)
                         })
                     }
+
+                    // Formats without a byte type, like JSON, write the bytes as a sequence
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$name, A::Error>
+                    where
+                        A: serde::de::SeqAccess<'a>,
+                    {
+                        let mut value: Vec<u8> = Vec::new();
+                        while let Some(b) = seq.next_element()? {
+                            value.push(b);
+                        }
+                        self.visit_bytes(value.as_slice())
+                    }
                 }
 
                 deserializer.deserialize_bytes(DeserializeVisitor)
-- 
2.43.0


From 5a684894bc6316a8ff1e2e24aa114799e37d9b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 43/87] fix: reject fixed length BBS+ encodings followed by
 other bytes

---
 libzmix/bbs/src/macros.rs    | 6 ++++++
 libzmix/bbs/src/signature.rs | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/libzmix/bbs/src/macros.rs b/libzmix/bbs/src/macros.rs
index 34aade1..752c5b7 100644
--- a/libzmix/bbs/src/macros.rs
+++ b/libzmix/bbs/src/macros.rs
@@ -20,6 +20,9 @@ macro_rules! from_impl {
 
             fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
                 let mut value = value;
+                if value.len() != $size {
+                    return Err(BBSErrorKind::InvalidNumberOfBytes($size, value.len()).into());
+                }
                 let inner = $type::deserialize(&mut value, true)?;
                 Ok(Self(inner))
             }
@@ -79,6 +82,9 @@ macro_rules! from_impl {
             type Error = BBSError;
 
             fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
+                if value.len() != $comp_size && value.len() != $uncomp_size {
+                    return Err(BBSErrorKind::InvalidNumberOfBytes($comp_size, value.len()).into());
+                }
                 let inner = $type::deserialize(&mut value.as_ref(), value.len() == $comp_size)?;
                 Ok(Self(inner))
             }
diff --git a/libzmix/bbs/src/signature.rs b/libzmix/bbs/src/signature.rs
index 3b130d2..97fb4be 100644
--- a/libzmix/bbs/src/signature.rs
+++ b/libzmix/bbs/src/signature.rs
@@ -85,6 +85,13 @@ macro_rules! try_from_impl {
             fn try_from(value: &[u8]) -> Result<Self, Self::Error> {
                 let mut value = value;
                 let compressed = value.len() == SIGNATURE_COMPRESSED_SIZE;
+                if !compressed && value.len() != SIGNATURE_UNCOMPRESSED_SIZE {
+                    return Err(BBSErrorKind::InvalidNumberOfBytes(
+                        SIGNATURE_COMPRESSED_SIZE,
+                        value.len(),
+                    )
+                    .into());
+                }
                 let a = G1::deserialize(&mut value, compressed)?;
                 let e = Fr::deserialize(&mut value, compressed)?;
                 let s = Fr::deserialize(&mut value, compressed)?;
-- 
2.43.0


From 3138550f8327042d9ab5d408550ec36bd0071196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 44/87] fix: check the number of generators when decoding a
 BBS+ public key

---
 libzmix/bbs/src/keys.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libzmix/bbs/src/keys.rs b/libzmix/bbs/src/keys.rs
index 9892628..7e3bd7e 100644
--- a/libzmix/bbs/src/keys.rs
+++ b/libzmix/bbs/src/keys.rs
@@ -124,7 +124,9 @@ impl PublicKey {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if (data.len() - 4) % g1_size != 0 {
+        // The commitment in G2 takes twice the space of a point in G1
+        let min_size = g1_size * 3 + 4;
+        if data.len() < min_size || (data.len() - 4) % g1_size != 0 {
             return Err(BBSErrorKind::MalformedPublicKey.into());
         }
         let mut c = Cursor::new(data);
@@ -135,6 +137,9 @@ impl PublicKey {
         c.read_exact(&mut h_bytes).unwrap();
 
         let h_size = u32::from_be_bytes(h_bytes) as usize;
+        if (data.len() - min_size) / g1_size != h_size {
+            return Err(BBSErrorKind::MalformedPublicKey.into());
+        }
         let mut h = Vec::with_capacity(h_size);
         for _ in 0..h_size {
             let p = GeneratorG1(G1::deserialize(&mut c, compressed)?);
-- 
2.43.0


From 2dc6bf3138b2353f263e8418210b6a8af40d8d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 45/87] fix: check the revealed messages when decoding a BBS+
 proof request

---
 libzmix/bbs/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index b18381e..b39a015 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -552,9 +552,23 @@ impl ProofRequest {
             return Err(BBSErrorKind::InvalidNumberOfBytes(min_len, data.len()).into());
         }
         let bitvector_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize;
+        if data.len() - 4 < bitvector_len {
+            return Err(
+                BBSErrorKind::InvalidNumberOfBytes(bitvector_len, data.len() - 4).into(),
+            );
+        }
         let offset = 4 + bitvector_len;
         let revealed_messages = bitvector_to_revealed(&data[4..offset]);
         let verification_key = PublicKey::from_bytes(&data[offset..], g1_size, compressed)?;
+        let message_count = verification_key.message_count();
+        if bitvector_len != message_count / 8 + 1
+            || revealed_messages.iter().any(|i| *i >= message_count)
+        {
+            return Err(BBSErrorKind::GeneralError {
+                msg: "The revealed messages do not fit the verification key".to_string(),
+            }
+            .into());
+        }
         Ok(Self {
             revealed_messages,
             verification_key,
-- 
2.43.0


From 2e85f66192cdfc4212063a66ff4c5b6baa78dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 46/87] fix: reject BBS+ vector commitment proofs followed by
 other bytes

---
 libzmix/bbs/src/pok_vc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/bbs/src/pok_vc.rs b/libzmix/bbs/src/pok_vc.rs
index bc922ad..68a0f6f 100644
--- a/libzmix/bbs/src/pok_vc.rs
+++ b/libzmix/bbs/src/pok_vc.rs
@@ -390,7 +390,7 @@ impl ProofG1 {
         c.read_exact(&mut length_bytes).unwrap();
         let length = u32::from_be_bytes(length_bytes) as usize;
 
-        if data.len() < g_size + 4 + length * FR_COMPRESSED_SIZE {
+        if data.len() != g_size + 4 + length * FR_COMPRESSED_SIZE {
             return Err(PoKVCErrorKind::GeneralError {
                 msg: "Invalid length".to_string(),
             }
-- 
2.43.0


From 58ca370152dffa40ae73241dd695735d94436995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 47/87] fix: check lengths when decoding a BBS+ proof of
 knowledge of a signature

---
 libzmix/bbs/src/pok_sig.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index d69aef2..5c8028f 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -450,9 +450,9 @@ impl PoKOfSignatureProof {
         g1_size: usize,
         compressed: bool,
     ) -> Result<Self, BBSError> {
-        if data.len() < g1_size * 3 {
+        if data.len() < g1_size * 3 + 4 {
             return Err(BBSError::from_kind(BBSErrorKind::PoKVCError {
-                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3),
+                msg: format!("Invalid proof bytes. Expected {}", g1_size * 3 + 4),
             }));
         }
         let mut c = Cursor::new(data);
@@ -473,6 +473,13 @@ impl PoKOfSignatureProof {
         let proof1_bytes = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
 
         offset = end;
+        if data.len() - offset < proof1_bytes {
+            return Err(BBSErrorKind::InvalidNumberOfBytes(
+                proof1_bytes,
+                data.len() - offset,
+            )
+            .into());
+        }
         end = offset + proof1_bytes;
         let proof_vc_1 = ProofG1::from_bytes(&data[offset..end], g1_size, compressed)?;
 
-- 
2.43.0


From bc2a5835c92b58f3cc31322a9514aeeec84ac9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 48/87] fix: check lengths and revealed messages when decoding
 a BBS+ signature proof

---
 libzmix/bbs/src/lib.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libzmix/bbs/src/lib.rs b/libzmix/bbs/src/lib.rs
index b39a015..21100e8 100644
--- a/libzmix/bbs/src/lib.rs
+++ b/libzmix/bbs/src/lib.rs
@@ -661,11 +661,24 @@ impl SignatureProof {
         }
 
         let proof_len = u32::from_be_bytes(*array_ref![data, 0, 4]) as usize + 4;
+        if data.len() - 4 < proof_len {
+            return Err(BBSError::from(BBSErrorKind::InvalidNumberOfBytes(
+                proof_len,
+                data.len() - 4,
+            )));
+        }
         let proof = PoKOfSignatureProof::from_bytes(&data[4..proof_len], g1_size, compressed)?;
 
         let mut offset = proof_len;
         let revealed_messages_len = u32::from_be_bytes(*array_ref![data, offset, 4]) as usize;
         offset += 4;
+        let expected = offset + revealed_messages_len * (4 + FR_COMPRESSED_SIZE);
+        if data.len() != expected {
+            return Err(BBSError::from(BBSErrorKind::InvalidNumberOfBytes(
+                expected,
+                data.len(),
+            )));
+        }
         let mut end = offset + 4;
 
         let mut revealed_messages = BTreeMap::new();
@@ -675,11 +688,18 @@ impl SignatureProof {
             offset = end;
             end = offset + FR_COMPRESSED_SIZE;
 
-            let m = SignatureMessage::from(array_ref![data, offset, FR_COMPRESSED_SIZE]);
+            let m = SignatureMessage::try_from(&data[offset..end])?;
 
             offset = end;
             end = offset + 4;
 
+            // Each message is written once, in the order of the indices
+            if revealed_messages.keys().next_back().map_or(false, |last| *last >= i) {
+                return Err(BBSErrorKind::GeneralError {
+                    msg: "The revealed messages are not in order".to_string(),
+                }
+                .into());
+            }
             revealed_messages.insert(i, m);
         }
 
-- 
2.43.0


From 4ad10247f91f344b79f7b90b27c39d6c80866b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 49/87] fix: do not panic on BBS+ proofs with too few responses

---
 libzmix/bbs/src/pok_sig.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libzmix/bbs/src/pok_sig.rs b/libzmix/bbs/src/pok_sig.rs
index 5c8028f..469312f 100644
--- a/libzmix/bbs/src/pok_sig.rs
+++ b/libzmix/bbs/src/pok_sig.rs
@@ -325,12 +325,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<SignatureMessage, BBSError> {
         // 2 elements in self.proof_vc_2.responses are reserved for `&signature.e` and `r2`
-        if msg_idx >= (self.proof_vc_2.responses.len() - 2) {
+        let resp_count = self.proof_vc_2.responses.len().saturating_sub(2);
+        if msg_idx >= resp_count {
             return Err(BBSError::from_kind(BBSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc_2.responses.len() - 2
+                    msg_idx, resp_count
                 ),
             }));
         }
-- 
2.43.0


From c866f1acb0e16886da60e82cfb10ad78b99b7b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 50/87] fix: reject message indices beyond the BBS+ public key

---
 libzmix/bbs/src/prover.rs    | 2 +-
 libzmix/bbs/src/signature.rs | 1 +
 libzmix/bbs/src/verifier.rs  | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libzmix/bbs/src/prover.rs b/libzmix/bbs/src/prover.rs
index 23c3f62..ace9a9d 100644
--- a/libzmix/bbs/src/prover.rs
+++ b/libzmix/bbs/src/prover.rs
@@ -46,7 +46,7 @@ impl Prover {
         let mut secrets = Vec::new();
         secrets.push(SignatureMessage(blinding_factor.0));
         for (i, m) in messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
diff --git a/libzmix/bbs/src/signature.rs b/libzmix/bbs/src/signature.rs
index 97fb4be..239ac19 100644
--- a/libzmix/bbs/src/signature.rs
+++ b/libzmix/bbs/src/signature.rs
@@ -183,6 +183,7 @@ impl BlindSignature {
         scalars.push(s);
 
         for (i, m) in messages.iter() {
+            check_verkey_message!(*i >= verkey.message_count(), verkey.message_count(), *i);
             points.push(verkey.h[*i].0);
             scalars.push(m.0);
         }
diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index 03d6325..faa6602 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -26,7 +26,7 @@ impl Verifier {
             .copied()
             .collect::<BTreeSet<usize>>();
         for i in &revealed_messages {
-            if *i > verkey.h.len() {
+            if *i >= verkey.h.len() {
                 return Err(BBSErrorKind::PublicKeyGeneratorMessageCountMismatch(
                     *i,
                     verkey.h.len(),
-- 
2.43.0


From 36197105f7695976a28559bc0ed2ca1456abeb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 51/87] fix: require a BBS+ signature proof to reveal the
 messages requested

---
 libzmix/bbs/src/verifier.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libzmix/bbs/src/verifier.rs b/libzmix/bbs/src/verifier.rs
index faa6602..5a32e25 100644
--- a/libzmix/bbs/src/verifier.rs
+++ b/libzmix/bbs/src/verifier.rs
@@ -46,6 +46,17 @@ impl Verifier {
         signature_proof: &SignatureProof,
         nonce: &ProofNonce,
     ) -> Result<Vec<SignatureMessage>, BBSError> {
+        // The proof must reveal exactly the messages asked for
+        if !signature_proof
+            .revealed_messages
+            .keys()
+            .eq(proof_request.revealed_messages.iter())
+        {
+            return Err(BBSErrorKind::InvalidProof {
+                status: PoKOfSignatureProofStatus::BadRevealedMessage,
+            }
+            .into());
+        }
         let mut challenge_bytes = signature_proof.proof.get_bytes_for_challenge(
             proof_request.revealed_messages.clone(),
             &proof_request.verification_key,
-- 
2.43.0


From 858cfc27c11ce86aca1c0221c6a1cc7e46a7355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 52/87] fix: serializing an ursa_sharing share recursed without
 end

---
 ursa_sharing/src/shamir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ursa_sharing/src/shamir.rs b/ursa_sharing/src/shamir.rs
index 9ce63cc..3e789d7 100644
--- a/ursa_sharing/src/shamir.rs
+++ b/ursa_sharing/src/shamir.rs
@@ -43,7 +43,7 @@ impl Share {
     /// The identifier is the first 4 bytes
     pub fn to_bytes(&self) -> Vec<u8> {
         let mut o = self.identifier.to_be_bytes().to_vec();
-        o.append(&mut self.to_bytes());
+        o.extend_from_slice(&self.value);
         o
     }
 
-- 
2.43.0


From 1a5fca85ed81c6a2872af873743efa1e45eb5414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 53/87] fix: decoding a share verifier repeated the first
 commitment

---
 ursa_sharing/src/feldman.rs  | 16 ++++++++++++----
 ursa_sharing/src/pedersen.rs | 12 ++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/ursa_sharing/src/feldman.rs b/ursa_sharing/src/feldman.rs
index 89c64db..816810e 100644
--- a/ursa_sharing/src/feldman.rs
+++ b/ursa_sharing/src/feldman.rs
@@ -159,9 +159,9 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for FeldmanVerifier<S, R> {
     type Error = SharingError;
 
     fn try_from(value: &[u8]) -> SharingResult<Self> {
-        if value.len() < R::Size::to_usize() * 2 + 4 {
+        if value.len() < R::Size::to_usize() + 4 {
             return Err(SharingError::PedersenVerifierMinSize(
-                R::Size::to_usize() * 2 + 4,
+                R::Size::to_usize() + 4,
                 value.len(),
             ));
         }
@@ -175,11 +175,19 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for FeldmanVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
-        let mut commitments = Vec::with_capacity(cs);
         offset = end;
-        end += R::Size::to_usize();
+        let expected = cs
+            .checked_mul(R::Size::to_usize())
+            .and_then(|l| l.checked_add(offset))
+            .ok_or(SharingError::InvalidPoint)?;
+        if value.len() != expected {
+            return Err(SharingError::PedersenVerifierMinSize(expected, value.len()));
+        }
+        let mut commitments = Vec::with_capacity(cs);
         for _ in 0..cs {
+            end = offset + R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
+            offset = end;
             commitments.push(ShareVerifier {
                 value: c,
                 phantom: PhantomData,
diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index f22ae4b..1e61a8c 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -207,11 +207,19 @@ impl<S: Field, R: Group<S>> TryFrom<&[u8]> for PedersenVerifier<S, R> {
         let mut c_size = [0u8; 4];
         c_size.copy_from_slice(&value[offset..end]);
         let cs = u32::from_be_bytes(c_size) as usize;
-        let mut commitments = Vec::with_capacity(cs);
         offset = end;
-        end += R::Size::to_usize();
+        let expected = cs
+            .checked_mul(R::Size::to_usize())
+            .and_then(|l| l.checked_add(offset))
+            .ok_or(SharingError::InvalidPoint)?;
+        if value.len() != expected {
+            return Err(SharingError::PedersenVerifierMinSize(expected, value.len()));
+        }
+        let mut commitments = Vec::with_capacity(cs);
         for _ in 0..cs {
+            end = offset + R::Size::to_usize();
             let c = R::from_bytes(&value[offset..end])?;
+            offset = end;
             commitments.push(ShareVerifier {
                 value: c,
                 phantom: PhantomData,
-- 
2.43.0


From 19a86223b5dbe081c083b70069fa09900159b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 54/87] fix: Pedersen shares are verified against a full
 verifier and their own blinding

---
 ursa_sharing/src/pedersen.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ursa_sharing/src/pedersen.rs b/ursa_sharing/src/pedersen.rs
index 1e61a8c..ab72a3e 100644
--- a/ursa_sharing/src/pedersen.rs
+++ b/ursa_sharing/src/pedersen.rs
@@ -95,6 +95,12 @@ impl Scheme {
         blind_share: &ShamirShare,
         verifier: &PedersenVerifier<S, R>,
     ) -> SharingResult<()> {
+        if verifier.commitments.len() < self.threshold {
+            return Err(SharingError::ShareMinThreshold);
+        }
+        if share.identifier != blind_share.identifier {
+            return Err(SharingError::ShareInvalidIdentifier);
+        }
         let s = S::from_bytes(&share.value)?;
         if !s.is_valid() {
             return Err(SharingError::ShareInvalidValue);
-- 
2.43.0


From c5a7a88a5960d52074315c98255d32484bb19599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 55/87] fix: proofs over the other group of PS signatures are
 decoded with its element size

---
 libzmix/src/signatures/ps/mod.rs     | 4 ++++
 libzmix/src/signatures/ps/pok_sig.rs | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/signatures/ps/mod.rs b/libzmix/src/signatures/ps/mod.rs
index 0e93378..857dd2a 100644
--- a/libzmix/src/signatures/ps/mod.rs
+++ b/libzmix/src/signatures/ps/mod.rs
@@ -24,6 +24,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G2")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
+#[cfg(feature = "PS_Signature_G2")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
 
 #[cfg(feature = "PS_Signature_G1")]
 pub type SignatureGroup = amcl_wrapper::group_elem_g1::G1;
@@ -44,6 +46,8 @@ pub(crate) fn ate_2_pairing(
 }
 #[cfg(feature = "PS_Signature_G1")]
 pub const SIGNATURE_GROUP_SIZE: usize = amcl_wrapper::constants::GroupG1_SIZE;
+#[cfg(feature = "PS_Signature_G1")]
+pub const OTHER_GROUP_SIZE: usize = amcl_wrapper::types_g2::GroupG2_SIZE;
 
 pub mod blind_signature;
 pub mod errors;
diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index 99f415c..e056826 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -7,10 +7,10 @@ use super::{ate_2_pairing, OtherGroup, OtherGroupVec};
 use crate::commitments::pok_vc::{PoKVCError, PoKVCErrorKind};
 use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
 use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
-use signatures::ps::{keys::Params, SIGNATURE_GROUP_SIZE};
+use signatures::ps::{keys::Params, OTHER_GROUP_SIZE};
 use std::collections::{HashMap, HashSet};
 
-// Implement proof of knowledge of committed values in a vector commitment for `SignatureGroup`
+// Implement proof of knowledge of committed values in a vector commitment for `OtherGroup`
 
 impl_PoK_VC!(
     ProverCommittingOtherGroup,
@@ -18,7 +18,7 @@ impl_PoK_VC!(
     ProofOtherGroup,
     OtherGroup,
     OtherGroupVec,
-    SIGNATURE_GROUP_SIZE
+    OTHER_GROUP_SIZE
 );
 
 /*
-- 
2.43.0


From 944d8ef5a5528e6c7d542480297fd4235152ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 56/87] fix: verifying a PS signature proof with an index out
 of range gives an error

---
 libzmix/src/signatures/ps/pok_sig.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/signatures/ps/pok_sig.rs b/libzmix/src/signatures/ps/pok_sig.rs
index e056826..f44badc 100644
--- a/libzmix/src/signatures/ps/pok_sig.rs
+++ b/libzmix/src/signatures/ps/pok_sig.rs
@@ -185,12 +185,12 @@ impl PoKOfSignatureProof {
     /// Used when comparing message equality
     pub fn get_resp_for_message(&self, msg_idx: usize) -> Result<FieldElement, PSError> {
         // 1 element in self.proof_vc.responses is reserved for the random `t`
-        if msg_idx >= (self.proof_vc.responses.len() - 1) {
+        let hidden_msg_count = self.proof_vc.responses.len().saturating_sub(1);
+        if msg_idx >= hidden_msg_count {
             return Err(PSErrorKind::GeneralError {
                 msg: format!(
                     "Message index was given {} but should be less than {}",
-                    msg_idx,
-                    self.proof_vc.responses.len() - 1
+                    msg_idx, hidden_msg_count
                 ),
             }
             .into());
@@ -211,6 +211,15 @@ impl PoKOfSignatureProof {
             return Ok(false);
         }
 
+        for idx in revealed_msgs.keys() {
+            if *idx >= vk.Y_tilde.len() {
+                return Err(PSErrorKind::GeneralError {
+                    msg: format!("Index {} should be less than {}", idx, vk.Y_tilde.len()),
+                }
+                .into());
+            }
+        }
+
         // +1 for `t`
         let hidden_msg_count = vk.Y_tilde.len() - revealed_msgs.len() + 1;
         let mut bases = OtherGroupVec::with_capacity(hidden_msg_count);
-- 
2.43.0


From 17cd8bad41f586dc30d55a7a222ab321d28c6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 57/87] fix: batch verification of Groth2 signatures in a chain
 reused the coefficients of other links

---
 libzmix/src/signatures/delg_cred_cdd/groth_sig.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 1b7c67b..921321b 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -492,7 +492,7 @@ impl Groth2Sig {
             temp.push(var_time_mul_scl_mul_with_same_field_element!(
                 G1,
                 G1LookupTable,
-                r_vec[i + 1],
+                r_vec[r_vec_offset + i + 1],
                 &setup_params.g1,
                 &verkey.0,
                 &negR
-- 
2.43.0


From 951baa3789ef3e486ac44fb7c276c1a4d7d73ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 58/87] fix: verifying a Groth signature over another number of
 messages panicked or accepted it

---
 .../src/signatures/delg_cred_cdd/groth_sig.rs | 20 +++++++++++++++++++
 .../src/signatures/delg_cred_cdd/issuer.rs    |  6 ++++++
 2 files changed, 26 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
index 921321b..2a52920 100644
--- a/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/groth_sig.rs
@@ -212,6 +212,11 @@ impl Groth1Sig {
             .into());
         }
 
+        // The signature has one `T` per message
+        if messages.len() != self.T.len() {
+            return Ok(false);
+        }
+
         // e(S, R) == e(y_0, g2) * (g1, V) => e(y_0, g2) * (g1, V) * e(S, R)^-1 == 1 => e(y_0, g2) * (g1, V) * e(S^-1, R) == 1
         let negS = self.S.negation();
         let e0 = GT::ate_multi_pairing(vec![
@@ -263,6 +268,11 @@ impl Groth1Sig {
             .into());
         }
 
+        // The signature has one `T` per message
+        if messages.len() != self.T.len() {
+            return Ok(false);
+        }
+
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
         let r_vec = FieldElementVector::new_vandermonde_vector(&r, messages.len() + 1);
@@ -384,6 +394,11 @@ impl Groth2Sig {
             .into());
         }
 
+        // The signature has one `T` per message
+        if messages.len() != self.T.len() {
+            return Ok(false);
+        }
+
         // e(R, S) == e(g1, y_0) * (V, g2) => 1 == e(g1, y_0) * (V, g2) * e(R, S)^-1 => 1 == e(g1, y_0) * (V, g2) * e(R^-1, S)
         let negR = self.R.negation();
         let e0 = GT::ate_multi_pairing(vec![
@@ -434,6 +449,11 @@ impl Groth2Sig {
             .into());
         }
 
+        // The signature has one `T` per message
+        if messages.len() != self.T.len() {
+            return Ok(false);
+        }
+
         let mut pairing_elems: Vec<(G1, G2)> = vec![];
         let r = FieldElement::random();
         let r_vec = FieldElementVector::new_vandermonde_vector(&r, messages.len() + 1);
diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index 7b3229e..701cc77 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -352,6 +352,9 @@ impl CredChain {
                 }
                 // Validate the link
                 link.validate(odd_level_vks[idx], setup_params_1)?;
+                if link.attributes.len() != link.signature.T.len() {
+                    return Ok(false);
+                }
                 // Accumulate values for the multi-pairing
                 Groth1Sig::prepare_for_pairing_checks(
                     &mut pairing_elems,
@@ -374,6 +377,9 @@ impl CredChain {
                 }
                 // Validate the link
                 link.validate(even_level_vks[i / 2], setup_params_2)?;
+                if link.attributes.len() != link.signature.T.len() {
+                    return Ok(false);
+                }
                 // Accumulate values for the multi-pairing
                 Groth2Sig::prepare_for_pairing_checks(
                     &mut pairing_elems,
-- 
2.43.0


From 213a991402517d8e0d5c671f38ecd0284688c241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 59/87] fix: delegation chains with missing levels or empty
 links panicked

---
 .../src/signatures/delg_cred_cdd/issuer.rs    | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/issuer.rs b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
index 701cc77..025c850 100644
--- a/libzmix/src/signatures/delg_cred_cdd/issuer.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/issuer.rs
@@ -30,7 +30,7 @@ macro_rules! impl_CredLink {
             }
 
             pub fn has_verkey(&self, vk: &$delegatee_vk) -> bool {
-                self.attributes[self.attributes.len() - 1] == vk.0
+                self.attributes.len() != 0 && self.attributes[self.attributes.len() - 1] == vk.0
             }
 
             /// Check that link correct number of attributes, has the delegatee's verkey and has
@@ -199,7 +199,7 @@ impl CredChain {
             }
             .into());
         } else if self.odd_size() != 0
-            && ((link.level - self.odd_links[self.odd_size() - 1].level) != 2)
+            && (link.level != self.odd_links[self.odd_size() - 1].level + 2)
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.odd_links[self.odd_size() - 1].level + 2,
@@ -222,7 +222,7 @@ impl CredChain {
             }
             .into());
         } else if self.even_size() != 0
-            && ((link.level - self.even_links[self.even_size() - 1].level) != 2)
+            && (link.level != self.even_links[self.even_size() - 1].level + 2)
         {
             return Err(DelgCredCDDErrorKind::UnexpectedLevel {
                 expected: self.even_links[self.even_size() - 1].level + 2,
@@ -411,6 +411,7 @@ impl CredChain {
             }
             .into());
         }
+        self.validate_alternation()?;
         let mut new_chain = CredChain::new();
         for i in 1..=size {
             if (i % 2) == 1 {
@@ -424,6 +425,25 @@ impl CredChain {
         Ok(new_chain)
     }
 
+    /// Check that the odd and even links alternate, i.e. no level of the chain is missing a link.
+    fn validate_alternation(&self) -> DelgCredCDDResult<()> {
+        if self.odd_size() > self.even_size() + 1 {
+            return Err(DelgCredCDDErrorKind::NoEvenLinkInChainAtGivenIndex {
+                given_index: self.even_size(),
+                size: self.even_size(),
+            }
+            .into());
+        }
+        if self.even_size() > self.odd_size() {
+            return Err(DelgCredCDDErrorKind::NoOddLinkInChainAtGivenIndex {
+                given_index: self.odd_size(),
+                size: self.odd_size(),
+            }
+            .into());
+        }
+        Ok(())
+    }
+
     /// Check that the chain is non-empty and there are correct number of odd and even level verkeys.
     fn validate(
         &self,
@@ -434,6 +454,7 @@ impl CredChain {
         if size == 0 {
             return Err(DelgCredCDDErrorKind::ChainEmpty {}.into());
         }
+        self.validate_alternation()?;
         if (even_level_vks.len() + odd_level_vks.len()) != (size + 1) {
             return Err(DelgCredCDDErrorKind::IncorrectNumberOfVerkeys {
                 expected: size + 1,
-- 
2.43.0


From 36968af5e9d3647baae248c980744dd6c33915d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 60/87] fix: the bytes of an attribute token commitment
 depended on the order of a hash map

---
 .../src/signatures/delg_cred_cdd/attribute_token.rs    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 6b8da89..4efd18f 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -1324,13 +1324,19 @@ impl AttributeTokenComm {
             }
         }
         for r_map in &self.odd_level_revealed_attributes {
-            for e in r_map.iter() {
+            // Iteration over a hash map is in an arbitrary order but prover and verifier need the same one
+            let mut entries = r_map.iter().collect::<Vec<_>>();
+            entries.sort_by_key(|e| e.0);
+            for e in entries {
                 bytes.extend_from_slice(e.0.to_string().as_bytes());
                 bytes.extend_from_slice(&e.1.to_bytes());
             }
         }
         for r_map in &self.even_level_revealed_attributes {
-            for e in r_map.iter() {
+            // Iteration over a hash map is in an arbitrary order but prover and verifier need the same one
+            let mut entries = r_map.iter().collect::<Vec<_>>();
+            entries.sort_by_key(|e| e.0);
+            for e in entries {
                 bytes.extend_from_slice(e.0.to_string().as_bytes());
                 bytes.extend_from_slice(&e.1.to_bytes());
             }
-- 
2.43.0


From f1b5cf383882b15dbbbd19e0ac1d34df9150aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 61/87] fix: a malformed attribute token panicked its verifier
 or carried unverified attributes

---
 .../delg_cred_cdd/attribute_token.rs          | 79 +++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index 4efd18f..a7a2d1c 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -401,6 +401,7 @@ impl<'a> AttributeToken<'a> {
     ) -> DelgCredCDDResult<AttributeTokenComm> {
         comm.validate(L)?;
         resp.validate(L)?;
+        comm.validate_response(resp, &revealed)?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
@@ -935,6 +936,7 @@ impl<'a> AttributeToken<'a> {
     ) -> DelgCredCDDResult<AttributeTokenComm> {
         comm.validate(L)?;
         resp.validate(L)?;
+        comm.validate_response(resp, &revealed)?;
 
         let mut comms_s = Vec::<GT>::with_capacity(L);
         let mut comms_t = Vec::<Vec<GT>>::with_capacity(L);
@@ -1307,6 +1309,70 @@ impl AttributeTokenComm {
         Ok(())
     }
 
+    /// Check that the response has as many elements as the commitment in each level and that the
+    /// revealed attributes in the commitment are the expected ones.
+    fn validate_response(
+        &self,
+        resp: &AttributeTokenResp,
+        revealed: &[HashSet<usize>],
+    ) -> DelgCredCDDResult<()> {
+        if revealed.len() != self.comms_t.len() {
+            return Err(
+                DelgCredCDDErrorKind::IncorrectNumberOfRevealedAttributeSets {
+                    expected: self.comms_t.len(),
+                    given: revealed.len(),
+                }
+                .into(),
+            );
+        }
+        for i in 1..=self.comms_t.len() {
+            let (given, count_t, count_a) = if i % 2 == 1 {
+                (
+                    self.odd_level_revealed_attributes[i / 2]
+                        .keys()
+                        .cloned()
+                        .collect::<HashSet<usize>>(),
+                    resp.odd_level_resp_t[i / 2].len(),
+                    resp.odd_level_resp_a[i / 2].len(),
+                )
+            } else {
+                (
+                    self.even_level_revealed_attributes[(i / 2) - 1]
+                        .keys()
+                        .cloned()
+                        .collect::<HashSet<usize>>(),
+                    resp.even_level_resp_t[(i / 2) - 1].len(),
+                    resp.even_level_resp_a[(i / 2) - 1].len(),
+                )
+            };
+            let attr_count = self.comms_t[i - 1].len();
+            if attr_count == 0 || count_t != attr_count {
+                return Err(DelgCredCDDErrorKind::UnequalNoOfCommitmentAndResponses {
+                    count_commitments: attr_count,
+                    count_responses: count_t,
+                    entity_type: "t from signature".to_string(),
+                }
+                .into());
+            }
+            // Last attribute is the verkey which cannot be revealed
+            if given != revealed[i - 1] || given.iter().any(|j| *j >= attr_count - 1) {
+                return Err(DelgCredCDDErrorKind::GeneralError {
+                    msg: format!("revealed attributes of level {} are not as expected", i),
+                }
+                .into());
+            }
+            if count_a != attr_count - 1 - given.len() {
+                return Err(DelgCredCDDErrorKind::UnequalNoOfCommitmentAndResponses {
+                    count_commitments: attr_count - 1 - given.len(),
+                    count_responses: count_a,
+                    entity_type: "attributes".to_string(),
+                }
+                .into());
+            }
+        }
+        Ok(())
+    }
+
     pub fn to_bytes(&self) -> Vec<u8> {
         let mut bytes = Vec::<u8>::new();
         for c in self.comms_s.iter() {
@@ -1364,6 +1430,19 @@ impl AttributeTokenResp {
             }
             .into());
         }
+
+        check_odd_collection_length!(self.odd_level_resp_s, L, "s from signature".to_string())?;
+        check_even_collection_length!(self.even_level_resp_s, L, "s from signature".to_string())?;
+        check_odd_collection_length!(self.odd_level_resp_t, L, "t from signature".to_string())?;
+        check_even_collection_length!(self.even_level_resp_t, L, "t from signature".to_string())?;
+        check_odd_collection_length!(self.odd_level_resp_a, L, "attributes".to_string())?;
+        check_even_collection_length!(self.even_level_resp_a, L, "attributes".to_string())?;
+        // There is a response for the verkey of each level but the last one
+        if L > 0 {
+            let last = L - 1;
+            check_odd_collection_length!(self.odd_level_resp_vk, last, "verkeys".to_string())?;
+            check_even_collection_length!(self.even_level_resp_vk, last, "verkeys".to_string())?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From 900608ab4a57a7b84da3d8f834b65cd97a2a03ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 62/87] fix: presenting attributes that a delegation link lacks
 panicked

---
 .../delg_cred_cdd/attribute_token.rs          | 54 +++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index a7a2d1c..eb99858 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -240,6 +240,27 @@ impl<'a> AttributeToken<'a> {
         odd_level_vks: Vec<&OddLevelVerkey>,
     ) -> DelgCredCDDResult<AttributeTokenResp> {
         at.validate(self.L)?;
+        if self.blindings_s.len() != self.L {
+            return Err(DelgCredCDDErrorKind::GeneralError {
+                msg: format!("response needs a commitment"),
+            }
+            .into());
+        }
+        // Verkeys are needed for each level but the last one
+        if odd_level_vks.len() < self.L / 2 {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfOddLevelVerkeys {
+                expected: self.L / 2,
+                given: odd_level_vks.len(),
+            }
+            .into());
+        }
+        if self.L > 0 && even_level_vks.len() < (self.L - 1) / 2 {
+            return Err(DelgCredCDDErrorKind::IncorrectNumberOfEvenLevelVerkeys {
+                expected: (self.L - 1) / 2,
+                given: even_level_vks.len(),
+            }
+            .into());
+        }
 
         let mut resp_csk = FieldElement::zero();
         let mut odd_level_resp_vk = G1Vector::new(0);
@@ -716,6 +737,39 @@ impl<'a> AttributeToken<'a> {
             );
         }
 
+        for i in 1..=self.L {
+            let (attr_count, max_attr_count) = if i % 2 == 1 {
+                let link = self.cred_chain.get_odd_link(i / 2)?;
+                (link.attribute_count(), self.setup_params_1.y.len())
+            } else {
+                let link = self.cred_chain.get_even_link((i / 2) - 1)?;
+                (link.attribute_count(), self.setup_params_2.y.len())
+            };
+            if attr_count > max_attr_count {
+                return Err(DelgCredCDDErrorKind::MoreAttributesThanExpected {
+                    expected: max_attr_count,
+                    given: attr_count,
+                }
+                .into());
+            }
+            // Last attribute is the verkey which cannot be revealed
+            if attr_count == 0 || revealed[i - 1].iter().any(|j| *j >= attr_count - 1) {
+                return Err(DelgCredCDDErrorKind::GeneralError {
+                    msg: format!("level {} has no such attribute to reveal", i),
+                }
+                .into());
+            }
+        }
+
+        // Drop what an earlier commitment left
+        self.odd_level_blinded_sigs.clear();
+        self.even_level_blinded_sigs.clear();
+        self.blindings_sigs = FieldElementVector::with_capacity(self.L);
+        self.blindings_vk = FieldElementVector::with_capacity(self.L);
+        self.blindings_s = FieldElementVector::with_capacity(self.L);
+        self.blindings_t.clear();
+        self.blindings_a.clear();
+
         let mut odd_level_revealed_attributes =
             Vec::<HashMap<usize, OddLevelAttribute>>::with_capacity(self.L);
         let mut even_level_revealed_attributes =
-- 
2.43.0


From 92fdcad3d0c0dfa3e00df51acae61cc57fab465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 63/87] fix: proofs of verifiable encryption were accepted for
 ciphertexts that cannot be decrypted

---
 .../cs_verifiable_encryption.rs               | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index 0a85479..ae57e2b 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -354,12 +354,31 @@ pub fn reconstruct_blindings_ciphertext(
         ));
     }
 
+    if message_s_values.len() != ciphertext.e.len() {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!(
+                "number of messages {} is not equal to the number of encrypted messages {}",
+                message_s_values.len(),
+                ciphertext.e.len()
+            ),
+        ));
+    }
+
     let challenge = &(challenge.lshift1()?);
     let r_hat = &(r_hat.lshift1()?);
 
     let paillier_group = &pub_key.paillier_group;
     let mut ctx = BigNumber::new_context()?;
 
+    // The blindings are the same for v and -v but only one of them can be decrypted
+    if ciphertext.v != paillier_group.abs(&ciphertext.v, Some(&mut ctx))? {
+        return Err(UrsaCryptoError::from_msg(
+            UrsaCryptoErrorKind::InvalidStructure,
+            format!("absolute check failed for v {:?}", &ciphertext.v),
+        ));
+    }
+
     let u_c = paillier_group.exponentiate(&ciphertext.u, challenge, Some(&mut ctx))?;
     let g_r_hat = paillier_group.exponentiate_g(r_hat, Some(&mut ctx))?;
     // Reconstruct u blinding
-- 
2.43.0


From 979ec57ae04f5e96fdd515a1bac610120679cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 64/87] fix: a malformed inner product argument panicked its
 verifier

---
 libzmix/bulletproofs_amcl/src/ipp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/ipp.rs b/libzmix/bulletproofs_amcl/src/ipp.rs
index a5fd701..6a8407d 100644
--- a/libzmix/bulletproofs_amcl/src/ipp.rs
+++ b/libzmix/bulletproofs_amcl/src/ipp.rs
@@ -225,7 +225,11 @@ impl IPP {
         // The prover does not have access to all the challenges in the beginning but the verifier does.
         // The verifier uses all the challenges to compute scalars such that it can efficiently compute
         // the final g, h, L^{x^2}, L^{x^-2}
-        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript).unwrap();
+        let (x_sq, x_inv_sq, s) = Self::verification_scalars(L_vec, R_vec, n, transcript)?;
+
+        if G_vec.len() != n || H_vec.len() != n || G_factors.len() != n || H_factors.len() != n {
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
 
         let g_times_a_times_s = G_factors
             .iter()
@@ -283,6 +287,10 @@ impl IPP {
             // and this check prevents overflow in 1<<lg_n below.
             return Err(BulletproofErrorKind::IPPVerificationError.into());
         }
+        if R_vec.len() != lg_n {
+            // each round gives an L and an R
+            return Err(BulletproofErrorKind::IPPVerificationError.into());
+        }
         if n != (1 << lg_n) {
             // n is not a power of 2
             return Err(BulletproofErrorKind::IPPVerificationError.into());
-- 
2.43.0


From 7837648a27b65e89e04c2a84845ea8ca8a03d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 65/87] fix: circuits needing more H generators than given
 panicked

---
 libzmix/bulletproofs_amcl/src/r1cs/prover.rs   | 8 ++++----
 libzmix/bulletproofs_amcl/src/r1cs/verifier.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
index 183493f..55c00ef 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/prover.rs
@@ -335,9 +335,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         // Commit to the first-phase low-level witness variables.
         let n1 = self.a_L.len();
 
-        if G.len() < n1 {
+        if G.len() < n1 || H.len() < n1 {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: n1,
             }
             .into());
@@ -388,9 +388,9 @@ impl<'a, 'b> Prover<'a, 'b> {
         let padded_n = n.next_power_of_two();
         let pad = padded_n - n;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: padded_n,
             }
             .into());
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index bdd342b..7527813 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -301,9 +301,9 @@ impl<'a> Verifier<'a> {
 
         use std::iter;
 
-        if G.len() < padded_n {
+        if G.len() < padded_n || H.len() < padded_n {
             return Err(R1CSErrorKind::InvalidGeneratorsLength {
-                length: G.len(),
+                length: G.len().min(H.len()),
                 expected: padded_n,
             }
             .into());
-- 
2.43.0


From 78e5e874208043ba3b62bd1130eaf03af719d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:06 +0000
Subject: [PATCH 66/87] hook: the constraints of a verifier, behind
 cfg(ursa_verif)

---
 libzmix/bulletproofs_amcl/src/r1cs/verifier.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
index 7527813..7a755cd 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/verifier.rs
@@ -68,6 +68,15 @@ pub struct RandomizingVerifier<'a> {
     verifier: Verifier<'a>,
 }
 
+/// What this verifier enforces so far: the numbers of committed values and of multipliers, and
+/// the linear constraints. Only for verification tools.
+#[cfg(ursa_verif)]
+impl<'a> Verifier<'a> {
+    pub fn system(&self) -> (usize, usize, &[LinearCombination]) {
+        (self.V.len(), self.num_vars, &self.constraints)
+    }
+}
+
 impl<'a> Verifier<'a> {
     /// Construct an empty constraint system with specified external
     /// input variables.
-- 
2.43.0


From 0e10cfdd40e075baf645f8c8a55f7b595e4494e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 67/87] fix: gadget verifiers panicked when a prover sent too
 few commitments

---
 .../src/r1cs/gadgets/bound_check.rs                  |  7 ++++---
 .../src/r1cs/gadgets/helper_constraints/mod.rs       | 12 ++++++++++++
 libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs   |  5 +++--
 .../bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs   |  5 +++--
 .../src/r1cs/gadgets/poseidon_hash.rs                |  9 +++++----
 .../src/r1cs/gadgets/set_membership.rs               |  5 +++--
 .../src/r1cs/gadgets/set_membership_alt.rs           |  5 +++--
 .../src/r1cs/gadgets/set_non_membership.rs           |  7 ++++---
 .../src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs     |  5 +++--
 .../src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs     |  5 +++--
 10 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index 9ed8056..e39c552 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::next_commitment;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
@@ -100,19 +101,19 @@ pub fn verify_bounded_num(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
-    let var_v = verifier.commit(commitments.remove(0));
+    let var_v = verifier.commit(next_commitment(&mut commitments)?);
     let quantity_v = AllocatedQuantity {
         variable: var_v,
         assignment: None,
     };
 
-    let var_a = verifier.commit(commitments.remove(0));
+    let var_a = verifier.commit(next_commitment(&mut commitments)?);
     let quantity_a = AllocatedQuantity {
         variable: var_a,
         assignment: None,
     };
 
-    let var_b = verifier.commit(commitments.remove(0));
+    let var_b = verifier.commit(next_commitment(&mut commitments)?);
     let quantity_b = AllocatedQuantity {
         variable: var_b,
         assignment: None,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
index 878a3ac..194f798 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
@@ -3,6 +3,7 @@ use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::constants::MODBYTES;
 use amcl_wrapper::field_elem::FieldElement;
+use amcl_wrapper::group_elem_g1::G1;
 
 use rand::{CryptoRng, Rng};
 
@@ -15,6 +16,17 @@ pub mod sparse_merkle_tree_4_ary;
 pub mod sparse_merkle_tree_8_ary;
 pub mod vector_sum;
 
+/// Take the next of the commitments sent by a prover
+pub fn next_commitment(commitments: &mut Vec<G1>) -> Result<G1, R1CSError> {
+    if commitments.is_empty() {
+        return Err(R1CSErrorKind::GadgetError {
+            description: String::from("Fewer commitments than the gadget needs"),
+        }
+        .into());
+    }
+    Ok(commitments.remove(0))
+}
+
 /// Constrain a linear combination to be equal to a scalar
 pub fn constrain_lc_with_scalar<CS: ConstraintSystem>(
     cs: &mut CS,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
index 3723081..1ae9c89 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/mimc.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::next_commitment;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{Prover, R1CSProof, Verifier};
 use amcl_wrapper::field_elem::FieldElement;
@@ -43,8 +44,8 @@ pub fn verify_mimc_preimage(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
-    let var_l = verifier.commit(commitments.remove(0));
-    let var_r = verifier.commit(commitments.remove(0));
+    let var_l = verifier.commit(next_commitment(&mut commitments)?);
+    let var_r = verifier.commit(next_commitment(&mut commitments)?);
 
     mimc_gadget(verifier, var_l.into(), var_r.into(), &constants, &image)?;
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
index 234321d..9408f4a 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/non_zero.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::next_commitment;
 use super::helper_constraints::non_zero::is_nonzero_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{Prover, R1CSProof, Verifier};
@@ -37,9 +38,9 @@ pub fn verify_non_zero_val(
     mut commitments: Vec<G1>,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
-    let var_val = verifier.commit(commitments.remove(0));
+    let var_val = verifier.commit(next_commitment(&mut commitments)?);
 
-    let var_val_inv = verifier.commit(commitments.remove(0));
+    let var_val_inv = verifier.commit(next_commitment(&mut commitments)?);
 
     is_nonzero_gadget(verifier, var_val, var_val_inv)?;
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
index a7aa0cc..5cb0b80 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/poseidon_hash.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::next_commitment;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{Prover, R1CSProof, Variable, Verifier};
 use amcl_wrapper::field_elem::FieldElement;
@@ -93,8 +94,8 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_2(
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
-    let lv = verifier.commit(commitments.remove(0));
-    let rv = verifier.commit(commitments.remove(0));
+    let lv = verifier.commit(next_commitment(&mut commitments)?);
+    let rv = verifier.commit(next_commitment(&mut commitments)?);
 
     let statics = allocate_capacity_const_for_verifier(verifier, CAP_CONST_W_3, g, h);
 
@@ -239,7 +240,7 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_4(
     let mut allocs = vec![];
 
     for _ in 0..4 {
-        let var = verifier.commit(commitments.remove(0));
+        let var = verifier.commit(next_commitment(&mut commitments)?);
         allocs.push(var);
     }
 
@@ -392,7 +393,7 @@ pub fn verify_knowledge_of_preimage_of_Poseidon_8(
     let mut vars = vec![];
 
     for _ in 0..8 {
-        let var = verifier.commit(commitments.remove(0));
+        let var = verifier.commit(next_commitment(&mut commitments)?);
         vars.push(var);
     }
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
index c5207d3..32eb5f3 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::next_commitment;
 use super::helper_constraints::constrain_lc_with_scalar;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
@@ -85,10 +86,10 @@ pub fn verify_set_membership(
 
     let mut diff_vars = vec![];
 
-    let var_val = verifier.commit(commitments.remove(0));
+    let var_val = verifier.commit(next_commitment(&mut commitments)?);
 
     for _ in 1..=set_length {
-        let var_diff = verifier.commit(commitments.remove(0));
+        let var_diff = verifier.commit(next_commitment(&mut commitments)?);
         diff_vars.push(var_diff);
     }
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 52fe0a6..b5fe695 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::next_commitment;
 use super::helper_constraints::bit::bit_gadget;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::vector_sum::vector_sum_constraints;
@@ -139,7 +140,7 @@ pub fn verify_set_membership_alt(
     let mut bit_allocs = vec![];
 
     for _ in 0..set_length {
-        let var = verifier.commit(commitments.remove(0));
+        let var = verifier.commit(next_commitment(&mut commitments)?);
         bit_vars.push(var.clone());
         let quantity = AllocatedQuantity {
             variable: var,
@@ -151,7 +152,7 @@ pub fn verify_set_membership_alt(
 
     vector_sum_constraints(verifier, bit_vars, 1);
 
-    let var_val = verifier.commit(commitments.remove(0));
+    let var_val = verifier.commit(next_commitment(&mut commitments)?);
     let quantity_value = AllocatedQuantity {
         variable: var_val,
         assignment: None,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
index d14ebf3..18fc2ab 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_non_membership.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::next_commitment;
 use super::helper_constraints::constrain_lc_with_scalar;
 use super::helper_constraints::non_zero::is_nonzero_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
@@ -87,13 +88,13 @@ pub fn verify_set_non_membership(
     let mut diff_vars = vec![];
     let mut diff_inv_vars = vec![];
 
-    let var_val = verifier.commit(commitments.remove(0));
+    let var_val = verifier.commit(next_commitment(&mut commitments)?);
 
     for _ in 1..set_length + 1 {
-        let var_diff = verifier.commit(commitments.remove(0));
+        let var_diff = verifier.commit(next_commitment(&mut commitments)?);
         diff_vars.push(var_diff);
 
-        let var_diff_inv = verifier.commit(commitments.remove(0));
+        let var_diff_inv = verifier.commit(next_commitment(&mut commitments)?);
         diff_inv_vars.push(var_diff_inv);
     }
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index d88dedb..f52f397 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::next_commitment;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{Prover, R1CSProof, Verifier};
@@ -86,7 +87,7 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree<MTHC: Arity4MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
-    let var_leaf_idx = verifier.commit(commitments.remove(0));
+    let var_leaf_idx = verifier.commit(next_commitment(&mut commitments)?);
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
         assignment: None,
@@ -94,7 +95,7 @@ pub fn verify_leaf_inclusion_4_ary_merkle_tree<MTHC: Arity4MerkleTreeHashConstra
 
     let leaf = match leaf_val {
         Some(v) => LeafValueType::Known(v),
-        None => LeafValueType::Hidden(verifier.commit(commitments.remove(0))),
+        None => LeafValueType::Hidden(verifier.commit(next_commitment(&mut commitments)?)),
     };
 
     let mut proof_vars = vec![];
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
index a82e21d..ac517f2 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_8_ary.rs
@@ -1,3 +1,4 @@
+use super::helper_constraints::next_commitment;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{Prover, R1CSProof, Verifier};
@@ -87,7 +88,7 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree<MTHC: Arity8MerkleTreeHashConstra
     h: &G1,
     verifier: &mut Verifier,
 ) -> Result<(), R1CSError> {
-    let var_leaf_idx = verifier.commit(commitments.remove(0));
+    let var_leaf_idx = verifier.commit(next_commitment(&mut commitments)?);
     let leaf_idx_alloc_scalar = AllocatedQuantity {
         variable: var_leaf_idx,
         assignment: None,
@@ -95,7 +96,7 @@ pub fn verify_leaf_inclusion_8_ary_merkle_tree<MTHC: Arity8MerkleTreeHashConstra
 
     let leaf = match leaf_val {
         Some(v) => LeafValueType::Known(v),
-        None => LeafValueType::Hidden(verifier.commit(commitments.remove(0))),
+        None => LeafValueType::Hidden(verifier.commit(next_commitment(&mut commitments)?)),
     };
 
     let mut proof_vars = vec![];
-- 
2.43.0


From 3123170da0c8680147d6d1b2e088d62bac3a0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 68/87] fix: proving a value outside its bounds panicked

---
 .../src/r1cs/gadgets/bound_check.rs                | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index e39c552..c78ebfd 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -22,6 +22,13 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     min: u64,
     n: usize,
 ) -> Result<(), R1CSError> {
+    if max < min {
+        return Err(R1CSErrorKind::GadgetError {
+            description: String::from("The upper bound is less than the lower bound"),
+        }
+        .into());
+    }
+
     // a = v - min
     // b = max - v
     // a + b = max - min
@@ -52,6 +59,13 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
 ) -> Result<Vec<G1>, R1CSError> {
     check_for_blindings_or_rng!(blinding, rng)?;
 
+    if val < lower || val > upper {
+        return Err(R1CSErrorKind::GadgetError {
+            description: String::from("The value is not within the bounds"),
+        }
+        .into());
+    }
+
     let a = val - lower;
     let b = upper - val;
 
-- 
2.43.0


From dc90c53c6f04b0795d8f493c4d1d7b0fa251e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 69/87] fix: set membership by toggles could be proved for
 zero, not in the set

---
 .../bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index b5fe695..3d70021 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -58,6 +58,8 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
                 .as_ref()
                 .map(|bit| (bit.clone(), items[i].into())),
         )?;
+        // The bit multiplied is the committed toggle
+        cs.constrain(bit_var - toggles[i].variable);
         constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
 
         // o2 = bit_var * value
-- 
2.43.0


From e9aac63369a2e34109af118bad9d26ceac866b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 70/87] fix: set membership by toggles was not provable for an
 element listed twice

---
 .../src/r1cs/gadgets/set_membership_alt.rs                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 3d70021..9129618 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -90,9 +90,9 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
     check_for_blindings_or_rng!(randomness, rng)?;
 
     // Set all indices to 0 except the one where `value` is
-    let toggles: Vec<u64> = set
-        .iter()
-        .map(|elem| if *elem == value { 1 } else { 0 })
+    let index = set.iter().position(|elem| *elem == value);
+    let toggles: Vec<u64> = (0..set.len())
+        .map(|i| if Some(i) == index { 1 } else { 0 })
         .collect();
 
     let mut comms = vec![];
-- 
2.43.0


From 421d9d8765e91b353970b00b1ca82dc854ab942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 71/87] fix: the constraints of Poseidon with the inverse Sbox
 did not bind its inputs

---
 .../src/r1cs/gadgets/helper_constraints/poseidon.rs      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
index b9581d8..757a361 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/poseidon.rs
@@ -237,14 +237,17 @@ impl SboxType {
         let val_l = cs.evaluate_lc(&inp_plus_const);
         let val_r = val_l.clone().map(|l| l.inverse());
 
-        let (var_l, _) = cs.allocate_single(val_l)?;
-        let (var_r, var_o) = cs.allocate_single(val_r)?;
+        let (var_l, var_r, var_o) =
+            cs.allocate_multiplier(val_l.and_then(|l| val_r.map(|r| (l, r))))?;
+
+        // The value inverted is the input of the Sbox
+        cs.constrain(inp_plus_const - var_l);
 
         // Ensure `inp_plus_const` is not zero
         is_nonzero_gadget(cs, var_l, var_r)?;
 
         // Constrain product of ``inp_plus_const` and its inverse to be 1.
-        constrain_lc_with_scalar::<CS>(cs, var_o.unwrap().into(), &FieldElement::one());
+        constrain_lc_with_scalar::<CS>(cs, var_o.into(), &FieldElement::one());
 
         Ok(var_r)
     }
-- 
2.43.0


From 0938d6f12a12e21de74a97892b64702401991b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 72/87] fix: inner nodes of a Merkle tree were provable as its
 leaves

---
 .../helper_constraints/sparse_merkle_tree_4_ary.rs     | 10 +++++++++-
 .../helper_constraints/sparse_merkle_tree_8_ary.rs     | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index a189273..b6b3e4e 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -259,6 +259,14 @@ pub fn vanilla_merkle_merkle_tree_4_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    // With fewer nodes an inner node would do as a leaf
+    if proof_nodes.len() != depth * 3 {
+        return Err(R1CSErrorKind::GadgetError {
+            description: String::from("The merkle proof is not as long as the depth of the tree"),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index c7140e2..b1ad364 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -1,4 +1,4 @@
-use crate::errors::{BulletproofError, R1CSError};
+use crate::errors::{BulletproofError, R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
 use crate::r1cs::{ConstraintSystem, LinearCombination, Variable};
 use amcl_wrapper::field_elem::FieldElement;
@@ -270,6 +270,14 @@ pub fn vanilla_merkle_merkle_tree_8_verif_gadget<
     mut proof_nodes: Vec<Variable>,
     hash_func: &mut MTHC,
 ) -> Result<(), R1CSError> {
+    // With fewer nodes an inner node would do as a leaf
+    if proof_nodes.len() != depth * (ARITY - 1) {
+        return Err(R1CSErrorKind::GadgetError {
+            description: String::from("The merkle proof is not as long as the depth of the tree"),
+        }
+        .into());
+    }
+
     let mut prev_hash = LinearCombination::from(leaf_val);
 
     // Initialize  constraint_leaf_index with -leaf_index.
-- 
2.43.0


From ba02b8d96ae22c1ccae0990bf077c0799a2bdf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 73/87] fix: Merkle proofs of the wrong length panicked or had
 a part ignored

---
 .../gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs    | 4 ++++
 .../gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs    | 4 ++++
 .../src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs              | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
index b6b3e4e..fe1ec30 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_4_ary.rs
@@ -168,6 +168,10 @@ where
         proof: &[ProofNode4ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        if proof.len() != self.depth {
+            return Ok(false);
+        }
+
         let mut path = Self::leaf_index_to_path(&idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
index b1ad364..e0534a6 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/sparse_merkle_tree_8_ary.rs
@@ -173,6 +173,10 @@ where
         proof: &[ProofNode8ary],
         root: Option<&FieldElement>,
     ) -> Result<bool, BulletproofError> {
+        if proof.len() != self.depth {
+            return Ok(false);
+        }
+
         let mut path = Self::leaf_index_to_path(idx, self.depth);
         path.reverse();
         let mut cur_val = val.clone();
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
index f52f397..20e9d03 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/sparse_merkle_tree_4_ary.rs
@@ -160,7 +160,7 @@ pub fn gen_proof_of_leaf_inclusion_4_ary_merkle_tree<
         + hash_params.full_rounds_end;
     println!("For 4-ary tree of height {} (has 2^{} leaves) and Poseidon rounds {}, no of multipliers is {} and constraints is {}", tree_depth, tree_depth*2, total_rounds, &prover.num_multipliers(), &prover.num_constraints());*/
 
-    let proof = prover.prove(G, H).unwrap();
+    let proof = prover.prove(G, H)?;
     let end = start.elapsed();
 
     println!("Proving time is {:?}", end);
-- 
2.43.0


From 1e30f5f7e2564f4e91cbd35d56daf26d3df0b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:37 +0000
Subject: [PATCH 74/87] fix: proofs about numbers from 2^63 on panicked or used
 up the memory

---
 .../src/r1cs/gadgets/bound_check.rs           | 19 ++++++++++---------
 .../r1cs/gadgets/helper_constraints/mod.rs    |  8 ++++++++
 .../src/r1cs/gadgets/set_membership_alt.rs    |  7 ++++---
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
index c78ebfd..482b004 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/bound_check.rs
@@ -1,5 +1,6 @@
 use super::helper_constraints::next_commitment;
 use super::helper_constraints::constrain_lc_with_scalar;
+use super::helper_constraints::field_elem_from_u64;
 use super::helper_constraints::positive_no::positive_no_gadget;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
@@ -33,12 +34,12 @@ pub fn bound_check_gadget<CS: ConstraintSystem>(
     // b = max - v
     // a + b = max - min
 
-    cs.constrain(v.variable - LinearCombination::from(FieldElement::from(min)) - a.variable);
+    cs.constrain(v.variable - LinearCombination::from(field_elem_from_u64(min)) - a.variable);
 
-    cs.constrain(LinearCombination::from(FieldElement::from(max)) - v.variable - b.variable);
+    cs.constrain(LinearCombination::from(field_elem_from_u64(max)) - v.variable - b.variable);
 
     // Constrain a + b to be same as max - min.
-    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &FieldElement::from(max - min));
+    constrain_lc_with_scalar::<CS>(cs, a.variable + b.variable, &field_elem_from_u64(max - min));
 
     // Constrain a in [0, 2^n)
     positive_no_gadget(cs, a, n)?;
@@ -72,26 +73,26 @@ pub fn prove_bounded_num<R: Rng + CryptoRng>(
     let mut comms = vec![];
 
     let (com_v, var_v) = prover.commit(
-        val.into(),
+        field_elem_from_u64(val),
         blinding.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
     );
     let quantity_v = AllocatedQuantity {
         variable: var_v,
-        assignment: Some(val.into()),
+        assignment: Some(field_elem_from_u64(val)),
     };
     comms.push(com_v);
 
-    let (com_a, var_a) = prover.commit(a.into(), FieldElement::random());
+    let (com_a, var_a) = prover.commit(field_elem_from_u64(a), FieldElement::random());
     let quantity_a = AllocatedQuantity {
         variable: var_a,
-        assignment: Some(a.into()),
+        assignment: Some(field_elem_from_u64(a)),
     };
     comms.push(com_a);
 
-    let (com_b, var_b) = prover.commit(b.into(), FieldElement::random());
+    let (com_b, var_b) = prover.commit(field_elem_from_u64(b), FieldElement::random());
     let quantity_b = AllocatedQuantity {
         variable: var_b,
-        assignment: Some(b.into()),
+        assignment: Some(field_elem_from_u64(b)),
     };
     comms.push(com_b);
 
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
index 194f798..b272103 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/helper_constraints/mod.rs
@@ -27,6 +27,14 @@ pub fn next_commitment(commitments: &mut Vec<G1>) -> Result<G1, R1CSError> {
     Ok(commitments.remove(0))
 }
 
+/// Convert any `u64` to a field element. `FieldElement::from` takes numbers from 2^63 on
+/// for negative ones.
+pub fn field_elem_from_u64(n: u64) -> FieldElement {
+    let high = FieldElement::from((n >> 32) as u32);
+    let low = FieldElement::from(n as u32);
+    &high * &FieldElement::from(1u64 << 32) + low
+}
+
 /// Constrain a linear combination to be equal to a scalar
 pub fn constrain_lc_with_scalar<CS: ConstraintSystem>(
     cs: &mut CS,
diff --git a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
index 9129618..159bd10 100644
--- a/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
+++ b/libzmix/bulletproofs_amcl/src/r1cs/gadgets/set_membership_alt.rs
@@ -1,6 +1,7 @@
 use super::helper_constraints::next_commitment;
 use super::helper_constraints::bit::bit_gadget;
 use super::helper_constraints::constrain_lc_with_scalar;
+use super::helper_constraints::field_elem_from_u64;
 use super::helper_constraints::vector_sum::vector_sum_constraints;
 use crate::errors::{R1CSError, R1CSErrorKind};
 use crate::r1cs::linear_combination::AllocatedQuantity;
@@ -56,11 +57,11 @@ pub fn vector_product_gadget<CS: ConstraintSystem>(
             toggles[i]
                 .assignment
                 .as_ref()
-                .map(|bit| (bit.clone(), items[i].into())),
+                .map(|bit| (bit.clone(), field_elem_from_u64(items[i]))),
         )?;
         // The bit multiplied is the committed toggle
         cs.constrain(bit_var - toggles[i].variable);
-        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &items[i].into());
+        constrain_lc_with_scalar::<CS>(cs, item_var.into(), &field_elem_from_u64(items[i]));
 
         // o2 = bit_var * value
         let (_, _, o2) = cs.multiply(bit_var.into(), value.variable.into());
@@ -115,7 +116,7 @@ pub fn prove_set_membership_alt<R: Rng + CryptoRng>(
     // The toggle vector sum should be 1
     vector_sum_constraints(prover, toggles_vars, 1);
 
-    let _value = FieldElement::from(value);
+    let _value = field_elem_from_u64(value);
     let (com_value, var_value) = prover.commit(
         _value.clone(),
         randomness.unwrap_or_else(|| FieldElement::random_using_rng(rng.unwrap())),
-- 
2.43.0


From f98109faa03fe95a47b362b1f7c538e5acb0e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 75/87] fix: ursa_bls_sign_key_new, ursa_bls_ver_key_new and
 ursa_bls_pop_new crashed without an output pointer

---
 libursa/src/ffi/bls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libursa/src/ffi/bls.rs b/libursa/src/ffi/bls.rs
index b536685..0eada8b 100644
--- a/libursa/src/ffi/bls.rs
+++ b/libursa/src/ffi/bls.rs
@@ -167,6 +167,7 @@ pub extern "C" fn ursa_bls_sign_key_new(
         ErrorCode::CommonInvalidParam1,
         ErrorCode::CommonInvalidParam2
     );
+    check_useful_c_ptr!(sign_key_p, ErrorCode::CommonInvalidParam3);
 
     trace!("ursa_bls_sign_key_new: seed: {:?}", secret!(&seed));
 
@@ -325,6 +326,7 @@ pub extern "C" fn ursa_bls_ver_key_new(
 
     check_useful_c_reference!(gen, Generator, ErrorCode::CommonInvalidParam1);
     check_useful_c_reference!(sign_key, SignKey, ErrorCode::CommonInvalidParam2);
+    check_useful_c_ptr!(ver_key_p, ErrorCode::CommonInvalidParam3);
 
     trace!(
         "ursa_bls_ver_key_new: gen: {:?}, sign_key: {:?}",
@@ -475,6 +477,7 @@ pub extern "C" fn ursa_bls_pop_new(
 
     check_useful_c_reference!(ver_key, VerKey, ErrorCode::CommonInvalidParam1);
     check_useful_c_reference!(sign_key, SignKey, ErrorCode::CommonInvalidParam2);
+    check_useful_c_ptr!(pop_p, ErrorCode::CommonInvalidParam3);
 
     trace!(
         "ursa_bls_pop_new: ver_key: {:?}, sign_key: {:?}",
-- 
2.43.0


From ac8e12dcf949812db51eb4186cd31e7207ccf5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 76/87] fix: a null pointer in the arrays of the BLS C
 functions was dereferenced

---
 libursa/src/utils/ctypes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libursa/src/utils/ctypes.rs b/libursa/src/utils/ctypes.rs
index d4f9a2c..37af647 100644
--- a/libursa/src/utils/ctypes.rs
+++ b/libursa/src/utils/ctypes.rs
@@ -113,7 +113,14 @@ macro_rules! check_useful_c_reference_array {
             return $err2;
         }
 
-        let $ptrs: Vec<&$type> = unsafe { slice::from_raw_parts($ptrs, $ptrs_len) }
+        let $ptrs = unsafe { slice::from_raw_parts($ptrs, $ptrs_len) };
+
+        if $ptrs.iter().any(|ptr| ptr.is_null()) {
+            set_current_error(&err_msg($err1.into(), "Invalid pointer has been passed"));
+            return $err1;
+        }
+
+        let $ptrs: Vec<&$type> = $ptrs
             .iter()
             .map(|ptr| unsafe { &*(*ptr as *const $type) })
             .collect();
-- 
2.43.0


From 2398fafc3726b79bf035be06ddf2deef506106ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 77/87] fix: ursa_encrypt and ursa_decrypt aborted on an
 algorithm name that is null or not UTF-8

---
 libursa/src/ffi/encryption/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libursa/src/ffi/encryption/mod.rs b/libursa/src/ffi/encryption/mod.rs
index a507e71..f250f2b 100644
--- a/libursa/src/ffi/encryption/mod.rs
+++ b/libursa/src/ffi/encryption/mod.rs
@@ -39,7 +39,7 @@ macro_rules! ffi_encryption_impl {
             let key = key.to_vec();
             let aad = aad.to_vec();
             let nonce = nonce.to_opt_vec();
-            let algorithm = algorithm.as_str();
+            let algorithm = algorithm.as_opt_str().unwrap_or_default();
             let input = input.to_vec();
             let cipher_res = EncryptorType::from_str(algorithm);
             let cipher;
-- 
2.43.0


From 1f4120e4cbfcd24fa4185d3d669edc66c459905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:14 +0000
Subject: [PATCH 78/87] fix: revocation operations changed the registry
 although the tails accessor reported an error

---
 libursa/src/cl/issuer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libursa/src/cl/issuer.rs b/libursa/src/cl/issuer.rs
index 6cd5c74..b045f4a 100644
--- a/libursa/src/cl/issuer.rs
+++ b/libursa/src/cl/issuer.rs
@@ -539,9 +539,11 @@ impl Issuer {
 
         let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
+        let mut accum = rev_reg.accum;
         rev_tails_accessor.access_tail(index, &mut |tail| {
-            rev_reg.accum = rev_reg.accum.sub(tail).unwrap();
+            accum = accum.sub(tail).unwrap();
         })?;
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_accum),
@@ -640,9 +642,11 @@ impl Issuer {
 
         let index = Issuer::_get_index(max_cred_num, rev_idx)?;
 
+        let mut accum = rev_reg.accum;
         rev_tails_accessor.access_tail(index, &mut |tail| {
-            rev_reg.accum = rev_reg.accum.add(tail).unwrap();
+            accum = accum.add(tail).unwrap();
         })?;
+        rev_reg.accum = accum;
 
         let rev_reg_delta = RevocationRegistryDelta {
             prev_accum: Some(prev_accum),
@@ -1423,9 +1427,11 @@ impl Issuer {
         } else {
             let prev_acc = rev_reg.accum;
 
+            let mut accum = rev_reg.accum;
             rev_tails_accessor.access_tail(index, &mut |tail| {
-                rev_reg.accum = rev_reg.accum.add(tail).unwrap();
+                accum = accum.add(tail).unwrap();
             })?;
+            rev_reg.accum = accum;
 
             Some(RevocationRegistryDelta {
                 prev_accum: Some(prev_acc),
-- 
2.43.0


From c7443205ce310fdadab9155a5463db799b749811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:14 +0000
Subject: [PATCH 79/87] fix: ursa_cl_issuer_merge_revocation_registry_deltas
 gave a pointer to nothing

---
 libursa/src/ffi/cl/issuer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index 1a3dc3f..d696d7f 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1991,9 +1991,13 @@ pub extern "C" fn ursa_cl_issuer_merge_revocation_registry_deltas(
 
     let res = match revoc_reg_delta.merge(other_revoc_reg_delta) {
         Ok(_) => {
-            trace!("ursa_cl_issuer_merge_revocation_registry_deltas: merged_revoc_reg_delta: ()");
+            trace!(
+                "ursa_cl_issuer_merge_revocation_registry_deltas: merged_revoc_reg_delta: {:?}",
+                revoc_reg_delta
+            );
             unsafe {
-                *merged_revoc_reg_delta_p = Box::into_raw(Box::new(())) as *const c_void;
+                *merged_revoc_reg_delta_p =
+                    Box::into_raw(Box::new(revoc_reg_delta.clone())) as *const c_void;
                 trace!("ursa_cl_issuer_merge_revocation_registry_deltas: *merged_revoc_reg_delta_p: {:?}", *merged_revoc_reg_delta_p);
             }
             ErrorCode::Success
-- 
2.43.0


From 5c1265f5e3781a9007dec190942c7ebe60033a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:14 +0000
Subject: [PATCH 80/87] fix: six CL C functions crashed without an output
 pointer

---
 libursa/src/ffi/cl/issuer.rs | 4 ++++
 libursa/src/ffi/cl/mod.rs    | 1 +
 libursa/src/ffi/cl/prover.rs | 1 +
 3 files changed, 6 insertions(+)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index d696d7f..d270e37 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1845,6 +1845,7 @@ pub extern "C" fn ursa_revocation_registry_delta_from_parts(
         ErrorCode::CommonInvalidParam5,
         ErrorCode::CommonInvalidParam6
     );
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!("ursa_revocation_registry_delta_from_parts: >>> rev_reg_from: {:?}, rev_reg_to: {:?}, issued: {:?}, revoked: {:?}",
            rev_reg_from, rev_reg_to, issued, revoked);
@@ -1895,6 +1896,7 @@ pub extern "C" fn ursa_cl_issuer_revoke_credential(
     put_tail {:?}, rev_reg_delta_p {:?}", rev_reg, max_cred_num, rev_idx, ctx_tails, take_tail, put_tail, rev_reg_delta_p);
 
     check_useful_mut_c_reference!(rev_reg, RevocationRegistry, ErrorCode::CommonInvalidParam1);
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!(
         "ursa_cl_issuer_revoke_credential: entities: rev_reg: {:?}",
@@ -1941,6 +1943,7 @@ pub extern "C" fn ursa_cl_issuer_recovery_credential(
     put_tail {:?}, rev_reg_delta_p {:?}", rev_reg, max_cred_num, rev_idx, ctx_tails, take_tail, put_tail, rev_reg_delta_p);
 
     check_useful_mut_c_reference!(rev_reg, RevocationRegistry, ErrorCode::CommonInvalidParam1);
+    check_useful_c_ptr!(rev_reg_delta_p, ErrorCode::CommonInvalidParam7);
 
     trace!(
         "ursa_cl_issuer_recovery_credential: entities: rev_reg: {:?}",
@@ -1985,6 +1988,7 @@ pub extern "C" fn ursa_cl_issuer_merge_revocation_registry_deltas(
         RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam2
     );
+    check_useful_c_ptr!(merged_revoc_reg_delta_p, ErrorCode::CommonInvalidParam3);
 
     trace!("ursa_cl_issuer_merge_revocation_registry_deltas: entities: revoc_reg_delta: {:?}, other_revoc_reg_delta: {:?}",
            revoc_reg_delta, other_revoc_reg_delta);
diff --git a/libursa/src/ffi/cl/mod.rs b/libursa/src/ffi/cl/mod.rs
index 537e239..cd72fac 100644
--- a/libursa/src/ffi/cl/mod.rs
+++ b/libursa/src/ffi/cl/mod.rs
@@ -117,6 +117,7 @@ pub extern "C" fn ursa_cl_witness_new(
         RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam3
     );
+    check_useful_c_ptr!(witness_p, ErrorCode::CommonInvalidParam8);
 
     let rta = FFITailsAccessor::new(ctx_tails, take_tail, put_tail);
     let res = match Witness::new(
diff --git a/libursa/src/ffi/cl/prover.rs b/libursa/src/ffi/cl/prover.rs
index 36caaf8..14eb809 100644
--- a/libursa/src/ffi/cl/prover.rs
+++ b/libursa/src/ffi/cl/prover.rs
@@ -868,6 +868,7 @@ pub extern "C" fn ursa_cl_prover_get_credential_revocation_index(
         CredentialSignature,
         ErrorCode::CommonInvalidParam1
     );
+    check_useful_c_ptr!(cred_rev_indx, ErrorCode::CommonInvalidParam2);
 
     trace!(
         "ursa_cl_prover_get_credential_revocation_index: >>> credential_signature: {:?}",
-- 
2.43.0


From 409606ed2a0944a80b591c1daf3e3854fd9d9ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:38 +0000
Subject: [PATCH 81/87] fix: the JSON functions for revocation registry deltas
 took them for signature correctness proofs

---
 libursa/src/ffi/cl/issuer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libursa/src/ffi/cl/issuer.rs b/libursa/src/ffi/cl/issuer.rs
index d270e37..0966f9f 100644
--- a/libursa/src/ffi/cl/issuer.rs
+++ b/libursa/src/ffi/cl/issuer.rs
@@ -1687,7 +1687,7 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_to_json(
 
     check_useful_c_reference!(
         revocation_registry_delta,
-        SignatureCorrectnessProof,
+        RevocationRegistryDelta,
         ErrorCode::CommonInvalidParam1
     );
     check_useful_c_ptr!(
@@ -1756,7 +1756,7 @@ pub extern "C" fn ursa_cl_revocation_registry_delta_from_json(
         revocation_registry_delta_json
     );
 
-    let res = match serde_json::from_str::<SignatureCorrectnessProof>(
+    let res = match serde_json::from_str::<RevocationRegistryDelta>(
         &revocation_registry_delta_json,
     ) {
         Ok(revocation_registry_delta) => {
-- 
2.43.0


From aa440b4ac326272dd6a612ec02a7de7eb882988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:13 +0000
Subject: [PATCH 82/87] fix: Ed25519 signatures verified under public keys of
 small order for messages nobody signed

---
 libursa/src/signatures/ed25519.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libursa/src/signatures/ed25519.rs b/libursa/src/signatures/ed25519.rs
index f113450..da63bb7 100644
--- a/libursa/src/signatures/ed25519.rs
+++ b/libursa/src/signatures/ed25519.rs
@@ -3,7 +3,7 @@ pub const ALGORITHM_NAME: &str = "ED25519_SHA2_512";
 use super::{KeyGenOption, SignatureScheme};
 #[cfg(any(feature = "x25519", feature = "x25519_asm"))]
 use ed25519_dalek::SecretKey as SK;
-use ed25519_dalek::{Keypair, PublicKey as PK, Signature, Signer, Verifier};
+use ed25519_dalek::{Keypair, PublicKey as PK, Signature, Signer};
 pub use ed25519_dalek::{
     EXPANDED_SECRET_KEY_LENGTH as PRIVATE_KEY_SIZE, PUBLIC_KEY_LENGTH as PUBLIC_KEY_SIZE,
     SIGNATURE_LENGTH as SIGNATURE_SIZE,
@@ -149,7 +149,8 @@ impl SignatureScheme for Ed25519Sha512 {
         let p = PK::from_bytes(&pk[..]).map_err(|e| CryptoError::ParseError(e.to_string()))?;
         let s =
             Signature::try_from(signature).map_err(|e| CryptoError::ParseError(e.to_string()))?;
-        p.verify(message, &s)
+        // Under a public key of small order a signature verifies for messages nobody signed
+        p.verify_strict(message, &s)
             .map_err(|e| CryptoError::SigningError(e.to_string()))?;
         Ok(true)
     }
-- 
2.43.0


From 353f7bf2ab779f863efb4e19c5105b94e8046da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:47 +0000
Subject: [PATCH 83/87] fix: presentations of a revocable credential revealed
 its context and could be linked

---
 libursa/src/cl/prover.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libursa/src/cl/prover.rs b/libursa/src/cl/prover.rs
index 470515d..4b1aae3 100644
--- a/libursa/src/cl/prover.rs
+++ b/libursa/src/cl/prover.rs
@@ -980,7 +980,7 @@ impl ProofBuilder {
 
             self.c_list.extend_from_slice(&proof.as_c_list()?);
             self.tau_list.extend_from_slice(&proof.as_tau_list()?);
-            m2_tilde = Some(group_element_to_bignum(&proof.tau_list_params.m2)?);
+            m2_tilde = Some(ProofBuilder::_long_m2_tilde(&proof.tau_list_params.m2)?);
             non_revoc_init_proof = Some(proof);
         }
 
@@ -1839,6 +1839,18 @@ impl ProofBuilder {
         Ok(non_revoc_proof_c_list)
     }
 
+    /// A number that is the blinding of m2 in the non-revocation proof modulo the group order, and is long
+    /// enough to hide m2 in the response of the primary proof, which is not reduced.
+    fn _long_m2_tilde(m2_tilde: &GroupOrderElement) -> UrsaCryptoResult<BigNumber> {
+        let order = group_element_to_bignum(&GroupOrderElement::from_bytes(&[1])?.mod_neg()?)?
+            .increment()?;
+        let long = bn_rand(LARGE_MVECT)?;
+
+        Ok(long
+            .sub(&long.modulus(&order, None)?)?
+            .add(&group_element_to_bignum(m2_tilde)?)?)
+    }
+
     fn _gen_tau_list_params() -> UrsaCryptoResult<NonRevocProofXList> {
         trace!("ProofBuilder::_gen_tau_list_params: >>>");
 
-- 
2.43.0


From 7873b8969cc60bc4ba38c51e22b4364383b22550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:31 +0000
Subject: [PATCH 84/87] fix: blindings of issuance requests and of predicate
 proofs were too short for what they hide

---
 libursa/src/cl/constants.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libursa/src/cl/constants.rs b/libursa/src/cl/constants.rs
index 273ff99..6db0e23 100644
--- a/libursa/src/cl/constants.rs
+++ b/libursa/src/cl/constants.rs
@@ -11,8 +11,8 @@ pub const LARGE_ETILDE: usize = 456;
 pub const LARGE_VTILDE: usize = 3060;
 pub const LARGE_UTILDE: usize = 592;
 pub const LARGE_MTILDE: usize = 593;
-pub const LARGE_VPRIME_TILDE: usize = 673;
-pub const LARGE_RTILDE: usize = 672;
+pub const LARGE_VPRIME_TILDE: usize = 2465;
+pub const LARGE_RTILDE: usize = 2464;
 pub const ITERATION: usize = 4;
 /*
   LARGE_M1_TILDE: now it differs from the paper v0.3, but author of the paper,
-- 
2.43.0


From daae8d130b687aa0dd7482da68e3b7b82d9cf6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:50 +0000
Subject: [PATCH 85/87] fix: the proof of a verifiable encryption revealed most
 of the number that hides the messages

---
 .../cs_verifiable_encryption.rs                   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
index ae57e2b..6ed51d8 100644
--- a/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
+++ b/libzmix/src/verifiable_encryption/cs_verifiable_encryption.rs
@@ -14,6 +14,11 @@ use super::cl::constants::*;
 use super::cl::hash::get_hash_as_int;
 use super::cl::helpers::*;
 
+/// Length of the challenges in bits
+const CHALLENGE_BITS: i32 = 256;
+/// By how many bits a blinding is longer than what it hides
+const HIDING_BITS: i32 = 80;
+
 // g and h correspond to the symbols with same name in paper "Practical Verifiable Encryption...."
 #[derive(Serialize, Deserialize)]
 pub struct PaillierGroup {
@@ -123,6 +128,14 @@ impl PaillierGroup {
         self.n_by_4.rand_range()
     }
 
+    /// Return a random element which hides the product of a challenge and of an element returned
+    /// by `rand_for_enc`, i.e. one less than n/4 * 2^(k + k') of the paper
+    pub fn rand_for_blinding(&self) -> UrsaCryptoResult<BigNumber> {
+        let mut factor = BigNumber::new()?;
+        factor.set_bit(CHALLENGE_BITS + HIDING_BITS)?;
+        self.n_by_4.mul(&factor, None)?.rand_range()
+    }
+
     /// if a > (n^2)/2 then n^2 - a else a
     /// section 3.2 of paper
     pub fn abs(
@@ -314,7 +327,7 @@ pub fn encrypt_and_prove_phase_1(
     // random value for ciphertext
     let r = paillier_group.rand_for_enc()?;
     // random value for commitment
-    let r_tilde = paillier_group.rand_for_enc()?;
+    let r_tilde = paillier_group.rand_for_blinding()?;
     let ciphertext = encrypt_using_random_value(&r, messages, label, pub_key)?;
     let hash = hash(&ciphertext.u, &ciphertext.e, label)?;
     let ciphertext_t_values = ciphertext_t_values(&r_tilde, &blindings, &hash, pub_key)?;
-- 
2.43.0


From 63e25b0e83b5b9673c25d915e5422be6b7f6be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 86/87] fix: reconstructing a token with a response or
 challenge of zero did not end

---
 .../delg_cred_cdd/attribute_token.rs          | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
index eb99858..7589d41 100644
--- a/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
+++ b/libzmix/src/signatures/delg_cred_cdd/attribute_token.rs
@@ -1008,9 +1008,9 @@ impl<'a> AttributeToken<'a> {
         // g2^-c
         let groth1_g2_c = &setup_params_1.g2 * &challenge_neg;
         // e(y0, g2)^{-c}
-        let y0_g2_c = precomputed.groth1_y0_g2.pow(&challenge_neg);
+        let y0_g2_c = gt_pow(&precomputed.groth1_y0_g2, &challenge_neg);
         // e(g1, y0)^{-c}
-        let g1_y0_c = &precomputed.groth2_g1_y0.pow(&challenge_neg);
+        let g1_y0_c = &gt_pow(&precomputed.groth2_g1_y0, &challenge_neg);
 
         for i in 1..=L {
             if i % 2 == 1 {
@@ -1044,7 +1044,7 @@ impl<'a> AttributeToken<'a> {
                     // e(g1, ipk) * e(y0, g2)
                     let e_2 = &precomputed.groth1_g1_ipk * &precomputed.groth1_y0_g2;
                     // ( e(g1, ipk) * e(y0, g2) )^-c
-                    let e_3 = GT::pow(&e_2, &challenge_neg);
+                    let e_3 = gt_pow(&e_2, &challenge_neg);
                     // e(resp_s_i, r'_i) * ( e(g1, ipk) * e(y0, g2) )^-c
                     &e_1 * &e_3
                 } else {
@@ -1071,7 +1071,7 @@ impl<'a> AttributeToken<'a> {
                                 &resp.odd_level_resp_a[i / 2][k],
                                 &groth1_neg_g2,
                             );
-                            let e_2 = GT::pow(&precomputed.groth1_y_ipk[j], &challenge_neg);
+                            let e_2 = gt_pow(&precomputed.groth1_y_ipk[j], &challenge_neg);
                             com_t.push(&e_1 * &e_2);
                         } else {
                             com_t.push(GT::ate_multi_pairing(vec![
@@ -1095,7 +1095,7 @@ impl<'a> AttributeToken<'a> {
                                 &comm.odd_level_revealed_attributes[i / 2][&j],
                                 &groth1_g2_c,
                             );
-                            let e_2 = GT::pow(&precomputed.groth1_y_ipk[j], &challenge_neg);
+                            let e_2 = gt_pow(&precomputed.groth1_y_ipk[j], &challenge_neg);
                             com_t.push(&e_1 * &e_2);
                         } else {
                             com_t.push(GT::ate_multi_pairing(vec![
@@ -1123,17 +1123,17 @@ impl<'a> AttributeToken<'a> {
                             &groth1_neg_g2,
                         );
                         let e_2 =
-                            GT::pow(&precomputed.groth1_y_ipk[attr_count - 1], &challenge_neg);
+                            gt_pow(&precomputed.groth1_y_ipk[attr_count - 1], &challenge_neg);
                         &e_1 * &e_2
                     } else {
                         let e_1 = GT::ate_pairing(
                             &resp.odd_level_resp_t[i / 2][attr_count - 1],
                             &comm.odd_level_blinded_r[i / 2],
                         );
-                        let e_3 = GT::pow(&precomputed.pairing_inv_groth1_g1_g2, &resp.resp_csk);
+                        let e_3 = gt_pow(&precomputed.pairing_inv_groth1_g1_g2, &resp.resp_csk);
                         let e_4 = &e_1 * &e_3;
                         let e_5 =
-                            GT::pow(&precomputed.groth1_y_ipk[attr_count - 1], &challenge_neg);
+                            gt_pow(&precomputed.groth1_y_ipk[attr_count - 1], &challenge_neg);
                         &e_4 * &e_5
                     }
                 } else {
@@ -1156,7 +1156,7 @@ impl<'a> AttributeToken<'a> {
                             &(-&setup_params_1.y[attr_count - 1]),
                             &resp.even_level_resp_vk[(i / 2) - 1],
                         );
-                        let e_3 = GT::pow(&precomputed.pairing_inv_groth1_g1_g2, &resp.resp_csk);
+                        let e_3 = gt_pow(&precomputed.pairing_inv_groth1_g1_g2, &resp.resp_csk);
                         &e_1 * &e_3
                     }
                 };
@@ -1251,7 +1251,7 @@ impl<'a> AttributeToken<'a> {
                         &resp.odd_level_resp_vk[(i / 2) - 1],
                         &(-&setup_params_2.y[attr_count - 1]),
                     );
-                    let e_3 = GT::pow(&precomputed.pairing_inv_groth2_g1_g2, &resp.resp_csk);
+                    let e_3 = gt_pow(&precomputed.pairing_inv_groth2_g1_g2, &resp.resp_csk);
                     &e_1 * &e_3
                 };
                 com_t.push(com_i_vk);
@@ -1501,6 +1501,15 @@ impl AttributeTokenResp {
     }
 }
 
+/// `base^exp`. `GT::pow` itself does not terminate when the exponent is 0 modulo the group order
+fn gt_pow(base: &GT, exp: &FieldElement) -> GT {
+    if exp.to_bignum().iszilch() {
+        GT::one()
+    } else {
+        base.pow(exp)
+    }
+}
+
 // XXX: Temporary until binary_scalar_mul is added to G2
 fn binary_scalar_mul_g2(g2: &G2, h2: &G2, r1: &FieldElement, r2: &FieldElement) -> G2 {
     let mut g2_vec = G2Vector::with_capacity(2);
-- 
2.43.0


From 81bfb1819f1844957d923c3457963e53491bac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:12 +0000
Subject: [PATCH 87/87] fix: a custom logger was given the records its enabled
 handler refuses

---
 libursa/src/utils/logger.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libursa/src/utils/logger.rs b/libursa/src/utils/logger.rs
index 018c17b..47eab36 100644
--- a/libursa/src/utils/logger.rs
+++ b/libursa/src/utils/logger.rs
@@ -64,6 +64,10 @@ impl log::Log for HLCryptoLogger {
     }
 
     fn log(&self, record: &Record) {
+        if !log::Log::enabled(self, record.metadata()) {
+            return;
+        }
+
         let log_cb = self.log;
 
         let level = record.level() as u32;
-- 
2.43.0

