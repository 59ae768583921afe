From 329c2925b40f22a57a821838fc98d0b2b9a59f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:31 +0000
Subject: [PATCH 01/11] fix: make the user module compile (blind_request's
 import and key generation)

---
 aeonflux/src/user.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4cd8647..4ea9b6e 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -28,6 +28,7 @@ use serde::de::Visitor;
 
 use amacs;
 use credential::Credential;
+use credential::CredentialBlindRequest;
 use credential::CredentialIssuance;
 use credential::CredentialPresentation;
 use credential::CredentialRequest;
@@ -260,7 +261,7 @@ impl User {
         C: CryptoRng + RngCore,
     {
         if self.key.is_none() {
-            self.key = elgamal::Keypair::generate::<C>(&mut csprng);
+            self.key = Some(elgamal::Keypair::generate(csprng));
         }
 
         unimplemented!();
-- 
2.43.0


From a20c9e5a4415806abb7fe9f010fa549a40c23063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 02/11] fix: reject the identity nonce and wrong message
 lengths when verifying an aMAC

---
 aeonflux/src/amacs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index dcc65c7..3c05692 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -39,11 +39,11 @@ use core::ops::{Index, Mul};
 
 use clear_on_drop::clear::Clear;
 
-use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_TABLE;
 use curve25519_dalek::scalar::Scalar;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use rand_core::RngCore;
 use rand_core::CryptoRng;
@@ -321,7 +321,12 @@ impl SecretKey {
     }
 
     pub fn verify(&self, mac: &Tag, message: &Message) -> Result<(), MacError> {
-        if mac.nonce == RISTRETTO_BASEPOINT_POINT {
+        if self.xn.len() != message.0.len() {
+            return Err(MacError::MessageLengthError{ length: self.xn.len() });
+        }
+        // The nonce must not be the identity, otherwise the tag (0, 0) would
+        // authenticate any message.
+        if mac.nonce == RistrettoPoint::identity() {
             return Err(MacError::AuthenticationError);
         }
         let mut exponent = self.x0;
-- 
2.43.0


From bf54f07dcf666c8b2542433c6b669cd787793ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 03/11] fix: reject presentations with an identity nonce or a
 wrong number of attributes

---
 aeonflux/src/issuer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/aeonflux/src/issuer.rs b/aeonflux/src/issuer.rs
index 95b9af9..150c137 100644
--- a/aeonflux/src/issuer.rs
+++ b/aeonflux/src/issuer.rs
@@ -18,6 +18,7 @@ pub use amacs::SecretKey as IssuerSecretKey;
 
 use curve25519_dalek::ristretto::RistrettoPoint;
 use curve25519_dalek::scalar::Scalar;
+use curve25519_dalek::traits::Identity;
 
 use merlin::Transcript;
 
@@ -31,6 +32,8 @@ use credential::Credential;
 use credential::CredentialIssuance;
 use credential::CredentialRequest;
 use credential::CredentialPresentation;
+use credential::PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES;
+use credential::PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES;
 use credential::VerifiedCredential;
 use errors::CredentialError;
 use nonces::Ephemeral;
@@ -199,6 +202,16 @@ impl Issuer {
     {
         let P = presentation.rerandomized_nonce;
 
+        if presentation.attributes_revealed.len() != PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES ||
+            presentation.attributes_blinded.len() != PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+        // The aMAC nonce must not be the identity, otherwise anyone could
+        // present a credential without the issuer ever having issued one.
+        if P == RistrettoPoint::identity() {
+            return Err(CredentialError::MacVerification);
+        }
+
         // Recompute the MAC
         let mut V_prime: RistrettoPoint = &self.keypair.secret.x0 * &P;
 
-- 
2.43.0


From f734134bf36eabafce952fa5eac00b8a744a2624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:10 +0000
Subject: [PATCH 04/11] fix: refuse phone numbers which do not fit into a
 scalar, and decode only well-formed ones

---
 signal-credential/src/errors.rs       |  2 +-
 signal-credential/src/phone_number.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/signal-credential/src/errors.rs b/signal-credential/src/errors.rs
index 67aae14..9697438 100644
--- a/signal-credential/src/errors.rs
+++ b/signal-credential/src/errors.rs
@@ -31,7 +31,7 @@ impl fmt::Display for PhoneNumberError {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         match *self {
             PhoneNumberError::LengthExceeded
-                => write!(f, "A canonicalised phone number cannot be more than 32 bytes"),
+                => write!(f, "A canonicalised phone number cannot be more than 26 bytes"),
             PhoneNumberError::InvalidPhoneNumber
                 => write!(f, "The user's proof of roster membership could not be verified"),
         }
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 902e55d..00abab3 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -40,6 +40,9 @@ use rand_core::CryptoRng;
 use errors::PhoneNumberError;
 
 pub const SIZEOF_PHONE_NUMBER: usize = 32;
+/// The most digits which fit, along with their prefix, suffix, and length, into
+/// a `Scalar` without it being reduced modulo the order of the group.
+pub const MAX_PHONE_NUMBER_LENGTH: usize = 26;
 pub const SIZEOF_COMMITTED_PHONE_NUMBER: usize = pedersen::SIZEOF_COMMITMENT;
 pub const SIZEOF_ENCRYPTED_PHONE_NUMBER: usize = elgamal::SIZEOF_ENCRYPTION;
 
@@ -135,7 +138,7 @@ impl PhoneNumber {
         let bytes: &[u8] = source.as_bytes();
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -175,7 +178,7 @@ impl PhoneNumber {
     pub fn try_from_bytes(bytes: &[u8]) -> Result<Self, PhoneNumberError> {
         let length: usize = bytes.len();
 
-        if length > 32 {
+        if length > MAX_PHONE_NUMBER_LENGTH {
             return Err(PhoneNumberError::LengthExceeded);
         }
         let mut bits: [u8; 32] = [0u8; 32];
@@ -209,7 +212,10 @@ impl From<PhoneNumber> for String {
             if source.0[i] == 0 {
                 continue;
             } else {
-                length = source[i] as usize;
+                // The length byte comes directly after the number and its suffix.
+                if source[i] as usize + 4 == i {
+                    length = source[i] as usize;
+                }
                 break;
             }
         }
-- 
2.43.0


From b90e474c489ca9ce9471ef7804d86ac506a6e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:47 +0000
Subject: [PATCH 05/11] fix: decoders return an error rather than panicking, or
 ignoring bytes, on input of a wrong length

---
 aeonflux/src/amacs.rs                 | 12 ++++++++----
 aeonflux/src/credential.rs            |  8 ++++++--
 aeonflux/src/elgamal.rs               | 12 +++++++++---
 aeonflux/src/pedersen.rs              |  4 ++++
 signal-credential/src/credential.rs   |  6 ++++--
 signal-credential/src/phone_number.rs |  5 +++++
 signal-credential/src/user.rs         |  6 ++++++
 7 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/aeonflux/src/amacs.rs b/aeonflux/src/amacs.rs
index 3c05692..48c985a 100644
--- a/aeonflux/src/amacs.rs
+++ b/aeonflux/src/amacs.rs
@@ -166,8 +166,8 @@ impl PublicKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<PublicKey, MacError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        // The bytes must be a (non-zero) multiple of 32.
+        if length == 0 || length % 32 != 0 {
             return Err(MacError::MessageLengthError { length });
         }
         let mut Xn: Vec<RistrettoPoint> = Vec::with_capacity(length % 32);
@@ -240,8 +240,8 @@ impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, MacError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        // The bytes must be a (non-zero) multiple of 32.
+        if length == 0 || length % 32 != 0 {
             return Err(MacError::MessageLengthError{ length });
         }
         let mut x0: Option<Scalar> = None;
@@ -357,6 +357,10 @@ impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, MacError> {
         let length: usize = bytes.len();
 
+        if length < 32 {
+            return Err(MacError::KeypairDeserialisation);
+        }
+
         // The public key must always be 32 bytes shorter since the secret key has the extra x0 element.
         let public_key_length: usize = (length - 32) / 2;
         let secret_key_length: usize = length - public_key_length;
diff --git a/aeonflux/src/credential.rs b/aeonflux/src/credential.rs
index d249b44..2ca550b 100644
--- a/aeonflux/src/credential.rs
+++ b/aeonflux/src/credential.rs
@@ -40,6 +40,7 @@ use proofs::issuance_revealed;
 use proofs::valid_credential;
 
 pub const SIZEOF_CREDENTIAL: usize = SIZEOF_TAG + NUMBER_OF_ATTRIBUTES * 32;
+pub const SIZEOF_CREDENTIAL_ISSUANCE: usize = 328;
 pub const SIZEOF_CREDENTIAL_PRESENTATION: usize = 256;
 
 /// The number of revealed attributes on a `Credential` during issuance.
@@ -209,6 +210,10 @@ pub struct CredentialIssuance {
 
 impl CredentialIssuance {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialIssuance, CredentialError> {
+        if bytes.len() != SIZEOF_CREDENTIAL_ISSUANCE {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let secret_key_commitment = pedersen::Commitment::from_bytes(&bytes[00..32])?;
         let credential = Credential::from_bytes(&bytes[32..32+SIZEOF_CREDENTIAL])?;
         
@@ -267,8 +272,7 @@ impl CredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<CredentialPresentation, CredentialError> {
         let length: usize = bytes.len();
 
-        // The bytes must be a multiple of 32.
-        if length % 32 != 0 {
+        if length != SIZEOF_CREDENTIAL_PRESENTATION {
             return Err(CredentialError::WrongNumberOfBytes);
         }
 
diff --git a/aeonflux/src/elgamal.rs b/aeonflux/src/elgamal.rs
index d440d2b..68f001c 100644
--- a/aeonflux/src/elgamal.rs
+++ b/aeonflux/src/elgamal.rs
@@ -96,7 +96,9 @@ impl<'a, 'b> Add<&'b Encryption> for &'a Encryption {
 
 impl PublicKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<PublicKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != 32 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -144,7 +146,9 @@ impl<'a> From<&'a SecretKey> for PublicKey {
 
 impl SecretKey {
     pub fn from_bytes(bytes: &[u8]) -> Result<SecretKey, CredentialError> {
-        assert!(bytes.len() == 32);
+        if bytes.len() != 32 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let mut tmp = [0u8; 32];
 
@@ -196,7 +200,9 @@ impl Drop for SecretKey {
 
 impl Keypair {
     pub fn from_bytes(bytes: &[u8]) -> Result<Keypair, CredentialError> {
-        assert!(bytes.len() == 64);
+        if bytes.len() != 64 {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
 
         let secret = SecretKey::from_bytes(&bytes[00..32])?;
         let public = PublicKey::from_bytes(&bytes[32..64])?;
diff --git a/aeonflux/src/pedersen.rs b/aeonflux/src/pedersen.rs
index e3c5378..30fc96e 100644
--- a/aeonflux/src/pedersen.rs
+++ b/aeonflux/src/pedersen.rs
@@ -65,6 +65,10 @@ impl SubAssign<Commitment> for RistrettoPoint {
 
 impl Commitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<Commitment, CredentialError> {
+        if bytes.len() != SIZEOF_COMMITMENT {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let mut tmp: [u8; 32] = [0u8; 32];
 
         tmp.copy_from_slice(&bytes[0..32]);
diff --git a/signal-credential/src/credential.rs b/signal-credential/src/credential.rs
index bc403a3..f329a3a 100644
--- a/signal-credential/src/credential.rs
+++ b/signal-credential/src/credential.rs
@@ -46,6 +46,8 @@ pub const NUMBER_OF_ATTRIBUTES: usize =
     ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES +
     ISSUANCE_NUMBER_OF_BLINDED_ATTRIBUTES;
 
+pub const SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION: usize = 448;
+
 pub type SignalCredentialIssuance = CredentialIssuance;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
@@ -65,9 +67,9 @@ impl SignalCredentialPresentation {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalCredentialPresentation, CredentialError> {
         const RE: usize = SIZEOF_COMMITTED_PHONE_NUMBER;
 
-        if bytes.len() < RE + SIZEOF_CREDENTIAL_PRESENTATION {
+        if bytes.len() != SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION {
             #[cfg(feature = "std")]
-            println!("The SignalCredentialPresentation bytes were not long enough, got {} bytes", bytes.len());
+            println!("The SignalCredentialPresentation bytes were not the correct length, got {} bytes", bytes.len());
             return Err(CredentialError::MissingData);
         }
 
diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 00abab3..627d700 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -44,6 +44,7 @@ pub const SIZEOF_PHONE_NUMBER: usize = 32;
 /// a `Scalar` without it being reduced modulo the order of the group.
 pub const MAX_PHONE_NUMBER_LENGTH: usize = 26;
 pub const SIZEOF_COMMITTED_PHONE_NUMBER: usize = pedersen::SIZEOF_COMMITMENT;
+pub const SIZEOF_ROSTER_ENTRY_COMMITMENT: usize = SIZEOF_COMMITTED_PHONE_NUMBER + 32;
 pub const SIZEOF_ENCRYPTED_PHONE_NUMBER: usize = elgamal::SIZEOF_ENCRYPTION;
 
 /// A `Scalar` which represents a canonicalised phone number and may be used
@@ -329,6 +330,10 @@ pub struct RosterEntryCommitment {
 
 impl RosterEntryCommitment {
     pub fn from_bytes(bytes: &[u8]) -> Result<RosterEntryCommitment, PhoneNumberError> {
+        if bytes.len() != SIZEOF_ROSTER_ENTRY_COMMITMENT {
+            return Err(PhoneNumberError::LengthExceeded);
+        }
+
         let commitment = CommittedPhoneNumber::from_bytes(&bytes[..SIZEOF_COMMITTED_PHONE_NUMBER])?;
 
         let mut tmp = [0u8; 32];
diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index 2093e1e..dd03e20 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -35,6 +35,8 @@ use credential::SignalCredential;
 use phone_number::PhoneNumber;
 use phone_number::RosterEntryCommitment;
 
+pub const SIZEOF_SIGNAL_USER: usize = 288;
+
 /// DOCDOC
 #[derive(Debug, Eq, PartialEq)]
 pub struct SignalUser {
@@ -44,6 +46,10 @@ pub struct SignalUser {
 
 impl SignalUser {
     pub fn from_bytes(bytes: &[u8]) -> Result<SignalUser, CredentialError> {
+        if bytes.len() != SIZEOF_SIGNAL_USER {
+            return Err(CredentialError::WrongNumberOfBytes);
+        }
+
         let phone_number = PhoneNumber::from_bytes(&bytes[00..32])?;
         let user = User::from_bytes(&bytes[32..])?;
 
-- 
2.43.0


From d78362ffba632d49b6fc53e45b3ea3a0507bbc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:47 +0000
Subject: [PATCH 06/11] fix: refuse non-canonical scalars when decoding phone
 numbers and roster entry openings

---
 signal-credential/src/phone_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signal-credential/src/phone_number.rs b/signal-credential/src/phone_number.rs
index 627d700..f1bce9d 100644
--- a/signal-credential/src/phone_number.rs
+++ b/signal-credential/src/phone_number.rs
@@ -78,7 +78,7 @@ impl PhoneNumber {
 
         tmp.copy_from_slice(&bytes[00..32]);
 
-        Ok(PhoneNumber(Scalar::from_bits(tmp)))
+        Ok(PhoneNumber(Scalar::from_canonical_bytes(tmp)?))
     }
 
     pub fn to_bytes(&self) -> Vec<u8> {
@@ -340,7 +340,7 @@ impl RosterEntryCommitment {
 
         tmp.copy_from_slice(&bytes[SIZEOF_COMMITTED_PHONE_NUMBER..]);
 
-        let opening: Ephemeral = Scalar::from_bits(tmp).into();
+        let opening: Ephemeral = Scalar::from_canonical_bytes(tmp)?.into();
 
         Ok(RosterEntryCommitment { commitment, opening })
     }
-- 
2.43.0


From f4b62886644e1489b183df392972288b5f0c497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 07/11] fix: hand owned buffers (and NULL on failure) over the
 C FFI rather than dangling pointers

---
 ffi/src/c.rs      | 4 ++++
 ffi/src/macros.rs | 8 +++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ffi/src/c.rs b/ffi/src/c.rs
index 2ad78da..000b418 100644
--- a/ffi/src/c.rs
+++ b/ffi/src/c.rs
@@ -9,9 +9,13 @@
 
 //! C-like language FFI API.
 
+#[cfg(all(not(feature = "std"), feature = "alloc"))]
+use alloc::boxed::Box;
 #[cfg(all(not(feature = "std"), feature = "alloc"))]
 use alloc::vec::Vec;
 #[cfg(all(not(feature = "alloc"), feature = "std"))]
+use std::boxed::Box;
+#[cfg(all(not(feature = "alloc"), feature = "std"))]
 use std::vec::Vec;
 
 cfg_if! {
diff --git a/ffi/src/macros.rs b/ffi/src/macros.rs
index 5ed979e..4794ccd 100644
--- a/ffi/src/macros.rs
+++ b/ffi/src/macros.rs
@@ -10,11 +10,13 @@
 #[macro_export]
 macro_rules! slice_to_len_and_ptr {
     ($x:expr) => {{
-        let x: &[u8] = $x;
+        // Copy the bytes and give the copy away to the caller, since $x is
+        // usually borrowed from something which is freed when we return.
+        let x: Box<[u8]> = Vec::from($x).into_boxed_slice();
 
         buf_t {
             len: x.len() as uint64_t,
-            ptr: x.as_ptr() as *const uint8_t,
+            ptr: Box::into_raw(x) as *const uint8_t,
         }
     }}
 }
@@ -22,7 +24,7 @@ macro_rules! slice_to_len_and_ptr {
 #[macro_export]
 macro_rules! zero_len_and_ptr {
     () => {
-        slice_to_len_and_ptr!(&[])
+        buf_t { len: 0, ptr: ptr::null() }
     }
 }
 
-- 
2.43.0


From b3ccd48f51ec1179d21fe457eb41d9923dfb0f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 08/11] fix: make types deserialisable from JSON, as the JS API
 does

---
 aeonflux/src/macros.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/aeonflux/src/macros.rs b/aeonflux/src/macros.rs
index a5f42e2..84f01af 100644
--- a/aeonflux/src/macros.rs
+++ b/aeonflux/src/macros.rs
@@ -43,6 +43,19 @@ macro_rules! impl_serde_with_to_bytes_and_from_bytes {
                             },
                         }
                     }
+
+                    // Formats without a notion of bytes, e.g. JSON, give us
+                    // back a sequence instead.
+                    fn visit_seq<A>(self, mut seq: A) -> Result<$t, A::Error>
+                        where A: serde::de::SeqAccess<'de>
+                    {
+                        let mut v: Vec<u8> = Vec::new();
+
+                        while let Some(byte) = seq.next_element()? {
+                            v.push(byte);
+                        }
+                        self.visit_bytes(&v)
+                    }
                 }
                 deserializer.deserialize_bytes(AeonfluxVisitor)
             }
-- 
2.43.0


From 3d84a45a19e7a7165572eb8d0359429609f30fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 09/11] fix: refuse an issuance for a phone number other than
 the user's own

---
 signal-credential/src/user.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signal-credential/src/user.rs b/signal-credential/src/user.rs
index dd03e20..32b731f 100644
--- a/signal-credential/src/user.rs
+++ b/signal-credential/src/user.rs
@@ -95,6 +95,13 @@ impl SignalUser {
         issuance: Option<&SignalCredentialIssuance>,
     ) -> Result<(), CredentialError>
     {
+        // The proof of issuance doesn't cover the attributes, so check that the
+        // credential was issued for our phone number and not for another.
+        if let Some(i) = issuance {
+            if i.credential.attributes != [self.phone_number.0] {
+                return Err(CredentialError::BadAttribute);
+            }
+        }
         self.user.obtain_finish(issuance)
     }
 
-- 
2.43.0


From bf93609a0d727426de42e22518e863ec09a2ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 10/11] fix: refuse degenerate system parameters

---
 aeonflux/src/parameters.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aeonflux/src/parameters.rs b/aeonflux/src/parameters.rs
index 4fbe670..cf0a554 100644
--- a/aeonflux/src/parameters.rs
+++ b/aeonflux/src/parameters.rs
@@ -16,6 +16,7 @@ use curve25519_dalek::constants::RISTRETTO_BASEPOINT_COMPRESSED;
 use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT;
 use curve25519_dalek::ristretto::CompressedRistretto;
 use curve25519_dalek::ristretto::RistrettoPoint;
+use curve25519_dalek::traits::Identity;
 
 use serde::{self, Serialize, Deserialize, Serializer, Deserializer};
 use serde::de::Visitor;
@@ -77,6 +78,12 @@ impl SystemParameters {
             },
         };
 
+        // Commitments bind to nothing unless the generators are distinct and
+        // neither is the identity.
+        if g == RistrettoPoint::identity() || h == RistrettoPoint::identity() || g == h {
+            return Err(CredentialError::NoSystemParameters);
+        }
+
         Ok(SystemParameters { g, h })
     }
 
@@ -112,7 +119,8 @@ impl SystemParameters {
             csprng.fill_bytes(&mut tmp);
 
             // Extremely unlikely but we may as well be careful.
-            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED {
+            if CompressedRistretto(tmp) != RISTRETTO_BASEPOINT_COMPRESSED &&
+                CompressedRistretto(tmp) != CompressedRistretto::identity() {
                 H = CompressedRistretto(tmp).decompress();
             }
         }
-- 
2.43.0


From 591befec91741c0c7be095b460df253fbcb701cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:00 +0000
Subject: [PATCH 11/11] fix: showing a credential with a wrong number of nonces
 is an error and not a panic

---
 aeonflux/src/user.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aeonflux/src/user.rs b/aeonflux/src/user.rs
index 4ea9b6e..5473178 100644
--- a/aeonflux/src/user.rs
+++ b/aeonflux/src/user.rs
@@ -187,11 +187,17 @@ impl User {
             None        => return Err(CredentialError::MissingData),
         };
 
+        const N_ATTRIBUTES: usize = 1;
+
+        if credential.attributes.len() != N_ATTRIBUTES ||
+            self.issuer_parameters.Xn.len() != N_ATTRIBUTES ||
+            nonces.iter().count() != N_ATTRIBUTES {
+            return Err(CredentialError::WrongNumberOfAttributes);
+        }
+
         let mut transcript = Transcript::new(b"AEONFLUX SHOW");
         let mut csprng = transcript.fork_transcript().reseed_from_rng(rng);
 
-        const N_ATTRIBUTES: usize = 1;
-
         // Rerandomise the aMAC to prevent trivial linkages.
         //
         // XXX do we want to pass in a merlin transcript instead of using the rng here?
-- 
2.43.0

