From 125331f6b35e2ca01a0c406a2d4fe5570e3a607d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:46 +0000
Subject: [PATCH 01/14] fix: reject secp256k1 signatures that do not verify

verify_hashed dropped the boolean result of libsecp256k1::verify, so any
well-formed DER signature was accepted for any message and key.
---
 keypair/src/secp256k1.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keypair/src/secp256k1.rs b/keypair/src/secp256k1.rs
index 64c4a85..fdc25fa 100644
--- a/keypair/src/secp256k1.rs
+++ b/keypair/src/secp256k1.rs
@@ -174,6 +174,13 @@ impl PublicKey {
                 libsecp256k1::Signature::parse_der(sig)
                     .map(|s| libsecp256k1::verify(&m, &s, &self.0))
             })
+            .and_then(|is_valid| {
+                if is_valid {
+                    Ok(())
+                } else {
+                    Err(libsecp256k1::Error::InvalidSignature)
+                }
+            })
             .map_err(|e| {
                 VerificationError::Secp256k1(
                     e,
@@ -181,7 +188,6 @@ impl PublicKey {
                     bs58::encode(self.0.serialize_compressed()).into_string(),
                 )
             })
-            .map(|_| ())
     }
 
     /// Encode the public key in compressed form, i.e. with one coordinate
-- 
2.43.0


From a32fb7062dbf9387fa0e80aee2a585d5c0f5e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:47 +0000
Subject: [PATCH 02/14] fix: honour revocations of the direct issuer of the
 queried key

The chains the search starts from only knew who revoked the queried key,
not who revoked its issuer, so a chain was still returned when an earlier
member had revoked the last but one.
---
 trust-graph/src/trust_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 3da6716..5c61347 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -279,7 +279,12 @@ where
 
         // put all auth in the queue as the first possible paths through the graph
         for auth in node_auths {
-            chains_queue.push_back(Chain::new(NonEmpty::new(auth), node_revocations.clone()));
+            let issuer_revocations = self
+                .storage
+                .get_revocations(&auth.issued_by.clone().into())?;
+            let mut chain = Chain::new(NonEmpty::new(auth), node_revocations.clone());
+            chain.add_revocations(issuer_revocations);
+            chains_queue.push_back(chain);
         }
 
         // List of all chains that converge (terminate) to known roots
-- 
2.43.0


From 85c273241c33df3a575a6dc64d85e14badbda60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:13 +0000
Subject: [PATCH 03/14] fix: do not return chains longer than their root allows

Weight factors beyond the maximum were clamped to weight 1, so a chain
could exceed the max_chain_len of its root and still be a certificate.
---
 trust-graph/src/trust_graph.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 5c61347..eb90bd1 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -322,8 +322,17 @@ where
             let issued_by: &PK = last.issued_by.as_ref();
             let converges_to_root = roots.contains(issued_by);
 
+            // - the chain must not be longer than its root allows
             if self_signed && converges_to_root && cur_chain.auths.len() > 1 {
-                terminated_chains.push(cur_chain.auths.into());
+                let root_weight_factor = self
+                    .storage
+                    .get_root_weight_factor(issued_by)?
+                    .ok_or(NoRoot)?;
+                let weight_factor = root_weight_factor + cur_chain.auths.len() as u32 - 1;
+
+                if weight_factor <= MAX_WEIGHT_FACTOR {
+                    terminated_chains.push(cur_chain.auths.into());
+                }
             }
         }
 
-- 
2.43.0


From 192e1b03dbfcd0b17496650c117e89e1f030dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:07 +0000
Subject: [PATCH 04/14] fix: keep one weight per root

Without a primary key INSERT OR REPLACE only ever inserted, so a root that
was set again kept its first max_chain_len.
---
 service/src/storage_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index 008623f..bdfdd5e 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -44,7 +44,7 @@ pub fn create_tables() {
     connection
         .execute(
             "CREATE TABLE IF NOT EXISTS roots(
-        public_key TEXT,
+        public_key TEXT PRIMARY KEY,
         weight_factor INTEGER
         );",
         )
-- 
2.43.0


From df0989cba195d9e04b2a90387ec59801ef826f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:07 +0000
Subject: [PATCH 05/14] fix: compare expiration times as unsigned when
 collecting garbage

A trust expiring after i64::MAX seconds is stored as a negative integer and
was deleted by the first query although it had not expired.
---
 service/src/storage_impl.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index bdfdd5e..29afcb9 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -341,7 +341,14 @@ impl Storage for SQLiteStorage {
     fn remove_expired(&mut self, cur_time: Duration) -> Result<(), Self::Error> {
         let mut cursor = self
             .connection
-            .prepare("DELETE FROM trust_relations WHERE expires_at <= ? AND relation_type = ?")?
+            // timestamps are unsigned but stored as signed integers,
+            // those that do not fit wrap around and are the greatest
+            .prepare(
+                "DELETE FROM trust_relations \
+             WHERE ((expires_at < 0) < (?1 < 0) \
+                OR ((expires_at < 0) = (?1 < 0) AND expires_at <= ?1)) \
+             AND relation_type = ?2",
+            )?
             .cursor();
 
         cursor.bind(&[
-- 
2.43.0


From 0b8ec711bb244e89a3fe41f111ea39e271ccf998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:26 +0000
Subject: [PATCH 06/14] fix: check the timestamp argument of get_weight_from

The origin of argument 1 (the issuer) was checked instead of argument 2 (the
timestamp), so every honest call failed and a forged timestamp could pass.
---
 service/src/service_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index ecd45cb..58047ae 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -139,7 +139,7 @@ fn get_weight(peer_id: String, timestamp_sec: u64) -> WeightResult {
 #[marine]
 fn get_weight_from(peer_id: String, issuer: String, timestamp_sec: u64) -> WeightResult {
     with_tg(|tg| {
-        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 2)?;
         let issued_for_pk = extract_public_key(peer_id.clone())?;
         let issuer_pk = extract_public_key(issuer)?;
         let weight =
-- 
2.43.0


From 15d403b11b966c1e0c9655dc8469525793ecb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:26 +0000
Subject: [PATCH 07/14] fix: insert certificates only at the host's own
 timestamp

insert_cert and insert_cert_raw took any timestamp from the caller, so
expired trusts could be inserted, and the garbage collection that comes with
inserting could be run for an arbitrary time.
---
 service/src/service_api.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index 58047ae..37c3a9f 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -39,6 +39,7 @@ fn set_root(peer_id: String, max_chain_len: u32) -> SetRootResult {
 /// see `trust_graph::Certificate` class for string encoding/decoding
 fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let certificate = trust_graph::Certificate::from_str(&certificate)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
         tg.add(certificate, timestamp_sec)?;
@@ -52,6 +53,7 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
 /// see `dto::Certificate` class for structure
 fn insert_cert(certificate: Certificate, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
         tg.add(
             trust_graph::Certificate::try_from(certificate)?,
-- 
2.43.0


From 5de947e4e11f84b2d1bf2adcca4ad891b91f715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:26 +0000
Subject: [PATCH 08/14] fix: refuse certificates with trusts issued in the
 future

add_trust refuses such a trust, but the same trust was accepted as part of a
certificate and then could not be superseded.
---
 service/src/service_api.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index 37c3a9f..0bb025b 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -34,6 +34,18 @@ fn set_root(peer_id: String, max_chain_len: u32) -> SetRootResult {
     }
 }
 
+/// Certificates, like single trusts, can't contain trusts issued later than the current timestamp
+fn check_issued_at(
+    certificate: &trust_graph::Certificate,
+    cur_time: Duration,
+) -> Result<(), ServiceError> {
+    if certificate.chain.iter().any(|t| t.issued_at > cur_time) {
+        return Err(ServiceError::InvalidTimestamp("trust".to_string()));
+    }
+
+    Ok(())
+}
+
 #[marine]
 /// add a certificate in string representation to trust graph if it is valid
 /// see `trust_graph::Certificate` class for string encoding/decoding
@@ -42,6 +54,7 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
         check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let certificate = trust_graph::Certificate::from_str(&certificate)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
+        check_issued_at(&certificate, timestamp_sec)?;
         tg.add(certificate, timestamp_sec)?;
         Ok(())
     })
@@ -55,10 +68,9 @@ fn insert_cert(certificate: Certificate, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
         check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
-        tg.add(
-            trust_graph::Certificate::try_from(certificate)?,
-            timestamp_sec,
-        )?;
+        let certificate = trust_graph::Certificate::try_from(certificate)?;
+        check_issued_at(&certificate, timestamp_sec)?;
+        tg.add(certificate, timestamp_sec)?;
         Ok(())
     })
     .into()
-- 
2.43.0


From 33ca586f2cdb25b7e5e1cfa4a979ebf8be7cee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:47 +0000
Subject: [PATCH 09/14] fix: reject certificate texts without format and
 version lines

---
 trust-graph/src/certificate.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index bf78daf..4cd2b2a 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -310,11 +310,9 @@ impl FromStr for Certificate {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let str_lines: Vec<&str> = s.lines().collect();
 
+        // the first two lines are format and version
         // TODO for future purposes
-        let _format = str_lines[0];
-        let _version = str_lines[1];
-
-        if (str_lines.len() - 2) % 4 != 0 {
+        if str_lines.len() < 2 || (str_lines.len() - 2) % 4 != 0 {
             return Err(IncorrectCertificateFormat(s.to_string()));
         }
 
-- 
2.43.0


From d4c47c36ab7ca21bc7ec85508a13952ec394ca40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:45 +0000
Subject: [PATCH 10/14] fix: report an error when decoding empty keys and
 signatures

---
 keypair/src/public_key.rs | 2 +-
 keypair/src/signature.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keypair/src/public_key.rs b/keypair/src/public_key.rs
index 483b06b..adff7d9 100644
--- a/keypair/src/public_key.rs
+++ b/keypair/src/public_key.rs
@@ -68,7 +68,7 @@ impl PublicKey {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<PublicKey, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        match KeyFormat::try_from(*bytes.first().ok_or(DecodingError::InvalidTypeByte)?)? {
             KeyFormat::Ed25519 => Ok(PublicKey::Ed25519(ed25519::PublicKey::decode(&bytes[1..])?)),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(PublicKey::Rsa(rsa::PublicKey::from_pkcs1(
diff --git a/keypair/src/signature.rs b/keypair/src/signature.rs
index fc89472..9949bf1 100644
--- a/keypair/src/signature.rs
+++ b/keypair/src/signature.rs
@@ -64,7 +64,7 @@ impl Signature {
 
     /// decode with first byte set as keypair type
     pub fn decode(bytes: Vec<u8>) -> Result<Self, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        match KeyFormat::try_from(*bytes.first().ok_or(DecodingError::InvalidTypeByte)?)? {
             KeyFormat::Ed25519 => Ok(Signature::Ed25519(ed25519::Signature(bytes[1..].to_vec()))),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(Signature::Rsa(rsa::Signature(bytes[1..].to_vec()))),
-- 
2.43.0


From 06094c65b7ef16930eb7525ffe52cc083b6c6956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:45 +0000
Subject: [PATCH 11/14] fix: report an error when decoding a trust with
 trailing bytes

---
 trust-graph/src/trust.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trust-graph/src/trust.rs b/trust-graph/src/trust.rs
index 7618da5..163c400 100644
--- a/trust-graph/src/trust.rs
+++ b/trust-graph/src/trust.rs
@@ -206,6 +206,9 @@ impl Trust {
         offset += EXPIRATION_LEN;
 
         Self::check_arr_len(arr, "issued", offset + ISSUED_LEN)?;
+        if arr.len() > offset + ISSUED_LEN {
+            return Err(DecodeErrorInvalidSize("issued".to_string()));
+        }
         let issued_bytes = &arr[offset..];
         let issued_date = u64::from_le_bytes(issued_bytes.try_into().unwrap());
         let issued_date = Duration::from_secs(issued_date);
-- 
2.43.0


From 34b17b01f2a29bf38edac223722b9ad763a0f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:45 +0000
Subject: [PATCH 12/14] fix: deserialize ed25519 public keys from streams

---
 keypair/src/ed25519.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/keypair/src/ed25519.rs b/keypair/src/ed25519.rs
index 2ddbef6..0abf8e6 100644
--- a/keypair/src/ed25519.rs
+++ b/keypair/src/ed25519.rs
@@ -22,7 +22,9 @@
 use crate::error::{DecodingError, DecodingError::InvalidLength, SigningError, VerificationError};
 use core::fmt;
 use ed25519_dalek::{self as ed25519, Signer as _, Verifier as _};
-use serde::{Deserialize, Serialize};
+use serde::de::Error as SerdeError;
+use serde::{Deserialize, Deserializer, Serialize};
+use serde_bytes::ByteBuf as SerdeByteBuf;
 use std::convert::TryFrom;
 use zeroize::Zeroize;
 
@@ -105,7 +107,19 @@ impl From<SecretKey> for Keypair {
 
 /// An Ed25519 public key.
 #[derive(PartialEq, Eq, Debug, Clone, Deserialize, Serialize)]
-pub struct PublicKey(ed25519::VerifyingKey);
+pub struct PublicKey(#[serde(deserialize_with = "deserialize_key")] ed25519::VerifyingKey);
+
+/// `VerifyingKey` itself reads only borrowed bytes, not the owned ones that
+/// deserializers reading from a stream provide.
+fn deserialize_key<'d, D>(deserializer: D) -> Result<ed25519::VerifyingKey, D::Error>
+where
+    D: Deserializer<'d>,
+{
+    let bytes = SerdeByteBuf::deserialize(deserializer)?;
+    PublicKey::decode(bytes.as_slice())
+        .map(|pk| pk.0)
+        .map_err(SerdeError::custom)
+}
 
 impl PublicKey {
     /// Verify the Ed25519 signature on a message using the public key.
-- 
2.43.0


From 4aa8885359c20ae01d2edf9158f1831c95620258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:45 +0000
Subject: [PATCH 13/14] fix: deserialize hashable public keys from the form
 they are serialized to

---
 trust-graph/src/public_key_hashable.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/trust-graph/src/public_key_hashable.rs b/trust-graph/src/public_key_hashable.rs
index 4ac8c54..13440c1 100644
--- a/trust-graph/src/public_key_hashable.rs
+++ b/trust-graph/src/public_key_hashable.rs
@@ -103,7 +103,7 @@ impl<'de> serde::Deserialize<'de> for PublicKeyHashable {
     where
         D: serde::Deserializer<'de>,
     {
-        use serde::de::{Error, Visitor};
+        use serde::de::{Error, SeqAccess, Visitor};
 
         struct PKVisitor;
 
@@ -135,8 +135,24 @@ impl<'de> serde::Deserialize<'de> for PublicKeyHashable {
                     .map_err(|err| Error::custom(format!("Invalid bytes {b:?}: {err}")))?;
                 Ok(PublicKeyHashable::from(pk))
             }
+
+            fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+            where
+                A: SeqAccess<'de>,
+            {
+                let mut bytes: Vec<u8> = vec![];
+                while let Some(byte) = seq.next_element()? {
+                    bytes.push(byte);
+                }
+                self.visit_bytes(&bytes)
+            }
         }
 
-        deserializer.deserialize_str(PKVisitor)
+        // keys are serialized as bytes, text formats represent these as a sequence
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(PKVisitor)
+        } else {
+            deserializer.deserialize_bytes(PKVisitor)
+        }
     }
 }
-- 
2.43.0


From 00b4537f0a8ca1377203fd2904274ede0b800405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:25 +0000
Subject: [PATCH 14/14] fix: report an error when extending an empty
 certificate

---
 trust-graph/src/certificate.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 4cd2b2a..315656e 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -101,11 +101,8 @@ impl Certificate {
             });
         }
 
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
         // check if `issued_by` is allowed to issue a certificate (i.e., there’s a trust for it in a chain)
         let mut previous_trust_num: i32 = -1;
         for pk_id in 0..extend_cert.chain.len() {
@@ -166,11 +163,8 @@ impl Certificate {
         }
 
         // first, verify given certificate
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
 
         let issued_by_pk = issued_by.public();
 
-- 
2.43.0

