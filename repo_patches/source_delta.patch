From 9d78a0229f190aeddeb0cdc0d23bf7086b95e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 01/14] hook: Clone for ratchet protocol and messages under
 cfg(jester_verif)

---
 jester_double_ratchet/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4f3fa05..1e77979 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -52,6 +52,7 @@ pub trait ConstantInputKeyRatchet: KeyDerivationFunction {
 /// # Type Parameters
 /// - `K` the diffie-hellman key type
 /// - `C` the cipher text type
+#[cfg_attr(jester_verif, derive(Clone))]
 pub struct DoubleRatchetAlgorithmMessage<K, C> {
     public_key: K,
     message_number: usize,
@@ -117,6 +118,7 @@ pub enum DecryptionException {
 /// - `RootChainKey` root KDF key type
 /// - `MessageChainKey` root KDF output key type and message KDFs' key type
 /// - `MessageKey` encryption key type and output key of message KDFs
+#[cfg_attr(jester_verif, derive(Clone))]
 pub struct DoubleRatchetProtocol<
     DHScheme,
     EncryptionScheme,
-- 
2.43.0


From 1e34f2eb45d2958ec7814da6978bd4aa445a28ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 02/14] hook: scheduling point at the coefficient cache locks
 under cfg(jester_verif)

---
 jester_sharing/src/lib.rs                     |  3 ++
 .../shared_or_function/joint_unbounded_or.rs  |  3 ++
 jester_sharing/src/verif.rs                   | 47 +++++++++++++++++++
 3 files changed, 53 insertions(+)
 create mode 100644 jester_sharing/src/verif.rs

diff --git a/jester_sharing/src/lib.rs b/jester_sharing/src/lib.rs
index 5a8feaa..d30a33c 100644
--- a/jester_sharing/src/lib.rs
+++ b/jester_sharing/src/lib.rs
@@ -27,6 +27,9 @@ pub mod threshold_sharing;
 /// Protocol marker for delegated protocol implementations
 pub struct Delegate;
 
+#[cfg(jester_verif)]
+pub mod verif;
+
 pub(crate) mod test_implementations;
 #[cfg(test)]
 mod tests;
diff --git a/jester_sharing/src/shared_or_function/joint_unbounded_or.rs b/jester_sharing/src/shared_or_function/joint_unbounded_or.rs
index cb3a193..a6fc669 100644
--- a/jester_sharing/src/shared_or_function/joint_unbounded_or.rs
+++ b/jester_sharing/src/shared_or_function/joint_unbounded_or.rs
@@ -9,6 +9,9 @@ use std::collections::HashMap;
 use std::marker::PhantomData;
 use std::pin::Pin;
 
+#[cfg(jester_verif)]
+use crate::verif::Mutex;
+#[cfg(not(jester_verif))]
 use futures::lock::Mutex;
 use futures::{future::join_all, join};
 use lazy_static::*;
diff --git a/jester_sharing/src/verif.rs b/jester_sharing/src/verif.rs
new file mode 100644
index 0000000..9a9bd64
--- /dev/null
+++ b/jester_sharing/src/verif.rs
@@ -0,0 +1,47 @@
+//! Verification hook, only compiled with `--cfg jester_verif`. It puts a scheduling point in front of every acquisition of
+//! a global lock, so a model checker can explore how concurrent computations interleave.
+
+use futures::lock::MutexGuard;
+use std::cell::Cell;
+use std::future::Future;
+use std::pin::Pin;
+use std::task::{Context, Poll};
+
+thread_local! {
+    static LOCK_POINT: Cell<Option<fn() -> bool>> = Cell::new(None);
+}
+
+/// Register a function that decides at each lock acquisition of this thread whether the acquiring task yields first.
+pub fn set_lock_point(decide: Option<fn() -> bool>) {
+    LOCK_POINT.with(|point| point.set(decide));
+}
+
+struct LockPoint;
+
+impl Future for LockPoint {
+    type Output = ();
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
+        match LOCK_POINT.with(|point| point.get()) {
+            Some(decide) if decide() => {
+                cx.waker().wake_by_ref();
+                Poll::Pending
+            }
+            _ => Poll::Ready(()),
+        }
+    }
+}
+
+/// `futures::lock::Mutex` with a scheduling point in front of each acquisition.
+pub struct Mutex<T>(futures::lock::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Mutex(futures::lock::Mutex::new(value))
+    }
+
+    pub async fn lock(&self) -> MutexGuard<'_, T> {
+        LockPoint.await;
+        self.0.lock().await
+    }
+}
-- 
2.43.0


From e1dbae7ea74d42affb09e6b4508aeb0213ed2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 03/14] fix: hmac pads the shortened key instead of the
 original key

A key longer than the block of the hash function is replaced by its digest first. The padding then used the original
key's length, which underflowed.
---
 jester_hashes/src/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_hashes/src/hmac.rs b/jester_hashes/src/hmac.rs
index b613313..0eca495 100644
--- a/jester_hashes/src/hmac.rs
+++ b/jester_hashes/src/hmac.rs
@@ -21,7 +21,7 @@ pub fn hmac<Hash, Context>(ctx: &Context, key: &[u8], message: &[u8]) -> Vec<u8>
     };
 
     let padded_key = if shortened_key.len() < block_size {
-        pad(key, block_size)
+        pad(&shortened_key, block_size)
     } else {
         shortened_key
     };
-- 
2.43.0


From 15d9694ff66023589e46b41fe82cadb8d3135951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 04/14] fix: hkdf returns exactly the requested number of bytes

The expanded key was rounded up to a multiple of the hash function's output size.
---
 jester_hashes/src/kdf.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_hashes/src/kdf.rs b/jester_hashes/src/kdf.rs
index fb3482c..9637e70 100644
--- a/jester_hashes/src/kdf.rs
+++ b/jester_hashes/src/kdf.rs
@@ -20,7 +20,9 @@ pub fn hkdf_derive_key<Hash, Context>(
                         &vec![parts[i - 1].deref(), info, &[(i & 0xFF) as u8]].concat())
     }
 
-    parts.concat()
+    let mut output_key = parts.concat();
+    output_key.truncate(output_length);
+    output_key
 }
 
 
-- 
2.43.0


From 314586400c0d25da8d7fa3306f2c302a8e2e546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 05/14] fix: from_i64 converts the smallest integer

Negating i64::MIN overflows.
---
 jester_maths/src/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_maths/src/prime.rs b/jester_maths/src/prime.rs
index 1fb8c15..046b7bf 100644
--- a/jester_maths/src/prime.rs
+++ b/jester_maths/src/prime.rs
@@ -193,7 +193,7 @@ macro_rules! prime_fields {
                 impl num::FromPrimitive for $name {
                     fn from_i64(n: i64) -> Option<Self> {
                         if n < 0 {
-                            $crate::prime::num_bigint::BigUint::from_i64(-n).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
+                            $crate::prime::num_bigint::BigUint::from_u64(n.unsigned_abs()).map(|a| ::std::ops::Sub::sub("prime" $name.clone(), a.into()))
                         } else {
                             $crate::prime::num_bigint::BigUint::from_i64(n).map(|o| o.into())
                         }
-- 
2.43.0


From 75390ff33aad8ddd9c431c17844ca8aba9518eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 06/14] fix: double ratchet remembers the public key of the new
 receiving chain

The received key was never updated after a ratchet step, so that the second message of every later chain was taken for
the start of yet another chain and refused.
---
 jester_double_ratchet/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 1e77979..5354399 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -545,6 +545,7 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
+            self.diffie_hellman_received_key = Some(message.public_key.clone());
 
             // update root chain
             self.root_chain_key = Some(updated_root_key);
-- 
2.43.0


From 847d6dc93d6701cde3543851ccd636faffcbe3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 07/14] fix: double ratchet stores skipped message keys under
 their own numbers

Message numbers start at zero, but the key of the skipped message n was stored for number n + 1. A late message was
therefore rejected, or decrypted with the key of its predecessor.
---
 jester_double_ratchet/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 5354399..15369c7 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -486,7 +486,6 @@ where
             let (new_chain_key, output_key) =
                 MessageKdf::derive_key_without_input(self.receiving_chain_key.take().unwrap());
             self.receiving_chain_key = Some(new_chain_key);
-            self.receiving_chain_length += 1;
             self.missed_messages.insert(
                 (
                     self.diffie_hellman_received_key.clone().unwrap(),
@@ -494,6 +493,7 @@ where
                 ),
                 output_key,
             );
+            self.receiving_chain_length += 1;
             current_chain_missed_messages -= 1;
         }
 
@@ -518,7 +518,6 @@ where
 
             // if messages of this new chain were missed:
             while next_chain_missed_messages > 0 {
-                self.receiving_chain_length += 1;
                 let (updated_receiving_chain_key, message_key) =
                     MessageKdf::derive_key_without_input(receiving_chain_key);
                 receiving_chain_key = updated_receiving_chain_key;
@@ -526,6 +525,7 @@ where
                     (message.public_key.clone(), self.receiving_chain_length),
                     message_key,
                 );
+                self.receiving_chain_length += 1;
                 next_chain_missed_messages -= 1;
             }
 
-- 
2.43.0


From 6bea30147bc1944ec21020cc120d30f85c63192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 08/14] fix: double ratchet counts skipped messages at the
 start of a new chain

When the first messages of a chain were missing, the chain length was reset to one nonetheless, so that all following
messages of the chain were decrypted with wrong keys.
---
 jester_double_ratchet/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 15369c7..5800377 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -554,7 +554,7 @@ where
             self.previous_receiving_chain_length = self.receiving_chain_length;
             self.previous_sending_chain_length = self.sending_chain_length;
             self.sending_chain_length = 0;
-            self.receiving_chain_length = 1;
+            self.receiving_chain_length += 1;
 
             message_key
         } else {
-- 
2.43.0


From 34fc5f1493e2a7c2d9b0c9c35284cb722d3c06d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 09/14] fix: double ratchet recognizes messages of earlier
 chains

A late message of an earlier chain was refused or mistaken for the start of a new chain although its key was stored,
and a duplicate of an already decrypted one could even replace the current chains. The public keys of earlier receiving
chains are remembered, and their messages are looked up among the skipped ones.
---
 jester_double_ratchet/src/lib.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 5800377..4eba626 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -5,7 +5,7 @@ use rand::{CryptoRng, RngCore};
 use crate::DecryptionException::{OutOfOrderMessage, UnknownMessageHeader};
 use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
 use jester_encryption::SymmetricalEncryptionScheme;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hash;
 
 #[cfg(test)]
@@ -164,6 +164,7 @@ pub struct DoubleRatchetProtocol<
     previous_sending_chain_length: usize,
     previous_receiving_chain_length: usize,
     missed_messages: HashMap<(DHPublicKey, usize), MessageKey>,
+    retired_public_keys: HashSet<DHPublicKey>,
 }
 
 impl<
@@ -245,6 +246,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_public_keys: HashSet::new(),
             },
             DoubleRatchetAlgorithmMessage {
                 public_key: public_dh_key,
@@ -324,6 +326,7 @@ where
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
                 missed_messages: HashMap::new(),
+                retired_public_keys: HashSet::new(),
             },
             clear_text,
         )
@@ -416,6 +419,7 @@ where
             previous_sending_chain_length: 0,
             previous_receiving_chain_length: 0,
             missed_messages: HashMap::new(),
+            retired_public_keys: HashSet::new(),
         }
     }
 
@@ -545,7 +549,10 @@ where
             // update dh keys
             self.diffie_hellman_public_key = new_dh_public_key;
             self.diffie_hellman_private_key = Some(new_dh_private_key);
-            self.diffie_hellman_received_key = Some(message.public_key.clone());
+            self.retired_public_keys.extend(
+                self.diffie_hellman_received_key
+                    .replace(message.public_key.clone()),
+            );
 
             // update root chain
             self.root_chain_key = Some(updated_root_key);
@@ -654,6 +661,12 @@ where
                 message_number: message.message_number,
             })
         }
+    } else if protocol.retired_public_keys.contains(&message.public_key) {
+        // this message belongs to an earlier chain, so it is received out of order
+        Err(ProtocolException::OutOfOrderMessage {
+            public_key: message.public_key.clone(),
+            message_number: message.message_number,
+        })
     } else {
         if message.previous_chain_length >= protocol.receiving_chain_length {
             // this message starts a new chain
-- 
2.43.0


From 3f5ae0488bb9ed76245d363a608ba364f3569a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 10/14] fix: the initiator's first received message need not be
 the first one sent

If the addressee's first messages are lost or delayed, the message that arrives first was decrypted with the key of the
first message sent.
---
 jester_double_ratchet/src/lib.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index 4eba626..e149819 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -293,9 +293,22 @@ where
         // update receiving chain
         let (updated_root_key, receiving_key) =
             RootKdf::derive_key(self.root_chain_key.take().unwrap(), generated_dh_shared_key);
-        let (receiving_chain_key, message_key) =
+        let (mut receiving_chain_key, mut message_key) =
             MessageKdf::derive_key_without_input(receiving_key);
 
+        // store the keys of messages that were sent before this one, but are missing
+        let mut missed_messages = HashMap::new();
+        for missed_message_number in 0..message.message_number {
+            missed_messages.insert(
+                (message.public_key.clone(), missed_message_number),
+                message_key,
+            );
+            let (updated_chain_key, next_message_key) =
+                MessageKdf::derive_key_without_input(receiving_chain_key);
+            receiving_chain_key = updated_chain_key;
+            message_key = next_message_key;
+        }
+
         // decrypt message
         let clear_text = EncryptionScheme::decrypt_message(&message_key, &message.message.unwrap());
 
@@ -322,10 +335,10 @@ where
                 sending_chain_key: Some(sending_key),
                 receiving_chain_key: Some(receiving_chain_key),
                 sending_chain_length: 0,
-                receiving_chain_length: 1,
+                receiving_chain_length: message.message_number + 1,
                 previous_sending_chain_length: 0,
                 previous_receiving_chain_length: 0,
-                missed_messages: HashMap::new(),
+                missed_messages,
                 retired_public_keys: HashSet::new(),
             },
             clear_text,
-- 
2.43.0


From 6f18657fd68af48f798eaaa8a5873b6c5a07bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:23 +0000
Subject: [PATCH 11/14] hook: Clone for the ratchet protocol states under
 cfg(jester_verif)

---
 jester_double_ratchet/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jester_double_ratchet/src/lib.rs b/jester_double_ratchet/src/lib.rs
index e149819..cffbd09 100644
--- a/jester_double_ratchet/src/lib.rs
+++ b/jester_double_ratchet/src/lib.rs
@@ -70,9 +70,11 @@ pub mod state {
 
     /// The protocol is in this state, until the addressee of the channel responds for the first time, sending its
     /// Diffie-Hellman public key
+    #[cfg_attr(jester_verif, derive(Clone))]
     pub struct Initiator;
 
     /// This state is reached when the protocol is fully established.
+    #[cfg_attr(jester_verif, derive(Clone))]
     pub struct Established;
 
     impl ProtocolState for Initiator {}
-- 
2.43.0


From 911251d5c914ff2d445ec5721988f1319abb6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 12/14] fix: shamir shares do not overflow for large share
 counts and thresholds

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 49d3a9c..00fc2ce 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -107,7 +107,7 @@ where
                         .clone()
                         .iter()
                         .fold(secret.clone(), |akk, (index, val)| {
-                            akk + val.clone() * BigUint::from_usize(pow(x, *index)).unwrap().into()
+                            akk + val.clone() * pow(BigUint::from_usize(x).unwrap(), *index).into()
                         }),
                 )
             })
-- 
2.43.0


From 27f78b9441109aa35e0e514b08e625a39707a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 13/14] fix: shamir reconstruction from more shares than the
 threshold

---
 jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
index 00fc2ce..18b7595 100644
--- a/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
+++ b/jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs
@@ -124,9 +124,11 @@ where
     /// Given that `threshold` matches the threshold at generation and enough shares are present, it will return an
     /// instance of `T` that is reconstructed from the shares
     fn reconstruct_secret(shares: &[(usize, T)], threshold: usize) -> T {
+        // interpolate a polynomial of degree `threshold - 1` through the first `threshold` shares
+        let shares = &shares[..threshold.min(shares.len())];
+
         shares
             .iter()
-            .take(threshold)
             .map(|(i, share)| {
                 share.clone().mul(
                     shares
-- 
2.43.0


From fd548400163c67017e27fb8a9b105293ff0caeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:31 +0000
Subject: [PATCH 14/14] hook: the scheduling-point mutex offers the wrapped
 mutex's other operations

---
 jester_sharing/src/verif.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jester_sharing/src/verif.rs b/jester_sharing/src/verif.rs
index 9a9bd64..5362fa5 100644
--- a/jester_sharing/src/verif.rs
+++ b/jester_sharing/src/verif.rs
@@ -4,6 +4,7 @@
 use futures::lock::MutexGuard;
 use std::cell::Cell;
 use std::future::Future;
+use std::ops::Deref;
 use std::pin::Pin;
 use std::task::{Context, Poll};
 
@@ -45,3 +46,11 @@ impl<T> Mutex<T> {
         self.0.lock().await
     }
 }
+
+impl<T> Deref for Mutex<T> {
+    type Target = futures::lock::Mutex<T>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.0
+    }
+}
-- 
2.43.0

