From 478f68e8fbbf1254c37b105fc31ca541cad197e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 01/29] fix: refuse records whose version is a known code point
 outside 0x03XX

---
 crates/tls-core/src/msgs/message.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/tls-core/src/msgs/message.rs b/crates/tls-core/src/msgs/message.rs
index b222180..df69ded 100644
--- a/crates/tls-core/src/msgs/message.rs
+++ b/crates/tls-core/src/msgs/message.rs
@@ -97,12 +97,12 @@ impl OpaqueMessage {
         }
 
         // Accept only versions 0x03XX for any XX.
-        match version {
-            ProtocolVersion::Unknown(ref v) if (v & 0xff00) != 0x0300 => {
-                return Err(MessageError::IllegalProtocolVersion);
-            }
-            _ => {}
-        };
+        //
+        // This is checked on the code point: the registry also names versions
+        // outside of this range (SSLv2, DTLS).
+        if (version.get_u16() & 0xff00) != 0x0300 {
+            return Err(MessageError::IllegalProtocolVersion);
+        }
 
         let mut sub = r.sub(len as usize).ok_or(MessageError::TooShortForLength)?;
         let payload = Payload::read(&mut sub);
-- 
2.43.0


From d53da9a8a1b614989de2bbf6f0dc6d8f1a441490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 02/29] fix: report the curve of the key that verified an ECDSA
 signature

---
 crates/tls-core/src/verify.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/tls-core/src/verify.rs b/crates/tls-core/src/verify.rs
index c52deab..b362718 100644
--- a/crates/tls-core/src/verify.rs
+++ b/crates/tls-core/src/verify.rs
@@ -484,28 +484,34 @@ pub enum SignatureAlgorithm {
 
 impl SignatureAlgorithm {
     pub fn from_alg(alg: &dyn pki_types::SignatureVerificationAlgorithm) -> Self {
-        let id = alg.signature_alg_id();
-        if id == webpki::ring::ECDSA_P256_SHA256.signature_alg_id() {
+        // For ECDSA the signature algorithm does not determine the curve, so the
+        // public key algorithm has to be compared as well.
+        let is = |other: &dyn pki_types::SignatureVerificationAlgorithm| {
+            alg.signature_alg_id() == other.signature_alg_id()
+                && alg.public_key_alg_id() == other.public_key_alg_id()
+        };
+
+        if is(webpki::ring::ECDSA_P256_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA256
-        } else if id == webpki::ring::ECDSA_P256_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P256_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP256_SHA384
-        } else if id == webpki::ring::ECDSA_P384_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA256) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA256
-        } else if id == webpki::ring::ECDSA_P384_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::ECDSA_P384_SHA384) {
             SignatureAlgorithm::ECDSA_NISTP384_SHA384
-        } else if id == webpki::ring::ED25519.signature_alg_id() {
+        } else if is(webpki::ring::ED25519) {
             SignatureAlgorithm::ED25519
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA256.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA256) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA256
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA384.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA384) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA384
-        } else if id == webpki::ring::RSA_PKCS1_2048_8192_SHA512.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PKCS1_2048_8192_SHA512) {
             SignatureAlgorithm::RSA_PKCS1_2048_8192_SHA512
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA256_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA256_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA384_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA384_LEGACY_KEY
-        } else if id == webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY.signature_alg_id() {
+        } else if is(webpki::ring::RSA_PSS_2048_8192_SHA512_LEGACY_KEY) {
             SignatureAlgorithm::RSA_PSS_2048_8192_SHA512_LEGACY_KEY
         } else {
             unreachable!()
-- 
2.43.0


From 7c927f74f98fe8bcc5c08b767b482424db85ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 03/29] fix: refuse partial transcripts longer than a
 transcript can be

---
 crates/core/src/transcript.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/core/src/transcript.rs b/crates/core/src/transcript.rs
index 298db43..395e35a 100644
--- a/crates/core/src/transcript.rs
+++ b/crates/core/src/transcript.rs
@@ -567,6 +567,17 @@ mod validation {
                 ));
             }
 
+            // The length of a transcript is committed to as a `u32`, see
+            // `TranscriptLength`. Anything longer cannot be valid and must not be
+            // allocated.
+            if u32::try_from(unchecked.sent_total).is_err()
+                || u32::try_from(unchecked.recv_total).is_err()
+            {
+                return Err(InvalidCompressedPartialTranscript(
+                    "transcript length exceeds the maximum",
+                ));
+            }
+
             Ok(Self {
                 received_authed: unchecked.received_authed,
                 recv_idx: unchecked.recv_idx,
-- 
2.43.0


From 2cadbe0a5d9f9eac68cad98a4b30483fd916b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 04/29] fix: leave messages after ServerHelloDone out of the
 session hash

The session hash of RFC 7627 ends with ClientKeyExchange; a
NewSessionTicket, sent before the server's ChangeCipherSpec, was included.
---
 crates/core/src/transcript/tls/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 83ba75a..5b2c0c0 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -298,7 +298,7 @@ fn compute_handshake_hashes(
     // → client flight up to and including ClientKeyExchange.
     let mut hasher = Sha256::new();
     hasher.update(&sent_hs_bytes[..sent_ch_end]);
-    hasher.update(&recv_hs_bytes);
+    hasher.update(&recv_hs_bytes[..recv_shd_end]);
     hasher.update(&sent_hs_bytes[sent_ch_end..ckx.end]);
     let session_hash: [u8; 32] = hasher.finalize().into();
 
-- 
2.43.0


From 072fa542fe7621cc9f38f1a97cb3115c2acbf6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 05/29] fix: refuse Merkle proofs for leaves outside of the
 tree

The verification of the rs_merkle crate pairs nodes by position, so leaves
past the end of the tree never reach the root. A prover could add fields to
an attested body under such an index and have the presentation verify.
---
 crates/core/src/merkle.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/core/src/merkle.rs b/crates/core/src/merkle.rs
index 05282cd..04a5628 100644
--- a/crates/core/src/merkle.rs
+++ b/crates/core/src/merkle.rs
@@ -52,6 +52,11 @@ impl MerkleProof {
             return Err(MerkleError::new("duplicate leaf indices provided"));
         }
 
+        // A leaf outside of the tree does not contribute to the root.
+        if indices.iter().any(|idx| *idx >= self.leaf_count) {
+            return Err(MerkleError::new("leaf index out of bounds"));
+        }
+
         if !self.proof.verify(
             &RsMerkleHasher(hasher),
             root.value,
-- 
2.43.0


From 0b8074a6056a5c8ade5bc08ca38933a41f60a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 06/29] fix: mpc-tls client: keep every error of
 process_new_packets

Only errors of the protocol states were kept; a desynchronised deframer,
an error of the backend or of writing out buffered plaintext left the
connection with HandshakeNotComplete, although later calls are documented
to return the same error.
---
 crates/mpc-tls/src/client/conn.rs | 38 ++++++++++++++++---------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/crates/mpc-tls/src/client/conn.rs b/crates/mpc-tls/src/client/conn.rs
index 3943820..49db27c 100644
--- a/crates/mpc-tls/src/client/conn.rs
+++ b/crates/mpc-tls/src/client/conn.rs
@@ -216,7 +216,7 @@ impl ClientConnection {
     /// [`read_tls`]: ClientConnection::read_tls
     /// [`process_new_packets`]: ClientConnection::process_new_packets
     pub async fn process_new_packets(&mut self) -> Result<IoState, Error> {
-        let mut state = match mem::replace(&mut self.state, Err(Error::HandshakeNotComplete)) {
+        let state = match mem::replace(&mut self.state, Err(Error::HandshakeNotComplete)) {
             Ok(state) => state,
             Err(e) => {
                 self.state = Err(e.clone());
@@ -224,6 +224,22 @@ impl ClientConnection {
             }
         };
 
+        match self.process_new_packets_inner(state).await {
+            Ok(state) => {
+                self.state = Ok(state);
+                Ok(self.common_state.current_io_state())
+            }
+            Err(e) => {
+                self.state = Err(e.clone());
+                Err(e)
+            }
+        }
+    }
+
+    async fn process_new_packets_inner(
+        &mut self,
+        mut state: Box<dyn State>,
+    ) -> Result<Box<dyn State>, Error> {
         if self.message_deframer.desynced {
             return Err(Error::CorruptMessage);
         }
@@ -236,35 +252,21 @@ impl ClientConnection {
             // If we're not decrypting yet, we process it immediately. Otherwise it will be
             // pushed to the backend.
             if let Some(plain) = self.process_incoming_opaque(msg).await? {
-                match self.process_incoming_plain(plain, state).await {
-                    Ok(new) => state = new,
-                    Err(e) => {
-                        self.state = Err(e.clone());
-                        return Err(e);
-                    }
-                }
+                state = self.process_incoming_plain(plain, state).await?;
             }
         }
         self.backend.flush().await?;
 
         // Process pending decrypted messages.
         while let Some(msg) = self.backend.next_incoming()? {
-            match self.process_incoming_plain(msg, state).await {
-                Ok(new) => state = new,
-                Err(e) => {
-                    self.state = Err(e.clone());
-                    return Err(e);
-                }
-            }
+            state = self.process_incoming_plain(msg, state).await?;
         }
 
         while let Some(msg) = self.backend.next_outgoing()? {
             self.queue_tls_message(msg);
         }
 
-        self.state = Ok(state);
-
-        Ok(self.common_state.current_io_state())
+        Ok(state)
     }
 
     async fn process_new_handshake_messages(
-- 
2.43.0


From c165e5b9815e18059180378452be53ec79fb5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 07/29] fix: mpc-tls client: an alert of unknown level ends the
 connection

After sending illegal_parameter the connection went on: with close_notify
the alert was accepted, and a second such alert tripped the assertion that
only one fatal alert is sent.
---
 crates/mpc-tls/src/client/conn.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mpc-tls/src/client/conn.rs b/crates/mpc-tls/src/client/conn.rs
index 49db27c..42ba143 100644
--- a/crates/mpc-tls/src/client/conn.rs
+++ b/crates/mpc-tls/src/client/conn.rs
@@ -592,6 +592,7 @@ impl CommonState {
         if let AlertLevel::Unknown(_) = alert.level {
             self.send_fatal_alert(AlertDescription::IllegalParameter)
                 .await?;
+            return Err(Error::AlertReceived(alert.description));
         }
 
         // If we get a CloseNotify, make a note to declare EOF to our
-- 
2.43.0


From ed981f4f003daf02c6f09907a86834059206f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:04 +0000
Subject: [PATCH 08/29] fix: send close_notify when the client closes the
 connection

The close_notify alert was only buffered by the MPC-TLS client. Nothing
encrypted it until the server made progress, so a session hung when the
server was waiting for the close_notify.
---
 crates/tlsn/src/prover/client/mpc.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 733726c..f622569 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -373,10 +373,14 @@ impl InnerState {
 
         if !self.client_closed {
             debug!("sending close notify");
-            if let Err(e) = self.tls.send_close_notify().await {
-                warn!("failed to send close_notify to server: {}", e);
-            }
             self.client_closed = true;
+            match self.tls.send_close_notify().await {
+                // The alert is only buffered, so it needs to be encrypted now.
+                // Otherwise it would not be sent until the server makes
+                // progress, which may be waiting for the close_notify.
+                Ok(()) => self = self.run().await?,
+                Err(e) => warn!("failed to send close_notify to server: {}", e),
+            }
         }
 
         Ok(self)
-- 
2.43.0


From 47eda498942a19419a62ded2e2022fd51022534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 09/29] fix: fail when the server closes the connection during
 the handshake

The MPC-TLS client recursed without end (a stack overflow), and the proxy
client waited forever.
---
 crates/tlsn/src/prover/client/mpc.rs       | 19 ++++++++++++++-----
 crates/tlsn/src/prover/client/proxy/mod.rs |  3 +++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index f622569..e4552a1 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -217,12 +217,15 @@ impl TlsClient for MpcTlsClient {
                 trace!("inner client is active");
                 let decrypt = self.decrypt.is_decrypting();
 
+                if self.server_closed {
+                    self.state = State::CloseBusy {
+                        fut: Box::pin(inner.server_close()),
+                    };
+                    return self.poll(cx);
+                }
+
                 if !inner.tls.is_handshaking() {
-                    if self.server_closed {
-                        self.state = State::CloseBusy {
-                            fut: Box::pin(inner.server_close()),
-                        };
-                    } else if self.client_wants_close {
+                    if self.client_wants_close {
                         self.state = State::Busy {
                             fut: Box::pin(inner.client_close()),
                         };
@@ -390,6 +393,12 @@ impl InnerState {
     async fn server_close(mut self: Box<Self>) -> Result<Box<Self>, TlsnError> {
         self = self.run().await?;
 
+        if self.tls.is_handshaking() {
+            return Err(
+                TlsnError::io().with_msg("server closed the connection during the handshake")
+            );
+        }
+
         self.tls
             .server_closed()
             .await
diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index cde5b84..ddb0563 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -229,6 +229,9 @@ impl TlsClient for ProxyTlsClient {
                         prover,
                     };
                     self.poll(cx)
+                } else if self.server_closed {
+                    Poll::Ready(Err(TlsnError::io()
+                        .with_msg("server closed the connection during the handshake")))
                 } else {
                     self.state = State::Handshaking { prover };
                     Poll::Pending
-- 
2.43.0


From eb6ebbeb8b7833d43477ce6429493ccf19311c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 10/29] fix: act on a change of decryption while the prover is
 busy or idle

Enabling decryption did not wake the prover, so it had no effect until
something else happened on the connection. A change that came while the
MPC-TLS client was busy was forgotten in the same way, and a change after
the client closed was ignored.
---
 crates/tlsn/src/prover/client.rs           | 17 +++++++++++++++-
 crates/tlsn/src/prover/client/mpc.rs       | 23 +++++++++++-----------
 crates/tlsn/src/prover/client/proxy/mod.rs |  6 ++----
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/crates/tlsn/src/prover/client.rs b/crates/tlsn/src/prover/client.rs
index b123757..bad3079 100644
--- a/crates/tlsn/src/prover/client.rs
+++ b/crates/tlsn/src/prover/client.rs
@@ -6,13 +6,14 @@ use std::{
         Arc,
         atomic::{AtomicBool, Ordering},
     },
-    task::Poll,
+    task::{Poll, Waker},
 };
 
 mod mpc;
 pub(crate) use mpc::MpcTlsClient;
 
 mod proxy;
+use futures::task::AtomicWaker;
 use mpz_common::Context;
 pub(crate) use proxy::ProxyTlsClient;
 
@@ -64,11 +65,25 @@ pub(crate) trait TlsClient {
 #[derive(Debug)]
 pub(crate) struct DecryptState {
     decrypt: AtomicBool,
+    waker: AtomicWaker,
 }
 
 impl DecryptState {
+    pub(crate) fn new(decrypt: bool) -> Self {
+        Self {
+            decrypt: AtomicBool::new(decrypt),
+            waker: AtomicWaker::new(),
+        }
+    }
+
+    /// Registers the task to wake when decryption is enabled or disabled.
+    pub(crate) fn register(&self, waker: &Waker) {
+        self.waker.register(waker);
+    }
+
     pub(crate) fn enable_decryption(&self, enable: bool) {
         self.decrypt.store(enable, Ordering::Release);
+        self.waker.wake();
     }
 
     pub(crate) fn is_decrypting(&self) -> bool {
diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index e4552a1..8fa86f9 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -9,11 +9,7 @@ use futures::{Future, FutureExt};
 use mpc_tls::{MpcTlsLeader, SessionKeys, client::ClientConnection};
 use mpz_common::Context;
 use rustls_pki_types::CertificateDer;
-use std::{
-    pin::Pin,
-    sync::{Arc, atomic::AtomicBool},
-    task::Poll,
-};
+use std::{pin::Pin, sync::Arc, task::Poll};
 use tls_core::dns::ServerName;
 use tlsn_core::{config::tls::TlsClientConfig, transcript::TlsTranscript};
 use tlsn_deap::Deap;
@@ -64,9 +60,7 @@ impl MpcTlsClient {
         mpc_tls: MpcTlsLeader,
     ) -> Result<Self, TlsnError> {
         let config = create_client_config(config)?;
-        let decrypt = DecryptState {
-            decrypt: AtomicBool::new(mpc_tls.is_decrypting()),
-        };
+        let decrypt = DecryptState::new(mpc_tls.is_decrypting());
 
         let tls = ClientConnection::new(Arc::new(config), mpc_tls, server_name).map_err(|e| {
             TlsnError::config()
@@ -205,6 +199,8 @@ impl TlsClient for MpcTlsClient {
         &mut self,
         cx: &mut std::task::Context,
     ) -> Poll<Result<(Context, ProverZk, TlsOutput), Self::Error>> {
+        self.decrypt.register(cx.waker());
+
         match std::mem::replace(&mut self.state, State::Error) {
             State::Start { inner } => {
                 trace!("inner client is starting");
@@ -225,7 +221,7 @@ impl TlsClient for MpcTlsClient {
                 }
 
                 if !inner.tls.is_handshaking() {
-                    if self.client_wants_close {
+                    if self.client_wants_close && !inner.client_closed {
                         self.state = State::Busy {
                             fut: Box::pin(inner.client_close()),
                         };
@@ -253,9 +249,14 @@ impl TlsClient for MpcTlsClient {
 
                 match fut.as_mut().poll(cx)? {
                     Poll::Ready(inner) => {
+                        // re-poll immediately if a close transition or a change of
+                        // decryption is pending
+                        let pending = self.server_closed
+                            || (!inner.tls.is_handshaking()
+                                && (!self.client_wants_close || inner.client_closed)
+                                && self.decrypt.is_decrypting() != inner.decrypt);
                         self.state = State::Active { inner };
-                        // re-poll immediately if a close transition is pending
-                        if self.server_closed {
+                        if pending {
                             return self.poll(cx);
                         }
                     }
diff --git a/crates/tlsn/src/prover/client/proxy/mod.rs b/crates/tlsn/src/prover/client/proxy/mod.rs
index ddb0563..a4616de 100644
--- a/crates/tlsn/src/prover/client/proxy/mod.rs
+++ b/crates/tlsn/src/prover/client/proxy/mod.rs
@@ -16,7 +16,7 @@ use rustls_pki_types::{CertificateDer, PrivateKeyDer};
 use std::{
     io::{Read, Write},
     pin::Pin,
-    sync::{Arc, atomic::AtomicBool},
+    sync::Arc,
     task::Poll,
 };
 use tls_core::dns::ServerName;
@@ -104,9 +104,7 @@ impl ProxyTlsClient {
                     .with_source(err)
             })?;
 
-        let decrypt = DecryptState {
-            decrypt: AtomicBool::new(true),
-        };
+        let decrypt = DecryptState::new(true);
 
         let tls_client = Self {
             conn,
-- 
2.43.0


From 416a9ad68de6978d465712eb0098d27a728d1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 11/29] fix: allocate protocol records on top of configured
 record counts

The configured maximum number of application data records had to cover
the Finished and close_notify records too, so two less could be sent or
received than was configured.
---
 crates/mpc-tls/src/config.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/mpc-tls/src/config.rs b/crates/mpc-tls/src/config.rs
index 9a13861..61b9360 100644
--- a/crates/mpc-tls/src/config.rs
+++ b/crates/mpc-tls/src/config.rs
@@ -42,14 +42,15 @@ pub struct Config {
     /// bandwidth usage and performance.
     pub(crate) defer_decryption: bool,
     /// Maximum number of sent TLS records. Data is transmitted in records up to
-    /// 16KB long.
+    /// 16KB long. The builder takes the number of application data records.
     pub(crate) max_sent_records: usize,
     /// Maximum number of sent bytes.
     pub(crate) max_sent: usize,
     /// Maximum number of received TLS records to be decrypted online, i.e
     /// while the TLS connection is active.
     ///
-    /// Data is transmitted in records up to 16KB long.
+    /// Data is transmitted in records up to 16KB long. The builder takes the
+    /// number of application data records.
     pub(crate) max_recv_records_online: usize,
     /// Maximum number of received bytes which will be decrypted while
     /// the TLS connection is active.
@@ -101,12 +102,14 @@ impl ConfigBuilder {
         max_recv_online += PROTOCOL_DATA_RECV;
         max_recv += PROTOCOL_DATA_RECV;
 
-        let max_sent_records = self
-            .max_sent_records
-            .unwrap_or_else(|| PROTOCOL_RECORD_COUNT_SENT + default_record_count(max_sent));
-        let max_recv_records_online = self
-            .max_recv_records_online
-            .unwrap_or_else(|| PROTOCOL_RECORD_COUNT_RECV + default_record_count(max_recv_online));
+        let max_sent_records = PROTOCOL_RECORD_COUNT_SENT
+            + self
+                .max_sent_records
+                .unwrap_or_else(|| default_record_count(max_sent));
+        let max_recv_records_online = PROTOCOL_RECORD_COUNT_RECV
+            + self
+                .max_recv_records_online
+                .unwrap_or_else(|| default_record_count(max_recv_online));
 
         let prf = self.prf.unwrap_or(NetworkMode::Normal);
 
-- 
2.43.0


From 59dcf49525dce71862f796665212706efc787db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:09 +0000
Subject: [PATCH 12/29] fix: allocate enough keystream for small records

Every record takes a whole number of keystream blocks, which the
allocation did not account for. A connection within the configured limits
failed with insufficient keystream when its records were small.
---
 crates/mpc-tls/src/record_layer/aead/aes_gcm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs b/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs
index 5848a61..4232718 100644
--- a/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs
+++ b/crates/mpc-tls/src/record_layer/aead/aes_gcm.rs
@@ -112,8 +112,9 @@ impl MpcAesGcm {
 
         // Allocate encryption/decryption.
 
-        // Round up the length to the nearest multiple of the block size.
-        let len = 16 * len.div_ceil(16);
+        // Every record takes a whole number of keystream blocks, so its last block
+        // may be used in part only.
+        let len = 16 * (len.div_ceil(16) + records);
 
         let input = vm.alloc_vec::<U8>(len)?;
         match self.role {
-- 
2.43.0


From 0cff3adc2d681cbc7ce831b14c35085caf49d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 13/29] fix: read the plaintext on when the application is gone

---
 crates/tlsn/src/prover.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/tlsn/src/prover.rs b/crates/tlsn/src/prover.rs
index c61c49f..bd33c28 100644
--- a/crates/tlsn/src/prover.rs
+++ b/crates/tlsn/src/prover.rs
@@ -492,12 +492,17 @@ where
                         simplex.advance_mut(read);
                     }
                 }
-                // do not attempt to write into closed sockets
+                // do not attempt to write into closed sockets, but still read the
+                // plaintext, as the connection can not be finalized before
                 Poll::Ready(Err(err))
                     if matches!(
                         err.kind(),
                         std::io::ErrorKind::BrokenPipe | std::io::ErrorKind::ConnectionReset
-                    ) => {}
+                    ) =>
+                {
+                    let mut buf = [0u8; 1024];
+                    while state.tls_client.wants_read() && state.tls_client.read(&mut buf)? > 0 {}
+                }
                 Poll::Ready(Err(err)) => return Err(Error::from(err)),
                 _ => {}
             }
-- 
2.43.0


From d3b20475e8d85a88409b736d5683e4f5fa46c84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:05 +0000
Subject: [PATCH 14/29] fix: refuse commitments beyond the length of the
 transcript

---
 crates/tlsn/src/verifier/verify.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tlsn/src/verifier/verify.rs b/crates/tlsn/src/verifier/verify.rs
index f383e79..7559eed 100644
--- a/crates/tlsn/src/verifier/verify.rs
+++ b/crates/tlsn/src/verifier/verify.rs
@@ -98,6 +98,13 @@ pub(crate) async fn verify<T: Vm<Binary> + Send + Sync>(
             });
     }
 
+    if commit_sent.end().unwrap_or(0) > ciphertext_sent.len()
+        || commit_recv.end().unwrap_or(0) > ciphertext_recv.len()
+    {
+        return Err(Error::internal()
+            .with_msg("verification failed: commitment exceeds the length of the transcript"));
+    }
+
     let (sent_refs, sent_proof) = verify_plaintext(
         vm,
         keys.client_write_key,
-- 
2.43.0


From 2b3ff5045e9671dfacd8887570a8d1751d658ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 15/29] fix: refuse a server hello before the client random

A prover that sends the server hello first made the verifier panic.
---
 crates/components/hmac-sha256/src/prf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/components/hmac-sha256/src/prf.rs b/crates/components/hmac-sha256/src/prf.rs
index e23de19..1ee2aeb 100644
--- a/crates/components/hmac-sha256/src/prf.rs
+++ b/crates/components/hmac-sha256/src/prf.rs
@@ -200,7 +200,7 @@ impl Prf {
 
         let client_random = self
             .client_random
-            .expect("Client random should have been set by now");
+            .ok_or_else(|| PrfError::state("client random is not set"))?;
         let server_random = random;
 
         if matches!(self.config.ms, MSMode::Standard) {
-- 
2.43.0


From 36b1c2b3904e0c003e935d3eba1a56df98abdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 16/29] fix: return an error for a connection without records

A prover that closes the connection before the Finished records made the
verifier panic while building the transcript.
---
 crates/core/src/transcript/tls/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/transcript/tls/builder.rs b/crates/core/src/transcript/tls/builder.rs
index 5b2c0c0..e88ba3c 100644
--- a/crates/core/src/transcript/tls/builder.rs
+++ b/crates/core/src/transcript/tls/builder.rs
@@ -140,7 +140,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let sent = if let Some(records_sent) = self.records_sent {
             let client_finished = records_sent
                 .first()
-                .expect("client finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("client finished record"))?;
             validate_finished_record(client_finished)?;
             records_sent
         } else if let Some(sent_raw) = sent_raw {
@@ -153,7 +153,7 @@ impl<'a> TlsTranscriptBuilder<'a> {
         let recv = if let Some(records_recv) = self.records_recv {
             let server_finished = records_recv
                 .first()
-                .expect("server finished record should be available");
+                .ok_or_else(|| TlsTranscriptError::missing("server finished record"))?;
             validate_finished_record(server_finished)?;
             records_recv
         } else if let Some(recv_raw) = recv_raw {
-- 
2.43.0


From 040196845296c985612ab446ec9110027bd96ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:18 +0000
Subject: [PATCH 17/29] fix: do not overflow on the length of a sent record

The length is claimed by the prover. A huge one made the sum wrap around
and pass as within the limit, or panic with overflow checks.
---
 crates/mpc-tls/src/record_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mpc-tls/src/record_layer.rs b/crates/mpc-tls/src/record_layer.rs
index c9010f3..d687a17 100644
--- a/crates/mpc-tls/src/record_layer.rs
+++ b/crates/mpc-tls/src/record_layer.rs
@@ -292,7 +292,7 @@ impl RecordLayer {
     ) -> Result<(), MpcTlsError> {
         if self.encrypt_buffer.len() >= MAX_BUFFER_SIZE {
             return Err(MpcTlsError::peer("encrypt buffer is full"));
-        } else if self.sent + len > self.max_sent {
+        } else if self.sent.saturating_add(len) > self.max_sent {
             return Err(MpcTlsError::record_layer(format!(
                 "attempted to send more data than was configured, increase `max_sent` in the config: current={}, additional={}, max={}",
                 self.sent, len, self.max_sent
-- 
2.43.0


From 9ae64ea7b3dea923c8c30385740fb8ac6cd720cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 18/29] Drive the leader without its TLS client in verification
 builds (cfg tlsn_verif)

---
 crates/mpc-tls/src/lib.rs   |   2 +
 crates/mpc-tls/src/verif.rs | 101 ++++++++++++++++++++++++++++++++++++
 2 files changed, 103 insertions(+)
 create mode 100644 crates/mpc-tls/src/verif.rs

diff --git a/crates/mpc-tls/src/lib.rs b/crates/mpc-tls/src/lib.rs
index 0c7e534..e108848 100644
--- a/crates/mpc-tls/src/lib.rs
+++ b/crates/mpc-tls/src/lib.rs
@@ -13,6 +13,8 @@ pub(crate) mod leader;
 mod msg;
 mod record_layer;
 pub(crate) mod utils;
+#[cfg(tlsn_verif)]
+mod verif;
 
 pub use config::{Config, ConfigBuilder, ConfigBuilderError};
 pub use error::MpcTlsError;
diff --git a/crates/mpc-tls/src/verif.rs b/crates/mpc-tls/src/verif.rs
new file mode 100644
index 0000000..20a3614
--- /dev/null
+++ b/crates/mpc-tls/src/verif.rs
@@ -0,0 +1,101 @@
+//! Access to the leader's side of the protocol without its TLS client, for
+//! verification harnesses. Compiled with `--cfg tlsn_verif` only.
+
+use mpz_common::Context;
+use tls_core::{
+    cert::ServerCertDetails,
+    ke::ServerKxDetails,
+    key::{Certificate, PublicKey},
+    msgs::{
+        handshake::{DigitallySignedStruct, Random},
+        message::{OpaqueMessage, PlainMessage},
+    },
+};
+use tlsn_core::transcript::TlsTranscript;
+
+use crate::{MpcTlsError, MpcTlsLeader, leader::HandshakeData};
+
+impl MpcTlsLeader {
+    /// Returns the client random.
+    pub fn verif_client_random(&self) -> Result<[u8; 32], MpcTlsError> {
+        self.client_random().map(|random| random.0)
+    }
+
+    /// Returns the client key share.
+    pub fn verif_client_key_share(&self) -> Result<PublicKey, MpcTlsError> {
+        self.client_key_share()
+    }
+
+    /// Computes the session keys.
+    pub async fn verif_prepare_encryption(
+        &mut self,
+        server_random: [u8; 32],
+        server_key: PublicKey,
+        certs: Vec<Certificate>,
+        kx_params: Vec<u8>,
+        kx_sig: DigitallySignedStruct,
+    ) -> Result<(), MpcTlsError> {
+        self.prepare_encryption(HandshakeData {
+            server_random: Random(server_random),
+            server_key,
+            server_cert_details: ServerCertDetails::new(certs, Vec::new(), None),
+            server_kx_details: ServerKxDetails::new(kx_params, kx_sig),
+        })
+        .await
+    }
+
+    /// Computes the client Finished verify data.
+    pub async fn verif_client_finished_vd(&mut self, hash: Vec<u8>) -> Result<Vec<u8>, MpcTlsError> {
+        self.get_client_finished_vd(hash).await
+    }
+
+    /// Computes the server Finished verify data.
+    pub async fn verif_server_finished_vd(&mut self, hash: Vec<u8>) -> Result<Vec<u8>, MpcTlsError> {
+        self.get_server_finished_vd(hash).await
+    }
+
+    /// Pushes a received record.
+    pub async fn verif_push_incoming(&mut self, msg: OpaqueMessage) -> Result<(), MpcTlsError> {
+        self.push_incoming(msg).await
+    }
+
+    /// Returns the next decrypted record.
+    pub fn verif_next_incoming(&mut self) -> Result<Option<PlainMessage>, MpcTlsError> {
+        self.next_incoming()
+    }
+
+    /// Pushes a record to be sent.
+    pub async fn verif_push_outgoing(&mut self, msg: PlainMessage) -> Result<(), MpcTlsError> {
+        self.push_outgoing(msg).await
+    }
+
+    /// Returns the next encrypted record.
+    pub fn verif_next_outgoing(&mut self) -> Result<Option<OpaqueMessage>, MpcTlsError> {
+        self.next_outgoing()
+    }
+
+    /// Starts processing application data.
+    pub async fn verif_start_traffic(&mut self) -> Result<(), MpcTlsError> {
+        self.start_traffic().await
+    }
+
+    /// Flushes the record layer.
+    pub async fn verif_flush(&mut self) -> Result<(), MpcTlsError> {
+        self.flush().await
+    }
+
+    /// Enables or disables decryption of application data.
+    pub fn verif_enable_decryption(&mut self, enable: bool) {
+        self.enable_decryption(enable)
+    }
+
+    /// Closes the connection.
+    pub async fn verif_close_connection(&mut self) -> Result<(), MpcTlsError> {
+        self.close_connection().await
+    }
+
+    /// Returns the transcript of a closed connection.
+    pub fn verif_finish(&mut self) -> Option<(Context, TlsTranscript)> {
+        self.finish()
+    }
+}
-- 
2.43.0


From 7289e79a7da2f2eb7fdda2b604f72353a169b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 19/29] fix: send and receive records without data

---
 crates/mpc-tls/src/record_layer/decrypt.rs | 7 +++++++
 crates/mpc-tls/src/record_layer/encrypt.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/mpc-tls/src/record_layer/decrypt.rs b/crates/mpc-tls/src/record_layer/decrypt.rs
index 614b8ab..3900299 100644
--- a/crates/mpc-tls/src/record_layer/decrypt.rs
+++ b/crates/mpc-tls/src/record_layer/decrypt.rs
@@ -28,6 +28,13 @@ pub(crate) fn private_mpc(
         )));
     }
 
+    // Nothing has to be computed for an empty record.
+    if op.ciphertext.is_empty() {
+        return Ok(DecryptOutput::Local(DecryptLocal {
+            plaintext: otp.map(|_| Vec::new()),
+        }));
+    }
+
     let (otp_ref, masked_keystream) = decrypter
         .apply_keystream(vm, op.explicit_nonce.clone(), op.ciphertext.len())
         .map_err(MpcTlsError::record_layer)?;
diff --git a/crates/mpc-tls/src/record_layer/encrypt.rs b/crates/mpc-tls/src/record_layer/encrypt.rs
index 052fb6f..2784bae 100644
--- a/crates/mpc-tls/src/record_layer/encrypt.rs
+++ b/crates/mpc-tls/src/record_layer/encrypt.rs
@@ -22,6 +22,11 @@ fn private(
     encrypter: &mut MpcAesGcm,
     op: &EncryptOp,
 ) -> Result<(EncryptOutput, BoxFut<Result<Vec<u8>, AeadError>>), MpcTlsError> {
+    // Nothing has to be computed for an empty record.
+    if op.len == 0 {
+        return Ok((EncryptOutput::Empty, Box::pin(async { Ok(Vec::new()) })));
+    }
+
     let (plaintext, ciphertext) = encrypter
         .apply_keystream(vm, op.explicit_nonce.clone(), op.len)
         .map_err(MpcTlsError::record_layer)?;
@@ -187,6 +192,7 @@ pub(crate) enum EncryptMode {
 pub(crate) enum EncryptOutput {
     Private(EncryptPrivate),
     Public(EncryptPublic),
+    Empty,
 }
 
 impl EncryptOutput {
@@ -194,6 +200,7 @@ impl EncryptOutput {
         match self {
             EncryptOutput::Private(encrypt) => encrypt.try_encrypt(),
             EncryptOutput::Public(encrypt) => encrypt.try_encrypt(),
+            EncryptOutput::Empty => Ok(Vec::new()),
         }
     }
 }
-- 
2.43.0


From edee6f2ba7c27412cd79cb26e8a3647190d90662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:33 +0000
Subject: [PATCH 20/29] fix: refuse finished hashes before the server hello

---
 crates/mpc-tls/src/follower.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mpc-tls/src/follower.rs b/crates/mpc-tls/src/follower.rs
index 38a9084..32ebad4 100644
--- a/crates/mpc-tls/src/follower.rs
+++ b/crates/mpc-tls/src/follower.rs
@@ -271,6 +271,10 @@ impl MpcTlsFollower {
                         return Err(MpcTlsError::hs("client finished VD already computed"));
                     }
 
+                    if server_hello.is_none() {
+                        return Err(MpcTlsError::hs("server hello not set"));
+                    }
+
                     let mut vm = vm
                         .try_lock()
                         .map_err(|_| MpcTlsError::other("VM lock is held"))?;
@@ -290,6 +294,10 @@ impl MpcTlsFollower {
                         return Err(MpcTlsError::hs("server finished VD already computed"));
                     }
 
+                    if server_hello.is_none() {
+                        return Err(MpcTlsError::hs("server hello not set"));
+                    }
+
                     let mut vm = vm
                         .try_lock()
                         .map_err(|_| MpcTlsError::other("VM lock is held"))?;
-- 
2.43.0


From ead95fac90a4053175a0f922294e4c2644088b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:24 +0000
Subject: [PATCH 21/29] fix: return an error when the prover closes an unused
 connection

---
 crates/tlsn/src/verifier.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tlsn/src/verifier.rs b/crates/tlsn/src/verifier.rs
index 9733f25..88e11e1 100644
--- a/crates/tlsn/src/verifier.rs
+++ b/crates/tlsn/src/verifier.rs
@@ -348,9 +348,9 @@ impl Verifier<state::CommitAccepted<Proxy>> {
         })?;
         info!("proxying TLS traffic finished");
 
-        let conn_time = prover_reader
-            .first_read()
-            .expect("connection time should have been set");
+        let conn_time = prover_reader.first_read().ok_or_else(|| {
+            Error::io().with_msg("prover closed the connection without sending any data")
+        })?;
 
         let (mut ctx, mut vm, output, cf_vd_check, sf_vd_check) =
             verifier.finalize(&sent_buf, &recv_buf, conn_time).await?;
-- 
2.43.0


From 663101723391cf38ac3aaa751a53461203f88584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:20 +0000
Subject: [PATCH 22/29] fix: do not take data to be sent after the connection
 was closed

---
 crates/tlsn/src/prover/client/mpc.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/tlsn/src/prover/client/mpc.rs b/crates/tlsn/src/prover/client/mpc.rs
index 8fa86f9..d672fe9 100644
--- a/crates/tlsn/src/prover/client/mpc.rs
+++ b/crates/tlsn/src/prover/client/mpc.rs
@@ -154,8 +154,9 @@ impl TlsClient for MpcTlsClient {
     }
 
     fn wants_write(&self) -> bool {
-        if let Some(client) = self.inner_client() {
-            !client.sendable_plaintext_is_full()
+        // Nothing can be sent anymore once the connection was closed.
+        if let State::Active { inner } = &self.state {
+            !inner.tls.sendable_plaintext_is_full()
         } else {
             false
         }
@@ -172,10 +173,11 @@ impl TlsClient for MpcTlsClient {
     }
 
     fn write(&mut self, buf: &[u8]) -> Result<usize, Self::Error> {
-        if let Some(client) = self.inner_client_mut()
-            && !client.sendable_plaintext_is_full()
+        if let State::Active { inner } = &mut self.state
+            && !inner.tls.sendable_plaintext_is_full()
         {
-            client
+            inner
+                .tls
                 .write_plaintext(buf)
                 .map_err(|err| TlsnError::internal().with_source(err))
         } else {
-- 
2.43.0


From 4c6682448a7920dfbefb96a039a67c5841ec4de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:02 +0000
Subject: [PATCH 23/29] fix: order the openings of SdkProver::reveal as the
 commitments were requested

The prover makes the commitments in an arbitrary order and deduplicates
them, so RevealOutput.sent[i] did not necessarily open commit.sent[i].
---
 crates/sdk-core/src/prover.rs | 47 +++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/crates/sdk-core/src/prover.rs b/crates/sdk-core/src/prover.rs
index 3c3447c..a8963b8 100644
--- a/crates/sdk-core/src/prover.rs
+++ b/crates/sdk-core/src/prover.rs
@@ -2,6 +2,7 @@
 
 use http_body_util::{BodyExt, Full};
 use hyper::body::Bytes;
+use rangeset::set::RangeSet;
 use tlsn::{
     Mpc, Proxy, Session, SessionHandle,
     config::{
@@ -15,6 +16,7 @@ use tlsn::{
 };
 use tlsn_core::{
     ProverOutput,
+    hash::HashAlgId,
     transcript::{Direction, TranscriptCommitment, TranscriptSecret},
 };
 use tracing::{error, info};
@@ -396,7 +398,7 @@ impl SdkProver {
         }
 
         // Build transcript commit config for hash-commitment ranges.
-        if let Some(commit) = commit {
+        if let Some(commit) = &commit {
             let mut commit_builder =
                 tlsn_core::transcript::TranscriptCommitConfig::builder(prover.transcript());
 
@@ -437,7 +439,7 @@ impl SdkProver {
 
         self.state = State::Complete;
 
-        build_reveal_output(prover_output)
+        build_reveal_output(prover_output, commit.as_ref())
     }
 
     /// Returns true if the prover has completed the protocol.
@@ -446,7 +448,7 @@ impl SdkProver {
     }
 }
 
-fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
+fn build_reveal_output(output: ProverOutput, commit: Option<&Commit>) -> Result<RevealOutput> {
     let ProverOutput {
         transcript_commitments,
         transcript_secrets,
@@ -460,8 +462,7 @@ fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
         )));
     }
 
-    let mut sent = Vec::new();
-    let mut recv = Vec::new();
+    let mut openings = Vec::new();
     for (commitment, secret) in transcript_commitments.into_iter().zip(transcript_secrets) {
         let (commitment, secret) = match (commitment, secret) {
             (TranscriptCommitment::Hash(c), TranscriptSecret::Hash(s)) => (c, s),
@@ -483,13 +484,39 @@ fn build_reveal_output(output: ProverOutput) -> Result<RevealOutput> {
             blinder: secret.blinder.as_bytes().to_vec(),
         };
 
-        match commitment.direction {
-            Direction::Sent => sent.push(opening),
-            Direction::Received => recv.push(opening),
-        }
+        openings.push((
+            commitment.direction,
+            commitment.idx,
+            commitment.hash.alg,
+            opening,
+        ));
     }
 
-    Ok(RevealOutput { sent, recv })
+    let Some(commit) = commit else {
+        return Ok(RevealOutput::default());
+    };
+
+    // The prover makes the commitments in no particular order, and makes one
+    // which was requested repeatedly only once.
+    let find_all = |direction: Direction, ranges: &[CommitRange]| {
+        ranges
+            .iter()
+            .map(|cr| {
+                let idx = RangeSet::from(cr.range());
+                let alg = HashAlgId::from(cr.algorithm);
+                openings
+                    .iter()
+                    .find(|(d, i, a, _)| *d == direction && *i == idx && *a == alg)
+                    .map(|(.., opening)| opening.clone())
+                    .ok_or_else(|| SdkError::protocol("prover output is missing a commitment"))
+            })
+            .collect::<Result<Vec<_>>>()
+    };
+
+    Ok(RevealOutput {
+        sent: find_all(Direction::Sent, &commit.sent)?,
+        recv: find_all(Direction::Received, &commit.recv)?,
+    })
 }
 
 async fn send_request(conn: TlsConnection, request: HttpRequest) -> Result<HttpResponse> {
-- 
2.43.0


From 1000cadf687d39da95c270a3cf8c4085fea2e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:20 +0000
Subject: [PATCH 24/29] fix: SdkVerifier without a record limit rejects provers
 which set one

The limits are optional, and `Some(n) > None` holds for every n.
---
 crates/sdk-core/src/verifier.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sdk-core/src/verifier.rs b/crates/sdk-core/src/verifier.rs
index f40296c..25401ce 100644
--- a/crates/sdk-core/src/verifier.rs
+++ b/crates/sdk-core/src/verifier.rs
@@ -136,15 +136,23 @@ impl SdkVerifier {
         match commit_start {
             VerifierCommitStart::Mpc(verifier) => {
                 let mpc_tls_config = verifier.config();
+                // A record limit applies only if one is configured.
+                let exceeds = |value: Option<usize>, limit: Option<usize>| {
+                    limit.is_some_and(|limit| value.is_some_and(|value| value > limit))
+                };
                 let reject = if mpc_tls_config.max_sent_data() > self.config.max_sent_data {
                     Some("max_sent_data is too large")
                 } else if mpc_tls_config.max_recv_data() > self.config.max_recv_data {
                     Some("max_recv_data is too large")
-                } else if mpc_tls_config.max_sent_records() > self.config.max_sent_records {
+                } else if exceeds(
+                    mpc_tls_config.max_sent_records(),
+                    self.config.max_sent_records,
+                ) {
                     Some("max_sent_records is too large")
-                } else if mpc_tls_config.max_recv_records_online()
-                    > self.config.max_recv_records_online
-                {
+                } else if exceeds(
+                    mpc_tls_config.max_recv_records_online(),
+                    self.config.max_recv_records_online,
+                ) {
                     Some("max_recv_records_online is too large")
                 } else {
                     None
-- 
2.43.0


From e9c4f8c602793cce1df1e160017c025c318079c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 25/29] fix: keep the names of repeated response headers in the
 SDK prover

The owning iterator of HeaderMap yields a name only for the first of the
values of a header, so the others were returned with an empty name.
---
 crates/sdk-core/src/prover.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/sdk-core/src/prover.rs b/crates/sdk-core/src/prover.rs
index a8963b8..6ca9d42 100644
--- a/crates/sdk-core/src/prover.rs
+++ b/crates/sdk-core/src/prover.rs
@@ -541,15 +541,12 @@ async fn send_request(conn: TlsConnection, request: HttpRequest) -> Result<HttpR
         .map_err(|e| SdkError::http(e.to_string()))?;
     let body_bytes = body.to_bytes().to_vec();
 
+    // Iterates by reference, as the owning iterator yields the name of a repeated
+    // header only once.
     let headers = response
         .headers
-        .into_iter()
-        .map(|(k, v)| {
-            (
-                k.map(|k| k.to_string()).unwrap_or_default(),
-                v.as_bytes().to_vec(),
-            )
-        })
+        .iter()
+        .map(|(k, v)| (k.to_string(), v.as_bytes().to_vec()))
         .collect();
 
     Ok(HttpResponse {
-- 
2.43.0


From 38e0a9fd488a65beca3979d29945d86e7c0a0c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:22 +0000
Subject: [PATCH 26/29] fix: heed the flags of regex handlers

HandlerParams documents `flags` as the flags of the regular expression,
but they were ignored.
---
 crates/sdk-core/src/handler/extract.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/sdk-core/src/handler/extract.rs b/crates/sdk-core/src/handler/extract.rs
index c3f44aa..5191b7b 100644
--- a/crates/sdk-core/src/handler/extract.rs
+++ b/crates/sdk-core/src/handler/extract.rs
@@ -331,7 +331,7 @@ fn extract_all(handler: &Handler, raw: &[u8]) -> Result<Vec<Range<usize>>> {
         && params.content_type.as_deref() == Some("regex")
         && let Some(pattern) = params.regex.as_deref()
     {
-        return extract_regex(raw, pattern);
+        return extract_regex(raw, pattern, params.flags.as_deref().unwrap_or_default());
     }
 
     // Return entire transcript as a single range.
@@ -339,8 +339,24 @@ fn extract_all(handler: &Handler, raw: &[u8]) -> Result<Vec<Range<usize>>> {
     Ok(vec![0..raw.len()])
 }
 
-fn extract_regex(raw: &[u8], pattern: &str) -> Result<Vec<Range<usize>>> {
-    let re = regex::bytes::Regex::new(pattern)
+fn extract_regex(raw: &[u8], pattern: &str, flags: &str) -> Result<Vec<Range<usize>>> {
+    let mut builder = regex::bytes::RegexBuilder::new(pattern);
+    for flag in flags.chars() {
+        match flag {
+            'i' => builder.case_insensitive(true),
+            'm' => builder.multi_line(true),
+            's' => builder.dot_matches_new_line(true),
+            // Every match is extracted and unicode is supported regardless.
+            'g' | 'u' => &mut builder,
+            _ => {
+                return Err(SdkError::handler(format!(
+                    "unsupported regex flag '{flag}'"
+                )));
+            }
+        };
+    }
+    let re = builder
+        .build()
         .map_err(|e| SdkError::handler(format!("invalid regex '{pattern}': {e}")))?;
 
     let ranges: Vec<Range<usize>> = re.find_iter(raw).map(|m| m.start()..m.end()).collect();
-- 
2.43.0


From 9d57030b5926f9766e8c84ae594cdf013d2b866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 27/29] fix: AES: expand the key anew when it is changed

---
 crates/components/cipher/src/aes/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/components/cipher/src/aes/mod.rs b/crates/components/cipher/src/aes/mod.rs
index 18f7c41..5f85509 100644
--- a/crates/components/cipher/src/aes/mod.rs
+++ b/crates/components/cipher/src/aes/mod.rs
@@ -52,6 +52,8 @@ impl Cipher for Aes128 {
 
     fn set_key(&mut self, key: Array<U8, 16>) {
         self.key = Some(key);
+        // The schedule belongs to the previous key.
+        self.key_schedule = None;
     }
 
     fn set_iv(&mut self, iv: Array<U8, 4>) {
-- 
2.43.0


From 4d92b83027e103bd7fc59663e99f6e5f687fe053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 28/29] fix: network: allow a bandwidth limit without a delay

---
 crates/harness/runner/src/network.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/harness/runner/src/network.rs b/crates/harness/runner/src/network.rs
index bcb0813..7625585 100644
--- a/crates/harness/runner/src/network.rs
+++ b/crates/harness/runner/src/network.rs
@@ -480,8 +480,8 @@ impl Veth {
         .run()?;
 
         if bandwidth > 0 {
-            // Set burst to bandwidth delay product in kbit.
-            let burst = bandwidth * (2 * delay.min(10));
+            // Set burst to bandwidth delay product in kbit. It must not be zero.
+            let burst = bandwidth * (2 * delay.clamp(1, 10));
 
             ns_cmd!(
                 "sudo",
-- 
2.43.0


From 659c17c84593772c2deb0d5e8c03a98c96f38cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:05 +0000
Subject: [PATCH 29/29] fix: network: delete all interface pairs

---
 crates/harness/runner/src/network.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/harness/runner/src/network.rs b/crates/harness/runner/src/network.rs
index 7625585..af22ae9 100644
--- a/crates/harness/runner/src/network.rs
+++ b/crates/harness/runner/src/network.rs
@@ -240,6 +240,11 @@ impl Network {
         self.ns_1.delete()?;
         self.ns_app.delete()?;
         self.bridge.delete()?;
+        // Pairs that did not make it into their namespace are still there.
+        self.veth_rpc_0.delete()?;
+        self.veth_rpc_1.delete()?;
+        self.veth_proto_0.delete()?;
+        self.veth_proto_1.delete()?;
         self.veth_proto_proxy.delete()?;
         self.veth_app_proxy.delete()?;
         self.veth_app_0.delete()?;
-- 
2.43.0

