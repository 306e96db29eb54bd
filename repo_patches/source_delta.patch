From 08bed88dacc6b8c873d3002ba788e8a658a6ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 01/38] fix: scram client no longer panics on a server-final
 that starts with a multi-byte character

---
 akasa-core/src/protocols/scram/client.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 2cd6cad..8efdcda 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -180,11 +180,11 @@ fn parse_server_final(data: &str) -> Result<Vec<u8>, Error> {
     if data.len() < 2 {
         return Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError)));
     }
-    match &data[..2] {
-        "v=" => STANDARD
+    match &data.as_bytes()[..2] {
+        b"v=" => STANDARD
             .decode(&data.as_bytes()[2..])
             .map_err(|_| Error::Protocol(Kind::InvalidField(Field::VerifyOrError))),
-        "e=" => Err(Error::Authentication(data[2..].to_string())),
+        b"e=" => Err(Error::Authentication(data[2..].to_string())),
         _ => Err(Error::Protocol(Kind::ExpectedField(Field::VerifyOrError))),
     }
 }
-- 
2.43.0


From 6fb740d68df843e8a836d6cfe701bcacb74b317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 02/38] fix: scram server verifies the client-first and
 client-final messages as received

---
 akasa-core/src/protocols/scram/server.rs | 46 ++++++++++++++----------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index f2ce68d..cf7c112 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -1,5 +1,3 @@
-use std::borrow::Cow;
-
 use base64::Engine;
 use base64::engine::general_purpose::STANDARD;
 use rand::Rng;
@@ -25,11 +23,13 @@ pub enum ScramServer {
         authcid: String,
         authzid: Option<String>,
         client_nonce: String,
+        gs2header: String,
+        client_first_bare: String,
     },
     WaitingForClientFinal {
         hashed_password: Vec<u8>,
         nonce: String,
-        gs2header: Cow<'static, str>,
+        gs2header: String,
         client_first_bare: String,
         server_first: String,
         authcid: String,
@@ -63,10 +63,16 @@ impl ScramServer {
         let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
+        // The proofs cover the message as it was received, "<gs2 flag>,<authzid>,<bare>".
+        let bare_start = data.match_indices(',').nth(1).map_or(data.len(), |(i, _)| i + 1);
+        let (gs2header, client_first_bare) = data.split_at(bare_start);
+
         *self = ScramServer::WaitingForPassword {
             authcid,
             authzid,
             client_nonce,
+            gs2header: gs2header.to_owned(),
+            client_first_bare: client_first_bare.to_owned(),
         };
         Ok(())
     }
@@ -94,17 +100,20 @@ impl ScramServer {
         iterations: u16,
         rng: &mut R,
     ) -> Result<String, Error> {
-        let (authcid, authzid, client_nonce) = match std::mem::replace(self, ScramServer::Done) {
-            ScramServer::WaitingForPassword {
-                authcid,
-                authzid,
-                client_nonce,
-            } => (authcid, authzid, client_nonce),
-            other => {
-                *self = other;
-                return Err(Error::InvalidState);
-            }
-        };
+        let (authcid, authzid, client_nonce, gs2header, client_first_bare) =
+            match std::mem::replace(self, ScramServer::Done) {
+                ScramServer::WaitingForPassword {
+                    authcid,
+                    authzid,
+                    client_nonce,
+                    gs2header,
+                    client_first_bare,
+                } => (authcid, authzid, client_nonce, gs2header, client_first_bare),
+                other => {
+                    *self = other;
+                    return Err(Error::InvalidState);
+                }
+            };
 
         let mut nonce = String::with_capacity(client_nonce.len() + NONCE_LENGTH);
         nonce.push_str(&client_nonce);
@@ -116,11 +125,6 @@ impl ScramServer {
                 .take(NONCE_LENGTH),
         );
 
-        let gs2header: Cow<'static, str> = match &authzid {
-            Some(az) => format!("n,a={},", az).into(),
-            None => "n,,".into(),
-        };
-        let client_first_bare = format!("n={},r={}", authcid, client_nonce);
         let server_first = format!("r={},s={},i={}", nonce, STANDARD.encode(salt), iterations);
 
         *self = ScramServer::WaitingForClientFinal {
@@ -236,6 +240,10 @@ fn parse_client_final(data: &str) -> Result<(&str, &str, &str), Error> {
     let gs2header = parse_field(&mut parts, Field::GS2Header, b"c=")?;
     let nonce = parse_field(&mut parts, Field::Nonce, b"r=")?;
     let proof = parse_field(&mut parts, Field::Proof, b"p=")?;
+    // the proof is the last field, nothing it does not cover may follow
+    if parts.next().is_some() {
+        return Err(Error::Protocol(Kind::InvalidField(Field::Proof)));
+    }
     Ok((gs2header, nonce, proof))
 }
 
-- 
2.43.0


From f2f534b645704d6f7fd6d0df4daa659ed3485781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 03/38] fix: scram user names and authorization identities with
 ',' or '=' arrive unchanged

---
 akasa-core/src/protocols/scram/client.rs | 11 +++-------
 akasa-core/src/protocols/scram/mod.rs    | 28 ++++++++++++++++++++++++
 akasa-core/src/protocols/scram/server.rs | 10 ++++++---
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/akasa-core/src/protocols/scram/client.rs b/akasa-core/src/protocols/scram/client.rs
index 8efdcda..09a8161 100644
--- a/akasa-core/src/protocols/scram/client.rs
+++ b/akasa-core/src/protocols/scram/client.rs
@@ -9,7 +9,7 @@ use ring::digest::SHA256_OUTPUT_LEN;
 use ring::hmac::Tag;
 
 use super::error::{Error, Field, Kind};
-use super::{NONCE_LENGTH, find_proofs, hash_password};
+use super::{NONCE_LENGTH, escape_name, find_proofs, hash_password};
 
 pub enum ScramClient<'a> {
     New {
@@ -42,7 +42,7 @@ impl<'a> ScramClient<'a> {
         rng: &mut R,
     ) -> Self {
         let gs2header: Cow<'static, str> = match authzid {
-            Some(az) => format!("n,a={},", az).into(),
+            Some(az) => format!("n,a={},", escape_name(az)).into(),
             None => "n,,".into(),
         };
         let nonce: String = Uniform::try_from(33..125)
@@ -74,12 +74,7 @@ impl<'a> ScramClient<'a> {
             }
         };
 
-        let escaped: Cow<'a, str> = if authcid.chars().any(|c| c == ',' || c == '=') {
-            authcid.into()
-        } else {
-            authcid.replace(',', "=2C").replace('=', "=3D").into()
-        };
-        let client_first_bare = format!("n={},r={}", escaped, nonce);
+        let client_first_bare = format!("n={},r={}", escape_name(authcid), nonce);
         let client_first = format!("{}{}", gs2header, client_first_bare);
 
         *self = ScramClient::WaitingForServerFirst {
diff --git a/akasa-core/src/protocols/scram/mod.rs b/akasa-core/src/protocols/scram/mod.rs
index 421f0c1..fdb143f 100644
--- a/akasa-core/src/protocols/scram/mod.rs
+++ b/akasa-core/src/protocols/scram/mod.rs
@@ -23,6 +23,7 @@ pub mod server;
 pub use error::{Error, Field, Kind};
 pub use server::AuthenticationStatus;
 
+use std::borrow::Cow;
 use std::num::NonZeroU32;
 
 use base64::Engine;
@@ -47,6 +48,33 @@ pub fn hash_password(
     salted_password
 }
 
+/// Encodes a name as the `saslname` of RFC 5802: ',' and '=' are sent as "=2C" and "=3D".
+pub(crate) fn escape_name(name: &str) -> Cow<'_, str> {
+    if name.contains([',', '=']) {
+        name.replace('=', "=3D").replace(',', "=2C").into()
+    } else {
+        name.into()
+    }
+}
+
+/// Decodes a `saslname`; `None` if a '=' is not part of "=2C" or "=3D".
+pub(crate) fn unescape_name(name: &str) -> Option<String> {
+    let mut parts = name.split('=');
+    let mut decoded = parts.next().unwrap_or("").to_owned();
+    for part in parts {
+        if let Some(rest) = part.strip_prefix("2C") {
+            decoded.push(',');
+            decoded.push_str(rest);
+        } else if let Some(rest) = part.strip_prefix("3D") {
+            decoded.push('=');
+            decoded.push_str(rest);
+        } else {
+            return None;
+        }
+    }
+    Some(decoded)
+}
+
 pub(crate) fn find_proofs(
     gs2header: &str,
     client_first_bare: &str,
diff --git a/akasa-core/src/protocols/scram/server.rs b/akasa-core/src/protocols/scram/server.rs
index cf7c112..45e32b4 100644
--- a/akasa-core/src/protocols/scram/server.rs
+++ b/akasa-core/src/protocols/scram/server.rs
@@ -6,7 +6,7 @@ use ring::digest::SHA256_OUTPUT_LEN;
 use ring::hmac::Tag;
 
 use super::error::{Error, Field, Kind};
-use super::{NONCE_LENGTH, find_proofs};
+use super::{NONCE_LENGTH, find_proofs, unescape_name};
 
 #[derive(Clone, Copy, PartialEq, Eq, Debug)]
 pub enum AuthenticationStatus {
@@ -55,12 +55,16 @@ impl ScramServer {
 
         let authzid = match parts.next() {
             Some("") => None,
-            Some(p) if p.as_bytes().starts_with(b"a=") => Some(p[2..].to_owned()),
+            Some(p) if p.as_bytes().starts_with(b"a=") => Some(
+                unescape_name(&p[2..])
+                    .ok_or(Error::Protocol(Kind::InvalidField(Field::Authzid)))?,
+            ),
             Some(_) => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
             None => return Err(Error::Protocol(Kind::ExpectedField(Field::Authzid))),
         };
 
-        let authcid = next_field(&mut parts, Field::Authcid, b"n=")?;
+        let authcid = unescape_name(&next_field(&mut parts, Field::Authcid, b"n=")?)
+            .ok_or(Error::Protocol(Kind::InvalidField(Field::Authcid)))?;
         let client_nonce = next_field(&mut parts, Field::Nonce, b"r=")?;
 
         // The proofs cover the message as it was received, "<gs2 flag>,<authzid>,<bare>".
-- 
2.43.0


From 6737213410a444ba3ab210035a90dc458e79303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 04/38] fix: a PROXY header with unspecified family or protocol
 is refused instead of panicking

---
 akasa-core/src/server/proxy.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/server/proxy.rs b/akasa-core/src/server/proxy.rs
index f204723..57e59b1 100644
--- a/akasa-core/src/server/proxy.rs
+++ b/akasa-core/src/server/proxy.rs
@@ -123,8 +123,7 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let address_family = match byte_14th & LEFT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
+        // Unspecified (0x00) is not supported, there is no address to read
         0x10 => AddressFamily::IPv4,
         0x20 => AddressFamily::IPv6,
         0x30 => AddressFamily::Unix,
@@ -151,8 +150,7 @@ pub async fn parse_header<T: AsyncRead + Unpin>(
     }
 
     let protocol = match byte_14th & RIGHT_MASK {
-        // Unspecified
-        0x00 => unreachable!(),
+        // Unspecified (0x00) is not supported
         0x01 => Protocol::Stream,
         0x02 => Protocol::Datagram,
         _ => {
-- 
2.43.0


From a9ab07171c77e2d1bc631031d864bee2b59fb5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 05/38] fix: a password entry whose hash is too short or too
 long is refused

---
 akasa-core/src/protocols/mqtt/auth.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/auth.rs b/akasa-core/src/protocols/mqtt/auth.rs
index 28b74b5..d67f299 100644
--- a/akasa-core/src/protocols/mqtt/auth.rs
+++ b/akasa-core/src/protocols/mqtt/auth.rs
@@ -116,6 +116,19 @@ pub fn load_passwords<R: Read>(input: R) -> io::Result<DashMap<String, AuthPassw
                     (salt, hashed_password)
                 }
             };
+            // A shorter hash (e.g. a truncated file) would be matched by other passwords too.
+            let hash_len = match hash_algorithm {
+                HashAlgorithm::Sha256 | HashAlgorithm::Sha256Pkbdf2 { .. } => SHA256_OUTPUT_LEN,
+                HashAlgorithm::Sha512 | HashAlgorithm::Sha512Pkbdf2 { .. } => SHA512_OUTPUT_LEN,
+            };
+            if hashed_password.len() != hash_len {
+                log::error!(
+                    "invalid hashed password length (line#{}): {}",
+                    line_num,
+                    line
+                );
+                return Err(io::ErrorKind::InvalidData.into());
+            }
             let item = AuthPassword {
                 hash_algorithm,
                 hashed_password,
-- 
2.43.0


From c38df25a23a6fce10637af4a2ec8c8bb2d60053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:28 +0000
Subject: [PATCH 06/38] fix: user names that the password file cannot represent
 are refused when dumping

---
 akasa-core/src/protocols/mqtt/auth.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/auth.rs b/akasa-core/src/protocols/mqtt/auth.rs
index d67f299..7470802 100644
--- a/akasa-core/src/protocols/mqtt/auth.rs
+++ b/akasa-core/src/protocols/mqtt/auth.rs
@@ -147,6 +147,14 @@ pub fn dump_passwords<W: Write>(
     output: W,
     passwords: &DashMap<String, AuthPassword>,
 ) -> io::Result<()> {
+    // One entry per line, and lines are trimmed when they are read.
+    for item in passwords.iter() {
+        let username = item.key();
+        if username.contains('\n') || username.trim_start() != username {
+            log::error!("username can not be stored: {:?}", username);
+            return Err(io::ErrorKind::InvalidData.into());
+        }
+    }
     let mut writer = BufWriter::new(output);
     for item in passwords.iter() {
         let username = item.key();
-- 
2.43.0


From e2f33d1eb5dcca2f73b8efc8717843981341f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 07/38] fix: a redelivered QoS 2 message whose first
 transmission was lost is published

---
 .../src/protocols/mqtt/v3/packet/publish.rs     |  6 +++++-
 .../src/protocols/mqtt/v5/packet/publish.rs     | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index ffe2cd3..818c72e 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -47,6 +47,9 @@ topic name : {}
         return Err(io::ErrorKind::InvalidData.into());
     }
 
+    // A QoS 2 message is a re-delivery only if its packet identifier is still in
+    // use: the first transmission may have been lost with the dup flag unset.
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -65,13 +68,14 @@ topic name : {}
                 );
                 return Err(io::ErrorKind::InvalidData.into());
             }
+            redelivered = true;
         } else {
             // FIXME: check qos2_pids limit
             session.qos2_pids.insert(pid, current_hash);
         }
     }
 
-    if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
         send_publish(
             session,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 4001400..e12030c 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -118,6 +118,14 @@ topic name : {}
         return Err(err_pkt);
     }
 
+    // A re-delivery may use another topic alias (or none), so only the resolved
+    // message matters from here on.
+    properties.topic_alias = None;
+    packet.topic_name = topic_name;
+
+    // A QoS 2 message is a re-delivery only if its packet identifier is still in
+    // use: the first transmission may have been lost with the dup flag unset.
+    let mut redelivered = false;
     if let QosPid::Level2(pid) = packet.qos_pid {
         let mut hasher = AHasher::default();
         packet.hash(&mut hasher);
@@ -147,6 +155,7 @@ topic name : {}
                 );
                 return Err(err_pkt);
             }
+            redelivered = true;
         } else if session.qos2_pids.len() >= global.config.max_inflight_server as usize {
             let err_pkt = build_error_disconnect(
                 session,
@@ -160,18 +169,16 @@ topic name : {}
         }
     }
 
-    let matched_len = if !(packet.dup && packet.qos_pid.qos() == QoS::Level2) {
+    let matched_len = if !redelivered {
         let encode_len = total_len(packet.encode_len()).expect("packet too large");
-        let properties = &mut packet.properties;
-        properties.topic_alias = None;
         send_publish(
             session,
             SendPublish {
                 qos: packet.qos_pid.qos(),
                 retain: packet.retain,
-                topic_name: &topic_name,
+                topic_name: &packet.topic_name,
                 payload: &packet.payload,
-                properties,
+                properties: &packet.properties,
                 encode_len,
             },
             global,
-- 
2.43.0


From eb01d311aff992261ede21482f5878777531bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 08/38] fix: a v3.x PUBREL for a released packet identifier is
 answered with PUBCOMP

---
 akasa-core/src/protocols/mqtt/v3/message.rs        | 2 +-
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 25f49f4..519dd1b 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -312,7 +312,7 @@ impl OnlineSession for Session {
             }
             Packet::Puback(pid) => handle_puback(self, pid),
             Packet::Pubrec(pid) => write_packets.push_back(handle_pubrec(self, pid).into()),
-            Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid)?.into()),
+            Packet::Pubrel(pid) => write_packets.push_back(handle_pubrel(self, pid).into()),
             Packet::Pubcomp(pid) => handle_pubcomp(self, pid),
             Packet::Subscribe(pkt) => {
                 if global.config.hook.enable_subscribe {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 818c72e..487eaaf 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -119,17 +119,17 @@ pub(crate) fn handle_pubrec(session: &mut Session, pid: Pid) -> Packet {
 }
 
 #[inline]
-pub(crate) fn handle_pubrel(session: &mut Session, pid: Pid) -> io::Result<Packet> {
+pub(crate) fn handle_pubrel(session: &mut Session, pid: Pid) -> Packet {
     log::debug!(
         "{} received a pubrel  packet: id={}",
         session.client_id,
         pid.value()
     );
     if session.qos2_pids.remove(&pid).is_none() {
-        log::warn!("packet identifier not found: {}", pid.value());
-        return Err(io::ErrorKind::InvalidData.into());
+        // The identifier may already be released, when the PUBCOMP got lost
+        log::info!("packet identifier not found: {}", pid.value());
     }
-    Ok(Packet::Pubcomp(pid))
+    Packet::Pubcomp(pid)
 }
 
 #[inline]
-- 
2.43.0


From c07621c494429e68193f58b251c9cc025562ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 09/38] fix: messages still queued for other clients are
 delivered when a connection ends or is taken over

---
 akasa-core/src/protocols/mqtt/common.rs       | 60 +++++++++++++++++++
 akasa-core/src/protocols/mqtt/mod.rs          |  2 +-
 akasa-core/src/protocols/mqtt/v3/message.rs   | 29 ++++-----
 .../src/protocols/mqtt/v3/packet/connect.rs   |  2 +
 akasa-core/src/protocols/mqtt/v5/message.rs   | 41 ++++---------
 .../src/protocols/mqtt/v5/packet/connect.rs   |  2 +
 6 files changed, 85 insertions(+), 51 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index b1dc7e7..fcd5bb3 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -1,11 +1,71 @@
+use std::future::poll_fn;
 use std::io;
+use std::pin::Pin;
 use std::sync::Arc;
+use std::task::Poll;
 use std::time::{Duration, Instant};
 
+use futures_sink::Sink;
+use hashbrown::HashMap;
 use parking_lot::RwLock;
 
 use crate::state::{ClientId, ControlMessage, GlobalState};
 
+use super::BroadcastPackets;
+
+/// Send the messages a closed connection still has queued for other clients.
+///
+/// It is safe to drop the future at any point: what is not sent yet stays in
+/// `broadcast_packets`.
+pub(crate) async fn send_broadcasts(
+    client_id: ClientId,
+    broadcast_packets: &mut HashMap<ClientId, BroadcastPackets>,
+) {
+    poll_fn(|cx| {
+        broadcast_packets.retain(|target_id, info| {
+            loop {
+                // The sink may hold a message that the online loop already took from the queue.
+                match Pin::new(&mut info.sink).poll_ready(cx) {
+                    Poll::Ready(Ok(())) => {}
+                    Poll::Ready(Err(_)) => break,
+                    Poll::Pending => return true,
+                }
+                let Some(msg) = info.msgs.pop_front() else {
+                    return false;
+                };
+                if Pin::new(&mut info.sink)
+                    .start_send((client_id, msg))
+                    .is_err()
+                {
+                    break;
+                }
+            }
+            log::warn!(
+                "[{}] send broadcast message to disconnected client: {}",
+                client_id,
+                target_id
+            );
+            false
+        });
+        if broadcast_packets.is_empty() {
+            Poll::Ready(())
+        } else {
+            Poll::Pending
+        }
+    })
+    .await
+}
+
+/// Same as `send_broadcasts`, for a session that ended.
+pub(crate) fn spawn_send_broadcasts(
+    client_id: ClientId,
+    mut broadcast_packets: HashMap<ClientId, BroadcastPackets>,
+) {
+    if !broadcast_packets.is_empty() {
+        tokio::spawn(async move { send_broadcasts(client_id, &mut broadcast_packets).await });
+    }
+}
+
 pub(crate) fn start_keep_alive_timer(
     keep_alive: u16,
     client_id: ClientId,
diff --git a/akasa-core/src/protocols/mqtt/mod.rs b/akasa-core/src/protocols/mqtt/mod.rs
index 22b4e30..6aa765a 100644
--- a/akasa-core/src/protocols/mqtt/mod.rs
+++ b/akasa-core/src/protocols/mqtt/mod.rs
@@ -8,7 +8,7 @@ mod route;
 pub mod v3;
 pub mod v5;
 
-pub(crate) use common::start_keep_alive_timer;
+pub(crate) use common::{send_broadcasts, spawn_send_broadcasts, start_keep_alive_timer};
 pub(crate) use pending::get_unix_ts;
 
 pub use auth::{MIN_SALT_LEN, check_password, dump_passwords, hash_password, load_passwords};
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 519dd1b..b81a861 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -22,6 +22,7 @@ use crate::hook::{
 };
 use crate::protocols::mqtt::{
     BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, PendingPackets, WritePacket,
+    send_broadcasts, spawn_send_broadcasts,
 };
 use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, NormalMessage};
 
@@ -182,24 +183,11 @@ async fn handle_online<
         log::debug!("[{}] handling will...", session.client_id);
         handle_will(&mut session, global).await?;
     }
-    for (target_id, info) in session.broadcast_packets.drain() {
-        for msg in info.msgs {
-            if let Err(err) = info
-                .sink
-                .sender()
-                .send_async((session.client_id, msg))
-                .await
-            {
-                log::warn!(
-                    "[{}] handle will, send broadcast message to {} failed: {:?}",
-                    session.client_id,
-                    target_id,
-                    err
-                )
-            }
-        }
-    }
     if session.clean_session {
+        spawn_send_broadcasts(
+            session.client_id,
+            mem::take(&mut session.broadcast_packets),
+        );
         global.remove_client(session.client_id, session.subscribes.keys());
         if let Some(err) = io_error {
             return Err(err);
@@ -243,7 +231,7 @@ impl OnlineSession for Session {
             pending_packets,
             qos2_pids,
             subscribes,
-            broadcast_packets_cnt: self.broadcast_packets_cnt,
+            broadcast_packets_cnt: broadcast_packets.values().map(|info| info.msgs.len()).sum(),
             broadcast_packets,
         }
     }
@@ -495,10 +483,13 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
                     log::warn!("offline client receive normal message error: {:?}", err);
                     break;
                 }
-            }
+            },
+            _ = send_broadcasts(session.client_id, &mut session.broadcast_packets),
+                if !session.broadcast_packets.is_empty() => {}
         }
     }
     if !taken_over {
+        spawn_send_broadcasts(session.client_id, mem::take(&mut session.broadcast_packets));
         global.remove_client(session.client_id, session.subscribes.keys());
     }
     log::debug!("offline client finished: {:?}", session.client_id());
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 12e2c00..21ae29d 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -117,6 +117,8 @@ clean session : {}
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_session && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 4b0f540..99627c6 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -25,6 +25,7 @@ use crate::hook::{
 };
 use crate::protocols::mqtt::{
     BroadcastPackets, Disconnected, OnlineLoop, OnlineSession, PendingPackets, WritePacket,
+    send_broadcasts, spawn_send_broadcasts,
 };
 use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, NormalMessage};
 
@@ -315,8 +316,11 @@ async fn handle_online<
     if !session.client_disconnected {
         handle_will(&mut session, global).await?;
     }
-    broadcast_packets(&mut session).await;
     if session.session_expiry_interval == 0 {
+        spawn_send_broadcasts(
+            session.client_id,
+            mem::take(&mut session.broadcast_packets),
+        );
         global.remove_client(session.client_id, session.subscribes.keys());
         if let Some(err) = io_error {
             return Err(err);
@@ -367,7 +371,7 @@ impl OnlineSession for Session {
             pending_packets,
             qos2_pids,
             subscribes,
-            broadcast_packets_cnt: self.broadcast_packets_cnt,
+            broadcast_packets_cnt: broadcast_packets.values().map(|info| info.msgs.len()).sum(),
             broadcast_packets,
         }
     }
@@ -671,8 +675,6 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
                         }
                         break;
                     }
-                    // Because send_will is not a async_function
-                    broadcast_packets(&mut session).await;
                     if stop {
                         break;
                     }
@@ -690,10 +692,13 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
                     log::warn!("offline client receive normal message error: {err:?}");
                     break;
                 }
-            }
+            },
+            _ = send_broadcasts(session.client_id, &mut session.broadcast_packets),
+                if !session.broadcast_packets.is_empty() => {}
         };
     }
     if !taken_over {
+        spawn_send_broadcasts(session.client_id, mem::take(&mut session.broadcast_packets));
         global.remove_client(session.client_id, session.subscribes.keys());
     }
     log::debug!("offline client finished: {:?}", session.client_id());
@@ -940,32 +945,6 @@ fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()>
     Ok(())
 }
 
-async fn broadcast_packets(session: &mut Session) {
-    for (target_id, info) in session.broadcast_packets.drain() {
-        for msg in info.msgs {
-            log::debug!(
-                "[{}] broadcast to [{}], {:?}",
-                session.client_id,
-                target_id,
-                msg
-            );
-            if let Err(err) = info
-                .sink
-                .sender()
-                .send_async((session.client_id, msg))
-                .await
-            {
-                log::warn!(
-                    "[{}] handle will, send broadcast message to {} failed: {:?}",
-                    session.client_id,
-                    target_id,
-                    err
-                )
-            }
-        }
-    }
-}
-
 async fn before_connect_hook<T: AsyncWrite + Unpin, H: Hook + Clone + Send + Sync>(
     session: &mut Session,
     conn: &mut T,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index dc0e52d..ec37c74 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -231,6 +231,8 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             log::debug!("Got exists session for {}", old_state.client_id);
             session.client_id = old_state.client_id;
             *receiver = Some(old_state.receiver);
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
             // TODO: if protocol level is compatiable, copy the session state?
             if !session.clean_start && session.protocol == old_state.protocol {
                 session.server_packet_id = old_state.server_packet_id;
-- 
2.43.0


From 5f024febb952bf114f52f59d35040e0f4e54c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 10/38] fix: connecting again while the present session is
 ending starts a new session, and the online counter stays right

---
 akasa-core/src/state.rs | 159 ++++++++++++++++++++++++----------------
 1 file changed, 94 insertions(+), 65 deletions(-)

diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index 4ca668e..d482932 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -116,9 +116,11 @@ impl GlobalState {
     // When clean_session=0 and client disconnected
     pub fn offline_client(&self, client_id: ClientId) {
         let _guard = self.next_client_id.lock();
-        assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
-        if let Some(mut pair) = self.client_id_map.get_mut(&client_id) {
+        if let Some(mut pair) = self.client_id_map.get_mut(&client_id)
+            && pair.value().1
+        {
             pair.value_mut().1 = false;
+            assert_ne!(self.online_clients.fetch_sub(1, Ordering::AcqRel), 0);
         }
     }
 
@@ -140,82 +142,109 @@ impl GlobalState {
     }
 
     // Client connected
-    // TODO: error handling
     pub async fn add_client(
         &self,
         client_identifier: &str,
         protocol: Protocol,
     ) -> io::Result<AddClientReceipt> {
-        let control_sender = {
-            let mut next_client_id = self.next_client_id.lock();
-            self.online_clients.fetch_add(1, Ordering::AcqRel);
-            let client_id_opt: Option<ClientId> = self
-                .client_identifier_map
-                .get(client_identifier)
-                .map(|pair| *pair.value());
-            if let Some(old_id) = client_id_opt {
-                if let Some(mut pair) = self.client_id_map.get_mut(&old_id) {
-                    pair.value_mut().1 = true;
+        // The present session may end while it is asked for its state, then try again.
+        loop {
+            let (old_id, control_sender) = {
+                let mut next_client_id = self.next_client_id.lock();
+                let client_id_opt: Option<ClientId> = self
+                    .client_identifier_map
+                    .get(client_identifier)
+                    .map(|pair| *pair.value());
+                if let Some(old_id) = client_id_opt {
+                    (old_id, self.get_client_control_sender(&old_id).unwrap())
+                } else {
+                    let client_id = *next_client_id;
+                    self.online_clients.fetch_add(1, Ordering::AcqRel);
+                    self.client_id_map
+                        .insert(client_id, (client_identifier.to_string(), true));
+                    self.client_identifier_map
+                        .insert(client_identifier.to_string(), client_id);
+                    // FIXME: if some one subscribe topic "#" and never receive the message it will block all sender clients.
+                    //   Suggestion: Add QoS0 message to pending queue
+                    let (control_sender, control_receiver) = bounded(1);
+                    let (normal_sender, normal_receiver) = bounded(8);
+                    let sender = ClientSender {
+                        normal: normal_sender,
+                        control: control_sender,
+                    };
+                    self.clients.insert(client_id, sender);
+                    next_client_id.0 += 1;
+                    return Ok(AddClientReceipt::New {
+                        client_id,
+                        receiver: ClientReceiver {
+                            control: control_receiver,
+                            normal: normal_receiver,
+                        },
+                    });
                 }
-                self.get_client_control_sender(&old_id).unwrap()
+            };
+
+            let receipt = if protocol < Protocol::V500 {
+                let (sender, receiver) = bounded(1);
+                let msg = ControlMessage::OnlineV3 { sender };
+                take_session_state(control_sender, msg, receiver)
+                    .await
+                    .map(AddClientReceipt::PresentV3)
             } else {
-                let client_id = *next_client_id;
-                self.client_id_map
-                    .insert(client_id, (client_identifier.to_string(), true));
-                self.client_identifier_map
-                    .insert(client_identifier.to_string(), client_id);
-                // FIXME: if some one subscribe topic "#" and never receive the message it will block all sender clients.
-                //   Suggestion: Add QoS0 message to pending queue
-                let (control_sender, control_receiver) = bounded(1);
-                let (normal_sender, normal_receiver) = bounded(8);
-                let sender = ClientSender {
-                    normal: normal_sender,
-                    control: control_sender,
-                };
-                self.clients.insert(client_id, sender);
-                next_client_id.0 += 1;
-                return Ok(AddClientReceipt::New {
-                    client_id,
-                    receiver: ClientReceiver {
-                        control: control_receiver,
-                        normal: normal_receiver,
-                    },
-                });
+                let (sender, receiver) = bounded(1);
+                let msg = ControlMessage::OnlineV5 { sender };
+                take_session_state(control_sender, msg, receiver)
+                    .await
+                    .map(AddClientReceipt::PresentV5)
+            };
+            match receipt {
+                Ok(receipt) => {
+                    self.online_client(old_id);
+                    return Ok(receipt);
+                }
+                Err(TakeSessionError::Ended) => self.remove_client(old_id, []),
+                Err(TakeSessionError::Refused) => {}
             }
-        };
+        }
+    }
 
-        if protocol < Protocol::V500 {
-            let (sender, receiver) = bounded(1);
-            if let Err(err) = control_sender
-                .send_async(ControlMessage::OnlineV3 { sender })
-                .await
-            {
-                log::warn!("send online control message error: {:?}", err);
-                return Err(io::Error::from(io::ErrorKind::InvalidData));
-            }
-            let session_state = receiver.recv_async().await.map_err(|err| {
-                log::warn!("receive session state error: {:?}", err);
-                io::Error::from(io::ErrorKind::InvalidData)
-            })?;
-            Ok(AddClientReceipt::PresentV3(session_state))
-        } else {
-            let (sender, receiver) = bounded(1);
-            if let Err(err) = control_sender
-                .send_async(ControlMessage::OnlineV5 { sender })
-                .await
-            {
-                log::warn!("send online control message error: {:?}", err);
-                return Err(io::Error::from(io::ErrorKind::InvalidData));
-            }
-            let session_state = receiver.recv_async().await.map_err(|err| {
-                log::warn!("receive session state error: {:?}", err);
-                io::Error::from(io::ErrorKind::InvalidData)
-            })?;
-            Ok(AddClientReceipt::PresentV5(session_state))
+    // The session of an offline (or still online) client continues on a new connection
+    fn online_client(&self, client_id: ClientId) {
+        let _guard = self.next_client_id.lock();
+        if let Some(mut pair) = self.client_id_map.get_mut(&client_id)
+            && !pair.value().1
+        {
+            pair.value_mut().1 = true;
+            self.online_clients.fetch_add(1, Ordering::AcqRel);
         }
     }
 }
 
+enum TakeSessionError {
+    // No one receives control messages of the session
+    Ended,
+    // The session dropped the request, it is going to end
+    Refused,
+}
+
+async fn take_session_state<S>(
+    control_sender: Sender<ControlMessage>,
+    msg: ControlMessage,
+    receiver: Receiver<S>,
+) -> Result<S, TakeSessionError> {
+    if let Err(err) = control_sender.send_async(msg).await {
+        log::info!("send online control message error: {:?}", err);
+        return Err(TakeSessionError::Ended);
+    }
+    // If the session ends before it receives the message, the message is
+    // dropped when no sender is left.
+    drop(control_sender);
+    receiver.recv_async().await.map_err(|err| {
+        log::info!("receive session state error: {:?}", err);
+        TakeSessionError::Refused
+    })
+}
+
 #[derive(Debug, Clone)]
 pub enum ControlMessage {
     /// The v3.x client of the session connected, send the keept session to the connection loop
-- 
2.43.0


From e8b2b24236a26128ac8628eed2b04bde12a6b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:24 +0000
Subject: [PATCH 11/38] fix: the keep alive timer of a taken over connection
 does not kick its successor

---
 akasa-core/src/protocols/mqtt/common.rs     |  8 +++-----
 akasa-core/src/protocols/mqtt/v3/message.rs | 12 ++++++++++--
 akasa-core/src/protocols/mqtt/v5/message.rs | 12 ++++++++++--
 akasa-core/src/state.rs                     |  9 +++++++--
 4 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index fcd5bb3..86495a8 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -83,16 +83,14 @@ pub(crate) fn start_keep_alive_timer(
             let last_packet_time = Arc::clone(&last_packet_time);
             let global = Arc::clone(&global);
             async move {
-                {
-                    let last_packet_time = last_packet_time.read();
-                    if last_packet_time.elapsed() <= half_interval * 3 {
-                        return Some(half_interval);
-                    }
+                if last_packet_time.read().elapsed() <= half_interval * 3 {
+                    return Some(half_interval);
                 }
                 // timeout, kick it out
                 if let Some(sender) = global.get_client_control_sender(&client_id) {
                     let msg = ControlMessage::Kick {
                         reason: "timeout".to_owned(),
+                        last_packet_time,
                     };
                     if let Err(err) = sender.send_async(msg).await {
                         log::warn!(
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index b81a861..5559653 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -546,8 +546,16 @@ fn handle_control(
         ControlMessage::OnlineV5 { .. } => {
             log::info!("take over v3.x by v5.x client is not allowed");
         }
-        ControlMessage::Kick { reason } => {
-            if offline {
+        ControlMessage::Kick {
+            reason,
+            last_packet_time,
+        } => {
+            if !Arc::ptr_eq(&last_packet_time, &session.last_packet_time) {
+                log::info!(
+                    "ignore kick message for a previous connection of client {}",
+                    session.client_id
+                );
+            } else if offline {
                 log::info!(
                     "ignore kick message when client {} is offline",
                     session.client_id
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 99627c6..9bf3416 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -752,8 +752,16 @@ fn handle_control(
             log::warn!("take over v5.x session by v3.x client is not allowed");
         }
         ControlMessage::OnlineV5 { sender } => return (false, Some(sender)),
-        ControlMessage::Kick { reason } => {
-            if offline {
+        ControlMessage::Kick {
+            reason,
+            last_packet_time,
+        } => {
+            if !Arc::ptr_eq(&last_packet_time, &session.last_packet_time) {
+                log::info!(
+                    "ignore kick message for a previous connection of client {}",
+                    session.client_id
+                );
+            } else if offline {
                 log::info!(
                     "ignore kick message when client {} is offline",
                     session.client_id
diff --git a/akasa-core/src/state.rs b/akasa-core/src/state.rs
index d482932..17904d2 100644
--- a/akasa-core/src/state.rs
+++ b/akasa-core/src/state.rs
@@ -3,7 +3,10 @@ use std::fmt;
 use std::io;
 use std::num::NonZeroU32;
 
-use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::{
+    Arc,
+    atomic::{AtomicU64, Ordering},
+};
 
 use std::time::Instant;
 
@@ -11,7 +14,7 @@ use bytes::Bytes;
 use dashmap::DashMap;
 use flume::{Receiver, Sender, bounded};
 use mqtt_proto::{Protocol, QoS, TopicFilter, TopicName, v5::PublishProperties};
-use parking_lot::Mutex;
+use parking_lot::{Mutex, RwLock};
 
 use crate::config::Config;
 use crate::protocols::mqtt::{self, RetainTable, RouteTable};
@@ -259,6 +262,8 @@ pub enum ControlMessage {
     /// Kick client out (disconnect the client)
     Kick {
         reason: String,
+        /// Identify the connection to kick, it may already be taken over.
+        last_packet_time: Arc<RwLock<Instant>>,
     },
     SessionExpired {
         connected_time: Instant,
-- 
2.43.0


From 1536946a0b6d2c0129aa3dd4077e21c7d11849d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 12/38] fix: a connection that fails after its client was added
 does not leave a dead session behind

---
 akasa-core/src/protocols/mqtt/online_loop.rs  |   3 +-
 akasa-core/src/protocols/mqtt/v3/message.rs   |  84 +++---
 .../src/protocols/mqtt/v3/packet/connect.rs   |   2 +-
 akasa-core/src/protocols/mqtt/v5/message.rs   | 240 +++++++++---------
 .../src/protocols/mqtt/v5/packet/connect.rs   |  33 ++-
 5 files changed, 191 insertions(+), 171 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2268279..790792c 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -72,6 +72,7 @@ where
         conn: &'a mut C,
         taken_over: &'a mut bool,
         packet_state: GenericPollPacketState<H>,
+        packets: Vec<S::Packet>,
     ) -> Self {
         OnlineLoop {
             session,
@@ -86,7 +87,7 @@ where
             read_unfinish: false,
             normal_stream_unfinish: false,
             write_packets_max: 16,
-            write_packets: VecDeque::with_capacity(16),
+            write_packets: packets.into_iter().map(WritePacket::Packet).collect(),
             session_state_sender: None,
             hook_fut: None,
             draining: None,
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 5559653..781eb18 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -29,7 +29,7 @@ use crate::state::{ClientId, ClientReceiver, ControlMessage, GlobalState, Normal
 use super::{
     Session, SessionState,
     packet::{
-        common::{after_handle_packet, handle_pendings, write_packet},
+        common::{after_handle_packet, handle_pendings},
         connect::{handle_connect, handle_disconnect},
         publish::{
             RecvPublish, SendPublish, handle_puback, handle_pubcomp, handle_publish, handle_pubrec,
@@ -133,55 +133,65 @@ async fn handle_online<
         before_connect_hook(peer, &packet, hook_handler, global).await?;
     }
 
-    let session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
+    let mut taken_over = false;
+    let result: io::Result<Option<io::Error>> = async {
+        let session_present =
+            handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
 
-    if !session.connected {
-        log::info!("{} not connected", session.peer);
-        return Err(io::ErrorKind::InvalidData.into());
-    }
+        if !session.connected {
+            log::info!("{} not connected", session.peer);
+            return Err(io::ErrorKind::InvalidData.into());
+        }
 
-    // Run after connect hook
-    if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
-    }
+        // Run after connect hook
+        if global.config.hook.enable_after_connect {
+            after_connect_hook(&mut session, session_present, hook_handler, global).await?;
+        }
 
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
-    }
+        let write_packets = after_handle_packet(&mut session);
 
-    let receiver = receiver.expect("receiver");
-    log::info!(
-        "{} connected, total {} clients ({} online) ",
-        session.peer,
-        global.clients_count(),
-        global.online_clients_count(),
-    );
+        let receiver = receiver.as_ref().expect("receiver");
+        log::info!(
+            "{} connected, total {} clients ({} online) ",
+            session.peer,
+            global.clients_count(),
+            global.online_clients_count(),
+        );
 
-    let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
-        &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
-        &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+        let online_loop = OnlineLoop::new(
+            &mut session,
+            global,
+            hook_handler,
+            receiver,
+            receiver.control.stream(),
+            receiver.normal.stream(),
+            &mut conn,
+            &mut taken_over,
+            PollPacketState::default(),
+            write_packets,
+        );
+        let io_error = online_loop.await;
+        if global.config.hook.enable_after_disconnect {
+            after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+        }
+        Ok(io_error)
     }
+    .await;
     if taken_over {
         return Ok(None);
     }
+    // Once the client is added its session must be kept or removed, whatever failed.
+    let Some(receiver) = receiver else {
+        return result.map(|_| None);
+    };
+    let io_error = result.unwrap_or_else(Some);
 
     // FIXME: check all place depend on session.disconnected
     if !session.disconnected {
         log::debug!("[{}] handling will...", session.client_id);
-        handle_will(&mut session, global).await?;
+        if let Err(err) = handle_will(&mut session, global).await {
+            log::warn!("[{}] send will failed: {}", session.client_id, err);
+        }
     }
     if session.clean_session {
         spawn_send_broadcasts(
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 21ae29d..8724a4d 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -162,9 +162,9 @@ clean session : {}
     log::debug!("Socket {} assgined to: {}", session.peer, session.client_id);
 
     let rv_packet = Connack::new(session_present, return_code);
+    session.connected_time = Some(Instant::now());
     write_packet(session.client_id, conn, &rv_packet.into()).await?;
     session.connected = true;
-    session.connected_time = Some(Instant::now());
     Ok(session_present)
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 9bf3416..c565448 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -177,134 +177,142 @@ async fn handle_online<
         before_connect_hook(&mut session, &mut conn, peer, &packet, hook_handler, global).await?;
     }
 
-    let mut session_present =
-        handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
-
-    // * Scram challenge only need 1 round.
-    // * Kerberos challenge need 2 rounds.
-    let mut round_quota = 2;
-    while session.authorizing && round_quota > 0 {
-        round_quota -= 1;
-
-        let packet = async {
-            match Packet::decode_async(&mut conn).await {
-                Ok(packet) => Ok(packet),
-                Err(err) => match err {
-                    ErrorV5::Common(Error::IoError(kind)) => Err(Error::IoError(kind).into()),
-                    ErrorV5::Common(err) => {
-                        let err_pkt = build_error_connack(
-                            &mut session,
-                            false,
-                            ConnectReasonCode::MalformedPacket,
-                            err.to_string(),
-                        );
-                        write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                        Err(io::ErrorKind::InvalidData.into())
-                    }
-                    err => {
-                        let err_pkt = build_error_connack(
-                            &mut session,
-                            false,
-                            ConnectReasonCode::MalformedPacket,
-                            err.to_string(),
-                        );
-                        write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                        Err(io::ErrorKind::InvalidData.into())
-                    }
-                },
-            }
-        }
-        .or(async {
-            let _ = timeout_receiver.recv_async().await;
-            log::info!("timeout when decode auth packet: {}", peer);
-            Err(io::Error::from(io::ErrorKind::TimedOut))
-        })
-        .await?;
-        let auth = match packet {
-            Packet::Auth(pkt) => pkt,
-            _ => {
-                log::info!("Not connected, only AUTH packet is allowed");
-                let err_pkt =
-                    build_error_connack(&mut session, false, ConnectReasonCode::ProtocolError, "");
-                write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                return Ok(None);
-            }
-        };
+    let mut taken_over = false;
+    let result: io::Result<Option<io::Error>> = async {
+        let mut session_present =
+            handle_connect(&mut session, &mut receiver, packet, &mut conn, global).await?;
 
-        match handle_auth(&mut session, auth, global) {
-            Ok((AuthReasonCode::Success, server_final)) => {
-                session_present = session_connect(
-                    &mut session,
-                    &mut receiver,
-                    Some(server_final),
-                    &mut conn,
-                    global,
-                )
-                .await?;
-            }
-            Ok((AuthReasonCode::ContinueAuthentication, server_first)) => {
-                let auth_method = session.auth_method.as_ref().expect("auth method");
-                let rv_packet = Auth {
-                    reason_code: AuthReasonCode::ContinueAuthentication,
-                    properties: AuthProperties {
-                        auth_method: Some(Arc::clone(auth_method)),
-                        auth_data: Some(Bytes::from(server_first)),
-                        reason_string: None,
-                        user_properties: Vec::new(),
+        // * Scram challenge only need 1 round.
+        // * Kerberos challenge need 2 rounds.
+        let mut round_quota = 2;
+        while session.authorizing && round_quota > 0 {
+            round_quota -= 1;
+
+            let packet = async {
+                match Packet::decode_async(&mut conn).await {
+                    Ok(packet) => Ok(packet),
+                    Err(err) => match err {
+                        ErrorV5::Common(Error::IoError(kind)) => Err(Error::IoError(kind).into()),
+                        ErrorV5::Common(err) => {
+                            let err_pkt = build_error_connack(
+                                &mut session,
+                                false,
+                                ConnectReasonCode::MalformedPacket,
+                                err.to_string(),
+                            );
+                            write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                            Err(io::ErrorKind::InvalidData.into())
+                        }
+                        err => {
+                            let err_pkt = build_error_connack(
+                                &mut session,
+                                false,
+                                ConnectReasonCode::MalformedPacket,
+                                err.to_string(),
+                            );
+                            write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                            Err(io::ErrorKind::InvalidData.into())
+                        }
                     },
-                };
-                write_packet(session.client_id, &mut conn, &rv_packet.into()).await?;
+                }
             }
-            Ok((AuthReasonCode::ReAuthentication, _)) => unreachable!(),
-            Err(err_pkt) => {
-                write_packet(session.client_id, &mut conn, &err_pkt).await?;
-                return Ok(None);
+            .or(async {
+                let _ = timeout_receiver.recv_async().await;
+                log::info!("timeout when decode auth packet: {}", peer);
+                Err(io::Error::from(io::ErrorKind::TimedOut))
+            })
+            .await?;
+            let auth = match packet {
+                Packet::Auth(pkt) => pkt,
+                _ => {
+                    log::info!("Not connected, only AUTH packet is allowed");
+                    let err_pkt =
+                        build_error_connack(&mut session, false, ConnectReasonCode::ProtocolError, "");
+                    write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                    return Ok(None);
+                }
+            };
+
+            match handle_auth(&mut session, auth, global) {
+                Ok((AuthReasonCode::Success, server_final)) => {
+                    session_present = session_connect(
+                        &mut session,
+                        &mut receiver,
+                        Some(server_final),
+                        &mut conn,
+                        global,
+                    )
+                    .await?;
+                }
+                Ok((AuthReasonCode::ContinueAuthentication, server_first)) => {
+                    let auth_method = session.auth_method.as_ref().expect("auth method");
+                    let rv_packet = Auth {
+                        reason_code: AuthReasonCode::ContinueAuthentication,
+                        properties: AuthProperties {
+                            auth_method: Some(Arc::clone(auth_method)),
+                            auth_data: Some(Bytes::from(server_first)),
+                            reason_string: None,
+                            user_properties: Vec::new(),
+                        },
+                    };
+                    write_packet(session.client_id, &mut conn, &rv_packet.into()).await?;
+                }
+                Ok((AuthReasonCode::ReAuthentication, _)) => unreachable!(),
+                Err(err_pkt) => {
+                    write_packet(session.client_id, &mut conn, &err_pkt).await?;
+                    return Ok(None);
+                }
             }
         }
-    }
-    drop(timeout_receiver);
+        drop(timeout_receiver);
 
-    if !session.connected {
-        log::info!("{} not connected", session.peer);
-        return Err(io::ErrorKind::InvalidData.into());
-    }
+        if !session.connected {
+            log::info!("{} not connected", session.peer);
+            return Err(io::ErrorKind::InvalidData.into());
+        }
 
-    // Run after connect hook
-    if global.config.hook.enable_before_connect {
-        after_connect_hook(&mut session, session_present, hook_handler, global).await?;
-    }
+        // Run after connect hook
+        if global.config.hook.enable_after_connect {
+            after_connect_hook(&mut session, session_present, hook_handler, global).await?;
+        }
 
-    for packet in after_handle_packet(&mut session) {
-        write_packet(session.client_id, &mut conn, &packet).await?;
-    }
+        let write_packets = after_handle_packet(&mut session);
 
-    let receiver = receiver.expect("receiver");
-    log::info!(
-        "{} connected, total {} clients ({} online) ",
-        session.peer,
-        global.clients_count(),
-        global.online_clients_count(),
-    );
+        let receiver = receiver.as_ref().expect("receiver");
+        log::info!(
+            "{} connected, total {} clients ({} online) ",
+            session.peer,
+            global.clients_count(),
+            global.online_clients_count(),
+        );
 
-    let mut taken_over = false;
-    let online_loop = OnlineLoop::new(
-        &mut session,
-        global,
-        hook_handler,
-        &receiver,
-        receiver.control.stream(),
-        receiver.normal.stream(),
-        &mut conn,
-        &mut taken_over,
-        PollPacketState::default(),
-    );
-    let io_error = online_loop.await;
-    if global.config.hook.enable_after_disconnect {
-        after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+        let online_loop = OnlineLoop::new(
+            &mut session,
+            global,
+            hook_handler,
+            receiver,
+            receiver.control.stream(),
+            receiver.normal.stream(),
+            &mut conn,
+            &mut taken_over,
+            PollPacketState::default(),
+            write_packets,
+        );
+        let io_error = online_loop.await;
+        if global.config.hook.enable_after_disconnect {
+            after_disconnect_hook(&mut session, taken_over, hook_handler, global).await?;
+        }
+        Ok(io_error)
     }
+    .await;
     if taken_over {
         return Ok(None);
     }
+    // Once the client is added its session must be kept or removed, whatever failed.
+    let Some(receiver) = receiver else {
+        return result.map(|_| None);
+    };
+    let io_error = result.unwrap_or_else(Some);
 
     log::debug!(
         "[{}] online loop finished, client_disconnected={}, server_disconnected={}",
@@ -314,7 +322,9 @@ async fn handle_online<
     );
     // FIXME: check all place depend on session.disconnected
     if !session.client_disconnected {
-        handle_will(&mut session, global).await?;
+        if let Err(err) = handle_will(&mut session, global).await {
+            log::warn!("[{}] send will failed: {}", session.client_id, err);
+        }
     }
     if session.session_expiry_interval == 0 {
         spawn_send_broadcasts(
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index ec37c74..cfdaa33 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -154,6 +154,19 @@ pub(crate) async fn handle_connect<T: AsyncWrite + Unpin>(
             // FIXME: send error connack
             return Err(io::ErrorKind::InvalidData.into());
         }
+        let reason_code = if last_will.retain && !global.config.retain_available {
+            ConnectReasonCode::RetainNotSupported
+        } else if last_will.qos > global.config.max_allowed_qos() {
+            ConnectReasonCode::QoSNotSupported
+        } else {
+            ConnectReasonCode::Success
+        };
+        if reason_code != ConnectReasonCode::Success {
+            log::info!("will is not supported: {:?}", reason_code);
+            let err_pkt = build_error_connack(session, false, reason_code, "");
+            write_packet(session.client_id, conn, &err_pkt).await?;
+            return Ok(false);
+        }
         session.last_will = Some(last_will);
     }
 
@@ -321,28 +334,14 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     }
     // * TODO ServerReference
 
-    let reason_code = if let Some(will) = session.last_will.as_ref() {
-        if will.retain && !global.config.retain_available {
-            ConnectReasonCode::RetainNotSupported
-        } else if will.qos > global.config.max_allowed_qos() {
-            ConnectReasonCode::QoSNotSupported
-        } else {
-            ConnectReasonCode::Success
-        }
-    } else {
-        ConnectReasonCode::Success
-    };
     let rv_packet = Connack {
         session_present,
-        reason_code,
+        reason_code: ConnectReasonCode::Success,
         properties: connack_properties,
     };
+    session.connected_time = Some(Instant::now());
     write_packet(session.client_id, conn, &rv_packet.into()).await?;
-
-    if reason_code == ConnectReasonCode::Success {
-        session.connected = true;
-        session.connected_time = Some(Instant::now());
-    }
+    session.connected = true;
     Ok(session_present)
 }
 
-- 
2.43.0


From 8ca9159c9d483614adb030859844813b592a9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 13/38] fix: connecting with clean session (or another protocol
 level) removes the old session completely

---
 .../src/protocols/mqtt/v3/packet/connect.rs   | 50 +++++++++--------
 .../src/protocols/mqtt/v5/packet/connect.rs   | 54 +++++++++++--------
 2 files changed, 60 insertions(+), 44 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 8724a4d..7db54d0 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -8,7 +8,7 @@ use mqtt_proto::{
 };
 use tokio::io::AsyncWrite;
 
-use crate::protocols::mqtt::{check_password, start_keep_alive_timer};
+use crate::protocols::mqtt::{check_password, spawn_send_broadcasts, start_keep_alive_timer};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
 use super::Session;
@@ -109,25 +109,16 @@ clean session : {}
     }
 
     let mut session_present = false;
-    match global
-        .add_client(&session.client_identifier, session.protocol)
-        .await?
-    {
-        AddClientReceipt::PresentV3(old_state) => {
-            log::debug!("Got exists session for {}", old_state.client_id);
-            session.client_id = old_state.client_id;
-            *receiver = Some(old_state.receiver);
-            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
-            session.broadcast_packets = old_state.broadcast_packets;
-            // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_session && session.protocol == old_state.protocol {
-                session.server_packet_id = old_state.server_packet_id;
-                session.pending_packets = old_state.pending_packets;
-                session.pending_packets.reset_last_sent();
-                session.qos2_pids = old_state.qos2_pids;
-                session.subscribes = old_state.subscribes;
-                session_present = true;
-            } else {
+    let receipt = loop {
+        match global
+            .add_client(&session.client_identifier, session.protocol)
+            .await?
+        {
+            // The old session ends here, nothing of it (like routes or messages in
+            // the channel) is part of the new session.
+            AddClientReceipt::PresentV3(old_state)
+                if session.clean_session || session.protocol != old_state.protocol =>
+            {
                 log::info!(
                     "{} session state removed due to reconnect with a different protocol version, new: {}, old: {}, or clean session: {}",
                     old_state.pending_packets.len(),
@@ -135,8 +126,25 @@ clean session : {}
                     old_state.protocol,
                     session.clean_session,
                 );
-                session_present = false;
+                global.remove_client(old_state.client_id, old_state.subscribes.keys());
+                spawn_send_broadcasts(old_state.client_id, old_state.broadcast_packets);
             }
+            receipt => break receipt,
+        }
+    };
+    match receipt {
+        AddClientReceipt::PresentV3(old_state) => {
+            log::debug!("Got exists session for {}", old_state.client_id);
+            session.client_id = old_state.client_id;
+            *receiver = Some(old_state.receiver);
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
+            session.server_packet_id = old_state.server_packet_id;
+            session.pending_packets = old_state.pending_packets;
+            session.pending_packets.reset_last_sent();
+            session.qos2_pids = old_state.qos2_pids;
+            session.subscribes = old_state.subscribes;
+            session_present = true;
         }
         // not allowed, so this is dead branch.
         AddClientReceipt::PresentV5(_) => unreachable!(),
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index cfdaa33..4f3c320 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -13,7 +13,7 @@ use mqtt_proto::{
 use tokio::io::AsyncWrite;
 
 use crate::config::SaslMechanism;
-use crate::protocols::mqtt::{check_password, start_keep_alive_timer};
+use crate::protocols::mqtt::{check_password, spawn_send_broadcasts, start_keep_alive_timer};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
 use super::common::{build_error_connack, build_error_disconnect, write_packet};
@@ -234,27 +234,16 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     global: &Arc<GlobalState>,
 ) -> io::Result<bool> {
     let mut session_present = false;
-    match global
-        .add_client(&session.client_identifier, session.protocol)
-        .await?
-    {
-        // not allowed, so this is dead branch.
-        AddClientReceipt::PresentV3(_) => unreachable!(),
-        AddClientReceipt::PresentV5(old_state) => {
-            log::debug!("Got exists session for {}", old_state.client_id);
-            session.client_id = old_state.client_id;
-            *receiver = Some(old_state.receiver);
-            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
-            session.broadcast_packets = old_state.broadcast_packets;
-            // TODO: if protocol level is compatiable, copy the session state?
-            if !session.clean_start && session.protocol == old_state.protocol {
-                session.server_packet_id = old_state.server_packet_id;
-                session.pending_packets = old_state.pending_packets;
-                session.pending_packets.reset_last_sent();
-                session.qos2_pids = old_state.qos2_pids;
-                session.subscribes = old_state.subscribes;
-                session_present = true;
-            } else {
+    let receipt = loop {
+        match global
+            .add_client(&session.client_identifier, session.protocol)
+            .await?
+        {
+            // The old session ends here, nothing of it (like routes or messages in
+            // the channel) is part of the new session.
+            AddClientReceipt::PresentV5(old_state)
+                if session.clean_start || session.protocol != old_state.protocol =>
+            {
                 log::info!(
                     "{} session state removed due to reconnect with a different protocol version, new: {}, old: {}, or clean start: {}",
                     old_state.pending_packets.len(),
@@ -262,8 +251,27 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                     old_state.protocol,
                     session.clean_start,
                 );
-                session_present = false;
+                global.remove_client(old_state.client_id, old_state.subscribes.keys());
+                spawn_send_broadcasts(old_state.client_id, old_state.broadcast_packets);
             }
+            receipt => break receipt,
+        }
+    };
+    match receipt {
+        // not allowed, so this is dead branch.
+        AddClientReceipt::PresentV3(_) => unreachable!(),
+        AddClientReceipt::PresentV5(old_state) => {
+            log::debug!("Got exists session for {}", old_state.client_id);
+            session.client_id = old_state.client_id;
+            *receiver = Some(old_state.receiver);
+            session.broadcast_packets_cnt = old_state.broadcast_packets_cnt;
+            session.broadcast_packets = old_state.broadcast_packets;
+            session.server_packet_id = old_state.server_packet_id;
+            session.pending_packets = old_state.pending_packets;
+            session.pending_packets.reset_last_sent();
+            session.qos2_pids = old_state.qos2_pids;
+            session.subscribes = old_state.subscribes;
+            session_present = true;
         }
         AddClientReceipt::New {
             client_id,
-- 
2.43.0


From 5225a2b5a9bfa599483ca0ab745a6e0644462489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 14/38] fix: a client that reconnects with another MQTT version
 replaces its old session

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 4 +++-
 akasa-core/src/protocols/mqtt/v5/message.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 781eb18..a544433 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -554,7 +554,9 @@ fn handle_control(
     match msg {
         ControlMessage::OnlineV3 { sender } => return (false, Some(sender)),
         ControlMessage::OnlineV5 { .. } => {
-            log::info!("take over v3.x by v5.x client is not allowed");
+            log::info!("take over v3.x by v5.x client is not allowed, session removed");
+            session.clean_session = true;
+            stop = true;
         }
         ControlMessage::Kick {
             reason,
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index c565448..0e5b45e 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -759,7 +759,12 @@ fn handle_control(
     let mut stop = false;
     match msg {
         ControlMessage::OnlineV3 { .. } => {
-            log::warn!("take over v5.x session by v3.x client is not allowed");
+            log::info!("take over v5.x session by v3.x client is not allowed, session removed");
+            session.session_expiry_interval = 0;
+            if offline && send_will(session, global).is_err() {
+                log::warn!("send will failed (packet too large)");
+            }
+            stop = true;
         }
         ControlMessage::OnlineV5 { sender } => return (false, Some(sender)),
         ControlMessage::Kick {
-- 
2.43.0


From 1fedfda4367af3e90a813c2950d57b5b38ab320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:44 +0000
Subject: [PATCH 15/38] fix: the connect timeout also covers the WebSocket
 handshake

---
 akasa-core/src/server/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/server/mod.rs b/akasa-core/src/server/mod.rs
index 8d959a4..12207cc 100644
--- a/akasa-core/src/server/mod.rs
+++ b/akasa-core/src/server/mod.rs
@@ -135,13 +135,17 @@ pub async fn handle_accept<
             }
             Ok(resp)
         };
-        let stream = match accept_hdr_async(tls_wrapper, handler).await {
-            Ok(stream) => stream,
-            Err(err) => {
+        let stream = accept_hdr_async(tls_wrapper, handler)
+            .map_err(|err| {
                 log::warn!("Accept websocket connection error: {:?}", err);
-                return Err(io::ErrorKind::InvalidData.into());
-            }
-        };
+                io::Error::from(io::ErrorKind::InvalidData)
+            })
+            .or(async {
+                let _ = timeout_receiver.recv_async().await;
+                log::info!("timeout when accept websocket: {}", peer);
+                Err(io::ErrorKind::TimedOut.into())
+            })
+            .await?;
         WebSocketWrapper::WebSocket {
             stream,
             read_data: Bytes::new(),
-- 
2.43.0


From fb48dd8a20a0d132db27a0abf894e1c1a5094ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 16/38] fix: retransmission and message expiry do not depend on
 steps of the system clock

---
 akasa-core/src/protocols/mqtt/pending.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/pending.rs b/akasa-core/src/protocols/mqtt/pending.rs
index e6bff72..a3986b3 100644
--- a/akasa-core/src/protocols/mqtt/pending.rs
+++ b/akasa-core/src/protocols/mqtt/pending.rs
@@ -4,7 +4,8 @@
 use std::cmp;
 use std::collections::VecDeque;
 use std::fmt::Debug;
-use std::time::SystemTime;
+use std::sync::OnceLock;
+use std::time::{Instant, SystemTime};
 
 use mqtt_proto::{Pid, QoS};
 
@@ -177,10 +178,15 @@ pub enum PendingPacketStatus<P> {
     Complete,
 }
 
-/// Unix timestamp as seconds
+/// Unix timestamp as seconds, steps of the system clock after the first call are ignored
 pub(crate) fn get_unix_ts() -> u64 {
-    match SystemTime::now().duration_since(SystemTime::UNIX_EPOCH) {
-        Ok(n) => n.as_secs(),
-        Err(_) => panic!("SystemTime before UNIX EPOCH!"),
-    }
+    static START: OnceLock<(u64, Instant)> = OnceLock::new();
+    let (start_ts, start) =
+        START.get_or_init(
+            || match SystemTime::now().duration_since(SystemTime::UNIX_EPOCH) {
+                Ok(n) => (n.as_secs(), Instant::now()),
+                Err(_) => panic!("SystemTime before UNIX EPOCH!"),
+            },
+        );
+    start_ts + start.elapsed().as_secs()
 }
-- 
2.43.0


From 2b01787a8adb6c1b9137697c2a70163abc96143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 17/38] fix: publishing while the last subscriber of a filter
 unsubscribes does not panic

---
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs | 5 ++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 487eaaf..5a199af 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -199,7 +199,10 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
     let mut senders = Vec::with_capacity(matches.len());
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            // all clients unsubscribed after the topic matched
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index e12030c..c52cfbd 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -357,7 +357,10 @@ pub(crate) fn send_publish(
         Vec::with_capacity(matched_len);
     for content in matches {
         let content = content.read();
-        let subscribe_filter = content.topic_filter.as_ref().unwrap();
+        let Some(subscribe_filter) = content.topic_filter.as_ref() else {
+            // all clients unsubscribed after the topic matched
+            continue;
+        };
         for (client_id, subscribe_qos) in &content.clients {
             if *client_id == session.client_id {
                 if let Some(sub) = session.subscribes.get(subscribe_filter) {
-- 
2.43.0


From 30ab73ec0e19463abbe182a28563b5e361d51240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 18/38] fix: a client that left a shared subscription group can
 join it again

---
 akasa-core/src/protocols/mqtt/route.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/route.rs b/akasa-core/src/protocols/mqtt/route.rs
index 5d722dc..5bccd91 100644
--- a/akasa-core/src/protocols/mqtt/route.rs
+++ b/akasa-core/src/protocols/mqtt/route.rs
@@ -272,7 +272,9 @@ impl SharedClients {
             } else {
                 let last_client_id = self.items.last().expect("shared items").0;
                 self.items.swap_remove(idx);
-                self.index.insert(last_client_id, idx);
+                if last_client_id != *item_key {
+                    self.index.insert(last_client_id, idx);
+                }
                 if self.items.capacity() >= 16 && self.items.capacity() >= (self.items.len() << 2) {
                     self.items.shrink_to(self.items.len() << 1);
                 }
-- 
2.43.0


From 10ce27e39a11902495bfae06a582d4157674ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 19/38] fix: a v3.x subscription gets retained messages of a
 higher QoS too, downgraded

---
 .../src/protocols/mqtt/v3/packet/subscribe.rs | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 7e0bbae..6cd25d6 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,19 +42,17 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
-            if msg.qos <= granted_qos
-                && let Some((final_qos, packet_opt)) = recv_publish(
-                    session,
-                    RecvPublish {
-                        topic_name: &msg.topic_name,
-                        qos: msg.qos,
-                        retain: true,
-                        payload: &msg.payload,
-                        subscribe_filter: filter,
-                        subscribe_qos: granted_qos,
-                    },
-                )
-            {
+            if let Some((final_qos, packet_opt)) = recv_publish(
+                session,
+                RecvPublish {
+                    topic_name: &msg.topic_name,
+                    qos: msg.qos,
+                    retain: true,
+                    payload: &msg.payload,
+                    subscribe_filter: filter,
+                    subscribe_qos: granted_qos,
+                },
+            ) {
                 if let Some(packet) = packet_opt {
                     rv_packets.push(packet);
                 }
-- 
2.43.0


From 914f84c9c38ed585f231ea3fccee2161b250daf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 20/38] fix: data buffered by a TLS or WebSocket connection is
 flushed as soon as the peer reads again

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 790792c..2b7e6c2 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -45,6 +45,7 @@ where
 
     read_unfinish: bool,
     normal_stream_unfinish: bool,
+    flush_unfinish: bool,
 
     packet_state: GenericPollPacketState<H>,
     hook_fut: Option<Pin<Box<dyn Future<Output = HookResponse> + Send + 'static>>>,
@@ -86,6 +87,7 @@ where
             packet_state,
             read_unfinish: false,
             normal_stream_unfinish: false,
+            flush_unfinish: false,
             write_packets_max: 16,
             write_packets: packets.into_iter().map(WritePacket::Packet).collect(),
             session_state_sender: None,
@@ -133,6 +135,7 @@ where
             conn,
             read_unfinish,
             normal_stream_unfinish,
+            flush_unfinish,
             packet_state,
             session_state_sender,
             hook_fut,
@@ -450,9 +453,12 @@ where
         {
             write_packets.shrink_to(*write_packets_max);
         }
-        if have_write && !pendings.write {
+        // What the connection (TLS or WebSocket) buffered must be flushed in a later
+        // poll if it is not possible now.
+        *flush_unfinish |= have_write;
+        if *flush_unfinish && !pendings.write {
             match Pin::new(&mut *conn).poll_flush(cx) {
-                Poll::Ready(Ok(())) => {}
+                Poll::Ready(Ok(())) => *flush_unfinish = false,
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
                 Poll::Pending => {}
             }
-- 
2.43.0


From 55624d0ee5cb489d217bb480618cfccb89a5e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 21/38] fix: messages forwarded to an established v3.x
 subscription have the retain flag cleared

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index a544433..4204cdb 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -600,7 +600,7 @@ fn handle_normal(
         NormalMessage::PublishV3 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
@@ -616,7 +616,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9] established subscription
+                    retain: false,
                     payload,
                     subscribe_filter,
                     subscribe_qos,
@@ -626,7 +627,7 @@ fn handle_normal(
         NormalMessage::PublishV5 {
             ref topic_name,
             qos,
-            retain,
+            retain: _,
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
@@ -643,7 +644,8 @@ fn handle_normal(
                 RecvPublish {
                     topic_name,
                     qos,
-                    retain,
+                    // [MQTT-3.3.1-9] established subscription
+                    retain: false,
                     payload,
                     subscribe_filter: subscribe_filters.first()?,
                     subscribe_qos,
-- 
2.43.0


From 7fea3e7339b5ec90bcabef6f7c5b707004713e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 22/38] fix: a message that matched several v3.x subscriptions
 is not lost when one of them ends meanwhile

---
 akasa-core/src/protocols/mqtt/v3/message.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 4204cdb..88fdf45 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -647,7 +647,10 @@ fn handle_normal(
                     // [MQTT-3.3.1-9] established subscription
                     retain: false,
                     payload,
-                    subscribe_filter: subscribe_filters.first()?,
+                    // some of the filters may be unsubscribed meanwhile
+                    subscribe_filter: subscribe_filters
+                        .iter()
+                        .find(|filter| session.subscribes.contains_key(*filter))?,
                     subscribe_qos,
                 },
             )
-- 
2.43.0


From 015f69e8a31fe87892ab7fa7ea9035ea968cb9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 23/38] fix: messages of v3.x publishers reach shared
 subscription groups

---
 .../src/protocols/mqtt/v3/packet/publish.rs   | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index 5a199af..e06e2fb 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -7,10 +7,12 @@ use std::sync::Arc;
 use ahash::AHasher;
 use bytes::Bytes;
 use mqtt_proto::{
-    Encodable, Pid, QoS, QosPid, TopicFilter, TopicName, total_len,
+    Encodable, Pid, QoS, QosPid, SHARED_PREFIX, TopicFilter, TopicName, total_len,
     v3::{Packet, Publish},
 };
+use rand::RngExt;
 
+use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
@@ -206,6 +208,23 @@ pub(crate) fn send_publish(session: &mut Session, msg: SendPublish, global: &Arc
         for (client_id, subscribe_qos) in &content.clients {
             senders.push((*client_id, subscribe_filter.clone(), *subscribe_qos));
         }
+        // Only v5.x clients can join a group, but everyone can publish to it
+        for (group_name, shared_clients) in &content.groups {
+            let (client_id, subscribe_qos) = match global.config.shared_subscription_mode {
+                SharedSubscriptionMode::Random => {
+                    shared_clients.get_by_number(rand::rng().random())
+                }
+                SharedSubscriptionMode::HashClientId => {
+                    shared_clients.get_by_hash(&session.client_identifier)
+                }
+                SharedSubscriptionMode::HashTopicName => shared_clients.get_by_hash(msg.topic_name),
+            };
+            let full_filter = TopicFilter::try_from(
+                format!("{SHARED_PREFIX}{group_name}/{subscribe_filter}").as_str(),
+            )
+            .expect("full topic filter");
+            senders.push((client_id, full_filter, subscribe_qos));
+        }
     }
 
     session.broadcast_packets_cnt += senders.len();
-- 
2.43.0


From 4c97e281fde2f7de822a6ff03cba116666ec4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:17 +0000
Subject: [PATCH 24/38] fix: expired retained messages are not delivered to new
 subscriptions

---
 akasa-core/src/protocols/mqtt/retain.rs       | 39 ++++++++++++++++++-
 .../src/protocols/mqtt/v3/packet/subscribe.rs |  3 ++
 .../src/protocols/mqtt/v5/packet/subscribe.rs |  9 ++++-
 3 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/retain.rs b/akasa-core/src/protocols/mqtt/retain.rs
index 185a798..6f112c0 100644
--- a/akasa-core/src/protocols/mqtt/retain.rs
+++ b/akasa-core/src/protocols/mqtt/retain.rs
@@ -8,6 +8,7 @@ use mqtt_proto::{
 };
 use parking_lot::RwLock;
 
+use super::get_unix_ts;
 use super::route::split_topic;
 
 #[derive(Debug, Default)]
@@ -21,7 +22,7 @@ struct RetainNode {
     nodes: Arc<RwLock<HashMap<String, RetainNode>>>,
 }
 
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone)]
 pub struct RetainContent {
     // the publisher client id
     pub client_identifier: Arc<str>,
@@ -30,6 +31,8 @@ pub struct RetainContent {
     pub payload: Bytes,
     pub properties: Option<PublishProperties>,
     pub encode_len: usize,
+    // when the message is published, timestamp as seconds
+    pub added_at: u64,
 }
 
 impl RetainTable {
@@ -173,10 +176,44 @@ impl RetainContent {
             payload,
             properties,
             encode_len,
+            added_at: get_unix_ts(),
+        }
+    }
+
+    /// The rest of message expiry interval, return `Err` if it is elapsed.
+    pub fn rest_expiry_interval(&self) -> Result<Option<u32>, ()> {
+        let expiry = self
+            .properties
+            .as_ref()
+            .and_then(|properties| properties.message_expiry_interval);
+        match expiry {
+            Some(value) => {
+                let passed_secs = get_unix_ts().saturating_sub(self.added_at);
+                if passed_secs >= value as u64 {
+                    Err(())
+                } else {
+                    Ok(Some(value - passed_secs as u32))
+                }
+            }
+            None => Ok(None),
         }
     }
 }
 
+// `added_at` is not part of the content
+impl PartialEq for RetainContent {
+    fn eq(&self, other: &Self) -> bool {
+        self.client_identifier == other.client_identifier
+            && self.qos == other.qos
+            && self.topic_name == other.topic_name
+            && self.payload == other.payload
+            && self.properties == other.properties
+            && self.encode_len == other.encode_len
+    }
+}
+
+impl Eq for RetainContent {}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 6cd25d6..394629d 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,6 +42,9 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
+            if msg.rest_expiry_interval().is_err() {
+                continue;
+            }
             if let Some((final_qos, packet_opt)) = recv_publish(
                 session,
                 RecvPublish {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index cc6956d..9d70bcf 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -87,6 +87,13 @@ packet id : {}
                         if sub_opts.no_local && msg.client_identifier == session.client_identifier {
                             continue;
                         }
+                        let Ok(message_expiry_interval) = msg.rest_expiry_interval() else {
+                            continue;
+                        };
+                        let mut properties = msg.properties.clone();
+                        if let Some(properties) = properties.as_mut() {
+                            properties.message_expiry_interval = message_expiry_interval;
+                        }
                         let encode_len = if msg.properties.is_none() {
                             // one byte for property length
                             msg.encode_len + 1
@@ -103,7 +110,7 @@ packet id : {}
                                 payload: &msg.payload,
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
-                                properties: msg.properties.as_ref(),
+                                properties: properties.as_ref(),
                                 encode_len,
                             },
                         ) {
-- 
2.43.0


From db8fed974f0f693069237fd8de1c3fb705647807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 25/38] fix: the size of a packet to a v5 client is checked as
 it is sent

---
 akasa-core/src/protocols/mqtt/v5/message.rs   |  7 +--
 .../src/protocols/mqtt/v5/packet/common.rs    | 49 ++++++++++-----
 .../src/protocols/mqtt/v5/packet/publish.rs   | 59 +++++++++----------
 .../src/protocols/mqtt/v5/packet/subscribe.rs |  7 ---
 4 files changed, 64 insertions(+), 58 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 0e5b45e..b602f1c 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -835,7 +835,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filter,
             subscribe_qos,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v3 publish message from {}",
@@ -856,8 +856,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Lookup(subscribe_filter),
                         subscribe_qos,
                         properties: None,
-                        // one byte is for property length
-                        encode_len: encode_len + 1,
                     },
                 )
             } else {
@@ -872,7 +870,7 @@ fn handle_normal(
             ref subscribe_filters,
             subscribe_qos,
             ref properties,
-            encode_len,
+            encode_len: _,
         } => {
             log::debug!(
                 "[{}] received v5 publish message from {}, msg: {:?}",
@@ -910,7 +908,6 @@ fn handle_normal(
                         subscription_ids: SubscriptionIds::Precomputed(subscription_ids),
                         subscribe_qos,
                         properties: Some(properties),
-                        encode_len,
                     },
                 )
             }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index d379405..546e802 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -5,7 +5,7 @@ use std::time::Instant;
 
 use hashbrown::HashMap;
 use mqtt_proto::{
-    QoS, QosPid, TopicName,
+    Encodable, QoS, QosPid, TopicName, total_len,
     v5::{
         Connack, ConnackProperties, ConnectReasonCode, Disconnect, DisconnectProperties,
         DisconnectReasonCode, ErrorV5, Packet, Publish, Pubrel, PubrelProperties, PubrelReasonCode,
@@ -24,6 +24,19 @@ pub(super) fn empty_topic_name() -> &'static TopicName {
     EMPTY_TOPIC_NAME.get_or_init(|| TopicName::try_from("").expect("empty topic name is valid"))
 }
 
+/// The topic alias property is 3 bytes, and may let the two length fields grow.
+const TOPIC_ALIAS_LEN: u32 = 5;
+
+/// See [MQTT-3.1.2-24]
+pub(super) fn is_too_large(publish: &Publish, max_packet_size: u32) -> bool {
+    !total_len(publish.encode_len()).is_ok_and(|len| len <= max_packet_size as usize)
+}
+
+/// If there is still space for topic alias property
+pub(super) fn can_add_topic_alias(publish: &Publish, max_packet_size: u32) -> bool {
+    !is_too_large(publish, max_packet_size.saturating_sub(TOPIC_ALIAS_LEN))
+}
+
 #[inline]
 pub(crate) fn after_handle_packet(session: &mut Session) -> Vec<Packet> {
     *session.last_packet_time.write() = Instant::now();
@@ -151,6 +164,7 @@ pub(super) fn get_or_assign_server_topic_alias(
 #[inline]
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     let topic_alias_max = session.topic_alias_max;
+    let max_packet_size = session.max_packet_size;
     let (pending_packets, aliases_by_topic, aliases_by_alias, tick) = (
         &mut session.pending_packets,
         &mut session.server_topic_aliases_by_topic,
@@ -176,7 +190,7 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                 let now_ts = get_unix_ts();
                 let mut message_expiry_interval = None;
                 if let Some(value) = packet.properties.message_expiry_interval {
-                    let passed_secs = now_ts - *added_at;
+                    let passed_secs = now_ts.saturating_sub(*added_at);
                     if *last_sent == 0 && passed_secs >= value as u64 {
                         expired_packets.push(*pid);
                         continue;
@@ -189,31 +203,36 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                     QoS::Level2 => QosPid::Level2(*pid),
                 };
                 let mut properties = packet.properties.clone();
-                let mut topic_name = packet.topic_name.clone();
                 properties.message_expiry_interval = message_expiry_interval;
-                if !*dup && topic_alias_max > 0 {
+                let mut rv_packet = Publish {
+                    dup: *dup,
+                    retain: packet.retain,
+                    qos_pid,
+                    topic_name: packet.topic_name.clone(),
+                    payload: packet.payload.clone(),
+                    properties,
+                };
+                if is_too_large(&rv_packet, max_packet_size) {
+                    // The client reconnected with a smaller maximum packet size
+                    expired_packets.push(*pid);
+                    continue;
+                }
+                if !*dup && topic_alias_max > 0 && can_add_topic_alias(&rv_packet, max_packet_size)
+                {
                     let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
                         topic_alias_max,
                         aliases_by_topic,
                         aliases_by_alias,
                         tick,
-                        &topic_name,
+                        &rv_packet.topic_name,
                     );
                     if alias > 0 {
-                        properties.topic_alias = Some(alias);
+                        rv_packet.properties.topic_alias = Some(alias);
                         if !is_new_mapping {
-                            topic_name = empty_topic_name().clone();
+                            rv_packet.topic_name = empty_topic_name().clone();
                         }
                     }
                 }
-                let rv_packet = Publish {
-                    dup: *dup,
-                    retain: packet.retain,
-                    qos_pid,
-                    topic_name,
-                    payload: packet.payload.clone(),
-                    properties,
-                };
                 *dup = true;
                 *last_sent = now_ts;
                 packets.push(rv_packet.into());
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index c52cfbd..e6c43cf 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -19,7 +19,10 @@ use crate::config::SharedSubscriptionMode;
 use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
 use crate::state::{GlobalState, NormalMessage};
 
-use super::common::{build_error_disconnect, empty_topic_name, get_or_assign_server_topic_alias};
+use super::common::{
+    build_error_disconnect, can_add_topic_alias, empty_topic_name,
+    get_or_assign_server_topic_alias, is_too_large,
+};
 use super::{PubPacket, Session};
 
 #[inline]
@@ -298,7 +301,6 @@ pub(crate) struct RecvPublish<'a> {
     pub subscription_ids: SubscriptionIds<'a>,
     // [MQTTv5.0-3.8.4] keyword: downgraded
     pub subscribe_qos: QoS,
-    pub encode_len: usize,
 }
 
 #[derive(Debug)]
@@ -462,58 +464,53 @@ pub(crate) fn recv_publish(
     }
 
     let final_qos = cmp::min(msg.qos, msg.subscribe_qos);
+    let mut publish = Publish {
+        dup: false,
+        qos_pid: match final_qos {
+            QoS::Level0 => QosPid::Level0,
+            QoS::Level1 => QosPid::Level1(Default::default()),
+            QoS::Level2 => QosPid::Level2(Default::default()),
+        },
+        retain: msg.retain,
+        topic_name: msg.topic_name.clone(),
+        payload: msg.payload.clone(),
+        properties,
+    };
+    if is_too_large(&publish, session.max_packet_size) {
+        return None;
+    }
     if final_qos != QoS::Level0 {
-        if msg.encode_len > session.max_packet_size as usize {
-            return None;
-        }
         let pid = session.incr_server_packet_id();
         session.pending_packets.clean_complete();
         // TODO: proper handle this error
         let _is_full = session.pending_packets.push_back(
             pid,
             PubPacket {
-                topic_name: msg.topic_name.clone(),
+                topic_name: publish.topic_name,
                 qos: final_qos,
-                retain: msg.retain,
-                payload: msg.payload.clone(),
-                properties,
+                retain: publish.retain,
+                payload: publish.payload,
+                properties: publish.properties,
             },
         );
         Some((final_qos, None))
     } else if !session.client_disconnected && !session.server_disconnected {
-        let encode_len = if msg.qos > QoS::Level0 {
-            msg.encode_len - 2
-        } else {
-            msg.encode_len
-        };
-        if encode_len > session.max_packet_size as usize {
-            return None;
-        }
-        let mut topic_name = msg.topic_name.clone();
-        if session.topic_alias_max > 0 {
+        if session.topic_alias_max > 0 && can_add_topic_alias(&publish, session.max_packet_size) {
             let (alias, is_new_mapping) = get_or_assign_server_topic_alias(
                 session.topic_alias_max,
                 &mut session.server_topic_aliases_by_topic,
                 &mut session.server_topic_aliases_by_alias,
                 &mut session.server_alias_tick,
-                &topic_name,
+                &publish.topic_name,
             );
             if alias > 0 {
-                properties.topic_alias = Some(alias);
+                publish.properties.topic_alias = Some(alias);
                 if !is_new_mapping {
-                    topic_name = empty_topic_name().clone();
+                    publish.topic_name = empty_topic_name().clone();
                 }
             }
         }
-        let rv_packet = Publish {
-            dup: false,
-            qos_pid: QosPid::Level0,
-            retain: msg.retain,
-            topic_name,
-            payload: msg.payload.clone(),
-            properties,
-        };
-        Some((final_qos, Some(rv_packet.into())))
+        Some((final_qos, Some(publish.into())))
     } else {
         None
     }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index 9d70bcf..710a68b 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -94,12 +94,6 @@ packet id : {}
                         if let Some(properties) = properties.as_mut() {
                             properties.message_expiry_interval = message_expiry_interval;
                         }
-                        let encode_len = if msg.properties.is_none() {
-                            // one byte for property length
-                            msg.encode_len + 1
-                        } else {
-                            msg.encode_len
-                        };
                         let retain = sub_opts.retain_as_published;
                         if let Some((final_qos, packet_opt)) = recv_publish(
                             session,
@@ -111,7 +105,6 @@ packet id : {}
                                 subscription_ids: SubscriptionIds::Lookup(filter),
                                 subscribe_qos: granted_qos,
                                 properties: properties.as_ref(),
-                                encode_len,
                             },
                         ) {
                             if let Some(packet) = packet_opt {
-- 
2.43.0


From 289c7a2fe64806a9d9d4524d5381c01084704bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 26/38] fix: messages queued behind expired ones are sent
 without waiting for the next event

---
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index 546e802..ee778e6 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -254,7 +254,8 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
         pending_packets.complete(*pid, QoS::Level1);
     }
     if !expired_packets.is_empty() {
-        pending_packets.clean_complete();
+        // Packets behind the expired ones may be sent now
+        packets.extend(handle_pendings(session));
     }
     packets
 }
-- 
2.43.0


From b86c58a05e3b211f33e336c264985529865e9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 27/38] fix: a repeated PUBREC is answered with a successful
 PUBREL

---
 akasa-core/src/protocols/mqtt/pending.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/pending.rs b/akasa-core/src/protocols/mqtt/pending.rs
index a3986b3..3cd0399 100644
--- a/akasa-core/src/protocols/mqtt/pending.rs
+++ b/akasa-core/src/protocols/mqtt/pending.rs
@@ -61,7 +61,12 @@ impl<P: Debug> PendingPackets<P> {
                         return true;
                     }
                 }
-                PendingPacketStatus::Pubrec { .. } => {}
+                // a duplicate PUBREC
+                PendingPacketStatus::Pubrec { pid, .. } => {
+                    if *pid == target_pid {
+                        return true;
+                    }
+                }
                 PendingPacketStatus::Complete => {}
             }
         }
-- 
2.43.0


From 60f56d14f292484787836705dfbb145d783cf3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:22 +0000
Subject: [PATCH 28/38] fix: a connection that takes over a client without
 persistent session does not continue its session

---
 akasa-core/src/protocols/mqtt/v3/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs | 4 +++-
 akasa-core/src/protocols/mqtt/v3/session.rs        | 1 +
 akasa-core/src/protocols/mqtt/v5/message.rs        | 1 +
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs | 4 +++-
 akasa-core/src/protocols/mqtt/v5/session.rs        | 1 +
 6 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 88fdf45..2bcaefe 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -236,6 +236,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            clean_session: self.clean_session,
 
             server_packet_id: self.server_packet_id,
             pending_packets,
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 7db54d0..d22a73d 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -117,7 +117,9 @@ clean session : {}
             // The old session ends here, nothing of it (like routes or messages in
             // the channel) is part of the new session.
             AddClientReceipt::PresentV3(old_state)
-                if session.clean_session || session.protocol != old_state.protocol =>
+                if session.clean_session
+                    || old_state.clean_session
+                    || session.protocol != old_state.protocol =>
             {
                 log::info!(
                     "{} session state removed due to reconnect with a different protocol version, new: {}, old: {}, or clean session: {}",
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index f929877..804979e 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -43,6 +43,7 @@ pub struct SessionState {
     pub client_id: ClientId,
     pub protocol: Protocol,
     pub receiver: ClientReceiver,
+    pub clean_session: bool,
 
     // For record packet id send from server to client
     pub server_packet_id: Pid,
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index b602f1c..1d69b60 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -376,6 +376,7 @@ impl OnlineSession for Session {
             client_id: self.client_id,
             receiver,
             protocol: self.protocol,
+            session_expiry_interval: self.session_expiry_interval,
 
             server_packet_id: self.server_packet_id,
             pending_packets,
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 4f3c320..a5cf513 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -242,7 +242,9 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             // The old session ends here, nothing of it (like routes or messages in
             // the channel) is part of the new session.
             AddClientReceipt::PresentV5(old_state)
-                if session.clean_start || session.protocol != old_state.protocol =>
+                if session.clean_start
+                    || old_state.session_expiry_interval == 0
+                    || session.protocol != old_state.protocol =>
             {
                 log::info!(
                     "{} session state removed due to reconnect with a different protocol version, new: {}, old: {}, or clean start: {}",
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 41005cd..7fca05f 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -77,6 +77,7 @@ pub struct Session {
 pub struct SessionState {
     pub client_id: ClientId,
     pub receiver: ClientReceiver,
+    pub session_expiry_interval: u32,
     pub protocol: Protocol,
 
     // For record packet id send from server to client
-- 
2.43.0


From 05c0aaf0c680aa83cf6410d8f5922991ab8b59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 29/38] fix: packets sent before the online loop runs are
 flushed through TLS and WebSocket buffers

---
 akasa-core/src/protocols/mqtt/v3/packet/common.rs | 4 +++-
 akasa-core/src/protocols/mqtt/v5/packet/common.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/common.rs b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
index 4329f8d..1046a43 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
@@ -5,7 +5,7 @@ use mqtt_proto::{
     QoS, QosPid,
     v3::{Packet, Publish},
 };
-use tokio::io::AsyncWrite;
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 
 use crate::protocols::mqtt::{PendingPacketStatus, get_unix_ts};
 use crate::state::ClientId;
@@ -67,6 +67,8 @@ pub(crate) async fn write_packet<T: AsyncWrite + Unpin>(
 ) -> io::Result<()> {
     log::debug!("write to {}: {:?}", client_id, packet);
     packet.encode_async(conn).await?;
+    // A TLS or WebSocket connection may have buffered (part of) the packet
+    conn.flush().await?;
     log::debug!("write to {}: {:?} FINISHED!!!", client_id, packet);
     Ok(())
 }
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/common.rs b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
index ee778e6..035d83a 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/common.rs
@@ -11,7 +11,7 @@ use mqtt_proto::{
         DisconnectReasonCode, ErrorV5, Packet, Publish, Pubrel, PubrelProperties, PubrelReasonCode,
     },
 };
-use tokio::io::AsyncWrite;
+use tokio::io::{AsyncWrite, AsyncWriteExt};
 
 use crate::protocols::mqtt::{PendingPacketStatus, get_unix_ts};
 use crate::state::ClientId;
@@ -271,5 +271,7 @@ pub(crate) async fn write_packet<T: AsyncWrite + Unpin>(
         ErrorV5::Common(err) => io::Error::from(err),
         _ => io::ErrorKind::InvalidData.into(),
     })?;
+    // A TLS or WebSocket connection may have buffered (part of) the packet
+    conn.flush().await?;
     Ok(())
 }
-- 
2.43.0


From 936810f159ba9d122552195322d777a72f9b512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:23 +0000
Subject: [PATCH 30/38] fix: what a partial write left over is written without
 waiting for the next event

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index 2b7e6c2..b00cdac 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -427,14 +427,16 @@ where
             }
 
             match Pin::new(&mut *conn).poll_write(cx, &data_all[data_idx..]) {
+                Poll::Ready(Ok(0)) => return Poll::Ready(Some(io::ErrorKind::WriteZero.into())),
                 Poll::Ready(Ok(size)) => {
                     log::trace!("[{}] write {} bytes data", current_client_id, size);
                     have_write = true;
                     data_idx += size;
                     if data_idx < data_all.len() {
+                        // Go on until the connection is pending, or nothing wakes this task
+                        // up when the rest can be written
                         write_packets
                             .push_front(WritePacket::Data((VarBytes::Dynamic(data_all), data_idx)));
-                        break;
                     }
                 }
                 Poll::Ready(Err(err)) => return Poll::Ready(Some(err)),
-- 
2.43.0


From 9026769874a61892c42d90e9b2846235eb0e4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 31/38] fix: the will is sent after a DISCONNECT with a reason
 code other than normal disconnection

---
 akasa-core/src/protocols/mqtt/v5/message.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 1d69b60..2e92bf1 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -321,10 +321,10 @@ async fn handle_online<
         session.server_disconnected,
     );
     // FIXME: check all place depend on session.disconnected
-    if !session.client_disconnected {
-        if let Err(err) = handle_will(&mut session, global).await {
-            log::warn!("[{}] send will failed: {}", session.client_id, err);
-        }
+    // A DISCONNECT packet with reason code 0x00 already removed the will, with any
+    // other reason code the will must be sent.
+    if let Err(err) = handle_will(&mut session, global).await {
+        log::warn!("[{}] send will failed: {}", session.client_id, err);
     }
     if session.session_expiry_interval == 0 {
         spawn_send_broadcasts(
-- 
2.43.0


From 6b184187df469637d579a65b3fd150323ee1d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:01 +0000
Subject: [PATCH 32/38] fix: taking over a client sends the will its old
 connection or session left

---
 akasa-core/src/protocols/mqtt/v3/message.rs    |  3 ++-
 .../src/protocols/mqtt/v3/packet/connect.rs    | 13 +++++++++++++
 akasa-core/src/protocols/mqtt/v3/session.rs    |  1 +
 akasa-core/src/protocols/mqtt/v5/message.rs    |  3 ++-
 .../src/protocols/mqtt/v5/packet/connect.rs    | 18 ++++++++++++++++++
 akasa-core/src/protocols/mqtt/v5/session.rs    |  1 +
 6 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 2bcaefe..0b66a74 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -237,6 +237,7 @@ impl OnlineSession for Session {
             receiver,
             protocol: self.protocol,
             clean_session: self.clean_session,
+            last_will: self.last_will.take(),
 
             server_packet_id: self.server_packet_id,
             pending_packets,
@@ -507,7 +508,7 @@ async fn handle_offline(mut session: Session, receiver: ClientReceiver, global:
 }
 
 #[inline]
-async fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
+pub(crate) async fn handle_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
     if let Some(last_will) = session.last_will.take() {
         let encode_len = {
             let qos_pid = match last_will.qos {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index d22a73d..77d692d 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -11,6 +11,7 @@ use tokio::io::AsyncWrite;
 use crate::protocols::mqtt::{check_password, spawn_send_broadcasts, start_keep_alive_timer};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
+use super::super::message::handle_will;
 use super::Session;
 use super::common::write_packet;
 
@@ -109,6 +110,7 @@ clean session : {}
     }
 
     let mut session_present = false;
+    let mut old_wills = Vec::new();
     let receipt = loop {
         match global
             .add_client(&session.client_identifier, session.protocol)
@@ -130,6 +132,7 @@ clean session : {}
                 );
                 global.remove_client(old_state.client_id, old_state.subscribes.keys());
                 spawn_send_broadcasts(old_state.client_id, old_state.broadcast_packets);
+                old_wills.extend(old_state.last_will);
             }
             receipt => break receipt,
         }
@@ -146,6 +149,7 @@ clean session : {}
             session.pending_packets.reset_last_sent();
             session.qos2_pids = old_state.qos2_pids;
             session.subscribes = old_state.subscribes;
+            old_wills.extend(old_state.last_will);
             session_present = true;
         }
         // not allowed, so this is dead branch.
@@ -160,6 +164,15 @@ clean session : {}
         }
     }
 
+    // The session (or connection) that was taken over left a will to be sent
+    for old_will in old_wills {
+        let will = session.last_will.replace(old_will);
+        if let Err(err) = handle_will(session, global).await {
+            log::warn!("[{}] send old will failed: {}", session.client_id, err);
+        }
+        session.last_will = will;
+    }
+
     // FIXME: early return after add_client will cause memory leak
 
     start_keep_alive_timer(
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index 804979e..9a7b45c 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -44,6 +44,7 @@ pub struct SessionState {
     pub protocol: Protocol,
     pub receiver: ClientReceiver,
     pub clean_session: bool,
+    pub last_will: Option<LastWill>,
 
     // For record packet id send from server to client
     pub server_packet_id: Pid,
diff --git a/akasa-core/src/protocols/mqtt/v5/message.rs b/akasa-core/src/protocols/mqtt/v5/message.rs
index 2e92bf1..98c178a 100644
--- a/akasa-core/src/protocols/mqtt/v5/message.rs
+++ b/akasa-core/src/protocols/mqtt/v5/message.rs
@@ -377,6 +377,7 @@ impl OnlineSession for Session {
             receiver,
             protocol: self.protocol,
             session_expiry_interval: self.session_expiry_interval,
+            last_will: self.last_will.take(),
 
             server_packet_id: self.server_packet_id,
             pending_packets,
@@ -918,7 +919,7 @@ fn handle_normal(
 
 // TODO: change to broadcast_will
 #[inline]
-fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
+pub(crate) fn send_will(session: &mut Session, global: &Arc<GlobalState>) -> io::Result<()> {
     if let Some(last_will) = session.last_will.take() {
         log::debug!("[{}] send will", session.client_id);
         let properties = last_will.properties;
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index a5cf513..8c65576 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -19,6 +19,7 @@ use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 use super::common::{build_error_connack, build_error_disconnect, write_packet};
 use crate::protocols::scram::AuthenticationStatus;
 
+use super::super::message::send_will;
 use super::{ScramStage, Session};
 
 pub(crate) async fn handle_connect<T: AsyncWrite + Unpin>(
@@ -234,6 +235,7 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
     global: &Arc<GlobalState>,
 ) -> io::Result<bool> {
     let mut session_present = false;
+    let mut old_wills = Vec::new();
     let receipt = loop {
         match global
             .add_client(&session.client_identifier, session.protocol)
@@ -255,6 +257,7 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
                 );
                 global.remove_client(old_state.client_id, old_state.subscribes.keys());
                 spawn_send_broadcasts(old_state.client_id, old_state.broadcast_packets);
+                old_wills.extend(old_state.last_will);
             }
             receipt => break receipt,
         }
@@ -273,6 +276,12 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
             session.pending_packets.reset_last_sent();
             session.qos2_pids = old_state.qos2_pids;
             session.subscribes = old_state.subscribes;
+            // The session goes on before the delay (if any) has passed
+            old_wills.extend(
+                old_state
+                    .last_will
+                    .filter(|will| will.properties.delay_interval.unwrap_or(0) == 0),
+            );
             session_present = true;
         }
         AddClientReceipt::New {
@@ -285,6 +294,15 @@ pub(crate) async fn session_connect<T: AsyncWrite + Unpin>(
         }
     }
 
+    // The session (or connection) that was taken over left a will to be sent
+    for old_will in old_wills {
+        let will = session.last_will.replace(old_will);
+        if let Err(err) = send_will(session, global) {
+            log::warn!("[{}] send old will failed: {}", session.client_id, err);
+        }
+        session.last_will = will;
+    }
+
     session
         .pending_packets
         .set_max_inflight(session.receive_max);
diff --git a/akasa-core/src/protocols/mqtt/v5/session.rs b/akasa-core/src/protocols/mqtt/v5/session.rs
index 7fca05f..02cddd0 100644
--- a/akasa-core/src/protocols/mqtt/v5/session.rs
+++ b/akasa-core/src/protocols/mqtt/v5/session.rs
@@ -79,6 +79,7 @@ pub struct SessionState {
     pub receiver: ClientReceiver,
     pub session_expiry_interval: u32,
     pub protocol: Protocol,
+    pub last_will: Option<LastWill>,
 
     // For record packet id send from server to client
     pub server_packet_id: Pid,
-- 
2.43.0


From f9b53c030ba264739493d366cb5767effcf5769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 33/38] fix: expired messages queued for v3.x clients are not
 delivered

---
 akasa-core/src/protocols/mqtt/v3/message.rs   |  4 +++-
 .../src/protocols/mqtt/v3/packet/common.rs    | 21 +++++++++++++++++--
 .../src/protocols/mqtt/v3/packet/publish.rs   |  2 ++
 .../src/protocols/mqtt/v3/packet/subscribe.rs |  5 +++--
 akasa-core/src/protocols/mqtt/v3/session.rs   |  2 ++
 5 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 0b66a74..0fada29 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -623,6 +623,7 @@ fn handle_normal(
                     payload,
                     subscribe_filter,
                     subscribe_qos,
+                    message_expiry_interval: None,
                 },
             )
         }
@@ -633,7 +634,7 @@ fn handle_normal(
             ref payload,
             ref subscribe_filters,
             subscribe_qos,
-            properties: _,
+            ref properties,
             encode_len: _,
         } => {
             log::debug!(
@@ -654,6 +655,7 @@ fn handle_normal(
                         .iter()
                         .find(|filter| session.subscribes.contains_key(*filter))?,
                     subscribe_qos,
+                    message_expiry_interval: properties.message_expiry_interval,
                 },
             )
         }
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/common.rs b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
index 1046a43..58263e8 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/common.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/common.rs
@@ -22,17 +22,26 @@ pub(crate) fn after_handle_packet(session: &mut Session) -> Vec<Packet> {
 pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
     session.pending_packets.clean_complete();
     let mut packets = Vec::new();
+    let mut expired_packets = Vec::new();
     let mut start_idx = 0;
     while let Some((idx, packet_status)) = session.pending_packets.get_ready_packet(start_idx) {
         start_idx = idx + 1;
         match packet_status {
             PendingPacketStatus::New {
+                added_at,
                 last_sent,
                 dup,
                 pid,
                 packet,
-                ..
             } => {
+                let now_ts = get_unix_ts();
+                if !*dup
+                    && let Some(value) = packet.message_expiry_interval
+                    && now_ts.saturating_sub(*added_at) >= value as u64
+                {
+                    expired_packets.push(*pid);
+                    continue;
+                }
                 let qos_pid = match packet.qos {
                     QoS::Level0 => QosPid::Level0,
                     QoS::Level1 => QosPid::Level1(*pid),
@@ -46,7 +55,7 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
                     payload: packet.payload.clone(),
                 };
                 *dup = true;
-                *last_sent = get_unix_ts();
+                *last_sent = now_ts;
                 packets.push(rv_packet.into());
             }
             PendingPacketStatus::Pubrec { pid, last_sent, .. } => {
@@ -56,6 +65,14 @@ pub(crate) fn handle_pendings(session: &mut Session) -> Vec<Packet> {
             PendingPacketStatus::Complete => unreachable!(),
         }
     }
+    for pid in &expired_packets {
+        // A QoS2 message not sent yet is treated as a QoS1 message here
+        session.pending_packets.complete(*pid, QoS::Level1);
+    }
+    if !expired_packets.is_empty() {
+        // Packets behind the expired ones may be sent now
+        packets.extend(handle_pendings(session));
+    }
     packets
 }
 
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index e06e2fb..b3148d4 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -163,6 +163,7 @@ pub(crate) struct RecvPublish<'a> {
     pub payload: &'a Bytes,
     pub subscribe_filter: &'a TopicFilter,
     pub subscribe_qos: QoS,
+    pub message_expiry_interval: Option<u32>,
 }
 
 // Received a publish message from client or will, then publish the message to matched clients
@@ -279,6 +280,7 @@ pub(crate) fn recv_publish(
                 qos: final_qos,
                 retain: msg.retain,
                 payload: msg.payload.clone(),
+                message_expiry_interval: msg.message_expiry_interval,
             },
         ) {
             // TODO: pending messages queue is full
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 394629d..e8d42b4 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -42,9 +42,9 @@ packet id : {}
 
         let mut process_pendings = false;
         for msg in global.retain_table.get_matches(filter) {
-            if msg.rest_expiry_interval().is_err() {
+            let Ok(message_expiry_interval) = msg.rest_expiry_interval() else {
                 continue;
-            }
+            };
             if let Some((final_qos, packet_opt)) = recv_publish(
                 session,
                 RecvPublish {
@@ -54,6 +54,7 @@ packet id : {}
                     payload: &msg.payload,
                     subscribe_filter: filter,
                     subscribe_qos: granted_qos,
+                    message_expiry_interval,
                 },
             ) {
                 if let Some(packet) = packet_opt {
diff --git a/akasa-core/src/protocols/mqtt/v3/session.rs b/akasa-core/src/protocols/mqtt/v3/session.rs
index 9a7b45c..11135a2 100644
--- a/akasa-core/src/protocols/mqtt/v3/session.rs
+++ b/akasa-core/src/protocols/mqtt/v3/session.rs
@@ -103,4 +103,6 @@ pub struct PubPacket {
     pub qos: QoS,
     pub retain: bool,
     pub payload: Bytes,
+    // When the message is published by a v5.x client
+    pub message_expiry_interval: Option<u32>,
 }
-- 
2.43.0


From 14f3451df8b39c4ed3af9b1cba844e463c125817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 34/38] fix: a topic with very many levels overflows the stack

The route and retain tables recurse once for each level of a topic, and so
does dropping their nodes. A single packet with a topic of some ten thousand
levels aborted the whole process.
---
 akasa-core/src/protocols/mqtt/common.rs              |  9 +++++++++
 akasa-core/src/protocols/mqtt/mod.rs                 |  4 +++-
 akasa-core/src/protocols/mqtt/v3/packet/connect.rs   |  6 ++++--
 akasa-core/src/protocols/mqtt/v3/packet/publish.rs   |  4 ++--
 akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs |  8 +++++++-
 akasa-core/src/protocols/mqtt/v5/packet/connect.rs   |  9 ++++++++-
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs   | 11 ++++++++++-
 akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs |  3 +++
 8 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/akasa-core/src/protocols/mqtt/common.rs b/akasa-core/src/protocols/mqtt/common.rs
index 86495a8..510b254 100644
--- a/akasa-core/src/protocols/mqtt/common.rs
+++ b/akasa-core/src/protocols/mqtt/common.rs
@@ -7,12 +7,21 @@ use std::time::{Duration, Instant};
 
 use futures_sink::Sink;
 use hashbrown::HashMap;
+use mqtt_proto::LEVEL_SEP;
 use parking_lot::RwLock;
 
 use crate::state::{ClientId, ControlMessage, GlobalState};
 
 use super::BroadcastPackets;
 
+/// The route and retain tables recurse once for each level of a topic.
+const MAX_TOPIC_LEVELS: usize = 200;
+
+/// If the topic name or topic filter has more levels than the broker supports.
+pub(crate) fn has_too_many_levels(topic: &str) -> bool {
+    topic.split(LEVEL_SEP).count() > MAX_TOPIC_LEVELS
+}
+
 /// Send the messages a closed connection still has queued for other clients.
 ///
 /// It is safe to drop the future at any point: what is not sent yet stays in
diff --git a/akasa-core/src/protocols/mqtt/mod.rs b/akasa-core/src/protocols/mqtt/mod.rs
index 6aa765a..e92f6cd 100644
--- a/akasa-core/src/protocols/mqtt/mod.rs
+++ b/akasa-core/src/protocols/mqtt/mod.rs
@@ -8,7 +8,9 @@ mod route;
 pub mod v3;
 pub mod v5;
 
-pub(crate) use common::{send_broadcasts, spawn_send_broadcasts, start_keep_alive_timer};
+pub(crate) use common::{
+    has_too_many_levels, send_broadcasts, spawn_send_broadcasts, start_keep_alive_timer,
+};
 pub(crate) use pending::get_unix_ts;
 
 pub use auth::{MIN_SALT_LEN, check_password, dump_passwords, hash_password, load_passwords};
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
index 77d692d..130d2c9 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/connect.rs
@@ -8,7 +8,9 @@ use mqtt_proto::{
 };
 use tokio::io::AsyncWrite;
 
-use crate::protocols::mqtt::{check_password, spawn_send_broadcasts, start_keep_alive_timer};
+use crate::protocols::mqtt::{
+    check_password, has_too_many_levels, spawn_send_broadcasts, start_keep_alive_timer,
+};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
 use super::super::message::handle_will;
@@ -103,7 +105,7 @@ clean session : {}
         if last_will.topic_name.is_empty() {
             return Err(io::ErrorKind::InvalidData.into());
         }
-        if last_will.topic_name.starts_with('$') {
+        if last_will.topic_name.starts_with('$') || has_too_many_levels(&last_will.topic_name) {
             return Err(io::ErrorKind::InvalidData.into());
         }
         session.last_will = Some(last_will);
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
index b3148d4..69414ea 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/publish.rs
@@ -13,7 +13,7 @@ use mqtt_proto::{
 use rand::RngExt;
 
 use crate::config::SharedSubscriptionMode;
-use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
+use crate::protocols::mqtt::{BroadcastPackets, RetainContent, has_too_many_levels};
 use crate::state::{GlobalState, NormalMessage};
 
 use super::{PubPacket, Session};
@@ -40,7 +40,7 @@ topic name : {}
         log::debug!("invalid empty topic name");
         return Err(io::ErrorKind::InvalidData.into());
     }
-    if packet.topic_name.starts_with('$') {
+    if packet.topic_name.starts_with('$') || has_too_many_levels(&packet.topic_name) {
         log::debug!("invalid topic name: {}", packet.topic_name);
         return Err(io::ErrorKind::InvalidData.into());
     }
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index e8d42b4..4e619f7 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -4,9 +4,10 @@ use std::sync::Arc;
 
 use mqtt_proto::{
     QoS,
-    v3::{Packet, Suback, Subscribe, Unsubscribe},
+    v3::{Packet, Suback, Subscribe, SubscribeReturnCode, Unsubscribe},
 };
 
+use crate::protocols::mqtt::has_too_many_levels;
 use crate::state::GlobalState;
 
 use super::Session;
@@ -34,6 +35,11 @@ packet id : {}
             log::info!("mqtt v3.x don't support shared subscription");
             return Err(io::ErrorKind::InvalidData.into());
         }
+        if has_too_many_levels(filter) {
+            log::info!("the topic filter has too many levels");
+            return_codes.push(SubscribeReturnCode::Failure);
+            continue;
+        }
         let granted_qos = cmp::min(*qos, global.config.max_allowed_qos());
         session.subscribes.insert(filter.clone(), granted_qos);
         global
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
index 8c65576..d0f4e11 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/connect.rs
@@ -13,7 +13,9 @@ use mqtt_proto::{
 use tokio::io::AsyncWrite;
 
 use crate::config::SaslMechanism;
-use crate::protocols::mqtt::{check_password, spawn_send_broadcasts, start_keep_alive_timer};
+use crate::protocols::mqtt::{
+    check_password, has_too_many_levels, spawn_send_broadcasts, start_keep_alive_timer,
+};
 use crate::state::{AddClientReceipt, ClientReceiver, GlobalState};
 
 use super::common::{build_error_connack, build_error_disconnect, write_packet};
@@ -155,6 +157,11 @@ pub(crate) async fn handle_connect<T: AsyncWrite + Unpin>(
             // FIXME: send error connack
             return Err(io::ErrorKind::InvalidData.into());
         }
+        if has_too_many_levels(&last_will.topic_name) {
+            log::warn!("will topic name has too many levels");
+            // FIXME: send error connack
+            return Err(io::ErrorKind::InvalidData.into());
+        }
         let reason_code = if last_will.retain && !global.config.retain_available {
             ConnectReasonCode::RetainNotSupported
         } else if last_will.qos > global.config.max_allowed_qos() {
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index e6c43cf..563fab2 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -16,7 +16,7 @@ use mqtt_proto::{
 use rand::RngExt;
 
 use crate::config::SharedSubscriptionMode;
-use crate::protocols::mqtt::{BroadcastPackets, RetainContent};
+use crate::protocols::mqtt::{BroadcastPackets, RetainContent, has_too_many_levels};
 use crate::state::{GlobalState, NormalMessage};
 
 use super::common::{
@@ -57,6 +57,15 @@ topic name : {}
         );
         return Err(err_pkt);
     }
+    if has_too_many_levels(&packet.topic_name) {
+        log::warn!("publish to topic name with too many levels is not allowed");
+        let err_pkt = build_error_disconnect(
+            session,
+            DisconnectReasonCode::TopicNameInvalid,
+            "publish to topic name with too many levels is not allowed",
+        );
+        return Err(err_pkt);
+    }
     if packet.qos_pid == QosPid::Level0 && packet.dup {
         log::debug!("invalid dup flag in qos0 message");
         let err_pkt = build_error_disconnect(
diff --git a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
index 710a68b..aac63c9 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs
@@ -9,6 +9,7 @@ use mqtt_proto::{
     },
 };
 
+use crate::protocols::mqtt::has_too_many_levels;
 use crate::state::GlobalState;
 
 use super::common::{build_error_disconnect, handle_pendings};
@@ -58,6 +59,8 @@ packet id : {}
                 && filter.contains([MATCH_ONE_CHAR, MATCH_ALL_CHAR])
             {
                 SubscribeReasonCode::WildcardSubscriptionsNotSupported
+            } else if has_too_many_levels(filter) {
+                SubscribeReasonCode::TopicFilterInvalid
             } else {
                 match granted_qos {
                     QoS::Level0 => SubscribeReasonCode::GrantedQoS0,
-- 
2.43.0


From 2c905988504e3e362ba2553ea30f4fdfbf56a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 35/38] fix: a v5 PUBLISH with a QoS above the announced
 maximum was accepted

---
 akasa-core/src/protocols/mqtt/v5/packet/publish.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
index 563fab2..a429451 100644
--- a/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
+++ b/akasa-core/src/protocols/mqtt/v5/packet/publish.rs
@@ -75,6 +75,15 @@ topic name : {}
         );
         return Err(err_pkt);
     }
+    if packet.qos_pid.qos() > global.config.max_allowed_qos() {
+        log::info!("qos is not supported: {:?}", packet.qos_pid.qos());
+        let err_pkt = build_error_disconnect(
+            session,
+            DisconnectReasonCode::QoSNotSupported,
+            "qos is not supported",
+        );
+        return Err(err_pkt);
+    }
 
     let properties = &mut packet.properties;
     let mut topic_name = packet.topic_name.clone();
-- 
2.43.0


From 56974fa5e1e20a30f71b3915f18758a82781901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 36/38] fix: retained messages were sent to v3.x subscribers
 with retain_available off

---
 akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index 4e619f7..bf9ce4c 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -47,7 +47,12 @@ packet id : {}
             .subscribe(filter, session.client_id, granted_qos);
 
         let mut process_pendings = false;
-        for msg in global.retain_table.get_matches(filter) {
+        let retained = if global.config.retain_available {
+            global.retain_table.get_matches(filter)
+        } else {
+            Vec::new()
+        };
+        for msg in retained {
             let Ok(message_expiry_interval) = msg.rest_expiry_interval() else {
                 continue;
             };
-- 
2.43.0


From 6db1a4cb5ce30966f26801743ec5866eb79362b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 37/38] fix: v3: a hook's subscribe action leaves no retained
 messages unsent in the queue

---
 akasa-core/src/hook.rs                               | 2 +-
 akasa-core/src/protocols/mqtt/v3/message.rs          | 5 +++--
 akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/akasa-core/src/hook.rs b/akasa-core/src/hook.rs
index 9eca654..10497de 100644
--- a/akasa-core/src/hook.rs
+++ b/akasa-core/src/hook.rs
@@ -722,7 +722,7 @@ pub async fn handle_request<H: Hook + Send + Sync>(
                 .await;
             let receipt = match result {
                 Ok(HookSubscribeCode::Success) => {
-                    match v3_handle_subscribe(session, &subscribe, &global) {
+                    match v3_handle_subscribe(session, &subscribe, true, &global) {
                         Ok(packets) => {
                             let mut codes = Vec::new();
                             for packet in packets {
diff --git a/akasa-core/src/protocols/mqtt/v3/message.rs b/akasa-core/src/protocols/mqtt/v3/message.rs
index 0fada29..08f3c10 100644
--- a/akasa-core/src/protocols/mqtt/v3/message.rs
+++ b/akasa-core/src/protocols/mqtt/v3/message.rs
@@ -325,7 +325,7 @@ impl OnlineSession for Session {
                     };
                     return Ok(Some(hook_request));
                 } else {
-                    let retain_packets = handle_subscribe(self, &pkt, global)?;
+                    let retain_packets = handle_subscribe(self, &pkt, true, global)?;
                     write_packets.extend(retain_packets.into_iter().map(WritePacket::Packet));
                 }
             }
@@ -400,7 +400,8 @@ impl OnlineSession for Session {
             }
             HookAction::Subscribe(SubscribeAction(topics)) => {
                 let subscribe = Subscribe::new(Pid::default(), topics.clone());
-                match handle_subscribe(self, &subscribe, global) {
+                // There is no reply that could carry retained messages
+                match handle_subscribe(self, &subscribe, false, global) {
                     Ok(packets) => match &packets[0] {
                         Packet::Suback(suback) => {
                             for reason_code in &suback.topics {
diff --git a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
index bf9ce4c..1ef7dff 100644
--- a/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
+++ b/akasa-core/src/protocols/mqtt/v3/packet/subscribe.rs
@@ -18,6 +18,7 @@ use super::publish::{RecvPublish, recv_publish};
 pub(crate) fn handle_subscribe(
     session: &mut Session,
     packet: &Subscribe,
+    send_retained: bool,
     global: &Arc<GlobalState>,
 ) -> io::Result<Vec<Packet>> {
     log::debug!(
@@ -47,7 +48,7 @@ packet id : {}
             .subscribe(filter, session.client_id, granted_qos);
 
         let mut process_pendings = false;
-        let retained = if global.config.retain_available {
+        let retained = if send_retained && global.config.retain_available {
             global.retain_table.get_matches(filter)
         } else {
             Vec::new()
-- 
2.43.0


From b2d7b87ce55a3ff0f8160551d9723d009627d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 38/38] fix: packets that wait for a hook one after another do
 not hold up what else the connection has to do

---
 akasa-core/src/protocols/mqtt/online_loop.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/akasa-core/src/protocols/mqtt/online_loop.rs b/akasa-core/src/protocols/mqtt/online_loop.rs
index b00cdac..2a63c9f 100644
--- a/akasa-core/src/protocols/mqtt/online_loop.rs
+++ b/akasa-core/src/protocols/mqtt/online_loop.rs
@@ -149,6 +149,7 @@ where
         let current_client_id = session.client_id();
         log::trace!("@@@@ [{}] poll()", current_client_id);
 
+        let mut hook_finished = false;
         if let Some(fut) = hook_fut.as_mut() {
             let actions = match fut.as_mut().poll(cx) {
                 Poll::Ready(resp) => {
@@ -167,6 +168,7 @@ where
                 }
             }
             session.after_handle_packet(write_packets);
+            hook_finished = true;
         }
 
         // Send SessionState to new connection (been taken over)
@@ -243,6 +245,13 @@ where
             if session.disconnected().is_some() {
                 break;
             }
+            if hook_finished {
+                // The next packet may wait for its hook again, so everything else must
+                // have its turn before it is read.
+                *read_unfinish = true;
+                cx.waker().wake_by_ref();
+                break;
+            }
             if too_much_write_data(write_packets, *write_packets_max)
                 || session.broadcast_packets_cnt() >= session.broadcast_packets_max()
             {
-- 
2.43.0

