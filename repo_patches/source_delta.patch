From 677e97be37a61f9f440d91aaef88db7fa4943729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 01/34] fix: reassemble packets from the TCP byte stream

A read from a TCP stream was treated as exactly one packet, so packets split
or joined by the network were lost, and end of stream was read forever.
---
 src/core/transport/wire/packet.rs | 13 ++++++
 src/core/transport/wire/tcp.rs    | 68 +++++++++++++++++++++++++------
 2 files changed, 69 insertions(+), 12 deletions(-)

diff --git a/src/core/transport/wire/packet.rs b/src/core/transport/wire/packet.rs
index c4732cb..e29dabf 100644
--- a/src/core/transport/wire/packet.rs
+++ b/src/core/transport/wire/packet.rs
@@ -155,6 +155,19 @@ impl Packet {
         serde_cbor::ser::to_vec_packed(&self)
     }
 
+    /// Looks for a complete packet at the front of the slice, returning the
+    /// total bytes occupied by the packet or none if more bytes are needed
+    pub fn size_from_slice(
+        slice: &[u8],
+    ) -> Result<Option<usize>, serde_cbor::Error> {
+        let mut deserializer = serde_cbor::Deserializer::from_slice(slice);
+        match Self::deserialize(&mut deserializer) {
+            Ok(_) => Ok(Some(deserializer.byte_offset())),
+            Err(x) if x.is_eof() => Ok(None),
+            Err(x) => Err(x),
+        }
+    }
+
     /// Deserializes the slice of bytes to a single packet
     pub fn from_slice(slice: &[u8]) -> Result<Self, serde_cbor::Error> {
         serde_cbor::from_slice(slice)
diff --git a/src/core/transport/wire/tcp.rs b/src/core/transport/wire/tcp.rs
index a6c2355..cbc9e54 100644
--- a/src/core/transport/wire/tcp.rs
+++ b/src/core/transport/wire/tcp.rs
@@ -1,6 +1,7 @@
 use super::{
-    auth, crypto, Authenticator, Bicrypter, Decrypter, Encrypter, InboundWire,
-    InboundWireError, OutboundWire, OutboundWireError, Signer, Verifier, Wire,
+    auth, crypto, packet::Packet, Authenticator, Bicrypter, Decrypter,
+    Encrypter, InboundWire, InboundWireError, OutboundWire, OutboundWireError,
+    Signer, Verifier, Wire,
 };
 use std::net::SocketAddr;
 use tokio::{
@@ -86,6 +87,10 @@ where
     inbound_wire: InboundWire<V, D>,
     stream: ReadHalf<TcpStream>,
     remote_addr: SocketAddr,
+
+    /// Bytes received from the stream that are not yet processed; a stream
+    /// has no boundaries, so this can hold part of a packet or many packets
+    buffer: Vec<u8>,
 }
 
 impl<V, D> TcpStreamInboundWire<V, D>
@@ -102,22 +107,61 @@ where
             inbound_wire,
             stream,
             remote_addr,
+            buffer: Vec::new(),
         }
     }
 
     pub async fn read(
         &mut self,
     ) -> Result<(Option<Vec<u8>>, SocketAddr), InboundWireError> {
-        let mut buf =
-            vec![0; self.inbound_wire.transmission_size()].into_boxed_slice();
-        let size = self
-            .stream
-            .read(&mut buf)
-            .await
-            .map_err(InboundWireError::IO)?;
-        let data = self.inbound_wire.process(&buf[..size])?;
-
-        Ok((data, self.remote_addr))
+        loop {
+            if let Some(size) = self.next_packet_size() {
+                let bytes = self.buffer.drain(..size).collect::<Vec<u8>>();
+                let data = self.inbound_wire.process(&bytes)?;
+
+                return Ok((data, self.remote_addr));
+            }
+
+            let mut buf = vec![0; self.inbound_wire.transmission_size()]
+                .into_boxed_slice();
+            let size = self
+                .stream
+                .read(&mut buf)
+                .await
+                .map_err(InboundWireError::IO)?;
+            if size == 0 {
+                return Err(InboundWireError::IO(
+                    io::ErrorKind::UnexpectedEof.into(),
+                ));
+            }
+            self.buffer.extend_from_slice(&buf[..size]);
+        }
+    }
+
+    /// Determines how many bytes at the front of the buffer should be
+    /// processed next: either a whole packet or bytes that cannot be the
+    /// start of one, which stop where the next packet could begin. Yields
+    /// none if more bytes are needed from the stream.
+    fn next_packet_size(&self) -> Option<usize> {
+        for start in 0..self.buffer.len() {
+            let slice = &self.buffer[start..];
+            match Packet::size_from_slice(slice) {
+                Ok(Some(size)) if start == 0 => return Some(size),
+                Ok(Some(_)) => return Some(start),
+                Ok(None)
+                    if slice.len() < self.inbound_wire.transmission_size() =>
+                {
+                    return if start == 0 { None } else { Some(start) };
+                }
+                _ => continue,
+            }
+        }
+
+        if self.buffer.is_empty() {
+            None
+        } else {
+            Some(self.buffer.len())
+        }
     }
 }
 
-- 
2.43.0


From 14ed790f5960da6ebd5b02fd72db5cd192e02807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 02/34] fix: write whole packets to TCP streams

A partial write dropped the rest of the packet and of the message.
---
 src/core/transport/wire/tcp.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/transport/wire/tcp.rs b/src/core/transport/wire/tcp.rs
index cbc9e54..0f043e0 100644
--- a/src/core/transport/wire/tcp.rs
+++ b/src/core/transport/wire/tcp.rs
@@ -193,14 +193,10 @@ where
         let data = self.outbound_wire.process(buf)?;
 
         for packet_bytes in data.iter() {
-            let size = self
-                .stream
-                .write(packet_bytes)
+            self.stream
+                .write_all(packet_bytes)
                 .await
                 .map_err(OutboundWireError::IO)?;
-            if size < packet_bytes.len() {
-                return Err(OutboundWireError::IncompleteSend);
-            }
         }
 
         Ok(())
-- 
2.43.0


From 5223580eebf1aa9d39c591da1eeccea44fdbdb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 03/34] fix: release a TCP connection once its stream closes

Waiting on an event manager kept the sender that the outbound loop waits for,
so neither ever finished and closed connections stayed in the server.
---
 src/core/event/mod.rs | 22 ++++++++++++++++++++--
 src/core/event/tcp.rs | 28 +++++++++++++++++-----------
 2 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index 5e6b539..f6b9825 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -20,7 +20,16 @@ impl EventManager {
     }
 
     pub async fn wait(self) -> Result<(), task::JoinError> {
-        tokio::try_join!(self.inbound_handle, self.outbound_handle).map(|_| ())
+        let Self {
+            inbound_handle,
+            outbound_handle,
+            tx,
+        } = self;
+
+        // Outbound processing does not end while there is a sender
+        drop(tx);
+
+        tokio::try_join!(inbound_handle, outbound_handle).map(|_| ())
     }
 }
 
@@ -40,7 +49,16 @@ impl AddrEventManager {
     }
 
     pub async fn wait(self) -> Result<(), task::JoinError> {
-        tokio::try_join!(self.inbound_handle, self.outbound_handle).map(|_| ())
+        let Self {
+            inbound_handle,
+            outbound_handle,
+            tx,
+        } = self;
+
+        // Outbound processing does not end while there is a sender
+        drop(tx);
+
+        tokio::try_join!(inbound_handle, outbound_handle).map(|_| ())
     }
 }
 
diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index d8d7816..6508954 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -34,8 +34,9 @@ impl EventManager {
 
         let (tx, rx) = mpsc::channel::<Vec<u8>>(max_outbound_queue);
 
-        let inbound_handle = handle.spawn(tcp_stream_outbound_loop(rx, writer));
-        let outbound_handle = handle.spawn(tcp_stream_inbound_loop(
+        let outbound_handle =
+            handle.spawn(tcp_stream_outbound_loop(rx, writer));
+        let inbound_handle = handle.spawn(tcp_stream_inbound_loop(
             tx.clone(),
             reader,
             on_inbound_tx,
@@ -154,7 +155,11 @@ async fn tcp_listener_spawn_stream<A, B>(
     A: Authenticator + Send + Sync + 'static,
     B: Bicrypter + Send + Sync + 'static,
 {
-    let event_manager = EventManager::for_tcp_stream(
+    let EventManager {
+        inbound_handle,
+        outbound_handle,
+        tx,
+    } = EventManager::for_tcp_stream(
         handle,
         max_outbound_queue,
         stream,
@@ -163,18 +168,19 @@ async fn tcp_listener_spawn_stream<A, B>(
         on_inbound_tx,
     );
 
-    connections
-        .lock()
-        .await
-        .insert(addr, event_manager.tx.clone());
+    connections.lock().await.insert(addr, tx);
 
-    // Wait for the stream's event manager to exit,
-    // and remove the connection once it does
-    if let Err(x) = event_manager.wait().await {
-        error!("Event manager exited badly: {}", x);
+    // Wait for the stream to close and remove the connection once it does,
+    // which enables the outbound half to exit as it has no more senders
+    if let Err(x) = inbound_handle.await {
+        error!("Inbound processing exited badly: {}", x);
     }
 
     connections.lock().await.remove(&addr);
+
+    if let Err(x) = outbound_handle.await {
+        error!("Outbound processing exited badly: {}", x);
+    }
 }
 
 /// Loops continuously, reading outbound data and sending it out over the wire
-- 
2.43.0


From 1628bc885778e8912371ae9fb65e5645931c9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 04/34] fix: keep every packet within the transmission size

The data that fits was estimated from one random signature, whose serialized
size varies, so packets could exceed the datagram limit.
---
 src/core/transport/wire/output/encoder.rs | 53 +++++++++++++++--------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index 5bd8d70..5215ff1 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -107,24 +107,43 @@ impl Encoder {
             };
 
             // Ensure data section size does not exceed our remaining data
-            let data_size = std::cmp::min(data_size, remaining_data_size);
-
-            // Grab our chunk of data to store into a packet
-            let chunk = &data[i..i + data_size];
+            let mut data_size = std::cmp::min(data_size, remaining_data_size);
+
+            let packet = loop {
+                // Grab our chunk of data to store into a packet
+                let chunk = &data[i..i + data_size];
+
+                // Construct the packet based on whether or not is final
+                let packet = Self::make_new_packet(
+                    id,
+                    packets.len() as u32,
+                    if data_size == remaining_data_size {
+                        PacketType::Final { encryption }
+                    } else {
+                        PacketType::NotFinal
+                    },
+                    chunk,
+                    signer,
+                )
+                .map_err(|_| EncoderError::FailedToSignPacket)?;
+
+                // The serialized size of a signature depends on its content,
+                // so the packet can be larger than estimated; if so, carry
+                // less data and leave the rest to the packets after this one
+                let packet_size = packet
+                    .to_vec()
+                    .map_err(|_| EncoderError::FailedToEstimateDataSize)?
+                    .len();
+                if packet_size <= max_packet_size {
+                    break packet;
+                }
 
-            // Construct the packet based on whether or not is final
-            let packet = Self::make_new_packet(
-                id,
-                packets.len() as u32,
-                if can_fit_all_in_final_packet {
-                    PacketType::Final { encryption }
-                } else {
-                    PacketType::NotFinal
-                },
-                chunk,
-                signer,
-            )
-            .map_err(|_| EncoderError::FailedToSignPacket)?;
+                let overflow_size = packet_size - max_packet_size;
+                if overflow_size >= data_size {
+                    return Err(EncoderError::MaxPacketSizeTooSmall);
+                }
+                data_size -= overflow_size;
+            };
 
             // Store packet in our collection
             packets.push(packet);
-- 
2.43.0


From f4f6bb931c3bb11c5e6ad728c0476b45d376635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 05/34] fix: bound the packet size caches of the encoder

Both caches were keyed by the nonce of each message, so they grew with every
encrypted message and were never hit.
---
 src/core/transport/wire/output/encoder.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index 5215ff1..176dca2 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -1,5 +1,6 @@
 use crate::core::transport::{
     auth::Signer,
+    crypto::Nonce,
     wire::packet::{Metadata, Packet, PacketEncryption, PacketType},
 };
 use derive_more::{Display, Error};
@@ -180,6 +181,7 @@ impl Encoder {
         signer: &S,
     ) -> Result<usize, serde_cbor::Error> {
         // Calculate key to use for cache
+        let r#type = largest_type(r#type);
         let key = format!("{}{:?}", max_packet_size, r#type);
 
         // Check if we have a cached value and, if so, use it
@@ -244,6 +246,7 @@ impl Encoder {
         signer: &S,
     ) -> Result<usize, serde_cbor::Error> {
         // Calculate key to use for cache
+        let r#type = largest_type(r#type);
         let key = format!("{}{:?}", data_size, r#type);
 
         // Check if we have a cached value and, if so, use it
@@ -277,6 +280,26 @@ impl Encoder {
     }
 }
 
+/// Produces the packet type of the same form whose serialized size is largest,
+/// which does not depend on the nonce of a specific message
+fn largest_type(r#type: PacketType) -> PacketType {
+    match r#type {
+        PacketType::Final {
+            encryption: PacketEncryption::EncryptedWithNonce { nonce },
+        } => PacketType::Final {
+            encryption: PacketEncryption::from(match nonce {
+                Nonce::Nonce96Bits(_) => {
+                    Nonce::Nonce96Bits([u8::max_value(); 12])
+                }
+                Nonce::Nonce128Bits(_) => {
+                    Nonce::Nonce128Bits([u8::max_value(); 16])
+                }
+            }),
+        },
+        x => x,
+    }
+}
+
 impl Default for Encoder {
     fn default() -> Self {
         Self {
-- 
2.43.0


From dc8ea3f0dc76e682f8b6890624fd0b955ad5fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:53 +0000
Subject: [PATCH 06/34] fix: forget the callback of an ask that gets no
 response

An ask that timed out, failed to send or was cancelled left its callback in
the client for good, and waiting to send was not covered by the timeout.
---
 src/core/client/connected.rs | 41 ++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 739eb03..690f963 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -21,6 +21,7 @@ use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::{
+    runtime::Handle,
     sync::{oneshot, Mutex},
     task::{JoinError, JoinHandle},
 };
@@ -42,6 +43,28 @@ pub struct ConnectedClient {
     pub timeout: Duration,
 }
 
+/// Removes the callback of an ask when dropped, which covers an ask that times
+/// out, fails to be sent, or is cancelled before it gets a response
+struct CallbackGuard {
+    state: Arc<Mutex<ClientState>>,
+    id: u32,
+}
+
+impl Drop for CallbackGuard {
+    fn drop(&mut self) {
+        let id = self.id;
+
+        if let Ok(mut state) = self.state.try_lock() {
+            state.callback_manager.take_callback(id);
+        } else if let Ok(handle) = Handle::try_current() {
+            let state = Arc::clone(&self.state);
+            handle.spawn(async move {
+                state.lock().await.callback_manager.take_callback(id);
+            });
+        }
+    }
+}
+
 impl ConnectedClient {
     /// Default timeout applied to a new client for any ask made
     pub const DEFAULT_TIMEOUT: Duration = Duration::from_secs(5);
@@ -67,6 +90,12 @@ impl ConnectedClient {
         let (tx, rx) = oneshot::channel::<Result<Reply, AskError>>();
         let msg = Msg::from(request);
 
+        // Whatever the outcome, forget about the callback once finished
+        let _callback_guard = CallbackGuard {
+            state: Arc::clone(&self.state),
+            id: msg.header.id,
+        };
+
         // Assign a synchronous callback that uses the oneshot channel to
         // get back the result
         self.state.lock().await.callback_manager.add_callback(
@@ -88,12 +117,12 @@ impl ConnectedClient {
         );
 
         // Send the msg and report back an error if it occurs
-        self.send_msg(msg).await.map_err(AskError::from)?;
-
-        tokio::time::timeout(timeout, rx)
-            .await
-            .map_err(|_| AskError::Timeout)?
-            .map_err(|_| AskError::CallbackLost)?
+        tokio::time::timeout(timeout, async {
+            self.send_msg(msg).await.map_err(AskError::from)?;
+            rx.await.map_err(|_| AskError::CallbackLost)?
+        })
+        .await
+        .map_err(|_| AskError::Timeout)?
     }
 
     /// Sends a msg to the server, not expecting a response
-- 
2.43.0


From 1811a74039da65730ab562f7742e0a213f650dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 07/34] fix: keep UDP sockets in use after an IO error

One failed send or receive, such as a port unreachable notice, ended the loop
and left the client or server deaf or mute for good.
---
 src/core/event/mod.rs |  4 ++++
 src/core/event/udp.rs | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index f6b9825..b432fbe 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -6,8 +6,12 @@ use crate::core::Msg;
 use log::{error, trace, warn};
 use crate::core::transport::InboundWireError;
 use std::net::SocketAddr;
+use std::time::Duration;
 use tokio::{sync::mpsc, task};
 
+/// Time to wait before trying again after an IO error
+const IO_ERROR_DELAY: Duration = Duration::from_millis(10);
+
 pub struct EventManager {
     inbound_handle: task::JoinHandle<()>,
     outbound_handle: task::JoinHandle<()>,
diff --git a/src/core/event/udp.rs b/src/core/event/udp.rs
index fab8228..5a56838 100644
--- a/src/core/event/udp.rs
+++ b/src/core/event/udp.rs
@@ -3,11 +3,11 @@ use crate::core::Msg;
 
 use log::error;
 use crate::core::transport::{
-    Authenticator, Bicrypter, Decrypter, Encrypter, Signer,
+    Authenticator, Bicrypter, Decrypter, Encrypter, InboundWireError, Signer,
     UdpSocketInboundWire, UdpSocketOutboundWire, Verifier, Wire,
 };
 use std::net::SocketAddr;
-use tokio::{net::UdpSocket, runtime::Handle, sync::mpsc};
+use tokio::{net::UdpSocket, runtime::Handle, sync::mpsc, time};
 
 /// Implementation of AddrEventManager for UDP stream
 impl AddrEventManager {
@@ -93,7 +93,6 @@ async fn udp_socket_outbound_loop<S, E>(
     while let Some((msg, addr)) = rx.recv().await {
         if let Err(x) = writer.write_to(&msg, addr).await {
             error!("Failed to send: {}", x);
-            break;
         }
     }
 }
@@ -113,6 +112,16 @@ async fn udp_socket_inbound_loop<V, D>(
     loop {
         let tx_2 = tx.clone();
         let result = reader.read().await;
+
+        // NOTE: A datagram socket stays usable after an IO error, such as the
+        //       remote host being unreachable, so keep going after a pause
+        //       that avoids spinning if the error persists
+        if let Err(InboundWireError::IO(x)) = result {
+            error!("IO on wire: {}", x);
+            time::delay_for(super::IO_ERROR_DELAY).await;
+            continue;
+        }
+
         if !super::process_inbound(result, tx_2, on_inbound_tx.clone()).await {
             break;
         }
-- 
2.43.0


From 25b606291247aa7373b5ec519e5a7ae098ef3dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 08/34] fix: keep accepting TCP connections after a failed
 accept

A connection aborted before being accepted or a passing lack of file
descriptors stopped the server from accepting anyone again.
---
 src/core/event/tcp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index 6508954..f298ba2 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -13,6 +13,7 @@ use tokio::{
     net::{TcpListener, TcpStream},
     runtime::Handle,
     sync::{mpsc, Mutex},
+    time,
 };
 
 /// Implementation of EventManager for TCP stream
@@ -133,8 +134,10 @@ async fn tcp_listener_inbound_loop<A, B>(
                 ));
             }
             Err(x) => {
+                // NOTE: Errors like a connection being aborted early or having
+                //       no more file descriptors do not affect the listener
                 error!("Listening for connections encountered error: {}", x);
-                break;
+                time::delay_for(super::IO_ERROR_DELAY).await;
             }
         }
     }
-- 
2.43.0


From 663875b210ac12cbb2192048e118c409383288b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 09/34] fix: decrypt with the nonce of the final packet

The nonce was taken from whichever packet completed the message, so encrypted
messages whose packets arrived out of order could not be decrypted.
---
 src/core/transport/wire/input/decoder.rs | 11 ++++++++++-
 src/core/transport/wire/input/mod.rs     |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 9807414..36b8367 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -1,4 +1,4 @@
-use crate::core::transport::{constants, wire::packet::Packet};
+use crate::core::transport::{constants, crypto::Nonce, wire::packet::Packet};
 use crate::utils::TtlValue;
 use derive_more::{Display, Error};
 use std::collections::HashMap;
@@ -131,6 +131,15 @@ impl Decoder {
             .unwrap_or_default()
     }
 
+    /// Retrieves the nonce of a group, which comes with its final packet
+    pub fn nonce(&self, group_id: u32) -> Option<&Nonce> {
+        self.packet_groups.get(&group_id.into()).and_then(|g| {
+            g.final_index
+                .and_then(|i| g.packets.get(&i))
+                .and_then(|p| p.nonce())
+        })
+    }
+
     /// Reconstructs the data represented by the packets
     /// NOTE: This currently produces a copy of all data instead of passing
     ///       back out ownership
diff --git a/src/core/transport/wire/input/mod.rs b/src/core/transport/wire/input/mod.rs
index 3d53473..01563f3 100644
--- a/src/core/transport/wire/input/mod.rs
+++ b/src/core/transport/wire/input/mod.rs
@@ -59,7 +59,6 @@ where
         }
 
         let group_id = p.id();
-        let nonce = p.nonce().cloned();
 
         // Ensure that packet groups are still valid
         self.decoder.remove_expired();
@@ -67,6 +66,10 @@ where
         // Add the packet, see if we are ready to decode the data, and do so
         let do_decode = add_packet_and_verify(&mut self.decoder, p)?;
         if do_decode {
+            // The final packet has the nonce, but is not always the last one
+            // that we receive
+            let nonce = self.decoder.nonce(group_id).cloned();
+
             // Gather the complete data
             let data = decode_and_decrypt(
                 group_id,
-- 
2.43.0


From 218e4a429901fac499ef0c77b44aad63ca246379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 10/34] fix: check and register a nonce atomically

Two threads decrypting copies of one message could both find its nonce unused.
---
 src/core/transport/crypto/nonce/cache.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/crypto/nonce/cache.rs b/src/core/transport/crypto/nonce/cache.rs
index 0b542f0..09bd2ba 100644
--- a/src/core/transport/crypto/nonce/cache.rs
+++ b/src/core/transport/crypto/nonce/cache.rs
@@ -34,12 +34,17 @@ impl<T: Bicrypter> NonceCacheBicrypter<T> {
     ) -> Result<&'a [u8], CryptError> {
         if let Some(cache) = &self.cache {
             let nonce_vec = nonce.to_vec();
-            if cache.read().unwrap().contains(&nonce_vec) {
+
+            // NOTE: Must not let go of the lock between checking the nonce
+            //       and marking it as used; otherwise, the same nonce could
+            //       be accepted more than once at the same time
+            let mut cache = cache.write().unwrap();
+            if cache.contains(&nonce_vec) {
                 return Err(CryptError::NonceAlreadyUsed { nonce: nonce_vec });
             }
 
             // Mark that we have used the nonce
-            cache.write().unwrap().put(nonce_vec, ());
+            cache.put(nonce_vec, ());
         }
 
         Ok(nonce)
-- 
2.43.0


From 99cc33f3fdd5bb8a76281518d7553afd935a6d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 11/34] fix: register a nonce only once its message decrypts

A message that fails to decrypt used up its nonce, so a forged copy sent ahead
of the real message made the receiver reject the real one.
---
 src/core/transport/crypto/nonce/cache.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/core/transport/crypto/nonce/cache.rs b/src/core/transport/crypto/nonce/cache.rs
index 09bd2ba..c8a91a1 100644
--- a/src/core/transport/crypto/nonce/cache.rs
+++ b/src/core/transport/crypto/nonce/cache.rs
@@ -28,6 +28,17 @@ impl<T: Bicrypter> NonceCacheBicrypter<T> {
         Self::new(bicrypter, 0)
     }
 
+    fn check_nonce(&self, nonce: &[u8]) -> Result<(), CryptError> {
+        match &self.cache {
+            Some(cache) if cache.read().unwrap().contains(&nonce.to_vec()) => {
+                Err(CryptError::NonceAlreadyUsed {
+                    nonce: nonce.to_vec(),
+                })
+            }
+            _ => Ok(()),
+        }
+    }
+
     fn register_nonce<'a>(
         &self,
         nonce: &'a [u8],
@@ -79,12 +90,17 @@ impl<T: Bicrypter> Decrypter for NonceCacheBicrypter<T> {
         buffer: &[u8],
         associated_data: &AssociatedData,
     ) -> Result<Vec<u8>, CryptError> {
-        // Register the nonce if provided, and then pass on to the underlying
-        // decrypter
+        // Decrypt with the underlying decrypter, and only then register the
+        // nonce if provided; otherwise, a forged message could use up the
+        // nonce of a legitimate one
         if let Some(nonce) = associated_data.nonce_slice() {
+            self.check_nonce(nonce)?;
+            let data = self.bicrypter.decrypt(buffer, associated_data)?;
             self.register_nonce(nonce)?;
+            Ok(data)
+        } else {
+            self.bicrypter.decrypt(buffer, associated_data)
         }
-        self.bicrypter.decrypt(buffer, associated_data)
     }
 }
 
-- 
2.43.0


From 675fd300f7dadcf8b0b24f0cb119918af2ef9e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 12/34] fix: hold on to a file being opened until it is touched

Opening a file that was already open and had just expired could hand out a
handle that the cleanup closed before the client got it.
---
 src/core/server/action/handler/fs.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index dc5746d..20e22c4 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -40,10 +40,11 @@ pub async fn open_file(
 ) -> Result<FileOpenedArgs, io::Error> {
     debug!("handler::open_file: {:?}", args);
 
-    let handle = state
-        .fs_manager
-        .lock()
-        .await
+    // NOTE: Must not let go of the lock before touching the file; otherwise,
+    //       an already-open file could be evicted right before returning it
+    let mut fs_manager = state.fs_manager.lock().await;
+
+    let handle = fs_manager
         .open_file(
             &args.path,
             args.create_if_missing,
-- 
2.43.0


From 67ae58f351749ea088acaa9dd9ac8461d7eb585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 13/34] fix: close an open file once it is removed

A removed file stayed open without a lifetime, so it leaked and opening its
path again gave out the deleted file.
---
 src/core/server/action/handler/fs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index 20e22c4..f59f0bd 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -151,13 +151,19 @@ pub async fn remove_file(
     debug!("handler::remove_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
+    let mut fs_manager = state.fs_manager.lock().await;
+
+    match fs_manager.get_mut(args.id) {
         Some(local_file) => match local_file.remove(args.sig).await {
             Ok(_) => {
+                // The file no longer exists, so it is no longer open either
+                let handle = local_file.handle();
+                fs_manager.close_file(handle).map_err(FileIoError::Io)?;
+
                 state.remove_file_id(args.id).await;
                 Ok(FileRemovedArgs {
                     id: args.id,
-                    sig: local_file.sig(),
+                    sig: handle.sig,
                 })
             }
             Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
-- 
2.43.0


From 686152e03c2a9c44d1df2eed1da060602c43bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 14/34] fix: keep the canonical path of a renamed open file

Open files are looked up by canonical path, so a file renamed to a relative or
indirect path was no longer recognised as open.
---
 src/core/server/fs/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/server/fs/file.rs b/src/core/server/fs/file.rs
index ee2b38c..f10fd5b 100644
--- a/src/core/server/fs/file.rs
+++ b/src/core/server/fs/file.rs
@@ -145,7 +145,9 @@ impl LocalFile {
         // Update signature to reflect the change and update our internal
         // path so that we can continue to do renames/removals properly
         self.sig = OsRng.next_u32();
-        self.path = to.as_ref().to_path_buf();
+        self.path = fs::canonicalize(to.as_ref())
+            .await
+            .unwrap_or_else(|_| to.as_ref().to_path_buf());
 
         Ok(self.sig)
     }
-- 
2.43.0


From 7b5c3f2dcc916182970df27d75cd6a945e8893b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 15/34] fix: do not replace an open file by renaming another
 onto it

Only the origin of a rename was checked, so a rename could silently replace a
file that a client has open.
---
 src/core/server/action/handler/fs.rs | 13 ++++++++++++-
 src/core/server/fs/mod.rs            | 26 +++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index f59f0bd..4e42954 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -108,7 +108,18 @@ pub async fn rename_file(
     debug!("handler::rename_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
+    let mut fs_manager = state.fs_manager.lock().await;
+
+    // Do not replace another file that is open; if the signature is outdated,
+    // we want to report that instead
+    if fs_manager.get(args.id).map(|f| f.sig()) == Some(args.sig) {
+        fs_manager
+            .check_can_move_to(args.id, &args.to)
+            .await
+            .map_err(FileIoError::Io)?;
+    }
+
+    match fs_manager.get_mut(args.id) {
         Some(local_file) => match local_file.rename(args.sig, &args.to).await {
             Ok(_) => Ok(FileRenamedArgs {
                 id: args.id,
diff --git a/src/core/server/fs/mod.rs b/src/core/server/fs/mod.rs
index 0775431..9203de3 100644
--- a/src/core/server/fs/mod.rs
+++ b/src/core/server/fs/mod.rs
@@ -183,7 +183,7 @@ impl FileSystemManager {
 
     /// Attempts to rename a file at `from` into `to`.
     ///
-    /// Will fail if file is open at `from`.
+    /// Will fail if file is open at `from` or `to`.
     pub async fn rename_file(
         &mut self,
         from: impl AsRef<Path>,
@@ -193,6 +193,7 @@ impl FileSystemManager {
         let to = clean_path(to.as_ref()).await;
 
         self.check_no_open_files(from.as_path())?;
+        self.check_no_open_files(to.as_path())?;
 
         file::rename(from.as_path(), to.as_path()).await
     }
@@ -209,6 +210,29 @@ impl FileSystemManager {
         file::remove(path).await
     }
 
+    /// Checks that moving the open file with `id` to `path` would not replace
+    /// another open file
+    pub async fn check_can_move_to(
+        &self,
+        id: u32,
+        path: impl AsRef<Path>,
+    ) -> io::Result<()> {
+        let path = clean_path(path.as_ref()).await;
+
+        if self
+            .files
+            .values()
+            .any(|f| f.id() != id && f.path() == path.as_path())
+        {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("File at {:?} is open and must be closed", path),
+            ));
+        }
+
+        Ok(())
+    }
+
     /// Represents the total files that are open within the manager
     pub fn file_cnt(&self) -> usize {
         self.files.len()
-- 
2.43.0


From c9c46464f51eb2e3ec5390c5b717e31675172c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 16/34] fix: answer compound requests with an unsupported
 operation

An operation without a reply made the reply of the whole sequence or batch
impossible to serialize, so the client never got an answer.
---
 src/core/server/action/mod.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/core/server/action/mod.rs b/src/core/server/action/mod.rs
index cf3b43d..d4c9d0b 100644
--- a/src/core/server/action/mod.rs
+++ b/src/core/server/action/mod.rs
@@ -319,14 +319,14 @@ fn route_and_execute(
                     for op in args.operations.drain(..) {
                         results.push(
                             match try_transform_request(op, results.last()) {
-                                Ok(req) => {
+                                Ok(req) => nested_reply(
                                     route_and_execute(
                                         Arc::clone(&state),
                                         req,
                                         max_depth - 1,
                                     )
-                                    .await
-                                }
+                                    .await,
+                                ),
                                 Err(x) => Reply::Error(ReplyError::from(
                                     format!("{}", x),
                                 )),
@@ -350,7 +350,7 @@ fn route_and_execute(
                         .await
                         .drain(..)
                         .map(|r| {
-                            r.unwrap_or_else(|x| {
+                            r.map(nested_reply).unwrap_or_else(|x| {
                                 Reply::Error(From::from(format!("{}", x)))
                             })
                         })
@@ -377,6 +377,17 @@ fn route_and_execute(
     .boxed()
 }
 
+/// Makes a reply suitable for being placed within another reply, where it is
+/// not possible to leave it out (and an ignored request cannot be serialized)
+fn nested_reply(reply: Reply) -> Reply {
+    match reply {
+        Reply::Ignore => {
+            Reply::Error(ReplyError::from("Request not supported"))
+        }
+        x => x,
+    }
+}
+
 #[derive(Debug, Display, Error)]
 enum SequenceError {
     Abort,
-- 
2.43.0


From 04d7d81821bb6d0b3c78f58a171ca68c26276471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 17/34] fix: survive a request that panics

A panic in a custom handler or in a dependency, like for a malformed path of a
transformed request, ended the loop that serves every client.
---
 src/core/server/action/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/server/action/mod.rs b/src/core/server/action/mod.rs
index d4c9d0b..0a6c363 100644
--- a/src/core/server/action/mod.rs
+++ b/src/core/server/action/mod.rs
@@ -10,6 +10,7 @@ use futures::future::{BoxFuture, FutureExt};
 use log::trace;
 use std::collections::hash_map::Entry;
 use std::net::SocketAddr;
+use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
 use std::time::Instant;
 use tokio::{runtime::Handle, sync::mpsc};
@@ -180,7 +181,17 @@ async fn validate_route_and_execute(
         .into_request()
         .ok_or(ActionError::UnexpectedContent)?;
     update_origin_last_touched(Arc::clone(&state), origin).await;
-    Ok(route_and_execute(state, request, max_depth).await)
+
+    // NOTE: All requests are executed by the same task, so a panic caused by
+    //       one of them must not take the whole server down
+    Ok(
+        AssertUnwindSafe(route_and_execute(state, request, max_depth))
+            .catch_unwind()
+            .await
+            .unwrap_or_else(|_| {
+                Reply::Error(ReplyError::from("Request caused a panic"))
+            }),
+    )
 }
 
 /// Determines the appropriate handler for a request and executes it
-- 
2.43.0


From 2c33a525f3a59c532158b6d9c2d8b22e20832394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 18/34] fix: forget clients that are no longer around

The server kept an entry for every address it ever got a request from.
---
 src/core/server/mod.rs   |  1 +
 src/core/server/state.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/core/server/mod.rs b/src/core/server/mod.rs
index e6223e1..63888ca 100644
--- a/src/core/server/mod.rs
+++ b/src/core/server/mod.rs
@@ -283,6 +283,7 @@ async fn cleanup_loop(state: Arc<state::ServerState>, period: Duration) {
     while state.is_running() {
         state.evict_files().await;
         state.evict_procs().await;
+        state.evict_conns().await;
         time::delay_for(period).await;
     }
 }
diff --git a/src/core/server/state.rs b/src/core/server/state.rs
index a3c42a4..7939926 100644
--- a/src/core/server/state.rs
+++ b/src/core/server/state.rs
@@ -19,6 +19,10 @@ pub mod constants {
     /// Default proc ttl (time since last touched) since a proc has exited
     /// before removing from queriable state (30 sec)
     pub const DEFAULT_DEAD_PROC_TTL: Duration = Duration::from_secs(30);
+
+    /// Time since a client last communicated with the server before the
+    /// server forgets about it (5 min)
+    pub const CONN_TTL: Duration = Duration::from_secs(60 * 5);
 }
 
 #[derive(Debug)]
@@ -111,6 +115,14 @@ impl ServerState {
         });
     }
 
+    /// Evicts any connections whose client has not communicated for a while
+    pub async fn evict_conns(&self) {
+        self.conns
+            .lock()
+            .await
+            .retain(|_, last| last.elapsed() < constants::CONN_TTL);
+    }
+
     /// Creates or updates an internal TTL for a proc with `id` using the
     /// state-configured TTL as the max untouched lifetime
     pub async fn touch_proc_id(&self, id: u32) {
-- 
2.43.0


From 5331b147d89468e770e24a8031822e18ec1a09a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 19/34] fix: stop serving when the server is told to shut down

Shutting down only ended the periodic cleanup: the server kept accepting and
executing requests, and waiting for it never returned.
---
 src/core/event/mod.rs        | 25 +++++++++++++++-
 src/core/event/tcp.rs        | 55 +++++++++++++++++++++++++-----------
 src/core/event/udp.rs        | 20 ++++++-------
 src/core/server/listening.rs |  3 +-
 src/core/server/mod.rs       | 20 +++++++++++--
 src/core/server/state.rs     | 14 ++++++++-
 6 files changed, 105 insertions(+), 32 deletions(-)

diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index b432fbe..c24705b 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -3,17 +3,20 @@ mod udp;
 
 use crate::core::Msg;
 
+use futures::future::{self, AbortHandle};
 use log::{error, trace, warn};
 use crate::core::transport::InboundWireError;
+use std::future::Future;
 use std::net::SocketAddr;
 use std::time::Duration;
-use tokio::{sync::mpsc, task};
+use tokio::{runtime::Handle, sync::mpsc, task};
 
 /// Time to wait before trying again after an IO error
 const IO_ERROR_DELAY: Duration = Duration::from_millis(10);
 
 pub struct EventManager {
     inbound_handle: task::JoinHandle<()>,
+    inbound_abort: AbortHandle,
     outbound_handle: task::JoinHandle<()>,
     tx: mpsc::Sender<Vec<u8>>,
 }
@@ -28,6 +31,7 @@ impl EventManager {
             inbound_handle,
             outbound_handle,
             tx,
+            ..
         } = self;
 
         // Outbound processing does not end while there is a sender
@@ -39,11 +43,17 @@ impl EventManager {
 
 pub struct AddrEventManager {
     inbound_handle: task::JoinHandle<()>,
+    inbound_abort: AbortHandle,
     outbound_handle: task::JoinHandle<()>,
     tx: mpsc::Sender<(Vec<u8>, SocketAddr)>,
 }
 
 impl AddrEventManager {
+    /// Stops accepting anything inbound, including via existing connections
+    pub fn stop(&self) {
+        self.inbound_abort.abort();
+    }
+
     pub async fn send_to(
         &mut self,
         data: Vec<u8>,
@@ -57,6 +67,7 @@ impl AddrEventManager {
             inbound_handle,
             outbound_handle,
             tx,
+            ..
         } = self;
 
         // Outbound processing does not end while there is a sender
@@ -66,6 +77,18 @@ impl AddrEventManager {
     }
 }
 
+/// Spawns a task with the means to abort it
+fn spawn_abortable(
+    handle: &Handle,
+    f: impl Future<Output = ()> + Send + 'static,
+) -> (task::JoinHandle<()>, AbortHandle) {
+    let (f, abort_handle) = future::abortable(f);
+    let join_handle = handle.spawn(async move {
+        let _ = f.await;
+    });
+    (join_handle, abort_handle)
+}
+
 /// Process result of receiving data, indicating whether should continue
 /// processing additional data
 async fn process_inbound<T>(
diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index f298ba2..3da81b0 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -1,6 +1,7 @@
 use super::{AddrEventManager, EventManager};
 use crate::core::Msg;
 
+use futures::future::{self, Either};
 use log::error;
 use crate::core::transport::{
     Authenticator, Bicrypter, Decrypter, Encrypter, Signer,
@@ -12,7 +13,7 @@ use std::sync::Arc;
 use tokio::{
     net::{TcpListener, TcpStream},
     runtime::Handle,
-    sync::{mpsc, Mutex},
+    sync::{mpsc, watch, Mutex},
     time,
 };
 
@@ -37,14 +38,14 @@ impl EventManager {
 
         let outbound_handle =
             handle.spawn(tcp_stream_outbound_loop(rx, writer));
-        let inbound_handle = handle.spawn(tcp_stream_inbound_loop(
-            tx.clone(),
-            reader,
-            on_inbound_tx,
-        ));
+        let (inbound_handle, inbound_abort) = super::spawn_abortable(
+            &handle,
+            tcp_stream_inbound_loop(tx.clone(), reader, on_inbound_tx),
+        );
 
         EventManager {
             inbound_handle,
+            inbound_abort,
             outbound_handle,
             tx,
         }
@@ -74,18 +75,22 @@ impl AddrEventManager {
         let outbound_handle = handle
             .spawn(tcp_listener_outbound_loop(rx, Arc::clone(&connections)));
 
-        let inbound_handle = handle.spawn(tcp_listener_inbound_loop(
-            handle.clone(),
-            listener,
-            wire,
-            connections,
-            on_inbound_tx,
-            max_outbound_queue,
-        ));
+        let (inbound_handle, inbound_abort) = super::spawn_abortable(
+            &handle,
+            tcp_listener_inbound_loop(
+                handle.clone(),
+                listener,
+                wire,
+                connections,
+                on_inbound_tx,
+                max_outbound_queue,
+            ),
+        );
 
         AddrEventManager {
             outbound_handle,
             inbound_handle,
+            inbound_abort,
             tx,
         }
     }
@@ -120,6 +125,9 @@ async fn tcp_listener_inbound_loop<A, B>(
     A: Authenticator + Send + Sync + Clone + 'static,
     B: Bicrypter + Send + Sync + Clone + 'static,
 {
+    // Dropped when no longer listening, which stops the individual streams
+    let (_listening_tx, listening_rx) = watch::channel(());
+
     loop {
         match listener.accept().await {
             Ok((stream, addr)) => {
@@ -131,6 +139,7 @@ async fn tcp_listener_inbound_loop<A, B>(
                     Arc::clone(&connections),
                     on_inbound_tx.clone(),
                     max_outbound_queue,
+                    listening_rx.clone(),
                 ));
             }
             Err(x) => {
@@ -154,12 +163,14 @@ async fn tcp_listener_spawn_stream<A, B>(
     connections: Arc<Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>>,
     on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
     max_outbound_queue: usize,
+    mut listening_rx: watch::Receiver<()>,
 ) where
     A: Authenticator + Send + Sync + 'static,
     B: Bicrypter + Send + Sync + 'static,
 {
     let EventManager {
         inbound_handle,
+        inbound_abort,
         outbound_handle,
         tx,
     } = EventManager::for_tcp_stream(
@@ -173,9 +184,19 @@ async fn tcp_listener_spawn_stream<A, B>(
 
     connections.lock().await.insert(addr, tx);
 
-    // Wait for the stream to close and remove the connection once it does,
-    // which enables the outbound half to exit as it has no more senders
-    if let Err(x) = inbound_handle.await {
+    // Wait for the stream to close, or stop reading from it if there is no
+    // more listening, and remove the connection, which enables the outbound
+    // half to exit as it has no more senders
+    let listening = async { while listening_rx.recv().await.is_some() {} };
+    futures::pin_mut!(listening);
+    let result = match future::select(inbound_handle, listening).await {
+        Either::Left((result, _)) => result,
+        Either::Right((_, inbound_handle)) => {
+            inbound_abort.abort();
+            inbound_handle.await
+        }
+    };
+    if let Err(x) = result {
         error!("Inbound processing exited badly: {}", x);
     }
 
diff --git a/src/core/event/udp.rs b/src/core/event/udp.rs
index 5a56838..9e50c9f 100644
--- a/src/core/event/udp.rs
+++ b/src/core/event/udp.rs
@@ -32,15 +32,15 @@ impl AddrEventManager {
             mpsc::channel::<(Vec<u8>, SocketAddr)>(max_outbound_queue);
         let outbound_handle =
             handle.spawn(udp_socket_outbound_loop(rx, writer));
-        let inbound_handle = handle.spawn(udp_socket_inbound_loop(
-            tx.clone(),
-            reader,
-            on_inbound_tx,
-        ));
+        let (inbound_handle, inbound_abort) = super::spawn_abortable(
+            &handle,
+            udp_socket_inbound_loop(tx.clone(), reader, on_inbound_tx),
+        );
 
         AddrEventManager {
             outbound_handle,
             inbound_handle,
+            inbound_abort,
             tx,
         }
     }
@@ -69,15 +69,15 @@ impl AddrEventManager {
             mpsc::channel::<(Vec<u8>, SocketAddr)>(max_outbound_queue);
         let outbound_handle =
             handle.spawn(udp_socket_outbound_loop(rx, writer));
-        let inbound_handle = handle.spawn(udp_socket_inbound_loop(
-            tx.clone(),
-            reader,
-            on_inbound_tx,
-        ));
+        let (inbound_handle, inbound_abort) = super::spawn_abortable(
+            &handle,
+            udp_socket_inbound_loop(tx.clone(), reader, on_inbound_tx),
+        );
 
         AddrEventManager {
             outbound_handle,
             inbound_handle,
+            inbound_abort,
             tx,
         }
     }
diff --git a/src/core/server/listening.rs b/src/core/server/listening.rs
index 71cf137..a4972c4 100644
--- a/src/core/server/listening.rs
+++ b/src/core/server/listening.rs
@@ -33,7 +33,8 @@ impl ListeningServer {
     /// Flags the server's internal state as no longer running, closing down
     /// all running tasks
     pub fn shutdown(&self) {
-        self.state.shutdown()
+        self.state.shutdown();
+        self.addr_event_manager.stop();
     }
 
     /// Waits for the server to complete
diff --git a/src/core/server/mod.rs b/src/core/server/mod.rs
index 63888ca..7178da5 100644
--- a/src/core/server/mod.rs
+++ b/src/core/server/mod.rs
@@ -10,6 +10,7 @@ pub use listening::ListeningServer;
 use crate::core::transport::{Authenticator, Bicrypter, NetTransmission, Wire};
 use crate::core::{event::AddrEventManager, Msg, Transport};
 use derive_builder::Builder;
+use futures::future;
 use log::error;
 use std::net::SocketAddr;
 use std::sync::Arc;
@@ -243,7 +244,7 @@ async fn tcp_event_loop(
     state: Arc<state::ServerState>,
     mut rx: mpsc::Receiver<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
 ) {
-    while let Some((msg, addr, tx)) = rx.recv().await {
+    while let Some((msg, addr, tx)) = next_msg(&state, &mut rx).await {
         if let Err(x) = action::Executor::<Vec<u8>>::new(
             tx,
             addr,
@@ -265,7 +266,7 @@ async fn udp_event_loop(
         mpsc::Sender<(Vec<u8>, SocketAddr)>,
     )>,
 ) {
-    while let Some((msg, addr, tx)) = rx.recv().await {
+    while let Some((msg, addr, tx)) = next_msg(&state, &mut rx).await {
         if let Err(x) = action::Executor::<(Vec<u8>, SocketAddr)>::new(
             tx,
             addr,
@@ -279,6 +280,21 @@ async fn udp_event_loop(
     }
 }
 
+/// Receives the next msg to process, or none if shutting down
+async fn next_msg<T>(
+    state: &state::ServerState,
+    rx: &mut mpsc::Receiver<T>,
+) -> Option<T> {
+    let shutdown = state.wait_for_shutdown();
+    let msg = rx.recv();
+    futures::pin_mut!(shutdown, msg);
+
+    match future::select(shutdown, msg).await {
+        future::Either::Left(_) => None,
+        future::Either::Right((msg, _)) => msg,
+    }
+}
+
 async fn cleanup_loop(state: Arc<state::ServerState>, period: Duration) {
     while state.is_running() {
         state.evict_files().await;
diff --git a/src/core/server/state.rs b/src/core/server/state.rs
index 7939926..ef9742c 100644
--- a/src/core/server/state.rs
+++ b/src/core/server/state.rs
@@ -5,7 +5,7 @@ use std::collections::{HashMap, HashSet};
 use std::net::SocketAddr;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::time::{Duration, Instant};
-use tokio::sync::Mutex;
+use tokio::sync::{Mutex, Notify};
 
 pub mod constants {
     use std::time::Duration;
@@ -47,6 +47,9 @@ pub struct ServerState {
     /// Indicator of whether or not the server is running, used to signal
     /// to looping handlers that it is time to shut down if false
     running: AtomicBool,
+
+    /// Used to wake up the loop that executes requests upon shutting down
+    shutdown_notify: Notify,
 }
 
 impl ServerState {
@@ -66,6 +69,7 @@ impl ServerState {
             dead_proc_ttl,
             custom_handler: None,
             running: AtomicBool::new(true),
+            shutdown_notify: Notify::new(),
         }
     }
 
@@ -168,6 +172,14 @@ impl ServerState {
     /// Updates the state to reflect that the server is shutting down
     pub fn shutdown(&self) {
         self.running.store(false, Ordering::Relaxed);
+        self.shutdown_notify.notify();
+    }
+
+    /// Waits until the server is shutting down; supports only a single waiter
+    pub(super) async fn wait_for_shutdown(&self) {
+        while self.is_running() {
+            self.shutdown_notify.notified().await;
+        }
     }
 
     /// Acquires debug-related information for each part of state,
-- 
2.43.0


From a73fe45c7def9b99941100ff34ca48595186f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 20/34] fix: apply the timeout given on the command line

The option was parsed and never used.
---
 src/cli/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index d914358..454ea8b 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -153,6 +153,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
     let mut client = builder::start_client(&cmd)
         .await
         .expect("Failed to connect with client");
+    client.timeout = cmd.opts.timeout;
 
     match &cmd.command {
         client::Subcommand::Version(_) => {
-- 
2.43.0


From b8d2d694f8738b76bb55387fc7244a59f8b28ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 21/34] fix: finish each write to a redirected output

Writes to a file go through a background thread; without waiting for it, the
end of the output could be lost or chunks could change places.
---
 src/cli/mod.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 454ea8b..f3d6735 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -75,18 +75,23 @@ fn validate_opts(opts: &opts::CommonOpts) -> io::Result<()> {
     Ok(())
 }
 
+async fn append_to_file(bytes: &[u8], path: &PathBuf) -> io::Result<()> {
+    use tokio::io::AsyncWriteExt;
+    let mut file = tokio::fs::OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(path)
+        .await?;
+    file.write_all(bytes).await?;
+
+    // NOTE: Without this, the write might not have taken place yet, or could
+    //       take place after a later one
+    file.flush().await
+}
+
 async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
     match path {
-        Some(p) => {
-            use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
-                .create(true)
-                .append(true)
-                .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
-        }
+        Some(p) => append_to_file(text.as_bytes(), p).await,
         None => {
             print!("{}", text);
             Ok(())
@@ -96,16 +101,7 @@ async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
 
 async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
     match path {
-        Some(p) => {
-            use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
-                .create(true)
-                .append(true)
-                .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
-        }
+        Some(p) => append_to_file(text.as_bytes(), p).await,
         None => {
             eprint!("{}", text);
             Ok(())
-- 
2.43.0


From 0646905366b98182fc36804bf5556f9b52cd900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 22/34] fix: write the output of a remote process as is

Each chunk was converted to text on its own, which replaced characters split
between chunks and any output that is not text.
---
 src/cli/mod.rs | 69 ++++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index f3d6735..d8d61a5 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -14,7 +14,7 @@ use opts::{
 use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
 use std::error::Error;
-use std::io;
+use std::io::{self, Write};
 use std::path::PathBuf;
 use std::time::{Duration, Instant};
 
@@ -89,23 +89,23 @@ async fn append_to_file(bytes: &[u8], path: &PathBuf) -> io::Result<()> {
     file.flush().await
 }
 
-async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
+async fn write_stdout(
+    content: impl AsRef<[u8]>,
+    path: Option<&PathBuf>,
+) -> io::Result<()> {
     match path {
-        Some(p) => append_to_file(text.as_bytes(), p).await,
-        None => {
-            print!("{}", text);
-            Ok(())
-        }
+        Some(p) => append_to_file(content.as_ref(), p).await,
+        None => io::stdout().write_all(content.as_ref()),
     }
 }
 
-async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
+async fn write_stderr(
+    content: impl AsRef<[u8]>,
+    path: Option<&PathBuf>,
+) -> io::Result<()> {
     match path {
-        Some(p) => append_to_file(text.as_bytes(), p).await,
-        None => {
-            eprint!("{}", text);
-            Ok(())
-        }
+        Some(p) => append_to_file(content.as_ref(), p).await,
+        None => io::stderr().write_all(content.as_ref()),
     }
 }
 
@@ -492,13 +492,20 @@ async fn process_proc(
             .await
             .expect("Failed to get stdout");
         if !stdout_args.output.is_empty() {
-            format_content_write!(
-                format,
-                stdout_path.as_ref(),
-                Content::from(Reply::ProcStdoutContents(stdout_args)),
-                Ok(format!("{}", String::from_utf8_lossy(&stdout_args.output))),
-            )
-            .expect("Failed to format stdout");
+            match format {
+                // NOTE: Output can be of any form and is received in chunks
+                //       that can end within a character, so write it as is
+                FormatOption::Human => {
+                    write_stdout(&stdout_args.output, stdout_path.as_ref())
+                        .await?
+                }
+                f => format::format_content_println(
+                    f,
+                    Content::from(Reply::ProcStdoutContents(stdout_args)),
+                    |_| Err("Unreachable".into()),
+                )
+                .expect("Failed to format stdout"),
+            }
         }
 
         let stderr_args = client
@@ -506,16 +513,18 @@ async fn process_proc(
             .await
             .expect("Failed to get stderr");
         if !stderr_args.output.is_empty() {
-            format_content_write!(
-                format,
-                stderr_path.as_ref(),
-                Content::from(Reply::ProcStderrContents(stderr_args)),
-                Err(format!(
-                    "{}",
-                    String::from_utf8_lossy(&stderr_args.output)
-                )),
-            )
-            .expect("Failed to format stderr");
+            match format {
+                FormatOption::Human => {
+                    write_stderr(&stderr_args.output, stderr_path.as_ref())
+                        .await?
+                }
+                f => format::format_content_println(
+                    f,
+                    Content::from(Reply::ProcStderrContents(stderr_args)),
+                    |_| Err("Unreachable".into()),
+                )
+                .expect("Failed to format stderr"),
+            }
         }
 
         // Mark ready for exit if proc has exited
-- 
2.43.0


From ce57218f770700f150e8bcf7ab9b518aff910297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 23/34] fix: look for delimiters only in data that was read

---
 src/utils/delimiter.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/utils/delimiter.rs b/src/utils/delimiter.rs
index 83bdb48..31f3ea0 100644
--- a/src/utils/delimiter.rs
+++ b/src/utils/delimiter.rs
@@ -5,7 +5,6 @@ pub const DEFAULT_DELIMITER: &[u8] = b"</>";
 
 #[derive(Clone, Copy)]
 struct PreReadResult {
-    buf_len: usize,
     delimiter_len: usize,
 }
 
@@ -73,17 +72,17 @@ impl DelimiterReader {
         // delimiter size and try again; this creates a sliding window where
         // we keep the max data size specified at all times
         if self.buf_pos > (buf_len - delimiter_len) {
-            let (pd_pos, pdelimiter_len) = self.find_partial_delimiter();
+            let (_, pdelimiter_len) = self.find_partial_delimiter();
             let shift_len = delimiter_len - pdelimiter_len;
             self.buf.rotate_left(shift_len);
             self.buf_filled -= shift_len;
-            self.buf_pos = pd_pos - shift_len;
+
+            // Continue from the partial delimiter, if any, otherwise from the
+            // end of the data that is still in our buffer
+            self.buf_pos = self.buf_filled - pdelimiter_len;
         };
 
-        PreReadResult {
-            buf_len,
-            delimiter_len,
-        }
+        PreReadResult { delimiter_len }
     }
 
     /// Performs update to buffer based on read bytes, copying data to external
@@ -94,20 +93,18 @@ impl DelimiterReader {
         bytes_read: Option<&usize>,
         preread_result: PreReadResult,
     ) -> usize {
-        let PreReadResult {
-            buf_len,
-            delimiter_len,
-        } = preread_result;
+        let PreReadResult { delimiter_len } = preread_result;
 
         // Mark where we will start reading and then update the filled count
         if let Some(bytes_read) = bytes_read {
             self.buf_filled += bytes_read;
         }
 
-        // Scan for the delimiter starting from the last place searched
+        // Scan for the delimiter starting from the last place searched, looking
+        // only at the portion of our buffer that has been filled
         let mut size = 0;
-        if self.buf_filled > 0 {
-            for i in self.buf_pos..=(buf_len - delimiter_len) {
+        if self.buf_filled >= delimiter_len {
+            for i in self.buf_pos..=(self.buf_filled - delimiter_len) {
                 // If we have a match, we want to copy the contents (minus the delimiter) to the
                 // provided buffer, shift over any remaining data, and reset our buf filled count
                 if self.buf[i..i + delimiter_len] == self.delimiter[..] {
-- 
2.43.0


From 3d5f56703bb8b1ddc96eb894bfb7cf3d7e8e8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 24/34] fix: write whole messages before each delimiter

---
 src/utils/delimiter.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/utils/delimiter.rs b/src/utils/delimiter.rs
index 31f3ea0..1c20ef7 100644
--- a/src/utils/delimiter.rs
+++ b/src/utils/delimiter.rs
@@ -211,13 +211,29 @@ impl DelimiterWriter {
         F: FnMut(&[u8]) -> io::Result<usize>,
     {
         // Send all of the requested data first
-        f(data)?;
+        Self::write_all(data, &mut f)?;
 
         // Then send our delimiter
-        f(&self.delimiter)?;
+        Self::write_all(&self.delimiter, &mut f)?;
 
         Ok(data.len())
     }
+
+    /// Writes until all of the data has been accepted, given that a single
+    /// write may only accept part of it
+    fn write_all<F>(mut data: &[u8], f: &mut F) -> io::Result<()>
+    where
+        F: FnMut(&[u8]) -> io::Result<usize>,
+    {
+        while !data.is_empty() {
+            match f(data)? {
+                0 => return Err(io::Error::from(io::ErrorKind::WriteZero)),
+                n => data = &data[n..],
+            }
+        }
+
+        Ok(())
+    }
 }
 
 impl Default for DelimiterWriter {
-- 
2.43.0


From 79a72ea3581f26a5965fcb3084bf7021d6ac728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 25/34] fix: do not overflow on the index of a final packet

---
 src/core/transport/wire/input/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 36b8367..f1bf7b2 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -125,8 +125,10 @@ impl Decoder {
         self.packet_groups
             .get(&group_id.into())
             .and_then(|g| {
-                let total_packets = g.packets.len() as u32;
-                g.final_index.map(|i| i + 1 == total_packets)
+                // NOTE: The final index can be as large as possible, so adding
+                //       to it could overflow
+                let total_packets = g.packets.len() as u64;
+                g.final_index.map(|i| u64::from(i) + 1 == total_packets)
             })
             .unwrap_or_default()
     }
-- 
2.43.0


From 1cd15bb0fd8359e7e617985870b14a418e15525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:58 +0000
Subject: [PATCH 26/34] fix: forget packets that do not form a valid message

---
 src/core/transport/wire/input/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/transport/wire/input/mod.rs b/src/core/transport/wire/input/mod.rs
index 01563f3..51d0960 100644
--- a/src/core/transport/wire/input/mod.rs
+++ b/src/core/transport/wire/input/mod.rs
@@ -71,17 +71,19 @@ where
             let nonce = self.decoder.nonce(group_id).cloned();
 
             // Gather the complete data
-            let data = decode_and_decrypt(
+            let result = decode_and_decrypt(
                 group_id,
                 &self.decoder,
                 &self.decrypter,
                 nonce,
-            )?;
+            );
 
-            // Remove the underlying group as we no longer need to keep it
+            // Remove the underlying group as we no longer need to keep it,
+            // even if its data is not valid; otherwise, it would get in the
+            // way of valid packets with the same id
             self.decoder.remove_group(group_id);
 
-            Ok(Some(data))
+            result.map(Some)
         } else {
             Ok(None)
         }
-- 
2.43.0


From bf3927b5f85297d516eea8dc906ee53131a07d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:06 +0000
Subject: [PATCH 27/34] fix: report a path that cannot be resolved

---
 src/core/server/fs/mod.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/core/server/fs/mod.rs b/src/core/server/fs/mod.rs
index 9203de3..522e0f0 100644
--- a/src/core/server/fs/mod.rs
+++ b/src/core/server/fs/mod.rs
@@ -34,7 +34,7 @@ impl FileSystemManager {
         path: impl AsRef<Path>,
         create_components: bool,
     ) -> io::Result<()> {
-        let path = clean_path(path.as_ref()).await;
+        let path = resolve_path(path.as_ref()).await?;
         dir::create(path, create_components).await
     }
 
@@ -46,8 +46,8 @@ impl FileSystemManager {
         from: impl AsRef<Path>,
         to: impl AsRef<Path>,
     ) -> io::Result<()> {
-        let from = clean_path(from.as_ref()).await;
-        let to = clean_path(to.as_ref()).await;
+        let from = resolve_path(from.as_ref()).await?;
+        let to = resolve_path(to.as_ref()).await?;
 
         self.check_no_open_files(from.as_path())?;
 
@@ -64,7 +64,7 @@ impl FileSystemManager {
         path: impl AsRef<Path>,
         non_empty: bool,
     ) -> io::Result<()> {
-        let path = clean_path(path.as_ref()).await;
+        let path = resolve_path(path.as_ref()).await?;
 
         self.check_no_open_files(path.as_path())?;
 
@@ -84,7 +84,7 @@ impl FileSystemManager {
         &self,
         path: impl AsRef<Path>,
     ) -> io::Result<Vec<LocalDirEntry>> {
-        let path = clean_path(path.as_ref()).await;
+        let path = resolve_path(path.as_ref()).await?;
 
         dir::entries(path).await
     }
@@ -104,7 +104,7 @@ impl FileSystemManager {
         write: bool,
         read: bool,
     ) -> io::Result<LocalFileHandle> {
-        let path = clean_path(path.as_ref()).await;
+        let path = resolve_path(path.as_ref()).await?;
 
         let mut new_permissions = LocalFilePermissions { read, write };
         let mut maybe_id_and_sig = None;
@@ -189,8 +189,8 @@ impl FileSystemManager {
         from: impl AsRef<Path>,
         to: impl AsRef<Path>,
     ) -> io::Result<()> {
-        let from = clean_path(from.as_ref()).await;
-        let to = clean_path(to.as_ref()).await;
+        let from = resolve_path(from.as_ref()).await?;
+        let to = resolve_path(to.as_ref()).await?;
 
         self.check_no_open_files(from.as_path())?;
         self.check_no_open_files(to.as_path())?;
@@ -203,7 +203,7 @@ impl FileSystemManager {
         &mut self,
         path: impl AsRef<Path>,
     ) -> io::Result<()> {
-        let path = clean_path(path.as_ref()).await;
+        let path = resolve_path(path.as_ref()).await?;
 
         self.check_no_open_files(path.as_path())?;
 
@@ -217,7 +217,7 @@ impl FileSystemManager {
         id: u32,
         path: impl AsRef<Path>,
     ) -> io::Result<()> {
-        let path = clean_path(path.as_ref()).await;
+        let path = resolve_path(path.as_ref()).await?;
 
         if self
             .files
@@ -278,8 +278,23 @@ impl FileSystemManager {
     }
 }
 
+/// Attempts to canonicalize the path, returning the canonicalized form
+/// or the original form if nothing exists at the path yet.
+///
+/// Any other failure is reported instead of continuing with the original form
+/// as we would otherwise not recognize the path of an open file.
+async fn resolve_path(path: impl AsRef<Path>) -> io::Result<PathBuf> {
+    match tokio::fs::canonicalize(path.as_ref()).await {
+        Err(x) if x.kind() == io::ErrorKind::NotFound => {
+            Ok(path.as_ref().to_path_buf())
+        }
+        x => x,
+    }
+}
+
 /// Attempts to canonicalize the path, returning the canonicalized form
 /// or the original form if failed.
+#[cfg(test)]
 async fn clean_path(path: impl AsRef<Path>) -> PathBuf {
     tokio::fs::canonicalize(path.as_ref())
         .await
-- 
2.43.0


From 9286e096fa213e3e28743764bea5ab50121a6ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 28/34] fix: know the path of an open file before renaming it

---
 src/core/server/fs/file.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/core/server/fs/file.rs b/src/core/server/fs/file.rs
index f10fd5b..cf7232b 100644
--- a/src/core/server/fs/file.rs
+++ b/src/core/server/fs/file.rs
@@ -138,6 +138,12 @@ impl LocalFile {
             return Err(LocalFileError::SigMismatch);
         }
 
+        // Figure out the absolute path up front as we would not be able to
+        // report a failure to do so once the file has been renamed
+        let path = resolve_destination(to.as_ref())
+            .await
+            .map_err(LocalFileError::IoError)?;
+
         rename(self.path.as_path(), to.as_ref())
             .await
             .map_err(LocalFileError::IoError)?;
@@ -145,9 +151,7 @@ impl LocalFile {
         // Update signature to reflect the change and update our internal
         // path so that we can continue to do renames/removals properly
         self.sig = OsRng.next_u32();
-        self.path = fs::canonicalize(to.as_ref())
-            .await
-            .unwrap_or_else(|_| to.as_ref().to_path_buf());
+        self.path = path;
 
         Ok(self.sig)
     }
@@ -221,6 +225,21 @@ impl LocalFile {
     }
 }
 
+/// Determines the resolved, absolute path that a file renamed to `path` has
+async fn resolve_destination(path: &Path) -> io::Result<PathBuf> {
+    match (path.parent(), path.file_name()) {
+        (Some(dir), Some(name)) => {
+            let dir = if dir.as_os_str().is_empty() {
+                Path::new(".")
+            } else {
+                dir
+            };
+            Ok(fs::canonicalize(dir).await?.join(name))
+        }
+        _ => Ok(path.to_path_buf()),
+    }
+}
+
 pub async fn rename(
     from: impl AsRef<Path>,
     to: impl AsRef<Path>,
-- 
2.43.0


From 51a7208f40d6195920a5140a671af5f3b75005e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 29/34] fix: make forwarded addresses survive the encoding of
 messages

---
 src/core/msg/content/reply/forward.rs   |  2 ++
 src/core/msg/content/request/forward.rs |  2 ++
 src/utils/serializers/mod.rs            |  1 +
 src/utils/serializers/socket_addr.rs    | 20 ++++++++++++++++++++
 4 files changed, 25 insertions(+)
 create mode 100644 src/utils/serializers/socket_addr.rs

diff --git a/src/core/msg/content/reply/forward.rs b/src/core/msg/content/reply/forward.rs
index 1dd4bc3..ff24ede 100644
--- a/src/core/msg/content/reply/forward.rs
+++ b/src/core/msg/content/reply/forward.rs
@@ -5,6 +5,8 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(with = "crate::utils::serializers::socket_addr")]
+    #[schemars(with = "SocketAddr")]
     pub address: SocketAddr,
     pub reply: Box<Reply>,
 }
diff --git a/src/core/msg/content/request/forward.rs b/src/core/msg/content/request/forward.rs
index 2619c01..06a248f 100644
--- a/src/core/msg/content/request/forward.rs
+++ b/src/core/msg/content/request/forward.rs
@@ -5,6 +5,8 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(with = "crate::utils::serializers::socket_addr")]
+    #[schemars(with = "SocketAddr")]
     pub address: SocketAddr,
     pub request: Box<Request>,
 }
diff --git a/src/utils/serializers/mod.rs b/src/utils/serializers/mod.rs
index 4c6c21f..e8f1a3f 100644
--- a/src/utils/serializers/mod.rs
+++ b/src/utils/serializers/mod.rs
@@ -1,2 +1,3 @@
 pub mod error_kind;
 pub mod io_error;
+pub mod socket_addr;
diff --git a/src/utils/serializers/socket_addr.rs b/src/utils/serializers/socket_addr.rs
new file mode 100644
index 0000000..e5b97e6
--- /dev/null
+++ b/src/utils/serializers/socket_addr.rs
@@ -0,0 +1,20 @@
+use serde::{Deserialize, Deserializer, Serializer};
+use std::net::SocketAddr;
+
+/// Serializes an address as text regardless of the format, as content that is
+/// buffered when deserializing (untagged enums) only supports text
+pub fn serialize<S>(addr: &SocketAddr, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    serializer.collect_str(addr)
+}
+
+pub fn deserialize<'de, D>(deserializer: D) -> Result<SocketAddr, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    String::deserialize(deserializer)?
+        .parse()
+        .map_err(serde::de::Error::custom)
+}
-- 
2.43.0


From c3fada5bd2e0c3033c23d6a7d252f230da003a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 30/34] fix: release the connection of a client that is dropped

Its tasks kept the connection or socket open for as long as the server did.
---
 src/core/client/connected.rs |  5 ++-
 src/core/client/mod.rs       |  2 +
 src/core/event/mod.rs        | 80 +++++++++++++++++++++++++++++++++++-
 src/core/event/tcp.rs        | 29 ++++++++-----
 src/core/event/udp.rs        | 28 +++++++++----
 5 files changed, 124 insertions(+), 20 deletions(-)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 690f963..a49c807 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -5,7 +5,7 @@ use super::{
     state::ClientState,
 };
 use crate::core::{
-    event::{AddrEventManager, EventManager},
+    event::{AddrEventManager, CloseGuard, EventManager},
     msg::{
         content::{
             reply::{self, *},
@@ -36,6 +36,9 @@ pub struct ConnectedClient {
     /// Represents the handle for processing events
     pub(super) event_handle: JoinHandle<()>,
 
+    /// Closes the connection when the client is dropped
+    pub(super) close_guard: CloseGuard,
+
     /// Represents the address the client is connected to
     pub(super) remote_addr: SocketAddr,
 
diff --git a/src/core/client/mod.rs b/src/core/client/mod.rs
index 32ec763..4c8f053 100644
--- a/src/core/client/mod.rs
+++ b/src/core/client/mod.rs
@@ -127,6 +127,7 @@ where
 
     Ok(ConnectedClient {
         state,
+        close_guard: event_manager.close_guard(),
         event_manager: Either::Left(event_manager),
         event_handle,
         remote_addr,
@@ -196,6 +197,7 @@ where
 
     Ok(ConnectedClient {
         state,
+        close_guard: addr_event_manager.close_guard(),
         event_manager: Either::Right(addr_event_manager),
         event_handle,
         remote_addr,
diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index c24705b..a4c4d29 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -3,13 +3,18 @@ mod udp;
 
 use crate::core::Msg;
 
-use futures::future::{self, AbortHandle};
+use futures::future::{self, AbortHandle, Either};
 use log::{error, trace, warn};
 use crate::core::transport::InboundWireError;
 use std::future::Future;
 use std::net::SocketAddr;
+use std::sync::Arc;
 use std::time::Duration;
-use tokio::{runtime::Handle, sync::mpsc, task};
+use tokio::{
+    runtime::Handle,
+    sync::{mpsc, Notify},
+    task,
+};
 
 /// Time to wait before trying again after an IO error
 const IO_ERROR_DELAY: Duration = Duration::from_millis(10);
@@ -18,10 +23,16 @@ pub struct EventManager {
     inbound_handle: task::JoinHandle<()>,
     inbound_abort: AbortHandle,
     outbound_handle: task::JoinHandle<()>,
+    closing: Arc<Notify>,
     tx: mpsc::Sender<Vec<u8>>,
 }
 
 impl EventManager {
+    /// Produces a guard that closes the connection when dropped
+    pub(super) fn close_guard(&self) -> CloseGuard {
+        CloseGuard(Arc::clone(&self.closing))
+    }
+
     pub async fn send(&mut self, data: Vec<u8>) -> Result<(), Vec<u8>> {
         self.tx.send(data).await.map_err(|x| x.0)
     }
@@ -45,6 +56,7 @@ pub struct AddrEventManager {
     inbound_handle: task::JoinHandle<()>,
     inbound_abort: AbortHandle,
     outbound_handle: task::JoinHandle<()>,
+    closing: Arc<Notify>,
     tx: mpsc::Sender<(Vec<u8>, SocketAddr)>,
 }
 
@@ -54,6 +66,11 @@ impl AddrEventManager {
         self.inbound_abort.abort();
     }
 
+    /// Produces a guard that closes the socket when dropped
+    pub(super) fn close_guard(&self) -> CloseGuard {
+        CloseGuard(Arc::clone(&self.closing))
+    }
+
     pub async fn send_to(
         &mut self,
         data: Vec<u8>,
@@ -77,6 +94,65 @@ impl AddrEventManager {
     }
 }
 
+/// Ends an event manager when dropped, once it has sent everything that it was
+/// given, as its tasks would otherwise go on for as long as there is a remote
+pub(super) struct CloseGuard(Arc<Notify>);
+
+impl Drop for CloseGuard {
+    fn drop(&mut self) {
+        self.0.notify();
+    }
+}
+
+/// Queue of outbound data that ends once there is no more sender, or early by
+/// means of a close guard
+struct Outbound<T> {
+    rx: mpsc::Receiver<T>,
+    closing: Arc<Notify>,
+    is_closed: bool,
+    inbound_abort: AbortHandle,
+}
+
+impl<T> Outbound<T> {
+    fn new(
+        rx: mpsc::Receiver<T>,
+        closing: Arc<Notify>,
+        inbound_abort: AbortHandle,
+    ) -> Self {
+        Self {
+            rx,
+            closing,
+            is_closed: false,
+            inbound_abort,
+        }
+    }
+
+    async fn recv(&mut self) -> Option<T> {
+        if !self.is_closed {
+            {
+                let next = self.rx.recv();
+                let closing = self.closing.notified();
+                futures::pin_mut!(next, closing);
+                let first = future::select(next, closing).await;
+                if let Either::Left((data, _)) = first {
+                    return data;
+                }
+            }
+
+            self.is_closed = true;
+            self.rx.close();
+        }
+
+        // Whatever is queued still gets sent, and the remote is listened to
+        // for just as long
+        let data = self.rx.recv().await;
+        if data.is_none() {
+            self.inbound_abort.abort();
+        }
+        data
+    }
+}
+
 /// Spawns a task with the means to abort it
 fn spawn_abortable(
     handle: &Handle,
diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index 3da81b0..852d6cb 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -1,4 +1,4 @@
-use super::{AddrEventManager, EventManager};
+use super::{AddrEventManager, EventManager, Outbound};
 use crate::core::Msg;
 
 use futures::future::{self, Either};
@@ -13,7 +13,7 @@ use std::sync::Arc;
 use tokio::{
     net::{TcpListener, TcpStream},
     runtime::Handle,
-    sync::{mpsc, watch, Mutex},
+    sync::{mpsc, watch, Mutex, Notify},
     time,
 };
 
@@ -36,17 +36,21 @@ impl EventManager {
 
         let (tx, rx) = mpsc::channel::<Vec<u8>>(max_outbound_queue);
 
-        let outbound_handle =
-            handle.spawn(tcp_stream_outbound_loop(rx, writer));
         let (inbound_handle, inbound_abort) = super::spawn_abortable(
             &handle,
             tcp_stream_inbound_loop(tx.clone(), reader, on_inbound_tx),
         );
+        let closing = Arc::new(Notify::new());
+        let rx =
+            Outbound::new(rx, Arc::clone(&closing), inbound_abort.clone());
+        let outbound_handle =
+            handle.spawn(tcp_stream_outbound_loop(rx, writer));
 
         EventManager {
             inbound_handle,
             inbound_abort,
             outbound_handle,
+            closing,
             tx,
         }
     }
@@ -72,25 +76,29 @@ impl AddrEventManager {
         let (tx, rx) =
             mpsc::channel::<(Vec<u8>, SocketAddr)>(max_outbound_queue);
 
-        let outbound_handle = handle
-            .spawn(tcp_listener_outbound_loop(rx, Arc::clone(&connections)));
-
         let (inbound_handle, inbound_abort) = super::spawn_abortable(
             &handle,
             tcp_listener_inbound_loop(
                 handle.clone(),
                 listener,
                 wire,
-                connections,
+                Arc::clone(&connections),
                 on_inbound_tx,
                 max_outbound_queue,
             ),
         );
 
+        let closing = Arc::new(Notify::new());
+        let rx =
+            Outbound::new(rx, Arc::clone(&closing), inbound_abort.clone());
+        let outbound_handle =
+            handle.spawn(tcp_listener_outbound_loop(rx, connections));
+
         AddrEventManager {
             outbound_handle,
             inbound_handle,
             inbound_abort,
+            closing,
             tx,
         }
     }
@@ -99,7 +107,7 @@ impl AddrEventManager {
 /// Loops continuously, reading outbound data and sending it out over the wire
 /// of the appropriate connection
 async fn tcp_listener_outbound_loop(
-    mut rx: mpsc::Receiver<(Vec<u8>, SocketAddr)>,
+    mut rx: Outbound<(Vec<u8>, SocketAddr)>,
     connections: Arc<Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>>,
 ) {
     while let Some((msg, addr)) = rx.recv().await {
@@ -173,6 +181,7 @@ async fn tcp_listener_spawn_stream<A, B>(
         inbound_abort,
         outbound_handle,
         tx,
+        ..
     } = EventManager::for_tcp_stream(
         handle,
         max_outbound_queue,
@@ -209,7 +218,7 @@ async fn tcp_listener_spawn_stream<A, B>(
 
 /// Loops continuously, reading outbound data and sending it out over the wire
 async fn tcp_stream_outbound_loop<S, E>(
-    mut rx: mpsc::Receiver<Vec<u8>>,
+    mut rx: Outbound<Vec<u8>>,
     mut writer: TcpStreamOutboundWire<S, E>,
 ) where
     S: Signer,
diff --git a/src/core/event/udp.rs b/src/core/event/udp.rs
index 9e50c9f..770ebb3 100644
--- a/src/core/event/udp.rs
+++ b/src/core/event/udp.rs
@@ -1,4 +1,4 @@
-use super::AddrEventManager;
+use super::{AddrEventManager, Outbound};
 use crate::core::Msg;
 
 use log::error;
@@ -7,7 +7,13 @@ use crate::core::transport::{
     UdpSocketInboundWire, UdpSocketOutboundWire, Verifier, Wire,
 };
 use std::net::SocketAddr;
-use tokio::{net::UdpSocket, runtime::Handle, sync::mpsc, time};
+use std::sync::Arc;
+use tokio::{
+    net::UdpSocket,
+    runtime::Handle,
+    sync::{mpsc, Notify},
+    time,
+};
 
 /// Implementation of AddrEventManager for UDP stream
 impl AddrEventManager {
@@ -30,17 +36,21 @@ impl AddrEventManager {
 
         let (tx, rx) =
             mpsc::channel::<(Vec<u8>, SocketAddr)>(max_outbound_queue);
-        let outbound_handle =
-            handle.spawn(udp_socket_outbound_loop(rx, writer));
         let (inbound_handle, inbound_abort) = super::spawn_abortable(
             &handle,
             udp_socket_inbound_loop(tx.clone(), reader, on_inbound_tx),
         );
+        let closing = Arc::new(Notify::new());
+        let rx =
+            Outbound::new(rx, Arc::clone(&closing), inbound_abort.clone());
+        let outbound_handle =
+            handle.spawn(udp_socket_outbound_loop(rx, writer));
 
         AddrEventManager {
             outbound_handle,
             inbound_handle,
             inbound_abort,
+            closing,
             tx,
         }
     }
@@ -67,24 +77,28 @@ impl AddrEventManager {
 
         let (tx, rx) =
             mpsc::channel::<(Vec<u8>, SocketAddr)>(max_outbound_queue);
-        let outbound_handle =
-            handle.spawn(udp_socket_outbound_loop(rx, writer));
         let (inbound_handle, inbound_abort) = super::spawn_abortable(
             &handle,
             udp_socket_inbound_loop(tx.clone(), reader, on_inbound_tx),
         );
+        let closing = Arc::new(Notify::new());
+        let rx =
+            Outbound::new(rx, Arc::clone(&closing), inbound_abort.clone());
+        let outbound_handle =
+            handle.spawn(udp_socket_outbound_loop(rx, writer));
 
         AddrEventManager {
             outbound_handle,
             inbound_handle,
             inbound_abort,
+            closing,
             tx,
         }
     }
 }
 
 async fn udp_socket_outbound_loop<S, E>(
-    mut rx: mpsc::Receiver<(Vec<u8>, SocketAddr)>,
+    mut rx: Outbound<(Vec<u8>, SocketAddr)>,
     mut writer: UdpSocketOutboundWire<S, E>,
 ) where
     S: Signer,
-- 
2.43.0


From 1c5ea1707e727e1aaae2296cfb4b5389f6155a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 31/34] fix: keep streaming output once a process takes no more
 input

---
 src/cli/mod.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index d8d61a5..5c792cc 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -2,9 +2,11 @@ mod builder;
 pub mod format;
 mod opts;
 
-use crate::core::{ConnectedClient, Content, RemoteProc, Reply, SchemaInfo};
+use crate::core::{
+    ConnectedClient, Content, ExecAskError, RemoteProc, Reply, SchemaInfo,
+};
 use format::FormatOption;
-use log::info;
+use log::{debug, info};
 use opts::{
     client::{self, ClientCommand},
     schema::{SchemaSubcommand, SchemaType},
@@ -452,7 +454,7 @@ async fn execute_raw_and_report(
 
 async fn process_proc(
     mut client: ConnectedClient,
-    send_stdin: bool,
+    mut send_stdin: bool,
     stdout_path: Option<PathBuf>,
     stderr_path: Option<PathBuf>,
     post_exit_duration: Duration,
@@ -480,10 +482,22 @@ async fn process_proc(
             }
 
             if !line.is_empty() {
-                client
+                match client
                     .ask_write_proc_stdin(&proc, &line.into_bytes())
                     .await
-                    .expect("Failed to write stdin");
+                {
+                    Ok(_) => (),
+
+                    // NOTE: A process that has exited or closed its stdin
+                    //       takes no more input, but there can still be
+                    //       output of it to retrieve
+                    Err(ExecAskError::IoError(x)) => {
+                        debug!("No longer sending stdin: {:?}", x);
+                        send_stdin = false;
+                    }
+
+                    Err(x) => panic!("Failed to write stdin: {:?}", x),
+                }
             }
         }
 
-- 
2.43.0


From a4949d63130ebd7ffc41ac02cd8f8fab3ee8a825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:16 +0000
Subject: [PATCH 32/34] fix: send input that is not UTF-8 to remote processes

---
 src/cli/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 5c792cc..c9497af 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -474,18 +474,17 @@ async fn process_proc(
         if send_stdin {
             use io::BufRead;
             let mut handle = stdin.lock();
-            let mut line = String::new();
-            match handle.read_line(&mut line) {
+            let mut line = Vec::new();
+
+            // NOTE: Input can be of any form, not only valid UTF-8
+            match handle.read_until(b'\n', &mut line) {
                 Ok(_) => (),
                 Err(x) if x.kind() == io::ErrorKind::WouldBlock => (),
                 Err(x) => panic!("Failed to read line of input: {:?}", x),
             }
 
             if !line.is_empty() {
-                match client
-                    .ask_write_proc_stdin(&proc, &line.into_bytes())
-                    .await
-                {
+                match client.ask_write_proc_stdin(&proc, &line).await {
                     Ok(_) => (),
 
                     // NOTE: A process that has exited or closed its stdin
-- 
2.43.0


From ac590ea329c5fcd928a149f8e9798bae828f3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 33/34] fix: shut down despite clients that do not read

---
 src/core/event/mod.rs |  1 +
 src/core/event/tcp.rs | 50 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index a4c4d29..b16a405 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -23,6 +23,7 @@ pub struct EventManager {
     inbound_handle: task::JoinHandle<()>,
     inbound_abort: AbortHandle,
     outbound_handle: task::JoinHandle<()>,
+    outbound_abort: AbortHandle,
     closing: Arc<Notify>,
     tx: mpsc::Sender<Vec<u8>>,
 }
diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index 852d6cb..bba870c 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -10,6 +10,7 @@ use crate::core::transport::{
 use std::collections::HashMap;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::{
     net::{TcpListener, TcpStream},
     runtime::Handle,
@@ -17,6 +18,10 @@ use tokio::{
     time,
 };
 
+/// Time that the remote of a stream has to read what is left to be sent once
+/// there is no more listening
+const CLOSE_TIMEOUT: Duration = Duration::from_secs(1);
+
 /// Implementation of EventManager for TCP stream
 impl EventManager {
     pub fn for_tcp_stream<A, B>(
@@ -43,13 +48,16 @@ impl EventManager {
         let closing = Arc::new(Notify::new());
         let rx =
             Outbound::new(rx, Arc::clone(&closing), inbound_abort.clone());
-        let outbound_handle =
-            handle.spawn(tcp_stream_outbound_loop(rx, writer));
+        let (outbound_handle, outbound_abort) = super::spawn_abortable(
+            &handle,
+            tcp_stream_outbound_loop(rx, writer),
+        );
 
         EventManager {
             inbound_handle,
             inbound_abort,
             outbound_handle,
+            outbound_abort,
             closing,
             tx,
         }
@@ -180,6 +188,7 @@ async fn tcp_listener_spawn_stream<A, B>(
         inbound_handle,
         inbound_abort,
         outbound_handle,
+        outbound_abort,
         tx,
         ..
     } = EventManager::for_tcp_stream(
@@ -196,13 +205,15 @@ async fn tcp_listener_spawn_stream<A, B>(
     // Wait for the stream to close, or stop reading from it if there is no
     // more listening, and remove the connection, which enables the outbound
     // half to exit as it has no more senders
-    let listening = async { while listening_rx.recv().await.is_some() {} };
-    futures::pin_mut!(listening);
-    let result = match future::select(inbound_handle, listening).await {
-        Either::Left((result, _)) => result,
-        Either::Right((_, inbound_handle)) => {
-            inbound_abort.abort();
-            inbound_handle.await
+    let result = {
+        let stopped = wait_until_not_listening(&mut listening_rx);
+        futures::pin_mut!(stopped);
+        match future::select(inbound_handle, stopped).await {
+            Either::Left((result, _)) => result,
+            Either::Right((_, inbound_handle)) => {
+                inbound_abort.abort();
+                inbound_handle.await
+            }
         }
     };
     if let Err(x) = result {
@@ -211,11 +222,30 @@ async fn tcp_listener_spawn_stream<A, B>(
 
     connections.lock().await.remove(&addr);
 
-    if let Err(x) = outbound_handle.await {
+    // Wait for everything to be sent, but once there is no more listening, do
+    // not wait forever for a remote that reads nothing
+    let expired = async {
+        wait_until_not_listening(&mut listening_rx).await;
+        time::delay_for(CLOSE_TIMEOUT).await;
+    };
+    futures::pin_mut!(expired);
+    let result = match future::select(outbound_handle, expired).await {
+        Either::Left((result, _)) => result,
+        Either::Right((_, outbound_handle)) => {
+            outbound_abort.abort();
+            outbound_handle.await
+        }
+    };
+    if let Err(x) = result {
         error!("Outbound processing exited badly: {}", x);
     }
 }
 
+/// Waits until the listener is gone
+async fn wait_until_not_listening(listening_rx: &mut watch::Receiver<()>) {
+    while listening_rx.recv().await.is_some() {}
+}
+
 /// Loops continuously, reading outbound data and sending it out over the wire
 async fn tcp_stream_outbound_loop<S, E>(
     mut rx: Outbound<Vec<u8>>,
-- 
2.43.0


From a39fb5d9bf356a8142ef1f518c0cef7160f6e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 34/34] fix: return data at hand without waiting for another
 read

---
 src/utils/delimiter.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/utils/delimiter.rs b/src/utils/delimiter.rs
index 1c20ef7..4e6b8e3 100644
--- a/src/utils/delimiter.rs
+++ b/src/utils/delimiter.rs
@@ -100,9 +100,19 @@ impl DelimiterReader {
             self.buf_filled += bytes_read;
         }
 
+        self.take_data(data, delimiter_len).unwrap_or(0)
+    }
+
+    /// Copies the data in front of the next delimiter within the buffer, if
+    /// there is one, to the external buffer and makes room for new data
+    fn take_data(
+        &mut self,
+        data: &mut [u8],
+        delimiter_len: usize,
+    ) -> Option<usize> {
         // Scan for the delimiter starting from the last place searched, looking
         // only at the portion of our buffer that has been filled
-        let mut size = 0;
+        let mut size = None;
         if self.buf_filled >= delimiter_len {
             for i in self.buf_pos..=(self.buf_filled - delimiter_len) {
                 // If we have a match, we want to copy the contents (minus the delimiter) to the
@@ -115,7 +125,7 @@ impl DelimiterReader {
                     self.buf.rotate_left(i + delimiter_len);
                     self.buf_filled -= i + delimiter_len;
                     self.buf_pos = 0;
-                    size = i;
+                    size = Some(i);
                     break;
                 }
 
@@ -132,6 +142,12 @@ impl DelimiterReader {
     where
         F: FnOnce(&mut [u8]) -> io::Result<usize>,
     {
+        // Data that we already have must not wait for more to be read, which
+        // could block for as long as the other side has nothing to send
+        if let Some(size) = self.take_data(data, self.delimiter.len()) {
+            return Ok(size);
+        }
+
         let preread_result = self.pre_read();
 
         // Attempt to fill up as much of buffer as possible without spilling over
@@ -165,6 +181,12 @@ impl DelimiterReader {
         R: FnOnce(&mut [u8]) -> F,
         F: Future<Output = io::Result<usize>>,
     {
+        // Data that we already have must not wait for more to be read, which
+        // could block for as long as the other side has nothing to send
+        if let Some(size) = self.take_data(data, self.delimiter.len()) {
+            return Ok(size);
+        }
+
         let preread_result = self.pre_read();
 
         // Attempt to fill up as much of buffer as possible without spilling over
-- 
2.43.0

