From 3b8a6ac78a636b4d335d6a1746383745d35877f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 01/23] fix: do not pass events of unregistered namespaces to
 the global handlers

---
 src/ipc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index b663a64..6f3723e 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -47,9 +47,13 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             continue;
         }
 
-        if let Some(namespace) = event.namespace().clone().and_then(|n| namespaces.get(&n)) {
+        if let Some(namespace) = event.namespace() {
             tracing::trace!("Passing event to namespace listener");
-            let handler = Arc::clone(&namespace.handler);
+            // without a registered namespace there's no handler for the event
+            let handler = namespaces
+                .get(namespace)
+                .map(|n| Arc::clone(&n.handler))
+                .unwrap_or_default();
             handle_event(Context::clone(&ctx), handler, event);
         } else {
             tracing::trace!("Passing event to global listener");
-- 
2.43.0


From 8d4fed07e882edbe4138971dbe519bb1dbd7945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 02/23] fix: route replies to closed reply listeners like any
 other event

---
 src/ipc/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 6f3723e..060688a 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -21,7 +21,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
     mut read_half: S::OwnedSplitReadHalf,
     ctx: Context,
 ) {
-    while let Ok(event) = Event::from_async_read(&mut read_half).await {
+    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {
         tracing::trace!(
             "event.name = {:?}, event.namespace = {:?}, event.reference_id = {:?}",
             event.name(),
@@ -34,10 +34,11 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                if let Err(event) = sender.send(event).await {
-                    handle_event(Context::clone(&ctx), Arc::clone(&handler), event.0);
+                match sender.send(event).await {
+                    Ok(()) => continue,
+                    // the listener is gone so the event is a regular one
+                    Err(e) => event = e.0,
                 }
-                continue;
             }
             tracing::trace!("No response listener found for event. Passing to regular listener.");
         }
-- 
2.43.0


From 25307872170a0e95b312df87d68b36b25e8ac0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 03/23] fix: do not remove the reply listener of an own request
 when a peer's event has the same id

---
 src/ipc/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 060688a..495c051 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -67,7 +67,6 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
 /// Handles a single event in a different tokio context
 fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
     ctx.set_ref_id(Some(event.id()));
-    let event_id = event.id();
 
     tokio::spawn(async move {
         match handler.handle_event(&ctx, event).await {
@@ -80,7 +79,6 @@ fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
                 {
                     tracing::error!("Error occurred when sending error response: {:?}", e);
                 }
-                ctx.reply_listeners.remove(&event_id);
             }
             Err(e) => {
                 // emit an error event
-- 
2.43.0


From c0f7074818c8c42c0754e32e4e134a1b1cee30e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 04/23] fix: create end events with the end event type

---
 src/events/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 2ad6a44..19e0459 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -65,7 +65,7 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(data))]
     #[inline]
     pub fn end(namespace: Option<String>, name: String, data: Bytes, ref_id: u64) -> Self {
-        Self::new(namespace, name, data, Some(ref_id), EventType::Response)
+        Self::new(namespace, name, data, Some(ref_id), EventType::End)
     }
 
     /// Creates a new event
-- 
2.43.0


From 1739b56d07451363ece14545bccc1b07d4fef409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 05/23] fix: end the response stream instead of panicking when
 polled after a timeout

---
 .../emit_metadata_with_response_stream.rs     | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index d90d40b..52cbded 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -131,23 +131,25 @@ impl Stream for ResponseStream {
         }
 
         match self.fut.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready(r) => match r {
-                Ok((event, ctx, tx)) => {
-                    self.fut = None;
-
-                    if let Some(event) = event {
-                        if event.event_type() != EventType::End {
-                            self.ctx = Some(ctx);
-                            self.receiver = Some(tx);
+            Poll::Ready(r) => {
+                self.fut = None;
+
+                match r {
+                    Ok((event, ctx, tx)) => {
+                        if let Some(event) = event {
+                            if event.event_type() != EventType::End {
+                                self.ctx = Some(ctx);
+                                self.receiver = Some(tx);
+                            }
+
+                            Poll::Ready(Some(Ok(event)))
+                        } else {
+                            Poll::Ready(None)
                         }
-
-                        Poll::Ready(Some(Ok(event)))
-                    } else {
-                        Poll::Ready(None)
                     }
+                    Err(e) => Poll::Ready(Some(Err(e))),
                 }
-                Err(e) => Poll::Ready(Some(Err(e))),
-            },
+            }
             Poll::Pending => Poll::Pending,
         }
     }
-- 
2.43.0


From 142f2fef932f0421b02b32290c5578ddf30ba90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 06/23] fix: end the response stream after an error event

---
 .../stream_emitter/emit_metadata_with_response_stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 52cbded..1029a0d 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -96,6 +96,11 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
 
 impl Unpin for ResponseStream {}
 
+/// Returns if the event is the last one of a response stream
+fn is_final(event: &Event) -> bool {
+    matches!(event.event_type(), EventType::End | EventType::Error)
+}
+
 impl Stream for ResponseStream {
     type Item = Result<Event>;
 
@@ -122,7 +127,7 @@ impl Stream for ResponseStream {
                     }
                 }?;
 
-                if event.is_none() || event.as_ref().unwrap().event_type() == EventType::End {
+                if event.as_ref().map_or(true, is_final) {
                     remove_reply_listener(&ctx, event_id).await;
                 }
 
@@ -137,7 +142,7 @@ impl Stream for ResponseStream {
                 match r {
                     Ok((event, ctx, tx)) => {
                         if let Some(event) = event {
-                            if event.event_type() != EventType::End {
+                            if !is_final(&event) {
                                 self.ctx = Some(ctx);
                                 self.receiver = Some(tx);
                             }
-- 
2.43.0


From d6253986b310390203386b7240b000afe43ecdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 07/23] fix: unregister reply listeners of timed out, failed
 and dropped requests

---
 src/ipc/context.rs                            | 29 +++++++++++++-
 .../emit_metadata_with_response.rs            |  7 +---
 .../emit_metadata_with_response_stream.rs     | 40 +++++--------------
 3 files changed, 39 insertions(+), 37 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index 12f1c56..c3c7014 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -20,6 +20,27 @@ use crate::prelude::Response;
 
 pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::Sender<Event>>>;
 
+/// Receives the replies to an event.
+/// The listener is unregistered when it is dropped.
+pub(crate) struct ReplyListener {
+    event_id: u64,
+    reply_listeners: ReplyListeners,
+    receiver: Receiver<Event>,
+}
+
+impl ReplyListener {
+    #[inline]
+    pub(crate) async fn recv(&mut self) -> Option<Event> {
+        self.receiver.recv().await
+    }
+}
+
+impl Drop for ReplyListener {
+    fn drop(&mut self) {
+        self.reply_listeners.remove(&self.event_id);
+    }
+}
+
 /// An object provided to each callback function.
 /// Currently it only holds the event emitter to emit response events in event callbacks.
 /// ```rust
@@ -124,11 +145,15 @@ impl Context {
     /// Registers a reply listener for a given event
     #[inline]
     #[tracing::instrument(level = "debug", skip(self))]
-    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<Receiver<Event>> {
+    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<ReplyListener> {
         let (rx, tx) = mpsc::channel(8);
         self.reply_listeners.insert(event_id, rx);
 
-        Ok(tx)
+        Ok(ReplyListener {
+            event_id,
+            reply_listeners: Arc::clone(&self.reply_listeners),
+            receiver: tx,
+        })
     }
 
     /// Stops the listener and closes the connection
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index acd3b04..95e96df 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -1,4 +1,3 @@
-use crate::context::Context;
 use crate::error::Error;
 use crate::error_event::ErrorEventData;
 use crate::event::{Event, EventType};
@@ -65,7 +64,7 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
                     }
                 }?;
 
-                remove_reply_listener(&ctx, event_id).await;
+                drop(tx);
 
                 if reply.event_type() == EventType::Error {
                     Err(reply.payload::<ErrorEventData>()?.into())
@@ -77,7 +76,3 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
         self.fut.as_mut().unwrap().as_mut().poll(cx)
     }
 }
-
-pub(crate) async fn remove_reply_listener(ctx: &Context, event_id: u64) {
-    ctx.reply_listeners.remove(&event_id);
-}
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 1029a0d..f71da16 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -1,8 +1,7 @@
-use crate::context::Context;
+use crate::context::ReplyListener;
 use crate::error::{Error, Result};
 use crate::event::{Event, EventType};
 use crate::ipc::stream_emitter::emit_metadata::EmitMetadata;
-use crate::ipc::stream_emitter::emit_metadata_with_response::remove_reply_listener;
 use crate::payload::IntoPayload;
 use crate::poll_unwrap;
 use futures_core::Stream;
@@ -11,7 +10,6 @@ use std::pin::Pin;
 use std::task::Poll;
 use std::time::Duration;
 use futures_core::future::BoxFuture;
-use tokio::sync::mpsc::Receiver;
 
 /// A metadata object returned after waiting for a reply to an event
 /// This object needs to be awaited for to get the actual reply
@@ -21,27 +19,18 @@ pub struct EmitMetadataWithResponseStream<P: IntoPayload> {
     pub(crate) emit_metadata: Option<EmitMetadata<P>>,
 }
 
-type StreamFutureResult = Result<(Option<Event>, Context, Receiver<Event>)>;
+type StreamFutureResult = Result<(Option<Event>, ReplyListener)>;
 
 /// An asynchronous stream one can read all responses to a specific event from.
 pub struct ResponseStream {
-    event_id: u64,
-    ctx: Option<Context>,
-    receiver: Option<Receiver<Event>>,
+    receiver: Option<ReplyListener>,
     timeout: Duration,
     fut: Option<BoxFuture<'static, StreamFutureResult>>,
 }
 
 impl ResponseStream {
-    pub(crate) fn new(
-        event_id: u64,
-        timeout: Duration,
-        ctx: Context,
-        receiver: Receiver<Event>,
-    ) -> Self {
+    pub(crate) fn new(timeout: Duration, receiver: ReplyListener) -> Self {
         Self {
-            event_id,
-            ctx: Some(ctx),
             receiver: Some(receiver),
             timeout,
             fut: None,
@@ -87,7 +76,7 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
                 let tx = ctx.register_reply_listener(event_id).await?;
                 emit_metadata.await?;
 
-                Ok(ResponseStream::new(event_id, timeout, ctx, tx))
+                Ok(ResponseStream::new(timeout, tx))
             }))
         }
         self.fut.as_mut().unwrap().as_mut().poll(cx)
@@ -109,13 +98,11 @@ impl Stream for ResponseStream {
         cx: &mut std::task::Context<'_>,
     ) -> Poll<Option<Self::Item>> {
         if self.fut.is_none() {
-            if self.ctx.is_none() || self.receiver.is_none() {
-                return Poll::Ready(None);
-            }
-            let ctx = self.ctx.take().unwrap();
-            let mut receiver = self.receiver.take().unwrap();
+            let mut receiver = match self.receiver.take() {
+                Some(receiver) => receiver,
+                None => return Poll::Ready(None),
+            };
             let timeout = self.timeout;
-            let event_id = self.event_id;
 
             self.fut = Some(Box::pin(async move {
                 let event: Option<Event> = tokio::select! {
@@ -127,11 +114,7 @@ impl Stream for ResponseStream {
                     }
                 }?;
 
-                if event.as_ref().map_or(true, is_final) {
-                    remove_reply_listener(&ctx, event_id).await;
-                }
-
-                Ok((event, ctx, receiver))
+                Ok((event, receiver))
             }));
         }
 
@@ -140,10 +123,9 @@ impl Stream for ResponseStream {
                 self.fut = None;
 
                 match r {
-                    Ok((event, ctx, tx)) => {
+                    Ok((event, tx)) => {
                         if let Some(event) = event {
                             if !is_final(&event) {
-                                self.ctx = Some(ctx);
                                 self.receiver = Some(tx);
                             }
 
-- 
2.43.0


From e50787c4fedd2899f33d7e53fa2b9048c1e7b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 08/23] fix: reject corrupted length fields of received frames
 and packages

---
 src/events/event.rs           |  8 +++++---
 src/protocol/encrypted/mod.rs |  4 ++--
 src/utils.rs                  | 24 ++++++++++++++++++++++++
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 19e0459..37be3ee 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -1,6 +1,7 @@
 use crate::error::{Error, Result};
 use crate::events::generate_event_id;
 use crate::events::payload::FromPayload;
+use crate::utils::read_bytes;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use num_enum::{IntoPrimitive, TryFromPrimitive};
@@ -138,7 +139,9 @@ impl Event {
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> Result<Self> {
         let total_length = reader.read_u64().await?;
         let header_length = reader.read_u16().await?;
-        let data_length = total_length - header_length as u64;
+        let data_length = total_length
+            .checked_sub(header_length as u64)
+            .ok_or(Error::CorruptedEvent)?;
         tracing::trace!(total_length, header_length, data_length);
 
         let mut header_bytes = vec![0u8; header_length as usize];
@@ -146,8 +149,7 @@ impl Event {
         // additional header fields can be added a the end because when reading they will just be ignored
         let header: EventHeader = EventHeader::from_read(&mut Cursor::new(header_bytes))?;
 
-        let mut buf = vec![0u8; data_length as usize];
-        reader.read_exact(&mut buf).await?;
+        let buf = read_bytes(reader, data_length).await?;
         let event = Event {
             header,
             data: Bytes::from(buf),
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 62133f0..2c128be 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -14,6 +14,7 @@ use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};
 
 use crate::prelude::encrypted::crypt_handling::CipherBox;
 use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener};
+use crate::utils::read_bytes;
 
 pub type OptionalFuture<T> = Option<Pin<Box<dyn Future<Output = T> + Send + Sync>>>;
 
@@ -149,8 +150,7 @@ impl EncryptedPackage {
 
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
         let length = reader.read_u32().await?;
-        let mut bytes_buf = vec![0u8; length as usize];
-        reader.read_exact(&mut bytes_buf).await?;
+        let bytes_buf = read_bytes(reader, length as u64).await?;
 
         Ok(Self {
             bytes: Bytes::from(bytes_buf),
diff --git a/src/utils.rs b/src/utils.rs
index a5b247c..06b432e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,27 @@
+use std::cmp::min;
+use std::io;
+use tokio::io::{AsyncRead, AsyncReadExt};
+
+/// Reads the given number of bytes.
+/// The buffer grows with the bytes that have been received so that a wrong length
+/// doesn't allocate more memory.
+pub(crate) async fn read_bytes<R: AsyncRead + Unpin>(
+    reader: &mut R,
+    length: u64,
+) -> io::Result<Vec<u8>> {
+    const CHUNK_SIZE: u64 = 64 * 1024;
+    let mut buf = Vec::new();
+
+    while (buf.len() as u64) < length {
+        let start = buf.len();
+        let remaining = length - start as u64;
+        buf.resize(start + min(remaining, CHUNK_SIZE) as usize, 0);
+        reader.read_exact(&mut buf[start..]).await?;
+    }
+
+    Ok(buf)
+}
+
 #[cfg(feature = "encryption_layer")]
 /// Generates a secret that can be passed to the options of the encryption layer and for creating
 /// a public key
-- 
2.43.0


From 8388ef42939c23ddd5b17b80e96b4cd812e42ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 09/23] fix: do not allocate memory for corrupted lengths in
 payloads

---
 src/events/error_event.rs |  4 ++--
 src/events/payload.rs     |  7 +++----
 src/utils.rs              | 14 ++++++++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 90c78e3..99a7b29 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -2,6 +2,7 @@ use crate::context::Context;
 use crate::error::Result;
 use crate::payload::{FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
+use crate::utils::read_payload_bytes;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use std::error::Error;
@@ -44,8 +45,7 @@ impl FromPayload for ErrorEventData {
     fn from_payload<R: Read>(mut reader: R) -> Result<Self> {
         let code = reader.read_u16::<BigEndian>()?;
         let message_len = reader.read_u32::<BigEndian>()?;
-        let mut message_buf = vec![0u8; message_len as usize];
-        reader.read_exact(&mut message_buf)?;
+        let message_buf = read_payload_bytes(&mut reader, message_len as u64)?;
         let message = String::from_utf8(message_buf).map_err(|_| IPCError::CorruptedEvent)?;
 
         Ok(ErrorEventData { code, message })
diff --git a/src/events/payload.rs b/src/events/payload.rs
index 0d70d7f..4186fcd 100644
--- a/src/events/payload.rs
+++ b/src/events/payload.rs
@@ -1,4 +1,5 @@
 use crate::prelude::IPCResult;
+use crate::utils::read_payload_bytes;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use std::io::Read;
@@ -115,12 +116,10 @@ impl<P1: IntoPayload, P2: IntoPayload> IntoPayload for TandemPayload<P1, P2> {
 impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     fn from_payload<R: Read>(mut reader: R) -> IPCResult<Self> {
         let p1_length = reader.read_u64::<BigEndian>()?;
-        let mut load1_bytes = vec![0u8; p1_length as usize];
-        reader.read_exact(&mut load1_bytes)?;
+        let load1_bytes = read_payload_bytes(&mut reader, p1_length)?;
 
         let p2_length = reader.read_u64::<BigEndian>()?;
-        let mut load2_bytes = vec![0u8; p2_length as usize];
-        reader.read_exact(&mut load2_bytes)?;
+        let load2_bytes = read_payload_bytes(&mut reader, p2_length)?;
 
         Ok(Self {
             load1: P1::from_payload(load1_bytes.as_slice())?,
diff --git a/src/utils.rs b/src/utils.rs
index 06b432e..a303d2e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,5 +1,6 @@
 use std::cmp::min;
 use std::io;
+use std::io::{ErrorKind, Read};
 use tokio::io::{AsyncRead, AsyncReadExt};
 
 /// Reads the given number of bytes.
@@ -22,6 +23,19 @@ pub(crate) async fn read_bytes<R: AsyncRead + Unpin>(
     Ok(buf)
 }
 
+/// Reads the given number of bytes of a payload.
+/// A wrong length doesn't allocate more memory than required for the available bytes.
+pub(crate) fn read_payload_bytes<R: Read>(reader: &mut R, length: u64) -> io::Result<Vec<u8>> {
+    let mut buf = Vec::new();
+    reader.take(length).read_to_end(&mut buf)?;
+
+    if (buf.len() as u64) < length {
+        return Err(ErrorKind::UnexpectedEof.into());
+    }
+
+    Ok(buf)
+}
+
 #[cfg(feature = "encryption_layer")]
 /// Generates a secret that can be passed to the options of the encryption layer and for creating
 /// a public key
-- 
2.43.0


From 90cf2b1956cbb78920b4780c49682cfe1adc074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 10/23] fix: do not allocate memory for corrupted lengths in
 bincode payloads

---
 src/events/payload_serializer/serialize_bincode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/events/payload_serializer/serialize_bincode.rs b/src/events/payload_serializer/serialize_bincode.rs
index afbc75b..5e578ca 100644
--- a/src/events/payload_serializer/serialize_bincode.rs
+++ b/src/events/payload_serializer/serialize_bincode.rs
@@ -12,7 +12,11 @@ pub fn serialize<T: Serialize>(data: T) -> SerializationResult<Bytes> {
 }
 
 #[inline]
-pub fn deserialize<R: Read, T: DeserializeOwned>(reader: R) -> SerializationResult<T> {
-    let type_data = bincode::deserialize_from(reader)?;
+pub fn deserialize<R: Read, T: DeserializeOwned>(mut reader: R) -> SerializationResult<T> {
+    let mut buf = Vec::new();
+    reader.read_to_end(&mut buf)?;
+    // deserializing from a slice checks the stored lengths before allocating memory for them
+    let type_data = bincode::deserialize(&buf)?;
+
     Ok(type_data)
 }
-- 
2.43.0


From 4a8e28f5b1845d0b3587e76e7c1811b085b5d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 11/23] fix: refuse to emit events with a header that exceeds
 the maximum length

---
 src/events/event.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 37be3ee..3100e2c 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -162,7 +162,8 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(self))]
     pub fn into_bytes(self) -> Result<Bytes> {
         let header_bytes = self.header.into_bytes();
-        let header_length = header_bytes.len() as u16;
+        let header_length = u16::try_from(header_bytes.len())
+            .map_err(|_| Error::from("The name and namespace of the event are too long"))?;
         let data_length = self.data.len();
         let total_length = header_length as u64 + data_length as u64;
         tracing::trace!(total_length, header_length, data_length);
-- 
2.43.0


From c01c7cc851b12218548cb38a9966b5d4ffa84fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 12/23] fix: write events completely when the emitting future
 is dropped

---
 src/ipc/stream_emitter/emit_metadata.rs | 44 ++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata.rs b/src/ipc/stream_emitter/emit_metadata.rs
index b5a3e85..2b8fbb1 100644
--- a/src/ipc/stream_emitter/emit_metadata.rs
+++ b/src/ipc/stream_emitter/emit_metadata.rs
@@ -12,6 +12,7 @@ use std::ops::DerefMut;
 use std::pin::Pin;
 use std::task::Poll;
 use tokio::io::AsyncWriteExt;
+use tokio::runtime::Handle;
 
 /// A metadata object returned after emitting an event.
 /// To send the event this object needs to be awaited
@@ -89,14 +90,47 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadata<P> {
             self.fut = Some(Box::pin(async move {
                 let event_id = event.id();
                 let event_bytes = event.into_bytes()?;
-                let mut stream = stream.lock().await;
-                stream.deref_mut().write_all(&event_bytes[..]).await?;
-                stream.deref_mut().flush().await?;
-                tracing::trace!(bytes_len = event_bytes.len());
+                let mut stream = stream.lock_owned().await;
+                let write = async move {
+                    stream.deref_mut().write_all(&event_bytes[..]).await?;
+                    stream.deref_mut().flush().await?;
+                    tracing::trace!(bytes_len = event_bytes.len());
 
-                Ok(event_id)
+                    Ok(event_id)
+                };
+
+                CompleteOnDrop(Some(Box::pin(write))).await
             }));
         }
         self.fut.as_mut().unwrap().as_mut().poll(cx)
     }
 }
+
+type WriteFuture = Pin<Box<dyn Future<Output = error::Result<u64>> + Send + Sync>>;
+
+/// Writes an event to the stream. When it's dropped before the event was written
+/// the remaining part is written in the background, because an incomplete event
+/// would corrupt all events that are written to the stream after it.
+struct CompleteOnDrop(Option<WriteFuture>);
+
+impl Future for CompleteOnDrop {
+    type Output = error::Result<u64>;
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Self::Output> {
+        let write = self.0.as_mut().expect("poll after future was done");
+        let result = write.as_mut().poll(cx);
+        if result.is_ready() {
+            self.0 = None;
+        }
+
+        result
+    }
+}
+
+impl Drop for CompleteOnDrop {
+    fn drop(&mut self) {
+        if let (Some(write), Ok(handle)) = (self.0.take(), Handle::try_current()) {
+            handle.spawn(write);
+        }
+    }
+}
-- 
2.43.0


From ab66e21b073c97d5061746dff5b09e38601ef0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 13/23] fix: do not panic when the system time is before the
 unix epoch

---
 src/events/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/events/mod.rs b/src/events/mod.rs
index 2e039d5..ba77705 100644
--- a/src/events/mod.rs
+++ b/src/events/mod.rs
@@ -15,7 +15,10 @@ pub(crate) fn generate_event_id() -> u64 {
     lazy_static::lazy_static! {
         static ref COUNTER: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
     }
-    let epoch_elapsed = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
+    // the clock might be set to a time before the epoch
+    let epoch_elapsed = SystemTime::now()
+        .duration_since(UNIX_EPOCH)
+        .unwrap_or_default();
 
     (epoch_elapsed.as_secs() % u16::MAX as u64) << 48
         | (epoch_elapsed.subsec_millis() as u64) << 32
-- 
2.43.0


From 486ea3a915ed207ad69e3510b7a44c00e764903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 14/23] fix: prefer received replies over an elapsed timeout

---
 src/ipc/stream_emitter/emit_metadata_with_response.rs        | 2 ++
 src/ipc/stream_emitter/emit_metadata_with_response_stream.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index 95e96df..f505a18 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -56,6 +56,8 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
                 emit_metadata.await?;
 
                 let reply = tokio::select! {
+                    // a reply that was received in time is never dropped in favor of the timeout
+                    biased;
                     tx_result = tx.recv() => {
                         tx_result.ok_or(Error::SendError)
                     }
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index f71da16..745457c 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -106,6 +106,8 @@ impl Stream for ResponseStream {
 
             self.fut = Some(Box::pin(async move {
                 let event: Option<Event> = tokio::select! {
+                    // a reply that was received in time is never dropped in favor of the timeout
+                    biased;
                     tx_result = receiver.recv() => {
                         Ok(tx_result)
                     }
-- 
2.43.0


From 65b3a09ff767f86dc799ebd9b4e08a7fa3e0a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 15/23] fix: do not lose data and wakeups when reading from an
 encrypted stream

---
 src/protocol/encrypted/io_impl.rs | 41 +++++++++++--------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 9182e21..bad7c51 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -51,47 +51,34 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
         cx: &mut Context<'_>,
         buf: &mut ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
-        if self.fut.is_none() {
-            if self.remaining.len() > 0 {
+        loop {
+            if self.remaining.len() > 0 || buf.remaining() == 0 {
                 let max_copy = min(buf.remaining(), self.remaining.len());
                 let bytes = self.remaining.copy_to_bytes(max_copy);
                 buf.put_slice(&bytes);
                 tracing::trace!("{} bytes read from buffer", bytes.len());
-            }
 
-            if buf.remaining() > 0 {
+                return Poll::Ready(Ok(()));
+            }
+            if self.fut.is_none() {
                 tracing::trace!("{} bytes remaining to read", buf.remaining());
                 let reader = self.inner.take().unwrap();
                 let cipher = self.cipher.take().unwrap();
 
                 self.fut = Some(Box::pin(async move { read_bytes(reader, cipher).await }));
-            } else {
-                return Poll::Ready(Ok(()));
             }
-        }
-        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, reader, cipher)) => {
-                self.inner = Some(reader);
-                self.cipher = Some(cipher);
-                match result {
-                    Ok(bytes) => {
-                        self.fut = None;
-                        self.remaining.put(bytes);
-                        let max_copy = min(self.remaining.len(), buf.remaining());
-                        let bytes = self.remaining.copy_to_bytes(max_copy);
-                        buf.put_slice(&bytes);
-                        tracing::trace!("{} bytes read from buffer", bytes.len());
-
-                        if buf.remaining() == 0 {
-                            Poll::Ready(Ok(()))
-                        } else {
-                            Poll::Pending
-                        }
+            match self.fut.as_mut().unwrap().as_mut().poll(cx) {
+                Poll::Ready((result, reader, cipher)) => {
+                    self.inner = Some(reader);
+                    self.cipher = Some(cipher);
+                    self.fut = None;
+                    match result {
+                        Ok(bytes) => self.remaining.put(bytes),
+                        Err(e) => return Poll::Ready(Err(e)),
                     }
-                    Err(e) => Poll::Ready(Err(e)),
                 }
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From 63d106957a87abe0b7cfab47398f7f62914c68a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 16/23] fix: complete the shutdown of an encrypted stream

---
 src/protocol/encrypted/io_impl.rs | 24 +++++++++++++-----------
 src/protocol/encrypted/mod.rs     |  2 +-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index bad7c51..467ad9c 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -166,21 +166,23 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
                 Poll::Ready(result) => match result {
                     Ok(_) => {
                         let mut writer = self.inner.take().unwrap();
-                        self.fut_shutdown = Some(Box::pin(async move { writer.shutdown().await }));
-                        Poll::Pending
+                        self.fut_shutdown = Some(Box::pin(async move {
+                            let result = writer.shutdown().await;
+                            (result, writer)
+                        }));
                     }
-                    Err(e) => Poll::Ready(Err(e)),
+                    Err(e) => return Poll::Ready(Err(e)),
                 },
-                Poll::Pending => Poll::Pending,
+                Poll::Pending => return Poll::Pending,
             }
-        } else {
-            match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
-                Poll::Ready(result) => {
-                    self.fut_shutdown = None;
-                    Poll::Ready(result)
-                }
-                Poll::Pending => Poll::Pending,
+        }
+        match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
+            Poll::Ready((result, writer)) => {
+                self.inner = Some(writer);
+                self.fut_shutdown = None;
+                Poll::Ready(result)
             }
+            Poll::Pending => Poll::Pending,
         }
     }
 }
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 2c128be..81eaccf 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -115,7 +115,7 @@ pub struct EncryptedWriteStream<T: 'static + AsyncWrite + Unpin + Send + Sync> {
     buffer: BytesMut,
     fut_write: OptionalFuture<(io::Result<()>, T, CipherBox)>,
     fut_flush: OptionalFuture<(io::Result<()>, T, CipherBox)>,
-    fut_shutdown: OptionalFuture<io::Result<()>>,
+    fut_shutdown: OptionalFuture<(io::Result<()>, T)>,
 }
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
-- 
2.43.0


From a5ce3ba69281843153c86aa1d8ec1a95f2f63627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 17/23] fix: keep encrypted streams usable when a write or
 flush is abandoned

---
 src/protocol/encrypted/io_impl.rs | 74 +++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 23 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 467ad9c..69c3030 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -85,44 +85,72 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> Unpin for EncryptedWriteStream<T> {}
 
+impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
+    /// Completes sending the current package
+    fn poll_package(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        if let Some(fut) = self.fut_write.as_mut() {
+            match fut.as_mut().poll(cx) {
+                Poll::Ready((result, writer, cipher)) => {
+                    self.inner = Some(writer);
+                    self.cipher = Some(cipher);
+                    self.fut_write = None;
+
+                    Poll::Ready(result)
+                }
+                Poll::Pending => Poll::Pending,
+            }
+        } else {
+            Poll::Ready(Ok(()))
+        }
+    }
+}
+
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWriteStream<T> {
     fn poll_write(
         mut self: Pin<&mut Self>,
         cx: &mut Context<'_>,
         buf: &[u8],
     ) -> Poll<Result<usize, Error>> {
-        let written_length = buf.len();
-
-        if self.fut_write.is_none() {
-            self.buffer.put(Bytes::from(buf.to_vec()));
-
-            if self.buffer.len() >= WRITE_BUF_SIZE {
-                tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
-                let buffer_len = self.buffer.len();
-                let max_copy = min(u32::MAX as usize, buffer_len);
-                let plaintext = self.buffer.copy_to_bytes(max_copy);
-                let writer = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
-
-                self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)))
-            } else {
-                return Poll::Ready(Ok(written_length));
+        // operations that have been abandoned must be completed before continuing
+        if self.fut_flush.is_some() {
+            match self.as_mut().poll_flush(cx) {
+                Poll::Ready(Ok(())) => {}
+                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+                Poll::Pending => return Poll::Pending,
             }
         }
+        match self.poll_package(cx) {
+            Poll::Ready(Ok(())) => {}
+            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+            Poll::Pending => return Poll::Pending,
+        }
+        let written_length = buf.len();
+        self.buffer.put(Bytes::from(buf.to_vec()));
 
-        match self.fut_write.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_write = None;
+        if self.buffer.len() >= WRITE_BUF_SIZE {
+            tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
+            let buffer_len = self.buffer.len();
+            let max_copy = min(u32::MAX as usize, buffer_len);
+            let plaintext = self.buffer.copy_to_bytes(max_copy);
+            let writer = self.inner.take().unwrap();
+            let cipher = self.cipher.take().unwrap();
 
-                Poll::Ready(result.map(|_| written_length))
+            self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)));
+            // the data is accepted even if the package can't be sent yet
+            if let Poll::Ready(Err(e)) = self.poll_package(cx) {
+                return Poll::Ready(Err(e));
             }
-            Poll::Pending => Poll::Pending,
         }
+
+        Poll::Ready(Ok(written_length))
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        match self.poll_package(cx) {
+            Poll::Ready(Ok(())) => {}
+            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+            Poll::Pending => return Poll::Pending,
+        }
         let buffer_len = self.buffer.len();
 
         if self.fut_flush.is_none() {
-- 
2.43.0


From 3bffe6cfc4698edcf8a24a8c3518ce91cf54c1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 18/23] fix: keep accepting encrypted connections while key
 exchanges fail or stall

---
 src/protocol/encrypted/mod.rs           | 11 ++++++++--
 src/protocol/encrypted/protocol_impl.rs | 29 +++++++++++++++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 81eaccf..955726a 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -10,10 +10,12 @@ use std::future::Future;
 use std::io;
 use std::pin::Pin;
 use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite};
+use tokio::sync::Mutex;
+use tokio::task::JoinSet;
 use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};
 
 use crate::prelude::encrypted::crypt_handling::CipherBox;
-use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener};
+use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener, IPCResult};
 use crate::utils::read_bytes;
 
 pub type OptionalFuture<T> = Option<Pin<Box<dyn Future<Output = T> + Send + Sync>>>;
@@ -51,11 +53,16 @@ impl<T: Clone + Default> Default for EncryptionOptions<T> {
 pub struct EncryptedListener<T: AsyncStreamProtocolListener> {
     inner: T,
     keys: Keys,
+    key_exchanges: Mutex<JoinSet<IPCResult<(EncryptedStream<T::Stream>, T::RemoteAddressType)>>>,
 }
 
 impl<T: AsyncStreamProtocolListener> EncryptedListener<T> {
     pub fn new(inner: T, keys: Keys) -> Self {
-        Self { inner, keys }
+        Self {
+            inner,
+            keys,
+            key_exchanges: Mutex::new(JoinSet::new()),
+        }
     }
 }
 
diff --git a/src/protocol/encrypted/protocol_impl.rs b/src/protocol/encrypted/protocol_impl.rs
index 4c90c98..161ed38 100644
--- a/src/protocol/encrypted/protocol_impl.rs
+++ b/src/protocol/encrypted/protocol_impl.rs
@@ -6,7 +6,10 @@ use crate::protocol::{AsyncProtocolStream, AsyncStreamProtocolListener};
 use async_trait::async_trait;
 
 #[async_trait]
-impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedListener<T> {
+impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedListener<T>
+where
+    T::RemoteAddressType: 'static,
+{
     type AddressType = T::AddressType;
     type RemoteAddressType = T::RemoteAddressType;
     type Stream = EncryptedStream<T::Stream>;
@@ -22,10 +25,28 @@ impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedLi
     }
 
     async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
-        let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
-        let stream = Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await?;
+        // one peer failing or stalling the key exchange must not affect the others
+        let mut key_exchanges = self.key_exchanges.lock().await;
 
-        Ok((stream, remote_addr))
+        loop {
+            tokio::select! {
+                connection = self.inner.protocol_accept() => {
+                    let (inner_stream, remote_addr) = connection?;
+                    let keys = self.keys.clone();
+                    key_exchanges.spawn(async move {
+                        let stream =
+                            EncryptedStream::from_server_key_exchange(inner_stream, &keys).await?;
+
+                        Ok((stream, remote_addr))
+                    });
+                }
+                Some(result) = key_exchanges.join_next() => match result {
+                    Ok(Ok(connection)) => return Ok(connection),
+                    Ok(Err(e)) => tracing::warn!("key exchange failed: {}", e),
+                    Err(e) => tracing::error!("key exchange failed: {}", e),
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 35e492c06a688a11fcd74e2bbbec6dfd5d4c697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 19/23] fix: keep the server running when accepting a
 connection fails

---
 src/ipc/server.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/ipc/server.rs b/src/ipc/server.rs
index ec88fa9..a32d9e6 100644
--- a/src/ipc/server.rs
+++ b/src/ipc/server.rs
@@ -1,5 +1,5 @@
 use super::handle_connection;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::events::event_handler::EventHandler;
 use crate::ipc::context::{Context, ReplyListeners};
 use crate::ipc::stream_emitter::StreamEmitter;
@@ -10,11 +10,16 @@ use crate::payload::DynamicSerializer;
 
 use crate::protocol::{AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
 use std::collections::HashMap;
+use std::io;
+use std::io::ErrorKind;
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::RwLock;
 use trait_bound_typemap::SendSyncTypeMap;
 
+/// Time to wait until accepting connections again after an error of the listener
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(500);
+
 /// The IPC Server listening for connections.
 /// Use the [IPCBuilder](crate::builder::IPCBuilder) to create a server.
 /// Usually one does not need to use the IPCServer object directly.
@@ -43,7 +48,22 @@ impl IPCServer {
         let data = Arc::new(RwLock::new(self.data));
         tracing::info!("address = {:?}", address);
 
-        while let Ok((stream, remote_address)) = listener.protocol_accept().await {
+        loop {
+            let (stream, remote_address) = match listener.protocol_accept().await {
+                Ok(connection) => connection,
+                Err(Error::IoError(e)) => {
+                    tracing::warn!("failed to accept a connection: {}", e);
+                    if !is_connection_error(&e) {
+                        // for example too many open files, wait for resources to be released
+                        tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
+                    }
+                    continue;
+                }
+                Err(e) => {
+                    tracing::error!("failed to accept connections: {}", e);
+                    break;
+                }
+            };
             tracing::debug!("remote_address = {:?}", remote_address);
             let handler = Arc::clone(&handler);
             let namespaces = Arc::clone(&namespaces);
@@ -78,3 +98,14 @@ impl IPCServer {
         Ok(())
     }
 }
+
+/// Returns if the error only concerns the connection that should have been accepted
+fn is_connection_error(e: &io::Error) -> bool {
+    matches!(
+        e.kind(),
+        ErrorKind::ConnectionRefused
+            | ErrorKind::ConnectionAborted
+            | ErrorKind::ConnectionReset
+            | ErrorKind::Interrupted
+    )
+}
-- 
2.43.0


From 8611d1adac473fe3107092e6c60895d9f2707a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 20/23] fix: do not answer failing error handlers with further
 errors

---
 src/ipc/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 495c051..b4b5af7 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -67,6 +67,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
 /// Handles a single event in a different tokio context
 fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
     ctx.set_ref_id(Some(event.id()));
+    let event_type = event.event_type();
 
     tokio::spawn(async move {
         match handler.handle_event(&ctx, event).await {
@@ -80,6 +81,21 @@ fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
                     tracing::error!("Error occurred when sending error response: {:?}", e);
                 }
             }
+            // the failure to handle an error is not reported to not cause a loop of errors
+            Err(e) if event_type == EventType::Error => {
+                tracing::error!("Failed to handle error event: {:?}", e);
+                if let Err(e) = ctx
+                    .emit_raw(
+                        END_EVENT_NAME,
+                        None,
+                        EventType::End,
+                        Response::empty().into_byte_payload(),
+                    )
+                    .await
+                {
+                    tracing::error!("Error occurred when sending end response: {:?}", e);
+                }
+            }
             Err(e) => {
                 // emit an error event
                 if let Err(e) = ctx
-- 
2.43.0


From 6c8f12208b44f72f7035a2588764fddcdb463fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 21/23] fix: do not deliver encrypted data after a package that
 was altered or lost

---
 src/protocol/encrypted/io_impl.rs | 9 ++++++++-
 src/protocol/encrypted/mod.rs     | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 69c3030..68a7f60 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -60,6 +60,9 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
 
                 return Poll::Ready(Ok(()));
             }
+            if let Some(kind) = self.error {
+                return Poll::Ready(Err(kind.into()));
+            }
             if self.fut.is_none() {
                 tracing::trace!("{} bytes remaining to read", buf.remaining());
                 let reader = self.inner.take().unwrap();
@@ -74,7 +77,11 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
                     self.fut = None;
                     match result {
                         Ok(bytes) => self.remaining.put(bytes),
-                        Err(e) => return Poll::Ready(Err(e)),
+                        Err(e) => {
+                            // data that follows a missing or altered package must not be delivered
+                            self.error = Some(e.kind());
+                            return Poll::Ready(Err(e));
+                        }
                     }
                 }
                 Poll::Pending => return Poll::Pending,
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 955726a..87e29c9 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -103,6 +103,7 @@ pub struct EncryptedReadStream<T: AsyncRead> {
     fut: OptionalFuture<(io::Result<Bytes>, T, CipherBox)>,
     remaining: BytesMut,
     cipher: Option<CipherBox>,
+    error: Option<io::ErrorKind>,
 }
 
 impl<T: 'static + AsyncRead + Unpin + Send + Sync> EncryptedReadStream<T> {
@@ -112,6 +113,7 @@ impl<T: 'static + AsyncRead + Unpin + Send + Sync> EncryptedReadStream<T> {
             fut: None,
             remaining: BytesMut::new(),
             cipher: Some(cipher),
+            error: None,
         }
     }
 }
-- 
2.43.0


From 3ecc567ea3ee1ed803e0e6e75ff1a224df571800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:53 +0000
Subject: [PATCH 22/23] fix: close the established connections when a pooled
 client cannot be built

---
 src/ipc/builder.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ipc/builder.rs b/src/ipc/builder.rs
index 85fb15d..47103e7 100644
--- a/src/ipc/builder.rs
+++ b/src/ipc/builder.rs
@@ -262,10 +262,19 @@ where
                 default_serializer: self.default_serializer.clone(),
             };
 
-            let ctx = client
+            let result = client
                 .connect::<L::Stream>(address.clone(), self.stream_options.clone())
-                .await?;
-            contexts.push(ctx);
+                .await;
+            match result {
+                Ok(ctx) => contexts.push(ctx),
+                Err(e) => {
+                    // close the connections that were already established
+                    for ctx in contexts {
+                        let _ = ctx.stop().await;
+                    }
+                    return Err(e);
+                }
+            }
         }
 
         Ok(PooledContext::new(contexts))
-- 
2.43.0


From 83a5f07330ee6f8085e2f19948c1ab4dbaf4aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 23/23] fix: let concurrent acquisitions from a pool choose the
 least used connection

Choosing the connection and counting the acquisition were separate steps, so
threads acquiring at the same time ended up with the same connection.
---
 src/ipc/context.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index c3c7014..ea8871f 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -264,6 +264,19 @@ where
         tracing::trace!(count);
     }
 
+    /// Acquires another guard of the context if it is still used `count` times
+    #[inline]
+    fn acquire_if_count(&self, count: usize) -> Option<Self> {
+        self.count
+            .compare_exchange(count, count + 1, Ordering::Relaxed, Ordering::Relaxed)
+            .ok()?;
+
+        Some(Self {
+            inner: self.inner.clone(),
+            count: Arc::clone(&self.count),
+        })
+    }
+
     /// Releases the connection by subtracting from the stored count
     #[inline]
     #[tracing::instrument(level = "trace", skip_all)]
@@ -291,10 +304,18 @@ impl PooledContext {
     #[inline]
     #[tracing::instrument(level = "trace", skip_all)]
     pub fn acquire(&self) -> PoolGuard<Context> {
-        self.contexts
-            .iter()
-            .min_by_key(|c| c.count())
-            .unwrap()
-            .clone()
+        loop {
+            let (count, least_used) = self
+                .contexts
+                .iter()
+                .map(|c| (c.count(), c))
+                .min_by_key(|(count, _)| *count)
+                .unwrap();
+
+            // another thread might have acquired it in the meantime
+            if let Some(guard) = least_used.acquire_if_count(count) {
+                return guard;
+            }
+        }
     }
 }
-- 
2.43.0

