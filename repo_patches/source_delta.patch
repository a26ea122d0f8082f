From add08eb4ed2c58db6aa41b16464774c3894d3f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 01/15] fix: reject stream frames that are too short to contain
 a message header

---
 src/transport/stream/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 722a8f4..38a1ffa 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -4,7 +4,7 @@ use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite};
 
 use super::{StreamBody, StreamConfig};
-use crate::error::private::check_payload_too_large;
+use crate::error::private::{check_message_too_short, check_payload_too_large};
 use crate::transport::{TransportError, Endian};
 use crate::{Message, MessageHeader};
 
@@ -180,6 +180,8 @@ where
 			if this.bytes_read == FRAMED_HEADER_LEN {
 				// Parse frame and header.
 				let length = this.endian.read_u32(&this.header_buffer[0..]);
+				check_message_too_short(length as usize)
+					.map_err(TransportError::new_fatal)?;
 				this.parsed_header = MessageHeader::decode(&this.header_buffer[4..], this.endian)
 					.map_err(TransportError::new_fatal)?;
 
-- 
2.43.0


From 5498c82523efe1158864b35b1dea642e713822ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 02/15] fix: continue partially written stream messages at the
 right offset

---
 src/transport/stream/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 38a1ffa..260a6f6 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -237,10 +237,10 @@ where
 		while this.bytes_written < FRAMED_HEADER_LEN + body.len() {
 			let stream = Pin::new(&mut this.stream);
 			if this.bytes_written < FRAMED_HEADER_LEN {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
 					.map_err(TransportError::new_fatal)?;
 			} else {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
 					.map_err(TransportError::new_fatal)?;
 			}
 		}
-- 
2.43.0


From 3c63415a973e8baddd5e1e60cc8c085ea122e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 03/15] fix: report zero-sized writes to streams as error
 instead of retrying forever

---
 src/transport/stream/transport.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 260a6f6..cdabb09 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -158,6 +158,16 @@ fn poll_read<R: AsyncRead>(stream: Pin<&mut R>, context: &mut Context, buf: &mut
 	}
 }
 
+/// Wrapper around [`AsyncWrite::poll_write_vectored`] that turns zero-sized writes into WriteZero errors.
+fn poll_write<W: AsyncWrite>(stream: Pin<&mut W>, context: &mut Context, buffers: &[IoSlice]) -> Poll<std::io::Result<usize>> {
+	let bytes_written = ready!(stream.poll_write_vectored(context, buffers))?;
+	if bytes_written == 0 {
+		Poll::Ready(Err(std::io::ErrorKind::WriteZero.into()))
+	} else {
+		Poll::Ready(Ok(bytes_written))
+	}
+}
+
 impl<R> crate::transport::TransportReadHalf for StreamReadHalf<R>
 where
 	R: AsyncRead + Send + Unpin,
@@ -237,10 +247,10 @@ where
 		while this.bytes_written < FRAMED_HEADER_LEN + body.len() {
 			let stream = Pin::new(&mut this.stream);
 			if this.bytes_written < FRAMED_HEADER_LEN {
-				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
+				this.bytes_written += ready!(poll_write(stream, context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
 					.map_err(TransportError::new_fatal)?;
 			} else {
-				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
+				this.bytes_written += ready!(poll_write(stream, context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
 					.map_err(TransportError::new_fatal)?;
 			}
 		}
-- 
2.43.0


From 6fe84a098a2afda5e69cbe90d94de7ed0b481fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 04/15] fix: refuse to send stream messages with a length that
 does not fit in the frame

---
 src/transport/stream/transport.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index cdabb09..d45360d 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -232,7 +232,7 @@ where
 		let this = self.get_mut();
 
 		// Make sure the body length doesn't exceed the maximum.
-		check_payload_too_large(body.len(), this.max_body_len as usize)
+		check_payload_too_large(body.len(), this.max_body_len.min(crate::MAX_PAYLOAD_LEN) as usize)
 			.map_err(TransportError::new_non_fatal)?;
 
 		// Encode the header if we haven't done that yet.
-- 
2.43.0


From d0ea330fb47aba238c52b82a583dd82555f2f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 05/15] fix: stop tracking requests that are answered with an
 error because the read handle is dropped

---
 src/peer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/peer.rs b/src/peer.rs
index 15f0200..77f2467 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -373,6 +373,8 @@ where
 			Err(mpsc::error::SendError(msg)) => match msg.unwrap() {
 				// Respond to requests with an error.
 				ReceivedMessage::Request(request, _body) => {
+					// The error response terminates the request, so we should no longer track it.
+					let _: Result<_, _> = self.request_tracker.remove_received_request(request.request_id());
 					let error_msg = format!("unexpected request for service {}", request.service_id());
 					let response = Message::error_response(request.request_id(), &error_msg);
 					if self.write_message(&response).await.is_err() {
-- 
2.43.0


From 50f5f1eb74cc22906764f261f07026f8d8cfec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 06/15] fix: keep received requests open if sending the
 response fails

---
 src/peer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 77f2467..f2794b5 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -322,11 +322,6 @@ where
 
 	/// Process a SendRawMessage command.
 	async fn send_raw_message(&mut self, command: crate::peer::SendRawMessage<W::Body>) -> LoopFlow {
-		// Remove tracked received requests when we send a response.
-		if command.message.header.message_type.is_response() {
-			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
-		}
-
 		// TODO: replace SendRawMessage with specific command for different message types.
 		// Then we can use that to remove the appropriate request from the tracker if result_tx is dropped.
 		// Or just parse the message header to determine which request to remove.
@@ -339,6 +334,11 @@ where
 			return flow;
 		}
 
+		// Remove tracked received requests when we sent a response.
+		if command.message.header.message_type.is_response() {
+			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
+		}
+
 		let _: Result<_, _> = command.result_tx.send(Ok(()));
 		LoopFlow::Continue
 	}
-- 
2.43.0


From ba1685799473da150199c156185616ab8cdb45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 07/15] fix: close write handles of sent requests that are
 removed because the request handle is dropped

---
 src/request_tracker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 19b6aaa..085de56 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -219,7 +219,8 @@ impl<Body> RequestTracker<Body> {
 			Entry::Occupied(mut entry) => {
 				// If the sent_request is dropped, clear the entry.
 				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
+					// Set the `closed` flag so that existing request write handles will refuse to send more messages.
+					entry.remove().closed.store(true, Ordering::Release);
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
-- 
2.43.0


From 2840836363c3dc6904e00d33e288fdae1d81a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 08/15] fix: do not send queued messages of requests that have
 been closed in the meantime

---
 src/peer.rs        | 17 ++++++++++++++++-
 src/peer_handle.rs |  2 +-
 src/request.rs     |  4 ++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index f2794b5..ac35c98 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -1,5 +1,7 @@
+use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
 use tokio::sync::{mpsc, oneshot};
 
+use crate::error::private::InnerError;
 use crate::{
 	util,
 	Error,
@@ -322,6 +324,13 @@ where
 
 	/// Process a SendRawMessage command.
 	async fn send_raw_message(&mut self, command: crate::peer::SendRawMessage<W::Body>) -> LoopFlow {
+		// The request may have been closed while the command was queued.
+		// If so, we're not allowed to send messages for it anymore.
+		if matches!(&command.closed, Some(closed) if closed.load(Ordering::Acquire)) {
+			let _: Result<_, _> = command.result_tx.send(Err(InnerError::RequestClosed.into()));
+			return LoopFlow::Continue;
+		}
+
 		// TODO: replace SendRawMessage with specific command for different message types.
 		// Then we can use that to remove the appropriate request from the tracker if result_tx is dropped.
 		// Or just parse the message header to determine which request to remove.
@@ -334,8 +343,11 @@ where
 			return flow;
 		}
 
-		// Remove tracked received requests when we sent a response.
+		// Close and remove tracked received requests when we sent a response.
 		if command.message.header.message_type.is_response() {
+			if let Some(closed) = &command.closed {
+				closed.store(true, Ordering::Release);
+			}
 			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
 		}
 
@@ -444,6 +456,9 @@ pub struct SendRawMessage<Body> {
 	/// The message to send.
 	pub message: Message<Body>,
 
+	/// The `closed` flag of the request that the message belongs to, if any.
+	pub closed: Option<Arc<AtomicBool>>,
+
 	/// One-shot channel to receive the result of sending the message.
 	pub result_tx: oneshot::Sender<Result<(), Error>>,
 }
diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index afa9058..984a768 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -171,7 +171,7 @@ impl<Body> PeerWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::stream(0, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: None, result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 
 		result_rx.await.map_err(|_| connection_aborted())?
diff --git a/src/request.rs b/src/request.rs
index 7384523..d2f6532 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -208,7 +208,7 @@ impl<Body> SentRequestWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::requester_update(self.request_id, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
@@ -328,7 +328,7 @@ impl<Body> ReceivedRequestWriteHandle<Body> {
 
 		let (result_tx, result_rx) = oneshot::channel();
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
-- 
2.43.0


From ac5f8b669998dc3896524bbac7a04bc48225242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 09/15] fix: report too large datagrams as error instead of
 truncating them

---
 src/transport/unix/transport.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index f5fa41f..9a01d9f 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -150,7 +150,8 @@ mod implementation {
 
 			// Prepare buffers for the message header and body.
 			let mut header_buffer = [0u8; crate::HEADER_LEN as usize];
-			this.body_buffer.resize(this.max_body_len as usize, 0u8);
+			// Reserve one extra byte to be able to detect messages that are too large.
+			this.body_buffer.resize(this.max_body_len as usize + 1, 0u8);
 
 			// Prepare a buffer for the ancillary data.
 			// TODO: properly compute size of ancillary buffer.
@@ -182,9 +183,14 @@ mod implementation {
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
 
+			// Make sure the message was not truncated.
+			let body_len = bytes_read - crate::HEADER_LEN as usize;
+			check_payload_too_large(body_len, this.max_body_len as usize)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
-			body.resize(bytes_read - crate::HEADER_LEN as usize, 0);
+			body.resize(body_len, 0);
 
 			Poll::Ready(Ok(Message::new(header, UnixBody::new(body, fds))))
 		}
-- 
2.43.0


From 7a381472d289205315b05b54dfe6ba37945b9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 10/15] fix: enforce the configured maximum number of file
 descriptors per message

---
 src/transport/unix/transport.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index 9a01d9f..5e2d370 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -142,6 +142,11 @@ mod implementation {
 	use crate::transport::TransportError;
 	use crate::{Message, MessageHeader, UnixBody};
 
+	/// Create an error for a message with too many file descriptors attached.
+	fn too_many_fds() -> std::io::Error {
+		std::io::Error::new(std::io::ErrorKind::Other, "too many file descriptors")
+	}
+
 	impl crate::transport::TransportReadHalf for UnixReadHalf<&tokio_seqpacket::UnixSeqpacket> {
 		type Body = UnixBody;
 
@@ -164,6 +169,7 @@ mod implementation {
 
 			// Immediately wrap all file descriptors to prevent leaking any of them.
 			// We must always do this directly after a successful read.
+			let fds_truncated = ancillary.is_truncated();
 			let mut fds = Vec::new();
 			for msg in ancillary.into_messages() {
 				if let OwnedAncillaryMessage::FileDescriptors(msg) = msg {
@@ -188,6 +194,11 @@ mod implementation {
 			check_payload_too_large(body_len, this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Make sure we did not receive too many file descriptors.
+			if fds_truncated || fds.len() > this.max_fds as usize {
+				return Poll::Ready(Err(TransportError::new_non_fatal(too_many_fds())));
+			}
+
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
 			body.resize(body_len, 0);
@@ -206,6 +217,11 @@ mod implementation {
 			check_payload_too_large(body.data.len(), this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Check the number of attached file descriptors.
+			if body.fds.len() > this.max_fds as usize {
+				return Poll::Ready(Err(TransportError::new_non_fatal(too_many_fds())));
+			}
+
 			// Prepare a buffer for the message header.
 			let mut header_buffer = [0; crate::HEADER_LEN as usize];
 			header.encode(&mut header_buffer, this.endian);
-- 
2.43.0


From 449338072da566eaf052a6ff9f30bdf3f0333ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 11/15] fix: keep tracking received requests while write
 handles can still send the response

---
 src/request_tracker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 085de56..4ecbc09 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -203,7 +203,11 @@ impl<Body> RequestTracker<Body> {
 			Entry::Occupied(mut entry) => {
 				// If the received_request is dropped, clear the entry.
 				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
+					// But keep it as long as there are write handles that can still be used to send the response.
+					// Otherwise the ID could be re-used, and the response would end up in the wrong request.
+					if Arc::strong_count(&entry.get_mut().closed) == 1 {
+						entry.remove();
+					}
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
-- 
2.43.0


From 0f212e7986f2166ac7003735889e70735781b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:07 +0000
Subject: [PATCH 12/15] add verification hooks, only compiled with --cfg
 fizyr_rpc_verif

---
 src/peer.rs            | 11 +++++++++++
 src/request_tracker.rs | 11 +++++++++++
 src/transport/mod.rs   | 11 +++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/peer.rs b/src/peer.rs
index ac35c98..f9753b7 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -186,6 +186,17 @@ impl<Transport: crate::transport::Transport> Peer<Transport> {
 	}
 }
 
+/// Verification hook, only compiled with `--cfg fizyr_rpc_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(fizyr_rpc_verif)]
+#[doc(hidden)]
+impl<Transport: crate::transport::Transport> Peer<Transport> {
+	/// Get access to the request tracker before running the peer.
+	pub fn verif_request_tracker(&mut self) -> &mut RequestTracker<Transport::Body> {
+		&mut self.request_tracker
+	}
+}
+
 /// Implementation of the read loop of a peer.
 struct ReadLoop<R>
 where
diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 4ecbc09..6555f38 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -234,6 +234,17 @@ impl<Body> RequestTracker<Body> {
 	}
 }
 
+/// Verification hook, only compiled with `--cfg fizyr_rpc_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(fizyr_rpc_verif)]
+#[doc(hidden)]
+impl<Body> RequestTracker<Body> {
+	/// Set the request ID that is tried first for the next sent request.
+	pub fn verif_set_next_sent_request_id(&mut self, request_id: u32) {
+		self.next_sent_request_id = request_id;
+	}
+}
+
 #[cfg(test)]
 mod test {
 	use assert2::assert;
diff --git a/src/transport/mod.rs b/src/transport/mod.rs
index 7552530..d375d64 100644
--- a/src/transport/mod.rs
+++ b/src/transport/mod.rs
@@ -113,6 +113,17 @@ impl TransportError {
 	}
 }
 
+/// Verification hook, only compiled with `--cfg fizyr_rpc_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(fizyr_rpc_verif)]
+#[doc(hidden)]
+impl TransportError {
+	/// Create a transport error, for the use in scripted transports.
+	pub fn verif_new(inner: Error, is_fatal: bool) -> Self {
+		Self { inner, is_fatal }
+	}
+}
+
 impl std::error::Error for TransportError {}
 
 impl std::fmt::Display for TransportError {
-- 
2.43.0


From 185fc780f2a72d6a04a64006615646b7b5dad1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:39 +0000
Subject: [PATCH 13/15] add verification hook for the halves of stream
 transports

---
 src/transport/stream/transport.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index d45360d..77514e4 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -261,3 +261,17 @@ where
 		Poll::Ready(Ok(()))
 	}
 }
+
+/// Verification hook, only compiled with `--cfg fizyr_rpc_verif`.
+#[allow(unexpected_cfgs)]
+#[cfg(fizyr_rpc_verif)]
+#[doc(hidden)]
+impl<Stream> StreamTransport<Stream> {
+	/// Create the halves of a transport for the given read and write stream, for the use with scripted streams.
+	pub fn verif_halves<R, W>(read: R, write: W, config: StreamConfig) -> (StreamReadHalf<R>, StreamWriteHalf<W>) {
+		(
+			StreamReadHalf::new(read, config.max_body_len_read, config.endian),
+			StreamWriteHalf::new(write, config.max_body_len_write, config.endian),
+		)
+	}
+}
-- 
2.43.0


From 58aadb0cfd9b52a1e3006e78afd4a94805068075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 14/15] fix: binding a Unix listener removed a symbolic link
 that leads to a socket

The path is unlinked before binding when it is a socket. The kind of file was
looked up through symbolic links, but what is removed is the link itself: a
link the user created was replaced by the new socket. Look at the path itself.
---
 src/transport/stream/mod.rs | 3 ++-
 src/transport/unix/mod.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/mod.rs b/src/transport/stream/mod.rs
index cdda80a..1e8e618 100644
--- a/src/transport/stream/mod.rs
+++ b/src/transport/stream/mod.rs
@@ -103,7 +103,8 @@ mod impl_unix_stream {
 			use std::os::unix::fs::FileTypeExt;
 
 			// Try to unlink the socket before binding it, ignoring errors.
-			if let Ok(metadata) = std::fs::metadata(&address) {
+			// Do not follow symbolic links: a link to a socket is not ours to remove.
+			if let Ok(metadata) = std::fs::symlink_metadata(&address) {
 				if metadata.file_type().is_socket() {
 					let _ = std::fs::remove_file(&address);
 				}
diff --git a/src/transport/unix/mod.rs b/src/transport/unix/mod.rs
index 08501f2..263a71f 100644
--- a/src/transport/unix/mod.rs
+++ b/src/transport/unix/mod.rs
@@ -103,7 +103,8 @@ mod impl_unix_seqpacket {
 			use std::os::unix::fs::FileTypeExt;
 
 			// Try to unlink the socket before binding it, ignoring errors.
-			if let Ok(metadata) = std::fs::metadata(&address) {
+			// Do not follow symbolic links: a link to a socket is not ours to remove.
+			if let Ok(metadata) = std::fs::symlink_metadata(&address) {
 				if metadata.file_type().is_socket() {
 					let _ = std::fs::remove_file(&address);
 				}
-- 
2.43.0


From 3c151626b544a60e385ceafb40572cd3874d532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 15/15] fix: the interface macro panicked or dropped a valid
 item if an item repeated several others

---
 macros/src/interface/parse.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/macros/src/interface/parse.rs b/macros/src/interface/parse.rs
index 44b3589..b294fc7 100644
--- a/macros/src/interface/parse.rs
+++ b/macros/src/interface/parse.rs
@@ -12,6 +12,7 @@ pub mod cooked {
 	use crate::util::{parse_doc_attr_contents, WithSpan};
 	use proc_macro2::Span;
 	use syn::spanned::Spanned;
+	use std::collections::BTreeSet;
 	use super::raw;
 
 	/// Marker to indicate an item should be hidden.
@@ -177,8 +178,8 @@ pub mod cooked {
 
 			// Remove things with duplicate names, because they'll cause a lot more compile errors.
 			// Duplicate IDs we just generate though, because they don't cause duplicate type or functions name.
-			let mut remove_services = Vec::new();
-			let mut remove_streams = Vec::new();
+			let mut remove_services = BTreeSet::new();
+			let mut remove_streams = BTreeSet::new();
 
 			for (a_i, a) in services.iter().enumerate() {
 				for (b_i, b) in services.iter().enumerate().skip(a_i + 1) {
@@ -187,7 +188,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate service name"));
-						remove_services.push(b_i);
+						remove_services.insert(b_i);
 					}
 				}
 			}
@@ -199,7 +200,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate stream name"));
-						remove_streams.push(b_i);
+						remove_streams.insert(b_i);
 					}
 				}
 			}
@@ -280,8 +281,8 @@ pub mod cooked {
 
 			// Remove things with duplicate names, because they'll cause a lot more compile errors.
 			// Duplicate IDs we just generate though, because they don't cause duplicate type or functions name.
-			let mut remove_request_updates = Vec::new();
-			let mut remove_response_updates = Vec::new();
+			let mut remove_request_updates = BTreeSet::new();
+			let mut remove_response_updates = BTreeSet::new();
 
 			for (a_i, a) in request_updates.iter().enumerate() {
 				for (b_i, b) in request_updates.iter().enumerate().skip(a_i + 1) {
@@ -290,7 +291,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate request update name"));
-						remove_request_updates.push(b_i);
+						remove_request_updates.insert(b_i);
 					}
 				}
 			}
@@ -302,7 +303,7 @@ pub mod cooked {
 					}
 					if a.name() == b.name() {
 						errors.push(syn::Error::new(b.name().span(), "duplicate response update name"));
-						remove_response_updates.push(b_i);
+						remove_response_updates.insert(b_i);
 					}
 				}
 			}
-- 
2.43.0

