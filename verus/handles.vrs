// ---------------------------------------------------------------- src/request.rs: the handles
/// The handle and its flag belong to the same request.
pub open spec fn handle_ok<B>(d: Dir, request_id: u32, flag: Arc<AtomicBool>, command_tx: mpsc::UnboundedSender<Command<B>>, w: World<B>) -> bool {
	&&& w.flags.dom().contains(flag.id()) && w.names.dom().contains(flag.id()) && w.names[flag.id()] == (d, request_id) && !w.unshared.contains(flag.id())
	&&& w.log.dom().contains(command_tx.id())
}
impl<Body> SentRequestWriteHandle<Body> {
	pub open spec fn inv(&self, w: World<Body>) -> bool { handle_ok(Dir::Sent, self.request_id, self.closed, self.command_tx, w) }
}
impl<Body> ReceivedRequestWriteHandle<Body> {
	pub open spec fn inv(&self, w: World<Body>) -> bool { handle_ok(Dir::Received, self.request_id, self.closed, self.command_tx, w) }
}
/// The result of waiting for the answer to a command.
pub open spec fn answered<T>(ch: Ch, r: Result<T, Error>) -> bool {
	match oneshot::outcome::<Result<T, Error>>(ch) {
		Some(x) => r == x,
		None => r is Err && r->Err_0.aborted(),
	}
}
/// Nothing was sent.
pub open spec fn nothing_sent<B>(a: World<B>, b: World<B>) -> bool {
	forall|c: Ch| #[trigger] a.log.dom().contains(c) ==> b.log.dom().contains(c) && b.log[c] == a.log[c]
}
/// The message was sent as a command for the peer and its result returned, or it was not sent because the peer is gone.
pub open spec fn raw_sent<B>(a: World<B>, b: World<B>, ch: Ch, m: Message<B>, flag: Option<int>, r: Result<(), Error>) -> bool {
	||| nothing_sent(a, b) && b.gone.contains(ch) && r is Err && r->Err_0.aborted()
	||| {
		&&& b.log[ch] =~= a.log[ch].push(b.log[ch].last())
		&&& b.log[ch].last() matches Msg::Command(Command::SendRawMessage(c)) && {
			&&& c.message == m
			&&& match flag { Some(f) => c.closed is Some && c.closed->Some_0.id() == f, None => c.closed is None }
			&&& answered(c.result_tx.id(), r)
		}
	}
}
pub open spec fn is_closed_error(r: Result<(), Error>) -> bool { r is Err && r->Err_0.inner is RequestClosed }
/// A message of a request was refused because the request is closed, or sent.
pub open spec fn request_sent<B>(a: World<B>, b: World<B>, ch: Ch, m: Message<B>, flag: int, r: Result<(), Error>) -> bool {
	||| is_closed_error(r) && b.flags[flag] && nothing_sent(a, b)
	||| raw_sent(a, b, ch, m, Some(flag), r)
}
/// The messages that a reader gets before the request is closed.
pub open spec fn upto_end<B>(s: Seq<RequestHandleCommand<B>>) -> Seq<Message<B>>
	decreases s.len()
{
	if s.len() == 0 { Seq::empty() } else {
		match s[0] {
			RequestHandleCommand::Close => Seq::empty(),
			RequestHandleCommand::Message(m) => seq![m] + upto_end(s.drop_first()),
		}
	}
}
/// What the tracker sends: nothing but a close command after a response, and nothing after a close command.
pub open spec fn rest_ok<B>(s: Seq<RequestHandleCommand<B>>) -> bool {
	forall|i: int, j: int| 0 <= i < j < s.len() ==> match #[trigger] s[i] {
		RequestHandleCommand::Close => false,
		RequestHandleCommand::Message(m) => m.header.message_type is Response ==> #[trigger] s[j] is Close,
	}
}
impl<Body> SentRequestHandle<Body> {
	pub open spec fn inv(&self) -> bool {
		&&& rest_ok(self.incoming_rx.rest())
		&&& match self.peek_buffer { Some(m) => m.header.message_type is Response ==> upto_end(self.incoming_rx.rest()).len() == 0, None => true }
	}
	/// The messages that can still be received.
	pub open spec fn pending(&self) -> Seq<Message<Body>> {
		(match self.peek_buffer { Some(m) => seq![m], None => Seq::empty() }) + upto_end(self.incoming_rx.rest())
	}
}
/// What receiving an update gives, with these messages pending.
pub open spec fn next_update<B>(p: Seq<Message<B>>, r: Option<Message<B>>) -> bool {
	r == (if p.len() > 0 && p[0].header.message_type is ResponderUpdate { Some(p[0]) } else { None })
}
/// What receiving the response gives, with these messages pending.
pub open spec fn next_response<B>(p: Seq<Message<B>>, r: Result<Message<B>, Error>) -> bool {
	if p.len() == 0 {
		r is Err && r->Err_0.aborted()
	} else if p[0].header.message_type is Response {
		r == Ok::<_, Error>(p[0])
	} else {
		r matches Err(e) && e.inner matches InnerError::UnexpectedMessageType(x) && x.value == p[0].header.message_type && x.expected is Response
	}
}
impl<Body> ReceivedRequestHandle<Body> {
	pub open spec fn pending(&self) -> Seq<Message<Body>> { upto_end(self.incoming_rx.rest()) }
}
//@impl request.rs SentRequestHandle world=Body
//@skip new
//@fn request_id() -> r [C07 C08]
	ensures r == self.write_handle.request_id
//@fn service_id() -> r [C08]
	ensures r == self.write_handle.service_id
//@fn write_handle() -> r [C10]
	ensures r.request_id == self.write_handle.request_id && r.service_id == self.write_handle.service_id && r.closed.id() == self.write_handle.closed.id() && r.command_tx.id() == self.write_handle.command_tx.id()
//@fn recv_update() -> r ghost [C11]
	ensures final(self).write_handle == old(self).write_handle && nothing_sent(*old(w), *final(w))
	ensures next_update(old(self).pending(), r)
	ensures old(self).inv() ==> final(self).inv() && final(self).pending() =~= (if r is Some { old(self).pending().drop_first() } else { old(self).pending() })
//@fn recv_response() -> r ghost [C11]
	ensures final(self).write_handle == old(self).write_handle && nothing_sent(*old(w), *final(w))
	ensures next_response(old(self).pending(), r)
	ensures old(self).inv() ==> final(self).inv() && final(self).pending() =~= (if r is Ok { old(self).pending().drop_first() } else { old(self).pending() })
//@fn recv_message() -> r ghost optional [C11]
	ensures final(self).write_handle == old(self).write_handle && nothing_sent(*old(w), *final(w))
	ensures r is Some ==> final(self).peek_buffer is None
	ensures old(self).inv() ==> final(self).inv()
	ensures old(self).inv() && r is Some && r->Some_0.header.message_type is Response ==> upto_end(final(self).incoming_rx.rest()).len() == 0
	ensures ({
		let p = old(self).pending();
		match r {
			Some(m) => p.len() > 0 && m == p[0] && (old(self).inv() ==> final(self).pending() =~= p.drop_first()),
			None => p.len() == 0 && (old(self).inv() ==> final(self).pending() =~= p),
		}
	})
//@proof
	proof {
		let rest = self.incoming_rx.rest();
		assert(forall|m: Message<Body>| (#[trigger] seq![m] + upto_end(rest)).drop_first() =~= upto_end(rest));
		assert(forall|m: Message<Body>| (Seq::empty() + (#[trigger] seq![m] + upto_end(rest.drop_first()))).drop_first() =~= upto_end(rest.drop_first()));
	}
//@fn send_update(service_id, body) -> r ghost [C15]
	requires self.write_handle.inv(*old(w))
	ensures old(w).flags[self.write_handle.closed.id()] ==> is_closed_error(r) && nothing_sent(*old(w), *final(w)) // [C10]
	ensures request_sent(*old(w), *final(w), self.write_handle.command_tx.id(), msg(MessageType::RequesterUpdate, self.write_handle.request_id, service_id, body.spec_convert()), self.write_handle.closed.id(), r)
//@endimpl
//@impl request.rs SentRequestWriteHandle of Clone inherent
//@fn clone() -> r [C10]
	ensures r.request_id == self.request_id && r.service_id == self.service_id && r.closed.id() == self.closed.id() && r.command_tx.id() == self.command_tx.id()
//@endimpl
//@impl request.rs SentRequestWriteHandle world=Body
//@fn request_id() -> r [C07 C08]
	ensures r == self.request_id
//@fn service_id() -> r [C08]
	ensures r == self.service_id
//@fn send_update(service_id, body) -> r ghost [C15]
	requires self.inv(*old(w))
	ensures old(w).flags[self.closed.id()] ==> is_closed_error(r) && nothing_sent(*old(w), *final(w)) // [C10]
	ensures request_sent(*old(w), *final(w), self.command_tx.id(), msg(MessageType::RequesterUpdate, self.request_id, service_id, body.spec_convert()), self.closed.id(), r)
//@endimpl
//@impl request.rs ReceivedRequestHandle world=Body
//@skip new
//@fn request_id() -> r [C08]
	ensures r == self.write_handle.request_id
//@fn service_id() -> r [C08]
	ensures r == self.write_handle.service_id
//@fn write_handle() -> r [C10]
	ensures r.request_id == self.write_handle.request_id && r.service_id == self.write_handle.service_id && r.closed.id() == self.write_handle.closed.id() && r.command_tx.id() == self.write_handle.command_tx.id()
//@fn recv_update() -> r ghost [C08 C09]
	ensures final(self).write_handle == old(self).write_handle && nothing_sent(*old(w), *final(w))
	ensures ({
		let p = old(self).pending();
		match r {
			Some(m) => p.len() > 0 && m == p[0] && final(self).pending() =~= p.drop_first(),
			None => p.len() == 0 && (rest_ok(old(self).incoming_rx.rest()) ==> final(self).pending() =~= p),
		}
	})
	ensures rest_ok(old(self).incoming_rx.rest()) ==> rest_ok(final(self).incoming_rx.rest())
//@fn send_update(service_id, body) -> r ghost [C15]
	requires self.write_handle.inv(*old(w))
	ensures old(w).flags[self.write_handle.closed.id()] ==> is_closed_error(r) && nothing_sent(*old(w), *final(w)) // [C10]
	ensures request_sent(*old(w), *final(w), self.write_handle.command_tx.id(), msg(MessageType::ResponderUpdate, self.write_handle.request_id, service_id, body.spec_convert()), self.write_handle.closed.id(), r)
//@fn send_response(service_id, body) -> r ghost [C15]
	requires self.write_handle.inv(*old(w))
	ensures old(w).flags[self.write_handle.closed.id()] ==> is_closed_error(r) && nothing_sent(*old(w), *final(w)) // [C10]
	ensures request_sent(*old(w), *final(w), self.write_handle.command_tx.id(), msg(MessageType::Response, self.write_handle.request_id, service_id, body.spec_convert()), self.write_handle.closed.id(), r)
//@fn send_error_response(message) -> r ghost [C15 C16]
	requires self.write_handle.inv(*old(w))
	ensures old(w).flags[self.write_handle.closed.id()] ==> is_closed_error(r) && nothing_sent(*old(w), *final(w)) // [C10]
	ensures exists|m: Message<Body>| error_message(m, self.write_handle.request_id, message@) && request_sent(*old(w), *final(w), self.write_handle.command_tx.id(), m, self.write_handle.closed.id(), r)
//@endimpl
//@impl request.rs ReceivedRequestWriteHandle of Clone inherent
//@fn clone() -> r [C10]
	ensures r.request_id == self.request_id && r.service_id == self.service_id && r.closed.id() == self.closed.id() && r.command_tx.id() == self.command_tx.id()
//@endimpl
//@impl request.rs ReceivedRequestWriteHandle world=Body
//@fn request_id() -> r [C08]
	ensures r == self.request_id
//@fn service_id() -> r [C08]
	ensures r == self.service_id
//@fn send_update(service_id, body) -> r ghost [C15]
	requires self.inv(*old(w))
	ensures old(w).flags[self.closed.id()] ==> is_closed_error(r) && nothing_sent(*old(w), *final(w)) // [C10]
	ensures request_sent(*old(w), *final(w), self.command_tx.id(), msg(MessageType::ResponderUpdate, self.request_id, service_id, body.spec_convert()), self.closed.id(), r)
//@fn send_response(service_id, body) -> r ghost [C15]
	requires self.inv(*old(w))
	ensures old(w).flags[self.closed.id()] ==> is_closed_error(r) && nothing_sent(*old(w), *final(w)) // [C10]
	ensures request_sent(*old(w), *final(w), self.command_tx.id(), msg(MessageType::Response, self.request_id, service_id, body.spec_convert()), self.closed.id(), r)
//@fn send_error_response(message) -> r ghost [C15 C16]
	requires self.inv(*old(w))
	ensures old(w).flags[self.closed.id()] ==> is_closed_error(r) && nothing_sent(*old(w), *final(w)) // [C10]
	ensures exists|m: Message<Body>| error_message(m, self.request_id, message@) && request_sent(*old(w), *final(w), self.command_tx.id(), m, self.closed.id(), r)
//@fn send_raw_message(message) -> r ghost optional [C15]
	requires self.inv(*old(w)) && message.header.request_id == self.request_id && (message.header.message_type is Response || message.header.message_type is ResponderUpdate)
	ensures old(w).flags[self.closed.id()] ==> is_closed_error(r) && nothing_sent(*old(w), *final(w)) // [C10]
	ensures request_sent(*old(w), *final(w), self.command_tx.id(), message, self.closed.id(), r)
//@endimpl

// ---------------------------------------------------------------- src/peer_handle.rs
//@type peer_handle.rs PeerHandle
//@type peer_handle.rs PeerReadHandle
//@type peer_handle.rs PeerWriteHandle
//@type peer_handle.rs PeerCloseHandle
/// The command was sent to the peer, unless that is gone.
pub open spec fn command_sent<B>(a: World<B>, b: World<B>, ch: Ch, c: Command<B>) -> bool {
	&&& only_sent_to(a, b, set![ch])
	&&& delivered(a, b, ch, seq![Msg::Command(c)])
	&&& b.gone.contains(ch) ==> b.log[ch] =~= a.log[ch] || b.log[ch] =~= a.log[ch].push(Msg::Command(c))
}
/// A request was sent as a command for the peer and its result returned, or it was not sent because the peer is gone.
pub open spec fn open_sent<B>(a: World<B>, b: World<B>, ch: Ch, service_id: i32, body: B, r: Result<SentRequestHandle<B>, Error>) -> bool {
	||| nothing_sent(a, b) && b.gone.contains(ch) && r is Err && r->Err_0.aborted()
	||| {
		&&& b.log[ch] =~= a.log[ch].push(b.log[ch].last())
		&&& b.log[ch].last() matches Msg::Command(Command::SendRequest(c)) && {
			&&& c.service_id == service_id && c.body == body
			&&& answered(c.result_tx.id(), r)
		}
	}
}
/// The next of the things the peer passed on.
pub open spec fn next_incoming<B>(a: mpsc::UnboundedReceiver<Result<ReceivedMessage<B>, Error>>, b: mpsc::UnboundedReceiver<Result<ReceivedMessage<B>, Error>>, r: Result<ReceivedMessage<B>, Error>) -> bool {
	if a.rest().len() > 0 { r == a.rest()[0] && b.rest() == a.rest().drop_first() } else { r is Err && r->Err_0.aborted() && b.rest().len() == 0 }
}
//@impl peer_handle.rs PeerHandle world=Body
//@fn new(incoming_rx, command_tx) -> r [C13 C14]
	ensures r.read_handle.incoming_rx == incoming_rx && r.read_handle.command_tx.id() == command_tx.id() && r.write_handle.command_tx.id() == command_tx.id()
//@fn split() -> r [C13]
	ensures r.0 == self.read_handle && r.1 == self.write_handle
//@fn recv_message() -> r ghost [C14]
	ensures nothing_sent(*old(w), *final(w))
	ensures next_incoming(old(self).read_handle.incoming_rx, final(self).read_handle.incoming_rx, r)
	ensures final(self).write_handle == old(self).write_handle && final(self).read_handle.command_tx.id() == old(self).read_handle.command_tx.id()
//@fn send_request(service_id, body) -> r ghost [C15]
	requires old(w).log.dom().contains(self.write_handle.command_tx.id())
	ensures open_sent(*old(w), *final(w), self.write_handle.command_tx.id(), service_id, body.spec_convert(), r)
//@fn send_stream(service_id, body) -> r ghost [C15]
	requires old(w).log.dom().contains(self.write_handle.command_tx.id())
	ensures raw_sent(*old(w), *final(w), self.write_handle.command_tx.id(), msg(MessageType::Stream, 0, service_id, body.spec_convert()), None, r)
//@fn close() ghost [C13]
	requires !old(w).owner
	requires self.read_handle.command_tx.id() == self.write_handle.command_tx.id()
	ensures command_sent(*old(w), *final(w), self.read_handle.command_tx.id(), Command::Stop)
//@fn close_handle() -> r [C13]
	requires self.read_handle.command_tx.id() == self.write_handle.command_tx.id()
	ensures r.command_tx.id() == self.read_handle.command_tx.id()
//@endimpl
//@impl peer_handle.rs PeerReadHandle world=Body
//@fn recv_message() -> r ghost [C14]
	ensures nothing_sent(*old(w), *final(w))
	ensures next_incoming(old(self).incoming_rx, final(self).incoming_rx, r)
	ensures final(self).command_tx.id() == old(self).command_tx.id()
//@fn close() ghost [C13]
	requires !old(w).owner
	ensures command_sent(*old(w), *final(w), self.command_tx.id(), Command::Stop)
//@fn close_handle() -> r [C13]
	ensures r.command_tx.id() == self.command_tx.id()
//@endimpl
//@impl peer_handle.rs PeerReadHandle of Drop inherent world=Body
//@fn drop() ghost as drop_handle [C13]
	ensures command_sent(*old(w), *final(w), old(self).command_tx.id(), Command::UnregisterReadHandle)
//@endimpl
//@impl peer_handle.rs PeerWriteHandle world=Body
//@fn send_request(service_id, body) -> r ghost [C15]
	requires old(w).log.dom().contains(self.command_tx.id())
	ensures open_sent(*old(w), *final(w), self.command_tx.id(), service_id, body.spec_convert(), r)
//@fn send_stream(service_id, body) -> r ghost [C15]
	requires old(w).log.dom().contains(self.command_tx.id())
	ensures raw_sent(*old(w), *final(w), self.command_tx.id(), msg(MessageType::Stream, 0, service_id, body.spec_convert()), None, r)
//@fn close() ghost [C13]
	requires !old(w).owner
	ensures command_sent(*old(w), *final(w), self.command_tx.id(), Command::Stop)
//@fn close_handle() -> r [C13]
	ensures r.command_tx.id() == self.command_tx.id()
//@fn same_peer(other) -> r [C13]
	ensures r == (self.command_tx.id() == other.command_tx.id())
//@endimpl
//@impl peer_handle.rs PeerWriteHandle of Clone inherent world=Body
//@fn clone() -> r ghost as clone_registered [C13]
	ensures r.command_tx.id() == self.command_tx.id()
	ensures command_sent(*old(w), *final(w), self.command_tx.id(), Command::RegisterWriteHandle)
//@endimpl
//@impl peer_handle.rs PeerWriteHandle of Drop inherent world=Body
//@fn drop() ghost as drop_handle [C13]
	ensures command_sent(*old(w), *final(w), old(self).command_tx.id(), Command::UnregisterWriteHandle)
//@endimpl
//@impl peer_handle.rs PeerCloseHandle world=Body
//@fn close() ghost [C13]
	requires !old(w).owner
	ensures command_sent(*old(w), *final(w), self.command_tx.id(), Command::Stop)
//@endimpl
