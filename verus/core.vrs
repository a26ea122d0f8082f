// ---------------------------------------------------------------- src/request.rs, src/request_tracker.rs, src/peer.rs: types
//@ghostnames send recv wait load store
//@ghostpaths Arc::new Arc::strong_count mpsc::unbounded_channel oneshot::channel
//@type request.rs RequestHandleCommand
//@type request.rs SentRequestHandle
//@type request.rs SentRequestWriteHandle
//@type request.rs ReceivedRequestHandle
//@type request.rs ReceivedRequestWriteHandle
//@type request.rs ReceivedMessage
//@type request_tracker.rs TrackedRequest
//@type request_tracker.rs RequestTracker #[verifier::reject_recursive_types(Body)]
//@type peer.rs Command
//@type peer.rs SendRequest
//@type peer.rs SendRawMessage
//@type peer.rs ProcessReceivedMessage
//@type peer.rs LoopFlow #[derive(Copy, Clone, PartialEq, Eq, Structural)]

// ---------------------------------------------------------------- constructors of the handles
//@impl request.rs SentRequestHandle world=Body
//@skip *
//@fn new(request_id, service_id, closed, incoming_rx, command_tx) -> r ghost [C07 C08 C10]
	requires !old(w).names.dom().contains(closed.id()) && !old(w).chans.dom().contains(incoming_rx.id())
	ensures
		r.write_handle.request_id == request_id,
		r.write_handle.service_id == service_id,
		r.write_handle.closed.id() == closed.id(),
		r.write_handle.command_tx.id() == command_tx.id(),
		r.incoming_rx == incoming_rx,
		r.peek_buffer is None,
		final(w).names == old(w).names.insert(closed.id(), (Dir::Sent, request_id)),
		final(w).chans == old(w).chans.insert(incoming_rx.id(), (Dir::Sent, request_id)),
		same_but_channels(*old(w), *final(w)) && final(w).flags == old(w).flags && final(w).log == old(w).log && final(w).gone == old(w).gone && final(w).unshared == old(w).unshared,
//@proof
	proof {
		w.names = w.names.insert(closed.id(), (Dir::Sent, request_id));
		w.chans = w.chans.insert(incoming_rx.id(), (Dir::Sent, request_id));
	}
//@endimpl
//@impl request.rs ReceivedRequestHandle world=Body
//@skip *
//@fn new(request_id, service_id, closed, incoming_rx, command_tx) -> r ghost [C08 C10]
	requires !old(w).names.dom().contains(closed.id()) && !old(w).chans.dom().contains(incoming_rx.id())
	ensures
		r.write_handle.request_id == request_id,
		r.write_handle.service_id == service_id,
		r.write_handle.closed.id() == closed.id(),
		r.write_handle.command_tx.id() == command_tx.id(),
		r.incoming_rx == incoming_rx,
		final(w).names == old(w).names.insert(closed.id(), (Dir::Received, request_id)),
		final(w).chans == old(w).chans.insert(incoming_rx.id(), (Dir::Received, request_id)),
		same_but_channels(*old(w), *final(w)) && final(w).flags == old(w).flags && final(w).log == old(w).log && final(w).gone == old(w).gone && final(w).unshared == old(w).unshared,
//@proof
	proof {
		w.names = w.names.insert(closed.id(), (Dir::Received, request_id));
		w.chans = w.chans.insert(incoming_rx.id(), (Dir::Received, request_id));
	}
//@endimpl

// ---------------------------------------------------------------- src/request_tracker.rs
pub open spec fn dup_error(e: Error, id: u32) -> bool { e.inner == (InnerError::DuplicateRequestId { request_id: id }) }
pub open spec fn unknown_error(e: Error, id: u32) -> bool { e.inner == (InnerError::UnknownRequestId { request_id: id }) }

/// Open requests have a flag that is not set and a channel, and these belong to no other request.
pub open spec fn entries_ok<B>(m: Map<u32, TrackedRequest<B>>, d: Dir, w: World<B>) -> bool {
	forall|i: u32| #[trigger] m.dom().contains(i) ==> {
		&&& w.flags.dom().contains(m[i].closed.id()) && !w.flags[m[i].closed.id()]
		&&& w.names.dom().contains(m[i].closed.id()) && w.names[m[i].closed.id()] == (d, i)
		&&& w.chans.dom().contains(m[i].incoming_tx.id()) && w.chans[m[i].incoming_tx.id()] == (d, i)
		&&& w.log.dom().contains(m[i].incoming_tx.id()) && log_open(w.log[m[i].incoming_tx.id()])
	}
}
/// Everything sent to the handle of a request belongs to that request, nothing but a close command follows a response, and nothing follows a close command.
pub open spec fn log_ok<B>(s: Seq<Msg<B>>, d: Dir, i: u32) -> bool {
	&&& forall|k: int| 0 <= k < s.len() ==> match #[trigger] s[k] {
		Msg::Handle(RequestHandleCommand::Close) => true,
		Msg::Handle(RequestHandleCommand::Message(m)) => m.header.request_id == i && match d {
			Dir::Sent => m.header.message_type is Response || m.header.message_type is ResponderUpdate,
			Dir::Received => m.header.message_type is RequesterUpdate,
		},
		_ => false,
	}
	&&& forall|j: int, k: int| 0 <= j < k < s.len() ==> match #[trigger] s[j] {
		Msg::Handle(RequestHandleCommand::Close) => false,
		Msg::Handle(RequestHandleCommand::Message(m)) => m.header.message_type is Response ==> #[trigger] s[k] == Msg::Handle(RequestHandleCommand::<B>::Close),
		_ => false,
	}
}
/// Neither a response nor a close command was sent yet.
pub open spec fn log_open<B>(s: Seq<Msg<B>>) -> bool {
	forall|k: int| 0 <= k < s.len() ==> match #[trigger] s[k] {
		Msg::Handle(RequestHandleCommand::Message(m)) => !(m.header.message_type is Response),
		_ => false,
	}
}
impl<B> RequestTracker<B> {
	/// The open requests: sent and received ones.
	pub open spec fn map(&self, d: Dir) -> Map<u32, TrackedRequest<B>> {
		match d { Dir::Sent => self.sent_requests@, Dir::Received => self.received_requests@ }
	}
	pub open spec fn open(&self, d: Dir, i: u32) -> bool { self.map(d).dom().contains(i) }
	pub open spec fn flag(&self, d: Dir, i: u32) -> int { self.map(d)[i].closed.id() }
	pub open spec fn chan(&self, d: Dir, i: u32) -> Ch { self.map(d)[i].incoming_tx.id() }
	/// The data structure invariant.
	pub open spec fn wf(&self, w: World<B>) -> bool {
		&&& w.owner
		&&& entries_ok(self.sent_requests@, Dir::Sent, w)
		&&& entries_ok(self.received_requests@, Dir::Received, w)
		&&& forall|f: int| #[trigger] w.names.dom().contains(f) ==> {
			&&& w.flags.dom().contains(f)
			&&& !w.flags[f] && !w.unshared.contains(f) ==> self.open(w.names[f].0, w.names[f].1) && self.flag(w.names[f].0, w.names[f].1) == f
		}
		&&& forall|c: Ch| #[trigger] w.chans.dom().contains(c) ==> c is Mpsc && w.log.dom().contains(c) && log_ok(w.log[c], w.chans[c].0, w.chans[c].1)
	}
	/// No request was opened or closed.
	pub open spec fn same_open(&self, o: &Self) -> bool {
		self.sent_requests@ =~= o.sent_requests@ && self.received_requests@ =~= o.received_requests@ && self.command_tx.id() == o.command_tx.id()
	}
	/// Exactly the request `(d, i)` was removed.
	pub open spec fn removed(&self, o: &Self, d: Dir, i: u32) -> bool {
		&&& self.command_tx.id() == o.command_tx.id()
		&&& match d {
			Dir::Sent => self.sent_requests@ =~= o.sent_requests@.remove(i) && self.received_requests@ =~= o.received_requests@,
			Dir::Received => self.received_requests@ =~= o.received_requests@.remove(i) && self.sent_requests@ =~= o.sent_requests@,
		}
	}
	/// Exactly the request `(d, i)`, which was not open, was opened with this flag and channel.
	pub open spec fn opened(&self, o: &Self, d: Dir, i: u32, flag: int, chan: Ch, a: World<B>, b: World<B>) -> bool {
		&&& self.command_tx.id() == o.command_tx.id()
		&&& !o.open(d, i)
		&&& self.open(d, i) && self.flag(d, i) == flag && self.chan(d, i) == chan
		&&& match d {
			Dir::Sent => self.sent_requests@ =~= o.sent_requests@.insert(i, self.sent_requests@[i]) && self.received_requests@ =~= o.received_requests@,
			Dir::Received => self.received_requests@ =~= o.received_requests@.insert(i, self.received_requests@[i]) && self.sent_requests@ =~= o.sent_requests@,
		}
		&&& !a.flags.dom().contains(flag) && b.flags =~= a.flags.insert(flag, false)
		&&& !a.log.dom().contains(chan) && b.log =~= a.log.insert(chan, Seq::empty())
		&&& b.gone =~= a.gone && same_but_channels(a, b)
		&&& b.names =~= a.names.insert(flag, (d, i)) && b.chans =~= a.chans.insert(chan, (d, i)) && b.unshared =~= a.unshared
	}
	/// The request `(d, i)` was closed: removed, its flag set and its reader sent `s`.
	pub open spec fn closed(&self, o: &Self, d: Dir, i: u32, s: Seq<Msg<B>>, a: World<B>, b: World<B>) -> bool {
		&&& o.open(d, i)
		&&& self.removed(o, d, i)
		&&& b.flags =~= a.flags.insert(o.flag(d, i), true)
		&&& same_but_channels(a, b) && b.names =~= a.names && b.chans =~= a.chans && b.unshared =~= a.unshared
		&&& only_sent_to(a, b, set![o.chan(d, i)])
		&&& delivered(a, b, o.chan(d, i), s)
	}
	/// A message for the reader of the request `(d, i)` was passed on, or could not be, because the reader is gone.
	/// In the last case the request may be forgotten, if it is closed or nobody holds it anymore.
	pub open spec fn passed_on(&self, o: &Self, d: Dir, i: u32, m: Message<B>, a: World<B>, b: World<B>) -> bool {
		let ch = o.chan(d, i);
		&&& o.open(d, i)
		&&& same_but_channels(a, b) && b.names =~= a.names && b.chans =~= a.chans
		&&& only_sent_to(a, b, set![ch])
		&&& delivered(a, b, ch, seq![Msg::Handle(RequestHandleCommand::Message(m))])
		&&& {
			||| self.same_open(o) && b.flags =~= a.flags
			||| b.gone.contains(ch) && self.removed(o, d, i) && (b.flags =~= a.flags || b.flags =~= a.flags.insert(o.flag(d, i), true))
		}
	}
}
/// The new handle belongs to the request.
pub open spec fn sent_handle<B>(h: SentRequestHandle<B>, t: &RequestTracker<B>, i: u32, service_id: i32) -> bool {
	&&& h.write_handle.request_id == i
	&&& h.write_handle.service_id == service_id
	&&& h.write_handle.closed.id() == t.flag(Dir::Sent, i)
	&&& h.incoming_rx.id() == t.chan(Dir::Sent, i)
	&&& h.write_handle.command_tx.id() == t.command_tx.id()
	&&& h.peek_buffer is None
}
pub open spec fn received_handle<B>(h: ReceivedRequestHandle<B>, t: &RequestTracker<B>, i: u32, service_id: i32) -> bool {
	&&& h.write_handle.request_id == i
	&&& h.write_handle.service_id == service_id
	&&& h.write_handle.closed.id() == t.flag(Dir::Received, i)
	&&& h.incoming_rx.id() == t.chan(Dir::Received, i)
	&&& h.write_handle.command_tx.id() == t.command_tx.id()
}
pub open spec fn close_msg<B>() -> Seq<Msg<B>> { seq![Msg::Handle(RequestHandleCommand::Close)] }

//@impl request_tracker.rs RequestTracker world=Body
//@fn new(command_tx) -> r [C07 C08]
	ensures
		r.sent_requests@ == Map::<u32, TrackedRequest<Body>>::empty(),
		r.received_requests@ == Map::<u32, TrackedRequest<Body>>::empty(),
		r.command_tx.id() == command_tx.id(),
//@fn allocate_sent_request(service_id) -> r ghost [C07]
	requires old(self).wf(*old(w))
	ensures final(self).wf(*final(w))
	ensures match r {
		Ok(h) => final(self).opened(old(self), Dir::Sent, h.write_handle.request_id, h.write_handle.closed.id(), h.incoming_rx.id(), *old(w), *final(w))
			&& sent_handle(h, final(self), h.write_handle.request_id, service_id),
		Err(e) => final(self).same_open(old(self)) && same_world(*old(w), *final(w)) && e.inner is NoFreeRequestIdFound,
	}
	ensures match r {
		Ok(h) => true,
		Err(e) => forall|k: int| 0 <= k < 100 ==> #[trigger] old(self).open(Dir::Sent, ((old(self).next_sent_request_id + k) % 0x1_0000_0000) as u32),
	}
//@loop 0 it
	invariant
		self.wf(*w), self.same_open(old(self)), same_world(*old(w), *w),
		0 <= it.index@ <= 100,
		self.next_sent_request_id == (old(self).next_sent_request_id + it.index@) % 0x1_0000_0000,
		forall|k: int| 0 <= k < it.index@ ==> #[trigger] old(self).open(Dir::Sent, ((old(self).next_sent_request_id + k) % 0x1_0000_0000) as u32),
//@fn remove_sent_request(request_id) -> r ghost [C09 C10]
	requires old(self).wf(*old(w))
	ensures final(self).wf(*final(w))
	ensures r is Ok == old(self).open(Dir::Sent, request_id)
	ensures match r {
		Ok(()) => final(self).closed(old(self), Dir::Sent, request_id, close_msg(), *old(w), *final(w)),
		Err(e) => final(self).same_open(old(self)) && same_world(*old(w), *final(w)) && unknown_error(e, request_id),
	}
//@fn register_received_request(request_id, service_id, body) -> r ghost [C08]
	requires old(self).wf(*old(w))
	ensures final(self).wf(*final(w))
	ensures r is Ok == !old(self).open(Dir::Received, request_id)
	ensures match r {
		Ok(x) => final(self).opened(old(self), Dir::Received, request_id, x.0.write_handle.closed.id(), x.0.incoming_rx.id(), *old(w), *final(w))
			&& received_handle(x.0, final(self), request_id, service_id) && x.1 == body,
		Err(e) => final(self).same_open(old(self)) && same_world(*old(w), *final(w)) && dup_error(e, request_id),
	}
//@fn remove_received_request(request_id) -> r ghost [C09 C10 C12]
	// The flag of the request may already have been set.
	requires old(self).wf(*old(w)) || old(self).open(Dir::Received, request_id) && old(self).wf(World { flags: old(w).flags.insert(old(self).flag(Dir::Received, request_id), false), ..*old(w) })
	ensures final(self).wf(*final(w))
	ensures r is Ok == old(self).open(Dir::Received, request_id)
	ensures match r {
		Ok(()) => final(self).closed(old(self), Dir::Received, request_id, close_msg(), *old(w), *final(w)),
		Err(e) => final(self).same_open(old(self)) && same_world(*old(w), *final(w)) && unknown_error(e, request_id),
	}
//@fn process_incoming_message(message) -> r ghost [C08]
	requires old(self).wf(*old(w))
	ensures final(self).wf(*final(w)) // [C08 C09 C10]
	ensures routed(old(self), final(self), message, r, *old(w), *final(w))
//@fn process_incoming_response(message) -> r ghost [C08 C09]
	requires old(self).wf(*old(w)), message.header.message_type is Response
	ensures final(self).wf(*final(w))
	ensures routed(old(self), final(self), message, none_or_err(r), *old(w), *final(w))
//@fn process_incoming_requester_update(message) -> r ghost [C08 C10]
	requires old(self).wf(*old(w)), message.header.message_type is RequesterUpdate
	ensures final(self).wf(*final(w))
	ensures routed(old(self), final(self), message, none_or_err(r), *old(w), *final(w))
//@fn process_incoming_responder_update(message) -> r ghost [C08 C10]
	requires old(self).wf(*old(w)), message.header.message_type is ResponderUpdate
	ensures final(self).wf(*final(w))
	ensures routed(old(self), final(self), message, none_or_err(r), *old(w), *final(w))
//@endimpl
pub open spec fn none_or_err<B>(r: Result<(), Error>) -> Result<Option<ReceivedMessage<B>>, Error> {
	match r { Ok(()) => Ok(None), Err(e) => Err(e) }
}
/// The effect of an incoming message on the open requests.
pub open spec fn routed<B>(o: &RequestTracker<B>, n: &RequestTracker<B>, m: Message<B>, r: Result<Option<ReceivedMessage<B>>, Error>, a: World<B>, b: World<B>) -> bool {
	let i = m.header.request_id;
	match m.header.message_type {
		MessageType::Stream => n.same_open(o) && same_world(a, b) && r == Ok::<_, Error>(Some(ReceivedMessage::Stream(m))),
		MessageType::Request => if o.open(Dir::Received, i) {
			n.same_open(o) && same_world(a, b) && r is Err && dup_error(r->Err_0, i)
		} else {
			match r {
				Ok(Some(ReceivedMessage::Request(h, body))) => {
					&&& n.opened(o, Dir::Received, i, h.write_handle.closed.id(), h.incoming_rx.id(), a, b)
					&&& received_handle(h, n, i, m.header.service_id)
					&&& body == m.body
				},
				_ => false,
			}
		},
		MessageType::Response => if o.open(Dir::Sent, i) {
			&&& n.closed(o, Dir::Sent, i, seq![Msg::Handle(RequestHandleCommand::Message(m)), Msg::Handle(RequestHandleCommand::Close)], a, b)
			&&& r matches Ok(x) ==> x is None
			&&& !b.gone.contains(o.chan(Dir::Sent, i)) ==> r is Ok
		} else {
			n.same_open(o) && same_world(a, b) && r is Err && unknown_error(r->Err_0, i)
		},
		MessageType::RequesterUpdate | MessageType::ResponderUpdate => {
			let d = if m.header.message_type is RequesterUpdate { Dir::Received } else { Dir::Sent };
			if o.open(d, i) {
				&&& n.passed_on(o, d, i, m, a, b)
				&&& r matches Ok(x) ==> x is None
				&&& !b.gone.contains(o.chan(d, i)) ==> r is Ok
			} else {
				n.same_open(o) && same_world(a, b) && r is Err && unknown_error(r->Err_0, i)
			}
		},
	}
}
