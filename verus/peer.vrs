// ---------------------------------------------------------------- src/peer.rs
//@include halves.vrs
//@include command.vrs
//@type peer.rs CommandLoop
//@type peer.rs ReadLoop

/// Everything but the command being processed is as in `a`.
pub open spec fn same_loop_state<B>(a: World<B>, b: World<B>) -> bool {
	&&& b.owner == a.owner && b.handles == a.handles && b.reader_dropped == a.reader_dropped && b.stopped == a.stopped
	&&& b.pending is None
}
/// No request was closed or opened.
pub open spec fn same_flags<B>(a: World<B>, b: World<B>) -> bool {
	forall|f: int| #[trigger] a.flags.dom().contains(f) ==> b.flags.dom().contains(f) && b.flags[f] == a.flags[f]
}
/// No request but the one with flag `x` was closed.
pub open spec fn same_flags_but<B>(a: World<B>, b: World<B>, x: int) -> bool {
	forall|f: int| #[trigger] a.flags.dom().contains(f) && f != x ==> b.flags.dom().contains(f) && b.flags[f] == a.flags[f]
}
pub open spec fn last_written<B>(c: Seq<WriteCall<B>>) -> WriteCall<B> { c[c.len() - 1] }
/// Exactly one message was handed to the transport.
pub open spec fn wrote_one<B>(a: Seq<WriteCall<B>>, b: Seq<WriteCall<B>>) -> bool {
	b.len() == a.len() + 1 && b.drop_last() =~= a
}
impl<W: TransportWriteHalf> CommandLoop<'_, W> {
	pub open spec fn inv(&self, w: World<W::Body>) -> bool {
		&&& self.request_tracker.wf(w)
		&&& self.command_rx.sends()
		&&& *self.write_handles as nat == w.handles
		&&& w.reader_dropped ==> *self.read_handle_dropped
		&&& *self.read_handle_dropped ==> w.reader_dropped || w.gone.contains(self.incoming_tx.id())
		&&& w.log.dom().contains(self.incoming_tx.id()) && !w.chans.dom().contains(self.incoming_tx.id())
	}
	/// How the loop has to be started.
	pub open spec fn can_run(&self, w: World<W::Body>) -> bool {
		self.inv(w) && !write_dead(self.write_half.calls()) && w.pending is None && !w.stopped
	}
	/// The function leaves everything alone that is not mentioned in its contract.
	pub open spec fn same_rest(&self, o: &Self) -> bool {
		&&& self.command_rx == o.command_rx
		&&& self.incoming_tx.id() == o.incoming_tx.id()
		&&& *self.write_handles == *o.write_handles
	}
}
pub open spec fn error_text_response<B: BodyTrait>(m: Message<B>, request_id: u32) -> bool {
	exists|t: Seq<char>| error_message(m, request_id, t)
}
//@impl peer.rs CommandLoop world=W::Body
//@fn run() ghost [C13]
	requires old(self).can_run(*old(w))
	ensures final(w).pending is None
	ensures ({
		||| final(w).stopped
		||| final(w).handles == 0 && (final(w).reader_dropped || final(w).gone.contains(final(self).incoming_tx.id()))
		||| write_dead(final(self).write_half.calls())
		||| final(self).write_half.calls().len() > 0 && final(self).write_half.calls().last().res is Err && final(self).write_half.calls().last().msg.header.message_type is Response
	})
//@loop 0
	invariant_except_break
		w.stopped == false && !write_dead(self.write_half.calls())
	invariant
		self.inv(*w) && w.pending is None
	ensures ({
		||| w.stopped
		||| w.handles == 0 && (w.reader_dropped || w.gone.contains(self.incoming_tx.id()))
		||| write_dead(self.write_half.calls())
		||| self.write_half.calls().len() > 0 && self.write_half.calls().last().res is Err && self.write_half.calls().last().msg.header.message_type is Response
	})
//@fn send_request(command) -> r ghost [C15]
	requires old(self).inv(*old(w)) && !write_dead(old(self).write_half.calls())
	requires old(w).pending == Some(Command::SendRequest(command)) && old(w).log.dom().contains(command.result_tx.id())
	ensures final(self).inv(*final(w)) && final(self).same_rest(old(self)) // [C07 C08 C13]
	ensures same_loop_state(*old(w), *final(w)) // [C13]
	ensures same_flags(*old(w), *final(w)) // [C09 C15]
	ensures only_sent_to(*old(w), *final(w), set![command.result_tx.id()])
	ensures (r is Stop) == write_dead(final(self).write_half.calls()) // [C13 C15]
	ensures ({
		let a = old(self).write_half.calls();
		let b = final(self).write_half.calls();
		let m = last_written(b).msg;
		||| b =~= a
		||| wrote_one(a, b) && m == msg(MessageType::Request, m.header.request_id, command.service_id, command.body)
	})
	ensures wrote_one(old(self).write_half.calls(), final(self).write_half.calls()) ==> !old(self).request_tracker.open(Dir::Sent, last_written(final(self).write_half.calls()).msg.header.request_id) // [C07]
	// The requester gets a handle of the request that was written.
	ensures ({
		let t0 = *old(self).request_tracker;
		let t1 = *final(self).request_tracker;
		let last = last_written(final(self).write_half.calls());
		let id = last.msg.header.request_id;
		let ch = command.result_tx.id();
		if wrote_one(old(self).write_half.calls(), final(self).write_half.calls()) && last.res is Ok && !final(w).gone.contains(ch) {
			&&& final(w).log[ch] =~= old(w).log[ch].push(final(w).log[ch].last())
			&&& final(w).log[ch].last() matches Msg::Request(Ok(h)) && sent_handle(h, &t1, id, command.service_id)
			&&& t1.open(Dir::Sent, id)
			&&& t1.sent_requests@ =~= t0.sent_requests@.insert(id, t1.sent_requests@[id])
			&&& t1.received_requests@ =~= t0.received_requests@
		} else {
			t1.same_open(&t0)
		}
	})
	// Or the error.
	ensures ({
		let last = last_written(final(self).write_half.calls());
		if wrote_one(old(self).write_half.calls(), final(self).write_half.calls()) {
			match last.res {
				Ok(()) => true,
				Err(e) => delivered(*old(w), *final(w), command.result_tx.id(), seq![Msg::Request(Err(e.inner))]),
			}
		} else {
			delivered(*old(w), *final(w), command.result_tx.id(), seq![Msg::Request(Err(Error { inner: InnerError::NoFreeRequestIdFound }))])
		}
	})
//@proof
	proof { w.pending = None; }
//@fn send_raw_message(command) -> r ghost [C15]
	requires old(self).inv(*old(w)) && !write_dead(old(self).write_half.calls())
	requires old(w).pending == Some(Command::SendRawMessage(command)) && raw_rely(command, *old(w))
	ensures final(self).inv(*final(w)) && final(self).same_rest(old(self)) // [C08 C09 C10 C13]
	ensures same_loop_state(*old(w), *final(w)) // [C13]
	ensures r is Stop == write_dead(final(self).write_half.calls()) // [C13 C15]
	ensures command.closed is Some && old(w).flags[command.closed->Some_0.id()] ==> final(self).write_half.calls() =~= old(self).write_half.calls() // [C10]
	ensures ({
		let t0 = *old(self).request_tracker;
		let t1 = *final(self).request_tracker;
		let a = old(self).write_half.calls();
		let b = final(self).write_half.calls();
		let last = last_written(b);
		let res = command.result_tx.id();
		if command.closed is Some && old(w).flags[command.closed->Some_0.id()] {
			// The request was closed in the mean time.
			&&& t1.same_open(&t0)
			&&& same_flags(*old(w), *final(w))
			&&& only_sent_to(*old(w), *final(w), set![res])
			&&& delivered(*old(w), *final(w), res, seq![Msg::Done(Err(Error { inner: InnerError::RequestClosed }))])
		} else {
			&&& wrote_one(a, b)
			&&& last.msg == command.message
			&&& match last.res {
				Ok(()) => delivered(*old(w), *final(w), res, seq![Msg::Done(Ok(()))]),
				Err(e) => delivered(*old(w), *final(w), res, seq![Msg::Done(Err(e.inner))]),
			}
		}
	})
	ensures ({ // [C09]
		let t0 = *old(self).request_tracker;
		let t1 = *final(self).request_tracker;
		let last = last_written(final(self).write_half.calls());
		let res = command.result_tx.id();
		let id = command.message.header.request_id;
		if !(command.closed is Some && old(w).flags[command.closed->Some_0.id()]) {
			if last.res is Ok && command.message.header.message_type is Response {
				// A written response ends its request.
				&&& t0.open(Dir::Received, id)
				&&& t0.flag(Dir::Received, id) == command.closed->Some_0.id()
				&&& t1.removed(&t0, Dir::Received, id)
				&&& final(w).flags.dom().contains(t0.flag(Dir::Received, id)) && final(w).flags[t0.flag(Dir::Received, id)]
				&&& same_flags_but(*old(w), *final(w), t0.flag(Dir::Received, id))
				&&& only_sent_to(*old(w), *final(w), set![res, t0.chan(Dir::Received, id)])
				&&& delivered(*old(w), *final(w), t0.chan(Dir::Received, id), close_msg())
			} else {
				&&& t1.same_open(&t0)
				&&& same_flags(*old(w), *final(w))
				&&& only_sent_to(*old(w), *final(w), set![res])
			}
		} else { true }
	})
//@proof
	proof { w.pending = None; }
//@fn process_incoming_message(command) -> r ghost [C14]
	requires old(self).inv(*old(w)) && !write_dead(old(self).write_half.calls())
	requires old(w).pending == Some(Command::ProcessReceivedMessage(command))
	ensures final(self).inv(*final(w)) && final(self).same_rest(old(self)) // [C08 C09 C10 C12 C13]
	ensures same_loop_state(*old(w), *final(w)) // [C13]
	ensures ({ // [C12 C13]
		let a = old(self).write_half.calls();
		let b = final(self).write_half.calls();
		// The peer is stopped by an error response that can not be written, and by nothing else.
		if b =~= a { r is Continue } else { wrote_one(a, b) && (r is Stop) == (last_written(b).res is Err) }
	})
	ensures ({
		let inc = final(self).incoming_tx.id();
		let t0 = *old(self).request_tracker;
		match command.message {
			Err(e) => delivered(*old(w), *final(w), inc, seq![Msg::Incoming(Err(e))]),
			Ok(m) => match m.header.message_type {
				MessageType::Stream => delivered(*old(w), *final(w), inc, seq![Msg::Incoming(Ok(ReceivedMessage::Stream(m)))]),
				_ => true,
			},
		}
	})
	ensures ({ // [C08]
		let inc = final(self).incoming_tx.id();
		let t0 = *old(self).request_tracker;
		let t1 = *final(self).request_tracker;
		match command.message {
			Err(e) => t1.same_open(&t0) && same_flags(*old(w), *final(w)) && only_sent_to(*old(w), *final(w), set![inc]),
			Ok(m) => routed_by_loop(&t0, &t1, m, inc, *old(w), *final(w)),
		}
	})
	ensures ({ // [C12]
		let inc = final(self).incoming_tx.id();
		let a = old(self).write_half.calls();
		let b = final(self).write_half.calls();
		match command.message {
			Err(e) => b =~= a,
			Ok(m) => if m.header.message_type is Request && !old(self).request_tracker.open(Dir::Received, m.header.request_id) && final(w).gone.contains(inc) {
				wrote_one(a, b) && error_text_response(last_written(b).msg, m.header.request_id)
			} else {
				b =~= a
			},
		}
	})
//@proof
	proof { w.pending = None; }
//@fn send_incoming(incoming) -> r ghost [C14]
	requires old(self).inv(*old(w))
	ensures final(self).inv(*final(w)) && final(self).same_rest(old(self))
	ensures final(self).write_half == old(self).write_half && final(self).request_tracker.same_open(old(self).request_tracker)
	ensures sent(*old(w), *final(w), old(self).incoming_tx.id(), Msg::Incoming(incoming), r is Ok)
//@fn write_message(message) -> r [C15]
	requires !write_dead(old(self).write_half.calls())
	ensures
		final(self).write_half.calls().len() == old(self).write_half.calls().len() + 1,
		final(self).write_half.calls().drop_last() =~= old(self).write_half.calls(),
		last_written(final(self).write_half.calls()).msg == *message,
		match r {
			Ok(()) => last_written(final(self).write_half.calls()).res is Ok,
			Err(x) => last_written(final(self).write_half.calls()).res is Err && last_written(final(self).write_half.calls()).res->Err_0.inner == x.0
				&& (x.1 is Stop) == last_written(final(self).write_half.calls()).res->Err_0.is_fatal,
		},
		final(self).request_tracker == old(self).request_tracker,
		*final(self).request_tracker == *old(self).request_tracker,
		final(self).command_rx == old(self).command_rx && final(self).incoming_tx == old(self).incoming_tx
			&& final(self).read_handle_dropped == old(self).read_handle_dropped && final(self).write_handles == old(self).write_handles,
//@endimpl
/// The effect of an incoming message on the open requests and the read handle of the peer.
pub open spec fn routed_by_loop<B: BodyTrait>(o: &RequestTracker<B>, n: &RequestTracker<B>, m: Message<B>, inc: Ch, a: World<B>, b: World<B>) -> bool {
	let i = m.header.request_id;
	match m.header.message_type {
		MessageType::Stream => n.same_open(o) && same_flags(a, b) && only_sent_to(a, b, set![inc]),
		MessageType::Request => if o.open(Dir::Received, i) {
			&&& n.same_open(o) && same_flags(a, b) && only_sent_to(a, b, set![inc])
			&&& delivered(a, b, inc, seq![Msg::Incoming(Err(Error { inner: InnerError::DuplicateRequestId { request_id: i } }))])
		} else {
			&&& same_flags(a, b) && only_sent_to(a, b, set![inc])
			&&& if b.gone.contains(inc) { n.same_open(o) } else {
				&&& n.open(Dir::Received, i)
				&&& n.received_requests@ =~= o.received_requests@.insert(i, n.received_requests@[i])
				&&& n.sent_requests@ =~= o.sent_requests@
				&&& b.log[inc] =~= a.log[inc].push(b.log[inc].last())
				&&& b.log[inc].last() matches Msg::Incoming(Ok(ReceivedMessage::Request(h, body)))
					&& received_handle(h, n, i, m.header.service_id) && body == m.body
			}
		},
		MessageType::Response => if o.open(Dir::Sent, i) {
			let ch = o.chan(Dir::Sent, i);
			&&& n.removed(o, Dir::Sent, i)
			&&& b.flags[o.flag(Dir::Sent, i)] && same_flags_but(a, b, o.flag(Dir::Sent, i))
			&&& delivered(a, b, ch, seq![Msg::Handle(RequestHandleCommand::Message(m)), Msg::Handle(RequestHandleCommand::Close)])
			&&& if b.gone.contains(ch) { only_sent_to(a, b, set![ch, inc]) } else { only_sent_to(a, b, set![ch]) }
		} else {
			&&& n.same_open(o) && same_flags(a, b) && only_sent_to(a, b, set![inc])
			&&& delivered(a, b, inc, seq![Msg::Incoming(Err(Error { inner: InnerError::UnknownRequestId { request_id: i } }))])
		},
		MessageType::RequesterUpdate | MessageType::ResponderUpdate => {
			let d = if m.header.message_type is RequesterUpdate { Dir::Received } else { Dir::Sent };
			let ch = o.chan(d, i);
			if o.open(d, i) {
				&&& delivered(a, b, ch, seq![Msg::Handle(RequestHandleCommand::Message(m))])
				&&& if b.gone.contains(ch) {
					&&& n.same_open(o) || n.removed(o, d, i)
					&&& same_flags_but(a, b, o.flag(d, i))
					&&& only_sent_to(a, b, set![ch, inc])
				} else {
					&&& n.same_open(o) && same_flags(a, b)
					&&& only_sent_to(a, b, set![ch])
				}
			} else {
				&&& n.same_open(o) && same_flags(a, b) && only_sent_to(a, b, set![inc])
				&&& delivered(a, b, inc, seq![Msg::Incoming(Err(Error { inner: InnerError::UnknownRequestId { request_id: i } }))])
			}
		},
	}
}

/// The command for something that was read.
pub open spec fn read_command<B>(r: Result<Message<B>, TransportError>) -> Msg<B> {
	Msg::Command(Command::ProcessReceivedMessage(ProcessReceivedMessage {
		message: match r { Ok(m) => Ok(m), Err(e) => Err(e.inner) },
	}))
}
impl<R: TransportReadHalf> ReadLoop<R> {
	/// How the loop has to be started.
	pub open spec fn can_run(&self, w: World<R::Body>) -> bool {
		!read_dead(self.read_half.reads()) && w.log.dom().contains(self.command_tx.id())
	}
}
//@impl peer.rs ReadLoop world=R::Body
//@fn run() ghost [C14]
	requires old(self).can_run(*old(w))
	// Everything read is passed on once, in order, until the loop that processes it is gone.
	ensures ({
		let n = old(self).read_half.reads().len() as int;
		let ch = old(self).command_tx.id();
		let all = final(self).read_half.reads();
		let got = all.subrange(n, all.len() as int);
		&&& all.len() > n && all.subrange(0, n) =~= old(self).read_half.reads()
		&&& final(w).log[ch] =~= old(w).log[ch] + got.map_values(|r: Result<Message<R::Body>, TransportError>| read_command(r))
			|| final(w).gone.contains(ch) && final(w).log[ch] =~= old(w).log[ch] + got.drop_last().map_values(|r: Result<Message<R::Body>, TransportError>| read_command(r))
	})
	// It stops after a fatal error, or when nobody processes the messages anymore.
	ensures read_dead(final(self).read_half.reads()) || final(w).gone.contains(final(self).command_tx.id()) // [C13 C14]
//@loop 0
	invariant_except_break
		read_dead(self.read_half.reads()) == false,
		w.log[self.command_tx.id()] =~= old(w).log[self.command_tx.id()] + self.read_half.reads().subrange(old(self).read_half.reads().len() as int, self.read_half.reads().len() as int).map_values(|r: Result<Message<R::Body>, TransportError>| read_command(r))
	invariant
		self.command_tx.id() == old(self).command_tx.id(),
		w.log.dom().contains(self.command_tx.id()),
		self.read_half.reads().len() >= old(self).read_half.reads().len(),
		self.read_half.reads().subrange(0, old(self).read_half.reads().len() as int) =~= old(self).read_half.reads()
	ensures ({
		let n = old(self).read_half.reads().len() as int;
		let ch = old(self).command_tx.id();
		let all = self.read_half.reads();
		let got = all.subrange(n, all.len() as int);
		&&& all.len() > n
		&&& w.log[ch] =~= old(w).log[ch] + got.map_values(|r: Result<Message<R::Body>, TransportError>| read_command(r))
			|| w.gone.contains(ch) && w.log[ch] =~= old(w).log[ch] + got.drop_last().map_values(|r: Result<Message<R::Body>, TransportError>| read_command(r))
	}),
		read_dead(self.read_half.reads()) || w.gone.contains(self.command_tx.id())
//@endimpl

/// The transport of a peer; its halves are contracts of their own.
pub trait TransportTrait: Sized {
	type Body: BodyTrait;
	type ReadHalf<'a>: TransportReadHalf<Body = Self::Body> where Self: 'a;
	type WriteHalf<'a>: TransportWriteHalf<Body = Self::Body> where Self: 'a;
	fn split(&mut self) -> (r: (Self::ReadHalf<'_>, Self::WriteHalf<'_>))
		ensures r.0.reads() == Seq::<Result<Message<Self::Body>, TransportError>>::empty() && r.1.calls() == Seq::<WriteCall<Self::Body>>::empty();
}
//@type peer.rs Peer
impl<T: TransportTrait> Peer<T> {
	/// What the command loop needs to start: see its invariant.
	pub open spec fn ready(&self, w: World<T::Body>) -> bool {
		&&& self.request_tracker.wf(w)
		&&& self.write_handles as nat == w.handles
		&&& w.log.dom().contains(self.incoming_tx.id()) && !w.chans.dom().contains(self.incoming_tx.id())
		&&& w.log.dom().contains(self.command_tx.id())
		&&& self.command_tx.id() == self.command_rx.id()
	}
}
/// A loop of the peer that runs whenever it is polled.
/// Trusted: it was started as its contract demands, so it ends, if it ends, as its contract says.
pub trait LoopRun<B>: Sized {
	type Output;
	spec fn ended(&self, w: World<B>) -> bool;
}
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ReadLoopRun<'a, R: TransportReadHalf> { x: &'a mut ReadLoop<R> }
impl<'a, R: TransportReadHalf> LoopRun<R::Body> for ReadLoopRun<'a, R> {
	type Output = ();
	open spec fn ended(&self, w: World<R::Body>) -> bool { !w.reading }
}
impl<R: TransportReadHalf> ReadLoop<R> {
	#[verifier::external_body]
	pub fn run_later<'b>(&'b mut self, Tracked(w): Tracked<&mut World<R::Body>>) -> (r: ReadLoopRun<'b, R>)
		requires old(self).can_run(*old(w)) && old(w).reading
		ensures *final(w) == *old(w)
	{ unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct CommandLoopRun<'a, W: TransportWriteHalf> { x: &'a mut W }
impl<'a, W: TransportWriteHalf> LoopRun<W::Body> for CommandLoopRun<'a, W> {
	type Output = ();
	open spec fn ended(&self, w: World<W::Body>) -> bool { !w.processing }
}
impl<'a, W: TransportWriteHalf> CommandLoop<'a, W> {
	#[verifier::external_body]
	pub fn run_later<'b>(&'b mut self, Tracked(w): Tracked<&mut World<W::Body>>) -> (r: CommandLoopRun<'b, W>)
		requires old(self).can_run(*old(w)) && old(w).processing
		ensures *final(w) == *old(w)
	{ unimplemented!() }
}
impl<'a, W: TransportWriteHalf> CommandLoopRun<'a, W> {
	#[verifier::external_body]
	pub fn wait(self, Tracked(w): Tracked<&mut World<W::Body>>)
		ensures self.ended(*final(w)) && loops_ran(*old(w), *final(w)) && final(w).reading == old(w).reading
	{ unimplemented!() }
}
/// The effect of the loops on the rest of the world.
pub open spec fn loops_ran<B>(a: World<B>, b: World<B>) -> bool {
	&&& b.owner == a.owner && b.held == a.held
	&&& forall|c: Ch| #![trigger a.log.dom().contains(c)] #![trigger b.log[c]] a.log.dom().contains(c) ==> b.log.dom().contains(c) && a.log[c].is_prefix_of(b.log[c])
	&&& forall|c: Ch| #![trigger b.log[c]] a.log.dom().contains(c) && a.log[c].len() > 0 ==> b.log[c].contains(a.log[c].last())
}
//@type util/select.rs Either
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
#[verifier::reject_recursive_types(Y)]
pub struct Select<X, Y> { x: (X, Y) }
#[verifier::external_body]
pub fn select<X, Y>(a: X, b: Y) -> (r: Select<X, Y>) ensures r.parts() == (a, b) { unimplemented!() }
impl<X, Y> Select<X, Y> {
	pub uninterp spec fn parts(&self) -> (X, Y);
	/// Both run until one of them ends. (`Select::poll` has a contract of its own, in t_select.vrs.)
	#[verifier::external_body]
	pub fn wait<B>(self, Tracked(w): Tracked<&mut World<B>>) -> (r: Either<(X::Output, Y), (X, Y::Output)>)
		where X: LoopRun<B>, Y: LoopRun<B>
		ensures
			loops_ran(*old(w), *final(w)),
			match r {
				Either::Left((_, y)) => y == self.parts().1 && self.parts().0.ended(*final(w)) && (!y.ended(*old(w)) ==> !y.ended(*final(w))),
				Either::Right((x, _)) => x == self.parts().0 && self.parts().1.ended(*final(w)) && (!x.ended(*old(w)) ==> !x.ended(*final(w))),
			},
	{ unimplemented!() }
}
/// The owner of the receiver also keeps a sender.
pub axiom fn axiom_sends<T>(tx: mpsc::UnboundedSender<T>, rx: mpsc::UnboundedReceiver<T>) requires tx.id() == rx.id() ensures rx.sends();
//@later run
//@awaited select
//@impl peer.rs Peer world=Transport::Body
//@skip spawn connect transport transport_mut verif_request_tracker
//@fn run() ghost [C13 C14]
	requires self.ready(*old(w)) && old(w).pending is None && !old(w).stopped && !old(w).reader_dropped
	requires old(w).reading && old(w).processing && old(w).held.contains(self.command_rx.id())
	// The peer ends with its command loop,
	ensures !final(w).processing
	// and if the read loop ended first, the command loop has been told to stop.
	ensures final(w).reading || final(w).log[self.command_tx.id()].contains(Msg::Command(Command::<Transport::Body>::Stop))
//@proof
	proof { axiom_sends(self.command_tx, self.command_rx); }
//@fn new(transport) -> r ghost [C13 C14]
	requires old(w).owner && old(w).names == Map::<int, (Dir, u32)>::empty() && old(w).chans == Map::<Ch, (Dir, u32)>::empty()
	// There is one write handle.
	requires old(w).handles == 1
	ensures
		r.0.transport == transport,
		r.0.ready(*final(w)),
		r.0.request_tracker.sent_requests@ == Map::<u32, TrackedRequest<Transport::Body>>::empty() && r.0.request_tracker.received_requests@ == Map::<u32, TrackedRequest<Transport::Body>>::empty(),
		// The handle, the request tracker and the loops of the peer are connected to each other.
		r.0.command_tx.id() == r.0.command_rx.id() && r.0.request_tracker.command_tx.id() == r.0.command_rx.id(),
		r.1.read_handle.command_tx.id() == r.0.command_rx.id() && r.1.write_handle.command_tx.id() == r.0.command_rx.id(),
		r.1.read_handle.incoming_rx.id() == r.0.incoming_tx.id(),
		r.0.incoming_tx.id() != r.0.command_tx.id(),
		final(w).log[r.0.incoming_tx.id()] == Seq::<Msg<Transport::Body>>::empty() && final(w).log[r.0.command_tx.id()] == Seq::<Msg<Transport::Body>>::empty()
//@endimpl
