//! Search for executions of the real peer (run loops, request tracker, handles) that differ from the properties.
//!
//! A scripted transport, a single-threaded executor and a random user drive the code of /repo.
//! The oracle is a reference of the *observable* behaviour: what must be handed to the transport,
//! what each operation must return, what the user must receive.
//! Where the properties leave freedom, so does the oracle (see `fuzzy`).
use crate::exec::Exec;
use crate::rng::Rng;
use fizyr_rpc::transport::{Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Body, Error, Message, MessageHeader, MessageType, Peer, PeerReadHandle, PeerWriteHandle, ReceivedMessage, ReceivedRequestHandle, ReceivedRequestWriteHandle, SentRequestHandle, SentRequestWriteHandle};
use std::cell::RefCell;
use std::collections::{BTreeSet, VecDeque};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TB(pub Vec<u8>);
impl Body for TB {
	fn empty() -> Self { TB(vec![]) }
	fn from_error(message: &str) -> Self { TB([b"E:", message.as_bytes()].concat()) }
	fn as_error(&self) -> Result<&str, std::str::Utf8Error> { std::str::from_utf8(&self.0) }
	fn into_error(self) -> Result<String, std::string::FromUtf8Error> { String::from_utf8(self.0) }
}
impl From<Vec<u8>> for TB { fn from(x: Vec<u8>) -> Self { TB(x) } }

#[derive(Clone, Debug)]
enum Item { Msg(MessageHeader, Vec<u8>), Err(String, bool) }
#[derive(Clone, Debug, PartialEq)]
enum Outcome { Accept, NonFatal(String), Fatal(String) }
#[derive(Clone, Debug)]
struct Attempt { header: MessageHeader, body: Vec<u8>, outcome: Option<Outcome> }
#[derive(Clone, Debug)]
enum Ev { Read(Item), Op(usize), UnregReader, RegWriter, UnregWriter, Stop }

#[derive(Default)]
struct World {
	read_q: VecDeque<Item>, read_waker: Option<Waker>, fatal_returned: bool, read_after_fatal: bool,
	attempts: Vec<Attempt>, in_progress: bool, write_waker: Option<Waker>, resolve: Option<Outcome>,
	plan: VecDeque<Option<Outcome>>, interleaved: bool,
	log: Vec<Ev>,
}
type W = Arc<Mutex<World>>;
struct ScriptTransport(W);
struct ScriptRead(W);
struct ScriptWrite(W);
impl Transport for ScriptTransport {
	type Body = TB;
	type Info = ();
	type Config = ();
	type ReadHalf<'a> = ScriptRead;
	type WriteHalf<'a> = ScriptWrite;
	fn split(&mut self) -> (ScriptRead, ScriptWrite) { (ScriptRead(self.0.clone()), ScriptWrite(self.0.clone())) }
	fn info(&self) -> std::io::Result<()> { Ok(()) }
}
#[cfg(feature = "hooks")]
fn transport_error(text: &str, fatal: bool) -> TransportError { TransportError::verif_new(Error::custom(text.into()), fatal) }
#[cfg(not(feature = "hooks"))]
fn transport_error(_text: &str, _fatal: bool) -> TransportError { unimplemented!() }

impl TransportReadHalf for ScriptRead {
	type Body = TB;
	fn poll_read_msg(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message<TB>, TransportError>> {
		let mut w = self.0.lock().unwrap();
		if w.fatal_returned { w.read_after_fatal = true; w.read_waker = Some(cx.waker().clone()); return Poll::Pending; }
		match w.read_q.pop_front() {
			None => { w.read_waker = Some(cx.waker().clone()); Poll::Pending },
			Some(item) => {
				w.log.push(Ev::Read(item.clone()));
				match item {
					Item::Msg(h, b) => Poll::Ready(Ok(Message::new(h, TB(b)))),
					Item::Err(t, fatal) => { if fatal { w.fatal_returned = true } Poll::Ready(Err(transport_error(&t, fatal))) },
				}
			},
		}
	}
}
impl TransportWriteHalf for ScriptWrite {
	type Body = TB;
	fn poll_write_msg(self: Pin<&mut Self>, cx: &mut Context, header: &MessageHeader, body: &TB) -> Poll<Result<(), TransportError>> {
		let mut w = self.0.lock().unwrap();
		if !w.in_progress {
			let outcome = w.plan.pop_front().unwrap_or(Some(Outcome::Accept));
			w.attempts.push(Attempt { header: *header, body: body.0.clone(), outcome: None });
			w.in_progress = true;
			w.resolve = outcome;
		}
		let last = w.attempts.last().unwrap();
		if last.header != *header || last.body != body.0 { w.interleaved = true }
		match w.resolve.take() {
			None => { w.write_waker = Some(cx.waker().clone()); Poll::Pending },
			Some(o) => {
				w.in_progress = false;
				w.attempts.last_mut().unwrap().outcome = Some(o.clone());
				match o {
					Outcome::Accept => Poll::Ready(Ok(())),
					Outcome::NonFatal(t) => Poll::Ready(Err(transport_error(&t, false))),
					Outcome::Fatal(t) => Poll::Ready(Err(transport_error(&t, true))),
				}
			},
		}
	}
}

#[derive(Debug, Clone)]
pub struct Mismatch { pub tags: Vec<&'static str>, pub what: String }
fn mm<T>(tags: &[&'static str], what: String) -> Result<T, Mismatch> { Err(Mismatch { tags: tags.to_vec(), what }) }
const ALL: &[&str] = &["C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"];

#[derive(Debug)]
enum Res { Ok, Handle(u32, i32), Msg(MessageHeader, Vec<u8>), NoMsg, Err { text: String, aborted: bool, unexpected: bool } }
impl Res {
	fn err(e: Error) -> Res { Res::Err { text: e.to_string(), aborted: e.is_connection_aborted(), unexpected: e.is_unexpected_message_type() } }
	fn of(r: Result<(), Error>) -> Res { match r { Ok(()) => Res::Ok, Err(e) => Res::err(e) } }
	fn msg(m: Message<TB>) -> Res { Res::Msg(m.header, m.body.0) }
}
#[derive(Debug, Clone, PartialEq)]
enum Exp { Wait, Ok, Handle(u32, i32), ErrText(String), ErrAborted, ErrAny, ErrUnexpected, Msg(MessageHeader, Vec<u8>), NoMsg, Free }

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind { SendRequest, SendStream, SentUpdate, ReceivedUpdate, Response, ErrorResponse, RecvUpdate, RecvResponse }
struct Op {
	kind: Kind, inst: Option<usize>, service: i32, body: Vec<u8>, task: usize,
	slot: Rc<RefCell<Option<Res>>>, sent_handle: Rc<RefCell<Option<SentRequestHandle<TB>>>>,
	exp: Exp, cancelled: bool, checked: bool, why: &'static [&'static str],
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum HState { NotYet, Have, Dropped }
struct Inst {
	sent: bool, id: u32, service: i32,
	open: bool, ended: bool, inbox: VecDeque<(MessageHeader, Vec<u8>)>, hstate: HState,
	sh: Rc<RefCell<Option<SentRequestHandle<TB>>>>, rh: Rc<RefCell<Option<ReceivedRequestHandle<TB>>>>,
	sw: Vec<Rc<SentRequestWriteHandle<TB>>>, rw: Vec<Rc<ReceivedRequestWriteHandle<TB>>>,
}
enum UserEv { Req(ReceivedRequestHandle<TB>, Vec<u8>), Stream(MessageHeader, Vec<u8>), Err(String, bool) }
impl std::fmt::Debug for UserEv {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		match self {
			UserEv::Req(h, b) => write!(f, "request {} service {} body {}", h.request_id(), h.service_id(), show(b)),
			UserEv::Stream(h, b) => write!(f, "stream {:?} body {}", h, show(b)),
			UserEv::Err(t, a) => write!(f, "error {:?} (connection aborted: {})", t, a),
		}
	}
}
#[derive(Debug, Clone)]
enum ExpUser { Req(usize, Vec<u8>), Stream(MessageHeader, Vec<u8>), TransportErr(String), ProtocolErr, MaybeErr(usize), MaybeReq(usize, Vec<u8>), Aborted }

fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }

#[derive(Debug, Clone)]
enum Cmd { Op(usize), Incoming(Item), Stop, UnregReader, RegWriter, UnregWriter }
enum Cur { Idle, Op(usize, Option<usize>), ErrorResponse }

struct Model { queue: VecDeque<Cmd>, cur: Cur, pos: usize, stopped: bool, stop_tags: &'static [&'static str], reader_cmd_gone: bool, writers: usize }

pub struct Sim {
	rng: Rng, exec: Exec, world: W, run: usize, drainer: Option<usize>, reader: Rc<RefCell<Option<PeerReadHandle<TB>>>>,
	user: Rc<RefCell<Vec<UserEv>>>, exp_user: VecDeque<ExpUser>, reader_gone: bool, aborted_seen: bool,
	writers: Vec<Rc<PeerWriteHandle<TB>>>, close: fizyr_rpc::PeerCloseHandle<TB>, stop_requested: bool,
	insts: Vec<Inst>, ops: Vec<Op>, m: Model, pub trace: Vec<String>, counter: usize, inconclusive: bool, pub steps: usize, profile: Profile,
	pub kinds: BTreeSet<&'static str>,
}
#[derive(Clone, Debug)]
struct Profile { block: usize, nonfatal: usize, fatal: usize, read_err: usize, read_fatal: usize, lazy: bool, drop_reader: bool, drops: usize, close: usize, cancel: usize, partial: usize, prealloc: usize, next_id: u32, steps: usize, first_pre: u32 }

impl Sim {
	pub fn new(seed: u64, focus: &str) -> Sim {
		let mut rng = Rng::new(seed);
		let world: W = Default::default();
		#[allow(unused_mut)]
		let (mut peer, handle) = Peer::new(ScriptTransport(world.clone()));
		let mut profile = Profile {
			block: *rng.pick(&[0, 10, 30, 60]).unwrap(), nonfatal: *rng.pick(&[0, 5, 25]).unwrap(), fatal: *rng.pick(&[0, 0, 2, 8]).unwrap(),
			read_err: *rng.pick(&[0, 5, 15]).unwrap(), read_fatal: *rng.pick(&[0, 0, 1, 4]).unwrap(), lazy: rng.chance(15), drop_reader: rng.chance(25),
			drops: *rng.pick(&[0, 5, 15]).unwrap(), close: *rng.pick(&[0, 0, 1, 3]).unwrap(), cancel: *rng.pick(&[0, 0, 5, 12]).unwrap(), partial: *rng.pick(&[0, 20, 60]).unwrap(),
			prealloc: 0, next_id: 0, steps: *rng.pick(&[6, 12, 25, 50]).unwrap(), first_pre: 0,
		};
		if focus == "C12" && rng.chance(70) { profile.drop_reader = true; profile.lazy = false }
		if focus == "C13" && rng.chance(60) { profile.drops = 20; profile.close = 3; profile.drop_reader = rng.chance(60) }
		if focus == "C15" && rng.chance(50) { profile.cancel = 15; profile.nonfatal = 25; profile.block = 30 }
		if focus == "C14" && rng.chance(50) { profile.read_err = 25; profile.read_fatal = 3 }
		let mut pre = vec![];
		#[cfg(feature = "hook-ids")]
		{
			let wrap = if focus == "C07" { 85 } else { 30 };
			if rng.chance(wrap) {
				profile.first_pre = *rng.pick(&[0, 1, 5, u32::MAX - 2, u32::MAX - 50, u32::MAX, 0x7fff_fffe]).unwrap();
				profile.prealloc = *rng.pick(&[1, 2, 3, 3, 5, 60, 99, 100, 101, 150]).unwrap();
				if profile.prealloc > 50 && !rng.chance(30) { profile.prealloc = 3 }
				if profile.prealloc > 50 { profile.partial = 0 }
				profile.next_id = profile.first_pre.wrapping_sub(*rng.pick(&[0, 0, 0, 1, 2]).unwrap());
				let t = peer.verif_request_tracker();
				t.verif_set_next_sent_request_id(profile.first_pre);
				for i in 0..profile.prealloc { if let Ok(h) = t.allocate_sent_request(i as i32) { pre.push((h, i as i32)) } }
				t.verif_set_next_sent_request_id(profile.next_id);
			}
		}
		let close = handle.close_handle();
		let (reader, writer) = handle.split();
		let mut exec = Exec::default();
		let run = exec.spawn(peer.run());
		let mut s = Sim {
			rng, exec, world, run, drainer: None, reader: Rc::new(RefCell::new(Some(reader))), user: Default::default(), exp_user: VecDeque::new(), reader_gone: false, aborted_seen: false,
			writers: vec![Rc::new(writer)], close, stop_requested: false, insts: vec![], ops: vec![],
			m: Model { queue: VecDeque::new(), cur: Cur::Idle, pos: 0, stopped: false, stop_tags: &["C13"], reader_cmd_gone: false, writers: 1 },
			trace: vec![], counter: 0, inconclusive: false, steps: 0, profile: profile.clone(), kinds: BTreeSet::new(),
		};
		s.trace.push(format!("peer with scripted transport; {:?}", profile));
		for (h, service) in pre {
			let id = h.request_id();
			let i = s.new_inst(true, id, service);
			s.insts[i].open = true;
			s.insts[i].hstate = HState::Have;
			*s.insts[i].sh.borrow_mut() = Some(h);
		}
		if !s.profile.lazy { s.start_drain() }
		s
	}

	fn start_drain(&mut self) {
		let reader = self.reader.borrow_mut().take();
		let user = self.user.clone();
		if let Some(mut r) = reader {
			self.drainer = Some(self.exec.spawn(async move {
				loop {
					match r.recv_message().await {
						Ok(ReceivedMessage::Request(h, b)) => user.borrow_mut().push(UserEv::Req(h, b.0)),
						Ok(ReceivedMessage::Stream(m)) => user.borrow_mut().push(UserEv::Stream(m.header, m.body.0)),
						Err(e) => {
							let aborted = e.is_connection_aborted();
							user.borrow_mut().push(UserEv::Err(e.to_string(), aborted));
							if aborted { std::future::pending::<()>().await }
						},
					}
				}
			}));
		}
	}

	fn new_inst(&mut self, sent: bool, id: u32, service: i32) -> usize {
		self.insts.push(Inst { sent, id, service, open: false, ended: false, inbox: VecDeque::new(), hstate: HState::NotYet, sh: Default::default(), rh: Default::default(), sw: vec![], rw: vec![] });
		self.insts.len() - 1
	}
	fn tag(&mut self, p: &str) -> String { self.counter += 1; format!("{}{}", p, self.counter) }
	/// May the request have been given up at any time, because nobody could notice the difference?
	fn fuzzy(&self, i: usize) -> bool {
		let x = &self.insts[i];
		x.open && if x.sent { x.hstate == HState::Dropped } else { x.hstate == HState::Dropped && !self.writers_alive(i) }
	}
	fn writers_alive(&self, i: usize) -> bool {
		!self.insts[i].rw.is_empty() || self.ops.iter().any(|o| o.inst == Some(i) && !o.cancelled && self.exec.alive(o.task))
	}
	fn find_open(&self, sent: bool, id: u32) -> Option<usize> { self.insts.iter().position(|x| x.sent == sent && x.id == id && x.open) }
	fn close_inst(&mut self, i: usize) { self.insts[i].open = false; self.insts[i].ended = true; }

	// ---- reference of the observable behaviour ----

	fn take_log(&mut self) {
		let log: Vec<Ev> = std::mem::take(&mut self.world.lock().unwrap().log);
		for e in log {
			match e {
				Ev::Read(item) => {
					let fatal = matches!(item, Item::Err(_, true));
					self.m.queue.push_back(Cmd::Incoming(item));
					if fatal { self.m.queue.push_back(Cmd::Stop) }
				},
				Ev::Op(o) => {
					if matches!(self.ops[o].kind, Kind::RecvUpdate | Kind::RecvResponse) { continue }
					let closed = self.ops[o].inst.map_or(false, |i| !self.insts[i].open || self.fuzzy(i));
					if self.m.stopped { self.ops[o].exp = if closed { Exp::ErrAny } else { Exp::ErrAborted }; self.ops[o].why = &["C13"]; }
					else { self.m.queue.push_back(Cmd::Op(o)) }
				},
				Ev::UnregReader => self.m.queue.push_back(Cmd::UnregReader),
				Ev::RegWriter => self.m.queue.push_back(Cmd::RegWriter),
				Ev::UnregWriter => self.m.queue.push_back(Cmd::UnregWriter),
				Ev::Stop => self.m.queue.push_back(Cmd::Stop),
			}
		}
	}

	fn stop(&mut self, tags: &'static [&'static str]) {
		self.m.stopped = true;
		self.m.stop_tags = tags;
		self.m.cur = Cur::Idle;
		for o in 0..self.ops.len() {
			if self.ops[o].exp != Exp::Wait || matches!(self.ops[o].kind, Kind::RecvUpdate | Kind::RecvResponse) { continue }
			let closed = self.ops[o].inst.map_or(false, |i| !self.insts[i].open);
			self.ops[o].exp = if closed || self.ops[o].inst.map_or(false, |i| self.fuzzy(i)) { Exp::ErrAny } else { Exp::ErrAborted };
			self.ops[o].why = &["C13"];
		}
		for x in &mut self.insts { x.ended = true; }
		self.exp_user.push_back(ExpUser::Aborted);
		self.m.queue.clear();
	}

	fn attempt(&self) -> Option<Attempt> { self.world.lock().unwrap().attempts.get(self.m.pos).cloned() }

	/// Which properties does an unexpected message on the transport contradict?
	fn blame(&self, a: &Attempt) -> Mismatch {
		let show_a = format!("{:?} {}", a.header, show(&a.body));
		if let Some(o) = self.ops.iter().find(|o| o.body == a.body) {
			if let Some(i) = o.inst {
				let shared = self.insts.iter().any(|x| x.open && x.sent == self.insts[i].sent && x.id == self.insts[i].id);
				if !self.insts[i].open { return Mismatch { tags: if shared { vec!["C10", "C09", "C07", "C08"] } else { vec!["C10", "C09"] }, what: format!("message put on the transport for a request that has been closed: {}", show_a) }; }
			}
			return Mismatch { tags: vec!["C15"], what: format!("unexpected message on the transport (written twice, out of order, or altered): {}", show_a) };
		}
		if a.header.message_type.is_response() && a.header.service_id == -1 { return Mismatch { tags: vec!["C12", "C15"], what: format!("unexpected error response on the transport: {}", show_a) }; }
		Mismatch { tags: vec!["C15"], what: format!("message on the transport that nobody sent: {}", show_a) }
	}

	fn advance(&mut self, quiet: bool) -> Result<(), Mismatch> {
		self.take_log();
		if self.world.lock().unwrap().read_after_fatal { return mm(&["C14", "C13"], "transport read again after a fatal read error".into()); }
		if self.world.lock().unwrap().interleaved { return mm(&["C15"], "a message write was abandoned for another message".into()); }
		while !self.m.stopped && !self.inconclusive {
			match self.m.cur {
				Cur::Op(o, inst) => {
					let Some(Attempt { header, outcome: Some(out), .. }) = self.attempt() else { return Ok(()) };
					self.m.pos += 1;
					self.m.cur = Cur::Idle;
					self.finish_op(o, inst, header, out);
				},
				Cur::ErrorResponse => {
					let Some(Attempt { outcome: Some(out), .. }) = self.attempt() else { return Ok(()) };
					self.m.pos += 1;
					self.m.cur = Cur::Idle;
					if out != Outcome::Accept { self.kinds.insert("error response failed"); self.stop(&["C12", "C13"]) }
				},
				Cur::Idle => {
					if self.m.reader_cmd_gone && self.m.writers == 0 { self.kinds.insert("stopped: no users"); self.stop(&["C13"]); continue }
					let Some(cmd) = self.m.queue.pop_front() else { return Ok(()) };
					if !self.process(cmd.clone(), quiet)? { self.m.queue.push_front(cmd); return Ok(()) }
				},
			}
		}
		Ok(())
	}

	fn finish_op(&mut self, o: usize, inst: Option<usize>, header: MessageHeader, out: Outcome) {
		let kind = self.ops[o].kind;
		match out {
			Outcome::Accept => {
				match kind {
					Kind::SendRequest => {
						let i = inst.unwrap();
						self.ops[o].exp = Exp::Handle(header.request_id, self.ops[o].service);
						if self.ops[o].cancelled { self.close_inst(i); self.kinds.insert("request cancelled after write"); } else { self.ops[o].inst = Some(i); }
					},
					Kind::Response | Kind::ErrorResponse => {
						self.ops[o].exp = Exp::Ok;
						self.close_inst(inst.unwrap());
						self.kinds.insert("response written");
					},
					_ => self.ops[o].exp = Exp::Ok,
				}
				self.ops[o].why = &["C15"];
			},
			Outcome::NonFatal(t) | Outcome::Fatal(t) if kind == Kind::SendRequest => {
				self.ops[o].exp = Exp::ErrText(t.clone());
				self.ops[o].why = &["C15"];
				let i = inst.unwrap();
				self.close_inst(i);
				self.kinds.insert("request not written");
				if t.starts_with("fatal") { self.stop(&["C13", "C15"]) }
			},
			Outcome::NonFatal(t) => { self.kinds.insert("non-fatal write error"); self.ops[o].exp = Exp::ErrText(t); self.ops[o].why = &["C15", "C09"]; },
			Outcome::Fatal(t) => { self.ops[o].exp = Exp::ErrText(t); self.ops[o].why = &["C15"]; self.kinds.insert("fatal write error"); self.stop(&["C13", "C15"]) },
		}
	}

	/// Returns false when more has to be observed before the command can be processed.
	fn process(&mut self, cmd: Cmd, quiet: bool) -> Result<bool, Mismatch> {
		match cmd {
			Cmd::Stop => { self.kinds.insert("stop command"); self.stop(&["C13"]) },
			Cmd::UnregReader => self.m.reader_cmd_gone = true,
			Cmd::RegWriter => self.m.writers += 1,
			Cmd::UnregWriter => self.m.writers -= 1,
			Cmd::Op(o) => return self.process_op(o, quiet),
			Cmd::Incoming(Item::Err(t, fatal)) => {
				self.kinds.insert(if fatal { "fatal read error" } else { "non-fatal read error" });
				if !self.reader_gone { self.exp_user.push_back(ExpUser::TransportErr(t)) } else { self.m.reader_cmd_gone = true }
			},
			Cmd::Incoming(Item::Msg(h, b)) => return self.process_message(h, b, quiet),
		}
		Ok(true)
	}

	fn process_op(&mut self, o: usize, quiet: bool) -> Result<bool, Mismatch> {
		let kind = self.ops[o].kind;
		let inst = self.ops[o].inst;
		let open = inst.map_or(true, |i| self.insts[i].open);
		if !open {
			self.kinds.insert("send on closed request");
			self.ops[o].exp = Exp::ErrAny;
			self.ops[o].why = &["C10", "C09"];
			return Ok(true);
		}
		let a = self.attempt();
		let optional = self.ops[o].cancelled || inst.map_or(false, |i| self.fuzzy(i));
		let mine = a.as_ref().map_or(false, |a| a.body == self.ops[o].body);
		if optional && !mine {
			if a.is_none() && !quiet && self.exec.alive(self.run) { return Ok(false) }
			self.ops[o].exp = if self.ops[o].cancelled { Exp::Free } else { Exp::ErrAny };
			self.ops[o].why = &["C15"];
			return Ok(true);
		}
		if kind == Kind::SendRequest && !mine && self.insts.iter().filter(|x| x.sent && x.open).count() >= 100 && (!quiet || matches!(&*self.ops[o].slot.borrow(), Some(Res::Err { .. }))) {
			if !quiet { return Ok(false) }
			self.kinds.insert("no free request ID");
			self.ops[o].exp = Exp::ErrAny;
			return Ok(true);
		}
		let what = format!("{:?} service {} body {}", kind, self.ops[o].service, show(&self.ops[o].body));
		let Some(a) = a else {
			if !quiet && self.exec.alive(self.run) { return Ok(false) }
			let slot = self.ops[o].slot.clone();
			if let Some(res) = &*slot.borrow() {
				if kind == Kind::SendRequest && matches!(res, Res::Err { .. }) {
					return mm(&["C07", "C15"], format!("request refused although there are free request IDs: {:?} ({})", res, what));
				}
				if let (Res::Err { text, .. }, Some(i)) = (res, inst) {
					return mm(&["C09", "C15", "C10"], format!("send refused although request {} is open: {} ({})", self.insts[i].id, text, what));
				}
				return mm(&["C15"], format!("operation finished with {:?} but nothing was handed to the transport ({})", res, what));
			}
			if !self.exec.alive(self.run) { return mm(&["C13"], format!("the peer stopped although it has users and a working transport (pending: {})", what)); }
			return mm(&["C15", "C13"], format!("nothing was handed to the transport ({})", what));
		};
		if !mine { return Err(self.blame(&a)); }
		let (t, id) = match kind {
			Kind::SendRequest => (MessageType::Request, None),
			Kind::SendStream => (MessageType::Stream, Some(0)),
			Kind::SentUpdate => (MessageType::RequesterUpdate, Some(self.insts[inst.unwrap()].id)),
			Kind::ReceivedUpdate => (MessageType::ResponderUpdate, Some(self.insts[inst.unwrap()].id)),
			Kind::Response | Kind::ErrorResponse => (MessageType::Response, Some(self.insts[inst.unwrap()].id)),
			_ => unreachable!(),
		};
		if a.header.message_type != t || a.header.service_id != self.ops[o].service || id.map_or(false, |id| id != a.header.request_id) {
			return mm(if kind == Kind::ErrorResponse { &["C15", "C16"] } else { &["C15"] }, format!("wrong message handed to the transport: {:?} (for {}, request {:?})", a.header, what, id));
		}
		let mut inst = inst;
		if kind == Kind::SendRequest {
			let id = a.header.request_id;
			if let Some(other) = self.find_open(true, id) {
				if !self.fuzzy(other) { return mm(&["C07"], format!("new request got ID {} of a request that is still open ({})", id, what)); }
				self.close_inst(other);
			}
			let service = self.ops[o].service;
			let i = self.new_inst(true, id, service);
			self.insts[i].open = true;
			inst = Some(i);
		}
		self.m.cur = Cur::Op(o, inst);
		Ok(true)
	}

	#[allow(clippy::too_many_lines)]
	fn process_message(&mut self, h: MessageHeader, b: Vec<u8>, quiet: bool) -> Result<bool, Mismatch> {
		let gone = self.reader_gone;
		match h.message_type {
			MessageType::Stream => { if !gone { self.exp_user.push_back(ExpUser::Stream(h, b)) } },
			MessageType::Request => {
				if let Some(i) = self.find_open(false, h.request_id) {
					if self.fuzzy(i) { self.inconclusive = true; return Ok(true); }
					self.kinds.insert("duplicate request ID");
					if !gone { self.exp_user.push_back(ExpUser::ProtocolErr) } else { self.m.reader_cmd_gone = true }
					return Ok(true);
				}
				if !gone {
					let i = self.new_inst(false, h.request_id, h.service_id);
					self.insts[i].open = true;
					self.exp_user.push_back(ExpUser::Req(i, b));
				} else {
					match self.attempt() {
						Some(a) => {
							if a.header != MessageHeader::response(h.request_id, h.request_id as i32 * 0 - 1) {
								return mm(&["C12"], format!("incoming request {:?} of a peer without read handle is not answered with an error response, but with {:?}", h, a.header));
							}
							self.kinds.insert("unread request answered");
							self.m.cur = Cur::ErrorResponse;
						},
						None if !quiet && self.exec.alive(self.run) => return Ok(false),
						None => return mm(&["C12"], format!("incoming request {:?} of a peer without read handle is not answered", h)),
					}
				}
			},
			MessageType::Response => match self.find_open(true, h.request_id) {
				Some(i) => {
					let fuzzy = self.fuzzy(i);
					if fuzzy { if !gone { self.exp_user.push_back(ExpUser::MaybeErr(i)) } else { self.m.reader_cmd_gone |= false } }
					self.insts[i].inbox.push_back((h, b));
					self.close_inst(i);
					self.kinds.insert("response received");
				},
				None => { self.kinds.insert("unknown response"); if !gone { self.exp_user.push_back(ExpUser::ProtocolErr) } else { self.m.reader_cmd_gone = true } },
			},
			MessageType::ResponderUpdate | MessageType::RequesterUpdate => match self.find_open(h.message_type.is_responder_update(), h.request_id) {
				Some(i) => {
					self.insts[i].inbox.push_back((h, b));
					if self.insts[i].hstate == HState::Dropped { self.kinds.insert("update for dropped handle"); if !gone { self.exp_user.push_back(ExpUser::MaybeErr(i)) } else { self.m.reader_cmd_gone |= false } }
				},
				None => { self.kinds.insert("unknown update"); if !gone { self.exp_user.push_back(ExpUser::ProtocolErr) } else { self.m.reader_cmd_gone = true } },
			},
		}
		Ok(true)
	}

	/// Compare everything that can be observed, when nothing can happen anymore without a new action.
	fn check_quiet(&mut self) -> Result<(), Mismatch> {
		self.advance(true)?;
		if self.inconclusive { return Ok(()) }
		let n = self.world.lock().unwrap().attempts.len();
		let busy = matches!(self.m.cur, Cur::Op(..) | Cur::ErrorResponse);
		if n > self.m.pos + busy as usize {
			let a = self.world.lock().unwrap().attempts[self.m.pos + busy as usize].clone();
			if self.m.stopped { return mm(&["C13"], format!("message written although the peer should have stopped: {:?} {}", a.header, show(&a.body))); }
			return Err(self.blame(&a));
		}
		let alive = self.exec.alive(self.run);
		if self.m.stopped && alive { return mm(self.m.stop_tags, "the peer should have stopped, but keeps running".into()); }
		if !self.m.stopped && !alive {
			return mm(&["C13", "C14", "C15", "C12", "C07"], "the peer stopped although it has users and a working transport".into());
		}
		self.check_user()?;
		for o in 0..self.ops.len() { self.check_op(o)?; }
		Ok(())
	}

	fn check_user(&mut self) -> Result<(), Mismatch> {
		if self.drainer.is_none() || self.reader_gone { return Ok(()) }
		let obs: Vec<UserEv> = std::mem::take(&mut *self.user.borrow_mut());
		let exp: Vec<ExpUser> = self.exp_user.drain(..).collect();
		let fits = |e: &ExpUser, o: &UserEv, insts: &Vec<Inst>| match (e, o) {
			(ExpUser::Req(i, b), UserEv::Req(h, b2)) | (ExpUser::MaybeReq(i, b), UserEv::Req(h, b2)) => insts[*i].id == h.request_id() && insts[*i].service == h.service_id() && b == b2,
			(ExpUser::Stream(h, b), UserEv::Stream(h2, b2)) => h == h2 && b == b2,
			(ExpUser::TransportErr(t), UserEv::Err(t2, false)) => t2.contains(t.as_str()),
			(ExpUser::ProtocolErr, UserEv::Err(t, false)) | (ExpUser::MaybeErr(_), UserEv::Err(t, false)) => !t.contains("read-"),
			(ExpUser::Aborted, UserEv::Err(_, true)) => true,
			_ => false,
		};
		// Alignment of what was observed with what may be observed, leaving out optional errors where possible.
		fn align(e: &[ExpUser], o: &[UserEv], used: &mut Vec<usize>, base: usize, f: &dyn Fn(&ExpUser, &UserEv) -> bool) -> bool {
			let Some(first) = e.first() else { return o.is_empty() };
			if matches!(first, ExpUser::MaybeErr(_) | ExpUser::MaybeReq(..)) && align(&e[1..], o, used, base + 1, f) { return true }
			if let Some(x) = o.first() {
				if f(first, x) {
					used.push(base);
					if align(&e[1..], &o[1..], used, base + 1, f) { return true }
					used.pop();
				}
			}
			false
		}
		let mut used = vec![];
		let insts = &self.insts;
		if !align(&exp, &obs, &mut used, 0, &|e, o| fits(e, o, insts)) {
			let mut tags: Vec<&'static str> = vec!["C08", "C14"];
			if exp.iter().any(|e| matches!(e, ExpUser::Aborted)) && !obs.iter().any(|o| matches!(o, UserEv::Err(_, true))) { tags.push("C13") }
			if exp.iter().any(|e| matches!(e, ExpUser::ProtocolErr)) || obs.iter().any(|o| matches!(o, UserEv::Err(..))) { tags.extend(["C07", "C09", "C12", "C15"]) }
			return mm(&tags, format!("the user of the peer received {:?}, expected {:?}", obs, exp.iter().map(|e| match e { ExpUser::Req(i, b) => format!("request {} service {} body {}", self.insts[*i].id, self.insts[*i].service, show(b)), x => format!("{:?}", x) }).collect::<Vec<_>>()));
		}
		let mut obs = obs.into_iter().map(Some).collect::<Vec<_>>();
		for (k, e) in used.iter().enumerate() {
			match (&exp[*e], obs[k].take()) {
				(ExpUser::Req(i, _), Some(UserEv::Req(h, _))) => { *self.insts[*i].rh.borrow_mut() = Some(h); self.insts[*i].hstate = HState::Have; },
				(ExpUser::MaybeErr(i), _) => { if self.insts[*i].sent && self.insts[*i].open { self.kinds.insert("given up: handle dropped"); self.close_inst(*i) } },
				_ => (),
			}
		}
		Ok(())
	}

	fn eval_recv(&mut self, o: usize) {
		if self.ops[o].exp != Exp::Wait { return }
		let i = self.ops[o].inst.unwrap();
		let x = &mut self.insts[i];
		let head = x.inbox.front().cloned();
		let response_kind = self.ops[o].kind == Kind::RecvResponse;
		let exp = match head {
			None if x.ended => if response_kind { Exp::ErrAborted } else { Exp::NoMsg },
			None => Exp::Wait,
			Some((h, b)) if !x.sent || h.message_type.is_response() == response_kind => { x.inbox.pop_front(); Exp::Msg(h, b) },
			Some(_) => if response_kind { Exp::ErrUnexpected } else { Exp::NoMsg },
		};
		self.ops[o].why = match exp { Exp::Msg(..) => &["C08", "C11"], _ if self.m.stopped => &["C11", "C13"], _ => &["C11", "C09"] };
		if exp != Exp::Wait { self.kinds.insert("receive finished") ; }
		self.ops[o].exp = exp;
	}

	fn check_op(&mut self, o: usize) -> Result<(), Mismatch> {
		if self.ops[o].checked || self.ops[o].cancelled { return Ok(()) }
		if matches!(self.ops[o].kind, Kind::RecvUpdate | Kind::RecvResponse) { self.eval_recv(o) }
		let what = format!("{:?} (operation {}, service {}, request {:?})", self.ops[o].kind, o, self.ops[o].service, self.ops[o].inst.map(|i| self.insts[i].id));
		let early = self.ops[o].inst.map_or(false, |i| !self.insts[i].open || self.fuzzy(i));
		let op = &mut self.ops[o];
		let slot = op.slot.clone();
		let res = slot.borrow();
		let why: Vec<&'static str> = op.why.to_vec();
		let recv = matches!(op.kind, Kind::RecvUpdate | Kind::RecvResponse);
		let ok = match (&op.exp, &*res) {
			(Exp::Wait, None) => return Ok(()),
			(Exp::Wait, Some(Res::Err { .. })) if !recv && early => return Ok(()),
			(Exp::Wait, Some(r)) => {
				let tags: &[&str] = if recv { &["C08", "C11"] } else { &["C15"] };
				return mm(tags, format!("{} finished early with {:?}", what, r));
			},
			(e, None) => {
				let mut tags = why.clone();
				if self.m.stopped { tags.push("C13") }
				return mm(&tags, format!("{} waits forever, expected {:?}", what, e));
			},
			(Exp::Ok, Some(Res::Ok)) | (Exp::NoMsg, Some(Res::NoMsg)) | (Exp::ErrAny, Some(Res::Err { .. })) | (Exp::Free, _) => true,
			(Exp::Handle(id, s), Some(Res::Handle(id2, s2))) => id == id2 && s == s2,
			(Exp::ErrText(t), Some(Res::Err { text, .. })) => text.contains(t.as_str()),
			(Exp::ErrAborted, Some(Res::Err { aborted, .. })) => *aborted,
			(Exp::ErrUnexpected, Some(Res::Err { unexpected, .. })) => *unexpected,
			(Exp::Msg(h, b), Some(Res::Msg(h2, b2))) => h == h2 && b == b2,
			_ => false,
		};
		if !ok { return mm(&why, format!("{} finished with {:?}, expected {:?}", what, res, op.exp)); }
		op.checked = true;
		if op.kind == Kind::SendRequest {
			if let (Some(i), Some(h)) = (op.inst, op.sent_handle.borrow_mut().take()) {
				*self.insts[i].sh.borrow_mut() = Some(h);
				self.insts[i].hstate = HState::Have;
			}
		}
		Ok(())
	}

	// ---- actions ----

	fn note(&mut self, s: String) { self.trace.push(s) }

	fn spawn_op(&mut self, kind: Kind, inst: Option<usize>, via: usize) {
		let n = self.ops.len();
		let service = match kind { Kind::ErrorResponse => -1, _ => *self.rng.pick(&[0, 1, 7, -1, -2, i32::MIN, i32::MAX]).unwrap() };
		let text = self.tag("op");
		let body = match kind { Kind::ErrorResponse => TB::from_error(&text).0, _ => text.clone().into_bytes() };
		let slot: Rc<RefCell<Option<Res>>> = Default::default();
		let sent_handle: Rc<RefCell<Option<SentRequestHandle<TB>>>> = Default::default();
		let (world, out, sh_out, b) = (self.world.clone(), slot.clone(), sent_handle.clone(), body.clone());
		let start = move || world.lock().unwrap().log.push(Ev::Op(n));
		let id = inst.map(|i| self.insts[i].id);
		self.note(format!("operation {}: {:?} service {} body {} request {:?} via {}", n, kind, service, text, id, if via == 0 { "handle".to_string() } else { format!("write handle {}", via) }));
		let task = match kind {
			Kind::SendRequest => {
				let w = self.writers[via % self.writers.len()].clone();
				self.exec.spawn(async move {
					start();
					let r = w.send_request(service, b).await;
					drop(w);
					*out.borrow_mut() = Some(match r { Ok(h) => { let r = Res::Handle(h.request_id(), h.service_id()); *sh_out.borrow_mut() = Some(h); r }, Err(e) => Res::err(e) });
				})
			},
			Kind::SendStream => {
				let w = self.writers[via % self.writers.len()].clone();
				self.exec.spawn(async move { start(); let r = w.send_stream(service, b).await; drop(w); *out.borrow_mut() = Some(Res::of(r)); })
			},
			Kind::SentUpdate if via > 0 => {
				let w = self.insts[inst.unwrap()].sw[via - 1].clone();
				self.exec.spawn(async move { start(); let r = w.send_update(service, b).await; drop(w); *out.borrow_mut() = Some(Res::of(r)); })
			},
			Kind::SentUpdate | Kind::RecvResponse => {
				let cell = self.insts[inst.unwrap()].sh.clone();
				let mut h = cell.borrow_mut().take().unwrap();
				self.exec.spawn(async move {
					start();
					let r = if kind == Kind::SentUpdate { Res::of(h.send_update(service, b).await) } else { match h.recv_response().await { Ok(m) => Res::msg(m), Err(e) => Res::err(e) } };
					*cell.borrow_mut() = Some(h);
					*out.borrow_mut() = Some(r);
				})
			},
			Kind::RecvUpdate if self.insts[inst.unwrap()].sent => {
				let cell = self.insts[inst.unwrap()].sh.clone();
				let mut h = cell.borrow_mut().take().unwrap();
				self.exec.spawn(async move {
					start();
					let r = h.recv_update().await;
					*cell.borrow_mut() = Some(h);
					*out.borrow_mut() = Some(r.map_or(Res::NoMsg, Res::msg));
				})
			},
			Kind::RecvUpdate => {
				let cell = self.insts[inst.unwrap()].rh.clone();
				let mut h = cell.borrow_mut().take().unwrap();
				self.exec.spawn(async move {
					start();
					let r = h.recv_update().await;
					*cell.borrow_mut() = Some(h);
					*out.borrow_mut() = Some(r.map_or(Res::NoMsg, Res::msg));
				})
			},
			Kind::ReceivedUpdate | Kind::Response | Kind::ErrorResponse if via > 0 => {
				let w = self.insts[inst.unwrap()].rw[via - 1].clone();
				self.exec.spawn(async move {
					start();
					let r = match kind { Kind::ReceivedUpdate => w.send_update(service, b).await, Kind::Response => w.send_response(service, b).await, _ => w.send_error_response(&text).await };
					drop(w);
					*out.borrow_mut() = Some(Res::of(r));
				})
			},
			Kind::ReceivedUpdate | Kind::Response | Kind::ErrorResponse => {
				let cell = self.insts[inst.unwrap()].rh.clone();
				let h = cell.borrow_mut().take().unwrap();
				self.exec.spawn(async move {
					start();
					let r = match kind { Kind::ReceivedUpdate => h.send_update(service, b).await, Kind::Response => h.send_response(service, b).await, _ => h.send_error_response(&text).await };
					*cell.borrow_mut() = Some(h);
					*out.borrow_mut() = Some(Res::of(r));
				})
			},
		};
		self.ops.push(Op { kind, inst, service, body, task, slot, sent_handle, exp: Exp::Wait, cancelled: false, checked: false, why: &["C15"] });
	}

	fn inject(&mut self, item: Item) {
		self.note(match &item { Item::Msg(h, b) => format!("remote: {:?} {}", h, show(b)), Item::Err(t, f) => format!("transport read error {:?} fatal={}", t, f) });
		let mut w = self.world.lock().unwrap();
		w.read_q.push_back(item);
		if let Some(k) = w.read_waker.take() { k.wake() }
	}

	fn random_message(&mut self) {
		let body = self.tag("in").into_bytes();
		let service = *self.rng.pick(&[0, 1, 7, -1, -2, i32::MIN, i32::MAX]).unwrap();
		let t = *self.rng.pick(&[MessageType::Request, MessageType::Request, MessageType::Response, MessageType::Response, MessageType::ResponderUpdate, MessageType::ResponderUpdate, MessageType::RequesterUpdate, MessageType::RequesterUpdate, MessageType::Stream]).unwrap();
		let sent = matches!(t, MessageType::Response | MessageType::ResponderUpdate);
		let open: Vec<u32> = self.insts.iter().filter(|x| x.sent == sent && x.open).map(|x| x.id).collect();
		let known: Vec<u32> = self.insts.iter().map(|x| x.id).collect();
		let mut id = self.rng.below(5) as u32;
		if t == MessageType::Request { if self.rng.chance(10) { id = *self.rng.pick(&[u32::MAX, 0x8000_0000, 77]).unwrap() } }
		else if self.rng.chance(75) { if let Some(x) = self.rng.pick(&open) { id = *x } }
		else if self.rng.chance(40) { if let Some(x) = self.rng.pick(&known) { id = *x } }
		if t == MessageType::Request {
			// Do not reuse an ID for which the properties leave open whether it is still in use.
			if let Some(i) = self.find_open(false, id) { if self.fuzzy(i) || self.rng.chance(50) { id = 100 + self.counter as u32 } }
		}
		self.inject(Item::Msg(MessageHeader { message_type: t, request_id: id, service_id: service }, body));
	}

	fn random_op(&mut self) {
		let mut choices: Vec<(Kind, Option<usize>, usize)> = vec![];
		if !self.writers.is_empty() {
			let w = self.rng.below(self.writers.len());
			choices.push((Kind::SendRequest, None, w));
			choices.push((Kind::SendRequest, None, w));
			choices.push((Kind::SendStream, None, w));
		}
		let mut idx: Vec<usize> = (0..self.insts.len()).collect();
		while idx.len() > 6 { let k = self.rng.below(idx.len()); idx.swap_remove(k); }
		for i in idx {
			let x = &self.insts[i];
			if x.sh.borrow().is_some() { for k in [Kind::SentUpdate, Kind::RecvUpdate, Kind::RecvUpdate, Kind::RecvResponse] { choices.push((k, Some(i), 0)) } }
			if x.rh.borrow().is_some() { for k in [Kind::ReceivedUpdate, Kind::Response, Kind::ErrorResponse, Kind::RecvUpdate] { choices.push((k, Some(i), 0)) } }
			for k in 0..x.sw.len() { choices.push((Kind::SentUpdate, Some(i), k + 1)); choices.push((Kind::SentUpdate, Some(i), k + 1)) }
			for k in 0..x.rw.len() { for kind in [Kind::ReceivedUpdate, Kind::Response, Kind::Response, Kind::ErrorResponse] { choices.push((kind, Some(i), k + 1)) } }
		}
		if let Some(&(k, i, v)) = self.rng.pick(&choices) { self.spawn_op(k, i, v) }
	}

	fn plan_write(&mut self) {
		let p = self.profile.clone();
		let r = self.rng.below(100);
		let o = if r < p.block { None } else if r < p.block + p.nonfatal { Some(Outcome::NonFatal(self.tag("nonfatal-"))) }
			else if r < p.block + p.nonfatal + p.fatal { Some(Outcome::Fatal(self.tag("fatal-"))) } else { Some(Outcome::Accept) };
		self.world.lock().unwrap().plan.push_back(o);
	}

	fn unblock(&mut self) {
		let p = self.profile.clone();
		let r = self.rng.below(100);
		let o = if r < p.nonfatal { Outcome::NonFatal(self.tag("nonfatal-")) } else if r < p.nonfatal + p.fatal { Outcome::Fatal(self.tag("fatal-")) } else { Outcome::Accept };
		let s = { let w = self.world.lock().unwrap(); w.in_progress && w.resolve.is_none() };
		if s {
			self.note(format!("blocked write continues: {:?}", o));
			let mut w = self.world.lock().unwrap();
			w.resolve = Some(o);
			if let Some(k) = w.write_waker.take() { k.wake() }
		}
	}

	fn drop_something(&mut self) {
		let n = self.insts.len();
		if n == 0 { return }
		let i = self.rng.below(n);
		let x = &mut self.insts[i];
		match self.rng.below(3) {
			0 => {
				let dropped = if x.sent { x.sh.borrow_mut().take().is_some() } else { x.rh.borrow_mut().take().is_some() };
				if dropped { x.hstate = HState::Dropped; let id = x.id; self.note(format!("handle of request {} dropped", id)); self.kinds.insert("request handle dropped"); }
			},
			1 => {
				let id = x.id;
				if let Some(h) = &*x.sh.borrow() { x.sw.push(Rc::new(h.write_handle())) }
				else if let Some(h) = &*x.rh.borrow() { x.rw.push(Rc::new(h.write_handle())) }
				else if let Some(w) = x.sw.first().map(|w| (**w).clone()) { x.sw.push(Rc::new(w)) }
				else if let Some(w) = x.rw.first().map(|w| (**w).clone()) { x.rw.push(Rc::new(w)) }
				else { return }
				self.note(format!("write handle made for request {}", id));
			},
			_ => {
				let id = x.id;
				if !x.sw.is_empty() { x.sw.pop(); } else if !x.rw.is_empty() { x.rw.pop(); } else { return }
				self.note(format!("write handle of request {} dropped", id));
			},
		}
	}

	fn action(&mut self) {
		let p = self.profile.clone();
		self.plan_write();
		if self.rng.chance(p.cancel) {
			let cands: Vec<usize> = (0..self.ops.len()).filter(|&o| !self.ops[o].cancelled && self.exec.alive(self.ops[o].task)
				&& (matches!(self.ops[o].kind, Kind::SendRequest | Kind::SendStream))).collect();
			if let Some(&o) = self.rng.pick(&cands) {
				self.note(format!("operation {} cancelled", o));
				let t = self.ops[o].task;
				self.exec.cancel(t);
				self.ops[o].cancelled = true;
				if self.ops[o].inst.is_some() { self.inconclusive = true }
				return;
			}
		}
		if self.rng.chance(p.close) && self.steps > 3 {
			self.note("close".into());
			self.stop_requested = true;
			match self.rng.below(3) {
				0 if !self.writers.is_empty() => self.writers[0].close(),
				1 if self.reader.borrow().is_some() => self.reader.borrow().as_ref().unwrap().close(),
				_ => self.close.close(),
			}
			self.world.lock().unwrap().log.push(Ev::Stop);
			return;
		}
		if self.rng.chance(p.read_fatal) && self.steps > 3 { let t = self.tag("read-fatal-"); self.inject(Item::Err(t, true)); return }
		if self.rng.chance(p.read_err) { let t = self.tag("read-nonfatal-"); self.inject(Item::Err(t, false)); return }
		if p.drop_reader && !self.reader_gone && self.rng.chance(15) && self.drainer.is_some() {
			self.note("read handle of the peer dropped".into());
			self.kinds.insert("read handle dropped");
			let d = self.drainer.unwrap();
			self.exec.cancel(d);
			self.reader_gone = true;
			self.world.lock().unwrap().log.push(Ev::UnregReader);
			// Requests that were on their way to the user are dropped with the read handle.
			let pending: Vec<ExpUser> = self.exp_user.drain(..).collect();
			for e in pending { if let ExpUser::Req(i, _) = e { self.insts[i].hstate = HState::Dropped } }
			let left = std::mem::take(&mut *self.user.borrow_mut());
			if !left.is_empty() { self.inconclusive = true }
			return;
		}
		if self.rng.chance(if p.drops > 10 { 8 } else { 2 }) {
			if self.rng.chance(50) && !self.writers.is_empty() {
				self.note("write handle of the peer cloned".into());
				let w = Rc::new((*self.writers[0]).clone());
				self.writers.push(w);
				self.world.lock().unwrap().log.push(Ev::RegWriter);
			} else if let Some(k) = (0..self.writers.len()).find(|&k| Rc::strong_count(&self.writers[k]) == 1) {
				if self.writers.len() > 1 || self.rng.chance(40) {
					self.note("write handle of the peer dropped".into());
					self.kinds.insert("peer write handle dropped");
					self.writers.remove(k);
					self.world.lock().unwrap().log.push(Ev::UnregWriter);
				}
			}
			return;
		}
		if self.profile.lazy && self.drainer.is_none() && self.rng.chance(4) { self.note("user starts receiving".into()); self.start_drain(); return }
		if self.rng.chance(p.drops) && !p.lazy { self.drop_something(); return }
		if self.rng.chance(20) { self.unblock(); return }
		if self.rng.chance(45) { self.random_message() } else { self.random_op() }
	}

	fn poll(&mut self, t: usize) -> Result<(), Mismatch> {
		if let Err(p) = self.exec.poll(t) { return mm(ALL, format!("panic: {}", p)); }
		// Also once when nothing happened to it: a wrong wake-up must not matter.
		self.advance(false)
	}

	fn settle(&mut self, full: bool) -> Result<(), Mismatch> {
		for _ in 0..5000 {
			let w = self.exec.woken();
			if w.is_empty() { return if full { self.check_quiet() } else { Ok(()) } }
			let t = w[self.rng.below(w.len())];
			self.poll(t)?;
			if self.inconclusive { return Ok(()) }
			if !full && self.rng.chance(30) { return Ok(()) }
		}
		mm(&["C13"], "the peer keeps running without getting anywhere".into())
	}

	pub fn run(&mut self) -> Result<(), Mismatch> {
		let r = self.run_inner();
		if self.inconclusive { return Ok(()) }
		if let Err(m) = &r {
			// The moment at which a peer without any users stops is not specified exactly.
			let no_users = self.reader_gone && self.writers.is_empty();
			if no_users && !self.exec.alive(self.run) && !m.what.contains("waits forever") && !m.what.contains("panic") { self.inconclusive = true; return Ok(()); }
		}
		r
	}

	fn run_inner(&mut self) -> Result<(), Mismatch> {
		self.settle(true)?;
		let n = self.profile.steps;
		for _ in 0..n {
			self.steps += 1;
			self.action();
			if self.inconclusive { return Ok(()) }
			if self.rng.chance(5) { let r = self.run; if self.exec.alive(r) { self.exec.wake(r) } }
			let partial = self.profile.partial;
			let full = !self.rng.chance(partial);
			self.settle(full)?;
			if self.inconclusive { return Ok(()) }
		}
		// Let blocked writes go on, receive what is left, then close.
		for _ in 0..40 {
			self.settle(true)?;
			if self.inconclusive || !self.world.lock().unwrap().in_progress { break }
			self.unblock();
		}
		if self.drainer.is_none() { self.note("user starts receiving".into()); self.start_drain(); self.settle(true)?; }
		for i in 0..self.insts.len() {
			if self.inconclusive { return Ok(()) }
			for _ in 0..3 {
				let free = self.insts[i].sh.borrow().is_some();
				if free { let k = *self.rng.pick(&[Kind::RecvUpdate, Kind::RecvUpdate, Kind::RecvResponse]).unwrap(); self.spawn_op(k, Some(i), 0); self.settle(true)?; }
				let free = self.insts[i].rh.borrow().is_some();
				if free { self.spawn_op(Kind::RecvUpdate, Some(i), 0); self.settle(true)?; }
				if self.inconclusive || i > 12 { break }
			}
		}
		if !self.m.stopped {
			self.note("close".into());
			self.close.close();
			self.world.lock().unwrap().log.push(Ev::Stop);
			for _ in 0..40 {
				self.settle(true)?;
				if self.inconclusive || !self.world.lock().unwrap().in_progress { break }
				self.unblock();
			}
			if !self.inconclusive && !self.writers.is_empty() {
				self.spawn_op(Kind::SendStream, None, 0);
				self.spawn_op(Kind::SendRequest, None, 0);
				self.settle(true)?;
			}
		}
		Ok(())
	}
	pub fn conclusive(&self) -> bool { !self.inconclusive }
}
