//! Search for inputs for which the codec or one of the transports of /repo differs from the properties.
//!
//! Streams are scripted (every poll gives what the scenario says: some bytes, nothing, the end, an error);
//! sockets are real socket pairs. The oracle is an independent encoding of the documented wire format.
use crate::rng::Rng;
use fizyr_rpc::transport::{Endian, Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::{Error, MessageHeader, MessageType, StreamBody, StreamConfig, UnixBody, UnixConfig};
use std::collections::BTreeSet;
use std::future::poll_fn;
use std::os::unix::fs::MetadataExt;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub struct Run { pub rng: Rng, pub trace: Vec<String>, pub kinds: BTreeSet<&'static str>, pub focus: String }
pub struct Bad { pub tags: Vec<&'static str>, pub what: String }
type R<T = ()> = Result<T, Bad>;
fn bad<T>(tags: &[&'static str], what: String) -> R<T> { Err(Bad { tags: tags.to_vec(), what }) }
macro_rules! ensure { ($c:expr, $tags:expr, $($f:tt)*) => { if !$c { return bad($tags, format!($($f)*)) } } }

#[cfg(feature = "hooks")]
static HUGE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const TYPES: [MessageType; 5] = [MessageType::Request, MessageType::Response, MessageType::RequesterUpdate, MessageType::ResponderUpdate, MessageType::Stream];
fn number(t: MessageType) -> u32 { match t { MessageType::Request => 0, MessageType::Response => 1, MessageType::RequesterUpdate => 2, MessageType::ResponderUpdate => 3, MessageType::Stream => 4 } }
fn u32b(e: Endian, v: u32) -> [u8; 4] { match e { Endian::LittleEndian => v.to_le_bytes(), Endian::BigEndian => v.to_be_bytes(), _ => v.to_ne_bytes() } }
fn header_bytes(h: &MessageHeader, e: Endian) -> Vec<u8> { [u32b(e, number(h.message_type)), u32b(e, h.request_id), u32b(e, h.service_id as u32)].concat() }
fn frame(h: &MessageHeader, b: &[u8], e: Endian) -> Vec<u8> { [&u32b(e, 12 + b.len() as u32)[..], &header_bytes(h, e), b].concat() }
fn endian(r: &mut Rng) -> Endian { [Endian::LittleEndian, Endian::BigEndian, Endian::NativeEndian][r.below(3)] }
fn interesting(r: &mut Rng) -> u32 { match r.below(5) { 0 => r.below(8) as u32, 1 => u32::MAX - r.below(8) as u32, 2 => 1u32 << r.below(32), 3 => 0x0102_0304u32.rotate_left(8 * r.below(4) as u32), _ => r.u32() } }
fn header(r: &mut Rng) -> MessageHeader { MessageHeader { message_type: TYPES[r.below(5)], request_id: interesting(r), service_id: interesting(r) as i32 } }
fn kind(e: &Error) -> String { e.to_string().chars().filter(|c| !c.is_ascii_digit() && *c != '-').collect() }
fn is_too_large(e: &Error) -> bool { kind(e) == kind(&Error::payload_too_large(1, 1)) }
fn is_bad_type(e: &Error) -> bool { kind(e) == kind(&Error::invalid_message_type(9)) }
fn is_too_short(e: &Error) -> bool { kind(e) == kind(&Error::message_too_short(1)) }
fn body(r: &mut Rng, n: usize) -> Vec<u8> { let s = r.u32() as usize; (0..n).map(|i| (s.wrapping_add(i * 7) >> (i % 3)) as u8).collect() }
fn panic_text(e: Box<dyn std::any::Any + Send>) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()) }

impl Run {
	pub fn new(seed: u64, focus: &str) -> Self { Run { rng: Rng::new(seed), trace: vec![], kinds: BTreeSet::new(), focus: focus.into() } }
	fn log(&mut self, s: String) { if self.trace.len() < 60 { self.trace.push(s) } }

	// ---------------------------------------------------------------- codec
	pub fn codec(&mut self) -> R {
		let r = &mut self.rng;
		for _ in 0..1 + r.below(4) {
			let (h, e) = (header(r), endian(r));
			let extra = r.below(6);
			let junk = body(r, 12 + extra);
			let mut buf = junk.clone();
			self.trace.push(format!("encode {:?} {:?}", h, e));
			let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.encode(&mut buf, e)));
			if let Err(p) = res { return bad(&["C01"], format!("encode panicked: {}", panic_text(p))) }
			let want = [&header_bytes(&h, e)[..], &junk[12..]].concat();
			ensure!(buf == want, &["C01", "C02", "C05"], "encode gave {:?}, expected {:?}", buf, want);
			self.kinds.insert("encode");
			let d = MessageHeader::decode(&buf, e);
			ensure!(matches!(&d, Ok(x) if *x == h), &["C01", "C03", "C05"], "decode of the encoded header gave {:?}", d);
			// any 12 bytes
			let t = if r.chance(60) { r.below(7) as u32 } else { interesting(r) };
			let (id, s) = (interesting(r), interesting(r));
			let raw = [&[u32b(e, t), u32b(e, id), u32b(e, s)].concat()[..], &body(r, extra)].concat();
			self.trace.push(format!("decode type {} id {} service {} {:?}", t, id, s as i32, e));
			let d = match std::panic::catch_unwind(|| MessageHeader::decode(&raw, e)) { Ok(d) => d, Err(p) => return bad(&["C01", "C04", "C05"], format!("decode panicked: {}", panic_text(p))) };
			let f = MessageType::from_u32(t);
			if t <= 4 {
				let want = MessageHeader { message_type: TYPES[t as usize], request_id: id, service_id: s as i32 };
				ensure!(matches!(&d, Ok(x) if *x == want), &["C01", "C03", "C05"], "decode gave {:?}, expected {:?}", d, want);
				ensure!(matches!(&f, Ok(x) if *x == TYPES[t as usize]), &["C01"], "from_u32({}) gave {:?}", t, f);
				let m = TYPES[t as usize];
				let is = [m.is_request(), m.is_response(), m.is_requester_update(), m.is_responder_update(), m.is_stream()];
				ensure!((0..5).all(|i| is[i] == (TYPES[i] == m)), &["C01"], "{:?} claims to be a request, response, requester update, responder update or stream: {:?}", m, is);
				self.kinds.insert("decode");
			} else {
				ensure!(matches!(&d, Err(x) if is_bad_type(x)), &["C01", "C04", "C05"], "decode of unknown type {} gave {:?}", t, d);
				ensure!(matches!(&f, Err(x) if is_bad_type(x)), &["C01"], "from_u32({}) gave {:?}", t, f);
				self.kinds.insert("unknown type");
			}
		}
		Ok(())
	}

	// ---------------------------------------------------------------- streams
	pub fn stream(&mut self) -> R {
		#[cfg(feature = "hooks")]
		if !self.rng.chance(3) { return if self.focus == "C02" || (self.focus == "any" && self.rng.chance(50)) { self.stream_write() } else { self.stream_read() } }
		self.stream_sockets()
	}

	/// A size up to `max`, often next to a power of two.
	#[cfg(feature = "hooks")]
	fn size(&mut self, max: usize) -> usize {
		let n = if self.rng.chance(30) { self.rng.below(max + 1) } else { (1usize << self.rng.below(14)) + self.rng.below(3) - 1 };
		n.min(max)
	}

	/// A body whose length does not fit in the length field of a frame.
	#[cfg(feature = "hooks")]
	fn stream_write_huge(&mut self) -> R {
		let n = fizyr_rpc::MAX_PAYLOAD_LEN as usize + 1 + [0, 5, 11, 12, 13, 500][self.rng.below(6)];
		let layout = std::alloc::Layout::array::<u8>(n).unwrap();
		// The pages of this are never touched.
		let p = unsafe { std::alloc::alloc_zeroed(layout) };
		if p.is_null() { return Ok(()) }
		let b = StreamBody::from(unsafe { Vec::from_raw_parts(p, n, n) });
		let (s, w) = script();
		let mut config = StreamConfig::default(); config.max_body_len_write = u32::MAX;
		let (_, mut half) = fizyr_rpc::transport::StreamTransport::<()>::verif_halves((), ScriptStream(s.clone()), config);
		let h = header(&mut self.rng);
		self.log(format!("write {:?} with {} bytes, write limit {}", h, n, u32::MAX));
		let waker = Waker::from(w.clone());
		let mut cx = Context::from_waker(&waker);
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Pin::new(&mut half).poll_write_msg(&mut cx, &h, &b)));
		let r = match r { Ok(r) => r, Err(p) => return bad(&["C02"], format!("panic: {}", panic_text(p))) };
		self.kinds.insert("too large");
		ensure!(matches!(&r, Poll::Ready(Err(x)) if !x.is_fatal()) && s.lock().unwrap().polls == 0, &["C02"], "a body of {} bytes gave {}", n, short(&r));
		Ok(())
	}

	/// (Few times and one process at a time: the code may really touch all of the memory.)
	/// The start of a frame that is very large, with a limit that is very large.
	#[cfg(feature = "hooks")]
	fn stream_read_huge(&mut self) -> R {
		let lock = std::fs::File::create(std::env::temp_dir().join("fizyr-rpc-hunt.lock"));
		if let Ok(lock) = &lock { let _ = lock.lock(); }
		let e = endian(&mut self.rng);
		let max: u32 = [u32::MAX, u32::MAX - 12, u32::MAX / 2, 3 << 30, 1 << 24, 70000][self.rng.below(6)];
		let top = max.min(u32::MAX - 12) as usize;
		let n = match self.rng.below(4) { 0 => top, 1 => top - self.rng.below(20), 2 => (1usize << (16 + self.rng.below(16))).min(top), _ => self.rng.below(top + 1) };
		let (s, w) = script();
		let mut config = StreamConfig::default(); config.endian = e; config.max_body_len_read = max;
		let (mut half, _) = fizyr_rpc::transport::StreamTransport::<()>::verif_halves(ScriptStream(s.clone()), (), config);
		let h = header(&mut self.rng);
		let part = self.rng.below(40).min(n.saturating_sub(1));
		self.log(format!("read limit {} {:?}: the start of a frame {:?} with {} bytes", max, e, h, n));
		let mut bytes = [u32b(e, n as u32 + 12).to_vec(), header_bytes(&h, e)].concat();
		bytes.extend(body(&mut self.rng, part));
		let all = bytes.len();
		{ let mut s = s.lock().unwrap(); s.input = bytes; s.acts = vec![Act::Some(16), Act::Some(1000), Act::Pending].into(); if part == 0 { s.acts.remove(1); } s.polls = 0; s.last = None; }
		let waker = Waker::from(w.clone());
		let mut cx = Context::from_waker(&waker);
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Pin::new(&mut half).poll_read_msg(&mut cx)));
		let r = match r { Ok(r) => r, Err(p) => return bad(&["C03", "C04"], format!("panic or endless loop: {}", panic_text(p))) };
		self.kinds.insert("large frame");
		if n == 0 { return Ok(()) }
		ensure!(matches!(&r, Poll::Pending), &["C03", "C04"], "a frame of {} bytes with a limit of {} gave {}", n, max, match &r { Poll::Ready(Err(x)) => x.to_string(), _ => "a message".to_string() });
		ensure!(s.lock().unwrap().pos == all, &["C03"], "only {} of {} bytes were read", s.lock().unwrap().pos, all);
		Ok(())
	}

	#[cfg(feature = "hooks")]
	fn stream_write(&mut self) -> R {
		if self.rng.below(3000) == 0 { return self.stream_write_huge() }
		const T: &[&str] = &["C02"];
		let e = endian(&mut self.rng);
		let max = [0, 1, 5, 40, 300, 4096, 9000][self.rng.below(7)];
		let (s, w) = script();
		let mut config = StreamConfig::default(); config.endian = e; config.max_body_len_write = max; config.max_body_len_read = self.rng.below(50) as u32;
		self.log(format!("write limit {} {:?}", max, e));
		let (_, mut half) = fizyr_rpc::transport::StreamTransport::<()>::verif_halves((), ScriptStream(s.clone()), config);
		let mut expected: Vec<u8> = vec![];
		for _ in 0..1 + self.rng.below(5) {
			let n = match self.rng.below(6) { 0 => max as usize, 1 => max as usize + 1 + self.rng.below(3), 2 => 0, 3 if max > 0 => self.size(max as usize), _ => self.rng.below(max.min(300) as usize + 1) };
			let (h, b) = (header(&mut self.rng), StreamBody::from(body(&mut self.rng, n)));
			self.log(format!("write {:?} with {} bytes", h, n));
			let f = frame(&h, &b.data, e);
			let start = expected.len();
			loop {
				// what the stream does in this poll
				let mut acts = vec![];
				for _ in 0..self.rng.below(4) { acts.push(Act::Some(match self.rng.below(4) { 0 => 1, 1 => 16, 2 => 1 + self.rng.below(30), _ if n > 1000 => 1000 + self.rng.below(9000), _ => 1000 })) }
				acts.push(match self.rng.below(14) { 0 => Act::Zero, 1 => Act::Fail(FAILS[self.rng.below(FAILS.len())]), _ => Act::Pending });
				{ let mut s = s.lock().unwrap(); s.acts = acts.clone().into(); s.polls = 0; s.last = None; s.woken.0.store(false, std::sync::atomic::Ordering::SeqCst); }
				let waker = Waker::from(w.clone());
				let mut cx = Context::from_waker(&waker);
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Pin::new(&mut half).poll_write_msg(&mut cx, &h, &b)));
				let r = match r { Ok(r) => r, Err(p) => return bad(T, format!("panic or endless loop: {}", panic_text(p))) };
				let g = s.lock().unwrap();
				self.trace.push(format!("poll with {:?}: {} -> {} bytes out", acts, short(&r), g.out.len()));
				let done = &g.out[start.min(g.out.len())..];
				ensure!(g.out.len() >= start && g.out[..start] == expected[..] && f.starts_with(done) , T, "the bytes on the stream are not what was written: {:?} after {:?}, frame {:?}", done, start, f);
				if n > max as usize {
					match &r {
						Poll::Ready(Err(x)) if !x.is_fatal() && is_too_large(x.inner()) && done.is_empty() => { self.kinds.insert("too large"); break },
						_ => return bad(T, format!("a body over the limit gave {} with {} bytes written", short(&r), done.len())),
					}
				}
				match &r {
					Poll::Ready(Ok(())) => {
						ensure!(done == &f[..], T, "success, but {} of {} bytes were written", done.len(), f.len());
						expected.extend_from_slice(&f);
						self.kinds.insert("written");
						break;
					},
					Poll::Pending => { ensure!(matches!(g.last, Some(Act::Pending)), T, "pending, but the stream was not pending: {:?}", g.last); self.kinds.insert("pending"); },
					Poll::Ready(Err(x)) => {
						match g.last {
							Some(Act::Zero) => ensure!(x.is_fatal(), T, "a stream that takes no bytes gave {}", short(&r)),
							Some(Act::Fail(k)) => ensure!(x.is_fatal() && io_kind(x) == Some(k), T, "a failing stream gave {}", short(&r)),
							l => return bad(T, format!("error {} after {:?}", short(&r), l)),
						}
						self.kinds.insert("failed");
						return Ok(());
					},
				}
			}
		}
		Ok(())
	}

	#[cfg(feature = "hooks")]
	fn stream_read(&mut self) -> R {
		if self.rng.below(3000) == 0 && HUGE.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 12 { return self.stream_read_huge() }
		let e = endian(&mut self.rng);
		let max: u32 = [0, 1, 5, 40, 300, u32::MAX, u32::MAX - 13, 4096, 9000][self.rng.below(9)];
		let small = max.min(60) as usize;
		let large = max >= 300 && self.rng.chance(25);
		let (s, w) = script();
		let mut config = StreamConfig::default(); config.endian = e; config.max_body_len_read = max; config.max_body_len_write = self.rng.below(50) as u32;
		self.log(format!("read limit {} {:?}", max, e));
		let (mut half, _) = fizyr_rpc::transport::StreamTransport::<()>::verif_halves(ScriptStream(s.clone()), (), config);
		let mut msgs: Vec<(MessageHeader, Vec<u8>)> = vec![];
		let mut bytes = vec![];
		for _ in 0..self.rng.below(5) {
			let n = if large && self.rng.chance(50) { self.size(max.min(9000) as usize) } else if self.rng.chance(30) { small } else if self.rng.chance(20) { 0 } else { self.rng.below(small + 1) };
			let (h, b) = (header(&mut self.rng), body(&mut self.rng, n));
			bytes.extend(frame(&h, &b, e)); msgs.push((h, b));
		}
		let valid = bytes.len();
		// what comes after the valid frames
		#[derive(Debug, PartialEq)]
		enum Tail { Nothing, Partial, Short, Type, Large }
		let tail = match self.rng.below(6) {
			0 => { let n = self.rng.below(small + 1); let f = frame(&header(&mut self.rng), &body(&mut self.rng, n), e); let k = 1 + self.rng.below(f.len() - 1); bytes.extend(&f[..k]); Tail::Partial },
			1 => { bytes.extend(u32b(e, self.rng.below(12) as u32)); bytes.extend(header_bytes(&header(&mut self.rng), e)); bytes.extend(body(&mut self.rng, 20)); Tail::Short },
			2 => { let n = self.rng.below(small + 1); let mut f = frame(&header(&mut self.rng), &body(&mut self.rng, n), e); let t = interesting(&mut self.rng); f[4..8].copy_from_slice(&u32b(e, if t <= 4 { t + 5 } else { t })); bytes.extend(f); Tail::Type },
			3 if max < u32::MAX - 12 => { let over = max + 12 + 1 + if self.rng.chance(50) { 0 } else { interesting(&mut self.rng) % (u32::MAX - max - 12) }; bytes.extend(u32b(e, over)); bytes.extend(header_bytes(&header(&mut self.rng), e)); bytes.extend(body(&mut self.rng, 20)); Tail::Large },
			_ => Tail::Nothing,
		};
		self.log(format!("{} messages, then {:?}, {} bytes", msgs.len(), tail, bytes.len()));
		s.lock().unwrap().input = bytes.clone();
		let mut next = 0;
		let mut consumed = 0;
		let mut polls = 0;
		loop {
			polls += 1;
			ensure!(polls < 5000, &["C03"], "no progress");
			let mut acts = vec![];
			for _ in 0..self.rng.below(5) { acts.push(Act::Some(match self.rng.below(4) { 0 => 1, 1 => 16, 2 => 1 + self.rng.below(30), _ if large => 20000, _ => 1000 })) }
			let left = bytes.len() - s.lock().unwrap().pos;
			acts.push(if left == 0 || self.rng.chance(2) { if self.rng.chance(50) { Act::Zero } else { Act::Fail(FAILS[self.rng.below(FAILS.len())]) } } else { Act::Pending });
			{ let mut s = s.lock().unwrap(); s.acts = acts.clone().into(); s.polls = 0; s.last = None; }
			let waker = Waker::from(w.clone());
			let mut cx = Context::from_waker(&waker);
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Pin::new(&mut half).poll_read_msg(&mut cx)));
			let r = match r { Ok(r) => r, Err(p) => return bad(&["C04", "C03"], format!("panic or endless loop: {}", panic_text(p))) };
			let g = s.lock().unwrap();
			let text = match &r { Poll::Ready(Ok(m)) => format!("message {:?} with {} bytes", m.header, m.body.data.len()), Poll::Ready(Err(x)) => format!("error {} fatal {}", x, x.is_fatal()), Poll::Pending => "pending".into() };
			self.trace.push(format!("poll with {:?}: {} (at {})", acts, text, g.pos));
			match r {
				Poll::Ready(Ok(m)) => {
					ensure!(next < msgs.len(), &["C03", "C04"], "a message that was never framed was delivered: {:?} with {} bytes", m.header, m.body.data.len());
					let (h, b) = &msgs[next];
					ensure!(m.header == *h && m.body.data == *b, &["C03"], "message {} was delivered as {:?} {:?}, sent was {:?} {:?}", next, m.header, m.body.data, h, b);
					consumed += 16 + b.len();
					ensure!(g.pos == consumed, &["C03"], "after message {}, {} bytes are consumed, not {}", next, g.pos, consumed);
					ensure!(b.len() as u64 <= max as u64, &["C04"], "message over the limit");
					next += 1;
					self.kinds.insert("message");
				},
				Poll::Pending => { ensure!(matches!(g.last, Some(Act::Pending)), &["C03"], "pending, but the stream was not pending"); self.kinds.insert("pending"); },
				Poll::Ready(Err(x)) => {
					ensure!(x.is_fatal(), &["C03", "C04"], "the error is not fatal: {}", x);
					match g.last {
						Some(Act::Zero) => { ensure!(x.inner().is_connection_aborted(), &["C03"], "the end of the stream gave {}", x); self.kinds.insert("end"); },
						Some(Act::Fail(k)) => { ensure!(io_kind(&x) == Some(k), &["C03"], "a failing stream gave {}", x); self.kinds.insert("failed"); },
						_ => {
							let ok = match tail { Tail::Short => is_too_short(x.inner()), Tail::Type => is_bad_type(x.inner()), Tail::Large => is_too_large(x.inner()), _ => false };
							ensure!(next == msgs.len() && ok, if tail == Tail::Nothing || tail == Tail::Partial || next < msgs.len() { &["C03", "C04"] } else { &["C04"] }, "unexpected error {} after {} messages", x, next);
							ensure!(g.pos <= valid + 16, &["C04"], "{} bytes of a frame that has to be refused were read", g.pos - valid);
							self.kinds.insert("refused");
						},
					}
					return Ok(());
				},
			}
			if tail != Tail::Nothing && tail != Tail::Partial { ensure!(g.pos < valid + 16, &["C04"], "{} bytes of a frame that has to be refused were accepted", g.pos - valid) }
		}
	}

	// ---------------------------------------------------------------- real stream sockets: the settings reach the halves
	fn stream_sockets(&mut self) -> R {
		let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
		let _g = rt.enter();
		let e = endian(&mut self.rng);
		let (rd, wr) = (self.rng.below(60) as u32, self.rng.below(60) as u32);
		let mut config = StreamConfig::default(); config.endian = e; config.max_body_len_read = rd; config.max_body_len_write = wr;
		self.kinds.insert("socket");
		if self.rng.chance(50) {
			let (a, b) = tokio::net::UnixStream::pair().unwrap();
			self.log(format!("unix stream, read limit {}, write limit {}, {:?}", rd, wr, e));
			let b = b.into_std().unwrap(); b.set_nonblocking(false).unwrap(); b.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
			self.pair(&rt, fizyr_rpc::transport::StreamTransport::new(a, config), b, rd, wr, e)
		} else {
			let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
			let b = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
			let a = l.accept().unwrap().0; a.set_nonblocking(true).unwrap();
			b.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
			self.log(format!("tcp stream, read limit {}, write limit {}, {:?}", rd, wr, e));
			self.pair(&rt, fizyr_rpc::transport::StreamTransport::new(tokio::net::TcpStream::from_std(a).unwrap(), config), b, rd, wr, e)
		}
	}
	fn pair<T: Transport<Body = StreamBody>>(&mut self, rt: &tokio::runtime::Runtime, mut t: T, mut b: impl std::io::Read + std::io::Write, rd: u32, wr: u32, e: Endian) -> R {
		let (mut r, mut w) = t.split();
		for _ in 0..1 + self.rng.below(4) {
			let h = header(&mut self.rng);
			let base = if self.rng.chance(50) { rd as usize } else { wr as usize };
			let n = if self.rng.chance(50) { self.rng.below(62) } else { base + self.rng.below(2) };
			let d = body(&mut self.rng, n);
			if self.rng.chance(50) {
				self.trace.push(format!("write {:?} with {} bytes", h, n));
				let body = StreamBody::from(d);
				let res = rt.block_on(async { tokio::time::timeout(Duration::from_secs(5), w.write_msg(&h, &body)).await });
				let Ok(res) = res else { return bad(&["C02"], "the write does not finish".into()) };
				if n > wr as usize {
					ensure!(matches!(&res, Err(x) if !x.is_fatal() && is_too_large(x.inner())), &["C02"], "a body of {} bytes with write limit {} gave {:?}", n, wr, res.map_err(|x| x.to_string()));
				} else {
					ensure!(res.is_ok(), &["C02"], "a body of {} bytes with write limit {} gave {:?}", n, wr, res.map_err(|x| x.to_string()));
					let f = frame(&h, &body.data, e);
					let mut got = vec![0; f.len()];
					let x = b.read_exact(&mut got);
					ensure!(x.is_ok() && got == f, &["C02"], "the other side received {:?}, expected {:?}", got, f);
				}
			} else {
				self.trace.push(format!("read {:?} with {} bytes", h, n));
				b.write_all(&frame(&h, &d, e)).unwrap();
				let res = rt.block_on(async { tokio::time::timeout(Duration::from_secs(5), r.read_msg()).await });
				let Ok(res) = res else { return bad(&["C03"], "the read does not finish".into()) };
				if n > rd as usize {
					ensure!(matches!(&res, Err(x) if x.is_fatal() && is_too_large(x.inner())), &["C04"], "a body of {} bytes with read limit {} gave {:?}", n, rd, res.map(|m| m.header).map_err(|x| x.to_string()));
					return Ok(());
				}
				ensure!(matches!(&res, Ok(m) if m.header == h && m.body.data == d), &["C03"], "a message of {} bytes with read limit {} was read as {:?}", n, rd, res.map(|m| (m.header, m.body.data)).map_err(|x| x.to_string()));
			}
		}
		Ok(())
	}

	// ---------------------------------------------------------------- seqpacket sockets
	pub fn seqpacket(&mut self) -> R {
		let before = fds();
		let r = self.seqpacket_run();
		if r.is_err() { return r }
		let after = fds();
		ensure!(after == before, &["C06"], "{} file descriptors are open afterwards, {} before", after, before);
		r
	}
	fn seqpacket_run(&mut self) -> R {
		let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
		let _g = rt.enter();
		let e = endian(&mut self.rng);
		let (a, b) = tokio_seqpacket::UnixSeqpacket::pair().unwrap();
		let mut config = UnixConfig::default();
		config.endian = e;
		let lens = [0u32, 1, 20, 4096];
		config.max_body_len_read = lens[self.rng.below(4)]; config.max_body_len_write = lens[self.rng.below(4)];
		config.max_fds_read = self.rng.below(7) as u32; config.max_fds_write = self.rng.below(7) as u32;
		if self.rng.chance(10) { config.max_fds_read = 60 }
		if self.rng.chance(10) { config.max_fds_write = 60 }
		let c = config.clone();
		self.log(format!("{:?}", c));
		let mut a = fizyr_rpc::transport::UnixTransport::new(a, config);
		let mut msgs_alive = vec![];
		let mut b = Some(b);
		{
			let (mut r, mut w) = a.split();
			for _ in 0..1 + self.rng.below(6) {
				let h = header(&mut self.rng);
				let base = if self.rng.chance(50) { c.max_body_len_read } else { c.max_body_len_write } as usize;
				let n = match self.rng.below(4) { 0 => base, 1 => base + 1 + self.rng.below(3), _ => self.rng.below(base + 1) };
				let nf = match self.rng.below(4) { 0 => 0, 1 => c.max_fds_read as usize + self.rng.below(9), 2 => c.max_fds_write as usize + self.rng.below(3), _ => self.rng.below(4) };
				let d = body(&mut self.rng, n);
				let mut keep: Vec<std::fs::File> = vec![];
				for _ in 0..nf { let (x, _) = std::os::unix::net::UnixStream::pair().unwrap(); keep.push(std::fs::File::from(std::os::fd::OwnedFd::from(x))) }
				let inos: Vec<u64> = keep.iter().map(|f| f.metadata().unwrap().ino()).collect();
				match self.rng.below(8) {
					0 | 1 | 2 => {
						self.trace.push(format!("write {:?} with {} bytes and {} descriptors", h, n, nf));
						let body = UnixBody::new(d.clone(), keep.iter().map(|f| filedesc::FileDesc::duplicate_from(f).unwrap()).collect::<Vec<_>>());
						let held = fds();
						let res = rt.block_on(async { tokio::time::timeout(Duration::from_secs(5), w.write_msg(&h, &body)).await });
						let Ok(res) = res else { return bad(&["C05"], "the write does not finish".into()) };
						ensure!(fds() == held, &["C06"], "sending changed the number of open descriptors");
						for (f, i) in body.fds.iter().zip(&inos) { ensure!(ino(f) == Some(*i), &["C06"], "sending closed a descriptor of the sender") }
						let got = try_recv(&rt, b.as_ref().unwrap());
						let large = n > c.max_body_len_write as usize;
						let many = nf > c.max_fds_write as usize;
						if large || many {
							let tags: &[&str] = if !large { &["C06"] } else { &["C05"] };
							ensure!(matches!(&res, Err(x) if !x.is_fatal() && (many || is_too_large(x.inner()))), tags, "a message over the limits gave {:?}", res.map_err(|x| (x.is_fatal(), x.to_string())));
							ensure!(got.is_none(), tags, "a refused message was sent");
							self.kinds.insert("write refused");
						} else {
							ensure!(res.is_ok(), if nf > 0 { &["C05", "C06"] } else { &["C05"] }, "the write failed: {:?}", res.map_err(|x| x.to_string()));
							let Some((data, f)) = got else { return bad(&["C05"], "nothing was sent".into()) };
							let want = [&header_bytes(&h, e)[..], &d].concat();
							ensure!(data == want, &["C05"], "the datagram is {:?}, expected {:?}", data, want);
							ensure!(f.iter().map(ino).collect::<Vec<_>>() == inos.iter().map(|i| Some(*i)).collect::<Vec<_>>(), &["C06"], "the descriptors sent are not those of the message: {} of {}", f.len(), nf);
							let more = try_recv(&rt, b.as_ref().unwrap());
							ensure!(more.is_none(), &["C05"], "more than one datagram was sent");
							self.kinds.insert("written");
							if nf > 0 { self.kinds.insert("descriptors written"); }
						}
					},
					7 if self.rng.chance(40) => {
						// the other side is gone
						self.trace.push("the other side closes".into());
						b = None;
						let res = rt.block_on(async { tokio::time::timeout(Duration::from_secs(5), r.read_msg()).await });
						let Ok(res) = res else { return bad(&["C05"], "the end of the connection is not reported".into()) };
						ensure!(matches!(&res, Err(x) if x.is_fatal() && x.inner().is_connection_aborted()), &["C05"], "the end of the connection gave {:?}", res.map(|m| m.header).map_err(|x| (x.is_fatal(), x.to_string())));
						if self.rng.chance(50) && c.max_body_len_write > 0 {
							let body = UnixBody::from(vec![1]);
							let res = rt.block_on(async { tokio::time::timeout(Duration::from_secs(5), w.write_msg(&h, &body)).await });
							ensure!(matches!(&res, Ok(Err(x)) if x.is_fatal()), &["C05"], "writing to a closed connection gave {:?}", res.map(|x| x.map_err(|x| x.to_string())));
						}
						self.kinds.insert("closed");
						return Ok(());
					},
					k => {
						// a datagram: valid, short, or with an unknown type
						let mut data = [&header_bytes(&h, e)[..], &d].concat();
						let mut wrong = None;
						if k == 3 && self.rng.chance(30) { data.truncate(self.rng.below(12)); wrong = Some("short") }
						else if k == 4 && self.rng.chance(30) { let t = interesting(&mut self.rng); data[..4].copy_from_slice(&u32b(e, if t <= 4 { t + 5 } else { t })); wrong = Some("type") }
						self.trace.push(format!("read {:?} with {} bytes and {} descriptors ({:?})", h, n, nf, wrong));
						send(&rt, b.as_ref().unwrap(), &data, &keep);
						let held = fds();
						let res = rt.block_on(async { tokio::time::timeout(Duration::from_secs(5), poll_fn(|cx| {
							match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Pin::new(&mut r).poll_read_msg(cx))) { Ok(Poll::Pending) => Poll::Pending, Ok(Poll::Ready(r)) => Poll::Ready(Ok(r)), Err(p) => Poll::Ready(Err(panic_text(p))) }
						})).await });
						let Ok(res) = res else { return bad(&["C05"], "the datagram is not reported".into()) };
						let res = match res { Ok(r) => r, Err(p) => return bad(&["C05"], format!("reading panicked: {}", p)) };
						if let Err(x) = &res { ensure!(fds() == held, &["C06"], "a rejected message leaves {} more descriptors open ({})", fds() as i64 - held as i64, x) }
						let large = n > c.max_body_len_read as usize;
						let many = nf > c.max_fds_read as usize;
						let show = |res: Result<fizyr_rpc::Message<UnixBody>, TransportError>| format!("{:?}", res.map(|m| (m.header, m.body.data.len(), m.body.fds.len())).map_err(|x| (x.is_fatal(), x.to_string())));
						match wrong {
							Some("short") => {
								ensure!(matches!(&res, Err(x) if x.is_fatal()), &["C05"], "a datagram of {} bytes gave {}", data.len(), show(res));
								self.kinds.insert("short");
								return Ok(());
							},
							Some(_) => {
								ensure!(matches!(&res, Err(x) if is_bad_type(x.inner()) && x.is_fatal() || (large || many) && !x.is_fatal()), &["C05"], "a datagram with unknown type gave {}", show(res));
								self.kinds.insert("unknown type");
								return Ok(());
							},
							None if large || many => {
								let tags: &[&str] = if !large { &["C06"] } else { &["C05"] };
								ensure!(matches!(&res, Err(x) if !x.is_fatal() && (many || is_too_large(x.inner()))), tags, "a datagram over the limits gave {}", show(res));
								self.kinds.insert("read refused");
							},
							None => {
								let Ok(m) = res else { return bad(if nf > 0 { &["C05", "C06"] } else { &["C05"] }, format!("a valid datagram gave {}", show(res))) };
								ensure!(m.header == h && m.body.data == d, &["C05"], "the message was read as {:?} {:?}", m.header, m.body.data);
								ensure!(fds() == held + nf, &["C06"], "{} descriptors were opened for a message with {}", fds() as i64 - held as i64, nf);
								ensure!(m.body.fds.iter().map(ino).collect::<Vec<_>>() == inos.iter().map(|i| Some(*i)).collect::<Vec<_>>(), &["C06"], "the descriptors delivered are not those sent: {} of {}", m.body.fds.len(), nf);
								self.kinds.insert("read");
								if nf > 0 { self.kinds.insert("descriptors read"); }
								if self.rng.chance(50) { msgs_alive.push(m) }
							},
						}
					},
				}
			}
		}
		Ok(())
	}
}

fn fds() -> usize { std::fs::read_dir("/proc/self/fd").unwrap().count() }
fn ino<F: std::os::fd::AsRawFd>(f: &F) -> Option<u64> { std::fs::metadata(format!("/proc/self/fd/{}", f.as_raw_fd())).ok().map(|m| m.ino()) }
fn send(rt: &tokio::runtime::Runtime, s: &tokio_seqpacket::UnixSeqpacket, data: &[u8], files: &[std::fs::File]) {
	use std::os::fd::AsFd;
	let mut buf = vec![0u8; 64 + 8 * files.len()];
	let mut anc = tokio_seqpacket::ancillary::AncillaryMessageWriter::new(&mut buf);
	let f: Vec<_> = files.iter().map(|f| f.as_fd()).collect();
	if !f.is_empty() { anc.add_fds(&f).unwrap(); }
	rt.block_on(async { s.send_vectored_with_ancillary(&[std::io::IoSlice::new(data)], &mut anc).await }).unwrap();
}
/// What the other side receives, if anything.
fn try_recv(rt: &tokio::runtime::Runtime, s: &tokio_seqpacket::UnixSeqpacket) -> Option<(Vec<u8>, Vec<std::os::fd::OwnedFd>)> {
	use tokio_seqpacket::ancillary::OwnedAncillaryMessage;
	let mut data = vec![0u8; 8192];
	let mut anc = vec![0u8; 2048];
	let mut tries = 0;
	rt.block_on(poll_fn(|cx| {
		let mut bufs = [std::io::IoSliceMut::new(&mut data)];
		match s.poll_recv_vectored_with_ancillary(cx, &mut bufs, &mut anc) {
			Poll::Ready(Ok((n, a))) => {
				let mut f = vec![];
				for m in a.into_messages() { if let OwnedAncillaryMessage::FileDescriptors(m) = m { f.extend(m) } }
				Poll::Ready(Some((n, f)))
			},
			Poll::Ready(Err(_)) => Poll::Ready(None),
			// The readiness of the socket is only known after the driver ran.
			Poll::Pending if tries < 3 => { tries += 1; cx.waker().wake_by_ref(); Poll::Pending },
			Poll::Pending => Poll::Ready(None),
		}
	})).map(|(n, f)| (data[..n].to_vec(), f))
}

// ---------------------------------------------------------------- scripted streams
#[derive(Clone, Copy, Debug)]
enum Act { Some(usize), Pending, Zero, Fail(std::io::ErrorKind) }
#[cfg(feature = "hooks")]
const FAILS: [std::io::ErrorKind; 4] = [std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::TimedOut, std::io::ErrorKind::PermissionDenied];
struct Flag(std::sync::atomic::AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, std::sync::atomic::Ordering::SeqCst) } }
struct Script { acts: std::collections::VecDeque<Act>, out: Vec<u8>, input: Vec<u8>, pos: usize, polls: usize, last: Option<Act>, woken: Arc<Flag> }
struct ScriptStream(Arc<Mutex<Script>>);
#[cfg(feature = "hooks")]
fn script() -> (Arc<Mutex<Script>>, Arc<Flag>) {
	let woken = Arc::new(Flag(std::sync::atomic::AtomicBool::new(false)));
	(Arc::new(Mutex::new(Script { acts: Default::default(), out: vec![], input: vec![], pos: 0, polls: 0, last: None, woken: woken.clone() })), woken)
}
impl Script {
	fn act(&mut self) -> Act {
		self.polls += 1;
		if self.polls > 3000 { panic!("the stream is polled again and again") }
		// The last one is repeated.
		let a = if self.acts.len() > 1 { self.acts.pop_front().unwrap() } else { self.acts.front().copied().unwrap_or(Act::Pending) };
		self.last = Some(a);
		a
	}
}
impl tokio::io::AsyncWrite for ScriptStream {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> { self.poll_write_vectored(cx, &[std::io::IoSlice::new(buf)]) }
	fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[std::io::IoSlice<'_>]) -> Poll<std::io::Result<usize>> {
		let mut s = self.0.lock().unwrap();
		match s.act() {
			Act::Pending => { cx.waker().wake_by_ref(); Poll::Pending },
			Act::Zero => Poll::Ready(Ok(0)),
			Act::Fail(k) => Poll::Ready(Err(k.into())),
			Act::Some(n) => {
				let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
				let n = n.min(all.len());
				if n == 0 { s.last = Some(Act::Zero) }
				s.out.extend_from_slice(&all[..n]);
				Poll::Ready(Ok(n))
			},
		}
	}
	fn is_write_vectored(&self) -> bool { true }
	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
	fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
impl tokio::io::AsyncRead for ScriptStream {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
		let mut s = self.0.lock().unwrap();
		match s.act() {
			Act::Pending => { cx.waker().wake_by_ref(); Poll::Pending },
			Act::Zero => Poll::Ready(Ok(())),
			Act::Fail(k) => Poll::Ready(Err(k.into())),
			Act::Some(n) => {
				let n = n.min(buf.remaining()).min(s.input.len() - s.pos);
				if n == 0 && s.pos == s.input.len() { s.last = Some(Act::Pending); return Poll::Pending }
				if n == 0 { s.last = Some(Act::Zero) }
				let p = s.pos;
				buf.put_slice(&s.input[p..p + n]);
				s.pos += n;
				Poll::Ready(Ok(()))
			},
		}
	}
}
#[cfg(feature = "hooks")]
fn io_kind(e: &TransportError) -> Option<std::io::ErrorKind> {
	let text = e.inner().to_string();
	FAILS.iter().copied().find(|k| text.contains(&std::io::Error::from(*k).to_string()))
}
#[cfg(feature = "hooks")]
fn short(r: &Poll<Result<(), TransportError>>) -> String { match r { Poll::Pending => "pending".into(), Poll::Ready(Ok(())) => "done".into(), Poll::Ready(Err(e)) => format!("error {} fatal {}", e, e.is_fatal()) } }
