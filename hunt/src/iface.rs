//! Search for messages for which the code generated from an interface definition, or the bodies of error responses, differ from the properties.
//!
//! One side is the generated code, the other a plain peer; the oracle is a table of the definition.
use crate::rng::Rng;
use crate::transport::Bad;
use fizyr_rpc::format::{DecodeBody, EncodeBody, Format, FromMessage, ToMessage};
use fizyr_rpc::transport::StreamTransport;
use fizyr_rpc::{Body, Error, Message, MessageHeader, MessageType, ParseUpdateError, Peer, PeerHandle, ReceivedMessage, RecvMessageError, StreamBody, UnixBody};
use std::collections::BTreeSet;
use std::future::Future;
use std::time::Duration;

#[derive(Debug, Clone, PartialEq)] pub struct Alpha(pub Vec<u8>);
#[derive(Debug, Clone, PartialEq)] pub struct Beta(pub Vec<u8>);
#[derive(Debug, Clone, PartialEq)] pub struct Gamma(pub Vec<u8>);

pub mod full {
	use super::*;
	fizyr_rpc::interface! {
		pub interface Full {
			service 1 plain: Alpha -> Beta,
			service 2 nothing: () -> (),
			service 7 talk: Alpha -> Beta {
				request_update 1 first: Gamma,
				request_update 12 quit: (),
				response_update 1 state: Beta,
				response_update 12 the_image: Gamma,
				response_update -12 done: (),
			},
			service -4 ask: Beta -> () {
				request_update 20 more: Alpha,
			},
			service 2147483647 watch: () -> Gamma {
				response_update 20 news: Alpha,
			},
			stream 1 event: Alpha,
			stream 7 tick: (),
			stream -2147483648 level: Gamma,
		}
	}
}

#[derive(Debug)] struct Refused;
impl std::fmt::Display for Refused { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "refused") } }
impl std::error::Error for Refused {}
type Boxed = Box<dyn std::error::Error + Send>;

/// The tag byte of the type, then the bytes. Values that start with 0xEE can not be encoded.
pub struct Fmt;
impl Format for Fmt { type Body = StreamBody; }
macro_rules! coded { ($($t:ident $tag:literal)*) => { $(
	impl EncodeBody<$t> for Fmt { fn encode_body(v: &$t) -> Result<StreamBody, Boxed> { if v.0.first() == Some(&0xEE) { Err(Box::new(Refused)) } else { Ok([&[$tag], &v.0[..]].concat().into()) } } }
	impl DecodeBody<$t> for Fmt { fn decode_body(b: StreamBody) -> Result<$t, Boxed> { if b.data.first() == Some(&$tag) { Ok($t(b.data[1..].to_vec())) } else { Err(Box::new(Refused)) } } }
)* } }
coded!(Alpha b'A' Beta b'B' Gamma b'G');
impl EncodeBody<()> for Fmt { fn encode_body(_: &()) -> Result<StreamBody, Boxed> { Ok(vec![b'U'].into()) } }
impl DecodeBody<()> for Fmt { fn decode_body(b: StreamBody) -> Result<(), Boxed> { if b.data[..] == *b"U" { Ok(()) } else { Err(Box::new(Refused)) } } }

type R<T = ()> = Result<T, Bad>;
fn bad<T>(tags: &[&'static str], what: String) -> R<T> { Err(Bad { tags: tags.to_vec(), what }) }
macro_rules! ensure { ($c:expr, $tags:expr, $($f:tt)*) => { if !$c { return bad($tags, format!($($f)*)) } } }
const C16: &[&str] = &["C16"];
const C17: &[&str] = &["C17"];

const STREAMS: &[(i32, u8)] = &[(1, b'A'), (7, b'U'), (i32::MIN, b'G')];
/// ID, request, response, request updates, response updates
type Service = (i32, u8, u8, &'static [(i32, u8)], &'static [(i32, u8)]);
const SERVICES: &[Service] = &[
	(1, b'A', b'B', &[], &[]), (2, b'U', b'U', &[], &[]),
	(7, b'A', b'B', &[(1, b'G'), (12, b'U')], &[(1, b'B'), (12, b'G'), (-12, b'U')]),
	(-4, b'B', b'U', &[(20, b'A')], &[]), (i32::MAX, b'U', b'G', &[], &[(20, b'A')]),
];
/// Does a body decode as the type with this tag?
fn fits(tag: u8, b: &[u8]) -> bool { b.first() == Some(&tag) && (tag != b'U' || b.len() == 1) }
/// The text of the kind of an error: of what is inside a `DecodeFailed` and the like only the fact counts.
fn is_encode_failed(e: &Error) -> bool { e.to_string() == Error::encode_failed(Box::new(Refused)).to_string() }
fn is_decode_failed(e: &Error) -> bool { e.to_string() == Error::decode_failed(Box::new(Refused)).to_string() }
fn is_unexpected_id(e: &Error, id: i32) -> bool { e.to_string() == Error::unexpected_service_id(id).to_string() }

pub struct Run { pub rng: Rng, pub trace: Vec<String>, pub kinds: BTreeSet<&'static str> }

async fn soon<T>(what: &str, tags: &[&'static str], f: impl Future<Output = T>) -> R<T> {
	match tokio::time::timeout(Duration::from_secs(5), f).await { Ok(v) => Ok(v), Err(_) => bad(tags, format!("{}: nothing came within 5 s", what)) }
}

async fn both<A, B>(a: impl Future<Output = A>, b: impl Future<Output = B>) -> (A, B) {
	let (mut a, mut b) = (Box::pin(a), Box::pin(b));
	let (mut x, mut y) = (None, None);
	std::future::poll_fn(move |cx| {
		use std::task::Poll;
		if x.is_none() { if let Poll::Ready(v) = a.as_mut().poll(cx) { x = Some(v) } }
		if y.is_none() { if let Poll::Ready(v) = b.as_mut().poll(cx) { y = Some(v) } }
		if x.is_some() && y.is_some() { Poll::Ready((x.take().unwrap(), y.take().unwrap())) } else { Poll::Pending }
	}).await
}

impl Run {
	pub fn new(seed: u64) -> Self { Run { rng: Rng::new(seed), trace: vec![], kinds: BTreeSet::new() } }
	fn log(&mut self, s: String) { if self.trace.len() < 60 { self.trace.push(s) } }
	fn id(&mut self, declared: &[i32]) -> i32 {
		if self.rng.chance(75) && !declared.is_empty() { declared[self.rng.below(declared.len())] }
		else { let d = declared.get(self.rng.below(declared.len().max(1))).copied().unwrap_or(3); [0, 3, -1, d.wrapping_neg(), d.wrapping_add(1), d.wrapping_sub(1), i32::MIN, i32::MAX, self.rng.u32() as i32][self.rng.below(9)] }
	}
	fn bytes(&mut self) -> Vec<u8> { let n = self.rng.below(6); (0..n).map(|_| self.rng.u32() as u8).collect() }
	/// A body: often one that fits the type with this tag.
	fn body(&mut self, tag: Option<u8>) -> Vec<u8> {
		let t = match tag { Some(t) if self.rng.chance(75) => t, _ => b"ABGUX"[self.rng.below(5)] };
		if self.rng.chance(6) { return vec![] }
		let mut b = vec![t];
		if t != b'U' || self.rng.chance(15) { b.extend(self.bytes()) }
		b
	}
	fn value(&mut self) -> Vec<u8> { let mut v = self.bytes(); if self.rng.chance(15) { v.insert(0, 0xEE) } v }
	fn text(&mut self) -> String {
		match self.rng.below(4) {
			0 => String::new(),
			1 => "it went wrong".into(),
			2 => { let n = self.rng.below(6); (0..n).map(|_| char::from_u32(self.rng.u32() % 0x11_0000).unwrap_or('\u{7f}')).collect() },
			_ => "\0\n\u{10FFFF}\u{e9}\"".into(),
		}
	}

	pub fn run(&mut self) -> R {
		self.plain()?;
		self.messages()?;
		if !self.rng.chance(40) { return Ok(()) }
		let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
		let server = self.rng.chance(50);
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(async { if server { self.server().await } else { self.client().await } })));
		match r { Ok(r) => r, Err(_) => bad(&["C16", "C17"], "the generated code panicked".into()) }
	}

	/// Bodies of error responses.
	fn plain(&mut self) -> R {
		let (id, text) = (self.rng.u32(), self.text());
		self.log(format!("error response to {} with text {:?}", id, text));
		macro_rules! check { ($b:ty) => {{
			let m = Message::<$b>::error_response(id, &text);
			ensure!(m.header == MessageHeader { message_type: MessageType::Response, request_id: id, service_id: -1 }, C16, "an error response has header {:?}", m.header);
			ensure!(m.header == MessageHeader::error_response(id), C16, "MessageHeader::error_response gave {:?}", MessageHeader::error_response(id));
			ensure!(m.body.data[..] == *text.as_bytes(), C16, "the error text {:?} is encoded as {:?}", text, m.body.data);
			ensure!(matches!(m.body.as_error(), Ok(t) if t == text), C16, "as_error of the encoded text {:?} gave {:?}", text, m.body.as_error());
			let r = m.body.into_error();
			ensure!(matches!(&r, Ok(t) if *t == text), C16, "into_error of the encoded text {:?} gave {:?}", text, r);
			let mut raw = self.bytes();
			if self.rng.chance(30) { raw = [text.as_bytes(), &raw].concat() }
			let b = <$b>::from(raw.clone());
			let (want, got) = (std::str::from_utf8(&raw).ok().map(String::from), b.as_error().ok().map(String::from));
			ensure!(got == want, C16, "as_error of {:?} gave {:?}", raw, got);
			let got = b.into_error().ok();
			ensure!(got == want, C16, "into_error of {:?} gave {:?}", raw, got);
			ensure!(<$b>::empty().data.is_empty(), C16, "an empty body is not empty");
			self.kinds.insert(if want.is_some() { "error text" } else { "no error text" });
		}} }
		check!(StreamBody);
		check!(UnixBody);
		let e = Error::remote_error(text.clone());
		ensure!(e.is_remote_error() && e.as_remote_error() == Some(&text[..]), C16, "as_remote_error gave {:?}", e.as_remote_error());
		let got = e.into_remote_error();
		ensure!(got.as_deref() == Some(&text[..]), C16, "into_remote_error gave {:?}", got);
		let e = Error::unexpected_service_id(3);
		ensure!(!e.is_remote_error() && e.as_remote_error().is_none() && e.into_remote_error().is_none(), C16, "another error counts as a remote error");
		Ok(())
	}

	/// The enums and their conversions.
	fn messages(&mut self) -> R {
		use full::talk::{RequestUpdate as Up, ResponseUpdate as Down};
		use full::StreamMessage as S;
		macro_rules! check { ($e:ident: $($id:literal $v:ident($t:ident) $tag:literal $is:ident $as:ident $into:ident),*) => {{
			let ids = [$($id),*];
			let id = self.id(&ids);
			let tag = { let mut t = None; $( if id == $id { t = Some($tag) } )* t };
			let body = self.body(tag);
			let mt = [MessageType::Stream, MessageType::RequesterUpdate, MessageType::ResponderUpdate][self.rng.below(3)];
			self.log(format!("{}::from_message with service ID {} and body {:?}", stringify!($e), id, body));
			let m = Message::new(MessageHeader { message_type: mt, request_id: self.rng.u32(), service_id: id }, StreamBody::from(body.clone()));
			let r = <$e as FromMessage<Fmt>>::from_message(m);
			match (tag, &r) {
				(None, Err(e)) if is_unexpected_id(e, id) => { self.kinds.insert("from_message: unknown"); },
				(Some(t), Err(e)) if !fits(t, &body) && is_decode_failed(e) => { self.kinds.insert("from_message: invalid"); },
				(Some(t), Ok(v)) if fits(t, &body) => {
					let name = { let mut n = ""; $( if id == $id { n = stringify!($v) } )* n };
					let want = { let x = format!("{:?}", v); x.starts_with(name) && x[name.len()..].starts_with('(') };
					ensure!(want, C17, "{}::from_message with service ID {} gave {:?}", stringify!($e), id, v);
					match <$e as ToMessage<Fmt>>::to_message(v) {
						Ok((i, b)) => ensure!(i == id && b.data == body, C17, "{:?} is encoded as service {} with body {:?}, expected service {} with body {:?}", v, i, b.data, id, body),
						Err(_) => ensure!(body.get(1) == Some(&0xEE), C17, "to_message of {:?} failed", v),
					}
					$( ensure!(v.$is() == (id == $id), C17, "{} of {:?} gave {}", stringify!($is), v, v.$is());
					   ensure!(v.$as().is_some() == (id == $id), C17, "{} of {:?} gave {:?}", stringify!($as), v, v.$as()); )*
					$( { let m = Message::new(MessageHeader { message_type: mt, request_id: 0, service_id: id }, StreamBody::from(body.clone()));
					     match <$e as FromMessage<Fmt>>::from_message(m).unwrap().$into() {
						Ok(x) => ensure!(id == $id && Some(&x) == v.$as(), C17, "{} of {:?} gave {:?}", stringify!($into), v, x),
						Err(e) => ensure!(id != $id && is_unexpected_id(&e, id), C17, "{} of {:?} gave the error {}", stringify!($into), v, e),
					} } )*
					self.kinds.insert("from_message: good");
				},
				_ => return bad(C17, format!("{}::from_message with service ID {} and body {:?} gave {:?}", stringify!($e), id, body, r.map_err(|e| e.to_string()))),
			}
		}} }
		match self.rng.below(3) {
			0 => check!(Up: 1 First(Gamma) b'G' is_first as_first into_first, 12 Quit(unit) b'U' is_quit as_quit into_quit),
			1 => check!(Down: 1 State(Beta) b'B' is_state as_state into_state, 12 TheImage(Gamma) b'G' is_the_image as_the_image into_the_image, -12 Done(unit) b'U' is_done as_done into_done),
			_ => check!(S: 1 Event(Alpha) b'A' is_event as_event into_event, 7 Tick(unit) b'U' is_tick as_tick into_tick, -2147483648 Level(Gamma) b'G' is_level as_level into_level),
		}
		Ok(())
	}

	async fn peers(&mut self) -> (PeerHandle<StreamBody>, PeerHandle<StreamBody>) {
		let (a, b) = tokio::net::UnixStream::pair().unwrap();
		(Peer::spawn(StreamTransport::new(a, Default::default())), Peer::spawn(StreamTransport::new(b, Default::default())))
	}

	// ---------------------------------------------------------------- a plain peer against the generated server
	async fn server(&mut self) -> R {
		let (raw, other) = self.peers().await;
		let mut raw = raw;
		let mut server = full::Server::<Fmt>::from(other);
		for _ in 0..1 + self.rng.below(4) {
			if self.rng.chance(35) {
				let ids: Vec<i32> = STREAMS.iter().map(|s| s.0).collect();
				let id = self.id(&ids);
				let tag = STREAMS.iter().find(|s| s.0 == id).map(|s| s.1);
				let body = self.body(tag);
				self.log(format!("plain peer sends stream message {} with body {:?}", id, body));
				if raw.send_stream(id, body.clone()).await.is_err() { return bad(C17, "a stream message could not be sent".into()) }
				let r = soon("a stream message", C17, server.recv_message()).await?;
				let want = match tag { None => 0, Some(t) if fits(t, &body) => 1, _ => 2 };
				let good = match &r {
					Err(RecvMessageError::UnknownStream(m)) => want == 0 && m.header == MessageHeader::stream(m.header.request_id, id) && m.body.data == body,
					Err(RecvMessageError::InvalidStream(h, _)) => want == 2 && h.service_id == id && h.message_type == MessageType::Stream,
					Ok(full::ReceivedMessage::Stream(s)) => want == 1 && match s {
						full::StreamMessage::Event(v) => id == 1 && v.0 == body[1..],
						full::StreamMessage::Tick(()) => id == 7,
						full::StreamMessage::Level(v) => id == i32::MIN && v.0 == body[1..],
					},
					_ => false,
				};
				ensure!(good, C17, "stream message {} with body {:?} gave {:?}", id, body, r);
				self.kinds.insert(["unknown stream", "stream", "invalid stream"][want]);
				continue;
			}
			let ids: Vec<i32> = SERVICES.iter().map(|s| s.0).collect();
			let id = self.id(&ids);
			let service = SERVICES.iter().find(|s| s.0 == id);
			let tag = service.map(|s| s.1);
			let body = self.body(tag);
			self.log(format!("plain peer sends request {} with body {:?}", id, body));
			let mut sent = match raw.send_request(id, body.clone()).await { Ok(s) => s, Err(e) => return bad(C17, format!("a request could not be sent: {}", e)) };
			let r = soon("a request", C17, server.recv_message()).await?;
			let want = match tag { None => 0, Some(t) if fits(t, &body) => 1, _ => 2 };
			let mut r = r;
			if let Err(e) = &mut r {
				let ids = (e.request_handle().map(|h| h.request_id()), e.request_handle_mut().map(|h| h.request_id()));
				ensure!(ids == (Some(sent.request_id()), Some(sent.request_id())), C17, "the error for request {} has the handles {:?}", sent.request_id(), ids);
			}
			let mut wrong = false;
			match r {
				Err(RecvMessageError::UnknownRequest(h, b)) if want == 0 => { wrong = h.service_id() != id || h.request_id() != sent.request_id() || b.data != body; },
				Err(RecvMessageError::InvalidRequest(h, _)) if want == 2 => { wrong = h.service_id() != id || h.request_id() != sent.request_id(); },
				Ok(full::ReceivedMessage::Request(h)) if want == 1 => {
					let s = service.unwrap();
					let rid = sent.request_id();
					use full::ReceivedRequestHandle as H;
					macro_rules! answer { ($r:ident, $($t:ident)?) => {{
						ensure!($r.service_id() == id && $r.request_id() == rid, C17, "the handle of request {} of service {} has ID {} and service {}", rid, id, $r.request_id(), $r.service_id());
						let v = self.value();
						let write = self.rng.chance(50);
						let w = $r.write_handle();
						if self.rng.chance(40) {
							let text = self.text();
							self.log(format!("the service answers with the error {:?}", text));
							let _ = if write { w.send_error_response(&text).await } else { $r.send_error_response(&text).await };
							let m = soon("an error response", C16, sent.recv_response()).await?;
							ensure!(matches!(&m, Ok(m) if m.header.service_id == -1 && m.body.data[..] == *text.as_bytes()), C16, "the error response {:?} came as {:?}", text, m.map(|m| (m.header, m.body.data)));
							self.kinds.insert("error response");
						} else {
							self.log(format!("the service answers with {:?}", v));
							#[allow(unused_variables)] let value = v.clone();
							let r = { answer!(@ $r, w, write, value, $($t)?) };
							let refused = s.2 != b'U' && v.first() == Some(&0xEE);
							if refused {
								ensure!(matches!(&r, Err(e) if is_encode_failed(e)), C17, "a response that can not be encoded gave {:?}", r.map_err(|e| e.to_string()));
								let text = "afterwards";
								ensure!($r.send_error_response(text).await.is_ok(), C17, "no answer was possible after a response that could not be encoded");
								let m = soon("the answer", C17, sent.recv_response()).await?;
								ensure!(matches!(&m, Ok(m) if m.header.service_id == -1 && m.body.data[..] == *text.as_bytes()), C17, "after a response that could not be encoded, {:?} was sent", m.map(|m| (m.header, m.body.data)));
								self.kinds.insert("refused response");
							} else {
								let m = soon("a response", C17, sent.recv_response()).await?;
								let want = if s.2 == b'U' { vec![b'U'] } else { [&[s.2], &v[..]].concat() };
								ensure!(matches!(&m, Ok(m) if m.header.service_id == id && m.body.data == want), C17, "the response {:?} of service {} came as {:?}", v, id, m.map(|m| (m.header, m.body.data)));
								self.kinds.insert("response");
							}
						}
					}};
					(@ $r:ident, $w:ident, $write:ident, $v:ident, $t:ident) => { if $write { $w.send_response(&$t($v)).await } else { $r.send_response(&$t($v)).await } };
					(@ $r:ident, $w:ident, $write:ident, $v:ident,) => { if $write { $w.send_response(&()).await } else { $r.send_response(&()).await } };
					}
					macro_rules! updates { ($r:ident, $($name:ident $uid:literal $($t:ident)?),*) => {
						if self.rng.chance(50) {
							let all: &[(i32, u8)] = s.4;
							let k = self.rng.below(all.len());
							let v = self.value();
							let write = self.rng.chance(50);
							let w = $r.write_handle();
							self.log(format!("the service sends update {} with {:?}", all[k].0, v));
							#[allow(unused_variables)] let value = v.clone();
							let r = { let mut r = Ok(()); $( if all[k].0 == $uid { r = updates!(@ $r, w, write, value, $name $($t)?) } )* r };
							let refused = all[k].1 != b'U' && v.first() == Some(&0xEE);
							if refused { ensure!(matches!(&r, Err(e) if is_encode_failed(e)), C17, "an update that can not be encoded gave {:?}", r.map_err(|e| e.to_string())); }
							else {
								let m = soon("an update", C17, sent.recv_update()).await?;
								let want = if all[k].1 == b'U' { vec![b'U'] } else { [&[all[k].1], &v[..]].concat() };
								ensure!(matches!(&m, Some(m) if m.header.service_id == all[k].0 && m.header.message_type == MessageType::ResponderUpdate && m.body.data == want), C17, "the update {} with {:?} of service {} came as {:?}", all[k].0, v, id, m.map(|m| (m.header, m.body.data)));
								self.kinds.insert("response update");
							}
						}
					};
					(@ $r:ident, $w:ident, $write:ident, $v:ident, $name:ident $t:ident) => { if $write { $w.$name(&$t($v.clone())).await } else { $r.$name(&$t($v.clone())).await } };
					(@ $r:ident, $w:ident, $write:ident, $v:ident, $name:ident) => { if $write { $w.$name().await } else { $r.$name().await } };
					}
					macro_rules! incoming { ($r:ident, $e:ident: $($v:ident $uid:literal $($t:ident)?),*) => {
						if self.rng.chance(60) {
							let all: &[(i32, u8)] = s.3;
							let ids: Vec<i32> = all.iter().map(|u| u.0).collect();
							let uid = self.id(&ids);
							let utag = all.iter().find(|u| u.0 == uid).map(|u| u.1);
							let ub = self.body(utag);
							self.log(format!("plain peer sends update {} with {:?}", uid, ub));
							let _ = sent.send_update(uid, ub.clone()).await;
							let u = soon("a request update", C17, $r.recv_update()).await?;
							let want = match utag { None => 0, Some(t) if fits(t, &ub) => 1, _ => 2 };
							let good = match &u {
								Some(Err(ParseUpdateError::UnknownUpdate(m))) => want == 0 && m.header == MessageHeader::requester_update(rid, uid) && m.body.data == ub,
								Some(Err(ParseUpdateError::InvalidUpdate(h, _))) => want == 2 && *h == MessageHeader::requester_update(rid, uid),
								$( Some(Ok(full::$e::RequestUpdate::$v(_x))) => want == 1 && uid == $uid && incoming!(@ _x ub $($t)?), )*
								_ => false,
							};
							ensure!(good, C17, "request update {} with body {:?} gave {:?}", uid, ub, u);
							self.kinds.insert(["unknown request update", "request update", "invalid request update"][want]);
						}
					};
					(@ $x:ident $b:ident $t:ident) => { $x.0 == $b[1..] };
					(@ $x:ident $b:ident) => { true };
					}
					match h {
						H::Plain(r, v) => { ensure!(id == 1 && v.0 == body[1..], C17, "request {} with body {:?} gave Plain({:?})", id, body, v); answer!(r, Beta) },
						H::Nothing(r, ()) => { ensure!(id == 2, C17, "request {} gave Nothing", id); answer!(r, ) },
						H::Talk(mut r, v) => {
							ensure!(id == 7 && v.0 == body[1..], C17, "request {} with body {:?} gave Talk({:?})", id, body, v);
							incoming!(r, talk: First 1 Gamma, Quit 12);
							updates!(r, send_state_update 1 Beta, send_the_image_update 12 Gamma, send_done_update -12);
							answer!(r, Beta)
						},
						H::Ask(mut r, v) => {
							ensure!(id == -4 && v.0 == body[1..], C17, "request {} with body {:?} gave Ask({:?})", id, body, v);
							incoming!(r, ask: More 20 Alpha);
							answer!(r, )
						},
						H::Watch(r, ()) => {
							ensure!(id == i32::MAX, C17, "request {} gave Watch", id);
							updates!(r, send_news_update 20 Alpha);
							answer!(r, Gamma)
						},
					}
				},
				r => return bad(C17, format!("request {} with body {:?} gave {:?}", id, body, r)),
			}
			ensure!(!wrong, C17, "request {} with body {:?} was handed back changed", id, body);
			self.kinds.insert(["unknown request", "request", "invalid request"][want]);
		}
		// Nothing else comes.
		drop(raw);
		let r = soon("the end", C17, server.recv_message()).await?;
		ensure!(matches!(&r, Err(RecvMessageError::Other(e)) if e.is_connection_aborted()), C17, "at the end the server got {:?}", r);
		Ok(())
	}

	// ---------------------------------------------------------------- the generated client against a plain peer
	async fn client(&mut self) -> R {
		let (mut raw, other) = self.peers().await;
		let (read, write) = other.split();
		let client = full::Client::<Fmt>::new(write);
		for _ in 0..1 + self.rng.below(4) {
			let v = self.value();
			let refused = v.first() == Some(&0xEE);
			if self.rng.chance(30) {
				let k = self.rng.below(3);
				let (id, tag) = STREAMS[k];
				self.log(format!("the client sends stream message {} with {:?}", id, v));
				let r = match k { 0 => client.send_event(&Alpha(v.clone())).await, 1 => client.send_tick().await, _ => client.send_level(&Gamma(v.clone())).await };
				if refused && tag != b'U' { ensure!(matches!(&r, Err(e) if is_encode_failed(e)), C17, "a stream message that can not be encoded gave {:?}", r.map_err(|e| e.to_string())); self.kinds.insert("refused stream"); continue }
				let want = if tag == b'U' { vec![tag] } else { [&[tag], &v[..]].concat() };
				ensure!(r.is_ok(), C17, "the stream message could not be sent: {:?}", r.map_err(|e| e.to_string()));
				let m = soon("a stream message", C17, raw.recv_message()).await?;
				let good = matches!(&m, Ok(ReceivedMessage::Stream(m)) if m.header.message_type == MessageType::Stream && m.header.service_id == id && m.body.data == want);
				ensure!(good, C17, "stream message {} with {:?} came as {:?}", id, v, m);
				self.kinds.insert("sent stream");
				continue;
			}
			let k = self.rng.below(5);
			let s = SERVICES[k];
			let want = if s.1 == b'U' { vec![b'U'] } else { [&[s.1], &v[..]].concat() };
			self.log(format!("the client sends request {} with {:?}", s.0, v));
			if refused && s.1 != b'U' {
				let e = match k { 0 => client.plain(&Alpha(v.clone())).await.err(), 2 => client.talk(&Alpha(v.clone())).await.err(), _ => client.ask(&Beta(v.clone())).await.err() };
				ensure!(matches!(&e, Some(e) if is_encode_failed(e)), C17, "a request that can not be encoded gave {:?}", e.map(|e| e.to_string()));
				self.kinds.insert("refused request");
				continue;
			}
			// What the other side answers.
			let rtext = self.text();
			let rid_service = match self.rng.below(4) { 0 => -1, 1 => s.0, _ => self.id(&[s.0, -1]) };
			let rbody = if rid_service == -1 && self.rng.chance(60) { rtext.into_bytes() } else if rid_service == -1 { let b = self.bytes(); if self.rng.chance(50) { b } else { self.body(Some(s.2)) } } else { self.body(Some(s.2)) };
			let want_r: Result<Vec<u8>, Option<String>> = if rid_service == -1 { Err(String::from_utf8(rbody.clone()).ok()) } else if fits(s.2, &rbody) { Ok(rbody[1..].to_vec()) } else { Err(None) };
			self.log(format!("the answer has service ID {} and body {:?}", rid_service, rbody));
			async fn take(raw: &mut PeerHandle<StreamBody>, id: i32, want: &[u8]) -> R<fizyr_rpc::ReceivedRequestHandle<StreamBody>> {
				match soon("a request", C17, raw.recv_message()).await? {
					Ok(ReceivedMessage::Request(h, b)) if h.service_id() == id && b.data == want => Ok(h),
					m => bad(C17, format!("request {} with body {:?} came as {:?}", id, want, m)),
				}
			}
			macro_rules! judge { ($got:expr, $raw:expr) => {{
				let got: Result<Vec<u8>, Error> = $got;
				let good = match (&want_r, &got) {
					(Ok(x), Ok(y)) => x == y,
					(Err(Some(t)), Err(e)) => e.is_remote_error() && e.as_remote_error() == Some(&t[..]),
					(Err(None), Err(e)) => !e.is_remote_error() && e.to_string().starts_with(&decode_prefix()),
					_ => false,
				};
				let tags: &[&str] = if rid_service == -1 { &["C16", "C17"] } else if matches!(&got, Err(e) if e.is_remote_error()) { &["C16", "C17"] } else { C17 };
				ensure!(good, tags, "the answer with service ID {} and body {:?} to a request of service {} gave {:?}", rid_service, rbody, s.0, got.map_err(|e| e.to_string()));
				self.kinds.insert(match &want_r { Ok(_) => "got a response", Err(Some(_)) => "got a remote error", _ => "got an undecodable response" });
			}} }
			macro_rules! call { ($call:expr, $map:expr) => {{
				let (got, there) = both(soon("the answer of a call", &["C16", "C17"], $call), async { let h = take(&mut raw, s.0, &want).await?; let _ = h.send_response(rid_service, rbody.clone()).await; R::Ok(()) }).await;
				there?;
				judge!(got?.map($map), raw)
			}} }
			macro_rules! open { ($call:expr, $e:ident, $map:expr, [$($name:ident $uid:literal $($t:ident)?),*], [$($uv:ident $did:literal $($dt:ident)?),*]) => {{
				let h = match soon("a request", C17, $call).await? { Ok(h) => h, Err(e) => return bad(C17, format!("a request could not be sent: {}", e)) };
				#[allow(unused_mut)] let mut h = h;
				let mut there = take(&mut raw, s.0, &want).await?;
				ensure!(h.service_id() == s.0 && h.request_id() == there.request_id(), C17, "the handle of request {} of service {} has ID {} and service {}", there.request_id(), s.0, h.request_id(), h.service_id());
				let rid = there.request_id();
				for _ in 0..self.rng.below(3) {
					$( if self.rng.chance(40) {
						let uv = self.value();
						let write = self.rng.chance(50);
						let w = h.write_handle();
						self.log(format!("the client sends update {} with {:?}", $uid, uv));
						let r = open!(@send h, w, write, uv, $name $($t)?);
						let tag = s.3.iter().find(|u| u.0 == $uid).unwrap().1;
						if tag != b'U' && uv.first() == Some(&0xEE) { ensure!(matches!(&r, Err(e) if is_encode_failed(e)), C17, "an update that can not be encoded gave {:?}", r.map_err(|e| e.to_string())); }
						else {
							ensure!(r.is_ok(), C17, "update {} with {:?} of an open request could not be sent: {:?}", $uid, uv, r.map_err(|e| e.to_string()));
							let want = if tag == b'U' { vec![b'U'] } else { [&[tag], &uv[..]].concat() };
							let m = soon("a request update", C17, there.recv_update()).await?;
							ensure!(matches!(&m, Some(m) if m.header == MessageHeader::requester_update(rid, $uid) && m.body.data == want), C17, "update {} with {:?} came as {:?}", $uid, uv, m.map(|m| (m.header, m.body.data)));
							self.kinds.insert("sent update");
						}
					} )*
					if !s.4.is_empty() && self.rng.chance(60) {
						let ids: Vec<i32> = s.4.iter().map(|u| u.0).collect();
						let uid = self.id(&ids);
						let utag = s.4.iter().find(|u| u.0 == uid).map(|u| u.1);
						let ub = self.body(utag);
						self.log(format!("plain peer sends update {} with {:?}", uid, ub));
						let _ = there.send_update(uid, ub.clone()).await;
						open!(@recv self, h, $e, s, rid, uid, utag, ub, [$($uv $did $($dt)?),*]);
					}
				}
				let late = h.write_handle();
				let _ = there.send_response(rid_service, rbody.clone()).await;
				let got = soon("the response", &["C16", "C17"], h.recv_response()).await?;
				$( {
					self.log(format!("the client sends update {} after the response", $uid));
					let no = false;
					let uv = vec![1u8];
					let r = open!(@send late, late, no, uv, $name $($t)?);
					ensure!(r.is_err(), &["C09", "C15", "C17"], "update {} sent after the response of the request was received gave Ok", $uid);
					self.kinds.insert("late update");
				} )*
				judge!(got.map($map), raw)
			}};
			(@send $h:ident, $w:ident, $write:ident, $v:ident, $name:ident $t:ident) => { if $write { $w.$name(&$t($v.clone())).await } else { $h.$name(&$t($v.clone())).await } };
			(@send $h:ident, $w:ident, $write:ident, $v:ident, $name:ident) => { if $write { $w.$name().await } else { $h.$name().await } };
			(@recv $self:ident, $h:ident, $e:ident, $s:ident, $rid:ident, $uid:ident, $utag:ident, $ub:ident, []) => {};
			(@recv $self:ident, $h:ident, $e:ident, $s:ident, $rid:ident, $uid:ident, $utag:ident, $ub:ident, [$($uv:ident $did:literal $($dt:ident)?),+]) => {{
				let u = soon("a response update", C17, $h.recv_update()).await?;
				let want = match $utag { None => 0, Some(t) if fits(t, &$ub) => 1, _ => 2 };
				let good = match &u {
					Some(Err(ParseUpdateError::UnknownUpdate(m))) => want == 0 && m.header == MessageHeader::responder_update($rid, $uid) && m.body.data == $ub,
					Some(Err(ParseUpdateError::InvalidUpdate(h, _))) => want == 2 && *h == MessageHeader::responder_update($rid, $uid),
					$( Some(Ok(full::$e::ResponseUpdate::$uv(_x))) => want == 1 && $uid == $did && open!(@same _x $ub $($dt)?), )+
					_ => false,
				};
				ensure!(good, C17, "response update {} with body {:?} gave {:?}", $uid, $ub, u);
				$self.kinds.insert(["unknown response update", "response update", "invalid response update"][want]);
			}};
			(@same $x:ident $b:ident $t:ident) => { $x.0 == $b[1..] };
			(@same $x:ident $b:ident) => { true };
			}
			match k {
				0 => call!(client.plain(&Alpha(v.clone())), |x: Beta| x.0),
				1 => call!(client.nothing(), |_: ()| vec![]),
				2 => open!(client.talk(&Alpha(v.clone())), talk, |x: Beta| x.0, [send_first_update 1 Gamma, send_quit_update 12], [State 1 Beta, TheImage 12 Gamma, Done -12]),
				3 => open!(client.ask(&Beta(v.clone())), ask, |_: ()| vec![], [send_more_update 20 Alpha], []),
				_ => open!(client.watch(), watch, |x: Gamma| x.0, [], [News 20 Alpha]),
			}
		}
		if self.rng.chance(30) {
			self.log("the plain peer goes away".into());
			drop(raw);
			let mut read = read;
			let m = soon("the end", C17, read.recv_message()).await?;
			ensure!(matches!(&m, Err(_)), C17, "after the plain peer went away the client got {:?}", m);
			let k = self.rng.below(4);
			let v = vec![2u8];
			for _ in 0..200 {
				let failed = match k { 0 => client.send_event(&Alpha(v.clone())).await.is_err(), 1 => client.send_tick().await.is_err(), 2 => client.watch().await.is_err(), _ => soon("a call without a peer", &["C09", "C17"], client.plain(&Alpha(v.clone()))).await?.is_err() };
				if failed { self.kinds.insert("peer gone"); return Ok(()) }
				tokio::time::sleep(std::time::Duration::from_millis(5)).await;
			}
			return bad(&["C15", "C17"], format!("{} to a peer that is gone keeps succeeding", ["a stream message", "a stream message", "an open request", "a call"][k]));
		}
		drop(client);
		drop(read);
		let m = soon("the end", C17, raw.recv_message()).await?;
		ensure!(matches!(&m, Err(e) if e.is_connection_aborted()), C17, "at the end the plain peer got {:?}", m);
		Ok(())
	}
}
/// How the text of a decode error starts.
fn decode_prefix() -> String { let t = Error::decode_failed(Box::new(Refused)).to_string(); t[..t.len() - "refused".len()].to_string() }
