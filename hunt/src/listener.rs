//! Search for histories of binding, accepting and connecting that differ from the property on listeners.
//!
//! Every path is inside a scratch directory of the run.
use crate::rng::Rng;
use crate::transport::Bad;
use fizyr_rpc::transport::{Endian, StreamTransport, Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::util::{Bind, Connect, IntoTransport, Listener as ListenerTrait};
use fizyr_rpc::{Listener, Message, MessageHeader, Peer, PeerHandle, ReceivedMessage, StreamBody, StreamConfig, TcpTransport, UnixBody, UnixConfig, UnixSeqpacketTransport, UnixStreamTransport};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::io;
use std::os::unix::fs::{FileTypeExt, MetadataExt};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

type R<T = ()> = Result<T, Bad>;
const C18: &[&str] = &["C18"];
fn bad<T>(what: String) -> R<T> { Err(Bad { tags: C18.to_vec(), what }) }
macro_rules! ensure { ($c:expr, $($f:tt)*) => { if !$c { return bad(format!($($f)*)) } } }
async fn soon<T>(what: &str, f: impl Future<Output = T>) -> R<T> {
	match tokio::time::timeout(Duration::from_secs(5), f).await { Ok(v) => Ok(v), Err(_) => bad(format!("{}: nothing came within 5 s", what)) }
}
extern "C" { fn mkfifo(path: *const std::os::raw::c_char, mode: u32) -> i32; }

struct Dir(PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
impl Dir {
	fn new() -> Dir {
		static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
		let p = std::env::temp_dir().join(format!("fizyr-hunt-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
		std::fs::create_dir_all(&p).expect("no scratch directory");
		Dir(p)
	}
	/// Everything in the directory: inode, kind and contents.
	fn list(&self) -> BTreeMap<PathBuf, (u64, String, Vec<u8>)> {
		let mut all = BTreeMap::new();
		let mut todo = vec![self.0.clone()];
		while let Some(d) = todo.pop() {
			for e in std::fs::read_dir(&d).unwrap() {
				let p = e.unwrap().path();
				let m = std::fs::symlink_metadata(&p).unwrap();
				let contents = if m.file_type().is_symlink() { std::fs::read_link(&p).unwrap().to_string_lossy().as_bytes().to_vec() } else if m.is_file() { std::fs::read(&p).unwrap() } else { vec![] };
				if m.is_dir() { todo.push(p.clone()) }
				all.insert(p, (m.ino(), format!("{:?}", m.file_type()), contents));
			}
		}
		all
	}
}

// ---- a listener, connections and transports of the user
#[derive(Debug, Clone, Copy, PartialEq)]
enum Step { Wait, Fail(io::ErrorKind), Give { info: bool } }
#[derive(Default, Debug)]
struct Record { split: Vec<u32>, dropped: Vec<u32>, written: Vec<(u32, i32)>, configs: Vec<(u32, u32)> }
type Log = Arc<Mutex<Record>>;
struct Script { steps: VecDeque<Step>, next: u32, log: Log }
#[derive(Debug)]
struct Conn { id: u32, info: bool, log: Log }
struct Wire { id: u32, info: bool, log: Log }
struct WireRead;
struct WireWrite { id: u32, log: Log }
impl ListenerTrait for Script {
	type Connection = Conn;
	type Address = ();
	fn poll_accept(self: Pin<&mut Self>, context: &mut Context) -> Poll<io::Result<(Conn, ())>> {
		let this = self.get_mut();
		match this.steps.pop_front() {
			None => Poll::Pending,
			Some(Step::Wait) => { context.waker().wake_by_ref(); Poll::Pending },
			Some(Step::Fail(k)) => Poll::Ready(Err(k.into())),
			Some(Step::Give { info }) => { this.next += 1; Poll::Ready(Ok((Conn { id: this.next, info, log: this.log.clone() }, ()))) },
		}
	}
}
impl IntoTransport for Conn {
	type Body = StreamBody;
	type Config = u32;
	type Transport = Wire;
	fn into_transport(self, config: u32) -> Wire { self.log.lock().unwrap().configs.push((self.id, config)); Wire { id: self.id, info: self.info, log: self.log } }
}
impl Transport for Wire {
	type Body = StreamBody;
	type Info = u32;
	type Config = u32;
	type ReadHalf<'a> = WireRead;
	type WriteHalf<'a> = WireWrite;
	fn split(&mut self) -> (WireRead, WireWrite) { self.log.lock().unwrap().split.push(self.id); (WireRead, WireWrite { id: self.id, log: self.log.clone() }) }
	fn info(&self) -> io::Result<u32> { if self.info { Ok(self.id) } else { Err(io::ErrorKind::PermissionDenied.into()) } }
}
impl Drop for Wire { fn drop(&mut self) { self.log.lock().unwrap().dropped.push(self.id) } }
impl TransportReadHalf for WireRead {
	type Body = StreamBody;
	fn poll_read_msg(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<Message<StreamBody>, TransportError>> { Poll::Pending }
}
impl TransportWriteHalf for WireWrite {
	type Body = StreamBody;
	fn poll_write_msg(self: Pin<&mut Self>, _: &mut Context, header: &MessageHeader, _: &StreamBody) -> Poll<Result<(), TransportError>> {
		self.log.lock().unwrap().written.push((self.id, header.service_id));
		Poll::Ready(Ok(()))
	}
}
/// Where to connect to: the connection to be made.
impl<'a> Connect<'a, (u32, Step, Log)> for Wire {
	type Future = Pin<Box<dyn Future<Output = io::Result<Wire>> + 'a>>;
	fn connect((id, step, log): (u32, Step, Log), config: u32) -> Self::Future {
		Box::pin(async move {
			tokio::task::yield_now().await;
			match step { Step::Give { info } => { log.lock().unwrap().configs.push((id, config)); Ok(Wire { id, info, log }) }, Step::Fail(k) => Err(k.into()), Step::Wait => unreachable!() }
		})
	}
}
impl<'a> Bind<'a, (Vec<Step>, Log)> for Script {
	type Future = std::future::Ready<io::Result<Self>>;
	fn bind((steps, log): (Vec<Step>, Log)) -> Self::Future { std::future::ready(Ok(Script { steps: steps.into(), next: 0, log })) }
}

pub struct Run { pub rng: Rng, pub trace: Vec<String>, pub kinds: BTreeSet<&'static str> }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Via { Unix, Seqpacket, Tcp }
const FAILURES: &[io::ErrorKind] = &[io::ErrorKind::ConnectionAborted, io::ErrorKind::Interrupted, io::ErrorKind::WouldBlock, io::ErrorKind::OutOfMemory, io::ErrorKind::Other, io::ErrorKind::ConnectionReset];
async fn settle() { for _ in 0..12 { tokio::task::yield_now().await } }

impl Run {
	pub fn new(seed: u64) -> Self { Run { rng: Rng::new(seed), trace: vec![], kinds: BTreeSet::new() } }
	fn log(&mut self, s: String) { if self.trace.len() < 60 { self.trace.push(s) } }
	pub fn run(&mut self) -> R {
		let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
		let which = self.rng.below(10);
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(async { match which { 0..=3 => self.bind().await, 4..=5 => self.serve().await, _ => self.scripted().await } })));
		match r { Ok(r) => r, Err(e) => bad(format!("panic: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
	}

	/// Bind to a path at which there is something or nothing.
	async fn bind(&mut self) -> R {
		let dir = Dir::new();
		let via = if self.rng.chance(50) { Via::Unix } else { Via::Seqpacket };
		let bystander = dir.0.join("bystander");
		std::fs::write(&bystander, b"keep").unwrap();
		let mut live: Vec<Box<dyn std::any::Any>> = vec![];
		let path = dir.0.join("socket");
		let target = dir.0.join("target");
		const KINDS: &[&str] = &["nothing", "file", "empty file", "directory", "full directory", "stale socket", "live socket", "datagram socket", "stale seqpacket socket", "live seqpacket socket", "fifo", "link to nothing", "link", "link to link", "missing directory", "inside a file", "too long"];
		let kind = KINDS[self.rng.below(KINDS.len())];
		let mut path_used = path.clone();
		fn make(kind: &str, p: &Path, live: &mut Vec<Box<dyn std::any::Any>>) {
			match kind {
				"file" => std::fs::write(p, b"data").unwrap(),
				"empty file" => std::fs::write(p, b"").unwrap(),
				"directory" => std::fs::create_dir(p).unwrap(),
				"full directory" => { std::fs::create_dir(p).unwrap(); std::fs::write(p.join("inside"), b"x").unwrap() },
				"stale socket" => drop(std::os::unix::net::UnixListener::bind(p).unwrap()),
				"live socket" => live.push(Box::new(std::os::unix::net::UnixListener::bind(p).unwrap())),
				"datagram socket" => live.push(Box::new(std::os::unix::net::UnixDatagram::bind(p).unwrap())),
				"stale seqpacket socket" => drop(tokio_seqpacket::UnixSeqpacketListener::bind(p).unwrap()),
				"live seqpacket socket" => live.push(Box::new(tokio_seqpacket::UnixSeqpacketListener::bind(p).unwrap())),
				"fifo" => { use std::os::unix::ffi::OsStrExt; let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap(); assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0) },
				_ => unreachable!(),
			}
		}
		let mut said = kind.to_string();
		match kind {
			"nothing" => {},
			"link to nothing" => std::os::unix::fs::symlink(&target, &path).unwrap(),
			"link" | "link to link" => {
				let to = KINDS[1 + self.rng.below(10)];
				said = format!("{} to {}", kind, to);
				make(to, &target, &mut live);
				if kind == "link" { std::os::unix::fs::symlink(&target, &path).unwrap() } else {
					std::os::unix::fs::symlink(&target, dir.0.join("between")).unwrap();
					std::os::unix::fs::symlink("between", &path).unwrap();
				}
			},
			"missing directory" => path_used = dir.0.join("missing/socket"),
			"inside a file" => path_used = bystander.join("socket"),
			"too long" => path_used = dir.0.join("x".repeat(120)),
			k => make(k, &path, &mut live),
		}
		let free = kind == "nothing" || kind.ends_with("socket");
		let before = dir.list();
		self.log(format!("bind a {:?} listener where there is: {}", via, said));
		let how = self.rng.below(4);
		macro_rules! go { ($socket:ty, $config:expr) => { match how {
			0 => Listener::<$socket>::bind(&path_used, $config).await.map(|l| Box::new(l) as Box<dyn std::any::Any>),
			1 => Listener::<$socket>::bind(path_used.clone(), $config).await.map(|l| Box::new(l) as Box<dyn std::any::Any>),
			2 => Listener::<$socket>::bind(path_used.to_str().unwrap().to_string(), $config).await.map(|l| Box::new(l) as Box<dyn std::any::Any>),
			_ => <$socket as Bind<'_, &Path>>::bind(&path_used).await.map(|l| Box::new(l) as Box<dyn std::any::Any>),
		} } }
		let r = match via { Via::Unix => go!(tokio::net::UnixListener, StreamConfig::default()), _ => go!(tokio_seqpacket::UnixSeqpacketListener, UnixConfig::default()) };
		let after = dir.list();
		ensure!(r.is_ok() == free, "binding where there is: {} gave {:?}", said, r.as_ref().map(drop).map_err(|e| e.to_string()));
		let rest = |m: &BTreeMap<PathBuf, (u64, String, Vec<u8>)>| m.iter().filter(|(p, _)| !free || **p != path_used).map(|(p, v)| (p.clone(), v.clone())).collect::<BTreeMap<_, _>>();
		ensure!(rest(&before) == rest(&after), "binding where there is: {} changed {:?} to {:?}", said, rest(&before), rest(&after));
		if free {
			ensure!(std::fs::symlink_metadata(&path_used).map_or(false, |m| m.file_type().is_socket()), "no socket was left at the path that was bound");
			// It is the new socket.
			let c = match via { Via::Unix => tokio::net::UnixStream::connect(&path_used).await.map(drop), _ => tokio_seqpacket::UnixSeqpacket::connect(&path_used).await.map(drop) };
			ensure!(c.is_ok(), "nobody listens at the path that was bound: {:?}", c);
		}
		self.kinds.insert(match kind { "nothing" => "bound a new path", k if k.ends_with("socket") => "replaced a socket", "link" | "link to link" | "link to nothing" => "refused a link", "file" | "empty file" => "refused a file", "directory" | "full directory" => "refused a directory", "fifo" => "refused a fifo", _ => "refused an impossible path" });
		drop((r, live));
		Ok(())
	}

	fn limit(&mut self) -> u32 { [0, 1, 7, 64, 300, 5000, 9000, 20000][self.rng.below(8)] }
	fn endian(&mut self) -> Endian { [Endian::LittleEndian, Endian::BigEndian, Endian::NativeEndian][self.rng.below(3)] }

	/// Real listeners and clients.
	async fn serve(&mut self) -> R {
		let via = [Via::Unix, Via::Seqpacket, Via::Unix, Via::Seqpacket, Via::Tcp][self.rng.below(5)];
		let dir = Dir::new();
		let path = dir.0.join("socket");
		let endian = self.endian();
		let (lr, lw, cr, cw) = (self.limit(), self.limit(), self.limit(), self.limit());
		let fds = self.rng.below(4) as u32;
		self.log(format!("{:?} listener with limits {} and {}, {:?}, {} file descriptors; client with limits {} and {}", via, lr, lw, endian, fds, cr, cw));
		let n = 1 + self.rng.below(3);
		let sc = |r, w| { let mut c = StreamConfig::default(); c.max_body_len_read = r; c.max_body_len_write = w; c.endian = endian; c };
		let uc = |r, w, f| { let mut c = UnixConfig::default(); c.max_body_len_read = r; c.max_body_len_write = w; c.max_fds_read = f; c.max_fds_write = f; c.endian = endian; c };
		let wide = 1 << 20;
		let (pid, uid, gid) = (std::process::id() as i32, std::fs::metadata(&dir.0).unwrap().uid(), std::fs::metadata(&dir.0).unwrap().gid());
		macro_rules! pairs { ($transport:ty, $socket:ty, $l:ident, $config:expr, $client:expr, $wide:expr, $addr:expr, $info:expr) => {{
			let mut clients = vec![];
			let mut first = self.rng.below(1 << 16) as i32;
			for _ in 0..n {
				// The client is a peer, or a transport without limits.
				let peer = self.rng.chance(50);
				first += 1;
				let c: PeerHandle<_>;
				let ci;
				if peer { let (h, i) = match soon("a connection", Peer::<$transport>::connect($addr, $client)).await? { Ok(x) => x, Err(e) => return bad(format!("could not connect: {}", e)) }; c = h; ci = i }
				else { let (h, i) = match soon("a connection", Peer::<$transport>::connect($addr, $wide)).await? { Ok(x) => x, Err(e) => return bad(format!("could not connect: {}", e)) }; c = h; ci = i }
				clients.push((c, ci, peer, first));
			}
			let mut servers = vec![];
			for _ in 0..n { match soon("an accepted connection", $l.accept()).await? { Ok(x) => servers.push(x), Err(e) => return bad(format!("accepting failed: {}", e)) } }
			for ((c, ci, peer, id), (mut s, si)) in clients.into_iter().zip(servers) {
				$info(&ci, &si)?;
				// The handle is for this connection.
				let _ = c.send_stream(id, Vec::<u8>::new()).await;
				let m = soon("a message of the client", s.recv_message()).await?;
				ensure!(matches!(&m, Ok(ReceivedMessage::Stream(m)) if m.header.service_id == id), "the peer for the connection that was accepted got {:?} instead of stream message {}", m.map(|_| "something else").map_err(|e| e.to_string()), id);
				// The limits of the listener apply to what the peer reads and writes, and those of the client to what that writes.
				let (cl, len) = (if peer { cw } else { wide }, [lr, lr + 1, lr / 2, cw, cw + 1][self.rng.below(5)]);
				self.log(format!("the client (limited: {}) sends {} bytes", peer, len));
				let sent = c.send_stream(id, vec![7u8; len as usize]).await;
				ensure!(sent.is_ok() == (len <= cl), "the client with limit {} sending {} bytes gave {:?}", cl, len, sent.map_err(|e| e.to_string()));
				let mut broken = false;
				if len <= cl {
					let m = soon("a message of the client", s.recv_message()).await?;
					let good = match &m { Ok(ReceivedMessage::Stream(m)) => len <= lr && StreamlikeBody::size(&m.body) == len as usize, Ok(_) => false, Err(_) => len > lr };
					broken = m.is_err();
					ensure!(good, "a peer of a listener with read limit {} got {:?} for a message of {} bytes", lr, m.map(|_| "another message").map_err(|e| e.to_string()), len);
					self.kinds.insert(if len > lr { "read limit of the listener" } else { "read within the limit" });
				}
				if !broken {
					let len = [lw, lw + 1, lw / 2, cr, cr + 1][self.rng.below(5)];
					self.log(format!("the accepted peer sends {} bytes", len));
					let sent = s.send_stream(id, vec![7u8; len as usize]).await;
					ensure!(sent.is_ok() == (len <= lw), "an accepted peer with write limit {} sending {} bytes gave {:?}", lw, len, sent.map_err(|e| e.to_string()));
					self.kinds.insert(if len > lw { "write limit of the listener" } else { "wrote within the limit" });
					if len <= lw {
						let mut c = c;
						let m = soon("a message of the accepted peer", c.recv_message()).await?;
						let limit = if peer { cr } else { wide };
						let good = match &m { Ok(ReceivedMessage::Stream(m)) => len <= limit && m.header.service_id == id && StreamlikeBody::size(&m.body) == len as usize, Ok(_) => false, Err(_) => len > limit };
						ensure!(good, "a client with read limit {} got {:?} for a message of {} bytes", limit, m.map(|_| "another message").map_err(|e| e.to_string()), len);
						self.kinds.insert(if len > limit { "read limit of the client" } else { "read by the client" });
					}
				}
			}
		}} }
		match via {
			Via::Unix => {
				let mut l = match Listener::<tokio::net::UnixListener>::bind(&path, sc(lr, lw)).await { Ok(l) => l, Err(e) => return bad(format!("could not bind: {}", e)) };
				let info = |ci: &fizyr_rpc::transport::UnixStreamInfo, si: &fizyr_rpc::transport::UnixStreamInfo| -> R {
					for i in [ci, si] { ensure!(i.user_id() == uid && i.group_id() == gid && i.process_id() == Some(pid), "the information of a connection is {:?}", i) }
					Ok(())
				};
				pairs!(UnixStreamTransport, tokio::net::UnixListener, l, sc(lr, lw), sc(cr, cw), sc(wide, wide), &path, info);
			},
			Via::Seqpacket => {
				let mut l = match Listener::<tokio_seqpacket::UnixSeqpacketListener>::bind(&path, uc(lr, lw, fds)).await { Ok(l) => l, Err(e) => return bad(format!("could not bind: {}", e)) };
				let info = |ci: &fizyr_rpc::transport::UnixSeqpacketInfo, si: &fizyr_rpc::transport::UnixSeqpacketInfo| -> R {
					for i in [ci, si] { ensure!(i.user_id() == uid && i.group_id() == gid && i.process_id() == Some(pid), "the information of a connection is {:?}", i) }
					Ok(())
				};
				pairs!(UnixSeqpacketTransport, tokio_seqpacket::UnixSeqpacketListener, l, uc(lr, lw, fds), uc(cr, cw, fds), uc(wide, wide, 10), &path, info);
			},
			Via::Tcp => {
				let Ok(socket) = tokio::net::TcpListener::bind("127.0.0.1:0").await else { return Ok(()) };
				let addr = socket.local_addr().unwrap();
				let mut l = Listener::new(socket, sc(lr, lw));
				let info = |ci: &fizyr_rpc::transport::TcpStreamInfo, si: &fizyr_rpc::transport::TcpStreamInfo| -> R {
					ensure!(*ci.remote_address() == addr && *si.local_address() == addr && ci.local_address() == si.remote_address(), "the two ends of a connection to {} say {:?} and {:?}", addr, ci, si);
					Ok(())
				};
				pairs!(TcpTransport, tokio::net::TcpListener, l, sc(lr, lw), sc(cr, cw), sc(wide, wide), addr, info);
			},
		}
		Ok(())
	}

	/// A listener and connections of the user: every result in every order.
	async fn scripted(&mut self) -> R {
		let log: Log = Default::default();
		let steps: Vec<Step> = (0..1 + self.rng.below(9)).map(|_| match self.rng.below(8) { 0 | 1 => Step::Wait, 2 => Step::Fail(FAILURES[self.rng.below(FAILURES.len())]), 3 => Step::Give { info: false }, _ => Step::Give { info: true } }).collect();
		let config = self.rng.u32();
		self.log(format!("a listener that gives {:?}", steps));
		let mut script = Script { steps: steps.clone().into(), next: 0, log: log.clone() };
		let mode = self.rng.below(6);
		let run = self.rng.chance(40);
		match mode {
			0 => { let mut l = Listener::new(&mut script, config); self.scripted_with(&mut l, &steps, config, &log, run).await?; },
			1 => { let mut l = Listener::new(Box::new(script), config); self.scripted_with(&mut l, &steps, config, &log, run).await?; },
			2 => { let mut l = Listener::new(Box::pin(script), config); self.scripted_with(&mut l, &steps, config, &log, run).await?; },
			3 => { let mut l = Listener::<Script>::bind((steps.clone(), log.clone()), config).await.unwrap(); self.scripted_with(&mut l, &steps, config, &log, run).await?; },
			4 => { let mut l = Listener::new(script, config); self.scripted_with(&mut l, &steps, config, &log, run).await?; },
			_ => self.connections(&steps, config, &log).await?,
		}
		Ok(())
	}

	/// Check the peers: exactly one runs for each of these connections, and none for the others.
	async fn peers(&mut self, mut handles: Vec<(u32, PeerHandle<StreamBody>)>, all: u32, config: u32, log: &Log) -> R {
		settle().await;
		let mut expect: Vec<u32> = handles.iter().map(|h| h.0).collect();
		for i in (1..handles.len()).rev() { let j = self.rng.below(i + 1); handles.swap(i, j) }
		{
			let g = log.lock().unwrap();
			let mut split = g.split.clone(); split.sort();
			expect.sort();
			ensure!(split == expect, "peers run for connections {:?}, expected {:?}", split, expect);
			for (id, c) in &g.configs { ensure!(*c == config, "connection {} got other settings", id) }
			let mut made: Vec<u32> = g.configs.iter().map(|c| c.0).collect(); made.sort();
			ensure!(made == (1..=all).collect::<Vec<_>>(), "transports were made for {:?} of {} connections", made, all);
			let mut dropped = g.dropped.clone(); dropped.sort();
			ensure!(dropped == (1..=all).filter(|i| !expect.contains(i)).collect::<Vec<_>>(), "of connections 1..={} (with peers: {:?}), {:?} were closed", all, expect, dropped);
		}
		for (k, (id, h)) in handles.into_iter().enumerate() {
			let sid = 100 + k as i32;
			let r = soon("sending", h.send_stream(sid, vec![])).await?;
			ensure!(r.is_ok() && log.lock().unwrap().written.last() == Some(&(id, sid)), "stream message {} for connection {} gave {:?} and was written as {:?}", sid, id, r.map_err(|e| e.to_string()), log.lock().unwrap().written.last());
			drop(h);
			settle().await;
			ensure!(log.lock().unwrap().dropped.contains(&id), "connection {} was not closed with its peer", id);
			self.kinds.insert("peer for its connection");
		}
		Ok(())
	}

	async fn scripted_with<S>(&mut self, l: &mut Listener<S>, steps: &[Step], config: u32, log: &Log, run: bool) -> R
	where S: fizyr_rpc::ListeningSocket<Body = StreamBody, Config = u32, TransportInfo = u32> {
		let mut handles = vec![];
		let mut next = 0;
		let mut at = 0;
		while at < steps.len() {
			let rest = &steps[at..];
			// Up to and including the first failure, or everything.
			let end = rest.iter().position(|s| matches!(s, Step::Fail(_) | Step::Give { info: false })).map(|i| i + 1);
			if run {
				let got = Arc::new(Mutex::new(vec![]));
				let g2 = got.clone();
				let forever = self.rng.chance(50);
				let asap = async { l.run(|h, i| { g2.lock().unwrap().push((i, h)); async move { if forever { std::future::pending::<()>().await } } }).await };
				let r = if end.is_some() { Some(soon("the end of run", asap).await?) } else {
					let mut asap = Box::pin(asap);
					let r = { let mut out = None; for _ in 0..40 { match std::future::poll_fn(|cx| std::task::Poll::Ready(asap.as_mut().poll(cx))).await { std::task::Poll::Ready(r) => { out = Some(r); break }, _ => tokio::task::yield_now().await } } out };
					r
				};
				let part = &rest[..end.unwrap_or(rest.len())];
				let mut want = vec![];
				for s in part { if let Step::Give { info } = s { next += 1; if *info { want.push(next) } } }
				let got: Vec<_> = std::mem::take(&mut *got.lock().unwrap());
				ensure!(got.iter().map(|g| g.0).collect::<Vec<_>>() == want, "run passed on connections {:?}, expected {:?}", got.iter().map(|g| g.0).collect::<Vec<_>>(), want);
				match (&r, part.last()) {
					(Some(Err(e)), Some(Step::Fail(k))) => ensure!(e.kind() == *k, "run ended with {:?} after {:?}", e, k),
					(Some(Err(e)), Some(Step::Give { info: false })) => ensure!(e.kind() == io::ErrorKind::PermissionDenied, "run ended with {:?} when the information could not be read", e),
					(None, _) if end.is_none() => {},
					_ => return bad(format!("run gave {:?} for {:?}", r, part)),
				}
				handles.extend(got);
				at += part.len();
				self.kinds.insert(if end.is_some() { "run ended with the error" } else { "run served all" });
			} else {
				let step = rest.iter().position(|s| *s != Step::Wait);
				let Some(i) = step else { break };
				let r = soon("accept", l.accept()).await?;
				match (rest[i], r) {
					(Step::Fail(k), Err(e)) => { ensure!(e.kind() == k, "accept gave {:?} instead of {:?}", e, k); self.kinds.insert("failed accept"); },
					(Step::Give { info: false }, Err(e)) => { next += 1; ensure!(e.kind() == io::ErrorKind::PermissionDenied, "accept gave {:?} when the information could not be read", e); self.kinds.insert("failed information"); },
					(Step::Give { info: true }, Ok((h, info))) => { next += 1; ensure!(info == next, "connection {} came with the information of {}", next, info); handles.push((next, h)); self.kinds.insert("accepted"); },
					(s, r) => return bad(format!("accept gave {:?} for {:?}", r.map(|x| x.1), s)),
				}
				at += i + 1;
			}
		}
		self.peers(handles, next, config, log).await
	}

	async fn connections(&mut self, steps: &[Step], config: u32, log: &Log) -> R {
		let mut handles = vec![];
		let mut made = 0;
		for s in steps {
			if *s == Step::Wait { continue }
			if matches!(s, Step::Give { .. }) { made += 1 }
			let r = soon("connect", Peer::<Wire>::connect((made, *s, log.clone()), config)).await?;
			match (s, r) {
				(Step::Fail(k), Err(e)) => ensure!(e.kind() == *k, "connect gave {:?} instead of {:?}", e, k),
				(Step::Give { info: false }, Err(e)) => ensure!(e.kind() == io::ErrorKind::PermissionDenied, "connect gave {:?} when the information could not be read", e),
				(Step::Give { info: true }, Ok((h, info))) => { ensure!(info == made, "connection {} came with the information of {}", made, info); handles.push((made, h)) },
				(s, r) => return bad(format!("connect gave {:?} for {:?}", r.map(|x| x.1), s)),
			}
			self.kinds.insert("connected");
		}
		self.peers(handles, made, config, log).await
	}
}

trait StreamlikeBody: Sized { fn size(&self) -> usize; }
impl StreamlikeBody for StreamBody { fn size(&self) -> usize { self.data.len() } }
impl StreamlikeBody for UnixBody { fn size(&self) -> usize { self.data.len() } }
#[allow(dead_code)]
fn unused(_: StreamTransport<tokio::net::UnixStream>) {}
