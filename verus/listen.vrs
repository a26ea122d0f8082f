// ---------------------------------------------------------------- trusted prelude: the file system, listening sockets, connections and tasks
/// What identifies a value of any type.
pub uninterp spec fn key<T>(x: T) -> int;

/// What exists at a path.
pub enum Node { Socket, LinkToSocket, Other }
/// What a listening socket gave.
pub enum Outcome { Connection(int), Failed(IoError) }
/// A running task: a peer (its identity and its transport), or a future of the user (the peer and the information it was given).
pub enum Task { Peer(int, int), User(int, int) }

/// What the code under contract can observe of, and does to, its surroundings. Other processes are assumed not to touch the path meanwhile.
pub tracked struct World<B> {
	pub ghost fs: Map<int, Node>,
	/// The paths that the operating system refused to look at or to remove so far.
	pub ghost refusals: Seq<int>,
	/// Everything that listening sockets gave so far.
	pub ghost outcomes: Seq<Outcome>,
	/// Every connection made: the address and the connection.
	pub ghost connections: Seq<(int, int)>,
	/// Every task that was started.
	pub ghost tasks: Seq<Task>,
	pub ghost unused: Option<B>,
}
pub open spec fn only_fs<B>(a: World<B>, b: World<B>) -> bool { b == World { fs: b.fs, refusals: b.refusals, ..a } }
pub open spec fn refused<B>(a: World<B>, b: World<B>, path: int) -> bool { b == World { refusals: a.refusals.push(path), ..a } }

#[verifier::external_body]
pub struct Path { x: () }
/// `AsRef<Path>`; assumed to give the same path every time.
pub trait AsPath: Sized {
	spec fn path(&self) -> int;
	fn as_ref(&self) -> (r: &Path) ensures r.path() == self.path();
}
impl Path {
	pub uninterp spec fn path(&self) -> int;
	#[verifier::external_body]
	pub fn metadata(&self, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Metadata, IoError>) ensures r is Ok ==> *final(w) == *old(w) && r->Ok_0.of(*old(w), self.path(), true), r is Err ==> refused(*old(w), *final(w), self.path()) { unimplemented!() }
	#[verifier::external_body]
	pub fn symlink_metadata(&self, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Metadata, IoError>) ensures r is Ok ==> *final(w) == *old(w) && r->Ok_0.of(*old(w), self.path(), false), r is Err ==> refused(*old(w), *final(w), self.path()) { unimplemented!() }
}
impl<'a> AsPath for &'a Path {
	open spec fn path(&self) -> int { (*self).path() }
	fn as_ref(&self) -> (r: &Path) { *self }
}
impl<'a, P: AsPath> AsPath for &'a P {
	open spec fn path(&self) -> int { (*self).path() }
	fn as_ref(&self) -> (r: &Path) { (*self).as_ref() }
}
pub struct Metadata { pub socket: bool, pub kind: u8 }
pub struct FileType { pub socket: bool, pub kind: u8 }
impl Metadata {
	pub open spec fn of(self, w: World<()>, path: int, follow: bool) -> bool {
		w.fs.dom().contains(path) && self.socket == (w.fs[path] == Node::Socket || follow && w.fs[path] == Node::LinkToSocket)
	}
	pub fn file_type(&self) -> (r: FileType) ensures r.socket == self.socket { FileType { socket: self.socket, kind: self.kind } }
	pub fn is_dir(&self) -> (r: bool) ensures r ==> !self.socket { !self.socket && self.kind == 0 }
	pub fn is_file(&self) -> (r: bool) ensures r ==> !self.socket { !self.socket && self.kind == 1 }
	pub fn is_symlink(&self) -> (r: bool) ensures r ==> !self.socket { !self.socket && self.kind == 2 }
}
impl FileType {
	pub fn is_socket(&self) -> (r: bool) ensures r == self.socket { self.socket }
	pub fn is_dir(&self) -> (r: bool) ensures r ==> !self.socket { !self.socket && self.kind == 0 }
	pub fn is_file(&self) -> (r: bool) ensures r ==> !self.socket { !self.socket && self.kind == 1 }
	pub fn is_symlink(&self) -> (r: bool) ensures r ==> !self.socket { !self.socket && self.kind == 2 }
	pub fn is_fifo(&self) -> (r: bool) ensures r ==> !self.socket { !self.socket && self.kind == 3 }
}
#[verifier::external_body]
pub fn fs_metadata<P: AsPath>(path: P, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Metadata, IoError>)
	ensures r is Ok ==> *final(w) == *old(w) && r->Ok_0.of(*old(w), path.path(), true), r is Err ==> refused(*old(w), *final(w), path.path())
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_symlink_metadata<P: AsPath>(path: P, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Metadata, IoError>)
	ensures r is Ok ==> *final(w) == *old(w) && r->Ok_0.of(*old(w), path.path(), false), r is Err ==> refused(*old(w), *final(w), path.path())
{ unimplemented!() }
#[verifier::external_body]
pub fn fs_remove_file<P: AsPath>(path: P, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<(), IoError>)
	ensures
		r is Ok ==> *final(w) == (World { fs: old(w).fs.remove(path.path()), ..*old(w) }),
		r is Err ==> refused(*old(w), *final(w), path.path()),
{ unimplemented!() }

/// The effect of asking the operating system to bind a socket at a path.
pub open spec fn os_bound<L>(a: World<()>, b: World<()>, path: int, r: Result<L, IoError>) -> bool {
	&&& only_fs(a, b) && b.refusals == a.refusals
	&&& match r {
		Ok(_) => !a.fs.dom().contains(path) && b.fs == a.fs.insert(path, Node::Socket),
		Err(_) => b.fs == a.fs,
	}
}
/// What the result of binding a listener to a path may be.
pub open spec fn bound<L>(a: World<()>, b: World<()>, path: int, r: Result<L, IoError>) -> bool {
	let free = !a.fs.dom().contains(path) || a.fs[path] == Node::Socket;
	&&& only_fs(a, b)
	&&& match r {
		Ok(_) => free && b.fs =~= a.fs.insert(path, Node::Socket),
		Err(_) => if a.fs.dom().contains(path) && a.fs[path] == Node::Socket {
			// The old socket is out of the way, unless the operating system refused that.
			b.fs == a.fs.remove(path) || b.fs == a.fs && b.refusals.len() > a.refusals.len()
		} else {
			b.fs == a.fs
		},
	}
}

impl Convert<IoError> for IoError {
	open spec fn spec_convert(self) -> IoError { self }
	fn convert(self) -> (r: IoError) { self }
}
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body]
pub struct Context<'a> { x: &'a () }
#[verifier::external_body]
pub fn any_context<'a>() -> (r: Context<'a>) { unimplemented!() }

/// What a poll of a listening socket does, whatever it is polled through.
pub open spec fn poll_gave<C, A>(a: World<()>, b: World<()>, r: Poll<Result<(C, A), IoError>>) -> bool {
	match r {
		Poll::Pending => b == a,
		Poll::Ready(x) => accept_gave(a, b, x),
	}
}
pub open spec fn accept_gave<C, A>(a: World<()>, b: World<()>, r: Result<(C, A), IoError>) -> bool {
	b == World { outcomes: a.outcomes.push(match r { Ok(c) => Outcome::Connection(key(c.0)), Err(e) => Outcome::Failed(e) }), ..a }
}
//@impl util/accept.rs Listener of trait = pub trait AcceptTrait: Sized
//@skip poll_accept
//@members
	type Connection;
	type Address;
	fn poll_accept(&mut self, context: &mut Context, Tracked(w): Tracked<&mut World<()>>) -> (r: Poll<Result<(Self::Connection, Self::Address), IoError>>)
		ensures poll_gave(*old(w), *final(w), r);
//@fn accept() -> r ghost [C18] generics none
	ensures *final(w) == *old(w), *r.inner == *old(self), *final(self) == *final(r.inner)
//@endimpl
/// `util::Bind`
pub trait Bind<Address>: AcceptTrait {
	spec fn may_bind(a: World<()>, b: World<()>, address: Address, r: Result<Self, IoError>) -> bool;
	fn bind(address: Address, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Self, IoError>)
		ensures
			final(w).tasks == old(w).tasks && final(w).outcomes == old(w).outcomes && final(w).connections == old(w).connections,
			Self::may_bind(*old(w), *final(w), address, r);
}
pub trait BodyTrait { }
pub trait PlainClone: Sized {
	fn clone(&self) -> (r: Self) ensures r == *self;
}
pub trait Transport: Sized {
	type Body;
	type Info;
	type Config;
	/// The connection the transport uses, and its settings.
	spec fn connection(&self) -> int;
	spec fn settings(&self) -> Self::Config;
	/// Is this the information of the connection?
	spec fn describes(info: Self::Info, connection: int) -> bool;
	fn info(&self) -> (r: Result<Self::Info, IoError>) ensures r is Ok ==> Self::describes(r->Ok_0, self.connection());
}
pub trait IntoTransport: Sized {
	type Body;
	type Config: PlainClone;
	type Transport: Transport<Body = Self::Body>;
	/// The transport for this connection with these settings.
	spec fn made(self, config: Self::Config, t: Self::Transport) -> bool;
	fn into_transport(self, config: Self::Config) -> (r: Self::Transport) ensures self.made(config, r);
}
/// `util::Connect`
pub trait Connect<Address>: Transport {
	fn connect(address: Address, config: Self::Config, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Self, IoError>)
		ensures connected(*old(w), *final(w), address, config, r);
}
/// A new connection to the address was made, and the transport uses it with these settings; or none was made.
pub open spec fn connected<T: Transport, Address>(a: World<()>, b: World<()>, address: Address, config: T::Config, r: Result<T, IoError>) -> bool {
	match r {
		Ok(t) => b == World { connections: a.connections.push((key(address), t.connection())), ..a } && t.settings() == config,
		Err(_) => b == a,
	}
}

// ---------------------------------------------------------------- trusted: the sockets of tokio and tokio_seqpacket
pub uninterp spec fn cred_uid(connection: int) -> u32;
pub uninterp spec fn cred_gid(connection: int) -> u32;
pub uninterp spec fn cred_pid(connection: int) -> Option<i32>;
pub uninterp spec fn local_address(connection: int) -> SocketAddr;
pub uninterp spec fn remote_address(connection: int) -> SocketAddr;
#[verifier::external_body]
pub struct SocketAddr { x: () }
pub struct UCred { pub of: Ghost<int> }
impl UCred {
	#[verifier::external_body]
	pub fn uid(&self) -> (r: u32) ensures r == cred_uid(self.of@) { unimplemented!() }
	#[verifier::external_body]
	pub fn gid(&self) -> (r: u32) ensures r == cred_gid(self.of@) { unimplemented!() }
	#[verifier::external_body]
	pub fn pid(&self) -> (r: Option<i32>) ensures r == cred_pid(self.of@) { unimplemented!() }
}
#[verifier::external_body]
pub struct UnixListener { x: () }
impl UnixListener {
	#[verifier::external_body]
	pub fn poll_accept(&mut self, context: &mut Context, Tracked(w): Tracked<&mut World<()>>) -> (r: Poll<Result<(UnixStream, SocketAddr), IoError>>)
		ensures poll_gave(*old(w), *final(w), r)
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn bind<P: AsPath>(path: P, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Self, IoError>) ensures os_bound(*old(w), *final(w), path.path(), r) { unimplemented!() }
}
#[verifier::external_body]
pub struct UnixSeqpacketListener { x: () }
impl UnixSeqpacketListener {
	#[verifier::external_body]
	pub fn poll_accept(&mut self, context: &mut Context, Tracked(w): Tracked<&mut World<()>>) -> (r: Poll<Result<UnixSeqpacket, IoError>>)
		ensures match r {
			Poll::Pending => *final(w) == *old(w),
			Poll::Ready(Ok(c)) => *final(w) == (World { outcomes: old(w).outcomes.push(Outcome::Connection(key(c))), ..*old(w) }),
			Poll::Ready(Err(e)) => *final(w) == (World { outcomes: old(w).outcomes.push(Outcome::Failed(e)), ..*old(w) }),
		}
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn bind<P: AsPath>(path: P, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Self, IoError>) ensures os_bound(*old(w), *final(w), path.path(), r) { unimplemented!() }
}
#[verifier::external_body]
pub struct TcpListener { x: () }
impl TcpListener {
	#[verifier::external_body]
	pub fn poll_accept(&mut self, context: &mut Context, Tracked(w): Tracked<&mut World<()>>) -> (r: Poll<Result<(TcpStream, SocketAddr), IoError>>)
		ensures poll_gave(*old(w), *final(w), r)
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn bind<A>(address: A, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Self, IoError>) ensures *final(w) == *old(w) { unimplemented!() }
}
#[verifier::external_body]
pub struct UnixStream { x: () }
impl UnixStream {
	#[verifier::external_body]
	pub fn connect<P: AsPath>(address: P, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Self, IoError>)
		ensures match r { Ok(c) => *final(w) == (World { connections: old(w).connections.push((key(address), key(c))), ..*old(w) }), Err(_) => *final(w) == *old(w) }
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn peer_cred(&self) -> (r: Result<UCred, IoError>) ensures r is Ok ==> r->Ok_0.of@ == key(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct UnixSeqpacket { x: () }
impl UnixSeqpacket {
	#[verifier::external_body]
	pub fn connect<P: AsPath>(address: P, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Self, IoError>)
		ensures match r { Ok(c) => *final(w) == (World { connections: old(w).connections.push((key(address), key(c))), ..*old(w) }), Err(_) => *final(w) == *old(w) }
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn peer_cred(&self) -> (r: Result<UCred, IoError>) ensures r is Ok ==> r->Ok_0.of@ == key(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct TcpStream { x: () }
impl TcpStream {
	#[verifier::external_body]
	pub fn connect<P>(address: P, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<Self, IoError>)
		ensures match r { Ok(c) => *final(w) == (World { connections: old(w).connections.push((key(address), key(c))), ..*old(w) }), Err(_) => *final(w) == *old(w) }
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn local_addr(&self) -> (r: Result<SocketAddr, IoError>) ensures r is Ok ==> r->Ok_0 == local_address(key(*self)) { unimplemented!() }
	#[verifier::external_body]
	pub fn peer_addr(&self) -> (r: Result<SocketAddr, IoError>) ensures r is Ok ==> r->Ok_0 == remote_address(key(*self)) { unimplemented!() }
}
pub mod net { pub use super::{UnixListener, TcpListener, UnixStream, TcpStream}; }
pub mod tokio_seqpacket { pub use super::{UnixSeqpacket, UnixSeqpacketListener}; }

// ---------------------------------------------------------------- src/transport/{stream,unix}: transports
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Endian { LittleEndian, BigEndian, NativeEndian }
//@type transport/stream/config.rs StreamConfig
//@type transport/stream/transport.rs StreamTransport
//@type transport/stream/body.rs StreamBody
//@type transport/unix/config.rs UnixConfig
//@type transport/unix/transport.rs UnixTransport
#[verifier::external_body]
pub struct UnixBody { x: () }
//@type transport/stream/mod.rs UnixStreamInfo
//@type transport/stream/mod.rs TcpStreamInfo
//@type transport/unix/mod.rs UnixSeqpacketInfo
impl StreamConfig {
	#[verifier::external_body]
	pub fn default() -> (r: Self) { unimplemented!() }
}
impl UnixConfig {
	#[verifier::external_body]
	pub fn default() -> (r: Self) { unimplemented!() }
}
//@impl transport/stream/mod.rs UnixStreamInfo inherent = impl UnixStreamInfo
//@fn user_id() -> r [C18]
	ensures r == self.user_id
//@fn group_id() -> r [C18]
	ensures r == self.group_id
//@fn process_id() -> r [C18]
	ensures r == self.process_id
//@endimpl
//@impl transport/stream/mod.rs TcpStreamInfo inherent = impl TcpStreamInfo
//@fn local_address() -> r [C18]
	ensures *r == self.local_address
//@fn remote_address() -> r [C18]
	ensures *r == self.remote_address
//@endimpl
//@impl transport/unix/mod.rs UnixSeqpacketInfo inherent = impl UnixSeqpacketInfo
//@fn user_id() -> r [C18]
	ensures r == self.user_id
//@fn group_id() -> r [C18]
	ensures r == self.group_id
//@fn process_id() -> r [C18]
	ensures r == self.process_id
//@endimpl
// Derived implementations of Clone are trusted.
impl PlainClone for StreamConfig {
	#[verifier::external_body]
	fn clone(&self) -> (r: Self) { unimplemented!() }
}
impl PlainClone for UnixConfig {
	#[verifier::external_body]
	fn clone(&self) -> (r: Self) { unimplemented!() }
}
//@impl transport/stream/transport.rs StreamTransport inherent = impl<Stream> StreamTransport<Stream>
//@skip socket socket_mut into_socket stream stream_mut into_stream new_default
//@fn new(stream, config) -> r [C18]
	ensures r.stream == stream && r.config == config
//@endimpl
//@impl transport/stream/mod.rs StreamTransport of Transport for=UnixStream = impl Transport for StreamTransport<UnixStream>
//@skip split ReadHalf WriteHalf
//@members
	open spec fn connection(&self) -> int { key(self.stream) }
	open spec fn settings(&self) -> StreamConfig { self.config }
	open spec fn describes(info: UnixStreamInfo, connection: int) -> bool { info.user_id == cred_uid(connection) && info.group_id == cred_gid(connection) && info.process_id == cred_pid(connection) }
//@fn info() -> r [C18]
//@endimpl
//@impl transport/stream/mod.rs UnixStream of IntoTransport = impl IntoTransport for UnixStream
//@members
	open spec fn made(self, config: StreamConfig, t: StreamTransport<UnixStream>) -> bool { t.connection() == key(self) && t.settings() == config }
//@fn into_transport(config) -> r [C18]
//@endimpl
//@impl transport/stream/mod.rs StreamTransport of Connect for=UnixStream = impl<Address: AsPath> Connect<Address> for StreamTransport<UnixStream>
//@skip Future
//@fn connect(address, config) -> r ghost [C18]
//@endimpl
//@impl transport/stream/mod.rs UnixListener of Bind = impl<Address: AsPath> Bind<Address> for UnixListener
//@members
	open spec fn may_bind(a: World<()>, b: World<()>, address: Address, r: Result<Self, IoError>) -> bool { bound(a, b, address.path(), r) }
//@skip Future
//@fn bind(address) -> r ghost [C18]
//@endimpl
//@impl transport/stream/mod.rs StreamTransport of Transport for=TcpStream = impl Transport for StreamTransport<TcpStream>
//@skip split ReadHalf WriteHalf
//@members
	open spec fn connection(&self) -> int { key(self.stream) }
	open spec fn settings(&self) -> StreamConfig { self.config }
	open spec fn describes(info: TcpStreamInfo, connection: int) -> bool { info.local_address == local_address(connection) && info.remote_address == remote_address(connection) }
//@fn info() -> r [C18]
//@endimpl
//@impl transport/stream/mod.rs TcpStream of IntoTransport = impl IntoTransport for TcpStream
//@members
	open spec fn made(self, config: StreamConfig, t: StreamTransport<TcpStream>) -> bool { t.connection() == key(self) && t.settings() == config }
//@fn into_transport(config) -> r [C18]
//@endimpl
//@impl transport/stream/mod.rs StreamTransport of Connect for=TcpStream = impl<Address> Connect<Address> for StreamTransport<TcpStream>
//@skip Future
//@fn connect(address, config) -> r ghost [C18]
//@endimpl
//@impl transport/stream/mod.rs TcpListener of Bind = impl<Address> Bind<Address> for TcpListener
//@members
	open spec fn may_bind(a: World<()>, b: World<()>, address: Address, r: Result<Self, IoError>) -> bool { b == a }
//@skip Future
//@fn bind(address) -> r ghost [C18]
//@endimpl
//@impl transport/unix/transport.rs UnixTransport inherent = impl<Socket> UnixTransport<Socket>
//@skip socket socket_mut into_socket stream stream_mut into_stream new_default
//@fn new(socket, config) -> r [C18]
	ensures r.socket == socket && r.config == config
//@endimpl
//@impl transport/unix/mod.rs UnixTransport of Transport for=UnixSeqpacket = impl Transport for UnixTransport<UnixSeqpacket>
//@skip split ReadHalf WriteHalf
//@members
	open spec fn connection(&self) -> int { key(self.socket) }
	open spec fn settings(&self) -> UnixConfig { self.config }
	open spec fn describes(info: UnixSeqpacketInfo, connection: int) -> bool { info.user_id == cred_uid(connection) && info.group_id == cred_gid(connection) && info.process_id == cred_pid(connection) }
//@fn info() -> r [C18]
//@endimpl
//@impl transport/unix/mod.rs UnixSeqpacket of IntoTransport = impl IntoTransport for UnixSeqpacket
//@members
	open spec fn made(self, config: UnixConfig, t: UnixTransport<UnixSeqpacket>) -> bool { t.connection() == key(self) && t.settings() == config }
//@fn into_transport(config) -> r [C18]
//@endimpl
//@impl transport/unix/mod.rs UnixTransport of Connect for=UnixSeqpacket = impl<Address: AsPath> Connect<Address> for UnixTransport<UnixSeqpacket>
//@skip Future
//@fn connect(address, config) -> r ghost [C18]
//@endimpl
//@impl transport/unix/mod.rs UnixSeqpacketListener of Bind = impl<Address: AsPath> Bind<Address> for UnixSeqpacketListener
//@members
	open spec fn may_bind(a: World<()>, b: World<()>, address: Address, r: Result<Self, IoError>) -> bool { bound(a, b, address.path(), r) }
//@skip Future
//@fn bind(address) -> r ghost [C18]
//@endimpl

// ---------------------------------------------------------------- src/util/accept.rs
//@type util/accept.rs Accept
//@impl util/accept.rs Accept of Future inherent = impl<'a, L: AcceptTrait> Accept<'a, L>
//@skip Output
//@fn poll(context) -> r ghost [C18]
	ensures poll_gave(*old(w), *final(w), r)
//@endimpl
impl<'a, L: AcceptTrait> Accept<'a, L> {
	/// `.await`: poll until there is a result.
	#[verifier::exec_allows_no_decreases_clause]
	pub fn wait(self, Tracked(w): Tracked<&mut World<()>>) -> (r: Result<(L::Connection, L::Address), IoError>)
		ensures accept_gave(*old(w), *final(w), r)
	{
		let mut this = self;
		let mut context = any_context();
		loop
			invariant *w == *old(w)
		{
			match this.poll(&mut context, Tracked(w)) {
				Poll::Ready(r) => return r,
				Poll::Pending => { },
			}
		}
	}
}
/// `.await` on what an `async fn` returns, which stands for its result here.
pub trait Wait: Sized {
	fn wait(self, Tracked(w): Tracked<&mut World<()>>) -> (r: Self) ensures r == self && *final(w) == *old(w);
}
impl<T, E> Wait for Result<T, E> {
	fn wait(self, Tracked(w): Tracked<&mut World<()>>) -> (r: Self) { self }
}
//@impl util/accept.rs TcpListener of Listener = impl AcceptTrait for TcpListener
//@fn poll_accept(context) -> r ghost [C18]
//@endimpl
//@impl util/accept.rs UnixListener of Listener = impl AcceptTrait for UnixListener
//@fn poll_accept(context) -> r ghost [C18]
//@endimpl
//@impl util/accept.rs UnixSeqpacketListener of Listener = impl AcceptTrait for UnixSeqpacketListener
//@fn poll_accept(context) -> r ghost [C18]
//@endimpl
//@impl util/accept.rs T of Listener = impl<'a, T: AcceptTrait> AcceptTrait for &'a mut T
//@fn poll_accept(context) -> r ghost [C18]
//@endimpl
//@impl util/accept.rs Box of Listener = impl<T: AcceptTrait> AcceptTrait for Box<T>
//@fn poll_accept(context) -> r ghost [C18]
//@endimpl

// ---------------------------------------------------------------- src/peer.rs
/// The read and write loop of one peer; its identity is that of its command channel.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Peer<T: Transport> { x: T }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RunPeer<T: Transport> { x: T }
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct PeerHandle<B> { x: B }
impl<B> PeerHandle<B> {
	pub uninterp spec fn peer(&self) -> int;
}
/// A future that can be started.
pub trait Startable: Sized {
	spec fn task(&self) -> Task;
}
impl<T: Transport> Startable for RunPeer<T> {
	uninterp spec fn task(&self) -> Task;
}
#[verifier::external_body]
pub struct JoinHandle { x: () }
#[verifier::external_body]
pub fn tokio_spawn<F: Startable>(f: F, Tracked(w): Tracked<&mut World<()>>) -> (r: JoinHandle)
	ensures *final(w) == (World { tasks: old(w).tasks.push(f.task()), ..*old(w) })
{ unimplemented!() }
impl<T: Transport> Peer<T> {
	pub uninterp spec fn task(&self) -> Task;
	/// See t_core for the contract on the code.
	#[verifier::external_body]
	pub fn new(transport: T) -> (r: (Self, PeerHandle<T::Body>)) ensures r.0.task() == Task::Peer(r.1.peer(), key(transport)) { unimplemented!() }
	#[verifier::external_body]
	pub fn run(self, Tracked(w): Tracked<&mut World<()>>) -> (r: RunPeer<T>) ensures r.task() == self.task() && *final(w) == *old(w) { unimplemented!() }
}
//@impl peer.rs Peer inherent = impl<Transport: crate::Transport> Peer<Transport>
//@skip new run
//@fn spawn(transport) -> r ghost [C18]
	ensures *final(w) == (World { tasks: old(w).tasks.push(Task::Peer(r.peer(), key(transport))), ..*old(w) })
//@skip Future
//@fn connect(address, config) -> r ghost [C18] generics <Address> where Transport: Connect<Address>
	ensures match r {
		Ok((peer, info)) => exists|t: Transport| {
			&&& #[trigger] t.settings() == config
			&&& final(w).connections == old(w).connections.push((key(address), t.connection()))
			&&& Transport::describes(info, t.connection())
			&&& final(w).tasks == old(w).tasks.push(Task::Peer(peer.peer(), key(t)))
		},
		Err(_) => final(w).tasks == old(w).tasks,
	}
//@endimpl

// ---------------------------------------------------------------- src/listener.rs
pub trait ListeningSocket: AcceptTrait {
	type Body;
	type Config: PlainClone;
	type Transport;
	type TransportInfo;
	/// A transport for this connection with these settings.
	spec fn made(connection: Self::Connection, config: Self::Config, t: Self::Transport) -> bool;
	/// The information of the connection that the transport uses.
	spec fn describes(info: Self::TransportInfo, t: Self::Transport) -> bool;
	fn into_transport(connection: Self::Connection, config: Self::Config) -> (r: Self::Transport) ensures Self::made(connection, config, r);
	fn transport_info(connection: &Self::Transport) -> (r: Result<Self::TransportInfo, IoError>) ensures r is Ok ==> Self::describes(r->Ok_0, *connection);
	fn spawn(transport: Self::Transport, Tracked(w): Tracked<&mut World<()>>) -> (r: PeerHandle<Self::Body>)
		ensures *final(w) == (World { tasks: old(w).tasks.push(Task::Peer(r.peer(), key(transport))), ..*old(w) });
}
//@impl listener.rs Socket of ListeningSocket = impl<Socket: AcceptTrait> ListeningSocket for Socket where Socket::Connection: IntoTransport
//@members
	open spec fn made(connection: Self::Connection, config: Self::Config, t: Self::Transport) -> bool { connection.made(config, t) }
	open spec fn describes(info: Self::TransportInfo, t: Self::Transport) -> bool { <Self::Transport as Transport>::describes(info, t.connection()) }
//@fn into_transport(connection, config) -> r [C18]
//@fn transport_info(connection) -> r [C18]
//@fn spawn(transport) -> r ghost [C18]
//@endimpl

#[verifier::external_body]
pub fn drop<T>(x: T) { }
/// What the user does with every peer that `run` accepts.
pub trait UserTask<B, I>: Sized {
	type Future: Startable;
	fn call_closure(&mut self, peer: PeerHandle<B>, info: I, Tracked(w): Tracked<&mut World<()>>) -> (r: Self::Future)
		ensures *final(w) == *old(w), r.task() == Task::User(peer.peer(), key(info));
}
/// A peer was started for the connection that was accepted, and its handle and information are these.
pub open spec fn served<S: ListeningSocket>(outcome: Outcome, task: Task, config: S::Config, peer: int, info: int) -> bool {
	exists|c: S::Connection, t: S::Transport, i: S::TransportInfo| {
		&&& outcome == Outcome::Connection(key(c))
		&&& #[trigger] S::made(c, config, t)
		&&& #[trigger] S::describes(i, t) && info == key(i)
		&&& task == Task::Peer(peer, key(t))
	}
}
/// All connections from the given number on were accepted, and a task of the user runs for each of them.
pub open spec fn all_served<S: ListeningSocket>(a: World<()>, b: World<()>, config: S::Config) -> bool {
	&&& b == World { outcomes: b.outcomes, tasks: b.tasks, ..a }
	&&& b.outcomes.len() >= a.outcomes.len() && b.outcomes.take(a.outcomes.len() as int) =~= a.outcomes
	&&& b.tasks.len() == a.tasks.len() + 2 * (b.outcomes.len() - a.outcomes.len()) && b.tasks.take(a.tasks.len() as int) =~= a.tasks
	&&& forall|k: int| a.outcomes.len() <= k < b.outcomes.len() ==> one_served::<S>(#[trigger] b.outcomes[k], b.tasks[a.tasks.len() + 2 * (k - a.outcomes.len())], b.tasks[a.tasks.len() + 2 * (k - a.outcomes.len()) + 1], config)
}
pub open spec fn one_served<S: ListeningSocket>(outcome: Outcome, peer_task: Task, user_task: Task, config: S::Config) -> bool {
	exists|peer: int, info: int| #[trigger] served::<S>(outcome, peer_task, config, peer, info) && user_task == Task::User(peer, info)
}
//@type listener.rs Listener
//@impl listener.rs Listener inherent = impl<Socket: ListeningSocket> Listener<Socket>
//@fn new(listener, config) -> r [C18]
	ensures r.listener == listener && r.config == config
//@fn bind(address, config) -> r ghost [C18] generics <Address> where Socket: Bind<Address>
	ensures
		final(w).tasks == old(w).tasks && final(w).outcomes == old(w).outcomes && final(w).connections == old(w).connections,
		exists|b: Result<Socket, IoError>| #[trigger] Socket::may_bind(*old(w), *final(w), address, b) && match b {
			Ok(s) => r is Ok && r->Ok_0.listener == s && r->Ok_0.config == config,
			Err(e) => r is Err && r->Err_0 == e,
		},
//@fn accept() -> r ghost [C18]
	ensures
		final(self).config == old(self).config,
		*final(w) == (World { outcomes: final(w).outcomes, tasks: final(w).tasks, ..*old(w) }),
		final(w).outcomes == old(w).outcomes.push(final(w).outcomes.last()),
		match r {
			Ok((peer, info)) => final(w).tasks == old(w).tasks.push(final(w).tasks.last())
				&& served::<Socket>(final(w).outcomes.last(), final(w).tasks.last(), old(self).config, peer.peer(), key(info)),
			Err(e) => final(w).tasks == old(w).tasks && (final(w).outcomes.last() is Failed ==> final(w).outcomes.last() == Outcome::Failed(e)),
		},
		// An accept that fails is an error.
		final(w).outcomes.last() is Failed ==> r is Err,
//@fn run(task) -> r ghost [C18] generics <F: UserTask<Socket::Body, Socket::TransportInfo>>
	ensures r is Err,
		exists|m: World<()>| #[trigger] all_served::<Socket>(*old(w), m, old(self).config) && final(w).tasks == m.tasks
			&& final(w).outcomes == m.outcomes.push(final(w).outcomes.last())
			&& (final(w).outcomes.last() is Failed ==> final(w).outcomes.last() == Outcome::Failed(r->Err_0)),
//@loop 0
	invariant self.config == old(self).config && all_served::<Socket>(*old(w), *w, old(self).config)
//@endimpl
