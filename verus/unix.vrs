// ---------------------------------------------------------------- trusted prelude: file descriptors and seqpacket sockets (filedesc, tokio_seqpacket)
/// An owned descriptor of the standard library; `id` stands for the open file description that it refers to.
#[verifier::external_body]
pub struct OwnedFd { x: () }
#[verifier::external_body]
pub struct FileDesc { x: () }
impl OwnedFd { pub uninterp spec fn id(&self) -> int; }
impl FileDesc {
	pub uninterp spec fn id(&self) -> int;
	#[verifier::external_body]
	pub fn new(fd: OwnedFd) -> (r: FileDesc) ensures r.id() == fd.id() { unimplemented!() }
}
pub open spec fn ids(s: Seq<FileDesc>) -> Seq<int> { s.map_values(|f: FileDesc| f.id()) }
/// What is sent over a seqpacket socket in one go.
pub struct Datagram { pub data: Seq<u8>, pub fds: Seq<int> }
/// What the last poll of a socket gave.
pub enum LastDatagram { Received(Datagram), Sent(Datagram), Closed, Pending, Failed(IoError) }
/// `n` descriptors fit in a buffer for control messages of `len` bytes.
pub open spec fn fds_fit(n: int, len: int) -> bool { n == 0 || 16 + 4 * n <= len }

pub struct IoSliceMut<'a> { pub buf: &'a mut [u8] }
impl<'a> IoSliceMut<'a> {
	#[verifier::external_body]
	pub fn new(buf: &'a mut [u8]) -> (r: Self) ensures r.buf@ == old(buf)@, final(r.buf)@ == final(buf)@ { unimplemented!() }
}
/// `[IoSliceMut; 2]`
pub struct IoSliceMut2<'a> { pub a: IoSliceMut<'a>, pub b: IoSliceMut<'a> }

/// The control messages of one datagram.
pub enum OwnedAncillaryMessage { FileDescriptors(Items<OwnedFd>), Other(u32) }
pub open spec fn owned_ids(s: Seq<OwnedFd>) -> Seq<int> { s.map_values(|f: OwnedFd| f.id()) }
pub open spec fn message_ids(m: OwnedAncillaryMessage) -> Seq<int> {
	match m { OwnedAncillaryMessage::FileDescriptors(fds) => owned_ids(fds.items()), _ => Seq::empty() }
}
pub open spec fn all_ids(s: Seq<OwnedAncillaryMessage>) -> Seq<int>
	decreases s.len()
{
	if s.len() == 0 { Seq::empty() } else { message_ids(s[0]) + all_ids(s.drop_first()) }
}
pub broadcast proof fn lemma_whole(s: Seq<u8>, n: int)
	requires n == s.len()
	ensures #[trigger] s.subrange(0, n) == s
{ assert(s.subrange(0, n) =~= s); }
pub broadcast proof fn lemma_head_and_tail(s: Seq<u8>, k: int, n: int)
	requires 0 < k <= n, n == s.len()
	ensures s.take(k) + #[trigger] s.subrange(k, n) == s
{ assert(s.take(k) + s.subrange(k, n) =~= s); }
pub broadcast proof fn lemma_ids_add(a: Seq<FileDesc>, b: Seq<FileDesc>)
	ensures #[trigger] ids(a + b) == ids(a) + ids(b)
{ assert(ids(a + b) =~= ids(a) + ids(b)); }
pub broadcast proof fn lemma_ids_eq(a: Seq<FileDesc>, b: Seq<OwnedFd>)
	requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i].id() == b[i].id()
	ensures #![trigger ids(a), owned_ids(b)] ids(a) == owned_ids(b)
{ assert(ids(a) =~= owned_ids(b)); }
#[verifier::external_body]
pub struct AncillaryMessageReader { x: () }
impl AncillaryMessageReader {
	pub uninterp spec fn messages(&self) -> Seq<OwnedAncillaryMessage>;
	pub uninterp spec fn truncated(&self) -> bool;
	#[verifier::external_body]
	pub fn is_truncated(&self) -> (r: bool) ensures r == self.truncated() { unimplemented!() }
	#[verifier::external_body]
	pub fn into_messages(self) -> (r: Items<OwnedAncillaryMessage>) ensures r.items() == self.messages() { unimplemented!() }
}
#[verifier::external_body]
pub struct AddControlMessageError { x: () }
#[verifier::external_body]
pub struct AncillaryMessageWriter { x: () }
pub trait HasId { spec fn fd_id(&self) -> int; }
impl HasId for FileDesc { open spec fn fd_id(&self) -> int { self.id() } }
impl<'a> HasId for &'a FileDesc { open spec fn fd_id(&self) -> int { self.id() } }
pub open spec fn fd_ids<T: HasId>(s: Seq<T>) -> Seq<int> { s.map_values(|f: T| f.fd_id()) }
pub broadcast proof fn lemma_fd_ids(a: Seq<&FileDesc>, b: Seq<FileDesc>)
	requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> *(#[trigger] a[i]) == b[i]
	ensures #![trigger fd_ids(a), ids(b)] fd_ids(a) == ids(b)
{ assert(fd_ids(a) =~= ids(b)); }
impl AncillaryMessageWriter {
	pub uninterp spec fn capacity(&self) -> int;
	pub uninterp spec fn fds(&self) -> Seq<int>;
	#[verifier::external_body]
	pub fn new<A: AsSliceMut + ?Sized>(buffer: &mut A) -> (r: Self) ensures r.capacity() == old(buffer).elements().len(), r.fds().len() == 0 { unimplemented!() }
	#[verifier::external_body]
	pub fn add_fds<T: HasId>(&mut self, fds: &[T]) -> (r: Result<(), AddControlMessageError>)
		ensures
			final(self).capacity() == old(self).capacity(),
			r is Ok ==> final(self).fds() == old(self).fds() + fd_ids(fds@),
			r is Ok && old(self).fds().len() == 0 ==> final(self).fds() == fd_ids(fds@),
			r is Err ==> final(self).fds() == old(self).fds(),
			old(self).fds().len() == 0 && fds_fit(fds@.len() as int, old(self).capacity()) ==> r is Ok
	{ unimplemented!() }
}
/// The part of a seqpacket socket that receives.
pub trait SeqpacketRead: Sized {
	spec fn last(&self) -> LastDatagram;
	/// How many datagrams were taken from the socket.
	spec fn received(&self) -> nat;
	fn poll_recv_vectored_with_ancillary<A: AsSliceMut>(&mut self, context: &mut Context, buffers: &mut IoSliceMut2, ancillary: &mut A) -> (r: Poll<Result<(usize, AncillaryMessageReader), IoError>>)
		ensures
			final(final(buffers).a.buf)@ == final(old(buffers).a.buf)@,
			final(final(buffers).b.buf)@ == final(old(buffers).b.buf)@,
			final(buffers).a.buf@.len() == old(buffers).a.buf@.len(),
			final(buffers).b.buf@.len() == old(buffers).b.buf@.len(),
			final(ancillary).elements().len() == old(ancillary).elements().len(),
			match r {
				Poll::Pending => final(self).last() is Pending && final(self).received() == old(self).received(),
				Poll::Ready(Err(e)) => final(self).last() == LastDatagram::Failed(e) && final(self).received() == old(self).received(),
				Poll::Ready(Ok((n, anc))) => match final(self).last() {
					LastDatagram::Closed => n == 0 && anc.messages().len() == 0 && final(self).received() == old(self).received(),
					LastDatagram::Received(d) => {
						let room = old(buffers).a.buf@.len() + old(buffers).b.buf@.len();
						&&& final(self).received() == old(self).received() + 1
						&&& n == (if d.data.len() <= room { d.data.len() as int } else { room as int })
						&&& ({
							let k = old(buffers).a.buf@.len() as int;
							if n <= k { final(buffers).a.buf@.take(n as int) == d.data.take(n as int) } else {
								final(buffers).a.buf@ == d.data.take(k) && final(buffers).b.buf@.take(n - k) == d.data.subrange(k, n as int)
							}
						})
						&&& all_ids(anc.messages()).is_prefix_of(d.fds)
						&&& !anc.truncated() ==> all_ids(anc.messages()) == d.fds
						&&& fds_fit(d.fds.len() as int, old(ancillary).elements().len() as int) ==> !anc.truncated()
					},
					_ => false,
				},
			};
}
/// The part of a seqpacket socket that sends.
pub trait SeqpacketWrite: Sized {
	spec fn last(&self) -> LastDatagram;
	spec fn sent(&self) -> Seq<Datagram>;
	fn poll_send_vectored_with_ancillary(&mut self, context: &mut Context, buffers: &[IoSlice], ancillary: &mut AncillaryMessageWriter) -> (r: Poll<Result<usize, IoError>>)
		ensures
			final(ancillary).fds() == old(ancillary).fds(),
			match r {
				Poll::Pending => final(self).last() is Pending && final(self).sent() == old(self).sent(),
				Poll::Ready(Err(e)) => final(self).last() == LastDatagram::Failed(e) && final(self).sent() == old(self).sent(),
				Poll::Ready(Ok(n)) => n == gathered(buffers@).len() && final(self).sent() == old(self).sent().push(Datagram { data: gathered(buffers@), fds: old(ancillary).fds() }),
			};
}
impl Convert<Vec<FileDesc>> for Vec<FileDesc> {
	open spec fn spec_convert(self) -> Vec<FileDesc> { self }
	fn convert(self) -> (r: Vec<FileDesc>) { self }
}

// ---------------------------------------------------------------- src/transport/unix
//@type transport/unix/body.rs UnixBody
//@type transport/unix/transport.rs UnixReadHalf
//@type transport/unix/transport.rs UnixWriteHalf
//@impl transport/unix/body.rs UnixBody
//@fn new(data, fds) -> r [C05 C06] generics <Data: Convert<Vec<u8>>, FileDescs: Convert<Vec<FileDesc>>>
	ensures r.data == data.spec_convert() && r.fds == fds.spec_convert()
//@endimpl
//@impl transport/unix/transport.rs UnixReadHalf
//@skip socket socket_mut
//@fn new(socket, max_body_len, max_fds, endian) -> r [C05 C06]
	ensures r.socket == socket && r.max_body_len == max_body_len && r.max_fds == max_fds && r.endian == endian
//@endimpl
//@impl transport/unix/transport.rs UnixWriteHalf
//@skip socket socket_mut
//@fn new(socket, max_body_len, max_fds, endian) -> r [C05 C06]
	ensures r.socket == socket && r.max_body_len == max_body_len && r.max_fds == max_fds && r.endian == endian
//@endimpl
//@free transport/unix/transport.rs too_many_fds() -> r [C06]
//@endfree
pub open spec fn sent_one(before: Seq<Datagram>, after: Seq<Datagram>) -> bool { after.len() == before.len() + 1 && after.take(before.len() as int) == before }
impl<S> UnixReadHalf<S> {
	/// A datagram that has to be refused with this error.
	pub open spec fn refuses(&self, d: Datagram, e: TransportError) -> bool {
		||| d.data.len() < 12 && e.is_fatal
		||| d.data.len() >= 12 && decodes(d.data.take(12), self.endian, Err(e.inner)) && e.is_fatal
		||| d.data.len() > 12 + self.max_body_len && !e.is_fatal && e.inner.inner is PayloadTooLarge
		||| d.fds.len() > self.max_fds && !e.is_fatal
	}
	pub open spec fn acceptable_data(&self, d: Datagram) -> bool {
		12 <= d.data.len() <= 12 + self.max_body_len && exists|h: MessageHeader| d.data.take(12) == wire_header(h, self.endian)
	}
	pub open spec fn same_config(&self, o: &Self) -> bool { self.max_body_len == o.max_body_len && self.max_fds == o.max_fds && self.endian == o.endian }
}
//@impl transport/unix/transport.rs UnixReadHalf of crate::transport::TransportReadHalf inherent = impl<S: SeqpacketRead> UnixReadHalf<S>
//@fn poll_read_msg(context) -> r noisolation rlimit=40 [C05]
	ensures [C05]
		final(self).same_config(old(self)),
		match r {
			Poll::Pending => final(self).socket.last() is Pending && final(self).socket.received() == old(self).socket.received(),
			Poll::Ready(Ok(m)) => match final(self).socket.last() {
				LastDatagram::Received(d) => {
					&&& final(self).socket.received() == old(self).socket.received() + 1
					&&& d.data == wire_header(m.header, old(self).endian) + m.body.data@
					&&& m.body.data@.len() <= old(self).max_body_len
				},
				_ => false,
			},
			Poll::Ready(Err(e)) => match final(self).socket.last() {
				LastDatagram::Closed => e.is_fatal && e.inner.aborted(),
				LastDatagram::Failed(io) => e.is_fatal && e.inner.inner == InnerError::Io(io),
				LastDatagram::Received(d) => final(self).socket.received() == old(self).socket.received() + 1 && old(self).refuses(d, e),
				_ => false,
			},
		}
	ensures [C06]
		match (r, final(self).socket.last()) {
			(Poll::Ready(Ok(m)), LastDatagram::Received(d)) => ids(m.body.fds@) == d.fds && d.fds.len() <= old(self).max_fds,
			(Poll::Ready(Err(e)), LastDatagram::Received(d)) => old(self).acceptable_data(d) ==> d.fds.len() > old(self).max_fds && !e.is_fatal,
			(Poll::Ready(Ok(_)), _) => false,
			_ => true,
		}
//@proof
	broadcast use {lemma_whole, lemma_head_and_tail};
//@local fds let mut (\w+) = Vec :: new
//@loop 0
	invariant [C06]
		self.same_config(old(self)),
		ids(fds@) + all_ids(iter0_.items()) == all_ids(iter0_all),
	ensures [C06] ids(fds@) == all_ids(iter0_all)
//@proof 0
	broadcast use {lemma_ids_add, lemma_ids_eq};
	proof { reveal_with_fuel(all_ids, 2); assert(ids(fds@) + Seq::<int>::empty() =~= ids(fds@)); }
//@endimpl
impl<S> UnixWriteHalf<S> {
	pub open spec fn fits(&self, b: UnixBody) -> bool { b.data@.len() <= self.max_body_len }
}
//@impl transport/unix/transport.rs UnixWriteHalf of crate::transport::TransportWriteHalf inherent = impl<S: SeqpacketWrite> UnixWriteHalf<S>
//@fn poll_write_msg(context, header, body) -> r [C05]
	ensures [C05 C06]
		final(self).max_body_len == old(self).max_body_len && final(self).max_fds == old(self).max_fds && final(self).endian == old(self).endian,
	ensures [C05]
		match r {
			Poll::Pending => old(self).fits(*body) && final(self).socket.last() is Pending && final(self).socket.sent() == old(self).socket.sent(),
			Poll::Ready(Ok(())) => old(self).fits(*body) && sent_one(old(self).socket.sent(), final(self).socket.sent())
				&& final(self).socket.sent().last().data == wire_header(*header, old(self).endian) + body.data@,
			Poll::Ready(Err(e)) => final(self).socket.sent() == old(self).socket.sent() && if e.is_fatal {
				old(self).fits(*body) && (match final(self).socket.last() { LastDatagram::Failed(io) => e.inner.inner == InnerError::Io(io), _ => false })
			} else {
				!old(self).fits(*body) && e.inner.inner is PayloadTooLarge || body.fds@.len() > old(self).max_fds
			},
		}
	ensures [C06]
		match r {
			Poll::Pending => body.fds@.len() <= old(self).max_fds,
			Poll::Ready(Ok(())) => body.fds@.len() <= old(self).max_fds && sent_one(old(self).socket.sent(), final(self).socket.sent()) && final(self).socket.sent().last().fds == ids(body.fds@),
			Poll::Ready(Err(e)) => final(self).socket.sent() == old(self).socket.sent() && (old(self).fits(*body) && body.fds@.len() > old(self).max_fds ==> !e.is_fatal),
		}
//@proof
	broadcast use {lemma_gathered, lemma_fd_ids, lemma_whole};
	proof { assert(forall|s: Seq<u8>| #[trigger] (s + Seq::<u8>::empty()) =~= s); assert(forall|s: Seq<Datagram>, d: Datagram| #[trigger] s.push(d).take(s.len() as int) =~= s); }
//@endimpl
/// The sockets themselves, as far as splitting a transport goes.
pub mod tokio_seqpacket {
	use super::*;
	#[verifier::external_body]
	pub struct UnixSeqpacket { x: () }
}
//@type transport/unix/config.rs UnixConfig
//@type transport/unix/transport.rs UnixTransport
//@impl transport/unix/transport.rs UnixTransport inherent = impl<Socket> UnixTransport<Socket>
//@skip socket socket_mut into_socket new_default
//@fn new(socket, config) -> r [C05 C06]
	ensures r.socket == socket && r.config == config
//@endimpl
//@impl transport/unix/mod.rs UnixTransport of crate::transport::Transport inherent for=UnixSeqpacket = impl UnixTransport<tokio_seqpacket::UnixSeqpacket>
//@skip info
//@fn split() -> r
	ensures [C05 C06]
		*final(self) == *old(self) && *r.0.socket == old(self).socket && *r.1.socket == old(self).socket,
	ensures [C05]
		r.0.max_body_len == old(self).config.max_body_len_read && r.0.endian == old(self).config.endian,
		r.1.max_body_len == old(self).config.max_body_len_write && r.1.endian == old(self).config.endian,
	ensures [C06]
		r.0.max_fds == old(self).config.max_fds_read && r.1.max_fds == old(self).config.max_fds_write,
//@endimpl
