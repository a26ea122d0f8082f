// ---------------------------------------------------------------- src/transport/stream
//@const transport/stream/transport.rs FRAMED_HEADER_LEN
//@type transport/stream/body.rs StreamBody
//@type transport/stream/transport.rs StreamReadHalf
//@type transport/stream/transport.rs StreamWriteHalf
//@impl transport/stream/body.rs StreamBody of From<T> inherent = impl StreamBody
//@fn from(other) -> r [C03] generics <T: Convert<Vec<u8>>>
	ensures r.data == other.spec_convert()
//@endimpl
impl Convert<StreamBody> for Vec<u8> {
	open spec fn spec_convert(self) -> StreamBody { StreamBody { data: self } }
	fn convert(self) -> (r: StreamBody) { StreamBody::from(self) }
}
//@impl transport/stream/body.rs StreamBody of std::ops::Deref inherent = impl StreamBody
//@members
	pub fn len(&self) -> (r: usize) ensures r == self.data@.len() { self.deref().len() }
	pub fn is_empty(&self) -> (r: bool) ensures r == (self.data@.len() == 0) { self.deref().len() == 0 }
//@fn deref() -> r [C02]
	ensures r@ == self.data@
//@endimpl
//@impl transport/stream/body.rs StreamBody of AsRef<[u8]> inherent = impl StreamBody
//@fn as_ref() -> r [C02]
	ensures r@ == self.data@
//@endimpl

/// The bytes of a message on the wire.
pub open spec fn frame(h: MessageHeader, body: Seq<u8>, e: Endian) -> Seq<u8> {
	e.enc((12 + body.len()) as u32) + wire_header(h, e) + body
}
pub open spec fn fits(body: Seq<u8>, max: u32) -> bool { body.len() <= max && body.len() + 12 <= u32::MAX }
/// What was `p` became `q` by adding exactly what was appended to `c`, which is now `c1`.
#[verifier::opaque]
pub open spec fn grown(p: Seq<u8>, c: Seq<u8>, c1: Seq<u8>, q: Seq<u8>) -> bool {
	c.is_prefix_of(c1) && q == p + c1.skip(c.len() as int)
}
pub proof fn lemma_grown_step(p: Seq<u8>, c: Seq<u8>, c1: Seq<u8>, q1: Seq<u8>, c2: Seq<u8>, q2: Seq<u8>, d: Seq<u8>)
	requires grown(p, c, c1, q1), c2 =~= c1 + d, q2 =~= q1 + d
	ensures grown(p, c, c2, q2)
{
	reveal(grown);
	assert(c2.skip(c.len() as int) =~= c1.skip(c.len() as int) + d);
	assert(c =~= c2.take(c.len() as int));
	assert(q2 =~= p + c2.skip(c.len() as int));
}
/// Several polls together: what was read between two messages is exactly one frame.
pub proof fn lemma_message_read(c: Seq<u8>, c1: Seq<u8>, p: Seq<u8>, c2: Seq<u8>, f: Seq<u8>)
	requires grown(Seq::empty(), c, c1, p), grown(p, c1, c2, f)
	ensures grown(Seq::empty(), c, c2, f), c2 == c + f // [C03]
{
	reveal(grown);
	assert(c2.skip(c.len() as int) =~= c1.skip(c.len() as int) + c2.skip(c1.len() as int));
	assert(c =~= c2.take(c.len() as int)) by { assert(c =~= c1.take(c.len() as int)); assert(c1 =~= c2.take(c1.len() as int)); }
	assert(f =~= Seq::empty() + c2.skip(c.len() as int));
	assert(c2 =~= c + f);
}
/// Is this the error that the last poll of the stream gave, or the end of the stream?
pub open spec fn stream_error(last: Last, kind_at_end: ErrorKind, e: Error) -> bool {
	match e.inner {
		InnerError::Io(io) => last == Last::Failed(io) || (last is Eof && io.spec_kind() == kind_at_end),
		_ => false,
	}
}
/// The first 16 bytes of a frame that has to be refused.
pub open spec fn bad_frame(b: Seq<u8>, e: Endian, max: u32, err: Error) -> bool {
	exists|n: u32| b.take(4) =~= #[trigger] e.enc(n) && (
		(n < 12 && err.inner == (InnerError::MessageTooShort { message_len: n as usize }))
		|| (n >= 12 && decodes(b.subrange(4, 16), e, Err(err)))
		|| (n >= 12 && n - 12 > max && err.inner == (InnerError::PayloadTooLarge { body_len: (n - 12) as usize, max_len: max as usize })))
}
/// No acceptable frame is refused.
pub proof fn lemma_good_frames_are_accepted(b: Seq<u8>, e: Endian, max: u32, err: Error, h: MessageHeader, body: Seq<u8>)
	requires bad_frame(b, e, max, err), b.len() == 16, b == frame(h, body, e).take(16), fits(body, max)
	ensures false // [C04]
{
	lemma_wire_parts(h, e);
	let n = choose|n: u32| b.take(4) =~= #[trigger] e.enc(n) && (
		(n < 12 && err.inner == (InnerError::MessageTooShort { message_len: n as usize }))
		|| (n >= 12 && decodes(b.subrange(4, 16), e, Err(err)))
		|| (n >= 12 && n - 12 > max && err.inner == (InnerError::PayloadTooLarge { body_len: (n - 12) as usize, max_len: max as usize })));
	assert(b.take(4) =~= e.enc((12 + body.len()) as u32));
	lemma_enc_injective(e, n, (12 + body.len()) as u32);
	assert(b.subrange(4, 16) =~= wire_header(h, e));
}
/// The messages in a sequence of bytes are determined: what was framed is what is read.
pub proof fn lemma_frames_unique(h1: MessageHeader, b1: Seq<u8>, r1: Seq<u8>, h2: MessageHeader, b2: Seq<u8>, r2: Seq<u8>, e: Endian, max: u32)
	requires frame(h1, b1, e) + r1 == frame(h2, b2, e) + r2, fits(b1, u32::MAX), fits(b2, u32::MAX)
	ensures h1 == h2, b1 == b2, r1 == r2 // [C03]
{
	let s = frame(h1, b1, e) + r1;
	lemma_wire_parts(h1, e); lemma_wire_parts(h2, e);
	assert(s.take(4) =~= e.enc((12 + b1.len()) as u32));
	assert(s.take(4) =~= e.enc((12 + b2.len()) as u32));
	lemma_enc_injective(e, (12 + b1.len()) as u32, (12 + b2.len()) as u32);
	assert(s.subrange(4, 16) =~= wire_header(h1, e));
	assert(s.subrange(4, 16) =~= wire_header(h2, e));
	lemma_wire_injective(h1, h2, e);
	assert(b1 =~= s.subrange(16, 16 + b1.len() as int));
	assert(b2 =~= s.subrange(16, 16 + b2.len() as int));
	assert(r1 =~= s.skip(16 + b1.len() as int));
	assert(r2 =~= s.skip(16 + b2.len() as int));
}

impl<R> StreamReadHalf<R> {
	/// What was received of the message that is being read.
	pub open spec fn partial(&self) -> Seq<u8> {
		if self.bytes_read < 16 { self.header_buffer@.take(self.bytes_read as int) } else { self.header_buffer@ + self.body_buffer@.take(self.bytes_read - 16) }
	}
	pub open spec fn wf(&self) -> bool {
		self.bytes_read < 16 || {
			&&& self.endian.enc((12 + self.body_buffer@.len()) as u32) =~= self.header_buffer@.take(4)
			&&& wire_header(self.parsed_header, self.endian) =~= self.header_buffer@.subrange(4, 16)
			&&& fits(self.body_buffer@, self.max_body_len)
			&&& self.bytes_read - 16 <= self.body_buffer@.len()
		}
	}
	pub open spec fn same_config(&self, o: &Self) -> bool { self.max_body_len == o.max_body_len && self.endian == o.endian }
}
//@impl transport/stream/transport.rs StreamReadHalf
//@skip stream stream_mut
//@fn new(stream, max_body_len, endian) -> r [C03 C04]
	ensures r.stream == stream && r.max_body_len == max_body_len && r.endian == endian
	ensures r.wf() && r.partial().len() == 0
//@endimpl
//@free transport/stream/transport.rs poll_read(stream, context, buf) -> r [C03 C04]
	requires old(buf)@.len() > 0
	ensures final(buf)@.len() == old(buf)@.len()
	ensures match r {
		Poll::Ready(Ok(n)) => 0 < n <= old(buf)@.len() && final(stream).consumed() == old(stream).consumed() + final(buf)@.take(n as int),
		Poll::Ready(Err(e)) => final(stream).consumed() == old(stream).consumed() && (final(stream).last() == Last::Failed(e) || (final(stream).last() is Eof && e.spec_kind() == ErrorKind::ConnectionAborted)),
		Poll::Pending => final(stream).consumed() == old(stream).consumed() && final(stream).last() is Pending,
	}
//@proof
	broadcast use axiom_io_error_of_kind;
//@endfree
//@impl transport/stream/transport.rs StreamReadHalf of crate::transport::TransportReadHalf inherent = impl<R: AsyncRead> StreamReadHalf<R>
//@fn poll_read_msg(context) -> r noisolation rlimit=40 [C03 C04]
	requires old(self).wf()
	ensures final(self).same_config(old(self))
	ensures ({
		let p = old(self).partial();
		let c = old(self).stream.consumed();
		let c1 = final(self).stream.consumed();
		match r {
			Poll::Pending => final(self).wf() && grown(p, c, c1, final(self).partial()) && final(self).stream.last() is Pending,
			Poll::Ready(Ok(m)) => grown(p, c, c1, frame(m.header, m.body.data@, old(self).endian)) && fits(m.body.data@, old(self).max_body_len) && final(self).wf() && final(self).partial().len() == 0,
			Poll::Ready(Err(e)) => e.is_fatal && (stream_error(final(self).stream.last(), ErrorKind::ConnectionAborted, e.inner)
				|| (grown(p, c, c1, final(self).header_buffer@) && bad_frame(final(self).header_buffer@, old(self).endian, old(self).max_body_len, e.inner))),
		}
	})
//@proof
	hide(Endian::enc);
	broadcast use lemma_subrange_of_subrange;
	let ghost p = self.partial(); let ghost c = self.stream.consumed();
	proof { assert(grown(p, c, c, p)) by { reveal(grown); assert(p =~= p + c.skip(c.len() as int)); assert(c =~= c.take(c.len() as int)); } }
//@loop 0
	invariant
		self.same_config(old(self)),
		self.wf(),
		grown(p, c, self.stream.consumed(), self.partial()),
	ensures self.bytes_read >= 16
	decreases 16 - self.bytes_read // [C03 C04]
//@proof 0
	let ghost h0 = self.header_buffer@; let ghost p1 = self.partial(); let ghost c1 = self.stream.consumed(); let ghost k = self.bytes_read as int;
	proof {
		if k < 16 { assert(p1 =~= h0.take(k)); }
		// what is received after reading the bytes from `k` to `s.bytes_read`
		assert forall|s: Self| s.header_buffer@.len() == 16 && k < 16 && k <= s.bytes_read <= 16 && s.header_buffer@.take(k) =~= h0.take(k)
			&& s.stream.consumed() =~= c1 + s.header_buffer@.subrange(k, s.bytes_read as int) implies #[trigger] grown(p, c, s.stream.consumed(), s.partial()) by {
			let h = s.header_buffer@;
			assert(s.partial() =~= h.take(s.bytes_read as int));
			assert(s.partial() =~= h0.take(k) + h.subrange(k, s.bytes_read as int));
			lemma_grown_step(p, c, c1, p1, s.stream.consumed(), s.partial(), h.subrange(k, s.bytes_read as int));
		}
		assert forall|h: Seq<u8>, cons: Seq<u8>| h.len() == 16 && k < 16 && h.take(k) =~= h0.take(k) && cons =~= c1 + h.subrange(k, 16) implies #[trigger] grown(p, c, cons, h) by {
			assert(h =~= h0.take(k) + h.subrange(k, 16));
			lemma_grown_step(p, c, c1, p1, cons, h, h.subrange(k, 16));
		}
	}
//@before 1
	let ghost body_len = self.body_buffer@.len();
//@loop 1
	invariant
		self.same_config(old(self)),
		self.wf(),
		self.bytes_read >= 16,
		self.body_buffer@.len() == body_len,
		grown(p, c, self.stream.consumed(), self.partial()),
	ensures
		self.bytes_read == 16 + self.body_buffer@.len(),
		grown(p, c, self.stream.consumed(), frame(self.parsed_header, self.body_buffer@, self.endian)),
	decreases 16 + self.body_buffer@.len() - self.bytes_read // [C03 C04]
//@proof 1
	let ghost h0 = self.header_buffer@; let ghost b0 = self.body_buffer@; let ghost p1 = self.partial(); let ghost c1 = self.stream.consumed(); let ghost k = self.bytes_read - 16;
	proof {
		if k == b0.len() { assert(self.partial() =~= frame(self.parsed_header, b0, self.endian)); }
		assert forall|s: Self| s.header_buffer@ =~= h0 && s.body_buffer@.len() == b0.len() && k <= s.bytes_read - 16 <= b0.len() && s.body_buffer@.take(k) =~= b0.take(k)
			&& s.stream.consumed() =~= c1 + s.body_buffer@.subrange(k, s.bytes_read - 16) implies #[trigger] grown(p, c, s.stream.consumed(), s.partial()) by {
			let d = s.body_buffer@.subrange(k, s.bytes_read - 16);
			assert(s.body_buffer@.take(s.bytes_read - 16) =~= b0.take(k) + d);
			assert(s.partial() =~= p1 + d);
			lemma_grown_step(p, c, c1, p1, s.stream.consumed(), s.partial(), d);
		}
	}
//@endimpl

/// The bytes from `k0` to `k` of `f` are what was appended to `w0`, giving `w`.
#[verifier::opaque]
pub open spec fn progress(f: Seq<u8>, w0: Seq<u8>, k0: int, w: Seq<u8>, k: int) -> bool {
	0 <= k0 <= k <= f.len() && w == w0 + f.subrange(k0, k)
}
pub proof fn lemma_progress_step(f: Seq<u8>, w0: Seq<u8>, k0: int, w1: Seq<u8>, k1: int, w2: Seq<u8>, n: int)
	requires progress(f, w0, k0, w1, k1), 0 <= n <= f.len() - k1, w2 =~= w1 + f.skip(k1).take(n)
	ensures progress(f, w0, k0, w2, k1 + n)
{
	reveal(progress);
	assert(f.subrange(k0, k1) + f.skip(k1).take(n) =~= f.subrange(k0, k1 + n));
	assert(w2 =~= w0 + f.subrange(k0, k1 + n));
}
/// Several polls together: what is written for a message is exactly its frame.
pub proof fn lemma_message_written(f: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, k: int, w2: Seq<u8>)
	requires progress(f, w0, 0, w1, k), progress(f, w1, k, w2, f.len() as int)
	ensures progress(f, w0, 0, w2, f.len() as int), w2 == w0 + f // [C02]
{
	reveal(progress);
	assert(f.subrange(0, k) + f.subrange(k, f.len() as int) =~= f);
	assert(w2 =~= w0 + f);
	assert(f.subrange(0, f.len() as int) =~= f);
}
impl<W> StreamWriteHalf<W> {
	/// A message can be started, or this message is being written.
	pub open spec fn wf(&self, h: MessageHeader, body: Seq<u8>) -> bool {
		match self.header_buffer {
			None => self.bytes_written == 0,
			Some(b) => b@ =~= frame(h, body, self.endian).take(16) && fits(body, self.max_body_len) && self.bytes_written <= 16 + body.len(),
		}
	}
	pub open spec fn same_config(&self, o: &Self) -> bool { self.max_body_len == o.max_body_len && self.endian == o.endian }
}
//@impl transport/stream/transport.rs StreamWriteHalf
//@skip stream stream_mut
//@fn new(stream, max_body_len, endian) -> r [C02]
	ensures r.stream == stream && r.max_body_len == max_body_len && r.endian == endian
	ensures r.header_buffer is None && r.bytes_written == 0
//@endimpl
//@free transport/stream/transport.rs poll_write(stream, context, buffers) -> r [C02]
	requires gathered(buffers@).len() > 0
	ensures match r {
		Poll::Ready(Ok(n)) => 0 < n <= gathered(buffers@).len() && final(stream).written() == old(stream).written() + gathered(buffers@).take(n as int),
		Poll::Ready(Err(e)) => final(stream).written() == old(stream).written() && (final(stream).last() == Last::Failed(e) || (final(stream).last() is Eof && e.spec_kind() == ErrorKind::WriteZero)),
		Poll::Pending => final(stream).written() == old(stream).written() && final(stream).last() is Pending,
	}
//@proof
	broadcast use axiom_io_error_of_kind;
//@endfree
//@impl transport/stream/transport.rs StreamWriteHalf of crate::transport::TransportWriteHalf inherent = impl<W: AsyncWrite> StreamWriteHalf<W>
//@fn poll_write_msg(context, header, body) -> r noisolation rlimit=60 [C02]
	requires old(self).wf(*header, body.data@)
	ensures final(self).same_config(old(self))
	ensures ({
		let f = frame(*header, body.data@, old(self).endian);
		let w0 = old(self).stream.written();
		let k0 = old(self).bytes_written as int;
		let w = final(self).stream.written();
		match r {
			Poll::Pending => final(self).header_buffer is Some && final(self).wf(*header, body.data@) && progress(f, w0, k0, w, final(self).bytes_written as int) && final(self).stream.last() is Pending,
			Poll::Ready(Ok(())) => fits(body.data@, old(self).max_body_len) && progress(f, w0, k0, w, f.len() as int) && final(self).header_buffer is None && final(self).bytes_written == 0,
			Poll::Ready(Err(e)) => if e.is_fatal { stream_error(final(self).stream.last(), ErrorKind::WriteZero, e.inner) && (exists|k: int| progress(f, w0, k0, w, k)) } else {
				&&& !fits(body.data@, old(self).max_body_len)
				&&& e.inner.inner is PayloadTooLarge
				&&& *final(self) == *old(self)
			},
		}
	})
//@proof
	hide(frame); hide(wire_header); hide(Endian::enc);
	let ghost e = self.endian; let ghost f = frame(*header, body.data@, e); let ghost b = body.data@;
	let ghost w0 = self.stream.written(); let ghost k0 = self.bytes_written as int;
	proof {
		assert(f.len() == 16 + b.len() && f.skip(16) == b && f.take(16) == e.enc((12 + b.len()) as u32) + wire_header(*header, e)) by {
			reveal(frame); reveal(wire_header); reveal(Endian::enc);
			assert(f.skip(16) =~= b && f.take(16) =~= e.enc((12 + b.len()) as u32) + wire_header(*header, e));
		}
		assert(forall|n: u32| e.enc(n).len() == 4) by { reveal(Endian::enc); }
		assert(wire_header(*header, e).len() == 12) by { reveal(wire_header); reveal(Endian::enc); }
		assert(progress(f, w0, k0, w0, k0)) by { reveal(progress); assert(w0 =~= w0 + f.subrange(k0, k0)); }
	}
//@loop 0
	invariant
		self.same_config(old(self)),
		self.header_buffer is Some,
		self.wf(*header, body.data@),
		progress(f, w0, k0, self.stream.written(), self.bytes_written as int),
	ensures self.bytes_written == 16 + body.data@.len()
	decreases 16 + body.data@.len() - self.bytes_written // [C02]
//@proof 0
	broadcast use lemma_gathered;
	let ghost w1 = self.stream.written(); let ghost k1 = self.bytes_written as int;
	proof {
		let done = if k1 < 16 { k1 } else { 16 };
		assert(f.take(16).skip(done) + b.skip(k1 - done) =~= f.skip(k1));
		assert(k1 < 16 ==> b.skip(0) =~= b);
		if k1 >= 16 { assert(b.skip(k1 - 16) =~= f.skip(k1)); }
		assert forall|w: Seq<u8>, n: int| 0 <= n <= f.len() - k1 && w == w1 + f.skip(k1).take(n)
			implies #[trigger] progress(f, w0, k0, w, k1 + n) by { lemma_progress_step(f, w0, k0, w1, k1, w, n); }
	}
//@endimpl

/// The sockets themselves, as far as splitting a transport goes.
pub mod net {
	use super::*;
	#[verifier::external_body]
	pub struct UnixStream { x: () }
	#[verifier::external_body]
	pub struct TcpStream { x: () }
	pub mod unix {
		#[verifier::external_body]
		pub struct ReadHalf<'a> { x: &'a () }
		#[verifier::external_body]
		pub struct WriteHalf<'a> { x: &'a () }
		impl<'a> ReadHalf<'a> { pub uninterp spec fn of(&self) -> super::UnixStream; }
		impl<'a> WriteHalf<'a> { pub uninterp spec fn of(&self) -> super::UnixStream; }
	}
	pub mod tcp {
		#[verifier::external_body]
		pub struct ReadHalf<'a> { x: &'a () }
		#[verifier::external_body]
		pub struct WriteHalf<'a> { x: &'a () }
		impl<'a> ReadHalf<'a> { pub uninterp spec fn of(&self) -> super::TcpStream; }
		impl<'a> WriteHalf<'a> { pub uninterp spec fn of(&self) -> super::TcpStream; }
	}
	impl UnixStream {
		#[verifier::external_body]
		pub fn split(&mut self) -> (r: (unix::ReadHalf<'_>, unix::WriteHalf<'_>)) ensures r.0.of() == *old(self) && r.1.of() == *old(self) { unimplemented!() }
	}
	impl TcpStream {
		#[verifier::external_body]
		pub fn split(&mut self) -> (r: (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>)) ensures r.0.of() == *old(self) && r.1.of() == *old(self) { unimplemented!() }
	}
}
//@type transport/stream/config.rs StreamConfig
//@type transport/stream/transport.rs StreamTransport
//@impl transport/stream/transport.rs StreamTransport inherent = impl<Stream> StreamTransport<Stream>
//@skip stream stream_mut into_stream new_default verif_halves
//@fn new(stream, config) -> r [C02 C03]
	ensures r.stream == stream && r.config == config
//@endimpl
//@impl transport/stream/mod.rs StreamTransport of crate::transport::Transport inherent for=UnixStream = impl StreamTransport<net::UnixStream>
//@skip info
//@fn split() -> r
	ensures [C03 C04]
		r.0.stream.of() == old(self).stream && r.0.max_body_len == old(self).config.max_body_len_read && r.0.endian == old(self).config.endian && r.0.bytes_read == 0,
	ensures [C02]
		r.1.stream.of() == old(self).stream && r.1.max_body_len == old(self).config.max_body_len_write && r.1.endian == old(self).config.endian && r.1.bytes_written == 0,
		r.1.header_buffer is None
//@endimpl
//@impl transport/stream/mod.rs StreamTransport of crate::transport::Transport inherent for=TcpStream = impl StreamTransport<net::TcpStream>
//@skip info
//@fn split() -> r
	ensures [C03 C04]
		r.0.stream.of() == old(self).stream && r.0.max_body_len == old(self).config.max_body_len_read && r.0.endian == old(self).config.endian && r.0.bytes_read == 0,
	ensures [C02]
		r.1.stream.of() == old(self).stream && r.1.max_body_len == old(self).config.max_body_len_write && r.1.endian == old(self).config.endian && r.1.bytes_written == 0,
		r.1.header_buffer is None
//@endimpl
