// ---------------------------------------------------------------- trusted prelude: tokio's AsyncRead, AsyncWrite and ReadBuf, std's Poll, IoSlice and Vec
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body]
pub struct Context<'a> { x: &'a () }
/// `tokio::io::ReadBuf`: a buffer with a filled part.
pub struct ReadBuf<'a> { pub buf: &'a mut [u8], pub len: usize }
impl<'a> ReadBuf<'a> {
	pub open spec fn bytes(&self) -> Seq<u8> { self.buf@ }
	#[verifier::external_body]
	pub fn new(buf: &'a mut [u8]) -> (r: Self)
		ensures r.len == 0, r.buf@ == old(buf)@, final(r.buf)@ == final(buf)@
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn filled(&self) -> (r: &[u8])
		requires self.len <= self.bytes().len()
		ensures r@ == self.bytes().take(self.len as int)
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn remaining(&self) -> (r: usize)
		requires self.len <= self.bytes().len()
		ensures r == self.bytes().len() - self.len
	{ unimplemented!() }
}
/// What the last poll of a stream gave.
pub enum Last { Data, Eof, Pending, Failed(IoError), Other }
pub trait AsyncRead: Sized {
	/// Everything that was read from the stream so far.
	spec fn consumed(&self) -> Seq<u8>;
	spec fn last(&self) -> Last;
	/// A buffer without room would make a zero-sized read look like the end of the stream.
	fn poll_read(&mut self, context: &mut Context, buf: &mut ReadBuf) -> (r: Poll<Result<(), IoError>>)
		requires old(buf).len < old(buf).buf@.len(),
		ensures
			final(final(buf).buf)@ == final(old(buf).buf)@,
			final(buf).buf@.len() == old(buf).buf@.len(),
			old(buf).len <= final(buf).len <= final(buf).buf@.len(),
			final(buf).buf@.take(old(buf).len as int) == old(buf).buf@.take(old(buf).len as int),
			match r {
				Poll::Ready(Ok(())) => {
					&&& final(self).consumed() == old(self).consumed() + final(buf).buf@.subrange(old(buf).len as int, final(buf).len as int)
					&&& final(self).last() == (if final(buf).len == old(buf).len { Last::Eof } else { Last::Data })
				},
				Poll::Ready(Err(e)) => final(self).consumed() == old(self).consumed() && final(buf).len == old(buf).len && final(self).last() == Last::Failed(e),
				Poll::Pending => final(self).consumed() == old(self).consumed() && final(buf).len == old(buf).len && final(self).last() == Last::Pending,
			};
}
#[verifier::external_body]
pub struct IoSlice<'a> { x: &'a () }
impl<'a> IoSlice<'a> {
	pub uninterp spec fn view(&self) -> Seq<u8>;
	#[verifier::external_body]
	pub fn new(s: &'a [u8]) -> (r: Self) ensures r@ == s@ { unimplemented!() }
}
/// Everything in a list of buffers.
pub open spec fn gathered(s: Seq<IoSlice>) -> Seq<u8>
	decreases s.len()
{
	if s.len() == 0 { Seq::empty() } else { s[0]@ + gathered(s.drop_first()) }
}
pub broadcast proof fn lemma_gathered(s: Seq<IoSlice>)
	requires s.len() <= 3
	ensures #[trigger] gathered(s) == (if s.len() == 0 { Seq::<u8>::empty() } else if s.len() == 1 { s[0]@ } else if s.len() == 2 { s[0]@ + s[1]@ } else { s[0]@ + s[1]@ + s[2]@ })
{
	reveal_with_fuel(gathered, 4);
	assert(gathered(s) =~= (if s.len() == 0 { Seq::<u8>::empty() } else if s.len() == 1 { s[0]@ } else if s.len() == 2 { s[0]@ + s[1]@ } else { s[0]@ + s[1]@ + s[2]@ }));
}
pub trait AsyncWrite: Sized {
	/// Everything that was written to the stream so far.
	spec fn written(&self) -> Seq<u8>;
	spec fn last(&self) -> Last;
	fn poll_write_vectored(&mut self, context: &mut Context, bufs: &[IoSlice]) -> (r: Poll<Result<usize, IoError>>)
		ensures match r {
			Poll::Ready(Ok(n)) => {
				&&& n <= gathered(bufs@).len()
				&&& final(self).written() == old(self).written() + gathered(bufs@).take(n as int)
				&&& final(self).last() == (if n == 0 { Last::Eof } else { Last::Data })
			},
			Poll::Ready(Err(e)) => final(self).written() == old(self).written() && final(self).last() == Last::Failed(e),
			Poll::Pending => final(self).written() == old(self).written() && final(self).last() == Last::Pending,
		};
	fn poll_write(&mut self, context: &mut Context, buf: &[u8]) -> (r: Poll<Result<usize, IoError>>)
		ensures match r {
			Poll::Ready(Ok(n)) => {
				&&& n <= buf@.len()
				&&& final(self).written() == old(self).written() + buf@.take(n as int)
				&&& final(self).last() == (if n == 0 { Last::Eof } else { Last::Data })
			},
			Poll::Ready(Err(e)) => final(self).written() == old(self).written() && final(self).last() == Last::Failed(e),
			Poll::Pending => final(self).written() == old(self).written() && final(self).last() == Last::Pending,
		};
}
/// `vec![x; n]`
#[verifier::external_body]
pub fn vec_filled(x: u8, n: usize) -> (r: Vec<u8>)
	ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ unimplemented!() }
/// `std::mem::take` of a `Vec`.
#[verifier::external_body]
pub fn mem_take<T>(v: &mut Vec<T>) -> (r: Vec<T>)
	ensures r@ == old(v)@, final(v)@.len() == 0
{ unimplemented!() }
impl Convert<Vec<u8>> for Vec<u8> {
	open spec fn spec_convert(self) -> Vec<u8> { self }
	fn convert(self) -> (r: Vec<u8>) { self }
}
impl Convert<IoError> for ErrorKind {
	open spec fn spec_convert(self) -> IoError { io_error_of_kind(self) }
	fn convert(self) -> (r: IoError) { IoError::from(self) }
}
