/// One call of `write_msg`.
pub struct WriteCall<B> { pub msg: Message<B>, pub res: Result<(), TransportError> }
pub open spec fn fatal<T>(r: Result<T, TransportError>) -> bool {
	match r { Ok(_) => false, Err(e) => e.is_fatal }
}
/// The write half of any transport, as seen by the peer.
pub trait TransportWriteHalf: Sized {
	type Body: BodyTrait;
	/// The messages written so far, with the results.
	spec fn calls(&self) -> Seq<WriteCall<Self::Body>>;
	fn write_msg(&mut self, header: &MessageHeader, body: &Self::Body) -> (r: Result<(), TransportError>)
		requires !write_dead(old(self).calls())
		ensures final(self).calls() == old(self).calls().push(WriteCall { msg: Message { header: *header, body: *body }, res: r });
}
/// The read half of any transport, as seen by the peer.
pub trait TransportReadHalf: Sized {
	type Body: BodyTrait;
	/// The results of reading so far.
	spec fn reads(&self) -> Seq<Result<Message<Self::Body>, TransportError>>;
	fn read_msg(&mut self) -> (r: Result<Message<Self::Body>, TransportError>)
		requires !read_dead(old(self).reads())
		ensures final(self).reads() == old(self).reads().push(r);
}
/// A write failed with a fatal error.
pub open spec fn write_dead<B>(c: Seq<WriteCall<B>>) -> bool { c.len() > 0 && fatal(c.last().res) }
/// A read failed with a fatal error.
pub open spec fn read_dead<B>(c: Seq<Result<Message<B>, TransportError>>) -> bool { c.len() > 0 && fatal(c.last()) }
