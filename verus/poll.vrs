// ---------------------------------------------------------------- src/transport/mod.rs: the futures and the implementations that only pass on
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body]
pub struct Context<'a> { x: &'a () }
/// What a transport did, whatever it is used through: the results of the polls, and what was to be written.
pub tracked struct World<B> {
	pub ghost reads: Seq<(int, Poll<Result<Message<B>, TransportError>>)>,
	pub ghost writes: Seq<(int, MessageHeader, B, Poll<Result<(), TransportError>>)>,
	/// Polls of other futures: which, and was it ready?
	pub ghost polls: Seq<(int, bool)>,
}
/// The half with identity `id` was polled once, and this is the result.
pub open spec fn read_polled<B>(a: World<B>, b: World<B>, id: int, r: Poll<Result<Message<B>, TransportError>>) -> bool {
	b == World { reads: a.reads.push((id, r)), ..a }
}
pub open spec fn write_polled<B>(a: World<B>, b: World<B>, id: int, header: MessageHeader, body: B, r: Poll<Result<(), TransportError>>) -> bool {
	b == World { writes: a.writes.push((id, header, body, r)), ..a }
}
pub trait TransportReadHalf: Sized {
	type Body: BodyTrait;
	spec fn id(&self) -> int;
	fn poll_read_msg(&mut self, context: &mut Context, Tracked(w): Tracked<&mut World<Self::Body>>) -> (r: Poll<Result<Message<Self::Body>, TransportError>>)
		ensures (*final(self)).id() == (*old(self)).id() && read_polled(*old(w), *final(w), (*old(self)).id(), r);
}
// The provided method of the trait, as one of a trait of its own: a default method makes a cycle of the implementations for references.
//@impl transport/mod.rs TransportReadHalf of trait world=Self::Body = pub trait TransportReadHalfProvided: TransportReadHalf
//@skip poll_read_msg
//@fn read_msg() -> r ghost [C03 C05 C14] generics none
	ensures *final(w) == *old(w) && r.inner.id() == (*old(self)).id()
//@endimpl
pub trait TransportWriteHalf: Sized {
	type Body: BodyTrait;
	spec fn id(&self) -> int;
	fn poll_write_msg(&mut self, context: &mut Context, header: &MessageHeader, body: &Self::Body, Tracked(w): Tracked<&mut World<Self::Body>>) -> (r: Poll<Result<(), TransportError>>)
		ensures (*final(self)).id() == (*old(self)).id() && write_polled(*old(w), *final(w), (*old(self)).id(), *header, *body, r);
}
// The provided method of the trait, as one of a trait of its own: a default method makes a cycle of the implementations for references.
//@impl transport/mod.rs TransportWriteHalf of trait world=Self::Body = pub trait TransportWriteHalfProvided: TransportWriteHalf
//@skip poll_write_msg
//@fn write_msg(header, body) -> r ghost [C02 C05 C15] generics <'c>
	ensures *final(w) == *old(w) && r.inner.id() == (*old(self)).id() && *r.header == *header && *r.body == *body
//@endimpl
//@type transport/mod.rs ReadMsg #[verifier::reject_recursive_types(T)]
//@type transport/mod.rs WriteMsg #[verifier::reject_recursive_types(T)]
//@impl transport/mod.rs ReadMsg of Future inherent world=T::Body = impl<'c, T: TransportReadHalf> ReadMsg<'c, T>
//@skip Output
//@fn poll(cx) -> r ghost [C03 C05 C14]
	ensures final(self).inner.id() == old(self).inner.id() && read_polled(*old(w), *final(w), old(self).inner.id(), r)
//@endimpl
//@impl transport/mod.rs WriteMsg of Future inherent world=T::Body = impl<'c, T: TransportWriteHalf> WriteMsg<'c, T>
//@skip Output
//@fn poll(cx) -> r ghost [C02 C05 C15]
	ensures final(self).inner.id() == old(self).inner.id() && final(self).header == old(self).header && final(self).body == old(self).body
	ensures write_polled(*old(w), *final(w), old(self).inner.id(), *old(self).header, *old(self).body, r)
//@endimpl
//@impl transport/mod.rs T of TransportReadHalf world=T::Body = impl<'a, T: TransportReadHalf> TransportReadHalf for &'a mut T
//@members
	open spec fn id(&self) -> int { (**self).id() }
//@fn poll_read_msg(context) -> r ghost [C03 C05 C14]
//@endimpl
//@impl transport/mod.rs Box of TransportReadHalf world=T::Body = impl<T: TransportReadHalf> TransportReadHalf for Box<T>
//@members
	open spec fn id(&self) -> int { (**self).id() }
//@fn poll_read_msg(context) -> r ghost [C03 C05 C14]
//@endimpl
//@impl transport/mod.rs T of TransportWriteHalf world=T::Body = impl<'a, T: TransportWriteHalf> TransportWriteHalf for &'a mut T
//@members
	open spec fn id(&self) -> int { (**self).id() }
//@fn poll_write_msg(context, header, body) -> r ghost [C02 C05 C15]
//@endimpl
//@impl transport/mod.rs Box of TransportWriteHalf world=T::Body = impl<T: TransportWriteHalf> TransportWriteHalf for Box<T>
//@members
	open spec fn id(&self) -> int { (**self).id() }
//@fn poll_write_msg(context, header, body) -> r ghost [C02 C05 C15]
//@endimpl

// ---------------------------------------------------------------- src/util/select.rs
/// `std::future::Future` for futures that may be moved.
pub trait Future: Sized {
	type Output;
	spec fn id(&self) -> int;
	fn poll(&mut self, context: &mut Context, Tracked(w): Tracked<&mut World<()>>) -> (r: Poll<Self::Output>)
		ensures
			(*final(self)).id() == (*old(self)).id(),
			*final(w) == (World { polls: old(w).polls.push(((*old(self)).id(), r is Ready)), ..*old(w) });
}
//@type util/select.rs Either
//@type util/select.rs Select
//@free util/select.rs select(a, b) -> r [C13 C14]
	ensures r.inner == Some((a, b))
//@endfree
//@impl util/select.rs Select of Future inherent world=() = impl<A: Future, B: Future> Select<A, B>
//@skip Output
//@fn poll(context) -> r ghost [C13 C14]
	requires old(self).inner is Some
	ensures ({
		let a = old(self).inner->Some_0.0;
		let b = old(self).inner->Some_0.1;
		let q = old(w).polls;
		let p = final(w).polls;
		match r {
			// Nothing is lost: the other future is handed back, and it has not ended.
			Poll::Ready(Either::Left((_, y))) => y.id() == b.id() && (p == q.push((a.id(), true)) || p == q.push((b.id(), false)).push((a.id(), true))),
			Poll::Ready(Either::Right((x, _))) => x.id() == a.id() && (p == q.push((b.id(), true)) || p == q.push((a.id(), false)).push((b.id(), true))),
			// Both have been polled, so both will wake this task.
			Poll::Pending => (p == q.push((a.id(), false)).push((b.id(), false)) || p == q.push((b.id(), false)).push((a.id(), false)))
				&& final(self).inner is Some && final(self).inner->Some_0.0.id() == a.id() && final(self).inner->Some_0.1.id() == b.id(),
		}
	})
//@endimpl
