// ---------------------------------------------------------------- src/format.rs
/// The traits of `crate::format`. What a format does is up to the user: a value may be encoded and a body decoded in any way, or be refused.
pub trait Format: Sized {
	type Body: BodyTrait;
}
pub trait EncodeBody<T>: Format {
	/// This may come out of encoding the value.
	spec fn can_encode(value: T, r: Result<Self::Body, BoxError>) -> bool;
	fn encode_body(value: &T) -> (r: Result<Self::Body, BoxError>) ensures Self::can_encode(*value, r);
}
pub trait DecodeBody<T>: Format {
	/// This may come out of decoding the body.
	spec fn can_decode(body: Self::Body, r: Result<T, BoxError>) -> bool;
	fn decode_body(body: Self::Body) -> (r: Result<T, BoxError>) ensures Self::can_decode(body, r);
}
pub trait ToMessage<F: Format> {
	spec fn message_of(&self, r: Result<(i32, F::Body), BoxError>) -> bool;
	fn to_message(&self) -> (r: Result<(i32, F::Body), BoxError>) ensures self.message_of(r);
}
pub trait FromMessage<F: Format>: Sized {
	spec fn message_to(message: Message<F::Body>, r: Result<Self, Error>) -> bool;
	fn from_message(message: Message<F::Body>) -> (r: Result<Self, Error>) ensures Self::message_to(message, r);
}
impl<B: BodyTrait> Convert<B> for B {
	open spec fn spec_convert(self) -> B { self }
	fn convert(self) -> (r: B) { self }
}
impl Convert<BoxError> for BoxError {
	open spec fn spec_convert(self) -> BoxError { self }
	fn convert(self) -> (r: BoxError) { self }
}
/// `Box::new(e)` as `Box<dyn Error + Send>`.
#[verifier::external_body]
pub fn boxed_error<T>(e: T) -> (r: BoxError) { unimplemented!() }
//@type error.rs ParseUpdateError

// ---------------------------------------------------------------- what the generated code has to do
/// A message with an encoded value was sent for a request, or the value can not be encoded.
pub open spec fn typed_sent<F: EncodeBody<T>, T>(a: World<F::Body>, b: World<F::Body>, ch: Ch, t: MessageType, request_id: u32, service_id: i32, value: T, flag: int, r: Result<(), Error>) -> bool {
	exists|enc: Result<F::Body, BoxError>| #[trigger] F::can_encode(value, enc) && match enc {
		Err(e) => r is Err && r->Err_0.inner == InnerError::EncodeFailed(e) && nothing_sent(a, b),
		Ok(body) => request_sent(a, b, ch, msg(t, request_id, service_id, body), flag, r),
	}
}
/// A stream message with an encoded value was sent, or the value can not be encoded.
pub open spec fn typed_stream<F: EncodeBody<T>, T>(a: World<F::Body>, b: World<F::Body>, ch: Ch, service_id: i32, value: T, r: Result<(), Error>) -> bool {
	exists|enc: Result<F::Body, BoxError>| #[trigger] F::can_encode(value, enc) && match enc {
		Err(e) => r is Err && r->Err_0.inner == InnerError::EncodeFailed(e) && nothing_sent(a, b),
		Ok(body) => raw_sent(a, b, ch, msg(MessageType::Stream, 0, service_id, body), None, r),
	}
}
/// A request with an encoded value was sent, or the value can not be encoded.
pub open spec fn typed_open<F: EncodeBody<T>, T>(a: World<F::Body>, b: World<F::Body>, ch: Ch, service_id: i32, value: T, r: Result<SentRequestHandle<F::Body>, Error>) -> bool {
	exists|enc: Result<F::Body, BoxError>| #[trigger] F::can_encode(value, enc) && match enc {
		Err(e) => r is Err && r->Err_0.inner == InnerError::EncodeFailed(e) && nothing_sent(a, b),
		Ok(body) => open_sent(a, b, ch, service_id, body, r),
	}
}
/// What a response means to the one who sent the request.
pub open spec fn response_means<F: DecodeBody<T>, T>(m: Message<F::Body>, r: Result<T, Error>) -> bool {
	if m.header.service_id == -1 {
		r matches Err(e) && match e.inner {
			InnerError::RemoteError(text) => m.body.is_error(text@),
			InnerError::DecodeFailed(_) => forall|t: Seq<char>| !m.body.is_error(t),
			_ => false,
		}
	} else {
		match r {
			Ok(v) => F::can_decode(m.body, Ok(v)),
			Err(e) => e.inner matches InnerError::DecodeFailed(x) && F::can_decode(m.body, Err(x)),
		}
	}
}
/// What receiving the response gives, with these messages pending.
pub open spec fn typed_response<F: DecodeBody<T>, T>(p: Seq<Message<F::Body>>, r: Result<T, Error>) -> bool {
	if p.len() == 0 {
		r is Err && r->Err_0.aborted()
	} else if p[0].header.message_type is Response {
		response_means::<F, T>(p[0], r)
	} else {
		r matches Err(e) && e.inner matches InnerError::UnexpectedMessageType(x) && x.value == p[0].header.message_type && x.expected is Response
	}
}
/// A request with an encoded value was sent and the response received, or the value can not be encoded.
pub open spec fn typed_call<F: EncodeBody<Q> + DecodeBody<P>, Q, P>(a: World<F::Body>, b: World<F::Body>, ch: Ch, service_id: i32, value: Q, r: Result<P, Error>) -> bool {
	exists|enc: Result<F::Body, BoxError>| #[trigger] <F as EncodeBody<Q>>::can_encode(value, enc) && match enc {
		Err(e) => r is Err && r->Err_0.inner == InnerError::EncodeFailed(e) && nothing_sent(a, b),
		Ok(body) => exists|s: Result<SentRequestHandle<F::Body>, Error>, w: World<F::Body>| #[trigger] open_sent(a, w, ch, service_id, body, s) && nothing_sent(w, b) && match s {
			Err(e) => r is Err && r->Err_0 == e,
			Ok(h) => typed_response::<F, P>(h.pending(), r),
		},
	}
}
