// ---------------------------------------------------------------- src/error.rs
//@type error.rs RecvMessageError
//@impl error.rs RecvMessageError of From<Error> inherent
//@fn from(other) -> r [C17]
	ensures r == RecvMessageError::<Body>::Other(other)
//@endimpl
//@impl error.rs RecvMessageError
//@skip *
//@fn request_handle() -> r [C17]
	ensures match *self { RecvMessageError::UnknownRequest(request, _) => r == Some(&request), RecvMessageError::InvalidRequest(request, _) => r == Some(&request), _ => r is None }
//@fn request_handle_mut() -> r [C17]
	ensures match *old(self) {
		RecvMessageError::UnknownRequest(request, b) => r is Some && *r->0 == request && *final(self) == RecvMessageError::UnknownRequest(*final(r->0), b),
		RecvMessageError::InvalidRequest(request, e) => r is Some && *r->0 == request && *final(self) == RecvMessageError::InvalidRequest(*final(r->0), e),
		_ => r is None && *final(self) == *old(self),
	}
//@endimpl
impl<Body> Convert<RecvMessageError<Body>> for Error {
	open spec fn spec_convert(self) -> RecvMessageError<Body> { RecvMessageError::Other(self) }
	fn convert(self) -> (r: RecvMessageError<Body>) { RecvMessageError::from(self) }
}
