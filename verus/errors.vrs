// ---------------------------------------------------------------- src/error.rs
//@type error.rs UnexpectedMessageType
//@type error.rs InnerError
//@type error.rs Error
//@impl error.rs Error of From<private::InnerError>
//@fn from(error) -> r
//@endimpl
impl FromSpecImpl<InnerError> for Error {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(error: InnerError) -> Error { Error { inner: error } }
}
//@impl error.rs InnerError of From<std::io::Error>
//@fn from(error) -> r
//@endimpl
impl FromSpecImpl<IoError> for InnerError {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(error: IoError) -> InnerError { InnerError::Io(error) }
}
//@impl error.rs InnerError of From<UnexpectedMessageType>
//@fn from(error) -> r
//@endimpl
impl FromSpecImpl<UnexpectedMessageType> for InnerError {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(error: UnexpectedMessageType) -> InnerError { InnerError::UnexpectedMessageType(error) }
}
//@impl error.rs Error of From<std::io::Error>
//@fn from(other) -> r
//@endimpl
impl FromSpecImpl<IoError> for Error {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(error: IoError) -> Error { Error { inner: InnerError::Io(error) } }
}
impl Error {
	pub open spec fn aborted(&self) -> bool {
		match self.inner { InnerError::Io(e) => e.spec_kind() == ErrorKind::ConnectionAborted, _ => false }
	}
}
//@impl error.rs Error
//@skip *
//@fn io_error(error) -> r
	ensures r.inner == InnerError::Io(error)
//@fn invalid_message_type(value) -> r [C01]
	ensures r.inner == (InnerError::InvalidMessageType { value })
//@fn payload_too_large(body_len, max_len) -> r
	ensures r.inner == (InnerError::PayloadTooLarge { body_len, max_len })
//@fn message_too_short(message_len) -> r
	ensures r.inner == (InnerError::MessageTooShort { message_len })
//@fn unexpected_service_id(service_id) -> r [C17]
	ensures r.inner == (InnerError::UnexpectedServiceId { service_id })
//@fn encode_failed(inner) -> r [C17]
	ensures r.inner == InnerError::EncodeFailed(inner)
//@fn decode_failed(inner) -> r [C16 C17]
	ensures r.inner == InnerError::DecodeFailed(inner)
//@fn remote_error(message) -> r [C16]
	ensures r.inner == InnerError::RemoteError(message)
//@fn is_connection_aborted() -> r [C11 C13]
	ensures r == self.aborted()
//@fn is_unexpected_message_type() -> r [C11]
	ensures r == (self.inner is UnexpectedMessageType)
//@fn is_remote_error() -> r [C16]
	ensures r == (self.inner is RemoteError)
//@fn as_remote_error() -> r [C16]
	ensures match r { Some(m) => self.inner is RemoteError && m@ == self.inner->RemoteError_0@, None => !(self.inner is RemoteError) }
//@fn into_remote_error() -> r [C16]
	ensures r == (match self.inner { InnerError::RemoteError(m) => Some(m), _ => None })
//@endimpl
//@free error.rs connection_aborted() -> r [C11 C13]
	ensures r.aborted()
//@proof
	broadcast use axiom_io_error_of_kind;
//@endfree
//@free error.rs check_message_too_short(message_len) -> r
	ensures r is Ok <==> message_len >= 12
	ensures match r { Err(e) => e == (InnerError::MessageTooShort { message_len }), Ok(()) => true }
//@endfree
//@free error.rs check_payload_too_large(body_len, max_len) -> r
	ensures r is Ok <==> body_len <= max_len
	ensures match r { Err(e) => e == (InnerError::PayloadTooLarge { body_len, max_len }), Ok(()) => true }
//@endfree
impl Convert<Error> for Error {
	open spec fn spec_convert(self) -> Error { self }
	fn convert(self) -> (r: Error) { self }
}
impl Convert<Error> for InnerError {
	open spec fn spec_convert(self) -> Error { Error { inner: self } }
	fn convert(self) -> (r: Error) { Error::from(self) }
}
impl Convert<Error> for IoError {
	open spec fn spec_convert(self) -> Error { Error { inner: InnerError::Io(self) } }
	fn convert(self) -> (r: Error) { Error::from(self) }
}
impl Convert<IoError> for IoError {
	open spec fn spec_convert(self) -> IoError { self }
	fn convert(self) -> (r: IoError) { self }
}
