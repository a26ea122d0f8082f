// ---------------------------------------------------------------- src/message.rs
//@const message.rs HEADER_LEN
//@const message.rs MAX_PAYLOAD_LEN
//@const message.rs ERROR
//@type message.rs MessageType #[derive(Copy, Clone, PartialEq, Eq, Structural)] #[repr(u32)]
//@type message.rs MessageHeader #[derive(Copy, Clone, PartialEq, Eq, Structural)]
//@type message.rs Message

pub open spec fn type_number(t: MessageType) -> u32 { t as u32 }
impl Cast for MessageType {
	open spec fn number(self) -> int { type_number(self) as int }
	fn cast_u32(self) -> (r: u32) { self as u32 }
	fn cast_i32(self) -> (r: i32) { self as i32 }
}
/// The trait `crate::Body`.
pub trait BodyTrait: Sized {
	/// This is the body of an error response with this text.
	spec fn is_error(&self, text: Seq<char>) -> bool;
	/// No body stands for two texts.
	proof fn one_text(&self, a: Seq<char>, b: Seq<char>) requires self.is_error(a), self.is_error(b) ensures a == b;
	fn empty() -> Self;
	fn from_error(message: &str) -> (r: Self) ensures r.is_error(message@);
	fn as_error(&self) -> (r: Result<&str, Utf8Error>) ensures match r { Ok(s) => self.is_error(s@), Err(_) => forall|t: Seq<char>| !self.is_error(t) };
	fn into_error(self) -> (r: Result<String, FromUtf8Error>) ensures match r { Ok(s) => self.is_error(s@), Err(_) => forall|t: Seq<char>| !self.is_error(t) };
}
/// An error response with this text.
pub open spec fn error_message<B: BodyTrait>(m: Message<B>, request_id: u32, text: Seq<char>) -> bool {
	m.header == header(MessageType::Response, request_id, -1i32) && m.body.is_error(text)
}

pub open spec fn header(t: MessageType, request_id: u32, service_id: i32) -> MessageHeader {
	MessageHeader { message_type: t, request_id, service_id }
}
pub open spec fn msg<B>(t: MessageType, request_id: u32, service_id: i32, body: B) -> Message<B> {
	Message { header: header(t, request_id, service_id), body }
}
//@impl message.rs MessageType
//@skip from_u32
//@fn is_request() -> r [C01 C15]
	ensures r == (self == MessageType::Request)
//@fn is_response() -> r [C01 C09 C11]
	ensures r == (self == MessageType::Response)
//@fn is_requester_update() -> r [C01 C11]
	ensures r == (self == MessageType::RequesterUpdate)
//@fn is_responder_update() -> r [C01 C11]
	ensures r == (self == MessageType::ResponderUpdate)
//@fn is_stream() -> r [C01 C11]
	ensures r == (self == MessageType::Stream)
//@endimpl
//@impl message.rs MessageHeader
//@skip encode decode
//@fn request(request_id, service_id) -> r [C15]
	ensures r == header(MessageType::Request, request_id, service_id)
//@fn response(request_id, service_id) -> r [C15]
	ensures r == header(MessageType::Response, request_id, service_id)
//@fn error_response(request_id) -> r [C15 C16]
	ensures r == header(MessageType::Response, request_id, -1i32)
//@fn requester_update(request_id, service_id) -> r [C15]
	ensures r == header(MessageType::RequesterUpdate, request_id, service_id)
//@fn responder_update(request_id, service_id) -> r [C15]
	ensures r == header(MessageType::ResponderUpdate, request_id, service_id)
//@fn stream(request_id, service_id) -> r [C15]
	ensures r == header(MessageType::Stream, request_id, service_id)
//@endimpl
//@impl message.rs Message
//@fn new(header, body) -> r [C15]
	ensures r.header == header, r.body == body
//@fn request(request_id, service_id, body) -> r [C15]
	ensures r == msg(MessageType::Request, request_id, service_id, body)
//@fn response(request_id, service_id, body) -> r [C15]
	ensures r == msg(MessageType::Response, request_id, service_id, body)
//@fn error_response(request_id, message) -> r [C12 C16]
	ensures error_message(r, request_id, message@)
//@fn requester_update(request_id, service_id, body) -> r [C15]
	ensures r == msg(MessageType::RequesterUpdate, request_id, service_id, body)
//@fn responder_update(request_id, service_id, body) -> r [C15]
	ensures r == msg(MessageType::ResponderUpdate, request_id, service_id, body)
//@fn stream(request_id, service_id, body) -> r [C15]
	ensures r == msg(MessageType::Stream, request_id, service_id, body)
//@endimpl
