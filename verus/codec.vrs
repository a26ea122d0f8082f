// ---------------------------------------------------------------- src/transport/endian.rs
//@type transport/endian.rs Endian #[derive(Copy, Clone, PartialEq, Eq, Structural)]
impl Endian {
	/// The four bytes of a number in this byte order.
	pub open spec fn enc(self, v: u32) -> Seq<u8> {
		match self { Endian::LittleEndian => le_bytes(v), Endian::BigEndian => be_bytes(v), Endian::NativeEndian => ne_bytes(v) }
	}
}
pub proof fn lemma_enc_injective(e: Endian, a: u32, b: u32)
	requires e.enc(a) == e.enc(b)
	ensures a == b
{
	if e.enc(a) == le_bytes(a) && e.enc(b) == le_bytes(b) { lemma_le_bytes_injective(a, b); } else { lemma_be_bytes_injective(a, b); }
}
//@impl transport/endian.rs Endian
//@fn read_u32(buffer) -> r [C01 C03 C04]
	requires buffer@.len() >= 4
	ensures self.enc(r) == buffer@.subrange(0, 4)
//@fn write_u32(buffer, value) [C01 C02]
	requires old(buffer)@.len() >= 4
	ensures final(buffer)@ =~= self.enc(value) + old(buffer)@.subrange(4, old(buffer)@.len() as int)
//@fn read_i32(buffer) -> r [C01 C03]
	requires buffer@.len() >= 4
	ensures self.enc(unsigned(r)) == buffer@.subrange(0, 4)
//@fn write_i32(buffer, value) [C01 C02]
	requires old(buffer)@.len() >= 4
	ensures final(buffer)@ =~= self.enc(unsigned(value)) + old(buffer)@.subrange(4, old(buffer)@.len() as int)
//@endimpl

// ---------------------------------------------------------------- src/message.rs, the codec
/// The numbers of the message types on the wire.
pub proof fn message_type_numbers()
	ensures // [C01]
		type_number(MessageType::Request) == 0, type_number(MessageType::Response) == 1, type_number(MessageType::RequesterUpdate) == 2,
		type_number(MessageType::ResponderUpdate) == 3, type_number(MessageType::Stream) == 4,
{}
/// The 12 bytes of a header.
pub open spec fn wire_header(h: MessageHeader, e: Endian) -> Seq<u8> {
	e.enc(type_number(h.message_type)) + e.enc(h.request_id) + e.enc(unsigned(h.service_id))
}
/// What the property says about decoding the 12 bytes `s`.
pub open spec fn decodes(s: Seq<u8>, e: Endian, r: Result<MessageHeader, Error>) -> bool {
	&&& forall|h: MessageHeader| s == wire_header(h, e) ==> r == Ok::<MessageHeader, Error>(h)
	&&& match r {
		Ok(h) => s == wire_header(h, e),
		Err(err) => exists|v: u32| err.inner == (InnerError::InvalidMessageType { value: v }) && v > 4 && e.enc(v) == #[trigger] s.subrange(0, 4) && e.enc(v) == e.enc(v),
	}
}
pub proof fn lemma_wire_parts(h: MessageHeader, e: Endian)
	ensures
		wire_header(h, e).len() == 12,
		wire_header(h, e).subrange(0, 4) == e.enc(type_number(h.message_type)),
		wire_header(h, e).subrange(4, 8) == e.enc(h.request_id),
		wire_header(h, e).subrange(8, 12) == e.enc(unsigned(h.service_id)),
{
	assert(wire_header(h, e).subrange(0, 4) =~= e.enc(type_number(h.message_type)));
	assert(wire_header(h, e).subrange(4, 8) =~= e.enc(h.request_id));
	assert(wire_header(h, e).subrange(8, 12) =~= e.enc(unsigned(h.service_id)));
}
/// Different headers have different bytes: what is decoded is what was encoded.
pub proof fn lemma_wire_injective(a: MessageHeader, b: MessageHeader, e: Endian)
	requires wire_header(a, e) == wire_header(b, e)
	ensures a == b
{
	lemma_wire_parts(a, e); lemma_wire_parts(b, e);
	lemma_enc_injective(e, type_number(a.message_type), type_number(b.message_type));
	lemma_enc_injective(e, a.request_id, b.request_id);
	lemma_enc_injective(e, unsigned(a.service_id), unsigned(b.service_id));
}
/// The three fields read from 12 bytes decide the result.
pub proof fn lemma_decodes(s: Seq<u8>, e: Endian, t: u32, id: u32, service: i32, r: Result<MessageHeader, Error>)
	requires s.len() == 12, s.subrange(0, 4) == e.enc(t), s.subrange(4, 8) == e.enc(id), s.subrange(8, 12) == e.enc(unsigned(service)),
		match r {
			Ok(h) => type_number(h.message_type) == t && h.request_id == id && h.service_id == service,
			Err(err) => t > 4 && err.inner == (InnerError::InvalidMessageType { value: t }),
		},
	ensures decodes(s, e, r)
{
	assert forall|h: MessageHeader| s == wire_header(h, e) implies r == Ok::<MessageHeader, Error>(h) by {
		lemma_wire_parts(h, e);
		lemma_enc_injective(e, type_number(h.message_type), t);
		lemma_enc_injective(e, h.request_id, id);
		lemma_enc_injective(e, unsigned(h.service_id), unsigned(service));
	}
	match r {
		Ok(h) => { assert(s =~= wire_header(h, e)) by { assert(s =~= s.subrange(0, 4) + s.subrange(4, 8) + s.subrange(8, 12)); } }
		Err(err) => { assert(err.inner == (InnerError::InvalidMessageType { value: t }) && t > 4 && e.enc(t) == s.subrange(0, 4)); }
	}
}
/// The message type alone decides that a header is refused.
pub proof fn lemma_refuses(s: Seq<u8>, e: Endian, t: u32, r: Result<MessageHeader, Error>)
	requires s.len() == 12, s.subrange(0, 4) == e.enc(t), t > 4, r is Err, r->Err_0.inner == (InnerError::InvalidMessageType { value: t })
	ensures decodes(s, e, r)
{
	assert forall|h: MessageHeader| s == wire_header(h, e) implies false by {
		lemma_wire_parts(h, e);
		lemma_enc_injective(e, type_number(h.message_type), t);
	}
}
//@impl message.rs MessageType
//@skip is_request is_response is_requester_update is_responder_update is_stream
//@fn from_u32(value) -> r [C01 C04]
	ensures match r { Ok(t) => type_number(t) == value, Err(e) => value > 4 && e.inner == (InnerError::InvalidMessageType { value }) }
//@endimpl
//@impl message.rs MessageHeader
//@skip request response error_response requester_update responder_update stream
//@fn decode(buffer, endian) -> r [C01 C03 C04 C05]
	requires buffer@.len() >= 12
	ensures decodes(buffer@.subrange(0, 12), endian, r)
//@proof
	let ghost s = buffer@.subrange(0, 12);
	proof {
		let n = buffer@.len() as int;
		assert(buffer@.subrange(0, n).subrange(0, 4) =~= s.subrange(0, 4));
		assert(buffer@.subrange(4, n).subrange(0, 4) =~= s.subrange(4, 8));
		assert(buffer@.subrange(8, n).subrange(0, 4) =~= s.subrange(8, 12));
		assert(buffer@.subrange(0, 4) =~= s.subrange(0, 4));
		assert(buffer@.subrange(4, 8).subrange(0, 4) =~= s.subrange(4, 8));
		assert(buffer@.subrange(8, 12).subrange(0, 4) =~= s.subrange(8, 12));
		assert forall|t: u32, id: u32, service: i32, r: Result<MessageHeader, Error>|
			s.subrange(0, 4) == #[trigger] endian.enc(t) && s.subrange(4, 8) == #[trigger] endian.enc(id) && s.subrange(8, 12) == endian.enc(#[trigger] unsigned(service))
			&& (match r {
				Ok(h) => type_number(h.message_type) == t && h.request_id == id && h.service_id == service,
				Err(err) => t > 4 && err.inner == (InnerError::InvalidMessageType { value: t }),
			}) implies #[trigger] decodes(s, endian, r) by { lemma_decodes(s, endian, t, id, service, r); }
		assert forall|t: u32, r: Result<MessageHeader, Error>|
			s.subrange(0, 4) == #[trigger] endian.enc(t) && t > 4 && r is Err && r->Err_0.inner == (InnerError::InvalidMessageType { value: t })
			implies #[trigger] decodes(s, endian, r) by { lemma_refuses(s, endian, t, r); }
	}
//@fn encode(buffer, endian) [C01 C02 C05]
	requires old(buffer)@.len() >= 12
	ensures final(buffer)@ =~= wire_header(*self, endian) + old(buffer)@.subrange(12, old(buffer)@.len() as int)
//@endimpl
