//@include head.vrs
//@include base.vrs
//@include bytes.vrs
//@include message.vrs
//@include errors.vrs
//@include body.vrs
impl Convert<Vec<u8>> for Vec<u8> {
	open spec fn spec_convert(self) -> Vec<u8> { self }
	fn convert(self) -> (r: Vec<u8>) { self }
}
#[verifier::external_body]
pub struct FileDesc { x: () }

// ---------------------------------------------------------------- src/transport/stream/body.rs
//@type transport/stream/body.rs StreamBody
//@impl transport/stream/body.rs StreamBody of From<T> inherent = impl StreamBody
//@fn from(other) -> r [C16] generics <T: Convert<Vec<u8>>>
	ensures r.data == other.spec_convert()
//@endimpl
pub broadcast axiom fn axiom_vec_of_str(x: &str) ensures (#[trigger] vec_of::<&str>(x))@ == utf8(x@);
impl<'a> Convert<Vec<u8>> for &'a str {
	open spec fn spec_convert(self) -> Vec<u8> { vec_of(self) }
	#[verifier::external_body] fn convert(self) -> (r: Vec<u8>) { unimplemented!() }
}
pub broadcast axiom fn axiom_vec_of_string(x: String) ensures (#[trigger] vec_of::<String>(x))@ == utf8(x@);
impl Convert<Vec<u8>> for String {
	open spec fn spec_convert(self) -> Vec<u8> { vec_of(self) }
	#[verifier::external_body] fn convert(self) -> (r: Vec<u8>) { unimplemented!() }
}
//@impl transport/stream/body.rs StreamBody
//@fn new(data) -> r [C16]
	ensures r.data == data
//@endimpl
//@impl transport/stream/body.rs StreamBody of crate::Body
//@members
	open spec fn is_error(&self, text: Seq<char>) -> bool { self.data@ == utf8(text) }
	proof fn one_text(&self, a: Seq<char>, b: Seq<char>) { broadcast use lemma_utf8_injective; }
//@fn empty() -> r [C16]
//@fn from_error(message) -> r [C16]
//@proof
	broadcast use {axiom_vec_of, axiom_vec_of_str, axiom_vec_of_string, lemma_clones_bytes};
//@fn as_error() -> r [C16]
//@fn into_error() -> r [C16]
//@endimpl

// ---------------------------------------------------------------- src/transport/unix/body.rs
impl FromSpecImpl<Vec<u8>> for UnixBody {
	open spec fn obeys_from_spec() -> bool { false }
	open spec fn from_spec(other: Vec<u8>) -> UnixBody { arbitrary() }
}
impl<'a> FromSpecImpl<&'a [u8]> for UnixBody {
	open spec fn obeys_from_spec() -> bool { false }
	open spec fn from_spec(other: &'a [u8]) -> UnixBody { arbitrary() }
}
impl FromSpecImpl<Box<[u8]>> for UnixBody {
	open spec fn obeys_from_spec() -> bool { false }
	open spec fn from_spec(other: Box<[u8]>) -> UnixBody { arbitrary() }
}
pub uninterp spec fn no_fds() -> Vec<FileDesc>;
pub broadcast axiom fn axiom_no_fds() ensures #[trigger] no_fds()@.len() == 0;
impl Convert<UnixBody> for Vec<u8> {
	open spec fn spec_convert(self) -> UnixBody { UnixBody { data: self, fds: no_fds() } }
	fn convert(self) -> (r: UnixBody) {
		let r = UnixBody::from(self);
		proof { broadcast use axiom_no_fds; assert(r.fds@ =~= no_fds()@); axiom_vec_value(r.fds, no_fds()); axiom_vec_value(r.data, self); }
		r
	}
}
impl Convert<UnixBody> for Box<[u8]> {
	open spec fn spec_convert(self) -> UnixBody { UnixBody { data: vec_of(self), fds: no_fds() } }
	fn convert(self) -> (r: UnixBody) {
		broadcast use {axiom_no_fds, axiom_vec_of, axiom_vec_of_str, axiom_vec_of_string, lemma_clones_bytes, axiom_vec_of_box};
		let r = UnixBody::from(self);
		proof { assert(r.fds@ =~= no_fds()@); axiom_vec_value(r.fds, no_fds()); axiom_vec_value(r.data, vec_of(self)); }
		r
	}
}
impl<'a> Convert<UnixBody> for &'a [u8] {
	open spec fn spec_convert(self) -> UnixBody { UnixBody { data: vec_of(self), fds: no_fds() } }
	fn convert(self) -> (r: UnixBody) {
		broadcast use {axiom_no_fds, axiom_vec_of, axiom_vec_of_str, axiom_vec_of_string, lemma_clones_bytes, axiom_vec_of_box};
		let r = UnixBody::from(self);
		proof { assert(r.fds@ =~= no_fds()@); axiom_vec_value(r.fds, no_fds()); axiom_vec_value(r.data, vec_of(self)); }
		r
	}
}
//@type transport/unix/body.rs UnixBody
//@impl transport/unix/body.rs UnixBody of From<Vec<u8>>
//@fn from(other) -> r [C16]
	ensures r.data@ == other@ && r.fds@.len() == 0
//@proof
	broadcast use {axiom_no_fds, axiom_vec_of, axiom_vec_of_str, axiom_vec_of_string, lemma_clones_bytes, axiom_vec_of_box, axiom_box_of};
//@endimpl
//@impl transport/unix/body.rs UnixBody of From<&'a[u8]>
//@fn from(other) -> r [C16]
	ensures r.data@ == other@ && r.fds@.len() == 0
//@proof
	broadcast use {axiom_no_fds, axiom_vec_of, axiom_vec_of_str, axiom_vec_of_string, lemma_clones_bytes, axiom_vec_of_box, axiom_box_of};
//@endimpl
//@impl transport/unix/body.rs UnixBody of From<Box<[u8]>>
//@fn from(other) -> r [C16]
	ensures r.data@ == other@ && r.fds@.len() == 0
//@proof
	broadcast use {axiom_no_fds, axiom_vec_of, axiom_vec_of_str, axiom_vec_of_string, lemma_clones_bytes, axiom_vec_of_box, axiom_box_of};
//@endimpl
//@impl transport/unix/body.rs UnixBody of crate::Body
//@members
	open spec fn is_error(&self, text: Seq<char>) -> bool { self.data@ == utf8(text) }
	proof fn one_text(&self, a: Seq<char>, b: Seq<char>) { broadcast use lemma_utf8_injective; }
//@fn empty() -> r [C16]
//@fn from_error(message) -> r [C16]
	ensures r.fds@.len() == 0
//@proof
	broadcast use {axiom_no_fds, axiom_vec_of, axiom_vec_of_str, axiom_vec_of_string, lemma_clones_bytes, axiom_vec_of_box, axiom_box_of};
//@fn as_error() -> r [C16]
//@fn into_error() -> r [C16]
//@endimpl
} // verus!
