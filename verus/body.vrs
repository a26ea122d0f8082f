// ---------------------------------------------------------------- trusted prelude: strings and bytes
/// The encoding of a text as UTF-8.
pub open spec fn utf8(text: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(text) }
pub broadcast proof fn lemma_utf8_injective(a: Seq<char>, b: Seq<char>)
	requires #[trigger] utf8(a) == #[trigger] utf8(b)
	ensures a == b
{
	vstd::utf8::encode_utf8_decode_utf8(a);
	vstd::utf8::encode_utf8_decode_utf8(b);
}
#[verifier::external_body]
pub fn str_from_utf8(v: &[u8]) -> (r: Result<&str, Utf8Error>)
	ensures match r { Ok(s) => v@ == utf8(s@), Err(_) => forall|t: Seq<char>| v@ != #[trigger] utf8(t) }
{ unimplemented!() }
#[verifier::external_body]
pub fn string_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
	ensures match r { Ok(s) => v@ == utf8(s@), Err(_) => forall|t: Seq<char>| v@ != #[trigger] utf8(t) }
{ unimplemented!() }
pub trait StrExt {
	spec fn chars_(&self) -> Seq<char>;
	fn as_bytes_<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.chars_());
	fn to_vec_(&self) -> (r: Vec<u8>) ensures r@ == utf8(self.chars_());
}
impl StrExt for str {
	open spec fn chars_(&self) -> Seq<char> { self@ }
	fn as_bytes_<'a>(&'a self) -> (r: &'a [u8]) { self.as_bytes() }
	#[verifier::external_body] fn to_vec_(&self) -> (r: Vec<u8>) { unimplemented!() }
}
/// A vector, or a boxed slice, with the elements of this value.
pub uninterp spec fn vec_of<S>(x: S) -> Vec<u8>;
pub broadcast axiom fn axiom_vec_of(x: &[u8]) ensures (#[trigger] vec_of::<&[u8]>(x))@ == x@;
pub broadcast axiom fn axiom_vec_of_box(x: Box<[u8]>) ensures (#[trigger] vec_of::<Box<[u8]>>(x))@ == x@;
pub uninterp spec fn box_of<S>(x: S) -> Box<[u8]>;
pub broadcast axiom fn axiom_box_of(x: &[u8]) ensures (#[trigger] box_of::<&[u8]>(x))@ == x@;
impl<'a> Convert<Vec<u8>> for &'a [u8] {
	open spec fn spec_convert(self) -> Vec<u8> { vec_of(self) }
	#[verifier::external_body] fn convert(self) -> (r: Vec<u8>) { unimplemented!() }
}
pub assume_specification [ String::into_bytes ](s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@);
pub open spec fn clones<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned(a[i], #[trigger] b[i]) }
pub broadcast proof fn lemma_clones_bytes(a: Seq<u8>, b: Seq<u8>) requires #[trigger] clones(a, b) ensures a == b { assert(a =~= b); }
pub assume_specification<T: Clone> [ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>) ensures clones(s@, r@);
impl Convert<Vec<u8>> for Box<[u8]> {
	open spec fn spec_convert(self) -> Vec<u8> { vec_of(self) }
	#[verifier::external_body] fn convert(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl<'a> Convert<Box<[u8]>> for &'a [u8] {
	open spec fn spec_convert(self) -> Box<[u8]> { box_of(self) }
	#[verifier::external_body] fn convert(self) -> (r: Box<[u8]>) { unimplemented!() }
}
pub fn vec_from<T: Convert<Vec<u8>>>(x: T) -> (r: Vec<u8>) ensures r == x.spec_convert() { x.convert() }
pub fn boxed_slice_from<T: Convert<Box<[u8]>>>(x: T) -> (r: Box<[u8]>) ensures r == x.spec_convert() { x.convert() }
/// The value of a vector is the sequence of its elements.
pub axiom fn axiom_vec_value<T>(a: Vec<T>, b: Vec<T>)
	requires a@ == b@
	ensures a == b;
/// `String::from` of a text.
pub fn string_from_str(s: &str) -> (r: String) ensures r@ == s@ { str::to_owned(s) }
