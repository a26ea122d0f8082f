// ---------------------------------------------------------------- trusted prelude: bytes and slices
/// The error of a failed `TryFrom`.
#[verifier::external_body]
pub struct TryConvertError { x: () }
/// `TryInto`, from slices to arrays and between integers.
pub trait TryConvert<F> {
	spec fn converts_to(&self, f: F) -> bool;
	spec fn converts(&self) -> bool;
	fn try_convert(&self) -> (r: Result<F, TryConvertError>)
		ensures r is Ok == self.converts(), match r { Ok(f) => self.converts_to(f), Err(_) => true };
}
impl<const N: usize> TryConvert<[u8; N]> for [u8] {
	open spec fn converts_to(&self, f: [u8; N]) -> bool { self@ == f@ }
	open spec fn converts(&self) -> bool { self@.len() == N }
	#[verifier::external_body]
	fn try_convert(&self) -> (r: Result<[u8; N], TryConvertError>) { unimplemented!() }
}
impl TryConvert<u32> for usize {
	open spec fn converts_to(&self, f: u32) -> bool { *self == f as usize }
	open spec fn converts(&self) -> bool { *self <= u32::MAX }
	#[verifier::external_body]
	fn try_convert(&self) -> (r: Result<u32, TryConvertError>) { unimplemented!() }
}
/// The four bytes of a number, least significant first.
pub open spec fn le_bytes(v: u32) -> Seq<u8> {
	seq![(v & 0xff) as u8, ((v >> 8) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 24) & 0xff) as u8]
}
pub open spec fn be_bytes(v: u32) -> Seq<u8> {
	seq![((v >> 24) & 0xff) as u8, ((v >> 16) & 0xff) as u8, ((v >> 8) & 0xff) as u8, (v & 0xff) as u8]
}
/// Is this a little endian machine?
pub uninterp spec fn native_le() -> bool;
pub open spec fn ne_bytes(v: u32) -> Seq<u8> { if native_le() { le_bytes(v) } else { be_bytes(v) } }
/// `to_le_bytes` and so on.
pub trait ToBytes: Sized {
	spec fn bits(self) -> u32;
	fn to_le_bytes_(self) -> (r: [u8; 4]) ensures r@ == le_bytes(self.bits());
	fn to_be_bytes_(self) -> (r: [u8; 4]) ensures r@ == be_bytes(self.bits());
	fn to_ne_bytes_(self) -> (r: [u8; 4]) ensures r@ == ne_bytes(self.bits());
}
impl ToBytes for u32 {
	open spec fn bits(self) -> u32 { self }
	#[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 4]) { unimplemented!() }
	#[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 4]) { unimplemented!() }
	#[verifier::external_body] fn to_ne_bytes_(self) -> (r: [u8; 4]) { unimplemented!() }
}
impl ToBytes for i32 {
	open spec fn bits(self) -> u32 { unsigned(self) }
	#[verifier::external_body] fn to_le_bytes_(self) -> (r: [u8; 4]) { unimplemented!() }
	#[verifier::external_body] fn to_be_bytes_(self) -> (r: [u8; 4]) { unimplemented!() }
	#[verifier::external_body] fn to_ne_bytes_(self) -> (r: [u8; 4]) { unimplemented!() }
}
#[verifier::external_body] pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures le_bytes(r) == b@ { unimplemented!() }
#[verifier::external_body] pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures be_bytes(r) == b@ { unimplemented!() }
#[verifier::external_body] pub fn u32_from_ne_bytes(b: [u8; 4]) -> (r: u32) ensures ne_bytes(r) == b@ { unimplemented!() }
#[verifier::external_body] pub fn i32_from_le_bytes(b: [u8; 4]) -> (r: i32) ensures le_bytes(unsigned(r)) == b@ { unimplemented!() }
#[verifier::external_body] pub fn i32_from_be_bytes(b: [u8; 4]) -> (r: i32) ensures be_bytes(unsigned(r)) == b@ { unimplemented!() }
#[verifier::external_body] pub fn i32_from_ne_bytes(b: [u8; 4]) -> (r: i32) ensures ne_bytes(unsigned(r)) == b@ { unimplemented!() }
pub proof fn lemma_le_bytes_injective(a: u32, b: u32)
	requires le_bytes(a) == le_bytes(b)
	ensures a == b
{
	let x = le_bytes(a); let y = le_bytes(b);
	assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3]);
	assert(a == b) by (bit_vector) requires
		(a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8,
		((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8, ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8;
}
pub proof fn lemma_be_bytes_injective(a: u32, b: u32)
	requires be_bytes(a) == be_bytes(b)
	ensures a == b
{
	let x = be_bytes(a); let y = be_bytes(b);
	assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3]);
	assert(a == b) by (bit_vector) requires
		(a & 0xff) as u8 == (b & 0xff) as u8, ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8,
		((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8, ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8;
}

/// `&mut` to the elements.
pub trait AsSliceMut {
	spec fn elements(&self) -> Seq<u8>;
	fn as_slice_mut_(&mut self) -> (r: &mut [u8])
		ensures r@ == old(self).elements(), final(self).elements() == final(r)@;
}
impl AsSliceMut for [u8] {
	open spec fn elements(&self) -> Seq<u8> { self@ }
	fn as_slice_mut_(&mut self) -> (r: &mut [u8]) { self }
}
impl<const N: usize> AsSliceMut for [u8; N] {
	open spec fn elements(&self) -> Seq<u8> { self@ }
	fn as_slice_mut_(&mut self) -> (r: &mut [u8]) { &mut self[..] }
}
impl AsSliceMut for Vec<u8> {
	open spec fn elements(&self) -> Seq<u8> { self@ }
	fn as_slice_mut_(&mut self) -> (r: &mut [u8]) { self.as_mut_slice() }
}

pub broadcast proof fn lemma_subrange_of_subrange(s: Seq<u8>, a: int, b: int, c: int, d: int)
	requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
	ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{
	assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}
