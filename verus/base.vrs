// ---------------------------------------------------------------- trusted prelude: plain std types
// Everything marked external_body is an assumption; the check lists and counts them on every run.

/// `Box<dyn std::error::Error + Send>`.
#[verifier::external_body]
pub struct BoxError { x: () }

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { ConnectionAborted, WriteZero, UnexpectedEof, InvalidData, InvalidInput, NotFound, Interrupted, WouldBlock, AddrInUse, BrokenPipe, ConnectionReset, Other }
/// `std::io::Error`.
#[verifier::external_body]
pub struct IoError { x: () }
impl IoError {
	pub uninterp spec fn spec_kind(&self) -> ErrorKind;
	#[verifier::external_body]
	#[verifier::when_used_as_spec(spec_kind)]
	pub fn kind(&self) -> (r: ErrorKind) ensures r == self.spec_kind() { unimplemented!() }
	#[verifier::external_body]
	pub fn other<T>(msg: T) -> (r: Self) { unimplemented!() }
	#[verifier::external_body]
	pub fn new<T>(kind: ErrorKind, msg: T) -> (r: Self) ensures r.spec_kind() == kind { unimplemented!() }
}
pub uninterp spec fn io_error_of_kind(k: ErrorKind) -> IoError;
pub broadcast axiom fn axiom_io_error_of_kind(k: ErrorKind)
	ensures (#[trigger] io_error_of_kind(k)).spec_kind() == k;
impl From<ErrorKind> for IoError {
	#[verifier::external_body]
	fn from(k: ErrorKind) -> (r: Self) { unimplemented!() }
}
impl FromSpecImpl<ErrorKind> for IoError {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(k: ErrorKind) -> IoError { io_error_of_kind(k) }
}
pub type IoResult<T> = Result<T, IoError>;

/// `format!(..)`: the text does not matter to any property.
#[verifier::external_body]
pub fn any_string() -> String { unimplemented!() }
/// `assert!(..)`, `unreachable!(..)` and the like: must not fail.
pub fn exec_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn exec_panic<T>() -> T requires false { unimplemented!() }

/// `Into<F>`: explicit conversions, those of generic parameters, and the conversion of errors by `?`.
pub trait Convert<F>: Sized {
	spec fn spec_convert(self) -> F;
	fn convert(self) -> (r: F) ensures r == self.spec_convert();
}
#[verifier::external_body]
pub struct Utf8Error { x: () }
#[verifier::external_body]
pub struct FromUtf8Error { x: () }
/// `unwrap` and `expect`: must not fail.
pub trait MustBe<T>: Sized {
	spec fn is_there(self) -> bool;
	spec fn there(self) -> T;
	fn must_be(self) -> (r: T) requires self.is_there() ensures r == self.there();
}
impl<T> MustBe<T> for Option<T> {
	open spec fn is_there(self) -> bool { self is Some }
	open spec fn there(self) -> T { self->Some_0 }
	fn must_be(self) -> (r: T) { match self { Some(v) => v, None => exec_panic() } }
}
impl<T, E> MustBe<T> for Result<T, E> {
	open spec fn is_there(self) -> bool { self is Ok }
	open spec fn there(self) -> T { self->Ok_0 }
	fn must_be(self) -> (r: T) { match self { Ok(v) => v, Err(_) => exec_panic() } }
}

/// `unwrap_or`.
pub trait OrElse<T>: Sized {
	spec fn or_else_(self, d: T) -> T;
	fn unwrap_or_(self, d: T) -> (r: T) ensures r == self.or_else_(d);
}
impl<T> OrElse<T> for Option<T> {
	open spec fn or_else_(self, d: T) -> T { match self { Some(v) => v, None => d } }
	fn unwrap_or_(self, d: T) -> (r: T) { match self { Some(v) => v, None => d } }
}
impl<T, E> OrElse<T> for Result<T, E> {
	open spec fn or_else_(self, d: T) -> T { match self { Ok(v) => v, Err(_) => d } }
	fn unwrap_or_(self, d: T) -> (r: T) { match self { Ok(v) => v, Err(_) => d } }
}

/// Two's complement.
pub open spec fn unsigned(v: i32) -> u32 { if v >= 0 { v as u32 } else { (v + 0x1_0000_0000) as u32 } }
/// Casts with `as`. What a cast that loses bits gives is left open, except between `i32` and `u32`, which keeps the bits.
pub trait Cast: Sized {
	spec fn number(self) -> int;
	fn cast_u32(self) -> (r: u32) ensures 0 <= self.number() <= u32::MAX ==> r == self.number(), i32::MIN <= self.number() < 0 ==> r == unsigned(self.number() as i32);
	fn cast_i32(self) -> (r: i32) ensures i32::MIN <= self.number() <= i32::MAX ==> r == self.number(), i32::MAX < self.number() <= u32::MAX ==> unsigned(r) == self.number();
}
impl Cast for u32 {
	open spec fn number(self) -> int { self as int }
	fn cast_u32(self) -> (r: u32) { self }
	fn cast_i32(self) -> (r: i32) { if self < 0x8000_0000 { self as i32 } else { (self as i64 - 0x1_0000_0000) as i32 } }
}
impl Cast for i32 {
	open spec fn number(self) -> int { self as int }
	fn cast_u32(self) -> (r: u32) { if self >= 0 { self as u32 } else { (self as i64 + 0x1_0000_0000) as u32 } }
	fn cast_i32(self) -> (r: i32) { self }
}
impl Cast for usize {
	open spec fn number(self) -> int { self as int }
	#[verifier::external_body] fn cast_u32(self) -> (r: u32) { unimplemented!() }
	#[verifier::external_body] fn cast_i32(self) -> (r: i32) { unimplemented!() }
}
impl Cast for u8 {
	open spec fn number(self) -> int { self as int }
	fn cast_u32(self) -> (r: u32) { self as u32 }
	fn cast_i32(self) -> (r: i32) { self as i32 }
}
impl Cast for u64 {
	open spec fn number(self) -> int { self as int }
	#[verifier::external_body] fn cast_u32(self) -> (r: u32) { unimplemented!() }
	#[verifier::external_body] fn cast_i32(self) -> (r: i32) { unimplemented!() }
}
pub fn mem_replace<T>(v: &mut T, new: T) -> (r: T)
	ensures r == *old(v), *final(v) == new
{ let mut new = new; core::mem::swap(v, &mut new); new }
pub assume_specification<T> [ Option::<T>::replace ](o: &mut Option<T>, x: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(x);
