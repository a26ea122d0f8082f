// ---------------------------------------------------------------- src/transport/mod.rs
//@type transport/mod.rs TransportError
//@impl transport/mod.rs TransportError
//@skip *
//@fn new_fatal(inner) -> r [C02 C03 C04 C05]
	ensures r.inner == inner.spec_convert() && r.is_fatal
//@fn new_non_fatal(inner) -> r [C02 C04 C05 C06]
	ensures r.inner == inner.spec_convert() && !r.is_fatal
//@fn into_inner() -> r [C14 C15]
	ensures r == self.inner
//@fn is_fatal() -> r [C13 C14 C15]
	ensures r == self.is_fatal
//@endimpl
impl Convert<TransportError> for TransportError {
	open spec fn spec_convert(self) -> TransportError { self }
	fn convert(self) -> (r: TransportError) { self }
}
