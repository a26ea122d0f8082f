// ---------------------------------------------------------------- trusted prelude: syn and proc_macro2
/// A position in the source text.
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Span { x: () }
impl Span {
	#[verifier::external_body]
	pub fn call_site() -> (r: Span) { unimplemented!() }
}
/// A sequence of tokens, as far as it matters here: compile errors and the code generated for an interface.
#[verifier::external_body]
pub struct TokenStream { x: () }
pub enum Piece { CompileError, Generated(Ident, InterfaceDefinition) }
impl View for TokenStream {
	type V = Seq<Piece>;
	uninterp spec fn view(&self) -> Seq<Piece>;
}
impl Convert<syn::Error> for syn::Error {
	open spec fn spec_convert(self) -> syn::Error { self }
	#[verifier::external_body] fn convert(self) -> (r: syn::Error) { self }
}
impl TokenStream {
	/// The tokens, when it is parsed.
	pub uninterp spec fn toks(&self) -> Seq<Tok>;
	#[verifier::external_body]
	pub fn new() -> (r: Self) ensures r@ == Seq::<Piece>::empty() { unimplemented!() }
	#[verifier::external_body]
	pub fn extend_(&mut self, t: TokenStream) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
}
pub mod syn {
	use super::*;
	pub use super::Ident;
	pub type Result<T, E = Error> = core::result::Result<T, E>;
	pub use super::Tok;
	#[verifier::external_body] pub struct LitInt { x: () }
	#[verifier::external_body] pub struct Type { x: () }
	#[verifier::external_body] pub struct Visibility { x: () }
	#[verifier::external_body] pub struct Path { x: () }
	#[verifier::external_body] pub struct Error { x: () }
	#[verifier::external_body] pub struct LitStr { x: () }
	#[verifier::external_body] pub struct OtherExpr { x: () }
	pub mod token {
		use super::super::*;
		#[verifier::external_body] pub struct Brace { x: () }
		#[verifier::external_body] pub struct Colon { x: () }
		#[verifier::external_body] pub struct Comma { x: () }
		#[verifier::external_body] pub struct Semi { x: () }
		#[verifier::external_body] pub struct RArrow { x: () }
	}
	pub mod punctuated {
		use super::super::*;
		#[verifier::external_body]
		#[verifier::reject_recursive_types(T)]
		#[verifier::reject_recursive_types(P)]
		pub struct Punctuated<T, P> { x: Option<(T, P)> }
		impl<T, P> IntoItems<T> for Punctuated<T, P> {
			uninterp spec fn spec_items(self) -> Seq<T>;
			#[verifier::external_body] fn into_items_(self) -> (r: Items<T>) { unimplemented!() }
		}
	}
	impl Error {
		/// Where the error points at.
		pub uninterp spec fn at(&self) -> Span;
		#[verifier::external_body]
		pub fn new(span: Span, message: &str) -> (r: Error) ensures r.at() == span { unimplemented!() }
		#[verifier::external_body]
		pub fn new_spanned<T: Spanned>(tokens: &T, message: &str) -> (r: Error) ensures r.at() == tokens.place() { unimplemented!() }
		#[verifier::external_body]
		pub fn into_compile_error(self) -> (r: TokenStream) ensures r@ == seq![Piece::CompileError] { unimplemented!() }
		#[verifier::external_body]
		pub fn to_compile_error(&self) -> (r: TokenStream) ensures r@ == seq![Piece::CompileError] { unimplemented!() }
	}
	/// Where a piece of syntax is.
	pub trait Spanned {
		spec fn place(&self) -> Span;
		fn span(&self) -> (r: Span) ensures r == self.place();
	}
	impl Spanned for Path { uninterp spec fn place(&self) -> Span; #[verifier::external_body] fn span(&self) -> (r: Span) { unimplemented!() } }
	impl Spanned for Expr { uninterp spec fn place(&self) -> Span; #[verifier::external_body] fn span(&self) -> (r: Span) { unimplemented!() } }
	/// The types a literal can be read as.
	pub trait Number: Sized { spec fn int(self) -> int; spec fn has(i: int) -> bool; }
	impl Number for i32 { open spec fn int(self) -> int { self as int } open spec fn has(i: int) -> bool { i32::MIN <= i <= i32::MAX } }
	impl Number for i64 { open spec fn int(self) -> int { self as int } open spec fn has(i: int) -> bool { i64::MIN <= i <= i64::MAX } }
	impl Number for u32 { open spec fn int(self) -> int { self as int } open spec fn has(i: int) -> bool { u32::MIN <= i <= u32::MAX } }
	impl Number for i16 { open spec fn int(self) -> int { self as int } open spec fn has(i: int) -> bool { i16::MIN <= i <= i16::MAX } }
	impl Number for u16 { open spec fn int(self) -> int { self as int } open spec fn has(i: int) -> bool { u16::MIN <= i <= u16::MAX } }
	impl Number for u64 { open spec fn int(self) -> int { self as int } open spec fn has(i: int) -> bool { u64::MIN <= i <= u64::MAX } }
	impl LitInt {
		/// The number that the digits are.
		pub uninterp spec fn number(&self) -> int;
		/// The value, if it is one that an `i32` can have.
		pub open spec fn value(&self) -> Option<i32> { if i32::MIN <= self.number() <= i32::MAX { Some(self.number() as i32) } else { None } }
		#[verifier::external_body]
		pub fn base10_parse<N: Number>(&self) -> (r: Result<N, Error>) ensures match r { Ok(v) => v.int() == self.number(), Err(_) => !N::has(self.number()) } { unimplemented!() }
		pub uninterp spec fn place(&self) -> Span;
		#[verifier::external_body]
		pub fn span(&self) -> (r: Span) ensures r == self.place() { unimplemented!() }
	}
	impl LitStr {
		pub uninterp spec fn text(&self) -> Seq<char>;
		#[verifier::external_body]
		pub fn value(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
		#[verifier::external_body]
		pub fn span(&self) -> (r: Span) { unimplemented!() }
	}
	impl Path {
		/// The path, if it is a single identifier.
		pub uninterp spec fn ident(&self) -> Option<Seq<char>>;
		#[verifier::external_body]
		pub fn is_ident(&self, name: &str) -> (r: bool) ensures r == (self.ident() == Some(name@)) { unimplemented!() }
	}
	pub enum Lit { Str(LitStr), Other(OtherExpr) }
	pub struct ExprLit { pub attrs: Vec<Attribute>, pub lit: Lit }
	pub enum Expr { Lit(ExprLit), Other(OtherExpr) }
	pub struct MetaNameValue { pub path: Path, pub value: Expr }
	pub struct MetaList { pub path: Path, pub tokens: OtherExpr }
	pub enum Meta { Path(Path), List(MetaList), NameValue(MetaNameValue) }
	impl Meta {
		pub open spec fn path_(&self) -> Path { match self { Meta::Path(p) => *p, Meta::List(l) => l.path, Meta::NameValue(n) => n.path } }
		#[verifier::external_body]
		pub fn require_path_only(&self) -> (r: Result<&Path, Error>) ensures r is Ok <==> self is Path { unimplemented!() }
		#[verifier::external_body]
		pub fn require_name_value(&self) -> (r: Result<&MetaNameValue, Error>) ensures match r { Ok(n) => *self == Meta::NameValue(*n), Err(_) => !(self is NameValue) } { unimplemented!() }
	}
	pub struct Attribute { pub meta: Meta }
	impl Attribute {
		#[verifier::external_body]
		pub fn path(&self) -> (r: &Path) ensures *r == self.meta.path_() { unimplemented!() }
	}
	/// The tokens that are left, if what comes first can be parsed as this type, and what it means.
	pub uninterp spec fn rest<T>(t: Seq<Tok>) -> Option<Seq<Tok>>;
	pub uninterp spec fn value<T>(t: Seq<Tok>) -> T;
	/// What is in the braces that come next, and what is left after them.
	pub uninterp spec fn braces(t: Seq<Tok>) -> Option<(Seq<Tok>, Seq<Tok>)>;
	pub uninterp spec fn attributes_rest(t: Seq<Tok>) -> Option<Seq<Tok>>;
	pub uninterp spec fn attributes_value(t: Seq<Tok>) -> Seq<Attribute>;
	pub open spec fn content(t: Seq<Tok>) -> Seq<Tok> { match braces(t) { Some(b) => b.0, None => Seq::empty() } }
	/// A type that can be parsed: which tokens are left after it (if it can be parsed), and what the tokens mean.
	pub trait Parse: Sized {
		spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>>;
		spec fn means(t: Seq<Tok>, x: Self) -> bool;
		fn parse(input: parse::ParseStream) -> (r: Result<Self>)
			ensures match r { Ok(x) => Self::after(old(input)@) == Some(final(input)@) && Self::means(old(input)@, x), Err(_) => Self::after(old(input)@) is None };
	}
	impl Parse for LitInt {
		open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { rest::<Self>(t) }
		open spec fn means(t: Seq<Tok>, x: Self) -> bool { x == value::<Self>(t) }
		#[verifier::external_body] fn parse(input: parse::ParseStream) -> (r: Result<Self>) { unimplemented!() }
	}
	impl Parse for Ident {
		open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { rest::<Self>(t) }
		open spec fn means(t: Seq<Tok>, x: Self) -> bool { x == value::<Self>(t) }
		#[verifier::external_body] fn parse(input: parse::ParseStream) -> (r: Result<Self>) { unimplemented!() }
	}
	impl Parse for Box<Type> {
		open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { rest::<Self>(t) }
		open spec fn means(t: Seq<Tok>, x: Self) -> bool { x == value::<Self>(t) }
		#[verifier::external_body] fn parse(input: parse::ParseStream) -> (r: Result<Self>) { unimplemented!() }
	}
	impl Parse for Visibility {
		open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { rest::<Self>(t) }
		open spec fn means(t: Seq<Tok>, x: Self) -> bool { x == value::<Self>(t) }
		#[verifier::external_body] fn parse(input: parse::ParseStream) -> (r: Result<Self>) { unimplemented!() }
	}
	impl Parse for token::Comma {
		open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { rest::<Self>(t) }
		open spec fn means(t: Seq<Tok>, x: Self) -> bool { x == value::<Self>(t) }
		#[verifier::external_body] fn parse(input: parse::ParseStream) -> (r: Result<Self>) { unimplemented!() }
	}
	impl Parse for token::Colon {
		open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { rest::<Self>(t) }
		open spec fn means(t: Seq<Tok>, x: Self) -> bool { x == value::<Self>(t) }
		#[verifier::external_body] fn parse(input: parse::ParseStream) -> (r: Result<Self>) { unimplemented!() }
	}
	impl Parse for token::Semi {
		open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { rest::<Self>(t) }
		open spec fn means(t: Seq<Tok>, x: Self) -> bool { x == value::<Self>(t) }
		#[verifier::external_body] fn parse(input: parse::ParseStream) -> (r: Result<Self>) { unimplemented!() }
	}
	impl Parse for token::RArrow {
		open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { rest::<Self>(t) }
		open spec fn means(t: Seq<Tok>, x: Self) -> bool { x == value::<Self>(t) }
		#[verifier::external_body] fn parse(input: parse::ParseStream) -> (r: Result<Self>) { unimplemented!() }
	}
	impl Parse for Option<token::Comma> {
		open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { match token::Comma::after(t) { Some(r) => Some(r), None => Some(t) } }
		open spec fn means(t: Seq<Tok>, x: Self) -> bool { x is Some == token::Comma::after(t) is Some }
		#[verifier::external_body] fn parse(input: parse::ParseStream) -> (r: Result<Self>) { unimplemented!() }
	}
	pub trait Token: Sized { spec fn is_next(t: Seq<Tok>) -> bool; }
	impl Token for token::Comma { open spec fn is_next(t: Seq<Tok>) -> bool { rest::<Self>(t) is Some } }
	impl Token for token::Brace { open spec fn is_next(t: Seq<Tok>) -> bool { braces(t) is Some } }
	/// This, then what comes after it.
	pub open spec fn then<T: Parse>(t: Option<Seq<Tok>>) -> Option<Seq<Tok>> { match t { Some(t) => T::after(t), None => None } }
	/// The tokens from here on (what comes before them could be parsed).
	pub open spec fn at(t: Option<Seq<Tok>>) -> Seq<Tok> { match t { Some(t) => t, None => Seq::empty() } }
	/// After n of them.
	pub open spec fn after_n<T: Parse>(t: Seq<Tok>, n: nat) -> Option<Seq<Tok>> decreases n {
		if n == 0 { Some(t) } else { match after_n::<T>(t, (n - 1) as nat) { Some(r) => if r.len() > 0 { T::after(r) } else { None }, None => None } }
	}
	pub open spec fn repeated_ok<T: Parse>(t: Seq<Tok>) -> bool { exists|n: nat| #[trigger] after_n::<T>(t, n) == Some(Seq::<Tok>::empty()) }
	pub open spec fn repeated<T: Parse>(t: Seq<Tok>, xs: Seq<T>) -> bool {
		after_n::<T>(t, xs.len()) == Some(Seq::<Tok>::empty()) && forall|i: int| 0 <= i < xs.len() ==> T::means(at(after_n::<T>(t, i as nat)), #[trigger] xs[i])
	}
	/// After n of them, each with a P behind it (the last one may lack it).
	pub open spec fn after_n_with<T: Parse, P: Parse>(t: Seq<Tok>, n: nat) -> Option<Seq<Tok>> decreases n {
		if n == 0 { Some(t) } else { match after_n_with::<T, P>(t, (n - 1) as nat) {
			Some(r) => if r.len() > 0 { match T::after(r) { Some(q) => if q.len() == 0 { Some(q) } else { P::after(q) }, None => None } } else { None },
			None => None,
		} }
	}
	pub open spec fn terminated_ok<T: Parse, P: Parse>(t: Seq<Tok>) -> bool { exists|n: nat| #[trigger] after_n_with::<T, P>(t, n) == Some(Seq::<Tok>::empty()) }
	pub open spec fn terminated<T: Parse, P: Parse>(t: Seq<Tok>, xs: Seq<T>) -> bool {
		after_n_with::<T, P>(t, xs.len()) == Some(Seq::<Tok>::empty()) && forall|i: int| 0 <= i < xs.len() ==> T::means(at(after_n_with::<T, P>(t, i as nat)), #[trigger] xs[i])
	}
	/// Nothing comes after an item that can not be parsed.
	pub proof fn lemma_stuck<T: Parse>(t: Seq<Tok>, k: nat, n: nat)
		requires after_n::<T>(t, k) matches Some(r) && r.len() > 0 && T::after(r) is None
		ensures after_n::<T>(t, n) != Some(Seq::<Tok>::empty())
		decreases n
	{
		if n > k { lemma_stuck::<T>(t, k, (n - 1) as nat); if n - 1 == k { } else { lemma_none::<T>(t, k, (n - 1) as nat); } }
		else if n < k { lemma_more::<T>(t, n, k); }
	}
	proof fn lemma_none<T: Parse>(t: Seq<Tok>, k: nat, n: nat)
		requires after_n::<T>(t, k) matches Some(r) && r.len() > 0 && T::after(r) is None, n > k
		ensures after_n::<T>(t, n) is None
		decreases n
	{ if n - 1 > k { lemma_none::<T>(t, k, (n - 1) as nat); } }
	proof fn lemma_more<T: Parse>(t: Seq<Tok>, n: nat, k: nat)
		requires n < k, after_n::<T>(t, k) is Some
		ensures after_n::<T>(t, n) matches Some(r) && r.len() > 0
		decreases k
	{ if n < k - 1 { lemma_more::<T>(t, n, (k - 1) as nat); } }
	pub mod parse {
		use super::super::*;
		pub use super::Parse;
		#[verifier::external_body] pub struct ParseBuffer { x: () }
		pub type ParseStream<'a> = &'a mut ParseBuffer;
		impl View for ParseBuffer { type V = Seq<Tok>; uninterp spec fn view(&self) -> Seq<Tok>; }
		impl ParseBuffer {
			pub fn parse<T: Parse>(&mut self) -> (r: syn::Result<T>)
				ensures match r { Ok(x) => T::after(old(self)@) == Some(final(self)@) && T::means(old(self)@, x), Err(_) => T::after(old(self)@) is None }
			{ T::parse(self) }
			#[verifier::external_body]
			pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
			#[verifier::external_body]
			pub fn peek_<T: syn::Token>(&self) -> (r: bool) ensures r == T::is_next(self@), raw::one_thing(self@) { unimplemented!() }
			#[verifier::external_body]
			pub fn error(&self, message: &str) -> (r: syn::Error) { unimplemented!() }
		}
		/// What is in braces.
		pub struct Braces { pub token: syn::token::Brace, pub content: ParseBuffer }
		#[verifier::external_body]
		pub fn parse_braces_(input: ParseStream) -> (r: syn::Result<Braces>)
			ensures match r { Ok(b) => syn::braces(old(input)@) == Some((b.content@, final(input)@)), Err(_) => syn::braces(old(input)@) is None }
		{ unimplemented!() }
	}
	impl Attribute {
		#[verifier::external_body]
		pub fn parse_outer(input: parse::ParseStream) -> (r: Result<Vec<Attribute>>)
			ensures match r { Ok(a) => attributes_rest(old(input)@) == Some(final(input)@) && a@ == attributes_value(old(input)@), Err(_) => attributes_rest(old(input)@) is None }
		{ unimplemented!() }
	}
	impl<T: Parse, P: Parse> punctuated::Punctuated<T, P> {
		#[verifier::external_body]
		pub fn parse_terminated(input: parse::ParseStream) -> (r: Result<Self>)
			ensures match r { Ok(p) => terminated::<T, P>(old(input)@, p.spec_items()) && final(input)@.len() == 0, Err(_) => !terminated_ok::<T, P>(old(input)@) }
		{ unimplemented!() }
	}
	/// The whole of the tokens has to be used.
	#[verifier::external_body]
	pub fn parse2<T: Parse>(tokens: TokenStream) -> (r: Result<T, Error>)
		ensures match r { Ok(x) => T::after(tokens.toks()) == Some(Seq::<Tok>::empty()) && T::means(tokens.toks(), x), Err(_) => T::after(tokens.toks()) != Some(Seq::<Tok>::empty()) }
	{ unimplemented!() }
}
/// A token.
#[verifier::external_body]
pub struct Tok { x: () }
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Box<T, A> as AsRef<T>>::as_ref] (b: &Box<T, A>) -> (r: &T) ensures r == &**b;
pub use syn::{Spanned, Parse, parse::ParseStream};
#[verifier::external_body]
pub struct Ident { x: () }
impl Ident {
	pub uninterp spec fn text(&self) -> Seq<char>;
	pub uninterp spec fn place(&self) -> Span;
	#[verifier::external_body]
	pub fn span(&self) -> (r: Span) ensures r == self.place() { unimplemented!() }
}
impl PartialEq for Ident {
	#[verifier::external_body]
	fn eq(&self, o: &Ident) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Ident {
	open spec fn obeys_eq_spec() -> bool { true }
	open spec fn eq_spec(&self, o: &Ident) -> bool { self.text() == o.text() }
}

// ---------------------------------------------------------------- macros/src/util.rs
//@type ../macros/src/util.rs WithSpan
//@impl ../macros/src/util.rs WithSpan
//@fn new(span, value) -> r [C19]
	ensures r.span == span && r.value == value
//@endimpl
/// Derived.
impl<T: Clone> Clone for WithSpan<T> {
	fn clone(&self) -> (r: Self) ensures r.span == self.span, vstd::pervasive::cloned(self.value, r.value) { WithSpan { span: self.span, value: self.value.clone() } }
}
/// The text of a documentation attribute.
pub open spec fn doc_text(a: syn::Attribute) -> Option<Seq<char>> {
	match a.meta {
		syn::Meta::NameValue(syn::MetaNameValue { value: syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }), .. }) => Some(s.text()),
		_ => None,
	}
}
//@free ../macros/src/util.rs parse_doc_attr_contents(attribute) -> r [C19 C20]
	ensures match r { Ok(x) => doc_text(attribute) == Some(x.value@), Err(_) => doc_text(attribute) is None }
//@endfree

// ---------------------------------------------------------------- macros/src/interface/parse.rs
pub mod raw {
	use super::*;
	/// `syn::custom_keyword!`
	pub mod keyword {
		use super::super::*;
		#[allow(non_camel_case_types)] #[verifier::external_body] pub struct interface { x: () }
		impl syn::Parse for interface {
			open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { syn::rest::<Self>(t) }
			open spec fn means(t: Seq<Tok>, x: Self) -> bool { true }
			#[verifier::external_body] fn parse(input: syn::parse::ParseStream) -> (r: syn::Result<Self>) { unimplemented!() }
		}
		impl syn::Token for interface { open spec fn is_next(t: Seq<Tok>) -> bool { syn::rest::<Self>(t) is Some } }
		#[allow(non_camel_case_types)] #[verifier::external_body] pub struct service { x: () }
		impl syn::Parse for service {
			open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { syn::rest::<Self>(t) }
			open spec fn means(t: Seq<Tok>, x: Self) -> bool { true }
			#[verifier::external_body] fn parse(input: syn::parse::ParseStream) -> (r: syn::Result<Self>) { unimplemented!() }
		}
		impl syn::Token for service { open spec fn is_next(t: Seq<Tok>) -> bool { syn::rest::<Self>(t) is Some } }
		#[allow(non_camel_case_types)] #[verifier::external_body] pub struct request_update { x: () }
		impl syn::Parse for request_update {
			open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { syn::rest::<Self>(t) }
			open spec fn means(t: Seq<Tok>, x: Self) -> bool { true }
			#[verifier::external_body] fn parse(input: syn::parse::ParseStream) -> (r: syn::Result<Self>) { unimplemented!() }
		}
		impl syn::Token for request_update { open spec fn is_next(t: Seq<Tok>) -> bool { syn::rest::<Self>(t) is Some } }
		#[allow(non_camel_case_types)] #[verifier::external_body] pub struct response_update { x: () }
		impl syn::Parse for response_update {
			open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { syn::rest::<Self>(t) }
			open spec fn means(t: Seq<Tok>, x: Self) -> bool { true }
			#[verifier::external_body] fn parse(input: syn::parse::ParseStream) -> (r: syn::Result<Self>) { unimplemented!() }
		}
		impl syn::Token for response_update { open spec fn is_next(t: Seq<Tok>) -> bool { syn::rest::<Self>(t) is Some } }
		#[allow(non_camel_case_types)] #[verifier::external_body] pub struct stream { x: () }
		impl syn::Parse for stream {
			open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { syn::rest::<Self>(t) }
			open spec fn means(t: Seq<Tok>, x: Self) -> bool { true }
			#[verifier::external_body] fn parse(input: syn::parse::ParseStream) -> (r: syn::Result<Self>) { unimplemented!() }
		}
		impl syn::Token for stream { open spec fn is_next(t: Seq<Tok>) -> bool { syn::rest::<Self>(t) is Some } }
	}
//@type ../macros/src/interface/parse.rs#raw InterfaceInput
//@type ../macros/src/interface/parse.rs#raw InterfaceDefinition
//@type ../macros/src/interface/parse.rs#raw InterfaceItem
//@type ../macros/src/interface/parse.rs#raw ServiceDefinition
//@type ../macros/src/interface/parse.rs#raw MaybeServiceBody
//@type ../macros/src/interface/parse.rs#raw ServiceBody
//@type ../macros/src/interface/parse.rs#raw UpdateDefinition
//@type ../macros/src/interface/parse.rs#raw UpdateKind
//@type ../macros/src/interface/parse.rs#raw StreamDefinition
	use syn::{Parse, then, at, Tok};
	/// A token is one thing only.
	pub open spec fn one_thing(t: Seq<Tok>) -> bool {
		&&& !(syn::rest::<syn::token::Comma>(t) is Some && syn::braces(t) is Some) && !(syn::rest::<keyword::service>(t) is Some && syn::rest::<keyword::stream>(t) is Some)
		&&& !(syn::rest::<keyword::request_update>(t) is Some && syn::rest::<keyword::response_update>(t) is Some)
	}
//@impl ../macros/src/interface/parse.rs#raw InterfaceInput of Parse
//@members
	open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { then::<InterfaceDefinition>(then::<syn::token::Semi>(syn::Ident::after(t))) }
	open spec fn means(t: Seq<Tok>, x: Self) -> bool { syn::Ident::means(t, x.fizyr_rpc) && InterfaceDefinition::means(at(then::<syn::token::Semi>(syn::Ident::after(t))), x.interface) }
//@fn parse(input) -> r [C19]
//@endimpl
	// #[..] VISIBILITY interface NAME { ITEMS }
	pub open spec fn before_body(t: Seq<Tok>) -> Option<Seq<Tok>> { then::<syn::Ident>(then::<keyword::interface>(then::<syn::Visibility>(syn::attributes_rest(t)))) }
//@impl ../macros/src/interface/parse.rs#raw InterfaceDefinition of Parse
//@members
	open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> {
		match before_body(t) { Some(b) => match syn::braces(b) { Some(c) => if syn::repeated_ok::<InterfaceItem>(c.0) { Some(c.1) } else { None }, None => None }, None => None }
	}
	open spec fn means(t: Seq<Tok>, x: Self) -> bool {
		&&& x.attrs@ == syn::attributes_value(t) && x.name == syn::value::<syn::Ident>(at(then::<keyword::interface>(then::<syn::Visibility>(syn::attributes_rest(t)))))
		&&& x.visibility == syn::value::<syn::Visibility>(at(syn::attributes_rest(t))) && syn::repeated::<InterfaceItem>(syn::content(at(before_body(t))), x.items@)
	}
//@fn parse(input) -> r [C19]
//@endimpl
	// service ID NAME: TYPE -> TYPE BODY
	pub open spec fn s_id(t: Option<Seq<Tok>>) -> Option<Seq<Tok>> { then::<keyword::service>(t) }
	pub open spec fn s_name(t: Option<Seq<Tok>>) -> Option<Seq<Tok>> { then::<syn::LitInt>(s_id(t)) }
	pub open spec fn s_request(t: Option<Seq<Tok>>) -> Option<Seq<Tok>> { then::<syn::token::Colon>(then::<syn::Ident>(s_name(t))) }
	pub open spec fn s_response(t: Option<Seq<Tok>>) -> Option<Seq<Tok>> { then::<syn::token::RArrow>(then::<Box<syn::Type>>(s_request(t))) }
	pub open spec fn s_body(t: Option<Seq<Tok>>) -> Option<Seq<Tok>> { then::<Box<syn::Type>>(s_response(t)) }
	// stream ID NAME: TYPE,
	pub open spec fn e_id(t: Option<Seq<Tok>>) -> Option<Seq<Tok>> { then::<keyword::stream>(t) }
	pub open spec fn e_name(t: Option<Seq<Tok>>) -> Option<Seq<Tok>> { then::<syn::LitInt>(e_id(t)) }
	pub open spec fn e_type(t: Option<Seq<Tok>>) -> Option<Seq<Tok>> { then::<syn::token::Colon>(then::<syn::Ident>(e_name(t))) }
	pub open spec fn service_means(a: Seq<Tok>, x: ServiceDefinition) -> bool {
		let t = syn::attributes_rest(a);
		&&& x.attrs@ == syn::attributes_value(a) && x.service_id == syn::value::<syn::LitInt>(at(s_id(t))) && x.name == syn::value::<syn::Ident>(at(s_name(t)))
		&&& x.request_type == syn::value::<Box<syn::Type>>(at(s_request(t))) && x.response_type == syn::value::<Box<syn::Type>>(at(s_response(t)))
		&&& MaybeServiceBody::means(at(s_body(t)), x.body)
	}
	pub open spec fn stream_means(a: Seq<Tok>, x: StreamDefinition) -> bool {
		let t = syn::attributes_rest(a);
		&&& x.attrs@ == syn::attributes_value(a) && x.service_id == syn::value::<syn::LitInt>(at(e_id(t))) && x.name == syn::value::<syn::Ident>(at(e_name(t)))
		&&& x.body_type == syn::value::<Box<syn::Type>>(at(e_type(t)))
	}
//@impl ../macros/src/interface/parse.rs#raw InterfaceItem of Parse
//@members
	open spec fn after(a: Seq<Tok>) -> Option<Seq<Tok>> {
		match syn::attributes_rest(a) {
			None => None,
			Some(t) => if syn::rest::<keyword::service>(t) is Some { then::<MaybeServiceBody>(s_body(Some(t))) } else { then::<syn::token::Comma>(then::<Box<syn::Type>>(e_type(Some(t)))) },
		}
	}
	open spec fn means(a: Seq<Tok>, x: Self) -> bool {
		match x {
			InterfaceItem::Service(d) => syn::rest::<keyword::service>(at(syn::attributes_rest(a))) is Some && service_means(a, d),
			InterfaceItem::Stream(d) => syn::rest::<keyword::service>(at(syn::attributes_rest(a))) is None && stream_means(a, d),
		}
	}
//@fn parse(input) -> r [C19]
//@endimpl
//@impl ../macros/src/interface/parse.rs#raw MaybeServiceBody of Parse
//@members
	open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { if syn::rest::<syn::token::Comma>(t) is Some { syn::rest::<syn::token::Comma>(t) } else { then::<Option<syn::token::Comma>>(ServiceBody::after(t)) } }
	open spec fn means(t: Seq<Tok>, x: Self) -> bool {
		match x { MaybeServiceBody::NoBody(_) => syn::rest::<syn::token::Comma>(t) is Some, MaybeServiceBody::Body(b, _) => syn::rest::<syn::token::Comma>(t) is None && ServiceBody::means(t, b) }
	}
//@fn parse(input) -> r [C19]
//@endimpl
//@impl ../macros/src/interface/parse.rs#raw ServiceBody of Parse
//@members
	open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> {
		match syn::braces(t) { Some(c) => if syn::terminated_ok::<UpdateDefinition, syn::token::Comma>(c.0) { Some(c.1) } else { None }, None => None }
	}
	open spec fn means(t: Seq<Tok>, x: Self) -> bool { syn::terminated::<UpdateDefinition, syn::token::Comma>(syn::content(t), x.updates.spec_items()) }
//@fn parse(input) -> r [C19]
//@endimpl
	// #[..] KIND ID NAME: TYPE
	pub open spec fn u_id(t: Seq<Tok>) -> Option<Seq<Tok>> { then::<UpdateKind>(syn::attributes_rest(t)) }
	pub open spec fn u_name(t: Seq<Tok>) -> Option<Seq<Tok>> { then::<syn::LitInt>(u_id(t)) }
	pub open spec fn u_type(t: Seq<Tok>) -> Option<Seq<Tok>> { then::<syn::token::Colon>(then::<syn::Ident>(u_name(t))) }
//@impl ../macros/src/interface/parse.rs#raw UpdateDefinition of Parse
//@members
	open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { then::<Box<syn::Type>>(u_type(t)) }
	open spec fn means(t: Seq<Tok>, x: Self) -> bool {
		&&& x.attrs@ == syn::attributes_value(t) && UpdateKind::means(at(syn::attributes_rest(t)), x.kind) && x.service_id == syn::value::<syn::LitInt>(at(u_id(t)))
		&&& x.name == syn::value::<syn::Ident>(at(u_name(t))) && x.body_type == syn::value::<Box<syn::Type>>(at(u_type(t)))
	}
//@fn parse(input) -> r [C19]
//@endimpl
//@impl ../macros/src/interface/parse.rs#raw UpdateKind of Parse
//@members
	open spec fn after(t: Seq<Tok>) -> Option<Seq<Tok>> { if syn::rest::<keyword::request_update>(t) is Some { syn::rest::<keyword::request_update>(t) } else { syn::rest::<keyword::response_update>(t) } }
	open spec fn means(t: Seq<Tok>, x: Self) -> bool { x is RequestUpdate == syn::rest::<keyword::request_update>(t) is Some }
//@fn parse(input) -> r [C19]
//@endimpl
}
//@free ../macros/src/util.rs parse_repeated(input) -> r [C19]
	ensures match r { Ok(xs) => syn::repeated::<T>(old(input)@, xs@) && final(input)@.len() == 0, Err(_) => !syn::repeated_ok::<T>(old(input)@) }
//@loop 0
	invariant
		syn::after_n::<T>(old(input)@, result@.len()) == Some(input@),
		forall|i: int| 0 <= i < result@.len() ==> T::means(syn::at(syn::after_n::<T>(old(input)@, i as nat)), #[trigger] result@[i]),
	ensures input@ == Seq::<Tok>::empty()
//@proof 0
	proof { assert(input@.len() == 0 ==> input@ =~= Seq::<Tok>::empty()); if input@.len() > 0 && T::after(input@) is None { assert forall|n: nat| #[trigger] syn::after_n::<T>(old(input)@, n) != Some(Seq::<Tok>::empty()) by { syn::lemma_stuck::<T>(old(input)@, result@.len(), n); } } }
//@endfree
//@type ../macros/src/interface/parse.rs#cooked Hidden #[derive(Clone, Copy)]
//@type ../macros/src/interface/parse.rs#cooked Attributes
//@type ../macros/src/interface/parse.rs#cooked InterfaceDefinition
//@type ../macros/src/interface/parse.rs#cooked ServiceDefinition
//@type ../macros/src/interface/parse.rs#cooked UpdateDefinition
//@type ../macros/src/interface/parse.rs#cooked StreamDefinition

/// The errors are as before, and maybe more.
pub open spec fn kept(a: Seq<syn::Error>, b: Seq<syn::Error>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a }
/// One of the new errors points here.
pub open spec fn reported(n: int, errors: Seq<syn::Error>, at: Span) -> bool { exists|k: int| n <= k < errors.len() && (#[trigger] errors[k]).at() == at }

// What is wrong with attributes, and what right ones mean.
pub open spec fn bad_attribute(a: syn::Attribute) -> bool {
	let i = a.meta.path_().ident();
	if i == Some("doc"@) { doc_text(a) is None } else if i == Some("hidden"@) { !(a.meta is Path) } else { true }
}
pub open spec fn unknown_attribute(a: syn::Attribute) -> bool { a.meta.path_().ident() != Some("doc"@) && a.meta.path_().ident() != Some("hidden"@) }
pub open spec fn bad_attributes(a: Seq<syn::Attribute>) -> bool { exists|i: int| 0 <= i < a.len() && bad_attribute(#[trigger] a[i]) }
pub open spec fn docs(a: Seq<syn::Attribute>) -> Seq<Seq<char>> decreases a.len() {
	if a.len() == 0 { Seq::empty() } else if a.last().meta.path_().ident() == Some("doc"@) { docs(a.drop_last()).push(doc_text(a.last())->Some_0) } else { docs(a.drop_last()) }
}
pub open spec fn is_hidden(a: Seq<syn::Attribute>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).meta.path_().ident() == Some("hidden"@) }
pub open spec fn texts(d: Seq<WithSpan<String>>) -> Seq<Seq<char>> { d.map_values(|x: WithSpan<String>| x.value@) }
pub open spec fn attributes_of(a: Seq<syn::Attribute>, doc: Seq<WithSpan<String>>, hidden: Option<Hidden>) -> bool { texts(doc) =~= docs(a) && hidden is Some == is_hidden(a) }
pub broadcast proof fn lemma_texts(d: Seq<WithSpan<String>>, x: WithSpan<String>)
	ensures texts(#[trigger] d.push(x)) == texts(d).push(x.value@)
{ assert(texts(d.push(x)) =~= texts(d).push(x.value@)); }
pub proof fn lemma_names()
	ensures "doc"@ != "hidden"@
{ reveal_strlit("doc"); reveal_strlit("hidden"); assert("doc"@.len() == 3 && "hidden"@.len() == 6); }
/// One more attribute.
pub proof fn lemma_attributes_step(a: Seq<syn::Attribute>, k: int)
	requires 0 <= k < a.len()
	ensures
		a.take(k + 1) == a.take(k).push(a[k]), a.skip(k).drop_first() =~= a.skip(k + 1), a.skip(k)[0] == a[k],
		bad_attributes(a.take(k + 1)) == (bad_attributes(a.take(k)) || bad_attribute(a[k])),
		is_hidden(a.take(k + 1)) == (is_hidden(a.take(k)) || a[k].meta.path_().ident() == Some("hidden"@)),
		docs(a.take(k + 1)) == (if a[k].meta.path_().ident() == Some("doc"@) { docs(a.take(k)).push(doc_text(a[k])->Some_0) } else { docs(a.take(k)) }),
{
	assert(a.take(k + 1) =~= a.take(k).push(a[k]));
	let t = a.take(k + 1);
	assert(t.drop_last() =~= a.take(k));
	if bad_attributes(a.take(k)) { let i = choose|i: int| 0 <= i < k && bad_attribute(#[trigger] a.take(k)[i]); assert(bad_attribute(t[i])); }
	if bad_attribute(a[k]) { assert(bad_attribute(t[k])); }
	if is_hidden(a.take(k)) { let i = choose|i: int| 0 <= i < k && (#[trigger] a.take(k)[i]).meta.path_().ident() == Some("hidden"@); assert(t[i].meta.path_().ident() == Some("hidden"@)); }
	if a[k].meta.path_().ident() == Some("hidden"@) { assert(t[k].meta.path_().ident() == Some("hidden"@)); }
	if bad_attributes(t) { let i = choose|i: int| 0 <= i < t.len() && bad_attribute(#[trigger] t[i]); if i < k { assert(bad_attribute(a.take(k)[i])); } }
	if is_hidden(t) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).meta.path_().ident() == Some("hidden"@); if i < k { assert(a.take(k)[i].meta.path_().ident() == Some("hidden"@)); } }
}
/// What was reported stays reported, and a new error is reported where it points at.
pub broadcast proof fn lemma_reported(n: int, errors: Seq<syn::Error>, e: syn::Error, at: Span)
	requires n <= errors.len()
	ensures #[trigger] reported(n, errors.push(e), at) == (reported(n, errors, at) || e.at() == at)
{
	let b = errors.push(e);
	if reported(n, errors, at) { let k = choose|k: int| n <= k < errors.len() && (#[trigger] errors[k]).at() == at; assert(b[k].at() == at); }
	if e.at() == at { assert(b[errors.len() as int].at() == at); }
	if reported(n, b, at) { let k = choose|k: int| n <= k < b.len() && (#[trigger] b[k]).at() == at; if k < errors.len() { assert(errors[k].at() == at); } }
}
//@impl ../macros/src/interface/parse.rs#cooked Attributes
//@fn from_raw(errors, attrs) -> r [C19 C20]
	ensures [C19]
		kept(old(errors)@, final(errors)@), final(errors)@.len() > old(errors)@.len() <==> bad_attributes(attrs@),
		forall|i: int| 0 <= i < attrs@.len() && unknown_attribute(#[trigger] attrs@[i]) ==> reported(old(errors)@.len() as int, final(errors)@, attrs@[i].meta.path_().place()),
	ensures [C20] !bad_attributes(attrs@) ==> attributes_of(attrs@, r.doc@, r.hidden)
//@loop 0
	invariant
		iter0_all == attrs@, iter0_.items().len() <= iter0_all.len(), iter0_.items() =~= iter0_all.skip(iter0_all.len() - iter0_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() <==> bad_attributes(attrs@.take(iter0_all.len() - iter0_.items().len())),
		forall|i: int| 0 <= i < iter0_all.len() - iter0_.items().len() && unknown_attribute(#[trigger] attrs@[i]) ==> reported(old(errors)@.len() as int, errors@, attrs@[i].meta.path_().place()), // [C19]
		!bad_attributes(attrs@.take(iter0_all.len() - iter0_.items().len())) ==> attributes_of(attrs@.take(iter0_all.len() - iter0_.items().len()), doc@, hidden), // [C20]
	ensures iter0_.items().len() == 0
//@proof 0
	broadcast use {lemma_reported, lemma_texts};
	proof { if iter0_.items().len() > 0 { lemma_attributes_step(attrs@, iter0_all.len() - iter0_.items().len()); lemma_names(); } assert(attrs@.take(attrs@.len() as int) =~= attrs@); }
//@endimpl

//@free ../macros/src/interface/parse.rs#cooked parse_i32(errors, literal) -> r [C19 C20]
	ensures
		kept(old(errors)@, final(errors)@), final(errors)@.len() > old(errors)@.len() <==> literal.value() is None,
		literal.value() matches Some(v) ==> r.value == v && r.span == literal.place(),
//@endfree

// What items are told apart by.
pub struct Key { pub id: i32, pub id_at: Span, pub name: Seq<char>, pub name_at: Span }
pub struct RawKey { pub id: Option<i32>, pub id_at: Span, pub name: Seq<char>, pub name_at: Span }
pub trait Keyed { spec fn key(&self) -> Key; }
pub trait RawKeyed { spec fn raw_key(&self) -> RawKey; }
impl RawKeyed for raw::ServiceDefinition { open spec fn raw_key(&self) -> RawKey { RawKey { id: self.service_id.value(), id_at: self.service_id.place(), name: self.name.text(), name_at: self.name.place() } } }
impl RawKeyed for raw::StreamDefinition { open spec fn raw_key(&self) -> RawKey { RawKey { id: self.service_id.value(), id_at: self.service_id.place(), name: self.name.text(), name_at: self.name.place() } } }
impl RawKeyed for raw::UpdateDefinition { open spec fn raw_key(&self) -> RawKey { RawKey { id: self.service_id.value(), id_at: self.service_id.place(), name: self.name.text(), name_at: self.name.place() } } }
impl Keyed for ServiceDefinition { open spec fn key(&self) -> Key { Key { id: self.service_id.value, id_at: self.service_id.span, name: self.name.text(), name_at: self.name.place() } } }
impl Keyed for StreamDefinition { open spec fn key(&self) -> Key { Key { id: self.service_id.value, id_at: self.service_id.span, name: self.name.text(), name_at: self.name.place() } } }
impl Keyed for UpdateDefinition { open spec fn key(&self) -> Key { Key { id: self.service_id.value, id_at: self.service_id.span, name: self.name.text(), name_at: self.name.place() } } }
/// The name and, if it is a good one, the ID were taken over.
pub open spec fn same_key(r: RawKey, k: Key) -> bool { k.name == r.name && k.name_at == r.name_at && (r.id matches Some(v) ==> k.id == v && k.id_at == r.id_at) }
pub open spec fn same_id(a: RawKey, b: RawKey) -> bool { a.id is Some && a.id == b.id }
pub open spec fn same_keys<R: RawKeyed, T: Keyed>(r: Seq<R>, t: Seq<T>) -> bool { r.len() == t.len() && forall|i: int| 0 <= i < r.len() ==> same_key((#[trigger] r[i]).raw_key(), t[i].key()) }
/// Two items with the same ID or name.
pub open spec fn twice<R: RawKeyed>(r: Seq<R>) -> bool { exists|a: int, b: int| 0 <= a < b < r.len() && (same_id((#[trigger] r[a]).raw_key(), (#[trigger] r[b]).raw_key()) || r[a].raw_key().name == r[b].raw_key().name) }
pub open spec fn bad_id<R: RawKeyed>(r: Seq<R>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).raw_key().id is None }
/// Each repetition was reported, at the second of the two.
pub open spec fn repetitions_reported<R: RawKeyed>(n: int, errors: Seq<syn::Error>, r: Seq<R>) -> bool {
	forall|a: int, b: int| 0 <= a < b < r.len() ==> (same_id((#[trigger] r[a]).raw_key(), (#[trigger] r[b]).raw_key()) ==> reported(n, errors, r[b].raw_key().id_at)) && (r[a].raw_key().name == r[b].raw_key().name ==> reported(n, errors, r[b].raw_key().name_at))
}
/// The same for the pairs that were looked at so far.
pub open spec fn reported_so_far<T: Keyed>(n: int, errors: Seq<syn::Error>, t: Seq<T>, p: int, q: int) -> bool {
	forall|a: int, b: int| 0 <= a < b < t.len() && (a < p || a == p && b < q) ==> ((#[trigger] t[a]).key().id == (#[trigger] t[b]).key().id ==> reported(n, errors, t[b].key().id_at)) && (t[a].key().name == t[b].key().name ==> reported(n, errors, t[b].key().name_at))
}
pub proof fn lemma_all_reported<R: RawKeyed, T: Keyed>(n: int, errors: Seq<syn::Error>, r: Seq<R>, t: Seq<T>)
	requires same_keys(r, t), reported_so_far(n, errors, t, t.len() as int, 0)
	ensures repetitions_reported(n, errors, r), twice(r) ==> errors.len() > n
{
	assert forall|a: int, b: int| 0 <= a < b < r.len() implies (same_id((#[trigger] r[a]).raw_key(), (#[trigger] r[b]).raw_key()) ==> reported(n, errors, r[b].raw_key().id_at)) && (r[a].raw_key().name == r[b].raw_key().name ==> reported(n, errors, r[b].raw_key().name_at)) by {
		assert(same_key(r[a].raw_key(), t[a].key()) && same_key(r[b].raw_key(), t[b].key()));
	}
	if twice(r) { let (a, b) = choose|a: int, b: int| 0 <= a < b < r.len() && (same_id((#[trigger] r[a]).raw_key(), (#[trigger] r[b]).raw_key()) || r[a].raw_key().name == r[b].raw_key().name); }
}
pub proof fn lemma_repeated<R: RawKeyed, T: Keyed>(r: Seq<R>, t: Seq<T>, a: int, b: int)
	requires same_keys(r, t), 0 <= a < b < t.len(), t[a].key().id == t[b].key().id || t[a].key().name == t[b].key().name
	ensures twice(r) || bad_id(r)
{
	assert(same_key(r[a].raw_key(), t[a].key()) && same_key(r[b].raw_key(), t[b].key()));
	if !bad_id(r) { assert(r[a].raw_key().id is Some && r[b].raw_key().id is Some); }
}

// Updates and streams.
pub open spec fn bad_update(u: raw::UpdateDefinition) -> bool { bad_attributes(u.attrs@) || u.service_id.value() is None }
pub open spec fn update_of(u: raw::UpdateDefinition, d: UpdateDefinition) -> bool {
	d.name == u.name && d.body_type == u.body_type && same_key(u.raw_key(), d.key()) && (!bad_attributes(u.attrs@) ==> attributes_of(u.attrs@, d.doc@, d.hidden))
}
pub open spec fn bad_stream(u: raw::StreamDefinition) -> bool { bad_attributes(u.attrs@) || u.service_id.value() is None }
pub open spec fn stream_of(u: raw::StreamDefinition, d: StreamDefinition) -> bool {
	d.name == u.name && d.body_type == u.body_type && same_key(u.raw_key(), d.key()) && (!bad_attributes(u.attrs@) ==> attributes_of(u.attrs@, d.doc@, d.hidden))
}
//@impl ../macros/src/interface/parse.rs#cooked UpdateDefinition
//@fn service_id() -> r [C20]
	ensures *r == self.service_id
//@fn name() -> r [C19 C20]
	ensures *r == self.name
//@fn doc() -> r [C20]
	ensures r@ == self.doc@
//@fn hidden() -> r [C20]
	ensures r == self.hidden
//@fn body_type() -> r [C20]
	ensures *r == *self.body_type
//@fn from_raw(errors, raw) -> r [C19]
	ensures [C19] kept(old(errors)@, final(errors)@), final(errors)@.len() > old(errors)@.len() <==> bad_update(raw)
	ensures [C19 C20] r.0 == raw.kind && update_of(raw, r.1)
//@endimpl
//@impl ../macros/src/interface/parse.rs#cooked StreamDefinition
//@fn service_id() -> r [C20]
	ensures *r == self.service_id
//@fn name() -> r [C19 C20]
	ensures *r == self.name
//@fn doc() -> r [C20]
	ensures r@ == self.doc@
//@fn hidden() -> r [C20]
	ensures r == self.hidden
//@fn body_type() -> r [C20]
	ensures *r == *self.body_type
//@fn from_raw(errors, raw) -> r [C19]
	ensures [C19] kept(old(errors)@, final(errors)@), final(errors)@.len() > old(errors)@.len() <==> bad_stream(raw)
	ensures [C19 C20] stream_of(raw, r)
//@endimpl

// Services.
pub open spec fn of_kind(s: Seq<raw::UpdateDefinition>, request: bool) -> Seq<raw::UpdateDefinition> decreases s.len() {
	if s.len() == 0 { Seq::empty() } else if (s.last().kind is RequestUpdate) == request { of_kind(s.drop_last(), request).push(s.last()) } else { of_kind(s.drop_last(), request) }
}
pub open spec fn updates_of(s: raw::ServiceDefinition) -> Seq<raw::UpdateDefinition> {
	match s.body { raw::MaybeServiceBody::Body(b, _) => b.updates.spec_items(), _ => Seq::empty() }
}
pub open spec fn all_request_updates(s: raw::ServiceDefinition) -> Seq<raw::UpdateDefinition> { of_kind(updates_of(s), true) }
pub open spec fn all_response_updates(s: raw::ServiceDefinition) -> Seq<raw::UpdateDefinition> { of_kind(updates_of(s), false) }
pub open spec fn bad_updates(s: Seq<raw::UpdateDefinition>) -> bool { exists|i: int| 0 <= i < s.len() && bad_update(#[trigger] s[i]) }
pub open spec fn all_updates(r: Seq<raw::UpdateDefinition>, d: Seq<UpdateDefinition>) -> bool { r.len() == d.len() && forall|i: int| 0 <= i < r.len() ==> update_of(#[trigger] r[i], d[i]) }
pub open spec fn bad_service(s: raw::ServiceDefinition) -> bool {
	bad_attributes(s.attrs@) || s.service_id.value() is None || bad_updates(updates_of(s)) || twice(all_request_updates(s)) || twice(all_response_updates(s))
}
pub open spec fn service_of(s: raw::ServiceDefinition, d: ServiceDefinition) -> bool {
	d.name == s.name && same_key(s.raw_key(), d.key()) && (!bad_service(s) ==> {
		&&& attributes_of(s.attrs@, d.doc@, d.hidden) && d.request_type == s.request_type && d.response_type == s.response_type
		&&& all_updates(all_request_updates(s), d.request_updates@) && all_updates(all_response_updates(s), d.response_updates@)
	})
}
pub proof fn lemma_updates_step(s: Seq<raw::UpdateDefinition>, k: int)
	requires 0 <= k < s.len()
	ensures
		s.skip(k).drop_first() =~= s.skip(k + 1), s.skip(k)[0] == s[k],
		bad_updates(s.take(k + 1)) == (bad_updates(s.take(k)) || bad_update(s[k])),
		of_kind(s.take(k + 1), true) == (if s[k].kind is RequestUpdate { of_kind(s.take(k), true).push(s[k]) } else { of_kind(s.take(k), true) }),
		of_kind(s.take(k + 1), false) == (if s[k].kind is RequestUpdate { of_kind(s.take(k), false) } else { of_kind(s.take(k), false).push(s[k]) }),
{
	assert(s.take(k + 1).drop_last() =~= s.take(k));
	let t = s.take(k + 1);
	if bad_updates(s.take(k)) { let i = choose|i: int| 0 <= i < k && bad_update(#[trigger] s.take(k)[i]); assert(bad_update(t[i])); }
	if bad_update(s[k]) { assert(bad_update(t[k])); }
	if bad_updates(t) { let i = choose|i: int| 0 <= i < t.len() && bad_update(#[trigger] t[i]); if i < k { assert(bad_update(s.take(k)[i])); } }
}
/// Each update is of one of the kinds.
pub proof fn lemma_kinds(s: Seq<raw::UpdateDefinition>, request: bool)
	ensures forall|i: int| 0 <= i < of_kind(s, request).len() ==> s.contains(#[trigger] of_kind(s, request)[i])
	decreases s.len()
{
	if s.len() > 0 {
		lemma_kinds(s.drop_last(), request);
		let o = of_kind(s, request);
		assert forall|i: int| 0 <= i < o.len() implies s.contains(#[trigger] o[i]) by {
			let p = of_kind(s.drop_last(), request);
			if i < p.len() { assert(o[i] == p[i]); let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == p[i]; assert(s[j] == o[i]); } else { assert(o[i] == s[s.len() - 1]); }
		}
	}
}
pub proof fn lemma_bad_id(s: Seq<raw::UpdateDefinition>, request: bool)
	ensures bad_id(of_kind(s, request)) ==> bad_updates(s)
{
	lemma_kinds(s, request);
	let o = of_kind(s, request);
	if bad_id(o) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).raw_key().id is None; assert(s.contains(o[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == o[i]; assert(bad_update(s[j])); }
}
pub broadcast proof fn lemma_all_updates_push(r: Seq<raw::UpdateDefinition>, d: Seq<UpdateDefinition>, x: raw::UpdateDefinition, y: UpdateDefinition)
	requires all_updates(r, d), update_of(x, y)
	ensures #[trigger] all_updates(r.push(x), d.push(y))
{ }
pub broadcast proof fn lemma_updates_keys(r: Seq<raw::UpdateDefinition>, d: Seq<UpdateDefinition>)
	requires #[trigger] all_updates(r, d)
	ensures same_keys(r, d)
{ assert forall|i: int| 0 <= i < r.len() implies same_key((#[trigger] r[i]).raw_key(), d[i].key()) by { assert(update_of(r[i], d[i])); } }
/// Indices to be removed, from the last to the first: none is out of range.
pub proof fn lemma_removable(all: Seq<usize>, c: int, n: int)
	requires ascending(all.reverse()), 0 <= c < all.len(), forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] < n
	ensures all[c] < n - c
	decreases c
{
	if c > 0 {
		lemma_removable(all, c - 1, n);
		let r = all.reverse();
		assert(r[all.len() - 1 - c] < r[all.len() - c]);
		assert(r[all.len() - 1 - c] == all[c] && r[all.len() - c] == all[c - 1]);
	}
}
//@impl ../macros/src/interface/parse.rs#cooked ServiceDefinition
//@fn name() -> r [C19 C20]
	ensures *r == self.name
//@fn service_id() -> r [C20]
	ensures r == self.service_id
//@fn doc() -> r [C20]
	ensures r@ == self.doc@
//@fn hidden() -> r [C20]
	ensures r == self.hidden
//@fn request_type() -> r [C20]
	ensures *r == *self.request_type
//@fn response_type() -> r [C20]
	ensures *r == *self.response_type
//@fn request_updates() -> r [C20]
	ensures r@ == self.request_updates@
//@fn response_updates() -> r [C20]
	ensures r@ == self.response_updates@
//@endimpl
//@impl ../macros/src/interface/parse.rs#cooked ServiceDefinition
//@fn from_raw(errors, raw) -> r noisolation [C19]
	ensures [C19]
		kept(old(errors)@, final(errors)@), final(errors)@.len() > old(errors)@.len() <==> bad_service(raw),
		repetitions_reported(old(errors)@.len() as int, final(errors)@, all_request_updates(raw)),
		repetitions_reported(old(errors)@.len() as int, final(errors)@, all_response_updates(raw)),
	ensures [C19 C20] service_of(raw, r)
//@proof
	broadcast use {lemma_reported, lemma_all_updates_push, lemma_updates_keys};
	proof { lemma_bad_id(updates_of(raw), true); lemma_bad_id(updates_of(raw), false); assert(updates_of(raw).take(updates_of(raw).len() as int) =~= updates_of(raw)); }
//@local remove_request_updates (\w+) \. into_items_ \( \) \. rev \( \)(?:(?!\. rev \( \)).)*? request_updates \. remove \(
//@local remove_response_updates (\w+) \. into_items_ \( \) \. rev \( \)(?:(?!\. rev \( \)).)*? response_updates \. remove \(
//@loop 0
	invariant
		iter0_.items().len() <= iter0_all.len(), iter0_.items() =~= iter0_all.skip(iter0_all.len() - iter0_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() <==> bad_attributes(raw.attrs@) || bad_updates(iter0_all.take(iter0_all.len() - iter0_.items().len())),
		all_updates(of_kind(iter0_all.take(iter0_all.len() - iter0_.items().len()), true), request_updates@),
		all_updates(of_kind(iter0_all.take(iter0_all.len() - iter0_.items().len()), false), response_updates@),
	ensures iter0_.items().len() == 0
//@proof 0
	broadcast use {lemma_reported, lemma_all_updates_push};
	proof { if iter0_.items().len() > 0 { lemma_updates_step(iter0_all, iter0_all.len() - iter0_.items().len()); } }
//@loop 1
	invariant
		iter1_.items().len() <= iter1_all.len(), iter1_.items() =~= iter1_all.skip(iter1_all.len() - iter1_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() ==> bad_service(raw),
		bad_attributes(raw.attrs@) || bad_updates(updates_of(raw)) ==> errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_request_updates.elements().contains(x) ==> x < request_updates@.len() && errors@.len() > old(errors)@.len(),
		reported_so_far(old(errors)@.len() as int, errors@, request_updates@, (iter1_all.len() - iter1_.items().len()), 0),
	ensures iter1_.items().len() == 0
//@proof 1
	broadcast use lemma_reported;
	proof { if iter1_.items().len() > 0 { assert(iter1_.items()[0] == iter1_all[(iter1_all.len() - iter1_.items().len())]); assert(iter1_all.skip(iter1_all.len() - iter1_.items().len()).drop_first() =~= iter1_all.skip((iter1_all.len() - iter1_.items().len()) + 1)); } }
//@loop 2
	invariant
		iter2_.items().len() <= iter2_all.len(), iter2_.items() =~= iter2_all.skip(iter2_all.len() - iter2_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() ==> bad_service(raw),
		bad_attributes(raw.attrs@) || bad_updates(updates_of(raw)) ==> errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_request_updates.elements().contains(x) ==> x < request_updates@.len() && errors@.len() > old(errors)@.len(),
		reported_so_far(old(errors)@.len() as int, errors@, request_updates@, a_i as int, (a_i + 1 + iter2_all.len() - iter2_.items().len())),
	ensures iter2_.items().len() == 0
//@proof 2
	broadcast use lemma_reported;
	proof { if iter2_.items().len() > 0 {
		let k = iter2_all.len() - iter2_.items().len();
		assert(iter2_.items()[0] == iter2_all[k]); assert(iter2_all.skip(k).drop_first() =~= iter2_all.skip(k + 1));
		let b = (a_i + 1 + iter2_all.len() - iter2_.items().len());
		assert(*iter2_all[k].1 == request_updates@[b] && iter2_all[k].0 == b);
		if request_updates@[a_i as int].key().id == request_updates@[b].key().id || request_updates@[a_i as int].key().name == request_updates@[b].key().name { lemma_repeated(all_request_updates(raw), request_updates@, a_i as int, b); lemma_bad_id(updates_of(raw), true); }
	} }
//@loop 3
	invariant
		iter3_.items().len() <= iter3_all.len(), iter3_.items() =~= iter3_all.skip(iter3_all.len() - iter3_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() ==> bad_service(raw),
		bad_attributes(raw.attrs@) || bad_updates(updates_of(raw)) ==> errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_response_updates.elements().contains(x) ==> x < response_updates@.len() && errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_request_updates.elements().contains(x) ==> x < request_updates@.len() && errors@.len() > old(errors)@.len(),
		twice(all_request_updates(raw)) ==> errors@.len() > old(errors)@.len(),
		repetitions_reported(old(errors)@.len() as int, errors@, all_request_updates(raw)),
		reported_so_far(old(errors)@.len() as int, errors@, response_updates@, (iter3_all.len() - iter3_.items().len()), 0),
	ensures iter3_.items().len() == 0
//@proof 3
	broadcast use lemma_reported;
	proof { if iter3_.items().len() > 0 { assert(iter3_.items()[0] == iter3_all[(iter3_all.len() - iter3_.items().len())]); assert(iter3_all.skip(iter3_all.len() - iter3_.items().len()).drop_first() =~= iter3_all.skip((iter3_all.len() - iter3_.items().len()) + 1)); } }
//@loop 4
	invariant
		iter4_.items().len() <= iter4_all.len(), iter4_.items() =~= iter4_all.skip(iter4_all.len() - iter4_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() ==> bad_service(raw),
		bad_attributes(raw.attrs@) || bad_updates(updates_of(raw)) ==> errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_response_updates.elements().contains(x) ==> x < response_updates@.len() && errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_request_updates.elements().contains(x) ==> x < request_updates@.len() && errors@.len() > old(errors)@.len(),
		twice(all_request_updates(raw)) ==> errors@.len() > old(errors)@.len(),
		repetitions_reported(old(errors)@.len() as int, errors@, all_request_updates(raw)),
		reported_so_far(old(errors)@.len() as int, errors@, response_updates@, a_i as int, (a_i + 1 + iter4_all.len() - iter4_.items().len())),
	ensures iter4_.items().len() == 0
//@proof 4
	broadcast use lemma_reported;
	proof { if iter4_.items().len() > 0 {
		let k = iter4_all.len() - iter4_.items().len();
		assert(iter4_.items()[0] == iter4_all[k]); assert(iter4_all.skip(k).drop_first() =~= iter4_all.skip(k + 1));
		let b = (a_i + 1 + iter4_all.len() - iter4_.items().len());
		assert(*iter4_all[k].1 == response_updates@[b] && iter4_all[k].0 == b);
		if response_updates@[a_i as int].key().id == response_updates@[b].key().id || response_updates@[a_i as int].key().name == response_updates@[b].key().name { lemma_repeated(all_response_updates(raw), response_updates@, a_i as int, b); lemma_bad_id(updates_of(raw), false); }
	} }
//@loop 5
	invariant
		iter5_.items().len() <= iter5_all.len(), iter5_.items() =~= iter5_all.skip(iter5_all.len() - iter5_.items().len()),
		request_updates@.len() == all_request_updates(raw).len() - (iter5_all.len() - iter5_.items().len()),
		(iter5_all.len() - iter5_.items().len()) == 0 ==> all_updates(all_request_updates(raw), request_updates@),
		(iter5_all.len() - iter5_.items().len()) > 0 ==> errors@.len() > old(errors)@.len(),
	ensures iter5_.items().len() == 0
//@proof 5
	proof { if iter5_.items().len() > 0 { assert(iter5_.items()[0] == iter5_all[(iter5_all.len() - iter5_.items().len())]); assert(iter5_all.skip(iter5_all.len() - iter5_.items().len()).drop_first() =~= iter5_all.skip((iter5_all.len() - iter5_.items().len()) + 1)); assert forall|i: int| 0 <= i < iter5_all.len() implies #[trigger] iter5_all[i] < all_request_updates(raw).len() by { assert(iter5_all.contains(iter5_all[i])); } assert(iter5_all.contains(iter5_all[0])); lemma_removable(iter5_all, (iter5_all.len() - iter5_.items().len()), all_request_updates(raw).len() as int); } }
//@loop 6
	invariant
		iter6_.items().len() <= iter6_all.len(), iter6_.items() =~= iter6_all.skip(iter6_all.len() - iter6_.items().len()),
		response_updates@.len() == all_response_updates(raw).len() - (iter6_all.len() - iter6_.items().len()),
		(iter6_all.len() - iter6_.items().len()) == 0 ==> all_updates(all_response_updates(raw), response_updates@),
		(iter6_all.len() - iter6_.items().len()) > 0 ==> errors@.len() > old(errors)@.len(),
	ensures iter6_.items().len() == 0
//@proof 6
	proof { if iter6_.items().len() > 0 { assert(iter6_.items()[0] == iter6_all[(iter6_all.len() - iter6_.items().len())]); assert(iter6_all.skip(iter6_all.len() - iter6_.items().len()).drop_first() =~= iter6_all.skip((iter6_all.len() - iter6_.items().len()) + 1)); assert forall|i: int| 0 <= i < iter6_all.len() implies #[trigger] iter6_all[i] < all_response_updates(raw).len() by { assert(iter6_all.contains(iter6_all[i])); } assert(iter6_all.contains(iter6_all[0])); lemma_removable(iter6_all, (iter6_all.len() - iter6_.items().len()), all_response_updates(raw).len() as int); } }
//@endimpl

// Interfaces.
pub open spec fn services_of(s: Seq<raw::InterfaceItem>) -> Seq<raw::ServiceDefinition> decreases s.len() {
	if s.len() == 0 { Seq::empty() } else { match s.last() { raw::InterfaceItem::Service(x) => services_of(s.drop_last()).push(x), _ => services_of(s.drop_last()) } }
}
pub open spec fn streams_of(s: Seq<raw::InterfaceItem>) -> Seq<raw::StreamDefinition> decreases s.len() {
	if s.len() == 0 { Seq::empty() } else { match s.last() { raw::InterfaceItem::Stream(x) => streams_of(s.drop_last()).push(x), _ => streams_of(s.drop_last()) } }
}
pub open spec fn all_raw_services(r: raw::InterfaceDefinition) -> Seq<raw::ServiceDefinition> { services_of(r.items@) }
pub open spec fn all_raw_streams(r: raw::InterfaceDefinition) -> Seq<raw::StreamDefinition> { streams_of(r.items@) }
pub open spec fn bad_item(i: raw::InterfaceItem) -> bool { match i { raw::InterfaceItem::Service(s) => bad_service(s), raw::InterfaceItem::Stream(s) => bad_stream(s) } }
pub open spec fn bad_items(s: Seq<raw::InterfaceItem>) -> bool { exists|i: int| 0 <= i < s.len() && bad_item(#[trigger] s[i]) }
/// The definition has a mistake.
pub open spec fn bad_interface(r: raw::InterfaceDefinition) -> bool { bad_attributes(r.attrs@) || bad_items(r.items@) || twice(all_raw_services(r)) || twice(all_raw_streams(r)) }
pub open spec fn all_services(r: Seq<raw::ServiceDefinition>, d: Seq<ServiceDefinition>) -> bool { r.len() == d.len() && forall|i: int| 0 <= i < r.len() ==> service_of(#[trigger] r[i], d[i]) }
pub open spec fn all_streams(r: Seq<raw::StreamDefinition>, d: Seq<StreamDefinition>) -> bool { r.len() == d.len() && forall|i: int| 0 <= i < r.len() ==> stream_of(#[trigger] r[i], d[i]) }
/// Everything in the definition, in order, as it is there.
pub open spec fn interface_of(r: raw::InterfaceDefinition, d: InterfaceDefinition) -> bool {
	&&& d.visibility == r.visibility && d.name == r.name && attributes_of(r.attrs@, d.doc@, d.hidden)
	&&& all_services(all_raw_services(r), d.services@) && all_streams(all_raw_streams(r), d.streams@)
}
pub proof fn lemma_items_step(s: Seq<raw::InterfaceItem>, k: int)
	requires 0 <= k < s.len()
	ensures
		s.skip(k).drop_first() =~= s.skip(k + 1), s.skip(k)[0] == s[k],
		bad_items(s.take(k + 1)) == (bad_items(s.take(k)) || bad_item(s[k])),
		services_of(s.take(k + 1)) == (match s[k] { raw::InterfaceItem::Service(x) => services_of(s.take(k)).push(x), _ => services_of(s.take(k)) }),
		streams_of(s.take(k + 1)) == (match s[k] { raw::InterfaceItem::Stream(x) => streams_of(s.take(k)).push(x), _ => streams_of(s.take(k)) }),
{
	assert(s.take(k + 1).drop_last() =~= s.take(k));
	let t = s.take(k + 1);
	if bad_items(s.take(k)) { let i = choose|i: int| 0 <= i < k && bad_item(#[trigger] s.take(k)[i]); assert(bad_item(t[i])); }
	if bad_item(s[k]) { assert(bad_item(t[k])); }
	if bad_items(t) { let i = choose|i: int| 0 <= i < t.len() && bad_item(#[trigger] t[i]); if i < k { assert(bad_item(s.take(k)[i])); } }
}
/// Each service and stream is one of the items.
pub proof fn lemma_items(s: Seq<raw::InterfaceItem>)
	ensures
		forall|i: int| 0 <= i < services_of(s).len() ==> s.contains(raw::InterfaceItem::Service(#[trigger] services_of(s)[i])),
		forall|i: int| 0 <= i < streams_of(s).len() ==> s.contains(raw::InterfaceItem::Stream(#[trigger] streams_of(s)[i])),
	decreases s.len()
{
	if s.len() > 0 {
		let p = s.drop_last();
		lemma_items(p);
		assert(s[s.len() - 1] == s.last());
		assert forall|i: int| 0 <= i < services_of(s).len() implies s.contains(raw::InterfaceItem::Service(#[trigger] services_of(s)[i])) by {
			if i < services_of(p).len() { let x = raw::InterfaceItem::Service(services_of(p)[i]); assert(p.contains(x)); let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(s[j] == x); } else { assert(s[s.len() - 1] == raw::InterfaceItem::Service(services_of(s)[i])); }
		}
		assert forall|i: int| 0 <= i < streams_of(s).len() implies s.contains(raw::InterfaceItem::Stream(#[trigger] streams_of(s)[i])) by {
			if i < streams_of(p).len() { let x = raw::InterfaceItem::Stream(streams_of(p)[i]); assert(p.contains(x)); let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(s[j] == x); } else { assert(s[s.len() - 1] == raw::InterfaceItem::Stream(streams_of(s)[i])); }
		}
	}
}
pub proof fn lemma_bad_item_id(s: Seq<raw::InterfaceItem>)
	ensures bad_id(services_of(s)) ==> bad_items(s), bad_id(streams_of(s)) ==> bad_items(s)
{
	lemma_items(s);
	let a = services_of(s);
	if bad_id(a) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).raw_key().id is None; let x = raw::InterfaceItem::Service(a[i]); assert(s.contains(x)); let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(bad_item(s[j])); }
	let b = streams_of(s);
	if bad_id(b) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).raw_key().id is None; let x = raw::InterfaceItem::Stream(b[i]); assert(s.contains(x)); let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(bad_item(s[j])); }
}
pub broadcast proof fn lemma_all_services_push(r: Seq<raw::ServiceDefinition>, d: Seq<ServiceDefinition>, x: raw::ServiceDefinition, y: ServiceDefinition)
	requires all_services(r, d), service_of(x, y)
	ensures #[trigger] all_services(r.push(x), d.push(y))
{ }
pub broadcast proof fn lemma_all_streams_push(r: Seq<raw::StreamDefinition>, d: Seq<StreamDefinition>, x: raw::StreamDefinition, y: StreamDefinition)
	requires all_streams(r, d), stream_of(x, y)
	ensures #[trigger] all_streams(r.push(x), d.push(y))
{ }
pub broadcast proof fn lemma_services_keys(r: Seq<raw::ServiceDefinition>, d: Seq<ServiceDefinition>)
	requires #[trigger] all_services(r, d)
	ensures same_keys(r, d)
{ assert forall|i: int| 0 <= i < r.len() implies same_key((#[trigger] r[i]).raw_key(), d[i].key()) by { assert(service_of(r[i], d[i])); } }
pub broadcast proof fn lemma_streams_keys(r: Seq<raw::StreamDefinition>, d: Seq<StreamDefinition>)
	requires #[trigger] all_streams(r, d)
	ensures same_keys(r, d)
{ assert forall|i: int| 0 <= i < r.len() implies same_key((#[trigger] r[i]).raw_key(), d[i].key()) by { assert(stream_of(r[i], d[i])); } }
//@impl ../macros/src/interface/parse.rs#cooked InterfaceDefinition
//@fn visibility() -> r [C20]
	ensures *r == self.visibility
//@fn name() -> r [C20]
	ensures *r == self.name
//@fn doc() -> r [C20]
	ensures r@ == self.doc@
//@fn hidden() -> r [C20]
	ensures r == self.hidden
//@fn services() -> r [C20]
	ensures r@ == self.services@
//@fn streams() -> r [C20]
	ensures r@ == self.streams@
//@fn from_raw(errors, raw) -> r noisolation [C19]
	ensures [C19]
		kept(old(errors)@, final(errors)@), final(errors)@.len() > old(errors)@.len() <==> bad_interface(raw),
		repetitions_reported(old(errors)@.len() as int, final(errors)@, all_raw_services(raw)),
		repetitions_reported(old(errors)@.len() as int, final(errors)@, all_raw_streams(raw)),
	ensures [C19 C20] !bad_interface(raw) ==> interface_of(raw, r)
//@proof
	broadcast use {lemma_reported, lemma_services_keys, lemma_streams_keys};
	proof { lemma_bad_item_id(raw.items@); assert(raw.items@.take(raw.items@.len() as int) =~= raw.items@); }
//@local remove_services (\w+) \. into_items_ \( \) \. rev \( \)(?:(?!\. rev \( \)).)*? services \. remove \(
//@local remove_streams (\w+) \. into_items_ \( \) \. rev \( \)(?:(?!\. rev \( \)).)*? streams \. remove \(
//@loop 0
	invariant
		iter0_.items().len() <= iter0_all.len(), iter0_.items() =~= iter0_all.skip(iter0_all.len() - iter0_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() <==> bad_attributes(raw.attrs@) || bad_items(iter0_all.take(iter0_all.len() - iter0_.items().len())),
		all_services(services_of(iter0_all.take(iter0_all.len() - iter0_.items().len())), services@),
		all_streams(streams_of(iter0_all.take(iter0_all.len() - iter0_.items().len())), streams@),
	ensures iter0_.items().len() == 0
//@proof 0
	broadcast use {lemma_reported, lemma_all_services_push, lemma_all_streams_push};
	proof { if iter0_.items().len() > 0 { lemma_items_step(iter0_all, iter0_all.len() - iter0_.items().len()); } }
//@loop 1
	invariant
		iter1_.items().len() <= iter1_all.len(), iter1_.items() =~= iter1_all.skip(iter1_all.len() - iter1_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() ==> bad_interface(raw),
		bad_attributes(raw.attrs@) || bad_items(raw.items@) ==> errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_services.elements().contains(x) ==> x < services@.len() && errors@.len() > old(errors)@.len(),
		reported_so_far(old(errors)@.len() as int, errors@, services@, (iter1_all.len() - iter1_.items().len()), 0),
	ensures iter1_.items().len() == 0
//@proof 1
	broadcast use lemma_reported;
	proof { if iter1_.items().len() > 0 { assert(iter1_.items()[0] == iter1_all[(iter1_all.len() - iter1_.items().len())]); assert(iter1_all.skip(iter1_all.len() - iter1_.items().len()).drop_first() =~= iter1_all.skip((iter1_all.len() - iter1_.items().len()) + 1)); } }
//@loop 2
	invariant
		iter2_.items().len() <= iter2_all.len(), iter2_.items() =~= iter2_all.skip(iter2_all.len() - iter2_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() ==> bad_interface(raw),
		bad_attributes(raw.attrs@) || bad_items(raw.items@) ==> errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_services.elements().contains(x) ==> x < services@.len() && errors@.len() > old(errors)@.len(),
		reported_so_far(old(errors)@.len() as int, errors@, services@, a_i as int, (a_i + 1 + iter2_all.len() - iter2_.items().len())),
	ensures iter2_.items().len() == 0
//@proof 2
	broadcast use lemma_reported;
	proof { if iter2_.items().len() > 0 {
		let k = iter2_all.len() - iter2_.items().len();
		assert(iter2_.items()[0] == iter2_all[k]); assert(iter2_all.skip(k).drop_first() =~= iter2_all.skip(k + 1));
		let b = (a_i + 1 + iter2_all.len() - iter2_.items().len());
		assert(*iter2_all[k].1 == services@[b] && iter2_all[k].0 == b);
		if services@[a_i as int].key().id == services@[b].key().id || services@[a_i as int].key().name == services@[b].key().name { lemma_repeated(all_raw_services(raw), services@, a_i as int, b);  }
	} }
//@loop 3
	invariant
		iter3_.items().len() <= iter3_all.len(), iter3_.items() =~= iter3_all.skip(iter3_all.len() - iter3_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() ==> bad_interface(raw),
		bad_attributes(raw.attrs@) || bad_items(raw.items@) ==> errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_streams.elements().contains(x) ==> x < streams@.len() && errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_services.elements().contains(x) ==> x < services@.len() && errors@.len() > old(errors)@.len(),
		twice(all_raw_services(raw)) ==> errors@.len() > old(errors)@.len(),
		repetitions_reported(old(errors)@.len() as int, errors@, all_raw_services(raw)),
		reported_so_far(old(errors)@.len() as int, errors@, streams@, (iter3_all.len() - iter3_.items().len()), 0),
	ensures iter3_.items().len() == 0
//@proof 3
	broadcast use lemma_reported;
	proof { if iter3_.items().len() > 0 { assert(iter3_.items()[0] == iter3_all[(iter3_all.len() - iter3_.items().len())]); assert(iter3_all.skip(iter3_all.len() - iter3_.items().len()).drop_first() =~= iter3_all.skip((iter3_all.len() - iter3_.items().len()) + 1)); } }
//@loop 4
	invariant
		iter4_.items().len() <= iter4_all.len(), iter4_.items() =~= iter4_all.skip(iter4_all.len() - iter4_.items().len()),
		kept(old(errors)@, errors@),
		errors@.len() > old(errors)@.len() ==> bad_interface(raw),
		bad_attributes(raw.attrs@) || bad_items(raw.items@) ==> errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_streams.elements().contains(x) ==> x < streams@.len() && errors@.len() > old(errors)@.len(),
		forall|x: usize| #[trigger] remove_services.elements().contains(x) ==> x < services@.len() && errors@.len() > old(errors)@.len(),
		twice(all_raw_services(raw)) ==> errors@.len() > old(errors)@.len(),
		repetitions_reported(old(errors)@.len() as int, errors@, all_raw_services(raw)),
		reported_so_far(old(errors)@.len() as int, errors@, streams@, a_i as int, (a_i + 1 + iter4_all.len() - iter4_.items().len())),
	ensures iter4_.items().len() == 0
//@proof 4
	broadcast use lemma_reported;
	proof { if iter4_.items().len() > 0 {
		let k = iter4_all.len() - iter4_.items().len();
		assert(iter4_.items()[0] == iter4_all[k]); assert(iter4_all.skip(k).drop_first() =~= iter4_all.skip(k + 1));
		let b = (a_i + 1 + iter4_all.len() - iter4_.items().len());
		assert(*iter4_all[k].1 == streams@[b] && iter4_all[k].0 == b);
		if streams@[a_i as int].key().id == streams@[b].key().id || streams@[a_i as int].key().name == streams@[b].key().name { lemma_repeated(all_raw_streams(raw), streams@, a_i as int, b);  }
	} }
//@loop 5
	invariant
		iter5_.items().len() <= iter5_all.len(), iter5_.items() =~= iter5_all.skip(iter5_all.len() - iter5_.items().len()),
		services@.len() == all_raw_services(raw).len() - (iter5_all.len() - iter5_.items().len()),
		(iter5_all.len() - iter5_.items().len()) == 0 ==> all_services(all_raw_services(raw), services@),
		(iter5_all.len() - iter5_.items().len()) > 0 ==> errors@.len() > old(errors)@.len(),
	ensures iter5_.items().len() == 0
//@proof 5
	proof { if iter5_.items().len() > 0 { assert(iter5_.items()[0] == iter5_all[(iter5_all.len() - iter5_.items().len())]); assert(iter5_all.skip(iter5_all.len() - iter5_.items().len()).drop_first() =~= iter5_all.skip((iter5_all.len() - iter5_.items().len()) + 1)); assert forall|i: int| 0 <= i < iter5_all.len() implies #[trigger] iter5_all[i] < all_raw_services(raw).len() by { assert(iter5_all.contains(iter5_all[i])); } assert(iter5_all.contains(iter5_all[0])); lemma_removable(iter5_all, (iter5_all.len() - iter5_.items().len()), all_raw_services(raw).len() as int); } }
//@loop 6
	invariant
		iter6_.items().len() <= iter6_all.len(), iter6_.items() =~= iter6_all.skip(iter6_all.len() - iter6_.items().len()),
		streams@.len() == all_raw_streams(raw).len() - (iter6_all.len() - iter6_.items().len()),
		(iter6_all.len() - iter6_.items().len()) == 0 ==> all_streams(all_raw_streams(raw), streams@),
		(iter6_all.len() - iter6_.items().len()) > 0 ==> errors@.len() > old(errors)@.len(),
	ensures iter6_.items().len() == 0
//@proof 6
	proof { if iter6_.items().len() > 0 { assert(iter6_.items()[0] == iter6_all[(iter6_all.len() - iter6_.items().len())]); assert(iter6_all.skip(iter6_all.len() - iter6_.items().len()).drop_first() =~= iter6_all.skip((iter6_all.len() - iter6_.items().len()) + 1)); assert forall|i: int| 0 <= i < iter6_all.len() implies #[trigger] iter6_all[i] < all_raw_streams(raw).len() by { assert(iter6_all.contains(iter6_all[i])); } assert(iter6_all.contains(iter6_all[0])); lemma_removable(iter6_all, (iter6_all.len() - iter6_.items().len()), all_raw_streams(raw).len() as int); } }
//@endimpl

// ---------------------------------------------------------------- macros/src/interface/mod.rs
pub mod proc_macro2 { pub use super::{TokenStream, Span}; }
pub mod parse { pub mod raw { pub use super::super::raw::*; } pub mod cooked { pub use super::super::{InterfaceDefinition, ServiceDefinition, UpdateDefinition, StreamDefinition}; } }
pub mod generate {
	use super::*;
	/// The code for an interface.
	#[verifier::external_body]
	pub fn generate_interface(fizyr_rpc: &syn::Ident, interface: &InterfaceDefinition) -> (r: TokenStream) ensures r@ == seq![Piece::Generated(*fizyr_rpc, *interface)] { unimplemented!() }
}
pub broadcast proof fn lemma_contains_piece(a: Seq<Piece>, b: Seq<Piece>, x: Piece)
	ensures #[trigger] (a + b).contains(x) == (a.contains(x) || b.contains(x))
{
	let s = a + b;
	if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s[i] == x); }
	if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(s[a.len() + i] == x); }
	if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub open spec fn syntax_error(t: Seq<Tok>) -> bool { raw::InterfaceInput::after(t) != Some(Seq::<Tok>::empty()) }
pub open spec fn has_compile_error(t: TokenStream) -> bool { t@.contains(Piece::CompileError) }
//@free ../macros/src/interface/mod.rs generate_interface(tokens) -> r [C19 C20]
	ensures
		syntax_error(tokens.toks()) ==> has_compile_error(r),
		!syntax_error(tokens.toks()) ==> exists|x: raw::InterfaceInput| #[trigger] raw::InterfaceInput::means(tokens.toks(), x) && (if bad_interface(x.interface) { has_compile_error(r) } else { exists|i: InterfaceDefinition| #[trigger] interface_of(x.interface, i) && r@ == seq![Piece::Generated(x.fizyr_rpc, i)] }),
//@proof
	broadcast use lemma_contains_piece;
	proof { assert(seq![Piece::CompileError][0] == Piece::CompileError); assert(seq![Piece::CompileError].contains(Piece::CompileError)); }
//@loop 0
	invariant
		iter0_.items().len() <= iter0_all.len(),
		iter0_.items().len() < iter0_all.len() ==> tokens@.contains(Piece::CompileError),
		iter0_.items().len() == iter0_all.len() ==> tokens@ =~= Seq::<Piece>::empty(),
	ensures iter0_.items().len() == 0
//@proof 0
	broadcast use lemma_contains_piece;
	proof { assert(seq![Piece::CompileError][0] == Piece::CompileError); assert(seq![Piece::CompileError].contains(Piece::CompileError)); }
//@endfree
