// ---------------------------------------------------------------- trusted prelude: lines of text
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Span { x: () }
pub assume_specification [ String::len ](s: &String) -> (r: usize) ensures r == utf8(s@).len();
pub assume_specification [ String::with_capacity ](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub trait TextExt {
	spec fn text_(&self) -> Seq<char>;
	fn as_bytes_<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == utf8(self.text_());
	fn text_from_<'a>(&'a self, from: usize) -> (r: &'a str)
		requires from <= utf8(self.text_()).len(), vstd::utf8::is_char_boundary(utf8(self.text_()), from as int)
		ensures utf8(r@) == utf8(self.text_()).skip(from as int);
}
impl TextExt for String {
	open spec fn text_(&self) -> Seq<char> { self@ }
	#[verifier::external_body] fn as_bytes_<'a>(&'a self) -> (r: &'a [u8]) { unimplemented!() }
	#[verifier::external_body] fn text_from_<'a>(&'a self, from: usize) -> (r: &'a str) { unimplemented!() }
}
pub trait CountWhile {
	fn count_while_<F: Fn(u8) -> bool>(&self, f: F) -> (r: usize);
}
pub open spec fn counted<F: Fn(u8) -> bool>(bytes: Seq<u8>, f: F, n: int) -> bool {
	&&& 0 <= n <= bytes.len()
	&&& forall|i: int| 0 <= i < n ==> call_ensures(f, (#[trigger] bytes[i],), true)
	&&& n < bytes.len() ==> call_ensures(f, (bytes[n],), false)
}
impl CountWhile for [u8] {
	#[verifier::external_body]
	fn count_while_<F: Fn(u8) -> bool>(&self, f: F) -> (r: usize)
		ensures (forall|c: u8| call_requires(f, (c,))) ==> counted(self@, f, r as int)
	{ unimplemented!() }
}
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
impl<'a> Convert<String> for &'a str {
	uninterp spec fn spec_convert(self) -> String;
	#[verifier::external_body] fn convert(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl<'a, T> IntoItems<&'a T> for &'a [T] {
	uninterp spec fn spec_items(self) -> Seq<&'a T>;
	#[verifier::external_body] fn into_items_(self) -> (r: Items<&'a T>) ensures r.items().len() == self@.len() <= usize::MAX, forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.items()[i]) == self@[i] { unimplemented!() }
}

// ---------------------------------------------------------------- ghost state and lemmas
/// The number of spaces a line starts with.
pub open spec fn leading(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && s[0] == ' ' { 1 + leading(s.drop_first()) } else { 0 } }
pub open spec fn blank(s: Seq<char>) -> bool { leading(s) == s.len() }
/// The number of spaces all lines start with, blank lines aside.
pub open spec fn common(lines: Seq<Seq<char>>) -> int decreases lines.len() {
	if lines.len() == 0 { usize::MAX as int } else {
		let c = common(lines.drop_last());
		if blank(lines.last()) || c <= leading(lines.last()) { c } else { leading(lines.last()) as int }
	}
}
/// The lines without their first `c` spaces, each followed by a newline. Blank lines are empty.
pub open spec fn joined(lines: Seq<Seq<char>>, c: int) -> Seq<char> decreases lines.len() {
	if lines.len() == 0 { Seq::empty() } else { (joined(lines.drop_last(), c) + (if blank(lines.last()) { Seq::empty() } else { lines.last().skip(c) })).push('\n') }
}
/// The number of bytes of the lines and their newlines.
pub open spec fn total(lines: Seq<Seq<char>>) -> nat decreases lines.len() {
	if lines.len() == 0 { 0 } else { total(lines.drop_last()) + utf8(lines.last()).len() + 1 }
}
pub open spec fn total_text(lines: Seq<Seq<char>>) -> nat decreases lines.len() {
	if lines.len() == 0 { 0 } else { total_text(lines.drop_last()) + (if blank(lines.last()) { 0 } else { utf8(lines.last()).len() + 1 }) }
}
pub open spec fn blanks(lines: Seq<Seq<char>>) -> nat decreases lines.len() {
	if lines.len() == 0 { 0 } else { blanks(lines.drop_last()) + (if blank(lines.last()) { 1nat } else { 0 }) }
}
pub open spec fn texts(d: Seq<WithSpan<String>>) -> Seq<Seq<char>> { d.map_values(|x: WithSpan<String>| x.value@) }
/// The lines, of which the blank ones are empty.
pub open spec fn unindented(lines: Seq<String>, all: Seq<Seq<char>>) -> bool {
	forall|i: int| 0 <= i < lines.len() ==> (#[trigger] lines[i])@ =~= if blank(all[i]) { Seq::<char>::empty() } else { all[i] }
}
proof fn space() ensures vstd::utf8::encode_scalar(0x20) =~= seq![0x20u8] {
	assert((0x20u32 & 0x7F) == 0x20) by(bit_vector);
}
proof fn not_space(s: Seq<char>) requires s.len() > 0, s[0] != ' ' ensures utf8(s).len() > 0, utf8(s)[0] != 0x20u8 {
	vstd::utf8::encode_utf8_first_scalar(s);
	if utf8(s)[0] == 0x20u8 {
		assert(vstd::utf8::decode_first_scalar(utf8(s)) == 0x20) by { assert(0x20u8 & 0x7F == 0x20u8) by(bit_vector); assert(0x20u8 & 0x80 == 0u8) by(bit_vector); };
	}
}
/// Spaces can be counted in the bytes.
proof fn lemma_leading(s: Seq<char>, n: int)
	requires 0 <= n <= utf8(s).len(), forall|i: int| 0 <= i < n ==> utf8(s)[i] == 0x20u8, n < utf8(s).len() ==> utf8(s)[n] != 0x20u8
	ensures n == leading(s), leading(s) <= s.len(), blank(s) <==> utf8(s).len() == n
	decreases s.len()
{
	reveal_with_fuel(vstd::utf8::encode_utf8, 2);
	if s.len() > 0 && s[0] == ' ' {
		space();
		let t = s.drop_first();
		assert(utf8(s) == seq![0x20u8] + utf8(t));
		assert(n > 0) by { assert(utf8(s)[0] == 0x20u8); }
		assert forall|i: int| 0 <= i < n - 1 implies utf8(t)[i] == 0x20u8 by { assert(utf8(t)[i] == utf8(s)[i + 1]); }
		lemma_leading(t, n - 1);
	} else if s.len() > 0 { not_space(s); }
}
pub broadcast proof fn lemma_counted<F: Fn(u8) -> bool>(s: Seq<char>, f: F, n: int)
	requires #[trigger] counted(utf8(s), f, n), forall|c: u8, r: bool| #[trigger] call_ensures(f, (c,), r) ==> r == (c == 0x20u8)
	ensures n == leading(s), leading(s) <= s.len(), blank(s) <==> utf8(s).len() == n
{
	lemma_leading(s, n);
}
/// Spaces can be cut off from the bytes.
proof fn lemma_skip(s: Seq<char>, m: int)
	requires 0 <= m <= leading(s)
	ensures m <= s.len(), m <= utf8(s).len(), vstd::utf8::is_char_boundary(utf8(s), m), utf8(s.skip(m)) == utf8(s).skip(m)
	decreases s.len()
{
	vstd::utf8::encode_utf8_valid_utf8(s);
	if m > 0 {
		reveal_with_fuel(vstd::utf8::encode_utf8, 2);
		space();
		let t = s.drop_first();
		lemma_skip(t, m - 1);
		assert(utf8(s) == seq![0x20u8] + utf8(t));
		vstd::utf8::encode_utf8_first_scalar(s);
		assert(vstd::utf8::pop_first_scalar(utf8(s)) =~= utf8(t));
		assert(s.skip(m) =~= t.skip(m - 1));
		assert(utf8(s).skip(m) =~= utf8(t).skip(m - 1));
	} else { assert(s.skip(0) =~= s); assert(utf8(s).skip(0) =~= utf8(s)); }
}
/// Every line that is not blank starts with the common number of spaces.
proof fn lemma_common(lines: Seq<Seq<char>>, i: int)
	requires 0 <= i < lines.len(), !blank(lines[i])
	ensures common(lines) <= leading(lines[i])
	decreases lines.len()
{
	if i < lines.len() - 1 { lemma_common(lines.drop_last(), i); }
}
proof fn lemma_common_positive(lines: Seq<Seq<char>>)
	ensures 0 <= common(lines) <= usize::MAX
	decreases lines.len()
{
	if lines.len() > 0 { lemma_common_positive(lines.drop_last()); }
}
/// What is cut off is less than what there is.
proof fn lemma_total(lines: Seq<Seq<char>>, n: int)
	requires 0 <= n <= lines.len()
	ensures total(lines.take(n)) <= total(lines), blanks(lines) <= lines.len(), total_text(lines) + blanks(lines) <= total(lines), lines.len() <= total(lines)
	decreases lines.len()
{
	if lines.len() > 0 {
		if n < lines.len() { lemma_total(lines.drop_last(), n); assert(lines.drop_last().take(n) =~= lines.take(n)); }
		else { lemma_total(lines.drop_last(), n - 1); assert(lines.take(n) =~= lines); }
	}
}
proof fn lemma_cut(lines: Seq<Seq<char>>, c: int)
	requires 0 <= c, forall|i: int| 0 <= i < lines.len() && !blank(#[trigger] lines[i]) ==> c <= leading(lines[i])
	ensures (lines.len() - blanks(lines)) * c <= total_text(lines), lines.len() >= blanks(lines)
	decreases lines.len()
{
	if lines.len() > 0 {
		let d = lines.drop_last();
		assert forall|i: int| 0 <= i < d.len() && !blank(#[trigger] d[i]) implies c <= leading(d[i]) by { assert(d[i] == lines[i]); }
		lemma_cut(d, c);
		if !blank(lines.last()) {
			assert(!blank(lines[lines.len() - 1]));
			lemma_skip(lines.last(), c);
			assert((d.len() - blanks(d) + 1) * c == (d.len() - blanks(d)) * c + c) by(nonlinear_arith);
		}
	}
}

// ---------------------------------------------------------------- macros/src/interface/generate/interface_struct.rs
//@type ../macros/src/util.rs WithSpan
//@free ../macros/src/interface/generate/interface_struct.rs to_doc_string(attrs) -> r [C20]
//@local lines let mut (\w+)(?: : Vec < \w+ >)? = Vec ::
//@local common_leading_spaces let mut (\w+) = usize :: MAX
//@local string_size (\w+) - \( \w+ \. len \( \) - \w+ \) \* \w+
//@local empty_lines \w+ - \( \w+ \. len \( \) - (\w+) \) \* \w+
//@local doc_str let mut (\w+) = String :: with_capacity
	requires total(texts(attrs@)) <= usize::MAX
	ensures r@ == joined(texts(attrs@), common(texts(attrs@)))
//@proof
	broadcast use lemma_counted, lemma_utf8_injective;
	let ghost all = texts(attrs@);
	let ghost c = common(all);
	proof {
		lemma_total(all, 0); lemma_common_positive(all);
		assert(all.take(all.len() as int) =~= all);
		assert(all.take(0) =~= Seq::empty());
		assert forall|i: int| 0 <= i < all.len() && !blank(#[trigger] all[i]) implies c <= leading(all[i]) by { lemma_common(all, i); }
		lemma_cut(all, c);
	}
//@loop 0
	invariant
		all == texts(attrs@), c == common(all), 0 <= c <= usize::MAX, total(all) <= usize::MAX,
		iter0_all.len() == attrs@.len(), forall|i: int| 0 <= i < attrs@.len() ==> *(#[trigger] iter0_all[i]) == attrs@[i],
		iter0_.items().len() <= iter0_all.len(), iter0_.items() =~= iter0_all.skip(iter0_all.len() - iter0_.items().len()),
		unindented(lines@, all),
		lines@.len() == iter0_all.len() - iter0_.items().len(),
		common_leading_spaces == common(all.take(lines@.len() as int)),
		string_size == total_text(all.take(lines@.len() as int)),
		empty_lines == blanks(all.take(lines@.len() as int)),
	ensures iter0_.items().len() == 0
//@proof 0
	broadcast use lemma_counted;
	proof {
		reveal_strlit("");
		let n = lines@.len() as int;
		if iter0_.items().len() > 0 {
			assert(iter0_.items()[0] == iter0_all[n]);
			assert(all.take(n + 1).drop_last() =~= all.take(n));
			assert(all.take(n + 1).last() == all[n]);
			lemma_total(all, n + 1); lemma_total(all.take(n + 1), n + 1); lemma_total(all.take(n), n);
		}
	}
//@loop 1
	invariant
		all == texts(attrs@), c == common(all), 0 <= c <= usize::MAX, common_leading_spaces == c,
		iter1_all.len() == all.len(), unindented(iter1_all, all),
		iter1_.items().len() <= iter1_all.len(), iter1_.items() =~= iter1_all.skip(iter1_all.len() - iter1_.items().len()),
		doc_str@ == joined(all.take(iter1_all.len() - iter1_.items().len()), c),
	ensures iter1_.items().len() == 0
//@proof 1
	broadcast use lemma_utf8_injective;
	proof {
		let n = iter1_all.len() - iter1_.items().len();
		assert(all.take(all.len() as int) =~= all);
		if iter1_.items().len() > 0 {
			assert(iter1_.items()[0] == iter1_all[n]);
			assert(all.take(n + 1).drop_last() =~= all.take(n));
			assert(all.take(n + 1).last() == all[n]);
			if !blank(all[n]) { lemma_common(all, n); lemma_skip(all[n], c); vstd::utf8::encode_utf8_decode_utf8(all[n].skip(c)); }
		}
	}
//@endfree
