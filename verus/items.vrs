// ---------------------------------------------------------------- trusted prelude: iterators
/// An iterator over values that are known.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Items<T> { x: Option<T> }
impl<T> Items<T> {
	pub uninterp spec fn items(&self) -> Seq<T>;
	#[verifier::external_body]
	pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: Items<B>)
		requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
		ensures r.items().len() == self.items().len(), forall|i: int| 0 <= i < self.items().len() ==> call_ensures(f, (self.items()[i],), #[trigger] r.items()[i])
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn collect(self) -> (r: Vec<T>) ensures r@ == self.items() { unimplemented!() }
	#[verifier::external_body]
	pub fn next(&mut self) -> (r: Option<T>)
		ensures match r {
			None => old(self).items().len() == 0 && final(self).items() == old(self).items(),
			Some(x) => old(self).items().len() > 0 && x == old(self).items()[0] && final(self).items() == old(self).items().drop_first(),
		}
	{ unimplemented!() }
}
pub trait VecExt<T> {
	fn extend_(&mut self, it: Items<T>);
	fn iter_<'a>(&'a self) -> (r: Items<&'a T>);
}
impl<T> VecExt<T> for Vec<T> {
	#[verifier::external_body]
	fn extend_(&mut self, it: Items<T>) ensures final(self)@ == old(self)@ + it.items() { unimplemented!() }
	#[verifier::external_body]
	fn iter_<'a>(&'a self) -> (r: Items<&'a T>) ensures r.items().len() == self@.len() <= usize::MAX, forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.items()[i]) == self@[i] { unimplemented!() }
}
/// What a `for` loop iterates over.
pub trait IntoItems<T>: Sized {
	spec fn spec_items(self) -> Seq<T>;
	fn into_items_(self) -> (r: Items<T>) ensures r.items() == self.spec_items();
}
impl<T> IntoItems<T> for Items<T> {
	open spec fn spec_items(self) -> Seq<T> { self.items() }
	fn into_items_(self) -> (r: Items<T>) { self }
}
impl<T> IntoItems<T> for Vec<T> {
	open spec fn spec_items(self) -> Seq<T> { self@ }
	#[verifier::external_body] fn into_items_(self) -> (r: Items<T>) { unimplemented!() }
}
impl<T> Items<T> {
	#[verifier::external_body]
	pub fn enumerate(self) -> (r: Items<(usize, T)>)
		ensures r.items().len() == self.items().len(), forall|i: int| 0 <= i < self.items().len() ==> (#[trigger] r.items()[i]).0 == i && r.items()[i].1 == self.items()[i]
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn skip(self, n: usize) -> (r: Items<T>) ensures r.items() == (if n <= self.items().len() { self.items().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
	#[verifier::external_body]
	pub fn rev(self) -> (r: Items<T>) ensures r.items() == self.items().reverse(), r.items().reverse() == self.items(), forall|x: T| #[trigger] r.items().contains(x) == self.items().contains(x) { unimplemented!() }
}
/// Sets of indices. Their elements come in ascending order.
#[verifier::external_body]
pub struct BTreeSet { x: () }
impl BTreeSet {
	pub uninterp spec fn elements(&self) -> Set<usize>;
	#[verifier::external_body]
	pub fn new() -> (r: Self) ensures r.elements() == Set::<usize>::empty() { unimplemented!() }
	#[verifier::external_body]
	pub fn insert(&mut self, i: usize) -> (r: bool) ensures final(self).elements() == old(self).elements().insert(i), r == !old(self).elements().contains(i) { unimplemented!() }
}
pub open spec fn ascending(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
impl IntoItems<usize> for BTreeSet {
	uninterp spec fn spec_items(self) -> Seq<usize>;
	#[verifier::external_body]
	fn into_items_(self) -> (r: Items<usize>) ensures ascending(r.items()), forall|x: usize| self.elements().contains(x) <==> #[trigger] r.items().contains(x) { unimplemented!() }
}
