//! Compare the introspection data of interfaces with tables of their definitions.
use crate::transport::Bad;
use fizyr_rpc::introspection::{FormatTypeInfo, InterfaceDefinition, IntrospectableFormat, ServiceDefinition, StreamDefinition, UpdateDefinition};
use std::collections::BTreeSet;

#[derive(Debug)] pub struct Alpha;
#[derive(Debug)] pub struct Beta;
#[derive(Debug)] pub struct Gamma;

pub struct Fmt;
impl fizyr_rpc::format::Format for Fmt { type Body = fizyr_rpc::StreamBody; }
impl IntrospectableFormat for Fmt { type TypeInfo = &'static str; }
macro_rules! named { ($($t:ty = $n:literal),*) => { $( impl FormatTypeInfo<$t> for Fmt { fn type_info() -> &'static str { $n } } )* } }
named!(Alpha = "Alpha", Beta = "Beta", Gamma = "Gamma", () = "()", Vec<Alpha> = "Vec<Alpha>", Option<Beta> = "Option<Beta>", (Alpha, Gamma) = "(Alpha, Gamma)");

pub mod store {
	use super::*;
	fizyr_rpc::interface! {
		/// Access to the store.
		///
		///   * one
		///     * two
		pub interface Store {
			/// Put something in.
			///
			/// It stays there.
			service 4 put_in: Alpha -> (),
			#[hidden]
			service 3 take_out: () -> Option<Beta> {
				///How far it is.
				response_update 9 progress: Gamma,
				/// Not yet.
				#[hidden]
				response_update -9 not_yet: (),
			},
			///    All
			///  of
			///
			///   it.
			service 2147483647 list: (Alpha, Gamma) -> Vec<Alpha> {
				request_update 5 stop: (),
				#[hidden]
				request_update 4 go_on: Alpha,
				response_update 5 more: Vec<Alpha>,
				request_update 0 again: Beta,
			},
			service 0 zero: Beta -> Beta,
			#[hidden]
			/// Negative.
			service -2147483648 below: Beta -> Alpha { },
			stream 8 changed: Vec<Alpha>,
			/// Gone.
			#[hidden]
			stream 7 gone: (),
			stream -1000 put_in: Gamma,
		}
	}
}

pub mod only_streams {
	use super::*;
	fizyr_rpc::interface! {
		#[hidden]
		pub interface OnlyStreams {
			/// First.
			stream 1 first: Alpha,
			///
			stream 2 second: Beta,
			#[doc = "Third."]
			#[doc = "  With \"quotes\" and \\ backslashes."]
			stream 3 third: Gamma,
		}
	}
}

pub mod small {
	use super::*;
	fizyr_rpc::interface! {
		/// Nothing much here.
		pub interface small_one { service 1 ping: () -> (), }
	}
}

type U = (i32, &'static str, &'static str, bool, &'static str);
type S = (i32, &'static str, &'static str, bool, &'static str, &'static str, Vec<U>, Vec<U>);
struct Table { name: &'static str, doc: &'static str, hidden: bool, services: Vec<S>, streams: Vec<U> }

fn table(i: u64) -> Table {
	match i {
		0 => Table { name: "Store", doc: "Access to the store.\n\n  * one\n    * two\n", hidden: false,
			services: vec![
				(4, "put_in", "Put something in.\n\nIt stays there.\n", false, "Alpha", "()", vec![], vec![]),
				(3, "take_out", "", true, "()", "Option<Beta>", vec![], vec![(9, "progress", "How far it is.\n", false, "Gamma"), (-9, "not_yet", "Not yet.\n", true, "()")]),
				(2147483647, "list", "  All\nof\n\n it.\n", false, "(Alpha, Gamma)", "Vec<Alpha>", vec![(5, "stop", "", false, "()"), (4, "go_on", "", true, "Alpha"), (0, "again", "", false, "Beta")], vec![(5, "more", "", false, "Vec<Alpha>")]),
				(0, "zero", "", false, "Beta", "Beta", vec![], vec![]),
				(-2147483648, "below", "Negative.\n", true, "Beta", "Alpha", vec![], vec![]),
			],
			streams: vec![(8, "changed", "", false, "Vec<Alpha>"), (7, "gone", "Gone.\n", true, "()"), (-1000, "put_in", "", false, "Gamma")] },
		1 => Table { name: "OnlyStreams", doc: "", hidden: true, services: vec![],
			streams: vec![(1, "first", "First.\n", false, "Alpha"), (2, "second", "\n", false, "Beta"), (3, "third", "Third.\n  With \"quotes\" and \\ backslashes.\n", false, "Gamma")] },
		_ => Table { name: "small_one", doc: "Nothing much here.\n", hidden: false, services: vec![(1, "ping", "", false, "()", "()", vec![], vec![])], streams: vec![] },
	}
}

fn bad<T>(what: String) -> Result<T, Bad> { Err(Bad { tags: vec!["C20"], what }) }
fn update(where_: &str, d: &UpdateDefinition<&'static str>, t: &U) -> Result<(), Bad> {
	let got = (d.service_id, d.name.as_str(), d.doc.as_str(), d.hidden, d.body);
	if got != *t { return bad(format!("{}: an update is given as {:?}, declared is {:?}", where_, got, t)) }
	Ok(())
}
fn updates(where_: &str, d: &[UpdateDefinition<&'static str>], t: &[U]) -> Result<(), Bad> {
	if d.len() != t.len() { return bad(format!("{}: {} updates are given, {} are declared", where_, d.len(), t.len())) }
	for (d, t) in d.iter().zip(t) { update(where_, d, t)? }
	Ok(())
}
fn services(d: &[ServiceDefinition<&'static str>], t: &[S]) -> Result<(), Bad> {
	if d.len() != t.len() { return bad(format!("{} services are given, {} are declared", d.len(), t.len())) }
	for (d, t) in d.iter().zip(t) {
		let got = (d.service_id, d.name.as_str(), d.doc.as_str(), d.hidden, d.request_body, d.response_body);
		let want = (t.0, t.1, t.2, t.3, t.4, t.5);
		if got != want { return bad(format!("a service is given as {:?}, declared is {:?}", got, want)) }
		updates(&format!("request updates of {}", t.1), &d.request_updates, &t.6)?;
		updates(&format!("response updates of {}", t.1), &d.response_updates, &t.7)?;
	}
	Ok(())
}
fn streams(d: &[StreamDefinition<&'static str>], t: &[U]) -> Result<(), Bad> {
	if d.len() != t.len() { return bad(format!("{} streams are given, {} are declared", d.len(), t.len())) }
	for (d, t) in d.iter().zip(t) {
		let got = (d.service_id, d.name.as_str(), d.doc.as_str(), d.hidden, d.body);
		if got != *t { return bad(format!("a stream is given as {:?}, declared is {:?}", got, t)) }
	}
	Ok(())
}

pub struct Run { pub trace: Vec<String>, pub kinds: BTreeSet<&'static str> }
impl Run {
	pub fn run(seed: u64) -> (Self, Result<(), Bad>) {
		let t = table(seed % 3);
		let mut s = Run { trace: vec![format!("introspection data of the interface {} in hunt/src/intro.rs", t.name)], kinds: BTreeSet::new() };
		s.kinds.insert(t.name);
		let r = match seed % 3 {
			0 => Self::check(&t, store::Interface::name(), store::Interface::doc(), store::Interface::definition::<Fmt>(), store::Interface::services::<Fmt>(), store::Interface::streams::<Fmt>()),
			1 => Self::check(&t, only_streams::Interface::name(), only_streams::Interface::doc(), only_streams::Interface::definition::<Fmt>(), only_streams::Interface::services::<Fmt>(), only_streams::Interface::streams::<Fmt>()),
			_ => Self::check(&t, small::Interface::name(), small::Interface::doc(), small::Interface::definition::<Fmt>(), small::Interface::services::<Fmt>(), small::Interface::streams::<Fmt>()),
		};
		(s, r)
	}
	fn check(t: &Table, name: &str, doc: &str, d: InterfaceDefinition<&'static str>, s: Vec<ServiceDefinition<&'static str>>, m: Vec<StreamDefinition<&'static str>>) -> Result<(), Bad> {
		for (name, doc) in [(name, doc), (d.name.as_str(), d.doc.as_str())] {
			if name != t.name || doc != t.doc { return bad(format!("the interface is given as {:?} {:?}, declared is {:?} {:?}", name, doc, t.name, t.doc)) }
		}
		if d.hidden != t.hidden { return bad(format!("the interface is given as hidden: {}, declared is {}", d.hidden, t.hidden)) }
		for s in [&s, &d.services] { services(s, &t.services)? }
		for m in [&m, &d.streams] { streams(m, &t.streams)? }
		Ok(())
	}
}
