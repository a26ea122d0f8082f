//! Search for interface definitions for which the macro panics, drops an item, or misses a mistake.
//!
//! The code of the macro is compiled into this program (with the fallback implementation of `proc_macro2`) and called directly.
use crate::rng::Rng;
use crate::transport::Bad;
use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeSet;

pub struct Run { rng: Rng, pub trace: Vec<String>, pub kinds: BTreeSet<&'static str>, mistakes: Vec<String>, wanted: Vec<String> }

const NAMES: [&str; 12] = ["a", "b", "ab", "a_b", "open", "close", "get_it", "x9", "tick", "state", "image", "news"];
const IDS: [(&str, i64); 14] = [("0", 0), ("1", 1), ("2", 2), ("3", 3), ("-1", -1), ("-2", -2), ("256", 256), ("257", 257), ("0x10", 16), ("65_537", 65537), ("2147483647", 2147483647), ("-2147483648", -2147483648), ("2147483648", 2147483648), ("-99999999999", -99999999999)];
const TYPES: [&str; 5] = ["()", "String", "Vec<u8>", "(i32, String)", "Option<super::Thing>"];

impl Run {
	pub fn new(seed: u64) -> Self { Self { rng: Rng::new(seed), trace: vec![], kinds: BTreeSet::new(), mistakes: vec![], wanted: vec![] } }
	fn mistake(&mut self, what: String, kind: &'static str) { self.mistakes.push(what); self.kinds.insert(kind); }
	fn attrs(&mut self, of: &str) -> String {
		let mut out = String::new();
		while self.rng.below(4) == 0 {
			match self.rng.below(24) {
				0 => { self.mistake(format!("unknown attribute of {}", of), "attribute"); out += "#[cfg(test)] " },
				1 => { self.mistake(format!("documentation of {} that is not a text", of), "attribute"); out += "#[doc = 5] " },
				2 => { self.mistake(format!("documentation of {} that is a list", of), "attribute"); out += "#[doc(hidden)] " },
				3 => { self.mistake(format!("hidden with arguments, of {}", of), "attribute"); out += "#[hidden(true)] " },
				4 => { self.mistake(format!("unknown attribute path of {}", of), "attribute"); out += "#[some::hidden] " },
				5..=8 => out += "#[hidden] ",
				9..=11 => out += "#[doc = \"\"] ",
				_ => out += "\n/// About it.\n",
			}
		}
		out
	}
	fn id(&mut self, of: &str, few: bool, wrong: bool) -> (&'static str, Option<i64>) {
		let (t, v) = if wrong && self.rng.below(12) == 0 { IDS[12 + self.rng.below(2)] } else { IDS[self.rng.below(if few { 4 } else { 12 }) as usize] };
		if v as i32 as i64 != v { self.mistake(format!("ID of {} out of range", of), "range"); return (t, None) }
		(t, Some(v))
	}
	fn repeated(&mut self, what: &str, items: &[(String, Option<i64>)]) {
		for (i, a) in items.iter().enumerate() {
			for b in &items[..i] {
				if a.0 == b.0 { self.mistake(format!("name {} of two {}", a.0, what), "name") }
				if a.1.is_some() && a.1 == b.1 { self.mistake(format!("ID {} of two {}", a.1.unwrap(), what), "id") }
			}
		}
	}
	/// Names and IDs, sometimes without repetitions.
	fn items(&mut self, what: &str) -> Vec<(String, &'static str, Option<i64>)> {
		let n = self.rng.below(6);
		let (few_names, few_ids, clean) = (self.rng.below(3) == 0, self.rng.below(3) == 0, self.rng.below(4) != 0);
		let mut out: Vec<(String, &'static str, Option<i64>)> = vec![];
		for _ in 0..n {
			let name = NAMES[self.rng.below(if few_names { 3 } else { 12 }) as usize].to_string();
			if clean && out.iter().any(|x| x.0 == name) { continue }
			let (text, id) = self.id(&format!("{} {}", what, name), few_ids, !clean);
			if clean && out.iter().any(|x| x.2 == id) { continue }
			out.push((name, text, id));
		}
		self.repeated(what, &out.iter().map(|x| (x.0.clone(), x.2)).collect::<Vec<_>>());
		out
	}
	fn definition(&mut self) -> String {
		let services = self.items("services");
		let streams = self.items("streams");
		let mut items = vec![];
		for (name, id, _) in services {
			let (q, p) = (TYPES[self.rng.below(5)], TYPES[self.rng.below(5)]);
			let mut s = format!("{}service {} {}: {} -> {}", self.attrs(&name), id, name, q, p);
			if self.rng.below(2) == 0 {
				let (up, down) = (self.items("request updates"), self.items("response updates"));
				let mut updates = vec![];
				for (k, us) in [("request", up), ("response", down)] {
					for (u, id, _) in us {
						let t = TYPES[self.rng.below(5)];
						updates.push(format!("{}{}_update {} {}: {}", self.attrs(&u), k, id, u, t));
						self.wanted.push(format!("send_{}_update", u));
					}
				}
				for i in (1..updates.len()).rev() { let j = self.rng.below(i + 1); updates.swap(i, j) }
				s += &format!(" {{ {} }}", updates.join(", "));
				if self.rng.below(2) == 0 { s += "," }
			} else { s += "," }
			self.wanted.push(name);
			items.push(s);
		}
		for (name, id, _) in streams {
			let t = TYPES[self.rng.below(5)];
			items.push(format!("{}stream {} {}: {},", self.attrs(&name), id, name, t));
			self.wanted.push(format!("send_{}", name));
		}
		if self.rng.below(20) == 0 {
			let what = ["event 5 odd: (),", "service odd: () -> (),", "stream 5 odd: ()", "service 5 odd: (),", "stream 5: (),", "request_update 5 odd: (),"][self.rng.below(6)];
			// Something that lacks its end is a mistake only as the last one.
			items.insert(if what.ends_with(',') { self.rng.below(items.len() + 1) } else { items.len() }, what.to_string());
			for _ in 0..1 { if items.last().map(|x| x.as_str()) == Some(what) || what.ends_with(',') { self.mistake(format!("unknown item {:?}", what), "syntax") } }
		} else {
			for i in (1..items.len()).rev() { let j = self.rng.below(i + 1); items.swap(i, j) }
		}
		format!("fizyr_rpc; {}pub interface Thing {{ {} }}", self.attrs("the interface"), items.join(" "))
	}
	pub fn run(&mut self) -> Result<(), Bad> {
		let text = self.definition();
		self.trace.push(text.clone());
		for m in self.mistakes.clone() { self.trace.push(format!("mistake: {}", m)) }
		let tokens: TokenStream = match text.parse() { Ok(x) => x, Err(_) => return Ok(()) };
		let bad = |what: String| Err(Bad { tags: vec!["C19"], what });
		let out = match std::panic::catch_unwind(|| crate::interface::generate_interface(tokens)) {
			Ok(x) => x,
			Err(_) => return bad("the macro panics".to_string()),
		};
		let mut idents = BTreeSet::new();
		collect(out, &mut idents);
		let rejected = idents.contains("compile_error");
		if rejected && self.mistakes.is_empty() { return bad("the macro gives a compile error for a definition without mistakes".to_string()) }
		if !rejected && !self.mistakes.is_empty() { return bad(format!("the macro accepts a definition with a mistake: {}", self.mistakes[0])) }
		if !rejected {
			self.kinds.insert("accepted");
			for w in &self.wanted { if !idents.contains(w) { return bad(format!("the macro drops an item: nothing named {} is generated", w)) } }
		}
		Ok(())
	}
}

fn collect(t: TokenStream, out: &mut BTreeSet<String>) {
	for t in t {
		match t {
			TokenTree::Ident(i) => { out.insert(i.to_string()); },
			TokenTree::Group(g) => collect(g.stream(), out),
			_ => (),
		}
	}
}
