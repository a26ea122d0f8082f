mod core;
mod exec;
#[cfg(feature = "interface")]
mod iface;
#[cfg(feature = "introspect")]
mod intro;
#[cfg(feature = "macros")]
#[path = "/repo/macros/src/interface/mod.rs"]
mod interface;
#[cfg(feature = "listener")]
mod listener;
#[cfg(feature = "macros")]
mod macros;
mod rng;
mod transport;
#[cfg(feature = "macros")]
#[path = "/repo/macros/src/util.rs"]
mod util;
use std::collections::BTreeSet;
use std::time::{Duration, Instant};

fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
	o.push('"');
	o
}
pub fn json_list<S: AsRef<str>>(l: &[S]) -> String { format!("[{}]", l.iter().map(|s| json_str(s.as_ref())).collect::<Vec<_>>().join(",")) }

/// Result of one scenario: the properties contradicted, what happened, and the steps.
pub struct Found { pub tags: Vec<String>, pub what: String, pub trace: Vec<String> }
pub struct Outcome { pub found: Option<Found>, pub conclusive: bool, pub kinds: Vec<&'static str>, pub trace: Vec<String> }

fn one(driver: &str, focus: &str, seed: u64) -> Outcome {
	match driver {
		"core" => {
			let mut s = core::Sim::new(seed, focus);
			let r = s.run();
			let trace = std::mem::take(&mut s.trace);
			let kinds: Vec<_> = s.kinds.iter().copied().collect();
			let conclusive = s.conclusive();
			// The remains of a broken execution may panic when they are dropped.
			let broken = r.is_err();
			if broken { std::mem::forget(s) } else { drop(s) }
			Outcome { found: r.err().map(|m| Found { tags: m.tags.iter().map(|s| s.to_string()).collect(), what: m.what, trace: trace.clone() }), conclusive, kinds, trace }
		},
		"codec" | "stream" | "seqpacket" => {
			let mut s = transport::Run::new(seed, focus);
			let r = match driver { "codec" => s.codec(), "stream" => s.stream(), _ => s.seqpacket() };
			Outcome { found: r.err().map(|m| Found { tags: m.tags.iter().map(|s| s.to_string()).collect(), what: m.what, trace: s.trace.clone() }), conclusive: true, kinds: s.kinds.iter().copied().collect(), trace: s.trace }
		},
		#[cfg(feature = "interface")]
		"interface" => {
			let mut s = iface::Run::new(seed);
			let r = s.run();
			Outcome { found: r.err().map(|m| Found { tags: m.tags.iter().map(|s| s.to_string()).collect(), what: m.what, trace: s.trace.clone() }), conclusive: true, kinds: s.kinds.iter().copied().collect(), trace: s.trace }
		},
		#[cfg(feature = "listener")]
		"listener" => {
			let mut s = listener::Run::new(seed);
			let r = s.run();
			Outcome { found: r.err().map(|m| Found { tags: m.tags.iter().map(|s| s.to_string()).collect(), what: m.what, trace: s.trace.clone() }), conclusive: true, kinds: s.kinds.iter().copied().collect(), trace: s.trace }
		},
		#[cfg(feature = "introspect")]
		"introspect" => {
			let (s, r) = intro::Run::run(seed);
			Outcome { found: r.err().map(|m| Found { tags: m.tags.iter().map(|s| s.to_string()).collect(), what: m.what, trace: s.trace.clone() }), conclusive: true, kinds: s.kinds.iter().copied().collect(), trace: s.trace }
		},
		#[cfg(feature = "macros")]
		"macros" => {
			let mut s = macros::Run::new(seed);
			let r = s.run();
			Outcome { found: r.err().map(|m| Found { tags: m.tags.iter().map(|s| s.to_string()).collect(), what: m.what, trace: s.trace.clone() }), conclusive: true, kinds: s.kinds.iter().copied().collect(), trace: s.trace }
		},
		_ => panic!("unknown driver {}", driver),
	}
}

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let get = |k: &str, d: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| d.to_string());
	let (driver, prop) = (get("--driver", "core"), get("--prop", "any"));
	std::panic::set_hook(Box::new(|_| ()));
	if args.first().map(|s| s.as_str()) == Some("replay") {
		let seed: u64 = get("--seed", "0").parse().unwrap();
		let o = one(&driver, &prop, seed);
		for t in &o.trace { println!("  {}", t) }
		match o.found { Some(f) => { println!("MISMATCH {:?}: {}", f.tags, f.what); std::process::exit(1) }, None => println!("no mismatch (conclusive: {})", o.conclusive) }
		return;
	}
	let seed: u64 = get("--seed", "1").parse().unwrap();
	let secs: f64 = get("--secs", "10").parse().unwrap();
	let max: u64 = get("--max", "100000000").parse().unwrap();
	let end = Instant::now() + Duration::from_secs_f64(secs);
	let (mut n, mut nontrivial, mut other) = (0u64, 0u64, 0u64);
	let mut classes: BTreeSet<Vec<&'static str>> = BTreeSet::new();
	let mut kinds: BTreeSet<&'static str> = BTreeSet::new();
	let mut sample: Vec<String> = vec![];
	let mut found: Option<(u64, Found)> = None;
	let mut others: Vec<String> = vec![];
	while n < max && Instant::now() < end {
		let s = seed.wrapping_mul(1_000_003).wrapping_add(n);
		let o = one(&driver, &prop, s);
		n += 1;
		if o.conclusive && !o.kinds.is_empty() { nontrivial += 1; kinds.extend(o.kinds.iter()); if classes.insert(o.kinds) && o.trace.len() < 25 && o.trace.len() > sample.len() { sample = o.trace } }
		if let Some(f) = o.found {
			if prop == "any" || f.tags.iter().any(|t| *t == prop) { if found.as_ref().map_or(true, |g| f.trace.len() < g.1.trace.len()) { found = Some((s, f)) } if n > 2000 { break } }
			else { other += 1; if others.len() < 3 { others.push(format!("{:?} {} (seed {})", f.tags, f.what, s)) } }
		}
		if found.is_some() && n > 3000 { break }
	}
	let (v, fs, w, t) = match &found { Some((s, f)) => (true, *s, f.what.clone(), f.trace.clone()), None => (false, 0, String::new(), vec![]) };
	println!("{{\"driver\":{},\"property\":{},\"seed\":{},\"evaluations\":{},\"nontrivial\":{},\"classes\":{},\"kinds\":{},\"other_mismatches\":{},\"others\":{},\"found\":{},\"found_seed\":{},\"what\":{},\"trace\":{},\"sample\":{}}}",
		json_str(&driver), json_str(&prop), seed, n, nontrivial, classes.len(), json_list(&kinds.iter().collect::<Vec<_>>().iter().map(|s| s.to_string()).collect::<Vec<_>>()), other, json_list(&others), v, fs, json_str(&w), json_list(&t), json_list(&sample));
}
