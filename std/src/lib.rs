//! Contracts that verus/bytes.vrs assumes for functions of the standard library, proved by Kani for every argument.
//!
//! check.py replaces `spec.rs` by the definitions of `le_bytes` and `be_bytes` as they are in bytes.vrs.
#![allow(dead_code)]
mod spec;
use spec::{be_bytes, le_bytes};
fn ne_bytes(v: u32) -> [u8; 4] { if cfg!(target_endian = "little") { le_bytes(v) } else { be_bytes(v) } }
/// The number modulo 2^32.
fn unsigned(v: i32) -> u32 { if v >= 0 { v as u32 } else { (v as i64 + 0x1_0000_0000) as u32 } }

#[cfg(kani)]
mod proofs {
	use super::*;
	#[kani::proof]
	fn u32_to_bytes() {
		let v: u32 = kani::any();
		assert!(v.to_le_bytes() == le_bytes(v));
		assert!(v.to_be_bytes() == be_bytes(v));
		assert!(v.to_ne_bytes() == ne_bytes(v));
	}
	#[kani::proof]
	fn i32_to_bytes() {
		let v: i32 = kani::any();
		assert!(v.to_le_bytes() == le_bytes(unsigned(v)));
		assert!(v.to_be_bytes() == be_bytes(unsigned(v)));
		assert!(v.to_ne_bytes() == ne_bytes(unsigned(v)));
	}
	#[kani::proof]
	fn u32_from_bytes() {
		let b: [u8; 4] = kani::any();
		assert!(le_bytes(u32::from_le_bytes(b)) == b);
		assert!(be_bytes(u32::from_be_bytes(b)) == b);
		assert!(ne_bytes(u32::from_ne_bytes(b)) == b);
	}
	#[kani::proof]
	fn i32_from_bytes() {
		let b: [u8; 4] = kani::any();
		assert!(le_bytes(unsigned(i32::from_le_bytes(b))) == b);
		assert!(be_bytes(unsigned(i32::from_be_bytes(b))) == b);
		assert!(ne_bytes(unsigned(i32::from_ne_bytes(b))) == b);
	}
	#[kani::proof]
	fn casts() {
		let v: i32 = kani::any();
		assert!(v as u32 == unsigned(v));
		assert!(unsigned(v) as i32 == v);
		let n: usize = kani::any();
		kani::assume(n <= u32::MAX as usize);
		assert!((n as u32) as usize == n);
	}
	#[kani::proof]
	fn u32_of_usize() {
		let v: usize = kani::any();
		match u32::try_from(v) {
			Ok(x) => assert!(x as usize == v),
			Err(_) => assert!(v > u32::MAX as usize),
		}
	}
	/// For slices of at most 64 bytes: the length is compared and four bytes are copied, whatever the length.
	#[kani::proof]
	fn array_of_slice() {
		let b: [u8; 64] = kani::any();
		let n: usize = kani::any();
		kani::assume(n <= 64);
		let s = &b[..n];
		let r: Result<[u8; 4], _> = s.try_into();
		match r {
			Ok(a) => assert!(n == 4 && a[0] == s[0] && a[1] == s[1] && a[2] == s[2] && a[3] == s[3]),
			Err(_) => assert!(n != 4),
		}
	}
}
