//@include head.vrs
//@include base.vrs
//@include body.vrs
//@include intro.vrs
pub mod rpc { pub mod introspection { pub use super::super::*; } }
//@interfaces fixture introspection
} // verus!
