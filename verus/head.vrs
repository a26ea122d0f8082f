use vstd::prelude::*;
use vstd::std_specs::convert::*;
verus! {
// The code is verified for 64 bit machines.
global size_of usize == 8;
