#![feature(allocator_api, sized_hierarchy)]
//@include head.vrs
//@include base.vrs
//@include items.vrs
//@include macros.vrs
} // verus!
