//@include head.vrs
//@include base.vrs
//@include items.vrs
//@include body.vrs
//@include docs.vrs
} // verus!
