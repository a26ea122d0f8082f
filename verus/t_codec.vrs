//@include head.vrs
//@include base.vrs
//@include bytes.vrs
//@include message.vrs
//@include errors.vrs
//@include codec.vrs
} // verus!
