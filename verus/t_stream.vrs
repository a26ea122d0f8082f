//@include head.vrs
//@include base.vrs
//@include bytes.vrs
//@include io.vrs
//@include message.vrs
//@include errors.vrs
//@include transport.vrs
//@include codec.vrs
//@include stream.vrs
} // verus!
