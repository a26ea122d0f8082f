//@include head.vrs
//@include base.vrs
//@include message.vrs
//@include errors.vrs
//@include async.vrs
//@include core.vrs
//@include transport.vrs
//@include handles.vrs
//@include peer.vrs
//@include recverror.vrs
} // verus!
