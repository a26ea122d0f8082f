//@include head.vrs
//@include base.vrs
//@ghostnames poll poll_read_msg poll_write_msg
//@ghostpaths T::poll_read_msg T::poll_write_msg
//@include message.vrs
//@include errors.vrs
//@include transport.vrs
//@include poll.vrs
} // verus!
