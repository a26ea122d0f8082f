//@include head.vrs
//@include base.vrs
//@include message.vrs
//@include errors.vrs
//@include async.vrs
//@include core.vrs
//@include transport.vrs
//@include handles.vrs
//@include command.vrs
//@include recverror.vrs
//@include format.vrs
pub mod rpc { pub use super::*; pub use BodyTrait as Body; }
//@interfaces fixture
} // verus!
