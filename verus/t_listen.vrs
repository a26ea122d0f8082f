//@include head.vrs
//@include base.vrs
//@ghostnames poll_accept poll call_closure metadata symlink_metadata
//@awaited accept
//@ghostpaths fs_metadata fs_symlink_metadata fs_remove_file tokio_spawn UnixListener::bind UnixListener::poll_accept T::poll_accept UnixSeqpacketListener::bind UnixSeqpacketListener::poll_accept TcpListener::bind TcpListener::poll_accept UnixStream::connect UnixSeqpacket::connect TcpStream::connect Transport::connect Peer::spawn Socket::bind Socket::spawn
//@include listen.vrs
} // verus!
