// ---------------------------------------------------------------- src/peer.rs: commands
//@impl peer.rs Command of From<SendRequest<Body>>
//@fn from(other) -> r
//@endimpl
impl<Body> FromSpecImpl<SendRequest<Body>> for Command<Body> {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(other: SendRequest<Body>) -> Self { Command::SendRequest(other) }
}
impl<Body> Convert<Command<Body>> for SendRequest<Body> {
	open spec fn spec_convert(self) -> Command<Body> { Command::SendRequest(self) }
	fn convert(self) -> (r: Command<Body>) { Command::from(self) }
}
//@impl peer.rs Command of From<SendRawMessage<Body>>
//@fn from(other) -> r
//@endimpl
impl<Body> FromSpecImpl<SendRawMessage<Body>> for Command<Body> {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(other: SendRawMessage<Body>) -> Self { Command::SendRawMessage(other) }
}
impl<Body> Convert<Command<Body>> for SendRawMessage<Body> {
	open spec fn spec_convert(self) -> Command<Body> { Command::SendRawMessage(self) }
	fn convert(self) -> (r: Command<Body>) { Command::from(self) }
}
//@impl peer.rs Command of From<ProcessReceivedMessage<Body>>
//@fn from(other) -> r
//@endimpl
impl<Body> FromSpecImpl<ProcessReceivedMessage<Body>> for Command<Body> {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(other: ProcessReceivedMessage<Body>) -> Self { Command::ProcessReceivedMessage(other) }
}
impl<Body> Convert<Command<Body>> for ProcessReceivedMessage<Body> {
	open spec fn spec_convert(self) -> Command<Body> { Command::ProcessReceivedMessage(self) }
	fn convert(self) -> (r: Command<Body>) { Command::from(self) }
}
