// ---------------------------------------------------------------- trusted prelude: tokio channels, Arc<AtomicBool>, BTreeMap

pub enum Dir { Sent, Received }
/// The identity of a channel.
pub enum Ch { Mpsc(int), Oneshot(int) }

/// What the code under contract can observe of, and does to, the things it shares with other tasks.
pub tracked struct World<B> {
	/// The code runs in the task of the peer, the only one that sets flags and registers requests.
	pub ghost owner: bool,
	/// The value of every shared flag.
	pub ghost flags: Map<int, bool>,
	/// The request that a flag and a channel belong to. Written once, by the constructors of the request handles.
	pub ghost names: Map<int, (Dir, u32)>,
	pub ghost chans: Map<Ch, (Dir, u32)>,
	/// Flags that were seen to be held by nobody but the request tracker.
	pub ghost unshared: Set<int>,
	/// What this task successfully sent on every channel.
	pub ghost log: Map<Ch, Seq<Msg<B>>>,
	/// Channels whose receiver is known to be gone.
	pub ghost gone: Set<Ch>,
	/// Number of write handles, read handle dropped, and stop requested, according to the commands received so far.
	pub ghost handles: nat,
	pub ghost reader_dropped: bool,
	pub ghost stopped: bool,
	/// The command that was received last and still has to be processed.
	pub ghost pending: Option<Command<B>>,
	/// The read loop and the command loop of the peer of this task have not ended yet.
	pub ghost reading: bool,
	pub ghost processing: bool,
	/// Channels whose receiver is held, and not closed, by this task.
	pub ghost held: Set<Ch>,
}

/// Everything that is sent on a channel.
pub enum Msg<B> {
	Command(Command<B>),
	Handle(RequestHandleCommand<B>),
	Incoming(Result<ReceivedMessage<B>, Error>),
	Request(Result<SentRequestHandle<B>, Error>),
	Done(Result<(), Error>),
}
pub trait Payload<B>: Sized {
	spec fn msg(self) -> Msg<B>;
	/// What every sender must establish, and a receiver may rely on.
	spec fn rely(self, w: World<B>) -> bool;
	/// May the receiver still wait for a value?
	spec fn may_wait(w: World<B>) -> bool;
	/// The effect of receiving the value on the bookkeeping of the world.
	spec fn received(self, a: World<B>, b: World<B>) -> bool;
}
pub open spec fn same_peer_state<B>(a: World<B>, b: World<B>) -> bool {
	a.handles == b.handles && a.reader_dropped == b.reader_dropped && a.stopped == b.stopped && a.pending == b.pending && a.reading == b.reading && a.processing == b.processing && a.held == b.held
}
impl<B> Payload<B> for Command<B> {
	open spec fn msg(self) -> Msg<B> { Msg::Command(self) }
	open spec fn rely(self, w: World<B>) -> bool {
		match self {
			Command::SendRawMessage(c) => raw_rely(c, w),
			Command::SendRequest(c) => w.log.dom().contains(c.result_tx.id()),
			// The peer stops itself only if there is nothing left to read.
			Command::Stop => w.owner ==> !w.reading,
			_ => true,
		}
	}
	open spec fn may_wait(w: World<B>) -> bool {
		!w.stopped && !(w.reader_dropped && w.handles == 0) && w.pending is None
	}
	open spec fn received(self, a: World<B>, b: World<B>) -> bool {
		&&& b.handles == (match self { Command::RegisterWriteHandle => (a.handles + 1) as int, Command::UnregisterWriteHandle => (a.handles - 1) as int, _ => a.handles as int })
		&&& b.handles <= usize::MAX
		&&& b.reader_dropped == (a.reader_dropped || self is UnregisterReadHandle)
		&&& b.stopped == (a.stopped || self is Stop)
		&&& b.pending == (match self { Command::SendRequest(_) | Command::SendRawMessage(_) | Command::ProcessReceivedMessage(_) => Some(self), _ => None })
	}
}
/// A queued message of a request carries the flag of that very request.
pub open spec fn raw_rely<B>(c: SendRawMessage<B>, w: World<B>) -> bool {
	&&& w.log.dom().contains(c.result_tx.id())
	&&& match c.closed {
		Some(f) => {
			&&& w.flags.dom().contains(f.id()) && w.names.dom().contains(f.id()) && !w.unshared.contains(f.id())
			&&& w.names[f.id()].1 == c.message.header.request_id
			&&& match c.message.header.message_type {
				MessageType::Response | MessageType::ResponderUpdate => w.names[f.id()].0 is Received,
				MessageType::RequesterUpdate => w.names[f.id()].0 is Sent,
				_ => false,
			}
		},
		None => c.message.header.message_type is Stream,
	}
}
impl<B> Payload<B> for RequestHandleCommand<B> {
	open spec fn msg(self) -> Msg<B> { Msg::Handle(self) }
	open spec fn rely(self, w: World<B>) -> bool { true }
	open spec fn may_wait(w: World<B>) -> bool { true }
	open spec fn received(self, a: World<B>, b: World<B>) -> bool { same_peer_state(a, b) }
}
impl<B> Payload<B> for Result<ReceivedMessage<B>, Error> {
	open spec fn msg(self) -> Msg<B> { Msg::Incoming(self) }
	open spec fn rely(self, w: World<B>) -> bool { true }
	open spec fn may_wait(w: World<B>) -> bool { true }
	open spec fn received(self, a: World<B>, b: World<B>) -> bool { same_peer_state(a, b) }
}
impl<B> Payload<B> for Result<SentRequestHandle<B>, Error> {
	open spec fn msg(self) -> Msg<B> { Msg::Request(self) }
	open spec fn rely(self, w: World<B>) -> bool { true }
	open spec fn may_wait(w: World<B>) -> bool { true }
	open spec fn received(self, a: World<B>, b: World<B>) -> bool { same_peer_state(a, b) }
}
impl<B> Payload<B> for Result<(), Error> {
	open spec fn msg(self) -> Msg<B> { Msg::Done(self) }
	open spec fn rely(self, w: World<B>) -> bool { true }
	open spec fn may_wait(w: World<B>) -> bool { true }
	open spec fn received(self, a: World<B>, b: World<B>) -> bool { same_peer_state(a, b) }
}

/// Nothing changed.
pub open spec fn same_world<B>(a: World<B>, b: World<B>) -> bool {
	&&& same_but_channels(a, b)
	&&& b.flags =~= a.flags
	&&& b.log =~= a.log
	&&& b.gone =~= a.gone
	&&& b.names =~= a.names && b.chans =~= a.chans && b.unshared =~= a.unshared
}
pub open spec fn same_but_channels<B>(a: World<B>, b: World<B>) -> bool {
	b.owner == a.owner && same_peer_state(a, b)
}
/// Registration of requests and shared flags are untouched.
pub open spec fn same_requests<B>(a: World<B>, b: World<B>) -> bool {
	&&& same_but_channels(a, b)
	&&& b.flags =~= a.flags
	&&& b.names =~= a.names && b.chans =~= a.chans && b.unshared =~= a.unshared
}
/// At most the channels in `chs` were sent to.
pub open spec fn only_sent_to<B>(a: World<B>, b: World<B>, chs: Set<Ch>) -> bool {
	&&& forall|c: Ch| #![trigger a.log.dom().contains(c)] #![trigger b.log.dom().contains(c)] #![trigger b.log[c]] #![trigger b.gone.contains(c)]
		a.log.dom().contains(c) ==> b.log.dom().contains(c) && (chs.contains(c) || b.log[c] == a.log[c] && (b.gone.contains(c) ==> a.gone.contains(c)))
	&&& forall|c: Ch| #![trigger a.gone.contains(c)] #![trigger b.gone.contains(c)] a.gone.contains(c) ==> b.gone.contains(c)
}
/// Exactly the values in `s` were sent on `ch`, unless its receiver is gone.
pub open spec fn delivered<B>(a: World<B>, b: World<B>, ch: Ch, s: Seq<Msg<B>>) -> bool {
	b.gone.contains(ch) || b.log[ch] =~= a.log[ch] + s
}
/// What can happen while another task runs.
pub open spec fn while_waiting<B>(a: World<B>, b: World<B>) -> bool {
	&&& b.owner == a.owner
	&&& a.owner ==> b.flags == a.flags && b.names == a.names && b.chans == a.chans
	&&& forall|f: int| #![trigger a.flags.dom().contains(f)] #![trigger b.flags[f]] a.flags.dom().contains(f) ==> b.flags.dom().contains(f) && (a.flags[f] ==> b.flags[f])
	&&& forall|f: int| #![trigger a.names.dom().contains(f)] #![trigger b.names[f]] a.names.dom().contains(f) ==> b.names.dom().contains(f) && b.names[f] == a.names[f]
	&&& forall|f: Ch| #![trigger a.chans.dom().contains(f)] #![trigger b.chans[f]] a.chans.dom().contains(f) ==> b.chans.dom().contains(f) && b.chans[f] == a.chans[f]
	&&& forall|c: Ch| #![trigger a.log.dom().contains(c)] #![trigger b.log[c]] a.log.dom().contains(c) ==> b.log.dom().contains(c) && b.log[c] == a.log[c]
	&&& b.unshared == a.unshared
	&&& forall|c: Ch| #![trigger a.gone.contains(c)] #![trigger b.gone.contains(c)] a.gone.contains(c) ==> b.gone.contains(c)
}

// `std::sync::Arc` and `std::sync::atomic::AtomicBool`, as far as they are used: a shared flag.
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub struct AtomicBool { pub v: bool }
impl AtomicBool { pub fn new(v: bool) -> (r: Self) ensures r.v == v { AtomicBool { v } } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arc<T> { x: std::marker::PhantomData<T> }
impl Arc<AtomicBool> {
	pub uninterp spec fn id(&self) -> int;
	#[verifier::external_body]
	pub fn new<B>(v: AtomicBool, Tracked(w): Tracked<&mut World<B>>) -> (r: Self)
		ensures
			!old(w).flags.dom().contains(r.id()) && !old(w).names.dom().contains(r.id()) && !old(w).unshared.contains(r.id()),
			final(w).flags == old(w).flags.insert(r.id(), v.v),
			same_but_channels(*old(w), *final(w)),
			final(w).log == old(w).log && final(w).gone == old(w).gone,
			final(w).names == old(w).names && final(w).chans == old(w).chans && final(w).unshared == old(w).unshared,
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
	#[verifier::external_body]
	pub fn store<B>(&self, v: bool, o: Ordering, Tracked(w): Tracked<&mut World<B>>)
		ensures
			final(w).flags == old(w).flags.insert(self.id(), v),
			same_but_channels(*old(w), *final(w)),
			final(w).log == old(w).log && final(w).gone == old(w).gone,
			final(w).names == old(w).names && final(w).chans == old(w).chans && final(w).unshared == old(w).unshared,
	{ unimplemented!() }
	/// Only the task of the peer sets flags, and nobody ever resets one.
	#[verifier::external_body]
	pub fn load<B>(&self, o: Ordering, Tracked(w): Tracked<&mut World<B>>) -> (r: bool)
		ensures
			old(w).owner ==> r == old(w).flags[self.id()] && *final(w) == *old(w),
			old(w).flags[self.id()] ==> r,
			r ==> final(w).flags == old(w).flags.insert(self.id(), true),
			!r ==> *final(w) == *old(w),
			same_but_channels(*old(w), *final(w)),
			final(w).log == old(w).log && final(w).gone == old(w).gone,
			final(w).names == old(w).names && final(w).chans == old(w).chans && final(w).unshared == old(w).unshared,
	{ unimplemented!() }
	/// If the tracker holds the only reference, there is no handle and no queued command with this flag, and there never will be.
	#[verifier::external_body]
	pub fn strong_count<B>(a: &Self, Tracked(w): Tracked<&mut World<B>>) -> (r: usize)
		ensures
			r >= 1,
			r == 1 ==> final(w).unshared == old(w).unshared.insert(a.id()),
			r != 1 ==> final(w).unshared == old(w).unshared,
			final(w).flags == old(w).flags,
			same_but_channels(*old(w), *final(w)),
			final(w).log == old(w).log && final(w).gone == old(w).gone,
			final(w).names == old(w).names && final(w).chans == old(w).chans,
	{ unimplemented!() }
}

/// The world after sending `m` on channel `ch`: accepted, or the receiver is gone.
pub open spec fn sent<B>(a: World<B>, b: World<B>, ch: Ch, m: Msg<B>, ok: bool) -> bool {
	&&& same_requests(a, b)
	&&& ok ==> b.log == a.log.insert(ch, a.log[ch].push(m)) && b.gone == a.gone && !a.gone.contains(ch)
	&&& !ok ==> b.log == a.log && b.gone == a.gone.insert(ch) && !a.held.contains(ch)
}
/// A channel that did not exist before.
pub open spec fn fresh_channel<B>(a: World<B>, b: World<B>, ch: Ch) -> bool {
	&&& same_requests(a, b)
	&&& !a.log.dom().contains(ch) && !a.chans.dom().contains(ch) && !a.gone.contains(ch)
	&&& b.log == a.log.insert(ch, Seq::empty())
	&&& b.gone == a.gone
}
pub mod mpsc {
	use super::*;
	pub mod error { use super::*; pub struct SendError<T>(pub T); }
	#[verifier::external_body]
	#[verifier::accept_recursive_types(T)]
	pub struct UnboundedSender<T> { x: std::marker::PhantomData<T> }
	#[verifier::external_body]
	#[verifier::accept_recursive_types(T)]
	pub struct UnboundedReceiver<T> { x: std::marker::PhantomData<T> }
	#[verifier::external_body]
	pub fn unbounded_channel<T, B>(Tracked(w): Tracked<&mut World<B>>) -> (r: (UnboundedSender<T>, UnboundedReceiver<T>))
		ensures
			fresh_channel(*old(w), *final(w), r.0.id()),
			r.1.id() == r.0.id(),
	{ unimplemented!() }
	impl<T> UnboundedSender<T> {
		pub uninterp spec fn raw_id(&self) -> int;
		pub open spec fn id(&self) -> Ch { Ch::Mpsc(self.raw_id()) }
		#[verifier::external_body]
		pub fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
		#[verifier::external_body]
		pub fn same_channel(&self, other: &Self) -> (r: bool) ensures r == (self.id() == other.id()) { unimplemented!() }
		#[verifier::external_body]
		pub fn send<B>(&self, v: T, Tracked(w): Tracked<&mut World<B>>) -> (r: Result<(), error::SendError<T>>)
			where T: Payload<B>
			requires v.rely(*old(w))
			ensures
				sent(*old(w), *final(w), self.id(), v.msg(), r is Ok),
				match r { Err(e) => e.0 == v, Ok(()) => true },
		{ unimplemented!() }
	}
	impl<T> UnboundedReceiver<T> {
		pub uninterp spec fn raw_id(&self) -> int;
		pub open spec fn id(&self) -> Ch { Ch::Mpsc(self.raw_id()) }
		/// Everything that this receiver is still going to return (a prophecy).
		pub uninterp spec fn rest(&self) -> Seq<T>;
		/// The owner of the receiver also keeps a sender of the channel.
		pub uninterp spec fn sends(&self) -> bool;
		#[verifier::external_body]
		pub fn recv<B>(&mut self, Tracked(w): Tracked<&mut World<B>>) -> (r: Option<T>)
			where T: Payload<B>
			requires T::may_wait(*old(w))
			ensures
				final(self).id() == old(self).id(),
				final(self).sends() == old(self).sends(),
				old(self).sends() ==> r is Some,
				while_waiting(*old(w), *final(w)),
				match r {
					Some(v) => old(self).rest().len() > 0 && v == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first() && v.rely(*final(w)) && v.received(*old(w), *final(w)),
					None => old(self).rest().len() == 0 && final(self).rest().len() == 0 && same_peer_state(*old(w), *final(w)),
				},
		{ unimplemented!() }
		/// No more values can be sent on the channel. Those that are already in it can still be received.
		#[verifier::external_body]
		pub fn close<B>(&mut self, Tracked(w): Tracked<&mut World<B>>)
			ensures
				final(self).id() == old(self).id(),
				final(self).sends() == old(self).sends(),
				final(self).rest().is_prefix_of(old(self).rest()),
				*final(w) == *old(w),
		{ unimplemented!() }
	}
}
pub mod oneshot {
	use super::*;
	pub struct RecvError;
	#[verifier::external_body]
	#[verifier::accept_recursive_types(T)]
	pub struct Sender<T> { x: std::marker::PhantomData<T> }
	#[verifier::external_body]
	#[verifier::accept_recursive_types(T)]
	pub struct Receiver<T> { x: std::marker::PhantomData<T> }
	/// The value that is sent on a channel, if any, by whoever gets its sender (a prophecy).
	pub uninterp spec fn outcome<T>(ch: Ch) -> Option<T>;
	#[verifier::external_body]
	pub fn channel<T, B>(Tracked(w): Tracked<&mut World<B>>) -> (r: (Sender<T>, Receiver<T>))
		ensures
			fresh_channel(*old(w), *final(w), r.0.id()),
			r.1.id() == r.0.id(),
	{ unimplemented!() }
	impl<T> Sender<T> {
		pub uninterp spec fn raw_id(&self) -> int;
		pub open spec fn id(&self) -> Ch { Ch::Oneshot(self.raw_id()) }
		#[verifier::external_body]
		pub fn send<B>(self, v: T, Tracked(w): Tracked<&mut World<B>>) -> (r: Result<(), T>)
			where T: Payload<B>
			requires v.rely(*old(w))
			ensures
				sent(*old(w), *final(w), self.id(), v.msg(), r is Ok),
				match r { Err(e) => e == v, Ok(()) => true },
		{ unimplemented!() }
	}
	impl<T> Receiver<T> {
		pub uninterp spec fn raw_id(&self) -> int;
		pub open spec fn id(&self) -> Ch { Ch::Oneshot(self.raw_id()) }
		/// `receiver.await`
		#[verifier::external_body]
		pub fn wait<B>(self, Tracked(w): Tracked<&mut World<B>>) -> (r: Result<T, RecvError>)
			ensures
				while_waiting(*old(w), *final(w)),
				same_peer_state(*old(w), *final(w)),
				match r {
					Ok(v) => outcome::<T>(self.id()) == Some(v),
					Err(_) => outcome::<T>(self.id()) == None::<T>,
				},
		{ unimplemented!() }
	}
}

// `std::collections::BTreeMap` and its entries.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub key: K, pub map: &'a mut BTreeMap<K, V> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub key: K, pub map: &'a mut BTreeMap<K, V> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
impl<K, V> BTreeMap<K, V> {
	#[verifier::external_body]
	pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
	#[verifier::external_body]
	pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
		ensures match r {
			Entry::Vacant(e) => !old(self)@.dom().contains(k) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
			Entry::Occupied(e) => old(self)@.dom().contains(k) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
		}
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn remove(&mut self, k: &K) -> (r: Option<V>)
		ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None::<V> })
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
		ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<V> })
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn contains_key(&self, k: &K) -> (r: bool)
		ensures r == self@.dom().contains(*k)
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn get(&self, k: &K) -> (r: Option<&V>)
		ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) }
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
		ensures match r {
			Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
			None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
		}
	{ unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
	#[verifier::external_body]
	pub fn insert(self, v: V) -> (r: &'a mut V)
		ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key, *final(r))
	{ unimplemented!() }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
	#[verifier::external_body]
	pub fn remove_entry(self) -> (r: (K, V))
		ensures final(self.map)@ == old(self.map)@.remove(self.key), r.0 == self.key, r.1 == old(self.map)@[self.key]
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn remove(self) -> (r: V)
		ensures final(self.map)@ == old(self.map)@.remove(self.key), r == old(self.map)@[self.key]
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn get(&self) -> (r: &V)
		ensures *r == old(self.map)@[self.key]
	{ unimplemented!() }
	#[verifier::external_body]
	pub fn get_mut(&mut self) -> (r: &mut V)
		ensures final(self).key == old(self).key, final(self).map@ == old(self).map@.insert(old(self).key, *final(r)), *r == old(self).map@[old(self).key], *final(final(self).map) == *final(old(self).map)
	{ unimplemented!() }
}
/// Things that can be dropped without an effect on the world.
pub trait PlainDrop {}
impl<T> PlainDrop for mpsc::error::SendError<T> {}
impl PlainDrop for oneshot::RecvError {}
impl PlainDrop for Error {}
impl PlainDrop for () {}
impl<T: PlainDrop, E: PlainDrop> PlainDrop for Result<T, E> {}
impl<T: PlainDrop> PlainDrop for Option<T> {}
pub fn drop<T: PlainDrop>(x: T) {}
