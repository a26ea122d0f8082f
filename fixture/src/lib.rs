//! Interface definitions whose generated code is put under contract (verus/t_iface.vrs).
//! Together they have every kind of item that the macro generates code for.

pub struct Alpha;
pub struct Beta;
pub struct Gamma;

pub mod full {
	use super::*;
	fizyr_rpc::interface! {
		/// Everything there is.
		///
		///   - with a list
		///   - of two
		pub interface Full {
			/// A plain service.
			service 1 plain: Alpha -> Beta,
			#[hidden]
			service 2 nothing: () -> (),
			///Talk
			///  for
			///   a
			///
			///   while.
			service 7 talk: Alpha -> Beta {
				/// The first one.
				request_update 1 first: Gamma,
				#[hidden]
				/// Enough.
				request_update 12 quit: (),
				response_update 1 state: Beta,
				/// A picture
				/// of it.
				#[hidden]
				response_update 12 image: Gamma,
				response_update -12 done: (),
			},
			service -4 ask: Beta -> () {
				request_update 20 more: Alpha,
			},
			/// Watch it.
			#[hidden]
			service 2147483647 watch: () -> Gamma {
				/// What is new.
				response_update 20 news: Alpha,
				#[hidden]
				response_update 21 nothing_new: Beta,
				response_update 22 old: Gamma,
			},
			service 0 look_at_it: Gamma -> Vec<Alpha> {
				request_update 0 look_again: Vec<Beta>,
				request_update 65536 look_away: Option<Gamma>,
				response_update 256 talk: Alpha,
				response_update 2147483647 event: Beta,
				response_update -2147483647 tick: Gamma,
			},
			/// An event.
			stream 1 event: Alpha,
			stream 7 tick: (),
			#[hidden]
			/// Rising
			/// water.
			stream -2147483647 level: Gamma,
			stream 0 plain: Beta,
			stream 257 look_out: Option<Beta>,
		}
	}
}

pub mod events {
	use super::*;
	fizyr_rpc::interface! {
		#[hidden]
		pub interface Events {
			/// It happened.
			stream 3 happened: Beta,
		}
	}
}

pub mod calls {
	use super::*;
	fizyr_rpc::interface! {
		pub interface Calls {
			service 3 call: Beta -> Gamma,
		}
	}
}
