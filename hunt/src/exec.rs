//! Single-threaded executor that polls only woken tasks, in an order drawn from the scenario's generator.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
	fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}
struct Task { future: Option<Pin<Box<dyn Future<Output = ()>>>>, flag: Arc<Flag> }
#[derive(Default)]
pub struct Exec { tasks: Vec<Task> }
impl Exec {
	pub fn spawn(&mut self, f: impl Future<Output = ()> + 'static) -> usize {
		self.tasks.push(Task { future: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))) });
		self.tasks.len() - 1
	}
	pub fn woken(&self) -> Vec<usize> {
		self.tasks.iter().enumerate().filter(|(_, t)| t.future.is_some() && t.flag.0.load(Ordering::SeqCst)).map(|(i, _)| i).collect()
	}
	pub fn alive(&self, i: usize) -> bool { self.tasks[i].future.is_some() }
	pub fn wake(&mut self, i: usize) { self.tasks[i].flag.0.store(true, Ordering::SeqCst) }
	pub fn cancel(&mut self, i: usize) { self.tasks[i].future = None; }
	/// Poll a task. A panic is returned as text.
	pub fn poll(&mut self, i: usize) -> Result<(), String> {
		let t = &mut self.tasks[i];
		t.flag.0.store(false, Ordering::SeqCst);
		let waker = Waker::from(t.flag.clone());
		let mut cx = Context::from_waker(&waker);
		let Some(f) = t.future.as_mut() else { return Ok(()) };
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut cx)));
		match r {
			Ok(Poll::Ready(())) => { t.future = None; Ok(()) },
			Ok(Poll::Pending) => Ok(()),
			Err(e) => {
				// Do not run the destructors of a future that panicked in the middle of something twice.
				std::mem::forget(t.future.take());
				Err(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
			},
		}
	}
}
