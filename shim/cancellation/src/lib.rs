//! cancellation 0.1.0 under the controlled scheduler (same semantics: callbacks run on the cancelling thread
//! under the registration lock; run() called after cancellation runs its callback first).
extern crate vstd as std;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct OperationCanceled;
impl fmt::Display for OperationCanceled {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("Operation was canceled.") }
}
impl ::std::error::Error for OperationCanceled {}

pub struct CancellationTokenSource {
	token: Arc<CancellationToken>,
}
type Callback = Box<dyn FnOnce() + Send>;
pub struct CancellationToken {
	status: AtomicUsize,
	registrations: Mutex<(usize, Vec<(usize, Callback)>)>,
}
impl fmt::Debug for CancellationToken {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("CancellationToken") }
}
unsafe impl Sync for CancellationToken {}
impl CancellationTokenSource {
	pub fn new() -> Self {
		CancellationTokenSource { token: Arc::new(CancellationToken { status: AtomicUsize::new(1), registrations: Mutex::new((0, vec![])) }) }
	}
	pub fn token(&self) -> &Arc<CancellationToken> { &self.token }
	pub fn cancel(&self) { self.token.cancel() }
}
impl ::std::ops::Deref for CancellationTokenSource {
	type Target = CancellationToken;
	fn deref(&self) -> &CancellationToken { &self.token }
}
struct Unlink<'a>(&'a CancellationToken, usize);
impl Drop for Unlink<'_> {
	fn drop(&mut self) {
		let mut g = self.0.registrations.lock().unwrap();
		g.1.retain(|x| x.0 != self.1)
	}
}
impl CancellationToken {
	pub fn is_canceled(&self) -> bool { self.status.load(Ordering::SeqCst) >= 2 }
	pub fn result(&self) -> Result<(), OperationCanceled> {
		if self.is_canceled() {
			Err(OperationCanceled)
		} else {
			Ok(())
		}
	}
	fn cancel(&self) {
		if self.is_canceled() {
			return;
		}
		let mut g = self.registrations.lock().unwrap();
		if self.status.load(Ordering::SeqCst) == 3 {
			return;
		}
		self.status.store(2, Ordering::SeqCst);
		for (_, c) in ::std::mem::take(&mut g.1) {
			c()
		}
		self.status.store(3, Ordering::SeqCst);
	}
	pub fn run<C: FnOnce() + Send, F: FnOnce() -> R, R>(&self, on_cancel: C, f: F) -> R {
		let cb: Box<dyn FnOnce() + Send + '_> = Box::new(on_cancel);
		// safe: the callback is unlinked before run() returns
		let cb: Callback = unsafe { ::std::mem::transmute(cb) };
		if self.is_canceled() {
			cb();
			return f();
		}
		let id = {
			let mut g = self.registrations.lock().unwrap();
			if self.status.load(Ordering::SeqCst) >= 2 {
				drop(g);
				cb();
				return f();
			}
			g.0 += 1;
			let id = g.0;
			g.1.push((id, cb));
			id
		};
		let _u = Unlink(self, id);
		f()
	}
}
