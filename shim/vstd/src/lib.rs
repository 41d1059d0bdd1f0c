//! The standard library with scheduling points in `sync` and `thread` and scripted standard streams.
//! A crate compiled with `extern crate vstd as std;` at its root gets these instead of the originals.
pub use std::*;

pub mod sync;
#[doc(hidden)]
pub use std as real_std;
#[macro_export]
macro_rules! thread_local {
	() => {};
	($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const { $e:expr } $(; $($rest:tt)*)?) => {
		$crate::thread_local!($(#[$a])* $v static $n: $t = $e);
		$($crate::thread_local!($($rest)*);)?
	};
	($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($rest:tt)*)?) => {
		$(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = {
			$crate::real_std::thread_local!(static SLOTS: $crate::real_std::cell::RefCell<$crate::thread::Slots<$t>> = $crate::thread::Slots::new());
			fn init() -> $t { $e }
			$crate::thread::LocalKey { slots: &SLOTS, init }
		};
		$($crate::thread_local!($($rest)*);)?
	};
}
pub mod process {
	pub use std::process::*;
	use std::cell::RefCell;
	std::thread_local!(static HOOK: RefCell<Option<Box<dyn FnMut(i32)>>> = RefCell::new(None));
	/// What the end of the process of the current execution calls, once.
	pub fn on_exit(f: Box<dyn FnMut(i32)>) {
		HOOK.with(|h| *h.borrow_mut() = Some(f));
		vsched::on_end(Box::new(|| drop(HOOK.with(|h| h.borrow_mut().take()))));
	}
	/// The calling thread never goes on; the hook tells the harness.
	pub fn exit(code: i32) -> ! {
		if !vsched::active() {
			std::process::exit(code)
		}
		if let Some(mut f) = HOOK.with(|h| h.borrow_mut().take()) {
			f(code)
		}
		vsched::daemon();
		vsched::changed();
		loop {
			vsched::block_on_resource(7, "exit")
		}
	}
}
pub mod thread {
	pub use std::thread::{current, panicking, park, AccessError, Result, Thread, ThreadId};
	use std::cell::RefCell;
	use std::rc::Rc;

	/// Values per controlled thread of the current execution.
	pub struct Slots<T>(usize, Vec<(usize, Rc<T>)>);
	impl<T> Slots<T> {
		pub const fn new() -> RefCell<Slots<T>> { RefCell::new(Slots(0, Vec::new())) }
	}
	/// A thread-local that is new for every controlled thread of every execution.
	pub struct LocalKey<T: 'static> {
		pub slots: &'static std::thread::LocalKey<RefCell<Slots<T>>>,
		pub init: fn() -> T,
	}
	impl<T: 'static> LocalKey<T> {
		fn get(&'static self) -> Rc<T> {
			let (ex, me) = (vsched::execution(), vsched::me());
			let old = self.slots.with(|s| {
				let mut s = s.borrow_mut();
				if s.0 == ex {
					return Ok(s.1.iter().find(|x| x.0 == me).map(|x| x.1.clone()));
				}
				s.0 = ex;
				Err(std::mem::take(&mut s.1))
			});
			let found = match old {
				Ok(f) => f,
				Err(old) => {
					drop(old);
					if ex != 0 {
						// dropped with the execution, outside of what is explored
						vsched::on_end(Box::new(move || {
							let old = self.slots.with(|s| std::mem::take(&mut s.borrow_mut().1));
							if vsched::stuck() {
								std::mem::forget(old)
							}
						}));
					}
					None
				}
			};
			found.unwrap_or_else(|| {
				let v = Rc::new((self.init)());
				self.slots.with(|s| s.borrow_mut().1.push((me, v.clone())));
				v
			})
		}
		pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R { f(&self.get()) }
		pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> std::result::Result<R, AccessError> { Ok(self.with(f)) }
	}
	impl<T: 'static> LocalKey<std::cell::RefCell<T>> {
		pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R { self.with(|c| f(&c.borrow())) }
		pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R { self.with(|c| f(&mut c.borrow_mut())) }
	}
	pub enum JoinHandle<T> {
		Controlled(vsched::JoinHandle<T>),
		Free(std::thread::JoinHandle<T>),
	}
	impl<T> JoinHandle<T> {
		pub fn join(self) -> Result<T> {
			match self {
				JoinHandle::Controlled(h) => h.join(),
				JoinHandle::Free(h) => h.join(),
			}
		}
		pub fn is_finished(&self) -> bool {
			match self {
				JoinHandle::Controlled(h) => h.is_finished(),
				JoinHandle::Free(h) => h.is_finished(),
			}
		}
	}
	pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
		if vsched::active() {
			JoinHandle::Controlled(vsched::spawn(f))
		} else {
			JoinHandle::Free(std::thread::spawn(f))
		}
	}
	pub struct Builder;
	impl Builder {
		pub fn new() -> Self { Builder }
		pub fn name(self, _: String) -> Self { self }
		pub fn stack_size(self, _: usize) -> Self { self }
		pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> std::io::Result<JoinHandle<T>> { Ok(spawn(f)) }
	}
	pub fn yield_now() { sleep(std::time::Duration::ZERO) }
	pub fn sleep(d: std::time::Duration) {
		if vsched::active() {
			vsched::poll_again("sleep")
		} else {
			std::thread::sleep(d)
		}
	}
}
pub mod hint {
	pub use std::hint::*;
	pub fn spin_loop() { crate::thread::yield_now() }
}
pub mod io;
