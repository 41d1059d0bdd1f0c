pub use std::sync::{Arc, Barrier, LockResult, Once, OnceLock, OnceState, PoisonError, TryLockError, TryLockResult, Weak};
pub use std::sync::mpsc;
use std::cell::UnsafeCell;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicBool as RealBool, AtomicIsize as RealIsize, Ordering::SeqCst};

/// Lock state shared by Mutex and RwLock: -1 write-locked, n > 0 readers.
struct Core {
	held: RealIsize,
	poisoned: RealBool,
	/// somebody was refused while it was held: releasing is then a visible change
	contended: RealBool,
}
impl Core {
	const fn new() -> Self { Core { held: RealIsize::new(0), poisoned: RealBool::new(false), contended: RealBool::new(false) } }
	fn addr(&self) -> usize { self as *const _ as usize }
	fn try_w(&self) -> bool { self.held.compare_exchange(0, -1, SeqCst, SeqCst).is_ok() }
	fn try_r(&self) -> bool { self.held.fetch_update(SeqCst, SeqCst, |h| (h >= 0).then_some(h + 1)).is_ok() }
	fn acquire(&self, write: bool) {
		vsched::point();
		loop {
			if if write { self.try_w() } else { self.try_r() } {
				return;
			}
			if vsched::aborting() {
				// teardown: exactly one thread runs, and what it sees no longer matters
				self.held.store(if write { -1 } else { 1 }, SeqCst);
				return;
			}
			if vsched::active() {
				vsched::block_on_resource(self.addr(), "lock")
			} else {
				std::thread::yield_now()
			}
		}
	}
	fn attempt(&self, write: bool) -> bool {
		vsched::point();
		let ok = if write { self.try_w() } else { self.try_r() };
		if !ok {
			self.contended.store(true, SeqCst);
		}
		ok
	}
	fn release(&self, write: bool, dirty: bool) {
		if write && std::thread::panicking() && !vsched::aborting() {
			self.poisoned.store(true, SeqCst)
		}
		if write {
			self.held.store(0, SeqCst)
		} else {
			self.held.fetch_sub(1, SeqCst);
		}
		vsched::wake(self.addr());
		let contended = self.contended.swap(false, SeqCst);
		if dirty {
			vsched::changed()
		} else if contended {
			vsched::released()
		}
	}
	fn result<G>(&self, g: G) -> LockResult<G> {
		if self.poisoned.load(SeqCst) {
			Err(PoisonError::new(g))
		} else {
			Ok(g)
		}
	}
}

macro_rules! lock_debug {
	($t:ident) => {
		impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for $t<T> {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(stringify!($t)) }
		}
		impl<T: Default> Default for $t<T> {
			fn default() -> Self { Self::new(T::default()) }
		}
		impl<T> From<T> for $t<T> {
			fn from(t: T) -> Self { Self::new(t) }
		}
		unsafe impl<T: ?Sized + Send> Send for $t<T> {}
	};
}

pub struct Mutex<T: ?Sized> {
	core: Core,
	data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
lock_debug!(Mutex);
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
	m: &'a Mutex<T>,
	dirty: bool,
}
impl<T> Mutex<T> {
	pub const fn new(t: T) -> Self { Mutex { core: Core::new(), data: UnsafeCell::new(t) } }
	pub fn into_inner(self) -> LockResult<T> { Ok(self.data.into_inner()) }
}
impl<T: ?Sized> Mutex<T> {
	pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
		self.core.acquire(true);
		self.core.result(MutexGuard { m: self, dirty: false })
	}
	pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
		if self.core.attempt(true) {
			Ok(self.core.result(MutexGuard { m: self, dirty: false })?)
		} else {
			Err(TryLockError::WouldBlock)
		}
	}
	pub fn is_poisoned(&self) -> bool { self.core.poisoned.load(SeqCst) }
	pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.data.get_mut()) }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
	type Target = T;
	fn deref(&self) -> &T { unsafe { &*self.m.data.get() } }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
	fn deref_mut(&mut self) -> &mut T {
		self.dirty = true;
		unsafe { &mut *self.m.data.get() }
	}
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
	fn drop(&mut self) { self.m.core.release(true, self.dirty) }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for MutexGuard<'_, T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (**self).fmt(f) }
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

pub struct RwLock<T: ?Sized> {
	core: Core,
	data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
lock_debug!(RwLock);
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
	m: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
	m: &'a RwLock<T>,
	dirty: bool,
}
impl<T> RwLock<T> {
	pub const fn new(t: T) -> Self { RwLock { core: Core::new(), data: UnsafeCell::new(t) } }
	pub fn into_inner(self) -> LockResult<T> { Ok(self.data.into_inner()) }
}
impl<T: ?Sized> RwLock<T> {
	pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
		self.core.acquire(false);
		self.core.result(RwLockReadGuard { m: self })
	}
	pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
		self.core.acquire(true);
		self.core.result(RwLockWriteGuard { m: self, dirty: false })
	}
	pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
		if self.core.attempt(false) {
			Ok(self.core.result(RwLockReadGuard { m: self })?)
		} else {
			Err(TryLockError::WouldBlock)
		}
	}
	pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
		if self.core.attempt(true) {
			Ok(self.core.result(RwLockWriteGuard { m: self, dirty: false })?)
		} else {
			Err(TryLockError::WouldBlock)
		}
	}
	pub fn is_poisoned(&self) -> bool { self.core.poisoned.load(SeqCst) }
	pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.data.get_mut()) }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
	type Target = T;
	fn deref(&self) -> &T { unsafe { &*self.m.data.get() } }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
	type Target = T;
	fn deref(&self) -> &T { unsafe { &*self.m.data.get() } }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
	fn deref_mut(&mut self) -> &mut T {
		self.dirty = true;
		unsafe { &mut *self.m.data.get() }
	}
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
	fn drop(&mut self) { self.m.core.release(false, false) }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
	fn drop(&mut self) { self.m.core.release(true, self.dirty) }
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

#[derive(Debug, Default)]
pub struct Condvar {
	x: RealIsize,
}
impl Condvar {
	pub const fn new() -> Self { Condvar { x: RealIsize::new(0) } }
	pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
		let m = g.m;
		let seen = self.x.load(SeqCst);
		drop(g);
		while vsched::active() && self.x.load(SeqCst) == seen {
			vsched::block_on_resource(&self.x as *const _ as usize, "condvar")
		}
		if !vsched::active() && !vsched::aborting() {
			while self.x.load(SeqCst) == seen {
				std::thread::yield_now()
			}
		}
		m.lock()
	}
	pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
		while f(&mut *g) {
			g = self.wait(g)?
		}
		Ok(g)
	}
	/// Waking more waiters than asked for is allowed: wake-ups may be spurious.
	pub fn notify_one(&self) { self.notify_all() }
	pub fn notify_all(&self) {
		vsched::point();
		self.x.fetch_add(1, SeqCst);
		vsched::wake(&self.x as *const _ as usize);
		vsched::changed()
	}
}

pub mod atomic {
	pub use std::sync::atomic::{compiler_fence, fence, Ordering};
	macro_rules! atomic {
		($t:ident, $v:ty) => {
			#[derive(Default)]
			#[repr(transparent)]
			pub struct $t(std::sync::atomic::$t);
			impl std::fmt::Debug for $t {
				fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) }
			}
			impl From<$v> for $t {
				fn from(v: $v) -> Self { Self::new(v) }
			}
			impl $t {
				pub const fn new(v: $v) -> Self { $t(std::sync::atomic::$t::new(v)) }
				pub fn into_inner(self) -> $v { self.0.into_inner() }
				pub fn get_mut(&mut self) -> &mut $v { self.0.get_mut() }
				pub fn load(&self, _: Ordering) -> $v {
					vsched::point();
					self.0.load(Ordering::SeqCst)
				}
				pub fn store(&self, v: $v, _: Ordering) { self.swap(v, Ordering::SeqCst); }
				pub fn swap(&self, v: $v, _: Ordering) -> $v {
					vsched::point();
					let o = self.0.swap(v, Ordering::SeqCst);
					if o != v {
						vsched::changed()
					}
					o
				}
				pub fn compare_exchange(&self, a: $v, b: $v, _: Ordering, _: Ordering) -> Result<$v, $v> {
					vsched::point();
					let r = self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst);
					if r.is_ok() && a != b {
						vsched::changed()
					}
					r
				}
				pub fn compare_exchange_weak(&self, a: $v, b: $v, x: Ordering, y: Ordering) -> Result<$v, $v> { self.compare_exchange(a, b, x, y) }
				pub fn fetch_update<F: FnMut($v) -> Option<$v>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$v, $v> {
					let mut p = self.load(Ordering::SeqCst);
					while let Some(n) = f(p) {
						match self.compare_exchange(p, n, Ordering::SeqCst, Ordering::SeqCst) {
							Ok(x) => return Ok(x),
							Err(x) => p = x,
						}
					}
					Err(p)
				}
			}
		};
		($t:ident, $v:ty, num) => {
			atomic!($t, $v);
			impl $t {
				pub fn fetch_add(&self, v: $v, _: Ordering) -> $v {
					vsched::point();
					vsched::changed();
					self.0.fetch_add(v, Ordering::SeqCst)
				}
				pub fn fetch_sub(&self, v: $v, _: Ordering) -> $v {
					vsched::point();
					vsched::changed();
					self.0.fetch_sub(v, Ordering::SeqCst)
				}
				pub fn fetch_max(&self, v: $v, _: Ordering) -> $v {
					vsched::point();
					vsched::changed();
					self.0.fetch_max(v, Ordering::SeqCst)
				}
				pub fn fetch_min(&self, v: $v, _: Ordering) -> $v {
					vsched::point();
					vsched::changed();
					self.0.fetch_min(v, Ordering::SeqCst)
				}
			}
		};
	}
	atomic!(AtomicBool, bool);
	atomic!(AtomicUsize, usize, num);
	atomic!(AtomicIsize, isize, num);
	atomic!(AtomicU8, u8, num);
	atomic!(AtomicI8, i8, num);
	atomic!(AtomicU16, u16, num);
	atomic!(AtomicU32, u32, num);
	atomic!(AtomicI32, i32, num);
	atomic!(AtomicU64, u64, num);
	atomic!(AtomicI64, i64, num);
	impl AtomicBool {
		pub fn fetch_or(&self, v: bool, _: Ordering) -> bool {
			vsched::point();
			vsched::changed();
			self.0.fetch_or(v, Ordering::SeqCst)
		}
		pub fn fetch_and(&self, v: bool, _: Ordering) -> bool {
			vsched::point();
			vsched::changed();
			self.0.fetch_and(v, Ordering::SeqCst)
		}
	}
}
