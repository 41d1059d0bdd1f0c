//! async-channel with a scheduling point before every operation; the operations themselves are the real ones.
use futures::Stream;
pub use real::{RecvError, SendError, TryRecvError, TrySendError};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

/// Dropped without scheduling points: the real types call wakers with a lock held.
struct Quiet<T>(std::mem::ManuallyDrop<T>);
impl<T> Quiet<T> {
	fn new(t: T) -> Self { Quiet(std::mem::ManuallyDrop::new(t)) }
}
impl<T: Clone> Clone for Quiet<T> {
	fn clone(&self) -> Self { Quiet(self.0.clone()) }
}
impl<T> std::ops::Deref for Quiet<T> {
	type Target = T;
	fn deref(&self) -> &T { &self.0 }
}
impl<T> std::ops::DerefMut for Quiet<T> {
	fn deref_mut(&mut self) -> &mut T { &mut self.0 }
}
impl<T> Drop for Quiet<T> {
	fn drop(&mut self) {
		vsched::quietly(|| unsafe { std::mem::ManuallyDrop::drop(&mut self.0) })
	}
}

pub struct Sender<T>(Quiet<real::Sender<T>>);
pub struct Receiver<T>(Quiet<real::Receiver<T>>);
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
	let (s, r) = real::bounded(n);
	(Sender(Quiet::new(s)), Receiver(Quiet::new(r)))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
	let (s, r) = real::unbounded();
	(Sender(Quiet::new(s)), Receiver(Quiet::new(r)))
}
impl<T> Clone for Sender<T> {
	fn clone(&self) -> Self { Sender(self.0.clone()) }
}
impl<T> Clone for Receiver<T> {
	fn clone(&self) -> Self { Receiver(self.0.clone()) }
}
impl<T> fmt::Debug for Sender<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sender { .. }") }
}
impl<T> fmt::Debug for Receiver<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver { .. }") }
}
macro_rules! common {
	($t:ident) => {
		impl<T> $t<T> {
			pub fn close(&self) -> bool {
				vsched::point();
				let b = vsched::quietly(|| self.0.close());
				vsched::changed();
				b
			}
			pub fn is_closed(&self) -> bool {
				vsched::point();
				self.0.is_closed()
			}
			pub fn is_empty(&self) -> bool {
				vsched::point();
				self.0.is_empty()
			}
			pub fn is_full(&self) -> bool {
				vsched::point();
				self.0.is_full()
			}
			pub fn len(&self) -> usize {
				vsched::point();
				self.0.len()
			}
			pub fn capacity(&self) -> Option<usize> { self.0.capacity() }
			pub fn receiver_count(&self) -> usize {
				vsched::point();
				self.0.receiver_count()
			}
			pub fn sender_count(&self) -> usize {
				vsched::point();
				self.0.sender_count()
			}
		}
	};
}
common!(Sender);
common!(Receiver);
impl<T> Sender<T> {
	pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
		vsched::point();
		let r = vsched::quietly(|| self.0.try_send(t));
		vsched::changed();
		r
	}
	pub fn send(&self, t: T) -> Send<'_, T> { Send(Quiet::new(self.0.send(t))) }
	pub fn send_blocking(&self, t: T) -> Result<(), SendError<T>> { vsched::block_on(self.send(t)) }
}
impl<T> Receiver<T> {
	pub fn try_recv(&self) -> Result<T, TryRecvError> {
		vsched::point();
		let r = vsched::quietly(|| self.0.try_recv());
		if r.is_ok() {
			vsched::changed()
		}
		r
	}
	pub fn recv(&self) -> Recv<'_, T> { Recv(Quiet::new(self.0.recv())) }
	pub fn recv_blocking(&self) -> Result<T, RecvError> { vsched::block_on(self.recv()) }
}
pub struct Send<'a, T>(Quiet<real::Send<'a, T>>);
impl<T> Unpin for Send<'_, T> {}
impl<T> Future for Send<'_, T> {
	type Output = Result<(), SendError<T>>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
		vsched::point();
		let r = vsched::quietly(|| Pin::new(&mut *self.0).poll(cx));
		if r.is_ready() {
			vsched::changed()
		}
		r
	}
}
pub struct Recv<'a, T>(Quiet<real::Recv<'a, T>>);
impl<T> Unpin for Recv<'_, T> {}
impl<T> Future for Recv<'_, T> {
	type Output = Result<T, RecvError>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
		vsched::point();
		let r = vsched::quietly(|| Pin::new(&mut *self.0).poll(cx));
		if r.is_ready() {
			vsched::changed()
		}
		r
	}
}
impl<T> Stream for Receiver<T> {
	type Item = T;
	fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
		vsched::point();
		let r = vsched::quietly(|| Pin::new(&mut *self.0).poll_next(cx));
		if r.is_ready() {
			vsched::changed()
		}
		r
	}
}
