//! tokio::task::spawn_blocking and what is built on it under the controlled scheduler.
pub use futures::join;

pub mod fs {
	use std::io::Result;
	use std::path::Path;
	/// As tokio does it: on a thread of the blocking pool.
	pub async fn read(p: impl AsRef<Path>) -> Result<Vec<u8>> {
		let p = p.as_ref().to_owned();
		crate::task::spawn_blocking(move || {
			vsched::point();
			std::fs::read(p)
		})
		.await
		.map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "task panicked"))?
	}
}
pub mod task {
	use std::future::Future;
	use std::pin::Pin;
	use std::sync::{Arc, Mutex};
	use std::task::{Context, Poll, Waker};
	#[derive(Debug)]
	pub struct JoinError;
	impl std::fmt::Display for JoinError {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task panicked") }
	}
	impl std::error::Error for JoinError {}
	struct Cell<T> {
		value: Option<Result<T, JoinError>>,
		waker: Option<Waker>,
	}
	/// Tells its handle when the thread ends, with no lock held, as tokio does.
	struct Finish<T>(Arc<Mutex<Cell<T>>>, Option<T>);
	impl<T> Drop for Finish<T> {
		fn drop(&mut self) {
			if vsched::aborting() {
				return;
			}
			let w = {
				let mut c = self.0.lock().unwrap();
				c.value = Some(self.1.take().ok_or(JoinError));
				c.waker.take()
			};
			if let Some(w) = w {
				w.wake()
			}
			vsched::changed()
		}
	}
	pub struct JoinHandle<T>(Arc<Mutex<Cell<T>>>);
	impl<T> Future for JoinHandle<T> {
		type Output = Result<T, JoinError>;
		fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
			vsched::point();
			let mut c = self.0.lock().unwrap();
			match c.value.take() {
				Some(v) => Poll::Ready(v),
				None => {
					c.waker = Some(cx.waker().clone());
					Poll::Pending
				}
			}
		}
	}
	pub fn spawn_blocking<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> {
		let c = Arc::new(Mutex::new(Cell { value: None, waker: None }));
		let mut end = Finish(c.clone(), None);
		vsched::spawn(move || {
			vsched::name("blocking");
			end.1 = Some(f());
			vsched::point();
		});
		JoinHandle(c)
	}
}
