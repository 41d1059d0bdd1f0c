//! The two functions of async-std the console and buffer drivers use, under the controlled scheduler.
pub mod task {
	pub fn block_on<F: std::future::Future>(f: F) -> F::Output { vsched::block_on(f) }
	pub async fn sleep(_: std::time::Duration) { vsched::SleepAsync(false).await }
	pub async fn yield_now() { vsched::SleepAsync(false).await }
}
