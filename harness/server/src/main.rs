//! C33, C34: the console server and the LSIF generator as whole processes, under the controlled scheduler.
mod dump;
mod stdio;

use std::sync::atomic::{AtomicU64, Ordering};

/// The standard library seeds its hash maps with this: their iteration order is the same in every execution.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
	for i in 0..n {
		unsafe { *buf.add(i) = (i as u8).wrapping_mul(29) ^ 0x5a }
	}
	n as isize
}

/// A folder of this process that is removed at the end.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
	pub fn new() -> Scratch {
		static N: AtomicU64 = AtomicU64::new(0);
		let p = std::env::temp_dir().join(format!("verif-server-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
		std::fs::create_dir_all(&p).unwrap();
		Scratch(p.canonicalize().unwrap())
	}
}
impl Drop for Scratch {
	fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

fn main() {
	mck::quiet_panics();
	let a = mck::args();
	// with a single subscriber alive, tracing decides what is enabled for all threads by whichever thread comes first
	for _ in 0..2 {
		use analyzer_host::tracing::tracing_subscriber::Registry;
		std::mem::forget(analyzer_abstractions::tracing::Dispatch::new(Registry::default()));
	}
	let r = match a.property.as_str() {
		"C33" => stdio::check(&a),
		"C34" => dump::check(&a),
		p => panic!("unknown property {p}"),
	};
	mck::finish(&a, r);
}
