//! C30 (native file system) and C31 (LSIF writer).
mod files;
mod lsif;

fn main() {
	let a = mck::args();
	mck::quiet_panics();
	let out = stdout_to("/dev/null");
	let r = match a.property.as_str() {
		"C30" => files::c30(&a),
		"C31" => lsif::c31(&a),
		p => panic!("unknown property {p}"),
	};
	restore(out);
	mck::finish(&a, r);
}

extern "C" {
	fn dup(fd: i32) -> i32;
	fn dup2(a: i32, b: i32) -> i32;
}
/// The code under test prints lines of its own.
fn stdout_to(path: &str) -> i32 {
	use std::os::unix::io::AsRawFd;
	let f = std::fs::OpenOptions::new().write(true).open(path).expect(path);
	unsafe {
		let old = dup(1);
		dup2(f.as_raw_fd(), 1);
		old
	}
}
fn restore(old: i32) {
	use std::io::Write;
	let _ = std::io::stdout().flush();
	unsafe { dup2(old, 1) };
}
