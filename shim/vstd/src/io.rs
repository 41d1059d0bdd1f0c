//! stdin and stdout that a harness can script per execution.
pub use std::io::*;
use std::cell::RefCell;
use std::sync::{Arc, Mutex};

/// Scripted console: chunks of input (None: an I/O error), captured output, and the write call that fails.
#[derive(Default)]
pub struct Console {
	pub input: Vec<Option<Vec<u8>>>,
	pub output: Vec<u8>,
	pub writes: usize,
	pub fail_write: Option<usize>,
	pub short: usize,
	/// the input never ends
	pub open: bool,
}
pub type Shared = Arc<Mutex<Console>>;
std::thread_local!(static CONSOLE: RefCell<Option<Shared>> = RefCell::new(None));
/// Installs a console for the current execution.
pub fn install(c: Shared) {
	CONSOLE.with(|x| *x.borrow_mut() = Some(c));
	vsched::on_end(Box::new(remove));
}
pub fn remove() { CONSOLE.with(|x| *x.borrow_mut() = None) }
fn console() -> Option<Shared> { CONSOLE.with(|x| x.borrow().clone()) }

pub struct Stdin;
pub struct StdinLock {
	buf: Vec<u8>,
	pos: usize,
	c: Option<Shared>,
}
pub fn stdin() -> Stdin { Stdin }
impl Stdin {
	pub fn lock(&self) -> StdinLock { StdinLock { buf: vec![], pos: 0, c: console() } }
	pub fn read_line(&self, s: &mut String) -> Result<usize> { self.lock().read_line(s) }
}
impl Read for Stdin {
	fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.lock().read(b) }
}
impl Read for StdinLock {
	fn read(&mut self, b: &mut [u8]) -> Result<usize> {
		let n = {
			let a = self.fill_buf()?;
			let n = a.len().min(b.len());
			b[..n].copy_from_slice(&a[..n]);
			n
		};
		self.consume(n);
		Ok(n)
	}
}
impl BufRead for StdinLock {
	fn fill_buf(&mut self) -> Result<&[u8]> {
		if self.pos >= self.buf.len() {
			vsched::point();
			let Some(c) = &self.c else { return Ok(&[]) };
			while vsched::active() && c.lock().map_or(false, |c| c.open && c.input.is_empty()) {
				vsched::block_on_resource(std::sync::Arc::as_ptr(c) as usize, "stdin")
			}
			let mut c = c.lock().unwrap();
			self.pos = 0;
			self.buf.clear();
			if !c.input.is_empty() {
				match c.input.remove(0) {
					Some(b) => self.buf = b,
					None => return Err(Error::new(ErrorKind::Other, "injected")),
				}
			}
		}
		Ok(&self.buf[self.pos..])
	}
	fn consume(&mut self, n: usize) {
		self.pos += n
	}
}
impl Drop for StdinLock {
	/// What was not consumed stays in the shared buffer, as with the real standard input.
	fn drop(&mut self) {
		if self.pos < self.buf.len() {
			if let Some(c) = &self.c {
				c.lock().unwrap().input.insert(0, Some(self.buf[self.pos..].to_vec()))
			}
		}
	}
}

pub struct Stdout {
	c: Option<Shared>,
}
pub fn stdout() -> Stdout { Stdout { c: console() } }
pub type StdoutLock<'a> = Stdout;
impl Stdout {
	pub fn lock(&self) -> Stdout { Stdout { c: self.c.clone() } }
}
impl Write for Stdout {
	fn write(&mut self, b: &[u8]) -> Result<usize> {
		vsched::point();
		let Some(c) = &self.c else { return Ok(b.len()) };
		let mut c = c.lock().unwrap();
		c.writes += 1;
		if c.fail_write.map_or(false, |k| c.writes >= k) {
			return Err(Error::new(ErrorKind::BrokenPipe, "injected"));
		}
		let n = if c.short > 0 { b.len().min(c.short) } else { b.len() };
		c.output.extend_from_slice(&b[..n]);
		drop(c);
		vsched::changed();
		Ok(n)
	}
	fn flush(&mut self) -> Result<()> { Ok(()) }
}
