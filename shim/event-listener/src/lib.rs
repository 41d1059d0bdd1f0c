//! event-listener 2.5.3 under the controlled scheduler: the same list of entries behind one lock, with wakers run
//! while that lock is held, as in the original (so that re-entering it from a waker is a deadlock here too).
extern crate vstd as std;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

enum State {
	Created,
	Waiting(Waker),
	Notified(bool),
}
#[derive(Default)]
struct List {
	next: usize,
	entries: Vec<(usize, State)>,
}
impl List {
	fn notify(&mut self, n: usize) {
		let already = self.entries.iter().filter(|e| matches!(e.1, State::Notified(_))).count();
		if n > already {
			self.advance(n - already, false)
		}
	}
	fn advance(&mut self, mut n: usize, additional: bool) {
		for e in self.entries.iter_mut() {
			if n == 0 {
				break;
			}
			if matches!(e.1, State::Notified(_)) {
				continue;
			}
			n -= 1;
			if let State::Waiting(w) = std::mem::replace(&mut e.1, State::Notified(additional)) {
				w.wake()
			}
		}
	}
}

pub struct Event(Arc<Mutex<List>>);
impl Default for Event {
	fn default() -> Self { Event::new() }
}
impl std::fmt::Debug for Event {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Event") }
}
impl Event {
	pub fn new() -> Self { Event(Default::default()) }
	pub fn listen(&self) -> EventListener {
		let mut l = self.0.lock().unwrap();
		l.next += 1;
		let id = l.next;
		l.entries.push((id, State::Created));
		drop(l);
		EventListener { list: self.0.clone(), id: Some(id) }
	}
	pub fn notify(&self, n: usize) { self.0.lock().unwrap().notify(n) }
	pub fn notify_relaxed(&self, n: usize) { self.notify(n) }
	pub fn notify_additional(&self, n: usize) { self.0.lock().unwrap().advance(n, true) }
	pub fn notify_additional_relaxed(&self, n: usize) { self.notify_additional(n) }
}
pub struct EventListener {
	list: Arc<Mutex<List>>,
	id: Option<usize>,
}
impl std::fmt::Debug for EventListener {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("EventListener { .. }") }
}
impl EventListener {
	pub fn wait(self) { vsched::block_on(self) }
	pub fn discard(mut self) -> bool { self.remove().is_some() }
	pub fn listens_to(&self, e: &Event) -> bool { Arc::ptr_eq(&self.list, &e.0) }
	pub fn same_event(&self, o: &EventListener) -> bool { Arc::ptr_eq(&self.list, &o.list) }
	/// Takes the entry out; how it had been notified, if it had.
	fn remove(&mut self) -> Option<bool> {
		let id = self.id.take()?;
		let Ok(mut l) = self.list.lock() else { return None };
		let k = l.entries.iter().position(|e| e.0 == id)?;
		match l.entries.remove(k).1 {
			State::Notified(a) => Some(a),
			_ => None,
		}
	}
}
impl Future for EventListener {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let id = self.id.expect("cannot poll a completed `EventListener` future");
		let list = self.list.clone();
		let mut l = list.lock().unwrap();
		let k = l.entries.iter().position(|e| e.0 == id).unwrap();
		if matches!(l.entries[k].1, State::Notified(_)) {
			l.entries.remove(k);
			drop(l);
			self.id = None;
			return Poll::Ready(());
		}
		l.entries[k].1 = State::Waiting(cx.waker().clone());
		Poll::Pending
	}
}
impl Drop for EventListener {
	fn drop(&mut self) {
		// a notification that was not consumed goes on to the next listener
		match self.remove() {
			Some(false) => self.list.lock().map(|mut l| l.notify(1)).unwrap_or(()),
			Some(true) => self.list.lock().map(|mut l| l.advance(1, true)).unwrap_or(()),
			None => {}
		}
	}
}
