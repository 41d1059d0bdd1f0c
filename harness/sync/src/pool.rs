//! C10: AsyncPool under every schedule.
use analyzer_abstractions::futures_extensions::{async_extensions::AsyncPool, FutureCompletionSource};
use cancellation::CancellationTokenSource;
use mck::Report;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Task {
	/// ready at the first poll
	Now,
	/// wakes itself during the poll, this often
	Yield(usize),
	/// waits for the outside thread's event
	Event,
	/// waits for two events in a row
	Event2,
	/// awaits a completion source set by the outside thread
	Source,
	/// spawns another task, yields, ends
	Spawn,
	/// stops the pool
	Stop,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ext {
	/// sets the event of task i, then wakes it
	Wake(usize),
	/// wakes it for nothing first
	Spurious(usize),
	/// wakes it twice
	Twice(usize),
	/// wakes it that often
	Burst(usize, usize),
	/// sets the completion source
	SetSource,
	/// cancels, then wakes task 0
	Cancel,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
	/// the task that ends last stops the pool
	Last,
	/// the future running beside the pool stops it after n turns
	Beside(usize),
	/// cancels, then stops it, after n turns
	CancelStop(usize),
	/// nobody (a Stop task or a cancellation ends it)
	Nobody,
}
#[derive(Clone, Debug)]
struct Scn {
	tasks: Vec<Task>,
	/// how many of them are spawned before the pool runs
	early: usize,
	ext: Vec<Ext>,
	end: End,
}

#[derive(Default)]
struct Cell {
	events: AtomicUsize,
	waker: Mutex<Option<Waker>>,
	polls: AtomicUsize,
	inside: AtomicBool,
	done: AtomicUsize,
	overlap: AtomicBool,
	after: AtomicBool,
}
struct Shared {
	cells: Vec<Cell>,
	child: Vec<Cell>,
	left: AtomicUsize,
	stop_at_zero: bool,
	source: FutureCompletionSource<usize, usize>,
}

struct T {
	s: Arc<Shared>,
	i: usize,
	child: bool,
	kind: Task,
	step: usize,
	src: Option<Pin<Box<dyn Future<Output = Result<usize, usize>> + Send + Sync>>>,
}
impl T {
	fn cell(&self) -> &Cell { if self.child { &self.s.child[self.i] } else { &self.s.cells[self.i] } }
	fn end(&self) -> Poll<()> {
		self.cell().done.fetch_add(1, SeqCst);
		if self.s.left.fetch_sub(1, SeqCst) == 1 && self.s.stop_at_zero {
			AsyncPool::stop()
		}
		Poll::Ready(())
	}
	fn go(&mut self, cx: &mut Context<'_>) -> Poll<()> {
		match self.kind {
			Task::Now => self.end(),
			Task::Stop => {
				AsyncPool::stop();
				self.end()
			}
			Task::Yield(k) => {
				if self.step == k {
					return self.end();
				}
				self.step += 1;
				cx.waker().wake_by_ref();
				Poll::Pending
			}
			Task::Event | Task::Event2 => {
				let want = if self.kind == Task::Event { 1 } else { 2 };
				*self.cell().waker.lock().unwrap() = Some(cx.waker().clone());
				vsched::point();
				if self.cell().events.load(SeqCst) >= want {
					return self.end();
				}
				Poll::Pending
			}
			Task::Source => {
				if self.src.is_none() {
					let f = self.s.source.clone();
					self.src = Some(Box::pin(async move { f.future().await }))
				}
				match self.src.as_mut().unwrap().as_mut().poll(cx) {
					Poll::Ready(_) => self.end(),
					Poll::Pending => Poll::Pending,
				}
			}
			Task::Spawn => {
				if self.step == 0 {
					self.step = 1;
					AsyncPool::spawn_work(T { s: self.s.clone(), i: self.i, child: true, kind: Task::Yield(1), step: 0, src: None });
					cx.waker().wake_by_ref();
					return Poll::Pending;
				}
				self.end()
			}
		}
	}
}
impl Future for T {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let s = self.s.clone();
		let c = if self.child { &s.child[self.i] } else { &s.cells[self.i] };
		if c.inside.swap(true, SeqCst) {
			c.overlap.store(true, SeqCst)
		}
		if c.done.load(SeqCst) > 0 {
			c.after.store(true, SeqCst)
		}
		c.polls.fetch_add(1, SeqCst);
		let r = self.go(cx);
		vsched::point();
		c.inside.store(false, SeqCst);
		r
	}
}

struct Turns(usize);
impl Future for Turns {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.0 == 0 {
			return Poll::Ready(());
		}
		self.0 -= 1;
		cx.waker().wake_by_ref();
		Poll::Pending
	}
}

#[derive(Debug)]
struct Res {
	ok: bool,
	tasks: Vec<(Task, usize, usize, bool, bool)>,
	children: Vec<(usize, usize, bool, bool)>,
}

fn program(sc: Scn) -> Res {
	let n = sc.tasks.len();
	let extra = sc.tasks.iter().filter(|t| **t == Task::Spawn).count();
	let s = Arc::new(Shared {
		cells: (0..n).map(|_| Cell::default()).collect(),
		child: (0..n).map(|_| Cell::default()).collect(),
		left: AtomicUsize::new(n + extra),
		stop_at_zero: sc.end == End::Last,
		source: FutureCompletionSource::new(),
	});
	let token = Arc::new(CancellationTokenSource::new());
	let mk = |i: usize| T { s: s.clone(), i, child: false, kind: sc.tasks[i], step: 0, src: None };
	for i in 0..sc.early.min(n) {
		AsyncPool::spawn_work(mk(i))
	}
	let mut hs = vec![];
	for e in sc.ext.iter().cloned() {
		let (s, token) = (s.clone(), token.clone());
		hs.push(vsched::spawn(move || {
			vsched::name(&format!("{e:?}"));
			let wake = |i: usize| {
				vsched::point();
				let w = s.cells[i].waker.lock().unwrap().clone();
				if let Some(w) = w {
					w.wake()
				}
			};
			let set = |i: usize| {
				vsched::point();
				s.cells[i].events.fetch_add(1, SeqCst);
			};
			match e {
				Ext::Wake(i) => {
					set(i);
					wake(i)
				}
				Ext::Spurious(i) => {
					wake(i);
					set(i);
					wake(i)
				}
				Ext::Twice(i) => {
					set(i);
					wake(i);
					wake(i)
				}
				Ext::Burst(i, n) => {
					for _ in 0..n {
						wake(i)
					}
					set(i);
					wake(i)
				}
				Ext::SetSource => {
					s.source.set_value(1).ok();
				}
				Ext::Cancel => {
					token.cancel();
					wake(0);
				}
			}
		}));
	}
	let ct = token.token().clone();
	let beside = async {
		for i in sc.early.min(n)..n {
			AsyncPool::spawn_work(mk(i));
			Turns(1).await
		}
		if let End::Beside(k) = sc.end {
			Turns(k).await;
			AsyncPool::stop()
		}
		if let End::CancelStop(k) = sc.end {
			Turns(k).await;
			token.cancel();
			AsyncPool::stop()
		}
	};
	let (r, _) = vsched::block_on(futures::future::join(AsyncPool::start(ct), beside));
	for h in hs {
		h.join().ok();
	}
	let get = |c: &Cell| (c.polls.load(SeqCst), c.done.load(SeqCst), c.overlap.load(SeqCst), c.after.load(SeqCst));
	let res = Res {
		ok: r.is_ok(),
		tasks: sc
			.tasks
			.iter()
			.zip(&s.cells)
			.map(|(t, c)| {
				let x = get(c);
				(*t, x.0, x.1, x.2, x.3)
			})
			.collect(),
		children: sc.tasks.iter().zip(&s.child).filter(|x| *x.0 == Task::Spawn).map(|x| get(x.1)).collect(),
	};
	// wakers kept beyond the pool must stay harmless
	for c in &s.cells {
		let w = c.waker.lock().unwrap().take();
		if let Some(w) = w {
			w.wake()
		}
	}
	res
}

fn judge(s: &Scn, o: &vsched::Outcome<Res>) -> Vec<(String, String)> {
	let mut bad = vec![];
	let Some(r) = &o.value else { return bad };
	let all = r.tasks.iter().map(|t| (t.1, t.2, t.3, t.4)).chain(r.children.iter().cloned());
	for t in all {
		if t.1 > 1 || t.3 {
			bad.push(("polled-after-end".into(), format!("{r:?}")))
		}
		if t.2 {
			bad.push(("polled-twice-at-once".into(), format!("{r:?}")))
		}
		if s.end == End::Last && r.ok && t.1 != 1 {
			bad.push(("not-completed".into(), format!("{r:?}")))
		}
	}
	if matches!(s.end, End::CancelStop(_)) {
		if r.ok && !s.tasks.contains(&Task::Stop) {
			bad.push(("result".into(), format!("cancelled before it was stopped, but the pool reports success: {r:?}")))
		}
	} else if s.ext.contains(&Ext::Cancel) {
		if r.ok && s.end == End::Nobody && !s.tasks.contains(&Task::Stop) {
			bad.push(("result".into(), format!("cancelled, but the pool reports success: {r:?}")))
		}
	} else if !r.ok {
		bad.push(("result".into(), format!("never cancelled, but the pool reports cancellation: {r:?}")))
	}
	bad
}

pub fn check(a: &mck::Args) -> Report {
	use Ext::*;
	use Task::*;
	let mut scs: Vec<(Scn, vsched::Bound)> = vec![];
	let kinds = [Now, Yield(1), Yield(2), Event, Event2, Source, Spawn];
	let max = if a.thorough { 3 } else { 2 };
	let b = |heavy: usize| -> vsched::Bound { (match (a.thorough, heavy) {
		(false, 0 | 1) => 3,
		(false, 2) => 2,
		(false, _) => 1,
		(true, 0) => 4,
		(true, 1) => 3,
		(true, 2) => 2,
		(true, _) => 1,
	}).into() };
	for tasks in crate::multisets(&kinds, max) {
		// the outside events every waiting task needs, in each of their forms
		let mut exts: Vec<Vec<Ext>> = vec![vec![]];
		let mut source = false;
		for (i, t) in tasks.iter().enumerate() {
			let forms: Vec<Vec<Ext>> = match t {
				Event => vec![vec![Wake(i)], vec![Spurious(i)], vec![Twice(i)], vec![Wake(i), Wake(i)]],
				Event2 => vec![vec![Wake(i), Wake(i)]],
				Source if !source => {
					source = true;
					vec![vec![SetSource]]
				}
				_ => continue,
			};
			exts = exts.iter().flat_map(|e| forms.iter().map(move |f| [e.clone(), f.clone()].concat())).collect();
		}
		exts.retain(|e| e.len() <= if a.thorough { 4 } else { 3 });
		for ext in exts {
			for early in 0..=tasks.len() {
				scs.push((Scn { tasks: tasks.clone(), early, ext: ext.clone(), end: End::Last }, b(ext.len())));
				if ext.len() < 3 && (early == 0 || early == tasks.len()) {
					for k in 0..=1 {
						scs.push((Scn { tasks: tasks.clone(), early, ext: ext.clone(), end: End::CancelStop(k) }, b(ext.len() + 1)));
					}
				}
				if early == 0 || early == tasks.len() {
					for k in 0..=2 {
						scs.push((Scn { tasks: tasks.clone(), early, ext: ext.clone(), end: End::Beside(k) }, b(ext.len())));
					}
				}
			}
			let mut with_stop = tasks.clone();
			with_stop.push(Stop);
			scs.push((Scn { early: with_stop.len(), tasks: with_stop, ext: ext.clone(), end: End::Nobody }, b(ext.len())));
			let mut with_stop = vec![tasks[0], Stop];
			with_stop.extend(&tasks[1..]);
			scs.push((Scn { early: 1, tasks: with_stop, ext: vec![], end: End::Nobody }, b(1)));
			// cancellation, alone and against an orderly end
			if tasks[0] == Event {
				let mut e = ext.clone();
				e.push(Cancel);
				scs.push((Scn { tasks: tasks.clone(), early: tasks.len(), ext: e, end: End::Last }, b(ext.len() + 1)));
				let mut t = tasks.clone();
				t[0] = Event2;
				scs.push((Scn { early: t.len(), tasks: t, ext: vec![Cancel, Wake(0)], end: End::Beside(1) }, b(2)));
			}
		}
	}
	// many tasks, many turns, many wake-ups
	for n in [10usize, 33, 70, 140, 300, 1100] {
		for kind in [Now, Yield(2), Spawn, Source] {
			if n > 300 && kind != Now {
				continue;
			}
			for early in [n, 0] {
				let deep = a.thorough && n <= 140 || n <= if kind == Now { 70 } else { 10 };
				let ext = if kind == Source { vec![SetSource] } else { vec![] };
				scs.push((Scn { tasks: vec![kind; n], early, ext, end: End::Last }, vsched::Bound::Delays((deep && kind != Source || n == 10) as usize)));
			}
		}
	}
	for n in [20, 150, 600] {
		scs.push((Scn { tasks: vec![Yield(n)], early: 1, ext: vec![], end: End::Last }, vsched::Bound::Delays(1 + (n < 100) as usize)));
		scs.push((Scn { tasks: vec![Yield(n), Event], early: 2, ext: vec![Wake(1)], end: End::Last }, vsched::Bound::Delays(1 + (n < 100) as usize)));
		scs.push((Scn { tasks: vec![Event], early: 1, ext: vec![Burst(0, n)], end: End::Last }, vsched::Bound::Delays(1 + (n < 100) as usize)));
		scs.push((Scn { tasks: vec![Event, Event], early: 2, ext: vec![Burst(0, n), Wake(1)], end: End::Last }, vsched::Bound::Delays(1 + (n < 100) as usize)));
	}
	crate::explore(a, &scs, |s| 5000 + 200 * s.tasks.len(), program, judge)
}
