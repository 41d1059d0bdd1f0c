//! Controlled scheduler. One execution = one closure and the threads it spawns, all run as coroutines on the
//! calling OS thread, so exactly one runs at a time; every visible operation first calls `point()`, where the
//! explorer decides which thread goes on. All choices come from an mck::Chooser, so mck::dfs enumerates all
//! schedules with at most `bound` preemptions. Outside an execution every primitive behaves as usual.
pub mod explore;

use mck::Chooser;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

// ---------------------------------------------------------------- coroutines

std::arch::global_asm!(
	".globl vsched_switch",
	"vsched_switch:",
	"push rbp",
	"push rbx",
	"push r12",
	"push r13",
	"push r14",
	"push r15",
	"mov [rdi], rsp",
	"mov rsp, rsi",
	"pop r15",
	"pop r14",
	"pop r13",
	"pop r12",
	"pop rbx",
	"pop rbp",
	"ret",
	".globl vsched_entry",
	"vsched_entry:",
	"mov rdi, r12",
	"call r13",
	"ud2",
);
extern "C" {
	fn vsched_switch(from: *mut usize, to: usize);
	fn vsched_entry();
	fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
	fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
	fn munmap(a: *mut u8, n: usize) -> i32;
}
const STACK: usize = 1 << 20;
struct Stack(*mut u8);
impl Stack {
	fn get() -> Stack {
		if let Some(s) = POOL.with(|p| p.borrow_mut().pop()) {
			return s;
		}
		unsafe {
			let p = mmap(std::ptr::null_mut(), STACK, 3, 0x22 | 0x4000, -1, 0);
			assert!(p as isize != -1, "mmap");
			mprotect(p, 4096, 0);
			Stack(p)
		}
	}
}
struct Pool(Vec<Stack>);
impl Drop for Pool {
	fn drop(&mut self) {
		for s in &self.0 {
			unsafe { munmap(s.0, STACK) };
		}
	}
}
impl std::ops::Deref for Pool {
	type Target = Vec<Stack>;
	fn deref(&self) -> &Vec<Stack> { &self.0 }
}
impl std::ops::DerefMut for Pool {
	fn deref_mut(&mut self) -> &mut Vec<Stack> { &mut self.0 }
}
thread_local!(static POOL: RefCell<Pool> = RefCell::new(Pool(vec![])));

// ---------------------------------------------------------------- scheduler

#[derive(Clone, Debug, PartialEq)]
enum Status {
	Ready,
	/// waits for `wake(resource)`
	Blocked(usize),
	/// polls: waits until something was changed by another thread after it last looked
	Sleeping(u64),
	Done,
}

struct Th {
	status: Status,
	sp: usize,
	stack: Option<Stack>,
	start: Option<Box<dyn FnOnce()>>,
	name: String,
	daemon: bool,
	/// version at the last resumption from a sleep; what changed since then is news to a polling thread
	looked: u64,
	waiting_at: &'static str,
	/// inside `quietly`
	quiet: usize,
}

/// What limits the schedules explored.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Bound {
	/// switches away from a thread that could go on; switches at blocking operations are unlimited
	Preemptions(usize),
	/// deviations of any kind from the default schedule (run on; else the first thread that can)
	Delays(usize),
}
impl From<usize> for Bound {
	fn from(n: usize) -> Self { Bound::Preemptions(n) }
}

struct St {
	th: Vec<Th>,
	chooser: Chooser,
	bound: Bound,
	preemptions: usize,
	steps: usize,
	horizon: usize,
	version: u64,
	panics: Vec<(String, String)>,
	end: Option<End>,
	trace: Vec<u16>,
	sleepers: Vec<Waker>,
	controller: usize,
	/// a thread waiting for all others to come to rest
	idle_waiter: Option<usize>,
}

struct Exec {
	st: RefCell<St>,
	now: Cell<usize>,
	abort: Cell<bool>,
	id: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
	/// the main closure and every other thread ended, or only daemons are left
	Done,
	/// no thread can go on
	Deadlock,
	/// the step horizon was reached
	Horizon,
}

#[derive(Debug)]
pub struct Outcome<T> {
	pub end: End,
	pub value: Option<T>,
	/// threads that had not ended: name and where they waited
	pub left: Vec<(String, String)>,
	/// panics of any thread: name and message
	pub panics: Vec<(String, String)>,
	pub steps: usize,
	pub preemptions: usize,
	/// order in which threads ran, run lengths merged
	pub schedule: String,
}

thread_local!(static CUR: RefCell<Option<Rc<Exec>>> = RefCell::new(None));
static IDS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);

struct Abort;

fn cur() -> Option<Rc<Exec>> { CUR.try_with(|c| c.borrow().clone()).ok().flatten() }

/// Is the calling thread inside a controlled execution that is still being explored?
pub fn active() -> bool { cur().map_or(false, |e| !e.abort.get()) }
/// Inside a controlled execution that is being torn down?
pub fn aborting() -> bool { cur().map_or(false, |e| e.abort.get()) }

impl Exec {
	/// Leaves thread `me` (suspended here) and goes on with `to`.
	fn resume(&self, me: usize, to: usize) {
		let (from, target) = {
			let mut st = self.st.borrow_mut();
			let target = st.th[to].sp;
			(&mut st.th[me].sp as *mut usize, target)
		};
		self.now.set(to);
		// th may be reallocated while suspended, but the slot is written before the switch happens
		unsafe { vsched_switch(from, target) };
	}
	fn to_controller(&self, me: usize) {
		let (from, target) = {
			let mut st = self.st.borrow_mut();
			let target = st.controller;
			(&mut st.th[me].sp as *mut usize, target)
		};
		unsafe { vsched_switch(from, target) };
	}
	fn enter(&self, to: usize) {
		let (from, target) = {
			let mut st = self.st.borrow_mut();
			let target = st.th[to].sp;
			(&mut st.controller as *mut usize, target)
		};
		self.now.set(to);
		unsafe { vsched_switch(from, target) };
	}
	fn enabled(st: &St) -> Vec<usize> {
		(0..st.th.len())
			.filter(|i| match st.th[*i].status {
				Status::Ready => true,
				Status::Sleeping(v) => st.version > v,
				_ => false,
			})
			.collect()
	}
	/// Decides who runs next; `me` still runnable or not. Returns None when nobody can.
	fn pick(st: &mut St, me: usize, me_runnable: bool, free: bool) -> Option<usize> {
		let mut en = Self::enabled(st);
		if !me_runnable {
			en.retain(|x| *x != me || matches!(st.th[me].status, Status::Sleeping(_)));
		}
		if en.is_empty() {
			if let Some(w) = st.idle_waiter.take() {
				st.th[w].status = Status::Ready;
				en.push(w)
			}
		}
		if en.is_empty() {
			return None;
		}
		if FAIR.load(Ordering::Relaxed) {
			let k = en.iter().position(|x| *x > me).unwrap_or(0);
			en.rotate_left(k)
		}
		if let Some(k) = en.iter().position(|x| *x == me) {
			en.remove(k);
			if me_runnable && !free {
				en.insert(0, me)
			} else {
				en.push(me)
			}
		}
		let costly = me_runnable && !free;
		let spent = match st.bound {
			Bound::Preemptions(b) => costly && st.preemptions >= b,
			Bound::Delays(b) => st.preemptions >= b,
		};
		let to = en[st.chooser.choose(if spent { 1 } else { en.len() })];
		if to != en[0] && (costly || matches!(st.bound, Bound::Delays(_))) {
			st.preemptions += 1
		}
		if matches!(st.th[to].status, Status::Sleeping(_)) {
			st.th[to].looked = st.version;
			st.th[to].status = Status::Ready;
		}
		if st.trace.len() < 4000 && st.trace.last() != Some(&(to as u16)) {
			st.trace.push(to as u16)
		}
		Some(to)
	}
	fn finish(&self, end: End) {
		let mut st = self.st.borrow_mut();
		if st.end.is_none() {
			st.end = Some(end)
		}
		self.abort.set(true);
	}
	/// Only daemons left (or nobody)?
	fn all_done(st: &St) -> bool { st.th.iter().all(|t| t.status == Status::Done || t.daemon) }

	/// The calling thread cannot go on (or offers others to go on): hand over and come back.
	fn switch(&self, me: usize, runnable: bool, free: bool) {
		let next = {
			let mut st = self.st.borrow_mut();
			st.steps += 1;
			if st.steps > st.horizon {
				Err(End::Horizon)
			} else {
				match Self::pick(&mut st, me, runnable, free) {
					Some(to) => Ok(to),
					None => Err(if Self::all_done(&st) { End::Done } else { End::Deadlock }),
				}
			}
		};
		match next {
			Ok(to) if to == me => {}
			Ok(to) => {
				self.resume(me, to);
				if self.abort.get() {
					resume_unwind(Box::new(Abort));
				}
			}
			Err(e) => {
				self.finish(e);
				self.to_controller(me);
				resume_unwind(Box::new(Abort));
			}
		}
	}
}

/// A scheduling point before a visible operation.
pub fn point() {
	if std::thread::panicking() {
		return;
	}
	if let Some(e) = cur() {
		let me = e.now.get();
		if !e.abort.get() && e.st.borrow().th[me].quiet == 0 {
			e.switch(me, true, false);
		}
	}
}

static FAIR: AtomicBool = AtomicBool::new(false);
/// Default schedules go round the threads from now on (for programs in which threads poll each other) instead of
/// favouring the first.
pub fn fair() { FAIR.store(true, Ordering::Relaxed) }

/// Runs an operation that is atomic for other threads: without scheduling points, also in the wakers it calls
/// (which may be called with a lock of the standard library held).
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
	struct End(Rc<Exec>, usize);
	impl Drop for End {
		fn drop(&mut self) { self.0.st.borrow_mut().th[self.1].quiet -= 1 }
	}
	let _end = cur().map(|e| {
		let me = e.now.get();
		e.st.borrow_mut().th[me].quiet += 1;
		End(e.clone(), me)
	});
	f()
}

/// Something other threads can observe has changed.
pub fn changed() {
	if let Some(e) = cur() {
		let ws = {
			let mut st = e.st.borrow_mut();
			st.version += 1;
			std::mem::take(&mut st.sleepers)
		};
		for w in ws {
			w.wake()
		}
	}
}

/// Something was released that another thread may have been refused; no news to the calling thread itself.
pub fn released() {
	if let Some(e) = cur() {
		let me = e.now.get();
		let seen = {
			let st = e.st.borrow();
			st.th[me].looked == st.version
		};
		changed();
		if seen {
			let mut st = e.st.borrow_mut();
			st.th[me].looked = st.version
		}
	}
}

/// Blocks the calling thread until `wake(res)`. Returns at once outside an execution.
/// The caller must recheck its condition in a loop.
pub fn block_on_resource(res: usize, at: &'static str) {
	if let Some(e) = cur() {
		if e.abort.get() {
			if std::thread::panicking() {
				return;
			}
			resume_unwind(Box::new(Abort));
		}
		let me = e.now.get();
		{
			let mut st = e.st.borrow_mut();
			st.th[me].status = Status::Blocked(res);
			st.th[me].waiting_at = at;
		}
		e.switch(me, false, true);
	}
}

/// Makes every thread blocked on the resource runnable.
pub fn wake(res: usize) {
	if let Some(e) = cur() {
		for t in e.st.borrow_mut().th.iter_mut() {
			if t.status == Status::Blocked(res) {
				t.status = Status::Ready
			}
		}
	}
}

/// The calling thread polls: it goes on when another thread has changed something since it last looked.
pub fn poll_again(at: &'static str) {
	if std::thread::panicking() {
		return;
	}
	if let Some(e) = cur() {
		if e.abort.get() {
			resume_unwind(Box::new(Abort));
		}
		let me = e.now.get();
		{
			let mut st = e.st.borrow_mut();
			// what changed since it last looked may have been missed: one more look is due then
			let looked = st.th[me].looked;
			st.th[me].status = Status::Sleeping(looked);
			st.th[me].waiting_at = at;
		}
		e.switch(me, false, true);
	}
}

/// Blocks the calling thread until no other thread can go on by itself.
pub fn quiesce() {
	if let Some(e) = cur() {
		let me = e.now.get();
		loop {
			let busy = {
				let st = e.st.borrow();
				Exec::enabled(&st).iter().any(|x| *x != me)
			};
			if !busy || e.abort.get() {
				return;
			}
			// goes to the end of the line
			{
				let mut st = e.st.borrow_mut();
				st.idle_waiter = Some(me);
				st.th[me].status = Status::Blocked(0);
				st.th[me].waiting_at = "quiesce";
			}
			e.switch(me, false, true);
		}
	}
}

/// The calling thread need not end for the execution to be complete.
pub fn daemon() {
	if let Some(e) = cur() {
		e.st.borrow_mut().th[e.now.get()].daemon = true;
	}
}
pub fn name(n: &str) {
	if let Some(e) = cur() {
		e.st.borrow_mut().th[e.now.get()].name = n.to_string();
	}
}
/// Number of the calling thread in the execution.
pub fn me() -> usize { cur().map_or(0, |e| e.now.get()) }

pub struct JoinHandle<T> {
	result: Arc<Mutex<Option<std::thread::Result<T>>>>,
	res: usize,
	done: Arc<AtomicBool>,
}
impl<T> JoinHandle<T> {
	pub fn join(self) -> std::thread::Result<T> {
		point();
		while !self.done.load(Ordering::Acquire) {
			block_on_resource(self.res, "join");
			if aborting() && !self.done.load(Ordering::Acquire) {
				return Err(Box::new("torn down"));
			}
		}
		self.result.lock().unwrap().take().unwrap()
	}
	pub fn is_finished(&self) -> bool {
		point();
		self.done.load(Ordering::Acquire)
	}
}

/// First frame of every coroutine.
extern "C" fn body(e: *const Exec) -> ! {
	let e = unsafe { &*e };
	let me = e.now.get();
	let f = e.st.borrow_mut().th[me].start.take().unwrap();
	f();
	let next = {
		let mut st = e.st.borrow_mut();
		st.th[me].status = Status::Done;
		if e.abort.get() {
			None
		} else if Exec::all_done(&st) {
			drop(st);
			e.finish(End::Done);
			None
		} else {
			match Exec::pick(&mut st, me, false, true) {
				Some(to) => Some(to),
				None => {
					drop(st);
					e.finish(End::Deadlock);
					None
				}
			}
		}
	};
	match next {
		Some(to) => e.resume(me, to),
		None => e.to_controller(me),
	}
	std::process::abort()
}

/// Starts a controlled thread (from inside an execution).
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
	point();
	let e = cur().expect("vsched::spawn outside an execution");
	start(&e, f)
}

fn start<T: Send + 'static>(e: &Rc<Exec>, f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
	let result = Arc::new(Mutex::new(None));
	let done = Arc::new(AtomicBool::new(false));
	let res = Arc::as_ptr(&done) as usize;
	let (r2, d2) = (result.clone(), done.clone());
	let run = move || {
		let e = cur().unwrap();
		let me = e.now.get();
		let r = catch_unwind(AssertUnwindSafe(|| {
			if e.abort.get() {
				resume_unwind(Box::new(Abort));
			}
			f()
		}));
		if let Err(p) = &r {
			if !p.is::<Abort>() {
				let mut st = e.st.borrow_mut();
				let n = st.th[me].name.clone();
				st.panics.push((n, mck::last_panic()));
			}
		}
		*r2.lock().unwrap() = Some(r);
		d2.store(true, Ordering::Release);
		changed();
		wake(res);
	};
	let stack = Stack::get();
	let mut st = e.st.borrow_mut();
	let id = st.th.len();
	let sp = unsafe {
		// r15 r14 r13 r12 rbx rbp ret; the stack is 16-aligned at the call in vsched_entry
		let top = (stack.0.add(STACK - 64) as usize & !15) as *mut usize;
		let sp = top.sub(7);
		for k in 0..7 {
			*sp.add(k) = 0
		}
		*sp.add(2) = body as usize;
		*sp.add(3) = Rc::as_ptr(e) as usize;
		*sp.add(6) = vsched_entry as usize;
		sp as usize
	};
	st.th.push(Th {
		status: Status::Ready,
		sp,
		stack: Some(stack),
		start: Some(Box::new(run)),
		name: format!("t{id}"),
		daemon: false,
		looked: 0,
		waiting_at: "",
		quiet: 0,
	});
	st.version += 1;
	JoinHandle { result, res, done }
}

/// `run` on an OS thread of its own, for code with thread-local state that must be new in every execution.
pub fn run_fresh<T: Send + 'static>(
	chooser: &mut Chooser,
	bound: impl Into<Bound>,
	horizon: usize,
	f: impl FnOnce() -> T + Send + 'static,
) -> Outcome<T> {
	let mut c = std::mem::take(chooser);
	let bound = bound.into();
	let (c, o) = std::thread::spawn(move || {
		let o = run(&mut c, bound, horizon, f);
		(c, o)
	})
	.join()
	.expect("execution");
	*chooser = c;
	o
}

/// Runs one execution under the chooser's schedule.
pub fn run<T: Send + 'static>(
	chooser: &mut Chooser,
	bound: impl Into<Bound>,
	horizon: usize,
	f: impl FnOnce() -> T + Send + 'static,
) -> Outcome<T> {
	let e = Rc::new(Exec {
		st: RefCell::new(St {
			th: Vec::with_capacity(64),
			chooser: std::mem::take(chooser),
			bound: bound.into(),
			preemptions: 0,
			steps: 0,
			horizon,
			version: 1,
			panics: vec![],
			end: None,
			trace: vec![],
			sleepers: vec![],
			controller: 0,
			idle_waiter: None,
		}),
		now: Cell::new(0),
		abort: Cell::new(false),
		id: IDS.fetch_add(1, Ordering::Relaxed),
	});
	CUR.with(|c| *c.borrow_mut() = Some(e.clone()));
	let main = start(&e, move || {
		name("main");
		f()
	});
	e.enter(0);
	let left: Vec<(String, String)> = e
		.st
		.borrow()
		.th
		.iter()
		.filter(|t| t.status != Status::Done)
		.map(|t| (t.name.clone(), format!("{:?} at {}", t.status, t.waiting_at).replace(|c: char| c.is_ascii_digit(), "")))
		.collect();
	// tear down what is left, one thread at a time; threads of an execution that got stuck are abandoned,
	// because they may be inside code that must not unwind
	let stuck = main.result.lock().unwrap().is_none();
	while !stuck {
		let k = e.st.borrow().th.iter().position(|t| t.status != Status::Done);
		match k {
			Some(k) => e.enter(k),
			None => break,
		}
	}
	let sleepers = std::mem::take(&mut e.st.borrow_mut().sleepers);
	drop(sleepers);
	let value = main.result.lock().unwrap().take().and_then(|r| r.ok());
	let fs = ON_END.with(|o| std::mem::take(&mut *o.borrow_mut()));
	if stuck {
		// nothing of it may be touched again
		STUCK.with(|c| c.set(true));
	}
	for f in fs {
		f()
	}
	STUCK.with(|c| c.set(false));
	CUR.with(|c| *c.borrow_mut() = None);
	let mut st = e.st.borrow_mut();
	for t in st.th.iter_mut() {
		std::mem::forget(t.start.take())
	}
	*chooser = std::mem::take(&mut st.chooser);
	POOL.with(|p| {
		let mut p = p.borrow_mut();
		for t in st.th.iter_mut() {
			p.push(t.stack.take().unwrap())
		}
	});
	let schedule = st.trace.iter().map(|i| st.th[*i as usize].name.as_str()).collect::<Vec<_>>().join(" ");
	Outcome {
		end: st.end.clone().unwrap_or(End::Done),
		value,
		left,
		panics: std::mem::take(&mut st.panics),
		steps: st.steps,
		preemptions: st.preemptions,
		schedule,
	}
}

// ---------------------------------------------------------------- async

struct Flag {
	set: AtomicBool,
}
impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.wake_by_ref() }
	fn wake_by_ref(self: &Arc<Self>) {
		self.set.store(true, Ordering::Release);
		wake(Arc::as_ptr(self) as usize);
	}
}

/// Drives a future on the calling controlled thread, blocking it between wake-ups.
pub fn block_on<F: Future>(f: F) -> F::Output {
	let mut f = Box::pin(f);
	let flag = Arc::new(Flag { set: AtomicBool::new(false) });
	let w: Waker = flag.clone().into();
	let mut cx = Context::from_waker(&w);
	let mut again = false;
	loop {
		if let Some(e) = cur() {
			let me = e.now.get();
			if !e.abort.get() {
				// giving way after a wake-up from within the poll itself is free
				e.switch(me, true, again)
			}
			let mut st = e.st.borrow_mut();
			st.th[me].looked = st.version;
		}
		flag.set.store(false, Ordering::Release);
		match f.as_mut().poll(&mut cx) {
			Poll::Ready(v) => return v,
			Poll::Pending => {
				again = flag.set.load(Ordering::Acquire);
				while !flag.set.load(Ordering::Acquire) {
					if cur().is_none() {
						std::thread::yield_now();
						continue;
					}
					block_on_resource(Arc::as_ptr(&flag) as usize, "await");
				}
				if aborting() && !std::thread::panicking() {
					resume_unwind(Box::new(Abort));
				}
			}
		}
	}
}

/// A future that yields once and is woken when something has changed since the task last looked
/// (what a short asynchronous sleep in a polling loop amounts to).
pub struct SleepAsync(pub bool);
impl Future for SleepAsync {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.0 {
			return Poll::Ready(());
		}
		self.0 = true;
		match cur() {
			None => cx.waker().wake_by_ref(),
			Some(e) => {
				let news = {
					let st = e.st.borrow();
					st.version > st.th[e.now.get()].looked
				};
				if news || e.abort.get() {
					cx.waker().wake_by_ref()
				} else {
					e.st.borrow_mut().sleepers.push(cx.waker().clone())
				}
			}
		}
		Poll::Pending
	}
}

thread_local!(static STUCK: Cell<bool> = Cell::new(false));
/// The execution being torn down got stuck: what it left must be forgotten, not dropped.
pub fn stuck() -> bool { STUCK.with(|c| c.get()) }
thread_local!(static ON_END: RefCell<Vec<Box<dyn FnOnce()>>> = RefCell::new(vec![]));
/// Runs `f` when the current execution has been torn down.
pub fn on_end(f: Box<dyn FnOnce()>) { ON_END.with(|o| o.borrow_mut().push(f)) }

/// Identifies the execution the calling thread belongs to (0: none).
pub fn execution() -> usize { cur().map_or(0, |e| e.id) }
