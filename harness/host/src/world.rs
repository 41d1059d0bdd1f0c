//! A real AnalyzerHost with a controlled client, file system and executor: nothing runs unless `run` is called.
use analyzer_abstractions::fs::{AnyEnumerableFileSystem, EnumerableFileSystem};
use analyzer_abstractions::lsp_types::{TextDocumentIdentifier, Url};
use analyzer_abstractions::BoxFuture;
use analyzer_host::json_rpc::message::Message;
use analyzer_host::AnalyzerHost;
use async_channel::{Receiver, Sender};
use cancellation::CancellationTokenSource;
use mck::{Chooser, Report};
pub use serde_json::{json, Value};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

thread_local!(static SEED: Cell<u64> = const { Cell::new(0) });

/// The standard library seeds its hash maps with this: their iteration order is a function of the execution's seed.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
	let mut x = SEED.with(|s| s.get()).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x2545_F491_4F6C_DD1D;
	for i in 0..n {
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
		unsafe { *buf.add(i) = (x >> 24) as u8 }
	}
	n as isize
}

/// One execution: a new thread (the pool's queue is thread-local) with a given order of hash maps.
pub fn fresh<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
	std::thread::scope(|s| {
		s.spawn(move || {
			SEED.with(|c| c.set(seed));
			f()
		})
		.join()
		.expect("harness")
	})
}

static THREADS: AtomicBool = AtomicBool::new(false);
/// Finds out whether a host can follow another one on the same thread (its thread-locals are reset in between).
pub fn calibrate() {
	let ok = fresh(0, || {
		let disk = |op: &Op| match op {
			Op::Enumerate(..) => Answer::Files(vec!["file:///w/a.p4".into()]),
			Op::Contents(_) => Answer::Text(Some("x".into())),
		};
		let one = || {
			analyzer_abstractions::vlocal::reset();
			let mut w = World::new(Files::Mock);
			w.start(Some(&["file:///w"]), &disk);
			w.settle(&disk);
			let id = w.request("textDocument/completion", at("file:///w/a.p4", 0, 0));
			w.settle(&disk);
			w.notify("exit", Value::Null);
			w.settle(&disk);
			w.response(id).map(labels) == Some(Ok(vec!["x".to_string()]))
		};
		one() && one()
	});
	THREADS.store(!ok, Ordering::Relaxed);
	if !ok {
		eprintln!("every execution gets a thread of its own")
	}
}
/// `mck::dfs`; every execution sees new thread-locals.
pub fn explore(a: &mck::Args, cap: u64, body: impl Fn(&mut Chooser, &mut Report) + Sync) -> Report {
	match THREADS.load(Ordering::Relaxed) {
		true => explore_threads(a, cap, body),
		false => explore_here(a, cap, |c: &mut Chooser, r: &mut Report| {
			analyzer_abstractions::vlocal::reset();
			body(c, r)
		}),
	}
}
/// The same with a thread per execution, so that the order of hash maps is that of the execution's seed.
pub fn explore_threads(a: &mck::Args, cap: u64, body: impl Fn(&mut Chooser, &mut Report) + Sync) -> Report {
	explore_here(a, cap, |c: &mut Chooser, r: &mut Report| fresh(0, || body(c, r)))
}
/// `mck::dfs`, or the one case that is replayed.
pub fn explore_here(a: &mck::Args, cap: u64, one: impl Fn(&mut Chooser, &mut Report) + Sync) -> Report {
	match &a.replay {
		None => mck::dfs(one, cap),
		Some(case) => {
			// cases end with ` choices=[..]`
			let list = case.rsplit("choices=[").next().unwrap().trim_end_matches(']');
			let v: Vec<usize> = list.split(',').filter_map(|x| x.trim().parse().ok()).collect();
			let mut c = Chooser::from_choices(&v);
			let mut r = Report::new();
			one(&mut c, &mut r);
			r.traces = 1;
			r
		}
	}
}

pub fn reseed(seed: u64) { SEED.with(|c| c.set(seed)) }

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
	Enumerate(String, String),
	Contents(String),
}
#[derive(Clone, Debug)]
pub enum Answer {
	Files(Vec<String>),
	Text(Option<String>),
}
#[derive(Default)]
struct FsState {
	ops: Vec<(u64, Op, Option<Answer>, Option<Waker>)>,
	next: u64,
	history: Vec<Op>,
}
/// A file system whose answers are given by the harness.
#[derive(Clone, Default)]
pub struct Fs(Arc<Mutex<FsState>>);
struct FsFuture(Fs, u64);
impl Future for FsFuture {
	type Output = Answer;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Answer> {
		let mut s = self.0 .0.lock().unwrap();
		let i = s.ops.iter().position(|o| o.0 == self.1).unwrap();
		match s.ops[i].2.clone() {
			Some(a) => {
				s.ops.remove(i);
				Poll::Ready(a)
			}
			None => {
				s.ops[i].3 = Some(cx.waker().clone());
				Poll::Pending
			}
		}
	}
}
impl Drop for FsFuture {
	fn drop(&mut self) { self.0 .0.lock().unwrap().ops.retain(|o| o.0 != self.1) }
}
impl Fs {
	fn begin(&self, op: Op) -> FsFuture {
		let mut s = self.0.lock().unwrap();
		s.next += 1;
		let id = s.next;
		s.history.push(op.clone());
		s.ops.push((id, op, None, None));
		FsFuture(self.clone(), id)
	}
	/// Operations that wait for an answer, oldest first.
	pub fn pending(&self) -> Vec<(u64, Op)> {
		self.0.lock().unwrap().ops.iter().filter(|o| o.2.is_none()).map(|o| (o.0, o.1.clone())).collect()
	}
	/// All operations ever asked for.
	pub fn history(&self) -> Vec<Op> { self.0.lock().unwrap().history.clone() }
	pub fn answer(&self, id: u64, a: Answer) {
		let w = {
			let mut s = self.0.lock().unwrap();
			let o = s.ops.iter_mut().find(|o| o.0 == id).unwrap();
			o.2 = Some(a);
			o.3.take()
		};
		if let Some(w) = w {
			w.wake()
		}
	}
}
impl EnumerableFileSystem for Fs {
	fn enumerate_folder<'a>(&'a self, uri: Url, pattern: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
		let f = self.begin(Op::Enumerate(uri.to_string(), pattern));
		Box::pin(async move {
			match f.await {
				Answer::Files(v) => v.iter().map(|u| TextDocumentIdentifier { uri: Url::parse(u).unwrap() }).collect(),
				_ => unreachable!(),
			}
		})
	}
	fn file_contents<'a>(&'a self, uri: Url) -> BoxFuture<'a, Option<String>> {
		let f = self.begin(Op::Contents(uri.to_string()));
		Box::pin(async move {
			match f.await {
				Answer::Text(t) => t,
				_ => unreachable!(),
			}
		})
	}
}

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
	fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}

/// A future polled only when asked to.
pub struct Driven<T> {
	fut: Option<Pin<Box<dyn Future<Output = T>>>>,
	flag: Arc<Flag>,
	pub done: Option<T>,
	/// Panic, or a poll loop without end.
	pub broken: Option<String>,
	pub polls: u64,
}
impl<T> Driven<T> {
	pub fn new(f: impl Future<Output = T> + 'static) -> Self {
		Driven { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))), done: None, broken: None, polls: 0 }
	}
	/// Polls until there is nothing to do.
	pub fn run(&mut self) { self.run_at_most(u64::MAX) }
	/// The same, with a limit to the number of polls.
	pub fn run_at_most(&mut self, limit: u64) {
		let mut n = 0;
		while n < limit && self.fut.is_some() && self.flag.0.swap(false, Ordering::SeqCst) {
			n += 1;
			self.polls += 1;
			if n > 20_000 {
				self.broken = Some("spins: it wakes itself without end".into());
				std::mem::forget(self.fut.take());
				return;
			}
			let w = Waker::from(self.flag.clone());
			let mut cx = Context::from_waker(&w);
			let f = self.fut.as_mut().unwrap();
			match mck::catch(|| f.as_mut().poll(&mut cx)) {
				Ok(Poll::Pending) => {}
				Ok(Poll::Ready(v)) => {
					self.done = Some(v);
					if let Err(p) = mck::catch(|| self.fut = None) {
						self.broken = Some(format!("panic: {p}"))
					}
				}
				Err(p) => {
					self.broken = Some(format!("panic: {p}"));
					std::mem::forget(self.fut.take()); // its state is arbitrary now
				}
			}
		}
	}
}

pub struct World {
	pub fs: Fs,
	pub tx: Sender<Message>,
	pub to_server: Receiver<Message>,
	pub from_server: Receiver<Message>,
	pub host: Driven<Result<(), ()>>,
	pub cts: CancellationTokenSource,
	/// Everything the server has sent so far.
	pub log: Vec<Value>,
	/// Everything sent to it, for reports.
	pub sent: Vec<String>,
	/// Requests of the server that were not answered yet.
	pub asked: Vec<Value>,
	next_id: i64,
}

impl Drop for World {
	/// Unanswered operations hold the task that waits for them, which holds the file system.
	fn drop(&mut self) {
		self.tx.close();
		self.host.run_at_most(50);
		let ops = self.fs.0.lock().map(|mut s| std::mem::take(&mut s.ops));
		drop(ops)
	}
}

pub enum Files {
	Mock,
	Client,
}

impl World {
	pub fn new(files: Files) -> World { Self::with_channels(files, async_channel::unbounded(), async_channel::unbounded(), None) }
	pub fn with_channels(
		files: Files,
		in_ch: (Sender<Message>, Receiver<Message>),
		out_ch: (Sender<Message>, Receiver<Message>),
		trace: Option<analyzer_host::tracing::TraceValueAccessor>,
	) -> World {
		let fs = Fs::default();
		let any: Option<Arc<AnyEnumerableFileSystem>> = match files {
			Files::Mock => Some(Arc::new(Box::new(fs.clone()))),
			Files::Client => None,
		};
		let cts = CancellationTokenSource::new();
		let token = cts.token().clone();
		let host = AnalyzerHost::new((out_ch.0.clone(), in_ch.1.clone()), trace, any);
		let host = Driven::new(async move { host.start(token).await.map_err(|_| ()) });
		World { fs, tx: in_ch.0, to_server: in_ch.1, from_server: out_ch.1, host, cts, log: vec![], sent: vec![], asked: vec![], next_id: 100 }
	}
	/// Puts a message into the client's channel; false when the channel is closed.
	pub fn send(&mut self, m: Value) -> bool {
		self.sent.push(brief(&m));
		let m: Message = serde_json::from_value(m).expect("message");
		self.tx.try_send(m).is_ok()
	}
	pub fn notify(&mut self, method: &str, params: Value) -> bool { self.send(json!({"method": method, "params": params})) }
	pub fn request(&mut self, method: &str, params: Value) -> i64 {
		self.next_id += 1;
		let id = self.next_id;
		self.send(json!({"id": id, "method": method, "params": params}));
		id
	}
	/// Lets the server do all it can and collects what it sent.
	pub fn run(&mut self) -> Vec<Value> {
		self.host.run();
		self.collect()
	}
	pub fn collect(&mut self) -> Vec<Value> {
		let mut new = vec![];
		while let Ok(m) = self.from_server.try_recv() {
			let v = serde_json::to_value(&m).unwrap();
			if v.get("method").is_some() && v.get("id").is_some() {
				self.asked.push(v.clone())
			}
			self.log.push(v.clone());
			new.push(v);
		}
		new
	}
	/// Answers the server's requests with `reply` until it asks nothing more.
	pub fn run_replying(&mut self, mut reply: impl FnMut(&Value) -> Value) -> Vec<Value> {
		let mut all = self.run();
		while !self.asked.is_empty() && self.alive() {
			let q = self.asked.remove(0);
			let mut m = reply(&q);
			m["id"] = q["id"].clone();
			self.send(m);
			all.extend(self.run())
		}
		all
	}
	/// Runs, with a client that accepts everything and a file system that answers from `disk`.
	pub fn settle(&mut self, disk: &dyn Fn(&Op) -> Answer) -> Vec<Value> {
		let mut all = self.run_replying(|_| json!({"result": null}));
		while self.alive() {
			let Some((id, op)) = self.fs.pending().into_iter().next() else { break };
			self.fs.answer(id, disk(&op));
			all.extend(self.run_replying(|_| json!({"result": null})))
		}
		all
	}
	pub fn alive(&self) -> bool { self.host.done.is_none() && self.host.broken.is_none() }
	pub fn response(&self, id: i64) -> Option<&Value> { self.log.iter().find(|m| m.get("method").is_none() && m["id"] == id) }
	/// `initialize` (with folders or none) and `initialized`, everything accepted, folder listings from `disk`.
	pub fn start(&mut self, folders: Option<&[&str]>, disk: &dyn Fn(&Op) -> Answer) {
		self.request("initialize", initialize(folders, true, false));
		self.run();
		self.notify("initialized", json!({}));
		self.run_replying(|_| json!({"result": null}));
		while let Some((id, op)) = self.fs.pending().into_iter().find(|(_, o)| matches!(o, Op::Enumerate(..))) {
			self.fs.answer(id, disk(&op));
			self.run_replying(|_| json!({"result": null}));
		}
	}
	pub fn history(&self) -> String { self.sent.join("; ") }
}

pub fn initialize(folders: Option<&[&str]>, watch: bool, progress: bool) -> Value {
	let mut p = json!({"processId": null, "rootUri": null, "capabilities": {}});
	if let Some(f) = folders {
		p["workspaceFolders"] = f.iter().enumerate().map(|(i, u)| json!({"uri": u, "name": format!("f{i}")})).collect();
	}
	if watch {
		p["capabilities"]["workspace"] = json!({"didChangeWatchedFiles": {"dynamicRegistration": true}});
	}
	if progress {
		p["capabilities"]["window"] = json!({"workDoneProgress": true});
	}
	p
}
pub fn did_open(uri: &str, text: &str) -> Value {
	json!({"textDocument": {"uri": uri, "languageId": "p4", "version": 1, "text": text}})
}
pub fn did_change(uri: &str, changes: Value) -> Value {
	json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": changes})
}
pub fn doc(uri: &str) -> Value { json!({"textDocument": {"uri": uri}}) }
pub fn at(uri: &str, line: u32, character: u32) -> Value {
	json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": character}})
}
pub fn watch(uri: &str, typ: u32) -> Value { json!({"changes": [{"uri": uri, "type": typ}]}) }

/// A message in a few characters.
pub fn brief(m: &Value) -> String {
	let p = m.get("params").map(|p| p.to_string()).unwrap_or_default();
	let p = p.replace("file:///", "").replace("\"textDocument\":", "");
	match (m.get("method"), m.get("id")) {
		(Some(x), Some(i)) => format!("{}#{i} {p}", x.as_str().unwrap_or("?")),
		(Some(x), None) => format!("{} {p}", x.as_str().unwrap_or("?")),
		_ => format!("reply {m}"),
	}
}

/// The labels of a completion answer; Err for an error answer.
pub fn labels(response: &Value) -> Result<Vec<String>, String> {
	if let Some(e) = response.get("error").filter(|e| !e.is_null()) {
		return Err(e.to_string());
	}
	let r = &response["result"];
	let items = if r.is_array() { r } else { &r["items"] };
	match items.as_array() {
		Some(v) => Ok(v.iter().map(|i| i["label"].as_str().unwrap_or("?").to_string()).collect()),
		None if r.is_null() => Ok(vec![]),
		None => Err(format!("not a completion answer: {response}")),
	}
}

/// A short, stable name of what broke.
pub fn broken_sig(b: &str) -> String {
	if b.starts_with("spins") {
		return "spins".into();
	}
	let loc = b.rsplit(" at ").next().unwrap_or("");
	let file = loc.rsplit_once(':').map_or(loc, |x| x.0).rsplit('/').next().unwrap_or("").to_string();
	let what: String = b.trim_start_matches("panic: ").chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ').take(40).collect();
	format!("panic:{file}:{}", what.trim().replace(' ', "-"))
}
