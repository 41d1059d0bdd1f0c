//! Shared machinery of the checks: bounded exhaustive enumeration, reports, replay artefacts.
//! Nothing here knows about p4analyzer.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

/// One violation. `sig` names the failing behaviour (for the known-findings file), `case` is the
/// complete input / schedule / history that fails, replayable with `--replay`.
#[derive(Clone, Debug)]
pub struct Violation {
	pub sig: String,
	pub case: String,
	pub detail: String,
}

/// What one check did. Counters are measured, never constants.
#[derive(Default)]
pub struct Report {
	pub states: u64,
	pub transitions: u64,
	pub traces: u64,
	pub evaluations: u64,
	pub distinct: u64,
	pub outcomes: BTreeMap<String, u64>,
	pub samples: Vec<String>,
	pub bounds: Vec<String>,
	pub exhaustive: bool,
	pub violations: BTreeMap<String, (Violation, u64)>,
}

impl Report {
	pub fn new() -> Self { Report { exhaustive: true, ..Default::default() } }
	pub fn sample(&mut self, s: impl Into<String>) {
		if self.samples.len() < 12 {
			self.samples.push(s.into())
		}
	}
	pub fn outcome(&mut self, s: &str) { *self.outcomes.entry(s.to_string()).or_insert(0) += 1 }
	/// Records a violation, keeping the smallest case per signature.
	pub fn violation(&mut self, sig: &str, case: impl Into<String>, detail: impl Into<String>) {
		let v = Violation { sig: sig.to_string(), case: case.into(), detail: detail.into() };
		match self.violations.get_mut(sig) {
			Some((old, n)) => {
				*n += 1;
				if (v.case.len(), &v.case) < (old.case.len(), &old.case) {
					*old = v
				}
			}
			None => {
				self.violations.insert(sig.to_string(), (v, 1));
			}
		}
	}
	pub fn violated(&self) -> bool { !self.violations.is_empty() }
	pub fn merge(&mut self, o: Report) {
		self.states += o.states;
		self.transitions += o.transitions;
		self.traces += o.traces;
		self.evaluations += o.evaluations;
		self.distinct += o.distinct;
		self.exhaustive &= o.exhaustive;
		for (k, n) in o.outcomes {
			*self.outcomes.entry(k).or_insert(0) += n;
		}
		for s in o.samples {
			self.sample(s)
		}
		for b in o.bounds {
			if !self.bounds.contains(&b) {
				self.bounds.push(b)
			}
		}
		for (k, (v, n)) in o.violations {
			match self.violations.get_mut(&k) {
				Some((old, m)) => {
					*m += n;
					if (v.case.len(), &v.case) < (old.case.len(), &old.case) {
						*old = v
					}
				}
				None => {
					self.violations.insert(k, (v, n));
				}
			}
		}
	}
	pub fn to_json(&self) -> String {
		let mut o = String::from("{\n");
		writeln!(o, " \"states\": {},", self.states).unwrap();
		writeln!(o, " \"transitions\": {},", self.transitions).unwrap();
		writeln!(o, " \"traces\": {},", self.traces).unwrap();
		writeln!(o, " \"evaluations\": {},", self.evaluations).unwrap();
		writeln!(o, " \"distinct\": {},", self.distinct).unwrap();
		writeln!(o, " \"exhaustive\": {},", self.exhaustive).unwrap();
		let list = |v: &Vec<String>| v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
		writeln!(o, " \"bounds\": [{}],", list(&self.bounds)).unwrap();
		writeln!(o, " \"samples\": [{}],", list(&self.samples)).unwrap();
		let oc: Vec<_> = self.outcomes.iter().map(|(k, n)| format!("{}: {}", json_str(k), n)).collect();
		writeln!(o, " \"outcomes\": {{{}}},", oc.join(", ")).unwrap();
		let vs: Vec<_> = self
			.violations
			.values()
			.map(|(v, n)| {
				format!(
					"  {{\"sig\": {}, \"case\": {}, \"detail\": {}, \"count\": {}}}",
					json_str(&v.sig),
					json_str(&v.case),
					json_str(&v.detail),
					n
				)
			})
			.collect();
		writeln!(o, " \"violations\": [\n{}\n ]", vs.join(",\n")).unwrap();
		o.push_str("}\n");
		o
	}
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
	let mut h = DefaultHasher::new();
	t.hash(&mut h);
	h.finish()
}

/// A set of 64-bit state fingerprints.
#[derive(Default)]
pub struct Seen(HashSet<u64>);
impl Seen {
	pub fn insert<T: Hash + ?Sized>(&mut self, t: &T) -> bool { self.0.insert(hash64(t)) }
	pub fn len(&self) -> usize { self.0.len() }
}

pub fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) }

/// Seconds one item may run before it is reported as a hang.
pub static ITEM_LIMIT_S: AtomicUsize = AtomicUsize::new(60);
static OUT: Mutex<Option<String>> = Mutex::new(None);

fn rss_mb() -> usize {
	std::fs::read_to_string("/proc/self/statm")
		.ok()
		.and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok()))
		.unwrap_or(0)
		/ 256
}

// Breadcrumbs: the case each worker is at, in a file mapping that survives the process, so that the supervising
// parent can name the culprit when the code under test aborts the process or overflows the stack.
const CRUMB: usize = 4096;
static CRUMBS: AtomicUsize = AtomicUsize::new(0);
extern "C" {
	fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
fn map_crumbs(path: &str) {
	use std::os::fd::AsRawFd;
	let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("crumbs");
	f.set_len((CRUMB * (threads() + 1)) as u64).unwrap();
	let p = unsafe { mmap(std::ptr::null_mut(), CRUMB * (threads() + 1), 3, 1, f.as_raw_fd(), 0) };
	assert!(p as isize != -1);
	CRUMBS.store(p as usize, Ordering::Release);
}
/// Leaves the name of worker `w`'s current case (empty: none). Slot `threads()` is for single-threaded drivers.
pub fn crumb(w: usize, what: &str) {
	let base = CRUMBS.load(Ordering::Relaxed);
	if base == 0 {
		return;
	}
	let n = what.len().min(CRUMB - 8);
	unsafe {
		let p = (base + w * CRUMB) as *mut u8;
		std::ptr::copy_nonoverlapping(what.as_ptr(), p.add(8), n);
		std::ptr::write_volatile(p as *mut u64, n as u64);
	}
}
fn read_crumbs(path: &str) -> Vec<String> {
	let b = std::fs::read(path).unwrap_or_default();
	b.chunks(CRUMB)
		.filter_map(|c| {
			let n = u64::from_le_bytes(c.get(..8)?.try_into().ok()?) as usize;
			(n > 0).then(|| String::from_utf8_lossy(&c[8..8 + n.min(CRUMB - 8)]).into_owned())
		})
		.collect()
}

/// User and system time of this process so far.
fn cpu_ms() -> usize {
	let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
	let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect();
	let n = |k: usize| f.get(k).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
	(n(11) + n(12)) * 10
}

/// The longest item so far, shown on request (MCK_SLOW=1).
static SLOWEST: Mutex<(usize, String)> = Mutex::new((0, String::new()));
fn took(ms: usize, name: impl FnOnce() -> String) {
	let mut s = SLOWEST.lock().unwrap();
	if ms > s.0 {
		*s = (ms, name().chars().take(120).collect())
	}
}

/// What a worker is doing, for the hang watchdog: when it began and how to name it.
struct Beat {
	since: AtomicUsize,
	what: Mutex<Option<String>>,
	item: AtomicUsize,
	w: usize,
}

/// Runs `work` on all cores; a worker whose current item (announced through the Beat) does not end within
/// ITEM_LIMIT_S of computing, five times as long of waiting (or eats the memory) is a violation `hang`: the report is written and the process ends.
fn workers(work: impl Fn(&Beat, &dyn Fn() -> usize, &mut Report) + Sync, name: impl Fn(&Beat) -> String + Sync) -> Report {
	let parts: Mutex<Vec<Report>> = Mutex::new(vec![]);
	let left = AtomicUsize::new(threads());
	let t0 = std::time::Instant::now();
	let now = move || t0.elapsed().as_millis() as usize + 1;
	let beats: Vec<Beat> =
		(0..threads()).map(|w| Beat { since: AtomicUsize::new(0), what: Mutex::new(None), item: AtomicUsize::new(0), w }).collect();
	std::thread::scope(|s| {
		for w in 0..threads() {
			let (parts, left, beats, work, name) = (&parts, &left, &beats, &work, &name);
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(s, move || {
					let mut r = Report::new();
					// a judgement that cannot cope with what the code did is a violation too
					if let Err(m) = catch(|| work(&beats[w], &now, &mut r)) {
						r.exhaustive = false;
						r.violation("unforeseen", name(&beats[w]), format!("the judgement panicked: {m}"));
						beats[w].since.store(0, Ordering::Release);
					}
					parts.lock().unwrap().push(r);
					left.fetch_sub(1, Ordering::Release);
				})
				.unwrap();
		}
		s.spawn(|| {
			let mut wait = 1;
			let mut at = now();
			let mut cpu = cpu_ms();
			let mut spent = vec![(0, 0.0); beats.len()]; // per worker: the item's start, the time it was given
			while left.load(Ordering::Acquire) > 0 {
				std::thread::sleep(std::time::Duration::from_millis(wait));
				wait = (wait * 2).min(200);
				let (t, c) = (now(), cpu_ms());
				let (dt, dc) = ((t - at) as f64, c.saturating_sub(cpu) as f64);
				(at, cpu) = (t, c);
				let begun: Vec<usize> = beats.iter().map(|b| b.since.load(Ordering::Acquire)).collect();
				let busy = begun.iter().filter(|s| **s > 0).count().max(1) as f64;
				// on a machine that others use as well, time counts for less
				let share = (dc / (dt.max(1.0) * busy)).min(1.0);
				let limit = ITEM_LIMIT_S.load(Ordering::Relaxed) * 1000;
				for (k, since) in begun.into_iter().enumerate() {
					if since == 0 || spent[k].0 != since {
						spent[k] = (since, 0.0);
						continue;
					}
					spent[k].1 += dt * share;
					let ms = t.saturating_sub(since);
					let big = rss_mb() > 24_000;
					if spent[k].1 as usize > limit || ms > 5 * limit || (big && spent[k].1 > 10_000.0) {
						let mut r = Report::new();
						r.exhaustive = false;
						let case = name(&beats[k]);
						r.violation("hang", case.clone(), format!("still running after {} s, {} MB in use", ms / 1000, rss_mb()));
						if let Some(o) = OUT.lock().unwrap().clone() {
							std::fs::write(o, r.to_json()).unwrap();
						}
						println!("hang: {case}");
						std::process::exit(0);
					}
				}
			}
		});
	});
	let mut all = Report::new();
	for p in parts.into_inner().unwrap() {
		all.merge(p)
	}
	all
}

/// Runs `f` on every item, on all cores, merging the reports.
pub fn par<T: Sync + std::fmt::Debug>(items: &[T], f: impl Fn(&T, &mut Report) + Sync) -> Report {
	let next = AtomicUsize::new(0);
	let chunk = (items.len() / (threads() * 16)).max(1);
	workers(
		|b, now, r| loop {
			let i = next.fetch_add(chunk, Ordering::Relaxed);
			if i >= items.len() {
				break;
			}
			for k in i..(i + chunk).min(items.len()) {
				b.item.store(k, Ordering::Relaxed);
				crumb(b.w, &format!("{:?}", items[k]));
				b.since.store(now(), Ordering::Release);
				if let Err(m) = catch(|| f(&items[k], r)) {
					r.exhaustive = false;
					r.violation("unforeseen", format!("{:?}", items[k]), format!("the judgement panicked: {m}"));
				}
				took(now() - b.since.swap(0, Ordering::Release), || format!("{:?}", items[k]));
				crumb(b.w, "");
			}
		},
		|b| format!("{:?}", items[b.item.load(Ordering::Relaxed)]),
	)
}

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

/// Panics are data for the checks; keep them off stderr and remember where they came from.
pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|i| {
		let msg = i
			.payload()
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| i.payload().downcast_ref::<String>().cloned())
			.unwrap_or_else(|| "?".into());
		let loc = i
			.location()
			.map(|l| format!("{}:{}", l.file().rsplit("/crates/").next().unwrap_or(l.file()), l.line()))
			.unwrap_or_default();
		if msg.contains("cannot unwind") {
			// the process is about to abort; what matters is the panic that got here
			eprintln!("ABORT: {} ({msg})", LAST_PANIC.with(|p| p.borrow().clone()));
		}
		LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
	}));
}

/// Message of the calling thread's last panic.
pub fn last_panic() -> String { LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())) }

/// Runs `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
		.map_err(|_| LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

/// All strings over `alphabet` of length 0..=max, shortest first.
pub fn strings<T: Clone>(alphabet: &[T], max: usize) -> Vec<Vec<T>> {
	let mut out: Vec<Vec<T>> = vec![vec![]];
	let mut last = 0;
	for _ in 0..max {
		let end = out.len();
		for i in last..end {
			for a in alphabet {
				let mut s = out[i].clone();
				s.push(a.clone());
				out.push(s)
			}
		}
		last = end;
	}
	out
}

pub fn texts(alphabet: &[&str], max: usize) -> Vec<String> { strings(alphabet, max).into_iter().map(|v| v.concat()).collect() }

/// Stateless depth-first enumeration of the choices made by a deterministic body.
/// `choose` replays the recorded prefix and then takes 0; `next` advances to the next sequence.
#[derive(Clone, Debug, Default)]
pub struct Chooser {
	path: Vec<(usize, usize)>, // (taken, arity)
	pos: usize,
}
impl Chooser {
	pub fn new() -> Self { Self::default() }
	pub fn from_choices(c: &[usize]) -> Self { Chooser { path: c.iter().map(|&c| (c, usize::MAX)).collect(), pos: 0 } }
	pub fn choose(&mut self, n: usize) -> usize {
		assert!(n > 0);
		if n == 1 {
			return 0;
		}
		if self.pos < self.path.len() {
			let (c, m) = self.path[self.pos];
			if m == usize::MAX {
				assert!(c < n, "replay diverged: choice {c} of {n}");
				self.path[self.pos].1 = n;
			} else {
				if m != n {
					eprintln!("nondeterministic body: arity {n} where {m} was seen at {} of {:?}", self.pos, self.path.iter().map(|x| x.0).collect::<Vec<_>>());
				}
				assert!(m == n, "nondeterministic body: arity {n} where {m} was seen");
			}
			self.pos += 1;
			c
		} else {
			self.path.push((0, n));
			self.pos += 1;
			0
		}
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.choose(v.len())] }
	pub fn choices(&self) -> Vec<usize> { self.path[..self.pos].iter().map(|x| x.0).collect() }
	/// Moves to the next unexplored sequence below the first `keep` choices; false when there is none.
	pub fn next_below(&mut self, keep: usize) -> bool {
		self.path.truncate(self.pos);
		self.pos = 0;
		while self.path.len() > keep {
			let l = self.path.len() - 1;
			if self.path[l].0 + 1 < self.path[l].1 {
				self.path[l].0 += 1;
				return true;
			}
			self.path.pop();
		}
		false
	}
	pub fn next(&mut self) -> bool { self.next_below(0) }
}

/// Enumerates every choice sequence of `body` on all cores (idle workers take over untried alternatives of
/// busy ones). `body` gets the chooser and a report to fill. `cap` bounds the executions, 0: no bound.
pub fn dfs(body: impl Fn(&mut Chooser, &mut Report) + Sync, cap: u64) -> Report {
	let queue: Mutex<(Vec<Vec<usize>>, usize)> = Mutex::new((vec![vec![]], 0)); // prefixes, busy workers
	let hungry = AtomicUsize::new(0);
	let total = AtomicUsize::new(0);
	workers(
		|b, now, r| {
			let mut waiting = false;
			loop {
				let job = {
					let mut q = queue.lock().unwrap();
					match q.0.pop() {
						Some(p) => {
							q.1 += 1;
							Some(p)
						}
						None if q.1 == 0 => break,
						None => None,
					}
				};
				let Some(p) = job else {
					if !waiting {
						waiting = true;
						hungry.fetch_add(1, Ordering::Relaxed);
					}
					std::thread::sleep(std::time::Duration::from_micros(200));
					continue;
				};
				if waiting {
					waiting = false;
					hungry.fetch_sub(1, Ordering::Relaxed);
				}
				let mut c = Chooser::from_choices(&p);
				let mut keep = p.len();
				loop {
					let what = format!("choices={:?}", c.path.iter().map(|x| x.0).collect::<Vec<_>>());
					crumb(b.w, &what);
					*b.what.lock().unwrap() = Some(what);
					b.since.store(now(), Ordering::Release);
					body(&mut c, r);
					let ms = now() - b.since.swap(0, Ordering::Release);
					if ms > 100 {
						took(ms, || format!("{:?}", c.choices()))
					}
					crumb(b.w, "");
					r.traces += 1;
					if cap > 0 && total.fetch_add(1, Ordering::Relaxed) as u64 >= cap {
						r.exhaustive = false;
						r.bounds.push(format!("stopped after {cap} executions"));
						break;
					}
					if hungry.load(Ordering::Relaxed) > 0 {
						// give away the untried alternatives of the shallowest open choice
						if let Some(l) = (keep..c.pos).find(|&l| c.path[l].0 + 1 < c.path[l].1) {
							let head: Vec<usize> = c.path[..l].iter().map(|x| x.0).collect();
							let mut q = queue.lock().unwrap();
							for k in (c.path[l].0 + 1..c.path[l].1).rev() {
								let mut h = head.clone();
								h.push(k);
								q.0.push(h)
							}
							keep = l + 1;
						}
					}
					if !c.next_below(keep) {
						break;
					}
				}
				queue.lock().unwrap().1 -= 1;
			}
			if waiting {
				hungry.fetch_sub(1, Ordering::Relaxed);
			}
		},
		|b| b.what.lock().unwrap().clone().unwrap_or_default(),
	)
}

pub struct Args {
	pub property: String,
	pub thorough: bool,
	pub out: String,
	pub replay: Option<String>,
	pub seed: u64,
}

pub fn args() -> Args {
	let a: Vec<String> = std::env::args().collect();
	if a.len() < 4 {
		eprintln!("usage: {} PROPERTY quick|thorough OUT.json [CASE]", a[0]);
		std::process::exit(2)
	}
	let crumbs = format!("{}.crumbs", a[3]);
	if std::env::var("MCK_CHILD").is_err() {
		supervise(&a, &crumbs)
	}
	map_crumbs(&crumbs);
	*OUT.lock().unwrap() = Some(a[3].clone());
	Args {
		property: a[1].clone(),
		thorough: a[2] == "thorough",
		out: a[3].clone(),
		replay: a.get(4).cloned(),
		seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
	}
}

/// Runs this program again as a child; if the child dies by a signal, that is a violation `crash`.
fn supervise(a: &[String], crumbs: &str) -> ! {
	use std::os::unix::process::ExitStatusExt;
	let errs = format!("{}.err", a[3]);
	let st = std::process::Command::new("/proc/self/exe")
		.args(&a[1..])
		.env("MCK_CHILD", "1")
		.stderr(std::fs::File::create(&errs).expect("stderr"))
		.status()
		.expect("child");
	let err = std::fs::read(&errs).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
	let cut = err.len().saturating_sub(6000);
	let tail: String = err.chars().skip(err[..].char_indices().position(|(i, _)| i >= cut).unwrap_or(0)).collect();
	match st.signal() {
		Some(s) if s == 6 || s == 11 || s == 7 || s == 4 => {
			let mut r = Report::new();
			r.exhaustive = false;
			let why = tail
				.lines()
				.filter(|l| l.starts_with("ABORT") || l.contains("overflowed") || l.contains("panicked") || l.contains("memory allocation"))
				.last()
				.unwrap_or("")
				.to_string();
			let sig = if why.contains("overflowed") { "stack-overflow" } else { "abort" };
			let cases = read_crumbs(crumbs);
			r.traces = 1;
			r.violation(
				sig,
				cases.join("  OR  "),
				format!("the process died (signal {s}) while it was at one of these cases: {why}"),
			);
			std::fs::write(&a[3], r.to_json()).unwrap();
			println!("died: {why}");
			std::process::exit(0)
		}
		_ => {
			eprint!("{tail}");
			std::process::exit(st.code().unwrap_or(3))
		}
	}
}

pub fn finish(a: &Args, r: Report) {
	std::fs::write(&a.out, r.to_json()).expect("write report");
	if std::env::var_os("MCK_SLOW").is_some() {
		println!("slowest item: {:?}", *SLOWEST.lock().unwrap())
	}
	println!(
		"{}: states={} transitions={} traces={} evaluations={} distinct={} exhaustive={} violations={}",
		a.property,
		r.states,
		r.transitions,
		r.traces,
		r.evaluations,
		r.distinct,
		r.exhaustive,
		r.violations.len()
	);
}
