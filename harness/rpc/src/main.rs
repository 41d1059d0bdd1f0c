//! C06-C08: message framing, malformed input, classification. Everything runs the crate's own
//! Message::read / Message::write; the oracle is a separate frame parser over the raw bytes.
#![feature(alloc_error_hook)]
use analyzer_host::json_rpc::message::{Message, Notification, Request, Response, ResponseError};
use analyzer_host::json_rpc::{ErrorCode, RequestId};
use mck::Report;
use serde_json::{json, Map, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{self, BufRead, BufReader, Read, Write};

/// Refuses single allocations above 1 GB, so that trusting a length field fails at once and harmlessly.
struct Capped;
const CAP: usize = 1 << 30;
unsafe impl GlobalAlloc for Capped {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.size() > CAP {
			return std::ptr::null_mut();
		}
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		if l.size() > CAP {
			return std::ptr::null_mut();
		}
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		if n > CAP {
			return std::ptr::null_mut();
		}
		System.realloc(p, l, n)
	}
}
#[global_allocator]
static A: Capped = Capped;

// ---------------------------------------------------------------- values

/// A message as plain data.
#[derive(Clone, Debug, PartialEq)]
enum M {
	Req(Value, String, Value),
	Resp(Value, Option<Value>, Option<(i64, String, Option<Value>)>),
	Note(String, Value),
}

fn plain(m: &Message) -> M {
	let id = |i: &RequestId| serde_json::to_value(i).unwrap();
	match m {
		Message::Request(r) => M::Req(id(&r.id), r.method.clone(), r.params.clone()),
		Message::Response(r) => M::Resp(
			id(&r.id),
			r.result.clone(),
			r.error.as_ref().map(|e| (e.code as i64, e.message.clone(), e.data.clone())),
		),
		Message::Notification(n) => M::Note(n.method.clone(), n.params.clone()),
	}
}
/// What reading back may not distinguish: an optional member that is null and one that is absent.
fn norm(m: M) -> M {
	let o = |v: Option<Value>| v.filter(|v| !v.is_null());
	match m {
		M::Resp(i, r, e) => M::Resp(i, o(r), e.map(|(c, m, d)| (c, m, o(d)))),
		m => m,
	}
}
/// The JSON object the protocol prescribes for a message.
fn object(m: &M) -> Value {
	let mut o = Map::new();
	o.insert("jsonrpc".into(), json!("2.0"));
	match m {
		M::Req(i, me, p) => {
			o.insert("id".into(), i.clone());
			o.insert("method".into(), json!(me));
			if !p.is_null() {
				o.insert("params".into(), p.clone());
			}
		}
		M::Note(me, p) => {
			o.insert("method".into(), json!(me));
			if !p.is_null() {
				o.insert("params".into(), p.clone());
			}
		}
		M::Resp(i, r, e) => {
			o.insert("id".into(), i.clone());
			if let Some(r) = r {
				o.insert("result".into(), r.clone());
			}
			if let Some((c, m, d)) = e {
				let mut e = Map::new();
				e.insert("code".into(), json!(c));
				e.insert("message".into(), json!(m));
				if let Some(d) = d {
					e.insert("data".into(), d.clone());
				}
				o.insert("error".into(), Value::Object(e));
			}
		}
	}
	Value::Object(o)
}
fn rid(v: &Value) -> RequestId {
	match v {
		Value::String(s) => RequestId::from(s.clone()),
		v => RequestId::from(v.as_i64().unwrap() as i32),
	}
}
/// Builds the crate's message through its constructors where there is one.
fn real(m: &M) -> Message {
	match m {
		M::Req(i, me, p) => Message::Request(Request::new(rid(i), me.clone(), p)),
		M::Note(me, p) => Message::Notification(Notification::new(Box::leak(me.clone().into_boxed_str()), p)),
		M::Resp(i, Some(r), None) => Message::Response(Response::new(rid(i), r)),
		M::Resp(i, None, Some((c, m, None))) => Message::Response(Response::new_error(rid(i), *c as i32, m)),
		M::Resp(i, r, e) => Message::Response(Response {
			id: rid(i),
			result: r.clone(),
			error: e.as_ref().map(|(c, m, d)| ResponseError { code: *c as i32, message: m.clone(), data: d.clone() }),
		}),
	}
}
fn ids() -> Vec<Value> {
	vec![json!(1), json!("1"), json!(0), json!(-1), json!(i32::MAX), json!(i32::MIN), json!(""), json!("é𒀀\"\\\n"), json!("abc")]
}
fn values() -> Vec<Value> {
	vec![
		json!(null),
		json!({}),
		json!([]),
		json!(true),
		json!(7),
		json!("s"),
		json!([1, null, {"a": [[]]}]),
		json!({"a": {"b": [1, 2.5, -3]}, "é": "€𒀀", "": null, "nul": "\u{0}\u{1f}\u{7f}"}),
		json!([u64::MAX, i64::MIN, 1e300, 0.1, -0.0]),
		json!("Content-Length: 5\r\n\r\n{\"id\":1}"),
		json!({"id": 9, "method": "inner", "result": 1, "jsonrpc": "1.0"}),
	]
}
fn big() -> Value { json!({ "text": "line é\n".repeat(2000), "n": (0..300).collect::<Vec<_>>() }) }

fn pool() -> Vec<M> {
	let s = |x: &str| x.to_string();
	vec![
		M::Req(json!(1), s("a"), json!(null)),
		M::Req(json!("1"), s("initialize"), json!({"x": [1, 2.5, null, true]})),
		M::Req(json!(i32::MIN), s("é𒀀"), json!("Content-Length: 5\r\n\r\n{}")),
		M::Req(json!(""), s(""), json!([])),
		M::Note(s("exit"), json!(null)),
		M::Note(s("did"), json!({"text": "€\n\r\n\t\"\\\u{0}"})),
		M::Resp(json!(0), Some(json!(null)), None),
		M::Resp(json!("q"), Some(json!({"k": "𒀀"})), None),
		M::Resp(json!(3), None, Some((-32601, s("no"), None))),
		M::Resp(json!(4), None, Some((i32::MIN as i64, s("é"), Some(json!({"d": [null]}))))),
		M::Resp(json!(5), None, None),
	]
}

// ---------------------------------------------------------------- streams

/// A BufRead over bytes that hands out at most up to the next cut, with an `Interrupted` before each
/// new segment if asked, and an I/O error at the k-th fill.
struct Src<'a> {
	data: &'a [u8],
	pos: usize,
	cuts: &'a [usize],
	interrupt: bool,
	told: bool,
	fail_at: Option<usize>,
	fills: usize,
}
impl<'a> Src<'a> {
	fn new(data: &'a [u8], cuts: &'a [usize]) -> Self {
		Src { data, pos: 0, cuts, interrupt: false, told: false, fail_at: None, fills: 0 }
	}
	fn end(&self) -> usize { self.cuts.iter().copied().find(|c| *c > self.pos).unwrap_or(self.data.len()).min(self.data.len()) }
}
impl Read for Src<'_> {
	fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
		let n = {
			let a = self.fill_buf()?;
			let n = a.len().min(b.len());
			b[..n].copy_from_slice(&a[..n]);
			n
		};
		self.consume(n);
		Ok(n)
	}
}
impl BufRead for Src<'_> {
	fn fill_buf(&mut self) -> io::Result<&[u8]> {
		self.fills += 1;
		assert!(self.fills < 1_000_000, "reads without end");
		if self.fail_at == Some(self.fills) {
			return Err(io::Error::new(io::ErrorKind::Other, "injected"));
		}
		if self.interrupt && !self.told {
			self.told = true;
			return Err(io::ErrorKind::Interrupted.into());
		}
		Ok(&self.data[self.pos..self.end()])
	}
	fn consume(&mut self, n: usize) {
		let e = self.end();
		self.pos += n;
		assert!(self.pos <= self.data.len(), "consumed past the end");
		if self.pos >= e {
			self.told = false
		}
	}
}

/// A writer that takes at most `most` bytes a call.
struct Sink {
	out: Vec<u8>,
	flushed: usize,
	most: usize,
	interrupt: bool,
	told: bool,
	calls: usize,
	fail_at: Option<usize>,
}
impl Sink {
	fn new(most: usize) -> Self {
		Sink { out: vec![], flushed: 0, most, interrupt: false, told: false, calls: 0, fail_at: None }
	}
}
impl Write for Sink {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		self.calls += 1;
		if self.fail_at == Some(self.calls) {
			return Err(io::Error::new(io::ErrorKind::Other, "injected"));
		}
		if self.interrupt && !self.told {
			self.told = true;
			return Err(io::ErrorKind::Interrupted.into());
		}
		self.told = false;
		let n = b.len().min(self.most);
		self.out.extend_from_slice(&b[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		self.flushed = self.out.len();
		Ok(())
	}
}

fn frame(body: &[u8], headers: &str) -> Vec<u8> {
	let mut v = headers.replace("#", &body.len().to_string()).into_bytes();
	v.extend_from_slice(b"\r\n");
	v.extend_from_slice(body);
	v
}
const HEADERS: [&str; 5] = [
	"Content-Length: #\r\n",
	"Content-Length: #\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n",
	"Content-Type: a: b: c\r\nContent-Length: #\r\n",
	"X: \r\nContent-Length: #\r\nY: Content-Length: 3\r\n",
	"Content-Length-Not: 3\r\nContent-Length: #\r\nX-Content-Length: 99999\r\n",
];

fn show(b: &[u8]) -> String { String::from_utf8_lossy(b).escape_debug().to_string() }

/// Reads the whole stream and compares with what must be there.
fn read_all(src: &mut Src, want: &[M], ends: &[usize]) -> Result<(), String> {
	for (m, e) in want.iter().zip(ends) {
		match Message::read(src) {
			Ok(Some(g)) => {
				let (g, w) = (norm(plain(&g)), norm(m.clone()));
				if g != w {
					return Err(format!("read {g:?} for {w:?}"));
				}
			}
			o => return Err(format!("read {o:?} for {m:?}")),
		}
		if src.pos != *e {
			return Err(format!("consumed {} bytes, the message ends at {e}", src.pos));
		}
	}
	match Message::read(src) {
		Ok(None) => Ok(()),
		o => Err(format!("at the end of the stream: {o:?}")),
	}
}

fn framing(thorough: bool) -> Report {
	let pool = pool();
	let mut r = Report::new();
	// --- writing
	let mut all: Vec<M> = pool.clone();
	for v in values().into_iter().chain([big()]) {
		for i in ids() {
			all.push(M::Req(i.clone(), "m".into(), v.clone()));
			all.push(M::Resp(i.clone(), Some(v.clone()), None));
			all.push(M::Resp(i.clone(), None, Some((-1, "é\n".into(), Some(v.clone())))));
		}
		all.push(M::Note("n".into(), v.clone()));
	}
	r.merge(mck::par(&all, |m, r| {
		r.states += 1;
		let mut sizes: Vec<usize> = (1..48).collect();
		sizes.push(usize::MAX);
		for most in sizes {
			for interrupt in [false, true] {
				r.transitions += 1;
				r.traces += 1;
				let mut s = Sink::new(most);
				s.interrupt = interrupt;
				let case = || format!("write {m:?}, {most} bytes a call, interrupted: {interrupt}");
				match mck::catch(|| real(m).write(&mut s)) {
					Ok(Ok(())) => {}
					o => {
						r.violation("write-fails", case(), format!("{o:?}"));
						continue;
					}
				}
				match reference(&s.out) {
					(Ref::Msg(v), n) if n == s.out.len() => {
						if v != object(m) {
							r.violation("written-object", case(), format!("wrote {v}, should be {}", object(m)))
						}
					}
					o => r.violation("written-frame", case(), format!("wrote {}: {o:?}", show(&s.out))),
				}
				if s.flushed != s.out.len() {
					r.violation("not-flushed", case(), format!("{} of {} bytes flushed", s.flushed, s.out.len()))
				}
			}
		}
		// an I/O error at every call
		let mut whole = Sink::new(usize::MAX);
		real(m).write(&mut whole).unwrap();
		for most in [1usize, 7, usize::MAX] {
			for k in 1..40 {
				let mut s = Sink::new(most);
				s.fail_at = Some(k);
				r.transitions += 1;
				match mck::catch(|| real(m).write(&mut s)) {
					Ok(res) => {
						if !whole.out.starts_with(&s.out) || (res.is_ok() && s.out != whole.out) {
							r.violation("write-error", format!("write {m:?}, error at call {k}"), format!("result {res:?}, wrote {}", show(&s.out)))
						}
						r.outcome(if res.is_ok() { "written" } else { "write error reported" })
					}
					Err(p) => r.violation("write-panics", format!("write {m:?}, error at call {k}"), p),
				}
			}
		}
	}));
	r.bounds.push(format!("writing: {} messages x 48 short-write sizes x interrupted or not; an I/O error at every call", all.len()));
	// --- reading: sequences and fragmentation
	let mut seqs: Vec<Vec<usize>> = vec![vec![]];
	for a in 0..pool.len() {
		seqs.push(vec![a]);
		for b in 0..pool.len() {
			seqs.push(vec![a, b]);
			for c in 0..pool.len() {
				if thorough || (a + b * 3 + c) % 7 == 0 {
					seqs.push(vec![a, b, c])
				}
			}
		}
	}
	r.bounds.push(format!(
		"reading: {} sequences of up to 3 messages x 5 header layouts x all 1-cut fragmentations, all 2-cut ones ({}), every fixed chunk size; interrupted reads; BufReader of every capacity",
		seqs.len(),
		if thorough { "sequences of up to 3" } else { "sequences of up to 2" }
	));
	r.merge(mck::par(&seqs, |s, r| {
		r.states += 1;
		for (hi, h) in HEADERS.iter().enumerate() {
			let (mut data, mut ends, mut want) = (vec![], vec![], vec![]);
			for k in s {
				let body = serde_json::to_vec(&object(&pool[*k])).unwrap();
				data.extend(frame(&body, h));
				ends.push(data.len());
				want.push(pool[*k].clone());
			}
			let mut go = |cuts: &[usize], interrupt: bool, r: &mut Report| {
				let mut src = Src::new(&data, cuts);
				src.interrupt = interrupt;
				r.transitions += 1 + want.len() as u64;
				r.traces += 1;
				match mck::catch(|| read_all(&mut src, &want, &ends)) {
					Ok(Ok(())) => r.outcome("read back"),
					Ok(Err(e)) | Err(e) => {
						r.violation("fragmented-read", format!("stream {} cuts {cuts:?} interrupted {interrupt}", show(&data)), e)
					}
				}
			};
			let n = data.len();
			for c in 0..=n {
				go(&[c], c % 2 == 1, r)
			}
			for k in 1..=n.min(64) {
				let cuts: Vec<usize> = (1..=n / k).map(|i| i * k).collect();
				go(&cuts, false, r);
				go(&cuts, true, r);
			}
			if s.len() <= if thorough { 2 } else { 1 } || (s.len() <= 2 && hi == 0) || (thorough && hi == 0) {
				for a in 1..n {
					for b in a + 1..n {
						go(&[a, b], false, r)
					}
				}
			}
			if s.len() == 1 && hi == 0 && (thorough || n < 70) {
				for a in 1..n {
					for b in a + 1..n {
						for c in b + 1..n {
							go(&[a, b, c], false, r)
						}
					}
				}
			}
			// through a standard buffered reader, as the console driver does
			for cap in (1..20).chain([64, 8192]) {
				let cuts: Vec<usize> = (1..=n / 3 + 1).map(|i| i * 3).collect();
				let mut b = BufReader::with_capacity(cap, Src::new(&data, &cuts));
				r.transitions += 1;
				let got = mck::catch(|| {
					let mut out = vec![];
					while let Some(m) = Message::read(&mut b)? {
						out.push(norm(plain(&m)))
					}
					Ok::<_, io::Error>(out)
				});
				let w: Vec<M> = want.iter().cloned().map(norm).collect();
				if !matches!(&got, Ok(Ok(g)) if *g == w) {
					r.violation("buffered-read", format!("stream {} capacity {cap}", show(&data)), format!("{got:?}"))
				}
			}
		}
	}));
	// a body bigger than any buffer, written by the crate and read back in chunks
	let m = M::Note("big".into(), big());
	let mut s = Sink::new(usize::MAX);
	for x in [&m, &pool[0]] {
		real(x).write(&mut s).unwrap();
	}
	for k in [1usize, 2, 3, 5, 1000, 4095, 4096, 8191, 8192, 8193, 1 << 20] {
		let cuts: Vec<usize> = (1..=s.out.len() / k).map(|i| i * k).collect();
		let mut src = Src::new(&s.out, &cuts);
		let first = reference(&s.out).1;
		r.traces += 1;
		match mck::catch(|| read_all(&mut src, &[m.clone(), pool[0].clone()], &[first, s.out.len()])) {
			Ok(Ok(())) => {}
			Ok(Err(e)) | Err(e) => r.violation("big-body", format!("chunks of {k}"), e.chars().take(300).collect::<String>()),
		}
	}
	// sizes at which a length takes another digit or byte, or a buffer ends
	let sizes = big_sizes(if thorough { 4 << 20 } else { 1 << 20 });
	r.bounds.push(format!("{} body sizes around powers of two and ten up to {} bytes, ASCII and multi-byte, written and read back in 8 fragmentations; 1 to 300 header fields, fields of up to 100000 bytes; streams of 1000 messages", sizes.len(), sizes[sizes.len() - 1]));
	r.merge(mck::par(&sizes, |&n, r| {
		for unit in ["x", "é", "€", "𒀀", "\n"] {
			let m = M::Note("n".into(), json!(unit.repeat(n / unit.len())));
			let mut s = Sink::new(usize::MAX);
			if real(&m).write(&mut s).is_err() || real(&pool[0]).write(&mut s).is_err() {
				r.violation("write-fails", format!("{n} bytes of {unit:?}"), "an error");
				continue;
			}
			let (rf, first) = reference(&s.out);
			if rf != Ref::Msg(object(&m)) || reference(&s.out[first..]) != (Ref::Msg(object(&pool[0])), s.out.len() - first) {
				r.violation("written-frame", format!("{n} bytes of {unit:?}"), format!("wrote {}..", show(&s.out[..40])));
				continue;
			}
			let head = s.out.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
			for k in [7usize, 4096, 8192, 65536, usize::MAX] {
				let cuts: Vec<usize> = (1..=s.out.len() / k.max(n / 2000 + 1)).map(|i| i * k.max(n / 2000 + 1)).collect();
				for at in [0, head, first] {
					let mut src = Src::new(if at == head { &s.out[..first] } else { &s.out[..] }, &cuts);
					if at == head && k < 8192 {
						continue;
					}
					r.traces += 1;
					r.transitions += 2;
					let (w, e): (Vec<M>, Vec<usize>) = match at {
						x if x == head => (vec![m.clone()], vec![first]),
						_ => (vec![m.clone(), pool[0].clone()], vec![first, s.out.len()]),
					};
					match mck::catch(|| read_all(&mut src, &w, &e)) {
						Ok(Ok(())) => {}
						Ok(Err(e)) | Err(e) => r.violation("big-body", format!("{n} bytes of {unit:?}, chunks of {k}"), e.chars().take(300).collect::<String>()),
					}
				}
			}
		}
	}));
	let mut heads: Vec<String> = vec![];
	for n in [2usize, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 99, 100, 101, 127, 129, 255, 257, 300] {
		let f = |i: usize| format!("X-{i}: {i}\r\n");
		heads.push((0..n - 1).map(f).collect::<String>() + "Content-Length: #\r\n");
		heads.push("Content-Length: #\r\n".to_string() + &(0..n - 1).map(f).collect::<String>());
	}
	for n in [60usize, 64, 80, 127, 128, 255, 256, 257, 1000, 1024, 4096, 8192, 65536, 100_000] {
		heads.push(format!("X: {}\r\nContent-Length: #\r\n", "y".repeat(n)));
		heads.push(format!("Content-Length: #\r\n{}: y\r\n", "X".repeat(n)));
		heads.push(format!("X: {}\r\nContent-Length: #\r\n", "é: ".repeat(n / 4)));
	}
	heads.extend(["Content-Length: 00000000000000000000000000#\r\n".to_string(), "Content-Type: \t \r\nContent-Length: #\r\n".to_string(), "X: \0\r\nContent-Length: #\r\n".to_string()]);
	r.merge(mck::par(&heads, |h, r| {
		for m in &pool {
			let body = serde_json::to_vec(&object(m)).unwrap();
			let mut data = frame(&body, h);
			let first = data.len();
			data.extend(frame(&body, HEADERS[0]));
			for k in [64usize, 8192, usize::MAX] {
				let cuts: Vec<usize> = (1..=data.len() / k).map(|i| i * k).collect();
				let mut src = Src::new(&data, &cuts);
				r.traces += 1;
				r.transitions += 2;
				match mck::catch(|| read_all(&mut src, &[m.clone(), m.clone()], &[first, data.len()])) {
					Ok(Ok(())) => {}
					Ok(Err(e)) | Err(e) => r.violation("header-fields", format!("{:.60}.. ({} bytes of header), chunks of {k}", h, h.len()), e.chars().take(300).collect::<String>()),
				}
			}
		}
	}));
	for n in [40usize, 1000] {
		let mut s = Sink::new(5);
		let mut want = vec![];
		let mut ends = vec![];
		for i in 0..n {
			want.push(pool[i * 7 % pool.len()].clone());
			let _ = real(&want[i]).write(&mut s);
			ends.push(s.out.len());
		}
		for k in [1usize, 3, 100, 8192, usize::MAX] {
			let cuts: Vec<usize> = (1..=s.out.len() / k.max(n / 40)).map(|i| i * k.max(n / 40)).collect();
			r.traces += 1;
			r.transitions += n as u64;
			match mck::catch(|| read_all(&mut Src::new(&s.out, &cuts), &want, &ends)) {
				Ok(Ok(())) => {}
				Ok(Err(e)) | Err(e) => r.violation("long-stream", format!("{n} messages, chunks of {k}"), e.chars().take(300).collect::<String>()),
			}
		}
	}
	r.evaluations = r.traces;
	r.distinct = seqs.len() as u64 * 5;
	r.sample(format!("{:?}", seqs[seqs.len() / 2].iter().map(|k| &pool[*k]).collect::<Vec<_>>()));
	r.sample(show(&frame(b"{}", HEADERS[4])));
	r
}

fn big_sizes(most: usize) -> Vec<usize> {
	let mut out = vec![];
	for b in (4..).map(|i| 1usize << i).take_while(|b| *b <= most).chain((1..).map(|i| 10usize.pow(i)).take_while(|b| *b <= most)) {
		out.extend(if b > 70_000 { vec![b] } else { vec![b - 2, b - 1, b, b + 1] });
	}
	out.sort();
	out.dedup();
	out
}

// ---------------------------------------------------------------- malformed input

#[derive(Clone, Debug, PartialEq)]
enum Ref {
	/// a frame with a JSON body; the value still has to be classified
	Msg(Value),
	/// a complete frame whose body is not UTF-8 or not JSON
	BadBody,
	/// the header block is malformed (the count says where at the latest that is known)
	BadHeader,
	/// the stream ends inside the frame
	Cut,
	/// nothing left
	End,
	/// the frame is one about whose length the protocol says nothing (two lengths, a signed one)
	Unsettled,
}

/// Parses one frame off raw bytes: what is there and how many bytes it is.
fn reference(b: &[u8]) -> (Ref, usize) {
	if b.is_empty() {
		return (Ref::End, 0);
	}
	let (mut p, mut size, mut odd): (usize, Option<u128>, bool) = (0, None, false);
	loop {
		let Some(n) = b[p..].iter().position(|c| *c == b'\n') else {
			// no complete line any more: malformed or cut, either way not a message
			return (Ref::Cut, b.len());
		};
		let line = &b[p..p + n + 1];
		p += n + 1;
		let Ok(line) = std::str::from_utf8(line) else { return (Ref::BadHeader, p) };
		let Some(line) = line.strip_suffix("\r\n") else { return (Ref::BadHeader, p) };
		if line.is_empty() {
			break;
		}
		let Some((name, value)) = line.split_once(": ") else { return (Ref::BadHeader, p) };
		if name == "Content-Length" {
			odd |= size.is_some();
			let digits = value.strip_prefix('+').unwrap_or(value);
			odd |= digits != value;
			if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) {
				return (Ref::BadHeader, p);
			}
			size = Some(digits.parse::<u128>().unwrap_or(u128::MAX));
		} else if name.trim().eq_ignore_ascii_case("content-length") {
			odd = true
		}
	}
	if odd {
		return (Ref::Unsettled, b.len());
	}
	let Some(size) = size else { return (Ref::BadHeader, p) };
	if size > (b.len() - p) as u128 {
		// too long to be true or really cut off
		return (Ref::Cut, b.len());
	}
	let end = p + size as usize;
	let Ok(body) = std::str::from_utf8(&b[p..end]) else { return (Ref::BadBody, end) };
	match serde_json::from_str::<Value>(body) {
		Ok(v) => (Ref::Msg(v), end),
		Err(_) => (Ref::BadBody, end),
	}
}

/// What an object is under JSON-RPC: Ok(Some) a message, Ok(None) not a message, Err: not settled by the
/// protocol subset the server speaks (ids or members of the wrong type).
fn classify(v: &Value) -> Result<Option<M>, ()> {
	let Value::Object(o) = v else {
		// an array could be read as a batch, which the language server protocol does not use
		return if v.is_array() { Err(()) } else { Ok(None) };
	};
	let id = match o.get("id") {
		None => None,
		Some(v @ Value::String(_)) => Some(v.clone()),
		Some(v) if v.as_i64().map_or(false, |n| i32::try_from(n).is_ok()) => Some(v.clone()),
		Some(_) => return Err(()),
	};
	let method = match o.get("method") {
		None => None,
		Some(Value::String(s)) => Some(s.clone()),
		Some(_) => return Err(()),
	};
	let params = o.get("params").cloned().unwrap_or(Value::Null);
	match (id, method) {
		(Some(i), Some(m)) => Ok(Some(M::Req(i, m, params))),
		(None, Some(m)) => Ok(Some(M::Note(m, params))),
		(None, None) => Ok(None),
		(Some(i), None) => {
			let error = match o.get("error") {
				None | Some(Value::Null) => None,
				Some(Value::Object(e)) => match (e.get("code"), e.get("message")) {
					(Some(c), Some(Value::String(m))) if c.as_i64().map_or(false, |n| i32::try_from(n).is_ok()) => {
						Some((c.as_i64().unwrap(), m.clone(), e.get("data").cloned()))
					}
					_ => return Err(()),
				},
				Some(_) => return Err(()),
			};
			Ok(Some(norm(M::Resp(i, o.get("result").cloned(), error))))
		}
	}
}

/// Reads one message off arbitrary bytes and judges result and consumption.
fn judge(data: &[u8], cuts: &[usize], r: &mut Report, tag: &str) -> bool {
	let mut src = Src::new(data, cuts);
	r.transitions += 1;
	r.traces += 1;
	let got = mck::catch(|| Message::read(&mut src));
	let pos = src.pos;
	let (want, end) = reference(data);
	let case = || format!("{tag}: {}", show(data));
	let got = match got {
		Ok(g) => g,
		Err(p) => {
			r.violation("read-panics", case(), p);
			return false;
		}
	};
	let g = match &got {
		Ok(Some(m)) => Some(norm(plain(m))),
		_ => None,
	};
	let mut bad = |sig: &str, why: &str| {
		r.violation(sig, case(), format!("{why}: got {:?}, consumed {pos}, reference {want:?} ending at {end}", got.as_ref().map_err(|e| e.to_string())));
		false
	};
	if pos > end {
		return bad("overrun", "consumed bytes past the frame");
	}
	let ok = match &want {
		Ref::End => matches!(got, Ok(None)) || bad("end", "end of the stream not reported"),
		Ref::Cut => g.is_none() || bad("message-from-cut", "a message from an incomplete frame"),
		Ref::BadHeader => matches!(got, Err(_)) || bad("bad-header", "a malformed header not reported"),
		Ref::BadBody => {
			(matches!(got, Err(_)) || bad("bad-body", "a body that is not JSON not reported"))
				&& (pos == end || bad("resync", "the next frame is not where reading goes on"))
		}
		Ref::Msg(v) => {
			let c = match classify(v) {
				Ok(Some(m)) => (g.as_ref() == Some(&m) && matches!(got, Ok(_))) || bad("wrong-message", "not the message in the frame"),
				Ok(None) => matches!(got, Err(_)) || bad("not-a-message", "a body that is no message not reported"),
				Err(()) => !matches!(got, Ok(None)) || bad("not-a-message", "end of stream reported for a complete frame"),
			};
			c && (pos == end || bad("resync", "the next frame is not where reading goes on"))
		}
		Ref::Unsettled => true,
	};
	r.outcome(match (&want, &got) {
		(Ref::End, _) => "clean end",
		(Ref::Unsettled, _) => "unsettled",
		(_, Ok(Some(_))) => "message",
		(_, Ok(None)) => "cut: end reported",
		(_, Err(_)) => "error reported",
	});
	ok
}

fn bodies() -> Vec<String> {
	[
		"", " ", "{", "}", "{}", "[]", "null", "1", "\"x\"", "true", "{\"jsonrpc\":\"2.0\"}", "{\"params\":[]}",
		"{\"result\":1}", "{\"error\":{\"code\":1,\"message\":\"x\"}}", "{\"id\":1,\"id\":2", "[{\"id\":1,\"method\":\"a\"}]",
		"{\"id\":null,\"method\":\"a\"}", "{\"id\":1.5,\"method\":\"a\"}", "{\"id\":99999999999,\"method\":\"a\"}", "{\"id\":[],\"method\":\"a\"}",
		"{\"id\":1,\"method\":5}", "{\"method\":null}", "{\"id\":1,\"error\":5}", "{\"id\":1,\"error\":{\"code\":\"x\",\"message\":\"y\"}}",
		"{\"id\":1,\"method\":\"a\"} x", "{\"id\":1,\"method\":\"a\"}{}", "{'id':1}", "{\"id\":1,\"method\":\"\\ud800\"}", "nul", "NaN",
		"{\"id\":1,\"method\":\"a\",}", "// c\n{}", "\u{feff}{\"method\":\"a\"}", " {\"method\":\"a\"}\n",
	]
	.iter()
	.map(|s| s.to_string())
	.chain([format!("{}1{}", "[".repeat(200), "]".repeat(200)), "[".repeat(5000)])
	.collect()
}

fn malformed(thorough: bool) -> Report {
	let mut r = Report::new();
	let good = frame(b"{\"method\":\"next\"}", HEADERS[0]);
	let mut bases: Vec<(String, Vec<u8>)> = vec![];
	for (hi, h) in HEADERS.iter().enumerate() {
		for body in ["{\"id\":1,\"method\":\"a\",\"params\":[1,\"\u{e9}\"]}", "{\"method\":\"x\"}", "{\"id\":\"z\",\"result\":null}"] {
			bases.push((format!("layout {hi}"), frame(body.as_bytes(), h)));
			if hi > 2 && !thorough {
				break;
			}
		}
	}
	// every truncation, and truncation in every fragmentation into two
	r.merge(mck::par(&bases, |(n, b), r| {
		r.states += 1;
		for t in 0..=b.len() {
			judge(&b[..t], &[], r, &format!("{n} cut at {t}"));
			for c in 1..t {
				judge(&b[..t], &[c], r, &format!("{n} cut at {t}, fragment {c}"));
			}
		}
		// two frames, the second truncated: the first must be read, the second not
		let mut two = b.clone();
		two.extend_from_slice(b);
		for t in b.len()..two.len() {
			let mut src = Src::new(&two[..t], &[]);
			r.transitions += 2;
			r.traces += 1;
			let got = mck::catch(|| (Message::read(&mut src), Message::read(&mut src)));
			if !matches!(&got, Ok((Ok(Some(_)), s)) if !matches!(s, Ok(Some(_)))) {
				r.violation("second-cut", format!("{n} second frame cut at {}", t - b.len()), format!("{got:?}"))
			}
		}
		// an I/O error at every fill, in one-byte fragments and whole
		for step in [1usize, 3, 1000] {
			let cuts: Vec<usize> = (1..=b.len() / step).map(|i| i * step).collect();
			let mut k = 1;
			loop {
				let mut src = Src::new(b, &cuts);
				src.fail_at = Some(k);
				r.transitions += 1;
				r.traces += 1;
				let got = mck::catch(|| Message::read(&mut src));
				if src.fills < k {
					break; // the frame was complete before the error
				}
				if !matches!(&got, Ok(Err(_))) {
					r.violation("io-error", format!("{n} fragments of {step}, error at fill {k}"), format!("{got:?}"))
				}
				k += 1;
			}
		}
	}));
	// every single byte substituted, inserted, deleted, and pairs of such changes
	let alphabet: &[u8] = b"\r\n: 019+-aC\x00\xff\xc3\xa9{}\"[],\\";
	let mut muts: Vec<(usize, usize)> = vec![];
	for (i, b) in bases.iter().enumerate() {
		for p in 0..=b.1.len() {
			muts.push((i, p))
		}
	}
	r.bounds.push(format!(
		"{} base frames: every truncation (and its 2-fragmentations), an I/O error at every read, every byte substituted/inserted/deleted over {} byte values followed by an intact frame{}",
		bases.len(),
		alphabet.len(),
		if thorough { ", every pair of mutations in the header, and anywhere in frames shorter than 120 bytes" } else { ", every pair of mutations in the header" }
	));
	r.merge(mck::par(&muts, |&(i, p), r| {
		let b = &bases[i].1;
		let head = b.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
		let mut each = |v: Vec<u8>, what: String, r: &mut Report| {
			r.states += 1;
			r.distinct += 1;
			judge(&v, &[], r, &what);
			let mut w = v.clone();
			w.extend_from_slice(&good);
			if !judge(&w, &[], r, &what) {
				return;
			}
			// a complete frame with a bad body leaves the next one readable
			let (rf, end) = reference(&w);
			if matches!(rf, Ref::BadBody | Ref::Msg(_)) {
				let mut src = Src::new(&w, &[]);
				let _ = mck::catch(|| Message::read(&mut src));
				if src.pos == end {
					judge(&w[end..], &[], r, "frame after it");
				}
			}
		};
		let mutate = |b: &[u8], p: usize| {
			let mut out: Vec<(Vec<u8>, String)> = vec![];
			if p < b.len() {
				let mut v = b.to_vec();
				v.remove(p);
				out.push((v, format!("byte {p} deleted")));
			}
			for c in alphabet {
				if p < b.len() && b[p] != *c {
					let mut v = b.to_vec();
					v[p] = *c;
					out.push((v, format!("byte {p} replaced")));
				}
				let mut v = b.to_vec();
				v.insert(p, *c);
				out.push((v, format!("byte inserted at {p}")));
			}
			out
		};
		for (v, what) in mutate(b, p) {
			// pairs: anywhere in the header, and (thorough) anywhere at all in short frames
			if p < head || thorough && b.len() < 120 {
				for q in p..(if thorough && b.len() < 120 { v.len() } else { head.min(v.len()) }) {
					for (w, what2) in mutate(&v, q) {
						each(w, format!("{what}, {what2}"), r)
					}
				}
			}
			each(v, what, r)
		}
	}));
	// lengths and header lines
	let body = "{\"method\":\"a\"}";
	let lens = [
		"14", "0", "1", "13", "15", "014", "+14", "-14", "14 ", " 14", "", "x", "1e1", "0x0e", "14;", "4294967296", "4294967310",
		"18446744073709551615", "18446744073709551616", "9223372036854775807", "99999999999", "340282366920938463463374607431768211470", "1000000000000", "14\u{e9}", "٣",
		"14: ", "14: 14", "14: 2", "2: 14", ": 14", "14:", "14, 14", "14\t", "\t14", "14\0", "1 4", "1_4", "14.0", "E", "0b1110", "00000000000000000000000000014", "000000000000000000014", "+0", "-0", "++14",
	];
	let lines = [
		"Content-Length", "Content-Length:14", "Content-Length : 14", "content-length: 14", ": 14", "Content-Length: 14\r", "\n", "X", "X:", "X: ", "X: y: z", "X: Content-Length: 2", "Content-Length: 14: 2", "Content-Length: Content-Length: 14", "CONTENT-LENGTH: 2", "Content-Length\t: 2",
		" Content-Length: 2", "Content-Length : 2", "Content-Length2: 2", "XContent-Length: 2", "Content-Type: x",
		"Content-Length: 14\r\nContent-Length: 14", "Content-Length: 14\r\nContent-Length: 2", "\0", "é: 1",
	];
	let mut texts: Vec<Vec<u8>> = vec![];
	for l in lens {
		texts.push(format!("Content-Length: {l}\r\n\r\n{body}").into_bytes());
		texts.push(format!("Content-Length: {l}\r\nX: y\r\n\r\n{body}").into_bytes());
		texts.push(format!("Content-Length: {l}\r\n\r\n").into_bytes());
	}
	for a in lines {
		texts.push(format!("{a}\r\n\r\n{body}").into_bytes());
		for b in lines {
			texts.push(format!("{a}\r\n{b}\r\n\r\n{body}").into_bytes());
			texts.push(format!("{a}\n{b}\r\n\r\n{body}").into_bytes());
		}
	}
	for s in bodies() {
		texts.push(frame(s.as_bytes(), HEADERS[0]));
	}
	for s in [&b"\xff"[..], b"\xc3", b"{\"method\":\"\xe9\"}", b"{\"method\":\"a\"}\x00", b"\xed\xa0\x80", b"\xff\xfe{\x00}\x00"] {
		texts.push(frame(s, HEADERS[0]));
	}
	for s in mck::strings(b"\r\n: C1", if thorough { 8 } else { 7 }) {
		texts.push(s);
	}
	r.bounds.push(format!("{} further streams: lengths, header lines, non-message bodies, all byte strings over 6 header bytes up to a length", texts.len()));
	r.merge(mck::par(&texts, |t, r| {
		r.states += 1;
		r.distinct += 1;
		judge(t, &[], r, "stream");
		let mut w = t.clone();
		w.extend_from_slice(&good);
		judge(&w, &[], r, "stream and a frame");
	}));
	// the same faults in frames that do not fit in any buffer
	let sizes: Vec<usize> = big_sizes(if thorough { 1 << 20 } else { 1 << 17 }).into_iter().filter(|n| *n > 60).collect();
	r.bounds.push(format!("bodies of {} sizes up to {} bytes: cut anywhere around buffer ends, not UTF-8 or JSON at the end, then an intact frame", sizes.len(), sizes[sizes.len() - 1]));
	r.merge(mck::par(&sizes, |&n, r| {
		let text = format!("{{\"method\":\"{}\"}}", "é".repeat(n / 2 - 7));
		let ok = frame(text.as_bytes(), HEADERS[0]);
		let mut each = |v: &[u8], what: &str, r: &mut Report| {
			let cuts: Vec<usize> = (1..=v.len() / 8192).map(|i| i * 8192).collect();
			let mut s = Report::new();
			let fine = judge(v, &cuts, &mut s, what);
			r.transitions += 1;
			r.traces += 1;
			r.states += 1;
			if !fine {
				r.violation("big-frame", format!("a body of {n} bytes, {what}"), s.violations.keys().cloned().collect::<String>());
			}
		};
		for back in (1..20).chain([n / 2, n - 1, n, n + 1, 4096.min(n), 8192.min(n)]) {
			each(&ok[..ok.len() - back], &format!("{back} bytes missing"), r);
		}
		let head = ok.len() - text.len();
		for at in [0, 1, 12, 13, text.len() / 2, text.len() - 3, text.len() - 2, text.len() - 1] {
			for c in [b'\xff', b'\xc3', b'"', b'}', b'\0'] {
				let mut v = ok.clone();
				v[head + at] = c;
				let end = v.len();
				v.extend_from_slice(&good);
				each(&v, &format!("byte {at} is {c}"), r);
				let mut src = Src::new(&v, &[]);
				let _ = mck::catch(|| Message::read(&mut src));
				if src.pos != end || !judge(&v[end..], &[], &mut Report::new(), "") {
					r.violation("resync", format!("a body of {n} bytes, byte {at} is {c}"), format!("reading went on at {}", src.pos));
				}
			}
		}
	}));
	r.evaluations = r.traces;
	r.sample(show(&bases[3].1));
	r.sample(show(&texts[texts.len() / 3]));
	r
}

// ---------------------------------------------------------------- classification

fn permutations(n: usize, got: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
	if got.len() == n {
		return out.push(got.clone());
	}
	for i in 0..n {
		if !got.contains(&i) {
			got.push(i);
			permutations(n, got, out);
			got.pop();
		}
	}
}

fn classification(thorough: bool) -> Report {
	let mut r = Report::new();
	let err = |c: i64, m: &str| json!({"code": c, "message": m});
	let s = |v: &[Value]| v.iter().cloned().map(Some).chain([None]).collect::<Vec<Option<Value>>>();
	let idv = s(&ids());
	let me = s(&[json!("m"), json!(""), json!("$/é")]);
	let pa = s(&values());
	let re = s(&[json!(null), json!(0), json!({"k": [1]}), json!("x")]);
	let er = s(&[
		json!(null),
		err(-32601, "no"),
		json!({"code": i32::MAX, "message": "", "data": {"a": [null, 1]}}),
		json!({"code": 0, "message": "é", "data": null}),
		json!({"data": 0, "message": "é", "code": i32::MIN, "extra": 1}),
	]);
	let extra = [None, Some(json!({"x": 1}))];
	let mut cases = vec![];
	for i in &idv {
		for m in &me {
			for p in &pa {
				cases.push((i.clone(), m.clone(), p.clone()))
			}
		}
	}
	r.bounds.push(format!(
		"reading: {} ids x {} methods x {} params x {} results x {} errors x extra member or not x {} member orders x version marker or not",
		idv.len(),
		me.len(),
		pa.len(),
		re.len(),
		er.len(),
		if thorough { "all" } else { "rotated and reversed" }
	));
	r.merge(mck::par(&cases, |(i, m, p), r| {
		for re in &re {
			for er in &er {
				for ex in &extra {
					for ver in [true, false] {
						let v2 = json!("2.0");
						let mut parts: Vec<(&str, &Value)> = if ver { vec![("jsonrpc", &v2)] } else { vec![] };
						for (k, v) in [("id", i), ("method", m), ("params", p), ("result", re), ("error", er), ("extra", ex)] {
							if let Some(v) = v {
								parts.push((k, v))
							}
						}
						// every order of the members (quick: every rotation, forwards and backwards)
						let mut orders: Vec<Vec<usize>> = vec![];
						if thorough {
							permutations(parts.len(), &mut vec![], &mut orders)
						} else {
							for k in 0..parts.len().max(1) {
								let o: Vec<usize> = (0..parts.len()).map(|j| (j + k) % parts.len()).collect();
								orders.push(o.iter().rev().copied().collect());
								orders.push(o);
							}
						}
						for o in orders {
							let text = format!("{{{}}}", o.iter().map(|j| format!("\"{}\":{}", parts[*j].0, parts[*j].1)).collect::<Vec<_>>().join(","));
							r.states += 1;
							r.distinct += (i.is_some() || m.is_some()) as u64;
							judge(&frame(text.as_bytes(), HEADERS[0]), &[], r, "object");
						}
					}
				}
			}
		}
	}));
	// written and read again: every constructor
	let mut all = pool();
	for v in values() {
		for i in ids() {
			for m in ["m", "", "é"] {
				all.push(M::Req(i.clone(), m.into(), v.clone()));
			}
			all.push(M::Resp(i.clone(), Some(v.clone()), None));
			for c in [0, -32603, i32::MAX as i64, i32::MIN as i64] {
				for m in ["", "boom é\n"] {
					all.push(M::Resp(i.clone(), None, Some((c, m.into(), None))));
					all.push(M::Resp(i.clone(), None, Some((c, m.into(), Some(v.clone())))));
				}
			}
		}
		for m in ["m", "", "é"] {
			all.push(M::Note(m.into(), v.clone()));
		}
	}
	// long texts, deep and wide values
	let deep = (0..100).fold(json!(1), |v, i| if i % 2 == 0 { json!([v]) } else { json!({ "k": v }) });
	let wide: Map<String, Value> = (0..300).map(|i| (format!("k{i}"), json!(i))).collect();
	for v in [deep, Value::Object(wide), json!((0..70_000).collect::<Vec<u32>>()), json!("é\u{0}".repeat(30_000)), json!([255, 256, 65535, 65536, 2147483648u64, 4294967296u64, 9007199254740993u64, -2147483649i64])] {
		for i in [json!(255), json!(256), json!(65536), json!("x".repeat(300)), json!("1".repeat(40)), json!("-1"), json!("null")] {
			all.push(M::Req(i.clone(), "m".repeat(300), v.clone()));
			all.push(M::Resp(i.clone(), Some(v.clone()), None));
			all.push(M::Resp(i.clone(), None, Some((-32000, "é".repeat(300), Some(v.clone())))));
		}
		all.push(M::Note("$/x".repeat(100), v.clone()));
	}
	r.bounds.push(format!("writing: {} messages through every constructor", all.len()));
	r.merge(mck::par(&all, |m, r| {
		r.transitions += 2;
		r.traces += 1;
		let built = match mck::catch(|| real(m)) {
			Ok(b) => b,
			Err(p) => {
				r.violation("constructor-panics", format!("{m:?}"), p);
				return;
			}
		};
		if plain(&built) != *m {
			r.violation("constructor", format!("{m:?}"), format!("built {built:?}"))
		}
		let mut out = vec![];
		match mck::catch(|| built.clone().write(&mut out)) {
			Ok(Ok(())) => {}
			o => r.violation("write-fails", format!("{m:?}"), format!("{o:?}")),
		}
		match reference(&out) {
			(Ref::Msg(v), _) if v == object(m) => {}
			o => r.violation("written-object", format!("{m:?}"), format!("wrote {} ({o:?}), should be {}", show(&out), object(m))),
		}
		// no member twice: the text of a re-serialization is as long
		let body = &out[out.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(0) + 4..];
		if let Ok(v) = serde_json::from_slice::<Value>(body) {
			if v.to_string().len() != body.len() {
				r.violation("written-text", format!("{m:?}"), format!("wrote {}", show(body)))
			}
		}
		match mck::catch(|| Message::read(&mut &out[..])) {
			Ok(Ok(Some(g))) if norm(plain(&g)) == norm(m.clone()) => r.outcome("round trip"),
			o => r.violation("round-trip", format!("{m:?}"), format!("read back {o:?}")),
		}
	}));
	// ids: same exactly when type and value are the same
	let is = ids();
	for a in &is {
		for b in &is {
			r.transitions += 1;
			let (x, y) = (rid(a), rid(b));
			if (x == y) != (a == b) || (mck::hash64(&x) == mck::hash64(&y)) != (a == b) || (x.to_string() == y.to_string()) != (a == b) {
				r.violation("id-identity", format!("{a} {b}"), format!("{x:?} == {y:?}: {}", x == y))
			}
		}
	}
	for (c, n) in [
		(ErrorCode::ServerNotInitialized, -32002),
		(ErrorCode::InvalidRequest, -32600),
		(ErrorCode::InvalidParams, -32602),
		(ErrorCode::InternalError, -32603),
	] {
		if c as i32 != n {
			r.violation("error-code", format!("{n}"), format!("is {}", c as i32))
		}
	}
	r.evaluations = r.traces;
	r.sample(format!("{:?}", cases[cases.len() / 2]));
	r.sample(format!("{:?}", all[all.len() / 2]));
	r
}

fn main() {
	let a = mck::args();
	mck::quiet_panics();
	std::alloc::set_alloc_error_hook(|l| panic!("allocation of {} bytes", l.size()));
	let r = match a.property.as_str() {
		"C06" => framing(a.thorough),
		"C07" => malformed(a.thorough),
		"C08" => classification(a.thorough),
		p => panic!("unknown property {p}"),
	};
	mck::finish(&a, r);
}
