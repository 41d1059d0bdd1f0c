//! C11 (lifecycle) and C12 (one answer per request): all message sequences up to a length from every phase.
use crate::world::*;
use mck::{Args, Report};

const A: &str = "file:///ws/a.p4";
const MISSING: &str = "file:///ws/missing.p4";
const FOLDERS: [&str; 1] = ["file:///ws"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd)]
enum Phase {
	Uninitialized,
	Initializing,
	Active,
	ShuttingDown,
	Stopped,
}
use Phase::*;

/// What a request must be answered with.
#[derive(Clone, Debug, PartialEq)]
enum Expect {
	Nothing,
	Result,
	Labels(Vec<&'static str>),
	Hover(u32, u32),
	Error(&'static [i64]),
	Capabilities,
}
use Expect::*;

type Make = fn() -> (&'static str, Value);
/// name, is it a request, message
struct Msg(&'static str, bool, Make);

const MSGS: &[Msg] = &[
	Msg("initialize", true, || ("initialize", initialize(None, false, false))),
	Msg("initialize-folders", true, || ("initialize", initialize(Some(&FOLDERS), true, false))),
	Msg("initialize-refused", true, || ("initialize", initialize(Some(&FOLDERS), false, false))),
	Msg("initialize-invalid", true, || ("initialize", json!({"capabilities": 5}))),
	Msg("initialized", false, || ("initialized", json!({}))),
	Msg("hover", true, || ("textDocument/hover", at(A, 3, 4))),
	Msg("completion", true, || ("textDocument/completion", at(A, 0, 0))),
	Msg("unknown", true, || ("verif/unknown", json!({"x": 1}))),
	Msg("shutdown", true, || ("shutdown", Value::Null)),
	Msg("exit", false, || ("exit", Value::Null)),
	Msg("open", false, || ("textDocument/didOpen", did_open(A, "edited"))),
	Msg("unknown-note", false, || ("verif/unknown", json!({"x": 1}))),
	Msg("initialized-invalid", false, || ("initialized", json!(5))),
	Msg("hover-invalid", true, || ("textDocument/hover", json!({"textDocument": {"uri": A}}))),
	// names of one kind used for the other
	Msg("exit-request", true, || ("exit", Value::Null)),
	Msg("initialized-request", true, || ("initialized", json!({}))),
	Msg("shutdown-note", false, || ("shutdown", Value::Null)),
	Msg("initialize-note", false, || ("initialize", initialize(None, true, false))),
	// from here on: for C12 only
	Msg("open-request", true, || ("textDocument/didOpen", did_open(A, "asked"))),
	Msg("trace-request", true, || ("$/setTrace", json!({"value": "off"}))),
	Msg("completion-note", false, || ("textDocument/completion", at(A, 0, 0))),
	Msg("completion-missing", true, || ("textDocument/completion", at(MISSING, 0, 0))),
	Msg("completion-outside", true, || ("textDocument/completion", at("untitled:x", 0, 0))),
	Msg("completion-invalid", true, || ("textDocument/completion", json!([1]))),
	Msg("hover-null", true, || ("textDocument/hover", Value::Null)),
	Msg("shutdown-invalid", true, || ("shutdown", json!({"x": 1}))),
	Msg("$/unknown", true, || ("$/unknown", Value::Null)),
	Msg("change-unknown", false, || ("textDocument/didChange", did_change("file:///ws/new.p4", json!([{"text": "z"}])))),
	Msg("change", false, || ("textDocument/didChange", did_change(A, json!([{"text": "changed"}])))),
	Msg("change-invalid", false, || ("textDocument/didChange", json!({"contentChanges": 1}))),
	Msg("save", false, || ("textDocument/didSave", json!({"textDocument": {"uri": "file:///ws/saved.p4"}, "text": "$"}))),
	Msg("close", false, || ("textDocument/didClose", doc(A))),
	Msg("close-unknown", false, || ("textDocument/didClose", doc("file:///other/c.p4"))),
	Msg("open-outside", false, || ("textDocument/didOpen", did_open("untitled:x", "u"))),
	Msg("watch", false, || ("workspace/didChangeWatchedFiles", watch(A, 2))),
	Msg("watch-created-missing", false, || ("workspace/didChangeWatchedFiles", watch(MISSING, 1))),
	Msg("watch-deleted", false, || ("workspace/didChangeWatchedFiles", watch("file:///ws/gone.p4", 3))),
	Msg("watch-bad-type", false, || ("workspace/didChangeWatchedFiles", watch(A, 9))),
	Msg("trace", false, || ("$/setTrace", json!({"value": "verbose"}))),
	Msg("trace-invalid", false, || ("$/setTrace", json!({"value": "loud"}))),
	Msg("response-unknown", false, || ("", json!({"id": 999999, "result": null}))),
	Msg("response-error", false, || ("", json!({"id": "x", "error": {"code": 1, "message": "no"}}))),
];
const C11_MSGS: usize = 18;

fn disk(op: &Op) -> Answer {
	match op {
		Op::Enumerate(..) => Answer::Files(vec![A.into()]),
		Op::Contents(u) if u == A => Answer::Text(Some("disk".into())),
		Op::Contents(_) => Answer::Text(None),
	}
}

/// The reference server.
#[derive(Clone, Debug)]
struct Model {
	phase: Phase,
	open: Option<&'static str>,
	outside: bool,
}
impl Model {
	fn step(&mut self, m: &Msg) -> Expect {
		let (name, request, _) = (m.0, m.1, ());
		if self.phase == Stopped {
			return Nothing;
		}
		if name == "exit" {
			self.phase = Stopped;
			return Nothing;
		}
		match self.phase {
			Uninitialized => match name {
				"initialize" | "initialize-folders" => {
					self.phase = Initializing;
					Capabilities
				}
				"initialize-refused" => Error(&[-32603]),
				"initialize-invalid" => Error(&[-32602]),
				_ if request => Error(&[-32002]),
				_ => Nothing,
			},
			Initializing => match name {
				"initialized" => {
					self.phase = Active;
					Nothing
				}
				_ if request => Error(&[-32002]),
				_ => Nothing,
			},
			Active => match name {
				"shutdown" => {
					self.phase = ShuttingDown;
					Result
				}
				"hover" => Hover(3, 4),
				"hover-invalid" | "hover-null" | "completion-invalid" | "shutdown-invalid" => Error(&[-32602]),
				"completion" => Labels(vec![self.open.unwrap_or("disk")]),
				"completion-missing" => Error(&[-32603]),
				"completion-outside" if self.outside => Labels(vec!["u"]),
				"completion-outside" => Error(&[-32603]),
				"open" => {
					self.open = Some("edited");
					Nothing
				}
				"change" if self.open.is_some() => {
					self.open = Some("changed");
					Nothing
				}
				"close" => {
					self.open = None;
					Nothing
				}
				"open-outside" => {
					self.outside = true;
					Nothing
				}
				// a second initialize and methods the server does not know
				_ if request => Error(&[-32603, -32601, -32600]),
				_ => Nothing,
			},
			ShuttingDown if request => Error(&[-32600]),
			ShuttingDown => Nothing,
			Stopped => unreachable!(),
		}
	}
}

fn judge(e: &Expect, r: &Value) -> std::result::Result<(), String> {
	let err = r.get("error").filter(|e| !e.is_null());
	if err.is_some() == r.get("result").is_some() {
		return Err(format!("not exactly one of result and error: {r}"));
	}
	match (e, err) {
		(Error(codes), Some(x)) if codes.iter().any(|c| x["code"] == *c) => Ok(()),
		(Error(codes), _) => Err(format!("an error {codes:?} was due, got {r}")),
		(_, Some(_)) => Err(format!("a result was due, got {r}")),
		(Result, _) => Ok(()),
		(Capabilities, _) if r["result"]["capabilities"].is_object() => Ok(()),
		(Hover(l, c), _) => {
			let t = r["result"]["contents"].to_string();
			let nums: Vec<u32> = t.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
			match nums == [*l, *c] {
				true => Ok(()),
				false => Err(format!("hover at {l},{c} says {t}")),
			}
		}
		(Labels(v), _) => match labels(r) {
			Ok(l) if l == *v => Ok(()),
			o => Err(format!("completion {o:?}, due {v:?}")),
		},
		_ => Err(format!("unexpected {r}")),
	}
}

fn message(m: &Msg, id: &Value) -> Value {
	let (method, params) = (m.2)();
	if method.is_empty() {
		return params;
	}
	let mut v = json!({"method": method});
	if !params.is_null() {
		v["params"] = params
	}
	if m.1 {
		v["id"] = id.clone()
	}
	v
}

/// Brings a new server into a phase; the model follows.
fn prefix(w: &mut World, phase: Phase, folders: bool) -> Model {
	let f = FOLDERS;
	if phase > Uninitialized {
		w.request("initialize", initialize(if folders { Some(&f) } else { None }, true, false));
	}
	if phase > Initializing {
		w.notify("initialized", json!({}));
	}
	if phase > Active {
		w.request("shutdown", Value::Null);
	}
	w.settle(&disk);
	w.sent.push(format!("[{phase:?}{}]", if folders { ", folders" } else { "" }));
	Model { phase, open: None, outside: false }
}
const PREFIXES: [(Phase, bool); 7] = [
	(Uninitialized, false),
	(Initializing, false),
	(Initializing, true),
	(Active, false),
	(Active, true),
	(ShuttingDown, false),
	(ShuttingDown, true),
];

fn responses(new: &[Value]) -> Vec<Value> { new.iter().filter(|m| m.get("method").is_none()).cloned().collect() }

/// n messages of a kind or in turn, one at a time or all at once, in every phase.
fn many_messages(n: usize, v: usize) -> Option<(String, String)> {
	let patterns: [(Phase, &[&str]); 5] = [
		(Uninitialized, &["hover", "initialize-invalid", "unknown-note", "initialize-refused"]),
		(Initializing, &["completion", "initialize", "open"]),
		(Active, &["hover", "completion", "unknown"]),
		(Active, &["completion", "open", "completion-invalid", "change", "completion", "initialize", "close", "unknown-note", "completion-missing", "save", "response-unknown", "trace"]),
		(ShuttingDown, &["hover", "shutdown", "initialized", "completion"]),
	];
	let (phase, names) = patterns[v % 5];
	let mut w = World::new(Files::Mock);
	let mut m = prefix(&mut w, phase, phase == Active);
	let mut due = vec![];
	let mut got = vec![];
	for k in 0..n {
		let msg = MSGS.iter().find(|x| x.0 == names[k % names.len()]).unwrap();
		let id = if k % 3 == 0 { json!(format!("id {k}")) } else { json!(5000 + k) };
		let e = m.step(msg);
		if e != Nothing {
			due.push((id.clone(), e, msg.0))
		}
		w.send(message(msg, &id));
		if v / 5 % 2 == 0 {
			got.extend(w.settle(&disk))
		}
	}
	got.extend(w.settle(&disk));
	let rs = responses(&got);
	if let Some(b) = &w.host.broken {
		return Some((broken_sig(b), b.clone()));
	}
	for (k, d) in due.iter().enumerate() {
		let Some(x) = rs.get(k) else { return Some(("no-answer".into(), format!("{} answers to {} requests", rs.len(), due.len()))) };
		if x["id"] != d.0 {
			return Some(("order".into(), format!("answer {k} is {x}, due that to {:?}", d.0)));
		}
		if let Err(e) = judge(&d.1, x) {
			return Some((format!("{phase:?}:{}", d.2), format!("message {k}: {e}")));
		}
	}
	if rs.len() > due.len() {
		return Some(("answer-to-nothing".into(), rs[due.len()].to_string()));
	}
	// and it goes on as usual
	for name in ["initialize", "initialized", "hover", "shutdown", "hover", "exit"] {
		let msg = MSGS.iter().find(|x| x.0 == name).unwrap();
		let e = m.step(msg);
		w.send(message(msg, &json!(name)));
		let rs = responses(&w.settle(&disk));
		match (&e, rs.len()) {
			(Nothing, 0) => {}
			(e, 1) => {
				if let Err(d) = judge(e, &rs[0]) {
					return Some((format!("after:{name}"), d));
				}
			}
			(_, k) => return Some((format!("after:{name}"), format!("{k} answers"))),
		}
	}
	match w.host.done {
		Some(_) => None,
		None => Some(("never-ends".into(), "after exit".into())),
	}
}

pub fn c11(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("messages", crate::scale::MANY, 10, many_messages)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c11_small(a);
	r.merge(large);
	r
}
fn c11_small(a: &Args) -> Report {
	let depth = if a.thorough { 5 } else { 4 };
	let n = C11_MSGS;
	let mut r = explore(a, 0, |c, r| {
		let (phase, folders) = *c.pick(&PREFIXES);
		let mut w = World::new(Files::Mock);
		let mut m = prefix(&mut w, phase, folders);
		let len = 1 + c.choose(depth);
		let mut bad: Option<(String, String)> = None;
		let mut after_stop = 0;
		for k in 0..len {
			let msg = &MSGS[c.choose(n)];
			let before = m.phase;
			let e = m.step(msg);
			let sent = w.send(message(msg, &json!(1000 + k)));
			let new = w.settle(&disk);
			r.transitions += 1;
			let rs = responses(&new);
			if before == Stopped {
				after_stop += 1;
				if !rs.is_empty() || sent {
					bad = Some(("answers-after-exit".into(), format!("{rs:?} sent={sent}")))
				}
			} else {
				let o = match (&e, rs.len()) {
					(Nothing, 0) => Ok(()),
					(Nothing, _) => Err(format!("{} must not be answered, got {rs:?}", msg.0)),
					(e, 1) => judge(e, &rs[0]),
					(_, k) => Err(format!("{k} answers to {}", msg.0)),
				};
				if let Err(d) = o {
					bad = bad.or(Some((format!("{before:?}:{}", msg.0), d)))
				}
			}
			if let Some(b) = &w.host.broken {
				bad = Some((broken_sig(b), b.clone()))
			}
			if bad.is_none() && (m.phase == Stopped) != w.host.done.is_some() {
				bad = Some((format!("{before:?}:{}:end", msg.0), format!("the model is {:?}, the server ended: {:?}", m.phase, w.host.done)))
			}
			if bad.is_some() || after_stop > 1 {
				break;
			}
		}
		// what phase is it in, by its answers
		if bad.is_none() && m.phase != Stopped {
			for name in ["unknown", "hover", "completion", "initialize"] {
				let msg = MSGS.iter().find(|x| x.0 == name).unwrap();
				let before = m.phase;
				let e = m.step(msg);
				w.send(message(msg, &json!(name)));
				let rs = responses(&w.settle(&disk));
				let o = if rs.len() == 1 { judge(&e, &rs[0]) } else { Err(format!("{} answers", rs.len())) };
				if let Err(d) = o {
					bad = Some((format!("{before:?}:{name}"), d));
					break;
				}
			}
			if let Some(b) = &w.host.broken {
				bad = Some((broken_sig(b), b.clone()))
			}
		}
		r.states += 1;
		r.distinct += 1;
		r.outcome(&format!("{phase:?}->{:?}", m.phase));
		if let Some((sig, d)) = bad {
			r.violation(&sig, format!("{} choices={:?}", w.history(), c.choices()), d)
		} else if r.traces % 9973 == 0 {
			r.sample(w.history())
		}
	});
	r.bounds.push(format!("7 starting points (every phase, with and without folders) x all sequences of up to {depth} of {n} messages, then four probes"));
	r
}

pub fn c12(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("messages", &[20, 70, 130, 260, 300, 1030], 10, many_messages)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c12_small(a);
	r.merge(large);
	r
}
fn c12_small(a: &Args) -> Report {
	let depth = if a.thorough { 4 } else { 3 };
	let n = MSGS.len();
	let mut r = explore(a, 0, |c, r| {
		let (phase, folders) = *c.pick(&PREFIXES);
		let mode = c.choose(3); // 0: one at a time, 1: all at once, 2: one at a time with a slow file system
		let mut w = World::new(Files::Mock);
		let mut m = prefix(&mut w, phase, folders);
		let len = 1 + c.choose(depth);
		let mut due: Vec<(Value, Expect, &'static str, Phase)> = vec![];
		let mut got = vec![];
		let mut bad: Option<(String, String)> = None;
		for k in 0..len {
			let msg = &MSGS[c.choose(n)];
			if msg.0 == "change" && m.open.is_none() {
				continue; // no client changes a document it has not opened
			}
			let before = m.phase;
			let e = m.step(msg);
			let id = if k % 2 == 0 { json!(2000 + k) } else { json!(format!("r{k}")) };
			if e != Nothing {
				due.push((id.clone(), e, msg.0, before))
			}
			w.send(message(msg, &id));
			r.transitions += 1;
			match mode {
				0 => got.extend(w.settle(&disk)),
				2 => got.extend(w.run_replying(|_| json!({"result": null}))),
				_ => {}
			}
			if w.host.broken.is_some() || m.phase == Stopped {
				break;
			}
		}
		got.extend(w.settle(&disk));
		if let Some(b) = &w.host.broken {
			bad = Some((broken_sig(b), b.clone()))
		}
		let rs = responses(&got);
		if bad.is_none() {
			let ids: Vec<_> = rs.iter().map(|m| &m["id"]).collect();
			let want: Vec<_> = due.iter().map(|d| &d.0).collect();
			if ids != want {
				let sig = match due.iter().find(|d| ids.iter().filter(|i| **i == &d.0).count() != 1) {
					Some(d) => format!("{:?}:{}:{}-answers", d.3, d.2, ids.iter().filter(|i| **i == &d.0).count()),
					None if ids.len() > want.len() => "answer-to-nothing".into(),
					None => "order".into(),
				};
				bad = Some((sig, format!("answers came for {ids:?}, due {want:?}")))
			} else {
				for (d, x) in due.iter().zip(&rs) {
					if let Err(e) = judge(&d.1, x) {
						bad = Some((format!("{:?}:{}", d.3, d.2), e));
						break;
					}
				}
			}
		}
		r.states += 1;
		if !due.is_empty() {
			r.distinct += 1
		}
		r.outcome(&format!("{} requests, mode {mode}", due.len()));
		if let Some((sig, d)) = bad {
			r.violation(&sig, format!("mode {mode}: {} choices={:?}", w.history(), c.choices()), d)
		} else if r.traces % 9973 == 0 {
			r.sample(w.history())
		}
	});
	r.bounds.push(format!("7 starting points x all sequences of up to {depth} of {n} messages x delivered one at a time, all at once, or with a slow file system"));
	r
}
