//! C33: the whole server between standard input and standard output.
use cancellation::CancellationTokenSource;
use mck::Report;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use vsched::Bound;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Doc {
	/// exists in the editor only
	X,
	/// a file of the folder
	D,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
	/// with the folder or without
	Init(bool),
	Initialized,
	Open(Doc),
	Change(Doc),
	Save(Doc),
	Close(Doc),
	Complete(Doc),
	Hover,
	Unknown,
	/// a notification nobody knows
	Note,
	Trace,
	Shutdown,
	Exit,
}
use Step::*;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Pace {
	/// everything is there from the start, in one piece
	Once,
	/// a message at a time, whenever the client gets to it
	Each,
	/// every request waits for its answer
	Lock,
	/// pieces of that many bytes
	Pieces(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ending {
	/// standard input stays open
	Open,
	Eof,
	/// the token is cancelled once that many messages were written; standard input stays open
	Cancel(usize),
}
#[derive(Clone, Debug)]
struct Session {
	steps: Vec<Step>,
	pace: Pace,
	ending: Ending,
}

#[derive(Debug)]
struct Res {
	ok: bool,
	output: Vec<u8>,
}

static FOLDER: OnceLock<String> = OnceLock::new();
const DISK: &str = "disk one";
fn uri(d: Doc) -> String {
	match d {
		Doc::X => "file:///nonexistent-verif/x.p4".into(),
		Doc::D => format!("{}/a.p4", FOLDER.get().unwrap()),
	}
}

/// What is sent; requests have their place as id.
fn message(i: usize, s: Step) -> Value {
	let td = |d| json!({"uri": uri(d)});
	let (method, params, request) = match s {
		Init(folder) => (
			"initialize",
			json!({
				"processId": null, "rootUri": null,
				"capabilities": {"workspace": {"didChangeWatchedFiles": {"dynamicRegistration": true}}, "window": {"workDoneProgress": true}},
				"workspaceFolders": if folder { json!([{"uri": FOLDER.get().unwrap(), "name": "w"}]) } else { Value::Null },
			}),
			true,
		),
		Initialized => ("initialized", json!({}), false),
		Open(d) => ("textDocument/didOpen", json!({"textDocument": {"uri": uri(d), "languageId": "p4", "version": 1, "text": "aa bb aa"}}), false),
		Change(d) => (
			"textDocument/didChange",
			json!({"textDocument": {"uri": uri(d), "version": 2}, "contentChanges": [{"text": format!("c{i} é")}]}),
			false,
		),
		Save(d) => ("textDocument/didSave", json!({"textDocument": td(d), "text": format!("s{i}")}), false),
		Close(d) => ("textDocument/didClose", json!({ "textDocument": td(d) }), false),
		Complete(d) => ("textDocument/completion", json!({"textDocument": td(d), "position": {"line": 0, "character": 0}}), true),
		Hover => ("textDocument/hover", json!({"textDocument": td(Doc::X), "position": {"line": i, "character": 7}}), true),
		Unknown => ("no/such", json!({}), true),
		Note => ("no/note", json!({}), false),
		Trace => ("$/setTrace", json!({"value": "verbose"}), false),
		Shutdown => ("shutdown", Value::Null, true),
		Exit => ("exit", Value::Null, false),
	};
	let mut m = json!({"jsonrpc": "2.0", "method": method, "params": params});
	if request {
		m["id"] = json!(i)
	}
	m
}
fn frame(m: &Value) -> Vec<u8> {
	let b = m.to_string();
	format!("Content-Length: {}\r\n\r\n{b}", b.len()).into_bytes()
}

#[derive(Debug, PartialEq, Clone)]
enum Answer {
	Error(Option<i64>),
	Capabilities,
	Null,
	Place(usize),
	Labels(Vec<String>),
}
/// The answers that are due, by id, for the steps the server gets to.
fn due(steps: &[Step]) -> BTreeMap<i64, Answer> {
	#[derive(PartialEq, Clone, Copy)]
	enum Phase {
		New,
		Starting,
		Active,
		Down,
	}
	let mut phase = Phase::New;
	let mut open: [Option<Vec<String>>; 2] = [None, None];
	let mut out = BTreeMap::new();
	let words = |v: &[&str]| Some(v.iter().map(|s| s.to_string()).collect::<Vec<_>>());
	for (i, s) in steps.iter().cloned().enumerate() {
		let request = matches!(s, Init(_) | Complete(_) | Hover | Unknown | Shutdown);
		if s == Exit {
			break;
		}
		let answer = match (phase, s) {
			(Phase::New, Init(_)) => {
				phase = Phase::Starting;
				Answer::Capabilities
			}
			(Phase::New, _) | (Phase::Starting, _) if request => Answer::Error(Some(-32002)),
			(Phase::Starting, Initialized) => {
				phase = Phase::Active;
				Answer::Null
			}
			(Phase::Down, _) if request => Answer::Error(Some(-32600)),
			(Phase::Active, Shutdown) => {
				phase = Phase::Down;
				Answer::Null
			}
			(Phase::Active, Hover) => Answer::Place(i),
			(Phase::Active, Unknown) => Answer::Error(None),
			(Phase::Active, Init(_)) => Answer::Error(None),
			(Phase::Active, Complete(d)) => match (&open[d as usize], d) {
				(Some(w), _) => Answer::Labels(w.clone()),
				(None, Doc::D) => Answer::Labels(words(&["disk", "one"]).unwrap()),
				(None, Doc::X) => Answer::Error(None),
			},
			(Phase::Active, Open(d)) => {
				open[d as usize] = words(&["aa", "bb"]);
				Answer::Null
			}
			(Phase::Active, Change(d)) => {
				open[d as usize] = words(&[&format!("c{i}")]);
				Answer::Null
			}
			(Phase::Active, Save(d)) => {
				open[d as usize] = words(&[&format!("s{i}")]);
				Answer::Null
			}
			(Phase::Active, Close(d)) => {
				open[d as usize] = None;
				Answer::Null
			}
			_ => Answer::Null,
		};
		if request {
			out.insert(i as i64, answer);
		}
	}
	out
}

/// The complete messages at the start of some output, and what is left.
fn frames(mut b: &[u8]) -> (Vec<Result<Value, String>>, usize) {
	let mut out = vec![];
	loop {
		let Some(h) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return (out, b.len()) };
		let head = String::from_utf8_lossy(&b[..h]).into_owned();
		let n = head.split("\r\n").find_map(|l| l.strip_prefix("Content-Length:")?.trim().parse::<usize>().ok());
		let Some(n) = n else {
			out.push(Err(format!("header {head:?}")));
			return (out, b.len());
		};
		if b.len() < h + 4 + n {
			return (out, b.len());
		}
		let body = &b[h + 4..h + 4 + n];
		out.push(serde_json::from_slice(body).map_err(|e| format!("{e}: {:?}", String::from_utf8_lossy(body))));
		b = &b[h + 4 + n..]
	}
}

fn program(s: Session) -> Res {
	let console: vstd::io::Shared = Default::default();
	let key = Arc::as_ptr(&console) as usize;
	let bytes: Vec<Vec<u8>> = s.steps.iter().enumerate().map(|(i, x)| frame(&message(i, *x))).collect();
	console.lock().unwrap().open = true;
	let give = {
		let console = console.clone();
		move |b: Vec<u8>, end: bool| {
			{
				let mut c = console.lock().unwrap();
				if !b.is_empty() {
					c.input.push(Some(b));
				}
				if end {
					c.open = false
				}
			}
			vsched::wake(key);
			vsched::changed();
		}
	};
	let eof = s.ending == Ending::Eof;
	let mut script: Vec<(Vec<u8>, Option<i64>)> = vec![];
	match s.pace {
		Pace::Once => give(bytes.concat(), eof),
		Pace::Pieces(n) => script.extend(bytes.concat().chunks(n).map(|b| (b.to_vec(), None))),
		_ => {
			for (i, b) in bytes.into_iter().enumerate() {
				let wait = s.pace == Pace::Lock && matches!(s.steps[i], Init(_) | Complete(_) | Hover | Unknown | Shutdown);
				script.push((b, wait.then_some(i as i64)))
			}
		}
	}
	vstd::io::install(console.clone());
	let token = Arc::new(CancellationTokenSource::new());
	let traced = s.steps.contains(&Trace);
	let server = {
		let (token, console) = (token.token().clone(), console.clone());
		vsched::spawn(move || {
			vsched::name("server");
			let ok = vsched::block_on(p4_analyzer::verif_server(token, move |sub| {
				if traced {
					let g = analyzer_abstractions::tracing::subscriber::set_default(sub);
					vsched::on_end(Box::new(move || drop(g)))
				}
			}));
			// the process ends here: nothing is written after it
			Res { ok, output: console.lock().unwrap().output.clone() }
		})
	};
	let closed = Arc::new(AtomicBool::new(s.pace == Pace::Once && eof));
	{
		let (console, closed) = (console.clone(), closed.clone());
		vsched::spawn(move || {
			vsched::name("client");
			vsched::daemon();
			let mut seen = 0;
			let mut answered = vec![];
			let mut look = || {
				let out = console.lock().unwrap().output[seen..].to_vec();
				let (new, left) = frames(&out);
				seen += out.len() - left;
				let mut any = false;
				for m in new.into_iter().flatten() {
					any = true;
					match (m.get("method").is_some(), m["id"].as_i64()) {
						(true, _) if m.get("id").is_some() => {
							if !closed.load(Ordering::SeqCst) {
								give(frame(&json!({"jsonrpc": "2.0", "id": m["id"], "result": null})), false)
							}
						}
						(false, Some(i)) => answered.push(i),
						_ => {}
					}
				}
				(any, answered.clone())
			};
			let n = script.len();
			for (k, (b, wait)) in script.into_iter().enumerate() {
				vsched::point();
				look();
				give(b, eof && k + 1 == n);
				if eof && k + 1 == n {
					closed.store(true, Ordering::SeqCst)
				}
				if let Some(id) = wait {
					while !look().1.contains(&id) {
						vsched::poll_again("answer")
					}
				}
			}
			loop {
				if !look().0 {
					vsched::poll_again("client")
				}
			}
		});
	}
	if let Ending::Cancel(k) = s.ending {
		let console = console.clone();
		vsched::spawn(move || {
			vsched::name("cancel");
			vsched::point();
			while frames(&console.lock().unwrap().output).0.len() < k {
				vsched::poll_again("cancel")
			}
			token.cancel()
		});
	}
	match server.join() {
		Ok(r) => r,
		Err(_) => Res { ok: false, output: vec![] },
	}
}

fn matches_answer(m: &Value, a: &Answer) -> bool {
	let error = m.get("error").filter(|e| !e.is_null());
	let result = &m["result"];
	match a {
		Answer::Error(code) => error.map_or(false, |e| code.map_or(true, |c| e["code"] == c)) && result.is_null(),
		_ if error.is_some() => false,
		Answer::Capabilities => result["capabilities"].is_object(),
		Answer::Null => result.is_null(),
		Answer::Place(i) => result.to_string().contains(&format!("Ln *{i}*, Col *7*")),
		Answer::Labels(l) => {
			let items = if result.is_array() { result } else { &result["items"] };
			let mut v: Vec<&str> = items.as_array().map(|v| v.iter().map(|i| i["label"].as_str().unwrap_or("?")).collect()).unwrap_or_default();
			v.sort();
			items.is_array() && v == l.iter().map(|x| x.as_str()).collect::<Vec<_>>()
		}
	}
}

fn judge(s: &Session, o: &vsched::Outcome<Res>) -> Vec<(String, String)> {
	let mut bad = vec![];
	let Some(r) = &o.value else { return bad };
	let cancel = matches!(s.ending, Ending::Cancel(_));
	let (msgs, left) = frames(&r.output);
	if left > 0 {
		bad.push(("torn-output".into(), format!("the process ended after writing a part of a message: {:?}", String::from_utf8_lossy(&r.output))));
	}
	let want = due(&s.steps);
	let mut got: BTreeMap<i64, usize> = BTreeMap::new();
	for m in &msgs {
		let m = match m {
			Ok(m) => m,
			Err(e) => {
				bad.push(("bad-output".into(), e.clone()));
				continue;
			}
		};
		if m["jsonrpc"] != "2.0" {
			bad.push(("bad-output".into(), format!("no JSON-RPC message: {m}")));
		}
		match (m["method"].as_str(), m.get("id")) {
			(Some("$/logTrace"), None) if s.steps.contains(&Trace) => {}
			(Some("$/progress"), None) | (Some("client/registerCapability" | "window/workDoneProgress/create"), Some(_)) if s.steps.contains(&Init(true)) => {}
			(Some(x), _) => bad.push(("unexpected-message".into(), format!("{x}: {m}"))),
			(None, id) => match id.and_then(|i| i.as_i64()).and_then(|i| want.get(&i).map(|w| (i, w))) {
				None => bad.push(("unexpected-response".into(), format!("no request has this id: {m}"))),
				Some((i, w)) => {
					*got.entry(i).or_default() += 1;
					if got[&i] > 1 {
						bad.push(("second-response".into(), format!("request {i} was answered before: {m}")))
					} else if !matches_answer(m, w) {
						bad.push(("wrong-answer".into(), format!("{w:?} was due for {}: {m}", message(i as usize, s.steps[i as usize])["method"])))
					}
				}
			},
		}
	}
	if !cancel {
		for (i, w) in &want {
			if !got.contains_key(i) {
				bad.push(("no-answer".into(), format!("{} has no answer ({w:?}) when the process ends; written: {}", message(*i as usize, s.steps[*i as usize])["method"], String::from_utf8_lossy(&r.output))))
			}
		}
		if !r.ok {
			bad.push(("result".into(), "never cancelled, but the command reports cancellation".into()))
		}
	} else if r.ok && !s.steps.contains(&Exit) {
		bad.push(("result".into(), "cancelled, but the command reports success".into()))
	}
	bad
}

/// Sequences an editor may send while the server is active.
fn sensible(v: &[Step]) -> bool {
	let mut open = [false; 2];
	v.iter().all(|s| match s {
		Open(d) => !std::mem::replace(&mut open[*d as usize], true),
		Change(d) | Save(d) => open[*d as usize],
		Close(d) => std::mem::replace(&mut open[*d as usize], false),
		_ => true,
	})
}

pub fn check(a: &mck::Args) -> Report {
	let top = crate::Scratch::new();
	std::fs::create_dir_all(top.0.join("w/sub")).unwrap();
	std::fs::write(top.0.join("w/a.p4"), DISK).unwrap();
	std::fs::write(top.0.join("w/sub/b.p4"), "bee").unwrap();
	std::fs::write(top.0.join("w/readme.txt"), "not p4").unwrap();
	FOLDER.set(format!("file://{}/w", top.0.display())).unwrap();
	let alphabet =
		[Open(Doc::X), Open(Doc::D), Change(Doc::X), Change(Doc::D), Save(Doc::X), Close(Doc::X), Close(Doc::D), Complete(Doc::X), Complete(Doc::D), Hover, Unknown, Note, Trace];
	let ends: Vec<(Vec<Step>, Ending)> = vec![
		(vec![Shutdown, Exit], Ending::Open),
		(vec![Exit], Ending::Open),
		(vec![], Ending::Eof),
		(vec![Shutdown, Exit], Ending::Eof),
		(vec![Shutdown, Hover, Unknown, Exit, Hover], Ending::Open),
		(vec![], Ending::Cancel(0)),
		(vec![], Ending::Cancel(1)),
		(vec![Shutdown, Exit], Ending::Cancel(2)),
	];
	let mut scs = vec![];
	let mut add = |body: &[Step], folder: bool, (end, ending): &(Vec<Step>, Ending), pace: Pace, delays: usize| {
		let steps = [&[Init(folder), Initialized], body, end].concat();
		scs.push((Session { steps, pace, ending: *ending }, Bound::Delays(delays)))
	};
	for body in mck::strings(&alphabet, if a.thorough { 3 } else { 2 }) {
		if !sensible(&body) {
			continue;
		}
		for folder in [false, true] {
			for (k, e) in ends.iter().enumerate() {
				for pace in [Pace::Once, Pace::Each, Pace::Lock] {
					let delays = match (a.thorough, body.len()) {
						(true, 0) => 2,
						(_, 0 | 1) => 1,
						(true, 2) => 1,
						(false, 2) if k < 3 || k == 6 => 0,
						(true, 3) if k < 3 && !folder => 0,
						_ => continue,
					};
					add(&body, folder, e, pace, delays)
				}
			}
		}
	}
	// messages cut at any place, and sessions of some length
	let long: Vec<Step> = [Open(Doc::X), Complete(Doc::X), Change(Doc::X), Complete(Doc::D), Open(Doc::D), Complete(Doc::D), Save(Doc::X), Hover, Close(Doc::D), Complete(Doc::X), Unknown, Note]
		.repeat(4);
	for folder in [false, true] {
		for e in &ends {
			for n in [1, 7, 64] {
				add(&[Open(Doc::X), Complete(Doc::X)], folder, e, Pace::Pieces(n), (n == 64) as usize);
			}
			for pace in [Pace::Once, Pace::Each, Pace::Lock, Pace::Pieces(100)] {
				add(&long, folder, e, pace, 0)
			}
		}
	}
	vsched::explore::explore_fresh(a, &scs, |s| 4000 + 1000 * s.steps.len(), program, judge)
}
