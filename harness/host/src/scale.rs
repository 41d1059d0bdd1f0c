//! The same guarantees of C11 to C21 in sessions that are large in one way: many messages, files, folders, changes or
//! problems. Every size of a list is run under every arrangement.
use crate::world::*;
use analyzer_abstractions::lsp_types::{request::ShowDocument, ShowDocumentParams, TraceValue, Url};
use analyzer_host::json_rpc::message::Message;
use analyzer_host::verif::RequestManager;
use cancellation::CancellationTokenSource;
use mck::{Args, Report};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type Bad = Option<(String, String)>;
type Run = fn(usize, usize) -> Bad;

/// `sizes` x the arrangements 0..`kinds` of one scenario.
pub fn run(a: &Args, list: &[(&'static str, &[usize], usize, Run)]) -> Report {
	let mut items = vec![];
	for (k, (name, sizes, kinds, _)) in list.iter().enumerate() {
		for n in sizes.iter() {
			for v in 0..*kinds {
				items.push((k, format!("large: {name} {n}, arrangement {v}"), *n, v))
			}
		}
	}
	if let Some(c) = &a.replay {
		items.retain(|i| i.1 == *c)
	}
	items.sort_by_key(|i| std::cmp::Reverse(i.2));
	let mut r = mck::par(&items, |(k, name, n, v), r| {
		let f = list[*k].3;
		let res = std::thread::scope(|s| {
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(s, move || {
					reseed(*v as u64);
					mck::catch(|| f(*n, *v))
				})
				.unwrap()
				.join()
				.expect("harness")
		});
		r.traces += 1;
		r.states += *n as u64;
		r.transitions += *n as u64;
		r.distinct += 1;
		r.outcome(list[*k].0);
		let short = |s: String| if s.len() > 600 { s.chars().take(600).collect() } else { s };
		match res {
			Ok(None) => {}
			Ok(Some((s, d))) => r.violation(&format!("large:{s}"), name.clone(), short(d)),
			Err(p) => r.violation(&broken_sig(&format!("panic: {p}")), name.clone(), p),
		}
	});
	if a.replay.is_none() {
		for (name, sizes, kinds, _) in list {
			r.bounds.push(format!("large sessions: {name}, {sizes:?} of them in {kinds} arrangements"))
		}
	}
	r
}
pub fn is_large(a: &Args) -> bool { a.replay.as_deref().map_or(false, |c| c.starts_with("large: ")) }

pub const MANY: &[usize] = &[20, 70, 130, 260, 300];

fn bad<T>(s: &str, d: impl Into<String>) -> Option<(String, T)>
where
	String: Into<T>,
{
	Some((s.to_string(), d.into().into()))
}
fn broken(w: &World) -> Bad { w.host.broken.as_ref().map(|b| (broken_sig(b), b.clone())) }
/// 0..n forwards, backwards, or in strides.
fn order(n: usize, v: usize) -> Vec<usize> {
	match v % 4 {
		0 => (0..n).collect(),
		1 => (0..n).rev().collect(),
		2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
		_ => (0..7).flat_map(|s| (s..n).step_by(7)).collect(),
	}
}
fn uri(i: usize) -> String { format!("file:///ws/f{i}.p4") }
fn number(u: &str) -> Option<usize> { u.strip_prefix("file:///ws/f")?.strip_suffix(".p4")?.parse().ok() }

// ---------------------------------------------------------------- C14, C15

/// n files found by indexing; their loads are answered in some order, with watch events and edits in between.
pub fn files(n: usize, v: usize) -> Bad {
	let mut disk: BTreeMap<usize, String> = (0..n).map(|i| (i, format!("disk{i}"))).collect();
	let mut open: BTreeMap<usize, String> = BTreeMap::new();
	let chain = v / 4 % 2 == 1;
	if chain {
		for i in 0..n - 1 {
			disk.insert(i, format!("disk{i}\n#include \"f{}.p4\"\n", i + 1));
		}
	}
	let mut w = World::new(Files::Mock);
	let listing = |op: &Op| match op {
		Op::Enumerate(..) => Answer::Files((0..n).map(uri).collect()),
		_ => Answer::Text(None),
	};
	w.start(Some(&["file:///ws"]), &listing);
	let answer = |w: &mut World, disk: &BTreeMap<usize, String>, id: u64, op: &Op| {
		let t = match op {
			Op::Contents(u) => Answer::Text(number(u).and_then(|i| disk.get(&i).cloned())),
			Op::Enumerate(..) => listing(op),
		};
		w.fs.answer(id, t)
	};
	// while all of them are being loaded: some are opened, some change on disk
	if v / 8 % 2 == 1 {
		for i in (0..n).step_by(3) {
			let t = format!("open{i}");
			w.notify("textDocument/didOpen", did_open(&uri(i), &t));
			open.insert(i, t);
		}
		let mut changes = vec![];
		for i in (1..n).step_by(3) {
			disk.insert(i, format!("again{i}"));
			changes.push(json!({"uri": uri(i), "type": 2}));
		}
		w.notify("workspace/didChangeWatchedFiles", json!({ "changes": changes }));
		for i in (2..n).step_by(6) {
			disk.remove(&i);
			w.notify("workspace/didChangeWatchedFiles", watch(&uri(i), 3));
		}
		w.run_replying(|_| json!({"result": null}));
	}
	// every third answer lets the server run
	let pending = w.fs.pending();
	let which = order(pending.len(), v);
	for (k, i) in which.into_iter().enumerate() {
		let (id, op) = &pending[i];
		if w.fs.pending().iter().any(|p| p.0 == *id) {
			answer(&mut w, &disk, *id, op);
		}
		if k % 3 == 0 {
			w.run_replying(|_| json!({"result": null}));
		}
	}
	let d = disk.clone();
	let settle = |w: &mut World| {
		w.settle(&|op: &Op| match op {
			Op::Contents(u) => Answer::Text(number(u).and_then(|i| d.get(&i).cloned())),
			_ => listing(op),
		});
	};
	settle(&mut w);
	// the first round may start loads
	let mut ids = vec![];
	for _ in 0..2 {
		ids = order(n, v + 1).into_iter().map(|i| (i, w.request("textDocument/completion", at(&uri(i), 0, 0)))).collect::<Vec<_>>();
		settle(&mut w);
	}
	if let Some(b) = broken(&w) {
		return Some(b);
	}
	let text = |i: usize| open.get(&i).or_else(|| disk.get(&i));
	for (i, id) in ids {
		let mut want = vec![];
		let mut at = Some(i);
		while let Some(t) = at.and_then(text) {
			want.push(t.lines().next().unwrap().to_string());
			at = t.contains("#include").then(|| at.unwrap() + 1);
		}
		match w.response(id).map(labels) {
			Some(Ok(l)) if l == want || text(i).is_none() && l.is_empty() => {}
			Some(Err(_)) if text(i).is_none() => {}
			o => return bad("stale", format!("file {i}: {o:?}, due {want:?}")),
		}
	}
	None
}

/// One document, changed n times, asked about after each change or at the end, while its load is outstanding.
pub fn edits(n: usize, v: usize) -> Bad {
	let mut w = World::new(Files::Mock);
	let disk = |op: &Op| match op {
		Op::Enumerate(..) => Answer::Files(vec![uri(0)]),
		_ => Answer::Text(Some("disk".into())),
	};
	w.start(Some(&["file:///ws"]), &disk);
	let mut text = String::from("first");
	w.notify("textDocument/didOpen", did_open(&uri(0), &text));
	let mut due = vec![];
	let mut changes = vec![];
	for k in 0..n {
		let change = match (v % 3, k % 5) {
			(0, _) | (_, 4) => {
				text = format!("full{k}");
				json!({ "text": text })
			}
			(1, _) => {
				text.insert_str(0, &format!("p{k} "));
				let z = json!({"line": 0, "character": 0});
				json!({"range": {"start": z, "end": z}, "text": format!("p{k} ")})
			}
			_ => {
				let lines = text.matches('\n').count();
				let last = text.rsplit('\n').next().unwrap().len();
				let z = json!({"line": lines, "character": last});
				text.push_str(&format!("\nl{k}"));
				json!({"range": {"start": z, "end": z}, "text": format!("\nl{k}")})
			}
		};
		if v / 3 % 2 == 1 {
			// all changes in one notification
			changes.push(change);
			continue;
		}
		w.notify("textDocument/didChange", did_change(&uri(0), json!([change])));
		due.push((w.request("textDocument/completion", at(&uri(0), 0, 0)), text.clone()));
		if v / 6 % 2 == 0 {
			w.run_replying(|_| json!({"result": null}));
		}
	}
	if !changes.is_empty() {
		w.notify("textDocument/didChange", did_change(&uri(0), Value::Array(changes)));
	}
	w.settle(&disk);
	due.push((w.request("textDocument/completion", at(&uri(0), 0, 0)), text));
	w.settle(&disk);
	if let Some(b) = broken(&w) {
		return Some(b);
	}
	for (k, (id, t)) in due.iter().enumerate() {
		let want: Vec<String> = t.split_whitespace().map(|s| s.to_string()).collect();
		match w.response(*id).map(labels) {
			Some(Ok(l)) if l == want => {}
			o => return bad("edited", format!("after change {k}: {o:?}, due {want:?}")),
		}
	}
	None
}

// ---------------------------------------------------------------- C13

/// n requests of the server outstanding at once, answered in some order; or n one after another with an old one open.
pub fn outstanding(n: usize, v: usize) -> Bad {
	let out = async_channel::unbounded::<Message>();
	let responses = async_channel::unbounded::<Message>();
	let cts = CancellationTokenSource::new();
	let token = cts.token().clone();
	let root = Rc::new(RequestManager::new((out.0.clone(), responses.1.clone())));
	let main = root.clone();
	let mut server = Driven::new(async move { main.start(token).await.is_ok() });
	server.run();
	let mut seen = BTreeSet::new();
	let mut ask = || {
		let m = Rc::new((*root).clone());
		let p = ShowDocumentParams { uri: Url::parse("file:///x").unwrap(), external: None, take_focus: None, selection: None };
		let mut d = Driven::new(async move { m.send_and_receive::<ShowDocument>(p).await.map(|v| v.success).ok() });
		d.run();
		let id = out.1.try_recv().ok().map(|m| serde_json::to_value(&m).unwrap()["id"].clone());
		(d, id)
	};
	let reply = |id: &Value, x: bool| responses.0.try_send(serde_json::from_value(json!({"id": id, "result": {"success": x}})).unwrap()).unwrap();
	if v >= 8 {
		// one stays open while n others come and go
		let (mut old, old_id) = ask();
		let Some(old_id) = old_id else { return bad("not-sent", "the first") };
		for k in 0..n {
			let (mut d, id) = ask();
			let Some(id) = id else { return bad("not-sent", format!("request {k}")) };
			if id == old_id || !seen.insert(id.to_string()) {
				return bad("duplicate-id", format!("request {k} has id {id}"));
			}
			reply(&id, k % 2 == 0);
			server.run();
			d.run();
			old.run();
			if d.done != Some(Some(k % 2 == 0)) || old.done.is_some() {
				return bad("wrong-outcome", format!("request {k}: {:?} {:?}, the old one {:?}", d.done, d.broken, old.done));
			}
		}
		reply(&old_id, true);
		server.run();
		old.run();
		return if old.done == Some(Some(true)) { None } else { bad("wrong-outcome", format!("the old one: {:?}", old.done)) };
	}
	let mut all = vec![];
	for k in 0..n {
		let (d, id) = ask();
		let Some(id) = id else { return bad("not-sent", format!("request {k}")) };
		if !seen.insert(id.to_string()) {
			return bad("duplicate-id", format!("request {k} has id {id}"));
		}
		all.push((d, id));
	}
	for i in order(n, v) {
		reply(&all[i].1, i % 3 == 0);
		if v / 4 % 2 == 0 {
			server.run();
			all[i].0.run();
			if all[i].0.done != Some(Some(i % 3 == 0)) {
				return bad("wrong-outcome", format!("request {i} of {n}: {:?}", all[i].0.done));
			}
		}
	}
	server.run();
	for (i, (d, _)) in all.iter_mut().enumerate() {
		d.run();
		if d.done != Some(Some(i % 3 == 0)) {
			return bad("wrong-outcome", format!("request {i} of {n}: {:?} {:?}", d.done, d.broken));
		}
	}
	None
}

/// n files loaded through the client at once.
pub fn client_files(n: usize, v: usize) -> Bad {
	let mut w = World::new(Files::Client);
	w.request("initialize", initialize(Some(&["file:///ws"]), true, false));
	w.run();
	w.notify("initialized", json!({}));
	w.run();
	let mut ids: BTreeSet<String> = BTreeSet::new();
	let mut waiting: Vec<Value> = vec![];
	let mut refill = |w: &mut World, waiting: &mut Vec<Value>| -> Bad {
		for q in w.asked.drain(..) {
			if !ids.insert(q["id"].to_string()) {
				return bad("duplicate-id", q.to_string());
			}
			waiting.push(q)
		}
		None
	};
	let mut rounds = 0;
	loop {
		if let Some(b) = refill(&mut w, &mut waiting) {
			return Some(b);
		}
		if waiting.is_empty() || rounds > 5 * n + 50 {
			break;
		}
		rounds += 1;
		let k = match v % 4 {
			0 => 0,
			1 => waiting.len() - 1,
			2 => waiting.len() / 2,
			_ => (rounds * 7) % waiting.len(),
		};
		let q = waiting.remove(k);
		let u = q["params"]["uri"].as_str().unwrap_or("").to_string();
		let mut m = match q["method"].as_str().unwrap_or("") {
			"p4analyzer/enumerateFolder" => json!({"result": (0..n).map(|i| json!({"uri": uri(i)})).collect::<Vec<_>>()}),
			"p4analyzer/fileContents" => match number(&u) {
				Some(i) if i % 10 != 9 => json!({"result": format!("text{i}")}),
				_ => json!({"error": {"code": 1, "message": "no"}}),
			},
			_ => json!({"result": null}),
		};
		m["id"] = q["id"].clone();
		w.send(m);
		if v / 4 % 2 == 0 || waiting.is_empty() {
			w.run();
		}
	}
	for i in order(n, v) {
		let id = w.request("textDocument/completion", at(&uri(i), 0, 0));
		w.run();
		let got = w.response(id).map(labels);
		let ok = match &got {
			Some(Ok(l)) => i % 10 != 9 && *l == [format!("text{i}")],
			Some(Err(_)) => i % 10 == 9,
			None => false,
		};
		if !ok {
			return bad("wrong-file", format!("file {i}: {got:?}"));
		}
	}
	broken(&w)
}

// ---------------------------------------------------------------- C17

/// n requests and loads outstanding when the end comes.
pub fn ending(n: usize, v: usize) -> Bad {
	let mut w = World::new(if v / 4 % 2 == 0 { Files::Mock } else { Files::Client });
	let disk = |op: &Op| match op {
		Op::Enumerate(..) => Answer::Files((0..n).map(uri).collect()),
		_ => Answer::Text(Some("x".into())),
	};
	w.request("initialize", initialize(Some(&["file:///ws"]), true, false));
	w.run();
	w.notify("initialized", json!({}));
	w.run();
	for _ in 0..8 {
		if let Some(i) = w.asked.iter().position(|q| q["method"] != "p4analyzer/fileContents") {
			let q = w.asked.remove(i);
			let list = q["method"] == "p4analyzer/enumerateFolder";
			w.send(json!({"id": q["id"], "result": if list { (0..n).map(|i| json!({"uri": uri(i)})).collect() } else { Value::Null }}));
		}
		if let Some((id, op)) = w.fs.pending().into_iter().find(|(_, o)| matches!(o, Op::Enumerate(..))) {
			w.fs.answer(id, disk(&op))
		}
		w.run();
	}
	// with the loads outstanding, requests that can be answered at once and some that cannot
	let ids: Vec<i64> = (0..n).map(|i| w.request("textDocument/hover", at(&uri(i), i as u32, 0))).collect();
	if v / 8 % 2 == 1 {
		w.run();
		if let Some(i) = ids.iter().position(|i| w.response(*i).is_none()) {
			return bad("no-answer", format!("hover {i} of {n}, nothing has ended"));
		}
	}
	if !w.alive() {
		return broken(&w).or(bad("ended-early", "no cause yet"));
	}
	match v % 4 {
		0 => drop(w.notify("exit", Value::Null)),
		1 => drop(w.tx.close()),
		2 => {
			w.cts.cancel();
			w.to_server.close();
			w.from_server.close();
		}
		_ => {
			w.from_server.close();
			w.run();
			w.tx.close();
		}
	}
	w.run();
	for _ in 0..3 * n + 50 {
		if !w.alive() {
			break;
		}
		if let Some((id, op)) = w.fs.pending().into_iter().next() {
			w.fs.answer(id, disk(&op));
		} else if v % 4 == 0 && !w.asked.is_empty() {
			let q = w.asked.remove(0);
			w.send(json!({"id": q["id"], "result": "x"}));
		} else {
			break;
		}
		w.run();
	}
	if let Some(b) = broken(&w) {
		return Some(b);
	}
	match &w.host.done {
		None => return bad("never-ends", format!("waiting for {} loads, {} replies", w.fs.pending().len(), w.asked.len())),
		Some(res) if v % 4 == 0 && res.is_err() => return bad("result", "exit ended the server with a failure"),
		Some(res) if v % 4 == 2 && res.is_ok() => return bad("result", "a cancelled server reports success"),
		_ => {}
	}
	if v % 4 < 2 {
		if let Some(i) = ids.iter().position(|i| w.response(*i).is_none()) {
			return bad("lost-response", format!("hover {i} of {n} came before the end"));
		}
	}
	if !w.from_server.is_closed() || !w.tx.is_closed() {
		return bad("channel-open", "the server ended and left its channels open");
	}
	None
}

// ---------------------------------------------------------------- C18

/// n folders: each listed once while the progress lasts, all their files there afterwards.
pub fn startup(n: usize, v: usize) -> Bad {
	let progress = v % 2 == 1;
	let folders: Vec<String> = (0..n).map(|i| format!("file:///d{i}")).collect();
	let list: Vec<&str> = folders.iter().map(|s| &s[..]).collect();
	let mut w = World::new(if v / 2 % 2 == 0 { Files::Mock } else { Files::Client });
	w.request("initialize", initialize(Some(&list), true, progress));
	w.run();
	w.notify("initialized", json!({}));
	w.run();
	let mut did: Vec<(String, String)> = vec![];
	let mut seen = 0;
	for _ in 0..10 * n + 50 {
		for m in &w.log[seen..] {
			match m["method"].as_str() {
				Some("p4analyzer/enumerateFolder") => did.push(("list".into(), m["params"]["uri"].as_str().unwrap_or("").into())),
				Some("$/progress") => did.push(("progress".into(), m["params"]["value"]["kind"].as_str().unwrap_or("").into())),
				Some(x) => did.push((x.into(), String::new())),
				None => {}
			}
		}
		seen = w.log.len();
		if let Some((id, op)) = w.fs.pending().into_iter().next() {
			w.fs.answer(
				id,
				match op {
					Op::Enumerate(u, _) => {
						let f = vec![format!("{}/x.p4", u.trim_end_matches('/'))];
						did.push(("list".into(), u));
						Answer::Files(f)
					}
					Op::Contents(_) => Answer::Text(Some("t".into())),
				},
			);
		} else if !w.asked.is_empty() {
			let q = w.asked.remove(0);
			let res = match q["method"].as_str().unwrap_or("") {
				"p4analyzer/enumerateFolder" => json!([{"uri": format!("{}/x.p4", q["params"]["uri"].as_str().unwrap().trim_end_matches('/'))}]),
				"p4analyzer/fileContents" => json!("t"),
				_ => Value::Null,
			};
			w.send(json!({"id": q["id"], "result": res}));
		} else {
			break;
		}
		w.run();
	}
	if let Some(b) = broken(&w) {
		return Some(b);
	}
	let mut listed: Vec<String> = did.iter().filter(|d| d.0 == "list").map(|d| d.1.trim_end_matches('/').to_string()).collect();
	listed.sort();
	let mut want = folders.clone();
	want.sort();
	if listed != want {
		return bad("listing", format!("{} listings of {n} folders", listed.len()));
	}
	let count = |n: &str| did.iter().filter(|d| d.0 == n).count();
	if count("client/registerCapability") != 1 || count("window/workDoneProgress/create") != progress as usize {
		return bad("registration", format!("{:?}", did.iter().take(5).collect::<Vec<_>>()));
	}
	let notes: Vec<usize> = did.iter().enumerate().filter(|d| d.1 .0 == "progress").map(|d| d.0).collect();
	if !progress && !notes.is_empty() {
		return bad("progress", "not supported");
	}
	if progress {
		let kinds: Vec<&str> = notes.iter().map(|i| &did[*i].1[..]).collect();
		let good = kinds.len() >= 2 && kinds[0] == "begin" && kinds[kinds.len() - 1] == "end" && kinds[1..kinds.len() - 1].iter().all(|k| *k == "report");
		let outside = did.iter().enumerate().any(|(i, d)| d.0 == "list" && (i < notes[0] || i > notes[notes.len() - 1]));
		if !good || outside {
			return bad("progress", format!("{kinds:?}, listings outside: {outside}"));
		}
	}
	let ids: Vec<i64> = folders.iter().map(|f| w.request("textDocument/completion", at(&format!("{f}/x.p4"), 0, 0))).collect();
	w.run();
	match ids.iter().position(|i| w.response(*i).map(labels) != Some(Ok(vec!["t".to_string()]))) {
		Some(i) => bad("not-loaded", format!("the file of folder {i}: {:?}", w.response(ids[i]))),
		None => None,
	}
}

// ---------------------------------------------------------------- C19

/// n events under alternating values, the client reading at the end or at once.
pub fn trace(n: usize, v: usize) -> Bad {
	use analyzer_abstractions::tracing;
	use analyzer_host::tracing::{tracing_subscriber::prelude::*, *};
	let (tx, rx) = async_channel::unbounded::<Message>();
	let layer = LspTracingLayer::new((tx, rx.clone()));
	let value = layer.trace_value();
	let sub = analyzer_host::tracing::tracing_subscriber::registry().with(layer);
	let mut want: Vec<(String, Option<String>)> = vec![];
	let mut got: Vec<Value> = vec![];
	tracing::subscriber::with_default(sub, || {
		for k in 0..n {
			let long = "x".repeat(if v / 2 % 2 == 1 { k * 20 } else { 3 });
			let now = [TraceValue::Verbose, TraceValue::Messages, TraceValue::Off][(k / 5) % 3].clone();
			value.set(now.clone());
			tracing::info!(number = k, long = %long, "event {}", k);
			match now {
				TraceValue::Off => {}
				TraceValue::Messages => want.push((format!("event {k}"), None)),
				_ => want.push((format!("event {k}"), Some(long))),
			}
			if v % 2 == 0 {
				got.extend(std::iter::from_fn(|| rx.try_recv().ok()).map(|m| serde_json::to_value(&m).unwrap()))
			}
		}
	});
	got.extend(std::iter::from_fn(|| rx.try_recv().ok()).map(|m| serde_json::to_value(&m).unwrap()));
	if got.len() != want.len() {
		return bad("count", format!("{} notifications of {}", got.len(), want.len()));
	}
	for (g, (m, long)) in got.iter().zip(&want) {
		let verbose = g["params"]["verbose"].as_str();
		let same = match (verbose, long) {
			(None, None) => true,
			(Some(s), Some(l)) => s.contains(l.as_str()),
			_ => false,
		};
		if g["params"]["message"] != *m || !same {
			return bad("content", format!("{g}, due {m}"));
		}
	}
	None
}

// ---------------------------------------------------------------- C20

/// A document with n identifiers or macros, asked about again after each of a few changes.
pub fn names(n: usize, v: usize) -> Bad {
	let mut w = World::new(Files::Mock);
	let disk = |op: &Op| match op {
		Op::Enumerate(..) => Answer::Files(vec![]),
		_ => Answer::Text(None),
	};
	w.start(Some(&["file:///ws"]), &disk);
	let name = |i: usize| match v % 4 {
		3 => format!("n{}", "x".repeat(i % 300 + 1)),
		_ => format!("n{i}"),
	};
	let mut want: Vec<String> = vec![];
	let mut add = |x: String| {
		if !want.contains(&x) {
			want.push(x)
		}
	};
	let mut text = String::new();
	for i in 0..n {
		match v % 4 {
			0 | 3 => {
				text += &format!("{} ", name(i));
				add(name(i))
			}
			1 => {
				// each again and again, on lines of their own
				text += &format!("{}\n{};\n", name(i), name(i / 2));
				add(name(i));
				add(name(i / 2));
			}
			_ => {
				text += &format!("#if {}\n{} \n#else\nm{i}\n#endif\n", i % 2, name(i));
				add(if i % 2 == 1 { name(i) } else { format!("m{i}") })
			}
		}
	}
	w.notify("textDocument/didOpen", did_open(&uri(0), &text));
	let first = w.request("textDocument/completion", at(&uri(0), 0, 0));
	let h = w.request("textDocument/hover", at(&uri(0), 70_000, 65_536));
	w.settle(&disk);
	let z = json!({"line": 0, "character": 0});
	w.notify("textDocument/didChange", did_change(&uri(0), json!([{"range": {"start": z, "end": z}, "text": "new\n"}])));
	let second = w.request("textDocument/completion", at(&uri(0), 0, 0));
	w.settle(&disk);
	if let Some(b) = broken(&w) {
		return Some(b);
	}
	if w.response(first).map(labels) != Some(Ok(want.clone())) {
		let l = w.response(first).map(labels);
		return bad("completion", format!("{:?} names of {}", l.map(|l| l.map(|l| l.len())), want.len()));
	}
	want.insert(0, "new".into());
	if w.response(second).map(labels) != Some(Ok(want.clone())) {
		return bad("completion", format!("after a change, of {} names", want.len()));
	}
	let t = w.response(h).map(|r| r["result"]["contents"].to_string()).unwrap_or_default();
	if !t.contains("70000") || !t.contains("65536") {
		return bad("hover", t);
	}
	None
}

// ---------------------------------------------------------------- C21

/// n lines of which every `v`-th kind has a problem.
pub fn problems(n: usize, v: usize) -> Bad {
	let line = |i: usize| match (v % 4, i % 3) {
		(0, _) => "a ` b".to_string(),
		(1, 0) => "#bogus x".into(),
		(1, 1) => "ok".into(),
		(1, _) => "é ok ` 日".into(),
		(2, _) => format!("#include \"none{i}.p4\""),
		_ => format!("{}`", "é ".repeat(i)),
	};
	let mut text: String = (0..n).map(|i| line(i) + "\n").collect();
	let mut an = analyzer_core::Analyzer::new(|_, p| Ok(format!("file:///{p}")), |_| {});
	let id = an.file_id("file:///t.p4");
	an.update(id, &text);
	let due = |from: u32| -> BTreeSet<((u32, u32), (u32, u32))> {
		(0..n)
			.flat_map(|i| {
				let l = i as u32 + from;
				match (v % 4, i % 3) {
					(0, _) => vec![((l, 2), (l, 3))],
					(1, 0) | (2, _) => vec![((l, 0), (l + 1, 0))],
					(1, 1) => vec![],
					(1, _) => vec![((l, 0), (l, 1)), ((l, 5), (l, 6)), ((l, 7), (l, 8))],
					_ => {
						let i = i as u32;
						(0..i).map(|k| ((l, 2 * k), (l, 2 * k + 1))).chain([((l, 2 * i), (l, 2 * i + 1))]).collect()
					}
				}
			})
			.collect()
	};
	for round in 0..2u32 {
		let got = analyzer_host::verif::diagnostics(&an, id, &text);
		let set: BTreeSet<_> = got.iter().map(|d| ((d.range.start.line, d.range.start.character), (d.range.end.line, d.range.end.character))).collect();
		// runs of unknown characters are one problem: neighbours on (v 1) are told apart by the blank
		let want = due(round);
		if set != want {
			let x = set.symmetric_difference(&want).next();
			return bad("diagnostics", format!("{} of {} problems; {x:?} is {}", set.len(), want.len(), if x.map_or(false, |x| want.contains(x)) { "missing" } else { "no problem" }));
		}
		if got.len() != want.len() {
			return bad("twice", format!("{} reports of {} problems", got.len(), want.len()));
		}
		use analyzer_core::lsp_file::{ChangeEvent, Position, Range};
		let z = Position { line: 0, character: 0 };
		an.file_change_event(id, &vec![ChangeEvent { range: Some(Range { start: z, end: z }), text: "first\n".into() }]);
		text.insert_str(0, "first\n");
	}
	None
}
