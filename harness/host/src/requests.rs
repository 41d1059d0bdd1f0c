//! C13: requests of the server to the client. All orders of sending, answering and running, on the request manager
//! itself and through a host whose file system is the client.
use crate::world::*;
use analyzer_abstractions::lsp_types::request::{RegisterCapability, ShowDocument};
use analyzer_abstractions::lsp_types::{notification::LogMessage, LogMessageParams, MessageType, RegistrationParams, ShowDocumentParams, Url};
use analyzer_host::json_rpc::message::Message;
use analyzer_host::verif::RequestManager;
use cancellation::CancellationTokenSource;
use mck::{Args, Chooser, Report};
use std::cell::RefCell;
use std::rc::Rc;

/// What became of a caller's request.
#[derive(Clone, Debug, PartialEq)]
enum Got {
	Value(bool),
	Unit,
	Failed,
}
const REPLIES: [&str; 4] = ["true", "false", "error", "wrong"];

struct Caller {
	typed: bool,
	run: Driven<Got>,
	id: Option<Value>,
	due: Option<Got>,
}

pub fn c13(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("requests outstanding or one after another", crate::scale::MANY, 9, crate::scale::outstanding), ("requests one after another with an old one open", &[1000, 70_000], 1, |n, _| crate::scale::outstanding(n, 8)), ("files loaded through the client", crate::scale::MANY, 8, crate::scale::client_files)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c13_small(a);
	r.merge(large);
	r
}
fn c13_small(a: &Args) -> Report {
	let mut r = Report::new();
	if a.replay.as_deref().map_or(true, |c| c.starts_with("manager")) {
		let (callers, steps) = if a.thorough { (4, 8) } else { (3, 6) };
		let mut x = explore_here(a, 0, |c, r| manager(c, r, callers, steps));
		x.bounds.push(format!("up to {callers} callers on clones of one request manager; every order of starting, answering (result, error, wrong shape, unknown id, answered id again), notifying and running, {steps} events"));
		r.merge(x);
	}
	if a.replay.as_deref().map_or(true, |c| c.starts_with("client files")) {
		let files = if a.thorough { 4 } else { 3 };
		let mut x = explore(a, 0, |c, r| client_files(c, r, files));
		x.bounds.push(format!("{files} files loaded through the client at once; every order of answers, each a text, an error or of the wrong shape; strange responses in between"));
		r.merge(x);
	}
	r
}

fn manager(c: &mut Chooser, r: &mut Report, max_callers: usize, steps: usize) {
	let out = async_channel::unbounded::<Message>();
	let responses = async_channel::unbounded::<Message>();
	let cts = CancellationTokenSource::new();
	let token = cts.token().clone();
	let root = Rc::new(RequestManager::new((out.0.clone(), responses.1.clone())));
	let main = root.clone();
	let mut server = Driven::new(async move { main.start(token).await.is_ok() });
	// clones made before anything is sent, and clones of clones
	let clones: Vec<Rc<RequestManager>> = match c.choose(3) {
		0 => vec![root.clone()],
		1 => vec![root.clone(), Rc::new((*root).clone())],
		_ => {
			let k = Rc::new((*root).clone());
			vec![k.clone(), Rc::new((*k).clone())]
		}
	};
	let mut callers: Vec<Caller> = vec![];
	let mut answered: Vec<Value> = vec![];
	let mut notes = 0;
	let mut text = format!("manager, {} handles: ", clones.len());
	let mut bad: Option<(String, String)> = None;
	let mut seen_ids: Vec<Value> = vec![];
	let mut sent_notes = 0;
	for _ in 0..steps {
		let open: Vec<usize> = (0..callers.len()).filter(|&i| callers[i].id.is_some() && callers[i].due.is_none()).collect();
		// start a caller, answer one, strange responses, a notification
		let mut options: Vec<(&str, usize, usize)> = vec![];
		if callers.len() < max_callers {
			for h in 0..clones.len() {
				options.push(("ask", h, callers.len() % 2));
			}
			options.push(("clone-ask", 0, 0));
		}
		for &i in &open {
			for k in 0..REPLIES.len() {
				options.push(("reply", i, k))
			}
		}
		if !answered.is_empty() {
			options.push(("again", 0, 0))
		}
		options.push(("unknown", 0, 0));
		if notes == 0 {
			options.push(("note", 0, 0))
		}
		let (what, x, y) = options[c.choose(options.len())];
		r.transitions += 1;
		text += &format!("{what}{x}{y} ");
		match what {
			"ask" | "clone-ask" => {
				let m = if what == "ask" { clones[x].clone() } else { Rc::new((*root).clone()) };
				let typed = y == 0;
				let mut run = Driven::new(async move {
					if typed {
						let p = ShowDocumentParams { uri: Url::parse("file:///x").unwrap(), external: None, take_focus: None, selection: None };
						match m.send_and_receive::<ShowDocument>(p).await {
							Ok(v) => Got::Value(v.success),
							Err(_) => Got::Failed,
						}
					} else {
						match m.send::<RegisterCapability>(RegistrationParams { registrations: vec![] }).await {
							Ok(()) => Got::Unit,
							Err(_) => Got::Failed,
						}
					}
				});
				run.run();
				callers.push(Caller { typed, run, id: None, due: None });
			}
			"reply" => {
				let k = &mut callers[x];
				let id = k.id.clone().unwrap();
				let (msg, due) = match (REPLIES[y], k.typed) {
					("error", _) => (json!({"id": id, "error": {"code": 1, "message": "no"}}), Got::Failed),
					("wrong", true) => (json!({"id": id, "result": {"success": 7}}), Got::Failed),
					("wrong", false) => (json!({"id": id, "result": null}), Got::Unit),
					(b, true) => (json!({"id": id, "result": {"success": b == "true"}}), Got::Value(b == "true")),
					(_, false) => (json!({"id": id, "result": {}}), Got::Unit),
				};
				k.due = Some(due);
				answered.push(id);
				responses.0.try_send(serde_json::from_value(msg).unwrap()).unwrap();
			}
			"again" => {
				let id = answered[0].clone();
				responses.0.try_send(serde_json::from_value(json!({"id": id, "result": {"success": true}})).unwrap()).unwrap()
			}
			"unknown" => responses.0.try_send(serde_json::from_value(json!({"id": 77777, "error": {"code": 1, "message": "?"}})).unwrap()).unwrap(),
			_ => {
				notes += 1;
				let m = clones[0].clone();
				let mut n = Driven::new(async move { m.send_notification::<LogMessage>(LogMessageParams { typ: MessageType::INFO, message: "m".into() }).await.is_ok() });
				n.run();
				if n.done != Some(true) {
					bad = Some(("notification-waits".into(), format!("{:?} {:?}", n.done, n.broken)))
				}
			}
		}
		// not running the manager at once lets responses pile up
		if what != "reply" || c.choose(2) == 0 {
			server.run()
		}
		for k in callers.iter_mut() {
			k.run.run()
		}
		// requests that came out, in the order of the callers that have no id yet
		while let Ok(m) = out.1.try_recv() {
			let v = serde_json::to_value(&m).unwrap();
			if v.get("id").is_none() {
				sent_notes += 1;
				continue;
			}
			if seen_ids.contains(&v["id"]) {
				bad = bad.or(Some(("duplicate-id".into(), format!("id {} was used twice", v["id"]))));
			}
			seen_ids.push(v["id"].clone());
			match callers.iter_mut().find(|k| k.id.is_none()) {
				Some(k) => k.id = Some(v["id"].clone()),
				None => bad = bad.or(Some(("extra-request".into(), v.to_string()))),
			}
		}
		if bad.is_some() {
			break;
		}
	}
	server.run();
	for (i, k) in callers.iter_mut().enumerate() {
		k.run.run();
		if k.id.is_none() {
			bad = bad.or(Some(("not-sent".into(), format!("caller {i}"))));
		}
		if k.run.done != k.due {
			bad = bad.or(Some(("wrong-outcome".into(), format!("caller {i}: due {:?}, got {:?} {:?}", k.due, k.run.done, k.run.broken))));
		}
	}
	if sent_notes != notes {
		bad = bad.or(Some(("notifications".into(), format!("{sent_notes} of {notes} notifications sent"))));
	}
	if let Some(b) = &server.broken {
		bad = Some((broken_sig(b), b.clone()))
	}
	if server.done.is_some() && bad.is_none() {
		bad = Some(("manager-ended".into(), "the manager stopped by itself".into()))
	}
	r.states += 1;
	if callers.len() > 1 {
		r.distinct += 1
	}
	r.outcome(&format!("manager: {} callers, {} answered", callers.len(), answered.len()));
	if let Some((s, d)) = bad {
		r.violation(&s, format!("{text}choices={:?}", c.choices()), d)
	} else if r.traces % 4999 == 0 {
		r.sample(text)
	}
}

fn client_files(c: &mut Chooser, r: &mut Report, files: usize) {
	let uris: Vec<String> = (0..files).map(|i| format!("file:///ws/f{i}.p4")).collect();
	let mut w = World::new(Files::Client);
	let text = RefCell::new(String::from("client files: "));
	w.request("initialize", initialize(Some(&["file:///ws"]), true, false));
	w.run();
	w.notify("initialized", json!({}));
	let mut bad: Option<(String, String)> = None;
	let mut ids: Vec<Value> = vec![];
	let listing: Value = uris.iter().map(|u| json!({"uri": u})).collect();
	// registration, then the listing
	w.run();
	for _ in 0..2 {
		if w.asked.len() != 1 {
			bad = bad.or(Some(("start".into(), format!("asked {:?}", w.asked))));
			break;
		}
		let q = w.asked.remove(0);
		ids.push(q["id"].clone());
		let result = if q["method"] == "p4analyzer/enumerateFolder" { listing.clone() } else { Value::Null };
		w.send(json!({"id": q["id"], "result": result}));
		w.run();
	}
	let mut content: Vec<Option<String>> = vec![None; files];
	let mut left = 2 * files;
	while bad.is_none() && !w.asked.is_empty() && left > 0 {
		left -= 1;
		let k = c.choose(w.asked.len());
		let q = w.asked.remove(k);
		if ids.contains(&q["id"]) || w.asked.iter().any(|o| o["id"] == q["id"]) {
			bad = Some(("duplicate-id".into(), format!("id {} was used twice", q["id"])));
		}
		ids.push(q["id"].clone());
		let Some(f) = uris.iter().position(|u| q["params"]["uri"] == *u) else {
			bad = Some(("strange-request".into(), q.to_string()));
			break;
		};
		let how = c.choose(3);
		*text.borrow_mut() += &format!("f{f}:{how} ");
		r.transitions += 1;
		if c.choose(2) == 1 {
			*text.borrow_mut() += "stray ";
			w.send(json!({"id": 55555, "result": "stray"}));
			w.send(json!({"id": ids[0], "result": "stray"}));
		}
		match how {
			0 => {
				let t = format!("text_{f}");
				content[f] = Some(t.clone());
				w.send(json!({"id": q["id"], "result": t}));
			}
			1 => {
				w.send(json!({"id": q["id"], "error": {"code": -1, "message": "cannot read"}}));
			}
			_ => {
				w.send(json!({"id": q["id"], "result": [1, 2]}));
			}
		}
		if c.choose(2) == 0 {
			w.run();
		}
	}
	w.run();
	if bad.is_none() {
		for (f, u) in uris.iter().enumerate() {
			let id = w.request("textDocument/completion", at(u, 0, 0));
			w.run();
			let got = w.response(id).map(labels);
			let ok = match (&got, &content[f]) {
				(Some(Ok(l)), Some(t)) => *l == [t.clone()],
				(Some(Err(_)), None) => true,
				_ => false,
			};
			if !ok {
				bad = bad.or(Some(("wrong-file".into(), format!("{u} was answered {:?}, completion says {got:?}", content[f]))));
			}
		}
	}
	if let Some(b) = &w.host.broken {
		bad = Some((broken_sig(b), b.clone()))
	}
	r.states += 1;
	r.distinct += 1;
	r.outcome(&format!("client files: {} readable", content.iter().flatten().count()));
	let text = text.into_inner();
	if let Some((s, d)) = bad {
		r.violation(&s, format!("{text}choices={:?}", c.choices()), d)
	} else if r.traces % 997 == 0 {
		r.sample(text)
	}
}
