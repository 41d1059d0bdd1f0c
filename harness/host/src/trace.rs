//! C19: trace notifications follow the trace value.
use crate::world::*;
use analyzer_abstractions::lsp_types::TraceValue;
use analyzer_abstractions::tracing;
use analyzer_host::json_rpc::message::Message;
use analyzer_host::tracing::tracing_subscriber::{self, prelude::*};
use analyzer_host::tracing::LspTracingLayer;
use mck::{Args, Chooser, Report};

const VALUES: [(TraceValue, &str); 3] = [(TraceValue::Off, "off"), (TraceValue::Messages, "messages"), (TraceValue::Verbose, "verbose")];

struct Debugged(&'static str);
impl std::fmt::Debug for Debugged {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{}>", self.0) }
}
/// Emits the k-th event; its message and the fields that a verbose note must show (name and value).
fn emit(k: usize) -> (String, Vec<(&'static str, &'static str)>) {
	match k {
		0 => {
			tracing::info!("plain");
			("plain".into(), vec![])
		}
		1 => {
			tracing::error!(uri = "file:///a", n = 7, "{} with {}", "message", 3);
			("message with 3".into(), vec![("uri", "file:///a"), ("n", "7")])
		}
		2 => {
			tracing::info!(flag = true, what = ?Debugged("x"));
			(String::new(), vec![("flag", "true"), ("what", "<x>")])
		}
		_ => {
			let text = "two\nlines é \"quoted\"";
			tracing::warn!(shown = %text, "{}", text);
			(text.into(), vec![("shown", "two")])
		}
	}
}
fn note(m: &Message) -> Value { serde_json::to_value(m).unwrap() }

/// Compares one notification with what is due.
fn wrong(v: &Value, message: &str, fields: &[(&str, &str)], verbose: bool) -> Option<String> {
	if v["method"] != "$/logTrace" || v.get("id").map_or(false, |i| !i.is_null()) {
		return Some(format!("not a trace notification: {v}"));
	}
	if v["params"]["message"] != message {
		return Some(format!("message {} instead of {message:?}", v["params"]["message"]));
	}
	match (v["params"]["verbose"].as_str(), verbose) {
		(None, false) => None,
		(Some(s), false) => Some(format!("fields {s:?} although not verbose")),
		(None, true) => Some("no fields although verbose".into()),
		(Some(s), true) => {
			fields.iter().find(|(n, x)| !s.contains(n) || !s.contains(x)).map(|(n, x)| format!("field {n}={x} is missing in {s:?}"))
		}
	}
}

/// The layer alone: value changes by either of two accessors, events, the client going away.
fn layer(c: &mut Chooser, r: &mut Report, steps: usize) {
	let (tx, rx) = async_channel::unbounded::<Message>();
	let keep = rx.clone();
	let layer = LspTracingLayer::new((tx.clone(), keep));
	let accessors = [layer.trace_value(), layer.trace_value()];
	let sub = tracing_subscriber::registry().with(layer);
	let mut text = String::from("layer: ");
	let mut bad = None;
	let res = mck::catch(|| {
		tracing::subscriber::with_default(sub, || {
			let mut now = 0;
			let mut open = true;
			for _ in 0..steps {
				r.transitions += 1;
				match c.choose(3 + 4 + 1 + 1) {
					k if k < 3 => {
						accessors[c.choose(2)].set(VALUES[k].0.clone());
						text += &format!("set {}; ", VALUES[k].1);
						now = k;
					}
					7 => {
						rx.close();
						text += "client goes away; ";
						open = false;
					}
					8 => {
						// the value is read when the event happens, not when a span began
						let s = tracing::info_span!("span", k = 1);
						let _e = s.enter();
						accessors[0].set(VALUES[2 - now].0.clone());
						text += &format!("set {} in a span; ", VALUES[2 - now].1);
						now = 2 - now;
					}
					k => {
						text += &format!("event {}; ", k - 3);
						let (m, f) = emit(k - 3);
						let got: Vec<Value> = std::iter::from_fn(|| rx.try_recv().ok()).map(|m| note(&m)).collect();
						let due = (open && now != 0) as usize;
						if got.len() != due {
							bad = Some((if due == 0 { "sent-while-off" } else { "count" }, format!("{} notifications, due {due}: {got:?}", got.len())));
							return;
						}
						if let Some(w) = got.get(0).and_then(|v| wrong(v, &m, &f, now == 2)) {
							bad = Some(("content", w));
							return;
						}
					}
				}
			}
		})
	});
	r.states += 1;
	r.distinct += text.contains("event") as u64;
	let name = || format!("{text} choices=[0,{}]", c.choices()[1..].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
	if let Err(p) = res {
		r.violation(&broken_sig(&format!("panic: {p}")), name(), p)
	} else if let Some((s, d)) = bad {
		r.violation(s, name(), d)
	} else if r.traces % 50_000 == 7 {
		r.sample(name())
	}
}

/// The server: which value is in force after initialize and set-trace notifications.
fn server(c: &mut Chooser, r: &mut Report, steps: usize) {
	let io = async_channel::unbounded::<Message>();
	let out = async_channel::unbounded::<Message>();
	// the notifications go to a channel of their own here, so that probes and messages are told apart
	let (tx, rx) = async_channel::unbounded::<Message>();
	let layer = LspTracingLayer::new((tx, rx.clone()));
	let accessor = layer.trace_value();
	let given = c.choose(2) == 0;
	let mut w = World::with_channels(Files::Mock, io, out, given.then(|| accessor.clone()));
	let mut text = format!("server {} accessor: ", if given { "with" } else { "without" });
	let mut bad: Option<(String, String)> = None;
	let disk = |_: &Op| Answer::Files(vec![]);
	tracing::subscriber::with_default(tracing_subscriber::registry().with(layer), || {
		let (mut phase, mut now) = (0, 0);
		for _ in 0..steps {
			r.transitions += 1;
			let k = c.choose(12);
			match k {
				0..=4 => {
					// initialize: without a value, with each, and one that is refused
					let mut p = if k == 4 { initialize(Some(&["file:///w"]), false, false) } else { initialize(None, false, false) };
					let v = if k == 4 { 2 } else { k };
					if v < 3 {
						p["trace"] = json!(VALUES[v].1)
					}
					text += &format!("initialize {}{}; ", VALUES.get(v).map_or("-", |x| x.1), if k == 4 { " refused" } else { "" });
					w.request("initialize", p);
					if phase == 0 && k != 4 {
						phase = 1;
						if v < 3 && given {
							now = v
						}
					}
				}
				5 => {
					text += "initialized; ";
					w.notify("initialized", json!({}));
					if phase == 1 {
						phase = 2
					}
				}
				6..=8 if phase % 2 == 1 => break, // not a message that the protocol allows then
				6..=8 => {
					text += &format!("set {}; ", VALUES[k - 6].1);
					w.notify("$/setTrace", json!({"value": VALUES[k - 6].1}));
					if phase == 2 && given {
						now = k - 6
					}
				}
				9 => {
					text += "set ?; ";
					w.notify("$/setTrace", json!({"value": "loud"}));
				}
				10 => {
					text += "hover; ";
					let id = w.request("textDocument/hover", at("file:///w/a.p4", 0, 0));
					w.settle(&disk);
					if w.response(id).is_none() {
						bad = Some(("disturbed".into(), "the request was not answered".into()))
					}
				}
				_ => {
					text += "shutdown; ";
					w.request("shutdown", Value::Null);
					if phase == 2 {
						phase = 3
					}
				}
			}
			w.settle(&disk);
			let noise: Vec<Value> = std::iter::from_fn(|| rx.try_recv().ok()).map(|m| note(&m)).collect();
			if let Some(n) = noise.iter().find(|n| n["method"] != "$/logTrace") {
				bad = bad.take().or(Some(("content".into(), n.to_string())))
			}
			let (m, f) = emit(1);
			let got: Vec<Value> = std::iter::from_fn(|| rx.try_recv().ok()).map(|m| note(&m)).collect();
			let why = match got.len() {
				0 if now == 0 => None,
				1 if now > 0 => wrong(&got[0], &m, &f, now == 2),
				n => Some(format!("{n} notifications, the value in force is {}", VALUES[now].1)),
			};
			if let Some(d) = why {
				bad = bad.take().or(Some(("value".into(), d)))
			}
			if let Some(b) = &w.host.broken {
				bad = bad.take().or(Some((broken_sig(b), b.clone())))
			}
			if bad.is_some() {
				break;
			}
		}
		drop(w);
	});
	r.states += 1;
	r.distinct += text.contains("set ") as u64;
	let name = || format!("{text} choices=[1,{}]", c.choices()[1..].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
	if let Some((s, d)) = bad {
		r.violation(&s, name(), d)
	} else if r.traces % 3000 == 7 {
		r.sample(name())
	}
}

pub fn c19(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("events", &[70, 130, 300, 1030, 10_001], 4, crate::scale::trace)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c19_small(a);
	r.merge(large);
	r
}
fn c19_small(a: &Args) -> Report {
	let (deep, wide) = if a.thorough { (7, 6) } else { (5, 4) };
	let r = explore(a, u64::MAX, |c: &mut Chooser, r: &mut Report| match c.choose(2) {
		0 => layer(c, r, deep),
		_ => server(c, r, wide),
	});
	let mut r = r;
	r.bounds.push(format!("the layer: all sequences of {deep} of: set off/messages/verbose by one of two accessors, one of 4 events (no fields, fields, no message, quotes and line ends), a change within a span, the client going away"));
	r.bounds.push(format!("the server: all sequences of {wide} of: initialize with each value, none, or refused; initialized; set-trace with each value and an unknown one; hover; shutdown; a probe event after each"));
	r
}
