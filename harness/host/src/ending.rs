//! C17: the server ends after exit, cancellation or the loss of its client, and not before.
use crate::world::*;
use mck::{Args, Chooser, Report};

const U: &str = "file:///ws/a.p4";
fn disk(op: &Op) -> Answer {
	match op {
		Op::Enumerate(..) => Answer::Files(vec![U.into()]),
		Op::Contents(u) if u.ends_with("gone.p4") => Answer::Text(None),
		Op::Contents(_) => Answer::Text(Some("x".into())),
	}
}
/// The client's answer to one of the server's requests.
fn client(q: &Value) -> Value {
	match q["method"].as_str().unwrap_or("") {
		"p4analyzer/enumerateFolder" => json!({"result": [{"uri": U}]}),
		"p4analyzer/fileContents" => json!({"result": "x"}),
		_ => json!({"result": null}),
	}
}

const CAUSES: [&str; 7] = ["exit", "client closes its channel", "cancel, then to-server, then from-server closed", "cancel, then from-server, then to-server closed", "client stops reading, then closes its channel", "client closes its channel, then stops reading", "exit, then client closes its channel"];

fn one(c: &mut Chooser, r: &mut Report, steps: usize, polls: u64) {
	let own_files = c.choose(2) == 0;
	let mut w = World::new(if own_files { Files::Mock } else { Files::Client });
	let mut owed: Vec<i64> = vec![];
	let mut bad: Option<(String, String)> = None;
	let stage = c.choose(5);
	// 0 nothing, 1 initialized at once, 2 during start-up, 3 active without folders, 4 active with a folder whose loads are outstanding
	if stage > 0 {
		let folders: Option<&[&str]> = if matches!(stage, 2 | 4) { Some(&["file:///ws"]) } else { None };
		owed.push(w.request("initialize", initialize(folders, true, stage == 2)));
		w.run();
	}
	if stage > 1 {
		w.notify("initialized", json!({}));
		w.run();
	}
	if stage == 4 {
		// registered, and the folder listed; the contents are not there yet
		for _ in 0..6 {
			if let Some(i) = w.asked.iter().position(|q| q["method"] != "p4analyzer/fileContents") {
				let q = w.asked.remove(i);
				let mut m = client(&q);
				m["id"] = q["id"].clone();
				w.send(m);
			}
			if let Some((id, op)) = w.fs.pending().into_iter().find(|(_, o)| matches!(o, Op::Enumerate(..))) {
				w.fs.answer(id, disk(&op))
			}
			w.run();
		}
	}
	let actions = ["completion", "completion of a missing file", "open", "hover", "unknown request", "watched file", "shutdown", "bad parameters", "reply to the server", "file system answers", "run"];
	let mut events = 0;
	for _ in 0..steps {
		let k = c.choose(actions.len() + 1);
		if k == actions.len() {
			break;
		}
		events += 1;
		r.transitions += 1;
		match k {
			0 => owed.push(w.request("textDocument/completion", at(U, 0, 0))),
			1 => owed.push(w.request("textDocument/completion", at("file:///ws/gone.p4", 0, 0))),
			2 => drop(w.notify("textDocument/didOpen", did_open(U, "y"))),
			3 => owed.push(w.request("textDocument/hover", at(U, 0, 0))),
			4 => owed.push(w.request("no/such", json!({}))),
			5 => drop(w.notify("workspace/didChangeWatchedFiles", watch(U, 2))),
			6 => owed.push(w.request("shutdown", Value::Null)),
			7 => owed.push(w.request("textDocument/completion", json!({"x": 1}))),
			8 => {
				if w.asked.is_empty() {
					break;
				}
				let q = w.asked.remove(0);
				let mut m = client(&q);
				m["id"] = q["id"].clone();
				w.send(m);
			}
			9 => {
				let Some((id, op)) = w.fs.pending().into_iter().next() else { break };
				w.sent.push(format!("({op:?} answered)"));
				w.fs.answer(id, disk(&op));
			}
			_ => {
				w.sent.push("(run)".into());
				w.run();
			}
		}
		if !w.alive() {
			bad = Some(match &w.host.broken {
				Some(b) => (broken_sig(b), b.clone()),
				None => ("ended-early".into(), "the server ended without a cause".into()),
			});
			break;
		}
	}
	// the server gets as far as some number of polls when the cause comes
	let n = c.choose(polls as usize + 1) as u64;
	if bad.is_none() {
		if n > 0 {
			w.sent.push(format!("({n} polls)"));
			w.host.run_at_most(n);
		}
		let last = c.choose(CAUSES.len());
		let cause = CAUSES[last];
		w.sent.push(format!("({cause})"));
		r.transitions += 1;
		let reading = !matches!(last, 2..=4); // what was sent before still arrives
		let already = w.collect();
		match last {
			0 | 6 => drop(w.notify("exit", Value::Null)),
			1 | 5 => drop(w.tx.close()),
			2 => {
				w.cts.cancel();
				w.to_server.close();
				w.from_server.close();
			}
			3 => {
				w.cts.cancel();
				w.from_server.close();
				w.to_server.close();
			}
			_ => {
				w.from_server.close();
				w.run();
				w.tx.close();
			}
		}
		w.run();
		if last == 6 {
			w.tx.close();
			w.run();
		}
		if last == 5 {
			w.from_server.close();
			w.run();
		}
		// outstanding background work ends sometime; a client that has only said exit still answers
		for _ in 0..60 {
			if !w.alive() {
				break;
			}
			if let Some((id, op)) = w.fs.pending().into_iter().next() {
				w.fs.answer(id, disk(&op));
			} else if last == 0 && !w.asked.is_empty() {
				let q = w.asked.remove(0);
				let mut m = client(&q);
				m["id"] = q["id"].clone();
				w.send(m);
			} else {
				break;
			}
			w.run();
		}
		let _ = already;
		if let Some(b) = &w.host.broken {
			bad = Some((broken_sig(b), b.clone()))
		} else if let Some(res) = &w.host.done {
			if matches!(last, 0 | 6) && res.is_err() {
				bad = Some(("result".into(), "exit ended the server with a failure".into()))
			} else if matches!(last, 2 | 3) && res.is_ok() {
				bad = Some(("result".into(), "a cancelled server reports success".into()))
			} else if reading && last != 5 {
				if let Some(id) = owed.iter().find(|i| w.response(**i).is_none()) {
					bad = Some(("lost-response".into(), format!("request {id} came before the end and has no response")))
				}
			}
			if bad.is_none() && (!w.from_server.is_closed() || !w.tx.is_closed()) {
				bad = Some(("channel-open".into(), "the server ended and left its channels open".into()))
			}
			r.outcome(&format!("{}: {}", cause.split(',').next().unwrap(), if res.is_ok() { "success" } else { "cancelled" }));
		} else {
			bad = Some((format!("never-ends:{}", if last == 0 { "exit" } else if matches!(last, 2 | 3) { "cancel" } else { "client gone" }), format!("the server still runs, waiting for {:?} {:?}", w.fs.pending(), w.asked)))
		}
	}
	r.states += 1;
	r.distinct += (events > 0) as u64;
	let name = || format!("{} file system, stage {stage}: {} choices={:?}", if own_files { "host's" } else { "client's" }, w.history(), c.choices());
	if let Some((s, d)) = bad {
		r.violation(&s, name(), d)
	} else if r.traces % 40_000 == 3 {
		r.sample(name())
	}
}

pub fn c17(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("requests and loads", crate::scale::MANY, 16, crate::scale::ending)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c17_small(a);
	r.merge(large);
	r
}
fn c17_small(a: &Args) -> Report {
	let (steps, polls) = if a.thorough { (4, 4) } else { (3, 2) };
	let mut r = explore(a, u64::MAX, |c: &mut Chooser, r: &mut Report| one(c, r, steps, polls));
	r.bounds.push(format!("from 5 stages (new, initializing, starting up, active, active with outstanding loads), with the host's and the client's file system: all sequences of up to {steps} of 11 events, 0 to {polls} polls, then each of {CAUSES:?}"));
	r
}
