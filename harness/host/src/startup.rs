//! C18: what happens after `initialized`.
use crate::world::*;
use mck::{Args, Chooser, Report};
use std::collections::BTreeMap;

const FOLDERS: [&str; 3] = ["file:///a", "file:///b", "file:///c"];
const ERROR: i32 = -32603;

/// Delivers queued messages while the server waits for the client or the file system.
const EXTRA: [&str; 5] = ["nothing", "a second initialized", "a request", "an opened document", "a reply nobody waits for"];

fn one(c: &mut Chooser, r: &mut Report, delays: bool) {
	let count = c.choose(FOLDERS.len() + 2); // 0: no folders at all, 1: an empty list, ..
	let progress = c.choose(2) == 1;
	let register_ok = c.choose(3); // null, an object, refused
	let create_ok = c.choose(3);
	let found = c.choose(2);
	let own_files = c.choose(2) == 0;
	let folders: Option<Vec<&str>> = (count > 0).then(|| FOLDERS[..count - 1].to_vec());
	let mut w = World::new(if own_files { Files::Mock } else { Files::Client });
	let files = |u: &str| if found == 1 { vec![format!("{u}/x.p4"), format!("{u}/d/y.p4")] } else { vec![] };
	w.request("initialize", initialize(folders.as_deref(), true, progress));
	w.run();
	w.log.clear();
	w.notify("initialized", json!({}));
	w.run();
	let mut listed: BTreeMap<String, usize> = BTreeMap::new();
	let mut bad: Option<(String, String)> = None;
	let mut extra_request = None;
	let mut said: Vec<String> = vec![];
	let mut extras = 0;
	// the trace of what the server did, in order
	let mut did: Vec<(String, Value)> = vec![];
	let mut seen = 0;
	for _ in 0..200 {
		for m in &w.log[seen..] {
			if let Some(x) = m["method"].as_str() {
				did.push((x.into(), m["params"].clone()))
			}
		}
		seen = w.log.len();
		if !w.alive() {
			break;
		}
		if delays && extras < 1 {
			let k = c.choose(EXTRA.len());
			said.push(EXTRA[k].into());
			match k {
				0 => {}
				1 => drop(w.notify("initialized", json!({}))),
				2 => extra_request = Some(w.request("textDocument/hover", at("file:///a/x.p4", 0, 0))),
				3 => drop(w.notify("textDocument/didOpen", did_open("file:///a/x.p4", "k"))),
				_ => drop(w.send(json!({"id": 977, "result": null}))),
			}
			extras += (k > 0) as usize;
			if k > 0 {
				w.run();
				continue;
			}
		}
		if let Some((id, op)) = w.fs.pending().into_iter().next() {
			match &op {
				Op::Enumerate(u, p) => {
					did.push(("list".into(), json!({"uri": u, "pattern": p})));
					w.fs.answer(id, Answer::Files(files(u)));
				}
				Op::Contents(_) => w.fs.answer(id, Answer::Text(Some("t".into()))),
			}
			w.run();
			continue;
		}
		if w.asked.is_empty() {
			break;
		}
		let q = w.asked.remove(0);
		let refuse = json!({"error": {"code": ERROR, "message": "no"}});
		let mut m = match q["method"].as_str().unwrap() {
			"client/registerCapability" => [json!({"result": null}), json!({"result": {}}), refuse][register_ok].clone(),
			"window/workDoneProgress/create" => [json!({"result": null}), json!({"result": {}}), refuse][create_ok].clone(),
			"p4analyzer/enumerateFolder" => {
				let u = q["params"]["uri"].as_str().unwrap();
				did.iter_mut().rev().find(|d| d.0 == "p4analyzer/enumerateFolder").unwrap().0 = "list".into();
				json!({"result": files(u).iter().map(|u| json!({"uri": u})).collect::<Vec<_>>()})
			}
			_ => json!({"result": "t"}),
		};
		m["id"] = q["id"].clone();
		w.send(m);
		w.run();
	}
	r.transitions += did.len() as u64;
	// judge the order
	let mut fail = |s: &str, d: String| bad = bad.take().or(Some((s.into(), d)));
	if let Some(b) = &w.host.broken {
		fail(&broken_sig(b), b.clone())
	} else if w.host.done.is_some() {
		fail("ended", "the server ended".into())
	}
	let names: Vec<&str> = did.iter().map(|d| d.0.as_str()).filter(|n| *n != "p4analyzer/fileContents").collect();
	let at_ = |n: &str| names.iter().position(|x| *x == n);
	let n_of = |n: &str| names.iter().filter(|x| **x == n).count();
	if count == 0 {
		if !names.is_empty() {
			fail("not-silent", format!("without folders: {names:?}"))
		}
	} else {
		if n_of("client/registerCapability") != 1 || at_("client/registerCapability") != Some(0) {
			fail("registration", format!("{names:?}"))
		} else {
			let regs = &did[0].1["registrations"];
			let one = regs.as_array().map_or(false, |v| v.len() == 1);
			let g = &regs[0]["registerOptions"]["watchers"];
			if !one || regs[0]["method"] != "workspace/didChangeWatchedFiles" || g.as_array().map_or(0, |v| v.len()) != 1 || g[0]["globPattern"] != "**/*.p4" {
				fail("registration", format!("{regs}"))
			}
			// created, changed and deleted files are all watched
			if !(g[0]["kind"].is_null() || g[0]["kind"] == 7) {
				fail("registration", format!("{regs}"))
			}
		}
		for (_, p) in did.iter().filter(|d| d.0 == "list") {
			*listed.entry(p["uri"].as_str().unwrap_or("?").trim_end_matches('/').to_string()).or_insert(0) += 1;
			if p["pattern"] != "**/*.p4" && p["filePattern"] != "**/*.p4" {
				fail("pattern", p.to_string())
			}
		}
		let want: BTreeMap<String, usize> = folders.as_ref().unwrap().iter().map(|f| (f.to_string(), 1)).collect();
		if listed != want {
			fail("listing", format!("listed {listed:?}, folders {want:?}"))
		}
		let creates = n_of("window/workDoneProgress/create");
		let notes: Vec<&Value> = did.iter().filter(|d| d.0 == "$/progress").map(|d| &d.1).collect();
		if !progress {
			if creates > 0 || !notes.is_empty() {
				fail("progress", format!("the client does not support progress: {names:?}"))
			}
		} else {
			let kinds: Vec<&str> = notes.iter().map(|n| n["value"]["kind"].as_str().unwrap_or("?")).collect();
			let token = did.iter().find(|d| d.0 == "window/workDoneProgress/create").map(|d| d.1["token"].clone());
			if creates != 1 {
				fail("progress", format!("{creates} tokens were created: {names:?}"))
			} else if create_ok == 2 {
				if !notes.is_empty() {
					fail("progress", format!("the token was refused: {kinds:?}"))
				}
			} else {
				let inside = kinds.len() >= 2 && kinds[0] == "begin" && kinds[kinds.len() - 1] == "end" && kinds[1..kinds.len() - 1].iter().all(|k| *k == "report");
				if !inside {
					fail("progress", format!("{kinds:?}"))
				}
				if notes.iter().any(|n| Some(&n["token"]) != token.as_ref()) {
					fail("progress", format!("token {token:?}: {notes:?}"))
				}
				// all folders are listed while it lasts
				let first = at_("$/progress").unwrap_or(0);
				let last = names.iter().rposition(|x| *x == "$/progress").unwrap_or(0);
				if names.iter().enumerate().any(|(i, n)| *n == "list" && (i < first || i > last)) {
					fail("progress", format!("folders are listed outside of it: {names:?}"))
				}
			}
		}
	}
	if let Some(x) = names.iter().find(|n| !["client/registerCapability", "window/workDoneProgress/create", "$/progress", "list", "p4analyzer/enumerateFolder"].contains(n)) {
		if !x.starts_with("window/logMessage") && !x.starts_with("$/logTrace") && !x.starts_with("textDocument/publishDiagnostics") {
			fail("stranger", format!("{x} in {names:?}"))
		}
	}
	if bad.is_none() && w.alive() {
		// active now
		let before = w.log.len();
		let id = w.request("textDocument/hover", at("file:///a/x.p4", 0, 0));
		w.notify("initialized", json!({}));
		w.run();
		for i in extra_request.into_iter().chain([id]) {
			if !w.response(i).map_or(false, |x| x["error"].is_null() && x["result"].is_object()) {
				bad = Some(("not-active".into(), format!("request {i}: {:?}", w.response(i))))
			}
		}
		if let Some(m) = w.log[before..].iter().find(|m| m["method"].is_string()) {
			bad = bad.take().or(Some(("again".into(), m.to_string())))
		}
		if found == 1 && count > 1 {
			// the files found are there
			let id = w.request("textDocument/completion", at(&format!("{}/d/y.p4", FOLDERS[0]), 0, 0));
			w.run();
			if w.response(id).map(labels) != Some(Ok(vec!["t".to_string()])) {
				bad = bad.take().or(Some(("not-loaded".into(), format!("{:?}", w.response(id)))))
			}
		}
	}
	r.states += 1;
	r.distinct += (count > 1) as u64;
	r.outcome(&format!("{} folders, progress {}", folders.as_ref().map_or("no".into(), |f| f.len().to_string()), if !progress { "unsupported" } else if create_ok == 2 { "refused" } else { "accepted" }));
	let name = || {
		format!("folders {folders:?}, progress {progress}, register reply {register_ok}, token reply {create_ok}, {} files each, {} file system, while waiting {said:?}: {} choices={:?}",
			found * 2, if own_files { "host's" } else { "client's" }, w.history(), c.choices())
	};
	if let Some((s, d)) = bad {
		r.violation(&s, name(), d)
	} else if count == 3 && r.traces % 97 == 5 {
		r.sample(name())
	}
}

pub fn c18(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("folders", crate::scale::MANY, 4, crate::scale::startup)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c18_small(a);
	r.merge(large);
	r
}
fn c18_small(a: &Args) -> Report {
	let seeds = if a.thorough { 16 } else { 3 };
	let mut r = explore_here(a, u64::MAX, |c: &mut Chooser, r: &mut Report| {
		let seed = c.choose(seeds);
		fresh(seed as u64, || one(c, r, true))
	});
	r.bounds.push(format!("no folders, an empty list, 1 to 3 folders; progress supported or not; registration and token accepted with null or an object, or refused; folders with and without files; the host's and the client's file system; at every wait of the server, one of {EXTRA:?}; {seeds} orders of hash maps"));
	r
}
