//! C16: every document belongs to the innermost folder that contains it, or to none.
use crate::world::*;
use analyzer_abstractions::fs::AnyEnumerableFileSystem;
use analyzer_abstractions::lsp_types::{Url, WorkspaceFolder};
use analyzer_host::lsp::workspace::{File, WorkspaceManager};
use analyzer_host::verif::{AnyBackgroundLoad, BackgroundLoad};
use mck::{Args, Chooser, Report};
use std::sync::{Arc, Mutex};

const FOLDERS: [&str; 14] = [
	"file:///ws", "file:///ws/", "file:///ws/sub", "file:///ws2", "file:///", "file:///ws/sub%20x", "file:///ws/sub/deep/er", "vscode-remote://h/ws",
	"file://host/ws", "vscode-remote://h/ws/sub/", "file:///w", "vscode-remote://h2/ws", "file:///ws/a.p4", "file:///WS",
];
const DOCS: [&str; 20] = [
	"file:///ws/a.p4", "file:///ws/sub/a.p4", "file:///ws2/a.p4", "file:///ws/sub%20x/a.p4", "file:///ws/subling.p4", "file:///a.p4",
	"file:///other/ws/a.p4", "vscode-remote://h/ws/a.p4", "vscode-remote://h/ws/sub/a.p4", "vscode-remote://h2/ws/a.p4", "file://host/ws/a.p4",
	"untitled:Untitled-1", "untitled:/ws/a.p4", "file:///ws/sub/deep/a.p4", "file:///ws/sub/deep/er/a.p4", "http://h/ws/a.p4",
	"file:///ws/%C3%A9%23.p4", "file:///ws.p4", "file:///WS/a.p4", "file:///w/s/a.p4",
];

#[derive(Default, Clone)]
struct Recorder(Arc<Mutex<Vec<String>>>);
impl BackgroundLoad for Recorder {
	fn load(&self, u: Url) { self.0.lock().unwrap().push(u.to_string()) }
}

fn segments(u: &Url) -> Vec<String> { u.path().split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() }
fn contains(folder: &str, doc: &str) -> bool {
	let (f, d) = (Url::parse(folder).unwrap(), Url::parse(doc).unwrap());
	if d.cannot_be_a_base() || f.scheme() != d.scheme() || f.host_str() != d.host_str() {
		return false;
	}
	let (f, d) = (segments(&f), segments(&d));
	d.len() > f.len() && d[..f.len()] == f[..]
}
fn owner<'a>(folders: &[&'a str], doc: &str) -> Option<&'a str> {
	folders.iter().filter(|f| contains(f, doc)).max_by_key(|f| segments(&Url::parse(f).unwrap()).len()).copied()
}
/// Sets of folders without two that are the same one.
fn sets(max: usize) -> Vec<Vec<&'static str>> {
	let place = |f: &str| {
		let u = Url::parse(f).unwrap();
		(u.scheme().to_string(), u.host_str().map(|h| h.to_string()), segments(&u))
	};
	let mut all: Vec<Vec<&'static str>> = vec![vec![]];
	let mut last = all.clone();
	for _ in 0..max {
		let mut next = vec![];
		for s in &last {
			let from = s.last().map_or(0, |l| FOLDERS.iter().position(|f| f == l).unwrap() + 1);
			for f in &FOLDERS[from..] {
				if s.iter().all(|x| place(x) != place(f)) {
					let mut n = s.clone();
					n.push(f);
					next.push(n)
				}
			}
		}
		all.extend(next.clone());
		last = next;
	}
	all
}

struct Books {
	m: WorkspaceManager,
	fs: Fs,
	loads: Recorder,
}
fn books(folders: Option<&[&str]>) -> Books {
	let (fs, loads) = (Fs::default(), Recorder::default());
	let any: Arc<AnyEnumerableFileSystem> = Arc::new(Box::new(fs.clone()));
	let rec: Arc<AnyBackgroundLoad> = Arc::new(loads.clone());
	let list = folders.map(|f| f.iter().map(|u| WorkspaceFolder { uri: Url::parse(u).unwrap(), name: "n".into() }).collect());
	Books { m: WorkspaceManager::new(any, list, rec), fs, loads }
}

/// Everything about one document and one set of folders, under one sequence of operations.
fn lookup(folders: Option<&[&str]>, doc: &str, ops: &[usize]) -> Result<String, (String, String)> {
	let mut b = books(folders);
	let set = folders.unwrap_or(&[]);
	let url = Url::parse(doc).unwrap();
	let mut entry: Option<Arc<File>> = None;
	let mut open = false;
	let due = owner(set, doc);
	let mut indexed = vec![];
	for op in ops {
		match op {
			0 | 1 => {
				let got = b.m.get_file(url.clone());
				if got.document_identifier.uri != url {
					return Err(("entry".into(), format!("the entry is that of {}", got.document_identifier.uri)));
				}
				if let Some(e) = &entry {
					if !Arc::ptr_eq(e, &got) {
						return Err(("entry".into(), "a second entry was returned".into()));
					}
				}
				let known = indexed.iter().any(|f: &&str| Some(*f) == due);
				if entry.is_none() && !known && !b.loads.0.lock().unwrap().iter().any(|l| *l == url.to_string()) {
					return Err(("not-loaded".into(), "a new entry is not loaded".into()));
				}
				entry = Some(got.clone());
				if *op == 1 {
					let id = analyzer_core::Analyzer::new(|_, p| Ok(p.into()), |_| {}).file_id(doc);
					got.open_or_update(id);
					open = true;
				}
				if got.is_open_in_ide() != open {
					return Err(("open".into(), format!("open: {}, should be {open}", got.is_open_in_ide())));
				}
			}
			k => {
				let Some(f) = set.get(k - 2) else { continue };
				let w = b.m.workspaces.iter().find(|(u, _)| **u == Url::parse(f).unwrap()).map(|(_, w)| w.clone());
				let Some(w) = w else { return Err(("folder".into(), format!("folder {f} is unknown"))) };
				indexed.push(*f);
				let mut run = Driven::new(async move { w.index().await });
				run.run();
				let Some((id, Op::Enumerate(u, _))) = b.fs.pending().pop() else {
					return Err(("index".into(), format!("folder {f} is not listed")));
				};
				if Url::parse(&u).unwrap() != Url::parse(f).unwrap() {
					return Err(("index".into(), format!("folder {f}: {u} is listed")));
				}
				b.fs.answer(id, Answer::Files(if contains(f, doc) { vec![doc.into()] } else { vec![] }));
				run.run();
				if run.done.is_none() {
					return Err(("index".into(), format!("indexing {f} did not end: {:?}", run.broken)));
				}
				if contains(f, doc) && !b.loads.0.lock().unwrap().iter().any(|l| *l == url.to_string()) {
					return Err(("not-loaded".into(), format!("found in {f} but not loaded")));
				}
			}
		}
	}
	let last = b.m.get_file(url.clone());
	if entry.as_ref().map_or(false, |e| !Arc::ptr_eq(e, &last)) || last.is_open_in_ide() != open {
		return Err(("entry".into(), "the entry has changed".into()));
	}
	// who holds the entry that lookups return
	let holders: Vec<String> = (&b.m)
		.into_iter()
		.filter(|(_, w)| w.files.read().unwrap().get(&url).map_or(false, |f| Arc::ptr_eq(f, &last)))
		.map(|(u, _)| u.to_string())
		.collect();
	let want: Vec<String> = due.iter().map(|f| Url::parse(f).unwrap().to_string()).collect();
	if folders.is_some() && holders != want {
		let sig = if want.is_empty() { "claimed" } else if holders.is_empty() { "unclaimed" } else { "not-innermost" };
		return Err((sig.into(), format!("held by {holders:?}, should be {want:?}")));
	}
	// another document has another entry
	for d in DOCS.iter().filter(|d| **d != doc) {
		if Arc::ptr_eq(&b.m.get_file(Url::parse(d).unwrap()), &last) {
			return Err(("shared".into(), format!("{d} has the same entry")));
		}
	}
	Ok(match due {
		None => "outside every folder".into(),
		Some(_) => format!("inside {} of {} folders", set.iter().filter(|f| contains(f, doc)).count(), set.len()),
	})
}

/// The whole server with a document anywhere.
fn served(folders: Option<&[&str]>, doc_uri: &str, opened: bool) -> Result<(), (String, String)> {
	let mut w = World::new(Files::Mock);
	let disk = |op: &Op| match op {
		Op::Enumerate(f, _) => Answer::Files(if contains(f, doc_uri) { vec![doc_uri.to_string()] } else { vec![] }),
		Op::Contents(u) if u.starts_with("file://") => Answer::Text(Some("disk".into())),
		Op::Contents(_) => Answer::Text(None),
	};
	w.start(folders, &disk);
	if opened {
		w.notify("textDocument/didOpen", did_open(doc_uri, "#include \"a.p4\"\nmine"));
	}
	let id = w.request("textDocument/completion", at(doc_uri, 0, 0));
	w.settle(&disk);
	let id2 = w.request("textDocument/hover", at(doc_uri, 0, 0));
	w.notify("workspace/didChangeWatchedFiles", watch(doc_uri, 2));
	w.notify("textDocument/didClose", doc(doc_uri));
	w.settle(&disk);
	let id3 = w.request("textDocument/completion", at(doc_uri, 0, 0));
	w.settle(&disk);
	if let Some(b) = &w.host.broken {
		return Err((broken_sig(b), b.clone()));
	}
	for (id, what) in [(id, "completion"), (id2, "hover"), (id3, "completion after the close")] {
		let Some(answer) = w.response(id) else { return Err(("no-answer".into(), format!("{what} was not answered"))) };
		let l = labels(answer);
		let good = match (what, opened) {
			("hover", _) => answer["error"].is_null(),
			("completion", true) => l.as_ref().map_or(false, |l| l.contains(&"mine".to_string())),
			_ if Url::parse(doc_uri).unwrap().scheme() == "file" => l == Ok(vec!["disk".to_string()]),
			_ => l.is_err(),
		};
		if !good {
			return Err(("answer".into(), format!("{what}: {answer}")));
		}
	}
	Ok(())
}

/// n folders inside each other, side by side, or both; a document in each, and beside them.
fn many_folders(n: usize, v: usize) -> Option<(String, String)> {
	let folders: Vec<String> = (0..n)
		.map(|i| match v % 3 {
			0 => format!("file:///w{}", "/d".repeat(i)),
			1 => format!("file:///w/d{i}"),
			_ => format!("file:///w{}/e{}", "/d".repeat(i / 4), i % 4),
		})
		.collect();
	let mut set: Vec<&str> = folders.iter().map(|s| &s[..]).collect();
	if v / 3 % 2 == 1 {
		set.reverse()
	}
	let docs: Vec<String> = folders.iter().flat_map(|f| [format!("{f}/a.p4"), format!("{f}/x/y/b.p4"), format!("{f}0.p4")]).chain(["untitled:x".to_string()]).collect();
	let step = docs.len() / 25 + 1;
	for d in docs.iter().step_by(step) {
		for ops in [&[0usize, 1][..], &[1, 0], &[0, 2 + n / 2, 0]] {
			if let Err(e) = lookup(Some(&set), d, ops) {
				return Some((e.0, format!("{d}: {}", e.1)));
			}
		}
	}
	for d in docs.iter().step_by(step * 5) {
		for opened in [false, true] {
			analyzer_abstractions::vlocal::reset();
			if let Err(e) = served(Some(&set), d, opened) {
				return Some((e.0, format!("{d}, opened {opened}: {}", e.1)));
			}
		}
	}
	None
}

pub fn c16(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("folders", &[5, 10, 20, 40, 70, 130], 6, many_folders)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c16_small(a);
	r.merge(large);
	r
}
fn c16_small(a: &Args) -> Report {
	let (max, len, seeds) = if a.thorough { (3, 5, 4) } else { (3, 3, 2) };
	let sets = sets(max);
	let ops: Vec<Vec<usize>> = mck::strings(&(0..2 + max).collect::<Vec<_>>(), len)
		.into_iter()
		.filter(|v| !v.is_empty() && (2..5).all(|k| v.iter().filter(|x| **x == k).count() < 2))
		.collect();
	let mut all = Report::new();
	let name = |s: &Option<&[&str]>, d: &str, rest: &str, i: usize, j: usize, seed: usize| {
		format!("folders {s:?} document {d} {rest} seed {seed} choices=[{i},{j},{seed}]")
	};
	all.merge(explore_here(a, u64::MAX, |c: &mut Chooser, r: &mut Report| {
		let i = c.choose(sets.len() + 1);
		let j = c.choose(DOCS.len());
		let seed = c.choose(seeds);
		// the first is a session without folders
		let set: Option<&[&str]> = if i == 0 { None } else { Some(&sets[i - 1]) };
		let n = set.map_or(0, |s| s.len());
		fresh(seed as u64, || {
			let mut worst: Option<((String, String), String)> = None;
			for o in ops.iter().filter(|o| o.iter().all(|x| *x < 2 + n)) {
				r.states += 1;
				r.transitions += o.len() as u64;
				match mck::catch(|| lookup(set, DOCS[j], o)) {
					Ok(Ok(what)) => r.outcome(&what),
					Ok(Err(e)) => worst = worst.take().or(Some((e, format!("operations {o:?}")))),
					Err(p) => worst = worst.take().or(Some(((broken_sig(&format!("panic: {p}")), p), format!("operations {o:?}")))),
				}
			}
			for opened in [false, true] {
				r.states += 1;
				r.transitions += 7;
				analyzer_abstractions::vlocal::reset();
				if let Err(e) = served(set, DOCS[j], opened) {
					worst = worst.take().or(Some((e, format!("server, opened {opened}"))))
				}
			}
			r.distinct += (n > 0) as u64;
			if let Some(((sig, d), what)) = worst {
				r.violation(&sig, name(&set, DOCS[j], &what, i, j, seed), d)
			} else if n == 3 && seed == 0 {
				r.sample(name(&set, DOCS[j], "", i, j, seed))
			}
		})
	}));
	all.bounds.push(format!("all sets of up to {max} of {FOLDERS:?} and a session without folders, x {DOCS:?}, x {seeds} orders of hash maps"));
	all.bounds.push(format!("all sequences of up to {len} lookups, openings and indexings (each folder once) of the document, all other documents afterwards; the whole server: completion, hover, file change, close, completion, with the document opened or not"));
	all
}
