//! C14 (the editor's text is the truth), C15 (background loading) and C20 (completion and hover):
//! all interleavings of client messages, disk changes and file system answers up to a length.
use crate::world::*;
use mck::{Args, Chooser, Report};
use std::collections::BTreeMap;

const FOLDER: &str = "file:///ws";
fn uri(f: &str) -> String { format!("file:///ws/{f}.p4") }
fn name(u: &str) -> String { u.rsplit('/').next().unwrap().trim_end_matches(".p4").to_string() }

/// What the client and the disk hold; texts are identifiers and includes only.
#[derive(Default, Clone)]
struct Truth {
	disk: BTreeMap<String, String>,
	open: BTreeMap<String, String>,
}
impl Truth {
	fn text(&self, f: &str) -> Option<&String> { self.open.get(f).or_else(|| self.disk.get(f)) }
	/// Identifiers of the preprocessed text, each once.
	fn labels(&self, f: &str) -> Option<Vec<String>> {
		fn go(t: &Truth, f: &str, chain: &mut Vec<String>, out: &mut Vec<String>) {
			let Some(text) = t.text(f) else { return };
			if chain.iter().any(|c| c == f) {
				return;
			}
			chain.push(f.into());
			for line in text.lines() {
				match line.strip_prefix("#include \"") {
					Some(rest) => go(t, rest.trim_end_matches(".p4\""), chain, out),
					None => {
						for w in line.split(' ').filter(|w| !w.is_empty()) {
							if !out.iter().any(|o| o == w) {
								out.push(w.into())
							}
						}
					}
				}
			}
			chain.pop();
		}
		self.text(f)?;
		let mut out = vec![];
		go(self, f, &mut vec![], &mut out);
		Some(out)
	}
	fn answer(&self, op: &Op) -> Answer {
		match op {
			Op::Enumerate(..) => Answer::Files(self.disk.keys().map(|f| uri(f)).collect()),
			Op::Contents(u) => Answer::Text(self.disk.get(&name(u)).cloned()),
		}
	}
}

struct Stage {
	w: World,
	t: Truth,
	n: usize,
	/// Requests whose answers are already determined: id, what was asked, what is due.
	due: Vec<(i64, String, Vec<String>)>,
	asked: Vec<i64>,
}
impl Stage {
	fn new(t: Truth) -> Stage { Stage { w: World::new(Files::Mock), t, n: 0, due: vec![], asked: vec![] } }
	fn start(&mut self, folders: bool) {
		let t = self.t.clone();
		self.w.start(if folders { Some(&[FOLDER]) } else { None }, &|o| t.answer(o));
		self.w.sent.clear();
	}
	fn run(&mut self) { drop(self.w.run_replying(|_| json!({"result": null}))); }
	fn settle(&mut self) {
		let t = self.t.clone();
		self.w.settle(&|o| t.answer(o));
	}
	fn fresh(&mut self, prefix: &str) -> String {
		self.n += 1;
		format!("{prefix}{}", self.n)
	}
	fn open(&mut self, f: &str, text: String) {
		self.w.notify("textDocument/didOpen", did_open(&uri(f), &text));
		self.t.open.insert(f.into(), text);
	}
	fn close(&mut self, f: &str) {
		self.w.notify("textDocument/didClose", doc(&uri(f)));
		self.t.open.remove(f);
	}
	fn write(&mut self, f: &str, text: String) {
		let typ = if self.t.disk.contains_key(f) { 2 } else { 1 };
		self.t.disk.insert(f.into(), text);
		self.w.notify("workspace/didChangeWatchedFiles", watch(&uri(f), typ));
	}
	fn remove(&mut self, f: &str) {
		self.t.disk.remove(f);
		self.w.notify("workspace/didChangeWatchedFiles", watch(&uri(f), 3));
	}
	fn ask(&mut self, f: &str) -> i64 {
		let id = self.w.request("textDocument/completion", at(&uri(f), 0, 0));
		self.asked.push(id);
		id
	}
	/// The first thing that is wrong.
	fn judge(&self) -> Option<(String, String)> {
		if let Some(b) = &self.w.host.broken {
			return Some((broken_sig(b), b.clone()));
		}
		for (id, f, want) in &self.due {
			match self.w.response(*id).map(labels) {
				Some(Ok(l)) if l == *want => {}
				Some(o) => return Some((format!("answer:{f}"), format!("request {id} about {f}: {o:?}, due {want:?}"))),
				None => return Some((format!("no-answer:{f}"), format!("request {id} about {f} was never answered"))),
			}
		}
		for id in &self.asked {
			if self.w.response(*id).is_none() {
				return Some(("no-answer".into(), format!("request {id} was never answered")));
			}
		}
		None
	}
	fn log(&mut self, s: String) { self.w.sent.push(format!("({s})")) }
}

fn report(c: &Chooser, r: &mut Report, s: &Stage, bad: Option<(String, String)>, every: u64, what: &str) {
	r.states += 1;
	if let Some((sig, d)) = bad {
		r.violation(&sig, format!("{what}: {} choices={:?}", s.w.history(), c.choices()), d)
	} else if r.traces % every == 0 {
		r.sample(s.w.history())
	}
}

/// Answers the k-th pending file system operation from the disk as it is now.
fn answer(s: &mut Stage, k: usize) {
	let (id, op) = s.w.fs.pending()[k].clone();
	let a = s.t.answer(&op);
	s.log(format!("{op:?} answered: {a:?}"));
	s.w.fs.answer(id, a);
}

// ---------------------------------------------------------------- C14

pub fn c14(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("changes of an open document", crate::scale::MANY, 12, crate::scale::edits), ("files, some open", crate::scale::MANY, 16, crate::scale::files)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c14_small(a);
	r.merge(large);
	r
}
fn c14_small(a: &Args) -> Report {
	let depth = if a.thorough { 7 } else { 6 };
	let mut r = explore(a, 0, |c, r| {
		let start = c.choose(4);
		let mut t = Truth::default();
		if start != 3 {
			t.disk.insert("a".into(), "disk0".into());
		}
		let mut s = Stage::new(t);
		s.start(start != 2);
		if start == 0 {
			s.settle()
		}
		// a document that shows what others see of it
		s.open("m", "#include \"a.p4\"".into());
		s.run();
		let batch = c.choose(2) == 1;
		s.log(format!("start {start} batch {batch}"));
		let mut opened = 0;
		for _ in 0..depth {
			let is_open = s.t.open.contains_key("a");
			let on_disk = s.t.disk.contains_key("a");
			let pending = s.w.fs.pending().len();
			let mut options: Vec<(&str, usize)> = vec![];
			if is_open {
				options.extend([("change", 0), ("insert", 0), ("save", 0), ("close", 0)])
			} else {
				options.push(("open", 0))
			}
			options.push(("write", 0));
			if on_disk {
				options.push(("remove", 0))
			}
			// the k-th oldest of the pending operations is answered
			options.extend((0..pending.min(3)).map(|k| ("answer", k)));
			let (what, k) = options[c.choose(options.len())];
			r.transitions += 1;
			match what {
				"open" => {
					let x = s.fresh("open");
					s.open("a", x);
					opened += 1;
				}
				"change" => {
					let x = s.fresh("full");
					s.w.notify("textDocument/didChange", did_change(&uri("a"), json!([{"text": x}])));
					s.t.open.insert("a".into(), x);
				}
				"insert" => {
					let x = s.fresh("part");
					let z = json!({"line": 0, "character": 0});
					s.w.notify("textDocument/didChange", did_change(&uri("a"), json!([{"range": {"start": z, "end": z}, "text": format!("{x} ")}])));
					let old = s.t.open["a"].clone();
					s.t.open.insert("a".into(), format!("{x} {old}"));
				}
				"save" => {
					let text = s.t.open["a"].clone();
					s.w.notify("textDocument/didSave", json!({"textDocument": {"uri": uri("a")}, "text": text}));
				}
				"close" => s.close("a"),
				"write" => {
					let x = s.fresh("disk");
					s.write("a", x)
				}
				"remove" => s.remove("a"),
				_ => answer(&mut s, k),
			}
			if s.t.open.contains_key("a") {
				for f in ["a", "m"] {
					let id = s.ask(f);
					let want = s.t.labels(f).unwrap();
					s.due.push((id, f.into(), want));
				}
			}
			if !batch || what == "answer" {
				s.run()
			}
		}
		s.settle();
		if s.t.open.contains_key("a") {
			for f in ["a", "m"] {
				let id = s.ask(f);
				let want = s.t.labels(f).unwrap();
				s.due.push((id, f.into(), want));
			}
			s.settle();
		}
		if opened > 0 {
			r.distinct += 1
		}
		r.outcome(&format!("start {start}: {} answers about the open document", s.due.len()));
		let bad = s.judge();
		report(c, r, &s, bad, 20011, "editor");
	});
	r.bounds.push(format!("4 starting points (loaded, loading, no folders, not on disk) x every sequence of {depth} of open, change, insert, save, close, disk change or removal with its watch event, answer of any of the three oldest pending loads; every message run at once or queued"));
	r
}

// ---------------------------------------------------------------- C15

pub fn c15(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("files", crate::scale::MANY, 16, crate::scale::files)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c15_small(a);
	r.merge(large);
	r
}
fn c15_small(a: &Args) -> Report {
	let depth = if a.thorough { 5 } else { 4 };
	let files = ["a", "b"];
	let mut r = explore(a, 0, |c, r| {
		let mut t = Truth::default();
		let start = c.choose(4);
		match start {
			0 => {
				t.disk.insert("a".into(), "a0\n#include \"b.p4\"\nz0".into());
				t.disk.insert("b".into(), "b0".into());
			}
			1 => {
				t.disk.insert("a".into(), "a0\n#include \"b.p4\"".into());
			}
			2 => {
				t.disk.insert("a".into(), "a0\n#include \"b.p4\"".into());
				t.disk.insert("b".into(), "b0\n#include \"c.p4\"".into());
				t.disk.insert("c".into(), "c0".into());
			}
			_ => {}
		}
		let mut s = Stage::new(t);
		let folders = c.choose(2) == 0;
		s.start(folders);
		let batch = c.choose(2) == 1;
		s.log(format!("start {start} folders {folders} batch {batch}"));
		let mut deleted: Vec<String> = vec![];
		let mut events = 0;
		for _ in 0..depth {
			let pending = s.w.fs.pending().len();
			let mut options: Vec<(&str, &str, usize)> = vec![];
			options.extend((0..pending.min(4)).map(|k| ("answer", "", k)));
			for f in files {
				options.push(("write", f, 0));
				if f == "a" {
					options.push(("write", f, 1)) // without its include
				}
				if s.t.disk.contains_key(f) {
					options.push(("remove", f, 0))
				}
				if s.t.open.contains_key(f) {
					options.push(("close", f, 0))
				} else {
					options.push(("open", f, 0))
				}
				options.push(("ask", f, 0));
			}
			options.push(("both", "", 0));
			let (what, f, k) = options[c.choose(options.len())];
			r.transitions += 1;
			events += (what != "answer") as usize;
			let text = |s: &mut Stage, f: &str, k: usize, p: &str| {
				let x = s.fresh(&format!("{p}{f}"));
				if f == "a" && k == 0 {
					format!("{x}\n#include \"b.p4\"")
				} else {
					x
				}
			};
			match what {
				"answer" => answer(&mut s, k),
				"write" => {
					let x = text(&mut s, f, k, "disk");
					s.write(f, x)
				}
				"remove" => {
					s.remove(f);
					deleted.push(f.into())
				}
				"open" => {
					let x = text(&mut s, f, 0, "open");
					s.open(f, x)
				}
				"close" => s.close(f),
				"ask" => drop(s.ask(f)),
				_ => {
					// one notification for two files
					let mut changes = vec![];
					for f in files {
						let x = text(&mut s, f, 0, "disk");
						let typ = if s.t.disk.contains_key(f) { 2 } else { 1 };
						s.t.disk.insert(f.into(), x);
						changes.push(json!({"uri": uri(f), "type": typ}));
					}
					s.w.notify("workspace/didChangeWatchedFiles", json!({ "changes": changes }));
				}
			}
			if !batch || what == "answer" {
				s.run()
			}
		}
		s.settle();
		let mut bad = s.judge();
		// ask twice: the first answers may start loads of what they include
		let all = ["a", "b", "c"];
		let mut ids = vec![];
		for _ in 0..2 {
			ids = all.iter().map(|f| s.ask(f)).collect();
			s.settle();
		}
		for (f, id) in all.iter().zip(ids) {
			if bad.is_some() {
				break;
			}
			let got = s.w.response(id).map(labels);
			let ok = match (&got, s.t.labels(f)) {
				(Some(Ok(l)), Some(want)) => *l == want,
				(Some(Err(_)), None) => true,
				(Some(Ok(l)), None) => l.is_empty() && deleted.iter().any(|d| d == f),
				_ => false,
			};
			if !ok {
				let sig = if got.is_none() { "no-answer" } else { "stale" };
				bad = Some((format!("{sig}:{f}"), format!("about {f}: {got:?}, due {:?}", s.t.labels(f))));
			}
		}
		bad = bad.or(s.judge());
		if events > 0 {
			r.distinct += 1
		}
		r.outcome(&format!("start {start}: {} loads", s.w.fs.history().len().min(9)));
		report(c, r, &s, bad, 20011, "loading");
	});
	r.bounds.push(format!("4 disks (include present, missing, chain of three, empty) x with and without folders x run at once or queued x every sequence of {depth} of writes and removals with their watch events, opens, closes, requests, answers of any of the four oldest pending loads"));
	r
}

// ---------------------------------------------------------------- C20

const TEXTS: [&str; 9] = [
	"a b a",
	"",
	"#define a x y\na a b",
	"#if 0\nhidden\n#else\nshown\n#endif\nshown tail",
	"b\n\"str a\" 7 apply { a.b(c) } // d\n/* e */ f",
	"#include \"inc.p4\"\na",
	"a\n#include \"inc.p4\"\n#include \"inc.p4\"\nz inc1",
	"é ü a",
	"#include \"none.p4\"\nk",
];
const INSERTS: [(u32, u32, u32, u32, &str); 7] = [
	(0, 0, 0, 0, "new "),
	(0, 1, 0, 1, "x"),
	(0, 0, 0, 1, ""),
	(0, 0, 1, 0, ""),
	(1, 0, 1, 0, "line\n"),
	(0, 0, 0, 0, "#define b q r\n"),
	(0, 0, 0, 0, "\n"),
];

/// Applies a change by LSP positions; None when the position is not in the text.
fn edit(text: &str, (l1, c1, l2, c2, new): (u32, u32, u32, u32, &str)) -> Option<String> {
	let at = |l: u32, c: u32| -> Option<usize> {
		let mut start = 0;
		for _ in 0..l {
			start += text[start..].find('\n')? + 1
		}
		let line = text[start..].split('\n').next().unwrap();
		let (i, _) = line.char_indices().chain([(line.len(), ' ')]).nth(c as usize)?;
		Some(start + i)
	};
	let (i, j) = (at(l1, c1)?, at(l2, c2)?);
	Some(format!("{}{new}{}", &text[..i], &text[j..]))
}

/// Identifiers of the preprocessed text of a new analyzer that knows these files.
fn expected(files: &BTreeMap<String, String>, f: &str) -> Vec<String> {
	use analyzer_core::lexer::Token;
	let resolve = |_: &str, p: &str| std::result::Result::<String, String>::Ok(uri(p.trim_end_matches(".p4")));
	let mut an = analyzer_core::Analyzer::new(resolve, |_: &str| {});
	for (f, text) in files {
		let id = an.file_id(&uri(f));
		an.update(id, text);
	}
	let id = an.file_id(&uri(f));
	let mut out: Vec<String> = vec![];
	for (_, t, _) in an.preprocessed(id).expect("known").iter() {
		if let Token::Identifier(n) = t {
			let n = n.to_string();
			if !out.contains(&n) {
				out.push(n)
			}
		}
	}
	out
}

pub fn c20(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("names", &[20, 70, 130, 260, 300, 1030], 4, crate::scale::names), ("changes", &[70, 130], 12, crate::scale::edits)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c20_small(a);
	r.merge(large);
	r
}
fn c20_small(a: &Args) -> Report {
	let depth = if a.thorough { 4 } else { 3 };
	let mut r = explore(a, 0, |c, r| {
		let mut t = Truth::default();
		t.disk.insert("inc".into(), "inc1 inc2".into());
		let mut s = Stage::new(t);
		s.start(true);
		s.settle();
		let batch = c.choose(2) == 1;
		let mut texts: BTreeMap<String, String> = BTreeMap::new();
		texts.insert("inc".into(), "inc1 inc2".into());
		let first = TEXTS[c.choose(TEXTS.len())];
		s.open("d", first.into());
		texts.insert("d".into(), first.into());
		let mut bad: Option<(String, String)> = None;
		let mut due: Vec<(i64, Vec<String>)> = vec![];
		let mut hovers: Vec<(i64, u32, u32)> = vec![];
		let mut ask = |s: &mut Stage, texts: &BTreeMap<String, String>| {
			let d = s.w.request("textDocument/completion", at(&uri("d"), 0, 0));
			due.push((d, expected(texts, "d")));
			let (l, k) = [(0, 0), (3, 7), (4294967295, 12)][s.w.sent.len() % 3];
			let h = s.w.request("textDocument/hover", at(&uri("d"), l, k));
			hovers.push((h, l, k));
		};
		ask(&mut s, &texts);
		if !batch {
			s.run()
		}
		let mut changed = 0;
		for _ in 0..depth {
			let d = texts["d"].clone();
			let can: Vec<_> = INSERTS.iter().filter(|e| edit(&d, **e).is_some()).collect();
			let k = c.choose(3 + 3 + can.len() + 1);
			r.transitions += 1;
			match k {
				0..=2 => {
					// replace the whole text
					let x = TEXTS[[2, 5, 1][k]];
					s.w.notify("textDocument/didChange", did_change(&uri("d"), json!([{"text": x}])));
					texts.insert("d".into(), x.into());
				}
				3 => {
					// two changes in one notification, the second on the result of the first
					let z = json!({"line": 0, "character": 0});
					s.w.notify("textDocument/didChange", did_change(&uri("d"), json!([{"text": "two parts"}, {"range": {"start": z, "end": z}, "text": "first "}])));
					texts.insert("d".into(), "first two parts".into());
				}
				4 => {
					// the included file is edited
					let x = if texts["inc"] == "inc1 inc2" { "inc3 a" } else { "inc1 inc2" };
					if s.t.open.contains_key("inc") {
						s.w.notify("textDocument/didChange", did_change(&uri("inc"), json!([{"text": x}])));
						s.t.open.insert("inc".into(), x.into());
					} else {
						s.open("inc", x.into())
					}
					texts.insert("inc".into(), x.into());
				}
				5 => {
					s.w.notify("textDocument/didSave", json!({"textDocument": {"uri": uri("d")}, "text": d}));
				}
				6 => {
					// close and open again with another text
					s.w.notify("textDocument/didClose", doc(&uri("d")));
					s.open("d", "again a".into());
					texts.insert("d".into(), "again a".into());
				}
				k => {
					let e = *can[k - 7];
					let (p, q) = (json!({"line": e.0, "character": e.1}), json!({"line": e.2, "character": e.3}));
					s.w.notify("textDocument/didChange", did_change(&uri("d"), json!([{"range": {"start": p, "end": q}, "text": e.4}])));
					texts.insert("d".into(), edit(&d, e).unwrap());
				}
			}
			changed += 1;
			ask(&mut s, &texts);
			if !batch {
				s.run()
			}
		}
		let missing = s.w.request("textDocument/completion", at(&uri("missing"), 0, 0));
		s.settle();
		if let Some(b) = &s.w.host.broken {
			bad = Some((broken_sig(b), b.clone()))
		}
		for (id, want) in &due {
			let got = s.w.response(*id).map(labels);
			if got != Some(Ok(want.clone())) {
				bad = bad.or(Some(("completion".into(), format!("request {id}: {got:?}, due {want:?}"))));
			}
		}
		for (id, l, k) in &hovers {
			let got = s.w.response(*id).map(|r| r["result"]["contents"].to_string()).unwrap_or_default();
			let nums: Vec<u32> = got.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
			if nums != [*l, *k] {
				bad = bad.or(Some(("hover".into(), format!("asked at {l},{k}: {got}"))));
			}
		}
		if !matches!(s.w.response(missing).map(labels), Some(Err(_))) {
			bad = bad.or(Some(("missing".into(), format!("a missing document: {:?}", s.w.response(missing)))));
		}
		if changed > 0 {
			r.distinct += 1
		}
		r.outcome(&format!("{} identifiers at the end", due.last().unwrap().1.len()));
		report(c, r, &s, bad, 5003, "document");
	});
	r.bounds.push(format!("{} texts x every sequence of {depth} changes (full, partial, two at once, of the included file, save, reopen), requests after each, run at once or queued", TEXTS.len()));
	r
}
