//! C21: the diagnostics the server computes are exactly those of the current text.
use crate::world::*;
use analyzer_core::lsp_file::{ChangeEvent, Position, Range};
use analyzer_core::Analyzer;
use mck::{Args, Report};
use std::collections::BTreeSet;

const LINES: [&str; 16] = [
	"a b;", "x é`日 y", "#endif", "#if 1", "#include \"gone.p4\"", "/*", "#if 0", "#else", "#include \"k.p4\"", "*/", "8w", "#elif 1", "#bogus x", "#if (", "", "é /* é */ `",
];
const K: &str = "k `\n#bogus\n8w\n";

type Area = ((u32, u32), (u32, u32));
/// The problems of a text made of these lines: those that must be reported, those that may be.
fn problems(seq: &[usize], ended: bool, k_known: bool) -> (BTreeSet<Area>, BTreeSet<Area>) {
	let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
	let chars = |i: usize| LINES[seq[i]].chars().count() as u32;
	let last = seq.len();
	let eof = if last == 0 { (0, 0) } else if ended { (last as u32, 0) } else { (last as u32 - 1, chars(last - 1)) };
	// a directive extends over the end of its line
	let whole = |i: usize| ((i as u32, 0), if i + 1 == last { eof } else { (i as u32 + 1, 0) });
	struct Frame {
		line: usize,
		taken: bool,
		active: bool,
		parent: bool,
		closing: bool,
	}
	let mut st: Vec<Frame> = vec![];
	let mut i = 0;
	while i < last {
		let live = st.last().map_or(true, |f| f.active && f.parent);
		let line = LINES[seq[i]];
		let mut on = |b: bool, a: Area| if b { must.insert(a) } else { may.insert(a) };
		match line {
			"x é`日 y" => drop(on(true, ((i as u32, 2), (i as u32, 5)))),
			"8w" => drop(on(true, ((i as u32, 0), (i as u32, 2)))),
			"é /* é */ `" => {
				on(true, ((i as u32, 0), (i as u32, 1)));
				on(true, ((i as u32, 10), (i as u32, 11)));
			}
			"/*" => match (i + 1..last).find(|j| LINES[seq[*j]].contains("*/")) {
				Some(j) => {
					if LINES[seq[j]] != "*/" {
						// the rest of that line counts
						on(true, ((j as u32, 10), (j as u32, 11)));
					}
					i = j
				}
				None => {
					on(true, ((i as u32, 0), eof));
					i = last
				}
			},
			"#bogus x" => drop(on(live, whole(i))),
			"#include \"gone.p4\"" => drop(on(live, whole(i))),
			"#include \"k.p4\"" => {
				if !k_known {
					on(live, whole(i));
				}
			}
			"#if 1" | "#if 0" | "#if (" => {
				if line == "#if (" {
					on(live, whole(i));
				}
				let c = line == "#if 1";
				st.push(Frame { line: i, taken: c, active: c, parent: live, closing: false })
			}
			"#elif 1" | "#else" => match st.last_mut() {
				None => drop(on(true, whole(i))),
				Some(f) => {
					if f.closing {
						on(f.parent, whole(i));
					}
					f.active = !f.taken && !f.closing;
					f.taken |= f.active;
					f.closing |= line == "#else";
				}
			},
			"#endif" => {
				if st.pop().is_none() {
					on(true, whole(i));
				}
			}
			_ => {}
		}
		i += 1
	}
	for f in st {
		must.insert(whole(f.line));
	}
	(must, may)
}

fn text(seq: &[usize], ended: bool) -> String {
	let mut t = seq.iter().map(|l| LINES[*l]).collect::<Vec<_>>().join("\n");
	if ended && !seq.is_empty() {
		t.push('\n')
	}
	t
}

struct Diag {
	area: Area,
	message: String,
	severe: bool,
}
fn wrong(got: &[Diag], seq: &[usize], ended: bool, k_known: bool) -> Option<(String, String)> {
	let (must, may) = problems(seq, ended, k_known);
	let show = || got.iter().map(|d| format!("{:?} {}", d.area, d.message)).collect::<Vec<_>>();
	for (n, d) in got.iter().enumerate() {
		if !must.contains(&d.area) && !may.contains(&d.area) {
			return Some(("stray".into(), format!("{:?} {:?} is not a problem of this text; due {must:?}", d.area, d.message)));
		}
		if !d.severe {
			return Some(("severity".into(), format!("{:?} {:?}", d.area, d.message)));
		}
		if got[..n].iter().any(|e| e.area == d.area && e.message == d.message) {
			return Some(("twice".into(), format!("{:?} {:?}", d.area, d.message)));
		}
	}
	must.iter().find(|m| !got.iter().any(|d| d.area == **m)).map(|m| ("missing".into(), format!("nothing is reported at {m:?}: {:?}", show())))
}

fn asked(an: &Analyzer, uri: &str, t: &str) -> Vec<Diag> {
	analyzer_host::verif::diagnostics(an, an.file_id(uri), t)
		.into_iter()
		.map(|d| Diag {
			area: ((d.range.start.line, d.range.start.character), (d.range.end.line, d.range.end.character)),
			message: d.message,
			severe: d.severity == Some(analyzer_abstractions::lsp_types::DiagnosticSeverity::ERROR),
		})
		.collect()
}

/// What a history does after the text is known: 0.. replaces line j by l, by a range or by the whole text; changes of the included file.
#[derive(Debug, Clone)]
enum Step {
	Line(usize, usize),
	Whole(usize, usize),
	Drop(usize),
	Insert(usize, usize),
	KGone,
	KBack,
	KFixed,
}

fn judge(seq: &[usize], ended: bool, steps: &[Step], r: &mut Report, case: &dyn Fn() -> String) {
	let res = mck::catch(|| {
		let mut an = Analyzer::new(|_, p| Ok(format!("file:///{p}")), |_| {});
		let (id, k) = (an.file_id("file:///t.p4"), an.file_id("file:///k.p4"));
		let mut seq = seq.to_vec();
		let mut k_known = true;
		an.update(k, &K.to_string());
		let mut t = text(&seq, ended);
		an.update(id, &t);
		if let Some((s, d)) = wrong(&asked(&an, "file:///t.p4", &t), &seq, ended, k_known) {
			return Some((s, d));
		}
		for s in steps {
			let at = |line: usize, character: usize| Position { line, character };
			match s.clone() {
				Step::Line(j, l) => {
					let n = LINES[seq[j]].chars().count();
					an.file_change_event(id, &vec![ChangeEvent { range: Some(Range { start: at(j, 0), end: at(j, n) }), text: LINES[l].into() }]);
					seq[j] = l;
				}
				Step::Whole(j, l) => {
					seq[j] = l;
					an.file_change_event(id, &vec![ChangeEvent { range: None, text: text(&seq, ended) }]);
				}
				Step::Drop(j) => {
					an.file_change_event(id, &vec![ChangeEvent { range: Some(Range { start: at(j, 0), end: at(j + 1, 0) }), text: String::new() }]);
					seq.remove(j);
				}
				Step::Insert(j, l) => {
					an.file_change_event(id, &vec![ChangeEvent { range: Some(Range { start: at(j, 0), end: at(j, 0) }), text: format!("{}\n", LINES[l]) }]);
					seq.insert(j, l);
				}
				Step::KGone => {
					an.delete("file:///k.p4");
					k_known = false;
				}
				Step::KBack => {
					an.update(k, &K.to_string());
					k_known = true;
				}
				Step::KFixed => {
					an.update(k, &"k\n".to_string());
					k_known = true;
				}
			}
			let before = t.clone();
			t = text(&seq, ended);
			// the server passes the text of before the change
			if let Some((s, d)) = wrong(&asked(&an, "file:///t.p4", &before), &seq, ended, k_known) {
				return Some((s, format!("{d} (text now {t:?})")));
			}
		}
		None
	});
	r.states += 1 + steps.len() as u64;
	r.transitions += steps.len() as u64;
	r.traces += 1;
	match res {
		Ok(None) => {}
		Ok(Some((s, d))) => r.violation(&s, case(), d),
		Err(p) => r.violation(&broken_sig(&format!("panic: {p}")), case(), p),
	}
}

/// Everything the server publishes while a document is opened, changed and saved.
fn served(a: &[usize], b: &[usize], r: &mut Report, case: &dyn Fn() -> String) {
	analyzer_abstractions::vlocal::reset();
	let u = "file:///w/t.p4";
	let disk = |op: &Op| match op {
		Op::Enumerate(..) => Answer::Files(vec!["file:///w/k.p4".into()]),
		Op::Contents(u) => Answer::Text(u.ends_with("k.p4").then(|| K.into())),
	};
	let mut w = World::new(Files::Mock);
	w.start(Some(&["file:///w"]), &disk);
	w.settle(&disk);
	let mut bad = None;
	let mut now = a.to_vec();
	for k in 0..4 {
		match k {
			0 => drop(w.notify("textDocument/didOpen", did_open(u, &text(a, true)))),
			1 => {
				now = b.to_vec();
				w.notify("textDocument/didChange", did_change(u, json!([{"text": text(b, true)}])));
			}
			2 => drop(w.notify("textDocument/didSave", json!({"textDocument": {"uri": u}, "text": text(b, true)}))),
			_ => {
				now = a.to_vec();
				w.notify("textDocument/didChange", did_change(u, json!([{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 99, "character": 0}}, "text": text(a, true)}])));
			}
		}
		let new = w.settle(&disk);
		for m in new.iter().filter(|m| m["method"] == "textDocument/publishDiagnostics" && m["params"]["uri"] == u) {
			let pos = |v: &Value| (v["line"].as_u64().unwrap_or(9999) as u32, v["character"].as_u64().unwrap_or(9999) as u32);
			let got: Vec<Diag> = m["params"]["diagnostics"]
				.as_array()
				.map(|v| {
					v.iter()
						.map(|d| Diag {
							area: (pos(&d["range"]["start"]), pos(&d["range"]["end"])),
							message: d["message"].to_string(),
							severe: d["severity"] == 1,
						})
						.collect()
				})
				.unwrap_or_default();
			r.evaluations += 1;
			bad = bad.or(wrong(&got, &now, true, true));
		}
		if let Some(b) = &w.host.broken {
			bad = bad.or(Some((broken_sig(b), b.clone())));
			break;
		}
	}
	r.states += 4;
	r.transitions += 4;
	r.traces += 1;
	if let Some((s, d)) = bad {
		r.violation(&format!("published:{s}"), case(), d)
	}
}

fn steps_for(n: usize, lines: usize) -> Vec<Step> {
	let mut v = vec![Step::KGone, Step::KFixed, Step::KBack];
	for j in 0..n {
		v.push(Step::Drop(j));
		for l in 0..lines {
			v.push(Step::Line(j, l));
			v.push(Step::Whole(j, l));
			v.push(Step::Insert(j, l));
		}
	}
	v
}

pub fn c21(a: &Args) -> Report {
	let large = crate::scale::run(a, &[("lines with problems", &[20, 70, 101, 130, 260, 300], 4, crate::scale::problems), ("lines with problems", &[1030], 3, crate::scale::problems)]);
	if crate::scale::is_large(a) {
		return large;
	}
	let mut r = c21_small(a);
	r.merge(large);
	r
}
fn c21_small(a: &Args) -> Report {
	if let Some(case) = &a.replay {
		// cases end with ` items=[..] ended=.. steps=[a,b]`
		let part = |k: &str| case.rsplit(&format!(" {k}=")).next().unwrap().split(' ').next().unwrap().to_string();
		let list = |s: String| -> Vec<usize> { s.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.parse().ok()).collect() };
		let mut r = Report::new();
		let seq = list(part("items"));
		if case.starts_with("server") {
			served(&seq, &list(part("then")), &mut r, &|| case.clone());
			return r;
		}
		let ended = part("ended") == "true";
		let mut steps = vec![];
		let mut n = seq.len();
		for k in list(part("steps")) {
			let s = steps_for(n, LINES.len())[k].clone();
			match s {
				Step::Drop(_) => n -= 1,
				Step::Insert(..) => n += 1,
				_ => {}
			}
			steps.push(s)
		}
		judge(&seq, ended, &steps, &mut r, &|| case.clone());
		return r;
	}
	let nums = |v: &[usize]| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
	let mut all = Report::new();
	let (long, pairs) = if a.thorough { (4, 3) } else { (3, 2) };
	// one step after texts of up to `long` lines
	let every: Vec<Vec<usize>> = mck::strings(&(0..LINES.len()).collect::<Vec<_>>(), long);
	all.merge(mck::par(&every, |seq, r| {
		for ended in [true, false] {
			if seq.last().map_or(false, |l| LINES[*l].is_empty()) && !ended {
				continue; // that is another text
			}
			let case = |s: &[Step], k: &[usize]| format!("{:?} then {s:?} items={} ended={ended} steps={}", text(seq, ended), nums(seq), nums(k));
			let (must, _) = problems(seq, ended, true);
			r.outcome(&format!("{} problems", must.len()));
			r.distinct += (!must.is_empty()) as u64;
			if seq.len() == long {
				judge(seq, ended, &[], r, &|| case(&[], &[]));
				continue;
			}
			let steps = steps_for(seq.len(), LINES.len());
			for (k, s) in steps.iter().enumerate() {
				if matches!(s, Step::Drop(_)) && !ended {
					continue;
				}
				judge(seq, ended, &[s.clone()], r, &|| case(&[s.clone()], &[k]));
				if seq.len() >= pairs || matches!(s, Step::Whole(..)) {
					continue;
				}
				let n = match s {
					Step::Drop(_) => seq.len() - 1,
					Step::Insert(..) => seq.len() + 1,
					_ => seq.len(),
				};
				for (k2, s2) in steps_for(n, LINES.len()).iter().enumerate() {
					if matches!(s2, Step::Drop(_)) && !ended {
						continue;
					}
					let both = [s.clone(), s2.clone()];
					judge(seq, ended, &both, r, &|| case(&both, &[k, k2]));
				}
			}
			if r.samples.len() < 2 && seq.len() == 2 {
				r.sample(case(&[], &[]))
			}
		}
	}));
	let short: Vec<Vec<usize>> = mck::strings(&(0..LINES.len()).collect::<Vec<_>>(), 2);
	all.merge(mck::par(&short, |x, r| {
		for y in short.iter().filter(|y| y.len() < 2 || x.len() < 2 || a.thorough) {
			served(x, y, r, &|| format!("server: open {:?}, change to {:?}, save, back again items={} then={}", text(x, true), text(y, true), nums(x), nums(y)))
		}
	}));
	all.bounds.push(format!("all texts of up to {long} of the lines {LINES:?}, ended or not"));
	all.bounds.push(format!("after each text of less than {long} lines: every replacement (by range and of the whole), insertion and removal of a line and every change of the included file; after texts of less than {pairs} lines every two of these; diagnostics asked after each"));
	all.bounds.push("whole server: open, change, save, change back over all pairs of short texts; everything published is judged (the current tree publishes nothing)".into());
	all
}
