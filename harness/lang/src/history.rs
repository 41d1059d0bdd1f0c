//! C27: after any history of updates, edits, deletes and questions, the analysis equals that of a new analyzer
//! holding the same texts.
use super::include::{resolve, URLS};
use analyzer_core::lexer::Token;
use analyzer_core::lsp_file::{ChangeEvent, Position, Range as LspRange};
use analyzer_core::Analyzer;
use mck::Report;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;

const TEXTS: [&[&str]; 3] = [
	&["", "x 1;", "#include \"s/b.p4\"\ny;", "#define M 1\n#include \"s/b.p4\"\n#if M\nm;\n#endif\n#else\n@ @"],
	&["b;", "#ifdef M\nq;\n#endif\n9w999 \"s", "#include \"c.p4\"\n#undef M", "#include \"../a.p4\"\nz"],
	&["c @", "#define M 2\n#include \"b.p4\"\n#include \"none.p4\""],
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
	Update(usize, usize),
	Edit(usize, usize),
	Delete(usize),
	Query(usize),
}
use Op::*;

const EDITS: usize = 4;
/// (range as byte offsets of the current text, None for all of it; replacement)
fn events(k: usize) -> Vec<(Option<(usize, usize)>, &'static str)> {
	match k {
		0 => vec![(None, "e;")],
		1 => vec![(Some((0, 0)), "#include \"c.p4\"\n")],
		2 => vec![(Some((0, 1)), ""), (Some((0, 0)), "k\n")],
		_ => vec![(Some((0, 2)), "@ \n")],
	}
}

type Diag = (String, (usize, usize), u8, String);
#[derive(PartialEq, Debug, Clone)]
struct Seen {
	input: Option<String>,
	lexed: Option<Vec<(Token, Range<usize>)>>,
	out: Option<Vec<(String, Token, Range<usize>)>>,
	diags: Vec<Diag>,
	deps: BTreeSet<(String, bool)>,
	lines: Option<Vec<usize>>,
}

fn look(a: &Analyzer, f: usize) -> Seen {
	let id = a.file_id(URLS[f]);
	let mut diags: Vec<Diag> = a
		.diagnostics(id)
		.into_iter()
		.map(|d| {
			use analyzer_core::base_abstractions::Severity::*;
			let s = match d.severity {
				Info => 0,
				Hint => 1,
				Warning => 2,
				Error => 3,
			};
			(a.path(d.file), (d.location.start, d.location.end), s, d.message)
		})
		.collect();
	diags.sort();
	Seen {
		input: a.input(id).map(|s| s.to_string()),
		lexed: a.lexed(id).cloned(),
		out: if a.files().is_empty() { None } else { a.preprocessed(id).map(|v| v.iter().map(|(f, t, s)| (a.path(*f), t.clone(), s.clone())).collect()) },
		diags,
		deps: a.include_dependencies(id).into_iter().map(|d| (a.path(d.file_id), d.is_resolved)).collect(),
		lines: a.buffer(id).map(|_| a.get_file(id).get_ranges().clone()),
	}
}

fn edit(text: &mut String, k: usize) -> Vec<ChangeEvent> {
	events(k)
		.into_iter()
		.map(|(range, new)| match range {
			None => {
				*text = new.into();
				ChangeEvent { range: None, text: new.into() }
			}
			Some((s, e)) => {
				let (s, e) = (s.min(text.len()), e.min(text.len()));
				let pos = |o: usize| {
					let line = text[..o].matches('\n').count();
					Position::new(line, o - text[..o].rfind('\n').map_or(0, |x| x + 1))
				};
				let ev = ChangeEvent { range: Some(LspRange::new(pos(s), pos(e))), text: new.into() };
				text.replace_range(s..e, new);
				ev
			}
		})
		.collect()
}

fn fresh() -> Analyzer { Analyzer::new(resolve, |_| {}) }

fn judge(ops: &[Op], cache: &mut BTreeMap<Vec<(usize, String)>, Vec<Seen>>, r: &mut Report) {
	let mut model: BTreeMap<usize, String> = BTreeMap::new();
	// only histories in which every edit is of a file that is there
	for o in ops {
		match o {
			Update(f, k) => drop(model.insert(*f, TEXTS[*f][*k].into())),
			Edit(f, k) => match model.get_mut(f) {
				Some(t) => drop(edit(t, *k)),
				None => return,
			},
			Delete(f) => drop(model.remove(f)),
			Query(_) => {}
		}
	}
	r.traces += 1;
	r.transitions += ops.len() as u64;
	r.distinct += ops.iter().any(|o| !matches!(o, Update(..))) as u64;
	let case = || format!("{ops:?}");
	let got = mck::catch(|| {
		let mut a = fresh();
		let mut texts: BTreeMap<usize, String> = BTreeMap::new();
		let mut wrong = None;
		for o in ops {
			match o {
				Update(f, k) => {
					texts.insert(*f, TEXTS[*f][*k].into());
					let id = a.file_id(URLS[*f]);
					a.update(id, &TEXTS[*f][*k].to_string());
				}
				Edit(f, k) => {
					let ev = edit(texts.get_mut(f).unwrap(), *k);
					let id = a.file_id(URLS[*f]);
					a.file_change_event(id, &ev);
				}
				Delete(f) => {
					let there = texts.remove(f).is_some();
					if a.delete(URLS[*f]).is_some() != there {
						wrong = Some(format!("deleting {} says {}", URLS[*f], !there));
					}
				}
				Query(f) => drop(look(&a, *f)),
			}
		}
		let mut files = a.files();
		files.sort();
		let twice: Vec<Seen> = (0..3).map(|f| look(&a, f)).collect();
		let seen: Vec<Seen> = (0..3).map(|f| look(&a, f)).collect();
		if twice != seen {
			wrong = Some("asking again gives another answer".into())
		}
		(seen, files, wrong)
	});
	let (seen, files, wrong) = match got {
		Ok(g) => g,
		Err(p) => return r.violation(&super::panic_sig(&p), case(), p),
	};
	if let Some(w) = wrong {
		r.violation("answer", case(), w)
	}
	let mut want: Vec<String> = model.keys().map(|f| URLS[*f].to_string()).collect();
	want.sort();
	if files != want {
		r.violation("listing", case(), format!("files {files:?}, should be {want:?}"))
	}
	let key: Vec<(usize, String)> = model.clone().into_iter().collect();
	if !cache.contains_key(&key) {
		let run = |rev: bool| {
			mck::catch(|| {
				let mut a = fresh();
				let mut all: Vec<_> = model.iter().collect();
				if rev {
					all.reverse()
				}
				for (f, t) in all {
					let id = a.file_id(URLS[*f]);
					a.update(id, t);
				}
				(0..3).map(|f| look(&a, f)).collect::<Vec<_>>()
			})
		};
		match (run(false), run(true)) {
			(Ok(x), Ok(y)) => {
				if x != y {
					r.violation("order-of-files", format!("{model:?}"), format!("{x:?} or {y:?}"));
				}
				r.states += 1;
				cache.insert(key.clone(), x);
			}
			(Err(p), _) | (_, Err(p)) => return r.violation(&super::panic_sig(&p), case(), p),
		}
	}
	let expect = &cache[&key];
	for f in 0..3 {
		let (g, e) = (&seen[f], &expect[f]);
		if model.get(&f).map(|t| t.as_str()) != g.input.as_deref() {
			r.violation("text", case(), format!("text of {} is {:?}, should be {:?}", URLS[f], g.input, model.get(&f)))
		}
		for (what, same) in [
			("tokens", g.lexed == e.lexed),
			("preprocessed", g.out == e.out),
			("diagnostics", g.diags == e.diags),
			("dependencies", g.deps == e.deps),
			("lines", g.lines == e.lines),
		] {
			if !same {
				r.violation(what, case(), format!("{} of {}: {g:?}; a new analyzer gives {e:?}", what, URLS[f]))
			}
		}
	}
	r.outcome(&format!("{} files present", model.len()));
	if r.samples.len() < 2 && ops.iter().filter(|o| matches!(o, Edit(..))).count() > 1 {
		r.sample(case())
	}
}

/// Many files (or many edits of one), compared with a new analyzer.
fn many_files(c: &(usize, usize, usize), r: &mut Report) {
	let (n, kind, style) = *c;
	// names that are the start, the end or another spelling of each other
	let name = |i: usize| match style {
		0 => format!("f{i}.p4"),
		1 => format!("f{i}"),
		2 => format!("{}{}", ["a", "A", "%61", "a ", "a.", "\u{e1}", "a/", "a/../a"][i % 8], i / 8),
		_ => "x".repeat(i + 1),
	};
	let url = |i: usize| format!("file:///w/{}", name(i));
	let text = |i: usize, v: usize| format!("#define V{i} {v}\n{}v{v} @;\n", if i > 0 && i % 7 == 0 { format!("#include \"{}\"\n", name(i - 1)) } else { String::new() });
	r.traces += 1;
	r.distinct += 1;
	let mut model: BTreeMap<usize, String> = BTreeMap::new();
	let look = |a: &Analyzer, i: usize| {
		let id = a.file_id(&url(i));
		let mut d: Vec<_> = a.diagnostics(id).into_iter().map(|d| (a.path(d.file), d.location.start, d.location.end, d.message)).collect();
		d.sort();
		(
			a.input(id).map(|s| s.to_string()),
			a.lexed(id).cloned(),
			a.preprocessed(id).map(|v| v.iter().map(|(f, t, s)| (a.path(*f), t.clone(), s.clone())).collect::<Vec<_>>()),
			d,
			a.buffer(id).map(|_| a.get_file(id).get_ranges().clone()),
		)
	};
	let got = mck::catch(std::panic::AssertUnwindSafe(|| {
		let mut a = fresh();
		let set = |a: &mut Analyzer, model: &mut BTreeMap<usize, String>, i: usize, v: usize| {
			model.insert(i, text(i, v));
			let id = a.file_id(&url(i));
			a.update(id, &text(i, v));
		};
		for i in 0..n {
			set(&mut a, &mut model, i, 0)
		}
		if kind & 1 == 1 {
			(0..n).for_each(|i| drop(look(&a, i)))
		}
		match kind / 2 {
			// every second file is deleted, and every fourth comes back
			0 => {
				for i in (0..n).step_by(2) {
					model.remove(&i);
					a.delete(&url(i));
				}
				for i in (0..n).step_by(4) {
					set(&mut a, &mut model, i, 1)
				}
			}
			// one file changes again and again
			1 => {
				for k in 0..n {
					let t = model.get_mut(&3).unwrap();
					let at = if k % 2 == 0 { t.len() } else { 0 };
					let line = t[..at].matches('\n').count();
					t.insert_str(at, "k @\n");
					let id = a.file_id(&url(3));
					a.file_change_event(id, &vec![ChangeEvent { range: Some(LspRange::new(Position::new(line, 0), Position::new(line, 0))), text: "k @\n".into() }]);
					if k % 3 == 0 {
						look(&a, 3);
					}
				}
			}
			// all change twice, in turn
			_ => {
				for v in 1..=2 {
					for i in (0..n).rev() {
						set(&mut a, &mut model, i, v);
					}
					look(&a, 7);
				}
			}
		}
		let mut f = a.files();
		f.sort();
		((0..n).map(|i| look(&a, i)).collect::<Vec<_>>(), f)
	}));
	let want = mck::catch(std::panic::AssertUnwindSafe(|| {
		let mut a = fresh();
		for (i, t) in &model {
			let id = a.file_id(&url(*i));
			a.update(id, t);
		}
		(0..n).map(|i| look(&a, i)).collect::<Vec<_>>()
	}));
	let case = || format!("many {c:?}");
	let ((got, files), want) = match (got, want) {
		(Ok(g), Ok(w)) => (g, w),
		(Err(p), _) | (_, Err(p)) => return r.violation(&super::panic_sig(&p), case(), p),
	};
	let mut names: Vec<String> = model.keys().map(|i| url(*i)).collect();
	names.sort();
	if files != names {
		r.violation("listing", case(), format!("{} files listed instead of {}", files.len(), names.len()))
	}
	for i in 0..n {
		r.states += 1;
		r.transitions += 1;
		if got[i] != want[i] || got[i].0.as_ref() != model.get(&i) {
			r.violation("many", case(), format!("file {i}: {:?}; a new analyzer gives {:?}", got[i], want[i]));
			return;
		}
	}
}

pub fn check(a: &mck::Args) -> Report {
	let mut ops = vec![];
	for f in 0..3 {
		ops.extend((0..TEXTS[f].len()).map(|k| Update(f, k)));
		ops.extend((0..EDITS).map(|k| Edit(f, k)));
		ops.push(Delete(f));
		ops.push(Query(f));
	}
	let depth = if a.thorough { 6 } else { 5 };
	if let Some(c) = &a.replay {
		let mut r = Report::new();
		let nums = |t: &str| t.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect::<Vec<usize>>();
		if let Some(k) = c.strip_prefix("many ") {
			let k = nums(k);
			many_files(&(k[0], k[1], k[2]), &mut r);
			return r;
		}
		let seq: Vec<Op> = c
			.split(')')
			.filter_map(|t| {
				let n = nums(t);
				let word: String = t.chars().filter(|c| c.is_alphabetic()).collect();
				Some(match &word[..] {
					"Update" => Update(n[0], n[1]),
					"Edit" => Edit(n[0], n[1]),
					"Delete" => Delete(n[0]),
					"Query" => Query(n[0]),
					_ => return None,
				})
			})
			.collect();
		judge(&seq, &mut Default::default(), &mut r);
		return r;
	}
	let heads = mck::strings(&ops, 2);
	let tails = mck::strings(&ops, depth - 2);
	let mut r = mck::par(&heads, |h, r| {
		let mut cache = Default::default();
		let mut s = h.clone();
		for t in if h.len() == 2 { &tails[..] } else { &tails[..1] } {
			s.truncate(h.len());
			s.extend_from_slice(t);
			judge(&s, &mut cache, r)
		}
	});
	let mut many = vec![];
	for n in [10, 33, 65, 130, 257, 300] {
		for k in 0..6 {
			for s in 0..4 {
				many.push((n, k, s))
			}
		}
	}
	r.merge(mck::par(&many, many_files));
	r.bounds = vec!["up to 300 files with 4 styles of names (the start or another spelling of each other), or up to 300 edits of one, then each file asked about".into(), format!("all sequences of up to {depth} of {ops:?} whose edits are of present files, each followed by asking everything about every file"), format!("texts {TEXTS:?}")];
	r
}
