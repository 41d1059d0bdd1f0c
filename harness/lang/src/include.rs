//! C26: include expansion against a recursive expander written from the C rules.
use analyzer_core::lexer::Token;
use analyzer_core::Analyzer;
use mck::Report;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::ops::Range;
use std::rc::Rc;
use std::sync::OnceLock;

pub const URLS: [&str; 3] = ["file:///w/a.p4", "file:///w/s/b.p4", "file:///w/s/c.p4"];
/// how each file names the others, itself and a file that does not exist
const PATHS: [[&str; 4]; 3] =
	[["a.p4", "s/b.p4", "s/c.p4", "s/none.p4"], ["../a.p4", "b.p4", "c.p4", "none.p4"], ["../a.p4", "../s/b.p4", "c.p4", "../none.p4"]];

/// The resolver given to the analyzer: URLs are absolute, everything else is relative to the directory of the base.
pub fn resolve(base: &str, path: &str) -> Result<String, String> {
	if path.starts_with("file://") {
		return Ok(path.into());
	}
	if path.starts_with('!') {
		return Err("no such path".into());
	}
	let mut dir: Vec<&str> = base.split('/').collect();
	dir.pop();
	for p in path.split('/') {
		if p == ".." {
			dir.pop();
		} else {
			dir.push(p)
		}
	}
	Ok(dir.join("/"))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Item {
	Text,
	/// includes file n, 3 is one that does not exist
	Inc(usize),
	/// a path the resolver refuses
	Bad,
	Define,
	Undef,
	/// text if M is defined
	Cond,
}
use Item::*;

static BODIES: OnceLock<Vec<Vec<Item>>> = OnceLock::new();

#[derive(Clone, Copy)]
struct Case {
	body: [u16; 3],
	/// paths in angle brackets; absolute URLs; no newline at the end of files
	style: u8,
	/// the files are made known one by one in this order (else all at once, before the first question)
	order: Option<[u8; 3]>,
}
impl Case {
	fn items(&self, f: usize) -> &'static [Item] { &BODIES.get().unwrap()[self.body[f] as usize] }
}
impl fmt::Debug for Case {
	fn fmt(&self, o: &mut fmt::Formatter) -> fmt::Result {
		write!(o, "a={:?} b={:?} c={:?} style {} order {:?}", self.items(0), self.items(1), self.items(2), self.style, self.order)
	}
}

struct File {
	text: String,
	/// for every item: its line, and for texts and conditions the identifier's span
	at: Vec<(Range<usize>, Range<usize>)>,
}

fn file(c: &Case, f: usize) -> File {
	let mut text = String::new();
	let mut at = vec![];
	for (i, item) in c.items(f).iter().enumerate() {
		let start = text.len();
		let mut ident = 0..0;
		let path = |p: String| if c.style & 1 == 1 { format!("#include <{p}>\n") } else { format!("#include \"{p}\"\n") };
		let word = format!("{}{i}", ["a", "b", "c"][f]);
		match item {
			Text => {
				ident = start..start + word.len();
				text += &format!("{word};\n")
			}
			Inc(n) if c.style & 2 == 2 && *n < 3 => text += &path(URLS[*n].into()),
			Inc(n) => text += &path(PATHS[f][*n].into()),
			Bad => text += &path("!".into()),
			Define => text += "#define M\n",
			Undef => text += "#undef M\n",
			Cond => {
				text += "#ifdef M\n";
				ident = text.len()..text.len() + word.len();
				text += &format!("{word};\n#endif\n");
			}
		}
		at.push((start..text.len(), ident));
	}
	if c.style & 4 == 4 && text.ends_with('\n') {
		text.pop();
	}
	File { text, at }
}

#[derive(Default, Debug)]
struct Expect {
	out: Vec<(usize, Range<usize>)>,
	/// (file, item) reported
	reports: BTreeSet<(usize, usize)>,
	deps: BTreeMap<String, bool>,
	/// files only included from within themselves
	may: BTreeSet<String>,
	wanted: BTreeSet<String>,
}

fn expand(c: &Case, files: &[File], known: &[bool; 3], f: usize, chain: &mut Vec<usize>, m: &mut bool, e: &mut Expect) {
	chain.push(f);
	for (i, item) in c.items(f).iter().enumerate() {
		match item {
			Text => e.out.push((f, files[f].at[i].1.clone())),
			Cond if *m => e.out.push((f, files[f].at[i].1.clone())),
			Cond => {}
			Define => *m = true,
			Undef => *m = false,
			Bad => drop(e.reports.insert((f, i))),
			Inc(n) if *n == 3 || !known[*n] => {
				let url = resolve(URLS[f], PATHS[f][*n]).unwrap();
				e.reports.insert((f, i));
				e.deps.insert(url.clone(), false);
				e.wanted.insert(url);
			}
			Inc(n) if chain.contains(n) => {
				e.reports.insert((f, i));
				e.may.insert(URLS[*n].into());
			}
			Inc(n) => {
				e.deps.insert(URLS[*n].into(), true);
				expand(c, files, known, *n, chain, m, e)
			}
		}
	}
	chain.pop();
}

fn judge(c: &Case, r: &mut Report) {
	let files: Vec<File> = (0..3).map(|f| file(c, f)).collect();
	let steps: Vec<Vec<usize>> = match c.order {
		None => vec![vec![1, 2, 0]],
		Some(o) => o.iter().map(|f| vec![*f as usize]).collect(),
	};
	r.traces += 1;
	r.distinct += (0..3).any(|f| c.items(f).iter().any(|i| matches!(i, Inc(_)))) as u64;
	let asked: Rc<RefCell<BTreeSet<String>>> = Default::default();
	let sink = asked.clone();
	let mut a = Analyzer::new(resolve, move |p| drop(sink.borrow_mut().insert(p.to_string())));
	let mut known = [false; 3];
	for s in steps {
		for f in s {
			known[f] = true;
			let id = a.file_id(URLS[f]);
			a.update(id, &files[f].text);
		}
		r.states += 1;
		if !known[0] {
			continue;
		}
		r.transitions += 1;
		let got = mck::catch(std::panic::AssertUnwindSafe(|| {
			let id = a.file_id(URLS[0]);
			asked.borrow_mut().clear();
			let out: Vec<(String, Token, Range<usize>)> =
				a.preprocessed(id).cloned().expect("a known file").into_iter().map(|(f, t, s)| (a.path(f), t, s)).collect();
			let asked = asked.borrow().clone();
			let diags: Vec<(String, Range<usize>, String)> =
				a.diagnostics(id).into_iter().map(|d| (a.path(d.file), d.location, d.message)).collect();
			let deps: Vec<(String, bool)> = a.include_dependencies(id).into_iter().map(|d| (a.path(d.file_id), d.is_resolved)).collect();
			(out, asked, diags, deps)
		}));
		let case = || format!("{c:?}");
		let (out, asked, diags, deps) = match got {
			Ok(g) => g,
			Err(p) => return r.violation(&super::panic_sig(&p), case(), p),
		};
		let mut e = Expect::default();
		expand(c, &files, &known, 0, &mut vec![], &mut false, &mut e);
		r.outcome(&format!("{} tokens, {} reports, {} dependencies", e.out.len(), e.reports.len(), e.deps.len()));
		let mut ids = vec![];
		let mut bad = false;
		for (url, t, s) in &out {
			let f = URLS.iter().position(|u| u == url);
			let text = f.map(|f| &files[f].text[..]).unwrap_or("");
			let slice = text.get(s.clone()).filter(|x| !x.is_empty());
			match (t, slice, f) {
				(Token::Identifier(i), Some(x), Some(f)) if i == x => ids.push((f, s.clone())),
				(Token::Semicolon, Some(";"), Some(f)) => match ids.last_mut() {
					Some((g, l)) if *g == f && l.end == s.start => l.end += 1,
					_ => bad = true,
				},
				// neighbouring whitespace is merged and may cover directives in between
				(Token::Whitespace, Some(_), _) => {}
				_ => bad = true,
			}
			if bad {
				r.violation("origin", case(), format!("token {t:?} of {url} {s:?}, where there is {slice:?}; output {out:?}"));
				break;
			}
		}
		let want: Vec<(usize, Range<usize>)> = e.out.iter().map(|(f, s)| (*f, s.start..s.end + 1)).collect();
		if !bad && ids != want {
			let show = |v: &[(usize, Range<usize>)]| v.iter().map(|(f, s)| files[*f].text[s.clone()].to_string()).collect::<Vec<_>>().join(" ");
			let mut x = ids.clone();
			let mut y = want.clone();
			x.sort_by_key(|x| (x.0, x.1.start));
			y.sort_by_key(|x| (x.0, x.1.start));
			r.violation(if x == y { "order" } else { "expansion" }, case(), format!("known {known:?}: output {:?}, expected {:?}", show(&ids), show(&want)));
		}
		let mut seen = BTreeSet::new();
		for (url, s, m) in &diags {
			let hit = URLS.iter().position(|u| u == url).and_then(|f| {
				let i = files[f].at.iter().position(|(l, _)| l.start <= s.start && s.end <= l.end && s.start < s.end)?;
				Some((f, i))
			});
			match hit {
				Some(h) if e.reports.contains(&h) => drop(seen.insert(h)),
				_ => r.violation("false-report", case(), format!("known {known:?}: {m:?} reported in {url} at {s:?}")),
			}
		}
		if let Some(x) = e.reports.difference(&seen).next() {
			r.violation("not-reported", case(), format!("known {known:?}: item {} of {} deserves a report; got {diags:?}", x.1, URLS[x.0]))
		}
		if asked != e.wanted {
			r.violation("requests", case(), format!("known {known:?}: requested {asked:?}, missing are {:?}", e.wanted))
		}
		let mut got: BTreeMap<String, bool> = BTreeMap::new();
		for (u, ok) in &deps {
			if got.insert(u.clone(), *ok).map_or(false, |o| o != *ok) {
				r.violation("dependencies", case(), format!("{u} is both found and not found"))
			}
		}
		e.may.iter().filter(|u| !e.deps.contains_key(*u)).for_each(|u| drop(got.remove(u)));
		if got != e.deps {
			r.violation("dependencies", case(), format!("known {known:?}: dependencies {got:?}, expected {:?}", e.deps))
		}
	}
	if r.samples.len() < 2 && c.body.iter().all(|b| *b > 20) {
		r.sample(format!("{c:?}"))
	}
}

pub fn check(a: &mck::Args) -> Report {
	let items = [Text, Inc(0), Inc(1), Inc(2), Inc(3), Bad, Define, Undef, Cond];
	let bodies = BODIES.get_or_init(|| mck::strings(&items, 3));
	let n = |len: usize| bodies.iter().position(|b| b.len() > len).unwrap_or(bodies.len()) as u16;
	let mut cases = vec![];
	let mut add = |len: [usize; 3], styles: &[u8], orders: &[Option<[u8; 3]>]| {
		for x in 0..n(len[0]) {
			for y in 0..n(len[1]) {
				for z in 0..n(len[2]) {
					let c = Case { body: [x, y, z], style: 0, order: None };
					// files that are not reached are left empty
					let inc = |f: usize, g: usize| c.items(f).contains(&Inc(g));
					let (b, cc) = (inc(0, 1) || inc(0, 2) && inc(2, 1), inc(0, 2) || inc(0, 1) && inc(1, 2));
					if !b && y > 0 || !cc && z > 0 {
						continue;
					}
					for s in styles {
						for o in orders {
							cases.push(Case { style: *s, order: *o, ..c })
						}
					}
				}
			}
		}
	};
	let all_orders: Vec<Option<[u8; 3]>> = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].iter().map(|o| Some(*o)).collect();
	let mut bounds = vec![];
	if a.thorough {
		add([3, 2, 2], &[0, 5], &[None]);
		add([2, 3, 2], &[0], &[None]);
		add([2, 2, 2], &(0..8).collect::<Vec<_>>(), &all_orders);
		bounds.push("files a, b, c of up to 3, 2, 2 and 2, 3, 2 items, all known; up to 2, 2, 2 items in all 8 styles, made known in all 6 orders".to_string());
	} else {
		add([2, 2, 2], &[0], &[None, all_orders[0]]);
		add([3, 1, 1], &[0, 6], &[None]);
		add([2, 1, 1], &(0..8).collect::<Vec<_>>(), &all_orders);
		bounds.push("files a, b, c of up to 2, 2, 2 items, all known or made known in order; 3, 1, 1 items in 2 styles; 2, 1, 1 items in all 8 styles, made known in all 6 orders".to_string());
	}
	bounds.push(format!("items {items:?}; style bit 1: angle brackets, 2: absolute URLs, 4: no newline at the end of files"));
	let mut r = super::each(a, &cases, judge);
	let mut many = vec![];
	for n in [4, 9, 17, 33, 65, 101, 130, 201, 257, 300] {
		for shape in [Shape::Chain, Shape::Ring, Shape::Fan, Shape::Same, Shape::Tree, Shape::Missing, Shape::Guarded] {
			for backwards in [false, true] {
				many.push((shape, n, backwards))
			}
		}
	}
	r.merge(super::each(a, &many, judge_many));
	bounds.push("chains, rings, fans, binary trees of up to 300 files; a file included up to 300 times; 300 missing files".into());
	r.bounds = bounds;
	r
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Shape {
	/// each file includes the next
	Chain,
	/// and the last the first
	Ring,
	/// the first includes all others
	Fan,
	/// the first includes the second n times
	Same,
	/// file i includes 2i + 1 and 2i + 2
	Tree,
	/// the first includes n files that do not exist
	Missing,
	/// a chain in which every file is guarded by a macro of its own, included twice each
	Guarded,
}
fn judge_many(c: &(Shape, usize, bool), r: &mut Report) {
	let (shape, n, backwards) = *c;
	let url = |i: usize| format!("file:///w/f{i}.p4");
	let incs = |i: usize| -> Vec<usize> {
		match shape {
			Shape::Chain if i + 1 < n => vec![i + 1],
			Shape::Ring => vec![(i + 1) % n],
			Shape::Fan | Shape::Missing if i == 0 => (1..n).collect(),
			Shape::Same if i == 0 => vec![1; n],
			Shape::Tree => [2 * i + 1, 2 * i + 2].into_iter().filter(|x| *x < n).collect(),
			Shape::Guarded if i + 1 < n => vec![i + 1; 2],
			_ => vec![],
		}
	};
	let there = |i: usize| shape != Shape::Missing || i == 0;
	let text = |i: usize| {
		let body: String = incs(i).iter().map(|j| format!("#include \"f{j}.p4\"\n")).collect();
		let body = format!("a{i};\n{body}z{i};\n");
		if shape == Shape::Guarded { format!("#ifndef G{i}\n#define G{i}\n{body}#endif\n") } else { body }
	};
	fn walk(i: usize, incs: &dyn Fn(usize) -> Vec<usize>, there: &dyn Fn(usize) -> bool, chain: &mut Vec<usize>, once: bool, done: &mut BTreeSet<usize>, out: &mut Vec<String>, rep: &mut BTreeSet<(usize, usize)>) {
		if once && !done.insert(i) {
			return;
		}
		out.push(format!("a{i}"));
		chain.push(i);
		for (k, j) in incs(i).into_iter().enumerate() {
			if !there(j) || chain.contains(&j) {
				rep.insert((i, k));
			} else {
				walk(j, incs, there, chain, once, done, out, rep)
			}
		}
		chain.pop();
		out.push(format!("z{i}"));
	}
	let (mut out, mut rep) = (vec![], BTreeSet::new());
	walk(0, &incs, &there, &mut vec![], shape == Shape::Guarded, &mut Default::default(), &mut out, &mut rep);
	r.traces += 1;
	r.distinct += 1;
	r.states += n as u64;
	r.transitions += out.len() as u64;
	let asked: Rc<RefCell<BTreeSet<String>>> = Default::default();
	let sink = asked.clone();
	let got = mck::catch(std::panic::AssertUnwindSafe(|| {
		let mut a = Analyzer::new(resolve, move |p| drop(sink.borrow_mut().insert(p.to_string())));
		let mut order: Vec<usize> = (0..n).filter(|i| there(*i)).collect();
		if backwards {
			order.reverse()
		}
		for i in order {
			let id = a.file_id(&url(i));
			a.update(id, &text(i));
		}
		let id = a.file_id(&url(0));
		let out: Vec<String> = a
			.preprocessed(id)
			.cloned()
			.unwrap_or_default()
			.into_iter()
			.filter_map(|(f, t, s)| match t {
				Token::Identifier(i) => {
					let p = a.path(f);
					let file: usize = p.trim_start_matches("file:///w/f").trim_end_matches(".p4").parse().unwrap_or(usize::MAX);
					Some(if file < n && text(file).get(s.clone()) == Some(&i[..]) { i } else { format!("{i}?{p}{s:?}") })
				}
				_ => None,
			})
			.collect();
		let diags: Vec<(String, Range<usize>)> = a.diagnostics(id).into_iter().map(|d| (a.path(d.file), d.location)).collect();
		let deps: BTreeSet<(String, bool)> = a.include_dependencies(id).into_iter().map(|d| (a.path(d.file_id), d.is_resolved)).collect();
		(out, diags, deps)
	}));
	let case = || format!("{c:?}");
	let (got, diags, deps) = match got {
		Ok(g) => g,
		Err(p) => return r.violation(&super::panic_sig(&p), case(), p),
	};
	if got != out {
		let i = got.iter().zip(&out).take_while(|x| x.0 == x.1).count();
		r.violation("expansion", case(), format!("{} tokens instead of {}; the first {i} are right, then {:?} instead of {:?}", got.len(), out.len(), got.get(i), out.get(i)));
	}
	let mut want: Vec<(String, Range<usize>)> = rep
		.iter()
		.map(|(i, k)| {
			let t = text(*i);
			let at = t.match_indices("#include").nth(*k).unwrap().0;
			(url(*i), at..at + t[at..].find('\n').unwrap() + 1)
		})
		.collect();
	want.sort_by_key(|x| (x.0.clone(), x.1.start));
	let inside = |d: &(String, Range<usize>), w: &(String, Range<usize>)| d.0 == w.0 && w.1.start <= d.1.start && d.1.end <= w.1.end;
	if let Some(d) = diags.iter().find(|d| !want.iter().any(|w| inside(d, w))) {
		r.violation("false-report", case(), format!("{d:?} is reported"))
	}
	if let Some(w) = want.iter().find(|w| !diags.iter().any(|d| inside(d, w))) {
		r.violation("not-reported", case(), format!("{w:?} deserves a report; {} reports", diags.len()))
	}
	let mut reach: BTreeSet<usize> = Default::default();
	let mut todo = incs(0);
	while let Some(i) = todo.pop() {
		if reach.insert(i) && there(i) {
			todo.extend(incs(i))
		}
	}
	let mut wd: BTreeSet<(String, bool)> = reach.iter().map(|i| (url(*i), there(*i))).collect();
	let mut deps = deps;
	if shape == Shape::Ring {
		wd.remove(&(url(0), true));
		deps.retain(|d| d.0 != url(0));
	}
	if deps != wd {
		r.violation("dependencies", case(), format!("{} dependencies instead of {}: {:?}", deps.len(), wd.len(), deps.symmetric_difference(&wd).next()))
	}
	let wanted: BTreeSet<String> = reach.iter().filter(|i| !there(**i)).map(|i| url(*i)).collect();
	if *asked.borrow() != wanted {
		r.violation("requests", case(), format!("{} requests instead of {}", asked.borrow().len(), wanted.len()))
	}
}
