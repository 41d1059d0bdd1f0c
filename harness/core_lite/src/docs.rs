//! C01-C03: the document text store. The reference is the LSP definition of positions and edits.
use analyzer_core::lsp_file::{ChangeEvent, LspFile, Position, Range};
use mck::{Report, Seen};

/// How a reference reads positions. TRUE is what LSP 3.17 says; the others describe the two documented
/// deviations of the implementation (see known_findings.txt), so that exactly those are recognised as such.
#[derive(Clone, Copy, PartialEq)]
pub struct Rules {
	pub cr_ends_line: bool,
	pub utf16: bool,
}
pub const TRUE: Rules = Rules { cr_ends_line: true, utf16: true };
const VARIANTS: [Rules; 3] = [
	Rules { cr_ends_line: true, utf16: false },
	Rules { cr_ends_line: false, utf16: true },
	Rules { cr_ends_line: false, utf16: false },
];

/// (start, end of content, end including terminator) of every line, in bytes. The text after the last
/// terminator is a line too, even when it is empty.
pub fn lines(text: &str, r: Rules) -> Vec<(usize, usize, usize)> {
	let b = text.as_bytes();
	let (mut out, mut start, mut i) = (vec![], 0, 0);
	while i < b.len() {
		let t = match b[i] {
			b'\n' => 1,
			b'\r' if r.cr_ends_line && b.get(i + 1) == Some(&b'\n') => 2,
			b'\r' if r.cr_ends_line => 1,
			_ => 0,
		};
		if t > 0 {
			out.push((start, i, i + t));
			start = i + t;
			i += t;
		} else {
			i += 1;
		}
	}
	out.push((start, b.len(), b.len()));
	out
}

/// Position to byte offset. None: the position points into the middle of a surrogate pair.
pub fn offset(text: &str, p: (usize, usize), r: Rules) -> Option<usize> {
	let ls = lines(text, r);
	let Some(&(s, e, _)) = ls.get(p.0) else { return Some(text.len()) };
	let mut col = 0;
	for (i, c) in text[s..e].char_indices() {
		if col == p.1 {
			return Some(s + i);
		}
		if col > p.1 {
			return None;
		}
		col += if r.utf16 { c.len_utf16() } else { 1 };
	}
	if col > p.1 {
		return None;
	}
	Some(e)
}

/// Byte offset to position; an offset inside a character means that character, one past the end the end.
pub fn position(text: &str, off: usize, r: Rules) -> (usize, usize) {
	let ls = lines(text, r);
	let off = off.min(text.len());
	let l = ls.iter().rposition(|l| l.0 <= off).unwrap();
	let (s, e, _) = ls[l];
	let mut col = 0;
	for (i, c) in text[s..e].char_indices() {
		if s + i + c.len_utf8() > off {
			break;
		}
		col += if r.utf16 { c.len_utf16() } else { 1 };
	}
	(l, col)
}

/// Positions worth trying in a text: every column of every line and two past its end, the line past the last.
fn positions(text: &str) -> Vec<(usize, usize)> {
	let mut out = vec![];
	let ls = lines(text, Rules { cr_ends_line: false, utf16: true });
	for (l, &(s, e, _)) in ls.iter().enumerate() {
		let n = text[s..e].chars().map(|c| c.len_utf16()).sum::<usize>();
		for c in 0..=n + 1 {
			out.push((l, c))
		}
	}
	out.push((ls.len(), 0));
	out.push((ls.len(), 2));
	out.push((ls.len() + 1, 0));
	out
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Class {
	True,
	Utf16,
	Cr,
	Wrong,
}

fn classify<T: PartialEq>(text: &str, actual: &T, expect: impl Fn(Rules) -> Option<T>) -> (Class, Option<T>) {
	let Some(t) = expect(TRUE) else { return (Class::True, None) };
	if *actual == t {
		return (Class::True, Some(t));
	}
	for v in VARIANTS {
		if expect(v).as_ref() == Some(actual) {
			let cr = !v.cr_ends_line && text.contains('\r');
			return (if cr { Class::Cr } else { Class::Utf16 }, Some(t));
		}
	}
	(Class::Wrong, Some(t))
}

fn apply(text: &str, ev: &Edit, r: Rules) -> Option<String> {
	match ev {
		Edit::Full(t) => Some(t.to_string()),
		Edit::Range(a, b, t) => {
			let (s, e) = (offset(text, *a, r)?, offset(text, *b, r)?);
			let mut n = text[..s].to_string();
			n.push_str(t);
			n.push_str(&text[e.max(s)..]);
			Some(n)
		}
	}
}

#[derive(Clone, Debug, PartialEq)]
enum Edit {
	Full(&'static str),
	Range((usize, usize), (usize, usize), &'static str),
}

impl Edit {
	fn event(&self) -> ChangeEvent {
		match self {
			Edit::Full(t) => ChangeEvent { range: None, text: t.to_string() },
			Edit::Range(a, b, t) => ChangeEvent {
				range: Some(Range::new(Position::new(a.0, a.1), Position::new(b.0, b.1))),
				text: t.to_string(),
			},
		}
	}
}

fn edits(text: &str, repl: &[&'static str], full: &[&'static str]) -> Vec<Edit> {
	let ps = positions(text);
	let mut out = vec![];
	for (i, a) in ps.iter().enumerate() {
		for b in &ps[i..] {
			for t in repl {
				out.push(Edit::Range(*a, *b, t))
			}
		}
	}
	out.extend(full.iter().map(|t| Edit::Full(t)));
	out
}

/// Line starts, middles and ends.
fn coarse(text: &str) -> Vec<(usize, usize)> {
	let ls = lines(text, Rules { cr_ends_line: false, utf16: true });
	let mut out = vec![];
	for (l, &(s, e, _)) in ls.iter().enumerate() {
		let n = text[s..e].chars().count();
		let mut cs = vec![0, n / 2, n, n + 3];
		cs.dedup();
		out.extend(cs.into_iter().map(|c| (l, c)));
	}
	out.push((ls.len(), 0));
	out
}

fn long_documents() -> Vec<String> {
	let mut out = vec![];
	for n in [9usize, 17, 40] {
		out.push((0..n).map(|i| format!("{}\n", "é".repeat(i % 5))).collect::<String>());
		out.push((0..n).map(|i| format!("r{i}\n")).collect::<String>() + "tail");
	}
	out.push((0..4).map(|i| format!("{}\n", "ab€".repeat(30 * i))).collect());
	out.push("x".repeat(300));
	out
}

/// Documents past the sizes at which a byte, a 16-bit number or a buffer of the usual sizes ends.
fn huge_documents() -> Vec<String> {
	vec![
		(0..300).map(|i| format!("{}\n", "é".repeat(i % 3))).collect(),
		(0..1030).map(|i| if i % 7 == 0 { "ab\n" } else { "\n" }).collect::<String>() + "é",
		"a€".repeat(700),
		format!("\n{}\nend", "x".repeat(70_000)),
		(0..66_000).map(|i| if i % 11 == 0 { "\n" } else { "y" }).collect(),
	]
}

/// Around the powers of two and the ends.
fn marks(n: usize) -> Vec<usize> {
	let mut out: Vec<usize> = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 1];
	for b in [64, 128, 256, 512, 1024, 4096, 8192, 32768, 65536] {
		out.extend([b - 1, b, b + 1].into_iter().filter(|x| *x <= n));
	}
	out.sort();
	out.dedup();
	out
}

/// Characters that some notion of a line, a space or an empty text takes for something special.
const ODD: [&str; 9] = ["\u{feff}", "\u{2028}", "\u{85}", "\u{b}", "\0", "\t", "e\u{301}", "\n", "\u{10ffff}"];

fn reference_table(text: &str) -> Vec<usize> {
	lines(text, Rules { cr_ends_line: false, utf16: false }).iter().filter(|l| l.2 > l.0).map(|l| l.2 - 1).collect()
}

/// Everything observable about line structure.
fn structure(f: &LspFile) -> Result<(Vec<usize>, Vec<usize>, Vec<(usize, usize)>, Vec<usize>), String> {
	mck::catch(|| {
		let n = f.get_file_content().len();
		let nl = f.get_ranges().len();
		let chars = (0..nl + 2).map(|l| f.line_char(l)).collect();
		let pos = (0..n + 2).map(|b| f.byte_to_lsp(b)).map(|p| (p.line, p.character)).collect();
		let mut off = vec![];
		for l in 0..nl + 2 {
			for c in 0..5 {
				off.push(f.lsp_to_byte(&Position::new(l, c)))
			}
		}
		(f.get_ranges().clone(), chars, pos, off)
	})
}

fn hist(init: &str, es: &[Edit]) -> String { format!("{init:?} then {es:?}") }

/// Applies one more edit to a live document and judges the step. Returns the document to go on from when
/// the step did what the protocol says.
fn step(which: u8, init: &str, done: &[Edit], f: &LspFile, e: &Edit, r: &mut Report, deep: bool) -> Option<LspFile> {
	let before = f.get_file_content();
	let mut g = f.clone();
	r.transitions += 1;
	let ran = mck::catch(|| g.lazy_add(&e.event()));
	let all = || {
		let mut v = done.to_vec();
		v.push(e.clone());
		hist(init, &v)
	};
	if let Err(p) = ran {
		if apply(before, e, TRUE).is_some() {
			r.violation("edit-panics", all(), format!("panic: {p}"));
		}
		return None;
	}
	let after = g.get_file_content();
	if which == 1 {
		let (c, want) = classify(before, after, |v| apply(before, e, v));
		match c {
			Class::True => {}
			Class::Utf16 => r.violation("utf16-columns", all(), format!("text {after:?}, protocol says {want:?}")),
			Class::Cr => r.violation("cr-line-end", all(), format!("text {after:?}, protocol says {want:?}")),
			Class::Wrong => {
				r.violation("edit-wrong-text", all(), format!("text {after:?}, protocol says {want:?}"));
				return None;
			}
		}
		return Some(g);
	}
	// C02: whatever the text now is, the structure must be that of the text
	let table = reference_table(after);
	if *g.get_ranges() != table {
		r.violation("stale-line-table", all(), format!("text {after:?}: table {:?}, should be {table:?}", g.get_ranges()));
		return None;
	}
	if deep {
		// a line that holds anything is as long as its characters, with its end
		for (l, x) in lines(after, Rules { cr_ends_line: false, utf16: false }).iter().filter(|x| x.2 > x.0).enumerate() {
			let due = after[x.0..x.2].chars().count();
			match mck::catch(|| g.line_char(l)) {
				Ok(n) if n == due => {}
				n => {
					r.violation("line-length", all(), format!("text {after:?}: line {l} has {n:?} characters, should be {due}"));
					return None;
				}
			}
		}
		let fresh = LspFile::new(after);
		let (a, b) = (structure(&g), structure(&fresh));
		if a != b {
			r.violation("structure-differs", all(), format!("text {after:?}: edited {a:?}, fresh {b:?}"));
			return None;
		}
	}
	Some(g)
}

const WIDE: [&str; 7] = ["a", "é", "€", "𒀀", "\n", "\r\n", "\r"];
const NARROW: [&str; 3] = ["a", "é", "\n"];

pub fn edits_check(which: u8, thorough: bool) -> Report {
	let mut r = Report::new();
	let repl: [&'static str; 10] = ["", "a", "\n", "é", "a\n", "\nb", "\n\n", "𒀀b", "ab\ncé\n", "\r\n"];
	let full: [&'static str; 4] = ["", "a", "a\né\n", "\n"];
	// 1. every single edit of every text
	let mut texts = mck::texts(&WIDE, if thorough { 5 } else { 4 });
	texts.extend(mck::texts(&NARROW, if thorough { 8 } else { 6 }));
	texts.sort_by_key(|t| (t.len(), t.clone()));
	texts.dedup();
	r.bounds.push(format!(
		"all single edits (every range over the position grid x {} replacements, {} whole-text replacements) of {} texts",
		repl.len(),
		full.len(),
		texts.len()
	));
	r.merge(mck::par(&texts, |t, r| {
		let f = LspFile::new(t);
		for e in edits(t, &repl, &full) {
			if step(which, t, &[], &f, &e, r, true).is_some() {
				r.outcome("edit applied")
			}
			r.traces += 1;
			r.evaluations += 1;
			r.distinct += !matches!(&e, Edit::Range(a, b, "") if a == b) as u64;
		}
	}));
	r.states = texts.len() as u64;
	// 2. every sequence of edits, the real object carried along (no merging of states: hidden state would show)
	let (depth, init_len) = if thorough { (3, 3) } else { (2, 3) };
	let repl2: [&'static str; 5] = ["", "a", "\n", "é\n", "\nb"];
	let full2: [&'static str; 2] = ["", "a\né"];
	let inits = mck::texts(&NARROW, init_len);
	r.bounds.push(format!("all edit sequences of length {depth} from {} texts", inits.len()));
	let mut roots = vec![];
	for t in &inits {
		for e in edits(t, &repl2, &full2) {
			roots.push((t.clone(), e))
		}
	}
	r.merge(mck::par(&roots, |(t, e), r| {
		let mut seen = Seen::default();
		let f = LspFile::new(t);
		if let Some(g) = step(which, t, &[], &f, e, r, true) {
			seq(which, t, &mut vec![e.clone()], &g, depth - 1, &repl2, &full2, r, &mut seen)
		}
		r.states += seen.len() as u64;
	}));
	// 3. longer sequences over a tiny alphabet
	let (depth, init_len) = if thorough { (4, 2) } else { (3, 2) };
	let tiny = mck::texts(&["a", "\n"], init_len);
	let repl3: [&'static str; 3] = ["", "a", "\n"];
	let full3: [&'static str; 1] = [""];
	r.bounds.push(format!("all edit sequences of length {depth} from {} texts with replacements {repl3:?}", tiny.len()));
	let mut roots = vec![];
	for t in &tiny {
		for e in edits(t, &repl3, &full3) {
			roots.push((t.clone(), e))
		}
	}
	r.merge(mck::par(&roots, |(t, e), r| {
		let mut seen = Seen::default();
		let f = LspFile::new(t);
		if let Some(g) = step(which, t, &[], &f, e, r, true) {
			seq(which, t, &mut vec![e.clone()], &g, depth - 1, &repl3, &full3, r, &mut seen)
		}
		r.states += seen.len() as u64;
	}));
	// 4. long documents: sizes at which a shortcut for big texts would differ from one for small ones
	let long = long_documents();
	let big: &'static str = Box::leak((0..14).map(|i| format!("line {i} é€ {}\n", "x".repeat(i * 3))).collect::<String>().into_boxed_str());
	let repl4: [&'static str; 6] = ["", "z", "\n", "é", "p\nq\n", big];
	let mut roots = vec![];
	for t in &long {
		let ls = lines(t, Rules { cr_ends_line: false, utf16: true });
		for l in 0..=ls.len() {
			roots.push((t.clone(), l))
		}
	}
	r.bounds.push(format!("all pairs of edits at line starts/ends/middles of {} long documents (up to 40 lines, 300 columns)", long.len()));
	r.merge(mck::par(&roots, |(t, l), r| {
		let f = LspFile::new(t);
		let ps = coarse(t);
		for a in ps.iter().filter(|p| p.0 == *l) {
			for b in ps.iter().filter(|b| a <= b) {
				for x in repl4 {
					let e = Edit::Range(*a, *b, x);
					r.traces += 1;
					r.evaluations += 1;
					r.distinct += 1;
					let Some(g) = step(which, t, &[], &f, &e, r, thorough) else { continue };
					// one more edit on either side of the first
					for p in [(a.0.saturating_sub(1), 1), (a.0, a.1), (b.0, 0), (b.0 + 1, 0)] {
						let e2 = Edit::Range(p, p, "w\n");
						step(which, t, &[e.clone()], &g, &e2, r, false);
					}
				}
			}
		}
	}));
	// 5. huge documents
	let huge = huge_documents();
	let tables: Vec<_> = huge.iter().map(|t| lines(t, Rules { cr_ends_line: false, utf16: true })).collect();
	let mut roots = vec![];
	for (d, ls) in tables.iter().enumerate() {
		for l in marks(ls.len()) {
			let n = ls.get(l).map_or(0, |x| huge[d][x.0..x.1].chars().count());
			for c in marks(n) {
				roots.push((d, l, c))
			}
		}
	}
	r.bounds.push(format!("{} documents of up to 1030 lines, 70000 columns, 66000 bytes: edits between all positions around powers of two", huge.len()));
	r.merge(mck::par(&roots, |(d, l, c), r| {
		let (t, ls) = (&huge[*d], &tables[*d]);
		let f = LspFile::new(t);
		let n = ls.get(*l).map_or(0, |x| x.1 - x.0);
		let last = (ls.len() - 1, 0);
		for b in [(*l, *c), (*l, *c + 1), (*l, *c + n), (*l + 1, 0), (*l + 1, 1), (*l + 257, 0), last, (ls.len(), 0)] {
			if b < (*l, *c) {
				continue;
			}
			for x in ["", "é\n", big] {
				r.traces += 1;
				r.evaluations += 1;
				r.distinct += 1;
				step_short(which, t, &f, &Edit::Range((*l, *c), b, x), r);
			}
		}
	}));
	// 6. long histories of one document: whatever is kept between edits, over many of them
	let mut pool = vec![Edit::Full(""), Edit::Full("a\né")];
	for p in [(0, 0), (0, 1), (1, 0), (9, 0), (300, 0)] {
		for x in ["", "a", "\n", "é\n"] {
			pool.push(Edit::Range(p, p, x));
		}
		pool.push(Edit::Range((0, 0), p, ""));
		pool.push(Edit::Range(p, (p.0 + 1, 0), "z"));
	}
	let n = if thorough { 700 } else { 280 };
	r.bounds.push(format!("histories of {n} edits: every pair of {} edits, alternating", pool.len()));
	let pairs: Vec<_> = (0..pool.len()).flat_map(|a| (0..pool.len()).map(move |b| (a, b))).collect();
	r.merge(mck::par(&pairs, |&(a, b), r| {
		let mut f = LspFile::new(&"é\nab".to_string());
		r.traces += 1;
		for i in 0..n {
			let e = &pool[if i % 2 == 0 { a } else { b }];
			r.evaluations += 1;
			match step(which, &format!("é\\nab, then {i} of {:?} and {:?} in turn,", pool[a], pool[b]), &[], &f, e, r, i % 64 == 0) {
				Some(g) => f = g,
				None => break,
			}
		}
	}));
	// 7. odd characters
	let odd = mck::texts(&ODD, if thorough { 4 } else { 3 });
	r.bounds.push(format!("all single edits of {} texts over {ODD:?}", odd.len()));
	r.merge(mck::par(&odd, |t, r| {
		let f = LspFile::new(t);
		for e in edits(t, &["", "a", "\u{2028}\n", "\u{feff}"], &["\u{feff}", "\u{85}\n"]) {
			r.traces += 1;
			r.evaluations += 1;
			r.distinct += 1;
			step(which, t, &[], &f, &e, r, true);
		}
	}));
	r.sample(hist(&texts[texts.len() / 2], &edits(&texts[texts.len() / 2], &repl, &full)[7..8]));
	r.sample(format!("{:?}", roots[roots.len() / 2]));
	r
}

/// A step from a text that is too long to be printed.
fn step_short(which: u8, init: &str, f: &LspFile, e: &Edit, r: &mut Report) {
	let mut s = Report::new();
	let name = format!("a text of {} bytes, {} lines: {:?}", init.len(), init.matches('\n').count() + 1, &init[..8]);
	let mut g = f.clone();
	s.transitions += 1;
	let before = f.get_file_content();
	let case = || match e {
		Edit::Range(a, b, t) if t.len() > 20 => format!("{name} then {a:?}..{b:?} replaced by {} bytes", t.len()),
		e => format!("{name} then {e:?}"),
	};
	if let Err(p) = mck::catch(|| g.lazy_add(&e.event())) {
		if apply(before, e, TRUE).is_some() {
			s.violation("edit-panics", case(), format!("panic: {p}"));
		}
	} else {
		let after = g.get_file_content();
		if which == 1 {
			if classify(before, after, |v| apply(before, e, v)).0 != Class::True {
				s.violation("edit-wrong-text", case(), format!("{} bytes instead of {}", after.len(), apply(before, e, TRUE).unwrap().len()));
			}
		} else if *g.get_ranges() != reference_table(after) {
			s.violation("stale-line-table", case(), "the line table is not that of the text");
		} else if *g.get_ranges() != *LspFile::new(after).get_ranges() {
			s.violation("structure-differs", case(), "the line table is not that of the text opened anew");
		} else {
			for (l, x) in lines(after, Rules { cr_ends_line: false, utf16: false }).iter().filter(|x| x.2 > x.0).enumerate() {
				let due = after[x.0..x.2].chars().count();
				let got = mck::catch(|| g.line_char(l));
				if got != Ok(due) {
					s.violation("line-length", case(), format!("line {l} has {got:?} characters, should be {due}"));
					break;
				}
			}
		}
	}
	r.merge(s);
}

#[allow(clippy::too_many_arguments)]
fn seq(
	which: u8,
	init: &str,
	done: &mut Vec<Edit>,
	f: &LspFile,
	left: usize,
	repl: &[&'static str],
	full: &[&'static str],
	r: &mut Report,
	seen: &mut Seen,
) {
	seen.insert(f.get_file_content());
	if left == 0 {
		r.traces += 1;
		r.evaluations += 1;
		return;
	}
	for e in edits(f.get_file_content(), repl, full) {
		if let Some(g) = step(which, init, done, f, &e, r, left > 1) {
			done.push(e);
			seq(which, init, done, &g, left - 1, repl, full, r, seen);
			done.pop();
		}
	}
}

/// Every conversion of a document, in several orders, against the definition.
fn convert(f: &LspFile, doc: &dyn Fn() -> String, r: &mut Report) {
	let t = f.get_file_content().clone();
	let t = t.as_str();
	let report = |r: &mut Report, c: Class, sig: &str, case: String, got: String, want: String| {
		let sig = match c {
			Class::True => return,
			Class::Utf16 => "utf16-columns",
			Class::Cr => "cr-line-end",
			Class::Wrong => sig,
		};
		r.violation(sig, case, format!("got {got}, should be {want}"))
	};
	let mut offs: Vec<usize> = (0..t.len() + 3).collect();
	offs.push(usize::MAX / 2);
	let mut asc = vec![];
	for b in offs.iter().copied() {
		r.transitions += 1;
		let res = mck::catch(|| f.byte_to_lsp(b));
		asc.push(res.clone());
		match res {
			Err(p) => r.violation("byte_to_lsp-panics", format!("{} offset {b}", doc()), p),
			Ok(p) => {
				let got = (p.line, p.character);
				let (c, want) = classify(t, &got, |v| Some(position(t, b, v)));
				if c != Class::True {
					report(r, c, "byte_to_lsp", format!("{} offset {b}", doc()), format!("{got:?}"), format!("{want:?}"));
				}
				if b <= t.len() && t.is_char_boundary(b) {
					let back = mck::catch(|| f.lsp_to_byte(&p));
					if back != Ok(b) {
						r.violation("round-trip", format!("{} offset {b}", doc()), format!("{b} -> {got:?} -> {back:?}"))
					}
				}
			}
		}
	}
	let mut ps = positions(t);
	ps.push((0, u32::MAX as usize));
	ps.push((u32::MAX as usize, 0));
	ps.push((u32::MAX as usize, u32::MAX as usize));
	let mut asc2 = vec![];
	for p in ps.iter().copied() {
		r.transitions += 1;
		let q = Position::new(p.0, p.1);
		let res = mck::catch(|| f.lsp_to_byte(&q));
		asc2.push(res.clone());
		match res {
			Err(m) => r.violation("lsp_to_byte-panics", format!("{} position {p:?}", doc()), m),
			Ok(b) => {
				let (c, want) = classify(t, &b, |v| offset(t, p, v));
				if c != Class::True {
					report(r, c, "lsp_to_byte", format!("{} position {p:?}", doc()), format!("{b}"), format!("{want:?}"));
				}
				if !t.is_char_boundary(b) {
					r.violation("splits-character", format!("{} position {p:?}", doc()), format!("offset {b}"))
				}
			}
		}
	}
	// a conversion does not depend on the ones asked before it: descending, and every ordered pair in small texts
	for (b, x) in offs.iter().zip(&asc).rev() {
		r.transitions += 1;
		let y = mck::catch(|| f.byte_to_lsp(*b));
		if y != *x {
			r.violation("order-dependent", format!("{} offset {b}", doc()), format!("{x:?}, asked again {y:?}"))
		}
	}
	for (p, x) in ps.iter().zip(&asc2).rev() {
		r.transitions += 1;
		let y = mck::catch(|| f.lsp_to_byte(&Position::new(p.0, p.1)));
		if y != *x {
			r.violation("order-dependent", format!("{} position {p:?}", doc()), format!("{x:?}, asked again {y:?}"))
		}
	}
	if t.len() <= 6 {
		for a in 0..=t.len() {
			for b in a..=t.len() {
				r.transitions += 1;
				let x = mck::catch(|| f.byte_range_to_lsp_range(&(a..b)));
				let (ra, rb) = (&asc[a], &asc[b]);
				let y = match (ra, rb) {
					(Ok(a), Ok(b)) => Ok(Range::new(*a, *b)),
					_ => Err("panic".to_string()),
				};
				if x != y {
					r.violation("range-to-lsp", format!("{} {a}..{b}", doc()), format!("{x:?} vs {y:?}"));
				}
				if let Ok(y) = y {
					let z = mck::catch(|| f.lsp_range_to_byte_range(&y));
					let w = mck::catch(|| f.lsp_to_byte(&y.start)..f.lsp_to_byte(&y.end));
					if z != w {
						r.violation("range-to-bytes", format!("{} {y:?}", doc()), format!("{z:?} vs {w:?}"));
					}
				}
			}
		}
	}
}

pub fn conversions(thorough: bool) -> Report {
	let mut texts = mck::texts(&WIDE, if thorough { 6 } else { 4 });
	texts.extend(mck::texts(&["a", "é", "€", "\n"], if thorough { 8 } else { 6 }));
	texts.extend(long_documents());
	texts.extend(mck::texts(&ODD, if thorough { 4 } else { 3 }));
	texts.sort_by_key(|t| (t.len(), t.clone()));
	texts.dedup();
	let mut r = mck::par(&texts, |t, r| {
		r.states += 1;
		r.traces += 1;
		r.evaluations += 1;
		r.distinct += (t.len() > 1) as u64;
		let f = LspFile::new(t);
		if f.get_file_content() != t {
			r.violation("content", format!("{t:?}"), "a new document does not hold its text");
		}
		convert(&f, &|| format!("{t:?}"), r);
	});
	r.bounds.push(format!("{} texts; every offset to three past the end; every position of the grid; both orders", texts.len()));
	r.sample(format!("{:?}", texts[texts.len() / 2]));
	r.sample(format!("{:?}", texts[texts.len() - 1]));
	let huge = huge_documents();
	let tables: Vec<_> = huge.iter().map(|t| lines(t, Rules { cr_ends_line: false, utf16: true })).collect();
	let roots: Vec<_> = (0..huge.len()).flat_map(|d| marks(tables[d].len()).into_iter().map(move |l| (d, l))).collect();
	r.bounds.push(format!("{} documents of up to 1030 lines, 70000 columns, 66000 bytes: all positions and offsets around powers of two", huge.len()));
	r.merge(mck::par(&roots, |&(d, l), r| {
		let (t, ls) = (&huge[d], &tables[d]);
		let f = LspFile::new(t);
		let name = |p: String| format!("a text of {} bytes, {} lines: {p}", t.len(), ls.len());
		r.traces += 1;
		r.evaluations += 1;
		let n = ls.get(l).map_or(0, |x| t[x.0..x.1].chars().count());
		for c in marks(n) {
			r.transitions += 2;
			// without \r and supplementary characters the columns are characters
			let due = ls.get(l).map_or(t.len(), |x| t[x.0..x.1].char_indices().nth(c).map_or(x.1, |(i, _)| x.0 + i));
			let got = mck::catch(|| f.lsp_to_byte(&Position::new(l, c)));
			if got != Ok(due) {
				r.violation("lsp_to_byte", name(format!("position {:?}", (l, c))), format!("got {got:?}, should be {due}"));
			}
			let mut back = ls.get(l).map_or((ls.len() - 1, ls[ls.len() - 1]), |x| (l, *x));
			if due == t.len() {
				back = (ls.len() - 1, ls[ls.len() - 1]);
			}
			let due_p = Position::new(back.0, t[back.1 .0..due].chars().count());
			let got = mck::catch(|| f.byte_to_lsp(due));
			if got != Ok(due_p) {
				r.violation("byte_to_lsp", name(format!("offset {due}")), format!("got {got:?}, should be {due_p:?}"));
			}
		}
	}));
	// documents that came about by edits
	let inits = mck::texts(&["a", "é", "\n"], if thorough { 4 } else { 3 });
	let repl: [&'static str; 6] = ["", "a", "\n", "é", "€\n", "a\nb"];
	let full: [&'static str; 3] = ["", "a\n", "é\na"];
	let mut roots = vec![];
	for t in &inits {
		for e in edits(t, &repl, &full) {
			roots.push((t.clone(), e))
		}
	}
	r.bounds.push(format!("documents after every one or two edits of {} texts", inits.len()));
	r.merge(mck::par(&roots, |(t, e), r| {
		let mut f = LspFile::new(t);
		let _ = (f.byte_to_lsp(t.len() / 2), f.lsp_to_byte(&Position::new(0, 1)));
		if mck::catch(|| f.lazy_add(&e.event())).is_err() {
			return; // C01
		}
		r.states += 1;
		r.traces += 1;
		r.evaluations += 1;
		convert(&f, &|| hist(t, std::slice::from_ref(e)), r);
		for e2 in edits(f.get_file_content(), if thorough { &repl } else { &repl[..4] }, &full[2..]) {
			let mut g = f.clone();
			if mck::catch(|| g.lazy_add(&e2.event())).is_err() {
				continue;
			}
			r.traces += 1;
			r.evaluations += 1;
			convert(&g, &|| hist(t, &[e.clone(), e2.clone()]), r);
		}
	}));
	r
}
