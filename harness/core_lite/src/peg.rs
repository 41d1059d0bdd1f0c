//! C04, C05: the packrat parser against a memo-less reference interpreter of PEG semantics.
use analyzer_core::parser::{Cst, Parser, Rule};
use mck::Report;
use std::collections::HashMap;
use std::rc::Rc;

/// A grammar as plain data (the crate's Rule holds Rc and cannot cross threads).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum R {
	T(&'static str),
	C(Vec<&'static str>),
	S(Vec<&'static str>),
	Rep(&'static str),
	Not(&'static str),
}
pub type G = Vec<(&'static str, R)>;

fn real(g: &G) -> HashMap<&'static str, Rule<char>> {
	g.iter()
		.map(|(n, r)| {
			(
				*n,
				match r {
					R::T(s) => Rule::Terminal(Rc::new(s.chars().collect())),
					R::C(v) => Rule::Choice(v.clone()),
					R::S(v) => Rule::Sequence(v.clone()),
					R::Rep(x) => Rule::Repetition(x),
					R::Not(x) => Rule::Not(x),
				},
			)
		})
		.collect()
}

fn rule<'a>(g: &'a G, n: &str) -> &'a R { &g.iter().find(|x| x.0 == n).unwrap().1 }

/// Reference semantics: returns the end position and the tree.
fn eval(g: &G, n: &str, inp: &[char], pos: usize) -> Option<(usize, Cst<char>)> {
	match rule(g, n) {
		R::T(s) => {
			let mut p = pos;
			for c in s.chars() {
				if inp.get(p) != Some(&c) {
					return None;
				}
				p += 1
			}
			Some((p, Cst::Terminal(Rc::new(s.chars().collect()))))
		}
		R::C(v) => v.iter().find_map(|o| eval(g, o, inp, pos).map(|(p, c)| (p, Cst::Choice(o, Rc::new(c))))),
		R::S(v) => {
			let (mut p, mut out) = (pos, vec![]);
			for o in v {
				let (q, c) = eval(g, o, inp, p)?;
				p = q;
				out.push(Rc::new(c))
			}
			Some((p, Cst::Sequence(out)))
		}
		R::Rep(x) => {
			let (mut p, mut out) = (pos, vec![]);
			while let Some((q, c)) = eval(g, x, inp, p) {
				p = q;
				out.push(Rc::new(c))
			}
			Some((p, Cst::Repetition(out)))
		}
		R::Not(x) => match eval(g, x, inp, pos) {
			Some(_) => None,
			None => Some((pos, Cst::Not(rule_name(g, x)))),
		},
	}
}
fn rule_name(g: &G, n: &str) -> &'static str { g.iter().find(|x| x.0 == n).unwrap().0 }

fn expected(g: &G, inp: &[char]) -> Option<Cst<char>> {
	eval(g, "start", inp, 0).filter(|(p, _)| *p == inp.len()).map(|x| x.1)
}

/// No left recursion and no repetition of a rule that can match nothing: the grammars PEG defines.
fn well_formed(g: &G) -> bool {
	let nullable = {
		let mut set: Vec<&str> = vec![];
		loop {
			let n = set.len();
			for (k, r) in g {
				let yes = match r {
					R::T(s) => s.is_empty(),
					R::C(v) => v.iter().any(|x| set.contains(x)),
					R::S(v) => v.iter().all(|x| set.contains(x)),
					R::Rep(_) | R::Not(_) => true,
				};
				if yes && !set.contains(k) {
					set.push(k)
				}
			}
			if set.len() == n {
				break set;
			}
		}
	};
	if g.iter().any(|(_, r)| matches!(r, R::Rep(x) if nullable.contains(x))) {
		return false;
	}
	let first = |n: &str| -> Vec<&'static str> {
		match rule(g, n) {
			R::T(_) => vec![],
			R::C(v) => v.clone(),
			R::S(v) => {
				let mut o = vec![];
				for x in v {
					o.push(*x);
					if !nullable.contains(x) {
						break;
					}
				}
				o
			}
			R::Rep(x) | R::Not(x) => vec![x],
		}
	};
	g.iter().all(|(n, _)| {
		let (mut todo, mut seen) = (first(n), vec![]);
		while let Some(x) = todo.pop() {
			if x == *n {
				return false;
			}
			if !seen.contains(&x) {
				seen.push(x);
				todo.extend(first(x))
			}
		}
		true
	})
}

fn shapes(refs: &[&'static str], three: bool) -> Vec<R> {
	let mut out = vec![];
	for a in refs {
		out.push(R::Rep(a));
		out.push(R::Not(a));
		for b in refs {
			out.push(R::C(vec![a, b]));
			out.push(R::S(vec![a, b]));
			if three {
				for c in refs {
					out.push(R::C(vec![a, b, c]));
					out.push(R::S(vec![a, b, c]));
				}
			}
		}
	}
	out
}

fn reachable(g: &G) -> bool {
	let mut todo = vec!["start"];
	let mut seen = vec!["start"];
	while let Some(x) = todo.pop() {
		let next: Vec<&'static str> = match rule(g, x) {
			R::T(_) => vec![],
			R::C(v) | R::S(v) => v.clone(),
			R::Rep(x) | R::Not(x) => vec![x],
		};
		for n in next {
			if !seen.contains(&n) {
				seen.push(n);
				todo.push(n)
			}
		}
	}
	g.iter().all(|(n, r)| matches!(r, R::T(_)) || seen.contains(n))
}

fn terms(empty: bool) -> G {
	let mut t = vec![("x", R::T("a")), ("y", R::T("b")), ("z", R::T("ab"))];
	if empty {
		t.push(("e", R::T("")))
	}
	t
}

/// Two recursive nonterminals over all references (one of them optionally with three parts).
fn family2(three: bool) -> Vec<G> {
	let refs = ["start", "A", "x", "y", "z"];
	let mut out = vec![];
	for s in shapes(&refs, three) {
		for a in shapes(&refs, false) {
			let mut g: G = vec![("start", s.clone()), ("A", a)];
			g.extend(terms(false));
			if reachable(&g) && well_formed(&g) {
				out.push(g)
			}
		}
	}
	out
}
/// Three nonterminals in a chain, the middle one may recurse.
fn family3() -> Vec<G> {
	let mut out = vec![];
	for s in shapes(&["A", "B", "x"], false) {
		for a in shapes(&["B", "x", "z", "A"], false) {
			for b in shapes(&["x", "y", "z"], false) {
				let mut g: G = vec![("start", s.clone()), ("A", a.clone()), ("B", b)];
				g.extend(terms(false));
				if reachable(&g) && well_formed(&g) {
					out.push(g)
				}
			}
		}
	}
	out
}
/// Grammars with rules that match nothing.
fn family_empty() -> Vec<G> {
	let mut out = vec![];
	for s in shapes(&["A", "x", "e"], true) {
		for a in shapes(&["x", "z", "e"], false) {
			let mut g: G = vec![("start", s.clone()), ("A", a.clone())];
			g.extend(terms(true));
			if reachable(&g) && well_formed(&g) {
				out.push(g)
			}
		}
	}
	for s in [R::C(vec![]), R::S(vec![]), R::T(""), R::T("a"), R::T("ab"), R::C(vec!["x"]), R::S(vec!["x"]), R::S(vec!["e"])] {
		let mut g: G = vec![("start", s)];
		g.extend(terms(true));
		out.push(g)
	}
	out
}
fn arithmetic() -> G {
	vec![
		("start", R::C(vec!["addition", "num"])),
		("addition", R::S(vec!["num", "op", "start"])),
		("op", R::C(vec!["plus", "minus"])),
		("plus", R::T("+")),
		("minus", R::T("-")),
		("num", R::S(vec!["digit", "digits"])),
		("digits", R::Rep("digit")),
		("digit", R::C(vec!["d0", "d1"])),
		("d0", R::T("0")),
		("d1", R::T("1")),
	]
}
/// Hand-picked shapes in which lookahead reaches past the match.
fn lookahead() -> Vec<G> {
	let t = || terms(false);
	let mut out: Vec<G> = vec![
		vec![("start", R::S(vec!["A", "B"])), ("A", R::S(vec!["n", "x"])), ("n", R::Not("w")), ("w", R::S(vec!["x", "x", "y"])), ("B", R::Rep("C")), ("C", R::C(vec!["x", "y"]))],
		vec![("start", R::Rep("A")), ("A", R::C(vec!["w", "x", "y"])), ("w", R::S(vec!["x", "y", "y"]))],
		vec![("start", R::S(vec!["A", "end"])), ("A", R::Rep("B")), ("B", R::C(vec!["z", "x", "y"])), ("end", R::Not("any")), ("any", R::C(vec!["x", "y"]))],
		vec![("start", R::C(vec!["A", "B"])), ("A", R::S(vec!["x", "start", "y"])), ("B", R::C(vec!["z", "x"]))],
		vec![("start", R::C(vec!["A", "B", "C"])), ("A", R::S(vec!["D", "x"])), ("B", R::S(vec!["D", "y"])), ("C", R::S(vec!["D", "z"])), ("D", R::Rep("z"))],
	];
	for g in &mut out {
		g.extend(t());
	}
	out.push(arithmetic());
	out
}

/// Grammars for long inputs: repetition, nesting, right recursion, terminals that look far ahead.
fn tall() -> Vec<(G, Vec<String>)> {
	let t = |mut g: G, more: &[(&'static str, &'static str)]| {
		g.extend(terms(false));
		g.extend(more.iter().map(|(n, s)| (*n, R::T(s))));
		g
	};
	let long = "abbaababbbaabaabab";
	let rep: G = t(vec![("start", R::Rep("A")), ("A", R::C(vec!["w", "x", "y"]))], &[("w", "abbaababbbaabaabaa")]);
	let nest: G = t(vec![("start", R::C(vec!["A", "x"])), ("A", R::S(vec!["y", "start", "y"]))], &[]);
	let right: G = t(vec![("start", R::C(vec!["A", "x"])), ("A", R::S(vec!["B", "start"])), ("B", R::C(vec!["x", "y"]))], &[]);
	let far: G = t(
		vec![("start", R::S(vec!["A", "C"])), ("A", R::S(vec!["n", "x"])), ("n", R::Not("w")), ("w", R::S(vec!["D", "y"])), ("D", R::Rep("x")), ("C", R::Rep("B")), ("B", R::C(vec!["x", "y"]))],
		&[],
	);
	let mut many: G = t(vec![("start", R::Rep("A")), ("A", R::C(vec![]))], &[]);
	const NAMES: [&str; 70] = [
		"n00", "n01", "n02", "n03", "n04", "n05", "n06", "n07", "n08", "n09", "n10", "n11", "n12", "n13", "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21",
		"n22", "n23", "n24", "n25", "n26", "n27", "n28", "n29", "n30", "n31", "n32", "n33", "n34", "n35", "n36", "n37", "n38", "n39", "n40", "n41", "n42", "n43",
		"n44", "n45", "n46", "n47", "n48", "n49", "n50", "n51", "n52", "n53", "n54", "n55", "n56", "n57", "n58", "n59", "n60", "n61", "n62", "n63", "n64", "n65",
		"n66", "n67", "n68", "n69",
	];
	for (i, n) in NAMES.iter().enumerate() {
		let text: &'static str = Box::leak(format!("{}b{}", "a".repeat(70 - i), if i % 2 == 0 { "b" } else { "" }).into_boxed_str());
		many.push((n, R::T(text)));
	}
	many[1].1 = R::C(NAMES.iter().copied().chain(["x", "y"]).collect());
	vec![
		(rep, vec![long.repeat(17), "a".repeat(300), format!("{}{}", "ab".repeat(130), long)]),
		(nest, vec![format!("{}a{}", "b".repeat(140), "b".repeat(140))]),
		(right, vec![format!("{}a", "ab".repeat(140)), "a".repeat(290)]),
		(far, vec![format!("{}b", "a".repeat(280)), "a".repeat(280), format!("{}ba", "a".repeat(270))]),
		(many, vec![format!("{}b", "a".repeat(70)), format!("{}bb", "a".repeat(69)).repeat(4)]),
	]
}

/// Grammars in which a long match is found again by another alternative, after a sequence, under a lookahead.
fn huge() -> Vec<G> {
	let t = |mut g: G| {
		g.extend(terms(false));
		g
	};
	vec![
		t(vec![("start", R::C(vec!["P", "Q", "A"])), ("P", R::S(vec!["A", "z"])), ("Q", R::S(vec!["A", "y"])), ("A", R::Rep("x"))]),
		t(vec![("start", R::C(vec!["P", "Q"])), ("P", R::S(vec!["n", "B", "z"])), ("n", R::Not("N")), ("N", R::S(vec!["A", "z"])), ("Q", R::S(vec!["A", "B"])), ("B", R::Rep("C")), ("C", R::C(vec!["y", "x"])), ("A", R::Rep("x"))]),
	]
}
const HUGE: [usize; 14] = [254, 255, 256, 257, 511, 512, 1024, 4096, 32767, 32768, 65534, 65535, 65536, 70_000];
const TAILS: [&str; 6] = ["", "b", "ab", "a", "bb", "ba"];

fn chars(v: &str) -> Vec<char> { v.chars().collect() }

fn parser(rules: &HashMap<&'static str, Rule<char>>, inp: &[char]) -> Parser<char> {
	Parser::from_rules(rules).ok().expect("valid grammar refused")(inp.to_vec().into())
}

pub fn semantics(thorough: bool) -> Report {
	let mut gs = family_empty();
	gs.extend(lookahead());
	gs.extend(family2(thorough));
	gs.extend(family3());
	let long = mck::texts(&["a", "b"], if thorough { 8 } else { 6 });
	let short = mck::texts(&["a", "b", "c"], if thorough { 4 } else { 3 });
	let arith = mck::texts(&["0", "1", "+", "-"], if thorough { 6 } else { 5 });
	let mut r = mck::par(&gs, |g, r| {
		let rules = real(g);
		r.states += 1;
		let is_arith = g.iter().any(|x| x.0 == "digit");
		let inputs: Vec<&String> = if is_arith { arith.iter().collect() } else { long.iter().chain(&short).collect() };
		for i in inputs {
			r.transitions += 1;
			r.traces += 1;
			let inp = chars(i);
			let want = expected(g, &inp);
			let got = mck::catch(|| {
				let mut p = parser(&rules, &inp);
				let a = p._match();
				let b = p._match();
				(a, b)
			});
			match got {
				Err(m) => r.violation("parse-panics", format!("{g:?} on {i:?}"), m),
				Ok((a, b)) => {
					if a != want {
						r.violation("wrong-parse", format!("{g:?} on {i:?}"), format!("got {a:?}, PEG semantics give {want:?}"))
					}
					if b != want {
						r.violation("second-parse", format!("{g:?} on {i:?}"), format!("parsing again gave {b:?}, should be {want:?}"))
					}
				}
			}
			r.evaluations += 1;
			r.distinct += want.is_some() as u64;
			r.outcome(if want.is_some() { "accepted" } else { "rejected" });
		}
		// validation: drop each rule in turn
		for k in 0..g.len() {
			let mut h = g.clone();
			let (gone, _) = h.remove(k);
			let used = h.iter().any(|(_, r)| match r {
				R::T(_) => false,
				R::C(v) | R::S(v) => v.contains(&gone),
				R::Rep(x) | R::Not(x) => *x == gone,
			});
			let bad = used || gone == "start";
			r.transitions += 1;
			match mck::catch(|| Parser::from_rules(&real(&h)).is_err()) {
				Ok(e) if e == bad => r.outcome(if bad { "ill-formed refused" } else { "unused rule dropped" }),
				o => r.violation("validation", format!("{h:?}"), format!("from_rules is_err = {o:?}, should be {bad}")),
			}
		}
	});
	r.bounds.push(format!(
		"{} grammars (all 2-nonterminal grammars over 5 references, all 3-nonterminal chains, empty-matching rules) x {} inputs over {{a,b}} and {} over {{a,b,c}}; every rule removal",
		gs.len(),
		long.len(),
		short.len()
	));
	let tall = tall();
	r.bounds.push("5 grammars on inputs of up to 306 tokens and everything that differs from them in the last or first tokens".to_string());
	r.merge(mck::par(&tall, |(g, inputs), r| {
		let rules = real(g);
		r.states += 1;
		for i in inputs {
			for (from, tail) in [(0, ""), (0, "a"), (0, "b"), (1, ""), (2, ""), (1, "b"), (1, "aa")] {
				let inp = chars(&format!("{}{tail}", &i[from..]));
				r.transitions += 1;
				r.traces += 1;
				r.evaluations += 1;
				let want = expected(g, &inp);
				r.distinct += want.is_some() as u64;
				match mck::catch(|| parser(&rules, &inp)._match()) {
					Ok(got) if got == want => {}
					Ok(got) => r.violation("wrong-parse", format!("{:?}.. on {} tokens", g[0], inp.len()), format!("accepted: {}, should be {}", got.is_some(), want.is_some())),
					Err(m) => r.violation("parse-panics", format!("{:?}.. on {} tokens", g[0], inp.len()), m),
				}
			}
		}
	}));
	let mut long: Vec<(G, usize)> = vec![];
	for g in huge() {
		long.extend(HUGE.iter().map(|n| (g.clone(), *n)))
	}
	r.bounds.push(format!("2 grammars in which a match of up to {} tokens is used again, {} ends of the input", HUGE[13], TAILS.len()));
	r.merge(mck::par(&long, |(g, n), r| {
		let rules = real(g);
		for tail in TAILS {
			let inp = chars(&format!("{}{tail}", "a".repeat(*n)));
			r.transitions += 1;
			r.traces += 1;
			r.evaluations += 1;
			let want = expected(g, &inp);
			r.distinct += want.is_some() as u64;
			let case = || format!("{:?}.. on {n} times a and {tail:?}", g[0]);
			match mck::catch(|| {
				let mut p = parser(&rules, &inp);
				(p._match(), p._match())
			}) {
				Ok((a, b)) if a == want && b == want => {}
				Ok((a, b)) => r.violation("wrong-parse", case(), format!("accepted: {}, again: {}, should be {}", a.is_some(), b.is_some(), want.is_some())),
				Err(m) => r.violation("parse-panics", case(), m),
			}
		}
	}));
	r.sample(format!("{:?}", gs[gs.len() / 2]));
	r.sample(format!("{:?}", gs[gs.len() / 3]));
	r
}

#[derive(Clone, Debug)]
struct Ed(usize, usize, &'static str, bool); // range, replacement, parse afterwards?

fn script(g: &G, rules: &HashMap<&'static str, Rule<char>>, init: &str, pre: bool, eds: &[Ed], r: &mut Report) -> bool {
	let mut text = chars(init);
	let mut p = parser(rules, &text);
	let case = || format!("{g:?} on {init:?} (parsed first: {pre}), edits {eds:?}");
	let run = mck::catch(|| {
		if pre {
			p._match();
		}
		for e in eds {
			let new = chars(e.2);
			p.apply_edit(e.0..e.1, &new);
			text.splice(e.0..e.1, new);
			if e.3 {
				p._match();
			}
		}
		p._match()
	});
	r.transitions += eds.len() as u64;
	r.traces += 1;
	match run {
		Err(m) => {
			r.violation("edit-panics", case(), m);
			false
		}
		Ok(got) => {
			let want = expected(g, &text);
			r.outcome(if want.is_some() { "accepted" } else { "rejected" });
			if got != want {
				r.violation("stale-parse", case(), format!("got {got:?}, a new parser on {text:?} gives {want:?}"));
				return false;
			}
			true
		}
	}
}

/// The same for a buffer that is too long to be printed.
fn script_long(g: &G, rules: &HashMap<&'static str, Rule<char>>, init: &str, eds: &[Ed], r: &mut Report) {
	let mut s = Report::new();
	script(g, rules, init, true, eds, &mut s);
	let broken = s.violated();
	r.transitions += s.transitions;
	r.traces += s.traces;
	if broken {
		r.violation("stale-parse", format!("{:?}.. on {} tokens, edits {eds:?}", g[0], init.len()), "the parse is not that of a new parser, or an edit panicked");
	}
}

fn all_edits(len: usize, repl: &[&'static str], parse: &[bool]) -> Vec<Ed> {
	let mut out = vec![];
	for a in 0..=len {
		for b in a..=len {
			for t in repl {
				for p in parse {
					out.push(Ed(a, b, t, *p))
				}
			}
		}
	}
	out
}

pub fn incremental(thorough: bool) -> Report {
	let repl: [&'static str; 4] = ["", "a", "b", "ba"];
	// depth 1: every grammar
	let mut gs = lookahead();
	gs.pop();
	gs.extend(family_empty());
	gs.extend(family2(thorough));
	gs.extend(family3());
	let inits = mck::texts(&["a", "b"], if thorough { 4 } else { 3 });
	let mut r = mck::par(&gs, |g, r| {
		let rules = real(g);
		r.states += 1;
		for i in &inits {
			for pre in [true, false] {
				for e in all_edits(i.len(), &repl, &[true]) {
					if !pre && (e.0 == e.1 || e.2.len() > 1) {
						continue;
					}
					r.evaluations += 1;
					r.distinct += pre as u64;
					script(g, &rules, i, pre, &[e], r);
				}
			}
		}
	});
	r.bounds.push(format!("{} grammars x {} texts x every edit with replacements {repl:?}", gs.len(), inits.len()));
	// depth 2 and 3: grammars with lookahead
	let mut ls: Vec<(G, String, Ed)> = vec![];
	let mut sel: Vec<G> = lookahead();
	sel.pop();
	let all2 = family2(false);
	let step = if thorough { 7 } else { 41 };
	sel.extend(all2.iter().step_by(step).cloned());
	sel.extend(family3().iter().step_by(step * 5).cloned());
	sel.extend(family_empty().iter().step_by(step).cloned());
	for g in &sel {
		for i in mck::texts(&["a", "b"], 3) {
			for e in all_edits(i.len(), &["", "a", "ba"], &[true, false]) {
				ls.push((g.clone(), i.clone(), e))
			}
		}
	}
	r.bounds.push(format!("{} of those grammars: every sequence of two edits with and without a parse between", sel.len()));
	r.merge(mck::par(&ls, |(g, i, e), r| {
		let rules = real(g);
		let len = i.len() - (e.1 - e.0) + e.2.len();
		for e2 in all_edits(len, &["", "a", "b"], &[true]) {
			r.evaluations += 1;
			r.distinct += 1;
			if !script(g, &rules, i, true, &[e.clone(), e2], r) {
				break;
			}
		}
	}));
	// the arithmetic grammar: growing and shrinking texts
	let g = arithmetic();
	let mut ls: Vec<(String, Ed)> = vec![];
	for i in ["", "0", "1+0", "10-1+0", "1+", "01-"] {
		for e in all_edits(i.len(), &["", "1", "+", "0-1"], &[true, false]) {
			ls.push((i.to_string(), e))
		}
	}
	r.bounds.push(format!("arithmetic grammar: {} first edits, all second edits, third edits at both ends", ls.len()));
	r.merge(mck::par(&ls, |(i, e), r| {
		let rules = real(&g);
		let len = i.len() - (e.1 - e.0) + e.2.len();
		for e2 in all_edits(len, &["", "1", "+", "0-1"], &[true, false]) {
			r.evaluations += 1;
			r.distinct += 1;
			if !script(&g, &rules, i, true, &[e.clone(), e2.clone()], r) {
				continue;
			}
			let len = len - (e2.1 - e2.0) + e2.2.len();
			for e3 in [Ed(0, 0, "1", true), Ed(len, len, "+1", true), Ed(0, len, "", true), Ed(len / 2, len, "0", true)] {
				script(&g, &rules, i, true, &[e.clone(), e2.clone(), e3], r);
			}
		}
	}));
	// long buffers, an edit anywhere and then another
	let mut roots: Vec<(G, String, usize)> = vec![];
	for (g, inputs) in tall() {
		for i in inputs {
			let n = i.len();
			let mut at: Vec<usize> = (0..=n).step_by(if thorough { 1 } else { 13 }).collect();
			at.extend([1, 2, 63, 64, 127, 128, n / 2, 254, 255, 256, 257, n - 2, n - 1, n].into_iter().filter(|x| *x <= n));
			at.sort();
			at.dedup();
			for x in at {
				roots.push((g.clone(), i.clone(), x))
			}
		}
	}
	r.bounds.push(format!("5 grammars on buffers of up to 306 tokens: {} places of an edit, then another at the same place, the ends or next to it", roots.len()));
	r.merge(mck::par(&roots, |(g, i, at), r| {
		let rules = real(g);
		for (del, ins) in [(0, "a"), (1, ""), (1, "b"), (1, "a"), (40, "ab"), (0, "abbaababbbaabaabaa")] {
			let end = (at + del).min(i.len());
			let len = i.len() - (end - at) + ins.len();
			for (b, d2, ins2) in [(*at, ins.len(), &i[*at..end]), (0, 1, ""), (len, 0, "b"), ((at + 3).min(len), 1, "b"), (at.saturating_sub(3), 1, "")] {
				let e2 = Ed(b, (b + d2).min(len), Box::leak(ins2.to_string().into_boxed_str()), true);
				for parse in [true, false] {
					r.evaluations += 1;
					r.distinct += 1;
					script_long(g, &rules, i, &[Ed(*at, end, ins, parse), e2.clone()], r);
				}
			}
		}
	}));
	// very long matches, found before the edit and after it
	let mut roots: Vec<(G, usize, &'static str)> = vec![];
	for g in huge() {
		for n in HUGE {
			roots.extend(TAILS.iter().map(|t| (g.clone(), n, *t)))
		}
	}
	r.bounds.push(format!("2 grammars with matches of up to {} tokens: an edit at the end, the start, the middle or just before the end, then another", HUGE[13]));
	r.merge(mck::par(&roots, |(g, n, tail), r| {
		let rules = real(g);
		let text = format!("{}{tail}", "a".repeat(*n));
		let l = text.len();
		for e in [Ed(l, l, "b", true), Ed(l - 1, l, "", true), Ed(0, 1, "", true), Ed(0, 0, "b", true), Ed(l / 2, l / 2, "a", true), Ed(n - 1, *n, "b", true), Ed(1, 1, "a", false)] {
			let len = l - (e.1 - e.0) + e.2.len();
			for e2 in [Ed(len, len, "a", true), Ed(len - 1, len, "b", true), Ed(0, 1, "a", true)] {
				r.evaluations += 1;
				r.distinct += 1;
				script_long(g, &rules, &text, &[e.clone(), e2], r);
			}
		}
	}));
	// long histories: two edits in turn, many times
	let mut roots: Vec<(G, Ed, Ed)> = vec![];
	let sel2: Vec<G> = sel.iter().step_by(3).cloned().chain([arithmetic()]).collect();
	for g in &sel2 {
		for a in all_edits(2, &["", "a", "ba"], &[true, false]) {
			for b in all_edits(2, &["", "b"], &[true]) {
				roots.push((g.clone(), a.clone(), b));
			}
		}
	}
	let n = if thorough { 150 } else { 24 };
	r.bounds.push(format!("histories of {n} edits: every pair of edits in turn, {} grammars", sel2.len()));
	r.merge(mck::par(&roots, |(g, a, b), r| {
		let rules = real(g);
		let (mut len, mut eds) = (2usize, vec![]);
		for k in 0..n {
			let e = if k % 2 == 0 { a } else { b };
			let (s, t) = (e.0.min(len), e.1.min(len));
			// at the end in the second half, where the buffer was built up or emptied by the first
			let (s, t) = if k > n / 2 { (len - (t - s), len) } else { (s, t) };
			if len - (t - s) + e.2.len() > 20 {
				eds.push(Ed(3, len, "", e.3));
				len = 3;
				continue;
			}
			len = len - (t - s) + e.2.len();
			eds.push(Ed(s, t, e.2, e.3));
		}
		r.evaluations += 1;
		r.distinct += 1;
		script(g, &rules, "ab", true, &eds, r);
	}));
	r.sample(format!("{:?}", ls[ls.len() / 2]));
	r.sample(format!("{:?}", sel[sel.len() / 2]));
	r
}
