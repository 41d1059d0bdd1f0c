//! C24: conditional inclusion against a stack machine written from the C rules.
use analyzer_core::lexer::Token;
use analyzer_core::preprocessor::PreprocessorDirective;
use analyzer_core::Analyzer;
use mck::Report;
use std::collections::BTreeSet;
use std::ops::Range;

const LINES: [&str; 17] = [
	"#if 1", "#if 0", "#elif 1", "#elif 0", "#else", "#endif", "#if M", "#elif M", "#define M 1", "#undef M", "#include \"k.p4\"",
	"#include \"nope.p4\"", "#pragma p", "#bogus x", "#if defined(M)", "#ifdef M", "#ifndef M",
];
const CORE: usize = 6;

#[derive(Default, Debug)]
struct Expect {
	out: Vec<String>,
	/// lines that must be reported, lines that may be
	must: BTreeSet<usize>,
	may: BTreeSet<usize>,
}
struct Frame {
	line: usize,
	taken: bool,
	active: bool,
	parent: bool,
	closing: bool,
}

fn reference(seq: &[usize]) -> Expect {
	let mut e = Expect::default();
	let mut st: Vec<Frame> = vec![];
	let mut defined = false;
	let on = |st: &Vec<Frame>| st.last().map_or(true, |f| f.active && f.parent);
	e.out.push("t0".into());
	for (i, l) in seq.iter().enumerate() {
		let text = LINES[*l];
		let live = on(&st);
		let cond = match text.split_once(' ').map_or("", |x| x.1) {
			"1" => true,
			"0" => false,
			_ => defined != text.starts_with("#ifndef"),
		};
		let word = text.split(' ').next().unwrap();
		match word {
			"#if" | "#ifdef" | "#ifndef" => st.push(Frame { line: i, taken: cond, active: cond, parent: live, closing: false }),
			"#elif" | "#else" => match st.last_mut() {
				None => {
					e.must.insert(i);
				}
				Some(f) => {
					if f.closing {
						if f.parent { e.must.insert(i) } else { e.may.insert(i) };
					}
					f.active = !f.taken && !f.closing && (word == "#else" || cond);
					f.taken |= f.active;
					f.closing |= word == "#else";
				}
			},
			"#endif" => {
				if st.pop().is_none() {
					e.must.insert(i);
				}
			}
			"#define" if live => defined = true,
			"#undef" if live => defined = false,
			"#include" if live => {
				if text.contains("k.p4") {
					e.out.push("k".into())
				} else {
					e.must.insert(i);
				}
			}
			"#bogus" if live => {
				e.must.insert(i);
			}
			_ => {}
		}
		if on(&st) {
			e.out.push(format!("t{}", i + 1))
		}
	}
	for f in st {
		e.must.insert(f.line);
	}
	e
}

fn case(seq: &[usize]) -> (String, Vec<Range<usize>>) {
	let mut t = "t0;\n".to_string();
	let mut at = vec![];
	for (i, l) in seq.iter().enumerate() {
		let s = t.len();
		t.push_str(LINES[*l]);
		t.push('\n');
		at.push(s..t.len());
		t.push_str(&format!("t{};\n", i + 1));
	}
	(t, at)
}

fn judge(seq: &[usize], r: &mut Report) {
	let (text, at) = case(seq);
	let want = reference(seq);
	r.traces += 1;
	r.states += 1;
	r.transitions += seq.len() as u64;
	r.distinct += seq.iter().any(|l| *l < CORE) as u64;
	let name = || format!("{:?}", seq.iter().map(|l| LINES[*l]).collect::<Vec<_>>());
	let got = mck::catch(|| {
		let mut a = Analyzer::new(|_, p| Ok(format!("file:///{p}")), |_| {});
		let (id, k) = (a.file_id("file:///t.p4"), a.file_id("file:///k.p4"));
		a.update(k, &"k;\n".to_string());
		a.update(id, &text);
		let out: Vec<(bool, Token, Range<usize>)> =
			a.preprocessed(id).cloned().unwrap_or_default().into_iter().map(|(f, t, s)| (f == id, t, s)).collect();
		let diags: Vec<(bool, Range<usize>, String)> =
			a.diagnostics(id).into_iter().map(|d| (d.file == id, d.location, d.message)).collect();
		(out, diags)
	});
	let (out, diags) = match got {
		Ok(g) => g,
		Err(p) => return r.violation(&super::panic_sig(&p), name(), p),
	};
	let mut ids = vec![];
	for (own, t, s) in &out {
		let source = if *own { &text[..] } else { "k;\n" };
		match t {
			Token::Identifier(i) => {
				if source.get(s.clone()) != Some(&i[..]) {
					r.violation("span", name(), format!("token {i} claims {s:?}"))
				}
				ids.push(i.clone())
			}
			Token::Whitespace => {}
			Token::Semicolon => match ids.last_mut() {
				Some(l) if !l.ends_with(';') => l.push(';'),
				_ => ids.push(";".into()),
			},
			Token::PreprocessorDirective(PreprocessorDirective::Pragma(_)) => {}
			t => r.violation("stray-token", name(), format!("{t:?} in the output")),
		}
	}
	let want_ids: Vec<String> = want.out.iter().map(|x| format!("{x};")).collect();
	if ids != want_ids {
		let sig = if seq.iter().any(|l| LINES[*l].starts_with("#ifdef") || LINES[*l].starts_with("#ifndef")) { "ifdef-selection" } else { "selection" };
		r.violation(sig, name(), format!("output {ids:?}, expected {want_ids:?}"));
	}
	r.outcome(&format!("{} of {} texts selected, {} reports", want.out.len(), seq.len() + 1, want.must.len()));
	let mut seen = BTreeSet::new();
	for (own, s, m) in &diags {
		match at.iter().position(|a| a == s) {
			Some(i) if *own && (want.must.contains(&i) || want.may.contains(&i)) => {
				seen.insert(i);
			}
			_ => {
				let sig = if seq.iter().any(|l| LINES[*l].starts_with("#ifdef") || LINES[*l].starts_with("#ifndef")) { "ifdef-report" } else { "false-report" };
				r.violation(sig, name(), format!("{m:?} reported at {s:?} ({:?})", text.get(s.clone())))
			}
		}
	}
	for i in want.must {
		if !seen.contains(&i) {
			let l = LINES[seq[i]].split(' ').next().unwrap();
			r.violation(&format!("not-reported:{l}"), name(), format!("line {i} ({l}) deserves a report; got {diags:?}"))
		}
	}
	if r.samples.len() < 3 && seq.len() > 4 {
		r.sample(name())
	}
}

pub fn check(a: &mck::Args) -> Report {
	if let Some(c) = &a.replay {
		let seq: Vec<usize> = c.split('"').filter_map(|s| LINES.iter().position(|l| *l == s.replace('\\', "\"") || l.replace('"', "\\\"") == s)).collect();
		let mut r = Report::new();
		judge(&seq, &mut r);
		return r;
	}
	let mut all = Report::new();
	let (wide, deep) = if a.thorough { (5, 9) } else { (4, 7) };
	for (alphabet, len) in [(LINES.len(), wide), (CORE, deep), (10, wide + 1)] {
		let heads = mck::strings(&(0..alphabet).collect::<Vec<_>>(), 2);
		let tails = mck::strings(&(0..alphabet).collect::<Vec<_>>(), len - 2);
		all.merge(mck::par(&heads, |h, r| {
			let mut s = h.clone();
			for t in if h.len() == 2 { &tails[..] } else { &tails[..1] } {
				s.truncate(h.len());
				s.extend_from_slice(t);
				judge(&s, r)
			}
		}));
		all.bounds.push(format!("all sequences of up to {len} of {:?}, a text before and after each", &LINES[..alphabet]));
	}
	// depth and length
	let at = |w: &str| LINES.iter().position(|l| *l == w).unwrap();
	let (t, f, e1, e0, el, end) = (at("#if 1"), at("#if 0"), at("#elif 1"), at("#elif 0"), at("#else"), at("#endif"));
	let mut long: Vec<Vec<usize>> = vec![];
	let rep = |x: &[usize], n: usize| -> Vec<usize> { x.iter().cloned().cycle().take(x.len() * n).collect() };
	for n in [8, 16, 17, 33, 65, 70, 129, 257, 300] {
		for unit in [vec![t], vec![f], vec![t, f], vec![f, el], vec![t, el], vec![f, e1], vec![f, e0, e1, e1], vec![at("#if M"), at("#define M 1"), el]] {
			for open in [rep(&unit, n), [rep(&[t], n), unit.clone()].concat(), [unit.clone(), rep(&[t], n)].concat(), [unit.clone(), rep(&[f], n), vec![el]].concat()] {
				let ifs = open.iter().filter(|l| LINES[**l].starts_with("#if")).count();
				for close in [ifs, ifs - 1, ifs + 1, ifs / 2] {
					long.push([open.clone(), rep(&[end], close)].concat());
					long.push([open.clone(), rep(&[el, end], close)].concat());
				}
			}
		}
		for head in [t, f, at("#if M")] {
			for chain in [vec![e0], vec![e1], vec![e0, e1], vec![at("#elif M"), at("#define M 1")], vec![e0, at("#pragma p")]] {
				for tail in [vec![end], vec![el, end], vec![e1, el, end], vec![el, e1, el, end], vec![]] {
					long.push([vec![head], rep(&chain, n), tail].concat())
				}
			}
		}
		for line in [t, f] {
			long.push(rep(&[line, el, end], n));
			long.push(rep(&[line, at("#include \"k.p4\""), at("#define M 1"), end, at("#if M"), at("#undef M"), end], n));
			long.push(rep(&[line, at("#bogus x"), at("#include \"nope.p4\""), end], n));
		}
		for line in [el, e1, end, at("#bogus x"), at("#include \"k.p4\""), at("#define M 1")] {
			long.push(rep(&[line], n))
		}
	}
	all.bounds.push(format!("{} sequences up to 300 levels deep or some 2000 directives long", long.len()));
	all.merge(mck::par(&long, |s, r| judge(s, r)));
	all
}
