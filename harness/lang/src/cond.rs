//! C25: values of conditions against a reference evaluator of C's rules for #if.
use analyzer_core::lexer::Token;
use analyzer_core::Analyzer;
use mck::Report;

type Toks = Vec<String>;
/// Macro definitions in force, in order of definition (`None`: undefined again).
type Env = Vec<(&'static str, Option<&'static str>)>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
	Val(i64),
	/// no defined value: division by zero, overflow, oversized shift, malformed after expansion
	Undef,
	/// C leaves the value open (bits lost by a left shift)
	Open,
}

fn split(s: &str) -> Toks {
	let b: Vec<char> = s.chars().collect();
	let mut out = vec![];
	let mut i = 0;
	while i < b.len() {
		if b[i].is_whitespace() {
			i += 1;
			continue;
		}
		let st = i;
		if b[i].is_alphanumeric() || b[i] == '_' {
			while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
				i += 1
			}
		} else {
			let two: String = b[i..(i + 2).min(b.len())].iter().collect();
			i += if ["<<", ">>", "<=", ">=", "==", "!=", "&&", "||"].contains(&&two[..]) { 2 } else { 1 }
		}
		out.push(b[st..i].iter().collect())
	}
	out
}
fn is_name(t: &str) -> bool { t.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') }
fn lookup(env: &Env, n: &str) -> Option<&'static str> { env.iter().rev().find(|x| x.0 == n).and_then(|x| x.1) }

/// Replaces `defined` tests and macros. `group`: put parentheses around each replacement (not C; used to recognise
/// a known deviation).
fn expand(t: &[String], env: &Env, hidden: &mut Vec<String>, group: bool, out: &mut Toks) -> bool {
	let mut i = 0;
	while i < t.len() {
		if t[i] == "defined" {
			let (n, used) = match (t.get(i + 1).map(|s| &s[..]), t.get(i + 2), t.get(i + 3).map(|s| &s[..])) {
				(Some("("), Some(n), Some(")")) => (n.clone(), 4),
				(Some(n), _, _) if is_name(n) => (n.to_string(), 2),
				_ => return false,
			};
			out.push((lookup(env, &n).is_some() as u8).to_string());
			i += used;
			continue;
		}
		if is_name(&t[i]) {
			match lookup(env, &t[i]) {
				Some(rhs) if !hidden.contains(&t[i]) => {
					hidden.push(t[i].clone());
					if group {
						out.push("(".into())
					}
					if group && split(rhs).is_empty() {
						out.extend(["0", "/", "0"].map(String::from)) // no value, should it be needed
					} else if !expand(&split(rhs), env, hidden, group, out) {
						return false;
					}
					if group {
						out.push(")".into())
					}
					hidden.pop();
				}
				_ => out.push("0".into()),
			}
		} else {
			out.push(t[i].clone())
		}
		i += 1
	}
	true
}
const PREC: [&[&str]; 10] =
	[&["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!="], &["<", "<=", ">", ">="], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
fn literal(t: &str) -> Option<V> {
	let u = t.replace('_', "");
	let r = match u.strip_prefix("0x").or(u.strip_prefix("0X")) {
		Some(h) => i64::from_str_radix(h, 16),
		None => u.parse(),
	};
	t.starts_with(|c: char| c.is_ascii_digit()).then(|| r.map_or(V::Undef, V::Val))
}
/// None: not an expression.
fn parse(t: &[String], p: &mut usize, level: usize) -> Option<V> {
	if level == PREC.len() {
		let s = t.get(*p)?;
		*p += 1;
		return match &s[..] {
			"(" => {
				let v = parse(t, p, 0)?;
				(t.get(*p)? == ")").then(|| *p += 1)?;
				Some(v)
			}
			"!" | "-" | "~" | "+" => {
				let v = parse(t, p, level)?;
				Some(match v {
					V::Val(v) => match &s[..] {
						"!" => V::Val((v == 0) as i64),
						"-" => v.checked_neg().map_or(V::Undef, V::Val),
						"~" => V::Val(!v),
						_ => V::Val(v),
					},
					v => v,
				})
			}
			s => literal(s),
		};
	}
	let mut l = parse(t, p, level + 1)?;
	while let Some(op) = t.get(*p).filter(|o| PREC[level].contains(&&o[..])) {
		*p += 1;
		let r = parse(t, p, level + 1)?;
		l = apply(op, l, r)
	}
	Some(l)
}
fn apply(op: &str, l: V, r: V) -> V {
	use V::*;
	match (op, l) {
		("&&", Val(0)) => return Val(0),
		("||", Val(x)) if x != 0 => return Val(1),
		_ => {}
	}
	let (a, b) = match (l, r) {
		(Val(a), Val(b)) => (a, b),
		(Undef, _) => return Undef,
		(Val(_), Undef) => return Undef,
		_ => return Open,
	};
	let ck = |x: Option<i64>| x.map_or(Undef, Val);
	match op {
		"||" | "&&" => Val((b != 0) as i64),
		"|" => Val(a | b),
		"^" => Val(a ^ b),
		"&" => Val(a & b),
		"==" => Val((a == b) as i64),
		"!=" => Val((a != b) as i64),
		"<" => Val((a < b) as i64),
		"<=" => Val((a <= b) as i64),
		">" => Val((a > b) as i64),
		">=" => Val((a >= b) as i64),
		"<<" | ">>" if !(0..64).contains(&b) => Undef,
		"<<" => {
			let w = (a as i128) << b;
			if w >= i64::MIN as i128 && w <= i64::MAX as i128 { Val(w as i64) } else { Open }
		}
		">>" => Val(a >> b),
		"+" => ck(a.checked_add(b)),
		"-" => ck(a.checked_sub(b)),
		"*" => ck(a.checked_mul(b)),
		"/" => ck(a.checked_div(b)),
		"%" => ck(a.checked_rem(b)),
		_ => unreachable!(),
	}
}
fn eval(t: &[String], env: &Env, group: bool) -> V {
	let mut out = vec![];
	if !expand(t, env, &mut vec![], group, &mut out) {
		return V::Undef;
	}
	let mut p = 0;
	// a literal that does not fit makes the whole condition malformed
	if out.iter().any(|t| literal(t) == Some(V::Undef)) {
		return V::Undef;
	}
	match parse(&out, &mut p, 0) {
		Some(v) if p == out.len() => v,
		// malformed by an expansion that need not be evaluated
		_ if out.iter().any(|t| t == "&&" || t == "||") => V::Open,
		_ => V::Undef,
	}
}

fn render(t: &[String], style: usize) -> String {
	let mut s = String::new();
	for (i, x) in t.iter().enumerate() {
		if i > 0 {
			let a = &t[i - 1];
			let wordy = |s: &str| s.ends_with(|c: char| c.is_alphanumeric() || c == '_');
			match style {
				0 => s.push(' '),
				1 if wordy(a) && wordy(x) || (a == x && (x == "-" || x == "+")) => s.push(' '),
				1 => {}
				_ => s.push_str(if i % 2 == 0 { "\t" } else { "  " }),
			}
		}
		s.push_str(x)
	}
	s
}
fn number(v: i64) -> String {
	match v {
		i64::MIN => "(0 - 9223372036854775807 - 1)".into(),
		v if v < 0 => format!("(0 - {})", -v),
		v => v.to_string(),
	}
}

#[derive(Clone)]
struct Case {
	expr: String,
	want: V,
	/// value if replacements were grouped
	grouped: V,
}

/// Evaluates conditions with the real preprocessor: which of the marks are selected.
fn run(env: &Env, conds: &[String]) -> Result<Vec<bool>, String> {
	let mut t = String::new();
	for (n, d) in env {
		match d {
			Some(d) => t.push_str(&format!("#define {n} {d}\n")),
			None => t.push_str(&format!("#undef {n}\n")),
		}
	}
	for (i, c) in conds.iter().enumerate() {
		t.push_str(&format!("#if {c}\nt{i}\n#endif\n"))
	}
	let out = mck::catch(|| {
		let mut a = Analyzer::new(|_, p| Ok(p.into()), |_| {});
		let id = a.file_id("file:///t.p4");
		a.update(id, &t);
		a.preprocessed(id).cloned().unwrap_or_default()
	})?;
	let mut sel = vec![false; conds.len()];
	for (_, t, _) in out {
		if let Token::Identifier(s) = t {
			if let Some(i) = s.strip_prefix('t').and_then(|x| x.parse::<usize>().ok()) {
				sel[i] = true
			}
		}
	}
	Ok(sel)
}
/// The conditions asked about a case, and the selections expected (None: either).
fn asked(c: &Case) -> Vec<(String, Option<bool>, Option<bool>)> {
	let truth = |v: V| match v {
		V::Val(v) => Some(v != 0),
		V::Undef => Some(false),
		V::Open => None,
	};
	let mut q = vec![(c.expr.clone(), truth(c.want), truth(c.grouped))];
	if let V::Val(v) = c.want {
		q.push((format!("({}) == {}", c.expr, number(v)), Some(true), Some(c.grouped == c.want)));
		q.push((format!("({})!={}", c.expr, number(v)), Some(false), Some(matches!(c.grouped, V::Val(g) if g != v))));
	}
	q
}
fn op_class(c: &Case) -> String {
	let mut ops: Vec<String> = split(&c.expr).into_iter().filter(|t| !t.starts_with(|c: char| c.is_ascii_digit()) && t != "(" && t != ")").collect();
	ops.sort();
	ops.dedup();
	ops.truncate(2);
	ops.join("")
}
fn judge(env: &Env, batch: &[Case], r: &mut Report) {
	let qs: Vec<_> = batch.iter().flat_map(asked).collect();
	let conds: Vec<String> = qs.iter().map(|q| q.0.clone()).collect();
	r.transitions += conds.len() as u64;
	let ok = |sel: &[bool], qs: &[(String, Option<bool>, Option<bool>)]| sel.iter().zip(qs).all(|(s, q)| q.1.map_or(true, |w| w == *s));
	let all = run(env, &conds);
	let fine = matches!(&all, Ok(sel) if ok(sel, &qs));
	for c in batch {
		r.traces += 1;
		r.states += 1;
		r.distinct += (c.expr.len() > 3) as u64;
		r.outcome(match c.want {
			V::Val(0) => "zero",
			V::Val(_) => "non-zero",
			V::Undef => "no defined value",
			V::Open => "left open by C",
		});
		if fine {
			continue;
		}
		let qs = asked(c);
		let conds: Vec<String> = qs.iter().map(|q| q.0.clone()).collect();
		let name = format!("{} | {:?}", c.expr, env);
		match run(env, &conds) {
			Err(p) => r.violation(&super::panic_sig(&p), name, p),
			Ok(sel) if ok(&sel, &qs) => {}
			Ok(sel) => {
				let grouped = c.grouped != c.want && sel.iter().zip(&qs).all(|(s, q)| q.2.map_or(true, |w| w == *s));
				let sig = if grouped { "macro-grouped".to_string() } else { format!("value:{}", op_class(c)) };
				let wrong = sel.iter().zip(&qs).find(|(s, q)| q.1.map_or(false, |w| w != **s)).unwrap();
				r.violation(&sig, name, format!("value {:?}, but `#if {}` is {}", c.want, wrong.1 .0, wrong.0))
			}
		}
	}
	if !fine && r.violations.is_empty() {
		r.violation("batch-only", format!("{env:?} {conds:?}"), "conditions are right one by one but not together".to_string())
	}
	if r.samples.len() < 3 {
		r.samples.extend(batch.last().map(|c| format!("{} = {:?} under {env:?}", c.expr, c.want)))
	}
}

const OPS: [&str; 18] = ["+", "-", "*", "/", "%", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"];

pub fn check(a: &mck::Args) -> Report {
	let th = a.thorough;
	let mut cases: Vec<(usize, String)> = vec![]; // environment, expression
	let mut envs: Vec<Env> = vec![vec![]];
	let mut bounds = vec![];
	let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Toks>();
	let mut add = |env: usize, t: &[String], styles: &[usize]| {
		for st in styles {
			cases.push((env, render(t, *st)))
		}
	};
	// literals and one operator
	let pool = ["0", "1", "2", "3", "7", "63", "64", "100", "0x10", "0XfF", "1_000", "0x_f", "9223372036854775807", "9223372036854775808", "0x7fffffffffffffff"];
	let pool: Vec<&str> = pool.iter().filter(|x| **x != "0x_f").cloned().collect();
	for x in &pool {
		add(0, &s(&[x]), &[0, 1]);
		for op in OPS {
			for y in &pool {
				add(0, &s(&[x, op, y]), &[0, 1, 2]);
				add(0, &s(&["0", "-", x, op, y]), &[0]);
				add(0, &s(&["(", x, op, y, ")"]), &[1, 2]);
			}
		}
	}
	bounds.push(format!("every operator over {} literals in three spacings", pool.len()));
	// two operators
	let p2: &[&str] = if th { &["0", "1", "2", "3", "5", "64"] } else { &["0", "1", "2", "5"] };
	for o1 in OPS {
		for o2 in OPS {
			for x in p2 {
				for y in p2 {
					for z in p2 {
						add(0, &s(&[x, o1, y, o2, z]), if th { &[0, 1, 2] } else { &[0, 1] });
						add(0, &s(&["(", x, o1, y, ")", o2, z]), &[1]);
						add(0, &s(&[x, o1, "(", y, o2, z, ")"]), &[0]);
					}
				}
			}
		}
	}
	bounds.push(format!("every pair of operators, three groupings, operands from {p2:?}"));
	// three (four) operators
	let quads: Vec<Vec<&str>> = if th {
		mck::strings(&["0", "1", "2", "5"], 4).into_iter().filter(|v| v.len() == 4).collect()
	} else {
		vec![vec!["1", "2", "3", "4"], vec!["7", "0", "2", "1"], vec!["2", "1", "0", "3"], vec!["0", "5", "5", "0"]]
	};
	for o1 in OPS {
		for o2 in OPS {
			for o3 in OPS {
				for q in &quads {
					let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
					add(0, &s(&[w, o1, x, o2, y, o3, z]), &[1]);
					if th {
						add(0, &s(&[w, o1, "(", x, o2, y, ")", o3, z]), &[0]);
						add(0, &s(&["(", w, o1, x, ")", o2, "(", y, o3, z, ")"]), &[1]);
						add(0, &s(&[w, o1, "(", x, o2, "(", y, o3, z, ")", ")"]), &[0]);
					}
				}
			}
		}
	}
	bounds.push(format!("every triple of operators, {} operand choices", quads.len()));
	// unary operators
	let us: [&[&str]; 9] = [&[], &["!"], &["-"], &["~"], &["+"], &["!", "!"], &["-", "!"], &["!", "-"], &["-", "-"]];
	for u in us {
		for v in us {
			for op in OPS {
				for (x, y) in [("0", "1"), ("2", "0"), ("3", "3"), ("1", "63")] {
					add(0, &[s(u), s(&[x, op]), s(v), s(&[y])].concat(), &[0, 1]);
					add(0, &[s(u), s(&["(", x, op]), s(v), s(&[y, ")"])].concat(), &[0, 1]);
				}
			}
		}
	}
	bounds.push("unary operators before either operand and before a group".into());
	// macros
	let defs: [Option<&'static str>; 12] =
		[Some("1"), Some("0"), Some("3"), Some("B"), Some("A"), Some("(1+2)"), Some("1 + 2"), Some(""), Some("A + 1"), Some("B*2"), Some("0x1F"), None];
	let defb: [Option<&'static str>; 6] = [Some("2"), Some("A"), Some("B"), Some("(A)"), Some("1 || A"), None];
	for d in defs {
		for b in defb {
			for redefine in 0..4 {
				let mut e: Env = vec![("A", d), ("B", b)];
				match redefine {
					1 => e.push(("A", Some("5"))),
					2 => e.push(("B", None)),
					3 => e.insert(0, ("A", Some("9"))),
					_ => {}
				}
				envs.push(e);
			}
		}
	}
	let atoms: [&[&str]; 11] = [
		&["A"], &["B"], &["U"], &["1"], &["defined", "A"], &["defined", "(", "B", ")"], &["defined", "U"], &["!", "defined", "(", "A", ")"], &["(", "A", ")"],
		&["A", "*", "2"], &["0"],
	];
	let ops: &[&str] = if th { &OPS } else { &["==", "&&", "||", "+", "*", "<", "/", ">>"] };
	for e in 1..envs.len() {
		for x in atoms {
			add(e, &s(x), &[0, 1, 2]);
			for op in ops {
				for y in atoms {
					add(e, &[s(x), s(&[op]), s(y)].concat(), if th { &[0, 1] } else { &[1] });
				}
			}
		}
	}
	bounds.push(format!("{} macro environments x pairs of {} macro, defined and literal operands under {} operators", envs.len() - 1, atoms.len(), ops.len()));
	// size: nesting, long chains, long macro chains
	for n in [10, 100] {
		cases.push((0, format!("{}1{}", "(".repeat(n), ")".repeat(n))));
		cases.push((0, format!("{}1{}", "(".repeat(n), " - 1)".repeat(n))));
		cases.push((0, format!("0{}", " + 1".repeat(n * 5))));
		cases.push((0, format!("{}0", "!".repeat(n + 1))));
		cases.push((0, format!("{}1", "1 && ".repeat(n))));
	}
	let names: Vec<&'static str> = (0..100).map(|i| &*Box::leak(format!("N{i}").into_boxed_str())).collect();
	envs.push((0..99).map(|i| (names[i], Some(names[i + 1]))).chain([(names[99], Some("7"))]).collect());
	envs.push((0..100).map(|i| (names[i], Some(names[(i + 1) % 100]))).collect());
	for e in [envs.len() - 2, envs.len() - 1] {
		cases.push((e, "N0".into()));
		cases.push((e, "N0 == N50".into()));
	}
	bounds.push("nesting 100 deep, chains of 500 operators and of 100 macros".into());

	if let Some(c) = &a.replay {
		let (e, env) = c.split_once(" | ").unwrap_or((c, "[]"));
		let env = envs.iter().find(|x| format!("{x:?}") == env).cloned().unwrap_or_default();
		let t = split(e);
		let mut r = Report::new();
		judge(&env, &[Case { expr: e.into(), want: eval(&t, &env, false), grouped: eval(&t, &env, true) }], &mut r);
		return r;
	}
	cases.sort_by_key(|c| c.0);
	let mut batches: Vec<(usize, usize, usize)> = vec![]; // environment, range
	let mut i = 0;
	while i < cases.len() {
		let mut j = i;
		while j < cases.len() && j - i < 100 && cases[j].0 == cases[i].0 {
			j += 1
		}
		batches.push((cases[i].0, i, j));
		i = j
	}
	let mut r = mck::par(&batches, |(e, i, j), r| {
		let env = &envs[*e];
		let batch: Vec<Case> = cases[*i..*j]
			.iter()
			.map(|c| {
				let t = split(&c.1);
				Case { expr: c.1.clone(), want: eval(&t, env, false), grouped: eval(&t, env, true) }
			})
			.collect();
		judge(env, &batch, r)
	});
	r.bounds = bounds;
	r
}
