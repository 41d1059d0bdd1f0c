//! C22 (tokens tile the text, bad input is reported) and C23 (kinds and values), against a reference lexer.
use analyzer_core::base_abstractions::*;
use analyzer_core::lexer::{LexedBuffer, Literal, Token};
use analyzer_core::preprocessor::{PreprocessorDirective as D, PreprocessorQuotationStyle as Q};
use analyzer_core::{lex, Database};
use mck::Report;
use std::ops::Range;

/// What the lexical rules say about one stretch of text.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
	Tok(Token),
	/// a directive, payload known where the rules are simple
	Dir(String, Option<D>),
	Bad,
}

fn keyword(s: &str) -> Option<Token> {
	Some(match s {
		"action" => Token::KwAction,
		"apply" => Token::KwApply,
		"control" => Token::KwControl,
		"else" => Token::KwElse,
		"header" => Token::KwHeader,
		"if" => Token::KwIf,
		"return" => Token::KwReturn,
		"state" => Token::KwState,
		"table" => Token::KwTable,
		"transition" => Token::KwTransition,
		"typedef" => Token::KwTypedef,
		_ => return None,
	})
}
fn punct(c: char) -> Option<Token> {
	Some(match c {
		'}' => Token::CloseBrace,
		']' => Token::CloseBracket,
		'>' => Token::CloseChevron,
		')' => Token::CloseParen,
		':' => Token::Colon,
		',' => Token::Comma,
		'.' => Token::Dot,
		'=' => Token::Equals,
		'*' => Token::Asterisk,
		'/' => Token::Slash,
		'+' => Token::Plus,
		'-' => Token::Minus,
		'{' => Token::OpenBrace,
		'[' => Token::OpenBracket,
		'<' => Token::OpenChevron,
		'(' => Token::OpenParen,
		';' => Token::Semicolon,
		_ => return None,
	})
}

/// The value of an integer literal, by the language specification.
pub fn integer(s: &str) -> Option<Literal> {
	let b = s.as_bytes();
	let mut i = 0;
	while i < b.len() && b[i].is_ascii_digit() {
		i += 1
	}
	let (width, signed, rest) = match b.get(i) {
		Some(b'w') | Some(b's') if i > 0 => {
			let mut w: u64 = 0;
			for d in &b[..i] {
				w = w.checked_mul(10)?.checked_add((d - b'0') as u64)?
			}
			(Some(u32::try_from(w).ok()?), b[i] == b's', &s[i + 1..])
		}
		_ => (None, false, s),
	};
	let (base, digits) = match rest.as_bytes() {
		[b'0', b'b' | b'B', ..] => (2u8, &rest[2..]),
		[b'0', b'o' | b'O', ..] => (8, &rest[2..]),
		[b'0', b'd' | b'D', ..] => (10, &rest[2..]),
		[b'0', b'x' | b'X', ..] => (16, &rest[2..]),
		_ => (10, rest),
	};
	let mut v: i64 = 0;
	let mut any = false;
	for c in digits.chars() {
		if c == '_' {
			continue;
		}
		let d = c.to_digit(base as u32)?;
		any = true;
		v = v.checked_mul(base as i64)?.checked_add(d as i64)?
	}
	// a literal without a base starts with a digit
	if !any || (digits.len() == rest.len() && digits.starts_with('_')) {
		return None;
	}
	Some(Literal { base, signed, width, value: v })
}

fn word(c: char) -> bool { c.is_alphanumeric() || c == '_' }

/// The argument of a directive, newline escapes processed; and its length in the text.
fn argument(s: &str) -> (String, usize) {
	let (mut out, mut n, mut esc) = (String::new(), 0, false);
	for c in s.chars() {
		n += c.len_utf8();
		match c {
			'\\' if !esc => {
				esc = true;
				continue;
			}
			'\n' if !esc => break,
			c => out.push(c),
		}
		esc = false
	}
	(out, n)
}

/// Reference lexer. `Bad` stretches that touch are merged.
pub fn reference(text: &str) -> Vec<(Want, Range<usize>)> {
	let mut out: Vec<(Want, Range<usize>)> = vec![];
	let mut p = 0;
	while p < text.len() {
		let s = &text[p..];
		let c = s.chars().next().unwrap();
		let run = |f: &dyn Fn(char) -> bool| s.find(|c| !f(c)).unwrap_or(s.len());
		let (w, n) = if c.is_whitespace() {
			(Want::Tok(Token::Whitespace), run(&|c| c.is_whitespace()))
		} else if s.starts_with("//") {
			(Want::Tok(Token::Comment), s.find('\n').map_or(s.len(), |i| i + 1))
		} else if s.starts_with("/*") {
			match s[2..].find("*/") {
				Some(i) => (Want::Tok(Token::Comment), i + 4),
				None => (Want::Bad, s.len()),
			}
		} else if c.is_ascii_alphabetic() || c == '_' {
			let n = run(&|c| c.is_ascii_alphanumeric() || c == '_');
			(Want::Tok(keyword(&s[..n]).unwrap_or(Token::Identifier(s[..n].to_string()))), n)
		} else if c.is_ascii_digit() {
			let n = run(&|c| c.is_ascii_hexdigit() || "wsoOxX_".contains(c));
			(integer(&s[..n]).map_or(Want::Bad, |l| Want::Tok(Token::Integer(l))), n)
		} else if c == '#' {
			let t = s[1..].trim_start();
			let at = s.len() - t.len();
			let k = t.find(|c| !word(c)).unwrap_or(t.len());
			if k == 0 {
				// nothing follows: the blank belongs to the failed directive
				(Want::Bad, at)
			} else {
				let (name, (arg, n)) = (&t[..k], argument(&t[k..]));
				(directive(name, &arg), at + k + n)
			}
		} else if let Some(t) = punct(c) {
			(Want::Tok(t), 1)
		} else {
			(Want::Bad, c.len_utf8())
		};
		match out.last_mut() {
			Some((Want::Bad, r)) if w == Want::Bad => r.end = p + n,
			_ => out.push((w, p..p + n)),
		}
		p += n;
	}
	out
}
fn directive(name: &str, arg: &str) -> Want {
	let a = arg.trim_start_matches(|c: char| c.is_ascii_whitespace());
	let d = match name {
		"else" => Some(D::Else),
		"endif" => Some(D::EndIf),
		"include" => {
			let (q, t) = match a.chars().next() {
				Some('<') => (Q::AngleBrackets, '>'),
				Some('"') => (Q::DoubleQuotes, '"'),
				_ => return Want::Bad,
			};
			match a[1..].find(t) {
				Some(i) => Some(D::Include(q, a[1..][..i].to_string())),
				None => return Want::Bad,
			}
		}
		"undef" => {
			let v: Vec<_> = arg.split_ascii_whitespace().collect();
			if v.len() != 1 {
				return Want::Bad;
			}
			Some(D::Undef(v[0].to_string()))
		}
		"define" => {
			match a.chars().next() {
				Some(c) if c.is_ascii_alphabetic() || c == '_' => {}
				// a definition without a name is not worth an opinion
				None => return Want::Dir(name.into(), None),
				_ => return Want::Bad,
			}
			let k = a.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(a.len());
			let rhs = a[k..].trim_start_matches(|c: char| c.is_ascii_whitespace());
			// escapes in the replacement are not worth an opinion
			if rhs.contains('\\') || rhs.contains('\n') {
				return Want::Dir(name.into(), None);
			}
			Some(D::Define(a[..k].to_string(), rhs.to_string()))
		}
		// conditions: C25
		"if" | "elif" | "ifdef" | "ifndef" => None,
		"pragma" => None,
		_ => Some(D::Other(name.into(), arg.into())),
	};
	Want::Dir(name.into(), d)
}

pub struct Lexed {
	pub toks: Vec<(Token, Range<usize>)>,
	pub diags: Vec<(Range<usize>, String)>,
	pub file_ok: bool,
}
pub fn real(text: &str) -> Result<Lexed, String> {
	mck::catch(|| {
		let db = Database::new(|_, p| Ok(p.into()));
		let buf = Buffer::from_string(&db, &text.to_string());
		let id = FileId::new(&db, "file:///t.p4".into());
		let l: &LexedBuffer = lex(&db, id, buf);
		let toks = l.lexemes(&db).clone();
		let d = lex::accumulated::<Diagnostics>(&db, id, buf);
		Lexed { toks, file_ok: d.iter().all(|d| d.file == id), diags: d.into_iter().map(|d| (d.location, d.message)).collect() }
	})
}
fn error_runs(t: &[(Token, Range<usize>)]) -> Vec<Range<usize>> {
	let mut out: Vec<Range<usize>> = vec![];
	let mut open = false;
	for (k, s) in t {
		if *k == Token::Error {
			match out.last_mut() {
				Some(r) if open => r.end = s.end,
				_ => out.push(s.clone()),
			}
		}
		open = *k == Token::Error
	}
	out
}

fn tiling_of(text: &str) -> Vec<(String, String)> {
	let l = match real(text) {
		Ok(l) => l,
		Err(p) => return vec![(super::panic_sig(&p), p)],
	};
	let mut bad = vec![];
	let mut at = 0;
	for (k, s) in &l.toks {
		if s.start != at || s.end <= s.start || !text.is_char_boundary(s.end) || s.end > text.len() {
			bad.push(("not-tiling".into(), format!("{k:?} at {s:?} after {at}: {:?}", l.toks)));
			break;
		}
		at = s.end
	}
	if bad.is_empty() && at != text.len() {
		bad.push(("not-covered".into(), format!("tokens end at {at} of {}: {:?}", text.len(), l.toks)));
	}
	let runs = error_runs(&l.toks);
	let mut next = 0;
	for (w, s) in reference(text) {
		while next < runs.len() && runs[next].end <= s.start {
			next += 1
		}
		if w == Want::Bad && !runs.get(next).map_or(false, |r| r.start <= s.start && s.end <= r.end) {
			bad.push(("bad-input-accepted".into(), format!("{:?} at {s:?} is not covered by an error token: {:?}", &text[s.clone()], l.toks)));
			break;
		}
	}
	// each run is reported once as one range, and nothing else is reported as such
	let mut reported: Vec<_> = l.diags.iter().filter(|d| d.1 == "unexpected token").map(|d| d.0.clone()).collect();
	reported.sort_by_key(|r| (r.start, r.end));
	if reported != runs {
		bad.push(("reports".into(), format!("error runs {runs:?}, reported {reported:?}")));
	}
	if !l.file_ok {
		bad.push(("report-file".into(), "a report names another file".into()));
	}
	for (s, m) in &l.diags {
		if s.start >= s.end || s.end > text.len() || !text.is_char_boundary(s.start) || !text.is_char_boundary(s.end) {
			bad.push(("report-range".into(), format!("{m:?} at {s:?}")));
			break;
		}
	}
	bad
}

fn kinds_of(text: &str) -> Vec<(String, String)> {
	let l = match real(text) {
		Ok(l) => l,
		Err(p) => return vec![(super::panic_sig(&p), p)],
	};
	let want = reference(text);
	let mut got: Vec<(Token, Range<usize>)> = vec![];
	for (k, s) in l.toks {
		match got.last_mut() {
			Some((Token::Error, r)) if k == Token::Error => r.end = s.end,
			_ => got.push((k, s)),
		}
	}
	let mut bad = vec![];
	for (i, (w, s)) in want.iter().enumerate() {
		let Some((k, t)) = got.get(i) else {
			bad.push(("missing-token".into(), format!("expected {w:?} at {s:?}, got nothing")));
			break;
		};
		let kind_ok = match (w, k) {
			(Want::Tok(a), b) => a == b,
			(Want::Bad, b) => *b == Token::Error,
			(Want::Dir(n, None), b) => match (n.as_str(), b) {
				("if", Token::PreprocessorDirective(D::If(_)) | Token::Error) => true,
				("elif", Token::PreprocessorDirective(D::ElseIf(_)) | Token::Error) => true,
				("ifdef" | "ifndef", Token::PreprocessorDirective(D::If(_) | D::Other(..)) | Token::Error) => true,
				("pragma", Token::PreprocessorDirective(D::Pragma(_))) => true,
				("define", Token::PreprocessorDirective(D::Define(..)) | Token::Error) => true,
				_ => false,
			},
			(Want::Dir(_, Some(d)), Token::PreprocessorDirective(e)) => d == e,
			_ => false,
		};
		if !kind_ok || s != t {
			let name = match w {
				Want::Tok(Token::Integer(_)) => "integer".into(),
				Want::Tok(Token::Comment) => "comment".into(),
				Want::Tok(Token::Identifier(_)) => "identifier".into(),
				Want::Tok(t) => format!("{t:?}"),
				Want::Dir(n, _) => format!("directive-{n}"),
				Want::Bad if matches!(k, Token::Integer(_)) => "integer-accepted".into(),
				Want::Bad => "bad".into(),
			};
			let name = if kind_ok { format!("{name}-span") } else { name };
			bad.push((name, format!("expected {w:?} at {s:?}, got {k:?} at {t:?}")));
			break;
		}
	}
	if bad.is_empty() && got.len() > want.len() {
		bad.push(("extra-token".into(), format!("{:?}", &got[want.len()..])));
	}
	bad
}

const CHARS: [&str; 22] =
	["a", "0", "\n", " ", "/", "*", "#", "\\", "\"", "<", ">", "_", "w", "x", "@", "é", "€", "𝄞", "\r", "{", "1", "\u{3000}"];
const FRAGMENTS: [&str; 33] = [
	"a", "if", "else", "header", "x1", "apply_", "12", "8w5", "0x1F", "1_0", "0b12", "9s", " ", "\n", "\t", "//", "// c\n", "/*", "*/", "/**/", "#if 1", "#include",
	"#include \"f\"", "<f>", "#define", " M \\\n", "#undef", "#pragma p", "# ", "@", "é", "\\", "}",
];

const LONG: [&str; 22] = [
	"a", "7", "_", " ", "\n", "\r\n", "@", "@ ", "é", "a ", "7w ", "a@", "{", "/ ", "// c\n", "/*c*/", "\\\n", "#if 1\n", "#define M\n", "#undef M\n", "#pragma p\n", "é€",
];

fn run(a: &mck::Args, sets: &[(&[&str], usize)], f: fn(&str) -> Vec<(String, String)>) -> Report {
	let mut all = Report::new();
	for (alphabet, len) in sets {
		// the first two symbols are the work item, the rest is enumerated inside it
		let heads = mck::texts(alphabet, 2.min(*len));
		let tails: Vec<String> = if *len > 2 { mck::texts(alphabet, len - 2) } else { vec![String::new()] };
		let full = 2;
		let items: Vec<(String, bool)> =
			mck::strings(alphabet, 2.min(*len)).into_iter().zip(heads).map(|(v, s)| (s, v.len() == full)).collect();
		let one = |t: &str, r: &mut Report| {
			r.traces += 1;
			r.states += 1;
			r.distinct += (t.len() > 1) as u64;
			for (sig, d) in f(t) {
				r.violation(&sig, format!("{t:?}"), d)
			}
			if r.samples.len() < 2 && t.len() > 5 {
				r.sample(format!("{t:?}"))
			}
		};
		if let Some(c) = &a.replay {
			let t: String = serde_free(c);
			one(&t, &mut all);
			return all;
		}
		all.merge(mck::par(&items, |(h, whole), r| {
			let mut b = h.clone();
			for t in if *whole { &tails[..] } else { &tails[..1] } {
				b.truncate(h.len());
				b.push_str(t);
				one(&b, r);
			}
		}));
		all.bounds.push(format!("all sequences of up to {len} of the {} fragments {alphabet:?}", alphabet.len()));
	}
	// size: every shape repeated up to tens of thousands of times
	let mut long = vec![];
	for n in [15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 4097, 10_000, 65_535, 65_537, 70_000] {
		for unit in LONG {
			if n > 5000 && unit.starts_with('#') {
				continue;
			}
			for (before, after) in [("", ""), ("x ", ";y"), ("@", "\n@")] {
				long.push(format!("{before}{}{after}", unit.repeat(n)));
				if n < 5000 {
					long.push(format!("{before}/*{}*/{after}", unit.repeat(n)));
					long.push(format!("{before}\n#define M {}\n{after}", unit.repeat(n).replace('\n', "\\\n")));
				}
			}
		}
	}
	all.merge(mck::par(&long, |t, r| {
		r.traces += 1;
		r.states += 1;
		r.distinct += 1;
		for (sig, d) in f(t) {
			let cut = |s: &str, n: usize| s.chars().take(n).collect::<String>();
			r.violation(&sig, format!("{:?}", if t.len() < 5000 { t.to_string() } else { cut(t, 20) }), format!("text of {} bytes beginning {:?}: {}", t.len(), cut(t, 40), cut(&d, 400)))
		}
	}));
	all.bounds.push(format!("each of {LONG:?} repeated up to 70000 times, alone, inside other text, as a comment and as a macro body"));
	// totals: a state is a text, a transition a token
	all.transitions = all.states;
	all
}
/// Undoes `{:?}` of a string.
fn serde_free(c: &str) -> String {
	let mut out = String::new();
	let mut it = c.trim().trim_start_matches('"').chars().peekable();
	while let Some(ch) = it.next() {
		if ch == '"' && it.peek().is_none() {
			break;
		}
		if ch != '\\' {
			out.push(ch);
			continue;
		}
		match it.next() {
			Some('n') => out.push('\n'),
			Some('r') => out.push('\r'),
			Some('t') => out.push('\t'),
			Some('u') => {
				let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
				out.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32))
			}
			Some(c) => out.push(c),
			None => {}
		}
	}
	out
}

pub fn tiling(a: &mck::Args) -> Report {
	let n = 1 + a.thorough as usize;
	run(a, &[(&CHARS, 4 + n), (&FRAGMENTS, 3 + n)], tiling_of)
}
pub fn kinds(a: &mck::Args) -> Report {
	let n = 1 + a.thorough as usize;
	const INT: [&str; 14] = ["0", "1", "9", "_", "w", "s", "x", "X", "b", "o", "d", "f", " ", "8"];
	const BIG: [&str; 9] = ["0x", "9223372036854775807", "4294967295", "w", "s", "7FFFFFFFFFFFFFFF", "1", "0b", "_"];
	const WORDS: [&str; 16] =
		["i", "f", "if", "else", "action", "s", "_", "1", " ", "apply", "control", "header", "return", "state", "table", "t"];
	const MORE: [&str; 8] = ["transition", "typedef", "_", "A", "9", " ", ".", "ransition"];
	const OPS: [&str; 20] = ["}", "]", ">", ")", ":", ",", ".", "=", "*", "/", "+", "-", "{", "[", "<", "(", ";", "!", "\n", "a"];
	const COMMENT: [&str; 8] = ["/", "*", "a", "\n", "é", "\"", "\\", "\r"];
	run(
		a,
		&[(&INT, 5 + n), (&BIG, 4 + n), (&WORDS, 4 + n), (&MORE, 4 + n), (&OPS, 3 + n), (&COMMENT, 6 + n), (&FRAGMENTS, 3 + n), (&CHARS, 3 + n)],
		kinds_of,
	)
}
