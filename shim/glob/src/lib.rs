//! Stand-in for the glob crate, which is not in the offline cache, with its documented behaviour: `?`, `*`, `**` as a whole
//! component, `[..]`, `[!..]`, results in alphabetical order, hidden files matched, names that are not UTF-8 skipped.
use std::fmt;
use std::path::{Component, Path, PathBuf};

#[derive(Debug)]
pub struct PatternError {
	pub pos: usize,
	pub msg: &'static str,
}
impl fmt::Display for PatternError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Pattern syntax error near position {}: {}", self.pos, self.msg) }
}
impl std::error::Error for PatternError {}

#[derive(Debug)]
pub struct GlobError {
	path: PathBuf,
	error: std::io::Error,
}
impl GlobError {
	pub fn path(&self) -> &Path { &self.path }
	pub fn error(&self) -> &std::io::Error { &self.error }
	pub fn into_error(self) -> std::io::Error { self.error }
}
impl fmt::Display for GlobError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "attempting to read `{}` resulted in an error: {}", self.path.display(), self.error) }
}
impl std::error::Error for GlobError {}
pub type GlobResult = Result<PathBuf, GlobError>;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MatchOptions {
	pub case_sensitive: bool,
	pub require_literal_separator: bool,
	pub require_literal_leading_dot: bool,
}
impl MatchOptions {
	pub fn new() -> Self { MatchOptions { case_sensitive: true, require_literal_separator: false, require_literal_leading_dot: false } }
}
impl Default for MatchOptions {
	fn default() -> Self { Self::new() }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Tok {
	Char(char),
	AnyChar,
	AnySequence,
	AnyRecursive,
	Within(Vec<(char, char)>),
	Except(Vec<(char, char)>),
}
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pattern {
	original: String,
	toks: Vec<Tok>,
	recursive: bool,
}
impl fmt::Display for Pattern {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.original.fmt(f) }
}
impl std::str::FromStr for Pattern {
	type Err = PatternError;
	fn from_str(s: &str) -> Result<Self, PatternError> { Self::new(s) }
}
impl Pattern {
	pub fn new(pattern: &str) -> Result<Self, PatternError> {
		let c: Vec<char> = pattern.chars().collect();
		let (mut toks, mut recursive, mut i) = (vec![], false, 0);
		while i < c.len() {
			match c[i] {
				'?' => {
					toks.push(Tok::AnyChar);
					i += 1
				}
				'*' => {
					let old = i;
					while i < c.len() && c[i] == '*' {
						i += 1
					}
					match i - old {
						1 => toks.push(Tok::AnySequence),
						2 if (old == 0 || c[old - 1] == '/') && (i == c.len() || c[i] == '/') => {
							if i < c.len() {
								i += 1
							}
							recursive = true;
							if toks.last() != Some(&Tok::AnyRecursive) {
								toks.push(Tok::AnyRecursive)
							}
						}
						2 => return Err(PatternError { pos: old, msg: "recursive wildcards must form a single path component" }),
						_ => return Err(PatternError { pos: old + 2, msg: "wildcards are either regular `*` or recursive `**`" }),
					}
				}
				'[' => {
					let not = c.get(i + 1) == Some(&'!');
					let from = i + 1 + not as usize;
					// the first character may be a bracket
					let end = (from + 1..c.len()).find(|j| c[*j] == ']');
					match end {
						Some(j) => {
							let set = ranges(&c[from..j]);
							toks.push(if not { Tok::Except(set) } else { Tok::Within(set) });
							i = j + 1
						}
						None => return Err(PatternError { pos: i, msg: "invalid range pattern" }),
					}
				}
				x => {
					toks.push(Tok::Char(x));
					i += 1
				}
			}
		}
		Ok(Pattern { original: pattern.into(), toks, recursive })
	}
	pub fn escape(s: &str) -> String {
		s.chars().map(|c| if matches!(c, '?' | '*' | '[' | ']') { format!("[{c}]") } else { c.to_string() }).collect()
	}
	pub fn matches(&self, s: &str) -> bool { self.matches_with(s, MatchOptions::new()) }
	pub fn matches_path(&self, p: &Path) -> bool { p.to_str().map_or(false, |s| self.matches(s)) }
	pub fn matches_with(&self, s: &str, o: MatchOptions) -> bool { go(&self.toks, &s.chars().collect::<Vec<_>>(), true, o) }
	pub fn matches_path_with(&self, p: &Path, o: MatchOptions) -> bool { p.to_str().map_or(false, |s| self.matches_with(s, o)) }
	pub fn as_str(&self) -> &str { &self.original }
}
fn ranges(c: &[char]) -> Vec<(char, char)> {
	let (mut v, mut i) = (vec![], 0);
	while i < c.len() {
		if i + 3 <= c.len() && c[i + 1] == '-' {
			v.push((c[i], c[i + 2]));
			i += 3
		} else {
			v.push((c[i], c[i]));
			i += 1
		}
	}
	v
}
fn go(p: &[Tok], s: &[char], sep: bool, o: MatchOptions) -> bool {
	let Some(t) = p.first() else { return s.is_empty() };
	let dot = |at: bool, c: char| at && c == '.' && o.require_literal_leading_dot;
	match t {
		Tok::AnySequence => {
			let mut at = sep;
			for i in 0..=s.len() {
				if go(&p[1..], &s[i..], at, o) {
					return true;
				}
				if i < s.len() && ((o.require_literal_separator && s[i] == '/') || dot(at, s[i])) {
					return false;
				}
				at = i < s.len() && s[i] == '/';
			}
			false
		}
		Tok::AnyRecursive => {
			let mut at = true;
			for i in 0..=s.len() {
				if at && go(&p[1..], &s[i..], true, o) {
					return true;
				}
				if i < s.len() && dot(at, s[i]) {
					return false;
				}
				at = i < s.len() && s[i] == '/';
				if i == s.len() && p.len() == 1 {
					return true;
				}
			}
			false
		}
		_ => {
			let Some(&c) = s.first() else { return false };
			let is_sep = c == '/';
			let eq = |a: char, b: char| a == b || (!o.case_sensitive && a.to_lowercase().eq(b.to_lowercase()));
			let special = (o.require_literal_separator && is_sep) || dot(sep, c);
			let ok = match t {
				Tok::Char(x) => eq(*x, c),
				Tok::AnyChar => !special,
				Tok::Within(r) => !special && r.iter().any(|(a, b)| *a <= c && c <= *b),
				Tok::Except(r) => !special && !r.iter().any(|(a, b)| *a <= c && c <= *b),
				_ => unreachable!(),
			};
			ok && go(&p[1..], &s[1..], is_sep, o)
		}
	}
}

pub struct Paths {
	patterns: Vec<Pattern>,
	todo: Vec<Result<(PathBuf, usize), GlobError>>,
	options: MatchOptions,
}
pub fn glob(pattern: &str) -> Result<Paths, PatternError> { glob_with(pattern, MatchOptions::new()) }
pub fn glob_with(pattern: &str, options: MatchOptions) -> Result<Paths, PatternError> {
	Pattern::new(pattern)?;
	let mut root = PathBuf::new();
	let mut patterns = vec![];
	for c in Path::new(pattern).components() {
		match c {
			Component::RootDir | Component::Prefix(_) => root.push(c),
			c => patterns.push(Pattern::new(c.as_os_str().to_str().unwrap())?),
		}
	}
	let mut p = Paths { patterns, todo: vec![], options };
	if p.patterns.is_empty() {
		if !pattern.is_empty() {
			p.todo.push(Ok((root, usize::MAX)))
		}
	} else {
		let start = if root.as_os_str().is_empty() { PathBuf::from(".") } else { root };
		p.fill(0, &start);
	}
	Ok(p)
}
fn is_dir(p: &Path) -> bool { std::fs::metadata(p).map_or(false, |m| m.is_dir()) }
impl Paths {
	fn fill(&mut self, idx: usize, path: &Path) {
		let pat = &self.patterns[idx];
		let here = path == Path::new(".");
		let literal = pat.toks.iter().map(|t| if let Tok::Char(c) = t { Some(*c) } else { None }).collect::<Option<String>>();
		match literal {
			Some(s) => {
				let special = s == "." || s == "..";
				let next = if here { PathBuf::from(&s) } else { path.join(&s) };
				if (special && is_dir(path)) || (!special && std::fs::metadata(&next).is_ok()) {
					self.add(next, idx)
				}
			}
			None if is_dir(path) => {
				let all: Result<Vec<_>, _> =
					std::fs::read_dir(path).and_then(|d| d.map(|e| e.map(|e| if here { PathBuf::from(e.path().file_name().unwrap()) } else { e.path() })).collect());
				match all {
					Ok(mut v) => {
						v.sort_by(|a: &PathBuf, b: &PathBuf| b.file_name().cmp(&a.file_name()));
						self.todo.extend(v.into_iter().map(|x| Ok((x, idx))));
					}
					Err(error) => self.todo.push(Err(GlobError { path: path.into(), error })),
				}
			}
			None => {}
		}
	}
	fn add(&mut self, next: PathBuf, idx: usize) {
		if idx + 1 == self.patterns.len() {
			self.todo.push(Ok((next, usize::MAX)))
		} else {
			self.fill(idx + 1, &next)
		}
	}
}
impl Iterator for Paths {
	type Item = GlobResult;
	fn next(&mut self) -> Option<GlobResult> {
		loop {
			let (path, mut idx) = match self.todo.pop()? {
				Ok(x) => x,
				Err(e) => return Some(Err(e)),
			};
			if idx == usize::MAX {
				return Some(Ok(path));
			}
			if self.patterns[idx].recursive {
				let mut next = idx;
				while next + 1 < self.patterns.len() && self.patterns[next + 1].recursive {
					next += 1
				}
				if is_dir(&path) {
					self.fill(next, &path);
					if next == self.patterns.len() - 1 {
						return Some(Ok(path));
					}
					idx = next + 1;
				} else if next == self.patterns.len() - 1 {
					continue;
				} else {
					idx = next + 1;
				}
			}
			let Some(name) = path.file_name().and_then(|s| s.to_str()) else { continue };
			if self.patterns[idx].matches_with(name, self.options) {
				if idx == self.patterns.len() - 1 {
					return Some(Ok(path));
				}
				self.fill(idx + 1, &path)
			}
		}
	}
}
#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn patterns() {
		let m = |p: &str, s: &str| Pattern::new(p).unwrap().matches(s);
		assert!(m("**/*.p4", "a.p4") && m("**/*.p4", "d/e/a.p4") && !m("**/*.p4", "a.p4x") && m("a*b?c", "axxbyc") && m("[!a]x", "bx") && m("[]]x", "]x"));
		assert!(m(&Pattern::escape("a[b]*?"), "a[b]*?") && !m(&Pattern::escape("a*"), "ab") && m("**", "a/b") && m("some/**/x", "some/x"));
		assert!(Pattern::new("a**").is_err() && Pattern::new("[").is_err() && Pattern::new("***").is_err() && Pattern::new("[!]").is_err());
	}
}
