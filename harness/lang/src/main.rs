//! C22-C27: lexer, preprocessor and analysis database of analyzer-core.
mod cond;
mod history;
mod include;
mod lexing;
mod select;

fn main() {
	let a = mck::args();
	mck::quiet_panics();
	let r = match a.property.as_str() {
		"C22" => lexing::tiling(&a),
		"C23" => lexing::kinds(&a),
		"C24" => select::check(&a),
		"C25" => cond::check(&a),
		"C26" => include::check(&a),
		"C27" => history::check(&a),
		p => panic!("unknown property {p}"),
	};
	mck::finish(&a, r);
}

/// Runs `f` on every case (or the one being replayed).
pub fn each<T: Sync + std::fmt::Debug>(a: &mck::Args, items: &[T], f: impl Fn(&T, &mut mck::Report) + Sync) -> mck::Report {
	match &a.replay {
		Some(c) => {
			let mut r = mck::Report::new();
			for i in items.iter().filter(|i| format!("{i:?}") == *c) {
				f(i, &mut r)
			}
			r
		}
		None => mck::par(items, f),
	}
}
/// A short, stable name of a panic.
pub fn panic_sig(p: &str) -> String {
	let loc = p.rsplit(" at ").next().unwrap_or("");
	let file = loc.rsplit_once(':').map_or(loc, |x| x.0).rsplit('/').next().unwrap_or("").to_string();
	let what: String = p.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ').take(30).collect();
	format!("panic:{file}:{}", what.trim().replace(' ', "-"))
}
