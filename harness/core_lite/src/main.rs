mod docs;
mod peg;
fn main() {
	let a = mck::args();
	mck::quiet_panics();
	let r = match a.property.as_str() {
		"C01" => docs::edits_check(1, a.thorough),
		"C02" => docs::edits_check(2, a.thorough),
		"C03" => docs::conversions(a.thorough),
		"C04" => peg::incremental(a.thorough),
		"C05" => peg::semantics(a.thorough),
		p => panic!("unknown property {p}"),
	};
	mck::finish(&a, r);
}
