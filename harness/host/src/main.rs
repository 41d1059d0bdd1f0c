//! C11-C21: the language server host, driven message by message.
mod diag;
mod docs;
mod ending;
mod folders;
mod lifecycle;
mod requests;
mod scale;
mod startup;
mod trace;
mod world;

fn main() {
	let a = mck::args();
	mck::quiet_panics();
	mck::ITEM_LIMIT_S.store(15, std::sync::atomic::Ordering::Relaxed);
	world::calibrate();
	let r = match a.property.as_str() {
		"C11" => lifecycle::c11(&a),
		"C12" => lifecycle::c12(&a),
		"C13" => requests::c13(&a),
		"C14" => docs::c14(&a),
		"C15" => docs::c15(&a),
		"C16" => folders::c16(&a),
		"C17" => ending::c17(&a),
		"C18" => startup::c18(&a),
		"C19" => trace::c19(&a),
		"C21" => diag::c21(&a),
		"C20" => docs::c20(&a),
		p => panic!("unknown property {p}"),
	};
	mck::finish(&a, r);
}
