//! C09, C10, C28, C29: all schedules (up to a preemption bound) of small programs over the real concurrent code.
mod driver;
mod fcs;
mod pool;

pub use vsched::explore::{explore, explore_fresh, multisets};

fn main() {
	mck::quiet_panics();
	let a = mck::args();
	let r = match a.property.as_str() {
		"C09" => fcs::check(&a),
		"C10" => pool::check(&a),
		"C28" => driver::buffer(&a),
		"C29" => driver::relay(&a),
		p => panic!("unknown property {p}"),
	};
	mck::finish(&a, r);
}
