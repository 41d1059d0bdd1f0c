//! All schedules of all programs of a list.
use crate::Bound;
use mck::{Chooser, Report};

/// Explores every schedule of every scenario. `exec` runs one and judges it.
pub fn explore<S: std::fmt::Debug + Clone + Send + Sync + 'static, T: Send + 'static>(
	a: &mck::Args,
	scenarios: &[(S, Bound)],
	horizon: impl Fn(&S) -> usize + Sync,
	program: impl Fn(S) -> T + Sync + Send + Copy + 'static,
	judge: impl Fn(&S, &crate::Outcome<T>) -> Vec<(String, String)> + Sync,
) -> Report {
	explore_on(a, scenarios, horizon, program, judge, false)
}
/// With an OS thread of its own per execution, for code with thread-local state.
pub fn explore_fresh<S: std::fmt::Debug + Clone + Send + Sync + 'static, T: Send + 'static>(
	a: &mck::Args,
	scenarios: &[(S, Bound)],
	horizon: impl Fn(&S) -> usize + Sync,
	program: impl Fn(S) -> T + Sync + Send + Copy + 'static,
	judge: impl Fn(&S, &crate::Outcome<T>) -> Vec<(String, String)> + Sync,
) -> Report {
	explore_on(a, scenarios, horizon, program, judge, true)
}
fn explore_on<S: std::fmt::Debug + Clone + Send + Sync + 'static, T: Send + 'static>(
	a: &mck::Args,
	scenarios: &[(S, Bound)],
	horizon: impl Fn(&S) -> usize + Sync,
	program: impl Fn(S) -> T + Sync + Send + Copy + 'static,
	judge: impl Fn(&S, &crate::Outcome<T>) -> Vec<(String, String)> + Sync,
	fresh: bool,
) -> Report {
	let one = |c: &mut Chooser, r: &mut Report| {
		let (s, bound) = scenarios[c.choose(scenarios.len())].clone();
		let s2 = s.clone();
		let horizon = horizon(&s);
		let o = if fresh {
			crate::run_fresh(c, bound, horizon, move || program(s2))
		} else {
			crate::run(c, bound, horizon, move || program(s2))
		};
		r.states += o.steps as u64;
		r.transitions += o.steps as u64;
		r.evaluations += 1;
		if o.preemptions > 0 {
			r.distinct += 1
		}
		let mut bad = judge(&s, &o);
		for (who, p) in &o.panics {
			bad.push((format!("panic:{}", short(p)), format!("{who} panicked: {p}")));
		}
		if o.end == crate::End::Horizon {
			bad.push(("endless".into(), format!("no end after {} steps; threads: {:?}", o.steps, o.left)));
		} else if o.value.is_none() && o.panics.is_empty() {
			bad.push(("stuck".into(), format!("no thread can go on: {:?}", o.left)));
		}
		for (sig, d) in bad {
			let ch = c.choices().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
			r.violation(&sig, format!("{s:?} choices=[{ch}]"), format!("{d}; schedule: {}", o.schedule));
		}
		if r.samples.len() < 12 && o.preemptions > 0 {
			r.sample(format!("{s:?}: {}", o.schedule));
		}
	};
	if let Some(case) = &a.replay {
		let ch: Vec<usize> = case
			.rsplit("choices=[")
			.next()
			.unwrap_or("")
			.trim_end_matches(']')
			.split(',')
			.filter_map(|x| x.trim().parse().ok())
			.collect();
		let mut r = Report::new();
		one(&mut Chooser::from_choices(&ch), &mut r);
		r.traces += 1;
		return r;
	}
	let mut r = mck::dfs(one, 0);
	let bounds: std::collections::BTreeMap<Bound, usize> = scenarios.iter().fold(Default::default(), |mut m, s| {
		*m.entry(s.1).or_insert(0) += 1;
		m
	});
	for (b, n) in bounds {
		let b = match b {
			Bound::Preemptions(b) if b > 1000 => "any number of preemptions".to_string(),
			Bound::Preemptions(b) => format!("at most {b} preemptions"),
			Bound::Delays(b) => format!("at most {b} deviations from the default schedule"),
		};
		r.bounds.push(format!("{n} programs, every schedule with {b}"));
	}
	r
}

fn short(p: &str) -> String {
	let loc = p.rsplit(" at ").next().unwrap_or("");
	let file = loc.rsplit_once(':').map_or(loc, |x| x.0);
	format!("{}:{}", file.rsplit('/').next().unwrap_or(""), p.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ').take(40).collect::<String>().trim().replace(' ', "-"))
}

/// All multisets of 1..=max elements.
pub fn multisets<T: Clone>(kinds: &[T], max: usize) -> Vec<Vec<T>> {
	fn go<T: Clone>(kinds: &[T], from: usize, left: usize, cur: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
		if !cur.is_empty() {
			out.push(cur.clone())
		}
		if left == 0 {
			return;
		}
		for i in from..kinds.len() {
			cur.push(kinds[i].clone());
			go(kinds, i, left - 1, cur, out);
			cur.pop();
		}
	}
	let mut out = vec![];
	go(kinds, 0, max, &mut vec![], &mut out);
	out
}
