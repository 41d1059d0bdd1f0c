//! C09: FutureCompletionSource under every schedule.
use analyzer_abstractions::futures_extensions::FutureCompletionSource;
use futures::FutureExt;
use mck::Report;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;

type R = Result<usize, usize>;

#[derive(Clone, Debug, PartialEq)]
enum Th {
	/// completes with a value, or an error
	Set,
	SetErr,
	/// two attempts
	SetSet,
	/// waits, looks at the state, waits again
	Wait,
	/// polls once, drops the future, then waits
	DropWait,
	/// two futures at once on one thread
	Wait2,
	/// looks three times
	Look,
	/// looks, sets, looks
	LookSetLook,
	/// polls once, drops the future and never looks again
	DropGone,
	/// that many futures at once on one thread
	Many(usize),
	/// completes through a clone that is dropped before the attempt is over elsewhere
	CloneSet,
}
#[derive(Clone, Debug)]
struct Scn {
	ths: Vec<Th>,
	preset: bool,
}
#[derive(Debug, Clone)]
enum Ev {
	Set(R, bool),
	Got(&'static str, R),
	Look(Option<R>),
}

fn look(f: &FutureCompletionSource<usize, usize>, log: &mut Vec<Ev>) {
	log.push(Ev::Look(match f.state() {
		Poll::Ready(r) => Some(r),
		Poll::Pending => None,
	}))
}

fn program(s: Scn) -> (Vec<Vec<Ev>>, Option<R>) {
	let f: FutureCompletionSource<usize, usize> =
		if s.preset { FutureCompletionSource::new_with_value(99) } else { FutureCompletionSource::new() };
	let logs: Arc<Mutex<Vec<Vec<Ev>>>> = Arc::new(Mutex::new(vec![vec![]; s.ths.len()]));
	let mut hs = vec![];
	for (i, t) in s.ths.iter().cloned().enumerate() {
		let (f, logs) = (f.clone(), logs.clone());
		hs.push(vsched::spawn(move || {
			vsched::name(&format!("{t:?}{i}"));
			let mut log = vec![];
			let set = |log: &mut Vec<Ev>, r: R| {
				let ok = match r {
					Ok(v) => f.set_value(v).is_ok(),
					Err(e) => f.set_err(e).is_ok(),
				};
				log.push(Ev::Set(r, ok));
			};
			match t {
				Th::Set => {
					set(&mut log, Ok(10 * i));
					look(&f, &mut log)
				}
				Th::SetErr => {
					set(&mut log, Err(10 * i + 1));
					look(&f, &mut log)
				}
				Th::SetSet => {
					set(&mut log, Ok(10 * i));
					set(&mut log, Ok(10 * i + 2));
				}
				Th::CloneSet => {
					let g = f.clone();
					drop(f);
					let r = Ok(10 * i);
					let ok = g.set_value(10 * i).is_ok();
					log.push(Ev::Set(r, ok));
				}
				Th::Wait => {
					log.push(Ev::Got("wait", vsched::block_on(f.future())));
					look(&f, &mut log);
					log.push(Ev::Got("again", vsched::block_on(f.future())));
				}
				Th::DropWait => {
					let r = vsched::block_on(async {
						let mut p = Box::pin(f.future());
						let first = futures::poll!(&mut p);
						drop(p);
						match first {
							Poll::Ready(r) => r,
							Poll::Pending => f.future().await,
						}
					});
					log.push(Ev::Got("after drop", r));
				}
				Th::Wait2 => {
					let (x, y) = vsched::block_on(futures::future::join(f.future(), f.future().boxed_local()));
					log.push(Ev::Got("first", x));
					log.push(Ev::Got("second", y));
				}
				Th::DropGone => {
					let first = vsched::block_on(async {
						let mut p = Box::pin(f.future());
						let first = futures::poll!(&mut p);
						vsched::point();
						first
					});
					if let Poll::Ready(r) = first {
						log.push(Ev::Got("at once", r))
					}
				}
				Th::Many(n) => {
					for r in vsched::block_on(futures::future::join_all((0..n).map(|_| f.future()))) {
						log.push(Ev::Got("one of many", r))
					}
				}
				Th::Look => {
					for _ in 0..3 {
						look(&f, &mut log)
					}
				}
				Th::LookSetLook => {
					look(&f, &mut log);
					set(&mut log, Ok(10 * i));
					look(&f, &mut log);
				}
			}
			logs.lock().unwrap()[i] = log;
		}));
	}
	for h in hs {
		h.join().ok();
	}
	let fin = match f.state() {
		Poll::Ready(r) => Some(r),
		Poll::Pending => None,
	};
	let logs = logs.lock().unwrap().clone();
	(logs, fin)
}

fn judge(s: &Scn, o: &vsched::Outcome<(Vec<Vec<Ev>>, Option<R>)>) -> Vec<(String, String)> {
	let mut bad = vec![];
	let Some((logs, fin)) = &o.value else { return bad };
	let mut won: Vec<R> = if s.preset { vec![Ok(99)] } else { vec![] };
	for e in logs.iter().flatten() {
		if let Ev::Set(r, true) = e {
			won.push(*r)
		}
	}
	if won.len() != 1 {
		bad.push(("winners".into(), format!("{} successful attempts: {won:?}; {logs:?}", won.len())));
		return bad;
	}
	let w = won[0];
	if *fin != Some(w) {
		bad.push(("final".into(), format!("final state {fin:?}, the successful attempt set {w:?}")));
	}
	for (i, log) in logs.iter().enumerate() {
		let mut seen = s.preset;
		for e in log {
			match e {
				Ev::Set(_, ok) => {
					if *ok && seen {
						bad.push(("late-success".into(), format!("thread {i} completed a source already seen complete: {log:?}")))
					}
					seen = true
				}
				Ev::Got(how, r) => {
					if *r != w {
						bad.push(("value".into(), format!("thread {i} ({how}) got {r:?} instead of {w:?}: {logs:?}")))
					}
					seen = true
				}
				Ev::Look(None) if seen => bad.push(("backwards".into(), format!("thread {i} saw pending after completion: {log:?}"))),
				Ev::Look(None) => {}
				Ev::Look(Some(r)) => {
					if *r != w {
						bad.push(("value".into(), format!("thread {i} saw {r:?} instead of {w:?}: {logs:?}")))
					}
					seen = true
				}
			}
		}
	}
	bad
}

pub fn check(a: &mck::Args) -> Report {
	let kinds = [Th::Set, Th::SetErr, Th::SetSet, Th::Wait, Th::DropWait, Th::Wait2, Th::Look, Th::LookSetLook, Th::CloneSet, Th::DropGone];
	let mut scs = vec![];
	let setter = |t: &Th| matches!(t, Th::Set | Th::SetErr | Th::SetSet | Th::LookSetLook | Th::CloneSet);
	for preset in [false, true] {
		for ths in crate::multisets(&kinds, if a.thorough { 4 } else { 3 }) {
			if !preset && !ths.iter().any(setter) {
				continue;
			}
			let bound = match (ths.len(), a.thorough, preset) {
				(1, _, _) => 9999,
				(2, false, _) => 4,
				(2, true, _) => 9999,
				(3, false, true) => 1,
				(3, false, false) => 2,
				(3, true, true) => 2,
				(3, true, false) => 3,
				(_, _, true) => 1,
				_ => 2,
			};
			scs.push((Scn { ths, preset }, bound.into()));
		}
	}
	// many waiters: on one thread, and on threads of their own
	for n in [9, 17, 40, 70, 130, 300] {
		for ths in [vec![Th::Set, Th::Many(n)], vec![Th::SetErr, Th::Many(n), Th::DropGone], vec![Th::Set, Th::Many(n), Th::Wait]] {
			let b = if n < 20 { ths.len() == 2 || a.thorough } else { a.thorough && n < 100 } as usize + (n < 100 && ths.len() == 2) as usize;
			scs.push((Scn { ths, preset: false }, vsched::Bound::Delays(b)))
		}
	}
	for n in 4..=if a.thorough { 9 } else { 7 } {
		for w in [Th::Wait, Th::DropGone] {
			let mut ths = vec![Th::Wait; n - 1];
			ths.insert(0, Th::Set);
			ths.push(w);
			scs.push((Scn { ths, preset: false }, vsched::Bound::Delays(if a.thorough { 3 } else { 2 })));
		}
	}
	let _: Option<Pin<Box<dyn Future<Output = ()>>>> = None;
	crate::explore(a, &scs, |s| 3000 + 400 * s.ths.iter().map(|t| if let Th::Many(n) = t { *n } else { 0 }).sum::<usize>(), program, judge)
}
