//! C28: BufferStruct, C29: Driver, under every schedule.
use analyzer_host::json_rpc::message::{Message, Notification, Response};
use cancellation::CancellationTokenSource;
use mck::Report;
use p4_analyzer::driver::{buffer_driver::BufferStruct, console_driver, Driver, DriverType};
use queues::{IsQueue, Queue};
use std::sync::{Arc, Mutex};

fn msg(i: usize) -> Message { Message::Notification(Notification { method: format!("m{i}"), params: serde_json::Value::Null }) }
fn number(m: &Message) -> usize {
	match m {
		Message::Notification(n) => n.method[1..].parse().unwrap(),
		_ => usize::MAX,
	}
}
fn answer(i: usize) -> Message {
	Message::Response(Response { id: (i as i32).into(), result: Some(serde_json::json!("é\r\n")), error: None })
}
fn answer_text(i: usize) -> String {
	let b = format!("{{\"jsonrpc\":\"2.0\",\"id\":{i},\"result\":\"é\\r\\n\"}}");
	format!("Content-Length: {}\r\n\r\n{b}", b.len())
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
	/// permits one more read
	One,
	Any(usize),
	All,
	/// queues that many messages
	Add(usize),
	/// reads the output once that many messages are there
	Out(usize),
	Wait,
	Send(usize),
	SendReceive(usize, usize),
	ClearIn,
	ClearOut,
	ClearBoth,
}
#[derive(Clone, Debug)]
struct Buf {
	initial: usize,
	ops: Vec<Op>,
	/// messages written by the driver's writer thread
	writes: usize,
	/// the writer writes one answer per message read instead
	echo: bool,
}
#[derive(Default, Debug, Clone)]
struct Log {
	/// (message, ops started before it was read)
	read: Vec<(usize, usize)>,
	out: Vec<Vec<String>>,
	/// messages read when each op returned
	read_at_return: Vec<usize>,
	started: usize,
}

fn queue(from: usize, n: usize) -> Queue<Message> {
	let mut q = Queue::new();
	for i in from..from + n {
		q.add(msg(i)).unwrap();
	}
	q
}

fn buf_program(s: Buf) -> Log {
	let b = Arc::new(BufferStruct::new(queue(0, s.initial)));
	let log = Arc::new(Mutex::new(Log::default()));
	let reader = {
		let (b, log, echo) = (b.clone(), log.clone(), s.echo);
		vsched::spawn(move || {
			vsched::name("reader");
			vsched::daemon();
			let mut k = 0;
			while let Ok(Some(m)) = vsched::block_on(b.message_read()) {
				let mut l = log.lock().unwrap();
				let st = l.started;
				l.read.push((number(&m), st));
				drop(l);
				if echo {
					vsched::block_on(b.message_write(answer(k))).unwrap();
					k += 1;
				}
			}
		})
	};
	let writer = {
		let b = b.clone();
		vsched::spawn(move || {
			vsched::name("writer");
			for i in 0..s.writes {
				vsched::block_on(b.message_write(answer(i))).unwrap();
			}
		})
	};
	let mut added = s.initial;
	vsched::block_on(async {
		for op in s.ops.iter().cloned() {
			log.lock().unwrap().started += 1;
			match op {
				Op::One => b.allow_read_blocking().await,
				Op::Any(n) => b.allow_any_read_blocking(n).await,
				Op::All => b.allow_all_read_blocking().await,
				Op::Add(n) => {
					b.add_to_queue_blocking(queue(added, n));
					added += n
				}
				Op::Out(n) => {
					let o = b.get_output_buffer(n).await;
					log.lock().unwrap().out.push(o)
				}
				Op::Wait => b.wait_for_process_messages().await,
				Op::Send(n) => {
					added += n;
					b.send_messages(queue(added - n, n)).await
				}
				Op::SendReceive(n, k) => {
					added += n;
					let o = b.send_recieve_messages(queue(added - n, n), k).await;
					log.lock().unwrap().out.push(o)
				}
				Op::ClearIn => b.clear_message_buffer(),
				Op::ClearOut => b.clear_output_buffer(),
				Op::ClearBoth => b.clear_both_buffers(),
			}
			let mut l = log.lock().unwrap();
			let n = l.read.len();
			l.read_at_return.push(n);
		}
	});
	writer.join().ok();
	// let the reader go on until it has nothing more to do
	vsched::quiesce();
	let _ = reader;
	let o = vsched::block_on(b.get_output_buffer(0));
	let mut l = log.lock().unwrap().clone();
	l.out.push(o);
	l
}

/// How many messages are read in the end, and the most that may have been read before each op's end; `None`
/// once an op has discarded messages (what was read before it depends on the schedule).
struct Expect {
	upto: Vec<usize>,
	fin: usize,
}
fn expect(s: &Buf) -> Expect {
	let (mut added, mut d) = (s.initial as isize, -(s.initial as isize));
	let reads = |added: isize, d: isize| (added + d.min(0)) as usize;
	let mut upto = vec![reads(added, d)];
	for op in &s.ops {
		match *op {
			Op::One => d += 1,
			Op::Any(n) => d += n as isize,
			Op::All => d = d.max(0),
			Op::Add(n) => {
				added += n as isize;
				d -= n as isize
			}
			Op::Send(n) | Op::SendReceive(n, _) => {
				added += n as isize;
				d = (d - n as isize).max(0)
			}
			_ => {}
		}
		upto.push(reads(added, d));
	}
	Expect { fin: *upto.last().unwrap(), upto }
}
fn clears(s: &Buf) -> bool { s.ops.iter().any(|o| matches!(o, Op::ClearIn | Op::ClearBoth)) }
fn clears_out(s: &Buf) -> bool { s.ops.iter().any(|o| matches!(o, Op::ClearOut | Op::ClearBoth)) }

fn buf_judge(s: &Buf, o: &vsched::Outcome<Log>) -> Vec<(String, String)> {
	let mut bad = vec![];
	let Some(l) = &o.value else { return bad };
	let nums: Vec<usize> = l.read.iter().map(|x| x.0).collect();
	if !clears(s) {
		let e = expect(s);
		if nums != (0..nums.len()).collect::<Vec<_>>() {
			bad.push(("read-order".into(), format!("messages read: {nums:?}")));
		}
		for (k, (_, started)) in l.read.iter().enumerate() {
			if k + 1 > e.upto[*started] {
				bad.push(("not-permitted".into(), format!("{} messages read when only {} were permitted: {l:?}", k + 1, e.upto[*started])));
			}
		}
		if nums.len() != e.fin {
			let sig = if nums.len() > e.fin { "permit-spent-twice" } else { "permit-lost" };
			bad.push((sig.into(), format!("{} messages read in the end instead of {}: {l:?}", nums.len(), e.fin)));
		}
		// waiting for the queue to be processed returns when everything queued so far has been taken
		let mut added = s.initial;
		for (k, op) in s.ops.iter().enumerate() {
			match op {
				Op::Add(n) => added += n,
				Op::Send(n) | Op::SendReceive(n, _) => added += n,
				_ => {}
			}
			// the reader may hold the last message without having recorded it
			if matches!(op, Op::Wait | Op::Send(_) | Op::SendReceive(..)) && l.read_at_return[k] + 1 < added {
				bad.push(("wait-returned-early".into(), format!("op {k} returned with {} of {added} messages read", l.read_at_return[k])));
			}
		}
	} else if nums.windows(2).any(|w| w[0] >= w[1]) {
		bad.push(("read-order".into(), format!("messages read: {nums:?}")));
	} else {
		// after the last clear only what was queued and permitted afterwards is read; one message may have been
		// on its way before
		let k = s.ops.iter().rposition(|o| matches!(o, Op::ClearIn | Op::ClearBoth)).unwrap();
		let before: usize = s.initial
			+ s.ops[..k].iter().map(|o| match o {
				Op::Add(n) | Op::Send(n) | Op::SendReceive(n, _) => *n,
				_ => 0,
			}).sum::<usize>();
		let rest = Buf { initial: 0, ops: s.ops[k + 1..].to_vec(), writes: 0, echo: false };
		let e = expect(&rest);
		let late = l.read.iter().skip(l.read_at_return[k]).filter(|x| x.0 < before).count();
		if late > 1 {
			bad.push(("cleared-message-read".into(), format!("{late} discarded messages were read: {l:?}")));
		}
		let new: Vec<usize> = nums.iter().cloned().filter(|x| *x >= before).collect();
		if new != (before..before + e.fin).collect::<Vec<_>>() {
			bad.push(("after-clear".into(), format!("read {new:?} of what was queued after clearing, {} expected: {l:?}", e.fin)));
		}
	}
	// output
	let wrote = if s.echo { nums.len() } else { s.writes };
	let all: Vec<&String> = l.out.iter().flatten().collect();
	let want: Vec<String> = (0..wrote).map(answer_text).collect();
	if clears_out(s) {
		let pos: Vec<Option<usize>> = all.iter().map(|x| want.iter().position(|w| w == *x)).collect();
		if pos.iter().any(|p| p.is_none()) || pos.windows(2).any(|w| w[0] >= w[1]) {
			bad.push(("output".into(), format!("read back {all:?}")));
		}
	} else if all.iter().map(|x| x.as_str()).collect::<Vec<_>>() != want.iter().map(|x| x.as_str()).collect::<Vec<_>>() {
		bad.push(("output".into(), format!("read back {all:?}, written {want:?}")));
	}
	let mut outs = l.out.iter();
	for op in &s.ops {
		if let Op::Out(n) | Op::SendReceive(_, n) = op {
			if outs.next().map_or(0, |o| o.len()) < *n {
				bad.push(("output-short".into(), format!("{op:?} returned fewer messages: {l:?}")));
			}
		}
	}
	bad
}

/// Would the program wait for something that never comes?
fn sensible(s: &Buf) -> bool {
	let (mut added, mut d, mut out) = (s.initial as isize, -(s.initial as isize), if s.echo { 0 } else { s.writes as isize });
	let mut cleared_out = false;
	let mut cleared_in = false;
	for op in &s.ops {
		let before = added + d.min(0);
		match *op {
			Op::One => d += 1,
			Op::Any(n) => d += n as isize,
			Op::All => d = d.max(0),
			Op::Add(n) => {
				added += n as isize;
				d -= n as isize
			}
			Op::Send(n) => {
				added += n as isize;
				d = (d - n as isize).max(0)
			}
			Op::SendReceive(n, k) => {
				added += n as isize;
				d = (d - n as isize).max(0);
				if s.echo {
					out += added + d.min(0) - before
				}
				if cleared_out || k as isize > out {
					return false;
				}
				// it returns everything there is: later waits may not count on any of it
				out = 0;
				cleared_out = true;
				continue;
			}
			Op::Out(n) => {
				if cleared_out && n > 0 || n as isize > out {
					return false;
				}
				cleared_out = true;
			}
			Op::Wait => {
				if d < 0 {
					return false;
				}
			}
			Op::ClearIn => {
				d = 0;
				added = 0;
				out = if s.echo { 0 } else { out };
				cleared_in = true;
			}
			Op::ClearOut => cleared_out = true,
			Op::ClearBoth => {
				d = 0;
				added = 0;
				cleared_in = true;
				cleared_out = true
			}
		}
		if s.echo && !cleared_in {
			out += added + d.min(0) - before
		}
	}
	true
}

pub fn buffer(a: &mck::Args) -> Report {
	use Op::*;
	let ops = [One, Any(1), Any(2), All, Add(1), Add(2), Out(0), Out(1), Wait, Send(1), Send(2), SendReceive(1, 1), ClearIn, ClearOut, ClearBoth];
	let mut scs = vec![];
	let max = if a.thorough { 4 } else { 3 };
	for initial in 0..=4 {
		for (writes, echo) in [(0, true), (0, false), (1, false), (2, false)] {
			for o in mck::strings(&ops, max) {
				if writes > 0 && !o.iter().any(|x| matches!(x, Out(_) | SendReceive(..) | ClearOut | ClearBoth)) {
					continue;
				}
				if !a.thorough
					&& o.len() == 3
					&& (!echo || initial == 1 || o.iter().any(|x| matches!(x, Add(2) | Send(2) | ClearOut | Any(_))))
				{
					continue;
				}
				// more messages than permits show a permit that is spent twice
				if initial > 2 && (o.len() > 2 || writes > 0 || o.iter().any(|x| !matches!(x, One | Any(_) | All | Out(_)))) {
					continue;
				}
				let s = Buf { initial, ops: o, writes, echo };
				if sensible(&s) {
					let n = s.ops.len();
					let bound = match (a.thorough, n) {
						(false, 0..=2) => 2,
						(false, _) => 1,
						(true, 0..=2) => 4,
						(true, 3) => 2,
						(true, _) => 1,
					};
					scs.push((s, bound.into()))
				}
			}
		}
	}
	// many messages and many permits
	for n in [8, 40, 130, 300] {
		let b = if n <= 8 || a.thorough && n <= 40 { 1 } else { 0 };
		let ones: Vec<Op> = vec![One; n];
		for ops in [
			vec![Any(n), Out(n)],
			vec![Any(n - 3), Out(n - 3), Any(3), Out(3), Wait],
			vec![All, Wait],
			vec![Add(n), All, Wait],
			[ones.clone(), vec![Wait]].concat(),
			[ones, vec![Add(n), Any(n), Out(n)]].concat(),
			vec![Any(n / 2), ClearIn, Add(n), Any(n), Wait],
		] {
			scs.push((Buf { initial: n, ops, writes: 0, echo: true }, vsched::Bound::Delays(b)))
		}
		for ops in [
			vec![Any(n), Add(n), Wait, Out(n)],
			vec![Send(n), Out(n)],
			vec![SendReceive(n, n), Send(n)],
			vec![Add(n), ClearBoth, SendReceive(1, 0), Send(2)],
		] {
			scs.push((Buf { initial: 0, ops, writes: 0, echo: true }, vsched::Bound::Delays(b)))
		}
		scs.push((Buf { initial: 0, ops: vec![Out(n)], writes: n, echo: false }, vsched::Bound::Delays(b)));
	}
	scs.retain(|s| sensible(&s.0));
	crate::explore(a, &scs, |s| 4000 + 400 * (s.initial + s.ops.len()), buf_program, buf_judge)
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Copy, Debug, PartialEq)]
enum Input {
	Eof,
	/// an I/O error
	Error,
	/// a frame that is no message
	Garbage,
	/// stops inside a frame
	Cut,
	/// stays open
	Open,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
	/// the server takes one message
	Take,
	/// sends one
	Send,
	/// closes the channel it sends on
	CloseOut,
	/// takes messages until its channel ends
	TakeAll,
}
#[derive(Clone, Debug)]
struct Relay {
	console: bool,
	inputs: usize,
	/// the chunks the input arrives in
	split: usize,
	end: Input,
	server: Vec<Act>,
	cancel: bool,
	fail_write: Option<usize>,
	/// characters added to every message
	size: usize,
}
#[derive(Debug, Default)]
struct RelayRes {
	ok: bool,
	taken: Vec<usize>,
	ended: bool,
	sent: usize,
	refused: usize,
	output: Vec<u8>,
	output_at_end: usize,
}

fn padded(m: Message, size: usize) -> Message {
	match m {
		Message::Notification(n) if size > 0 => Message::Notification(Notification { params: serde_json::json!("p".repeat(size)), ..n }),
		Message::Response(r) if size > 0 => Message::Response(Response { result: Some(serde_json::json!("r".repeat(size))), ..r }),
		m => m,
	}
}
fn padded_text(i: usize, size: usize) -> String {
	if size == 0 {
		return answer_text(i);
	}
	let b = format!("{{\"jsonrpc\":\"2.0\",\"id\":{i},\"result\":\"{}\"}}", "r".repeat(size));
	format!("Content-Length: {}\r\n\r\n{b}", b.len())
}

fn relay_program(s: Relay) -> RelayRes {
	let console: vstd::io::Shared = Default::default();
	let mut q = Queue::new();
	let mut bytes = vec![];
	for i in 0..s.inputs {
		padded(msg(i), s.size).write(&mut bytes).unwrap();
		q.add(padded(msg(i), s.size)).unwrap();
	}
	let frame = {
		let mut b = vec![];
		msg(s.inputs).write(&mut b).unwrap();
		b
	};
	match s.end {
		Input::Garbage => bytes.extend_from_slice(b"Content-Length: 2\r\n\r\n{]"),
		Input::Cut => bytes.extend_from_slice(&frame[..frame.len() - 3]),
		_ => {}
	}
	{
		let mut c = console.lock().unwrap();
		let step = if s.split == 0 { bytes.len().max(1) } else { s.split };
		c.input = bytes.chunks(step).map(|b| Some(b.to_vec())).collect();
		if s.end == Input::Error {
			c.input.push(None)
		}
		c.open = s.end == Input::Open;
		c.fail_write = s.fail_write;
	}
	vstd::io::install(console.clone());
	let buffer = Arc::new(BufferStruct::new(q));
	let driver = Arc::new(if s.console { console_driver() } else { Driver::new(DriverType::Buffer(buffer.clone())) });
	let token = Arc::new(CancellationTokenSource::new());
	let (out, inn) = driver.get_message_channel();
	let server = {
		let s = s.clone();
		vsched::spawn(move || {
			vsched::name("server");
			let mut r = RelayRes::default();
			for a in s.server.iter().cloned() {
				match a {
					Act::Take => match inn.recv_blocking() {
						Ok(m) => r.taken.push(number(&m)),
						Err(_) => {
							r.ended = true;
						}
					},
					Act::TakeAll => loop {
						match inn.recv_blocking() {
							Ok(m) => r.taken.push(number(&m)),
							Err(_) => {
								r.ended = true;
								break;
							}
						}
					},
					Act::Send => match out.send_blocking(padded(answer(r.sent), s.size)) {
						Ok(()) => r.sent += 1,
						Err(_) => r.refused += 1,
					},
					Act::CloseOut => {
						out.close();
					}
				}
			}
			r
		})
	};
	let canceller = s.cancel.then(|| {
		let token = token.clone();
		vsched::spawn(move || {
			vsched::name("cancel");
			token.cancel()
		})
	});
	if !s.console {
		vsched::block_on(buffer.allow_any_read_blocking(s.inputs));
	}
	let ok = vsched::block_on(driver.start(token.token().clone())).is_ok();
	let get = || {
		if s.console {
			console.lock().unwrap().output.clone()
		} else {
			vsched::block_on(buffer.get_output_buffer(0)).concat().into_bytes()
		}
	};
	let output = get();
	let mut r = server.join().unwrap_or_default();
	if let Some(c) = canceller {
		c.join().ok();
	}
	vstd::io::remove();
	r.output_at_end = output.len();
	r.output = if s.console { get() } else { output };
	r.ok = ok;
	r
}

fn relay_judge(s: &Relay, o: &vsched::Outcome<RelayRes>) -> Vec<(String, String)> {
	let mut bad = vec![];
	let Some(r) = &o.value else { return bad };
	if r.taken != (0..r.taken.len()).collect::<Vec<_>>() || r.taken.len() > s.inputs {
		bad.push(("input-order".into(), format!("the server got {:?} of {} messages", r.taken, s.inputs)));
	}
	if s.server.contains(&Act::TakeAll) && !s.cancel && r.taken.len() != s.inputs {
		bad.push(("input-lost".into(), format!("the server got {:?} of {} messages before its channel ended", r.taken, s.inputs)));
	}
	let want: String = (0..r.sent).map(|i| padded_text(i, s.size)).collect();
	if s.fail_write.is_none() {
		if r.output != want.as_bytes() {
			bad.push(("output".into(), format!("written {:?}, sent {want:?}", String::from_utf8_lossy(&r.output))));
		} else if r.output_at_end != r.output.len() {
			bad.push(("finished-early".into(), format!("the driver finished with {} of {} bytes written", r.output_at_end, r.output.len())));
		}
		if !s.cancel && r.refused > 0 && s.server.iter().position(|a| *a == Act::CloseOut) > s.server.iter().rposition(|a| *a == Act::Send) {
			bad.push(("refused".into(), format!("{} messages could not be sent though nothing had ended", r.refused)));
		}
	} else if !want.as_bytes().starts_with(&r.output) {
		bad.push(("output".into(), format!("written {:?}, sent {want:?}", String::from_utf8_lossy(&r.output))));
	}
	if !s.cancel && !r.ok {
		bad.push(("result".into(), "never cancelled, but the driver reports cancellation".into()));
	}
	if s.cancel && r.ok && !s.server.contains(&Act::CloseOut) && s.fail_write.is_none() {
		bad.push(("result".into(), "cancelled, but the driver reports success".into()));
	}
	bad
}

pub fn relay(a: &mck::Args) -> Report {
	use Act::*;
	let mut scs = vec![];
	let mut servers: Vec<Vec<Act>> = vec![];
	// the server takes some, sends some in any order, then closes (or waits for the end first)
	for s in mck::strings(&[Take, Send], if a.thorough { 3 } else { 2 }) {
		for tail in [vec![CloseOut], vec![TakeAll, CloseOut], vec![TakeAll], vec![CloseOut, Send]] {
			servers.push([s.clone(), tail].concat())
		}
	}
	for console in [true, false] {
		for inputs in 0..=2 {
			for end in [Input::Eof, Input::Error, Input::Garbage, Input::Cut, Input::Open] {
				for cancel in [false, true] {
					for server in &servers {
						for (split, fail_write) in [(0, None), (7, None), (0, Some(1)), (0, Some(2))] {
							if !console && (end != Input::Open || split > 0 || fail_write.is_some()) {
								continue;
							}
							if (split > 0 && (server.len() > 2 || inputs == 0)) || (fail_write.is_some() && !server.contains(&Send)) {
								continue;
							}
							let takes = server.iter().filter(|x| **x == Take).count();
							// programs that wait for input that cannot come
							if takes > inputs && (end == Input::Open && !cancel) {
								continue;
							}
							if server.contains(&TakeAll) && end == Input::Open && !cancel {
								continue;
							}
							// once writing has failed the driver is done: a later cancellation does not end open input
							if fail_write.is_some() && end == Input::Open && (takes > inputs || server.contains(&TakeAll)) {
								continue;
							}
							if !server.contains(&CloseOut) && !cancel {
								continue;
							}
							let heavy = server.len() + 2 * cancel as usize + (split > 0) as usize * 2;
							let bound = vsched::Bound::Delays(match (a.thorough, heavy) {
								(false, 0..=4) => 2,
								(false, _) => 1,
								(true, 0..=3) => 4,
								(true, 4..=5) => 3,
								(true, _) => 2,
							});
							scs.push((Relay { console, inputs, split, end, server: server.clone(), cancel, fail_write, size: 0 }, bound))
						}
					}
				}
			}
		}
	}
	// many messages, large messages
	for console in [true, false] {
		for (n, size, split) in [(8, 0, 0), (40, 0, 50), (130, 0, 1000), (300, 0, 0), (1100, 0, 0), (3, 5000, 4096), (3, 70_000, 8192), (2, 1_100_000, 0)] {
			let sends = vec![Send; n];
			let b = vsched::Bound::Delays(if n <= 8 { 1 + (a.thorough && n < 8) as usize } else { 0 });
			let end = if console { Input::Eof } else { Input::Open };
			let mut all = vec![[sends.clone(), vec![CloseOut]].concat()];
			if console {
				all.push([sends.clone(), vec![TakeAll, CloseOut]].concat());
				all.push([vec![TakeAll], sends.clone(), vec![CloseOut]].concat());
			} else {
				all.push([vec![Take; n], sends.clone(), vec![CloseOut]].concat());
			}
			all.push((0..n).flat_map(|_| [Take, Send]).chain([CloseOut]).collect());
			all.push((0..n).flat_map(|_| [Send, Take]).chain([CloseOut]).collect());
			for server in all {
				scs.push((Relay { console, inputs: n, split, end, server, cancel: false, fail_write: None, size }, b))
			}
		}
	}
	crate::explore(a, &scs, |s| 4000 + 100 * s.inputs, relay_program, relay_judge)
}
