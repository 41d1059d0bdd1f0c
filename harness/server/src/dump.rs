//! C34: the LSIF generator from its settings to the file on disk.
use lsif_p4::flags::LsifP4Cmd;
use lsif_p4::lsif_generator::LsifGenerator;
use mck::Report;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use vsched::Bound;

#[derive(Clone, Debug)]
struct Job {
	/// files of the workspace and of the header folder, and the latter's place
	workspace: Vec<&'static str>,
	headers: Vec<&'static str>,
	/// is the header folder inside the workspace, or the same?
	nested: u8,
	name: Option<&'static str>,
	/// number of the tree
	tree: usize,
}
#[derive(Debug)]
struct Res {
	/// what the file holds when the process ends
	text: Result<String, String>,
	code: i32,
	/// names of the files in the output folder
	there: Vec<String>,
}

static TOP: OnceLock<PathBuf> = OnceLock::new();

fn places(j: &Job) -> (PathBuf, PathBuf) {
	let w = TOP.get().unwrap().join(format!("t{}", j.tree)).join("w");
	let h = match j.nested {
		0 => w.parent().unwrap().join("h"),
		1 => w.join("h"),
		_ => w.clone(),
	};
	(w, h)
}

fn program(j: Job) -> Res {
	static N: AtomicUsize = AtomicUsize::new(0);
	let out = TOP.get().unwrap().join(format!("out{}", N.fetch_add(1, Ordering::Relaxed)));
	std::fs::create_dir_all(&out).unwrap();
	let file = out.join(format!("{}.lsif", j.name.unwrap_or("P4Analysis")));
	let end: Arc<Mutex<Option<(Result<String, String>, i32)>>> = Default::default();
	let look = {
		let (end, file) = (end.clone(), file.clone());
		move |code: i32| {
			*end.lock().unwrap() = Some((std::fs::read_to_string(&file).map_err(|e| e.to_string()), code));
			vsched::wake(Arc::as_ptr(&end) as usize)
		}
	};
	vstd::process::on_exit(Box::new(look.clone()));
	let (w, h) = places(&j);
	let cmd = LsifP4Cmd { header_files: h, workspace: Some(w), filename: j.name.map(|n| n.to_string()), output: Some(out.clone()), version: false };
	{
		let look = look.clone();
		vsched::spawn(move || {
			vsched::name("generator");
			vsched::daemon();
			let mut g = LsifGenerator::new(Arc::new(cmd));
			vsched::block_on(g.generate_dump());
			look(0)
		});
	}
	let (text, code) = loop {
		if let Some(e) = end.lock().unwrap().take() {
			break e;
		}
		vsched::block_on_resource(Arc::as_ptr(&end) as usize, "the end of the process")
	};
	let there = std::fs::read_dir(&out).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
	let _ = std::fs::remove_dir_all(&out);
	Res { text, code, there }
}

/// The path of a file URI.
fn path_of(u: &str) -> String {
	let Some(p) = u.strip_prefix("file://") else { return u.to_string() };
	let b = p.as_bytes();
	let (mut out, mut i) = (vec![], 0);
	while i < b.len() {
		match p.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()) {
			Some(x) if b[i] == b'%' => {
				out.push(x);
				i += 3
			}
			_ => {
				out.push(b[i]);
				i += 1
			}
		}
	}
	String::from_utf8_lossy(&out).into_owned()
}

fn judge(j: &Job, o: &vsched::Outcome<Res>) -> Vec<(String, String)> {
	let mut bad = vec![];
	let Some(r) = &o.value else { return bad };
	if r.code != 0 {
		bad.push(("exit-code".into(), format!("the process ends with {}", r.code)))
	}
	let text = match &r.text {
		Ok(t) => t,
		Err(e) => {
			bad.push(("no-file".into(), format!("when the process ends: {e}; in the folder: {:?}", r.there)));
			return bad;
		}
	};
	let (w, h) = places(j);
	let mut want: Vec<String> = vec![];
	for (top, files) in [(w, &j.workspace), (h, &j.headers)] {
		for f in files.iter().filter(|f| f.ends_with(".p4")) {
			want.push(top.join(f).to_string_lossy().into_owned())
		}
	}
	want.sort();
	want.dedup();
	let mut got = vec![];
	let mut ids = std::collections::HashSet::new();
	for l in text.lines() {
		match serde_json::from_str::<serde_json::Value>(l) {
			Ok(v) if v["type"] == "vertex" && v["label"] == "document" => {
				got.push(path_of(v["uri"].as_str().unwrap_or("?")));
				if !ids.insert(v["id"].to_string()) {
					bad.push(("id-repeated".into(), l.to_string()))
				}
			}
			Ok(_) => {}
			Err(e) => bad.push(("bad-line".into(), format!("{l:?}: {e}"))),
		}
	}
	let all = got.clone();
	got.sort();
	got.dedup();
	if got != want {
		let sig = if want.iter().any(|x| !got.contains(x)) { "document-missing" } else { "document-extra" };
		bad.push((sig.into(), format!("listed {all:?}, on disk {want:?}")))
	} else if all.len() != got.len() && j.nested == 0 {
		// a file below both folders is a file of each of them
		bad.push(("document-twice".into(), format!("listed {all:?}, on disk {want:?}")))
	}
	bad
}

pub fn check(a: &mck::Args) -> Report {
	vsched::fair();
	let top = crate::Scratch::new();
	TOP.set(top.0.clone()).unwrap();
	let trees: Vec<Vec<&'static str>> = vec![
		vec![],
		vec!["a.p4"],
		vec!["a.p4", "b.p4"],
		vec!["d/a.p4", "readme.txt"],
		vec!["a b é.p4", "d/e/f.p4", "d/[x].p4"],
	];
	let mut scs = vec![];
	for w in &trees {
		for h in &trees {
			for nested in 0..3 {
				if nested == 2 && !h.is_empty() {
					continue;
				}
				for name in [None, Some("x y")] {
					let tree = scs.len();
					let j = Job { workspace: w.clone(), headers: h.clone(), nested, name, tree };
					let (wp, hp) = places(&j);
					for (p, fs) in [(wp, w), (hp, h)] {
						std::fs::create_dir_all(&p).unwrap();
						for f in fs {
							let f = p.join(f);
							std::fs::create_dir_all(f.parent().unwrap()).unwrap();
							std::fs::write(f, "aa bb").unwrap();
						}
					}
					let light = w.len() + h.len() <= 2 && name.is_none();
					scs.push((
						j,
						Bound::Delays(match (a.thorough, light) {
							(false, true) => 1,
							(false, false) => 1,
							(true, true) => 2,
							(true, false) => 1,
						}),
					))
				}
			}
		}
	}
	vsched::explore::explore_fresh(a, &scs, |_| 20_000, program, judge)
}
