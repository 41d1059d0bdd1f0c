//! C31: everything the LSIF writer emits, under every sequence of calls, names and folders.
use lsif_p4::flags::LsifP4Cmd;
use lsif_p4::lsif_writer::LsifWriter;
use lsp_types::lsif::{Document, Edge, EdgeData, Element, Entry, Vertex};
use lsp_types::{NumberOrString, Url};
use mck::{Args, Report};
use serde_json::Value;
use std::path::PathBuf;
use std::sync::Arc;

const URIS: [&str; 5] = ["file:///a.p4", "file:///d/%C3%A9%22%5C.p4", "file:///l%0Ax.p4", "untitled:x", "vscode-remote://h/a.p4?q=\"#f"];
/// 0..5 documents; then entries appended by the caller
const OPS: usize = URIS.len() + 2;

fn run(ops: &[usize], writes: usize, top: &std::path::Path, names: (usize, usize), r: &mut Report) -> Option<(String, String)> {
	let file_names = [None, Some("x"), Some("é b"), Some("a.b"), Some("P4Analysis")];
	let folders = [None, Some("out"), Some("o u/t"), Some("./out")];
	let base = top.join("cwd");
	std::fs::create_dir_all(base.join("out")).unwrap();
	std::fs::create_dir_all(base.join("o u/t")).unwrap();
	let (f, d) = (file_names[names.0], folders[names.1]);
	let cmd = LsifP4Cmd { header_files: PathBuf::from("."), workspace: None, filename: f.map(|f| f.into()), output: d.map(|d| if d.starts_with("./") { d.into() } else { base.join(d) }), version: false };
	let mut w = LsifWriter::new(Arc::new(cmd));
	let mut want: Vec<Value> = vec![];
	let mut ids: std::collections::HashSet<i64> = Default::default();
	let mut bad = None;
	let mut own = 1_000_000_000;
	for (k, op) in ops.iter().enumerate() {
		r.transitions += 1;
		if *op < URIS.len() {
			let u = Url::parse(URIS[*op]).unwrap();
			let id = match mck::catch(|| w.document(&u)) {
				Ok(id) => id as i64,
				Err(p) => return Some(("panic".into(), p)),
			};
			if !ids.insert(id) {
				bad = bad.or(Some(("id-repeated".into(), format!("id {id} returned by call {k} was used before"))))
			}
			want.push(serde_json::json!({"id": id, "type": "vertex", "label": "document", "uri": u.as_str()}));
		} else {
			own += 1;
			let e = if *op == URIS.len() {
				Entry { id: NumberOrString::Number(own), data: Element::Vertex(Vertex::Document(Document { uri: Url::parse(URIS[1]).unwrap(), language_id: "\n\"".into() })) }
			} else {
				Entry {
					id: NumberOrString::String(format!("s\n{own}")),
					data: Element::Edge(Edge::Hover(EdgeData { in_v: NumberOrString::Number(1), out_v: NumberOrString::Number(2) })),
				}
			};
			w.append_file(&e);
			want.push(serde_json::to_value(&e).unwrap());
		}
		if k < 60 && (writes >> k) & 1 == 1 {
			if let Err(p) = mck::catch(|| w.write_file_to_disk()) {
				return Some(("panic".into(), p));
			}
		}
	}
	if let Err(p) = mck::catch(|| w.write_file_to_disk()) {
		return Some(("panic".into(), p));
	}
	let place = match d {
		None => PathBuf::from("."),
		Some(d) if d.starts_with("./") => PathBuf::from(d),
		Some(d) => base.join(d),
	};
	let path = place.join(format!("{}.lsif", f.unwrap_or("P4Analysis")));
	let Ok(text) = std::fs::read_to_string(&path) else { return Some(("no-file".into(), format!("{path:?} was not written"))) };
	let _ = std::fs::remove_file(&path);
	if !text.is_empty() && !text.ends_with('\n') {
		bad = bad.or(Some(("line".into(), format!("{text:?}"))))
	}
	let lines: Vec<&str> = text.lines().collect();
	if lines.len() != want.len() {
		bad = bad.or(Some(("count".into(), format!("{} lines, {} elements: {:?}", lines.len(), want.len(), text.chars().take(400).collect::<String>()))))
	}
	let mut seen: std::collections::HashSet<String> = Default::default();
	for (l, e) in lines.iter().zip(&want) {
		let Ok(v) = serde_json::from_str::<Value>(l) else { return Some(("json".into(), format!("{l:?}"))) };
		if e["label"] == "document" && e.get("languageId").is_none() {
			// written by document(): the language's name is the writer's choice
			let lang = v["languageId"].as_str().map_or(false, |s| s.eq_ignore_ascii_case("p4"));
			let same = ["id", "type", "label", "uri"].iter().all(|k| v[*k] == e[*k]);
			if !lang || !same {
				bad = bad.or(Some(("document".into(), format!("{v}, due {e}"))))
			}
		} else if v != *e {
			bad = bad.or(Some(("element".into(), format!("{v}, due {e}"))))
		}
		if !seen.insert(v["id"].to_string()) {
			bad = bad.or(Some(("id-repeated".into(), format!("{} is the id of two elements", v["id"]))))
		}
	}
	bad
}

pub fn c31(a: &Args) -> Report {
	let top = PathBuf::from(format!("/tmp/verif-c31-{}", std::process::id()));
	std::fs::create_dir_all(top.join("cwd/out")).unwrap();
	let mut all = Report::new();
	let len = if a.thorough { 5 } else { 4 };
	let ops = mck::strings(&(0..OPS).collect::<Vec<_>>(), len);
	let nums = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
	let case = |o: &[usize], w: usize, n: (usize, usize)| format!("{} calls {:?}.., written after those of mask {w}, name {} folder {} run={};{w};{};{}", o.len(), &o[..o.len().min(10)], n.0, n.1, nums(o), n.0, n.1);
	let list: Vec<(Vec<usize>, usize, (usize, usize))> = match &a.replay {
		Some(c) => {
			let p: Vec<&str> = c.rsplit(" run=").next().unwrap().split(';').collect();
			vec![(p[0].split(',').filter_map(|x| x.parse().ok()).collect(), p[1].parse().unwrap(), (p[2].parse().unwrap(), p[3].parse().unwrap()))]
		}
		None => ops
			.iter()
			.flat_map(|o| {
				let names: Vec<(usize, usize)> = if o.len() < 3 { (0..5).flat_map(|x| (0..4).map(move |y| (x, y))).collect() } else { vec![(1, 1)] };
				(0..1 << o.len().min(2)).flat_map(move |w| names.clone().into_iter().map(move |n| (o.clone(), w, n)))
			})
			.collect(),
	};
	let mut list = list;
	if a.replay.is_none() {
		for n in [12, 60, 101, 130, 257, 300, 1025, 10_001, 66_000] {
			for unit in [&[0][..], &[0, 1, 2, 3, 4], &[0, OPS - 2], &[OPS - 1, 0, 0]] {
				list.push((unit.iter().cloned().cycle().take(n).collect(), if n <= 300 { 0x0123_4567_89ab_cdef } else { 0 }, (1, 1)))
			}
		}
		all.bounds.push("runs of up to 66000 elements".into());
	}
	// relative names are below the scratch folder
	std::env::set_current_dir(top.join("cwd")).unwrap();
	for (k, (o, w, n)) in list.iter().enumerate() {
		all.states += 1;
		all.traces += 1;
		all.distinct += (o.len() > 1) as u64;
		match run(o, *w, &top, *n, &mut all) {
			Some((s, d)) => all.violation(&s, case(o, *w, *n), d),
			None if k % 5000 == 77 => all.sample(case(o, *w, *n)),
			None => {}
		}
		all.outcome(&format!("{} elements", o.len()));
	}
	std::env::set_current_dir("/").unwrap();
	let _ = std::fs::remove_dir_all(&top);
	all.bounds.push(format!("all sequences of up to {len} of: document for each of {URIS:?}, a vertex and an edge of the caller; written in between or only at the end"));
	all.bounds.push("5 file names and 4 folders, given or default, for sequences of up to 2".into());
	all
}
