//! C30: the real native file system on every small directory tree over a pool of awkward names.
use analyzer_abstractions::lsp_types::Url;
use mck::{Args, Report};
use p4_analyzer::native_fs::native_fs::NativeFs;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

const FILES: [&[u8]; 22] = [
	b"a.p4", b"b.txt", b".p4", b"x.p4.bak", b"A.P4", "é#%25.p4".as_bytes(), b"[q].p4", b"*.p4", b"a b?.p4", b"xp4", b"l\n.p4", b"\xff.p4", b"p4", b"-.p4",
	b"\\.p4", b".h.p4", b"a:b.p4", b"\"q\".p4", b"b.p4", b"~.p4", b"%2e.p4", b"{a,b}.p4",
];
const DIRS: [&[u8]; 15] = [
	b"d", b"d.p4", b"[x]", b"*", "é b".as_bytes(), b".h", b"a%20b", b"{y}", b"\xfe", b"#", b"?", b"[", b"**", b"..d", b"\\",
];
/// Contents of the files, and whether they are text.
const TEXTS: [(&[u8], bool); 9] = [
	(b"x", true), (b"", true), (b"\xEF\xBB\xBFbom\r\n", true), ("é日😀\n".as_bytes(), true), (b"\xff", false), (b"a\xc3", false), (b"nul\0\n", true), (b"\xed\xa0\x80", false), (b"\xc0\x80", false),
];

fn name(b: &[u8]) -> OsString { OsString::from_vec(b.to_vec()) }
fn shown(p: &Path) -> String { String::from_utf8_lossy(p.as_os_str().as_bytes()).into_owned() }

/// A tree: paths of files (or of empty folders) below the root, as numbers into the pools; 99 in the last place is no file.
type Tree = (usize, Vec<Vec<usize>>);
fn path_of(v: &[usize]) -> PathBuf {
	let (f, d) = v.split_last().unwrap();
	let mut p: PathBuf = d.iter().map(|d| name(DIRS[*d])).collect();
	if *f < FILES.len() {
		p.push(name(FILES[*f]));
	}
	p
}

struct Rig {
	rt: tokio::runtime::Runtime,
	base: PathBuf,
}

fn is_source(p: &Path) -> bool { p.file_name().unwrap().as_bytes().ends_with(b".p4") }

fn check_tree(rig: &Rig, t: &Tree, slash: bool) -> Result<usize, (String, String)> {
	let root = rig.base.join(name(DIRS[t.0]));
	std::fs::create_dir(&root).expect("scratch");
	let res = (|| {
		let mut want: BTreeMap<PathBuf, (Vec<u8>, bool)> = BTreeMap::new();
		for (k, v) in t.1.iter().enumerate() {
			let p = root.join(path_of(v));
			if v.last() == Some(&99) {
				let _ = std::fs::create_dir_all(&p);
				continue;
			}
			std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
			let (text, ok) = TEXTS[(v.iter().sum::<usize>() + k) % TEXTS.len()];
			if std::fs::write(&p, text).is_err() {
				continue; // there is a folder of that name
			}
			if is_source(&p) {
				want.insert(p, (text.to_vec(), ok));
			}
		}
		let uri = if slash { Url::from_directory_path(&root) } else { Url::from_file_path(&root) }.expect("scratch path");
		let fs = NativeFs::new();
		let got = mck::catch(|| rig.rt.block_on(fs.enumerate_folder(uri.clone(), "**/*.p4".into()))).map_err(|p| (sig(&p), format!("listing {uri}: {p}")))?;
		let mut seen: BTreeMap<PathBuf, usize> = BTreeMap::new();
		for id in &got {
			let Ok(p) = id.uri.to_file_path() else { return Err(("uri".into(), format!("{} is not a file", id.uri))) };
			*seen.entry(p.clone()).or_insert(0) += 1;
			if p.is_dir() {
				return Err(("folder-listed".into(), format!("{} is a folder", shown(&p))));
			}
			if !want.contains_key(&p) {
				return Err(("stranger".into(), format!("{} is listed", shown(&p))));
			}
			let text = mck::catch(|| rig.rt.block_on(fs.file_contents(id.uri.clone()))).map_err(|e| (sig(&e), format!("reading {}: {e}", id.uri)))?;
			let (bytes, ok) = &want[&p];
			let due = ok.then(|| String::from_utf8(bytes.clone()).unwrap());
			if text != due {
				return Err(("contents".into(), format!("{}: {text:?}, is {:?}", id.uri, String::from_utf8_lossy(bytes))));
			}
		}
		if let Some(p) = want.keys().find(|p| !seen.contains_key(*p)) {
			return Err(("not-listed".into(), format!("{} is missing; listed {:?}", shown(p), seen.keys().map(|k| shown(k)).collect::<Vec<_>>())));
		}
		if let Some((p, n)) = seen.iter().find(|x| *x.1 > 1) {
			return Err(("twice".into(), format!("{} is listed {n} times", shown(p))));
		}
		Ok(want.len())
	})();
	std::fs::remove_dir_all(&root).expect("scratch");
	res
}
fn sig(p: &str) -> String {
	let loc = p.rsplit(" at ").next().unwrap_or("");
	format!("panic:{}", loc.rsplit_once(':').map_or(loc, |x| x.0).rsplit('/').next().unwrap_or(""))
}

/// URIs that are no readable local file, or folders that are not there; neither operation may panic.
fn odd(rig: &Rig, k: usize) -> Option<(String, String, String)> {
	let b = Url::from_directory_path(&rig.base).unwrap();
	let uris: Vec<(Url, Option<&str>)> = [
		"untitled:Untitled-1", "vscode-remote://host/ws/a.p4", "http://host/a.p4", "file://host/a.p4", "data:text/plain,x", "file:///", "mailto:a@b", "git:/a.p4?x", "file:///%FF/%00.p4", "file:///dev",
	]
	.iter()
	.map(|u| (Url::parse(u).unwrap(), None))
	.chain([(b.join("nothing/").unwrap(), None), (b.join("nothing.p4").unwrap(), None), (b.clone(), None), (b.join("plain.p4").unwrap(), Some("plain")), (b.join("plain.p4/x.p4").unwrap(), None)])
	.collect();
	let (u, text) = uris.get(k)?;
	let _ = std::fs::write(rig.base.join("plain.p4"), "plain");
	let fs = NativeFs::new();
	let case = format!("uri {u} items=[{k}]");
	let mut bad = None;
	match mck::catch(|| rig.rt.block_on(fs.file_contents(u.clone()))) {
		Err(p) => bad = Some((sig(&p), p)),
		Ok(t) if t.as_deref() != *text => bad = Some(("contents".into(), format!("{t:?}"))),
		_ => {}
	}
	// the whole disk and the scratch folder are not listed
	if u.path() != "/" && *u != b && u.path() != "/dev" {
		match mck::catch(|| rig.rt.block_on(fs.enumerate_folder(u.clone(), "**/*.p4".into()))) {
			Err(p) => bad = bad.or(Some((sig(&p), p))),
			Ok(v) if !v.is_empty() => bad = bad.or(Some(("stranger".into(), format!("{v:?}")))),
			_ => {}
		}
	}
	let _ = std::fs::remove_file(rig.base.join("plain.p4"));
	Some(match bad {
		Some((s, d)) => (case, s, d),
		None => (case, String::new(), String::new()),
	})
}
/// Symbolic links to a folder above: every real file is listed and the listing ends.
fn looped(rig: &Rig) -> Option<(String, String)> {
	let root = rig.base.join("loop");
	std::fs::create_dir_all(root.join("d")).unwrap();
	std::fs::write(root.join("d/a.p4"), "x").unwrap();
	std::os::unix::fs::symlink(&root, root.join("d/up")).unwrap();
	std::os::unix::fs::symlink(root.join("d"), root.join("d/self")).unwrap();
	let u = Url::from_directory_path(&root).unwrap();
	let (tx, rx) = std::sync::mpsc::channel();
	std::thread::spawn(move || {
		let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
		let _ = tx.send(mck::catch(|| rt.block_on(NativeFs::new().enumerate_folder(u, "**/*.p4".into()))));
	});
	let got = rx.recv_timeout(std::time::Duration::from_secs(60));
	let _ = std::fs::remove_dir_all(&root);
	match got {
		Err(_) => Some(("endless".into(), "the listing had not ended after a minute".into())),
		Ok(Err(p)) => Some((sig(&p), p)),
		Ok(Ok(v)) if !v.iter().any(|i| i.uri.path().ends_with("/loop/d/a.p4")) => Some(("not-listed".into(), format!("{v:?}"))),
		_ => None,
	}
}

/// Deep, wide and large: every file is listed once and read as it is.
fn sized(rig: &Rig, k: usize) -> Option<(String, Option<(String, String)>)> {
	let mut files: Vec<(PathBuf, Vec<u8>)> = vec![];
	let text = |i: usize| format!("t{i}é\n").into_bytes();
	let what = match k {
		0..=5 => {
			let n = [5, 10, 17, 33, 65, 130][k];
			let mut d = PathBuf::new();
			for i in 0..n {
				d.push("d");
				files.push((d.join("a.p4"), text(i)))
			}
			format!("{n} folders inside each other")
		}
		6..=9 => {
			let n = [65, 257, 1001, 1030][k - 6];
			files = (0..n).map(|i| (PathBuf::from(format!("f{i}.p4")), text(i))).collect();
			format!("{n} files in a folder")
		}
		10..=12 => {
			let n = [65, 257, 300][k - 10];
			files = (0..n).map(|i| (PathBuf::from(format!("d{i}/a.p4")), text(i))).collect();
			format!("{n} folders in a folder")
		}
		13..=22 => {
			let n = [4095, 4097, 8192, 65_535, 65_537, 100_000, 262_145, 1_000_003, 1_048_577, 5_000_000][k - 13];
			let mut t = "é".repeat(n / 2).into_bytes();
			t.resize(n, b'x');
			files.push(("big.p4".into(), t));
			format!("a file of {n} bytes")
		}
		23..=25 => {
			let n = [100, 200, 251][k - 23];
			files.push((PathBuf::from(format!("{}.p4", "n".repeat(n))), text(0)));
			files.push((PathBuf::from("m".repeat(n)).join(format!("{}.p4", "é".repeat(n / 2))), text(1)));
			format!("names of {n} bytes")
		}
		_ => return None,
	};
	let root = rig.base.join("sized");
	for (p, t) in &files {
		std::fs::create_dir_all(root.join(p).parent().unwrap()).expect("scratch");
		std::fs::write(root.join(p), t).expect("scratch");
	}
	let u = Url::from_directory_path(&root).unwrap();
	let got = mck::catch(|| {
		let fs = NativeFs::new();
		let l = rig.rt.block_on(fs.enumerate_folder(u, "**/*.p4".into()));
		l.into_iter().map(|id| (id.uri.to_file_path().unwrap_or_default(), rig.rt.block_on(fs.file_contents(id.uri)))).collect::<Vec<_>>()
	});
	let _ = std::fs::remove_dir_all(&root);
	let case = format!("{what} sized=[{k}]");
	let bad = match got {
		Err(p) => Some((sig(&p), p)),
		Ok(v) => {
			let mut got: Vec<&PathBuf> = v.iter().map(|x| &x.0).collect();
			got.sort();
			let mut want: Vec<PathBuf> = files.iter().map(|f| root.join(&f.0)).collect();
			want.sort();
			if got.iter().map(|p| &**p).ne(want.iter()) {
				Some(("not-listed".into(), format!("{} files listed, {} there", got.len(), want.len())))
			} else {
				v.iter()
					.find(|(p, t)| {
						let f = files.iter().find(|f| root.join(&f.0) == **p).unwrap();
						t.as_ref().map(|t| t.as_bytes()) != Some(&f.1)
					})
					.map(|(p, t)| ("contents".into(), format!("{}: {:?} bytes", shown(p), t.as_ref().map(|t| t.len()))))
			}
		}
	};
	Some((case, bad))
}

pub fn c30(a: &Args) -> Report {
	static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
	let top = PathBuf::from(format!("/tmp/verif-c30-{}", std::process::id()));
	let shm = PathBuf::from(format!("/dev/shm/verif-c30-{}", std::process::id()));
	let top = if std::fs::create_dir_all(&shm).is_ok() { shm } else { top };
	let rig = || {
		let base = top.join(N.fetch_add(1, std::sync::atomic::Ordering::Relaxed).to_string());
		std::fs::create_dir_all(&base).expect("scratch");
		Rig { rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(), base }
	};
	let case_of = |t: &Tree, slash: bool| {
		let paths: Vec<String> = t.1.iter().map(|v| shown(&path_of(v)) + if v.last() == Some(&99) { "/" } else { "" }).collect();
		let nums: Vec<String> = t.1.iter().map(|v| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")).collect();
		format!("folder {:?} with {paths:?}, uri {} tree={}:{}:{}", shown(Path::new(&name(DIRS[t.0]))), if slash { "with /" } else { "without /" }, t.0, nums.join(","), slash as u8)
	};
	let one = |rig: &Rig, t: &Tree, r: &mut Report| {
		for slash in [true, false] {
			r.states += 1;
			r.traces += 1;
			r.transitions += 1 + t.1.len() as u64;
			match check_tree(rig, t, slash) {
				Ok(n) => {
					r.outcome(&format!("{n} source files"));
					r.distinct += (n > 0) as u64;
					if r.samples.len() < 2 && t.1.len() == 2 {
						r.sample(case_of(t, slash))
					}
				}
				Err((s, d)) => r.violation(&s, case_of(t, slash), d),
			}
		}
	};
	let mut all = Report::new();
	if let Some(c) = &a.replay {
		let g = rig();
		if let Some(t) = c.rsplit(" tree=").next().filter(|_| c.contains(" tree=")) {
			let p: Vec<&str> = t.split(':').collect();
			let v = p[1].split(',').filter(|s| !s.is_empty()).map(|s| s.split('.').map(|x| x.parse().unwrap()).collect()).collect();
			one(&g, &(p[0].parse().unwrap(), v), &mut all);
		} else if c.starts_with("uri ") {
			let k = c.rsplit("items=[").next().unwrap().trim_end_matches(']').parse().unwrap();
			if let Some((case, s, d)) = odd(&g, k).filter(|o| !o.1.is_empty()) {
				all.violation(&s, case, d)
			}
			all.traces = 1;
		} else if let Some(k) = c.split_once(" sized=[").map(|x| x.1.trim_end_matches(']').parse().unwrap()) {
			if let Some((case, Some((s, d)))) = sized(&g, k) {
				all.violation(&s, case, d)
			}
			all.traces = 1;
		} else if let Some((s, d)) = looped(&g) {
			all.violation(&s, c, d)
		}
	} else {
		let depth = |n: usize, dirs: usize, files: usize| -> Vec<Vec<usize>> {
			mck::strings(&(0..dirs).collect::<Vec<_>>(), n)
				.into_iter()
				.flat_map(|d| (0..files).chain([99]).map(move |f| d.iter().copied().chain([f]).collect()))
				.collect()
		};
		// one path of every kind below folders of every kind; then two and three paths over smaller pools
		let ones = depth(if a.thorough { 3 } else { 2 }, DIRS.len(), FILES.len());
		let (d2, f2) = if a.thorough { (8, 14) } else { (4, 9) };
		let some = depth(2, d2, f2);
		let few = depth(1, 3, 4);
		let mut trees: Vec<Tree> = vec![];
		for r in 0..DIRS.len() {
			for p in &ones {
				if p.len() < 3 || r < 6 {
					trees.push((r, vec![p.clone()]))
				}
			}
		}
		for (i, p) in some.iter().enumerate() {
			for q in &some[i + 1..] {
				trees.push((0, vec![p.clone(), q.clone()]))
			}
		}
		for p in &few {
			for q in &few {
				for s in &few {
					trees.push((2, vec![p.clone(), q.clone(), s.clone()]))
				}
			}
		}
		let chunks: Vec<&[Tree]> = trees.chunks(64).collect();
		struct Show<'a>(&'a [Tree]);
		impl std::fmt::Debug for Show<'_> {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "trees {:?}..", self.0[0]) }
		}
		let items: Vec<Show> = chunks.into_iter().map(Show).collect();
		all.merge(mck::par(&items, |c, r| {
			let g = rig();
			for t in c.0 {
				one(&g, t, r)
			}
			let _ = std::fs::remove_dir_all(&g.base);
		}));
		let g = rig();
		for k in 0.. {
			let Some((case, s, d)) = odd(&g, k) else { break };
			all.states += 1;
			all.traces += 1;
			all.transitions += 2;
			if !s.is_empty() {
				all.violation(&s, case, d)
			}
		}
		for k in 0.. {
			let Some((case, bad)) = sized(&g, k) else { break };
			all.states += 1;
			all.traces += 1;
			all.transitions += 2;
			all.distinct += 1;
			if let Some((s, d)) = bad {
				all.violation(&s, case, d)
			}
		}
		all.bounds.push("up to 130 folders inside each other, 1030 files or 300 folders in one, files of up to 5000000 bytes, names of up to 254 bytes".into());
		all.states += 1;
		all.traces += 1;
		if let Some((s, d)) = looped(&g) {
			all.violation(&s, "a folder with symbolic links to itself", d)
		}
		let lossy = |v: &[&[u8]]| v.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect::<Vec<_>>();
		all.bounds.push(format!("a folder named {:?} with one path of up to {} folders of that pool and a file of {:?} or none", lossy(&DIRS), if a.thorough { 3 } else { 2 }, lossy(&FILES)));
		all.bounds.push(format!("two paths over the first {d2} folder and {f2} file names, three paths over 3 and 4; {} contents; folder URI with and without the final /", TEXTS.len()));
		all.bounds.push("15 URIs that are not local, not there or not files; a folder with symbolic links to itself".into());
	}
	let _ = std::fs::remove_dir_all(&top);
	all
}
