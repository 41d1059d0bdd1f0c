"""Groups (how a shadow workspace is made) and checks (which group decides which property)."""


def make_core_lite(ws, d):
    c = f"{ws}/crates/analyzer-core"
    d.put(f"{c}/Cargo.toml", d.manifest("analyzer-core", drop=("salsa",)))
    d.links(f"{d.REPO}/crates/analyzer-core/src", f"{c}/src")
    d.put(f"{c}/src/lib.rs", d.mods("analyzer-core", ["lsp_file", "parser"]))
    return ["crates/analyzer-core"]


SERDE = "{ version = \"1.0.143\", features = [\"derive\"] }"


def make_rpc(ws, d):
    c = f"{ws}/crates/analyzer-host"
    d.put(f"{c}/Cargo.toml", d.manifest("analyzer-host", drop=("analyzer-abstractions", "analyzer-core"), replace={"serde": SERDE}))
    d.links(f"{d.REPO}/crates/analyzer-host/src", f"{c}/src")
    d.put(f"{c}/src/lib.rs", d.mods("analyzer-host", ["json_rpc"]))
    return ["crates/analyzer-host"]


def make_sync(ws, d):
    a = f"{ws}/crates/analyzer-abstractions"
    cont = {"event-listener": d.shim("event-listener", "v-event-listener"), "async-channel": d.shim("async-channel", "v-async-channel"),
            "cancellation": d.shim("cancellation", "v-cancellation"), "async-std": d.shim("async-std", "v-async-std"),
            "tokio": d.shim("tokio", "v-tokio", ', features = ["full"]'), "serde": SERDE}
    vstd = f"vstd = {d.shim('vstd')}\n"
    d.put(f"{a}/Cargo.toml", d.manifest("analyzer-abstractions", replace=cont, extra=vstd))
    d.links(f"{d.REPO}/crates/analyzer-abstractions/src", f"{a}/src")
    d.put(f"{a}/src/lib.rs", d.root("analyzer-abstractions", "#[macro_use]\nextern crate vstd as std;\n", drop=("tests",)))
    h = f"{ws}/crates/analyzer-host"
    d.put(f"{h}/Cargo.toml", d.manifest("analyzer-host", drop=("analyzer-abstractions", "analyzer-core"), replace=cont))
    d.links(f"{d.REPO}/crates/analyzer-host/src", f"{h}/src")
    d.put(f"{h}/src/lib.rs", d.mods("analyzer-host", ["json_rpc"])
          + "use json_rpc::message::Message;\npub type MessageChannel = (async_channel::Sender<Message>, async_channel::Receiver<Message>);\n")
    p = f"{ws}/crates/p4-analyzer"
    d.put(f"{p}/Cargo.toml", d.manifest("p4-analyzer", drop=("analyzer-abstractions", "xflags", "async-thread", "ctrlc", "tracing-appender", "glob"),
                                        replace=cont, extra=vstd))
    d.links(f"{d.REPO}/crates/p4-analyzer/src", f"{p}/src", skip=("lib.rs", "main.rs"))
    d.put(f"{p}/src/lib.rs", "#[macro_use]\nextern crate vstd as std;\n" + d.mods("p4-analyzer", ["driver"]))
    return ["crates/analyzer-abstractions", "crates/analyzer-host", "crates/p4-analyzer"]


QUIET = "macro_rules! dbg { ($e:expr $(,)?) => { $e } }\n"


def make_lang(ws, d):
    c = f"{ws}/crates/analyzer-core"
    d.put(f"{c}/Cargo.toml", d.manifest("analyzer-core", replace={"salsa": d.shim("salsa", "v-salsa")}))
    d.links(f"{d.REPO}/crates/analyzer-core/src", f"{c}/src")
    d.put(f"{c}/src/lib.rs", d.root("analyzer-core", QUIET))
    return ["crates/analyzer-core"]


# thread-locals that the harness can reset, so that executions need no thread each (the harness verifies that it works)
LOCALS = '''
macro_rules! thread_local {
	() => {};
	($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const { $e:expr } $(; $($rest:tt)*)?) => {
		thread_local!($(#[$a])* $v static $n: $t = $e);
		$(thread_local!($($rest)*);)?
	};
	($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr $(; $($rest:tt)*)?) => {
		$v static $n: $crate::vlocal::Key<$t> = { fn init() -> $t { $e } $crate::vlocal::Key(init) };
		$(thread_local!($($rest)*);)?
	};
}
pub mod vlocal {
	use std::{any::Any, cell::{Cell, RefCell}, collections::HashMap, rc::Rc};
	std::thread_local!(static ALL: RefCell<HashMap<usize, Rc<dyn Any>>> = RefCell::new(HashMap::new()));
	pub fn reset() { drop(ALL.with(|m| std::mem::take(&mut *m.borrow_mut()))) }
	pub struct Key<T: 'static>(pub fn() -> T);
	impl<T: 'static> Key<T> {
		pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
			let k = self as *const _ as *const u8 as usize;
			let old = ALL.with(|m| m.borrow().get(&k).cloned());
			let v = match old {
				Some(v) => v,
				None => {
					let v: Rc<dyn Any> = Rc::new((self.0)());
					ALL.with(|m| m.borrow_mut().insert(k, v.clone()));
					v
				}
			};
			f(v.downcast_ref::<T>().unwrap())
		}
	}
	impl<T: 'static> Key<RefCell<T>> {
		pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R { self.with(|c| f(&c.borrow())) }
		pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R { self.with(|c| f(&mut c.borrow_mut())) }
		pub fn set(&'static self, v: T) { self.with(|c| { c.replace(v); }) }
		pub fn replace(&'static self, v: T) -> T { self.with(|c| c.replace(v)) }
		pub fn take(&'static self) -> T where T: Default { self.with(|c| c.take()) }
	}
	impl<T: 'static> Key<Cell<T>> {
		pub fn set(&'static self, v: T) { self.with(|c| c.set(v)) }
		pub fn get(&'static self) -> T where T: Copy { self.with(|c| c.get()) }
	}
}
'''


def make_host(ws, d):
    a = f"{ws}/crates/analyzer-abstractions"
    d.put(f"{a}/Cargo.toml", d.manifest("analyzer-abstractions", replace={"serde": SERDE}))
    d.links(f"{d.REPO}/crates/analyzer-abstractions/src", f"{a}/src")
    d.put(f"{a}/src/lib.rs", d.root("analyzer-abstractions", LOCALS, drop=("tests",)))
    make_lang(ws, d)
    h = f"{ws}/crates/analyzer-host"
    d.put(f"{h}/Cargo.toml", d.manifest("analyzer-host", replace={"serde": SERDE}))
    d.links(f"{d.REPO}/crates/analyzer-host/src", f"{h}/src", skip=())
    return ["crates/analyzer-abstractions", "crates/analyzer-core", "crates/analyzer-host"]


def make_index(ws, d):
    a = f"{ws}/crates/analyzer-abstractions"
    d.put(f"{a}/Cargo.toml", d.manifest("analyzer-abstractions", replace={"serde": SERDE}))
    d.links(f"{d.REPO}/crates/analyzer-abstractions/src", f"{a}/src")
    d.put(f"{a}/src/lib.rs", d.root("analyzer-abstractions", drop=("tests",)))
    p = f"{ws}/crates/p4-analyzer"
    d.put(f"{p}/Cargo.toml", d.manifest("p4-analyzer", drop=("analyzer-host", "xflags", "async-thread", "ctrlc", "tracing-appender"),
                                        replace={"glob": d.shim("glob"), "serde": SERDE}))
    d.links(f"{d.REPO}/crates/p4-analyzer/src", f"{p}/src", skip=("lib.rs", "main.rs"))
    d.put(f"{p}/src/lib.rs", d.mods("p4-analyzer", ["native_fs"]))
    w = f"{ws}/crates/lsif-p4"
    d.put(f"{w}/Cargo.toml", d.manifest("lsif-p4", drop=("analyzer-host", "p4-analyzer"),
                                        replace={"lsp-types": '"0.93.2"', "serde": SERDE, "xflags": d.shim("xflags")}))
    d.links(f"{d.REPO}/crates/lsif-p4/src", f"{w}/src", skip=("main.rs",))
    d.put(f"{w}/src/lib.rs", "pub mod flags;\npub mod lsif_writer;\n")
    return ["crates/analyzer-abstractions", "crates/p4-analyzer", "crates/lsif-p4"]


def make_server(ws, d):
    """Everything of the console server and of the LSIF generator but for their main functions, under the controlled scheduler."""
    cont = {"event-listener": d.shim("event-listener", "v-event-listener"), "async-channel": d.shim("async-channel", "v-async-channel"),
            "cancellation": d.shim("cancellation", "v-cancellation"), "async-std": d.shim("async-std", "v-async-std"),
            "tokio": d.shim("tokio", "v-tokio", ', features = ["full"]'), "serde": SERDE, "glob": d.shim("glob"),
            "xflags": d.shim("xflags"), "lsp-types": '"0.93.2"'}
    vstd = f"vstd = {d.shim('vstd')}\n"
    pre = "#[macro_use]\nextern crate vstd as std;\n"
    a = f"{ws}/crates/analyzer-abstractions"
    d.put(f"{a}/Cargo.toml", d.manifest("analyzer-abstractions", replace=dict(cont), extra=vstd))
    d.links(f"{d.REPO}/crates/analyzer-abstractions/src", f"{a}/src")
    d.put(f"{a}/src/lib.rs", d.root("analyzer-abstractions", pre, drop=("tests",)))
    make_lang(ws, d)
    h = f"{ws}/crates/analyzer-host"
    d.put(f"{h}/Cargo.toml", d.manifest("analyzer-host", replace=cont, extra=vstd))
    d.links(f"{d.REPO}/crates/analyzer-host/src", f"{h}/src")
    d.put(f"{h}/src/lib.rs", d.root("analyzer-host", pre, drop=("tests",)))
    p = f"{ws}/crates/p4-analyzer"
    d.put(f"{p}/Cargo.toml", d.manifest("p4-analyzer", drop=("async-thread", "ctrlc", "tracing-appender"), replace=cont, extra=vstd))
    d.links(f"{d.REPO}/crates/p4-analyzer/src", f"{p}/src", skip=("lib.rs", "main.rs"))
    d.put(f"{p}/src/lib.rs", pre + """
mod cli;
pub mod driver;
pub mod native_fs;
mod commands;
use commands::{Command, CommandInvocationError};
/// What main() does with the `server` command, but for the command line, the log file and the Ctrl-C handler.
pub async fn verif_server(
	token: std::sync::Arc<cancellation::CancellationToken>,
	subscribe: impl FnOnce(analyzer_host::tracing::tracing_subscriber::layer::Layered<Vec<Layer>, analyzer_host::tracing::tracing_subscriber::Registry>),
) -> bool {
	use analyzer_host::tracing::tracing_subscriber::prelude::__tracing_subscriber_SubscriberExt;
	let cmd = commands::lsp_server::LspServerCommand::new(cli::flags::Server { stdio: true }, driver::DriverType::Console);
	let layers = cmd.logging_layers::<analyzer_host::tracing::tracing_subscriber::Registry>();
	subscribe(analyzer_host::tracing::tracing_subscriber::Registry::default().with(layers));
	cmd.run(token).await.is_ok()
}
type Layer = Box<dyn analyzer_host::tracing::tracing_subscriber::Layer<analyzer_host::tracing::tracing_subscriber::Registry> + Send + Sync + 'static>;
""")
    w = f"{ws}/crates/lsif-p4"
    d.put(f"{w}/Cargo.toml", d.manifest("lsif-p4", replace=cont, extra=vstd))
    d.links(f"{d.REPO}/crates/lsif-p4/src", f"{w}/src", skip=("main.rs",))
    d.put(f"{w}/src/lib.rs", pre + "macro_rules! println { ($($t:tt)*) => { { let _ = format_args!($($t)*); } } }\n"
          "pub mod flags;\npub mod lsif_generator;\npub mod lsif_writer;\n")
    return ["crates/analyzer-abstractions", "crates/analyzer-core", "crates/analyzer-host", "crates/p4-analyzer", "crates/lsif-p4"]


def run_node(prop, tier, case, d):
    """C32: no build; the harness compiles the adapter's TypeScript itself. Eight processes share the cases."""
    import json, os, shutil, subprocess
    node = shutil.which("node") or "/usr/bin/node"
    run = os.path.join(d.BUILD, "node", "run")
    os.makedirs(run, exist_ok=True)
    shards = 1 if case is not None else 8
    procs = []
    for k in range(shards):
        out = f"{run}/{prop}-{k}.json"
        if os.path.exists(out):
            os.unlink(out)
        cmd = [node, f"{d.VERIF}/harness/node/harness.js", d.REPO, tier, str(k), str(shards), out] + ([case] if case is not None else [])
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f"{run}/{prop}-{k}.err", "w"), cwd=run)))
    limit = 840 if tier == "quick" else 6 * 3600
    reps = []
    try:
        for out, p in procs:
            try:
                p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                raise d.Undecided(f"exploration did not finish in {limit} s")
            if p.returncode or not os.path.exists(out):
                print(open(out[:-5] + ".err", errors="replace").read()[-2000:])
                raise d.Undecided(f"the harness ended with {p.returncode}")
            reps.append(json.load(open(out)))
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
    tot = reps[0]
    sigs = {v["sig"]: v for v in tot["violations"]}
    for r in reps[1:]:
        for k in ("states", "transitions", "traces", "evaluations", "distinct"):
            tot[k] += r[k]
        for k, n in r["outcomes"].items():
            tot["outcomes"][k] = tot["outcomes"].get(k, 0) + n
        tot["samples"] += r["samples"]
        for v in r["violations"]:
            o = sigs.setdefault(v["sig"], v)
            if o is not v:
                o["count"] += v["count"]
                if len(v["case"]) < len(o["case"]):
                    o["case"], o["detail"] = v["case"], v["detail"]
    tot["violations"] = list(sigs.values())
    return tot, 0.0


GROUPS = {
    "node": {"run": run_node},
    "index": {"make": make_index},
    "server": {"make": make_server},
    "host": {"make": make_host, "env": {"RUSTFLAGS": "-Awarnings --cfg verif"}},
    "lang": {"make": make_lang},
    "sync": {"make": make_sync},
    "rpc": {"make": make_rpc},
    "core_lite": {"make": make_core_lite},
}

A_REAL = "the code under test is /repo's current source, compiled by the pinned toolchain (opt-level 1, overflow checks on)"

A_SALSA = ("salsa is replaced by a stand-in with its documented semantics (memoized queries, transitive accumulators, inputs with setters); "
           "defects of salsa itself are not visible")

EDIT_RULE = ("a case is a text, a list of edit events and the live document object they are applied to; texts, ranges and "
             "replacements are enumerated without omission within the bounds listed; non-trivial: the first edit is not an empty "
             "replacement of an empty range")

SCHED_RULE = ("a case is a small multi-threaded program and one complete schedule of it, chosen at every visible operation (locks, atomics, "
              "channels, events, polls, wake-ups); non-trivial: the schedule has at least one preemption")
SCHED_TECH = "stateless exploration of all thread interleavings of the real code up to a preemption bound under a controlled scheduler"
A_SCHED = ["interleavings are sequentially consistent: reorderings by weak memory are not explored",
           "the standard library's, event-listener's and async-channel's operations are atomic at the granularity of one call",
           "more threads, operations or preemptions than the bounds listed behave like those inside"]

A_RUNTIME = "the JavaScript runtime, the TypeScript compiler and the file system behave as documented"

CHECKS = {
    "C01": {"groups": ["core_lite"], "rule": EDIT_RULE,
            "technique": "exhaustive enumeration of edit histories on the real document store, judged step by step against a reference editor",
            "note": "Every edit history within the bounds is executed on the real LspFile. The oracle is an independent editor written from the LSP "
                    "definition of positions; two documented deviations (CR, UTF-16 columns) are recognised exactly and listed as known findings.",
            "assumptions": [A_REAL, "texts outside the alphabet and longer than the bounds behave like those inside"]},
    "C02": {"groups": ["core_lite"], "rule": EDIT_RULE,
            "technique": "exhaustive enumeration of edit histories; incremental state compared with a freshly built one after every step",
            "note": "Differential: every observable of the edited document equals that of a new document with the same text, and the table equals one "
                    "computed by an independent scan of the text.",
            "assumptions": [A_REAL, "texts outside the alphabet and longer than the bounds behave like those inside"]},
    "C03": {"groups": ["core_lite"], "rule": "a case is a text; every offset to three past its end and every position of the grid is converted; non-trivial: "
            "the text is longer than one byte",
            "technique": "exhaustive enumeration of texts, offsets and positions on the real conversions against a reference",
            "note": "All conversions of all texts in the bounds, against a reference written from the LSP definition.",
            "assumptions": [A_REAL, "texts outside the alphabet and longer than the bounds behave like those inside"]},
    "C04": {"groups": ["core_lite"], "rule": "a case is a grammar, a text, whether it was parsed first, and a list of edits each followed by a parse or not; "
            "non-trivial: the memo table was populated before the first edit",
            "technique": "exhaustive enumeration of grammars x texts x edit/parse histories on the real parser against a memo-less interpreter",
            "note": "Every history in the bounds runs on the real parser; after the last edit its tree must equal that of a reference interpreter "
                    "without memoization on the current text.",
            "assumptions": [A_REAL, "grammars outside the families behave like those inside"]},
    "C05": {"groups": ["core_lite"], "rule": "a case is a grammar and an input; non-trivial: the input is in the grammar's language",
            "technique": "exhaustive enumeration of grammars and inputs on the real parser against a reference PEG interpreter",
            "note": "All grammars of the families, all inputs up to a length; trees compared node by node; every single rule removed to test validation.",
            "assumptions": [A_REAL, "left recursion and repetition of empty-matching rules are outside the statement"]},
    "C06": {"groups": ["rpc"], "rule": "a case is a sequence of messages, a header layout and a set of cut points of the stream (or a message and a writer "
            "behaviour); non-trivial: one per sequence and layout, each read under many fragmentations",
            "technique": "exhaustive enumeration of message sequences and stream fragmentations through the real reader and writer",
            "note": "All cut sets within the bounds are delivered by a controlled BufRead; results, byte positions and raw written frames are judged by an "
                    "independent frame parser.",
            "assumptions": [A_REAL, "serde_json's Value parser (used by the oracle for bodies) is right"]},
    "C07": {"groups": ["rpc"], "rule": "a case is a byte stream derived from a valid one by truncation, mutation or I/O failure, or built from pools of bad lengths, "
            "header lines and bodies; non-trivial: every mutated stream",
            "technique": "exhaustive fault enumeration (every truncation, every byte mutation, every I/O error point) on the real reader against a reference frame parser",
            "note": "Every corruption in the bounds is read by the real code; allocations above 1 GB are refused by the harness so that trusting a length field shows as a panic.",
            "assumptions": [A_REAL, "streams with two or signed lengths, and members of the wrong JSON type, are outside the statement"]},
    "C08": {"groups": ["rpc"], "rule": "a case is a JSON object (presence and value of every member, member order) or the arguments of a constructor; non-trivial: "
            "the object has an id or a method",
            "technique": "exhaustive enumeration of member combinations through the real reader and writer against the JSON-RPC rules",
            "note": "Full cross product of member presence and values; every constructor over the value pool; written text compared with the object the protocol prescribes.",
            "assumptions": [A_REAL, "ids outside string/int32 and members of the wrong JSON type are outside the statement"]},
    "C09": {"groups": ["sync"], "rule": SCHED_RULE, "technique": SCHED_TECH,
            "note": "Setters, waiters and observers on the real FutureCompletionSource; every lock, atomic, event and wake-up is a scheduling point.",
            "assumptions": [A_REAL] + A_SCHED},
    "C10": {"groups": ["sync"], "rule": SCHED_RULE, "technique": SCHED_TECH,
            "note": "The real AsyncPool with self-waking, externally woken, spawning and stopping tasks against wakers and cancellers on other threads.",
            "assumptions": [A_REAL] + A_SCHED},
    "C28": {"groups": ["sync"], "rule": SCHED_RULE, "technique": SCHED_TECH,
            "note": "The real BufferStruct driven by a test thread, a reader and a writer; the sequences of test operations are enumerated too.",
            "assumptions": [A_REAL] + A_SCHED},
    "C29": {"groups": ["sync"], "rule": SCHED_RULE, "technique": SCHED_TECH,
            "note": "The real Driver over scripted console input/output and over the buffer driver, with a scripted server and canceller.",
            "assumptions": [A_REAL] + A_SCHED},
    "C22": {"groups": ["lang"], "rule": "a case is a text; non-trivial: longer than one byte",
            "technique": "exhaustive enumeration of texts over an alphabet of lexical fragments on the real lexer, token spans checked against the text",
            "note": "Every text in the bounds is lexed by the real code; spans, error tokens and reported ranges are judged from the text alone.",
            "assumptions": [A_REAL, A_SALSA, "longer texts and other fragments behave like those inside the bounds"]},
    "C23": {"groups": ["lang"], "rule": "a case is a text (also: a literal alone and followed by something); non-trivial: longer than one byte",
            "technique": "exhaustive enumeration of texts and integer literals on the real lexer against a reference tokenizer",
            "note": "A hand-written maximal-munch tokenizer gives kind, text and integer value of every token; the real lexer must agree token by token.",
            "assumptions": [A_REAL, A_SALSA, "longer texts and other fragments behave like those inside the bounds"]},
    "C24": {"groups": ["lang"], "rule": "a case is a sequence of directives with a text before and after each; non-trivial: it contains if, elif, else or endif",
            "technique": "exhaustive enumeration of directive sequences on the real preprocessor against a reference stack machine",
            "note": "Selected texts and reported lines are compared with a stack machine written from the C rules.",
            "assumptions": [A_REAL, A_SALSA, "longer sequences behave like those inside the bounds"]},
    "C25": {"groups": ["lang"], "rule": "a case is an expression and a list of macro definitions; non-trivial: the expression has an operator",
            "technique": "exhaustive enumeration of expressions and macro environments on the real evaluator against a reference evaluator",
            "note": "Values come from a textual macro expander and a precedence climber written from the C rules; each value is asked for by three conditions.",
            "assumptions": [A_REAL, A_SALSA, "larger expressions behave like those inside the bounds",
                            "left open: what C leaves undefined (negative shifts of negative values), literals that do not fit 64 bits inside unevaluated operands"]},
    "C26": {"groups": ["lang"], "rule": "a case is the contents of three files, a style and an order of making them known; non-trivial: some file includes one",
            "technique": "exhaustive enumeration of include graphs and file contents on the real preprocessor against a recursive reference expander",
            "note": "Output tokens with their origin, reports, requests and dependencies are compared with those of the reference after every file made known.",
            "assumptions": [A_REAL, A_SALSA, "more files or longer files behave like those inside the bounds",
                            "conditionals that begin in one file and end in another are outside the statement"]},
    "C27": {"groups": ["lang"], "rule": "a case is a sequence of updates, edits, deletes and questions over three files; non-trivial: it has something else than updates",
            "technique": "exhaustive enumeration of operation histories; the analysis afterwards compared with that of a new analyzer with the same texts",
            "note": "Differential: listing, text, line table, tokens, preprocessed output, diagnostics and dependencies of every file after every history in the bounds.",
            "assumptions": [A_REAL, A_SALSA, "longer histories behave like those inside the bounds"]},
}

HOST_NOTE = " The language server is the real AnalyzerHost with its dispatcher, task pool and analyzer; client, file system and executor belong to the harness."
HOST_CASE = "a case is a sequence of client messages, file system answers and client replies, each delivered when the server has come to rest or while it is waiting; "
A_HOST = [A_REAL, A_SALSA, "more messages, documents or folders than the bounds listed behave like those inside",
          "the host is one task on one thread, as in the console and WebAssembly front ends; threads of the executor are covered by C09 and C10"]
CHECKS.update({
    "C11": {"groups": ["host"], "rule": HOST_CASE + "non-trivial: it contains an initialize request",
            "technique": "exhaustive enumeration of message sequences on the real server, every answer compared with a reference state machine of the lifecycle",
            "note": "All sequences up to the depth over the lifecycle messages, valid and invalid." + HOST_NOTE, "assumptions": A_HOST},
    "C12": {"groups": ["host"], "rule": HOST_CASE + "non-trivial: it has a request that is served",
            "technique": "exhaustive enumeration of message sequences on the real server, responses counted and classified",
            "note": "Every registered and unknown method with valid, invalid and missing parameters in every phase." + HOST_NOTE, "assumptions": A_HOST},
    "C13": {"groups": ["host"], "rule": "a case is a schedule of requests by clones of the request manager, polls, replies (any order, unknown, repeated, errors, wrong shapes) and drops; "
            "non-trivial: two requests are outstanding at once",
            "technique": "exhaustive enumeration of schedules of requests and replies on the real request manager against a reference table",
            "note": "Ids, delivered results and wake-ups are compared with a table of outstanding requests after every step.", "assumptions": A_HOST},
    "C14": {"groups": ["host"], "rule": HOST_CASE + "non-trivial: a document is open while a load of it is outstanding",
            "technique": "exhaustive enumeration of interleavings of editor messages, watch events and file system answers on the real server against a reference document model",
            "note": "Every answer about an open document is computed by the reference from the editor's text alone." + HOST_NOTE, "assumptions": A_HOST},
    "C15": {"groups": ["host"], "rule": HOST_CASE + "non-trivial: at least one load is outstanding when a message arrives",
            "technique": "exhaustive enumeration of interleavings of loads, failures, watch events and requests on the real server",
            "note": "At the end of every history each request is answered, from the content the file system gave, or with an error for an unreadable file." + HOST_NOTE,
            "assumptions": A_HOST},
    "C16": {"groups": ["host"], "rule": "a case is a set of workspace folders, a document, an order of hash maps and a sequence of lookups, openings and indexings; "
            "non-trivial: the session has folders",
            "technique": "exhaustive enumeration of folder sets, documents and operation sequences on the real workspace manager against a containment reference",
            "note": "Containment is recomputed from path segments; the entry returned and the folder that holds it are compared after every sequence." + HOST_NOTE,
            "assumptions": A_HOST},
    "C17": {"groups": ["host"], "rule": HOST_CASE + "then a cause of the end after some polls; non-trivial: something happened before the cause",
            "technique": "exhaustive enumeration of event sequences and of the points at which exit, cancellation or loss of the client happens, on the real server",
            "note": "The server's task must not end before the cause, must end after it once outstanding work has its answers, and all owed responses must have arrived." + HOST_NOTE,
            "assumptions": A_HOST},
    "C18": {"groups": ["host"], "rule": "a case is a kind of session (folders, capabilities), the client's reply to each of the server's requests, and what arrives while the server waits; "
            "non-trivial: the session has a folder",
            "technique": "exhaustive enumeration of client capabilities, replies and interleaved messages during start-up, the server's messages judged by an order automaton",
            "note": "Registration, listings and progress notes are judged from the complete record of what the server sent." + HOST_NOTE, "assumptions": A_HOST},
    "C19": {"groups": ["host"], "rule": "a case is a sequence of trace values, events and losses of the client, or of client messages each followed by a probe event; "
            "non-trivial: it has an event or sets a value",
            "technique": "exhaustive enumeration of value and event sequences on the real tracing layer and server",
            "note": "After every step a probe event is emitted and the notifications it produces are compared with those due." , "assumptions": A_HOST},
    "C21": {"groups": ["host"], "rule": "a case is a text made of lines with known problems and changes of it and of a file it includes; non-trivial: it has a problem",
            "technique": "exhaustive enumeration of texts and changes; the diagnostics the server computes compared with a reference list after every change",
            "note": "The function that turns the analysis into diagnostics is called directly (hook), since the server does not publish them yet; anything it does publish is judged as well.",
            "assumptions": A_HOST},
    "C20": {"groups": ["host"], "rule": HOST_CASE + "non-trivial: the text changes before a question",
            "technique": "exhaustive enumeration of edit and question sequences on the real server, answers compared with a reference completion list",
            "note": "The reference recomputes the identifiers of the preprocessed text from the text alone." + HOST_NOTE, "assumptions": A_HOST},
})

CHECKS.update({
    "C30": {"groups": ["index"], "rule": "a case is a directory tree on disk (folder and file names and contents) and the form of its URI; non-trivial: the tree has a source file",
            "technique": "exhaustive enumeration of directory trees over awkward names on the real native file system against the tree that was written",
            "note": "Every tree in the bounds is made in a scratch folder, enumerated and read back by the real NativeFs; the oracle is the list of files the "
                    "harness created. Trees are listed, never removed, by the code under test.",
            "assumptions": [A_REAL, A_RUNTIME, "glob is replaced by a stand-in of its documented matching (dependency not installed)",
                            "file systems with other name rules than Linux's are not explored"]},
    "C31": {"groups": ["index"], "rule": "a case is a sequence of emissions and writes to disk with output settings; non-trivial: at least two emissions",
            "technique": "exhaustive enumeration of call sequences and settings on the real writer against an independent list of emitted elements",
            "note": "Every sequence runs on the real LsifWriter; the file on disk is parsed line by line and compared with what was emitted.",
            "assumptions": [A_REAL, A_RUNTIME, "lsp-types 0.93.2 is used in place of 0.94.0 and xflags is a stand-in (dependencies not installed)",
                            "text_document_hover, which is unfinished (todo!), is not called"]},
    "C32": {"groups": ["node"], "rule": "a case is a sequence of messages, a header layout, a set of cut points, the kind of memory of the chunks, when the queued "
            "callbacks run and whether the server answers late; non-trivial: the stream is cut at least once",
            "technique": "exhaustive enumeration of message sequences, stream divisions and callback schedules on the real adapter",
            "note": "The adapter's TypeScript is compiled and run in Node with stand-ins for stdin, stdout, setImmediate and the WebAssembly server; each "
                    "execution compares what the server was handed, byte for byte, and parses what was written with an independent frame reader.",
            "assumptions": ["the code under test is /repo's current source, transpiled with the installed TypeScript", A_RUNTIME,
                            "the WebAssembly server is a stand-in that records what it is handed",
                            "input whose headers are malformed is outside the statement"]},
})

CHECKS.update({
    "C33": {"groups": ["server"], "rule": "a case is a session (messages, pacing and ending) and one complete schedule of the server's threads, the client and the canceller; "
            "non-trivial: the schedule has at least one preemption",
            "technique": "stateless exploration of thread interleavings of the whole server process under a controlled scheduler, the complete output judged against a reference session",
            "note": "LspServerCommand::run with the real console driver, host, analyzer and native file system over scripted standard streams; every byte "
                    "written until the process would end is parsed by an independent frame reader and compared with the answers due.",
            "assumptions": [A_REAL, A_SALSA] + A_SCHED},
    "C34": {"groups": ["server"], "rule": "a case is a pair of folders, output settings and one complete schedule of the generator's threads; "
            "non-trivial: the schedule has at least one preemption",
            "technique": "stateless exploration of thread interleavings of the whole index generator under a controlled scheduler, the written file judged against the tree on disk",
            "note": "LsifGenerator::generate_dump with the real buffer driver, host and native file system; the end of the process is a stand-in that records what is on disk at that point.",
            "assumptions": [A_REAL, A_SALSA] + A_SCHED},
})

NOT_APPLICABLE = {}
