// C32: the Node adapter (packages/p4-analyzer/src/server/index.ts) under every division of its input into chunks.
// node harness.js REPO TIER SHARD SHARDS OUT [CASE]
"use strict";
const fs = require("fs"), path = require("path"), { EventEmitter } = require("events");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const [repo, tier, shardA, shardsA, out, replay] = process.argv.slice(2);
const shard = +shardA, shards = +shardsA, thorough = tier === "thorough";

// ---- the code under test: every module of the server folder, transpiled as the package's own configuration says
const root = path.join(repo, "packages/p4-analyzer/src/server");
const conf = ts.readConfigFile(path.join(repo, "packages/p4-analyzer/tsconfig.json"), ts.sys.readFile).config.compilerOptions;
const target = ts.ScriptTarget[conf.target] ?? ts.ScriptTarget.ES2021;
const compiled = new Map();
function compile(file) {
	if (!compiled.has(file)) {
		const js = ts.transpileModule(fs.readFileSync(file, "utf8"), { compilerOptions: { module: ts.ModuleKind.CommonJS, target, esModuleInterop: !!conf.esModuleInterop } }).outputText;
		compiled.set(file, new Function("module", "exports", "require", "process", "setImmediate", "console", js));
	}
	return compiled.get(file);
}
function load(file, env, cache) {
	if (cache.has(file)) return cache.get(file).exports;
	const m = { exports: {} };
	cache.set(file, m);
	const req = (n) => {
		if (/p4_analyzer_wasm/.test(n)) return { LspServer: env.LspServer };
		if (n === "process" || n === "node:process") return env.process;
		if (n.startsWith(".")) {
			const p = path.resolve(path.dirname(file), n);
			for (const q of [p, p + ".ts", path.join(p, "index.ts")]) if (fs.existsSync(q) && fs.statSync(q).isFile()) return load(q, env, cache);
		}
		return require(n);
	};
	compile(file)(m, m.exports, req, env.process, env.setImmediate, env.console);
	return m.exports;
}

// ---- one execution
const tick = () => new Promise((r) => setImmediate(r));
class Exec {
	constructor(c) {
		this.c = c;
		this.calls = []; // [copy at the call, the object handed over]
		this.immediates = [];
		this.pending = [];
		this.errors = [];
		this.written = [];
		this.listening = false;
		const self = this;
		const stdin = new EventEmitter();
		Object.assign(stdin, { pause() { return this; }, resume() { return this; }, setEncoding() { return this; }, unref() { return this; }, ref() { return this; }, fd: 0 });
		const stdout = new EventEmitter();
		Object.assign(stdout, {
			pause() { return this; }, resume() { return this; }, fd: 1, writable: true, cork() {}, uncork() {},
			write(x, enc, cb) {
				self.written.push(typeof x === "string" ? Buffer.from(x, typeof enc === "string" ? enc : "utf8") : Buffer.from(x));
				const f = typeof enc === "function" ? enc : cb;
				if (f) f();
				return true;
			},
		});
		this.process = Object.create(process, { stdin: { value: stdin }, stdout: { value: stdout }, stderr: { value: { write() { return true; } } } });
		this.stdin = stdin;
		this.setImmediate = (f, ...a) => { this.immediates.push(() => f(...a)); return {}; };
		this.console = { log() {}, error() {}, warn() {}, info() {}, debug() {} };
		this.LspServer = class {
			constructor(cb) { self.respond = cb; }
			start() { return new Promise(() => {}); }
			stop() {}
			sendRequest(b) {
				self.calls.push([Buffer.from(b), b]);
				if (!self.c.slow) return Promise.resolve();
				return new Promise((r) => self.pending.push(r));
			}
		};
		try {
			const M = load(path.join(root, "index.ts"), this, new Map());
			this.a = new (M.default ?? M)();
			Promise.resolve(this.a.start()).catch((e) => this.errors.push(e));
		} catch (e) { this.errors.push(e); }
	}
	emit(chunk) { try { this.stdin.emit("data", chunk); } catch (e) { this.errors.push(e); } }
	run() {
		const l = this.immediates.splice(0);
		for (const f of l) { try { const p = f(); if (p && p.catch) p.catch((e) => this.errors.push(e)); } catch (e) { this.errors.push(e); } }
		return l.length;
	}
	settle() { const l = this.pending.splice(0); for (const r of l) r(); return l.length; }
}
const newSlab = (n) => Buffer.alloc(Math.max(1 << 20, n), "Content-Length: 7\r\n\r\n");
let slab = newSlab(0), at = 0;
function chunkOf(bytes, kind) {
	if (kind === 0) { const b = Buffer.from(new ArrayBuffer(bytes.length)); bytes.copy(b); return b; } // its own memory
	if (at + bytes.length + 64 > slab.length) { slab = newSlab(bytes.length + 100); at = 0; } // memory handed out is never written again
	at += 13;
	const b = slab.subarray(at, at + bytes.length); // a part of a slab that holds other data
	bytes.copy(b);
	at += bytes.length + 7;
	return b;
}
async function batch(cs) {
	const es = cs.map((c) => new Exec(c));
	for (let i = 0; i < 100 && es.some((e) => !e.stdin.listenerCount("data") && !e.errors.length); i++) await tick();
	const most = Math.max(...cs.map((c) => c.cuts.length + 1));
	for (let i = 0; i < most; i++) {
		for (const e of es) {
			const c = e.c;
			if (i > c.cuts.length) continue;
			e.emit(chunkOf(c.stream.subarray(i ? c.cuts[i - 1] : 0, c.cuts[i] ?? c.stream.length), c.kind));
		}
		await tick();
		let any = false;
		for (const e of es) if ((e.c.mask >> i) & 1) any = e.run() > 0 || any;
		if (any) await tick();
	}
	for (let i = 0; i < 20000; i++) {
		let n = 0;
		for (const e of es) n += e.run();
		await tick();
		for (const e of es) n += e.settle();
		await tick();
		if (!n) break;
	}
	return es;
}
const short = (b) => JSON.stringify(b.length > 60 ? b.subarray(0, 50).toString() + "..." + b.length : b.toString());
function judge(e) {
	if (e.errors.length) return ["throw", String(e.errors[0] && e.errors[0].stack || e.errors[0]).slice(0, 300)];
	const want = e.c.bodies, got = e.calls;
	for (let i = 0; i < Math.max(want.length, got.length); i++) {
		if (i >= got.length) return ["lost", `${got.length} of ${want.length} messages arrived; missing ${short(want[i])}`];
		if (i >= want.length) return ["extra", `${short(got[i][0])} arrived in addition`];
		if (!got[i][0].equals(want[i])) return ["body", `message ${i + 1} is ${short(got[i][0])}, due ${short(want[i])}`];
		if (!Buffer.from(got[i][1]).equals(want[i])) return ["reused", `the memory of message ${i + 1} was changed after it was handed over`];
	}
	return null;
}

// ---- messages
const big = (n) => JSON.stringify({ p: "Content-Length: 9\r\n\r\n".repeat(3) + "é日😀".repeat(20) + "x".repeat(n) });
const BODIES = [
	"{}", '"é😀"', '"\\r\\n\\r\\nContent-Length: 3\\r\\n\\r\\nabc"', '{"a":\r\n\r\n1}', '[1,"Content-Length: 2\r\n\r\n{}"]', "7",
	big(1800), big(4000), big(70000), "x".repeat(2048 - 24),
].map((s) => Buffer.from(s));
const SMALL = BODIES.length; // the pool of the exhaustive part; the rest is for sizes
for (const n of [9, 10, 11, 99, 100, 101, 255, 256, 257, 511, 513, 999, 1000, 1001, 1023, 1025, 8191, 8192, 8193, 9999, 10001, 32767, 32769, 65535, 65536, 65537, 99999, 100001, 131073, 262145, 999999, 1000001, 1048577]) BODIES.push(Buffer.from("y".repeat(n)));
BODIES.push(Buffer.from("é日😀".repeat(40000)));
const LAYOUTS = [
	(n) => `Content-Length: ${n}\r\n\r\n`,
	(n) => `Content-Length: ${n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n`,
	(n) => `Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: ${n}\r\n\r\n`,
];
function make(msgs, layout) {
	const bodies = msgs.map((m) => BODIES[m]), parts = [], marks = [];
	let n = 0;
	for (const b of bodies) {
		const h = Buffer.from(LAYOUTS[layout](b.length));
		parts.push(h, b);
		marks.push(n, n + 9, n + h.length - 4, n + h.length - 2, n + h.length, n + h.length + 1, n + h.length + b.length - 1);
		n += h.length + b.length;
		marks.push(n);
	}
	return { msgs, layout, bodies, stream: Buffer.concat(parts), marks: [...new Set(marks)].filter((x) => x > 0 && x < n).sort((a, b) => a - b) };
}
function* cutsets(points, most) {
	function* go(from, left) {
		yield [];
		if (left) for (let i = from; i < points.length; i++) for (const r of go(i + 1, left - 1)) yield [points[i], ...r];
	}
	yield* go(0, most);
}
const sequences = (pool, most) => { const o = []; const go = (p) => { if (p.length) o.push(p); if (p.length < most) for (const x of pool) go([...p, x]); }; go([]); return o; };
const range = (n) => [...Array(n).keys()];
// when the queued callbacks run: never before the end, after every chunk, or (few chunks) every combination
const masks = (chunks) => (chunks <= 3 ? range(1 << (chunks - 1)) : [0, -1]);
const bounds = [];
function* cases() {
	// every cut set of short sequences
	for (const msgs of sequences([0, 1, 2, 3, 4, 5], 2)) {
		for (const layout of msgs.length < 2 ? [0, 1, 2] : [0]) {
			const s = make(msgs, layout), n = s.stream.length;
			const most = msgs.length === 1 && layout === 0 ? (thorough ? 4 : 3) : thorough ? 3 : 2;
			for (const cuts of cutsets(range(n - 1).map((i) => i + 1), most)) yield { s, cuts };
			for (let k = 1; k < n; k++) yield { s, cuts: range(Math.ceil(n / k) - 1).map((i) => (i + 1) * k) };
		}
	}
	// longer sequences and large bodies: cuts at every boundary of a header or body, and around the buffer's size
	for (const msgs of sequences(range(SMALL), 3)) {
		const layout = msgs.reduce((a, b) => a + b, 0) % 3;
		const s = make(msgs, layout), n = s.stream.length;
		const large = msgs.some((m) => m >= 6);
		const pts = new Set(msgs.length < 3 ? s.marks : s.marks.filter((_, i) => i % 2 || thorough));
		if (large) for (const x of [2047, 2048, 2049, 4096, 6144, 65536]) if (x < n) pts.add(x);
		const p = [...pts].sort((a, b) => a - b);
		for (const cuts of cutsets(p, msgs.length < 2 ? 4 : msgs.length < 3 ? (thorough ? 4 : 3) : thorough ? 3 : 2)) yield { s, cuts };
		if (msgs.length < 3) for (const k of [1000, 2047, 2048, 2049, 3000, 4096, 16384, 65536]) if (k < n) yield { s, cuts: range(Math.ceil(n / k) - 1).map((i) => (i + 1) * k) };
	}
	// many messages
	for (const n of [5, 17, 40, 130, 300, 1100]) for (const unit of [[0], [5, 0], [1, 2, 3], [4, 0, 9]]) {
		const s = make(range(n).map((i) => unit[i % unit.length]), 0), len = s.stream.length;
		for (const k of [1, 7, 25, 64, 1000, 2048, 4096, 65536, len]) if (len / k <= 3000) yield { s, cuts: range(Math.ceil(len / k) - 1).map((i) => (i + 1) * k), name: `${n}` };
	}
	// a message of every size, alone and after another
	for (let b = SMALL; b < BODIES.length; b++) for (const msgs of [[b], [0, b, 1], [b, b]]) {
		const s = make(msgs, b % 3), len = s.stream.length;
		for (const k of [1000, 2048, 4096, 16384, 65536, len]) if (len / k <= 1200) yield { s, cuts: range(Math.ceil(len / k) - 1).map((i) => (i + 1) * k) };
		for (const m of s.marks) yield { s, cuts: [m] };
	}
}
bounds.push(`bodies ${BODIES.slice(0, SMALL).map(short).join(", ")}; header alone, with a Content-Type after and before`);
bounds.push(`all sequences of 1 and 2 of the first 6 under all sets of up to ${thorough ? 4 : 3} (one message) and ${thorough ? 3 : 2} (two) cuts and all constant chunk sizes`);
bounds.push("all sequences of up to 3 of all bodies under all sets of cuts (up to 4, 3 and 2 for 1, 2 and 3 messages; one more when thorough) at the header and body boundaries and around the buffer's size");
bounds.push("up to 1100 messages, and messages of up to 1048577 bytes, in chunks of constant sizes from 1 to the whole");
bounds.push("chunks with their own memory and chunks that are parts of a slab with other data; queued callbacks run in every combination for up to 3 chunks, otherwise after every chunk or at the end; the server answering at once or late");

const TEXTS = ["{}", "", '"é日😀"', '"\\r\\n\\r\\n"', "a\r\n\r\nContent-Length: 2\r\n\r\nb", "\ufeffx", "x".repeat(5000), "é".repeat(70000), "$&${1}%s\\"].map((s) => Buffer.from(s));
const SIZES = [9, 10, 99, 100, 999, 1000, 9999, 10000, 65535, 65536, 99999, 100000, 999999, 1000000, 1048577];
for (const n of SIZES) TEXTS.push(Buffer.from("z".repeat(n)));
async function responses(list) {
	const e = new Exec({ cuts: [], slow: false });
	for (let i = 0; i < 100 && !e.stdin.listenerCount("data") && !e.errors.length; i++) await tick();
	try { for (const [t, pooled] of list) e.respond(chunkOf(TEXTS[t], pooled)); } catch (x) { e.errors.push(x); }
	for (let i = 0, quiet = 0; i < 20000 && quiet < 6; i++) { quiet = e.run() ? 0 : quiet + 1; await tick(); }
	if (e.errors.length) return ["response-throw", String(e.errors[0].stack).slice(0, 300)];
	// an independent reader of frames
	let text = Buffer.concat(e.written), got = [];
	while (text.length) {
		const h = text.indexOf("\r\n\r\n");
		const m = h < 0 ? null : /(?:^|\r\n)Content-Length: (\d+)(?:\r\n|$)/.exec(text.subarray(0, h).toString());
		if (!m) return ["response-header", short(text)];
		const n = +m[1];
		if (h + 4 + n > text.length) return ["response-length", `${n} bytes announced, ${text.length - h - 4} written`];
		got.push(text.subarray(h + 4, h + 4 + n));
		text = text.subarray(h + 4 + n);
	}
	for (let i = 0; i < Math.max(got.length, list.length); i++) {
		if (!got[i] || !list[i] || !got[i].equals(TEXTS[list[i][0]])) return ["response-body", `response ${i + 1}: ${got[i] && short(got[i])}, due ${list[i] && short(TEXTS[list[i][0]])}`];
	}
	return null;
}

(async () => {
	const r = { states: 0, transitions: 0, traces: 0, evaluations: 0, distinct: 0, outcomes: {}, samples: [], bounds, exhaustive: true, violations: [] };
	const found = new Map();
	const bad = (sig, c, detail) => {
		const v = found.get(sig);
		if (!v) found.set(sig, { sig, case: c, detail, count: 1 });
		else { v.count++; if (c.length < v.case.length) Object.assign(v, { case: c, detail }); }
	};
	const caseOf = (c) => JSON.stringify({ msgs: c.msgs, layout: c.layout, cuts: c.cuts, kind: c.kind, mask: c.mask, slow: c.slow });
	process.on("unhandledRejection", (e) => bad("throw", "unhandled rejection", String(e && e.stack || e).slice(0, 300)));
	const judgeAll = async (cs) => {
		for (const e of await batch(cs)) {
			const c = e.c;
			r.states++; r.traces++; r.transitions += c.cuts.length + 1;
			r.distinct += c.cuts.length > 0;
			const k = `${c.bodies.length} messages in ${c.cuts.length > 8 ? "more than 8" : c.cuts.length + 1} chunks`;
			r.outcomes[k] = (r.outcomes[k] ?? 0) + 1;
			const b = judge(e);
			if (b) bad(b[0], caseOf(c), b[1]);
			else if (r.samples.length < 3 && r.traces % 9973 === 17) r.samples.push(caseOf(c));
		}
	};
	if (replay) {
		const c = JSON.parse(replay);
		if (c.responses) { const b = await responses(c.responses); if (b) bad(b[0], replay, b[1]); }
		else await judgeAll([{ ...make(c.msgs, c.layout), ...c }]);
	} else {
		let list = [], k = 0, weight = 0;
		for (const { s, cuts } of cases()) {
			if (k++ % shards !== shard) continue;
			for (const mask of masks(cuts.length + 1)) {
				const kind = (k + mask) & 1;
				for (const [kd, slow] of cuts.length < 3 ? [[0, false], [1, true]] : [[kind, (k >> 1 & 1) === 1]]) {
					list.push({ ...s, cuts, kind: kd, mask, slow });
				}
			}
			weight += s.stream.length;
			if (list.length >= 400 || weight > 8e6) {
				weight = 0; await judgeAll(list); list = []; }
		}
		if (list.length) await judgeAll(list);
		const many = [3, 20, 130, 300, 1100].flatMap((n) => [[0], [3, 5], [2, 4, 8]].map((u) => range(n).map((i) => u[i % u.length] * 2 + (i & 1))));
		const large = range(SIZES.length).map((i) => [(TEXTS.length - SIZES.length + i) * 2, 0]);
		for (const seq of [...sequences(range((TEXTS.length - SIZES.length) * 2), 2), ...many, ...large]) {
			if (k++ % shards !== shard) continue;
			const l = seq.map((x) => [x >> 1, x & 1]);
			r.states++; r.traces++; r.transitions += l.length;
			const b = await responses(l);
			if (b) bad(b[0], JSON.stringify({ responses: l }), b[1]);
		}
		bounds.push(`responses: up to 1100, of up to 1048577 bytes; all sequences of up to 2 of ${TEXTS.slice(0, -SIZES.length).map(short).join(", ")}, with their own memory and in a slab`);
	}
	r.violations = [...found.values()];
	fs.writeFileSync(out, JSON.stringify(r));
	process.exit(0);
})();
