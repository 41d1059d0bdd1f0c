#!/usr/bin/env python3
"""Driver of all checks:  driver.py PROPERTY [quick|thorough] [--case CASE]

Generates a shadow workspace of /repo's current tree under /verif/build/<group> (copies of the sources, manifests
and the crate roots derived, missing third-party crates replaced by the stand-ins in /verif/shim), builds the
harness of the property's group in it, runs it, compares what it reports with known_findings.txt, writes the
evidence file and the replay artefacts, and prints the verdict. Exit: 0 held, 1 violated, 2 could not decide.
"""
import json, os, re, subprocess, sys, time, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
KNOWN = os.path.join(VERIF, "known_findings.txt")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, GROUPS  # noqa: E402

ENV = dict(os.environ)
ENV.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           RUSTUP_TOOLCHAIN="nightly-2023-04-01", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0")
ENV.pop("CARGO_BUILD_TARGET", None)


class Undecided(Exception):
    pass


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except FileNotFoundError:
        pass
    with open(path, "w") as f:
        f.write(text)


def links(src, dst, skip=("lib.rs",)):
    """Make dst a copy of src but for the entries of `skip`. A file is written only if its content differs, so that what is
    rebuilt depends on contents and not on the times of src's files."""
    os.makedirs(dst, exist_ok=True)
    wanted = {e for e in os.listdir(src) if e not in skip}
    for e in os.listdir(dst):
        p = os.path.join(dst, e)
        if os.path.islink(p):
            os.unlink(p)
        elif e not in wanted and e not in skip:
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    for e in sorted(wanted):
        a, p = os.path.join(src, e), os.path.join(dst, e)
        if os.path.isdir(a):
            if os.path.isfile(p):
                os.unlink(p)
            links(a, p, ())
            continue
        if os.path.isdir(p):
            shutil.rmtree(p)
        data = open(a, "rb").read()
        if not (os.path.exists(p) and open(p, "rb").read() == data):
            with open(p, "wb") as f:
                f.write(data)


def manifest(crate, drop=(), replace=None, extra=""):
    """/repo's manifest of a crate without benches/bins/dev-dependencies, with some dependencies dropped or replaced."""
    replace = replace or {}
    out, skip = [], False
    for line in open(f"{REPO}/crates/{crate}/Cargo.toml"):
        s = line.strip()
        if s.startswith("["):
            skip = s in ("[[bench]]", "[[bin]]", "[dev-dependencies]")
        if skip:
            continue
        m = re.match(r"^([A-Za-z0-9_-]+) *=", s)
        if m and m.group(1) in drop:
            continue
        if m and m.group(1) in replace:
            out.append(f"{m.group(1)} = {replace[m.group(1)]}\n")
            continue
        out.append(line)
    return "".join(out) + extra


def mods(crate, names):
    """The crate root's own `mod` lines (with their attributes' visibility) for some modules."""
    text = open(f"{REPO}/crates/{crate}/src/lib.rs").read()
    out = []
    for n in names:
        m = re.search(r"^\s*(pub(\([^)]*\))?\s+)?mod\s+" + n + r"\s*;", text, re.M)
        if not m:
            raise Undecided(f"module {n} not found in {crate}")
        out.append("pub mod " + n + ";")
    return "\n".join(out) + "\n"


def shim(name, package=None, extra=""):
    return '{ path = "%s/shim/%s"%s%s }' % (VERIF, name, ', package = "%s"' % package if package else "", extra)


def root(crate, prefix="", drop=(), suffix=""):
    """The crate's own root file with a prefix and without some modules."""
    text = open(f"{REPO}/crates/{crate}/src/lib.rs").read()
    for n in drop:
        text = re.sub(r"^[ \t]*(#\[cfg\([^\n]*\)\]\s*)?(pub(\([^)]*\))?\s+)?mod\s+" + n + r"\s*;", "", text, flags=re.M)
    m = re.match(r"((\s*(//[^\n]*|#!\[[^\]]*\]|/\*.*?\*/))*)", text, re.S)  # inner attributes stay first
    return m.group(1) + "\n" + prefix + text[m.end():] + suffix


def build(group):
    g = GROUPS[group]
    ws = os.path.join(BUILD, group, "ws")
    os.makedirs(ws, exist_ok=True)
    members = g["make"](ws, sys.modules["__main__"])
    hdir = f"{VERIF}/harness/{g.get('harness', group)}"
    put(f"{ws}/harness/Cargo.toml", open(f"{hdir}/Cargo.toml").read().replace("@VERIF@", VERIF).replace("@REPO@", REPO))
    links(f"{hdir}/src", f"{ws}/harness/src", skip=())
    put(f"{ws}/Cargo.toml", "[workspace]\nmembers = [%s]\n" % ", ".join('"%s"' % m for m in members + ["harness"])
        + g.get("profile", '[profile.dev]\nopt-level = 1\ndebug = 0\noverflow-checks = true\n[profile.dev.build-override]\nopt-level = 0\ndebug = 0\n[profile.dev.package.harness]\nopt-level = 2\n[profile.dev.package.mck]\nopt-level = 2\n'))
    shutil.copyfile(f"{REPO}/Cargo.lock", f"{ws}/Cargo.lock")
    env = dict(ENV)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, group, "target")
    env.update(g.get("env", {}))
    t0 = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "-p", "harness"], cwd=ws, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-2500:])
        raise Undecided("the harness does not build against the current tree")
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", "harness"), time.time() - t0


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    args = [a for a in sys.argv[1:]]
    case = None
    if "--case" in args:
        i = args.index("--case")
        case = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    t0 = time.time()
    ev = f"{VERIF}/evidence/{prop}.json"
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    if os.path.exists(ev) and case is None:
        os.unlink(ev)
    try:
        parts, build_s = [], 0.0
        for group in c["groups"]:
            os.makedirs(f"{BUILD}/{group}", exist_ok=True)
            lock = open(f"{BUILD}/{group}/lock", "w")
            fcntl.flock(lock, fcntl.LOCK_EX)
            if "run" in GROUPS[group]:
                rep, b = GROUPS[group]["run"](prop, tier, case, sys.modules["__main__"])
            else:
                exe, b = build(group)
                lock.close()  # the program in use is replaced, not overwritten, by a later build
                run = os.path.join(BUILD, group, "run")
                os.makedirs(run, exist_ok=True)
                out = os.path.join(run, f"{prop}.json")
                if os.path.exists(out):
                    os.unlink(out)
                env = dict(ENV)
                env.update(VERIF_SEED=str(seed), VERIF_TIER=tier)
                env.update(GROUPS[group].get("runenv", {}))
                cmd = [exe, prop, tier, out] + ([case] if case is not None else [])
                limit = 840 if tier == "quick" else 6 * 3600
                with open(f"{run}/{prop}.err", "w") as err:
                    try:
                        p = subprocess.run(cmd, cwd=run, env=env, stderr=err, timeout=limit)
                    except subprocess.TimeoutExpired:
                        raise Undecided(f"exploration did not finish in {limit} s")
                if p.returncode or not os.path.exists(out):
                    tail = open(f"{run}/{prop}.err", errors="replace").read()[-3000:]
                    print(tail)
                    raise Undecided(f"the harness ended with {p.returncode}")
                rep = json.load(open(out))
            build_s += b
            parts.append(rep)
            lock.close()
    except Undecided as e:
        print(f"UNDECIDED property={prop}: {e}")
        sys.exit(2)

    known = known_findings(prop)
    bad, seen_known = [], []
    for rep in parts:
        for v in rep["violations"]:
            (seen_known if v["sig"] in known else bad).append(v)
    tot = lambda k: sum(r.get(k, 0) for r in parts)  # noqa: E731
    outcomes = {}
    for r in parts:
        for k, n in r.get("outcomes", {}).items():
            outcomes[k] = outcomes.get(k, 0) + n
    coverage = {
        "states": tot("states"), "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("traces"),
        "distinct_nontrivial": tot("distinct"),
        "rule": c["rule"],
        "exhaustive": all(r.get("exhaustive", False) for r in parts),
        "bounds": sum((r.get("bounds", []) for r in parts), []),
        "distinct_outcomes": outcomes,
        "samples": sum((r.get("samples", []) for r in parts), [])[:16] or ["(none)"],
        "build_s": round(build_s, 1),
    }
    if tot("evaluations") not in (0, coverage["states"], coverage["transitions"], coverage["traces_validated_against_impl"]):
        coverage["evaluations"] = tot("evaluations")
    evidence = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
                "level": "model_checking", "coverage": coverage, "assumptions": c["assumptions"],
                "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
    if case is None:
        with open(ev, "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    for v in seen_known:
        print(f"KNOWN-FINDING: property={prop} {known[v['sig']]} [sig {v['sig']}, {v['count']} cases, e.g. {v['case'][:300]}]")
    if bad:
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        for v in bad[:20]:
            name = re.sub(r"[^A-Za-z0-9_.-]", "_", v["sig"])[:80]
            path = f"{VERIF}/replays/{prop}-{name}.json"
            with open(path, "w") as f:
                json.dump({"property": prop, "sig": v["sig"], "case": v["case"], "detail": v["detail"],
                           "replay": f"cd {VERIF} && ./check {prop} quick --case '<case>'"}, f, indent=1)
            print(f"  {v['sig']} ({v['count']} cases); smallest: {v['case'][:2000]}\n    {v['detail'][:2000]}")
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    print(f"OK property={prop} tier={tier} wall={time.time()-t0:.1f}s (build {build_s:.1f}s) "
          f"states={coverage['states']} transitions={coverage['transitions']} executions={coverage['traces_validated_against_impl']}"
          f" exhaustive={coverage['exhaustive']}")
    sys.exit(0)


if __name__ == "__main__":
    main()
