#!/usr/bin/env python3
"""Runs the repository's own analyzer-core tests (lexer, preprocessor: not built by the baseline, salsa is missing)
with the stand-ins. Scratch: /verif/build/repo_tests."""
import os, sys, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import driver as d
ws = f"{d.BUILD}/repo_tests/ws"
c = f"{ws}/crates/analyzer-core"
d.put(f"{c}/Cargo.toml", d.manifest("analyzer-core", replace={"salsa": d.shim("salsa", "v-salsa")}, extra='[dev-dependencies]\npretty_assertions = "1.3.0"\n'))
d.links(f"{d.REPO}/crates/analyzer-core/src", f"{c}/src")
d.put(f"{c}/src/lib.rs", d.root("analyzer-core", ""))
d.links(f"{d.REPO}/crates/analyzer-core/tests", f"{c}/tests", skip=())
d.put(f"{ws}/Cargo.toml", '[workspace]\nmembers = ["crates/analyzer-core"]\n')
shutil.copyfile(f"{d.REPO}/Cargo.lock", f"{ws}/Cargo.lock")
env = dict(d.ENV); env["CARGO_TARGET_DIR"] = f"{d.BUILD}/repo_tests/target"
sys.exit(subprocess.run(["cargo", "test", "--offline"], cwd=ws, env=env).returncode)
