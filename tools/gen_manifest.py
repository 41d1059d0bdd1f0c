#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V + "/lib")
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "verif", "enable": "RUSTFLAGS --cfg verif (set by ./check for the harness of the host group only); the other checks derive crate roots and manifests and need no hooks",
               "source_commits": ["e11d887"]},
     "checks": [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": CHECKS[p]["technique"], "level": "model_checking",
                 "level_note": CHECKS[p]["note"]} for p in ids if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "not built yet")} for p in ids if p not in CHECKS]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
