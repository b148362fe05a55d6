#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.dont_write_bytecode = True
import registry
reg = registry.load()
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "hooks": {"guard": "none", "enable": "No hooks are needed: the checks build the unmodified sources of /repo and observe them at the C ABI, the public Rust API and the system-call boundary.", "source_commits": []},
    "checks": [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check %s --tier thorough" % p, "technique": reg[p]["technique"],
                "level": reg[p]["level"], "level_note": reg[p]["note"]} for p in props if p in reg],
    "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in reg],
    "notes": "Every check exits 0 (held), 1 (VIOLATION), 3 (too few conclusive executions) or 4 (the tree does not build).",
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
