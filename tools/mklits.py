#!/usr/bin/env python3
"""Writes lib/lits.json: the strings and numbers /repo mentions now."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import lits
s, n = lits.harvest(os.environ.get("SUDO_PAIR_REPO", "/repo"))
with open(V + "/lib/lits.json", "w") as f:
    json.dump({"strings": s, "numbers": n}, f, indent=0)
    f.write("\n")
