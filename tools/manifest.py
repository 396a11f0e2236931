#!/usr/bin/env python3
"""Writes MANIFEST.json: run it after a property got its check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
sys.dont_write_bytecode = True
import props
T = "TLA+ specification checked with TLC; traces of the real code validated against it"
TR = "TLA+ specification checked with TLC; its behaviours replayed on the real code, and recorded traces validated against it"
NOTE = ("Every recorded call or step of the real code is compared with the specification by TLC (all values as exact "
        "integers); the specification itself is model checked within small bounds. Assumes the recorded inputs "
        "(generated from VERIF_SEED) are representative beyond the explored sizes and trusts TLC and the driver.")
checks = []
na = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in props.PROPS:
        checks.append({"property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": TR if p not in ("C16",) else T, "level": "model_checking",
                       "level_note": props.NOTES.get(p, "") + (" " if p in props.NOTES else "") + NOTE})
    else:
        na.append({"property": p, "reason": "its check is not built yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the drivers in harness/ use the crate's public interface. "
              "Findings are in known_findings.txt (all of them repaired by fix: commits)."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na])
