#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS
NA = {
    "N01": "bit extraction is a pure function of its input: no schedule, clock, I/O or fault for a simulator to control; it belongs to exhaustive or symbolic checking",
    "N02": "decoder generation is a pure compile-time transformation of its input text (and its ANTLR front end is not available in this sandbox)",
    "N03": "expression evaluation is a pure function of a tree: nothing for a simulator to schedule or fail",
    "N04": "the assembler is a pure batch transformation of its source text (and ELFIO, which writes its output, is not available in this sandbox)",
    "N05": "value conversion is a pure function of its input: nothing for a simulator to schedule or fail",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({
            "property": p, "quick_cmd": "python3 run_check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py %s" % p,
            "technique": "deterministic simulation: seeded search over schedules and injected faults against a reference model",
            "level": c["level"],
            "level_note": c.get("note", "Seeded search, not exhaustive. Real code: %s. Stubs: %s. Assumes: %s." % (
                ", ".join(c["real"]), ", ".join(c["stub"]) or "none", "; ".join(c["assumptions"]) or "nothing further")),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 run_check.py --build-all", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every seam used is an existing interface or a header/link-level substitution made in /verif's own build."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
