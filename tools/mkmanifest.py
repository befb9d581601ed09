#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "checks"))
import models
NOTE = ("Every transition of the bounded TLA+ model ({mods}) is checked by TLC against invariants stated independently of the specified rules, "
        "and executed by the real code together with random cases beyond the bounds; every recorded execution is validated by TLC against the "
        "same specification. Trusts TLC, the harness's projection and the hash/recovery primitives of spec/Prim.java (checked in MCPrim). "
        "Beyond the executed cases the verdict is not a proof about the Rust code.")
checks = []
for p, c in models.CHECKS.items():
    mods = sorted({m["module"] for m in c["models"]}) or ["Trace"]
    checks.append(dict(property=p, quick_cmd=f"python3 checks/check.py {p}", thorough_cmd=f"python3 checks/check.py {p} --tier thorough",
                       evidence_file=f"evidence/{p}.json", technique="TLA+ specification: TLC model checking, generated behaviours replayed into the code, recorded traces validated by TLC",
                       level="model_checking", level_note=NOTE.format(mods=", ".join(mods))))
json.dump(dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=[],
               hooks=dict(guard="none", enable="no hooks are needed: the harness uses the public API only", source_commits=[]),
               notes="TLA+ with TLC; see DESIGN.md. Findings and repairs: known-findings.txt."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
