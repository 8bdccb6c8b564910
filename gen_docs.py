#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in propdefs.py and props.py."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from propdefs import DEFS, NOT_APPLICABLE
from props import PROPS
import subprocess
HOOKS = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "--grep=^verif:"], text=True).split()
with open(V + "/properties.jsonl", "w") as f:
    for d in DEFS:
        assert len(d["title"]) <= 80, d["title"]
        a = {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mechanism"]],
             "observe_at": d.get("observe_at", []), "hook_needed": None}
        f.write(json.dumps({"id": d["id"], "title": d["title"], "statement": d["statement"],
                            "quantifier": {"over": d["over"], "text": d["for_all"]},
                            "why_tests_cant": d["why"], "anchors": a}) + "\n")
checks = []
for d in DEFS:
    if d["id"] not in PROPS:
        continue
    p = PROPS[d["id"]]
    checks.append({"property": d["id"], "quick_cmd": "python3 /verif/check.py %s --tier quick" % d["id"],
                   "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % d["id"],
                   "evidence_file": "/verif/evidence/%s.json" % d["id"],
                   "technique": "bounded symbolic execution of the compiled code (LLVM IR) with z3 deciding every branch and obligation; counterexamples replayed natively",
                   "level": "model_checking", "level_note": p["bounds_text"]})
    assert p["bounds_text"]
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup",
     "hooks": {"guard": "cfg(nk_hooks)", "enable": "check.py builds /repo's crates with RUSTFLAGS=--cfg nk_hooks, which makes two private modules of the client crate public", "source_commits": HOOKS},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
     "notes": "Properties are in properties.jsonl; DESIGN.md describes the executor, models and bounds."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
