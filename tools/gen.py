#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand; both are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
from table import PROPS

BASE_NOTE = ("Assumes the specification states the intended behaviour (it was written from the Z80 documentation and the "
             "library's documented contract) and that the recording host observes every call; trusts TLC, the Rust compiler and the harness. ")
rows, checks, na = [], [], []
for p in PROPS:
    pid = p["id"]
    over, text = p["quant"]
    rows.append({"id": pid, "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": over, "text": text},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", [])],
                             "observe_at": p["observe"], "hook_needed": None}})
    if pid in props.CHECKS:
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": p["technique"], "level": "model_checking", "level_note": BASE_NOTE + p["note"]})
    else:
        na.append({"property": pid, "reason": "no check yet"})
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: every check uses the public interface of the crate", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked and bound to the code with TLC; see DESIGN.md. properties.jsonl and this file are written by tools/gen.py."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(rows), "properties,", len(checks), "checks,", [x["property"] for x in na], "without")
