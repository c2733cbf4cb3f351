#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import P  # noqa

NOTE = ("Complete enumeration of the stated finite space on the real code "
        "(imported from /repo's working tree); nothing outside the bounds is "
        "claimed. Trusts numpy, scipy, unum and the reference model in "
        "/verif/mc.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": a, "where": b}
                                       for a, b in p["mech"]],
                         "hook_needed": None}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "./check {} quick".format(p["id"]),
            "thorough_cmd": "./check {} thorough".format(p["id"]),
            "technique": p["technique"], "level": p["level"],
            "level_note": (p["note"] + " " if p["note"] else "") + NOTE})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true",
               "hooks": {"guard": "none", "enable":
                         "no hook is needed: the checks drive the public API",
                         "source_commits": []},
               "checks": checks, "not_applicable": na,
               "notes": "known findings: known_findings.jsonl; design: "
                        "DESIGN.md"}, f, indent=1)
    f.write("\n")
