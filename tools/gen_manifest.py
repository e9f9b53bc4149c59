#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "exhaustive enumeration of bounded query sets on the real engine, against an explicit reference model"
STUB = " Trusts the stand-ins of the missing crates (stubs/) and, where named, the reference engine (mc/src/refm.rs)."
checks = json.load(open(os.path.join(ROOT, "tools/checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = {
    "version": 1,
    "setup_cmd": "python3 bin/setup",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks compile /repo/src as it is against stand-ins of the crates that are not available offline (stubs/), with an instrumented std::fs and std::sync.",
}
for i in ids:
    c = checks.get(i)
    if c is None:
        out["not_applicable"].append({"property": i, "reason": "no check yet"})
    elif "reason" in c:
        out["not_applicable"].append({"property": i, "reason": c["reason"]})
    else:
        out["checks"].append({
            "property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "bin/check %s --thorough" % i,
            "technique": "model checking: " + c.get("technique", ENUM), "level": c.get("level", "exploration"), "level_note": c["note"] + STUB})
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
