#!/usr/bin/env python3
"""mkbug.py: from mkbug import bug; bug(id, property, needs, breaks, edits, demo) writes seeded/<id>."""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def bug(id, prop, needs, breaks, edits, demo, extra=()):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug-", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in edits:
        p = os.path.join(w, "r", f)
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if demo is not None:
        open(os.path.join(d, "demo.rs"), "w").write(demo)
    for n, t in extra:
        open(os.path.join(d, n), "w").write(t)
    shutil.rmtree(w)
