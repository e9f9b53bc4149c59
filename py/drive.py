"""Drives the Python wrapper: drive.py JOB OUT. The job holds the scratch copy of the package, the engines, and calls
with the answers of the library; OUT gets what was covered and every violation."""
import gc
import itertools
import json
import os
import sys
from ctypes import CDLL
from pathlib import Path

job = json.load(open(sys.argv[1]))
sys.path.insert(0, job["package"])
import snips_nlu_rust  # noqa: E402
from snips_nlu_rust import NLUEngine  # noqa: E402

reg = CDLL(job["lib"])
out = {"evals": 0, "keys": set(), "states": set(), "transitions": 0, "traces": 0, "violations": [], "samples": [], "notes": {}}
MAX = job["max_violations"]
real_loads = json.loads


class Stop(Exception):
    pass


def violate(key, case):
    out["violations"].append([key, case])
    if len(out["violations"]) >= MAX:
        raise Stop()


def ev(key):
    out["evals"] += 1
    if key is not None:
        out["keys"].add(repr(key))


def strings():
    return reg.mc_live_objects(b"string")


def engines():
    return reg.mc_live_objects(b"CSnipsNluEngine")


def others():
    return reg.mc_live_objects(None) - strings() - engines()


def accounts(want_engines, what):
    """no string alive, the engines that are referenced alive, nothing destroyed twice"""
    n, s, o, b = engines(), strings(), others(), reg.mc_bad_destructions()
    if n != want_engines:
        gc.collect()
        n = engines()
    if (n, s, o, b) != (want_engines, 0, 0, 0):
        violate("objects %s" % (what,), {"after": what, "engines alive": n, "engines referenced": want_engines, "strings alive": s, "others alive": o, "wrong destructions": b})
        return False
    return True


def same(a, b):
    """equal as decoded JSON: 1, 1.0 and True are different things"""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def attempt(engine, c):
    try:
        return ("ok", getattr(engine, c["method"])(*c["args"], **c["kwargs"]))
    except Exception as e:  # the type is judged by the caller
        r = ("error", type(e), str(e))
    return r


def judge(c, r, what):
    case = {"at": what, "method": c["method"], "args": c["args"], "kwargs": c["kwargs"], "got": str(r), "library": c.get("ok", c.get("err"))}
    if "ok" in c:
        if r[0] != "ok" or not same(r[1], real_loads(c["ok"])):
            violate("answer %s %s %s %s" % (what, c["method"], c["args"], c["kwargs"]), case)
            return False
    else:
        if r[0] != "error" or not issubclass(r[1], ValueError) or any(m not in r[2] for m in c["err"]):
            violate("error %s %s %s %s" % (what, c["method"], c["args"], c["kwargs"]), case)
            return False
    return True


def open_engine(spec, how):
    if how == "dir":
        return NLUEngine(spec["dir"])
    if how == "keyword":
        return NLUEngine(engine_dir=spec["dir"])
    if how == "path":
        return NLUEngine(engine_dir=Path(spec["dir"]))
    if how == "both":
        return NLUEngine(engine_dir=spec["dir"], engine_bytes=bytearray(b"garbage"))
    if how == "bytes":
        b = bytearray(open(spec["zip"], "rb").read())
        e = NLUEngine(engine_bytes=b)
        b[:] = bytes(len(b))
        return e
    if how == "relative":
        os.chdir(os.path.dirname(spec["dir"]))
        return NLUEngine(os.path.basename(spec["dir"]))
    raise AssertionError(how)


HOWS = ["dir", "bytes", "keyword", "path", "both", "relative"]


def calls():
    """every call on every engine"""
    for k, w in enumerate(job["worlds"]):
        for how in HOWS:
            if k > 0 and how not in ("dir", "bytes"):
                continue
            e = open_engine(w, how)
            cs = w["calls"] if how == "dir" else w["calls"][::7]
            for c in cs:
                r = attempt(e, c)
                ev((w["name"], c["method"], c["args"], c["kwargs"]) if "ok" not in c or "rawValue" in c["ok"] or c["method"] == "get_intents" else None)
                judge(c, r, "%s %s" % (w["name"], how))
                accounts(1, (w["name"], how, c["method"], c["args"], c["kwargs"]))
                if len(out["samples"]) < 6 and "rawValue" in c.get("ok", "") and out["evals"] % 97 == 0:
                    out["samples"].append({"engine": w["name"], "call": [c["method"], c["args"], c["kwargs"]], "got": r[1], "library": c["ok"]})
            del e
            accounts(0, (w["name"], how, "deleted"))


def arguments():
    """filters that hold something else than strings, at every position; nothing at all; damaged engines"""
    w = job["worlds"][0]
    e = NLUEngine(w["dir"])
    good = [c for c in w["calls"] if c["method"] == "parse" and "rawValue" in c.get("ok", "")][0]
    text = good["args"][0]
    things = [1, 0, None, b"Make", 1.5, True, ["Make"], {"Make": 1}, object()]
    for n in (1, 2, 3):
        for at in range(n):
            for t in things:
                bad = ["Make", "When", "Light"][:n]
                bad[at] = t
                for name, other in (("intents_whitelist", "intents_blacklist"), ("intents_blacklist", "intents_whitelist")):
                    for extra in ({}, {other: ["Make"]}, {other: []}, {"intents_alternatives": 1, "slots_alternatives": 1}):
                        kw = dict(extra)
                        kw[name] = bad
                        r = attempt(e, {"method": "parse", "args": [text], "kwargs": kw})
                        ev(("filter", n, at, repr(type(t)), name, sorted(extra)))
                        if r[0] != "error" or not issubclass(r[1], TypeError):
                            violate("filter %r" % (kw,), {"query": text, "kwargs": repr(kw), "got": str(r)})
                        accounts(1, ("filter", name, n, at))
                        judge(good, attempt(e, good), "after a refused filter")
    for f in (5, object(), 1.5):
        for name in ("intents_whitelist", "intents_blacklist"):
            r = attempt(e, {"method": "parse", "args": [text], "kwargs": {name: f}})
            ev(("filter", name, repr(type(f))))
            if r[0] != "error" or not issubclass(r[1], TypeError):
                violate("filter %r" % (f,), {"query": text, "filter": repr(f), "got": str(r)})
            accounts(1, ("filter", name))
    # texts that have no UTF-8 form, and things that are no texts: some error, and nothing left behind
    for m in ("parse", "get_slots", "get_intents"):
        for t in ("\ud800", "tea \udfff", 5, None, ["tea"]):
            args = [t, "Make"] if m == "get_slots" else [t]
            r = attempt(e, {"method": m, "args": args, "kwargs": {}})
            ev(("text", m, repr(t)))
            if r[0] != "error":
                violate("text %r" % (t,), {"method": m, "text": repr(t), "got": str(r)})
            accounts(1, ("text", m, repr(t)))
            judge(good, attempt(e, good), "after a refused text")
    # the answer cannot be decoded: it is released all the same
    for m in ("parse", "get_slots", "get_intents"):
        c = [c for c in w["calls"] if c["method"] == m and "ok" in c][0]

        def fail(*_a, **_k):
            raise RuntimeError("planted")
        json.loads = fail
        try:
            attempt(e, c)
        finally:
            json.loads = real_loads
        ev(("decode", m))
        accounts(1, ("answer that cannot be decoded", m))
        judge(c, attempt(e, c), "after an answer that could not be decoded")
    del e
    accounts(0, "deleted after refused arguments")
    for kw in ({}, {"engine_dir": None}, {"engine_dir": None, "engine_bytes": None}):
        try:
            NLUEngine(**kw)
            violate("engine of nothing %r" % (kw,), {"kwargs": repr(kw)})
        except ValueError:
            pass
        ev(("nothing", sorted(kw)))
        accounts(0, ("nothing", sorted(kw)))
    for d in job["broken"]:
        try:
            if "dir" in d:
                NLUEngine(engine_dir=d["dir"])
            else:
                NLUEngine(engine_bytes=bytearray(open(d["zip"], "rb").read()[:d["size"]]))
            violate("broken engine %s" % d["what"], d)
        except ValueError as e:
            if any(m not in str(e) for m in d["err"]):
                violate("broken engine %s" % d["what"], {"case": d, "message": str(e)})
        except Exception as e:
            violate("broken engine %s" % d["what"], {"case": d, "error": repr(e)})
        ev(("broken", d["what"]))
        accounts(0, ("broken", d["what"]))


def histories():
    """every history of the operations, against a model: the engines referenced; no string is ever left"""
    w = job["worlds"][0]
    hc = w["history_calls"]
    ops = ["dir", "bytes", "missing", "garbage", "filter", "oldest", "newest"] + list(range(len(hc)))
    depth = job["depth"]
    broken = [d for d in job["broken"] if "dir" in d][0]
    count = 0

    def enabled(n, op):
        if op in ("dir", "bytes", "missing", "garbage"):
            return True
        return n >= (2 if op == "newest" else 1)

    def extend(h, n):
        if len(h) == depth:
            yield h
            return
        for op in ops:
            if enabled(n, op):
                for x in extend(h + [op], n + (1 if op in ("dir", "bytes") else -1 if op in ("oldest", "newest") else 0)):
                    yield x
    for k, h in enumerate(extend([], 0)):
        if k % job["shards"] != job["shard"]:
            continue
        live = []
        fine = True
        for at, op in enumerate(h):
            what = "history %s at %d" % (h, at)
            if op in ("dir", "bytes"):
                live.append(open_engine(w, op))
            elif op in ("missing", "garbage"):
                try:
                    live.append(NLUEngine(engine_dir=broken["dir"]) if op == "missing" else NLUEngine(engine_bytes=bytearray(b"garbage")))
                    violate("creation %s" % what, {"history": h, "at": at})
                    fine = False
                except ValueError:
                    pass
            elif op == "filter":
                r = attempt(live[-1], {"method": "parse", "args": ["tea"], "kwargs": {"intents_whitelist": [1]}})
                if r[0] != "error" or not issubclass(r[1], TypeError):
                    violate("filter %s" % what, {"history": h, "at": at, "got": str(r)})
                    fine = False
            elif op == "oldest":
                live.pop(0)
            elif op == "newest":
                live.pop()
            else:
                fine = judge(hc[op], attempt(live[-1], hc[op]), what)
            out["transitions"] += 1
            out["states"].add((len(live), repr(h[max(0, at - 1):at + 1])))
            if not fine or not accounts(len(live), what):
                break
        count += 1
        out["traces"] += 1
        ev(("history", h))
        live.clear()
        if not accounts(0, "history %s over" % h):
            return
    out["notes"]["histories"] = count
    out["notes"]["history depth"] = depth


try:
    if job["shard"] == 0:
        calls()
        arguments()
    histories()
except Stop:
    pass
out["keys"] = sorted(out["keys"])
out["states"] = len(out["states"])
with open(sys.argv[2], "w") as f:
    json.dump(out, f, default=repr)
