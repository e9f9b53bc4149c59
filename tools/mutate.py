#!/usr/bin/env python3
"""Strength test of the checks: small changes of /repo's sources, each tried in a private copy (user and mount namespace).
mutate.py list                      the mutants, one per line
mutate.py run WORKER CPUS OUT < ids  runs the checks of the file until one reports; OUT gets a JSON line per mutant
This samples changes to measure the checks; no check uses it."""
import json, os, re, subprocess, sys, time

CHECKS = [
    (r"ffi/src/lib\.rs", "C30 C31 C34"),
    (r"nlu_engine\.rs", "C01 C02 C09 C08 C29 C07 C05 C06 C03 C25 C21 C20 C22 C14"),
    (r"src/injection/", "C27 C28 C33 C26"),
    (r"entity_parser/", "C13 C06 C32 C24 C14 C03 C22 C20 C26"),
    (r"featurizer\.rs", "C18 C20 C22"),
    (r"log_reg_intent", "C19 C18 C12 C20 C22"),
    (r"logreg\.rs", "C19 C22"),
    (r"deterministic", "C10 C01 C02 C08 C20 C22 C23"),
    (r"lookup", "C11 C01 C02 C08 C20 C23 C22"),
    (r"probabilistic", "C12 C01 C02 C08 C20 C22"),
    (r"src/models/", "C20 C21 C22"),
    (r"resources/", "C24 C22 C16"),
    (r"crf_slot_filler", "C15 C12 C16 C06 C17 C20 C22"),
    (r"crf_utils", "C15 C17 C12 C16"),
    (r"feature_processor", "C16 C20 C22"),
    (r"features", "C16 C22 C20"),
    (r"slot_utils", "C06 C05 C10 C12 C04 C26"),
    (r"src/utils\.rs", "C10 C11 C04 C25 C23 C16"),
    (r"language\.rs", "C24 C16 C20 C03 C22"),
    (r"macros\.rs|mod\.rs|errors\.rs|lib\.rs", "C20 C24 C16 C22 C25"),
]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.start\b", ".end"), (r"\.end\b", ".start"),
       (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\b0\.0\b", "1.0"), (r"\b1\.0\b", "0.5"), (r"\.rev\(\)", ""), (r"\.skip\([^()]*\)", ""), (r"\.take\([^()]*\)", ""),
       (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.to_lowercase\(\)", ".to_string()"), (r"\bcontinue\b", "break"), (r"\.dedup\(\)", ".len()"), (r"\.unique\(\)", ""),
       (r"\.is_empty\(\)", ".is_empty() == false"), (r"if !", "if "), (r"\b0\b(?![.\w])", "1"), (r"\b1\b(?![.\w])", "2"), (r"\.filter\((?:[^()]|\([^()]*\))*\)$", ""), (r"\.sort\w*\(", ".is_sorted_mc("),
       (r"\.union\(", ".intersection("), (r"\.intersection\(", ".union("), (r"\.ok_or_else", ".ok_or_else"), (r"\bOk\(None\)", "Ok(Default::default())"), (r"\.cloned\(\)$", ".cloned().filter(|_| false)"),
       (r"\bpartial_cmp\b", "partial_cmp"), (r"\.chars\(\)\.count\(\)", ".len()"), (r"\.unwrap_or\(([^()]*)\)", ".unwrap_or_default()"), (r"intents_whitelist", "intents_blacklist"), (r"\.push\(", ".insert(0, "), (r"\.get\(", ".get_mc(")]


def code(path):
    t = open(path).read()
    i = t.find("#[cfg(test)]\nmod")
    return t if i < 0 else t[:i]


def mutants(repo="/repo"):
    out = []
    files = subprocess.check_output(["git", "-C", repo, "ls-files", "src", "ffi/src"], text=True).split()
    for f in files:
        if not f.endswith(".rs") or "testutils" in f:
            continue
        lines = code(os.path.join(repo, f)).split("\n")
        for n, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(("//", "use ", "#", "pub use", "mod ", "extern", "impl", "pub struct", "struct", "->")):
                continue
            for k, (a, b) in enumerate(OPS):
                if "_mc(" in b or a == b:
                    continue
                for m in list(re.finditer(a, l))[:2]:
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if new != l:
                        out.append(("%s:%d:%d:%d" % (f, n + 1, k, m.start()), f, n, new))
            if s.endswith(";") and not re.match(r"(let|return|pub|const|type|static|break|continue|\}|\))", s) and s.count("(") == s.count(")"):
                out.append(("%s:%d:del" % (f, n + 1), f, n, ""))
    return out


def inner(base, cpus, cmd):
    sh = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec taskset -c %s %s" % (base, base, cpus, cmd)
    return subprocess.run(["unshare", "-Urm", "bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(os.environ, CARGO_BUILD_JOBS="4"))


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        for m in ms:
            print(m[0], "|", m[3].strip()[:150])
        return
    worker, cpus, outp = sys.argv[2:5]
    base = "/tmp/mw/" + worker
    by = {m[0]: m for m in ms}
    for i in sys.stdin.read().split():
        _, f, n, new = by[i]
        p = os.path.join(base, "repo", f)
        orig = open(os.path.join("/repo", f)).read()
        lines = orig.split("\n")
        old = lines[n]
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        res, t0 = {}, time.time()
        checks = next((c for r, c in CHECKS if re.search(r, f)), "C20 C22").split()
        for c in checks:
            r = inner(base, cpus, "timeout 400 bin/check " + c)
            v = "VIOL" if "VIOLATION" in r.stdout else "quiet" if r.returncode == 0 else "nobuild" if "does not build" in r.stderr else "rc%d" % r.returncode
            res[c] = v
            if v != "quiet":
                break
        open(p, "w").write(orig)
        with open(outp, "a") as o:
            o.write(json.dumps({"id": i, "old": old.strip(), "new": new.strip(), "res": res, "killed": any(v != "quiet" for v in res.values()), "s": round(time.time() - t0)}) + "\n")


main()
