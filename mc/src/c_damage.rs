//! Damaged model directories: other versions, missing, truncated and misplaced files, failing reads.
use crate::c_core::{queries, run};
use crate::c_models::*;
use crate::common::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::zipw;
use mc_env::faults::{install, uninstall, Mode};
use serde_json::{json, Value};
use snips_nlu_lib::SnipsNluEngine;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Cursor;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

pub fn load_zip(bytes: Vec<u8>) -> Ans<SnipsNluEngine> { ask(|| format!("load archive of {} bytes", bytes.len()), || SnipsNluEngine::from_zip(Cursor::new(bytes.clone()))) }
/// a displayable error
fn refused<T>(a: &Ans<T>) -> Result<&str, String> {
    match a { Ans::Err(e) if !e.trim().is_empty() => Ok(e), x => Err(x.why()) }
}

// ------------------------------------------------------------------------------------------- C21
const V: &str = "0.20.0";
fn near(v: &str, alphabet: &[char]) -> BTreeSet<String> {
    let c: Vec<char> = v.chars().collect();
    let mut out = BTreeSet::new();
    for i in 0..=c.len() {
        for a in alphabet {
            let mut x = c.clone();
            x.insert(i, *a);
            out.insert(x.into_iter().collect());
            if i < c.len() { let mut x = c.clone(); x[i] = *a; out.insert(x.into_iter().collect()); }
        }
        if i < c.len() {
            let mut x = c.clone();
            x.remove(i);
            out.insert(x.into_iter().collect());
            for j in i + 1..c.len() { let mut x = c.clone(); x.swap(i, j); out.insert(x.into_iter().collect()); }
        }
    }
    out
}
pub fn c21(ctx: &Ctx) {
    ctx.rule("a version other than the supported one (refused), or the supported one written differently (accepted)");
    let w = world(ctx, lean());
    let base = behaviour(&w.spec, &w.dir, &TEXTS[..4]);
    if base.is_err() { ctx.violate("load", json!({"why": base.err()})); return; }
    // the versions
    let alphabet: Vec<char> = "0129.-+vVaX *^\n\u{0}é０,_".chars().collect();
    let mut versions = near(V, &alphabet);
    if ctx.thorough { let more: Vec<BTreeSet<String>> = versions.iter().map(|v| near(v, &['0', '1', '2', '.', ' ', '-'])).collect(); for m in more { versions.extend(m); } }
    for v in ["", "0", "0.20", "0.2.0.0", "0.20.0.0", "0.20.0-rc1", "0.20.0+build", "0.20.0 ", " 0.20.0", "\u{feff}0.20.0", "0.20.0\u{200b}", "v0.20.0", "=0.20.0", "^0.20.0", ">=0.0.0", "*", "latest", "None", "null", "0.20.0a", "0.19.0", "0.19.9", "0.21.0", "0.20.1", "0.20.2", "1.0.0", "0.65.0", "0,20,0", "0.20.0\n", "00.20.00", "0x14", "0.20.O", "٠.٢٠.٠", "0.20.0/../0.20.0", "0.18.0", "0.17.4", "0.16.0", "0.20.00", "0.020.0"] { versions.insert(s(v)); }
    for a in 0..3 { for b in 0..24 { for c in 0..4 { versions.insert(format!("{}.{}.{}", a, b, c)); } } }
    versions.remove(V);
    let versions: Vec<String> = versions.into_iter().collect();
    // the rest of the model: 0 whole, 1 nothing else in the file, 2 no other file, 3 every other field broken
    let rest = ["as it should be", "nothing but the version", "no other file", "every other field of another type", "unknown unit"];
    let make = |d: &Path, version: Value, kind: usize| {
        if kind != 2 { copy_tree(&w.dir, d) } else { std::fs::create_dir_all(d).unwrap() }
        let mut m = read_json(&w.dir.join("nlu_engine.json"));
        match kind {
            1 => m = json!({}),
            3 => for x in m.as_object_mut().unwrap().values_mut() { *x = json!(7); },
            4 => m["unit_name"] = json!("other_engine"),
            _ => {}
        }
        m["model_version"] = version;
        put(&d.join("nlu_engine.json"), &m);
    };
    let chunk = 60;
    let zips = Mutex::new(0usize);
    for kind in 0..5 {
        ctx.par(versions.len().div_ceil(chunk), |j| {
            let d = fresh_dir(ctx).join("engine");
            make(&d, json!("?"), kind);
            for v in &versions[j * chunk..((j + 1) * chunk).min(versions.len())] {
                if ctx.stopped() { return; }
                let mut m = read_json(&d.join("nlu_engine.json"));
                m["model_version"] = json!(v);
                put(&d.join("nlu_engine.json"), &m);
                let key = format!("version {:?}, {}", v, rest[kind]);
                ctx.eval(Some(&key));
                let judge = |a: Ans<SnipsNluEngine>, how: &str| {
                    let names = |e: &str| { let e = e.replace(&d.display().to_string(), ""); let quoted = format!("{:?}", v); let q = &quoted[1..quoted.len() - 1]; [v.as_str(), q].iter().any(|v| { let (a, b) = if v.len() > V.len() { (*v, V) } else { (V, *v) }; e.contains(a) && e.replacen(a, "", 1).contains(b) }) };
                    let fine = match &a { Ans::Err(e) => names(e), _ => false };
                    if !fine { ctx.violate(&format!("{}{}", key, how), json!({"version": v, "rest of the model": rest[kind], "loaded": how, "expected": "an error naming both versions", "got": a.why()})); }
                };
                judge(load(&d), "");
                if v.len() < 7 && kind < 3 || kind == 0 && ctx.thorough {
                    *zips.lock().unwrap() += 1;
                    judge(load_zip(zipw::archive(&zipw::entries(&d, "engine", false, false))), " from an archive");
                }
            }
            let _ = std::fs::remove_dir_all(&d);
        });
    }
    // versions that are no text, and files that cannot be read
    let text = serde_json::to_vec_pretty(&read_json(&w.dir.join("nlu_engine.json"))).unwrap();
    let mut files: Vec<(String, Option<Vec<u8>>)> = vec![(s("no file"), None), (s("empty file"), Some(vec![]))];
    for v in [json!(null), json!(0.2), json!(20), json!(0), json!(["0.20.0"]), json!({"version": "0.20.0"}), json!(true), json!([0, 20, 0]), json!([]), json!({})] {
        let mut m = read_json(&w.dir.join("nlu_engine.json"));
        m["model_version"] = v.clone();
        files.push((format!("version {}", v), Some(m.to_string().into_bytes())));
    }
    for k in ["modelVersion", "Model_version", "model_version ", "MODEL_VERSION", "model-version", "version", "_model_version", "model_versio", "training_package_version", "nlu_engine_version"] {
        let mut m = read_json(&w.dir.join("nlu_engine.json"));
        let o = m.as_object_mut().unwrap();
        o.remove("model_version");
        o.insert(s(k), json!(V));
        files.push((format!("version under the name {:?}", k), Some(m.to_string().into_bytes())));
    }
    for (what, t) in [("twice, wrong then right", "{\"model_version\": \"0.19.0\", \"model_version\": \"0.20.0\", "), ("twice, right then wrong", "{\"model_version\": \"0.20.0\", \"model_version\": \"0.19.0\", ")] {
        let mut m = read_json(&w.dir.join("nlu_engine.json"));
        m.as_object_mut().unwrap().remove("model_version");
        files.push((s(what), Some(format!("{}{}", t, &m.to_string()[1..]).into_bytes())));
    }
    for (what, t) in [("an array", "[\"0.20.0\"]"), ("a text", "\"0.20.0\""), ("a number", "0.20"), ("nothing", "null"), ("bare", "0.20.0"), ("single quotes", "{'model_version': '0.20.0'}"), ("a comment", "// {}\n"), ("binary", "\u{1}\u{2}\u{3}"), ("brackets", "[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[["), ("an open brace", "{")] { files.push((s(what), Some(t.as_bytes().to_vec()))); }
    files.push((s("deeply nested"), Some("[".repeat(100_000).into_bytes())));
    files.push((s("deeply nested in an unknown field"), Some(format!("{{\"x\": {}", "[".repeat(100_000)).into_bytes())));
    for n in 0..text.len() { files.push((format!("the first {} bytes", n), Some(text[..n].to_vec()))); }
    ctx.par(files.len(), |i| {
        let (what, content) = &files[i];
        let d = fresh_dir(ctx).join("engine");
        copy_tree(&w.dir, &d);
        let f = d.join("nlu_engine.json");
        std::fs::remove_file(&f).unwrap();
        if let Some(c) = content { std::fs::write(&f, c).unwrap(); }
        ctx.eval(Some(what));
        for (how, a) in [("", load(&d)), (" from an archive", load_zip(zipw::archive(&zipw::entries(&d, "engine", false, true))))] {
            let fine = matches!(&a, Ans::Err(e) if e.contains("nlu_engine.json"));
            if !fine { ctx.violate(&format!("{}{}", what, how), json!({"nlu_engine.json": what, "expected": "an error naming the file", "got": a.why()})); }
        }
        let _ = std::fs::remove_dir_all(&d);
    });
    // the supported version
    let mut good: Vec<(String, String)> = vec![];
    let m = read_json(&w.dir.join("nlu_engine.json"));
    let t = m.to_string();
    good.push((s("escaped"), t.replace("\"model_version\":\"0.20.0\"", "\"model_version\":\"\\u0030\\u002e2\\u0030.\\u0030\"")));
    good.push((s("escaped name"), t.replace("\"model_version\":", "\"\\u006dodel_version\":")));
    for v in ["", "0.19.0", "1.0.0", "0.20.1", "latest", V] { let mut m = m.clone(); m["training_package_version"] = json!(v); good.push((format!("training package version {:?}", v), m.to_string())); }
    let keys: Vec<String> = m.as_object().unwrap().keys().cloned().collect();
    for at in 0..keys.len() {
        let mut order: Vec<&String> = keys.iter().filter(|k| *k != "model_version").collect();
        let mv = s("model_version");
        order.insert(at, &mv);
        good.push((format!("at place {}", at), format!("{{{}}}", order.iter().map(|k| format!("{}: {}", json!(k), m[k.as_str()])).collect::<Vec<_>>().join(" , "))));
    }
    for f in ["other_version", "model_versions", "runner_version", "Model_Version"] { let mut m = m.clone(); m[f] = json!("0.19.0"); good.push((format!("beside {:?}", f), m.to_string())); }
    for (what, t) in good {
        let d = fresh_dir(ctx).join("engine");
        copy_tree(&w.dir, &d);
        std::fs::write(d.join("nlu_engine.json"), t).unwrap();
        ctx.eval(Some(&what));
        let b = behaviour(&w.spec, &d, &TEXTS[..4]);
        if b.as_ref().ok() != base.as_ref().ok() { ctx.violate(&what, json!({"supported version written": what, "expected": "the same engine", "got": b.err()})); }
    }
    if snips_nlu_lib::MODEL_VERSION != V { ctx.violate("reported version", json!({"reported": snips_nlu_lib::MODEL_VERSION, "models of": V})); }
    ctx.note("versions", json!(versions.len()));
    ctx.note("loads from an archive", json!(*zips.lock().unwrap()));
}

// ------------------------------------------------------------------------------------------- C22
/// files of an engine directory that loading needs
fn needed(dir: &Path) -> Vec<PathBuf> {
    files_of(dir).into_iter().filter(|p| !p.ends_with("grammar.json") && !(p.file_name().unwrap() == "metadata.json" && p.display().to_string().contains("featurizer"))).collect()
}
fn is_json(p: &Path) -> bool { p.extension().map(|e| e == "json").unwrap_or(false) }
/// an engine from a damaged directory never panics: neither loading nor queries
fn no_panic(ctx: &Ctx, key: &str, spec: &Engine, a: &Ans<SnipsNluEngine>, what: Value) -> bool {
    match a {
        Ans::Panic(p) => { ctx.violate(key, json!({"damage": what, "load": p})); false }
        Ans::Err(e) if e.trim().is_empty() => { ctx.violate(key, json!({"damage": what, "load": "an error without a message"})); false }
        Ans::Err(_) => true,
        Ans::Ok(e) => {
            for t in TEXTS.iter() { for q in queries(spec, t) {
                let r = run(e, &q);
                if r.as_str().map(|x| x.starts_with("panic")).unwrap_or(false) { ctx.violate(key, json!({"damage": what, "load": "ok", "query": format!("{:?}", q), "got": r})); return false; }
            } }
            true
        }
    }
}
fn bits(ctx: &Ctx, len: usize, quick: usize) -> Vec<usize> {
    if ctx.thorough || len <= quick { (0..len).collect() } else { let mut v: Vec<usize> = (0..quick).map(|i| i * len / quick).collect(); v.extend(len.saturating_sub(12)..len); v.dedup(); v }
}
pub fn c22(ctx: &Ctx) {
    ctx.rule("one damage to one file, one failing operation, or one inconsistency between files");
    ctx.level("fault_enumeration");
    let ws = [world(ctx, full()), world(ctx, lean())];
    for w in &ws { if let Err(e) = behaviour(&w.spec, &w.dir, &TEXTS[..2]) { ctx.violate("load", json!({"engine": w.spec.name, "why": e})); return; } }
    let counts = Mutex::new(BTreeMap::<String, usize>::new());
    let count = |k: &str| *counts.lock().unwrap().entry(s(k)).or_insert(0) += 1;
    enum Exp { Err, NoPanic }
    // --- one file
    let mut jobs: Vec<(usize, PathBuf)> = vec![];
    for (i, w) in ws.iter().enumerate() { for f in needed(&w.dir) { if i == 0 || is_json(&f) { jobs.push((i, f)); } } }
    ctx.par(jobs.len(), |j| {
        let (wi, f) = &jobs[j];
        let w = &ws[*wi];
        let d = fresh_dir(ctx).join("e");
        copy_tree(&w.dir, &d);
        let at = d.join(f);
        let orig = std::fs::read(&at).unwrap();
        let text = !is_json(f) && !f.display().to_string().contains("crfsuite");
        let clear = || { if std::fs::symlink_metadata(&at).map(|m| m.is_dir()).unwrap_or(false) { std::fs::remove_dir_all(&at).unwrap() } else { let _ = std::fs::remove_file(&at); } };
        let check = |what: &str, exp: Exp| {
            if ctx.stopped() { return; }
            let key = format!("{} {}: {}", w.spec.name, f.display(), what);
            ctx.eval(Some(&key));
            count(what.split(' ').next().unwrap());
            let a = load(&d);
            match exp {
                Exp::Err => if let Err(got) = refused(&a) { ctx.violate(&key, json!({"engine": w.spec.name, "file": f, "damage": what, "expected": "an error", "got": got})); },
                Exp::NoPanic => { no_panic(ctx, &key, &w.spec, &a, json!([w.spec.name, f, what])); }
            }
            ctx.sample(|| json!({"file": f, "damage": what, "got": a.why()}));
        };
        let write = |b: &[u8]| { clear(); std::fs::write(&at, b).unwrap(); };
        clear();
        check("missing", Exp::Err);
        std::fs::create_dir(&at).unwrap();
        check("directory in its place", Exp::Err);
        std::fs::write(at.join("x"), "y").unwrap();
        check("directory in its place, with a file", Exp::Err);
        clear();
        std::os::unix::fs::symlink("nowhere", &at).unwrap();
        check("link to nowhere", Exp::Err);
        clear();
        std::os::unix::fs::symlink(at.file_name().unwrap(), &at).unwrap();
        check("link to itself", Exp::Err);
        write(&[]);
        check("empty", if text { Exp::NoPanic } else { Exp::Err });
        for (what, b) in [("not UTF-8", &b"\xff\xfe\x00\x80"[..]), ("not UTF-8 after a line", b"a\tb\n\xff\xc3\n"), ("cut inside a character", b"a,b\n\xc3")] { write(b); check(&format!("garbage, {}", what), Exp::Err); }
        if !text {
            let mut junk = vec!["null", "[]", "{}", "\"a\"", "1", "[{}]", "{\"a\":", "x", "\u{feff}{}", "{}{}"];
            // (a dependency's own file of this form is its own matter)
            if f.display().to_string().contains("parser/parser") || f.display().to_string().contains("builtin") || f.display().to_string().contains("crfsuite") { junk.retain(|x| serde_json::from_str::<Value>(x).is_err()); }
            for b in junk { write(b.as_bytes()); check(&format!("garbage, {}", b), Exp::Err); }
            let mut more = orig.clone();
            more.extend_from_slice(b" x");
            write(&more);
            check("garbage at its end", Exp::Err);
            let mut twice = orig.clone();
            twice.extend_from_slice(&orig);
            write(&twice);
            check("garbage: itself again", Exp::Err);
        } else {
            for b in ["\n", "\n\n", "\t\n", ",\n", "a\n", "\r\n", "a\tb\tc\n", "\ta\n", "a\t\n", "a,\n", ",a\n", "\"\n", "\"a\n", "a\u{0}b\n", "\u{feff}a\n", "\u{2028}\n", "a,b\nc\n", "a,b\nc,d,e\n"] { write(b.as_bytes()); check(&format!("text {:?}", b), Exp::NoPanic); }
        }
        for n in bits(ctx, orig.len(), 90) {
            write(&orig[..n]);
            let same = !text && serde_json::from_slice::<Value>(&orig[..n]).is_ok();
            let invalid = std::str::from_utf8(&orig[..n]).is_err();
            check(&format!("cut after {} bytes", n), if invalid || !text && !same { Exp::Err } else { Exp::NoPanic });
        }
        for n in bits(ctx, orig.len(), 30) {
            let mut subs: Vec<(String, Vec<u8>)> = vec![];
            for b in [0xffu8, 0, b'"', b'}', b'9', b'-'] { if orig[n] != b { let mut x = orig.clone(); x[n] = b; subs.push((format!("{:#x}", b), x)); } }
            let mut x = orig.clone();
            x.remove(n);
            subs.push((s("nothing"), x));
            for (b, x) in subs {
                // (an invalid byte inside a text that nobody reads may go unseen)
                let broken = if text { std::str::from_utf8(&x).is_err() } else { serde_json::from_str::<Value>(&String::from_utf8_lossy(&x)).is_err() };
                write(&x);
                check(&format!("byte {} is {}", n, b), if broken { Exp::Err } else { Exp::NoPanic });
            }
        }
        // another file in its place
        for other in needed(&w.dir) {
            let o = std::fs::read(w.dir.join(&other)).unwrap();
            let same_kind = |a: &Path, b: &Path| a.file_name() == b.file_name() && a.parent().and_then(|p| p.parent()) == b.parent().and_then(|p| p.parent()) && a.display().to_string().contains("slot_filler_");
            if o == orig || same_kind(f, &other) { continue; }
            let foreign = text || f.file_name() == other.file_name() || f.display().to_string().contains("entity_parser") || f.display().to_string().contains("crfsuite");
            write(&o);
            check(&format!("replaced by {}", other.display()), if foreign { Exp::NoPanic } else { Exp::Err });
        }
        write(&orig);
        let _ = std::fs::remove_dir_all(&d);
    });
    // --- one directory
    let w = &ws[0];
    let dirs: Vec<PathBuf> = snapshot(&w.dir).into_iter().filter(|x| x.1.is_none()).map(|x| x.0).collect();
    ctx.par(dirs.len(), |j| {
        let f = &dirs[j];
        let d = fresh_dir(ctx).join("e");
        copy_tree(&w.dir, &d);
        let at = d.join(f);
        let check = |what: String, err: bool| {
            let key = format!("{}: {}", f.display(), what);
            ctx.eval(Some(&key));
            count("directory");
            let a = load(&d);
            if err { if let Err(got) = refused(&a) { ctx.violate(&key, json!({"directory": f, "damage": what, "expected": "an error", "got": got})); } } else { no_panic(ctx, &key, &w.spec, &a, json!([f, what])); }
        };
        let aside = d.parent().unwrap().join("aside");
        std::fs::rename(&at, &aside).unwrap();
        check(s("missing"), true);
        std::fs::write(&at, "{}").unwrap();
        check(s("a file in its place"), true);
        std::fs::remove_file(&at).unwrap();
        std::fs::create_dir(&at).unwrap();
        check(s("empty"), true);
        std::fs::remove_dir(&at).unwrap();
        for other in &dirs {
            if other == f || other.starts_with(f) || f.starts_with(other) { continue; }
            copy_tree(&w.dir.join(other), &at);
            // a parser in the place of another parser, or a slot filler in the place of another one, is what it is
            let top = |p: &Path| p.components().count() == 1 && p.display().to_string().contains("intent_parser");
            let filler = |p: &Path| p.display().to_string().contains("slot_filler_");
            let entity = |p: &Path| { let p = p.display().to_string(); p.contains("entity_parser") || p.contains("resources") };
            check(format!("{} in its place", other.display()), !(top(f) && top(other) || filler(f) && filler(other) || entity(f) && entity(other)));
            std::fs::remove_dir_all(&at).unwrap();
        }
        let _ = std::fs::remove_dir_all(d.parent().unwrap());
    });
    faults(ctx, &ws);
    archives(ctx, &ws[1]);
    inconsistent(ctx, &ws[0]);
    odd_places(ctx, &ws[1]);
    units(ctx, &ws[0]);
    ctx.note("damages", json!(*counts.lock().unwrap()));
}
/// an error at every operation of loading
fn faults(ctx: &Ctx, ws: &[World]) {
    let mut total = BTreeMap::new();
    for w in ws {
        for zip in [false, true] {
            let bytes = zipw::archive(&zipw::entries(&w.dir, "engine", true, true));
            let go = |m: Mode| {
                install(m, true, true);
                let a = if zip { load_zip(bytes.clone()) } else { load(&w.dir) };
                (a, uninstall())
            };
            let (a, all) = go(Mode::Count);
            if a.ok().is_none() { ctx.violate("load", json!({"engine": w.spec.name, "why": a.why()})); return; }
            total.insert(format!("{}{}", w.spec.name, if zip { " from an archive" } else { "" }), all.ops);
            ctx.par(all.ops, |n| {
                for from in [false, true] {
                    if ctx.stopped() { return; }
                    let (a, sum) = go(if from { Mode::FailFrom(n) } else { Mode::FailAt(n) });
                    let what = sum.trace.get(n).cloned().unwrap_or_default();
                    let key = format!("{}{} fails: {}{}", w.spec.name, if zip { " from an archive" } else { "" }, what, if from { " and everything later" } else { "" });
                    ctx.eval(Some(&key));
                    // (taking away what is no longer needed may fail unseen)
                    let unseen = what.starts_with("remove");
                    if sum.fired && !unseen { if let Err(got) = refused(&a) { ctx.violate(&key, json!({"engine": w.spec.name, "operation": n, "failing": what, "later ones too": from, "archive": zip, "expected": "an error", "got": got})); } }
                    if let Ans::Panic(p) = &a { ctx.violate(&key, json!({"failing": what, "got": p})); }
                }
            });
        }
    }
    ctx.note("operations of a load", json!(total));
}
/// archives cut, or with a byte changed
fn archives(ctx: &Ctx, w: &World) {
    for deflate in [false, true] {
        let bytes = zipw::archive(&zipw::entries(&w.dir, "engine", deflate, false));
        let cuts: Vec<usize> = bits(ctx, bytes.len(), 1500);
        ctx.par(cuts.len(), |i| {
            let n = cuts[i];
            let key = format!("archive{} cut after {} bytes", if deflate { " (deflated)" } else { "" }, n);
            ctx.eval(Some(&key));
            let a = load_zip(bytes[..n].to_vec());
            if let Err(got) = refused(&a) { ctx.violate(&key, json!({"cut after": n, "of": bytes.len(), "expected": "an error", "got": got})); }
        });
        let flips = bits(ctx, bytes.len(), 700);
        ctx.par(flips.len(), |i| {
            for b in [0xffu8, 0, b'/', b'.'] {
                let n = flips[i];
                let mut x = bytes.clone();
                if x[n] == b { continue; }
                x[n] = b;
                let key = format!("archive{} with byte {} = {:#x}", if deflate { " (deflated)" } else { "" }, n, b);
                ctx.eval(Some(&key));
                if let Ans::Panic(p) = load_zip(x) { ctx.violate(&key, json!({"byte": n, "value": b, "got": p})); }
            }
        });
    }
    for (what, b) in [("nothing", vec![]), ("text", b"not an archive".to_vec()), ("no entries", zipw::archive(&[])), ("one directory", zipw::archive(&[zipw::dir("engine")])), ("one empty file", zipw::archive(&[zipw::file("engine", b"", false)])),
        ("one empty name", zipw::archive(&[zipw::file("", b"x", false)])), ("one root", zipw::archive(&[zipw::dir("")])), ("one dot", zipw::archive(&[zipw::file(".", b"x", false)])), ("dots", zipw::archive(&[zipw::file("../..", b"x", false)])),
        ("a file as a directory", zipw::archive(&[zipw::file("engine", b"x", false), zipw::file("engine/nlu_engine.json", b"{}", false)])), ("a directory as a file", zipw::archive(&[zipw::file("engine/nlu_engine.json", b"{}", false), zipw::file("engine", b"x", false)])),
        ("a file twice", zipw::archive(&[zipw::file("engine/nlu_engine.json", b"{}", false), zipw::file("engine/nlu_engine.json", b"{}", false)])), ("a file, then a directory", zipw::archive(&[zipw::file("engine", b"x", false), zipw::dir("engine")])),
        ("a long name", zipw::archive(&[zipw::file(&format!("engine/{}", "x".repeat(300)), b"x", false)])), ("a deep name", zipw::archive(&[zipw::file(&"x/".repeat(3000), b"x", false)])), ("a zero in a name", zipw::archive(&[zipw::file("engine/a\u{0}b", b"x", false)])), ("a name of spaces", zipw::archive(&[zipw::file(" / ", b"x", false)]))] {
        ctx.eval(Some(what));
        let a = load_zip(b);
        if let Err(got) = refused(&a) { ctx.violate(&format!("archive of {}", what), json!({"archive": what, "expected": "an error", "got": got})); }
    }
}
/// readable files that do not belong together: an error when loading, or at least no panic later
fn inconsistent(ctx: &Ctx, w: &World) {
    let p = "probabilistic_intent_parser";
    let (c, f) = (format!("{}/intent_classifier/intent_classifier.json", p), format!("{}/intent_classifier/featurizer", p));
    let (tf, co) = (format!("{}/tfidf_vectorizer/vectorizer.json", f), format!("{}/cooccurrence_vectorizer/vectorizer.json", f));
    let (d, l) = (s("deterministic_intent_parser/intent_parser.json"), s("lookup_intent_parser/intent_parser.json"));
    let mut v: Vec<(String, String, Value)> = vec![];
    for x in [json!([]), json!([[]]), json!([[1.0]]), json!([[], [], [], [], []]), json!([[1.0], [1.0, 2.0]]), json!([[1.0, 2.0], [1.0]]), json!(null)] { v.push((c.clone(), s("/coeffs"), x)); }
    let model = read_json(&w.dir.join(&c));
    let rows = model["coeffs"].as_array().unwrap().len();
    for i in 0..rows {
        let mut m = model["coeffs"].clone(); m.as_array_mut().unwrap().remove(i); v.push((c.clone(), s("/coeffs"), m));
        let mut m = model["coeffs"].clone(); m[i].as_array_mut().unwrap().pop(); v.push((c.clone(), s("/coeffs"), m));
        let mut m = model["coeffs"].clone(); m[i].as_array_mut().unwrap().push(json!(0.5)); v.push((c.clone(), s("/coeffs"), m));
        let mut m = model["coeffs"].clone(); m[i] = json!([]); v.push((c.clone(), s("/coeffs"), m));
        let mut m = model["intercept"].clone(); m.as_array_mut().unwrap().remove(i); v.push((c.clone(), s("/intercept"), m));
    }
    let mut all_short = model["coeffs"].clone();
    for r in all_short.as_array_mut().unwrap() { r.as_array_mut().unwrap().pop(); }
    let mut all_long = model["coeffs"].clone();
    for r in all_long.as_array_mut().unwrap() { r.as_array_mut().unwrap().push(json!(1.0)); }
    for x in [all_short, all_long] { v.push((c.clone(), s("/coeffs"), x)); }
    let mut m = model["coeffs"].clone(); let r = m[0].clone(); m.as_array_mut().unwrap().push(r); v.push((c.clone(), s("/coeffs"), m));
    for x in [json!([]), json!([0.5]), json!([0.5, 0.5, 0.5, 0.5, 0.5, 0.5]), json!([1e30, -1e30, 1e38, -3e38, 0.0]), json!([1e300, 0, 0, 0, 0]), json!(null)] { v.push((c.clone(), s("/intercept"), x)); }
    for x in [json!([]), json!([null]), json!(["Make"]), json!(["Make", "Light"]), json!(["Make", "Light", "When", "Hello"]), json!(["Make", "Light", "When", "Hello", null, "More"]), json!(["Make", "Make", "Make", "Make", "Make"]), json!([null, null, null, null, null]), json!(["Unknown", "Light", "When", "Hello", null]), json!(["", "Light", "When", "Hello", null])] { v.push((c.clone(), s("/intent_list"), x)); }
    for x in ["tfidf_vectorizer", "cooccurrence_vectorizer"] { v.push((format!("{}/featurizer.json", f), format!("/{}", x), json!(if x == "tfidf_vectorizer" { "cooccurrence_vectorizer" } else { "tfidf_vectorizer" }))); v.push((format!("{}/featurizer.json", f), format!("/{}", x), json!(""))); v.push((format!("{}/featurizer.json", f), format!("/{}", x), json!(".."))); }
    v.push((format!("{}/featurizer.json", f), s("/cooccurrence_vectorizer"), json!(null)));
    for x in [json!([]), json!([1.0]), json!([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), json!([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), json!([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]), json!([1e38, 1e38, 1e38, 1e38, 1e38, 1e38, 1e38, 1e38, 1e38, 1e38, 1e38])] { v.push((tf.clone(), s("/vectorizer/idf_diag"), x)); }
    for x in [json!({}), json!({"make": 0}), json!({"make": 11}), json!({"make": 4294967296u64}), json!({"make": u64::MAX}), json!({"make": 3, "tea": 3}), json!({"": 0}), json!({"make tea": 2})] { v.push((tf.clone(), s("/vectorizer/vocab"), x)); }
    v.push((tf.clone(), s("/vectorizer"), json!({"idf_diag": [], "vocab": {}})));
    for x in [json!({}), json!({"0": ["make", "DRINK"]}), json!({"5": ["make", "DRINK"]}), json!({"1000": ["make", "DRINK"]}), json!({"18446744073709551615": ["make", "DRINK"]}), json!({"0": ["make", "DRINK"], "00": ["make", "DRINK"]}), json!({"0": ["make", "DRINK"], "1": ["make", "DRINK"]}), json!({"0": ["", ""], "1": ["a", "a"]}), json!({"0": ["SNIPSNUMBER", "ROOM"], "2": ["make", "DRINK"]}), json!({"1": ["SNIPSNUMBER", "ROOM"], "2": ["make", "DRINK"]}), json!({"1": ["make", "DRINK"]})] { v.push((co.clone(), s("/word_pairs"), x)); }
    for x in [0u64, 1, 1000000, u64::MAX, u64::MAX - 1, 1 << 63] { v.push((co.clone(), s("/config/window_size"), json!(x))); }
    for x in ["", " ", "%", "make"] { v.push((co.clone(), s("/config/unknown_words_replacement_string"), json!(x))); }
    // the pattern parser
    for x in [json!({}), json!({"group0": "nothing"}), json!({"group0": ""})] { v.push((d.clone(), s("/group_names_to_slot_names"), x)); }
    let det = read_json(&w.dir.join(&d));
    for k in det["group_names_to_slot_names"].as_object().unwrap().keys() {
        let mut m = det["group_names_to_slot_names"].clone();
        m.as_object_mut().unwrap().remove(k);
        v.push((d.clone(), s("/group_names_to_slot_names"), m.clone()));
        m[k] = json!("unheard_of");
        v.push((d.clone(), s("/group_names_to_slot_names"), m));
    }
    for x in [json!({}), json!({"Make": {}}), json!({"Other": {"x": "y"}})] { v.push((d.clone(), s("/slot_names_to_entities"), x)); }
    for (i, sl) in det["slot_names_to_entities"].as_object().unwrap() {
        let mut m = det["slot_names_to_entities"].clone();
        m.as_object_mut().unwrap().remove(i);
        v.push((d.clone(), s("/slot_names_to_entities"), m));
        for k in sl.as_object().unwrap().keys() {
            let mut m = det["slot_names_to_entities"].clone();
            m[i].as_object_mut().unwrap().remove(k);
            v.push((d.clone(), s("/slot_names_to_entities"), m));
            for e in ["unheard of", "", "snips/nothing"] { let mut m = det["slot_names_to_entities"].clone(); m[i][k] = json!(e); v.push((d.clone(), s("/slot_names_to_entities"), m)); }
        }
    }
    for x in [json!({}), json!({"Make": []}), json!({"Unknown": ["^make$"]}), json!({"Make": [""]}), json!({"Make": ["^$"]}), json!({"Make": [".*"]}), json!({"Make": ["(?P<group0>.*)(?P<group1>.*)(?P<group2>.*)"]}), json!({"Make": ["^(?P<group0>a?)(?P<group1>.?)$"]}), json!({"Make": ["(?P<other>.+)"]}), json!({"Make": ["(.+)"]}), json!({"Make": ["(?P<group3>.+)"]}), json!({"Make": ["(?P<group0>x)|(?P<group1>.+)"]})] { v.push((d.clone(), s("/patterns"), x)); }
    for x in [json!({"Unknown": ["the"]}), json!({"Make": []}), json!({"Make": ["not a stop word"]})] { v.push((d.clone(), s("/stop_words_whitelist"), x.clone())); v.push((l.clone(), s("/stop_words_whitelist"), x)); }
    // the lookup parser
    let look = read_json(&w.dir.join(&l));
    for (k, e) in look["map"].as_object().unwrap() {
        for i in [-1i64, 4, 100, i32::MAX as i64, i32::MIN as i64] { let mut m = look["map"].clone(); m[k][0] = json!(i); v.push((l.clone(), s("/map"), m)); }
        for n in 0..e[1].as_array().unwrap().len() { for i in [-1i64, 6, 100, i32::MAX as i64, i32::MIN as i64] { let mut m = look["map"].clone(); m[k][1][n] = json!(i); v.push((l.clone(), s("/map"), m)); } }
        for sl in [json!([]), json!([0, 0, 0, 0, 0])] { let mut m = look["map"].clone(); m[k][1] = sl; v.push((l.clone(), s("/map"), m)); }
    }
    for x in [json!([]), json!(["Make"]), json!(["Unknown", "Light", "When", "Hello"]), json!(["Make", "Make", "Make", "Make"])] { v.push((l.clone(), s("/intents_names"), x)); }
    for x in [json!([]), json!(["count"]), json!(["a", "b", "c", "d", "e", "f"])] { v.push((l.clone(), s("/slots_names"), x)); }
    for x in [json!([]), json!([{"intent_group": ["Make"], "entity_scope": {"builtin": [], "custom": []}}]), json!([{"intent_group": [], "entity_scope": {"builtin": ["snips/number"], "custom": ["drink"]}}]), json!([{"intent_group": ["Unknown"], "entity_scope": {"builtin": ["snips/number"], "custom": ["drink"]}}]), json!([{"intent_group": ["Make"], "entity_scope": {"builtin": ["snips/nothing"], "custom": ["drink"]}}]), json!([{"intent_group": ["Make"], "entity_scope": {"builtin": ["snips/number"], "custom": ["nothing"]}}]), json!([{"intent_group": ["Make"], "entity_scope": {"builtin": ["snips/number", "snips/number"], "custom": ["drink", "drink"]}}])] { v.push((l.clone(), s("/entity_scopes"), x)); }
    // slot fillers
    let pm = format!("{}/intent_parser.json", p);
    for x in [json!([]), json!([{"intent": "Make", "slot_filler_name": "slot_filler_0"}]), json!([{"intent": "Unknown", "slot_filler_name": "slot_filler_0"}]), json!([{"intent": "Make", "slot_filler_name": "slot_filler_0"}, {"intent": "Make", "slot_filler_name": "slot_filler_1"}]), json!([{"intent": "Light", "slot_filler_name": "slot_filler_0"}, {"intent": "Make", "slot_filler_name": "slot_filler_1"}]), json!([{"intent": "Make", "slot_filler_name": ""}]), json!([{"intent": "Make", "slot_filler_name": "."}])] { v.push((pm.clone(), s("/slot_fillers"), x)); }
    for i in 0..4 {
        let sf = format!("{}/slot_filler_{}/slot_filler.json", p, i);
        for x in [json!({}), json!({"what": "drink"}), json!({"x": "unheard of"}), json!({"what": "snips/nothing", "count": "", "where": "unheard of", "time": "drink", "place": "drink"})] { v.push((sf.clone(), s("/slot_name_mapping"), x)); }
        for x in [json!("Unknown"), json!("")] { v.push((sf.clone(), s("/intent"), x)); }
        v.push((sf.clone(), s("/crf_model_file"), json!(null)));
        v.push((sf.clone(), s("/config/feature_factory_configs"), json!([])));
        for sc in 0..3 { v.push((sf.clone(), s("/config/tagging_scheme"), json!(sc))); }
        if i < 3 {
            for x in [json!([]), json!(["O"]), json!([""]), json!(["B"]), json!(["é"]), json!(["O", "B-"]), json!(["B-what", "I-what"]), json!(["O", "B-nothing"])] {
                let x: Vec<String> = x.as_array().unwrap().iter().map(|t| base64::encode(t.as_str().unwrap())).collect();
                v.push((format!("{}/slot_filler_{}/model.crfsuite", p, i), s("/labels"), json!(x)));
            }
            for x in [json!(["***"]), json!(["/w=="]), json!(["O"])] { v.push((format!("{}/slot_filler_{}/model.crfsuite", p, i), s("/labels"), x)); }
        }
    }
    let sf = read_json(&w.dir.join(format!("{}/slot_filler_0/slot_filler.json", p)));
    let ff = sf["config"]["feature_factory_configs"].as_array().unwrap();
    for (i, x) in ff.iter().enumerate() {
        let ptr = |y: &str| format!("/config/feature_factory_configs/{}/{}", i, y);
        let file = format!("{}/slot_filler_0/slot_filler.json", p);
        for o in [json!([]), json!([i32::MAX]), json!([i32::MIN]), json!([i32::MIN + 1]), json!([-1000, 1000]), json!([0, 0, 0]), json!([0, i32::MAX, i32::MIN])] { v.push((file.clone(), ptr("offsets"), o)); }
        for a in ["n", "prefix_size", "suffix_size"] { if x["args"].get(a).is_some() { for n in [0, 1, 1000, 1u64 << 31, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX] { v.push((file.clone(), ptr(&format!("args/{}", a)), json!(n))); } } }
        for a in ["entities", "entity_labels"] { if x["args"].get(a).is_some() { for e in [json!([]), json!(["unheard of"]), json!([""]), json!(["drink", "drink"]), json!(["snips/number", "snips/number"])] { v.push((file.clone(), ptr(&format!("args/{}", a)), e)); } } }
    }
    // the engine
    let en = s("nlu_engine.json");
    for x in [json!([]), json!(["lookup_intent_parser", "lookup_intent_parser"]), json!([""]), json!(["."]), json!([".."]), json!(["resources"]), json!(["custom_entity_parser"]), json!(["probabilistic_intent_parser/intent_classifier"]), json!(["nothing"])] { v.push((en.clone(), s("/intent_parsers"), x)); }
    for x in [json!({}), json!({"drink": {"automatically_extensible": true}}), json!({"unheard of": {"automatically_extensible": true}})] { v.push((en.clone(), s("/dataset_metadata/entities"), x)); }
    for x in [json!({}), json!({"Make": {}}), json!({"Unknown": {"x": "unheard of"}}), json!({"Make": {"what": "unheard of", "count": ""}, "Light": {"where": "snips/nothing"}})] { v.push((en.clone(), s("/dataset_metadata/slot_name_mappings"), x)); }
    for k in ["builtin_entity_parser", "custom_entity_parser"] { for x in ["", ".", "..", "builtin_entity_parser", "custom_entity_parser", "resources", "nlu_engine.json"] { v.push((en.clone(), format!("/{}", k), json!(x))); } }
    for x in [0, 1, 2] { v.push((s("custom_entity_parser/metadata.json"), s("/parser_usage"), json!(x))); }
    for k in ["gazetteers", "word_clusters", "stems", "stop_words"] { v.push((s("resources/en/metadata.json"), format!("/{}", k), json!(null))); }
    for x in [json!([]), json!(["top", "top"]), json!([""]), json!(["."]), json!(["a/../top"])] { v.push((s("resources/en/metadata.json"), s("/gazetteers"), x)); }
    // entities that are listed as builtin and custom, or in no parser
    let chunk = 12;
    let loads = Mutex::new((0, 0));
    ctx.par(v.len().div_ceil(chunk), |j| {
        let dir = fresh_dir(ctx).join("e");
        copy_tree(&w.dir, &dir);
        for (file, ptr, x) in &v[j * chunk..((j + 1) * chunk).min(v.len())] {
            if ctx.stopped() { return; }
            let at = dir.join(file);
            let orig = std::fs::read(&at).unwrap();
            let mut m = read_json(&at);
            *m.pointer_mut(ptr).unwrap_or_else(|| panic!("{} {}", file, ptr)) = x.clone();
            put(&at, &m);
            let key = format!("inconsistent {} {} = {}", file, ptr, x.to_string().chars().take(300).collect::<String>());
            ctx.eval(Some(&key));
            let a = load(&dir);
            { let mut n = loads.lock().unwrap(); if a.ok().is_some() { n.0 += 1 } else { n.1 += 1 } }
            if no_panic(ctx, &key, &w.spec, &a, json!([file, ptr, x])) && a.ok().is_some() {
                // the same, one processing unit at a time
                if let Err(e) = behaviour(&w.spec, &dir, &TEXTS) { if e.contains("panic") { ctx.violate(&key, json!({"damage": [file, ptr, x], "loading one unit": e})); } }
            }
            std::fs::write(&at, &orig).unwrap();
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    ctx.note("inconsistent models (loaded, refused)", json!(*loads.lock().unwrap()));
}
/// a directory which says that it holds another kind of unit, or none; a word without its cluster
fn units(ctx: &Ctx, w: &World) {
    let known = ["deterministic_intent_parser", "lookup_intent_parser", "probabilistic_intent_parser", "crf_slot_filler", "log_reg_intent_classifier"];
    let files: Vec<(PathBuf, Value)> = needed(&w.dir).into_iter().filter(|f| is_json(f)).filter_map(|f| { let u = read_json(&w.dir.join(&f))["unit_name"].clone(); if known.iter().any(|k| u == json!(k)) { Some((f, u)) } else { None } }).collect();
    ctx.note("directories of units", json!(files.len()));
    ctx.par(files.len(), |j| {
        let (f, unit) = &files[j];
        let dir = fresh_dir(ctx).join("e");
        copy_tree(&w.dir, &dir);
        let mut names: Vec<Value> = known.iter().chain(&["featurizer", "tfidf_vectorizer", "cooccurrence_vectorizer", "nlu_engine", "", "intent_parser", "probabilistic_slot_filler", "rustling_parser", "snips_nlu.intent_parser"]).map(|x| json!(x)).collect();
        let u = unit.as_str().unwrap();
        names.extend([json!(u.to_uppercase()), json!(u.replace('_', "")), json!(u.replace('_', "-")), json!(format!("{} ", u)), json!(format!("{}s", u)), json!(u[1..]), json!(null), json!(1), json!([u]), json!({"unit_name": u})]);
        for n in names.iter().filter(|n| *n != unit) {
            let key = format!("{} holds a unit named {}", f.display(), n);
            put(&dir.join(f), &json!({"unit_name": n}));
            ctx.eval(Some(&key));
            if let Err(got) = refused(&load(&dir)) { ctx.violate(&key, json!({"file": f, "unit": n, "expected": "an error", "got": got})); }
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let dir = fresh_dir(ctx).join("e");
    copy_tree(&w.dir, &dir);
    for f in needed(&w.dir).iter().filter(|f| f.display().to_string().contains("word_clusters") && !is_json(f)) {
        let at = dir.join(f);
        let orig = std::fs::read_to_string(&at).unwrap();
        let first = orig.lines().next().unwrap();
        for b in [s("make"), s("make\n"), s("make\nroom\n"), format!("{}\nroom\n", first), format!("room\n{}\n", first), orig.replace('\t', " "), orig.replacen('\t', "", 1), orig.replace('\t', "")] {
            let key = format!("{} with a word without a cluster: {:?}", f.display(), b);
            std::fs::write(&at, &b).unwrap();
            ctx.eval(Some(&key));
            if let Err(got) = refused(&load(&dir)) { ctx.violate(&key, json!({"file": f, "content": b, "expected": "an error", "got": got})); }
        }
        std::fs::write(&at, &orig).unwrap();
    }
    let _ = std::fs::remove_dir_all(&dir);
}
/// engines in directories of unusual names
fn odd_places(ctx: &Ctx, w: &World) {
    use std::os::unix::ffi::OsStrExt;
    let root = fresh_dir(ctx);
    for n in [&b"plain"[..], b"with space", b"\xff\xfe", b"caf\xe9", b"\xc3\xa9t\xc3\xa9", b"new\nline", b"...", b"a'\"$`*?", b"-rf", b"%41"] {
        let d = root.join(std::ffi::OsStr::from_bytes(n));
        copy_tree(&w.dir, &d);
        let key = format!("directory named {:?}", String::from_utf8_lossy(n));
        ctx.eval(Some(&key));
        match load(&d) { Ans::Panic(p) => ctx.violate(&key, json!({"directory": key, "got": p})), Ans::Err(e) => ctx.violate(&key, json!({"directory": key, "got": e})), _ => {} }
        for f in needed(&d) {
            let orig = std::fs::read(d.join(&f)).unwrap();
            for damage in ["missing", "garbage", "version"] {
                match damage { "missing" => std::fs::remove_file(d.join(&f)).unwrap(), "garbage" => std::fs::write(d.join(&f), b"\xff").unwrap(), _ => { if !f.ends_with("nlu_engine.json") { continue; } std::fs::write(d.join(&f), "{\"model_version\": \"1\"}").unwrap() } }
                ctx.eval(Some((&key, &f, damage)));
                let a = load(&d);
                if let Err(got) = refused(&a) { ctx.violate(&format!("{}, {} {}", key, f.display(), damage), json!({"directory": key, "file": f, "damage": damage, "expected": "an error", "got": got})); }
                std::fs::write(d.join(&f), &orig).unwrap();
            }
        }
    }
    for (what, d) in [("no directory", root.join("nowhere")), ("a file", w.dir.join("nlu_engine.json")), ("the empty path", PathBuf::new()), ("a zero", PathBuf::from("a\u{0}b")), ("its parent", w.dir.parent().unwrap().to_path_buf())] {
        ctx.eval(Some(what));
        let a = load(&d);
        if let Err(got) = refused(&a) { ctx.violate(&format!("loading {}", what), json!({"path": what, "expected": "an error", "got": got})); }
    }
}
