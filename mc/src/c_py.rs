//! The Python wrapper (C31): the package as it is, on the C interface as it is, driven by py/drive.py with the
//! answers of the library.
use crate::c_ffi::{history_calls, library, value_texts, values_world, Call};
use crate::common::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use crate::zipw;
use serde_json::{json, Value};
use snips_nlu_lib::SnipsNluEngine;
use std::path::{Path, PathBuf};

pub fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("dir");
    for e in std::fs::read_dir(from).expect("package") {
        let e = e.expect("entry");
        if e.path().is_dir() { copy(&e.path(), &to.join(e.file_name())) } else { std::fs::copy(e.path(), to.join(e.file_name())).expect("copy"); }
    }
}
/// the call of the wrapper: `style` 0 positional, 1 keywords; alternatives only when they are given
fn py(q: &Call, style: usize) -> Value {
    let (method, all): (&str, Vec<(&str, Value)>) = match q {
        Call::Parse(t, w, b, a, _) => {
            let mut v = vec![("query", json!(t))];
            if style == 0 || w.is_some() || b.is_some() { v.push(("intents_whitelist", json!(w))); v.push(("intents_blacklist", json!(b))); }
            if let Some((i, s)) = a { if v.len() == 1 { v.push(("intents_whitelist", Value::Null)); v.push(("intents_blacklist", Value::Null)); } v.push(("intents_alternatives", json!(i))); v.push(("slots_alternatives", json!(s))); }
            ("parse", v)
        }
        Call::Slots(t, i, a, _) => { let mut v = vec![("query", json!(t)), ("intent", json!(i))]; if let Some(a) = a { v.push(("slots_alternatives", json!(a))); } ("get_slots", v) }
        Call::Intents(t, _) => ("get_intents", vec![("query", json!(t))]),
    };
    let n = if style == 0 { all.len() } else { 1 };
    let args: Vec<Value> = all.iter().take(n).map(|x| x.1.clone()).collect();
    let kwargs: serde_json::Map<S, Value> = all.iter().skip(n).map(|x| (x.0.to_string(), x.1.clone())).collect();
    json!({"method": method, "args": args, "kwargs": kwargs})
}
fn answered(e: &SnipsNluEngine, q: &Call, style: usize) -> Value {
    // the defaults of the wrapper: no intent and five slot alternatives
    let full = match q {
        Call::Parse(t, w, b, a, j) => Call::Parse(t.clone(), w.clone(), b.clone(), Some(a.unwrap_or((0, 5))), *j),
        Call::Slots(t, i, a, j) => Call::Slots(t.clone(), i.clone(), Some(a.unwrap_or(5)), *j),
        q => q.clone(),
    };
    let mut c = py(q, style);
    match library(e, &full) { Ok(v) => c["ok"] = json!(v.to_string()), Err(m) => c["err"] = json!(m) }
    c
}
/// texts x filters x numbers of alternatives of a parse, texts x intents x alternatives, and the ranking of every text
pub fn asked(spec: &Engine, thorough: bool) -> Vec<(usize, Call)> {
    let mut texts = if spec.name == "values" { value_texts(spec) } else { SENTENCES.iter().map(|x| s(x)).collect::<Vec<_>>() };
    if spec.name == "many intents" { texts = ss(&[TIE_TEXT, "go"]); }
    else if thorough { texts.extend(texts.clone().iter().flat_map(|t| variants(t))); if spec.name != "values" { texts.extend(sequences(&WORDS, 2)); } }
    if spec.name != "many intents" { texts.extend(ss(&["", " ", "Make TWO Tea", " make  tea ", "LIGHT Salon\n", "🍵 make tea 🎉", "make \u{301}tea", "\u{feff}tea", "%s %d tea %", "\"tea\" \\ {}"])); }
    // (answers of several, and of many, thousand bytes)
    if spec.name != "many intents" { texts.extend(vec![format!("make two {}", "é".repeat(2500)), format!("light salon{}", " ".repeat(9000)), format!("{}tonight in paris", "\t".repeat(70000))]); }
    texts.retain(|t| !t.contains('\0'));
    let first = spec.intents[0].0.clone();
    let filters = [None, Some(vec![]), Some(vec![first.clone()]), Some(spec.intents.iter().map(|i| i.0.clone()).collect()), Some(vec![s("Nopé %s")]), Some(vec![first, s("")])];
    let mut out = vec![];
    for (k, t) in texts.iter().enumerate() {
        let mut qs = vec![];
        for (a, wl) in filters.iter().enumerate() { for (b, bl) in filters.iter().enumerate() {
            if a > 1 && b > 1 && a != b { continue; }
            for alt in [None, Some((0, 0)), Some((1, 2)), Some((9, 0)), Some((2, i32::MAX as u32))] {
                if alt.is_some() && (a + b + k) % 2 == 1 && !thorough { continue; }
                qs.push(Call::Parse(t.clone(), wl.clone(), bl.clone(), alt, true));
            }
        } }
        for i in spec.intents.iter().map(|i| i.0.clone()).chain(ss(&["Nopé %s", ""])) { for alt in [None, Some(0), Some(1), Some(2), Some(i32::MAX as u32)] { qs.push(Call::Slots(t.clone(), i.clone(), alt, true)); } }
        qs.push(Call::Intents(t.clone(), true));
        for (n, q) in qs.into_iter().enumerate() { out.push((n + k, q)); }
    }
    out
}
fn calls(e: &SnipsNluEngine, spec: &Engine, thorough: bool) -> Vec<Value> { asked(spec, thorough).iter().map(|(n, q)| answered(e, q, n % 2)).collect() }
pub fn failing(what: &str, r: Result<SnipsNluEngine, failure::Error>) -> Option<Vec<S>> {
    match r { Ok(_) => { eprintln!("{} loads", what); None } Err(e) => Some(e.iter_chain().map(|c| c.to_string()).collect()) }
}
pub fn c31(ctx: &Ctx) {
    ctx.level("model_checking");
    ctx.rule("an answer with slots, a ranking of intents, an error, or a history of two or more operations");
    let repo = PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()));
    let root = PathBuf::from(std::env::var("VERIF_ROOT").expect("VERIF_ROOT"));
    let lib = PathBuf::from(std::env::var("VERIF_PYLIB").expect("VERIF_PYLIB"));
    let tmp = ctx.scratch.path().join("py");
    let package = tmp.join("package");
    copy(&repo.join("platforms/python/snips_nlu_rust"), &package.join("snips_nlu_rust"));
    let dylib = package.join("snips_nlu_rust/dylib");
    std::fs::create_dir_all(&dylib).expect("dylib");
    for e in std::fs::read_dir(&dylib).expect("dylib") { let p = e.expect("entry").path(); if p.is_file() { std::fs::remove_file(p).expect("rm"); } }
    let so = dylib.join("libsnips_nlu_python_ffi.so");
    std::fs::copy(&lib, &so).expect("library");
    let mut ws = vec![world(ctx, main_world("DLP", false)), world(ctx, values_world()), world(ctx, main_world("P", false)), world(ctx, main_world("", false)), world(ctx, tie_world("many intents", "D", &[1; 96]))];
    if ctx.thorough { for p in ["D", "L", "PD"] { ws.push(world(ctx, main_world(p, true))); } ws.extend(crate::c_engine::edge_worlds(ctx)); }
    let slots: Vec<std::sync::Mutex<Value>> = ws.iter().map(|_| std::sync::Mutex::new(Value::Null)).collect();
    ctx.par(ws.len(), |j| {
        let w = &ws[j];
        let e = match load(&w.dir) { Ans::Ok(e) => e, a => { ctx.violate("load", json!(a.why())); return } };
        // the first engine lives in a directory with an odd name
        let dir = tmp.join(format!("engine {} – é 茶%s", j));
        copy(&w.dir, &dir);
        let zip = tmp.join(format!("engine-{}.zip", j));
        std::fs::write(&zip, zipw::archive(&zipw::entries(&w.dir, "engine", true, false))).expect("zip");
        let hist: Vec<Value> = if j == 0 { history_calls().iter().map(|q| answered(&e, q, 0)).collect() } else { vec![] };
        *slots[j].lock().unwrap() = json!({"name": w.spec.name, "dir": dir, "zip": zip, "calls": calls(&e, &w.spec, ctx.thorough), "history_calls": hist});
    });
    let worlds: Vec<Value> = slots.into_iter().map(|x| x.into_inner().unwrap()).collect();
    if worlds.iter().any(|w| w.is_null()) { return; }
    // engines that do not load
    let mut broken = vec![];
    let missing = tmp.join("missing");
    if let Some(err) = failing("missing", SnipsNluEngine::from_path(&missing)) { broken.push(json!({"what": "missing directory", "dir": missing, "err": err})); }
    let (src, odd) = (PathBuf::from(worlds[0]["dir"].as_str().unwrap()), tmp.join("brokén"));
    copy(&src, &odd);
    std::fs::remove_file(odd.join("nlu_engine.json")).expect("rm");
    if let Some(err) = failing("no model", SnipsNluEngine::from_path(&odd)) { broken.push(json!({"what": "directory without a model", "dir": odd, "err": err})); }
    let zip = PathBuf::from(worlds[0]["zip"].as_str().unwrap());
    let bytes = std::fs::read(&zip).expect("zip");
    for size in [0, 1, 100, bytes.len() / 2, bytes.len() - 1] {
        // messages of a truncated archive name temporary directories: only that it fails
        if failing("archive", SnipsNluEngine::from_zip(std::io::Cursor::new(bytes[..size].to_vec()))).is_some() { broken.push(json!({"what": format!("first {} bytes of an archive", size), "zip": zip, "size": size, "err": []})); }
    }
    let shards = 8;
    let depth = if ctx.thorough { 5 } else { 4 };
    ctx.par(shards, |k| {
        let (job, out) = (tmp.join(format!("job-{}.json", k)), tmp.join(format!("out-{}.json", k)));
        let ws: Vec<Value> = if k == 0 { worlds.clone() } else { vec![worlds[0].clone()] };
        std::fs::write(&job, json!({"package": package, "lib": so, "worlds": ws, "broken": broken, "depth": depth, "shard": k, "shards": shards, "max_violations": 8}).to_string()).expect("job");
        let p = std::process::Command::new("python3").arg("-B").arg(root.join("py/drive.py")).arg(&job).arg(&out).current_dir(&tmp).env_remove("PYTHONPATH").output().expect("python3");
        let text = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
        let err = String::from_utf8_lossy(&p.stderr).to_string();
        let r = match text {
            Some(r) if p.status.success() => r,
            _ => { ctx.violate("the wrapper does not run", json!({"status": format!("{:?}", p.status), "stderr": err.chars().rev().take(3000).collect::<S>().chars().rev().collect::<S>()})); return }
        };
        let keys = r["keys"].as_array().cloned().unwrap_or_default();
        let n = r["evals"].as_u64().unwrap_or(0) as usize;
        for k in &keys { ctx.eval(Some(k.as_str().unwrap_or(""))); }
        for _ in keys.len()..n { ctx.eval(None::<u8>); }
        for j in 0..r["states"].as_u64().unwrap_or(0) { ctx.state(j); }
        ctx.transition(r["transitions"].as_u64().unwrap_or(0) as usize);
        ctx.trace(r["traces"].as_u64().unwrap_or(0) as usize);
        for s in r["samples"].as_array().cloned().unwrap_or_default() { ctx.sample(|| s.clone()); }
        for v in r["violations"].as_array().cloned().unwrap_or_default() { ctx.violate(v[0].as_str().unwrap_or("?"), v[1].clone()); }
    });
    ctx.note("calls prepared by the library", json!(worlds.iter().map(|w| w["calls"].as_array().map(|a| a.len()).unwrap_or(0)).sum::<usize>()));
    ctx.note("history depth", json!(depth));
}
