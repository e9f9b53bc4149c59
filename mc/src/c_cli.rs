//! The C header (C34): a client in C (cclient/client.c) compiled against platforms/c/libsnips_nlu.h as it is, and linked with the C
//! interface as a shared library, makes every call; what it reads through the header is compared with the library.
use crate::c_ffi::{library, values_world, Call};
use crate::c_py::{asked, copy, failing};
use crate::common::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use crate::zipw;
use serde_json::{json, Value};
use snips_nlu_lib::SnipsNluEngine;
use std::path::{Path, PathBuf};
use std::process::Command;

fn hex(t: &str) -> S { format!("x{}", t.bytes().map(|b| format!("{:02x}", b)).collect::<S>()) }
fn filter(f: &Option<Vec<S>>) -> S { match f { None => s("n"), Some(v) => format!("f{}", v.iter().map(|t| hex(t)).collect::<Vec<_>>().join(",")) } }
fn as_json(q: &Call, js: bool) -> Call {
    match q {
        Call::Parse(t, w, b, a, _) => Call::Parse(t.clone(), w.clone(), b.clone(), *a, js),
        Call::Slots(t, i, a, _) => Call::Slots(t.clone(), i.clone(), *a, js),
        Call::Intents(t, _) => Call::Intents(t.clone(), js),
    }
}
fn line(q: &Call) -> S {
    let n = |name: &str, alt: bool, js: bool| format!("{}{}{}", name, if alt { "_alt" } else { "" }, if js { "_json" } else { "" });
    match q {
        Call::Parse(t, w, b, None, js) => format!("{} {} {} {}", n("parse", false, *js), hex(t), filter(w), filter(b)),
        Call::Parse(t, w, b, Some((i, sl)), js) => format!("{} {} {} {} {} {}", n("parse", true, *js), hex(t), filter(w), filter(b), i, sl),
        Call::Slots(t, i, None, js) => format!("{} {} {}", n("slots", false, *js), hex(t), hex(i)),
        Call::Slots(t, i, Some(a), js) => format!("{} {} {} {}", n("slots", true, *js), hex(t), hex(i), a),
        Call::Intents(t, js) => format!("{} {}", n("intents", false, *js), hex(t)),
    }
}
/// the numbers of the client in the form of the library's JSON
fn numbers(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            if let (1, Some(f)) = (m.len(), m.get("f32").and_then(|x| x.as_str())) { return f.parse::<f32>().ok().and_then(|x| serde_json::from_str(&serde_json::to_string(&x).ok()?).ok()).unwrap_or_else(|| v.clone()); }
            if let (1, Some(f)) = (m.len(), m.get("f64").and_then(|x| x.as_str())) { return f.parse::<f64>().map(|x| json!(x)).unwrap_or_else(|_| v.clone()); }
            Value::Object(m.iter().map(|(k, x)| (k.clone(), numbers(x))).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(numbers).collect()),
        v => v.clone(),
    }
}
fn tail(t: &[u8]) -> S { let t = String::from_utf8_lossy(t); t.chars().take(3000).collect() }

/// the client, compiled as C and as C++
fn compile(ctx: &Ctx, repo: &Path, root: &Path, lib: &Path, dir: &Path) -> Option<Vec<(&'static str, PathBuf)>> {
    let mut v = vec![];
    for (name, cc, args) in [("C99", "gcc", &["-std=c99", "-pedantic-errors"][..]), ("C11", "gcc", &["-std=c11", "-O2"][..]), ("C++", "g++", &["-x", "c++"][..])] {
        let exe = dir.join(format!("client-{}", name));
        let p = Command::new(cc).args(args).arg("-I").arg(repo.join("platforms/c")).arg("-Wall").arg("-Werror=incompatible-pointer-types").arg(root.join("cclient/client.c"))
            .args(&["-x", "none"]).arg(lib).arg("-o").arg(&exe).arg(format!("-Wl,-rpath,{}", lib.parent().expect("dir").display())).output();
        match p {
            Ok(p) if p.status.success() => v.push((name, exe)),
            Ok(p) => { ctx.violate("a client does not build with the header", json!({"as": name, "compiler": tail(&p.stderr)})); return None }
            Err(e) => panic!("{}: {}", cc, e),
        }
    }
    Some(v)
}
struct Job { client: usize, what: S, lines: Vec<S>, calls: Vec<(Call, Result<Value, Vec<S>>)>, open: S, broken: Vec<(S, Vec<S>)>, refused_first: bool }

fn library_version(repo: &Path) -> Option<S> {
    let t = std::fs::read_to_string(repo.join("Cargo.toml")).ok()?;
    t.lines().find(|l| l.starts_with("version")).and_then(|l| l.split('"').nth(1)).map(s)
}
pub fn c34(ctx: &Ctx) {
    ctx.level("exploration");
    ctx.rule("an answer with slots, a ranking of intents, or an error");
    let repo = PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()));
    let root = PathBuf::from(std::env::var("VERIF_ROOT").expect("VERIF_ROOT"));
    let lib = PathBuf::from(std::env::var("VERIF_PYLIB").expect("VERIF_PYLIB")).canonicalize().expect("library");
    let tmp = ctx.scratch.path().join("c");
    std::fs::create_dir_all(&tmp).expect("dir");
    let clients = match compile(ctx, &repo, &root, &lib, &tmp) { Some(c) => c, None => return };
    let mut ws = vec![world(ctx, values_world()), world(ctx, main_world("DLP", false)), world(ctx, main_world("P", false)), world(ctx, main_world("", false))];
    if ctx.thorough { for p in ["D", "L", "PD"] { ws.push(world(ctx, main_world(p, true))); } ws.push(world(ctx, kinds_world("DLP", true))); ws.extend(crate::c_engine::edge_worlds(ctx)); }
    // engines that do not load, and why
    let mut broken: Vec<(S, Vec<S>)> = vec![];
    let (missing, odd) = (tmp.join("missing é"), tmp.join("brokén"));
    copy(&ws[0].dir, &odd);
    std::fs::remove_file(odd.join("nlu_engine.json")).expect("rm");
    for d in [&missing, &odd] { if let Some(m) = failing("directory", SnipsNluEngine::from_path(d)) { broken.push((format!("dir {}", hex(d.to_str().unwrap())), m)); } }
    let jobs: Vec<std::sync::Mutex<Vec<Job>>> = ws.iter().map(|_| std::sync::Mutex::new(vec![])).collect();
    ctx.par(ws.len(), |j| {
        let w = &ws[j];
        let e = match load(&w.dir) { Ans::Ok(e) => e, a => { ctx.violate("load", json!(a.why())); return } };
        let dir = tmp.join(format!("engine {} – é 茶%s", j));
        copy(&w.dir, &dir);
        let zip = tmp.join(format!("engine-{}.zip", j));
        let bytes = zipw::archive(&zipw::entries(&w.dir, "engine", true, false));
        std::fs::write(&zip, &bytes).expect("zip");
        let mut bad = broken.clone();
        for size in [0, 1, 100, bytes.len() / 2, bytes.len() - 1] {
            if failing("archive", SnipsNluEngine::from_zip(std::io::Cursor::new(bytes[..size].to_vec()))).is_some() { bad.push((format!("zip {} {}", hex(zip.to_str().unwrap()), size), vec![])); }
        }
        let both: Vec<(Call, Result<Value, Vec<S>>)> = asked(&w.spec, ctx.thorough).into_iter().flat_map(|(_, q)| { let a = library(&e, &q); vec![(as_json(&q, false), a.clone()), (as_json(&q, true), a)] }).collect();
        let mut out = jobs[j].lock().unwrap();
        for (n, part) in both.chunks(3000).enumerate() {
            let open = if n % 2 == 0 { format!("dir {}", hex(dir.to_str().unwrap())) } else { format!("zip {} -1", hex(zip.to_str().unwrap())) };
            out.push(Job { client: (j + n) % clients.len(), what: w.spec.name.clone(), lines: part.iter().map(|c| line(&c.0)).collect(), calls: part.to_vec(), open, broken: bad.clone(), refused_first: n % 2 == 1 });
        }
    });
    let mut jobs: Vec<Job> = jobs.into_iter().flat_map(|x| x.into_inner().unwrap()).collect();
    // every client reads every kind of value
    let n = jobs.iter().filter(|j| j.what == "values").count();
    for c in 0..clients.len() { for k in 0..n { if jobs[k].client != c { let j = &jobs[k]; let j = Job { client: c, what: j.what.clone(), lines: j.lines.clone(), calls: j.calls.clone(), open: j.open.clone(), broken: j.broken.clone(), refused_first: !j.refused_first }; jobs.push(j); } } }
    let version = library_version(&repo);
    ctx.par(jobs.len(), |k| {
        let j = &jobs[k];
        let (list, out) = (tmp.join(format!("list-{}", k)), tmp.join(format!("out-{}", k)));
        let refused = |v: &mut Vec<S>| for b in &j.broken { v.push(b.0.clone()); };
        let mut lines = vec![s("version")];
        if j.refused_first { refused(&mut lines); }
        lines.push(j.open.clone());
        if !j.refused_first { refused(&mut lines); }
        let first = lines.len();
        lines.extend(j.lines.iter().cloned());
        lines.push(s("end"));
        std::fs::write(&list, lines.join("\n") + "\n").expect("list");
        let p = Command::new(&clients[j.client].1).arg(&list).arg(&out).current_dir(&tmp).output().expect("client");
        let text = std::fs::read(&out).unwrap_or_default();
        let got: Vec<&[u8]> = text.split(|b| *b == b'\n').filter(|l| !l.is_empty()).collect();
        if !p.status.success() || got.len() != lines.len() {
            let at = got.len().min(lines.len() - 1);
            ctx.violate("the client does not run", json!({"client": clients[j.client].0, "status": format!("{:?}", p.status), "stderr": tail(&p.stderr), "engine": j.what, "line": at, "call": lines[at], "asked": if at >= first && at - first < j.calls.len() { json!(format!("{:?}", j.calls[at - first].0)) } else { Value::Null }}));
            return;
        }
        for (at, l) in got.iter().enumerate() {
            let v: Value = match serde_json::from_slice::<Value>(l) { Ok(v) => numbers(&v), Err(e) => { ctx.violate("the client reads something that is no text", json!({"client": clients[j.client].0, "call": lines[at], "read": tail(l), "why": e.to_string()})); return } };
            let case = |want: Value| json!({"client": clients[j.client].0, "engine": j.what, "call": if at >= first && at - first < j.calls.len() { format!("{:?}", j.calls[at - first].0) } else { lines[at].clone() }, "client reads": v, "library": want});
            if v.get("released").is_some() || v.get("written").is_some() { ctx.violate(&format!("release {}", lines[at]), case(Value::Null)); }
            if lines[at] == "version" {
                ctx.eval(Some((j.client, "version")));
                if v["text"] != json!(snips_nlu_lib::MODEL_VERSION) { ctx.violate("model version", case(json!(snips_nlu_lib::MODEL_VERSION))); }
                if let Some(n) = &version { if v["header"] != json!(n) { ctx.violate("version of the header", case(json!(n))); } }
            } else if lines[at] == "end" {
                ctx.eval(None::<u8>);
                if v["ok"] != json!(true) || v["live"] != json!(0) || v["bad"] != json!(0) { ctx.violate("objects left", case(json!({"live": 0, "bad": 0}))); }
            } else if at < first {
                ctx.eval(Some((j.client, &lines[at])));
                match j.broken.iter().find(|b| b.0 == lines[at]) {
                    None => if v["ok"] != json!(true) { ctx.violate(&format!("open {}", lines[at]), case(json!(true))); },
                    Some(b) => if !v["err"].as_str().map(|e| b.1.iter().all(|m| e.contains(m.as_str()))).unwrap_or(false) { ctx.violate(&format!("open {}", lines[at]), case(json!(b.1))); },
                }
            } else {
                let (q, want) = &j.calls[at - first];
                let fine = match want {
                    Ok(w) => match (v.get("ok"), v.get("text").and_then(|t| t.as_str())) {
                        (Some(x), None) => x == w,
                        (None, Some(t)) => serde_json::from_str::<Value>(t).map(|x| x == *w).unwrap_or(false),
                        _ => false,
                    },
                    Err(m) => v["err"].as_str().map(|e| m.iter().all(|m| e.contains(m.as_str()))).unwrap_or(false),
                };
                let big = match want { Ok(w) => { let t = w.to_string(); t.contains("rawValue") || t.starts_with('[') } Err(_) => true };
                ctx.eval(if big { Some((j.client, &j.what, q)) } else { None });
                if at % 101 == 7 { ctx.sample(|| case(match want { Ok(w) => w.clone(), Err(m) => json!({"err": m}) })); }
                if !fine { ctx.violate(&format!("{:?} {}", q, j.what), case(match want { Ok(w) => w.clone(), Err(m) => json!({"err": m}) })); }
            }
        }
        let _ = (std::fs::remove_file(&list), std::fs::remove_file(&out));
    });
    ctx.note("calls", json!(jobs.iter().map(|j| j.calls.len()).sum::<usize>()));
    ctx.note("clients", json!(clients.iter().map(|c| c.0).collect::<Vec<_>>()));
}
