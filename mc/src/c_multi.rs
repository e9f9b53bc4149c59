//! Several engines in one process, and directories that change under them (C35): every history of loads, drops, injections,
//! replacements and removals, replayed on real engines and directories against a model that only knows which model each
//! directory holds and which one each engine was loaded from.
use crate::c_core::{queries, run, Q};
use crate::common::*;
use crate::refm::Ref;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use crate::zipw;
use serde_json::{json, Value};
use snips_nlu_lib::injection::NluInjector;
use snips_nlu_lib::SnipsNluEngine;
use std::io::Cursor;
use std::path::{Path, PathBuf};

/// what a directory holds
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Held { Model(usize), Broken, Gone }
use Held::*;
/// the models: X, Y (alike, with other values), Z (another one), X and Y with a value injected
const NAMES: [&str; 5] = ["X", "Y", "Z", "X with Zorro", "Y with Zorro"];
fn injected(m: usize) -> usize { match m { 0 => 3, 1 => 4, m => m } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Load(usize, usize), Archive(usize, usize), Drop(usize), Put(usize, usize), Empty(usize), Remove(usize), Inject(usize), Swap }
fn ops(more: bool) -> Vec<Op> {
    let mut v = vec![Op::Load(0, 0), Op::Load(1, 0), Op::Load(0, 1), Op::Load(1, 1), Op::Archive(1, 1), Op::Drop(0), Op::Drop(1), Op::Put(0, 1), Op::Put(0, 2), Op::Put(1, 0), Op::Empty(0), Op::Remove(0), Op::Inject(0), Op::Swap];
    if more { v.extend([Op::Archive(0, 0), Op::Inject(1), Op::Remove(1)]); }
    v
}
fn model_y(x: &Engine) -> Engine {
    let mut y = x.clone();
    y.name = s("Y");
    for e in y.entities.iter_mut().chain(y.gaz.iter_mut()) { for v in e.values.iter_mut() { v.1 = format!("y {}", v.1); } }
    y.entities[0].values.push((s("salon"), s("y a drink")));
    y.entities[0].extensible = false;
    y.grammar = vec![number("two", 22.0), number("3", 33.0), instant("tonight", "T99", &[])];
    y.res.stop_words = Some(ss(&["tea", "of"]));
    y.res.stems = y.res.stems.map(|v| v.into_iter().map(|l| vec![format!("{}y", l[0]), l.last().unwrap().clone()]).collect());
    for g in y.res.gazetteers.iter_mut() { g.1 = ss(&["of", "salon", "green", "teas"]); }
    for c in y.res.clusters.iter_mut() { for w in c.1.iter_mut() { w.1 = s("0111"); } }
    for (_, p) in y.parsers.iter_mut() {
        match p {
            Parser::Det(d) => { for p in d.patterns.iter_mut() { if p.0 == "Hello" { p.1 = vec![s(r"^\s*hello\s*paris\s*$")]; } } }
            Parser::Lookup(l) => { let n = l.utterances.len(); l.utterances.truncate(n - 1); }
            Parser::Prob(p) => {
                if let Some(i) = p.intercept.as_mut() { for x in i.iter_mut() { *x += 0.125; } }
                if let Some(f) = p.feat.as_mut() { for x in f.idf.iter_mut() { *x *= 2.0; } }
                for (_, f) in p.fillers.iter_mut() { if let Some(c) = f.crf.as_mut() { for x in c.state.iter_mut() { if x.1.starts_with("B-what") { x.2 = -x.2; } } } }
            }
        }
    }
    y
}
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() { let p = e.unwrap().path(); let q = to.join(p.file_name().unwrap()); if p.is_dir() { copy(&p, &q) } else { std::fs::copy(&p, &q).unwrap(); } }
}
/// every file is emptied in place
fn empty(d: &Path) { for e in std::fs::read_dir(d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { empty(&p) } else { std::fs::write(&p, b"").unwrap(); } } }
fn inject(d: &Path) -> Ans<()> { ask(|| s("inject Zorro"), || NluInjector::new(d).add_value(s("drink"), s("Zorro")).add_value(s("snips/city"), s("Zorro City")).inject().map_err(failure::Error::from)) }

struct Models { dirs: Vec<PathBuf>, zips: Vec<Vec<u8>>, qs: Vec<Q>, exp: Vec<Vec<Value>> }
struct State { dirs: [Held; 2], engines: [Option<usize>; 2] }
/// the step of the model: what the directories hold and what the engines were loaded from; and whether the operation succeeds
fn step(st: &mut State, op: Op) -> bool {
    match op {
        Op::Load(h, d) => match st.dirs[d] { Model(m) => { st.engines[h] = Some(m); true } _ => false },
        Op::Archive(h, m) => { st.engines[h] = Some(m); true }
        Op::Drop(h) => { st.engines[h] = None; true }
        Op::Put(d, m) => { st.dirs[d] = Model(m); true }
        Op::Empty(d) => { if let Model(_) = st.dirs[d] { st.dirs[d] = Broken; } true }
        Op::Remove(d) => { st.dirs[d] = Gone; true }
        Op::Inject(d) => match st.dirs[d] { Model(2) | Broken | Gone => false, Model(m) => { st.dirs[d] = Model(injected(m)); true } },
        Op::Swap => { st.dirs.swap(0, 1); true }
    }
}
fn perform(m: &Models, paths: &[PathBuf; 2], engines: &mut [Option<SnipsNluEngine>; 2], op: Op) -> Result<bool, String> {
    match op {
        Op::Load(h, d) => match load(&paths[d]) { Ans::Ok(e) => { engines[h] = Some(e); Ok(true) } Ans::Err(_) => Ok(false), Ans::Panic(p) => Err(p) },
        Op::Archive(h, k) => match ask(|| s("load archive"), || SnipsNluEngine::from_zip(Cursor::new(m.zips[k].clone()))) { Ans::Ok(e) => { engines[h] = Some(e); Ok(true) } Ans::Err(_) => Ok(false), Ans::Panic(p) => Err(p) },
        Op::Drop(h) => { engines[h] = None; Ok(true) }
        Op::Put(d, k) => { let _ = std::fs::remove_dir_all(&paths[d]); copy(&m.dirs[k], &paths[d]); Ok(true) }
        Op::Empty(d) => { if paths[d].exists() { empty(&paths[d]); } Ok(true) }
        Op::Remove(d) => { let _ = std::fs::remove_dir_all(&paths[d]); Ok(true) }
        Op::Inject(d) => match inject(&paths[d]) { Ans::Ok(()) => Ok(true), Ans::Err(_) => Ok(false), Ans::Panic(p) => Err(p) },
        Op::Swap => {
            let t = paths[0].with_extension("swap");
            let (a, b) = (paths[0].exists(), paths[1].exists());
            if a { std::fs::rename(&paths[0], &t).unwrap(); }
            if b { std::fs::rename(&paths[1], &paths[0]).unwrap(); }
            if a { std::fs::rename(&t, &paths[1]).unwrap(); }
            Ok(true)
        }
    }
}
pub fn c35(ctx: &Ctx) {
    ctx.rule("a history after which an engine lives whose directory holds something else now, or beside an engine of another model");
    ctx.level("model_checking");
    // --- the models and their answers, each judged by the reference as far as it reads them
    let runs = if ctx.thorough { vec![("DLP", false, 4), ("DLP", true, 3), ("PD", true, 3), ("LP", true, 3)] } else { vec![("DLP", false, 3), ("P", true, 2)] };
    for (p, more, depth) in runs { explore(ctx, p, more, depth); if ctx.stopped() { return; } }
}
fn models(ctx: &Ctx, pipeline: &str) -> Option<Models> {
    // (every field of it counts, and every resource)
    let mut x = crate::c_models::full();
    let kind = |c: char| match c { 'D' => "deterministic_intent_parser", 'L' => "lookup_intent_parser", _ => "probabilistic_intent_parser" };
    x.parsers = pipeline.chars().map(|c| x.parsers.iter().find(|p| p.0 == kind(c)).unwrap().clone()).collect();
    x.name = s("X");
    // words that are not in the list are rooms; words of a cluster are drinks
    for (_, p) in x.parsers.iter_mut() { if let Parser::Prob(p) = p {
        let f = &mut p.fillers.iter_mut().find(|f| f.0 == "Light").unwrap().1;
        f.features.push(fac("ngram", json!({"n": 1, "use_stemming": false, "common_words_gazetteer_name": "top"}), &[1]));
        f.crf.as_mut().unwrap().state.push((s("ngram_1[+1]:rare_word"), s("I-where"), 3.0));
    } }
    let y = model_y(&x);
    let z = odd_world(pipeline, true);
    let ws: Vec<World> = vec![x, y, z].into_iter().map(|e| world(ctx, e)).collect();
    let mut dirs: Vec<PathBuf> = ws.iter().map(|w| w.dir.clone()).collect();
    for k in 0..2 {
        let d = fresh_dir(ctx).join("engine");
        copy(&ws[k].dir, &d);
        if let a @ (Ans::Err(_) | Ans::Panic(_)) = inject(&d) { ctx.violate("inject", json!({"model": NAMES[k], "got": a.why()})); return None; }
        dirs.push(d);
    }
    let mut texts = crate::c_models::TEXTS.to_vec();
    texts.extend(["make zorro", "ZORRO CITY", "hello paris", "make the latte", "the tea of two", "tonight in the new york"]);
    let mut qs: Vec<Q> = vec![];
    for (k, t) in texts.iter().enumerate() { for w in &ws { for (n, q) in queries(&w.spec, t).into_iter().enumerate() { if (n + k) % 4 == 0 || n == 0 { qs.push(q); } } } }
    for e in ["zorro", "salon", "latte"] { qs.push(Q::Extract(s(e), s("Make"), s("what"), 3)); }
    qs.push(Q::Extract(s("zorro city"), s("When"), s("place"), 1));
    qs.dedup();
    let exp: Vec<Vec<Value>> = dirs.iter().map(|d| match load(d) { Ans::Ok(e) => qs.iter().map(|q| run(&e, q)).collect(), a => { ctx.violate("load", json!(a.why())); vec![] } }).collect();
    // the models answer as the reference says, and differently
    for (k, w) in ws.iter().enumerate().take(2) {
        let (r, e) = (Ref::new(&w.spec, &w.dir), match load(&w.dir) { Ans::Ok(e) => e, _ => return None });
        for t in &texts { if let Err(why) = top_ok(&r, t, &r.parse(t, None), &parse(&e, t, &None, &None, 0, 2), 2) { ctx.violate(&format!("model {} {:?}", NAMES[k], t), json!({"model": NAMES[k], "text": t, "why": why})); return None; } }
    }
    for a in 0..5 { for b in 0..a { if exp[a] == exp[b] { ctx.violate(&format!("models {} and {}", NAMES[a], NAMES[b]), json!({"models": [NAMES[a], NAMES[b]], "got": "the engines of two models answer alike"})); return None; } } }
    let zips = ws.iter().map(|w| zipw::archive(&zipw::entries(&w.dir, "engine", false, false))).collect();
    ctx.note(&format!("queries ({})", pipeline), json!(qs.len()));
    Some(Models { dirs, zips, qs, exp })
}
fn explore(ctx: &Ctx, pipeline: &str, more: bool, depth: u32) {
    let m = match models(ctx, pipeline) { Some(m) => m, None => return };
    let all = ops(more);
    let total = all.len().pow(depth);
    let chunk = 64;
    ctx.note(&format!("histories ({}, depth {})", pipeline, depth), json!({"operations": all.len(), "depth": depth, "histories": total}));
    ctx.par(total.div_ceil(chunk), |j| {
        let root = fresh_dir(ctx);
        let paths = [root.join("a"), root.join("b")];
        for n in j * chunk..((j + 1) * chunk).min(total) {
            if ctx.stopped() { return; }
            let mut k = n;
            let h: Vec<Op> = (0..depth).map(|_| { let o = all[k % all.len()]; k /= all.len(); o }).collect();
            history(ctx, pipeline, &m, &paths, &h, n);
        }
        let _ = std::fs::remove_dir_all(&root);
    });
}
fn history(ctx: &Ctx, pipeline: &str, m: &Models, paths: &[PathBuf; 2], h: &[Op], n: usize) {
    for (k, p) in paths.iter().enumerate() { let _ = std::fs::remove_dir_all(p); copy(&m.dirs[k], p); }
    let mut st = State { dirs: [Model(0), Model(1)], engines: [None, None] };
    let mut engines: [Option<SnipsNluEngine>; 2] = [None, None];
    // both engines are loaded at first, and one of them has answered already
    let start = [Op::Load(0, 0), Op::Load(1, 1)];
    let mut done: Vec<Op> = vec![];
    for (i, op) in start.iter().chain(h).enumerate() {
        done.push(*op);
        let ok = step(&mut st, *op);
        ctx.transition(1);
        ctx.state((pipeline, st.dirs, st.engines));
        let what = || json!({"parsers": pipeline, "operations": done.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>(), "directories hold": format!("{:?}", st.dirs), "engines loaded from": st.engines.map(|e| e.map(|e| NAMES[e]))});
        let key = format!("{} {:?}", pipeline, done);
        match perform(m, paths, &mut engines, *op) {
            Ok(r) if r == ok => {}
            r => { ctx.violate(&key, json!({"history": what(), "the last operation should succeed": ok, "got": format!("{:?}", r)})); return; }
        }
        // in between a few queries, at the end all of them; every other time from another thread
        let last = i + 1 == start.len() + h.len();
        let other = st.engines[0] != st.engines[1] || (0..2).any(|k| st.engines[k].is_some() && !st.dirs.contains(&Model(st.engines[k].unwrap())));
        for e in 0..2 {
            let (engine, model) = match (&engines[e], st.engines[e]) { (Some(x), Some(m)) => (x, m), _ => continue };
            let ks: Vec<usize> = if last { (0..m.qs.len()).filter(|k| h.len() < 4 || (k + n) % 3 == 0).collect() } else { (0..m.qs.len()).filter(|k| (k + n + i) % 23 == 0).collect() };
            let judge = |ks: &[usize]| -> Option<(usize, Value)> { ks.iter().map(|k| (*k, run(engine, &m.qs[*k]))).find(|(k, g)| *g != m.exp[model][*k]) };
            let bad = if (n + i + e) % 4 == 0 { std::thread::scope(|sc| sc.spawn(|| judge(&ks)).join().unwrap()) } else { judge(&ks) };
            if let Some((k, got)) = bad {
                ctx.violate(&key, json!({"history": what(), "engine": e, "query": format!("{:?}", m.qs[k]), "expected": m.exp[model][k], "got": got}));
                return;
            }
            if last { ctx.trace(1); }
            ctx.eval(if other { Some((pipeline, h, i, e)) } else { None });
        }
        ctx.sample(what);
    }
}
