//! Loading the engines of the worlds and asking them.
use crate::refm::{Ref, Top};
use crate::report::{guard, Ctx};
use crate::spec::*;
use serde_json::{json, Value};
use snips_nlu_lib::SnipsNluEngine;
use snips_nlu_ontology::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

static NEXT: AtomicUsize = AtomicUsize::new(0);
pub fn fresh_dir(ctx: &Ctx) -> PathBuf {
    let d = ctx.scratch.path().join(format!("d{}", NEXT.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).unwrap();
    d
}
pub struct World { pub spec: Engine, pub dir: PathBuf }
pub fn world(ctx: &Ctx, e: Engine) -> World {
    let dir = fresh_dir(ctx).join("engine");
    e.write(&dir);
    World { spec: e, dir }
}
/// What a query did.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans<T> { Ok(T), Err(String), Panic(String) }
impl<T> Ans<T> {
    pub fn ok(&self) -> Option<&T> { if let Ans::Ok(t) = self { Some(t) } else { None } }
    pub fn why(&self) -> String { match self { Ans::Ok(_) => "ok".into(), Ans::Err(e) => format!("error: {}", e), Ans::Panic(p) => p.clone() } }
}
pub fn chain(e: &failure::Error) -> String { e.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>().join(" <- ") }
pub fn ask<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> Result<T, failure::Error>) -> Ans<T> {
    match guard(what, f) { Ok(Ok(t)) => Ans::Ok(t), Ok(Err(e)) => Ans::Err(chain(&e)), Err(p) => Ans::Panic(p) }
}
pub fn load(dir: &Path) -> Ans<SnipsNluEngine> { ask(|| format!("load {}", dir.display()), || SnipsNluEngine::from_path(dir)) }
pub fn refs(v: &Option<Vec<String>>) -> Option<Vec<&str>> { v.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect()) }
pub fn parse(e: &SnipsNluEngine, t: &str, wl: &Option<Vec<String>>, bl: &Option<Vec<String>>, ia: usize, sa: usize) -> Ans<IntentParserResult> {
    ask(|| format!("parse {:?} {:?} {:?} {} {}", t, wl, bl, ia, sa), || e.parse_with_alternatives(t, refs(wl), refs(bl), ia, sa))
}
pub fn parse0(e: &SnipsNluEngine, t: &str) -> Ans<IntentParserResult> { parse(e, t, &None, &None, 0, 0) }
pub fn intents(e: &SnipsNluEngine, t: &str) -> Ans<Vec<IntentClassifierResult>> { ask(|| format!("get_intents {:?}", t), || e.get_intents(t)) }
pub fn slots(e: &SnipsNluEngine, t: &str, intent: &str, sa: usize) -> Ans<Vec<Slot>> { ask(|| format!("get_slots {:?} {}", t, intent), || e.get_slots_with_alternatives(t, intent, sa)) }
pub fn extract(e: &SnipsNluEngine, t: &str, intent: &str, slot: &str, sa: usize) -> Ans<Option<Slot>> {
    ask(|| format!("extract_slot {:?} {} {}", t, intent, slot), || e.extract_slot_with_alternatives(t.to_string(), intent, slot, sa))
}
pub fn js<T: serde::Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap_or(Value::Null) }
pub fn ansjs<T: serde::Serialize>(a: &Ans<T>) -> Value { match a { Ans::Ok(t) => js(t), o => json!(o.why()) } }

pub const TOL: f64 = 1e-4;
/// is the result one the reference accepts? Err = why not
pub fn top_ok(r: &Ref, text: &str, tops: &Result<Vec<Top>, ()>, got: &Ans<IntentParserResult>, sa: usize) -> Result<(), String> {
    match (tops, got) {
        (Err(()), Ans::Err(_)) => Ok(()),
        (Err(()), g) => Err(format!("the query should fail, got {}", g.why())),
        (Ok(t), Ans::Ok(g)) => {
            if g.input != text { return Err("the result does not echo the input".into()); }
            let same: Vec<&Top> = t.iter().filter(|x| x.intent == g.intent.intent_name).collect();
            if same.is_empty() { return Err(format!("intent: expected {:?}", t.iter().map(|x| &x.intent).collect::<Vec<_>>())); }
            let scored: Vec<&&Top> = same.iter().filter(|x| (x.score - g.intent.confidence_score as f64).abs() < TOL).collect();
            if scored.is_empty() { return Err(format!("score: expected {:?}", same.iter().map(|x| x.score).collect::<Vec<_>>())); }
            if !scored.iter().any(|x| r.slots_ok(text, &x.slots, sa, &g.slots)) { return Err(format!("slots: expected {:?}", scored.iter().map(|x| &x.slots).collect::<Vec<_>>())); }
            Ok(())
        }
        (Ok(_), g) => Err(format!("no answer: {}", g.why())),
    }
}
/// Runs `f` for every (world, text); each job owns a freshly loaded engine.
pub fn for_all(ctx: &Ctx, worlds: &[World], texts: &[String], f: impl Fn(&World, &SnipsNluEngine, &Ref, &str) + Sync) {
    ctx.note(&format!("engines x texts, {} engines from {}", worlds.len(), worlds.first().map(|w| w.spec.name.as_str()).unwrap_or("")), json!([worlds.len(), texts.len()]));
    let chunk = (texts.len() / 8).clamp(1, 400);
    let chunks: Vec<&[String]> = texts.chunks(chunk).collect();
    ctx.par(worlds.len() * chunks.len(), |i| {
        let w = &worlds[i / chunks.len()];
        match load(&w.dir) {
            Ans::Ok(e) => {
                let r = Ref::new(&w.spec, &w.dir);
                for t in chunks[i % chunks.len()] {
                    if ctx.stopped() { return; }
                    f(w, &e, &r, t);
                }
            }
            a => ctx.violate(&format!("load {}", w.spec.name), json!({"engine": w.spec.name, "load": a.why()})),
        }
    });
}
