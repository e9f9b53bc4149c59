//! Injections of entity values: their histories, their refusals and their interruptions.
use crate::c_core::{queries, run};
use crate::c_files::unchanged;
use crate::c_models::*;
use crate::common::*;
use crate::refm::lower;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use mc_env::faults::{install, uninstall, Mode};
use serde_json::{json, Value};
use snips_nlu_lib::injection::NluInjector;
use snips_nlu_lib::{load_shared_resources, SharedResources, SnipsNluEngine};
use snips_nlu_utils::language::Language;
use snips_nlu_utils::token::tokenize_light;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Act { adds: Vec<(S, S)>, vanilla: bool }
impl Act {
    fn key(&self) -> String { format!("{}{:?}", if self.vanilla { "vanilla " } else { "" }, self.adds) }
}
fn act(adds: &[(&str, &str)], vanilla: bool) -> Act { Act { adds: pairs(adds), vanilla } }
fn inject(dir: &Path, a: &Act, res: Option<Arc<SharedResources>>) -> Ans<()> {
    ask(|| format!("inject {}", a.key()), || {
        let mut i = NluInjector::new(dir).from_vanilla(a.vanilla);
        if let Some(r) = res { i = i.shared_resources(r); }
        for (e, v) in &a.adds { i = i.add_value(e.clone(), v.clone()); }
        i.inject().map_err(failure::Error::from)
    })
}
pub fn inject_world(usage: u8) -> Engine {
    let mut e = base(&format!("inject-{}", usage));
    e.gaz.push(ent("snips/musicArtist", true, &[("the beatles", "The Beatles"), ("queen", "Queen")]));
    e.intents.push((s("Play"), pairs(&[("artist", "snips/musicArtist")])));
    e.usage = usage;
    e.res.stems = Some(vec![ss(&["tea", "teas"]), ss(&["rooibo", "rooibos"]), ss(&["room", "rooms"])]);
    let mut e = with(e, "DP", false);
    for (_, p) in e.parsers.iter_mut() { if let Parser::Det(d) = p { d.patterns.push((s("Play"), ss(&[r"^\s*play\s*(?P<group6>%SNIPSMUSICARTIST%)\s*$"]))); d.groups.push((s("group6"), s("artist"))); d.slots = e.intents.clone(); } }
    e
}
/// slots of each entity that can be injected
const SLOTS: [(&str, &str, &str); 4] = [("drink", "Make", "what"), ("room", "Light", "where"), ("snips/city", "When", "place"), ("snips/musicArtist", "Play", "artist")];

// ------------------------------------------------------------------------------------------- the model
/// per entity, the injected values, latest first; injecting a value again makes it the latest one
type Model = BTreeMap<S, Vec<S>>;
fn apply(m: &Model, a: &Act) -> Model {
    let mut m = m.clone();
    let ents: BTreeSet<&S> = a.adds.iter().map(|x| &x.0).collect();
    for e in ents {
        let mut v: Vec<S> = vec![];
        for (_, x) in a.adds.iter().filter(|x| x.0 == *e) { if !v.contains(x) { v.push(x.clone()); } }
        if !a.vanilla { for x in m.get(e).into_iter().flatten() { if !v.contains(x) { v.push(x.clone()); } } }
        m.insert(e.clone(), v);
    }
    m
}
fn toks(v: &str) -> Vec<S> { tokenize_light(&lower(v), Language::EN) }
fn stem(e: &Engine, t: &str) -> S { e.res.stems.iter().flatten().find(|l| l[1..].iter().any(|x| x == t)).map(|l| l[0].clone()).unwrap_or_else(|| s(t)) }
fn raws(e: &Engine, entity: &str, v: &str) -> Vec<S> {
    if entity.starts_with("snips/") { return vec![lower(v)]; }
    let plain = toks(v).join(" ");
    let stems = toks(v).iter().map(|t| stem(e, t)).collect::<Vec<_>>().join(" ");
    match e.usage { 0 => vec![stems], 1 => vec![plain], _ => vec![plain, stems] }
}
/// the engine that was trained with the values of the model before its own
fn trained(e: &Engine, m: &Model) -> Engine {
    let mut x = e.clone();
    for ev in x.entities.iter_mut().chain(x.gaz.iter_mut()) {
        let mut new: Vec<(S, S)> = vec![];
        for v in m.get(&ev.name).into_iter().flatten() { for r in raws(e, &ev.name, v) { if !new.contains(&(r.clone(), v.clone())) { new.push((r, v.clone())); } } }
        new.append(&mut ev.values);
        ev.values = new;
    }
    x
}
fn texts(values: &[(S, S)]) -> Vec<S> {
    let mut v: BTreeSet<S> = ["make tea", "make two green tea", "light salon", "tonight in paris", "play queen", "tea", "salon", "paris", "queen", "latte", "make latte and chai", "xx", "make the beatles", "new york", "green"].iter().map(|x| s(x)).collect();
    for (e, x) in values {
        let frame = match e.as_str() { "drink" => "make @", "room" => "light @", "snips/city" => "tonight in @", _ => "play @" };
        v.insert(x.clone());
        v.insert(frame.replace('@', x));
        v.insert(frame.replace('@', &x.to_uppercase()));
        v.insert(format!("make two {} and tea", lower(x)));
        v.insert(toks(x).iter().map(|t| stem(&inject_world(1), t)).collect::<Vec<_>>().join(" "));
    }
    v.into_iter().collect()
}
fn answers(e: &SnipsNluEngine, spec: &Engine, texts: &[S], all: bool) -> Vec<Value> {
    let mut out = vec![];
    for t in texts {
        if all { out.extend(queries(spec, t).iter().map(|q| run(e, q))); } else { out.push(ansjs(&parse(e, t, &None, &None, 0, 2))); for (_, i, sl) in SLOTS { out.push(ansjs(&extract(e, t, i, sl, 2))); } }
    }
    out
}
fn casings(v: &str) -> Vec<S> {
    let n = v.chars().count();
    let mut alt = String::new();
    for (i, c) in v.chars().enumerate() { if i % 2 == 0 { alt.extend(c.to_uppercase()); } else { alt.extend(c.to_lowercase()); } }
    let mut out: Vec<S> = vec![s(v), v.to_uppercase(), v.to_lowercase(), alt].into_iter().filter(|x| x.chars().count() == n).collect();
    out.dedup();
    out
}
/// what the statement says of the values of the model, without the reference engine
fn direct(e: &SnipsNluEngine, spec: &Engine, m: &Model) -> Result<usize, Value> {
    let mut n = 0;
    for (ent, intent, slot) in SLOTS {
        let vals = m.get(ent).cloned().unwrap_or_default();
        for (i, v) in vals.iter().enumerate() {
            let r = raws(spec, ent, v);
            // as typed, the value is a raw value unless only stems are kept
            if spec.usage == 0 && !ent.starts_with("snips/") && r[0] != toks(v).join(" ") { continue; }
            if vals[..i].iter().any(|w| raws(spec, ent, w).iter().any(|x| toks(x) == toks(v))) { continue; }
            for c in casings(v) {
                if lower(&c) != lower(v) { continue; }
                for (before, after) in [("", ""), ("xx ", " xx"), ("", " !"), ("make ", "")] {
                    if (format!("{}{}", before, after) != "") && (v.starts_with("make") || toks(v).is_empty()) { continue; }
                    let t = format!("{}{}{}", before, c, after);
                    let start = before.chars().count() + c.chars().take_while(|x| x.is_whitespace()).count();
                    let end = start + c.trim().chars().count();
                    n += 1;
                    match extract(e, &t, intent, slot, 0) {
                        Ans::Ok(Some(sl)) if js(&sl)["value"]["value"] == json!(v) && sl.range == (start..end) => {}
                        a => return Err(json!({"text": t, "intent": intent, "slot": slot, "injected value": v, "expected range": [start, end], "got": ansjs(&a)})),
                    }
                }
            }
        }
    }
    Ok(n)
}
const VALUES: [(&str, &str); 15] = [
    ("drink", "Rooibos"), ("drink", "TEA"), ("drink", "Green Teas"), ("drink", "Jean-Pierre's"), ("drink", "Latte"), ("drink", "İzmir çayı"), ("drink", "  two  Spaces "), ("drink", "make"),
    ("room", "Salon"), ("room", "Attic  Rooms"), ("room", "%DRINK%"), ("snips/city", "PARIS"), ("snips/city", "Saint-Étienne"), ("snips/musicArtist", "The Who"), ("snips/city", "İstanbul"),
];
fn actions(n: usize) -> Vec<Act> {
    let mut out = vec![];
    for vanilla in [false, true] {
        for (e, v) in VALUES.iter().take(n) { out.push(act(&[(e, v)], vanilla)); }
        out.push(act(&[("drink", "Rooibos"), ("snips/city", "PARIS"), ("drink", "TEA")], vanilla));
        out.push(act(&[("room", "Salon"), ("drink", "Green Teas"), ("snips/musicArtist", "The Who"), ("snips/city", "Saint-Étienne")], vanilla));
        out.push(act(&[("snips/city", "Saint-Étienne"), ("snips/city", "PARIS"), ("snips/musicArtist", "Queen"), ("snips/city", "PARIS")], vanilla));
        if n > 8 { out.push(act(&[("drink", "Chai"), ("room", "Chai"), ("drink", "Living Room"), ("room", "Attic")], vanilla)); }
    }
    out.push(act(&[], false));
    out.push(act(&[], true));
    out
}

// ------------------------------------------------------------------------------------------- C26
pub fn c26(ctx: &Ctx) {
    ctx.rule("one injection into a reachable state of the engine directory");
    ctx.level("model_checking");
    let runs: Vec<(u8, usize, usize)> = if ctx.thorough { vec![(0, 15, 2), (1, 15, 2), (2, 15, 2), (0, 5, 4), (1, 5, 4), (2, 5, 4), (1, 9, 3), (2, 9, 3), (0, 9, 3)] } else { vec![(0, 15, 2), (1, 15, 2), (2, 15, 2), (1, 5, 3), (2, 4, 3)] };
    for (usage, n, depth) in runs { explore(ctx, usage, n, depth); if ctx.stopped() { return; } }
    requests(ctx);
}
struct Expected { answers: Vec<Value>, all: Vec<Value> }
fn explore(ctx: &Ctx, usage: u8, n: usize, depth: usize) {
    let spec = inject_world(usage);
    let acts = actions(n);
    let used: Vec<(S, S)> = acts.iter().flat_map(|a| a.adds.clone()).collect::<BTreeSet<_>>().into_iter().collect();
    let ts = texts(&used);
    // every query about the values that were injected
    let of = |m: &Model| -> Vec<S> { texts(&m.iter().flat_map(|(e, v)| v.iter().take(3).map(move |v| (e.clone(), v.clone()))).collect::<Vec<_>>()).into_iter().filter(|t| ctx.thorough || t.len() % 3 != 2).collect() };
    let root = spec.write(&fresh_dir(ctx).join("engine"));
    let expected: Mutex<HashMap<Model, Arc<Expected>>> = Default::default();
    let expect = |m: &Model| -> Arc<Expected> {
        if let Some(x) = expected.lock().unwrap().get(m) { return x.clone(); }
        let d = fresh_dir(ctx);
        let t = trained(&spec, m);
        let dir = t.write(&d.join("engine"));
        let x = match load(&dir) { Ans::Ok(e) => Expected { answers: answers(&e, &spec, &ts, false), all: answers(&e, &spec, &of(m), true) }, a => { ctx.violate("load expected", json!(a.why())); Expected { answers: vec![], all: vec![] } } };
        let _ = std::fs::remove_dir_all(&d);
        let x = Arc::new(x);
        expected.lock().unwrap().insert(m.clone(), x.clone());
        x
    };
    let seen: Mutex<BTreeMap<Model, (PathBuf, Vec<Act>)>> = Default::default();
    seen.lock().unwrap().insert(Model::new(), (root.clone(), vec![]));
    ctx.state((usage, n, Model::new()));
    let mut layer: Vec<Model> = vec![Model::new()];
    for level in 0..depth {
        let next: Mutex<Vec<Model>> = Default::default();
        ctx.par(layer.len() * acts.len(), |j| {
            let (from, a) = (&layer[j / acts.len()], &acts[j % acts.len()]);
            let (dir, mut hist) = seen.lock().unwrap()[from].clone();
            let d = fresh_dir(ctx);
            let to = d.join("engine");
            copy_tree(&dir, &to);
            let m = apply(from, a);
            hist.push(a.clone());
            let key = format!("usage {} after {:?}", usage, hist.iter().map(|a| a.key()).collect::<Vec<_>>());
            ctx.eval(Some((usage, n, from, a)));
            ctx.transition(1);
            let new = { let mut s = seen.lock().unwrap(); if s.contains_key(&m) { false } else { s.insert(m.clone(), (to.clone(), hist.clone())); true } };
            let res = inject(&to, a, None);
            let history = || json!(hist.iter().map(|a| json!({"values": a.adds, "from vanilla": a.vanilla})).collect::<Vec<_>>());
            if res.ok().is_none() { ctx.violate(&key, json!({"parser usage": usage, "injections": history(), "got": res.why()})); return; }
            let e = match load(&to) { Ans::Ok(e) => e, x => { ctx.violate(&key, json!({"parser usage": usage, "injections": history(), "the engine afterwards": x.why()})); return; } };
            let x = expect(&m);
            let ats = if new { of(&m) } else { ts.clone() };
            let (got, exp) = if new { (answers(&e, &spec, &ats, true), &x.all) } else { (answers(&e, &spec, &ats, false), &x.answers) };
            if let Some(k) = (0..got.len()).find(|k| got[*k] != exp[*k]) {
                let per = got.len() / ats.len();
                ctx.violate(&key, json!({"parser usage": usage, "injections": history(), "text": ats.get(k / per.max(1)), "query": k, "an engine trained with these values": exp[k], "got": got[k]}));
                return;
            }
            match direct(&e, &spec, &m) { Ok(_) => {} Err(v) => { ctx.violate(&key, json!({"parser usage": usage, "injections": history(), "value": v})); return; } }
            ctx.trace(1);
            ctx.sample(|| json!({"usage": usage, "injections": history()}));
            drop(e);
            if new {
                ctx.state((usage, n, &m));
                if level + 1 < depth { next.lock().unwrap().push(m); } else { let _ = std::fs::remove_dir_all(&d); }
            } else { let _ = std::fs::remove_dir_all(&d); }
        });
        if ctx.stopped() { return; }
        layer = next.into_inner().unwrap();
    }
    for (_, (d, _)) in seen.into_inner().unwrap() { let _ = std::fs::remove_dir_all(d.parent().unwrap()); }
}
/// requests of other forms
fn requests(ctx: &Ctx) {
    // values of one request that are stems of each other, in every order
    let vs = ["Tea", "Teas", "Green Tea", "Green Teas", "Rooibo", "Rooibos"];
    ctx.par(3 * vs.len() * vs.len(), |j| {
        let usage = (j % 3) as u8;
        let (a, b) = (vs[j / 3 % vs.len()], vs[j / 3 / vs.len()]);
        if lower(a) == lower(b) { return; }
        let spec = inject_world(usage);
        let dir = spec.write(&fresh_dir(ctx).join("engine"));
        let x = act(&[("drink", a), ("drink", b)], false);
        ctx.eval(Some((usage, a, b)));
        let r = inject(&dir, &x, None);
        let e = match (r.ok(), load(&dir)) { (Some(_), Ans::Ok(e)) => e, (_, l) => { ctx.violate(&format!("usage {} {}", usage, x.key()), json!({"usage": usage, "values": x.adds, "got": [r.why(), l.why()]})); return; } };
        for v in [a, b] {
            if usage == 0 && stem(&spec, v) != v { continue; }
            if usage == 0 { continue; }
            match extract(&e, v, "Make", "what", 0) { Ans::Ok(Some(sl)) if js(&sl)["value"]["value"] == json!(v) => {} g => ctx.violate(&format!("usage {} {} {}", usage, x.key(), v), json!({"usage": usage, "values of one request": x.adds, "text": v, "got": ansjs(&g)})) }
        }
        // the stem of each is recognised as one of the two
        for v in [a, b] {
            if usage == 1 { continue; }
            let st = toks(v).iter().map(|t| stem(&spec, t)).collect::<Vec<_>>().join(" ");
            match extract(&e, &st, "Make", "what", 0) { Ans::Ok(Some(sl)) if [json!(a), json!(b)].contains(&js(&sl)["value"]["value"]) => {} g => ctx.violate(&format!("usage {} {} stem {}", usage, x.key(), st), json!({"usage": usage, "values of one request": x.adds, "text": st, "got": ansjs(&g)})) }
        }
    });
    // requests whose values have repeated stems, or differ by case only: every value is kept, in the order of the request
    let forms: [&[(&str, &str)]; 12] = [
        &[("drink", "tea teas")], &[("drink", "Teas tea teas")], &[("drink", "Rooibos rooibo"), ("drink", "rooibos")], &[("drink", "Rooibos"), ("drink", "ROOIBOS")], &[("drink", "ROOIBOS"), ("drink", "rooibos"), ("drink", "Rooibos")],
        &[("snips/city", "LYON"), ("snips/city", "Lyon"), ("snips/city", "lyon")], &[("room", "Big  Attic"), ("room", "big attic"), ("room", "BIG ATTIC ")], &[("drink", "Teas"), ("drink", "TEAS"), ("drink", "teas")],
        &[("room", "!"), ("drink", "&"), ("drink", "% !")], &[("snips/musicArtist", "!!!"), ("snips/city", "?")], &[("drink", "a\u{0301}b"), ("drink", "\u{e1}b")], &[("drink", "tea, teas"), ("drink", "tea teas"), ("drink", "tea-teas")],
    ];
    ctx.par(3 * forms.len() * 4, |j| {
        let (usage, form, vanilla, twice) = ((j % 3) as u8, forms[j / 3 % forms.len()], j / 3 / forms.len() % 2 == 1, j / 3 / forms.len() / 2 == 1);
        let spec = inject_world(usage);
        let dir = spec.write(&fresh_dir(ctx).join("engine"));
        let a = act(form, vanilla);
        let mut m = Model::new();
        for round in 0..1 + twice as usize {
            // (the second time in the opposite order)
            let x = if round == 0 { a.clone() } else { Act { adds: a.adds.iter().rev().cloned().collect(), vanilla: false } };
            m = apply(&m, &x);
            let r = inject(&dir, &x, None);
            if r.ok().is_none() { ctx.violate(&format!("form {} {}", usage, x.key()), json!({"usage": usage, "values": x.adds, "got": r.why()})); return; }
        }
        let t = trained(&spec, &m).write(&fresh_dir(ctx).join("engine"));
        let (e, x) = match (load(&dir), load(&t)) { (Ans::Ok(e), Ans::Ok(x)) => (e, x), (a, b) => { ctx.violate(&format!("form {} {:?}", usage, form), json!({"usage": usage, "values": form, "got": [a.why(), b.why()]})); return; } };
        let mut ts = texts(&a.adds);
        ts.extend(a.adds.iter().flat_map(|(_, v)| vec![lower(v), v.to_uppercase(), toks(v).join(" "), { let mut k: Vec<S> = toks(v).iter().map(|t| stem(&spec, t)).collect(); k.dedup(); k.join(" ") }]));
        for t in ts { for (_, i, sl) in SLOTS { for alts in [0usize, 1, 9] {
            ctx.eval(Some((usage, form, vanilla, twice, &t, i, alts)));
            let (g, y) = (ansjs(&extract(&e, &t, i, sl, alts)), ansjs(&extract(&x, &t, i, sl, alts)));
            if g != y { ctx.violate(&format!("form {} {:?} {} {} {:?} {}", usage, form, vanilla, twice, t, sl), json!({"usage": usage, "values of one request": form, "from vanilla": vanilla, "again in the opposite order": twice, "text": t, "slot": [i, sl], "alternatives": alts, "an engine trained with the values": y, "got": g})); return; }
        } } }
    });
    // the stemmer of given resources is the one that counts; so do no resources in the directory
    for usage in 0..3u8 { for strip in [false, true] {
        let spec = inject_world(usage);
        let dir = spec.write(&fresh_dir(ctx).join("engine"));
        let r = match load_shared_resources(dir.join("resources/en"), dir.join("builtin_entity_parser"), dir.join("custom_entity_parser")) { Ok(r) => r, Err(e) => { ctx.violate("load", json!(e.to_string())); return; } };
        let other = { let d = fresh_dir(ctx); let mut x = spec.res.clone(); x.stems = Some(vec![ss(&["bluex", "blue"]), ss(&["milkx", "milk"])]); write_resources(&d, "en", &x); load_shared_resources(&d, dir.join("builtin_entity_parser"), dir.join("custom_entity_parser")) };
        let other = match other { Ok(r) => r, Err(e) => { ctx.violate("load", json!(e.to_string())); return; } };
        let given = Arc::new(SharedResources { builtin_entity_parser: r.builtin_entity_parser.clone(), custom_entity_parser: r.custom_entity_parser.clone(), gazetteers: r.gazetteers.clone(), stemmer: other.stemmer.clone(), word_clusterers: HashMap::new(), stop_words: r.stop_words.clone() });
        if strip { std::fs::remove_dir_all(dir.join("resources")).unwrap(); }
        ctx.eval(Some((usage, strip)));
        let a = inject(&dir, &act(&[("drink", "Blue Milk")], false), Some(given.clone()));
        if a.ok().is_none() { ctx.violate(&format!("given resources {} {}", usage, strip), json!({"usage": usage, "resources in the directory": !strip, "got": a.why()})); continue; }
        let p = dir.join("custom_entity_parser");
        let again = { let d = fresh_dir(ctx); write_resources(&d, "en", &spec.res); load_shared_resources(&d, dir.join("builtin_entity_parser"), &p) };
        let again = match again { Ok(r) => r, Err(e) => { ctx.violate("load", json!(e.to_string())); continue; } };
        for (t, yes) in [("blue milk", usage > 0), ("bluex milkx", usage != 1), ("blue milkx", false)] {
            let m = again.custom_entity_parser.extract_entities(t, Some(&[s("drink")]), 0).map(|v| v.iter().any(|m| m.resolved_value == "Blue Milk" && m.range == (0..t.len()))).unwrap_or(false);
            if m != yes { ctx.violate(&format!("given stemmer, usage {} {:?}", usage, t), json!({"parser usage": usage, "stemmer": "blue -> bluex, milk -> milkx", "injected": "Blue Milk", "text": t, "recognised": m})); }
        }
    } }
    // many values, long values, entities of odd names
    for usage in 0..3u8 {
        let mut spec = inject_world(usage);
        for (i, n) in ["my drink", "boisson-é", "日本", "snips/unknown", "../x", "a.b", ""].iter().enumerate() {
            spec.entities.push(ent(n, i % 2 == 0, &[("zz", "zz")]));
            spec.intents.push((format!("I{}", i), pairs(&[("s", n)])));
        }
        let dir = spec.write(&fresh_dir(ctx).join("engine"));
        let mut m = Model::new();
        for round in 0..3 {
            let mut a = Act { adds: vec![], vanilla: false };
            for i in 0..200 { a.adds.push((s("drink"), format!("Value{} number {}", round, i))); }
            a.adds.push((s("room"), (0..300).map(|i| format!("w{}", i)).collect::<Vec<_>>().join(" ")));
            for n in ["my drink", "boisson-é", "日本", "snips/unknown", "../x", "a.b", ""] { a.adds.push((s(n), format!("V{} of X", round))); }
            m = apply(&m, &a);
            ctx.eval(Some((usage, "many", round)));
            let r = inject(&dir, &a, None);
            let e = match (r.ok(), load(&dir)) { (Some(_), Ans::Ok(e)) => e, (_, l) => { ctx.violate(&format!("many {} {}", usage, round), json!({"usage": usage, "round": round, "got": [r.why(), l.why()]})); break; } };
            let t = trained(&spec, &m).write(&fresh_dir(ctx).join("engine"));
            let x = match load(&t) { Ans::Ok(e) => e, a => { ctx.violate("load", json!(a.why())); break; } };
            for v in ["Value0 number 7", "value1 number 199", "Value2 number 0", "V0 of X", "V1 of X", "v2 OF x", "zz", "w1 w2"].iter().map(|x| s(x)).chain(m["room"].iter().cloned()) {
                for (i, sl) in &spec.intents { for (sn, _) in sl {
                    let (g, y) = (ansjs(&extract(&e, &v, i, sn, 3)), ansjs(&extract(&x, &v, i, sn, 3)));
                    if g != y { ctx.violate(&format!("many {} {} {} {} {}", usage, round, i, sn, &v[..v.len().min(20)]), json!({"usage": usage, "round": round, "text": v.chars().take(50).collect::<String>(), "slot": [i, sn], "an engine trained with the values": y, "got": g})); }
                } }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- C27
const INVALID: [&str; 14] = ["unknown", "", "Drink", "drink ", "snips/number", "snips/datetime", "snips/musicTrack", "snips/country", "snips/City", "snips/", "ghost", "snips/region", "parser_1", "../drink"];
fn with_ghost(usage: u8) -> Engine { inject_world(usage) }
/// an entity of the dataset for which there is no parser
fn add_ghost(dir: &Path) {
    let p = dir.join("nlu_engine.json");
    let mut m = read_json(&p);
    m["dataset_metadata"]["entities"]["ghost"] = json!({"automatically_extensible": true});
    m["dataset_metadata"]["entities"]["snips/region"] = json!({"automatically_extensible": true});
    put(&p, &m);
}
pub fn c27(ctx: &Ctx) {
    ctx.rule("a request that names something that cannot be injected, or an engine that cannot be read");
    ctx.level("fault_enumeration");
    let valid: Vec<Vec<(&str, &str)>> = vec![vec![], vec![("drink", "Rooibos")], vec![("snips/city", "Lyon")], vec![("drink", "Rooibos"), ("room", "Attic"), ("snips/city", "Lyon"), ("snips/musicArtist", "Abba")]];
    let mut jobs: Vec<(u8, Act, bool)> = vec![];
    for usage in 0..3u8 { for v in &valid { for bad in INVALID { for at in 0..=v.len() { for vanilla in [false, true] { for given in [false, true] {
        let mut x = v.clone();
        x.insert(at, (bad, "Value"));
        jobs.push((usage, act(&x, vanilla), given));
        if ctx.thorough { for b2 in INVALID { let mut x = x.clone(); x.push((b2, "Other")); jobs.push((usage, act(&x, vanilla), given)); } }
    } } } } } }
    // engines without any gazetteer parser
    let mut nogaz: Vec<(u8, Act, bool)> = vec![];
    for usage in 0..3u8 { for bad in ["snips/city", "snips/musicArtist", "snips/number", "unknown"] { for v in [vec![], vec![("drink", "Rooibos")], vec![("drink", "Rooibos"), ("room", "Attic")]] { let mut x = v.clone(); x.push((bad, "V")); nogaz.push((usage, act(&x, false), false)); } } }
    ctx.note("refused requests", json!(jobs.len() + nogaz.len()));
    for (set, gaz) in [(&jobs, true), (&nogaz, false)] {
        let chunk = 40;
        ctx.par(set.len().div_ceil(chunk), |j| {
            let d = fresh_dir(ctx);
            for (i, (usage, a, given)) in set[j * chunk..((j + 1) * chunk).min(set.len())].iter().enumerate() {
                let dir = d.join(format!("{}/engine", i));
                let mut spec = with_ghost(*usage);
                if !gaz { spec.gaz.clear(); }
                spec.write(&dir);
                add_ghost(&dir);
                // (given resources need not be read; those of the directory are)
                let res = if *given { load_shared_resources(dir.join("resources/en"), dir.join("builtin_entity_parser"), dir.join("custom_entity_parser")).ok() } else { None };
                ctx.eval(Some((usage, a, given, gaz)));
                let (r, bad) = unchanged(&d.join(format!("{}", i)), &|_| false, || inject(&dir, a, res));
                let key = format!("usage {} {}{}", usage, a.key(), if gaz { "" } else { " without gazetteers" });
                match &r { Ans::Err(e) if e.starts_with("Entity is not injectable") => {} r => ctx.violate(&key, json!({"request": a.adds, "expected": "an error: entity is not injectable", "got": r.why()})) }
                if !bad.is_empty() { ctx.violate(&key, json!({"request": a.adds, "refused, but": bad})); }
                let _ = std::fs::remove_dir_all(d.join(format!("{}", i)));
            }
        });
    }
    // an engine that cannot be read: every file missing, cut, of another kind; every operation failing
    let requests = [act(&[("drink", "Rooibos"), ("room", "Attic"), ("snips/city", "Lyon"), ("snips/musicArtist", "Abba")], false), act(&[("drink", "Rooibos")], true), act(&[("snips/city", "Lyon"), ("room", "Attic")], false)];
    let specs: Vec<Engine> = (0..3).map(inject_world).collect();
    let mut jobs: Vec<(usize, usize, PathBuf, usize)> = vec![];
    let first = specs[0].write(&fresh_dir(ctx).join("engine"));
    let mut paths: Vec<PathBuf> = snapshot(&first).into_keys().collect();
    paths.push(PathBuf::new());
    for i in 0..specs.len() { for r in 0..requests.len() { for p in &paths { for how in 0..9 { jobs.push((i, r, p.clone(), how)); } } } }
    ctx.note("damaged engines", json!(jobs.len()));
    let bases: Vec<PathBuf> = specs.iter().map(|s| s.write(&fresh_dir(ctx).join("engine"))).collect();
    ctx.par(jobs.len(), |j| {
        let (i, r, p, how) = &jobs[j];
        let d = fresh_dir(ctx);
        let dir = d.join("engine");
        copy_tree(&bases[*i], &dir);
        let f = if p.as_os_str().is_empty() { dir.clone() } else { dir.join(p) };
        let isdir = f.is_dir();
        let data = if isdir { vec![] } else { std::fs::read(&f).unwrap() };
        match (isdir, how) {
            (true, 0) => std::fs::remove_dir_all(&f).unwrap(),
            (true, 1) => { std::fs::remove_dir_all(&f).unwrap(); std::fs::write(&f, "x").unwrap() }
            (false, 0) => std::fs::remove_file(&f).unwrap(),
            (false, 1) => { std::fs::remove_file(&f).unwrap(); std::fs::create_dir(&f).unwrap() }
            (false, 2) => std::fs::write(&f, "").unwrap(),
            (false, 3) => std::fs::write(&f, &data[..data.len() / 2]).unwrap(),
            (false, 4) => std::fs::write(&f, "{}").unwrap(),
            (false, 5) => std::fs::write(&f, "[]").unwrap(),
            (false, 6) => std::fs::write(&f, b"\xff\xfe").unwrap(),
            (false, 7) => std::fs::write(&f, "null").unwrap(),
            (false, 8) => std::fs::write(&f, &data[..data.len().saturating_sub(1)]).unwrap(),
            _ => { let _ = std::fs::remove_dir_all(&d); return; }
        }
        ctx.eval(Some((i, r, p, how)));
        damaged(ctx, &d, &dir, &requests[*r], &format!("usage {} {} damage {} of {}", i, requests[*r].key(), how, p.display()), &specs[*i], None);
        let _ = std::fs::remove_dir_all(&d);
    });
    // parsers that are named, but are elsewhere
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for i in 0..specs.len() { for r in 0..requests.len() { for k in 0..14 { jobs.push((i, r, k)); } } }
    ctx.par(jobs.len(), |j| {
        let (i, r, k) = jobs[j];
        let d = fresh_dir(ctx);
        let dir = d.join("engine");
        copy_tree(&bases[i], &dir);
        let edit = |f: &str, g: &dyn Fn(&mut Value)| { let mut m = read_json(&dir.join(f)); g(&mut m); put(&dir.join(f), &m); };
        let c = "custom_entity_parser/parser/metadata.json";
        let b = "builtin_entity_parser/gazetteer_entity_parser/metadata.json";
        let what = match k {
            0 => { edit(c, &|m| m["parsers_metadata"][0]["entity_parser"] = json!("nowhere")); "first custom parser elsewhere" }
            1 => { edit(c, &|m| m["parsers_metadata"][1]["entity_parser"] = json!("nowhere")); "second custom parser elsewhere" }
            2 => { edit(b, &|m| m["parsers_metadata"][0]["entity_parser"] = json!("nowhere")); "first builtin parser elsewhere" }
            3 => { edit(b, &|m| m["parsers_metadata"][1]["entity_parser"] = json!("")); "second builtin parser without name" }
            4 => { edit(c, &|m| { m["parsers_metadata"].as_array_mut().unwrap().remove(0); }); "drink without parser" }
            5 => { edit(c, &|m| { m["parsers_metadata"].as_array_mut().unwrap().clear(); }); "no custom parsers" }
            6 => { edit(b, &|m| { m["parsers_metadata"].as_array_mut().unwrap().remove(1); }); "artist without parser" }
            7 => { edit("custom_entity_parser/metadata.json", &|m| m["parser_usage"] = json!(3)); "unknown usage" }
            8 => { edit("custom_entity_parser/metadata.json", &|m| m["parser_directory"] = json!("nowhere")); "custom parser elsewhere" }
            9 => { edit("builtin_entity_parser/metadata.json", &|m| m["gazetteer_parser"] = json!("nowhere")); "builtin parser elsewhere" }
            10 => { edit("nlu_engine.json", &|m| m["dataset_metadata"]["language_code"] = json!("xx")); "unknown language" }
            11 => { edit("resources/en/metadata.json", &|m| m["stems"] = Value::Null); "no stemmer" }
            12 => { edit("nlu_engine.json", &|m| m["custom_entity_parser"] = json!("nowhere")); "custom parsers elsewhere" }
            _ => { edit("nlu_engine.json", &|m| m["builtin_entity_parser"] = json!("nowhere")); "builtin parsers elsewhere" }
        };
        ctx.eval(Some((i, r, what)));
        let named = |e: &str| requests[r].adds.iter().any(|x| x.0 == e);
        let must = match k { 0 => named("drink"), 1 => named("room"), 2 => named("snips/city"), 3 => named("snips/musicArtist"), 4 => named("drink"), 5 => named("drink") || named("room"), 6 => named("snips/musicArtist"), 11 => i != 1 && (named("drink") || named("room")), _ => true };
        damaged(ctx, &d, &dir, &requests[r], &format!("usage {} {} {}", i, requests[r].key(), what), &specs[i], if must { Some(k) } else { None });
        let _ = std::fs::remove_dir_all(&d);
    });
    // every failing read
    for (i, spec) in specs.iter().enumerate() {
        for a in &requests {
            let d = fresh_dir(ctx);
            let dir = d.join("engine");
            copy_tree(&bases[i], &dir);
            install(Mode::Count, true, false);
            let r = inject(&dir, a, None);
            let n = uninstall().ops;
            if r.ok().is_none() { ctx.violate("inject", json!(r.why())); return; }
            ctx.par(n * 2, |j| {
                let d = fresh_dir(ctx);
                let dir = d.join("engine");
                copy_tree(&bases[i], &dir);
                let before = snapshot(&dir);
                install(if j % 2 == 0 { Mode::FailAt(j / 2) } else { Mode::FailFrom(j / 2) }, true, false);
                let r = inject(&dir, a, None);
                let sum = uninstall();
                let what = sum.trace.get(j / 2).cloned().unwrap_or_default();
                ctx.eval(Some((i, a, j)));
                let key = format!("usage {} {} failing {}", i, a.key(), what);
                match &r {
                    Ans::Err(e) => {
                        if !e.starts_with("Internal injection error") && !e.starts_with("Entity is not injectable") { ctx.violate(&key, json!({"failing": what, "got": e})); }
                        let x = differences(&before, &snapshot(&dir));
                        if !x.is_empty() { ctx.violate(&key, json!({"request": a.adds, "failing read": what, "refused, but": x, "error": e})); }
                    }
                    Ans::Panic(p) => ctx.violate(&key, json!({"failing": what, "got": p})),
                    Ans::Ok(_) => { if let Some(x) = not_new(&dir, spec, a) { ctx.violate(&key, json!({"failing": what, "reported": "success", "but": x})); } }
                }
                let _ = std::fs::remove_dir_all(&d);
            });
        }
    }
}
/// does the engine in `dir` lack what the request injects?
fn not_new(dir: &Path, spec: &Engine, a: &Act) -> Option<Value> {
    let e = match load(dir) { Ans::Ok(e) => e, x => return Some(json!(x.why())) };
    let m = apply(&Model::new(), a);
    direct(&e, spec, &m).err()
}
fn damaged(ctx: &Ctx, d: &Path, dir: &Path, a: &Act, key: &str, spec: &Engine, must_fail: Option<usize>) {
    let (r, bad) = { let before = snapshot(d); let r = inject(dir, a, None); let after = snapshot(d); (r, differences(&before, &after)) };
    match &r {
        Ans::Panic(p) => ctx.violate(key, json!({"request": a.adds, "damage": key, "got": p})),
        Ans::Err(e) => {
            if !e.starts_with("Internal injection error") && !e.starts_with("Entity is not injectable") { ctx.violate(key, json!({"damage": key, "got": e})); }
            if !bad.is_empty() { ctx.violate(key, json!({"request": a.adds, "damage": key, "refused, but": bad, "error": e})); }
        }
        Ans::Ok(_) => {
            if must_fail.is_some() { ctx.violate(key, json!({"request": a.adds, "damage": key, "expected": "an error", "got": "success"})); }
            // (the engine may be damaged where an injection does not look)
            if let Ans::Ok(e) = load(dir) { let m = apply(&Model::new(), a); if let Err(v) = direct(&e, spec, &m) { ctx.violate(key, json!({"damage": key, "reported": "success", "but": v})); } }
        }
    }
}

// ------------------------------------------------------------------------------------------- C28
/// per entity, what it answers
fn by_entity(dir: &Path, ts: &[S]) -> Result<BTreeMap<&'static str, Vec<Value>>, String> {
    let e = match load(dir) { Ans::Ok(e) => e, a => return Err(a.why()) };
    Ok(SLOTS.iter().map(|(n, i, sl)| (*n, ts.iter().map(|t| ansjs(&extract(&e, t, i, sl, 5))).collect())).collect())
}
pub fn c28(ctx: &Ctx) {
    ctx.rule("one injection interrupted at one operation, in one history");
    ctx.level("fault_enumeration");
    let acts = [
        act(&[("drink", "Rooibos")], false),
        act(&[("drink", "TEA"), ("room", "Attic")], false),
        act(&[("snips/city", "PARIS"), ("snips/city", "Lyon")], false),
        act(&[("drink", "Latte"), ("room", "Salon"), ("snips/city", "Lyon"), ("snips/musicArtist", "The Who")], false),
        act(&[("drink", "Mate"), ("snips/city", "Rome")], true),
    ];
    let used: Vec<(S, S)> = acts.iter().flat_map(|a| a.adds.clone()).collect();
    let ts = texts(&used);
    let usages: &[u8] = if ctx.thorough { &[0, 1, 2] } else { &[1, 2] };
    let modes = |n: usize| [Mode::FailAt(n), Mode::FailFrom(n), Mode::CrashAt(n), Mode::TornAt(n)];
    for &usage in usages {
        let spec = inject_world(usage);
        let base = spec.write(&fresh_dir(ctx).join("engine"));
        // starting from the trained engine, and from one that was injected before
        let mut starts: Vec<(String, PathBuf)> = vec![(s("trained"), base.clone())];
        for (i, a) in acts.iter().enumerate() {
            if !ctx.thorough && i % 2 == 0 && i > 0 { continue; }
            let d = fresh_dir(ctx).join("engine");
            copy_tree(&base, &d);
            if let Some(_) = inject(&d, a, None).ok() { starts.push((a.key(), d)); }
        }
        for (from, start) in &starts {
            let old = match by_entity(start, &ts) { Ok(x) => x, Err(e) => { ctx.violate("load", json!(e)); return; } };
            for a in &acts {
                if ctx.stopped() { return; }
                let d = fresh_dir(ctx).join("engine");
                copy_tree(start, &d);
                install(Mode::Count, true, true);
                let r = inject(&d, a, None);
                let n = uninstall().ops;
                if r.ok().is_none() { ctx.violate("inject", json!(r.why())); return; }
                let new = match by_entity(&d, &ts) { Ok(x) => x, Err(e) => { ctx.violate("load", json!(e)); return; } };
                let _ = std::fs::remove_dir_all(d.parent().unwrap());
                ctx.par(n * 4, |j| {
                    let mode = modes(j / 4)[j % 4];
                    let d = fresh_dir(ctx);
                    let dir = d.join("engine");
                    copy_tree(start, &dir);
                    install(mode, true, true);
                    let r = inject(&dir, a, None);
                    let sum = uninstall();
                    let what = sum.trace.get(j / 4).cloned().unwrap_or_default();
                    let kind = ["failing once", "failing from there on", "process stopped before", "process stopped within"][j % 4];
                    ctx.eval(Some((usage, from, a, j)));
                    ctx.trace(1);
                    let key = format!("usage {} from {} {} {} {}", usage, from, a.key(), kind, what);
                    let about = || json!({"parser usage": usage, "engine": from, "injection": a.adds, "from vanilla": a.vanilla, "operation": what, "number": j / 4, "fault": kind, "reported": r.why()});
                    if let Ans::Panic(_) = &r { ctx.violate(&key, json!({"interruption": about()})); return; }
                    match by_entity(&dir, &ts) {
                        Err(e) => { ctx.violate(&key, json!({"interruption": about(), "the engine afterwards": e})); return; }
                        Ok(x) => {
                            for (n, v) in &x {
                                let (o, w) = (&old[n], &new[n]);
                                if v != o && v != w {
                                    let k = (0..v.len()).find(|k| v[*k] != o[*k] && v[*k] != w[*k]).or_else(|| (0..v.len()).find(|k| v[*k] != o[*k])).unwrap_or(0);
                                    ctx.violate(&key, json!({"interruption": about(), "entity": n, "text": ts[k], "before": o[k], "after a whole injection": w[k], "got": v[k]}));
                                    return;
                                }
                            }
                            if r.ok().is_some() && x != new { ctx.violate(&key, json!({"interruption": about(), "expected": "all new values, as it reports success"})); return; }
                        }
                    }
                    // the same injection again, whole or interrupted once more
                    let again = inject(&dir, a, None);
                    match (again.ok(), by_entity(&dir, &ts)) { (Some(_), Ok(x)) if x == new => {} (_, x) => { ctx.violate(&key, json!({"interruption": about(), "the same injection again": again.why(), "then": x.err()})); return; } }
                    ctx.sample(about);
                    let _ = std::fs::remove_dir_all(&d);
                });
                // two interruptions in a row
                if from == "trained" && (ctx.thorough || a.adds.len() == 2 && !a.vanilla && usage == 1) {
                    let muts = { let d = fresh_dir(ctx).join("engine"); copy_tree(start, &d); install(Mode::Count, false, true); let _ = inject(&d, a, None); let n = uninstall().ops; let _ = std::fs::remove_dir_all(d.parent().unwrap()); n };
                    let m2 = muts + 4;
                    ctx.par(muts * m2, |j| {
                        let d = fresh_dir(ctx);
                        let dir = d.join("engine");
                        copy_tree(start, &dir);
                        for k in [j / m2, j % m2] { install(Mode::TornAt(k), false, true); let _ = inject(&dir, a, None); uninstall(); }
                        ctx.eval(Some((usage, from, a, "twice", j)));
                        ctx.trace(1);
                        let key = format!("usage {} {} stopped at mutation {} then {}", usage, a.key(), j / m2, j % m2);
                        match by_entity(&dir, &ts) {
                            Err(e) => { ctx.violate(&key, json!({"history": key, "the engine afterwards": e})); return; }
                            Ok(x) => for (n, v) in &x { if v != &old[n] && v != &new[n] { ctx.violate(&key, json!({"history": key, "entity": n, "expected": "all its previous or all its new values"})); return; } },
                        }
                        let again = inject(&dir, a, None);
                        match (again.ok(), by_entity(&dir, &ts)) { (Some(_), Ok(x)) if x == new => {} (_, x) => { ctx.violate(&key, json!({"history": key, "the same injection again": again.why(), "then": x.err()})); return; } }
                        let _ = std::fs::remove_dir_all(&d);
                    });
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------- C33, injections
pub fn c33_injections(ctx: &Ctx) {
    let acts = actions(15);
    ctx.par(acts.len() * 3, |j| {
        let a = &acts[j / 3];
        let spec = inject_world((j % 3) as u8);
        let d = fresh_dir(ctx);
        let dir = spec.write(&d.join("engine"));
        for p in ["engine/notes.txt", "engine/custom_entity_parser/notes.txt", "engine/custom_entity_parser/parser/notes.txt", "engine/custom_entity_parser/parser/other/parser", "engine/builtin_entity_parser/gazetteer_entity_parser/notes.txt", "engine2/nlu_engine.json"] { put_text(&d.join(p), "mine"); }
        for round in 0..3 {
            let mut free: Vec<PathBuf> = vec![];
            let mut named: Vec<PathBuf> = vec![];
            let mut others: Vec<(PathBuf, Value)> = vec![];
            let metas = ["engine/custom_entity_parser/parser", "engine/builtin_entity_parser/gazetteer_entity_parser"];
            for g in metas {
                let m = read_json(&d.join(g).join("metadata.json"));
                let mine = |e: &Value| a.adds.iter().any(|x| e["entity_identifier"] == json!(x.0));
                for e in m["parsers_metadata"].as_array().unwrap() {
                    if mine(e) { named.push(Path::new(g).join(e["entity_parser"].as_str().unwrap())); } else { others.push((PathBuf::from(g), e.clone())); }
                }
                if m["parsers_metadata"].as_array().unwrap().iter().any(mine) { free.push(PathBuf::from(g)); }
            }
            let before = snapshot(&d);
            let allowed = |p: &Path| {
                // inside the parsers of the injected entities, or new beside them
                named.iter().any(|n| p.starts_with(n)) || free.iter().any(|g| p == g || p == g.join("metadata.json") || p.starts_with(g) && !before.contains_key(p))
            };
            let (r, bad) = unchanged(&d, &allowed, || inject(&dir, a, None));
            ctx.eval(Some((a, j % 3, round)));
            let key = format!("injection {} {} {}", j % 3, round, a.key());
            if !bad.is_empty() || r.ok().is_none() { ctx.violate(&key, json!({"injection": a.adds, "number": round, "got": r.why(), "changed": bad})); return; }
            for (g, e) in &others { if !read_json(&d.join(g).join("metadata.json"))["parsers_metadata"].as_array().unwrap().contains(e) { ctx.violate(&key, json!({"injection": a.adds, "another entity": e, "its parser": "is not the same any more"})); } }
            // nothing is left but the parsers: as many as there were
            let count = |s: &BTreeMap<PathBuf, Option<Vec<u8>>>| s.len();
            let n = snapshot(&d);
            if count(&n) != count(&before) { ctx.violate(&key, json!({"injection": a.adds, "left behind": differences(&before, &n)})); }
        }
        let _ = std::fs::remove_dir_all(&d);
    });
}
