//! Determinism, caching, concurrency, failures: properties over histories and schedules of queries.
use crate::c_engine::*;
use crate::common::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use serde_json::{json, Value};
use snips_nlu_lib::{DeterministicIntentParser, IntentParser, SnipsNluEngine};
use snips_nlu_parsers::mc;
use std::collections::BTreeSet;

/// one query, and its answer as comparable data
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Q { Parse(S, Option<Vec<S>>, Option<Vec<S>>, usize, usize), Intents(S), Slots(S, S, usize), Extract(S, S, S, usize) }
pub fn run(e: &SnipsNluEngine, q: &Q) -> Value {
    match q {
        Q::Parse(t, w, b, i, s) => ansjs(&parse(e, t, w, b, *i, *s)),
        Q::Intents(t) => ansjs(&intents(e, t)),
        Q::Slots(t, i, s) => ansjs(&slots(e, t, i, *s)),
        Q::Extract(t, i, sl, s) => ansjs(&extract(e, t, i, sl, *s)),
    }
}
/// the queries over one text
pub fn queries(e: &Engine, t: &str) -> Vec<Q> {
    let names: Vec<S> = e.intents.iter().map(|i| i.0.clone()).collect();
    let mut v = vec![
        Q::Parse(s(t), None, None, 0, 0),
        Q::Parse(s(t), None, None, 9, 3),
        Q::Parse(s(t), None, Some(names[..1].to_vec()), 2, 0),
        Q::Parse(s(t), Some(names[1.min(names.len() - 1)..].to_vec()), None, 9, 1),
        Q::Intents(s(t)),
    ];
    for (i, sl) in &e.intents {
        v.push(Q::Slots(s(t), i.clone(), 2));
        for (n, _) in sl { v.push(Q::Extract(s(t), i.clone(), n.clone(), 2)); }
    }
    v
}

// ------------------------------------------------------------------------------------------- C03
/// all answers of an engine loaded in a fresh thread whose hash tables are seeded with `seed`, and the
/// order in which the parsers went through the intents
fn answers(w: &World, qs: &[Q], seed: u64) -> (Vec<Value>, Vec<Value>, String) {
    std::thread::scope(|sc| sc.spawn(|| {
        mc_env::seed::set_thread_seed(seed);
        let e = match load(&w.dir) { Ans::Ok(e) => e, a => return (vec![json!(a.why())], vec![], String::new()) };
        let a: Vec<Value> = qs.iter().map(|q| run(&e, q)).collect();
        let again: Vec<Value> = qs.iter().map(|q| run(&e, q)).collect();
        (a, again, hash_order(w, seed))
    }).join().unwrap())
}
/// the order of the table of intents of a pattern parser under this seed, as its own ranking shows it
fn hash_order(w: &World, seed: u64) -> String {
    if !w.dir.join("deterministic_intent_parser").exists() || !w.spec.name.starts_with("tie") { return String::new(); }
    std::thread::scope(|sc| sc.spawn(|| {
        mc_env::seed::set_thread_seed(seed);
        let res = snips_nlu_lib::load_shared_resources(w.dir.join("resources/en"), w.dir.join("builtin_entity_parser"), w.dir.join("custom_entity_parser")).expect("resources");
        let p = DeterministicIntentParser::from_path(w.dir.join("deterministic_intent_parser"), res).expect("parser");
        p.get_intents("nothing").map(|v| v.into_iter().filter_map(|i| i.intent_name).collect::<Vec<_>>().join(" ")).unwrap_or_default()
    }).join().unwrap_or_default())
}
pub fn c03(ctx: &Ctx) {
    ctx.rule("one query to an engine whose hash tables are ordered differently from the reference engine's (a new seed), on a model with at least two intents");
    // (world, texts, number of hash orders of the intents to reach)
    let mut jobs: Vec<(World, Vec<S>, usize)> = vec![];
    let counts: Vec<Vec<usize>> = vec![vec![1; 12], vec![0, 1, 5, 5, 5], vec![1, 1, 1], vec![2, 0, 2, 1], vec![0, 0, 0, 0], vec![0, 5, 2], vec![3, 5, 5, 1]];
    for (k, c) in counts.iter().enumerate() {
        for p in ["D", "L", "DL", "LD", "P", "DP"] {
            if k > 0 && p.len() > 1 && !ctx.thorough { continue; }
            let n = if p == "D" && c.len() < 6 { (1..=c.len()).product() } else { 1 };
            jobs.push((world(ctx, tie_world(&format!("tie-{}-{:?}", p, c), p, c)), if n > 24 { vec![s(TIE_TEXT)] } else { vec![s(TIE_TEXT), s("tea"), s("")] }, n));
        }
    }
    let some: Vec<S> = SENTENCES.iter().step_by(if ctx.thorough { 1 } else { 2 }).map(|x| s(x)).collect();
    for w in main_worlds(ctx) { jobs.push((w, some.clone(), 1)); }
    for w in edge_worlds(ctx) { jobs.push((w, some[..6].to_vec(), 1)); }
    let orders_total = std::sync::atomic::AtomicUsize::new(0);
    ctx.par(jobs.len(), |j| {
        let (w, tx, target) = &jobs[j];
        let qs: Vec<Q> = tx.iter().flat_map(|t| queries(&w.spec, t)).collect();
        let min = if w.spec.name.starts_with("tie") { 64 } else if ctx.thorough { 128 } else { 6 };
        let (reference, _, o) = answers(w, &qs, ctx.seed);
        let mut orders: BTreeSet<String> = [o].into_iter().collect();
        let mut seed = 0u64;
        while (seed < min || orders.len() < *target) && seed < if ctx.thorough { 6000 } else { 700 } {
            if ctx.stopped() { return; }
            seed += 1;
            let (got, again, o) = answers(w, &qs, ctx.seed + seed * 0x1_0001);
            orders.insert(o);
            for (k, q) in qs.iter().enumerate() {
                ctx.eval(Some((&w.spec.name, q, seed)));
                if k >= got.len() || got[k] != reference[k] {
                    ctx.violate(&format!("{} {:?}", w.spec.name, q), json!({"engine": w.spec.name, "query": format!("{:?}", q), "hash seed": seed, "one answer": reference[k], "other answer": got.get(k)}));
                    break;
                }
                if again[k] != got[k] {
                    ctx.violate(&format!("{} repeated {:?}", w.spec.name, q), json!({"engine": w.spec.name, "query": format!("{:?}", q), "hash seed": seed, "first": got[k], "second": again[k]}));
                    break;
                }
            }
            ctx.sample(|| json!({"engine": w.spec.name, "seed": seed, "query": format!("{:?}", qs[0]), "answer": got[0]}));
        }
        orders_total.fetch_add(orders.len(), std::sync::atomic::Ordering::Relaxed);
        if *target > 1 { ctx.note(&format!("orders {}", w.spec.name), json!({"distinct orders of the intents seen": orders.len(), "possible": target, "seeds": seed})); }
    });
    ctx.note("distinct hash orders observed", json!(orders_total.load(std::sync::atomic::Ordering::Relaxed)));
}

// ------------------------------------------------------------------------------------------- C13
/// queries chosen to meet in the caches: same text, other case, other entities, other numbers of alternatives
fn alphabet() -> Vec<Q> {
    let t = "make two latte";
    vec![
        Q::Parse(s(t), None, None, 0, 0),
        Q::Parse(s(t), None, None, 0, 2),
        Q::Extract(s(t), s("Make"), s("what"), 0),
        Q::Extract(s("MAKE TWO LATTE"), s("Make"), s("what"), 2),
        Q::Slots(s("Make two Latte"), s("Make"), 1),
        Q::Slots(s(t), s("When"), 2),
        Q::Parse(s("light salon"), Some(ss(&["Light"])), None, 2, 1),
        Q::Extract(s("light salon"), s("Light"), s("where"), 1),
        Q::Intents(s("salon")),
        Q::Parse(s("SALON"), None, None, 3, 3),
        Q::Parse(s("make  two, latte"), None, None, 0, 1),
        Q::Parse(s("tonight in paris"), None, Some(ss(&["Hello"])), 1, 2),
        Q::Extract(s("tonight"), s("When"), s("time"), 1),
        Q::Extract(s("tonight"), s("When"), s("time"), 0),
        Q::Parse(s(""), None, None, 0, 0),
        Q::Extract(s(t), s("Make"), s("what"), 256),
    ]
}
/// one text, many scopes: lists of entities that begin alike, or read alike when joined
fn scopes_world() -> Engine {
    let mut e = base("scopes");
    e.entities = vec![ent("ab", false, &[("light", "ab"), ("tea", "ab tea")]), ent("a", false, &[("light", "a"), ("latte", "a latte")]), ent("bc", true, &[("tea", "bc"), ("light", "bc light")]), ent("c", true, &[("tea", "c"), ("latte", "c latte"), ("latte", "c milk")])];
    let scopes: [(&[&str], &[&str]); 8] = [
        (&["snips/number", "snips/datetime"], &[]), (&["snips/number", "snips/datetime", "snips/city"], &[]), (&["snips/datetime", "snips/city"], &[]), (&["snips/number"], &["ab", "c"]),
        (&["snips/number"], &["a", "bc"]), (&[], &["a", "bc", "c"]), (&[], &["a", "b c"]), (&["snips/city"], &["ab", "c"]),
    ];
    e.intents = scopes.iter().enumerate().map(|(i, (b, c))| (format!("I{}", i), b.iter().chain(*c).filter(|x| **x != "b c").enumerate().map(|(k, x)| (format!("s{}", k), s(x))).collect())).collect();
    let words = [("two", "snips/number"), ("tonight", "snips/datetime"), ("paris", "snips/city"), ("light", ""), ("tea", ""), ("latte", "")];
    // every intent knows the text with some of its entities replaced
    let mut utterances = vec![];
    for (i, (b, c)) in scopes.iter().enumerate() {
        for mask in 1usize..64 {
            let mut slots = vec![];
            let mut ok = true;
            let parts: Vec<S> = words.iter().enumerate().map(|(k, (w, kind))| {
                if mask >> k & 1 == 0 { return s(w); }
                let ent = if kind.is_empty() { c.iter().find(|n| e.entities.iter().any(|x| x.name == **n && x.values.iter().any(|v| v.0 == *w))).copied() } else { b.iter().find(|x| *x == kind).copied() };
                match ent { Some(n) => { slots.push(e.intents[i].1.iter().position(|x| x.1 == n).unwrap()); crate::refm::placeholder(n) } None => { ok = false; s(w) } }
            }).collect();
            if ok && mask.count_ones() > 1 && (mask + i) % 3 == 0 { utterances.push((parts.join(" "), i, slots)); }
        }
    }
    utterances.dedup_by(|a, b| a.0 == b.0);
    e.parsers = vec![(s("lookup_intent_parser"), Parser::Lookup(Lookup {
        intents: e.intents.iter().map(|i| i.0.clone()).collect(), slots: ss(&["s0", "s1", "s2"]), utterances,
        scopes: scopes.iter().enumerate().map(|(i, (b, c))| (vec![format!("I{}", i)], ss(b), c.iter().filter(|x| **x != "b c").map(|x| s(x)).collect())).collect(),
        ignore_sw: false, sw_whitelist: vec![],
    }))];
    e
}
fn scopes_alphabet() -> Vec<Q> {
    let t = "two tonight paris light tea latte";
    let mut v: Vec<Q> = (0..8).map(|i| Q::Slots(s(t), format!("I{}", i), i % 3)).collect();
    v.extend([Q::Extract(s(t), s("I3"), s("s1"), 2), Q::Extract(s(t), s("I4"), s("s1"), 256), Q::Extract(s(t), s("I4"), s("s1"), 0), Q::Extract(s(t), s("I3"), s("s2"), 0), Q::Extract(s(t), s("I3"), s("s2"), 65536), Q::Parse(s(t), None, None, 3, 1)]);
    v
}
fn odd_alphabet() -> Vec<Q> {
    let t = "two tea salon latte";
    let mut v: Vec<Q> = odd_world("", false).intents.iter().map(|i| Q::Slots(s(t), i.0.clone(), 1)).collect();
    v.extend([Q::Parse(s(t), None, None, 0, 0), Q::Parse(s("Two tea Salon latte"), None, None, 2, 2), Q::Slots(s("two latte"), s("Make"), 0), Q::Slots(s("two latte"), s("make"), 0), Q::Parse(s("two latte"), None, None, 1, 0), Q::Parse(s("ÉTÉ salon"), None, None, 0, 0), Q::Slots(s("été salon"), s("Été"), 1)]);
    v
}
/// queries that are nearly the same, in every respect a cache could overlook: texts that begin and end
/// alike over hundreds of words, differ by spacing, punctuation, case or accents; long lists of entities
/// that differ in one place; numbers of alternatives, up to the largest, of an entity with many
fn wide_world() -> Engine {
    let mut e = base("wide");
    let many: Vec<(S, S)> = (0..300).map(|i| (s("xx"), format!("x{}", i))).chain(["tea", "green tea", "thé", "the", "teа", "latte", "tealatte", "a b", "ab"].iter().map(|w| (s(w), format!("<{}>", w)))).collect();
    e.entities = vec![EntityVals { name: s("many"), extensible: false, values: many, threshold: 1.0 }];
    e.entities.extend((0..8).map(|i| ent(&format!("c{}", i), i % 2 == 1, &[(["uno", "due", "tre", "quattro", "cinque", "sei", "sette", "otto"][i], "c"), ("tutti", ["t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7"][i])])));
    let kinds = ["number", "ordinal", "temperature", "datetime", "percentage", "duration", "musicArtist", "city"];
    let id = |k: usize| format!("snips/{}", kinds[k]);
    let value = |k: usize| match k { 0 => json!({"kind": "Number", "value": 1}), 1 => json!({"kind": "Ordinal", "value": 2}), 2 => json!({"kind": "Temperature", "value": 3, "unit": null}), 3 => json!({"kind": "InstantTime", "value": "T4", "grain": "Day", "precision": "Exact"}), 4 => json!({"kind": "Percentage", "value": 5}), _ => json!({"kind": "Duration", "years": 0, "quarters": 0, "months": 0, "weeks": 0, "days": 0, "hours": 6, "minutes": 0, "seconds": 0, "precision": "Exact"}) };
    e.grammar = (0..6).map(|k| json!({"kind": id(k), "text": format!("k{}", k), "value": value(k), "alternatives": [value(k), value(k)]})).collect();
    e.gaz = (6..8).map(|k| EntityVals { name: id(k), extensible: true, values: vec![(format!("k{}", k), format!("K{}", k)), (format!("k{}", k), format!("other K{}", k))], threshold: 1.0 }).collect();
    // lists of seven of the eight kinds and entities: each leaves another one out
    let words = ["uno", "due", "tre", "quattro", "cinque", "sei", "sette", "otto"];
    let text: Vec<S> = (0..8).map(|i| format!("k{}", i)).chain(words.iter().map(|w| s(w))).collect();
    e.intents = vec![(s("Many"), pairs(&[("m", "many")]))];
    let mut utterances = vec![(s("xx %MANY%"), 0, vec![0])];
    let mut scopes = vec![(ss(&["Many"]), vec![], ss(&["many"]))];
    let mut names = ss(&["m"]);
    for i in 0..8 { names.push(format!("b{}", i)); }
    for i in 0..8 { names.push(format!("e{}", i)); }
    for out in 0..8usize {
        let mut b: Vec<usize> = (0..8).filter(|k| *k != out).collect();
        if out == 3 { b.reverse(); }
        let n = format!("W{}", out);
        e.intents.push((n.clone(), b.iter().flat_map(|k| vec![(format!("b{}", k), id(*k)), (format!("e{}", k), format!("c{}", k))]).collect()));
        scopes.push((vec![n], b.iter().map(|k| id(*k)).collect(), b.iter().map(|k| format!("c{}", k)).collect()));
        // the last kind and entity of the text that the intent has, the rest as words
        for last in [if out == 7 { 6 } else { 7 }, if out == 0 { 1 } else { 0 }] {
            let parts: Vec<S> = text.iter().enumerate().map(|(i, w)| if i == last { crate::refm::placeholder(&id(last)) } else if i == 8 + last { crate::refm::placeholder(&format!("c{}", last)) } else { w.clone() }).collect();
            utterances.push((parts.join(" "), out + 1, vec![1 + last, 9 + last]));
        }
    }
    e.parsers = vec![(s("lookup_intent_parser"), Parser::Lookup(Lookup { intents: e.intents.iter().map(|i| i.0.clone()).collect(), slots: names, utterances, scopes, ignore_sw: false, sw_whitelist: vec![] }))];
    e
}
fn wide_alphabet() -> Vec<Q> {
    let x = |t: &str, n: usize| Q::Extract(s(t), s("Many"), s("m"), n);
    let mut v: Vec<Q> = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 298, 299, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, usize::MAX - 1, usize::MAX].iter().map(|n| x("xx", *n)).collect();
    for t in ["tea latte", "tea  latte", " tea latte", "tea latte ", "tea\tlatte", "tea,latte", "tea, latte", "tea-latte", "tealatte", "TEA latte", "tea latte!", "latte tea", "thé", "the", "the\u{301}", "THÉ", "tea", "te\u{430}", "te", "a b", "ab", "a  b", "A B", "\u{ff54}ea", "xx", "xx xx", "XX"] { v.push(x(t, 1)); }
    // long texts that differ in one word, at the beginning, in the middle or at the end
    for n in [30usize, 300] { for at in [0, n / 2, n - 1] { for w in ["tea", "latte", "xxx"] { let mut p = vec!["light"; n]; p[at] = w; v.push(x(&p.join(" "), 1)); } } }
    let text = "k0 k1 k2 k3 k4 k5 k6 k7 uno due tre quattro cinque sei sette otto";
    for i in 0..8 { v.push(Q::Slots(s(text), format!("W{}", i), 2)); }
    for i in 0..8 { v.push(Q::Extract(s("tutti"), s(if i == 0 { "W1" } else { "W0" }), format!("e{}", i), 1)); }
    v
}
fn fresh(w: &World, qs: &[Q]) -> Vec<Value> {
    qs.iter().map(|q| match load(&w.dir) { Ans::Ok(e) => run(&e, q), a => json!(a.why()) }).collect()
}
/// all sequences over 0..n of length d
fn histories(n: usize, d: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..d { v = v.iter().flat_map(|h: &Vec<usize>| (0..n).map(move |i| { let mut h = h.clone(); h.push(i); h })).collect(); }
    v
}
pub fn c13(ctx: &Ctx) {
    ctx.rule("a history in which the last query was answered with fewer calls to the entity parsers than a fresh engine needs (part of it came from a cache)");
    let ws: Vec<World> = ["DLP", "P", "L", "PD"].iter().map(|p| main_world(p, *p == "L")).chain([scopes_world(), odd_world("LPD", true)]).map(|e| world(ctx, e)).collect();
    let alphabets: Vec<Vec<Q>> = ws.iter().map(|w| match &w.spec.name[..3] { "sco" => scopes_alphabet(), "odd" => odd_alphabet(), _ => alphabet() }).collect();
    let base: Vec<Vec<Value>> = ws.iter().zip(&alphabets).map(|(w, qs)| fresh(w, qs)).collect();
    let depth = if ctx.thorough { 4 } else { 3 };
    let all_hs: Vec<Vec<Vec<usize>>> = alphabets.iter().map(|q| histories(q.len(), depth)).collect();
    let caps = [0usize, 1, 2, 3, 5, 1000];
    let hits = std::sync::atomic::AtomicUsize::new(0);
    let calls_fresh: Vec<Vec<usize>> = ws.iter().zip(&alphabets).map(|(w, qs)| qs.iter().map(|q| {
        lru_cache::mc_set_max_capacity(usize::MAX);
        let e = load(&w.dir);
        mc::record(true);
        if let Ans::Ok(e) = &e { run(e, q); }
        let k = mc::take_calls().len();
        mc::record(false);
        k
    }).collect()).collect();
    let chunk = 128;
    let nchunks = all_hs.iter().map(|h| h.len()).max().unwrap().div_ceil(chunk);
    ctx.par(ws.len() * caps.len() * nchunks, |j| {
        let (wi, rest) = (j / (caps.len() * nchunks), j % (caps.len() * nchunks));
        let (cap, c) = (caps[rest / nchunks], rest % nchunks);
        if !ctx.thorough && wi > 0 && cap == 5 { return; }
        let (w, qs) = (&ws[wi], &alphabets[wi]);
        for h in all_hs[wi].iter().skip(c * chunk).take(chunk) {
            if ctx.stopped() { return; }
            lru_cache::mc_set_max_capacity(cap);
            let e = match load(&w.dir) { Ans::Ok(e) => e, a => { ctx.violate("load", json!(a.why())); return } };
            lru_cache::mc_set_max_capacity(usize::MAX);
            for (k, i) in h.iter().enumerate() {
                mc::record(true);
                let got = run(&e, &qs[*i]);
                let calls = mc::take_calls().len();
                mc::record(false);
                let last = k + 1 == h.len();
                let hit = calls < calls_fresh[wi][*i];
                if hit && last { hits.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
                if last { ctx.eval(if hit { Some((&w.spec.name, cap, h)) } else { None }); }
                if got != base[wi][*i] {
                    let hist: Vec<String> = h[..=k].iter().map(|i| format!("{:?}", qs[*i])).collect();
                    ctx.violate(&format!("{} capacity {} {:?}", w.spec.name, cap, hist), json!({"engine": w.spec.name, "capacity": cap, "history": hist, "got": got, "fresh engine": base[wi][*i]}));
                    break;
                }
            }
            ctx.sample(|| json!({"engine": w.spec.name, "capacity": cap, "history": h.iter().map(|i| format!("{:?}", qs[*i])).collect::<Vec<_>>()}));
        }
    });
    // every pair of the nearly equal queries, and the first again
    let (w, qs) = (world(ctx, wide_world()), wide_alphabet());
    let alone = fresh(&w, &qs);
    ctx.par(qs.len() * qs.len(), |k| {
        let (a, b) = (k / qs.len(), k % qs.len());
        lru_cache::mc_set_max_capacity(usize::MAX);
        let e = match load(&w.dir) { Ans::Ok(e) => e, a => { ctx.violate("load", json!(a.why())); return } };
        for i in [a, b, a] {
            let got = run(&e, &qs[i]);
            if got != alone[i] {
                ctx.violate(&format!("pair {:?} {:?}", qs[a], qs[b]), json!({"engine": "wide", "first": format!("{:?}", qs[a]), "then": format!("{:?}", qs[b]), "at": format!("{:?}", qs[i]), "got": got, "fresh engine": alone[i]}));
                break;
            }
        }
        ctx.eval(if a != b { Some(("pair", a, b)) } else { None });
    });
    ctx.note("pairs of nearly equal queries", json!(qs.len() * qs.len()));
    ctx.note("histories", json!(all_hs.iter().map(|h| h.len()).collect::<Vec<_>>()));
    ctx.note("depth", json!(depth));
    ctx.note("capacities", json!(caps));
    ctx.note("last queries served from a cache", json!(hits.load(std::sync::atomic::Ordering::Relaxed)));
}

// ------------------------------------------------------------------------------------------- C32
pub fn c32(ctx: &Ctx) {
    ctx.level("fault_enumeration");
    ctx.rule("a query in which a call to an entity parser or tagger failed, followed by another query");
    let qs = alphabet();
    let ws: Vec<World> = ["DLP", "P", "L", "PD", "D"].iter().map(|p| world(ctx, main_world(p, *p == "L"))).collect();
    let base: Vec<Vec<Value>> = ws.iter().map(|w| fresh(w, &qs)).collect();
    let faults = std::sync::atomic::AtomicUsize::new(0);
    let caps: &[usize] = if ctx.thorough { &[0, 1, 2, 3, 1000] } else { &[1, 1000] };
    ctx.par(ws.len() * qs.len() * caps.len(), |j| {
        let (wi, qi, cap) = (j / (qs.len() * caps.len()), j / caps.len() % qs.len(), caps[j % caps.len()]);
        let w = &ws[wi];
        let new = || { lru_cache::mc_set_max_capacity(cap); let e = load(&w.dir); lru_cache::mc_set_max_capacity(usize::MAX); match e { Ans::Ok(e) => e, a => panic!("load {}", a.why()) } };
        let unfailed = |q: &Q| base[wi][qs.iter().position(|x| x == q).unwrap()].clone();
        // the failing call: (kind, index); a query before it (None or each of the alphabet in thorough)
        for kind in ["entity parser", "tagger"] {
            for before in std::iter::once(None).chain(if ctx.thorough { (0..qs.len()).map(Some).collect() } else { vec![Some((qi + 1) % qs.len())] }) {
                for n in 0.. {
                    if ctx.stopped() { return; }
                    let probe = |e: &SnipsNluEngine| -> (Value, bool) {
                        if kind == "tagger" { crfsuite::mc_fail_nth(Some(n)) } else { mc::fail_nth(Some(n)) }
                        let r = run(e, &qs[qi]);
                        let fired = if kind == "tagger" { !crfsuite::mc_fail_pending() } else { !mc::fail_pending() };
                        crfsuite::mc_fail_nth(None);
                        mc::fail_nth(None);
                        (r, fired)
                    };
                    let mut fired_any = false;
                    for after in 0..qs.len() {
                        let e = new();
                        if let Some(b) = before { run(&e, &qs[b]); }
                        let (got, fired) = probe(&e);
                        if !fired { break; }
                        fired_any = true;
                        let key = format!("{} capacity {} {:?} {} call {} then {:?}", w.spec.name, cap, qs[qi], kind, n, qs[after]);
                        let case = || json!({"engine": w.spec.name, "capacity": cap, "before": before.map(|b| format!("{:?}", qs[b])), "query": format!("{:?}", qs[qi]), "failing": kind, "call": n, "got": got, "after": format!("{:?}", qs[after])});
                        ctx.eval(Some((&w.spec.name, cap, before, qi, kind, n, after)));
                        ctx.sample(case);
                        // an error, that carries the cause
                        let text = got.as_str().unwrap_or("");
                        if !text.starts_with("error:") || !text.contains("injected") { ctx.violate(&format!("not an error: {}", key), case()); break; }
                        let again = run(&e, &qs[qi]);
                        if again != unfailed(&qs[qi]) { ctx.violate(&format!("again: {}", key), json!({"case": case(), "same query again": again, "fresh engine": unfailed(&qs[qi])})); break; }
                        let other = run(&e, &qs[after]);
                        if other != unfailed(&qs[after]) { ctx.violate(&key, json!({"case": case(), "answer": other, "fresh engine": unfailed(&qs[after])})); break; }
                        // and directly after the failure
                        let e = new();
                        if let Some(b) = before { run(&e, &qs[b]); }
                        probe(&e);
                        let other = run(&e, &qs[after]);
                        if other != unfailed(&qs[after]) { ctx.violate(&format!("directly: {}", key), json!({"case": case(), "answer": other, "fresh engine": unfailed(&qs[after])})); break; }
                    }
                    if !fired_any { break; }
                    faults.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
            }
        }
    });
    ctx.note("failing calls enumerated", json!(faults.load(std::sync::atomic::Ordering::Relaxed)));
}

// ------------------------------------------------------------------------------------------- C14
pub fn c14(ctx: &Ctx) {
    ctx.level("exploration");
    ctx.rule("a schedule with at least one preemption inside a query");
    let w = world(ctx, main_world("DLP", false));
    let wp = world(ctx, main_world("P", false));
    let bad = Q::Slots(s("make two latte"), s("Nope"), 0);
    let t = "make two latte";
    let p = |x: &str, a| Q::Parse(s(x), None, None, 0, a);
    // programs: the queries of each thread
    let mut programs: Vec<(&World, Vec<Vec<Q>>)> = vec![
        (&w, vec![vec![p(t, 0)], vec![p(t, 2)]]),
        (&wp, vec![vec![p(t, 0)], vec![p("make green tea", 0)]]),
        (&wp, vec![vec![Q::Slots(s(t), s("Make"), 0)], vec![Q::Slots(s("make chai"), s("Make"), 0)]]),
        (&wp, vec![vec![Q::Slots(s(t), s("Make"), 0), Q::Slots(s("make chai"), s("Make"), 1)], vec![Q::Slots(s("two tea and chai"), s("Make"), 0)]]),
        (&w, vec![vec![Q::Extract(s(t), s("Make"), s("what"), 0)], vec![Q::Extract(s(t), s("Make"), s("what"), 2)], vec![Q::Extract(s("latte"), s("Make"), s("what"), 1)]]),
        (&w, vec![vec![bad.clone(), Q::Extract(s(t), s("Make"), s("what"), 0)], vec![Q::Extract(s(t), s("Make"), s("nope"), 0), Q::Slots(s("salon"), s("Light"), 1)]]),
        (&wp, vec![vec![Q::Slots(s(t), s("Make"), 0)], vec![Q::Slots(s("salon"), s("Light"), 0)], vec![Q::Slots(s("tonight"), s("When"), 1)]]),
        (&w, vec![vec![Q::Intents(s("salon"))], vec![p("salon", 1_000_000)]]),
    ];
    if ctx.thorough {
        programs.push((&w, vec![vec![p(t, 0), p("salon", 1)], vec![p("salon", 0), p(t, 1)]]));
        programs.push((&wp, vec![vec![p(t, 0)], vec![p("make chai", 1)], vec![p("two tea and chai", 2)]]));
        programs.push((&wp, vec![vec![Q::Slots(s(t), s("Make"), 0), Q::Slots(s("make chai"), s("Make"), 1)], vec![Q::Slots(s("two tea and chai"), s("Make"), 0), Q::Slots(s(t), s("Make"), 2)], vec![Q::Slots(s("tea"), s("Make"), 0)]]));
    }
    let bound = if ctx.thorough { 3 } else { 2 };
    let cap_list = [1usize, 1000];
    let stats = std::sync::Mutex::new((0usize, 0usize, 0usize));
    // (program, capacity, failing thread)
    let jobs: Vec<(usize, usize, Option<usize>)> = (0..programs.len()).flat_map(|i| cap_list.iter().flat_map(move |c| [(i, *c, None), (i, *c, Some(0))])).collect();
    ctx.par(jobs.len(), |j| {
        let (pi, cap, failing) = jobs[j];
        let (w, prog) = &programs[pi];
        let alone: Vec<Vec<Value>> = prog.iter().map(|qs| fresh(w, qs)).collect();
        let mut ex = mc_env::sched::Explorer::new();
        let limit = if ctx.thorough { 60_000 } else { 6_000 };
        let mut n = 0;
        while let Some(prefix) = ex.prefix.clone() {
            if ctx.stopped() { return; }
            lru_cache::mc_set_max_capacity(cap);
            let e = match load(&w.dir) { Ans::Ok(e) => std::sync::Arc::new(e), a => { ctx.violate("load", json!(a.why())); return } };
            lru_cache::mc_set_max_capacity(usize::MAX);
            let results: std::sync::Arc<std::sync::Mutex<Vec<Vec<Value>>>> = std::sync::Arc::new(std::sync::Mutex::new(vec![vec![]; prog.len()]));
            let bodies: Vec<mc_env::sched::Body> = prog.iter().enumerate().map(|(k, qs)| {
                let (e, qs, results) = (e.clone(), qs.clone(), results.clone());
                let b: mc_env::sched::Body = Box::new(move || {
                    if failing == Some(k) { mc::fail_nth(Some(0)); }
                    for q in &qs {
                        // (not guarded here: an abandoned execution unwinds through the query)
                        let v = run_raw(&e, q);
                        results.lock().unwrap()[k].push(v);
                    }
                });
                b
            }).collect();
            let out = mc_env::sched::run(&prefix, bound, bodies);
            n += 1;
            ctx.eval(if out.decisions.iter().any(|d| d.1 > 0) { Some((pi, cap, failing, &prefix)) } else { None });
            let res = results.lock().unwrap().clone();
            let case = || json!({"engine": w.spec.name, "capacity": cap, "threads": format!("{:?}", prog), "thread whose first entity parser call fails": failing, "schedule": prefix, "answers": res, "alone": alone});
            ctx.sample(case);
            let key = format!("{} {:?} capacity {} failing {:?}", w.spec.name, prog, cap, failing);
            if let Some(a) = &out.aborted { ctx.violate(&format!("stuck {}", key), json!({"why": a, "case": case()})); return; }
            if !out.panics.is_empty() { ctx.violate(&format!("panic {}", key), json!({"panics": out.panics, "case": case()})); return; }
            for k in 0..prog.len() {
                if res[k].len() != prog[k].len() { ctx.violate(&format!("unanswered {}", key), case()); return; }
                for (i, v) in res[k].iter().enumerate() {
                    let failed = failing == Some(k) && v.as_str().map(|x| x.contains("injected")).unwrap_or(false);
                    if *v != alone[k][i] && !failed { ctx.violate(&key, json!({"thread": k, "query": format!("{:?}", prog[k][i]), "got": v, "alone": alone[k][i], "case": case()})); return; }
                }
            }
            // the engine stays usable
            for (k, qs) in prog.iter().enumerate() { for (i, q) in qs.iter().enumerate() {
                let v = run(&e, q);
                if v != alone[k][i] { ctx.violate(&format!("afterwards {}", key), json!({"query": format!("{:?}", q), "got": v, "alone": alone[k][i], "case": case()})); return; }
            } }
            ex.advance(&out.decisions);
            if n >= limit { break; }
        }
        let mut st = stats.lock().unwrap();
        st.0 += n;
        if ex.prefix.is_none() { st.1 += 1; }
        st.2 += 1;
    });
    let st = stats.lock().unwrap();
    ctx.note("schedules", json!(st.0));
    ctx.note("programs explored completely within the preemption bound", json!(format!("{} of {}", st.1, st.2)));
    ctx.note("preemption bound", json!(bound));
}
/// as `run`, letting panics through
fn run_raw(e: &SnipsNluEngine, q: &Q) -> Value {
    let j = |r: Result<Value, failure::Error>| match r { Ok(v) => v, Err(e) => json!(format!("error: {}", chain(&e))) };
    match q {
        Q::Parse(t, w, b, i, s) => j(e.parse_with_alternatives(t, refs(w), refs(b), *i, *s).map(|r| js(&r))),
        Q::Intents(t) => j(e.get_intents(t).map(|r| js(&r))),
        Q::Slots(t, i, s) => j(e.get_slots_with_alternatives(t, i, *s).map(|r| js(&r))),
        Q::Extract(t, i, sl, s) => j(e.extract_slot_with_alternatives(t.clone(), i, sl, *s).map(|r| js(&r))),
    }
}
