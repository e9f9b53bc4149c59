//! The three intent parsers, each over all small models and texts.
use crate::c_engine::*;
use crate::common::*;
use crate::refm::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use serde_json::{json, Value};
use snips_nlu_lib::{load_shared_resources, DeterministicIntentParser, IntentClassifier, IntentParser, LogRegIntentClassifier, LookupIntentParser, ProbabilisticIntentParser, SharedResources};
use snips_nlu_ontology::*;
use std::path::Path;
use std::sync::Arc;

/// an answer of a parser, as comparable data
#[derive(Clone, Debug, PartialEq)]
pub struct PAns { pub intent: Option<String>, pub score: f64, pub slots: Vec<ISlot> }
fn pjs(a: &Ans<PAns>) -> Value { match a { Ans::Ok(a) => json!(format!("{:?}", a)), o => json!(o.why()) } }
macro_rules! islots { ($v:expr) => { $v.into_iter().map(|s| ISlot { raw: s.value, range: s.char_range, entity: s.entity, slot: s.slot_name }).collect::<Vec<ISlot>>() } }
pub fn p_parse(p: &dyn IntentParser, t: &str, f: &Option<Vec<String>>) -> Ans<PAns> {
    let fr = refs(f);
    ask(|| format!("parser parse {:?} {:?}", t, f), || p.parse(t, fr.as_deref()).map(|r| PAns { intent: r.intent.intent_name, score: r.intent.confidence_score as f64, slots: islots!(r.slots) }))
}
pub fn p_intents(p: &dyn IntentParser, t: &str) -> Ans<Vec<(Option<String>, f64)>> {
    ask(|| format!("parser get_intents {:?}", t), || p.get_intents(t).map(|v| v.into_iter().map(|i| (i.intent_name, i.confidence_score as f64)).collect()))
}
pub fn p_slots(p: &dyn IntentParser, t: &str, i: &str) -> Ans<Vec<ISlot>> { ask(|| format!("parser get_slots {:?} {}", t, i), || p.get_slots(t, i).map(|v| islots!(v))) }

pub fn resources(dir: &Path) -> Arc<SharedResources> {
    load_shared_resources(dir.join("resources/en"), dir.join("builtin_entity_parser"), dir.join("custom_entity_parser")).expect("shared resources")
}
/// is `got` one of the acceptable answers?
pub fn p_ok(tops: &[Top], got: &Ans<PAns>) -> Result<(), String> {
    match got {
        Ans::Ok(g) => if tops.iter().any(|t| t.intent == g.intent && (t.score - g.score).abs() < TOL && t.slots.contains(&g.slots)) { Ok(()) } else { Err(format!("expected {:?}", tops)) },
        g => Err(g.why()),
    }
}
pub fn ranking_same(exp: &[(Option<String>, f64)], got: &Ans<Vec<(Option<String>, f64)>>) -> Result<(), String> {
    let g = match got { Ans::Ok(g) => g, g => return Err(g.why()) };
    if g.len() != exp.len() { return Err(format!("expected {:?}", exp)); }
    for (i, s) in exp { if g.iter().filter(|x| x.0 == *i && (x.1 - s).abs() < TOL).count() != 1 { return Err(format!("expected {:?}", exp)); } }
    if g.windows(2).any(|w| w[0].1 < w[1].1) { return Err("not in decreasing order".into()); }
    Ok(())
}
type Matches = Vec<(String, Vec<Vec<ISlot>>)>;
/// whether an intent matches does not depend on the others
fn keep(m: &Matches, f: Option<&[String]>) -> Matches { m.iter().filter(|x| f.map(|f| f.contains(&x.0)).unwrap_or(true)).cloned().collect() }
/// compares every query of a parser with the reference's matches
fn compare(ctx: &Ctx, name: &str, p: &dyn IntentParser, all: &[String], t: &str, filters: &[Option<Vec<String>>], extra: &dyn Fn() -> Value, matches: &dyn Fn(Option<&[String]>) -> Vec<Vec<(String, Vec<Vec<ISlot>>)>>) {
    let full = matches(None);
    for (fi, f) in filters.iter().enumerate() {
        let ms = if f.is_none() { full.clone() } else { matches(f.as_deref()) };
        let got = p_parse(p, t, f);
        ctx.eval(if ms.iter().any(|m| !m.is_empty()) { Some((name, t, fi)) } else { None });
        let r: Vec<Result<(), String>> = ms.iter().map(|m| p_ok(&Ref::top_of(m.clone()).0, &got)).collect();
        if got.ok().map(|g| !g.slots.is_empty()).unwrap_or(false) { ctx.sample(|| json!({"model": extra(), "text": t, "filter": f, "got": pjs(&got)})); }
        if r.iter().all(|x| x.is_err()) {
            ctx.violate(&format!("{} parse {:?} {:?}", name, t, f), json!({"model": extra(), "text": t, "filter": f, "got": pjs(&got), "why": r[0].clone().unwrap_err()}));
        }
    }
    let got = p_intents(p, t);
    let r: Vec<Result<(), String>> = full.iter().map(|m| {
        let w = Ref::top_of(m.clone()).1;
        let mut exp: Vec<(Option<String>, f64)> = all.iter().map(|i| (Some(i.clone()), w.iter().find(|x| x.0 == *i).map(|x| x.1).unwrap_or(0.0))).collect();
        exp.push((None, 0.0));
        ranking_same(&exp, &got)
    }).collect();
    ctx.eval(None::<u8>);
    if r.iter().all(|x| x.is_err()) { ctx.violate(&format!("{} get_intents {:?}", name, t), json!({"model": extra(), "text": t, "got": format!("{:?}", got), "why": r[0].clone().unwrap_err()})); }
    for i in all {
        let got = p_slots(p, t, i);
        let fine = matches(Some(&[i.clone()])).iter().any(|m| { let tops = Ref::top_of(m.clone()).0; tops.iter().any(|t| matches!(&got, Ans::Ok(g) if t.slots.contains(g))) });
        ctx.eval(None::<u8>);
        if !fine { ctx.violate(&format!("{} get_slots {:?} {}", name, t, i), json!({"model": extra(), "text": t, "intent": i, "got": format!("{:?}", got), "expected": format!("{:?}", matches(Some(&[i.clone()])))})); }
    }
    for bad in ["Nope", "", "a"] {
        let got = p_slots(p, t, bad);
        if !matches!(got, Ans::Err(_)) { ctx.violate(&format!("{} get_slots {:?} of unknown intent {:?}", name, t, bad), json!({"model": extra(), "got": format!("{:?}", got)})); }
    }
}

const MODES: [&str; 3] = ["not ignored", "ignored", "ignored, A keeps 'the'"];

/// a parser of each of the larger models, over their sentences
fn whole_models(ctx: &Ctx, pipeline: &str) {
    let ws: Vec<World> = [main_world(pipeline, false), main_world(pipeline, true), odd_world(pipeline, false), odd_world(pipeline, true), odd_with(pipeline, true, true), kinds_world(pipeline, false), kinds_world(pipeline, true), tie_world("twenty", pipeline, if pipeline == "L" { &[1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3] } else { &[1; 20] })].into_iter().map(|e| world(ctx, e)).collect();
    let mut texts: Vec<String> = SENTENCES.iter().chain(&ODD_SENTENCES).flat_map(|t| if ctx.thorough { variants(t) } else { variants(t).into_iter().step_by(3).collect() }).collect();
    texts.extend(SENTENCES.iter().chain(&ODD_SENTENCES).map(|t| s(t)));
    texts.extend(ss(&[TIE_TEXT, "go tea bed"]));
    texts.extend(variants(TIE_TEXT));
    texts.extend(kinds_sentences());
    texts.extend(kinds_sentences().iter().flat_map(|t| variants(t).into_iter().step_by(if ctx.thorough { 1 } else { 5 })));
    texts.extend(sequences(&WORDS, 2));
    let chunk = texts.len().div_ceil(16);
    ctx.par(ws.len() * 16, |k| {
        let w = &ws[k / 16];
        let r = Ref::new(&w.spec, &w.dir);
        let all: Vec<String> = w.spec.intents.iter().map(|i| i.0.clone()).collect();
        let filters = vec![None, Some(all[..1].to_vec()), Some(all[1..3].to_vec()), Some(all[2..].to_vec()), Some(vec![])];
        let dir = w.dir.join(&w.spec.parsers[0].0);
        let p: Box<dyn IntentParser> = match &w.spec.parsers[0].1 {
            Parser::Det(_) => Box::new(DeterministicIntentParser::from_path(&dir, resources(&w.dir)).expect("parser")),
            _ => Box::new(LookupIntentParser::from_path(&dir, resources(&w.dir)).expect("parser")),
        };
        for t in texts.iter().skip(k % 16 * chunk).take(chunk) {
            if ctx.stopped() { return; }
            compare(ctx, &w.spec.name, &*p, &all, t, &filters, &|| json!(w.spec.name), &|f| match &w.spec.parsers[0].1 {
                Parser::Det(d) => vec![r.det_matches(d, t, f).into_iter().map(|(i, s)| (i, vec![s])).collect()],
                Parser::Lookup(l) => { let full = r.lookup_with(l, t, None, false); let lo = r.lookup_with(l, t, f, true); let st = keep(&full, f); if st == lo { vec![st] } else { vec![st, lo] } }
                _ => unreachable!(),
            });
        }
    });
}

// ------------------------------------------------------------------------------------------- C10
fn element_slots() -> Vec<(S, S)> { pairs(&[("what", "drink"), ("count", "snips/number"), ("where", "room"), ("any", "drink")]) }
/// all patterns of 1..=n elements
fn patterns(n: usize) -> Vec<String> {
    let els = ["make", "the", "W", "C", "R", "A"];
    let mut out = vec![];
    for q in sequences(&els, n) {
        if q.is_empty() { continue; }
        let mut seen: std::collections::BTreeMap<&str, usize> = Default::default();
        let parts: Vec<String> = q.split(' ').map(|e| {
            let (g, body) = match e { "W" => ("group0", "%DRINK%"), "C" => ("group1", "%SNIPSNUMBER%"), "R" => ("group2", "%ROOM%"), "A" => ("group3", r"\w+"), w => return w.to_string() };
            let k = seen.entry(g).or_insert(0);
            *k += 1;
            format!("(?P<{}{}>{})", g, if *k > 1 { format!("_{}", k) } else { String::new() }, body)
        }).collect();
        out.push(format!(r"^\s*{}\s*$", parts.join(r"\s*")));
    }
    out
}
pub fn c10(ctx: &Ctx) {
    ctx.rule("a text that at least one pattern matches");
    let e = base("c10");
    let w = world(ctx, e);
    let pats = patterns(3);
    let others: Vec<&String> = [7usize, 20, 100, 1, 2, 45, 60, 130, 3, 30, 200, 250].iter().map(|i| &pats[*i]).collect();
    let words = ["make", "the", "two", "tea", "green tea", "salon"];
    let mut texts = sequences(&words, 3);
    for t in ["make two tea", "the tea", "make the salon", "make Two THE Green  tea", "the", "make tea 3"] { texts.extend(variants(t)); }
    for t in ["make %DRINK%", "%snipsnumber% tea", "make the the tea", "the the the", "make tea.", "salon tea", "living room the two", "make_the", "tea room two", "bed 3 chai",
        // a stop word written with combining marks (another number of characters once normalised)
        "make the\u{301} tea", "the\u{301} two tea", "make THE\u{301}\u{302} the two", "two\u{301} a\u{30A} tea",
        // many entities, with stop words between them
        "make the two tea salon", "make two the tea the salon", "two the salon tea chai", "two salon the tea chai the", "make 3 the green tea salon bed", "the make two tea salon two"] { texts.push(s(t)); }
    // (patterns of A, patterns of B, whitelists of stop words if they are ignored)
    let the = |m: usize| match m { 0 => None, 1 => Some(vec![]), _ => Some(vec![(s("A"), ss(&["the"]))]) };
    let mut models: Vec<(Vec<String>, Vec<String>, Option<Vec<(S, Vec<S>)>>)> = vec![];
    for (i, p) in pats.iter().enumerate() {
        for mode in 0..3 {
            for (j, q) in others.iter().enumerate() {
                let d = (j + others.len() - (i + 5 * mode) % others.len()) % others.len();
                if !ctx.thorough && d != 0 { continue; }
                let q = q.to_string();
                models.push((vec![p.clone()], vec![q.clone()], the(mode)));
                if (i + j + mode) % 2 == 0 { models.push((vec![p.clone(), q.clone()], vec![pats[(i + 17) % pats.len()].clone()], the(mode))); }
                if (i + j + mode) % 2 == 1 { models.push((vec![q, p.clone()], vec![], the(mode))); }
            }
        }
    }
    // groups which start or end right where a placeholder does; literal, loose and placeholder patterns in every order
    let near = [
        r"^\s*(?P<group1>%SNIPSNUMBER%)(?P<group3>[^%]+)$", r"^(?P<group3>[^%]+)(?P<group0>%DRINK%)\s*$", r"^\s*(?P<group1>%SNIPSNUMBER%)(?P<group3>[^%]+)(?P<group0>%DRINK%)\s*$",
        r"^\s*make(?P<group3>[^%]+)(?P<group2>%ROOM%)(?P<group3_2>[^%]+)$", r"^\s*(?P<group0>%DRINK%)(?P<group3>[^%]+)(?P<group1>%SNIPSNUMBER%)(?P<group3_2>[^%]*\w)$",
        r"^\s*make\s*tea\s*$", r"^\s*make\s*(?P<group3>\w+)\s*$", r"^\s*make\s*(?P<group0>%DRINK%)\s*$", r"^\s*make\s*(?P<group1>%SNIPSNUMBER%)\s*$", r"^\s*(?P<group3>[^%]+)$",
        r"^\s*(?P<group1>two)\s*(?P<group0>green tea|tea)\s*$", r"^\s*(?P<group1>%SNIPSNUMBER%)\s*(?P<group0>%DRINK%)\s*$", r"tea", r"(?P<group0>%DRINK%)",
    ];
    for a in &near { for b in &near { models.push((if a == b { vec![s(a)] } else { vec![s(a), s(b)] }, vec![s(near[11])], None)); } }
    // patterns of many words, literal or with placeholders, with and without stop words
    let long = [
        r"^\s*make\s*two\s*tea\s*salon\s*$", r"^\s*two\s*(?P<group3>\w+)\s*tea\s*(?P<group0>chai)\s*$", r"^\s*make\s*(?P<group1>%SNIPSNUMBER%)\s*(?P<group0>%DRINK%)\s*(?P<group2>%ROOM%)\s*(?P<group3>\w+)\s*$",
        r"^\s*make\s*(?P<group1>%SNIPSNUMBER%)\s*(?P<group0>%DRINK%)\s*(?P<group2>%ROOM%)\s*$", r"^\s*(?P<group1>two)\s*(?P<group2>%ROOM%)\s*(?P<group0>%DRINK%)\s*(?P<group0_2>%DRINK%)\s*$", r"^\s*make\s*(?P<group3>\w+)\s*(?P<group3_2>\w+)\s*(?P<group3_3>\w+)\s*$",
    ];
    for mode in 0..3 { for a in &long { for b in &long { models.push((vec![s(a)], if a == b { vec![] } else { vec![s(b)] }, the(mode))); } } }
    // many patterns, of which only a late one matches
    models.push((pats.iter().take(120).cloned().chain(vec![s(long[3])]).collect(), vec![s(long[0])], the(1)));
    // every choice of whitelists
    let lists = [None, Some(vec![]), Some(ss(&["the"])), Some(ss(&["a"])), Some(ss(&["a", "the"])), Some(ss(&["make", "the", "two"]))];
    for la in &lists { for lb in &lists { for pat in [&pats[0], &pats[7], &pats[8], &pats[2], &pats[50]] {
        let wl = la.iter().map(|l| (s("A"), l.clone())).chain(lb.iter().map(|l| (s("B"), l.clone()))).collect();
        models.push((vec![pat.clone()], vec![pat.clone(), pats[1].clone()], Some(wl)));
    } } }
    let filters = vec![None, Some(ss(&["A"])), Some(ss(&["B"])), Some(vec![])];
    ctx.par(models.len(), |k| {
        let (a, b, wl) = &models[k];
        let d = Det {
            patterns: vec![(s("A"), a.clone()), (s("B"), b.clone())],
            groups: pairs(&[("group0", "what"), ("group1", "count"), ("group2", "where"), ("group3", "any")]),
            slots: vec![(s("A"), element_slots()), (s("B"), element_slots())],
            ignore_sw: wl.is_some(),
            sw_whitelist: wl.clone().unwrap_or_default(),
        };
        let dir = fresh_dir(ctx);
        w.spec.write_det(&dir, &d);
        let name = format!("{:?}", (a, b, wl));
        let p = match ask(|| s("load"), || DeterministicIntentParser::from_path(&dir, resources(&w.dir))) { Ans::Ok(p) => p, x => { ctx.violate(&format!("{} load", name), json!(x.why())); return } };
        let r = Ref::new(&w.spec, &w.dir);
        for t in &texts {
            if ctx.stopped() { return; }
            let full: Matches = r.det_matches(&d, t, None).into_iter().map(|(i, s)| (i, vec![s])).collect();
            compare(ctx, &name, &p, &ss(&["A", "B"]), t, &filters, &|| json!({"patterns": {"A": a, "B": b}, "ignored stop words, kept": wl}), &|f| vec![keep(&full, f)]);
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    ctx.note("models", json!(models.len()));
    ctx.note("texts", json!(texts.len()));
    whole_models(ctx, "D");
}

// ------------------------------------------------------------------------------------------- C11
pub fn c11(ctx: &Ctx) {
    ctx.rule("a text that is a stored utterance for some choice of its entities");
    let w = world(ctx, base("c11"));
    let els = ["make", "the", "tea", "%DRINK%", "%SNIPSNUMBER%", "%ROOM%"];
    let utts: Vec<String> = sequences(&els, 3).into_iter().filter(|u| !u.is_empty()).collect();
    let words = ["make", "the", "two", "tea", "green tea", "salon"];
    let mut texts = sequences(&words, 3);
    for t in ["make two tea", "the tea", "make the salon", "make Two THE Green  tea", "the", "make tea 3"] { texts.extend(variants(t)); }
    for t in ["make %DRINK%", "%snipsnumber% tea", "make the the tea", "the the the", "tea room", "green tea room two", "living room the two", "make_the", "salon tea salon", "bed 3 chai", "tea %DRINK%", "%room% %room%", "two three tea chai"] { texts.push(s(t)); }
    let ent_slot = |e: &str, k: usize| match e { "%DRINK%" => Some(if k == 0 { 0 } else { 3 }), "%SNIPSNUMBER%" => Some(1), "%ROOM%" => Some(2), _ => None };
    let slots_of = |u: &str| { let mut k = 0; u.split(' ').filter_map(|e| { let x = ent_slot(e, k); if e == "%DRINK%" { k += 1; } x }).collect::<Vec<usize>>() };
    let mut models: Vec<(Vec<(S, usize)>, usize, usize)> = vec![]; // utterances, scope mode, stop word mode
    for (i, u) in utts.iter().enumerate() {
        for sw in 0..3 { for sc in 0..3 {
            let others: Vec<usize> = if ctx.thorough { (0..12).map(|k| (i * 7 + k * 21 + 1) % utts.len()).collect() } else { vec![(i * 7 + sw * 50 + sc * 11 + 1) % utts.len()] };
            if !ctx.thorough && (i + sw) % 3 != sc && sc != 0 { continue; }
            for o in others {
                let mut v = vec![(u.clone(), 0usize), (utts[o].clone(), 1)];
                if (i + sc) % 2 == 0 { v.push((utts[(i + 36) % utts.len()].clone(), 0)); }
                models.push((v, sc, sw));
            }
        } }
    }
    // utterances with many entities, and the same ones with words in their place
    let els2 = ["%DRINK%", "tea", "chai"];
    let many: Vec<String> = (2..=if ctx.thorough { 5 } else { 4 }).flat_map(|n| {
        let mut v: Vec<Vec<&str>> = vec![vec![]];
        for _ in 0..n { v = v.into_iter().flat_map(|p| els2.iter().map(move |e| { let mut p = p.clone(); p.push(*e); p })).collect(); }
        v.into_iter().filter(|v| v.contains(&"%DRINK%")).map(|v| v.join(" ")).collect::<Vec<_>>()
    }).collect();
    for n in 2..=5usize {
        let own: Vec<&String> = many.iter().filter(|u| u.split(' ').count() == n).collect();
        for step in [1usize, 2, 3, 5] { for first in 0..step.min(3) {
            let v: Vec<(S, usize)> = own.iter().skip(first).step_by(step).enumerate().map(|(i, u)| (u.to_string(), if step == 5 { i % 2 } else { 0 })).chain(vec![(s("make the two"), 1)]).collect();
            if v.len() > 1 { models.push((v, 0, 0)); }
        } }
    }
    texts.extend(ss(&["tea chai tea", "tea tea tea", "chai tea chai tea", "tea tea chai chai", "chai chai chai", "tea chai chai tea tea", "green tea chai tea", "Tea, chai & tea?"]));
    let filters = vec![None, Some(ss(&["A"])), Some(ss(&["B"])), Some(vec![])];
    let loose = std::sync::atomic::AtomicUsize::new(0);
    ctx.par(models.len(), |k| {
        let (utts, scm, sw) = &models[k];
        let names = ss(&["A", "B"]);
        let ignore = *sw > 0;
        let wl = if *sw == 2 { vec![(s("A"), ss(&["the"]))] } else { vec![] };
        // two utterances of different intents with the same key cannot both be stored
        let key = |u: &str, i: usize| lookup_key(u, &stop_words_for(&w.spec.res, ignore, &wl, &names[i]));
        let mut kept: Vec<(S, usize, Vec<usize>)> = vec![];
        for (u, i) in utts { if !kept.iter().any(|x| key(&x.0, x.1) == key(u, *i)) { kept.push((u.clone(), *i, slots_of(u))); } }
        let (b, c) = (ss(&["snips/number"]), ss(&["drink", "room"]));
        let scopes = match scm {
            0 => vec![(names.clone(), b, c)],
            1 => vec![(vec![s("A")], b.clone(), c.clone()), (vec![s("B")], b, c)],
            // each intent with the entities of its own utterances
            _ => (0..2).map(|i| {
                let has = |e: &str| kept.iter().any(|u| u.1 == i && u.0.contains(e));
                (vec![names[i].clone()], if has("%SNIPSNUMBER%") { b.clone() } else { vec![] }, [("%DRINK%", "drink"), ("%ROOM%", "room")].iter().filter(|x| has(x.0)).map(|x| s(x.1)).collect())
            }).collect(),
        };
        let l = Lookup { intents: names.clone(), slots: ss(&["what", "count", "where", "what2"]), utterances: kept, scopes, ignore_sw: ignore, sw_whitelist: wl };
        let dir = fresh_dir(ctx);
        w.spec.write_lookup(&dir, &l);
        let name = format!("{:?}", (utts, scm, sw));
        let p = match ask(|| s("load"), || LookupIntentParser::from_path(&dir, resources(&w.dir))) { Ans::Ok(p) => p, x => { ctx.violate(&format!("{} load", name), json!(x.why())); return } };
        let r = Ref::new(&w.spec, &w.dir);
        for t in &texts {
            if ctx.stopped() { return; }
            let full = r.lookup_with(&l, t, None, false);
            let full_loose = r.lookup_with(&l, t, None, true);
            compare(ctx, &name, &p, &names, t, &filters, &|| json!({"utterances": l.utterances, "scopes": l.scopes, "stop words": MODES[*sw]}), &|f| {
                let strict = keep(&full, f);
                if full == full_loose { return vec![strict]; }
                let lo = r.lookup_with(&l, t, f, true);
                if strict == lo { vec![strict] } else { loose.fetch_add(1, std::sync::atomic::Ordering::Relaxed); vec![strict, lo] }
            });
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    ctx.note("models", json!(models.len()));
    ctx.note("texts", json!(texts.len()));
    ctx.note("cases in which another intent's reading was also accepted", json!(loose.into_inner()));
    whole_models(ctx, "L");
}

// ------------------------------------------------------------------------------------------- C12
pub fn c12(ctx: &Ctx) {
    ctx.rule("a query whose classifier score is not 1, or under a filter");
    let mut ws: Vec<World> = vec![world(ctx, main_world("P", false)), world(ctx, main_world("P", true)), world(ctx, odd_world("P", false)), world(ctx, zero_world()), world(ctx, kinds_world("P", false))];
    ws.extend(edge_worlds(ctx));
    let mut texts = sequences(&WORDS[..8], if ctx.thorough { 3 } else { 2 });
    for x in SENTENCES.iter().chain(&ODD_SENTENCES) { texts.push(s(x)); if ctx.thorough { texts.extend(variants(x)); } }
    texts.extend(kinds_sentences());
    for x in [" ", "\t", "  \n", ".", "?!", "\u{a0}", "é", "E", "x", "8", "é!", ", e"] { texts.push(s(x)); }
    let chunk = texts.len().div_ceil(4);
    let chunks: Vec<&[String]> = texts.chunks(chunk).collect();
    ctx.par(ws.len() * chunks.len(), |k| {
        let w = &ws[k / chunks.len()];
        let r = Ref::new(&w.spec, &w.dir);
        let prob = match &w.spec.parsers[0].1 { Parser::Prob(p) => p, _ => unreachable!() };
        let dir = w.dir.join("probabilistic_intent_parser");
        let res = resources(&w.dir);
        let p = match ask(|| s("load"), || ProbabilisticIntentParser::from_path(&dir, res.clone())) { Ans::Ok(p) => p, x => { ctx.violate(&format!("{} load", w.spec.name), json!(x.why())); return } };
        let c = match ask(|| s("load"), || LogRegIntentClassifier::from_path(dir.join("intent_classifier"), res)) { Ans::Ok(p) => p, x => { ctx.violate(&format!("{} load classifier", w.spec.name), json!(x.why())); return } };
        let all: Vec<String> = w.spec.intents.iter().map(|i| i.0.clone()).collect();
        for t in chunks[k % chunks.len()] {
            if ctx.stopped() { return; }
            for f in subsets(&all) {
                let got = p_parse(&p, t, &f);
                let tops = r.parser_parse(&w.spec.parsers[0].1, t, f.as_deref()).expect("reference");
                ctx.eval(if f.is_some() || tops[0].score < 0.999 { Some((&w.spec.name, t, &f)) } else { None });
                ctx.sample(|| json!({"engine": w.spec.name, "text": t, "filter": f, "got": pjs(&got)}));
                if let Err(why) = p_ok(&tops, &got) { ctx.violate(&format!("{} parse {:?} {:?}", w.spec.name, t, f), json!({"engine": w.spec.name, "text": t, "filter": f, "got": pjs(&got), "why": why})); }
                // the classifier alone
                let fr = refs(&f);
                let ci = ask(|| s("get_intent"), || c.get_intent(t, fr.as_deref()).map(|i| (i.intent_name, i.confidence_score as f64)));
                let fine = match &ci { Ans::Ok((i, sc)) => tops.iter().any(|t| t.intent == *i && (t.score - sc).abs() < TOL), _ => false };
                if !fine { ctx.violate(&format!("{} classifier {:?} {:?}", w.spec.name, t, f), json!({"engine": w.spec.name, "text": t, "filter": f, "got": format!("{:?}", ci), "expected": format!("{:?}", tops)})); }
            }
            let exp = r.classify(prob, t, None);
            for (n, got) in [("parser", p_intents(&p, t)), ("classifier", ask(|| s("get_intents"), || c.get_intents(t).map(|v| v.into_iter().map(|i: IntentClassifierResult| (i.intent_name, i.confidence_score as f64)).collect())))] {
                ctx.eval(None::<u8>);
                if let Err(why) = ranking_same(&exp, &got) { ctx.violate(&format!("{} {} get_intents {:?}", w.spec.name, n, t), json!({"engine": w.spec.name, "text": t, "got": format!("{:?}", got), "why": why})); }
            }
            for i in all.iter().map(|x| x.as_str()).chain(["Nope", ""]) {
                let got = p_slots(&p, t, i);
                let exp = r.parser_slots(&w.spec.parsers[0].1, t, i);
                let fine = match (&exp, &got) { (Ok(l), Ans::Ok(g)) => l.contains(g), (Err(()), Ans::Err(_)) => true, _ => false };
                ctx.eval(None::<u8>);
                if !fine { ctx.violate(&format!("{} get_slots {:?} {}", w.spec.name, t, i), json!({"engine": w.spec.name, "text": t, "intent": i, "got": format!("{:?}", got), "expected": format!("{:?}", exp)})); }
            }
        }
    });
}
