//! Engine-level properties, decided by exhaustive enumeration of bounded sets of queries on the real engine.
use crate::common::*;
use crate::refm::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use serde_json::json;
use snips_nlu_lib::SnipsNluEngine;
use snips_nlu_ontology::*;

pub fn main_worlds(ctx: &Ctx) -> Vec<World> {
    let mut v: Vec<World> = PIPELINES.iter().map(|p| world(ctx, main_world(p, false))).collect();
    v.extend(["D", "L", "P", "DP", "LP", "DLP"].iter().map(|p| world(ctx, main_world(p, true))));
    v.extend([("D", false), ("L", false), ("P", false), ("DLP", false), ("LPD", true), ("D", true)].iter().map(|(p, sw)| world(ctx, odd_world(p, *sw))));
    v.extend([("D", true), ("L", true), ("P", false), ("DLP", false)].iter().map(|(p, sw)| world(ctx, kinds_world(p, *sw))));
    v
}
/// engines with few intents: the parsers' rankings are short and overlap in every way
pub fn small_worlds(ctx: &Ctx) -> Vec<World> {
    let sets: [&[&str]; 6] = [&["Make"], &["Light"], &["Hello"], &["Make", "Light"], &["When", "Hello"], &["Light", "When", "Hello"]];
    let pipes: &[&str] = if ctx.thorough { &PIPELINES } else { &["D", "LD", "DP", "LP", "PD", "DLP"] };
    sets.iter().flat_map(|k| pipes.iter().map(move |p| (k, p))).map(|(k, p)| world(ctx, restrict(main_world(p, false), k))).collect()
}
fn known(w: &World, f: &Option<Vec<String>>) -> bool { f.iter().flatten().all(|n| w.spec.intents.iter().any(|i| i.0 == *n)) }
/// engines whose tagger cuts the text in every way
pub fn tagged(ctx: &Ctx) -> (Vec<World>, Vec<String>) {
    let ws = tag_worlds(if ctx.thorough { 1 } else { 5 }).into_iter().map(|e| world(ctx, e)).collect();
    let mut tx: Vec<String> = sequences(&TAG_WORDS, if ctx.thorough { 3 } else { 2 });
    if !ctx.thorough { tx.extend(["tea , tea", "twenty one tea", "tea twenty one", "green tea twenty", "one , one", ", green tea", "two tea , green"].iter().map(|x| x.to_string())); }
    tx.extend(["twenty-one", "Tea, Twenty", "tea,one", "\u{e9} tea, one", "green \u{212a}iwi", "\u{212a}IWI", "Green kiwi", "one \u{212a}iwi", "green \u{23a}", "\u{23a}, \u{2c65}", "\u{23a} one", "!", "tea !", "! !", " & %", "! tea", "one &%", "?"].iter().map(|x| x.to_string()));
    (ws, tx)
}
pub fn subsets(all: &[String]) -> Vec<Option<Vec<String>>> {
    let mut v = vec![None];
    for m in 0..1usize << all.len() { v.push(Some(all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1.clone()).collect())); }
    v
}
fn sentences() -> Vec<String> { SENTENCES.iter().chain(&ODD_SENTENCES).map(|x| x.to_string()).chain(kinds_sentences()).collect() }
fn with_variants(v: Vec<String>) -> Vec<String> {
    let mut o: Vec<String> = v.iter().flat_map(|t| variants(t)).collect();
    o.extend(v);
    o.sort();
    o.dedup();
    o
}
pub fn texts(ctx: &Ctx, words: usize, q: usize, t: usize) -> Vec<String> {
    let mut v = sequences(&WORDS[..words], if ctx.thorough { t } else { q });
    v.extend(with_variants(sentences()));
    v.sort();
    v.dedup();
    v
}

// ------------------------------------------------------------------------------------------- C01
pub fn c01(ctx: &Ctx) {
    ctx.rule("a filtered parse whose unfiltered top intent is excluded by the filter, or with alternatives");
    let mut ws = main_worlds(ctx);
    // classifiers with one intent, without features, and with the 'no intent' class missing
    for (n, f) in prob_edge_worlds() { let mut e = f; e.name = n; ws.push(world(ctx, e)); }
    ws.extend(small_worlds(ctx));
    let mut tx = sentences();
    if ctx.thorough { tx = with_variants(tx); tx.extend(sequences(&WORDS[..6], 2)); tx.sort(); tx.dedup(); }
    for_all(ctx, &ws, &tx, |w, e, r, t| {
        let all: Vec<String> = w.spec.intents.iter().map(|i| i.0.clone()).collect();
        let subs = subsets(&all);
        let unfiltered = parse(e, t, &None, &None, 9, 0);
        let top0 = unfiltered.ok().map(|r| r.intent.intent_name.clone());
        let ranked: Vec<String> = intents(e, t).ok().map(|v| v.iter().filter_map(|i| i.intent_name.clone()).collect()).unwrap_or_default();
        let mut memo: std::collections::HashMap<Option<Vec<String>>, Result<Vec<Top>, ()>> = Default::default();
        for (a, wl) in subs.iter().enumerate() { for (b, bl) in subs.iter().enumerate() {
            for alts in [0usize, 9] {
                if alts == 9 && !ctx.thorough && (a + b) % 3 != 0 { continue; }
                let got = parse(e, t, wl, bl, alts, 0);
                let allowed = r.allowed(wl.as_deref(), bl.as_deref()).unwrap();
                let ok = |n: &Option<String>| match (n, &allowed) { (Some(n), Some(a)) => a.contains(n), _ => true };
                ctx.eval(if alts > 0 || top0.as_ref().map(|x| !ok(x)).unwrap_or(true) { Some((&w.spec.name, t, a, b, alts)) } else { None });
                let case = || json!({"engine": w.spec.name, "text": t, "whitelist": wl, "blacklist": bl, "alternatives": alts, "got": ansjs(&got)});
                ctx.sample(case);
                let res = match &got { Ans::Ok(r) => r, g => { ctx.violate(&format!("{} no answer {:?} {:?} {:?}", w.spec.name, t, wl, bl), json!({"case": case(), "why": g.why()})); continue } };
                let mut names: Vec<Option<String>> = vec![res.intent.intent_name.clone()];
                names.extend(res.alternatives.iter().map(|a| a.intent.intent_name.clone()));
                if let Some(bad) = names.iter().find(|n| !ok(n)) {
                    ctx.violate(&format!("{} excluded {:?} {:?} {:?}", w.spec.name, t, wl, bl), json!({"case": case(), "excluded intent returned": bad}));
                }
                // the allowed intents stay eligible: the answer is that of the engine restricted to them
                let tops = memo.entry(allowed.clone()).or_insert_with(|| r.parse(t, allowed.as_deref()));
                if let Ok(tp) = &*tops { if !tp.iter().any(|x| x.intent == res.intent.intent_name) {
                    ctx.violate(&format!("{} eligible {:?} {:?} {:?}", w.spec.name, t, wl, bl), json!({"case": case(), "expected one of": tp.iter().map(|x| &x.intent).collect::<Vec<_>>()}));
                } }
                if alts == 9 {
                    if let Some(missing) = ranked.iter().find(|n| ok(&Some(n.to_string())) && !names.contains(&Some(n.to_string()))) {
                        ctx.violate(&format!("{} alternative {:?} {:?} {:?}", w.spec.name, t, wl, bl), json!({"case": case(), "allowed intent left out": missing}));
                    }
                }
                // whitelisting everything = no filter
                if wl.as_ref().map(|x| x.len() == all.len()).unwrap_or(false) && bl.is_none() && alts == 9 {
                    if let Ans::Ok(u) = &unfiltered {
                        let same = u.intent.intent_name == res.intent.intent_name && u.slots == res.slots && (u.intent.confidence_score - res.intent.confidence_score).abs() < 1e-4
                            && u.alternatives.len() == res.alternatives.len() && u.alternatives.iter().zip(&res.alternatives).all(|(x, y)| (x.intent.confidence_score - y.intent.confidence_score).abs() < 1e-4);
                        if !same { ctx.violate(&format!("{} all whitelisted {:?}", w.spec.name, t), json!({"case": case(), "unfiltered": js(u)})); }
                    }
                }
            }
        } }
        // unknown intents are refused, wherever they stand
        for bad in ["Nope", "make", "", "Make ", "null"].iter().copied().filter(|b| !w.spec.intents.iter().any(|i| i.0 == *b)) {
            for pos in 0..2 { for with in [false, true] {
                let l = Some(if with { vec![all[0].clone(), bad.to_string()] } else { vec![bad.to_string()] });
                for other in [None, Some(vec![all[all.len() - 1].clone()]), Some(vec![])] {
                    let (wl, bl) = if pos == 0 { (l.clone(), other) } else { (other, l.clone()) };
                    let got = parse(e, t, &wl, &bl, 0, 0);
                    ctx.eval(Some((&w.spec.name, t, &wl, &bl)));
                    if !matches!(got, Ans::Err(_)) { ctx.violate(&format!("{} unknown intent accepted {:?} {:?}", w.spec.name, wl, bl), json!({"engine": w.spec.name, "text": t, "whitelist": wl, "blacklist": bl, "got": ansjs(&got)})); }
                }
            } }
        }
        // repeated names change nothing
        let other = all[2 % all.len()].clone();
        let twice = Some(vec![all[0].clone(), all[0].clone(), other.clone()]);
        let once = Some(vec![other, all[0].clone()]);
        for (x, y) in [((&twice, &None), (&once, &None)), ((&None, &twice), (&None, &once))] {
            let (p, q) = (parse(e, t, x.0, x.1, 0, 0), parse(e, t, y.0, y.1, 0, 0));
            if let (Ans::Ok(a), Ans::Ok(b)) = (&p, &q) { if a.intent.intent_name == b.intent.intent_name && a.slots == b.slots { continue; } }
            ctx.violate(&format!("{} repeated names {:?}", w.spec.name, t), json!({"engine": w.spec.name, "text": t, "filter": [x.0, x.1], "got": ansjs(&p), "same filter": ansjs(&q)}));
        }
    });
}
pub fn prob_edge_worlds() -> Vec<(String, Engine)> {
    let mk = |p: Prob| { let mut e = base(""); e.parsers = vec![(s("probabilistic_intent_parser"), Parser::Prob(p))]; e };
    let one = |i: &str| Prob { intents: vec![Some(s(i))], feat: None, intercept: None, coeffs: None, fillers: fillers() };
    let row = |p: &Prob, k: usize| (p.intercept.clone().unwrap()[k], p.coeffs.clone().unwrap()[k].clone());
    let p = prob();
    let two = |a: Option<&str>, b: Option<&str>, k: usize| Prob { intents: vec![a.map(s), b.map(s)], intercept: Some(vec![row(&p, k).0]), coeffs: Some(vec![row(&p, k).1]), ..p.clone() };
    vec![
        (s("one-intent"), mk(one("Make"))),
        (s("one-intent-hello"), mk(one("Hello"))),
        (s("no-class"), mk(Prob { intents: vec![], ..one("Make") })),
        (s("only-none"), mk(Prob { intents: vec![None], ..one("Make") })),
        (s("untrained"), mk(Prob { intents: p.intents.clone(), ..one("Make") })),
        (s("untrained-no-none"), mk(Prob { intents: p.intents[..4].to_vec(), ..one("Make") })),
        (s("two-classes"), mk(two(Some("Make"), Some("Light"), 1))),
        (s("two-classes-none"), mk(two(Some("Light"), None, 4))),
        (s("no-none"), mk(Prob { intents: p.intents[..4].to_vec(), intercept: Some(p.intercept.clone().unwrap()[..4].to_vec()), coeffs: Some(p.coeffs.clone().unwrap()[..4].to_vec()), ..p.clone() })),
    ]
}
pub fn edge_worlds(ctx: &Ctx) -> Vec<World> { prob_edge_worlds().into_iter().map(|(n, mut e)| { e.name = n; world(ctx, e) }).collect() }

// ------------------------------------------------------------------------------------------- C02
pub fn c02(ctx: &Ctx) {
    ctx.rule("a ranking in which at least one intent has a score other than 0 and 1");
    let mut ws = main_worlds(ctx);
    ws.extend(edge_worlds(ctx));
    ws.extend(small_worlds(ctx));
    ws.push(world(ctx, zero_world()));
    let mut tx_more = vec![];
    // (the utterances of two intents of the lookup parser have to differ)
    for p in ["D", "L", "P", "DL"] { ws.push(world(ctx, tie_world(&format!("many-{}", p), p, if p.contains('L') { &[1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2] } else { &[1; 12] }))); }
    tx_more.push(TIE_TEXT.to_string());
    let mut tx = texts(ctx, 8, 3, 4);
    tx.extend(tx_more);
    for_all(ctx, &ws, &tx, |w, e, r, t| {
        let got = intents(e, t);
        let case = || json!({"engine": w.spec.name, "text": t, "got": ansjs(&got)});
        let v = match &got { Ans::Ok(v) => v, g => { ctx.eval(None::<u8>); ctx.violate(&format!("{} no answer {:?}", w.spec.name, t), json!({"case": case(), "why": g.why()})); return } };
        ctx.eval(if v.iter().any(|i| i.confidence_score > 0.0 && i.confidence_score < 1.0) { Some((&w.spec.name, t)) } else { None });
        ctx.sample(case);
        if let Err(why) = ranking_ok(r, t, v) { ctx.violate(&format!("{} ranking {:?}", w.spec.name, t), json!({"case": case(), "why": why})); }
    });
}
pub fn ranking_ok(r: &Ref, t: &str, v: &[IntentClassifierResult]) -> Result<(), String> {
    ranking_is(r, t, v).or_else(|why| {
        r.loose.set(true);
        let also = ranking_is(r, t, v);
        r.loose.set(false);
        also.map_err(|_| why)
    })
}
fn ranking_is(r: &Ref, t: &str, v: &[IntentClassifierResult]) -> Result<(), String> {
    let exp = r.get_intents(t);
    for i in v {
        if !(i.confidence_score >= 0.0 && i.confidence_score <= 1.0) { return Err(format!("score {} is not in [0, 1]", i.confidence_score)); }
        if v.iter().filter(|x| x.intent_name == i.intent_name).count() != 1 { return Err(format!("{:?} is listed twice", i.intent_name)); }
        match exp.get(&i.intent_name) {
            Some(x) if (x - i.confidence_score as f64).abs() < TOL => {}
            x => return Err(format!("{:?} has score {}, expected {:?}", i.intent_name, i.confidence_score, x)),
        }
    }
    if v.windows(2).any(|p| p[0].confidence_score < p[1].confidence_score) { return Err("not in decreasing order of score".into()); }
    if let Some(k) = exp.keys().find(|k| !v.iter().any(|i| i.intent_name == **k)) { return Err(format!("{:?} is missing", k)); }
    Ok(())
}

// ------------------------------------------------------------------------------- C04, C05: every slot
fn every_slot(ctx: &Ctx, w: &World, e: &SnipsNluEngine, t: &str, f: &dyn Fn(&str, Option<&str>, &[Slot], bool)) {
    let name = &w.spec.name;
    if let Ans::Ok(p) = parse(e, t, &None, &None, 9, 2) {
        f("parse", p.intent.intent_name.as_deref(), &p.slots, true);
        for a in &p.alternatives { f("alternative", a.intent.intent_name.as_deref(), &a.slots, true); }
    }
    for (i, sl) in &w.spec.intents {
        if let Ans::Ok(v) = slots(e, t, i, 1) { f("get_slots", Some(i), &v, true); }
        for (sname, _) in sl { if let Ans::Ok(Some(x)) = extract(e, t, i, sname, 1) { f("extract_slot", Some(i), &[x], false); } }
    }
    let _ = (ctx, name);
}
pub fn range_ok(t: &str, v: &[Slot]) -> Result<(), String> {
    let n = t.chars().count();
    for sl in v {
        if sl.range.start >= sl.range.end { return Err(format!("empty range {:?}", sl.range)); }
        if sl.range.end > n { return Err(format!("range {:?} ends outside of the text of {} characters", sl.range, n)); }
        if sl.raw_value != sub(t, &sl.range) { return Err(format!("raw value {:?} is not the text at {:?}, {:?}", sl.raw_value, sl.range, sub(t, &sl.range))); }
    }
    for p in v.windows(2) { if p[0].range.end > p[1].range.start { return Err(format!("{:?} and {:?} overlap or are out of order", p[0].range, p[1].range)); } }
    Ok(())
}
pub fn c04(ctx: &Ctx) {
    ctx.rule("a query that returns at least one slot");
    let ws = main_worlds(ctx);
    let tx = texts(ctx, 12, 2, 3);
    for_all(ctx, &ws, &tx, |w, e, _, t| {
        every_slot(ctx, w, e, t, &|q, intent, v, _| {
            ctx.eval(if v.is_empty() { None } else { Some((&w.spec.name, t, q, intent)) });
            // extracting from an empty text is the one case with nothing to point at
            if t.is_empty() { return; }
            if !v.is_empty() { ctx.sample(|| json!({"engine": w.spec.name, "query": q, "text": t, "intent": intent, "slots": js(&v)})); }
            if let Err(why) = range_ok(t, v) { ctx.violate(&format!("{} {} {:?} {:?}", w.spec.name, q, intent, t), json!({"engine": w.spec.name, "query": q, "text": t, "intent": intent, "slots": js(&v), "why": why})); }
        });
    });
}
/// can a slot of this entity have a value of this kind?
fn of_kind(entity: &str, custom: bool, v: &SlotValue) -> bool {
    if custom { return matches!(v, SlotValue::Custom(_)); }
    match v {
        SlotValue::Custom(_) => false,
        SlotValue::Number(_) => entity == "snips/number", SlotValue::Ordinal(_) => entity == "snips/ordinal", SlotValue::Percentage(_) => entity == "snips/percentage",
        SlotValue::AmountOfMoney(_) => entity == "snips/amountOfMoney", SlotValue::Temperature(_) => entity == "snips/temperature", SlotValue::Duration(_) => entity == "snips/duration",
        SlotValue::InstantTime(_) | SlotValue::TimeInterval(_) => ["snips/datetime", "snips/date", "snips/time", "snips/datePeriod", "snips/timePeriod"].contains(&entity),
        SlotValue::MusicAlbum(_) => entity == "snips/musicAlbum", SlotValue::MusicArtist(_) => entity == "snips/musicArtist", SlotValue::MusicTrack(_) => entity == "snips/musicTrack",
        SlotValue::City(_) => entity == "snips/city", SlotValue::Country(_) => entity == "snips/country", SlotValue::Region(_) => entity == "snips/region",
    }
}
pub fn schema_ok(spec: &Engine, intent: Option<&str>, v: &[Slot]) -> Result<(), String> {
    let intent = match intent { Some(i) => i, None => return if v.is_empty() { Ok(()) } else { Err("slots without an intent".into()) } };
    let decl = &spec.intents.iter().find(|i| i.0 == intent).ok_or_else(|| format!("unknown intent {}", intent))?.1;
    for sl in v {
        let d = decl.iter().find(|d| d.0 == sl.slot_name).ok_or_else(|| format!("{} has no slot {}", intent, sl.slot_name))?;
        if d.1 != sl.entity { return Err(format!("slot {} has entity {} instead of {}", sl.slot_name, sl.entity, d.1)); }
        let custom = spec.entities.iter().any(|e| e.name == sl.entity);
        for x in std::iter::once(&sl.value).chain(&sl.alternatives) {
            if !of_kind(&sl.entity, custom, x) { return Err(format!("slot {} of entity {} has the value {:?}", sl.slot_name, sl.entity, x)); }
        }
    }
    Ok(())
}
pub fn c05(ctx: &Ctx) {
    ctx.rule("a query that returns at least one slot, or a 'no intent' result");
    let mut ws = main_worlds(ctx);
    ws.extend(edge_worlds(ctx));
    let tx = texts(ctx, 12, 2, 3);
    for_all(ctx, &ws, &tx, |w, e, _, t| {
        every_slot(ctx, w, e, t, &|q, intent, v, _| {
            ctx.eval(if v.is_empty() && intent.is_some() { None } else { Some((&w.spec.name, t, q, intent)) });
            if !v.is_empty() { ctx.sample(|| json!({"engine": w.spec.name, "query": q, "text": t, "intent": intent, "slots": js(&v)})); }
            if let Err(why) = schema_ok(&w.spec, intent, v) { ctx.violate(&format!("{} {} {:?} {:?}", w.spec.name, q, intent, t), json!({"engine": w.spec.name, "query": q, "text": t, "intent": intent, "slots": js(&v), "why": why})); }
        });
    });
}

// ------------------------------------------------------------------------------------------- C06
pub fn c06(ctx: &Ctx) {
    ctx.rule("a query that returns at least one slot, or drops one");
    let ws = main_worlds(ctx);
    let tx = texts(ctx, 12, 2, 3);
    let each = |w: &World, e: &SnipsNluEngine, r: &Ref, t: &str| {
        for sa in [0usize, 1, 2, 3, 256, usize::MAX] {
            let got = parse(e, t, &None, &None, 0, sa);
            if let (Ans::Ok(g), Ok(tops)) = (&got, r.parse(t, None)) {
                let lists: Vec<Vec<ISlot>> = tops.iter().filter(|x| x.intent == g.intent.intent_name).flat_map(|x| x.slots.clone()).collect();
                let dropped = lists.iter().any(|l| l.len() > g.slots.len());
                ctx.eval(if g.slots.is_empty() && !dropped { None } else { Some((&w.spec.name, t, sa, "parse")) });
                if !lists.is_empty() && !r.slots_ok(t, &lists, sa, &g.slots) {
                    ctx.violate(&format!("{} parse {:?}", w.spec.name, t), json!({"engine": w.spec.name, "text": t, "slot alternatives": sa, "got": js(g), "found": format!("{:?}", lists)}));
                }
                if let Some(x) = g.slots.iter().find(|x| x.alternatives.len() > sa) {
                    ctx.violate(&format!("{} too many {:?}", w.spec.name, t), json!({"engine": w.spec.name, "text": t, "slot alternatives": sa, "slot": js(x)}));
                }
                if !g.slots.is_empty() { ctx.sample(|| json!({"engine": w.spec.name, "text": t, "slot alternatives": sa, "slots": js(&g.slots)})); }
            }
            for (i, _) in &w.spec.intents {
                if w.spec.parsers.is_empty() { continue; }
                let got = slots(e, t, i, sa);
                if let (Ans::Ok(g), Ok(lists)) = (&got, r.get_slots(t, i)) {
                    ctx.eval(if g.is_empty() && lists.iter().all(|l| l.is_empty()) { None } else { Some((&w.spec.name, t, sa, &i[..])) });
                    if !r.slots_ok(t, &lists, sa, g) {
                        ctx.violate(&format!("{} get_slots {} {:?}", w.spec.name, i, t), json!({"engine": w.spec.name, "text": t, "intent": i, "slot alternatives": sa, "got": js(g), "found": format!("{:?}", lists)}));
                    }
                }
            }
        }
    };
    for_all(ctx, &ws, &tx, each);
    let (ws, tx) = tagged(ctx);
    for_all(ctx, &ws, &tx, each);
}

// ------------------------------------------------------------------------------------------- C07
pub fn c07(ctx: &Ctx) {
    ctx.rule("a parse asking for at least one alternative");
    let mut ws = main_worlds(ctx);
    ws.extend(edge_worlds(ctx));
    ws.extend(small_worlds(ctx));
    let tx = texts(ctx, 8, 2, 3);
    let filters: Vec<(Option<Vec<String>>, Option<Vec<String>>)> = vec![
        (None, None), (Some(ss(&["Make"])), None), (None, Some(ss(&["Make"]))), (Some(ss(&["Light", "When"])), None), (Some(ss(&["Hello", "Make", "Light"])), Some(ss(&["Hello"]))), (Some(vec![]), None),
    ];
    for_all(ctx, &ws, &tx, |w, e, r, t| {
        let ranking = match intents(e, t) { Ans::Ok(v) => v, _ => vec![] };
        for (fi, (wl, bl)) in filters.iter().enumerate().filter(|x| known(w, &(x.1).0) && known(w, &(x.1).1)) {
            let allowed = r.allowed(wl.as_deref(), bl.as_deref()).unwrap();
            let plain = parse(e, t, wl, bl, 0, 1);
            for n in 0..=(w.spec.intents.len() + 2) {
                if n > 2 && fi > 2 && n < w.spec.intents.len() { continue; }
                let got = parse(e, t, wl, bl, n, 1);
                ctx.eval(if n > 0 { Some((&w.spec.name, t, fi, n)) } else { None });
                let case = || json!({"engine": w.spec.name, "text": t, "whitelist": wl, "blacklist": bl, "alternatives": n, "got": ansjs(&got), "without": ansjs(&plain), "ranking": js(&ranking)});
                let (g, p) = match (&got, &plain) {
                    (Ans::Ok(g), Ans::Ok(p)) => (g, p),
                    _ => { ctx.violate(&format!("{} no answer {:?}", w.spec.name, t), case()); continue }
                };
                if n > 0 { ctx.sample(case); }
                let bad = |why: &str| ctx.violate(&format!("{} {} {:?} {:?} {:?} {}", w.spec.name, why, t, wl, bl, n), json!({"case": case(), "why": why}));
                if g.input != p.input || g.intent != p.intent || g.slots != p.slots { bad("the top result changed"); continue; }
                let expected: Vec<&IntentClassifierResult> = ranking.iter()
                    .filter(|i| match (&i.intent_name, &allowed) { (Some(x), Some(a)) => a.contains(x), _ => true })
                    .filter(|i| i.intent_name != g.intent.intent_name).take(n).collect();
                if g.alternatives.len() > n { bad("more alternatives than requested"); continue; }
                if g.alternatives.iter().any(|a| a.intent.intent_name == g.intent.intent_name) { bad("the top result is repeated"); continue; }
                if g.alternatives.len() != expected.len() { bad("missing alternatives"); continue; }
                // entries with the same score may come in any order
                let key = |i: &IntentClassifierResult| (i.confidence_score.to_bits(), i.intent_name.clone());
                let (mut a, mut b): (Vec<_>, Vec<_>) = (g.alternatives.iter().map(|x| key(&x.intent)).collect(), expected.iter().map(|x| key(x)).collect());
                if g.alternatives.windows(2).any(|x| x[0].intent.confidence_score < x[1].intent.confidence_score) { bad("not in ranking order"); continue; }
                if a != b {
                    let cut = b.last().map(|x| x.0);
                    a.retain(|x| Some(x.0) != cut); b.retain(|x| Some(x.0) != cut);
                    a.sort(); b.sort();
                    if a != b || g.alternatives.iter().any(|x| !ranking.iter().any(|r| key(r) == key(&x.intent))) { bad("not the top of the ranking"); continue; }
                }
                let mut seen = std::collections::BTreeSet::new();
                for x in &g.alternatives {
                    if !seen.insert(&x.intent.intent_name) { bad("an alternative is repeated"); break; }
                    let exp = match &x.intent.intent_name { Some(i) => slots(e, t, i, 1), None => Ans::Ok(vec![]) };
                    if exp.ok() != Some(&x.slots) { bad("the slots differ from a slots query"); break; }
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------- C08
pub fn c08(ctx: &Ctx) {
    ctx.rule("a slots query whose answer has slots, or for an intent other than the top one, or unknown");
    let ws: Vec<World> = main_worlds(ctx).into_iter().chain(small_worlds(ctx)).filter(|w| !w.spec.parsers.is_empty()).collect();
    let tx = texts(ctx, 12, 2, 3);
    let each = |w: &World, e: &SnipsNluEngine, r: &Ref, t: &str| {
        let top = parse0(e, t).ok().and_then(|r| r.intent.intent_name.clone());
        for (i, _) in &w.spec.intents {
            let got = slots(e, t, i, 1);
            let exp = r.get_slots(t, i);
            let case = || json!({"engine": w.spec.name, "text": t, "intent": i, "got": ansjs(&got), "expected": format!("{:?}", exp)});
            ctx.eval(if top.as_ref() != Some(i) || got.ok().map(|v| !v.is_empty()).unwrap_or(false) { Some((&w.spec.name, t, i)) } else { None });
            if got.ok().map(|v| !v.is_empty()).unwrap_or(false) { ctx.sample(case); }
            let fine = match (&got, &exp) { (Ans::Ok(g), Ok(l)) => r.slots_ok(t, l, 1, g), (Ans::Err(_), Err(())) => true, _ => false };
            if !fine { ctx.violate(&format!("{} {} {:?}", w.spec.name, i, t), case()); }
            if ask(String::new, || e.get_slots(t, i)).ok().map(|v| v.iter().all(|x| x.alternatives.is_empty())) != Some(true) { ctx.violate(&format!("{} get_slots {} {:?}", w.spec.name, i, t), case()); }
        }
        for bad in ["Nope", "make", "", "MAKE", "Make "].iter().copied().filter(|b| !w.spec.intents.iter().any(|i| i.0 == *b)) {
            let got = slots(e, t, bad, 0);
            ctx.eval(Some((&w.spec.name, t, bad)));
            if !matches!(got, Ans::Err(_)) { ctx.violate(&format!("{} unknown intent {:?} accepted", w.spec.name, bad), json!({"engine": w.spec.name, "text": t, "intent": bad, "got": ansjs(&got)})); }
        }
    };
    for_all(ctx, &ws, &tx, each);
    let (ws, tx) = tagged(ctx);
    for_all(ctx, &ws, &tx, each);
}

// ------------------------------------------------------------------------------------------- C09
pub fn c09(ctx: &Ctx) {
    ctx.rule("a parse in which the first parser does not recognise an intent, or with an injected failure");
    let mut ws = main_worlds(ctx);
    ws.extend(edge_worlds(ctx));
    ws.extend(small_worlds(ctx));
    let tx = texts(ctx, 8, 3, 4);
    let filters: Vec<Option<Vec<String>>> = vec![None, Some(ss(&["Make"])), Some(ss(&["Light", "Hello"])), Some(vec![])];
    for_all(ctx, &ws, &tx, |w, e, r, t| {
        for (fi, wl) in filters.iter().enumerate().filter(|x| known(w, x.1)) {
            let got = parse(e, t, wl, &None, 0, 0);
            let tops = r.parse(t, wl.as_deref());
            let first = w.spec.parsers.first().and_then(|p| r.parser_parse(&p.1, t, wl.as_deref()).ok()).map(|v| v[0].intent.is_some()).unwrap_or(false);
            ctx.eval(if !first { Some((&w.spec.name, t, fi)) } else { None });
            ctx.sample(|| json!({"engine": w.spec.name, "text": t, "whitelist": wl, "got": ansjs(&got)}));
            if let Err(why) = top_ok(r, t, &tops, &got, 0) {
                ctx.violate(&format!("{} {:?} {:?}", w.spec.name, t, wl), json!({"engine": w.spec.name, "text": t, "whitelist": wl, "got": ansjs(&got), "why": why}));
            }
        }
    });
}
