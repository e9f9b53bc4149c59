//! Extracting one slot (C29) and totality of the queries (C23).
use crate::c_crf::rich;
use crate::c_engine::*;
use crate::common::*;
use crate::refm::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use serde_json::json;
use snips_nlu_ontology::*;

// ------------------------------------------------------------------------------------------- C29
/// Shared slot names with different entities, an intent of one slot, entity names needing care.
fn slots_world() -> Engine {
    let mut e = base("slots");
    e.entities.push(ent("Drink", false, &[("tea", "TEA"), ("green", "verde"), ("hello room", "greeting")]));
    e.entities.push(ent("été 1", true, &[("two", "deux"), ("tea", "thé"), ("tea", "infusion"), ("é", "e acute")]));
    e.entities.push(ent("empty", true, &[]));
    e.entities.push(ent("void", false, &[]));
    e.intents = vec![
        (s("Make"), pairs(&[("count", "snips/number"), ("what", "drink"), ("other", "drink"), ("x", "room")])),
        (s("Light"), pairs(&[("where", "room"), ("what", "Drink"), ("x", "snips/datetime")])),
        (s("When"), pairs(&[("count", "snips/datetime"), ("place", "snips/city"), ("x", "été 1"), ("é", "été 1"), ("where", "snips/number")])),
        (s("Rest"), pairs(&[("e", "empty"), ("v", "void"), ("x", "drink"), ("", "room"), ("snips/number", "snips/city"), ("drink", "snips/number")])),
        (s("Hello"), vec![]),
    ];
    e
}
/// the slots that may be returned for `text`
pub fn extract_expected(r: &Ref, text: &str, entity: &str, slot: &str, n: usize) -> Vec<Option<Slot>> {
    let mk = |range: std::ops::Range<usize>, raw: String, value: SlotValue, alternatives: Vec<SlotValue>| Some(Slot { raw_value: raw, value, alternatives, range, entity: s(entity), slot_name: s(slot), confidence_score: None });
    let custom = |x: String| SlotValue::Custom(x.into());
    if let Some(d) = r.e.entities.iter().find(|d| d.name == entity) {
        let m = r.customs(text, Some(&[s(entity)]), n);
        if m.is_empty() { return vec![if d.extensible { mk(0..text.chars().count(), s(text), custom(s(text)), vec![]) } else { None }]; }
        return m.into_iter().map(|m| mk(m.range.clone(), sub(text, &m.range), custom(m.resolved), m.alts.into_iter().map(custom).collect())).collect();
    }
    let k = Ref::kind(entity).expect("entity kind");
    let m = r.builtins(text, Some(&[k]), n);
    if m.is_empty() { return vec![None]; }
    m.into_iter().map(|m| mk(m.range.clone(), sub(text, &m.range), m.entity, m.alternatives)).collect()
}
pub fn c29(ctx: &Ctx) {
    ctx.rule("an extraction that finds a value inside the text, or for an unknown intent or slot");
    let mut ws = vec![world(ctx, main_world("DLP", false)), world(ctx, slots_world()), world(ctx, with(rich(), "", false))];
    if ctx.thorough { ws.push(world(ctx, main_world("P", true))); let mut e = slots_world(); e.name = s("slots-stems"); e.usage = 2; e.res = rich().res; ws.push(world(ctx, e)); ws.extend(edge_worlds(ctx)); }
    let tx = texts(ctx, 12, 3, 4);
    let (found, whole, nothing) = (std::sync::atomic::AtomicUsize::new(0), std::sync::atomic::AtomicUsize::new(0), std::sync::atomic::AtomicUsize::new(0));
    for_all(ctx, &ws, &tx, |w, e, r, t| {
        let mut names: Vec<S> = w.spec.intents.iter().flat_map(|i| i.1.iter().map(|x| x.0.clone())).collect();
        names.extend(ss(&["nope", "What", "what ", "room", "snips/datetime"]));
        names.sort();
        names.dedup();
        let sentence = SENTENCES.contains(&t);
        for (intent, slots) in &w.spec.intents {
            for name in &names {
                let entity = slots.iter().find(|x| &x.0 == name).map(|x| &x.1);
                // alternatives in an order that would show a cached answer of another number of alternatives
                for n in [0usize, 2, 5, 1, 256, usize::MAX] {
                    if !sentence && !(n == 0 || n == 2) { continue; }
                    if entity.is_none() && n > 0 { continue; }
                    let got = extract(e, t, intent, name, n);
                    let case = || json!({"engine": w.spec.name, "text": t, "intent": intent, "slot": name, "alternatives": n, "got": ansjs(&got)});
                    let bad = |why: &str, exp: serde_json::Value| ctx.violate(&format!("{} {} {} {} {:?}", w.spec.name, why, intent, name, t), json!({"case": case(), "why": why, "accepted": exp}));
                    let entity = match entity {
                        None => {
                            ctx.eval(Some((&w.spec.name, t, intent, name)));
                            if !matches!(got, Ans::Err(_)) { bad("unknown slot accepted", json!(null)); }
                            continue;
                        }
                        Some(x) => x,
                    };
                    let exp = extract_expected(r, t, entity, name, n);
                    let o = match &got { Ans::Ok(o) => o, _ => { ctx.eval(None::<u8>); bad("no answer", json!(null)); continue } };
                    let inside = o.as_ref().map(|x| x.raw_value != t).unwrap_or(false);
                    match o { None => &nothing, Some(_) if inside => &found, _ => &whole }.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    ctx.eval(if inside { Some((&w.spec.name, t, intent, name)) } else { None });
                    if inside { ctx.sample(case); }
                    if !exp.contains(o) { bad("not a match of the entity", js(&exp)); }
                    if let Some(x) = o { if x.alternatives.len() > n { bad("too many alternatives", js(&exp)); } }
                    if n == 0 {
                        let plain = ask(String::new, || e.extract_slot(t.to_string(), intent, name));
                        if plain != got { bad("differs without alternatives", ansjs(&plain)); }
                    }
                }
            }
        }
        for intent in ["Nope", "make", "", "Make ", "drink"] {
            for name in &names {
                if !sentence && !(name == "what" || name == "count") { continue; }
                let got = extract(e, t, intent, name, 0);
                ctx.eval(Some((&w.spec.name, t, intent, name)));
                if !matches!(got, Ans::Err(_)) { ctx.violate(&format!("{} unknown intent accepted {:?} {} {:?}", w.spec.name, intent, name, t), json!({"engine": w.spec.name, "text": t, "intent": intent, "slot": name, "got": ansjs(&got)})); }
            }
        }
    });
    ctx.note("values found inside a text", json!(found.into_inner()));
    ctx.note("whole texts", json!(whole.into_inner()));
    ctx.note("no slot", json!(nothing.into_inner()));
    ctx.note("texts", json!(tx.len()));
    ctx.note("engines", json!(ws.iter().map(|w| &w.spec.name).collect::<Vec<_>>()));
}

// ------------------------------------------------------------------------------------------- C23
const ODD: [char; 30] = [
    ' ', 'a', '%', '3', 'İ', '\u{301}', '\u{1F375}', 'ß', '-', '\n', '\0', 'Σ', '_', '"', '\u{202E}', '日', '\u{FEFF}', '(', '\\', 'ǅ', '\u{200D}', '\u{10FFFF}', 'ﬁ', '٣', '\t', 'ſ', '\u{A0}', '\'', '$', 'é',
];
const PIECES: [&str; 34] = [
    "make", "two", "tea", "light", "salon", "tonight", "paris", "in", "%DRINK%", "%SNIPSNUMBER%", "%", "%%", "TEA", "İ", "te\u{301}a", "teaİ", "İtea", "ﬁ", "null", "group0", "(?P<group0>", ".*", "\\", "[", "]", "\0", "\u{1F375}tea", "tea\u{200D}room",
    "tea room", "Σ", "'", "%ROOM", "DRINK%", "%drink%",
];
const LONG: usize = 32767;
/// an entity whose value is longer than any 16 bit integer, and one as long as its limit
fn long_value(n: usize) -> String { format!("very l{}ng value", "o".repeat(n - 14)) }
fn robust_worlds() -> Vec<Engine> {
    let mut v: Vec<Engine> = ["D", "L", "P", "DLP"].iter().map(|p| main_world(p, false)).collect();
    v.push(main_world("DLP", true));
    let mut e = with(rich(), "DLP", false);
    e.name = s("rich-DLP");
    for (_, p) in e.parsers.iter_mut() {
        if let Parser::Prob(p) = p { for (_, f) in p.fillers.iter_mut() { if f.crf.is_some() { let offs: [&[i32]; 3] = [&[0], &[-2, 1], &[7, -7]]; f.features.extend(crate::c_crf::feature_kinds().into_iter().enumerate().map(|(i, (n, a))| fac(n, a, offs[i % 3]))); } } }
    }
    v.push(e);
    v
}
/// asks everything that takes a text; `refer`: the answers have to be those of the reference as well
fn ask_everything(ctx: &Ctx, w: &World, e: &snips_nlu_lib::SnipsNluEngine, r: &Ref, t: &str, refer: bool, sort: &str) {
    let short: String = if t.chars().count() > 80 { format!("{}… ({} characters)", t.chars().take(60).collect::<String>(), t.chars().count()) } else { s(t) };
    let bad = |q: &str, why: &str| ctx.violate(&format!("{} {} {} {:?}", w.spec.name, q, sort, short), json!({"engine": w.spec.name, "query": q, "text": t, "why": why}));
    let check = |q: &str, sl: &[Slot]| if let Err(why) = range_ok(t, sl) { bad(q, &why) };
    for (k, got) in [parse(e, t, &None, &None, 0, 0), parse(e, t, &Some(ss(&["When", "Make"])), &None, 9, 2)].iter().enumerate() {
        let q = ["parse", "parse with alternatives"][k];
        ctx.eval(if t.is_ascii() && t.len() < 80 && k == 0 { None } else { Some((&w.spec.name, k, t)) });
        match got {
            Ans::Ok(g) => {
                if g.input != t { bad(q, "the result does not echo the input"); }
                check(q, &g.slots);
                for a in &g.alternatives { check(q, &a.slots); }
                if refer && k == 0 { if let Err(why) = top_ok(r, t, &r.parse(t, None), got, 0) { bad(q, &why); } }
            }
            a => bad(q, &a.why()),
        }
    }
    match intents(e, t) {
        Ans::Ok(v) => if refer { if let Err(why) = ranking_ok(r, t, &v) { bad("get_intents", &why) } },
        a => bad("get_intents", &a.why()),
    }
    for (i, sl) in &w.spec.intents {
        let got = slots(e, t, i, 1);
        match &got {
            Ans::Ok(v) => { check("get_slots", v); if refer { if let Ok(l) = r.get_slots(t, i) { if !r.slots_ok(t, &l, 1, v) { bad(&format!("get_slots {}", i), &format!("{:?}", v)); } } } }
            a => bad(&format!("get_slots {}", i), &a.why()),
        }
        for (x, ent) in sl {
            match extract(e, t, i, x, 1) {
                Ans::Ok(o) => { if refer && !extract_expected(r, t, ent, x, 1).contains(&o) { bad(&format!("extract_slot {} {}", i, x), &format!("{:?}", o)); } }
                a => bad(&format!("extract_slot {} {}", i, x), &a.why()),
            }
        }
    }
}
fn odd_texts(ctx: &Ctx) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let join = |alphabet: &[char], n: usize, out: &mut Vec<String>| {
        let mut last: Vec<String> = vec![s("")];
        for _ in 0..n { last = last.iter().flat_map(|x| alphabet.iter().map(move |c| format!("{}{}", x, c))).collect(); out.extend(last.iter().cloned()); }
    };
    if ctx.thorough { join(&ODD, 3, &mut out); join(&ODD[..12], 4, &mut out); } else { join(&ODD, 2, &mut out); join(&ODD[..12], 3, &mut out); }
    // around a word that is an entity
    for a in ODD { for b in ODD { out.push(format!("{}tea{}", a, b)); out.push(format!("make {}{}tea", a, b)); out.push(format!("two{}{}paris tonight", a, b)); } }
    out.extend(sequences(&PIECES, if ctx.thorough { 3 } else { 2 }));
    out.push(s(""));
    for t in SENTENCES { out.extend(variants(t)); out.push(t.chars().flat_map(|c| [c, '\u{301}']).collect()); out.push(t.split(' ').collect()); out.push(t.chars().rev().collect()); }
    // every single character of the basic planes that changes under a change of case, or is a space or a combining mark
    for c in (0..0x1F000u32).filter_map(char::from_u32) {
        let n = c.to_lowercase().count() != 1 || c.to_uppercase().count() != 1;
        if n || c.is_whitespace() || (c.is_control()) { out.push(format!("{} tea {}two{}", c, c, c)); }
    }
    out.sort();
    out.dedup();
    out
}
/// texts around the limits of 8 and 16 bit integers: padding before, within, after and between the words
fn long_texts(ctx: &Ctx) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let lens: Vec<usize> = if ctx.thorough { vec![120, 250, 500, LONG - 20, LONG - 6, LONG - 5, LONG - 4, LONG - 3, LONG - 2, LONG - 1, LONG, LONG + 1, LONG + 2, LONG + 5, 40000, 65530, 65535, 65536, 65540, 70000, 140000] } else { vec![250, LONG - 5, LONG, LONG + 1, 65536] };
    for n in lens {
        let sp = " ".repeat(n);
        let nb = "\u{A0}".repeat(n);
        let all = ["make two tea", "tonight in paris", "make coffee now", "salon", "make tea and chai", "hello", "paris tonight", "make green tea"];
        for t in &all[..if ctx.thorough { 8 } else { 4 }] {
            v.push((format!("{} spaces before", n), format!("{}{}", sp, t)));
            v.push((format!("{} spaces after", n), format!("{}{}", t, sp)));
            v.push((format!("{} spaces after the first word", n), t.replacen(' ', &sp, 1)));
            if let Some(p) = t.rfind(' ') { v.push((format!("{} spaces before the last word", n), format!("{}{}{}", &t[..p], sp, &t[p..]))); }
            v.push((format!("{} no-break spaces before", n), format!("{}{}", nb, t)));
            v.push((format!("{} characters after", n), format!("{} {}", t, "é".repeat(n))));
            v.push((format!("{} characters before", n), format!("{} {}", "é".repeat(n), t)));
        }
        v.push((format!("{} spaces", n), sp.clone()));
        v.push((format!("{} letters", n), "a".repeat(n)));
        v.push((format!("{} wide letters", n), "日".repeat(n)));
        if n <= LONG || ctx.thorough {
            v.push((format!("{} per cents", n), "%".repeat(n)));
            v.push((format!("{} words", n / 2), "a ".repeat(n / 2)));
        }
        v.push((format!("{} marks", n), format!("e{}", "\u{301}".repeat(n))));
    }
    for n in [LONG - 1, LONG, LONG + 1, 40000, 65536] {
        let l = long_value(n);
        for t in [l.clone(), format!("light {}", l), format!("light the {}  ", l), format!("tea {} two", l), format!("light {}x", l)] { v.push((format!("entity of {} characters", n), t)); }
    }
    v
}
/// many entities in one text
fn crowded_texts(ctx: &Ctx) -> Vec<(String, String)> {
    let mut v = vec![];
    for n in if ctx.thorough { vec![5, 10, 16, 24, 40, 64, 100] } else { vec![5, 10, 24, 40, 64] } {
        for w in ["two", "tea", "salon", "paris", "two tea", "tea salon", "3 paris tonight", "make two tea"] {
            v.push((format!("{} times {:?}", n, w), vec![w; n].join(" ")));
        }
    }
    v
}
pub fn c23(ctx: &Ctx) {
    ctx.rule("a text that is not plain short ASCII, or a query with alternatives");
    let specs = robust_worlds();
    let ws: Vec<World> = specs.into_iter().map(|e| world(ctx, e)).collect();
    let odd = odd_texts(ctx);
    for_all(ctx, &ws, &odd, |w, e, r, t| {
        ctx.sample(|| json!({"engine": w.spec.name, "text": t}));
        ask_everything(ctx, w, e, r, t, true, "odd");
    });
    let lw: Vec<World> = if ctx.thorough { &["D", "L", "P", "DLP"][..] } else { &["D", "L", "P"] }.iter().map(|p| {
        let mut e = main_world(p, false);
        e.name = format!("long-{}", p);
        for n in [LONG - 1, LONG, LONG + 1, 40000, 65536] { e.entities[1].values.push((long_value(n), format!("{}", n))); }
        world(ctx, e)
    }).collect();
    let long = long_texts(ctx);
    ctx.par(lw.len() * 16, |k| {
        let w = &lw[k / 16];
        let e = match load(&w.dir) { Ans::Ok(e) => e, a => { ctx.violate("load", json!({"load": a.why()})); return } };
        let r = Ref::new(&w.spec, &w.dir);
        for (i, (sort, t)) in long.iter().enumerate() {
            // features are computed per word of a text: the time is quadratic in the number of words
            let words = snips_nlu_utils::token::tokenize_light(t, snips_nlu_utils::language::Language::EN).len();
            if words > 400 && w.spec.name.contains('P') { continue; }
            if i % 16 == k % 16 && !ctx.stopped() { ask_everything(ctx, w, &e, &r, t, true, sort); }
        }
    });
    let crowded = crowded_texts(ctx);
    ctx.par(ws.len() * crowded.len(), |k| {
        let (w, (sort, t)) = (&ws[k / crowded.len()], &crowded[k % crowded.len()]);
        if !ctx.thorough && t.len() > 200 && w.spec.name.starts_with("rich") { return; }
        let e = match load(&w.dir) { Ans::Ok(e) => e, a => { ctx.violate("load", json!({"load": a.why()})); return } };
        let r = Ref::new(&w.spec, &w.dir);
        if !ctx.stopped() { ask_everything(ctx, w, &e, &r, t, t.len() < 60, sort); }
    });
    ctx.note("odd texts", json!(odd.len()));
    ctx.note("long texts", json!(long.len()));
    ctx.note("texts with many entities", json!(crowded.len()));
}
