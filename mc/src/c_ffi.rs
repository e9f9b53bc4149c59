//! The C interface (C30): every function against the library, and every bounded history of calls against a
//! model of the objects handed out.
use crate::c_core::queries;
use crate::c_models::copy_tree;
use crate::common::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use crate::zipw;
use ffi_utils::{mc as reg, CStringArray, SNIPS_RESULT};
use libc::{c_char, c_uint};
use serde_json::{json, Value};
use snips_nlu_ffi::*;
use snips_nlu_lib::SnipsNluEngine;
use snips_nlu_ontology::*;
use snips_nlu_ontology_ffi_macros::*;
use std::ffi::{CStr, CString};
use std::ptr::{null, null_mut};

const OK: SNIPS_RESULT = SNIPS_RESULT::SNIPS_RESULT_OK;
type Client = *const CSnipsNluEngine;

// ------------------------------------------------------------------------------------------- reading structures
unsafe fn st(p: *const c_char) -> String { CStr::from_ptr(p).to_str().expect("utf8").to_string() }
unsafe fn ost(p: *const c_char) -> Option<String> { if p.is_null() { None } else { Some(st(p)) } }
unsafe fn arr<'a, T>(p: *const T, n: i32) -> &'a [T] { assert!(n >= 0); if n == 0 { &[] } else { std::slice::from_raw_parts(p, n as usize) } }
fn grain(g: i32) -> Grain { [Grain::Year, Grain::Quarter, Grain::Month, Grain::Week, Grain::Day, Grain::Hour, Grain::Minute, Grain::Second][g as usize] }
fn precision(p: i32) -> Precision { [Precision::Approximate, Precision::Exact][p as usize] }
unsafe fn value(v: &CSlotValue) -> SlotValue {
    let t = || StringValue { value: st(v.value as _) };
    match v.value_type {
        1 => SlotValue::Custom(t()),
        2 => SlotValue::Number(NumberValue { value: *(v.value as *const f64) }),
        3 => SlotValue::Ordinal(OrdinalValue { value: *(v.value as *const i64) }),
        4 => { let i = &*(v.value as *const CInstantTimeValue); SlotValue::InstantTime(InstantTimeValue { value: st(i.value), grain: grain(i.grain), precision: precision(i.precision) }) }
        5 => { let i = &*(v.value as *const CTimeIntervalValue); SlotValue::TimeInterval(TimeIntervalValue { from: ost(i.from), to: ost(i.to) }) }
        6 => { let i = &*(v.value as *const CAmountOfMoneyValue); SlotValue::AmountOfMoney(AmountOfMoneyValue { value: i.value, precision: precision(i.precision), unit: ost(i.unit) }) }
        7 => { let i = &*(v.value as *const CTemperatureValue); SlotValue::Temperature(TemperatureValue { value: i.value, unit: ost(i.unit) }) }
        8 => { let d = &*(v.value as *const CDurationValue); SlotValue::Duration(DurationValue { years: d.years, quarters: d.quarters, months: d.months, weeks: d.weeks, days: d.days, hours: d.hours, minutes: d.minutes, seconds: d.seconds, precision: precision(d.precision) }) }
        9 => SlotValue::Percentage(PercentageValue { value: *(v.value as *const f64) }),
        10 => SlotValue::MusicAlbum(t()),
        11 => SlotValue::MusicArtist(t()),
        12 => SlotValue::MusicTrack(t()),
        13 => SlotValue::City(t()),
        14 => SlotValue::Country(t()),
        15 => SlotValue::Region(t()),
        n => panic!("slot value type {}", n),
    }
}
unsafe fn slot(s: &CSlot) -> Slot {
    let a = &*s.alternatives;
    Slot {
        raw_value: st(s.raw_value),
        value: value(&*s.value),
        alternatives: arr(a.slot_values, a.size).iter().map(|v| value(v)).collect(),
        range: s.range_start as usize..s.range_end as usize,
        entity: st(s.entity),
        slot_name: st(s.slot_name),
        confidence_score: if s.confidence_score < 0.0 { None } else { Some(s.confidence_score) },
    }
}
unsafe fn slot_list(l: &CSlotList) -> Vec<Slot> { arr(l.slots, l.size).iter().map(|s| slot(s)).collect() }
unsafe fn intent(i: &CIntentClassifierResult) -> IntentClassifierResult { IntentClassifierResult { intent_name: ost(i.intent_name), confidence_score: i.confidence_score } }
unsafe fn intent_list(l: &CIntentClassifierResultArray) -> Vec<IntentClassifierResult> { arr(l.intent_classifier_results, l.size).iter().map(|i| intent(i)).collect() }
unsafe fn result(r: &CIntentParserResult) -> IntentParserResult {
    let a = &*r.alternatives;
    IntentParserResult {
        input: st(r.input),
        intent: intent(&*r.intent),
        slots: slot_list(&*r.slots),
        alternatives: arr(a.intent_parser_alternatives, a.size).iter().map(|a| IntentParserAlternative { intent: intent(&*a.intent), slots: slot_list(&*a.slots) }).collect(),
    }
}
fn canon<T: serde::Serialize>(t: &T) -> Value { serde_json::from_str(&serde_json::to_string(t).expect("json")).expect("json") }

// ------------------------------------------------------------------------------------------- objects and calls
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Obj { Text(*const c_char), Res(*const CIntentParserResult), Slots(*const CSlotList), Intents(*const CIntentClassifierResultArray) }
impl Obj {
    fn ptr(&self) -> usize { match self { Obj::Text(p) => *p as usize, Obj::Res(p) => *p as usize, Obj::Slots(p) => *p as usize, Obj::Intents(p) => *p as usize } }
    /// what a client reads; text that is JSON is decoded
    fn read(&self) -> Value {
        unsafe {
            match self {
                Obj::Text(p) => { let t = st(*p); serde_json::from_str(&t).unwrap_or_else(|_| json!(t)) }
                Obj::Res(p) => canon(&result(&**p)),
                Obj::Slots(p) => canon(&slot_list(&**p)),
                Obj::Intents(p) => canon(&intent_list(&**p)),
            }
        }
    }
    fn destroy(self) -> SNIPS_RESULT {
        match self {
            Obj::Text(p) => snips_nlu_engine_destroy_string(p as *mut _),
            Obj::Res(p) => snips_nlu_engine_destroy_result(p as *mut _),
            Obj::Slots(p) => snips_nlu_engine_destroy_slots(p as *mut _),
            Obj::Intents(p) => snips_nlu_engine_destroy_intent_classifier_results(p as *mut _),
        }
    }
}
#[derive(Clone, Debug, Hash)]
pub enum Call {
    /// text, filters, alternatives (None: the function without them), as JSON
    Parse(S, Option<Vec<S>>, Option<Vec<S>>, Option<(u32, u32)>, bool),
    Slots(S, S, Option<u32>, bool),
    Intents(S, bool),
}
struct Filter { _v: Vec<CString>, _p: Vec<*const c_char>, a: CStringArray }
fn filter(f: &Option<Vec<S>>) -> Option<Box<Filter>> {
    f.as_ref().map(|f| {
        let v: Vec<CString> = f.iter().map(|x| CString::new(x.as_str()).unwrap()).collect();
        let p: Vec<*const c_char> = v.iter().map(|x| x.as_ptr()).collect();
        let a = CStringArray { data: p.as_ptr(), size: p.len() as i32 };
        Box::new(Filter { _v: v, _p: p, a })
    })
}
fn fptr(f: &Option<Box<Filter>>) -> *const CStringArray { f.as_ref().map(|f| &f.a as *const _).unwrap_or(null()) }
/// where a failing call must not write
const UNTOUCHED: usize = 0xDEAD_BEE8;
fn call(c: Client, q: &Call) -> (SNIPS_RESULT, Option<Obj>) {
    let t = |x: &S| CString::new(x.as_str()).unwrap();
    let mut text = UNTOUCHED as *const c_char;
    let (mut r, mut s, mut i) = (UNTOUCHED as *const CIntentParserResult, UNTOUCHED as *const CSlotList, UNTOUCHED as *const CIntentClassifierResultArray);
    let (code, obj) = match q {
        Call::Parse(x, w, b, alt, js) => {
            let (x, w, b) = (t(x), filter(w), filter(b));
            match (alt, js) {
                (None, false) => (snips_nlu_engine_run_parse(c, x.as_ptr(), fptr(&w), fptr(&b), &mut r), Obj::Res(r)),
                (None, true) => (snips_nlu_engine_run_parse_into_json(c, x.as_ptr(), fptr(&w), fptr(&b), &mut text), Obj::Text(text)),
                (Some((ia, sa)), false) => (snips_nlu_engine_run_parse_with_alternatives(c, x.as_ptr(), fptr(&w), fptr(&b), *ia, *sa, &mut r), Obj::Res(r)),
                (Some((ia, sa)), true) => (snips_nlu_engine_run_parse_with_alternatives_into_json(c, x.as_ptr(), fptr(&w), fptr(&b), *ia, *sa, &mut text), Obj::Text(text)),
            }
        }
        Call::Slots(x, n, alt, js) => {
            let (x, n) = (t(x), t(n));
            match (alt, js) {
                (None, false) => (snips_nlu_engine_run_get_slots(c, x.as_ptr(), n.as_ptr(), &mut s), Obj::Slots(s)),
                (None, true) => (snips_nlu_engine_run_get_slots_into_json(c, x.as_ptr(), n.as_ptr(), &mut text), Obj::Text(text)),
                (Some(sa), false) => (snips_nlu_engine_run_get_slots_with_alternatives(c, x.as_ptr(), n.as_ptr(), *sa, &mut s), Obj::Slots(s)),
                (Some(sa), true) => (snips_nlu_engine_run_get_slots_with_alternatives_into_json(c, x.as_ptr(), n.as_ptr(), *sa, &mut text), Obj::Text(text)),
            }
        }
        Call::Intents(x, false) => { let x = t(x); (snips_nlu_engine_run_get_intents(c, x.as_ptr(), &mut i), Obj::Intents(i)) }
        Call::Intents(x, true) => { let x = t(x); (snips_nlu_engine_run_get_intents_into_json(c, x.as_ptr(), &mut text), Obj::Text(text)) }
    };
    // (the tuples above are evaluated after the calls have written)
    (code, if obj.ptr() == UNTOUCHED { None } else { Some(obj) })
}
/// what the library answers: the data, or the messages of the error
pub fn library(e: &SnipsNluEngine, q: &Call) -> Result<Value, Vec<String>> {
    let r = match q {
        Call::Parse(t, w, b, a, _) => { let (ia, sa) = a.unwrap_or((0, 0)); e.parse_with_alternatives(t, refs(w), refs(b), ia as usize, sa as usize).map(|r| canon(&r)) }
        Call::Slots(t, i, sa, _) => e.get_slots_with_alternatives(t, i, sa.unwrap_or(0) as usize).map(|r| canon(&r)),
        Call::Intents(t, _) => e.get_intents(t).map(|r| canon(&r)),
    };
    r.map_err(|e| e.iter_chain().map(|c| c.to_string()).collect())
}
/// the message of the last error, handed out and given back
fn last_error() -> Result<String, String> {
    let mut p = UNTOUCHED as *const c_char;
    if snips_nlu_engine_get_last_error(&mut p) != OK || p as usize == UNTOUCHED { return Err("no last error".into()); }
    let t = unsafe { st(p) };
    if snips_nlu_engine_destroy_string(p as *mut _) != OK { return Err("the message could not be destroyed".into()); }
    Ok(t)
}
fn create_dir(d: &std::path::Path) -> Client {
    let mut c: Client = null();
    let p = CString::new(d.to_str().unwrap()).unwrap();
    assert!(snips_nlu_engine_create_from_dir(p.as_ptr(), &mut c) == OK && !c.is_null(), "create");
    c
}

/// every kind of value, with and without its optional parts, and alternatives
pub fn values_world() -> Engine {
    let mut e = base("values");
    let g = |k: &str, t: &str, v: Value, alts: Vec<Value>| json!({"kind": k, "text": t, "value": v, "alternatives": alts});
    let num = |v: f64| json!({"kind": "Number", "value": v});
    let inst = |v: &str, g: &str, p: &str| json!({"kind": "InstantTime", "value": v, "grain": g, "precision": p});
    let int = |a: Option<&str>, b: Option<&str>| json!({"kind": "TimeInterval", "from": a, "to": b});
    let money = |v: f64, p: &str, u: Option<&str>| json!({"kind": "AmountOfMoney", "value": v, "precision": p, "unit": u});
    let temp = |v: f64, u: Option<&str>| json!({"kind": "Temperature", "value": v, "unit": u});
    let dur = |n: [i64; 8], p: &str| json!({"kind": "Duration", "years": n[0], "quarters": n[1], "months": n[2], "weeks": n[3], "days": n[4], "hours": n[5], "minutes": n[6], "seconds": n[7], "precision": p});
    let mut rules: Vec<Value> = vec![
        g("snips/number", "vnum", num(2.5), [-1e300, 0.0, 1e-9, 3.0, 4.0, 5.0, 6.0, 7.0].iter().map(|x| num(*x)).collect()),
        g("snips/ordinal", "vord", json!({"kind": "Ordinal", "value": i64::MAX}), vec![json!({"kind": "Ordinal", "value": -3}), json!({"kind": "Ordinal", "value": i64::MIN}), json!({"kind": "Ordinal", "value": 5_000_000_000i64})]),
        g("snips/percentage", "vper", json!({"kind": "Percentage", "value": 12.25}), vec![json!({"kind": "Percentage", "value": 100.0}), json!({"kind": "Percentage", "value": -1e-300}), json!({"kind": "Percentage", "value": 0.1})]),
        g("snips/amountOfMoney", "vmon", money(10.5, "Exact", Some("€")), vec![money(0.0, "Approximate", None)]),
        g("snips/amountOfMoney", "vmonb", money(3.0, "Approximate", None), vec![]),
        g("snips/temperature", "vtem", temp(-40.0, Some("kelvin")), vec![temp(21.5, None)]),
        g("snips/duration", "vdur", dur([1, 2, 3, 4, 5, 6, 7, 8], "Approximate"), vec![dur([-1, 0, 0, 0, 0, 0, 0, 9_000_000_000], "Exact"), dur([11_000_000_001, 12_000_000_002, -13_000_000_003, 14_000_000_004, 15_000_000_005, -16_000_000_006, 17_000_000_007, 18_000_000_008], "Approximate")]),
        g("snips/datetime", "vint", int(Some("a"), Some("b")), vec![int(None, Some("b")), int(Some("a"), None), int(None, None)]),
        g("snips/datetime", "vintb", int(None, None), vec![]),
    ];
    for (i, gr) in ["Year", "Quarter", "Month", "Week", "Day", "Hour", "Minute", "Second"].iter().enumerate() {
        for p in ["Approximate", "Exact"] { rules.push(g("snips/datetime", &format!("vins{}{}", i, &p[..1].to_lowercase()), inst(&format!("2018-é{}", i), gr, p), vec![inst("other", "Year", "Exact")])); }
    }
    e.grammar = rules;
    let kinds = ["snips/city", "snips/country", "snips/region", "snips/musicAlbum", "snips/musicArtist", "snips/musicTrack"];
    e.gaz = kinds.iter().map(|k| { let n = &k[6..]; EntityVals { name: s(k), extensible: true, values: vec![(format!("v{}", n.to_lowercase()), format!("Été {}", n)), (format!("v{}", n.to_lowercase()), format!("b \"{}\"\n", n))].into_iter().chain((0..6).map(|i| (format!("v{}", n.to_lowercase()), format!("{} {}", n, i)))).collect(), threshold: 1.0 } }).collect();
    let mut ents: Vec<&str> = vec!["snips/number", "snips/ordinal", "snips/percentage", "snips/amountOfMoney", "snips/temperature", "snips/duration", "snips/datetime"];
    ents.extend(kinds);
    e.intents = vec![(s("Values"), ents.iter().map(|k| (k[6..].to_string(), s(k))).chain([(s("what"), s("drink"))]).collect()), (s("Été"), vec![(s("where"), s("room"))])];
    e.parsers = vec![(s("lookup_intent_parser"), Parser::Lookup(Lookup {
        intents: ss(&["Values", "Été"]),
        slots: e.intents[0].1.iter().map(|x| x.0.clone()).chain([s("where")]).collect(),
        utterances: e.intents[0].1.iter().enumerate().map(|(i, x)| (format!("say {}", crate::refm::placeholder(&x.1)), 0, vec![i])).chain([(s("say %SNIPSNUMBER% and %DRINK%"), 0, vec![0, ents.len()]), (s("%ROOM%"), 1, vec![ents.len() + 1])]).collect(),
        scopes: vec![(ss(&["Values"]), ents.iter().map(|k| s(k)).collect(), ss(&["drink"])), (ss(&["Été"]), vec![], ss(&["room"]))],
        ignore_sw: false,
        sw_whitelist: vec![],
    }))];
    e
}
pub fn value_texts(e: &Engine) -> Vec<String> {
    let mut v: Vec<String> = e.grammar.iter().map(|g| format!("say {}", g["text"].as_str().unwrap())).collect();
    v.extend(e.gaz.iter().map(|g| format!("say {}", g.values[0].0)));
    v.extend(ss(&["say tea", "SAY Latte", "Say vNum", "say latte", "say vnum and latte", "salon", "été", "say \"tea\"", "say \\ vnum", "日本 \u{1F375}", "say\tvnum", ""]));
    v
}

// ------------------------------------------------------------------------------------------- C30
pub fn c30(ctx: &Ctx) {
    ctx.level("model_checking");
    ctx.rule("a call that fails, has alternatives or slots in its answer, or a history of at least two calls");
    same_data(ctx);
    directory_names(ctx);
    bad_arguments(ctx);
    histories(ctx);
    threads(ctx);
    schedules(ctx);
}
fn same_data(ctx: &Ctx) {
    let mut ws = vec![world(ctx, main_world("DLP", false)), world(ctx, values_world()), world(ctx, main_world("P", false)), world(ctx, main_world("", false))];
    // many intents; hundreds of values of one text; names in any script
    ws.push(world(ctx, tie_world("twenty", "D", &[1; 20])));
    let mut wide = main_world("L", false);
    wide.name = s("wide");
    wide.entities[0].values.extend((0..600).map(|i| (s("latte"), format!("latte {}", i))));
    ws.push(world(ctx, wide));
    ws.push(world(ctx, odd_world("DLP", false)));
    if ctx.thorough { for p in ["D", "L", "PD", "LP"] { ws.push(world(ctx, main_world(p, true))); } ws.extend(crate::c_engine::edge_worlds(ctx)); }
    let counter = std::sync::atomic::AtomicUsize::new(0);
    let parts = 8;
    ctx.par(ws.len() * parts, |j| {
        let w = &ws[j / parts];
        let e = match load(&w.dir) { Ans::Ok(e) => e, a => { ctx.violate("load", json!(a.why())); return } };
        let c = if j % 2 == 0 { create_dir(&w.dir) } else {
            let b = zipw::archive(&zipw::entries(&w.dir, "engine", true, false));
            let mut c: Client = null();
            assert!(snips_nlu_engine_create_from_zip(b.as_ptr(), b.len() as c_uint, &mut c) == OK);
            c
        };
        let mut texts = if w.spec.name == "values" { value_texts(&w.spec) } else if w.spec.name == "wide" { ss(&["make latte", "light latte", "two latte", "latte"]) } else if w.spec.name == "twenty" { ss(&[TIE_TEXT, "go", ""]) } else if w.spec.name.starts_with("odd") { ODD_SENTENCES.iter().map(|x| s(x)).collect() } else { SENTENCES.iter().map(|x| s(x)).collect::<Vec<_>>() };
        if ctx.thorough { texts.extend(texts.clone().iter().flat_map(|t| variants(t))); if w.spec.name != "values" { texts.extend(sequences(&WORDS, 2)); } }
        if w.spec.name.starts_with("main") { texts.extend(vec![format!("make two {}", "é".repeat(2500)), format!("light salon{}", " ".repeat(9000)), format!("{}tonight in paris", "\t".repeat(70000))]); }
        let first = w.spec.intents[0].0.clone();
        let filters = [None, Some(vec![]), Some(vec![first.clone()]), Some(w.spec.intents.iter().map(|i| i.0.clone()).collect()), Some(vec![s("Nope")]), Some(vec![first, s("")])];
        for (ti, t) in texts.iter().enumerate() {
            if ti % parts != j % parts { continue; }
            let mut calls = vec![];
            for js in [false, true] {
                for (a, wl) in filters.iter().enumerate() { for (b, bl) in filters.iter().enumerate() {
                    if a > 1 && b > 1 && a != b { continue; }
                    for alt in [None, Some((0, 0)), Some((1, 2)), Some((9, 0)), Some((256, 300)), Some((65536, 65536)), Some((u32::MAX, u32::MAX))] {
                        if alt.is_some() && (a + b) % 2 == 1 && !ctx.thorough { continue; }
                        calls.push(Call::Parse(t.clone(), wl.clone(), bl.clone(), alt, js));
                    }
                } }
                for i in w.spec.intents.iter().map(|i| i.0.clone()).chain(ss(&["Nope", ""])) { for alt in [None, Some(0), Some(1), Some(2), Some(300), Some(65536), Some(u32::MAX)] { calls.push(Call::Slots(t.clone(), i.clone(), alt, js)); } }
                calls.push(Call::Intents(t.clone(), js));
            }
            for q in &calls {
                if ctx.stopped() { return; }
                counter.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let exp = library(&e, q);
                let (code, obj) = call(c, q);
                let got = obj.map(|o| o.read());
                let case = |why: &str| json!({"engine": w.spec.name, "call": format!("{:?}", q), "code": format!("{:?}", code), "got": got, "library": format!("{:?}", exp), "why": why});
                let bad = |why: &str| ctx.violate(&format!("{} {:?} {}", w.spec.name, q, why), case(why));
                let plain = match (&exp, q) { (Err(_), _) => false, (Ok(v), Call::Slots(..)) => v.as_array().map(|a| a.is_empty()).unwrap_or(true), (Ok(_), Call::Intents(..)) => false, (Ok(v), _) => v["slots"].as_array().map(|a| a.is_empty()).unwrap_or(true) && v["alternatives"].as_array().map(|a| a.is_empty()).unwrap_or(true) };
                ctx.eval(if plain { None } else { Some((&w.spec.name, q)) });
                if !plain { ctx.sample(|| case("")); }
                match &exp {
                    Ok(v) => {
                        if code != OK || obj.is_none() { bad("the call fails"); }
                        else if got.as_ref() != Some(v) { bad("other data"); }
                    }
                    Err(msgs) => {
                        if code == OK { bad("the call succeeds"); }
                        if obj.is_some() { bad("a result was written by a failing call"); continue; }
                        match last_error() { Ok(t) => if msgs.iter().any(|m| !t.contains(m.as_str())) { bad(&format!("message {:?}", t)); }, Err(x) => bad(&x) }
                    }
                }
                if let Some(o) = obj { if o.destroy() != OK { bad("destroying the result fails"); } }
                let b = reg::take_bad();
                if !b.is_empty() { bad(&format!("{:?}", b)); return; }
                let mine = reg::mine();
                if mine.len() != 1 || mc_parts() != 0 { bad(&format!("alive after destruction: {:?}, parts: {}", mine, mc_parts())); return; }
            }
        }
        if snips_nlu_engine_destroy_client(c as *mut _) != OK || !reg::mine().is_empty() { ctx.violate("destroying the client", json!({"alive": reg::mine().len()})); }
    });
    ctx.note("calls compared with the library", json!(counter.into_inner()));
}

/// a directory is the one with that name, whatever the name
fn directory_names(ctx: &Ctx) {
    let w = world(ctx, main_world("DLP", false));
    let other = world(ctx, main_world("D", true));
    let q = Call::Parse(s("make green tea"), None, None, Some((9, 2)), false);
    for n in [" e", "e ", "\te", "e\n", "é", "e\u{301}", "E", "e/", "./e", "e//", "e.", "..e", "%65", "~", "$HOME", "*", "e f", "\\", "'", "\""] {
        ctx.eval(Some(("directory", n)));
        let d = fresh_dir(ctx);
        copy_tree(&other.dir, &d.join(n.trim_matches(|c: char| c.is_whitespace() || c == '/').to_lowercase()));
        let at = d.join(n.trim_start_matches("./").trim_end_matches('/'));
        let _ = std::fs::remove_dir_all(&at);
        copy_tree(&w.dir, &at);
        let p = CString::new(format!("{}/{}", d.display(), n)).unwrap();
        let mut c: Client = null();
        let code = snips_nlu_engine_create_from_dir(p.as_ptr(), &mut c);
        let exp = match load(&w.dir) { Ans::Ok(e) => library(&e, &q), _ => Err(vec![]) };
        if code != OK { ctx.violate(&format!("directory {:?}", n), json!({"name": n, "why": last_error().unwrap_or_default()})); continue; }
        let (code, obj) = call(c, &q);
        let got = obj.map(|o| o.read());
        if code != OK || got.is_none() || got.as_ref() != exp.as_ref().ok() { ctx.violate(&format!("directory {:?}", n), json!({"name": n, "got": got, "library": format!("{:?}", exp)})); }
        if let Some(o) = obj { o.destroy(); }
        snips_nlu_engine_destroy_client(c as *mut _);
        let _ = std::fs::remove_dir_all(&d);
    }
}

/// null pointers, text that is not UTF-8, arrays without data
fn bad_arguments(ctx: &Ctx) {
    let w = world(ctx, main_world("DLP", false));
    let c = create_dir(&w.dir);
    let t = CString::new("make tea").unwrap();
    let make = CString::new("Make").unwrap();
    let odd: Vec<CString> = [&b"make \xff"[..], b"\xc3", b"\xed\xa0\x80", b"tea\xf0\x9f\x8d"].iter().map(|b| CString::new(*b).unwrap()).collect();
    let mut texts: Vec<(&str, *const c_char)> = vec![("null text", null())];
    texts.extend(odd.iter().map(|o| ("text that is not UTF-8", o.as_ptr())));
    let check = |what: &str, code: SNIPS_RESULT, written: bool| {
        ctx.eval(Some(("bad", what)));
        let alive = reg::mine().len();
        let msg = last_error();
        if code == OK || written || msg.as_ref().map(|m| m.is_empty()).unwrap_or(true) || alive != 1 || mc_parts() != 0 || !reg::take_bad().is_empty() {
            ctx.violate(&format!("invalid argument: {}", what), json!({"what": what, "code": format!("{:?}", code), "result written": written, "message": format!("{:?}", msg), "objects alive": alive}));
        }
    };
    macro_rules! attempt { ($what:expr, $t:ty, $r:ident => $e:expr) => {{ let mut $r = UNTOUCHED as *const $t; let code = $e; check(&$what, code, $r as usize != UNTOUCHED); }} }
    let odd_arrays: Vec<(S, Vec<*const c_char>, i32, bool)> = {
        let mut v: Vec<(S, Vec<*const c_char>, i32, bool)> = vec![
            (s("null element"), vec![null()], 1, false), (s("null element after another"), vec![make.as_ptr(), null()], 2, false), (s("negative size"), vec![make.as_ptr()], -1, false), (s("null data"), vec![], 1, true), (s("null data, smallest size"), vec![], i32::MIN, true),
        ];
        for o in &odd { v.push((s("element that is not UTF-8"), vec![o.as_ptr()], 1, false)); v.push((s("last element is not UTF-8"), vec![make.as_ptr(), o.as_ptr()], 2, false)); }
        v
    };
    for client in [c, null()] {
        for (n, x) in std::iter::once(("text", t.as_ptr())).chain(texts.iter().cloned()) {
            let is_bad = client.is_null() || n != "text";
            let what = |f: &str| format!("{}, {} client, {}", f, if client.is_null() { "null" } else { "live" }, n);
            if is_bad {
                attempt!(what("run_parse"), CIntentParserResult, r => snips_nlu_engine_run_parse(client, x, null(), null(), &mut r));
                attempt!(what("run_parse_with_alternatives"), CIntentParserResult, r => snips_nlu_engine_run_parse_with_alternatives(client, x, null(), null(), 1, 1, &mut r));
                attempt!(what("run_parse_into_json"), c_char, r => snips_nlu_engine_run_parse_into_json(client, x, null(), null(), &mut r));
                attempt!(what("run_parse_with_alternatives_into_json"), c_char, r => snips_nlu_engine_run_parse_with_alternatives_into_json(client, x, null(), null(), 1, 1, &mut r));
                attempt!(what("run_get_intents"), CIntentClassifierResultArray, r => snips_nlu_engine_run_get_intents(client, x, &mut r));
                attempt!(what("run_get_intents_into_json"), c_char, r => snips_nlu_engine_run_get_intents_into_json(client, x, &mut r));
            }
            for (m, i) in std::iter::once(("intent", make.as_ptr())).chain(texts.iter().cloned()) {
                if !is_bad && m == "intent" { continue; }
                let what = |f: &str| format!("{} for intent {}", what(f), m);
                attempt!(what("run_get_slots"), CSlotList, r => snips_nlu_engine_run_get_slots(client, x, i, &mut r));
                attempt!(what("run_get_slots_with_alternatives"), CSlotList, r => snips_nlu_engine_run_get_slots_with_alternatives(client, x, i, 1, &mut r));
                attempt!(what("run_get_slots_into_json"), c_char, r => snips_nlu_engine_run_get_slots_into_json(client, x, i, &mut r));
                attempt!(what("run_get_slots_with_alternatives_into_json"), c_char, r => snips_nlu_engine_run_get_slots_with_alternatives_into_json(client, x, i, 1, &mut r));
            }
        }
    }
    for (n, v, size, nodata) in &odd_arrays {
        let a = CStringArray { data: if *nodata { null() } else { v.as_ptr() }, size: *size };
        for pos in 0..2 {
            let (wl, bl): (*const CStringArray, *const CStringArray) = if pos == 0 { (&a, null()) } else { (null(), &a) };
            let what = |f: &str| format!("{}, {} {}", f, ["whitelist", "blacklist"][pos], n);
            attempt!(what("run_parse"), CIntentParserResult, r => snips_nlu_engine_run_parse(c, t.as_ptr(), wl, bl, &mut r));
            attempt!(what("run_parse_with_alternatives"), CIntentParserResult, r => snips_nlu_engine_run_parse_with_alternatives(c, t.as_ptr(), wl, bl, 1, 1, &mut r));
            attempt!(what("run_parse_into_json"), c_char, r => snips_nlu_engine_run_parse_into_json(c, t.as_ptr(), wl, bl, &mut r));
            attempt!(what("run_parse_with_alternatives_into_json"), c_char, r => snips_nlu_engine_run_parse_with_alternatives_into_json(c, t.as_ptr(), wl, bl, 1, 1, &mut r));
        }
    }
    // an empty array is an empty list, whatever its data
    for a in [CStringArray { data: null(), size: 0 }, CStringArray { data: odd.as_ptr() as *const _, size: 0 }] {
        for pos in 0..2 {
            let (wl, bl): (*const CStringArray, *const CStringArray) = if pos == 0 { (&a, null()) } else { (null(), &a) };
            let mut r = UNTOUCHED as *const c_char;
            let code = snips_nlu_engine_run_parse_into_json(c, t.as_ptr(), wl, bl, &mut r);
            ctx.eval(Some(("empty", a.data.is_null(), pos)));
            let e = match load(&w.dir) { Ans::Ok(e) => e, _ => return };
            let none: Option<Vec<S>> = None;
            let some = Some(vec![]);
            let exp = library(&e, &Call::Parse(s("make tea"), if pos == 0 { some.clone() } else { none.clone() }, if pos == 0 { none } else { some }, None, true));
            let got = if code == OK { Some(Obj::Text(r).read()) } else { None };
            if got.as_ref() != exp.as_ref().ok() { ctx.violate(&format!("empty array {}", pos), json!({"null data": a.data.is_null(), "got": got, "library": format!("{:?}", exp)})); }
            if code == OK { Obj::Text(r).destroy(); }
        }
    }
    // creation
    let missing = CString::new(format!("{}/missing", w.dir.display())).unwrap();
    for (n, p) in texts.iter().cloned().chain([("missing directory", missing.as_ptr())]) {
        attempt!(format!("create_from_dir {}", n), CSnipsNluEngine, r => snips_nlu_engine_create_from_dir(p, &mut r));
    }
    let b = zipw::archive(&zipw::entries(&w.dir, "engine", true, false));
    attempt!("create_from_zip of nothing", CSnipsNluEngine, r => snips_nlu_engine_create_from_zip(b.as_ptr(), 0, &mut r));
    for n in [1, 10, b.len() / 2, b.len() - 1] { attempt!(format!("create_from_zip of the first {} bytes", n), CSnipsNluEngine, r => snips_nlu_engine_create_from_zip(b.as_ptr(), n as c_uint, &mut r)); }
    for n in [0u32, 10] { attempt!(format!("create_from_zip of null, size {}", n), CSnipsNluEngine, r => snips_nlu_engine_create_from_zip(null(), n, &mut r)); }
    // destroying nothing
    check("destroy_string null", snips_nlu_engine_destroy_string(null_mut()), false);
    check("destroy_client null", snips_nlu_engine_destroy_client(null_mut()), false);
    check("destroy_result null", snips_nlu_engine_destroy_result(null_mut()), false);
    check("destroy_slots null", snips_nlu_engine_destroy_slots(null_mut()), false);
    check("destroy_intent_classifier_results null", snips_nlu_engine_destroy_intent_classifier_results(null_mut()), false);
    let mut v = UNTOUCHED as *const c_char;
    if snips_nlu_engine_get_model_version(&mut v) != OK || unsafe { st(v) } != snips_nlu_lib::MODEL_VERSION { ctx.violate("model version", json!({})); } else { Obj::Text(v).destroy(); }
    // the client is still usable
    let e = match load(&w.dir) { Ans::Ok(e) => e, _ => return };
    let q = Call::Parse(s("make tea"), None, None, Some((2, 2)), false);
    let (code, o) = call(c, &q);
    if code != OK || o.map(|o| o.read()) != library(&e, &q).ok() { ctx.violate("a query after invalid arguments", json!({"code": format!("{:?}", code)})); }
    if let Some(o) = o { o.destroy(); }
    snips_nlu_engine_destroy_client(c as *mut _);
    if !reg::mine().is_empty() || mc_parts() != 0 { ctx.violate("objects alive after everything was destroyed", json!({"objects": reg::mine().len(), "parts": mc_parts()})); }
}

// ------------------------------------------------------------------------------------------- histories
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op { Dir, Zip, Missing, Query(usize), LastError, Version, DestroyOldest, DestroyNewest, DestroyEngine }
pub fn history_calls() -> Vec<Call> {
    vec![
        Call::Parse(s("make two latte"), None, Some(ss(&["Hello"])), Some((2, 2)), false),
        Call::Parse(s("tonight in paris"), Some(ss(&["When"])), None, None, true),
        Call::Parse(s("tea"), Some(ss(&["Nope"])), None, None, false),
        Call::Slots(s("make chai"), s("Make"), Some(1), false),
        Call::Slots(s("salon"), s("Light"), Some(3), true),
        Call::Slots(s("salon"), s("Nope"), None, false),
        Call::Intents(s("green tea"), false),
        Call::Intents(s("hello"), true),
    ]
}
fn histories(ctx: &Ctx) {
    let w = world(ctx, main_world("DLP", false));
    let e = match load(&w.dir) { Ans::Ok(e) => e, _ => return };
    let calls = history_calls();
    let answers: Vec<Result<Value, Vec<String>>> = calls.iter().map(|q| library(&e, q)).collect();
    let archive = zipw::archive(&zipw::entries(&w.dir, "engine", true, false));
    let missing = CString::new(format!("{}/missing", w.dir.display())).unwrap();
    let mut ops = vec![Op::Dir, Op::Zip, Op::Missing, Op::LastError, Op::Version, Op::DestroyOldest, Op::DestroyNewest, Op::DestroyEngine];
    ops.extend((0..calls.len()).map(Op::Query));
    let depth = if ctx.thorough { 5 } else { 4 };
    // enabled sequences of the model: (engines, objects)
    let mut seqs: Vec<(Vec<Op>, usize, usize)> = vec![(vec![], 0, 0)];
    let mut all: Vec<Vec<Op>> = vec![];
    for _ in 0..depth {
        let mut next = vec![];
        for (h, en, ob) in &seqs {
            for op in &ops {
                let fails = |i: usize| answers[i].is_err();
                let (en2, ob2) = match op {
                    Op::Dir | Op::Zip => (en + 1, *ob),
                    Op::Missing => (*en, *ob),
                    Op::Query(i) => { if *en == 0 { continue; } (*en, ob + if fails(*i) { 0 } else { 1 }) }
                    Op::LastError | Op::Version => (*en, ob + 1),
                    Op::DestroyOldest => { if *ob == 0 { continue; } (*en, ob - 1) }
                    Op::DestroyNewest => { if *ob < 2 { continue; } (*en, ob - 1) }
                    Op::DestroyEngine => { if *en == 0 { continue; } (en - 1, *ob) }
                };
                let mut x = h.clone();
                x.push(*op);
                next.push((x, en2, ob2));
            }
        }
        seqs = next;
    }
    all.extend(seqs.into_iter().map(|x| x.0));
    ctx.par(64, |j| {
        for (k, h) in all.iter().enumerate() {
            if k % 64 != j { continue; }
            if ctx.stopped() { return; }
            let mut engines: Vec<Client> = vec![];
            let mut objs: Vec<(Obj, Value)> = vec![];
            let mut error: Option<Vec<String>> = None;
            let bad = |why: &str, at: usize| ctx.violate(&format!("history {:?} {}", h, why), json!({"history": format!("{:?}", h), "at": at, "why": why, "calls": format!("{:?}", calls)}));
            let mut ok = true;
            for (at, op) in h.iter().enumerate() {
                let before = reg::mine().len();
                match op {
                    Op::Dir => engines.push(create_dir(&w.dir)),
                    Op::Zip => { let mut c: Client = null(); if snips_nlu_engine_create_from_zip(archive.as_ptr(), archive.len() as c_uint, &mut c) != OK { bad("creation from an archive fails", at); return; } engines.push(c); }
                    Op::Missing => {
                        let mut c = UNTOUCHED as Client;
                        if snips_nlu_engine_create_from_dir(missing.as_ptr(), &mut c) == OK || c as usize != UNTOUCHED { bad("creation from a missing directory succeeds", at); ok = false; }
                        error = Some(vec![]);
                    }
                    Op::Query(i) => {
                        let (code, o) = call(*engines.last().unwrap(), &calls[*i]);
                        match (&answers[*i], o) {
                            (Ok(v), Some(o)) if code == OK => { if o.read() != *v { bad("other data", at); ok = false; } objs.push((o, v.clone())); }
                            (Err(m), None) if code != OK => error = Some(m.clone()),
                            _ => { bad("the outcome differs from the library", at); ok = false; }
                        }
                    }
                    Op::LastError => {
                        let mut p = UNTOUCHED as *const c_char;
                        if snips_nlu_engine_get_last_error(&mut p) != OK || p as usize == UNTOUCHED { bad("no last error", at); return; }
                        let t = unsafe { st(p) };
                        if let Some(m) = &error { if t.is_empty() || m.iter().any(|m| !t.contains(m.as_str())) { bad(&format!("last error {:?} instead of {:?}", t, m), at); ok = false; } }
                        let o = Obj::Text(p);
                        objs.push((o, o.read()));
                    }
                    Op::Version => { let mut p = UNTOUCHED as *const c_char; if snips_nlu_engine_get_model_version(&mut p) != OK { bad("no version", at); return; } let o = Obj::Text(p); objs.push((o, serde_json::from_str(snips_nlu_lib::MODEL_VERSION).unwrap_or(json!(snips_nlu_lib::MODEL_VERSION)))); }
                    Op::DestroyOldest => { let (o, _) = objs.remove(0); if o.destroy() != OK { bad("an object is not destroyed", at); ok = false; } }
                    Op::DestroyNewest => { let (o, _) = objs.pop().unwrap(); if o.destroy() != OK { bad("an object is not destroyed", at); ok = false; } }
                    Op::DestroyEngine => { let c = engines.remove(0); if snips_nlu_engine_destroy_client(c as *mut _) != OK { bad("a client is not destroyed", at); ok = false; } }
                }
                ctx.transition(1);
                let _ = before;
                // the objects alive are those of the model, and read as when they were handed out
                let b = reg::take_bad();
                if !b.is_empty() { bad(&format!("{:?}", b), at); return; }
                let mut want: Vec<usize> = engines.iter().map(|c| *c as usize).chain(objs.iter().map(|o| o.0.ptr())).collect();
                let mut have: Vec<usize> = reg::mine().iter().map(|x| x.0).collect();
                want.sort(); have.sort();
                if want != have { bad(&format!("{} objects alive, {} handed out and not destroyed", have.len(), want.len()), at); return; }
                if objs.is_empty() && mc_parts() != 0 { bad("parts of destroyed objects are alive", at); return; }
                if objs.iter().any(|(o, v)| o.read() != *v) { bad("an object changed after it was handed out", at); ok = false; }
                ctx.state((engines.len(), objs.iter().map(|o| std::mem::discriminant(&o.0)).collect::<Vec<_>>(), &error));
                if !ok { return; }
            }
            ctx.trace(1);
            ctx.eval(if h.len() > 1 { Some(("history", h)) } else { None });
            for (o, _) in objs { o.destroy(); }
            for c in engines { snips_nlu_engine_destroy_client(c as *mut _); }
            if !reg::mine().is_empty() || mc_parts() != 0 { bad("objects alive after everything was destroyed", h.len()); return; }
        }
    });
    ctx.note("histories", json!(all.len()));
    ctx.note("history depth", json!(depth));
}

/// the message of the last error belongs to the thread on which it happened
fn threads(ctx: &Ctx) {
    let w = world(ctx, main_world("DLP", false));
    let c = create_dir(&w.dir) as usize;
    let fails = [Call::Slots(s("tea"), s("NopeA"), None, false), Call::Parse(s("tea"), Some(ss(&["NopeB"])), None, None, true), Call::Slots(s("tea"), s("NopeC"), Some(1), true)];
    let names = ["NopeA", "NopeB", "NopeC"];
    let ok = Call::Intents(s("tea"), true);
    // steps: (thread, what): 0..3 failing calls, 3 a successful one, 4 the last error
    let steps: Vec<(usize, usize)> = (0..2).flat_map(|t| (0..5).map(move |k| (t, k))).collect();
    let depth = if ctx.thorough { 4 } else { 3 };
    let mut seqs: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for _ in 0..depth { seqs = seqs.iter().flat_map(|h| steps.iter().map(move |x| { let mut y = h.clone(); y.push(*x); y })).collect(); }
    ctx.par(8, |j| {
        for (k, h) in seqs.iter().enumerate() {
            if k % 8 != j || ctx.stopped() { continue; }
            // each thread reads its last error at the end
            let full: Vec<(usize, usize)> = h.iter().cloned().chain([(0, 4), (1, 4)]).collect();
            let (mut tx, mut back, mut joins) = (vec![], vec![], vec![]);
            for _ in 0..2 {
                let (a, b) = std::sync::mpsc::channel::<usize>();
                let (x, y) = std::sync::mpsc::channel::<Option<String>>();
                let (fails, ok) = (fails.clone(), ok.clone());
                joins.push(std::thread::spawn(move || for k in b {
                    let r = match k {
                        0..=2 => { call(c as Client, &fails[k]); None }
                        3 => { if let (_, Some(o)) = call(c as Client, &ok) { o.destroy(); } None }
                        _ => last_error().ok(),
                    };
                    x.send(r).unwrap();
                }));
                tx.push(a);
                back.push(y);
            }
            let mut model: [Option<usize>; 2] = [None, None];
            for (t, k) in &full {
                tx[*t].send(*k).unwrap();
                let r = back[*t].recv().unwrap_or(None);
                match k {
                    0..=2 => model[*t] = Some(*k),
                    4 => if let Some(m) = model[*t] { if !r.as_ref().map(|r| r.contains(names[m])).unwrap_or(false) {
                        ctx.violate(&format!("last error of a thread {:?}", h), json!({"steps (thread, call)": full, "thread": t, "expected": names[m], "got": r}));
                        break;
                    } },
                    _ => {}
                }
            }
            drop(tx);
            for x in joins { let _ = x.join(); }
            ctx.eval(Some(("threads", h)));
            ctx.trace(1);
        }
    });
    snips_nlu_engine_destroy_client(c as *mut CSnipsNluEngine);
    ctx.note("interleavings of the errors of two threads", json!(seqs.len()));
}

/// one client used by two threads, every schedule within the preemption bound
fn schedules(ctx: &Ctx) {
    let w = world(ctx, main_world("DLP", false));
    let e = match load(&w.dir) { Ans::Ok(e) => e, _ => return };
    let calls = history_calls();
    let programs: Vec<Vec<Vec<usize>>> = vec![vec![vec![0], vec![3]], vec![vec![2, 1], vec![6, 5]], vec![vec![7], vec![0]], vec![vec![3, 4], vec![5, 3]]];
    let bound = if ctx.thorough { 3 } else { 2 };
    let limit = if ctx.thorough { 20_000 } else { 3_000 };
    let count = std::sync::atomic::AtomicUsize::new(0);
    ctx.par(programs.len(), |j| {
        let prog = &programs[j];
        let alone: Vec<Vec<Result<Value, Vec<String>>>> = prog.iter().map(|p| p.iter().map(|i| library(&e, &calls[*i])).collect()).collect();
        let mut ex = mc_env::sched::Explorer::new();
        let mut n = 0;
        while let Some(prefix) = ex.prefix.clone() {
            if ctx.stopped() { return; }
            let c = create_dir(&w.dir) as usize;
            let out: std::sync::Arc<std::sync::Mutex<Vec<Vec<(Option<Value>, Option<String>)>>>> = std::sync::Arc::new(std::sync::Mutex::new(vec![vec![]; prog.len()]));
            let bodies: Vec<mc_env::sched::Body> = prog.iter().enumerate().map(|(k, p)| {
                let (p, calls, out) = (p.clone(), calls.clone(), out.clone());
                let b: mc_env::sched::Body = Box::new(move || for i in p {
                    let (code, o) = call(c as Client, &calls[i]);
                    let v = o.map(|o| { let v = o.read(); o.destroy(); v });
                    let m = if code == OK { None } else { last_error().ok() };
                    out.lock().unwrap()[k].push((v, m));
                });
                b
            }).collect();
            let o = mc_env::sched::run(&prefix, bound, bodies);
            n += 1;
            ctx.eval(if o.decisions.iter().any(|d| d.1 > 0) { Some(("schedule", j, &prefix)) } else { None });
            let got = out.lock().unwrap().clone();
            let case = || json!({"threads": format!("{:?}", prog), "calls": format!("{:?}", calls), "schedule": prefix, "got": got});
            if o.aborted.is_some() || !o.panics.is_empty() { ctx.violate(&format!("schedule {:?}", prog), json!({"aborted": o.aborted, "panics": o.panics, "case": case()})); return; }
            for k in 0..prog.len() { for (i, a) in alone[k].iter().enumerate() {
                let fine = match (a, got[k].get(i)) { (Ok(v), Some((Some(g), None))) => v == g, (Err(m), Some((None, Some(t)))) => m.iter().all(|x| t.contains(x.as_str())), _ => false };
                if !fine { ctx.violate(&format!("schedule {:?}", prog), json!({"thread": k, "call": i, "alone": format!("{:?}", a), "case": case()})); return; }
            } }
            snips_nlu_engine_destroy_client(c as *mut CSnipsNluEngine);
            let b = reg::take_bad();
            if !b.is_empty() { ctx.violate(&format!("schedule {:?}", prog), json!({"bad": b, "case": case()})); return; }
            ex.advance(&o.decisions);
            if n >= limit { break; }
        }
        count.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    });
    ctx.note("schedules of two threads on one client", json!(count.into_inner()));
    ctx.note("preemption bound", json!(bound));
    let _ = queries;
}
