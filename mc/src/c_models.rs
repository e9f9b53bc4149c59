//! Model files: their fields, their version, and damage to them.
use crate::c_core::{queries, run, Q};
use crate::c_crf::{feature_kinds, rich};
use crate::c_parsers::*;
use crate::common::*;
use crate::refm::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use serde_json::{json, Map, Value};
use snips_nlu_lib::{load_shared_resources, CRFSlotFiller, DeterministicIntentParser, IntentParser, LogRegIntentClassifier, LookupIntentParser, ProbabilisticIntentParser, SharedResources};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ------------------------------------------------------------------------------------------- trees of files
pub fn copy_tree(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let t = to.join(e.file_name());
        if e.path().is_dir() { copy_tree(&e.path(), &t) } else { std::fs::copy(e.path(), &t).unwrap(); }
    }
}
/// every file (with its bytes) and directory (with none) below `dir`
pub fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    fn go(root: &Path, d: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let rel = e.path().strip_prefix(root).unwrap().to_path_buf();
            let link = std::fs::symlink_metadata(e.path()).map(|m| m.file_type().is_symlink()).unwrap_or(false);
            if link { out.insert(rel, std::fs::read_link(e.path()).ok().map(|p| format!("-> {}", p.display()).into_bytes())); continue; }
            if e.path().is_dir() { out.insert(rel, None); go(root, &e.path(), out); } else { out.insert(rel, std::fs::read(e.path()).ok()); }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, dir, &mut out);
    out
}
pub fn files_of(dir: &Path) -> Vec<PathBuf> { snapshot(dir).into_iter().filter(|x| x.1.is_some()).map(|x| x.0).collect() }
pub fn read_json(p: &Path) -> Value { serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap() }
/// what differs between two snapshots
pub fn differences(a: &BTreeMap<PathBuf, Option<Vec<u8>>>, b: &BTreeMap<PathBuf, Option<Vec<u8>>>) -> Vec<String> {
    let keys: BTreeSet<&PathBuf> = a.keys().chain(b.keys()).collect();
    keys.into_iter().filter(|k| a.get(*k) != b.get(*k)).map(|k| format!("{} {}", match (a.get(k), b.get(k)) { (None, _) => "new", (_, None) => "gone", _ => "changed" }, k.display())).collect()
}

// ------------------------------------------------------------------------------------------- behaviour of a directory
/// the world in which every field of every file has an effect
pub fn full() -> Engine {
    let mut e = with(rich(), "LDP", true);
    e.name = s("full");
    for (_, p) in e.parsers.iter_mut() {
        if let Parser::Lookup(l) = p { l.sw_whitelist = vec![(s("When"), ss(&["the"]))]; }
        if let Parser::Prob(p) = p {
            let f = p.feat.as_mut().unwrap();
            f.stemming = true;
            f.clusters = Some(s("brown"));
            f.vocab[10] = s("0010");
            let c = f.cooc.as_mut().unwrap();
            c.unknown = Some(s("xx"));
            let offs: [&[i32]; 3] = [&[0], &[-1, 1], &[2, 0]];
            let filler = &mut p.fillers[0].1;
            filler.features.extend(feature_kinds().iter().enumerate().map(|(i, (n, a))| fac(n, a.clone(), offs[i % 3])));
        }
    }
    e
}
/// as `full`, without any use of linguistic resources
pub fn lean() -> Engine {
    let mut e = with(rich(), "LDP", true);
    e.name = s("lean");
    e
}
pub const TEXTS: [&str; 22] = [
    "make two tea", "make the green teas", "tea room", "light the salon", "Lights, salon!", "two", "tonight in the paris", "hello the", "the made tea and chai", "", "make three chai xx latte", "make %DRINK%", "New York 12", "bed", "xx nothing here", "hello", "three tea room", "two xx yy zz the salon", "three a the in salon", "make xx yy a the tea", "tea and chai", "in paris tonight",
];
pub fn shared(dir: &Path, lang: &str) -> Ans<Arc<SharedResources>> {
    let m = read_json(&dir.join("nlu_engine.json"));
    let n = |k: &str| dir.join(m[k].as_str().unwrap_or("?"));
    ask(|| s("load shared resources"), || load_shared_resources(dir.join("resources").join(lang), n("builtin_entity_parser"), n("custom_entity_parser")))
}
pub struct Parts { pub parsers: Vec<(String, Box<dyn IntentParser>)>, pub classifier: Option<LogRegIntentClassifier>, pub fillers: Vec<(String, CRFSlotFiller)> }
/// loads every processing unit of an engine directory on its own
pub fn parts(dir: &Path, lang: &str) -> Result<Parts, String> {
    fn get<T>(what: &str, a: Ans<T>) -> Result<T, String> { match a { Ans::Ok(t) => Ok(t), x => Err(format!("{}: {}", what, x.why())) } }
    let sh = get("shared resources", shared(dir, lang))?;
    let m = read_json(&dir.join("nlu_engine.json"));
    let mut out = Parts { parsers: vec![], classifier: None, fillers: vec![] };
    for n in m["intent_parsers"].as_array().into_iter().flatten() {
        let name = n.as_str().unwrap_or("?").to_string();
        let d = dir.join(&name);
        let kind = read_json(&d.join("metadata.json"))["unit_name"].as_str().unwrap_or("?").to_string();
        let p: Box<dyn IntentParser> = match kind.as_str() {
            "deterministic_intent_parser" => Box::new(get("pattern parser", ask(|| s("load parser"), || DeterministicIntentParser::from_path(&d, sh.clone())))?),
            "lookup_intent_parser" => Box::new(get("lookup parser", ask(|| s("load parser"), || LookupIntentParser::from_path(&d, sh.clone())))?),
            _ => {
                out.classifier = Some(get("classifier", ask(|| s("load classifier"), || LogRegIntentClassifier::from_path(d.join("intent_classifier"), sh.clone())))?);
                let pm = read_json(&d.join("intent_parser.json"));
                for f in pm["slot_fillers"].as_array().into_iter().flatten() {
                    out.fillers.push((f["intent"].as_str().unwrap_or("?").to_string(), get("slot filler", ask(|| s("load slot filler"), || CRFSlotFiller::from_path(d.join(f["slot_filler_name"].as_str().unwrap_or("?")), sh.clone())))?));
                }
                Box::new(get("probabilistic parser", ask(|| s("load parser"), || ProbabilisticIntentParser::from_path(&d, sh.clone())))?)
            }
        };
        out.parsers.push((name, p));
    }
    Ok(out)
}
/// intents of equal scores in the order of their names
fn canonical(mut v: Value) -> Value {
    let key = |x: &Value| { let i = if x["intent"].is_object() { &x["intent"] } else { x }; (-(i["confidenceScore"].as_f64().unwrap_or(0.0) * 1e6).round() as i64, i["intentName"].to_string()) };
    match &mut v {
        Value::Array(a) => {
            for x in a.iter_mut() { *x = canonical(x.take()); }
            if a.len() > 1 && a.iter().all(|x| x["intent"]["confidenceScore"].is_number() || (x.get("intentName").is_some() && x["confidenceScore"].is_number())) { a.sort_by_key(key); }
        }
        Value::Object(m) => for x in m.values_mut() { *x = canonical(x.take()); },
        _ => {}
    }
    v
}
/// everything observable of an engine directory; Err when it does not load
pub fn behaviour(spec: &Engine, dir: &Path, texts: &[&str]) -> Result<Value, String> {
    let e = match load(dir) { Ans::Ok(e) => e, x => return Err(x.why()) };
    let p = parts(dir, &spec.lang)?;
    let names: Vec<S> = spec.intents.iter().map(|i| i.0.clone()).collect();
    let mut v = vec![];
    for t in texts {
        for q in queries(spec, t) {
            let q = match q { Q::Parse(t, w, b, n, s) if n > 0 => Q::Parse(t, w, b, 9, s), q => q };
            v.push(canonical(run(&e, &q)));
        }
        for (_, x) in &p.parsers {
            let mut r = p_intents(&**x, t);
            if let Ans::Ok(l) = &mut r { l.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap().then_with(|| a.0.cmp(&b.0))); }
            v.push(json!(format!("{:?} {:?}", p_parse(&**x, t, &None), r)));
            for n in &names { v.push(json!(format!("{:?}", p_slots(&**x, t, n)))); }
        }
        if let Some(c) = &p.classifier { v.push(json!(format!("{:?}", ask(|| s("features"), || c.compute_features(t).map(|a| a.to_vec()))))); }
        for (n, f) in &p.fillers { v.push(json!(format!("{} {:?}", n, ask(|| s("features"), || f.compute_features(t))))); }
    }
    Ok(json!(v))
}
pub fn first_difference(a: &Result<Value, String>, b: &Result<Value, String>) -> Value {
    let (a, b) = (a.clone().unwrap_or(Value::Null), b.clone().unwrap_or(Value::Null));
    let e = vec![];
    a.as_array().unwrap_or(&e).iter().zip(b.as_array().unwrap_or(&e)).find(|(x, y)| x != y).map(|(x, y)| json!([x, y])).unwrap_or(Value::Null)
}
/// compares everything observable with the reference engine
pub fn agrees(spec: &Engine, dir: &Path, texts: &[&str]) -> Result<(), String> {
    let e = match load(dir) { Ans::Ok(e) => e, x => return Err(format!("load {}", x.why())) };
    let p = parts(dir, &spec.lang)?;
    let r = Ref::new(spec, dir);
    let names: Vec<S> = spec.intents.iter().map(|i| i.0.clone()).collect();
    let fail = |t: &str, what: &str, why: String| Err(format!("{:?} {}: {}", t, what, why));
    for t in texts {
        let tops = r.parse(t, None);
        let got = parse(&e, t, &None, &None, 0, 3);
        if let Err(w) = top_ok(&r, t, &tops, &got, 3) { return fail(t, "parse", format!("{} got {}", w, ansjs(&got))); }
        let exp = r.get_intents(t);
        match intents(&e, t) {
            Ans::Ok(g) => {
                let m: BTreeMap<Option<String>, f64> = g.iter().map(|i| (i.intent_name.clone(), i.confidence_score as f64)).collect();
                if m.len() != exp.len() || exp.iter().any(|(k, v)| m.get(k).map(|x| (x - v).abs() < TOL) != Some(true)) { return fail(t, "get_intents", format!("expected {:?} got {:?}", exp, m)); }
            }
            x => return fail(t, "get_intents", x.why()),
        }
        for n in &names {
            let exp = r.get_slots(t, n);
            let got = slots(&e, t, n, 3);
            let ok = match (&exp, &got) { (Err(()), Ans::Err(_)) => true, (Ok(l), Ans::Ok(g)) => r.slots_ok(t, l, 3, g), _ => false };
            if !ok { return fail(t, &format!("get_slots {}", n), format!("expected {:?} got {}", exp, ansjs(&got))); }
        }
        for ((name, x), (_, ps)) in p.parsers.iter().zip(&spec.parsers) {
            let tops = r.parser_parse(ps, t, None);
            let got = p_parse(&**x, t, &None);
            match (&tops, &got) {
                (Err(()), Ans::Err(_)) => {}
                (Ok(tops), got) => if let Err(w) = p_ok(tops, got) { return fail(t, &format!("{} parse", name), format!("{} got {:?}", w, got)); },
                _ => return fail(t, &format!("{} parse", name), format!("expected {:?} got {:?}", tops, got)),
            }
            let got = p_intents(&**x, t);
            if let Err(w) = ranking_same(&r.parser_intents(ps, t), &got) { return fail(t, &format!("{} get_intents", name), format!("{} got {:?}", w, got)); }
            for n in &names {
                let exp = r.parser_slots(ps, t, n);
                let got = p_slots(&**x, t, n);
                let ok = match (&exp, &got) { (Err(()), Ans::Err(_)) => true, (Ok(l), Ans::Ok(g)) => l.contains(g), _ => false };
                if !ok { return fail(t, &format!("{} get_slots {}", name, n), format!("expected {:?} got {:?}", exp, got)); }
            }
            if let Parser::Prob(ps) = ps {
                if let (Some(c), Some(f)) = (&p.classifier, &ps.feat) {
                    let got = ask(|| s("features"), || c.compute_features(t).map(|a| a.to_vec()));
                    let exp = r.features(f, t);
                    let fine = got.ok().map(|g| g.len() == exp.len() && g.iter().zip(&exp).all(|(a, b)| (*a as f64 - b).abs() < 1e-5)).unwrap_or(false);
                    if !fine { return fail(t, "features", format!("expected {:?} got {:?}", exp, got)); }
                }
                for ((n, f), (_, fs)) in p.fillers.iter().zip(&ps.fillers) {
                    if fs.crf.is_none() { continue; }
                    let got = ask(|| s("features"), || f.compute_features(t));
                    let mut exp = r.attributes(fs, t);
                    for x in exp.iter_mut() { x.sort(); }
                    let sorted: Option<Vec<Vec<(String, String)>>> = got.ok().map(|v| v.iter().map(|a| { let mut a = a.clone(); a.sort(); a }).collect());
                    if sorted.as_ref() != Some(&exp) { return fail(t, &format!("slot features of {}", n), format!("expected {:?} got {:?}", exp, got)); }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- C20
#[derive(Clone, Debug)]
enum Ty { Str, Bool, U8, Usize, I32, F32, Opt(Box<Ty>), Arr(Box<Ty>), Map(Box<Ty>), IntMap(&'static str, Box<Ty>), Tup(Vec<Ty>), Struct(Vec<(&'static str, Ty, Pres)>), Args }
#[derive(Clone, Debug)]
enum Pres {
    Req,
    /// absent is null
    Opt,
    /// absent is this value; null is refused
    Default(Value),
    /// absent is null, or refused
    Nullable,
}
use Pres::{Nullable, Req};
fn arr(t: Ty) -> Ty { Ty::Arr(Box::new(t)) }
fn omap(t: Ty) -> Ty { Ty::Map(Box::new(t)) }
fn opt(t: Ty) -> Ty { Ty::Opt(Box::new(t)) }
fn st(f: Vec<(&'static str, Ty, Pres)>) -> Ty { Ty::Struct(f) }
/// the documented files of an engine directory and what they contain
fn schemas(dir: &Path) -> Vec<(PathBuf, Ty)> {
    use Ty::*;
    let unit = || st(vec![("unit_name", Str, Req)]);
    let sw = || Pres::Default(json!(false));
    let vec_model = |extra: Vec<(&'static str, Ty, Pres)>, config: Ty| { let mut v = vec![("language_code", Str, Req), ("builtin_entity_scope", arr(Str), Req), ("config", config, Req)]; v.extend(extra); st(v) };
    let mut v = vec![
        (PathBuf::from("nlu_engine.json"), st(vec![
            ("dataset_metadata", st(vec![("language_code", Str, Req), ("entities", omap(st(vec![("automatically_extensible", Bool, Req)])), Req), ("slot_name_mappings", omap(omap(Str)), Req)]), Req),
            ("intent_parsers", arr(Str), Req), ("model_version", Str, Req), ("training_package_version", Str, Req), ("builtin_entity_parser", Str, Req), ("custom_entity_parser", Str, Req),
        ])),
        (PathBuf::from("resources/en/metadata.json"), st(vec![("language", Str, Req), ("gazetteers", opt(arr(Str)), Pres::Opt), ("word_clusters", opt(arr(Str)), Pres::Opt), ("stems", opt(Str), Pres::Opt), ("stop_words", opt(Str), Pres::Opt)])),
        (PathBuf::from("custom_entity_parser/metadata.json"), st(vec![("language", Str, Req), ("parser_directory", Str, Req), ("parser_usage", U8, Req)])),
        (PathBuf::from("deterministic_intent_parser/metadata.json"), unit()),
        (PathBuf::from("deterministic_intent_parser/intent_parser.json"), st(vec![
            ("language_code", Str, Req), ("patterns", omap(arr(Str)), Req), ("group_names_to_slot_names", omap(Str), Req), ("slot_names_to_entities", omap(omap(Str)), Req),
            ("stop_words_whitelist", omap(arr(Str)), Pres::Default(json!({}))), ("config", st(vec![("ignore_stop_words", Bool, sw())]), Req),
        ])),
        (PathBuf::from("lookup_intent_parser/metadata.json"), unit()),
        (PathBuf::from("lookup_intent_parser/intent_parser.json"), st(vec![
            ("language_code", Str, Req), ("slots_names", arr(Str), Req), ("intents_names", arr(Str), Req), ("map", IntMap("i32", Box::new(Tup(vec![I32, arr(I32)]))), Req),
            ("entity_scopes", arr(st(vec![("intent_group", arr(Str), Req), ("entity_scope", st(vec![("builtin", arr(Str), Req), ("custom", arr(Str), Req)]), Req)])), Req),
            ("stop_words_whitelist", omap(arr(Str)), Req), ("config", st(vec![("ignore_stop_words", Bool, sw())]), Req),
        ])),
        (PathBuf::from("probabilistic_intent_parser/metadata.json"), unit()),
        (PathBuf::from("probabilistic_intent_parser/intent_parser.json"), st(vec![("slot_fillers", arr(st(vec![("intent", Str, Req), ("slot_filler_name", Str, Req)])), Req)])),
        (PathBuf::from("probabilistic_intent_parser/intent_classifier/metadata.json"), unit()),
        (PathBuf::from("probabilistic_intent_parser/intent_classifier/intent_classifier.json"), st(vec![("featurizer", opt(Str), Pres::Opt), ("intercept", opt(arr(F32)), Pres::Opt), ("coeffs", opt(arr(arr(F32))), Pres::Opt), ("intent_list", arr(opt(Str)), Req)])),
        (PathBuf::from("probabilistic_intent_parser/intent_classifier/featurizer/featurizer.json"), st(vec![("language_code", Str, Req), ("tfidf_vectorizer", Str, Req), ("cooccurrence_vectorizer", opt(Str), Pres::Opt)])),
        (PathBuf::from("probabilistic_intent_parser/intent_classifier/featurizer/tfidf_vectorizer/vectorizer.json"), vec_model(
            vec![("vectorizer", st(vec![("idf_diag", arr(F32), Req), ("vocab", omap(Usize), Req)]), Req)], st(vec![("use_stemming", Bool, Req), ("word_clusters_name", opt(Str), Pres::Opt)]))),
        (PathBuf::from("probabilistic_intent_parser/intent_classifier/featurizer/cooccurrence_vectorizer/vectorizer.json"), vec_model(
            vec![("word_pairs", IntMap("usize", Box::new(Tup(vec![Str, Str]))), Req)],
            st(vec![("window_size", opt(Usize), Pres::Opt), ("filter_stop_words", Bool, Req), ("keep_order", Bool, Req), ("unknown_words_replacement_string", opt(Str), Pres::Opt)]))),
    ];
    for i in 0..4 {
        v.push((PathBuf::from(format!("probabilistic_intent_parser/slot_filler_{}/metadata.json", i)), unit()));
        v.push((PathBuf::from(format!("probabilistic_intent_parser/slot_filler_{}/slot_filler.json", i)), st(vec![
            ("language_code", Str, Req), ("intent", Str, Req), ("slot_name_mapping", omap(Str), Req), ("crf_model_file", opt(Str), Pres::Opt),
            ("config", st(vec![("tagging_scheme", U8, Req), ("feature_factory_configs", arr(st(vec![("factory_name", Str, Req), ("offsets", arr(I32), Req), ("args", Args, Req)])), Req)]), Req),
        ])));
    }
    v.retain(|(p, _)| dir.join(p).exists());
    v
}
fn args_of(factory: &str) -> Option<Ty> {
    use Ty::*;
    Some(st(match factory {
        "is_digit" | "length" | "is_first" | "is_last" => vec![],
        "ngram" => vec![("n", Usize, Req), ("use_stemming", Bool, Req), ("common_words_gazetteer_name", opt(Str), Nullable)],
        "shape_ngram" => vec![("n", Usize, Req)],
        "prefix" => vec![("prefix_size", Usize, Req)],
        "suffix" => vec![("suffix_size", Usize, Req)],
        "entity_match" => vec![("entities", arr(Str), Req), ("tagging_scheme_code", U8, Req), ("use_stemming", Bool, Req)],
        "builtin_entity_match" => vec![("entity_labels", arr(Str), Req), ("tagging_scheme_code", U8, Req)],
        "word_cluster" => vec![("cluster_name", Str, Req)],
        _ => return None,
    }))
}
#[derive(Clone, Debug)]
enum Expect { Refuse, Same(Value), SameOrRefuse(Value) }
#[derive(Clone, Debug)]
struct Mutant { file: PathBuf, what: String, value: Value, expect: Expect }
fn set(root: &Value, path: &[String], f: &dyn Fn(&mut Value)) -> Value {
    let mut r = root.clone();
    let mut v = &mut r;
    for p in path { v = match v { Value::Object(m) => m.get_mut(p).unwrap(), Value::Array(a) => &mut a[p.parse::<usize>().unwrap()], _ => unreachable!() }; }
    f(v);
    r
}
fn wrong(ty: &Ty) -> Vec<Value> {
    let nums = |extra: &[Value]| { let mut v = vec![json!(null), json!("1"), json!(true), json!([]), json!({}), json!([1]), json!("")]; v.extend(extra.to_vec()); v };
    match ty {
        Ty::Str => vec![json!(null), json!(1), json!(true), json!([]), json!({}), json!(["a"])],
        Ty::Bool => vec![json!(null), json!(0), json!(1), json!("true"), json!("false"), json!([]), json!({})],
        Ty::U8 => nums(&[json!(-1), json!(256), json!(257), json!(1.5), json!(65537), json!(-255)]),
        Ty::Usize => nums(&[json!(-1), json!(1.5), json!(1e30)]),
        Ty::I32 => nums(&[json!(1.5), json!(2147483648u64), json!(-2147483649i64), json!(4294967296u64)]),
        Ty::F32 => nums(&[]),
        Ty::Opt(t) => wrong(t).into_iter().filter(|v| !v.is_null()).collect(),
        Ty::Arr(_) => vec![json!(null), json!("a"), json!({}), json!(1), json!(true), json!({"0": "a"})],
        Ty::Map(_) | Ty::IntMap(..) => vec![json!(null), json!("a"), json!([]), json!(1), json!(true), json!([["a", "b"]])],
        Ty::Tup(_) => vec![json!(null), json!("a"), json!({}), json!(1), json!([])],
        Ty::Struct(_) | Ty::Args => vec![json!(null), json!("a"), json!(1), json!(true)],
    }
}
fn walk(file: &Path, root: &Value, path: &mut Vec<String>, ty: &Ty, here: &Value, out: &mut Vec<Mutant>, all: bool) {
    let mut push = |what: String, value: Value, expect: Expect| out.push(Mutant { file: file.to_path_buf(), what: format!("{} {} {}", file.display(), path.join("."), what), value, expect });
    if !path.is_empty() { for w in wrong(ty) { push(format!("= {}", w), set(root, path, &|v| *v = w.clone()), Expect::Refuse); } }
    match ty {
        // (what is wrong for the value inside is what is wrong here, null apart)
        Ty::Opt(t) => { if !here.is_null() {
            let mut inner = vec![];
            walk(file, root, path, t, here, &mut inner, all);
            let same = format!("{} {} = ", file.display(), path.join("."));
            out.extend(inner.into_iter().filter(|m| !m.what.starts_with(&same)));
        } }
        Ty::Arr(t) => {
            let n = here.as_array().map(|a| a.len()).unwrap_or(0);
            // the first and last element, and every element of a small array
            for i in 0..n { if i == 0 || i + 1 == n || all || n <= 3 {
                path.push(i.to_string());
                walk(file, root, path, t, &here[i], out, all);
                path.pop();
            } }
        }
        Ty::Map(t) | Ty::IntMap(_, t) => {
            if let Ty::IntMap(k, _) = ty {
                let some = here.as_object().and_then(|m| m.values().next()).cloned().unwrap_or(Value::Null);
                for bad in ["a", "", "1.5", " 1", "1e3", if *k == "i32" { "2147483648" } else { "-1" }] {
                    push(format!("with key {:?}", bad), set(root, path, &|v| { v.as_object_mut().unwrap().insert(s(bad), some.clone()); }), Expect::Refuse);
                }
            }
            let keys: Vec<String> = here.as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
            let n = keys.len();
            for (i, k) in keys.iter().enumerate() { if i == 0 || i + 1 == n || all {
                path.push(k.clone());
                walk(file, root, path, t, &here[k], out, all);
                path.pop();
            } }
        }
        Ty::Tup(ts) => {
            push(s("one element more"), set(root, path, &|v| { let l = v[0].clone(); v.as_array_mut().unwrap().push(l) }), Expect::Refuse);
            push(s("one element less"), set(root, path, &|v| { v.as_array_mut().unwrap().pop(); }), Expect::Refuse);
            for (i, t) in ts.iter().enumerate() {
                path.push(i.to_string());
                walk(file, root, path, t, &here[i], out, all);
                path.pop();
            }
        }
        Ty::Struct(fields) => {
            for (k, _t, p) in fields {
                let with = |x: Value| set(root, path, &|v| { v.as_object_mut().unwrap().insert(s(k), x.clone()); });
                let without = set(root, path, &|v| { v.as_object_mut().unwrap().remove(*k); });
                push(format!("without {}", k), without, match p { Req => Expect::Refuse, Pres::Opt => Expect::Same(with(Value::Null)), Pres::Default(d) => Expect::Same(with(d.clone())), Nullable => Expect::SameOrRefuse(with(Value::Null)) });
            }
            let push = ();
            let _ = push;
            for (k, t, _) in fields {
                let t = if let Ty::Args = t { match args_of(here["factory_name"].as_str().unwrap_or("")) { Some(t) => t, None => continue } } else { t.clone() };
                if here.get(*k).is_none() { continue; }
                path.push(s(k));
                walk(file, root, path, &t, &here[*k], out, all);
                path.pop();
            }
        }
        _ => {}
    }
}
/// how an object is written: order of its fields
fn render(v: &Value, path: &str, order: &dyn Fn(&str, usize) -> Vec<usize>, extra: &dyn Fn(&str) -> Vec<(String, Value, bool)>) -> String {
    match v {
        Value::Array(a) => format!("[{}]", a.iter().enumerate().map(|(i, x)| render(x, &format!("{}.{}", path, i), order, extra)).collect::<Vec<_>>().join(", ")),
        Value::Object(m) => {
            let fields: Vec<String> = m.iter().map(|(k, x)| format!("{}: {}", json!(k), render(x, &format!("{}.{}", path, k), order, extra))).collect();
            let ex = extra(path);
            let mut parts: Vec<String> = ex.iter().filter(|e| e.2).map(|e| format!("{}: {}", json!(e.0), e.1)).collect();
            parts.extend(order(path, fields.len()).into_iter().map(|i| fields[i].clone()));
            parts.extend(ex.iter().filter(|e| !e.2).map(|e| format!("{}: {}", json!(e.0), e.1)));
            format!("{{{}}}", parts.join(", "))
        }
        x => x.to_string(),
    }
}
fn object_paths(v: &Value, ty: &Ty, path: &str, out: &mut Vec<(String, usize, bool)>) {
    match (v, ty) {
        (Value::Null, _) => {}
        (v, Ty::Opt(t)) => object_paths(v, t, path, out),
        (Value::Array(a), Ty::Arr(t)) => for (i, x) in a.iter().enumerate() { object_paths(x, t, &format!("{}.{}", path, i), out); },
        (Value::Object(m), Ty::Map(t)) | (Value::Object(m), Ty::IntMap(_, t)) => { out.push((s(path), m.len(), false)); for (k, x) in m { object_paths(x, t, &format!("{}.{}", path, k), out); } }
        (Value::Object(m), Ty::Struct(f)) => { out.push((s(path), m.len(), true)); for (k, t, _) in f { if let Some(x) = m.get(*k) { object_paths(x, t, &format!("{}.{}", path, k), out); } } }
        (Value::Object(m), Ty::Args) => out.push((s(path), m.len(), true)),
        _ => {}
    }
}
/// all intents of the lookup parser in one group
fn one_scope(e: &mut Engine) {
    let l = lookup_of(e);
    let mut one: (Vec<S>, Vec<S>, Vec<S>) = (l.intents.clone(), vec![], vec![]);
    for x in &l.scopes { for b in &x.1 { if !one.1.contains(b) { one.1.push(b.clone()); } } for c in &x.2 { if !one.2.contains(c) { one.2.push(c.clone()); } } }
    l.scopes = vec![one];
    l.sw_whitelist.clear();
}
type Change = (String, Box<dyn Fn(&mut Engine) + Send + Sync>);
fn det_of(e: &mut Engine) -> &mut Det { e.parsers.iter_mut().find_map(|p| if let Parser::Det(d) = &mut p.1 { Some(d) } else { None }).unwrap() }
fn lookup_of(e: &mut Engine) -> &mut Lookup { e.parsers.iter_mut().find_map(|p| if let Parser::Lookup(d) = &mut p.1 { Some(d) } else { None }).unwrap() }
fn prob_of(e: &mut Engine) -> &mut Prob { e.parsers.iter_mut().find_map(|p| if let Parser::Prob(d) = &mut p.1 { Some(d) } else { None }).unwrap() }
fn feat_of(e: &mut Engine) -> &mut Feat { prob_of(e).feat.as_mut().unwrap() }
fn cooc_of(e: &mut Engine) -> &mut Cooc { feat_of(e).cooc.as_mut().unwrap() }
/// every value that can be written differently, written differently
fn changes(base: &Engine) -> Vec<Change> {
    let mut v: Vec<Change> = vec![(s("as it is"), Box::new(|_| {}))];
    macro_rules! add { ($n:expr, $f:expr) => { v.push(($n.to_string(), Box::new($f))) } }
    for i in 0..base.entities.len() { add!(format!("entity {} extensible", i), move |e: &mut Engine| e.entities[i].extensible ^= true); }
    add!("parsers reversed", |e: &mut Engine| e.parsers.reverse());
    add!("parsers rotated", |e: &mut Engine| e.parsers.rotate_left(1));
    add!("no parser", |e: &mut Engine| e.parsers.clear());
    for i in 0..3 { add!(format!("only parser {}", i), move |e: &mut Engine| e.parsers = vec![e.parsers[i].clone()]); add!(format!("without parser {}", i), move |e: &mut Engine| { e.parsers.remove(i); }); }
    add!("dataset without stop words", |e: &mut Engine| e.res.stop_words = None);
    add!("other stop words", |e: &mut Engine| e.res.stop_words = Some(ss(&["two", "in"])));
    // pattern parser
    for i in 0..4 { for k in 0..base_det(base).patterns[i].1.len() { add!(format!("without pattern {} {}", i, k), move |e: &mut Engine| { det_of(e).patterns[i].1.remove(k); }); } }
    for i in 0..6 { add!(format!("group {} for another slot", i), move |e: &mut Engine| { let d = det_of(e); let intent = [0, 0, 0, 1, 2, 2][i]; d.groups[i].1 = s(["what", "what2", "what", "place2", "place", "time"][i]); if i == 3 { d.slots[intent].1.push((s("place2"), s("room"))); } }); }
    for (i, k, ent) in [(0, 0, "drink"), (0, 1, "room"), (1, 0, "drink"), (2, 0, "snips/number"), (2, 1, "snips/datetime")] { add!(format!("pattern slot {} {} for {}", i, k, ent), move |e: &mut Engine| det_of(e).slots[i].1[k].1 = s(ent)); }
    add!("patterns keep stop words", |e: &mut Engine| det_of(e).ignore_sw = false);
    add!("patterns: no white list", |e: &mut Engine| det_of(e).sw_whitelist = vec![]);
    add!("patterns: white list of another intent", |e: &mut Engine| det_of(e).sw_whitelist = vec![(s("Hello"), ss(&["the"])), (s("Light"), ss(&["a", "the"]))]);
    // lookup parser
    add!("lookup intents renamed", |e: &mut Engine| { one_scope(e); lookup_of(e).intents.swap(0, 3) });
    add!("lookup intents rotated", |e: &mut Engine| { one_scope(e); lookup_of(e).intents.rotate_left(1) });
    add!("lookup slots renamed", |e: &mut Engine| lookup_of(e).slots.swap(1, 2));
    add!("lookup slots rotated", |e: &mut Engine| lookup_of(e).slots.rotate_left(1));
    for i in 0..base_lookup(base).utterances.len() {
        add!(format!("without utterance {}", i), move |e: &mut Engine| { lookup_of(e).utterances.remove(i); });
        add!(format!("utterance {} of another intent", i), move |e: &mut Engine| { one_scope(e); let u = &mut lookup_of(e).utterances[i]; u.1 = (u.1 + 1) % 4; });
        add!(format!("utterance {} with other slots", i), move |e: &mut Engine| { let u = &mut lookup_of(e).utterances[i]; for x in u.2.iter_mut() { *x = (*x + 3) % 6; } });
    }
    for i in 0..4 {
        add!(format!("scope {} without entities", i), move |e: &mut Engine| { let sc = &mut lookup_of(e).scopes[i]; sc.1.clear(); sc.2.clear(); });
        add!(format!("scope {} with more entities", i), move |e: &mut Engine| { let sc = &mut lookup_of(e).scopes[i]; sc.1 = ss(&["snips/city"]); sc.2 = ss(&["drink", "room"]); });
        add!(format!("scope {} only custom", i), move |e: &mut Engine| lookup_of(e).scopes[i].1.clear());
        add!(format!("scope {} only builtin", i), move |e: &mut Engine| lookup_of(e).scopes[i].2.clear());
    }
    add!("one scope for two intents", |e: &mut Engine| { let l = lookup_of(e); l.scopes[0].0.push(s("Light")); l.scopes[0].2.push(s("room")); l.scopes.remove(1); });
    add!("lookup keeps stop words", |e: &mut Engine| lookup_of(e).ignore_sw = false);
    add!("lookup: no white list", |e: &mut Engine| lookup_of(e).sw_whitelist = vec![]);
    add!("lookup: another white list", |e: &mut Engine| lookup_of(e).sw_whitelist = vec![(s("When"), ss(&["in"]))]);
    // classifier
    add!("classes rotated", |e: &mut Engine| prob_of(e).intents.rotate_left(2));
    add!("classes reversed", |e: &mut Engine| prob_of(e).intents.reverse());
    add!("one class", |e: &mut Engine| prob_of(e).intents = vec![Some(s("Light"))]);
    add!("only no intent", |e: &mut Engine| prob_of(e).intents = vec![None]);
    add!("no class", |e: &mut Engine| prob_of(e).intents = vec![]);
    for i in 0..5 { add!(format!("intercept {}", i), move |e: &mut Engine| prob_of(e).intercept.as_mut().unwrap()[i] += 1.75); }
    for i in 0..5 { for k in 0..13 { add!(format!("coefficient {} {}", i, k), move |e: &mut Engine| prob_of(e).coeffs.as_mut().unwrap()[i][k] += 0.875); } }
    add!("no intercept", |e: &mut Engine| prob_of(e).intercept = None);
    add!("no coefficients", |e: &mut Engine| prob_of(e).coeffs = None);
    add!("no featurizer", |e: &mut Engine| prob_of(e).feat = None);
    add!("small and large weights", |e: &mut Engine| { prob_of(e).intercept = Some(vec![-100.0, 1e-30, 90.0, -1e38, 0.0]); });
    // features
    for i in 0..11 { add!(format!("idf {}", i), move |e: &mut Engine| feat_of(e).idf[i] *= 2.5); add!(format!("word {}", i), move |e: &mut Engine| feat_of(e).vocab.swap(i, (i + 4) % 11)); }
    add!("no builtin in features", |e: &mut Engine| feat_of(e).scope = vec![]);
    for i in 0..3 { add!(format!("builtin {} not in features", i), move |e: &mut Engine| { feat_of(e).scope.remove(i); }); }
    add!("features stemmed or not", |e: &mut Engine| feat_of(e).stemming ^= true);
    add!("other clusters", |e: &mut Engine| feat_of(e).clusters = Some(s("w2v")));
    add!("no clusters", |e: &mut Engine| feat_of(e).clusters = None);
    add!("some clusters", |e: &mut Engine| { let f = feat_of(e); f.clusters = Some(s("brown")); f.vocab[10] = s("zz"); f.vocab[0] = s("0010"); f.vocab[3] = s("7"); });
    add!("no pairs", |e: &mut Engine| { feat_of(e).cooc = None; for r in prob_of(e).coeffs.as_mut().unwrap() { r.truncate(11); } });
    for w in [None, Some(0), Some(1), Some(3), Some(1000)] { add!(format!("window {:?}", w), move |e: &mut Engine| cooc_of(e).window = w); }
    add!("pairs with stop words", |e: &mut Engine| cooc_of(e).filter_sw = false);
    add!("pairs in any order", |e: &mut Engine| { let c = cooc_of(e); c.keep_order = false; c.pairs = pairs(&[("DRINK", "make"), ("ROOM", "light")]); });
    add!("pairs in order", |e: &mut Engine| { let c = cooc_of(e); c.pairs = pairs(&[("light", "ROOM"), ("ROOM", "light")]); });
    add!("pairs swapped", |e: &mut Engine| cooc_of(e).pairs.reverse());
    add!("pairs scope", |e: &mut Engine| { let c = cooc_of(e); c.scope = ss(&["snips/datetime"]); c.pairs = pairs(&[("make", "two"), ("SNIPSDATETIME", "in")]); });
    for u in [None, Some("make"), Some("two"), Some("xx"), Some("")] { add!(format!("unknown word {:?}", u), move |e: &mut Engine| { let c = cooc_of(e); c.unknown = u.map(s); c.pairs = pairs(&[("make", "DRINK"), ("xx", "nothing")]); }); }
    // slot fillers
    add!("fillers of other intents", |e: &mut Engine| { let f = &mut prob_of(e).fillers; let n = f[0].0.clone(); f[0].0 = f[1].0.clone(); f[1].0 = n; });
    for i in 0..4 { add!(format!("no filler {}", i), move |e: &mut Engine| { prob_of(e).fillers.remove(i); }); add!(format!("no tagger {}", i), move |e: &mut Engine| prob_of(e).fillers[i].1.crf = None); }
    for i in 0..3 {
        for sc in 0..3 { add!(format!("filler {} scheme {}", i, sc), move |e: &mut Engine| {
            let f = &mut prob_of(e).fillers[i].1;
            f.scheme = sc;
            // the tags are those of the scheme
            let tag = |t: &mut S| if t.len() > 2 && t.is_char_boundary(2) { match (sc, &t[..2]) { (0, _) => t.replace_range(..2, "I-"), (1, "U-") => t.replace_range(..2, "B-"), (1, "L-") => t.replace_range(..2, "I-"), _ => {} } };
            let c = f.crf.as_mut().unwrap();
            c.labels.iter_mut().for_each(tag);
            c.state.iter_mut().for_each(|x| tag(&mut x.1));
            c.trans.iter_mut().for_each(|x| { tag(&mut x.0); tag(&mut x.1); });
            let mut seen = vec![];
            c.labels.retain(|l| { let new = !seen.contains(l); seen.push(l.clone()); new });
            let mut seen = vec![];
            c.state.retain(|l| { let new = !seen.contains(&(l.0.clone(), l.1.clone())); seen.push((l.0.clone(), l.1.clone())); new });
            let mut seen = vec![];
            c.trans.retain(|l| { let new = !seen.contains(&(l.0.clone(), l.1.clone())); seen.push((l.0.clone(), l.1.clone())); new });
        }); }
        for (k, ent) in [(0, "room"), (0, "snips/number"), (1, "snips/city"), (1, "drink")] { add!(format!("filler {} slot {} for {}", i, k, ent), move |e: &mut Engine| { if let Some(m) = prob_of(e).fillers[i].1.mapping.get_mut(k) { m.1 = s(ent); } }); }
        for off in [vec![], vec![0], vec![1], vec![-1], vec![-3, 2], vec![0, 0]] { add!(format!("filler {} offsets {:?}", i, off), move |e: &mut Engine| { for f in prob_of(e).fillers[i].1.features.iter_mut() { f["offsets"] = json!(off); } }); }
        add!(format!("filler {} features reversed", i), move |e: &mut Engine| prob_of(e).fillers[i].1.features.reverse());
    }
    for (n, a) in feature_kinds() {
        for off in [json!([0]), json!([-1, 1])] {
            let (a, off) = (a.clone(), off.clone());
            add!(format!("filler 1 with {} {} {}", n, a, off), move |e: &mut Engine| { let f = &mut prob_of(e).fillers[1].1; f.features = vec![json!({"factory_name": n, "args": a, "offsets": off})]; });
        }
    }
    for n in [0usize, 4, 10, 1000] { for k in ["ngram", "shape_ngram", "prefix", "suffix"] {
        if n == 0 { continue; }
        add!(format!("filler 1 with {} {}", k, n), move |e: &mut Engine| { let f = &mut prob_of(e).fillers[1].1; f.features = vec![fac(k, match k { "ngram" => json!({"n": n, "use_stemming": false, "common_words_gazetteer_name": null}), "shape_ngram" => json!({"n": n}), "prefix" => json!({"prefix_size": n}), _ => json!({"suffix_size": n}) }, &[0])]; });
    } }
    // entities
    for u in 0..3 { add!(format!("entity parser usage {}", u), move |e: &mut Engine| e.usage = u); }
    add!("other entity values", |e: &mut Engine| e.entities[0].values = pairs(&[("two", "deux"), ("tea", "thé"), ("chai xx", "c")]));
    // resources
    if base.name == "full" {
        add!("other stems", |e: &mut Engine| e.res.stems = Some(vec![ss(&["zz", "make", "tea"]), ss(&["light", "salon"])]));
        add!("other gazetteer", |e: &mut Engine| e.res.gazetteers[0].1 = ss(&["room", "hello"]));
        add!("other words in clusters", |e: &mut Engine| e.res.clusters[0].1 = pairs(&[("tea", "0010"), ("make two", "65536"), ("hello", "x y")]));
    } else {
        add!("no gazetteers", |e: &mut Engine| e.res.gazetteers = vec![]);
        add!("no clusters at all", |e: &mut Engine| e.res.clusters = vec![]);
    }
    v
}
fn base_det(e: &Engine) -> &Det { e.parsers.iter().find_map(|p| if let Parser::Det(d) = &p.1 { Some(d) } else { None }).unwrap() }
fn base_lookup(e: &Engine) -> &Lookup { e.parsers.iter().find_map(|p| if let Parser::Lookup(d) = &p.1 { Some(d) } else { None }).unwrap() }

pub fn c20(ctx: &Ctx) {
    ctx.rule("a model with a changed field that is refused, or that answers at least one query differently from the unchanged model, or with the same fields written differently");
    let ws = [world(ctx, full()), world(ctx, lean())];
    let few: Vec<&str> = if ctx.thorough { TEXTS.to_vec() } else { [0, 3, 6, 9, 10, 16, 18].iter().map(|i| TEXTS[*i]).collect() };
    let base: Vec<Value> = ws.iter().map(|w| behaviour(&w.spec, &w.dir, &few)).map(|r| r.unwrap_or_else(|e| { ctx.violate("load", json!(e)); Value::Null })).collect();
    if ctx.stopped() || base.contains(&Value::Null) { return; }
    let counts = std::sync::Mutex::new(BTreeMap::<&str, usize>::new());
    let count = |k: &'static str| *counts.lock().unwrap().entry(k).or_insert(0) += 1;
    // fields missing, null, or of another type
    let mut muts: Vec<(usize, Mutant)> = vec![];
    for (wi, w) in ws.iter().enumerate() {
        for (file, ty) in schemas(&w.dir) {
            let root = read_json(&w.dir.join(&file));
            let mut out = vec![];
            walk(&file, &root, &mut vec![], &ty, &root, &mut out, ctx.thorough);
            muts.extend(out.into_iter().map(|m| (wi, m)));
        }
    }
    let chunk = 25;
    ctx.par(muts.len().div_ceil(chunk), |j| {
        let dirs: Vec<PathBuf> = ws.iter().map(|w| { let d = fresh_dir(ctx).join("e"); copy_tree(&w.dir, &d); d }).collect();
        for (wi, m) in &muts[j * chunk..((j + 1) * chunk).min(muts.len())] {
            if ctx.stopped() { return; }
            let (w, d) = (&ws[*wi], &dirs[*wi]);
            let orig = std::fs::read(d.join(&m.file)).unwrap();
            put(&d.join(&m.file), &m.value);
            let key = format!("{} {}", w.spec.name, m.what);
            ctx.eval(Some(&key));
            match &m.expect {
                Expect::Refuse => {
                    count("refused");
                    let a = load(d);
                    ctx.sample(|| json!({"engine": w.spec.name, "changed": m.what, "expected": "an error", "got": a.why()}));
                    if !matches!(a, Ans::Err(_)) { ctx.violate(&key, json!({"engine": w.spec.name, "changed": m.what, "expected": "an error", "got": a.why()})); }
                }
                Expect::Same(v) | Expect::SameOrRefuse(v) => {
                    count("default");
                    let got = behaviour(&w.spec, d, &few);
                    put(&d.join(&m.file), v);
                    let exp = behaviour(&w.spec, d, &few);
                    let refused = matches!(m.expect, Expect::SameOrRefuse(_)) && got.as_ref().err().map(|e| e.starts_with("error")).unwrap_or(false);
                    let fine = match (&got, &exp) { (Ok(a), Ok(b)) => a == b, (Err(a), Err(b)) => a.starts_with("error") && b.starts_with("error"), _ => false };
                    if !fine && !refused { ctx.violate(&key, json!({"engine": w.spec.name, "changed": m.what, "load": got.as_ref().err(), "written out": exp.as_ref().err(), "why": "not the same as with the default written out", "difference": first_difference(&got, &exp)})); }
                }
            }
            std::fs::write(d.join(&m.file), &orig).unwrap();
        }
    });
    // the same fields, written differently
    let mut texts: Vec<(usize, PathBuf, String, String)> = vec![];
    for (wi, w) in ws.iter().enumerate() {
        if wi > 0 && !ctx.thorough { break; }
        for (file, ty) in schemas(&w.dir) {
            let root = read_json(&w.dir.join(&file));
            let mut objs = vec![];
            object_paths(&root, &ty, "", &mut objs);
            let id = |_: &str, n: usize| (0..n).collect::<Vec<usize>>();
            let none = |_: &str| vec![];
            let mut add = |what: String, text: String| texts.push((wi, file.clone(), format!("{} {}", file.display(), what), text));
            add(s("compact"), serde_json::to_string(&root).unwrap());
            add(s("surrounded by blanks"), format!("\n\t {} \r\n", root));
            let escaped: String = serde_json::to_string(&root).unwrap().chars().map(|c| if c.is_ascii() { c.to_string() } else { c.encode_utf16(&mut [0; 2]).iter().map(|u| format!("\\u{:04x}", u)).collect() }).collect();
            add(s("escaped"), escaped);
            add(s("all reversed"), render(&root, "", &|_, n| (0..n).rev().collect(), &none));
            let unknown = |front: bool| vec![(s("zzz"), json!({"unit_name": [1, null], "n": {}}), front), (s(""), json!(null), front), (s("Unit_Name"), json!("lookup"), !front)];
            let args = objs.iter().filter(|o| o.2).map(|o| o.0.clone()).collect::<BTreeSet<_>>();
            for front in [true, false] { add(format!("unknown fields everywhere, {}", front), render(&root, "", &id, &|p| if args.contains(p) { unknown(front) } else { vec![] })); }
            let limit = if ctx.thorough { objs.len() } else { 14 };
            for (p, n, is_struct) in objs.iter().take(limit) {
                if *is_struct { for front in [true, false] { add(format!("unknown fields in {}", p), render(&root, "", &id, &|q| if q == p { unknown(front) } else { vec![] })); } }
                if *n < 2 { continue; }
                for k in 1..(*n).min(8) { add(format!("{} rotated by {}", p, k), render(&root, "", &|q, n| if q == p { (0..n).map(|i| (i + k) % n).collect() } else { (0..n).collect() }, &none)); }
                add(format!("{} reversed", p), render(&root, "", &|q, n| if q == p { (0..n).rev().collect() } else { (0..n).collect() }, &none));
            }
        }
    }
    ctx.par(texts.len().div_ceil(chunk), |j| {
        let dirs: Vec<PathBuf> = ws.iter().map(|w| { let d = fresh_dir(ctx).join("e"); copy_tree(&w.dir, &d); d }).collect();
        for (wi, file, what, text) in &texts[j * chunk..((j + 1) * chunk).min(texts.len())] {
            if ctx.stopped() { return; }
            let (w, d) = (&ws[*wi], &dirs[*wi]);
            let orig = std::fs::read(d.join(file)).unwrap();
            std::fs::write(d.join(file), text).unwrap();
            count("written differently");
            let key = format!("{} {}", w.spec.name, what);
            ctx.eval(Some(&key));
            let got = behaviour(&w.spec, d, &few);
            if got.as_ref().ok() != Some(&base[*wi]) { ctx.violate(&key, json!({"engine": w.spec.name, "written": what, "load": got.err(), "why": "another behaviour than with the fields in the usual order"})); }
            std::fs::write(d.join(file), &orig).unwrap();
        }
    });
    // other values
    let silent = std::sync::Mutex::new(vec![]);
    for (wi, w) in ws.iter().enumerate() {
        let ch = changes(&w.spec);
        ctx.par(ch.len(), |k| {
            let (what, f) = &ch[k];
            let mut e = w.spec.clone();
            f(&mut e);
            let dir = fresh_dir(ctx).join("e");
            e.write(&dir);
            count("other values");
            let key = format!("{} {}", w.spec.name, what);
            let r = agrees(&e, &dir, &TEXTS);
            let b = behaviour(&w.spec, &dir, &few);
            let visible = b.as_ref().ok() != Some(&base[wi]);
            if !visible && k > 0 { silent.lock().unwrap().push(key.clone()); }
            ctx.eval(if visible { Some(&key) } else { None });
            if let Err(why) = r { ctx.violate(&key, json!({"engine": w.spec.name, "changed": what, "why": why})); }
            let _ = std::fs::remove_dir_all(&dir);
        });
    }
    ctx.note("changes without visible effect", json!(*silent.lock().unwrap()));
    names(ctx, &ws[0], &base[0], &few);
    invalid(ctx, &ws[0]);
    languages(ctx);
    ctx.note("fields", json!(*counts.lock().unwrap()));
}
/// files and directories under other names
fn names(ctx: &Ctx, w: &World, base: &Value, few: &[&str]) {
    let p = "probabilistic_intent_parser";
    let f = format!("{}/intent_classifier/featurizer", p);
    // (file, pointer, old path, new path, new value)
    let mut rn: Vec<(String, String, String, String, Value)> = vec![];
    let odd = ["x", "other name", "été", "a.b.txt", "sub/dir", "metadata.json"];
    for n in odd {
        for (i, d) in ["lookup_intent_parser", "deterministic_intent_parser", p].iter().enumerate() { rn.push((s("nlu_engine.json"), format!("/intent_parsers/{}", i), s(d), s(n), json!(n))); }
        for d in ["builtin_entity_parser", "custom_entity_parser"] { rn.push((s("nlu_engine.json"), format!("/{}", d), s(d), s(n), json!(n))); }
        if n != "metadata.json" { rn.push((s("custom_entity_parser/metadata.json"), s("/parser_directory"), s("custom_entity_parser/parser"), format!("custom_entity_parser/{}", n), json!(n))); }
        rn.push((format!("{}/intent_classifier/intent_classifier.json", p), s("/featurizer"), f.clone(), format!("{}/intent_classifier/{}", p, if n == "metadata.json" { "m" } else { n }), json!(if n == "metadata.json" { "m" } else { n })));
        let n = if n == "metadata.json" { "featurizer" } else { n };
        for d in ["tfidf_vectorizer", "cooccurrence_vectorizer"] { rn.push((format!("{}/featurizer.json", f), format!("/{}", d), format!("{}/{}", f, d), format!("{}/{}", f, n), json!(n))); }
        for i in [0, 2] {
            rn.push((format!("{}/intent_parser.json", p), format!("/slot_fillers/{}/slot_filler_name", i), format!("{}/slot_filler_{}", p, i), format!("{}/{}", p, n), json!(n)));
            rn.push((format!("{}/slot_filler_{}/slot_filler.json", p, i), s("/crf_model_file"), format!("{}/slot_filler_{}/model.crfsuite", p, i), format!("{}/slot_filler_{}/{}", p, i, n), json!(n)));
        }
        // resources: the extension is txt
        let t = Path::new(n).with_extension("txt").display().to_string();
        rn.push((s("resources/en/metadata.json"), s("/stems"), s("resources/en/stemming/stems.txt"), format!("resources/en/stemming/{}", t), json!(n)));
        rn.push((s("resources/en/metadata.json"), s("/stop_words"), s("resources/en/stop_words.txt"), format!("resources/en/{}", t), json!(n)));
    }
    // resources that other files refer to by name
    for n in ["x", "other name", "été"] {
        rn.push((s("resources/en/metadata.json"), s("/gazetteers/0"), s("resources/en/gazetteers/top.txt"), format!("resources/en/gazetteers/{}.txt", n), json!(n)));
        rn.push((s("resources/en/metadata.json"), s("/word_clusters/1"), s("resources/en/word_clusters/w2v.txt"), format!("resources/en/word_clusters/{}.txt", n), json!(n)));
    }
    ctx.par(rn.len(), |k| {
        let (file, ptr, old, new, value) = &rn[k];
        let d = fresh_dir(ctx).join("e");
        copy_tree(&w.dir, &d);
        std::fs::create_dir_all(d.join(new).parent().unwrap()).unwrap();
        let mut m = read_json(&d.join(file));
        *m.pointer_mut(ptr).unwrap() = value.clone();
        put(&d.join(file), &m);
        if old != new { std::fs::rename(d.join(old), d.join(new)).unwrap(); }
        let mut spec = w.spec.clone();
        let mut expect_same = true;
        if ptr.starts_with("/gazetteers") || ptr.starts_with("/word_clusters/") {
            // the features name them too
            let n = value.as_str().unwrap();
            let (old, is_g) = if ptr.starts_with("/g") { ("top", true) } else { ("w2v", false) };
            for f in prob_of(&mut spec).fillers[0].1.features.iter_mut() { for a in ["common_words_gazetteer_name", "cluster_name"] { if f["args"][a] == old { f["args"][a] = json!(n); } } }
            if is_g { spec.res.gazetteers[0].0 = s(n); } else { spec.res.clusters[1].0 = s(n); }
            let fill = prob_of(&mut spec).fillers[0].1.clone();
            // not yet: the old name is unknown
            let a = load(&d);
            if !matches!(a, Ans::Err(_)) { ctx.violate(&format!("unknown resource {} {}", file, value), json!({"changed": ptr, "to": value, "got": a.why()})); }
            spec.write_filler(&d.join("probabilistic_intent_parser/slot_filler_0"), "Make", &fill);
            expect_same = is_g;
        }
        let key = format!("{} {} = {}", file, ptr, value);
        ctx.eval(Some(&key));
        if expect_same {
            let got = behaviour(&spec, &d, few);
            if got.as_ref().ok() != Some(base) { ctx.violate(&key, json!({"renamed": [old, new], "load": got.err(), "why": "another behaviour than under the usual name"})); }
        }
        if let Err(why) = if ptr.starts_with("/builtin_entity") || ptr.starts_with("/custom_entity") || ptr.starts_with("/parser_directory") { Ok(()) } else { agrees(&spec, &d, few) } { ctx.violate(&key, json!({"renamed": [old, new], "why": why})); }
        // and not under the usual one
        if old != new {
            let there = d.join(new);
            let back = d.join(old);
            std::fs::create_dir_all(back.parent().unwrap()).unwrap();
            if std::fs::rename(&there, &back).is_ok() {
                let a = load(&d);
                if !matches!(a, Ans::Err(_)) { ctx.violate(&format!("{} but the usual name", key), json!({"file": file, "says": value, "there is": old, "got": a.why()})); }
            }
        }
        let _ = std::fs::remove_dir_all(&d);
    });
    ctx.note("renamed files and directories", json!(rn.len()));
}
/// values outside their documented range
fn invalid(ctx: &Ctx, w: &World) {
    let p = "probabilistic_intent_parser";
    let fz = format!("{}/intent_classifier/featurizer", p);
    let mut bad: Vec<(String, String, Value)> = vec![];
    for i in 0..4 { for v in [3, 4, 5, 127, 128, 255] { bad.push((format!("{}/slot_filler_{}/slot_filler.json", p, i), s("/config/tagging_scheme"), json!(v))); } }
    let sf = read_json(&w.dir.join(format!("{}/slot_filler_0/slot_filler.json", p)));
    for (i, f) in sf["config"]["feature_factory_configs"].as_array().unwrap().iter().enumerate() {
        let ptr = |x: &str| format!("/config/feature_factory_configs/{}/{}", i, x);
        let mut add = |x: &str, v: Value| bad.push((format!("{}/slot_filler_0/slot_filler.json", p), ptr(x), v));
        for n in ["", "Ngram", "ngrams", "is_digit ", "IS_DIGIT", "collection_match", "word-cluster", "entity_match\u{0}", "IsDigitFeature"] { add("factory_name", json!(n)); }
        if f["args"].get("tagging_scheme_code").is_some() { for v in [3u64, 4, 255, 256, 257, 258, 512, 65536, 65537, 4294967296, 4294967297, u64::MAX] { add("args/tagging_scheme_code", json!(v)); } }
        if f["args"].get("cluster_name").is_some() { for v in ["", "Brown", "top"] { add("args/cluster_name", json!(v)); } }
        if f["args"].get("common_words_gazetteer_name").is_some() { for v in ["", "Top", "brown", "stop_words"] { add("args/common_words_gazetteer_name", json!(v)); } }
        if f["args"].get("entity_labels").is_some() { for v in ["", "snips/Number", "number", "snips/nothing", "drink"] { add("args/entity_labels/0", json!(v)); } }
    }
    for v in [3, 4, 127, 128, 255] { bad.push((s("custom_entity_parser/metadata.json"), s("/parser_usage"), json!(v))); }
    for v in ["", "xx", "english", "en ", "e", "en_US", "pt"] {
        for (f, q) in [("nlu_engine.json", "/dataset_metadata/language_code"), ("custom_entity_parser/metadata.json", "/language"), ("lookup_intent_parser/intent_parser.json", "/language_code"), ("deterministic_intent_parser/intent_parser.json", "/language_code")] { bad.push((s(f), s(q), json!(v))); }
        for f in ["tfidf_vectorizer", "cooccurrence_vectorizer"] { bad.push((format!("{}/{}/vectorizer.json", fz, f), s("/language_code"), json!(v))); }
        for i in 0..4 { bad.push((format!("{}/slot_filler_{}/slot_filler.json", p, i), s("/language_code"), json!(v))); }
    }
    for v in ["", "number", "snips/Number", "snips/nothing", "drink", "snips/"] { for f in ["tfidf_vectorizer", "cooccurrence_vectorizer"] { bad.push((format!("{}/{}/vectorizer.json", fz, f), s("/builtin_entity_scope/0"), json!(v))); } }
    for v in ["", "Brown", "top", "brown.txt"] { bad.push((format!("{}/tfidf_vectorizer/vectorizer.json", fz), s("/config/word_clusters_name"), json!(v))); }
    for v in ["(", "[a", "*", "(?P<g>a", "a{2", "(?P<group0>a)(?P<group0>b)"] { bad.push((s("deterministic_intent_parser/intent_parser.json"), s("/patterns/Make/0"), json!(v))); }
    // the names of the processing units
    let units = ["deterministic_intent_parser", "lookup_intent_parser", "probabilistic_intent_parser", "log_reg_intent_classifier", "crf_slot_filler"];
    let mut others: Vec<String> = vec![];
    for u in units {
        let camel: String = u.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
        others.extend([u.to_uppercase(), u.replace('_', "-"), u.replace('_', " "), u.replace('_', ""), format!("{} ", u), format!(" {}", u), format!("{}s", u), u[..u.len() - 1].to_string(), u[1..].to_string(), camel.clone(), camel[..1].to_lowercase() + &camel[1..], format!("_{}", u)]);
    }
    others.extend(ss(&["", "logreg_intent_classifier", "log_regintent_classifier", "cr_f_slot_filler", "c_r_f_slot_filler", "CRFSlotFiller", "nlu_engine", "featurizer", "tfidf_vectorizer", "cooccurrence_vectorizer", "custom_entity_parser", "builtin_entity_parser", "intent_parser", "slot_filler", "intent_classifier"]));
    // made of the words such names are made of
    for x in ["", "deterministic_", "lookup_", "probabilistic_", "log_reg_", "logistic_", "crf_", "regex_", "rule_based_", "keyword_", "default_", "snips_", "nlu_"] { for y in ["intent_parser", "slot_filler", "intent_classifier", "parser", "filler", "classifier", "intent", "slot"] {
        let n = format!("{}{}", x, y);
        if !units.contains(&n.as_str()) && !others.contains(&n) { others.push(n); }
    } }
    let mut places: Vec<(String, &str)> = vec![(s("lookup_intent_parser"), units[1]), (s("deterministic_intent_parser"), units[0]), (s(p), units[2]), (format!("{}/intent_classifier", p), units[3])];
    for i in 0..4 { places.push((format!("{}/slot_filler_{}", p, i), units[4])); }
    for (d, right) in &places {
        for u in units.iter().map(|u| s(u)).chain(others.iter().cloned()) { if u != *right { bad.push((format!("{}/metadata.json", d), s("/unit_name"), json!(u))); } }
    }
    let chunk = 25;
    ctx.par(bad.len().div_ceil(chunk), |j| {
        let d = fresh_dir(ctx).join("e");
        copy_tree(&w.dir, &d);
        for (file, ptr, v) in &bad[j * chunk..((j + 1) * chunk).min(bad.len())] {
            if ctx.stopped() { return; }
            let orig = std::fs::read(d.join(file)).unwrap();
            let mut m = read_json(&d.join(file));
            *m.pointer_mut(ptr).unwrap() = v.clone();
            put(&d.join(file), &m);
            let key = format!("invalid {} {} = {}", file, ptr, v);
            ctx.eval(Some(&key));
            let a = load(&d);
            if !matches!(a, Ans::Err(_)) { ctx.violate(&key, json!({"file": file, "field": ptr, "value": v, "expected": "an error", "got": a.why()})); }
            std::fs::write(d.join(file), &orig).unwrap();
        }
    });
    ctx.note("invalid values", json!(bad.len()));
}
/// every supported language
fn languages(ctx: &Ctx) {
    let langs = ["de", "en", "es", "fr", "it", "ja", "ko", "pt_pt", "pt_br"];
    ctx.par(langs.len(), |i| {
        let mut e = full();
        e.lang = s(langs[i]);
        let w = world(ctx, e);
        ctx.eval(Some(("language", i)));
        if let Err(why) = agrees(&w.spec, &w.dir, &TEXTS) { ctx.violate(&format!("language {}", langs[i]), json!({"language": langs[i], "why": why})); }
        // the resources of another language are not used
        for other in ["en", "fr"] {
            if other == langs[i] { continue; }
            let d = fresh_dir(ctx).join("e");
            copy_tree(&w.dir, &d);
            std::fs::rename(d.join("resources").join(langs[i]), d.join("resources").join(other)).unwrap();
            let a = load(&d);
            if !matches!(a, Ans::Err(_)) { ctx.violate(&format!("language {} with the resources of {}", langs[i], other), json!({"got": a.why()})); }
        }
    });
    let _: Option<Map<String, Value>> = None;
}
