//! The intent classifier: features and scores.
use crate::c_crf::rich;
use crate::c_parsers::resources;
use crate::common::*;
use crate::refm::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use serde_json::json;
use snips_nlu_lib::{IntentClassifier, LogRegIntentClassifier};
use std::path::Path;

fn classifier(ctx: &Ctx, w: &World, p: &Prob) -> Ans<LogRegIntentClassifier> {
    let dir = fresh_dir(ctx);
    w.spec.write_prob(&dir, p);
    let x = load_classifier(&w.dir, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    x
}
fn load_classifier(engine: &Path, dir: &Path) -> Ans<LogRegIntentClassifier> {
    ask(|| s("load classifier"), || LogRegIntentClassifier::from_path(dir.join("intent_classifier"), resources(engine)))
}
// ------------------------------------------------------------------------------------------- C18
fn feats() -> Vec<(String, Feat)> {
    let vocab = ss(&["make", "tea", "teas", "light", "lights", "two", "ete", "été", "é", "the", "builtinentityfeaturesnipsnumber", "builtinentityfeaturesnipsdatetime", "builtinentityfeaturesnipscity",
        "entityfeaturedrink", "entityfeatureroom", "0010", "10", "111", "7", "1", "22", "3", "cluster", "Make", "snipsnumber", "drink", "unknownword", "green", "in", "room", "boit", "drïnk", "entityfeatureéclairtype", "threewords", "tenwords", "sixwords", "zwei", "Drïnk", "builtinentityfeaturesnipsdateperiod"]);
    let idf: Vec<f32> = (0..vocab.len()).map(|i| 0.75 + 0.37 * ((i * 7) % 11) as f32).collect();
    let mut out = vec![];
    let scopes: [&[&str]; 3] = [&["snips/number", "snips/datetime", "snips/city", "snips/datePeriod"], &["snips/number"], &[]];
    for (si, scope) in scopes.iter().enumerate() {
        for stemming in [false, true] { for clusters in [None, Some(s("brown")), Some(s("w2v"))] {
            out.push((format!("scope {} stemming {} clusters {:?}", si, stemming, clusters), Feat { scope: ss(scope), vocab: vocab.clone(), idf: idf.clone(), stemming, clusters, cooc: None }));
        } }
    }
    // another order of the vocabulary, all weights one; a vocabulary of one word
    out.push((s("reversed vocabulary"), Feat { scope: ss(scopes[0]), vocab: vocab.iter().rev().cloned().collect(), idf: vec![1.0; vocab.len()], stemming: false, clusters: None, cooc: None }));
    out.push((s("one word"), Feat { scope: ss(scopes[0]), vocab: ss(&["tea"]), idf: vec![0.5], stemming: false, clusters: None, cooc: None }));
    let words = ["make", "the", "DRINK", "ROOM", "SNIPSNUMBER", "SNIPSCITY", "SNIPSDATEPERIOD", "light", "two", "xx", "and", "green", "ÉCLAIRTYPE"];
    let sorted: Vec<(S, S)> = words.iter().flat_map(|a| words.iter().filter(move |b| a <= b).map(move |b| (s(a), s(b)))).collect();
    let all: Vec<(S, S)> = words.iter().flat_map(|a| words.iter().map(move |b| (s(a), s(b)))).collect();
    for (si, scope) in scopes.iter().enumerate() { for window in [None, Some(0), Some(1), Some(2), Some(5)] { for filter_sw in [false, true] { for keep_order in [false, true] { for unknown in [None, Some(s("xx"))] {
        if si == 1 && window != Some(1) { continue; }
        out.push((format!("pairs scope {} window {:?} stop words {} order {} unknown {:?}", si, window, filter_sw, keep_order, unknown), Feat {
            scope: vec![], vocab: ss(&["make", "tea"]), idf: vec![1.0, 2.0], stemming: false, clusters: None,
            cooc: Some(Cooc { scope: ss(scope), pairs: if keep_order { all.clone() } else { sorted.clone() }, window, filter_sw, keep_order, unknown }),
        }));
    } } } } }
    // pairs in the other order
    for keep_order in [false, true] { out.push((format!("reversed pairs, order {}", keep_order), Feat {
        scope: ss(scopes[0]), vocab: vocab.clone(), idf: idf.clone(), stemming: true, clusters: Some(s("brown")),
        cooc: Some(Cooc { scope: ss(scopes[0]), pairs: all.iter().rev().cloned().collect(), window: Some(2), filter_sw: true, keep_order, unknown: Some(s("xx")) }),
    })); }
    // two vectorisers that look for different builtin entities
    out.push((s("different scopes"), Feat { scope: ss(&["snips/datetime"]), vocab, idf, stemming: false, clusters: None, cooc: Some(Cooc { scope: ss(&["snips/number"]), pairs: all, window: None, filter_sw: false, keep_order: true, unknown: None }) }));
    out
}
pub fn c18(ctx: &Ctx) {
    ctx.rule("a text whose feature vector is not zero");
    // entity parsers fed with the text as it is, with its stems, or with both; with or without stop words
    let ws: Vec<World> = (0..3).map(|u| { let mut e = rich(); e.usage = u; e.name = format!("usage {}", u); if u == 1 { e.res.stop_words = Some(vec![s("the"), s("xx"), s("make"), s("drink"), s("snipsnumber")]); }
        if let Some(st) = e.res.stems.as_mut() { st.push(ss(&["Drïnk", "boit", "bois"])); st.push(ss(&["zwei", "ete", "etés"])); }
        e.res.clusters[0].1.push((s("make green tea"), s("threewords")));
        e.res.clusters[0].1.push((s("make the green tea and light in the living room"), s("tenwords")));
        e.res.clusters[0].1.push((s("two green tea and light in"), s("sixwords")));
        e.grammar.push(json!({"kind": "snips/datePeriod", "text": "été", "value": {"kind": "InstantTime", "value": "summer", "grain": "Month", "precision": "Exact"}, "alternatives": []}));
        e.entities.push(ent("Éclair Type", true, &[("and", "and"), ("lit", "lit")]));
        world(ctx, e) }).collect();
    let fs = feats();
    let words = ["make", "Teas", "tea", "the", "two", "paris", "living room", "xx", "and"];
    let mut texts = sequences(&words, if ctx.thorough { 4 } else { 3 });
    for t in SENTENCES { texts.push(s(t)); texts.extend(variants(t).into_iter().step_by(if ctx.thorough { 1 } else { 5 })); }
    for t in ["make the green tea and light in the living room", "two green tea and light in the living room", "Make THE Green tea, and light in the living room now", "tea tea tea tea tea", "make make make make make make make make make tea", "two two two two two two two teas lights", " ", "\t \t", "été Été ETE é", "étés etes Etés", "make make make tea tea", "green tea green", "tea green tea", "light the lights", "drinking lit made", "MAKE TEA 3", "xx make xx tea", "the the a", "zzz", "SNIPSNUMBER drink", "entityfeaturedrink", "0010 10 7", "two two two", "make, two; tea", "bois Boit drïnk", "make bois tea", "Boit the ÉTÉ", "étés room tea", "Make Green  Tea", "the make green tea room", "lit and made"] { texts.push(s(t)); texts.extend(variants(t)); }
    texts.sort();
    texts.dedup();
    let zero = std::sync::atomic::AtomicUsize::new(0);
    ctx.par(fs.len() * 2, |k| {
        let (name, f) = &fs[k / 2];
        for (wi, w) in ws.iter().enumerate() {
            // the stems only matter to the first vectoriser
            if wi > 0 && f.cooc.is_some() != (wi == 1) && !name.starts_with("reversed") { continue; }
            let p = Prob { intents: vec![Some(s("A")), None], feat: Some(f.clone()), intercept: None, coeffs: None, fillers: vec![] };
            let c = match classifier(ctx, w, &p) { Ans::Ok(c) => c, x => { ctx.violate(&format!("load {}", name), json!({"features": name, "why": x.why()})); return } };
            let r = Ref::new(&w.spec, &w.dir);
            for (ti, t) in texts.iter().enumerate() {
                if ti % 2 != k % 2 { continue; }
                if ctx.stopped() { return; }
                let got = ask(|| format!("features {:?}", t), || c.compute_features(t).map(|a| a.to_vec()));
                let exp = r.features(f, t);
                let nz = exp.iter().any(|x| *x != 0.0);
                if !nz { zero.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
                ctx.eval(if nz { Some((wi, k / 2, t)) } else { None });
                let fine = got.ok().map(|g| g.len() == exp.len() && g.iter().zip(&exp).all(|(a, b)| (*a as f64 - b).abs() < 1e-5)).unwrap_or(false);
                let show = |v: &[f64]| -> Vec<String> { v.iter().enumerate().filter(|x| *x.1 != 0.0).map(|(i, x)| format!("{}: {:.5}", if i < f.vocab.len() { f.vocab[i].clone() } else { format!("{:?}", f.cooc.as_ref().and_then(|c| c.pairs.get(i - f.vocab.len()))) }, x)).collect() };
                let case = || json!({"engine": w.spec.name, "features": name, "text": t, "got": got.ok().map(|g| show(&g.iter().map(|x| *x as f64).collect::<Vec<_>>())), "length": got.ok().map(|g| g.len()), "expected": show(&exp), "expected length": exp.len(), "why": got.why()});
                if ti % 61 == 60 { ctx.sample(case); }
                if !fine { ctx.violate(&format!("{} {} {:?}", w.spec.name, name, t), case()); }
            }
        }
    });
    ctx.note("feature configurations", json!(fs.len()));
    ctx.note("texts", json!(texts.len()));
    ctx.note("texts with the zero vector", json!(zero.into_inner()));
}

// ------------------------------------------------------------------------------------------- C19
fn scores(c: &LogRegIntentClassifier, t: &str) -> Ans<Vec<(Option<String>, f64)>> {
    ask(|| format!("scores {:?}", t), || c.get_intents(t).map(|v| v.into_iter().map(|i| (i.intent_name, i.confidence_score as f64)).collect()))
}
pub fn c19(ctx: &Ctx) {
    ctx.rule("a classifier with a weight that is not zero, on a text with a feature that is not zero");
    let w = world(ctx, base("c19"));
    let vocab = ["make", "light", "hello"];
    let names = ["A", "B", "C", "D"];
    // (name, intents, intercept, coeffs, number of words)
    type M = (String, Vec<Option<S>>, Vec<f32>, Vec<Vec<f32>>);
    let mut ms: Vec<M> = vec![];
    let mut grid = |rows: usize, cols: usize, vals: &[f32], order: usize| {
        let n = rows * (cols + 1);
        let total = vals.len().pow(n as u32);
        let classes = if rows == 1 { 2 } else { rows };
        for k in 0..total {
            let mut m = k;
            let mut v: Vec<f32> = vec![];
            for _ in 0..n { v.push(vals[m % vals.len()]); m /= vals.len(); }
            let intercept = v[..rows].to_vec();
            let coeffs: Vec<Vec<f32>> = (0..rows).map(|r| v[rows + r * cols..rows + (r + 1) * cols].to_vec()).collect();
            // where the 'no intent' class stands
            let intents: Vec<Option<S>> = (0..classes).map(|c| if order < classes && c == order { None } else { Some(s(names[c])) }).collect();
            ms.push((format!("{}x{} values {:?} number {} no-intent {}", rows, cols, vals, k, order), intents, intercept, coeffs));
        }
    };
    let t = ctx.thorough;
    for order in [0, 1, 9] {
        grid(1, 2, &[-2.5, -0.5, 0.0, 1.25], order);
        grid(1, 1, &[-30.0, -3.0, -1e-3, 0.0, 0.7, 2.0, 30.0], order);
        grid(2, 1, &[-2.0, 0.0, 0.75], order);
    }
    grid(1, 3, if t { &[-2.5, -0.5, 0.0, 1.25, 7.0] } else { &[-2.5, 0.0, 1.25] }, 1);
    grid(2, 2, if t { &[-2.0, 0.0, 0.75, 9.0] } else { &[-2.0, 0.75] }, 0);
    grid(3, 1, if t { &[-2.0, -0.25, 0.0, 0.75] } else { &[-2.0, 0.75] }, 2);
    grid(3, 2, if t { &[-2.0, 0.0, 0.75] } else { &[-2.0, 0.75] }, 2);
    grid(4, 1, &[-2.0, 0.75], 3);
    if t { grid(4, 2, &[-2.0, 0.75], 3); grid(3, 3, &[-2.0, 0.75], 1); }
    // extreme weights
    for order in [0, 9] {
        grid(1, 1, &[f32::MAX, f32::MIN, 1e4, -1e4, 88.8, -88.8, 104.0, -104.0, f32::MIN_POSITIVE], order);
        grid(2, 1, &[f32::MAX, f32::MIN, 100.0, -100.0], order);
    }
    let texts = ["make", "light", "hello", "make light", "hello light make", "make make light", "zzz", "MAKE!", " ", "\t  ", "?", "...", "make make make make make make light"];
    let chunk = 64;
    ctx.par(ms.len().div_ceil(chunk), |j| {
        let r = Ref::new(&w.spec, &w.dir);
        let res = resources(&w.dir);
        for m in j * chunk..((j + 1) * chunk).min(ms.len()) {
            if ctx.stopped() { return; }
            let (name, intents, intercept, coeffs) = &ms[m];
            let cols = coeffs[0].len();
            let p = Prob { intents: intents.clone(), feat: Some(Feat { scope: vec![], vocab: ss(&vocab[..cols]), idf: vec![1.0, 2.0, 0.5][..cols].to_vec(), stemming: false, clusters: None, cooc: None }), intercept: Some(intercept.clone()), coeffs: Some(coeffs.clone()), fillers: vec![] };
            let dir = fresh_dir(ctx);
            w.spec.write_prob(&dir, &p);
            let c = ask(|| s("load classifier"), || LogRegIntentClassifier::from_path(dir.join("intent_classifier"), res.clone()));
            let _ = std::fs::remove_dir_all(&dir);
            let c = match c { Ans::Ok(c) => c, x => { ctx.violate(&format!("load {}", name), json!({"model": name, "why": x.why()})); return } };
            let finite = intercept.iter().chain(coeffs.iter().flatten()).all(|x| x.abs() < 1e6);
            for t in texts {
                let got = scores(&c, t);
                let x = r.features(p.feat.as_ref().unwrap(), t);
                let exp: Vec<(Option<S>, f64)> = intents.iter().cloned().zip(Ref::logreg(intercept, coeffs, &x)).collect();
                let nz = x.iter().any(|x| *x != 0.0) && coeffs.iter().flatten().any(|x| *x != 0.0);
                ctx.eval(if nz { Some((m, t)) } else { None });
                let case = || json!({"intents": intents, "intercept": intercept, "coeffs": coeffs, "text": t, "features": x, "got": format!("{:?}", got), "expected": format!("{:?}", exp)});
                if m % 97 == 96 { ctx.sample(case); }
                let why = match &got {
                    Ans::Ok(g) => {
                        if g.len() != exp.len() { Some("number of classes") }
                        else if g.iter().any(|x| !(x.1 >= 0.0 && x.1 <= 1.0)) { Some("score outside [0, 1]") }
                        else if g.windows(2).any(|w| w[0].1 < w[1].1) { Some("not in decreasing order") }
                        else if coeffs.len() == 1 && (g[0].1 + g[1].1 - 1.0).abs() > 1e-5 { Some("the two scores do not sum to one") }
                        else if exp.iter().any(|(i, sc)| g.iter().filter(|x| x.0 == *i && (x.1 - sc).abs() < if finite { 1e-5 } else { 1e-3 }).count() != 1) { Some("another score") }
                        else { None }
                    }
                    _ => Some("no answer"),
                };
                if let Some(why) = why { let mut d = case(); d["why"] = json!(why); ctx.violate(&format!("{} {:?}", name, t), d); }
                // the best one, and the best one under a filter
                for f in [None, Some(vec!["A"]), Some(vec!["B"]), Some(vec![])] {
                    let one = ask(|| s("get_intent"), || c.get_intent(t, f.as_deref()).map(|i| (i.intent_name, i.confidence_score as f64)));
                    let left: Vec<&(Option<S>, f64)> = exp.iter().filter(|x| x.0.as_ref().map(|n| f.as_ref().map(|f| f.contains(&n.as_str())).unwrap_or(true)).unwrap_or(true)).collect();
                    let best = left.iter().map(|x| x.1).fold(f64::NEG_INFINITY, f64::max);
                    let fine = match &one { Ans::Ok(o) => if left.is_empty() { *o == (None, 1.0) } else { left.iter().any(|x| x.0 == o.0 && (x.1 - o.1).abs() < 1e-3 && x.1 > best - 1e-5) }, _ => false };
                    ctx.eval(None::<u8>);
                    if !fine { let mut d = case(); d["filter"] = json!(f); d["got"] = json!(format!("{:?}", one)); ctx.violate(&format!("{} {:?} filter {:?}", name, t, f), d); }
                }
            }
        }
    });
    ctx.note("classifiers", json!(ms.len()));
    // features of another length than the weights: refused, when loading or when asked
    let pairs_of = |n: usize| -> Vec<(S, S)> { (0..n).map(|i| (s("make"), format!("w{}", i))).collect() };
    let mut refused = 0;
    for rows in 1..=3usize { for cols in 0..=5usize { for voc in 1..=3usize { for np in 0..=2usize {
        let p = Prob { intents: (0..rows.max(2)).map(|i| Some(s(names[i]))).collect(), feat: Some(Feat { scope: vec![], vocab: ss(&vocab[..voc]), idf: vec![1.0; voc], stemming: false, clusters: None, cooc: if np == 0 { None } else { Some(Cooc { pairs: pairs_of(np), ..Default::default() }) } }),
            intercept: Some(vec![0.1; rows]), coeffs: Some(vec![vec![0.5; cols]; rows]), fillers: vec![] };
        let c = classifier(ctx, &w, &p);
        for t in texts {
            let got = match &c { Ans::Ok(c) => scores(c, t), Ans::Err(e) => Ans::Err(e.clone()), Ans::Panic(e) => Ans::Panic(e.clone()) };
            let fits = cols == voc + np;
            ctx.eval(Some((rows, cols, voc, np, t)));
            if !fits { refused += 1; }
            let fine = match &got { Ans::Ok(_) => fits, Ans::Err(_) => !fits, Ans::Panic(_) => false };
            if !fine { ctx.violate(&format!("{} rows of {} weights for {} features", rows, cols, voc + np), json!({"rows": rows, "weights": cols, "features": voc + np, "text": t, "got": format!("{:?}", got)})); }
        }
    } } } }
    ctx.note("queries refused for the number of features", json!(refused));
}
