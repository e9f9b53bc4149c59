//! Slot tagging: decoding of tag sequences, features, probabilities.
use crate::c_parsers::resources;
use crate::common::*;
use crate::refm::*;
use crate::report::Ctx;
use crate::spec::*;
use crate::worlds::*;
use serde_json::{json, Value};
use snips_nlu_lib::{CRFSlotFiller, SlotFiller};
use snips_nlu_utils::token::{tokenize, Token};

const SCHEMES: [&str; 3] = ["IO", "BIO", "BILOU"];
/// all sequences of exactly n of the tags
pub fn tag_sequences(tags: &[String], n: usize) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..n { v = v.into_iter().flat_map(|p| tags.iter().map(move |t| { let mut p = p.clone(); p.push(t.clone()); p })).collect(); }
    v
}
fn scheme_tags(scheme: u8, slots: &[&str]) -> Vec<String> {
    let pre: &[&str] = match scheme { 0 => &["I-"], 1 => &["B-", "I-"], _ => &["B-", "I-", "L-", "U-"] };
    let mut v = vec![s("O")];
    for sl in slots { for p in pre { v.push(format!("{}{}", p, sl)); } }
    v
}
fn filler(ctx: &Ctx, w: &World, f: &Filler) -> Option<CRFSlotFiller> {
    let dir = fresh_dir(ctx);
    w.spec.write_filler(&dir, "Make", f);
    match ask(|| s("load slot filler"), || CRFSlotFiller::from_path(&dir, resources(&w.dir))) {
        Ans::Ok(x) => Some(x),
        x => { ctx.violate("load slot filler", json!({"filler": format!("{:?}", f), "why": x.why()})); None }
    }
}
fn filler_slots(x: &CRFSlotFiller, t: &str) -> Ans<Vec<ISlot>> {
    ask(|| format!("tag {:?}", t), || x.get_slots(t).map(|v| v.into_iter().map(|s| ISlot { raw: s.value, range: s.char_range, entity: s.entity, slot: s.slot_name }).collect()))
}

// ------------------------------------------------------------------------------------------- C15
/// texts of n tokens, in several layouts
fn layouts(n: usize) -> Vec<String> {
    let plain = ["tea", "two", "green", "room", "make", "light", "salon"];
    let wide = ["été", "日本", "\u{1F375}é", "ß", "İstanbul", "a", "naïve"];
    let mut v = vec![plain[..n].join(" "), format!("  {} ", wide[..n].join("  ")), format!("¿{}.", wide[..n].join(", "))];
    // adjacent tokens without anything between them
    v.push("!".repeat(n));
    v.push((0..n).map(|i| if i % 2 == 0 { "é" } else { "€" }).collect());
    v.into_iter().filter(|t| tokenize(t, U).len() == n).collect()
}
pub fn c15(ctx: &Ctx) {
    ctx.rule("a tag sequence with at least one tag other than 'outside'");
    let w = world(ctx, base("c15"));
    // (scheme, slot names of the model, extra tags)
    let slot_names = ["a", "b-é"];
    let mapping = pairs(&[("a", "drink"), ("b-é", "room")]);
    let max = if ctx.thorough { 7 } else { 6 };
    let mut jobs: Vec<(u8, usize, usize)> = vec![];
    for scheme in 0..3u8 { for n in 1..=max {
        let tags = scheme_tags(scheme, &slot_names).len();
        if tags.pow(n as u32) > 6_000_000 { continue; }
        let total = tags.pow(n as u32);
        let parts = total.div_ceil(20000);
        for p in 0..parts { jobs.push((scheme, n, p)); }
    } }
    let done = std::sync::Mutex::new(std::collections::BTreeMap::<String, usize>::new());
    ctx.par(jobs.len(), |j| {
        let (scheme, n, part) = jobs[j];
        let tags = scheme_tags(scheme, &slot_names);
        let f = Filler { mapping: mapping.clone(), scheme, features: vec![ngram(1, &[0])], crf: Some(Crf { labels: tags.clone(), ..Default::default() }) };
        let x = match filler(ctx, &w, &f) { Some(x) => x, None => return };
        let lay = layouts(n);
        let total = tags.len().pow(n as u32);
        for k in part * 20000..((part + 1) * 20000).min(total) {
            if ctx.stopped() { return; }
            let mut seq = vec![];
            let mut m = k;
            for _ in 0..n { seq.push(tags[m % tags.len()].clone()); m /= tags.len(); }
            let t = if n <= 3 { None } else { Some(&lay[k % lay.len()]) };
            for t in lay.iter().filter(|x| t.map(|t| t == *x).unwrap_or(true)) {
                crfsuite::mc_set_oracle(Some(seq.iter().map(|t| base64::encode(t)).collect()));
                let got = filler_slots(&x, t);
                crfsuite::mc_set_oracle(None);
                let exp = Ref::decode(t, &seq, scheme, &mapping);
                ctx.eval(if seq.iter().any(|t| t != "O") { Some((scheme, &seq, t)) } else { None });
                let case = || json!({"scheme": SCHEMES[scheme as usize], "text": t, "tags": seq, "got": format!("{:?}", got), "expected": format!("{:?}", exp)});
                if k % 37 == 36 { ctx.sample(case); }
                if got.ok() != exp.as_ref() { ctx.violate(&format!("scheme {} {:?} {:?}", scheme, seq, t), case()); }
            }
        }
        *done.lock().unwrap().entry(format!("{} of {} tags", SCHEMES[scheme as usize], n)).or_insert(0) += (part * 20000..((part + 1) * 20000).min(total)).len();
    });
    // tags of slots the intent does not have
    for scheme in 0..3u8 {
        let known = scheme_tags(scheme, &slot_names);
        let bad = scheme_tags(scheme, &["zz", "A", "", "a "]);
        let f = Filler { mapping: mapping.clone(), scheme, features: vec![ngram(1, &[0])], crf: Some(Crf { labels: known.iter().chain(&bad).cloned().collect(), ..Default::default() }) };
        let x = match filler(ctx, &w, &f) { Some(x) => x, None => return };
        for n in 1..=3 {
            let t = &layouts(n)[0];
            for pos in 0..n { for b in &bad[1..] { for rest in tag_sequences(&known, n - 1) {
                let mut seq = rest.clone();
                seq.insert(pos, b.clone());
                crfsuite::mc_set_oracle(Some(seq.iter().map(|t| base64::encode(t)).collect()));
                let got = filler_slots(&x, t);
                crfsuite::mc_set_oracle(None);
                let exp = Ref::decode(t, &seq, scheme, &mapping);
                ctx.eval(Some((scheme, &seq, t)));
                let fine = match (&got, &exp) { (Ans::Ok(a), Some(b)) => a == b, (Ans::Err(_), None) => true, _ => false };
                if !fine { ctx.violate(&format!("unknown slot, scheme {} {:?}", scheme, seq), json!({"tags": seq, "text": t, "got": format!("{:?}", got), "expected": format!("{:?}", exp)})); }
            } } }
        }
    }
    // a label that is not the encoding of a text
    let f = Filler { mapping: mapping.clone(), scheme: 1, features: vec![ngram(1, &[0])], crf: Some(Crf { labels: vec![s("O")], ..Default::default() }) };
    if let Some(x) = filler(ctx, &w, &f) {
        for bad in ["*", "O", "Ty1", "/w==", "é"] {
            crfsuite::mc_set_oracle(Some(vec![s(bad)]));
            let got = filler_slots(&x, "tea");
            crfsuite::mc_set_oracle(None);
            ctx.eval(Some(bad));
            if !matches!(got, Ans::Err(_)) { ctx.violate(&format!("label {:?}", bad), json!({"label": bad, "got": format!("{:?}", got)})); }
        }
    }
    ctx.note("sequences", json!(*done.lock().unwrap()));
}

// ------------------------------------------------------------------------------------------- C16
pub fn rich() -> Engine {
    let mut e = base("rich");
    e.res.stems = Some(vec![ss(&["drink", "drinks", "drinking"]), ss(&["light", "lights", "lit"]), ss(&["tea", "teas"]), ss(&["make", "makes", "made"])]);
    e.res.gazetteers = vec![(s("top"), ss(&["make", "tea", "light", "the", "two", "é"])), (s("other"), ss(&["makes", "room"]))];
    e.res.clusters = vec![(s("brown"), pairs(&[("make", "0010"), ("tea", "10"), ("green tea", "111"), ("the", "7")])), (s("w2v"), pairs(&[("make", "1"), ("room", "22"), ("tea room", "3"), ("été", "cluster")]))];
    e.usage = 2;
    e
}
/// every kind of feature, with several arguments
pub fn feature_kinds() -> Vec<(&'static str, Value)> {
    let mut v = vec![("is_digit", json!({})), ("length", json!({})), ("is_first", json!({})), ("is_last", json!({}))];
    for n in 1..=3 {
        for (st, g) in [(false, Value::Null), (true, Value::Null), (false, json!("top")), (true, json!("top")), (false, json!("other"))] {
            if n == 3 && g == json!("other") { continue; }
            v.push(("ngram", json!({"n": n, "use_stemming": st, "common_words_gazetteer_name": g})));
        }
        v.push(("shape_ngram", json!({"n": n})));
    }
    for n in [1, 2, 3, 5] { v.push(("prefix", json!({"prefix_size": n}))); v.push(("suffix", json!({"suffix_size": n}))); }
    for scheme in 0..3 {
        for st in [false, true] { v.push(("entity_match", json!({"entities": ["drink", "room"], "tagging_scheme_code": scheme, "use_stemming": st}))); }
        v.push(("entity_match", json!({"entities": ["room"], "tagging_scheme_code": scheme, "use_stemming": false})));
        v.push(("builtin_entity_match", json!({"entity_labels": ["snips/number", "snips/city"], "tagging_scheme_code": scheme})));
        v.push(("builtin_entity_match", json!({"entity_labels": ["snips/datetime"], "tagging_scheme_code": scheme})));
    }
    for c in ["brown", "w2v"] { v.push(("word_cluster", json!({"cluster_name": c}))); }
    v
}
fn feature_texts(ctx: &Ctx) -> Vec<String> {
    let words = ["make", "teas", "green tea", "living room", "12", "New", "york", "two", "Été"];
    let mut v = sequences(&words, if ctx.thorough { 4 } else { 3 });
    for t in SENTENCES { v.push(s(t)); if ctx.thorough { v.extend(variants(t)); } }
    for t in ["made TWO Drinks", "make 3 green tea, living room!", "lights tonight in new york"] { v.extend(variants(t)); }
    for t in ["１２ make", "1a 23", "ＡＢ", "a_b_c", "x", "tea-room", "Ǆ ǅ", "new  york", "tea room tea room", "٣ three", "¾", "iPhone X", "99999999999999999999999 tea", "007 2", ", , , , , tea", "? ! . % tea room, ; : light", "(((((tea)))))", "& & & two & & paris & &", "İİİİİİ tea two", "ﬁﬁﬁﬁﬁ green tea room", "e\u{301}e\u{301}e\u{301}e\u{301} tea teas", "tea a b c d e f g h i j k l two m n o p"] { v.push(s(t)); }
    // gaps of every width
    for n in 1..=24usize { let g = " ".repeat(n); v.push(format!("tea{}living{} room{}two new york{}green tea", g, g, g, g)); v.push(format!("{}make{},{}green tea", g, g, ".".repeat(n))); }
    v.sort();
    v.dedup();
    v
}
pub fn c16(ctx: &Ctx) {
    ctx.rule("a text and feature for which at least one token has the attribute and at least one other has not, or with an offset");
    let w = world(ctx, rich());
    let kinds = feature_kinds();
    let offs: [&[i32]; 6] = [&[0], &[-2, -1, 0, 1, 2], &[1], &[-1], &[3, -4], &[10, -12, 100]];
    let mut sets: Vec<Vec<Value>> = kinds.iter().flat_map(|(n, a)| offs.iter().map(move |o| vec![fac(n, a.clone(), o)])).collect();
    // all together, as in a trained model
    sets.push(kinds.iter().enumerate().map(|(i, (n, a))| fac(n, a.clone(), offs[i % offs.len()])).collect());
    sets.push(kinds.iter().rev().map(|(n, a)| fac(n, a.clone(), &[-1, 0, 2])).collect());
    sets.push(vec![]);
    let texts = feature_texts(ctx);
    ctx.par(sets.len() * 2, |k| {
        let set = &sets[k / 2];
        let f = Filler { mapping: w.spec.intents[0].1.clone(), scheme: 1, features: set.clone(), crf: Some(Crf { labels: ss(&["O", "B-what"]), ..Default::default() }) };
        let x = match filler(ctx, &w, &f) { Some(x) => x, None => return };
        let r = Ref::new(&w.spec, &w.dir);
        for (ti, t) in texts.iter().enumerate() {
            if ti % 2 != k % 2 { continue; }
            if ctx.stopped() { return; }
            let got = ask(|| format!("features {:?}", t), || x.compute_features(t));
            let mut exp = r.attributes(&f, t);
            for e in exp.iter_mut() { e.sort(); }
            let sorted: Option<Vec<Vec<(String, String)>>> = got.ok().map(|v| v.iter().map(|a| { let mut a = a.clone(); a.sort(); a }).collect());
            let n = exp.iter().filter(|e| !e.is_empty()).count();
            ctx.eval(if n > 0 && (n < exp.len() || set.len() > 1 || set.iter().any(|f| f["offsets"] != json!([0]))) { Some((k / 2, t)) } else { None });
            let case = || json!({"features": set, "text": t, "got": sorted, "expected": exp, "why": got.why()});
            if ti % 101 == 100 { ctx.sample(|| json!({"features": set[..set.len().min(2)], "text": t, "got": sorted})); }
            if sorted.as_ref() != Some(&exp) { ctx.violate(&format!("{:?} {:?}", if set.len() == 1 { set[0].to_string() } else { format!("set {}", k / 2) }, t), case()); continue; }
            // what the tagger is given when slots are asked for
            if !exp.is_empty() {
                let _ = filler_slots(&x, t);
                let mut seen = crfsuite::mc_last_items();
                for a in seen.iter_mut() { a.sort(); }
                let want: Vec<Vec<String>> = exp.iter().map(|a| { let mut v: Vec<String> = a.iter().map(|(k, v)| format!("{}:{}", k, v)).collect(); v.sort(); v }).collect();
                if seen != want { ctx.violate(&format!("tagger input set {} {:?}", k / 2, t), json!({"text": t, "given to the tagger": seen, "features": want})); }
            }
        }
    });
    ctx.note("feature sets", json!(sets.len()));
    ctx.note("texts", json!(texts.len()));
}

// ------------------------------------------------------------------------------------------- C17
/// weight of a sequence of labels
fn weight(crf: &Crf, st: &[Vec<f64>], tags: &[String]) -> f64 {
    let id = |l: &String| crf.labels.iter().position(|x| x == l).unwrap();
    let mut x = 0.0;
    for (i, l) in tags.iter().enumerate() {
        x += st[i][id(l)];
        if i > 0 { for (a, b, w) in &crf.trans { if *a == tags[i - 1] && b == l { x += w; } } }
    }
    x.exp()
}
fn state_scores(crf: &Crf, attrs: &[Vec<(String, String)>]) -> Vec<Vec<f64>> {
    attrs.iter().map(|a| crf.labels.iter().map(|l| a.iter().map(|(k, v)| { let key = format!("{}:{}", k, v); crf.state.iter().filter(|(a, sl, _)| *a == key && sl == l).map(|x| x.2).sum::<f64>() }).sum()).collect()).collect()
}
pub fn c17(ctx: &Ctx) {
    ctx.rule("a sequence of tags that is not entirely 'outside', or contains an unknown tag");
    let w = world(ctx, base("c17"));
    let mut fs: Vec<Filler> = fillers().into_iter().map(|f| f.1).collect();
    // no outside label; labels with other characters; one label
    let mut f = fs[1].clone();
    f.crf = Some(Crf { labels: ss(&["I-where", "I-é"]), state: vec![(s("ngram_1:tea"), s("I-é"), 1.5), (s("ngram_1:light"), s("I-where"), 0.5)], trans: vec![(s("I-é"), s("I-where"), 0.75)] });
    fs.push(f.clone());
    f.crf = Some(Crf { labels: ss(&["I-é", "O", "I-where"]), state: vec![(s("ngram_1:tea"), s("I-é"), 1.5), (s("ngram_1:light"), s("O"), 0.5)], trans: vec![(s("O"), s("I-where"), 0.75)] });
    fs.push(f.clone());
    f.crf = Some(Crf { labels: ss(&["O"]), ..Default::default() });
    fs.push(f);
    let texts = ["tea", "light", "make two", "light  salon", "tonight in", "make green tea", "two tea and", "Light, salon?", "new york tonight", "make two tea and", "été tea 日本"];
    ctx.par(fs.len() * texts.len(), |k| {
        let (f, t) = (&fs[k / texts.len()], texts[k % texts.len()]);
        let x = match filler(ctx, &w, f) { Some(x) => x, None => return };
        let r = Ref::new(&w.spec, &w.dir);
        let toks: Vec<Token> = tokenize(t, U);
        let attrs = r.attributes(f, t);
        let known = f.crf.as_ref().map(|c| c.labels.clone()).unwrap_or_else(|| ss(&["O", "B-x"]));
        let mut tags = known.clone();
        // unknown tags: of another slot, of another scheme, in another case, with blanks
        tags.extend(ss(&["B-zz", "I-", "o", "", "Tw=="]));
        for l in &known {
            for x in [format!("{} ", l), format!(" {}", l), l.to_uppercase(), format!("X{}", &l[1..]), l.replace("B-", "L-"), l.replace("I-", "U-"), l[l.len().min(2)..].to_string()] { if !tags.contains(&x) { tags.push(x); } }
        }
        if tags.len().pow(toks.len() as u32) > 400_000 { tags.truncate(known.len() + 5); }
        if tags.len().pow(toks.len() as u32) > 400_000 { tags.truncate(known.len() + 1); }
        let outside = if known.contains(&s("O")) { s("O") } else { known[0].clone() };
        let mut sum = 0.0;
        let st = f.crf.as_ref().map(|c| state_scores(c, &attrs)).unwrap_or_default();
        // the sum over every sequence of labels
        let z: f64 = f.crf.as_ref().map(|c| tag_sequences(&c.labels, toks.len()).iter().map(|q| weight(c, &st, q)).sum()).unwrap_or(1.0);
        for seq in tag_sequences(&tags, toks.len()) {
            if ctx.stopped() { return; }
            let got = ask(|| format!("probability {:?} {:?}", t, seq), || x.get_sequence_probability(&toks, seq.clone()));
            let clean: Vec<String> = seq.iter().map(|t| if known.contains(t) { t.clone() } else { outside.clone() }).collect();
            let exp = match &f.crf {
                Some(c) => weight(c, &st, &clean) / z,
                None => if seq.iter().all(|t| t == "O") { 1.0 } else { 0.0 },
            };
            if seq.iter().all(|t| known.contains(t)) { sum += got.ok().cloned().unwrap_or(f64::NAN); }
            ctx.eval(if seq.iter().any(|t| t != "O") { Some((k, &seq)) } else { None });
            let case = || json!({"labels": known, "text": t, "tags": seq, "got": format!("{:?}", got), "expected": exp});
            ctx.sample(case);
            if got.ok().map(|g| (g - exp).abs() < 1e-6) != Some(true) { ctx.violate(&format!("model {} {:?} {:?}", k / texts.len(), t, seq), case()); }
        }
        if (sum - 1.0).abs() > 1e-4 { ctx.violate(&format!("model {} {:?} total", k / texts.len(), t), json!({"labels": known, "text": t, "sum of the probabilities": sum})); }
    });
    // longer texts: every sequence of labels over fewer labels
    let long = ["light salon light tea make", "tea light tea light tea light", "make two tea and green tea now please", "été tea 日本 tea, salon! tea"];
    let few: Vec<&Filler> = fs.iter().filter(|f| f.crf.as_ref().map(|c| c.labels.len() <= 5).unwrap_or(true)).collect();
    ctx.par(few.len() * long.len(), |k| {
        let (f, t) = (few[k / long.len()], long[k % long.len()]);
        let x = match filler(ctx, &w, f) { Some(x) => x, None => return };
        let toks: Vec<Token> = tokenize(t, U);
        let attrs = Ref::new(&w.spec, &w.dir).attributes(f, t);
        let known = f.crf.as_ref().map(|c| c.labels.clone()).unwrap_or_else(|| ss(&["O", "B-x"]));
        let st = f.crf.as_ref().map(|c| state_scores(c, &attrs)).unwrap_or_default();
        let z: f64 = f.crf.as_ref().map(|c| partition(c, &st)).unwrap_or(1.0);
        // every assignment of three of the labels, one of them unknown
        let mut tags: Vec<S> = known.iter().take(2).cloned().collect();
        tags.push(s("B-unknown"));
        let outside = if known.contains(&s("O")) { s("O") } else { known[0].clone() };
        for seq in tag_sequences(&tags, toks.len()) {
            if ctx.stopped() { return; }
            let got = ask(|| format!("probability {:?} {:?}", t, seq), || x.get_sequence_probability(&toks, seq.clone()));
            let clean: Vec<String> = seq.iter().map(|t| if known.contains(t) { t.clone() } else { outside.clone() }).collect();
            let exp = match &f.crf { Some(c) => weight(c, &st, &clean) / z, None => if seq.iter().all(|t| t == "O") { 1.0 } else { 0.0 } };
            ctx.eval(if seq.iter().any(|t| t != "O") { Some((3, k, &seq)) } else { None });
            if got.ok().map(|g| (g - exp).abs() < 1e-6) != Some(true) { ctx.violate(&format!("long text {} {:?} {:?}", k / long.len(), t, seq), json!({"labels": known, "text": t, "tags": seq, "got": format!("{:?}", got), "expected": exp})); }
        }
    });
    c17_history(ctx, &w);
}
/// the sum of the weights of all sequences of labels, position by position
fn partition(crf: &Crf, st: &[Vec<f64>]) -> f64 {
    let n = crf.labels.len();
    let mut a: Vec<f64> = (0..n).map(|l| st[0][l].exp()).collect();
    for row in &st[1..] {
        a = (0..n).map(|l| (0..n).map(|p| a[p] * crf.trans.iter().filter(|(x, y, _)| *x == crf.labels[p] && *y == crf.labels[l]).map(|x| x.2).sum::<f64>().exp()).sum::<f64>() * row[l].exp()).collect();
    }
    a.iter().sum()
}
/// what a slot filler is asked
#[derive(Clone, Debug, Hash)]
enum Ask { Prob(String, Vec<String>), Tag(String) }
/// One slot filler asked several times: every sequence of questions one after the other, and every
/// schedule (within the preemption bound) of two threads asking it: each answer is the one a slot
/// filler loaded for that question alone gives.
fn c17_history(ctx: &Ctx, w: &World) {
    let f = fillers()[0].1.clone();
    let labels = match &f.crf { Some(c) => c.labels.clone(), None => { ctx.violate("first slot filler without a tagger", json!(null)); return } };
    let asks: Vec<Ask> = {
        let mut v = vec![];
        for t in ["tea", "make two", "two tea and"] {
            let n = tokenize(t, U).len();
            v.push(Ask::Tag(s(t)));
            v.push(Ask::Prob(s(t), vec![labels[labels.len() - 1].clone(); n]));
        }
        v.push(Ask::Prob(s("light tea"), vec![s("B-unknown"), labels[0].clone()]));
        // (another number of tags than of tokens: refused, and nothing else changes)
        v.push(Ask::Prob(s("tea"), vec![]));
        v
    };
    let answer = |x: &CRFSlotFiller, a: &Ask| -> Value { match a {
        Ask::Prob(t, tags) => match x.get_sequence_probability(&tokenize(t, U), tags.clone()) { Ok(p) => json!((p * 1e9).round()), Err(_) => json!("error") },
        Ask::Tag(t) => match x.get_slots(t) { Ok(v) => json!(v.into_iter().map(|s| json!([s.value, s.char_range.start, s.char_range.end, s.entity, s.slot_name])).collect::<Vec<_>>()), Err(_) => json!("error") },
    } };
    let alone: Vec<Value> = { let mut v = vec![]; for a in &asks { match filler(ctx, w, &f) { Some(x) => v.push(answer(&x, a)), None => return } } v };
    let n = asks.len();
    // one after the other
    let depth = if ctx.thorough { 4u32 } else { 3 };
    ctx.par(n.pow(depth), |k| {
        let x = match filler(ctx, w, &f) { Some(x) => x, None => return };
        let seq: Vec<usize> = (0..depth).map(|d| k / n.pow(d) % n).collect();
        ctx.eval(Some((1, &seq)));
        for i in &seq {
            let got = answer(&x, &asks[*i]);
            if got != alone[*i] { ctx.violate(&format!("history {:?}", seq), json!({"asked": seq.iter().map(|i| format!("{:?}", asks[*i])).collect::<Vec<_>>(), "at": format!("{:?}", asks[*i]), "got": got, "alone": alone[*i]})); return; }
        }
    });
    // at once
    let bound = if ctx.thorough { 3 } else { 2 };
    let schedules = std::sync::atomic::AtomicUsize::new(0);
    let shape: Vec<Vec<Vec<usize>>> = { let mut v = vec![]; for a in 0..n { for b in a..n { v.push(vec![vec![a], vec![b]]); if ctx.thorough || (a + b) % 5 == 0 { v.push(vec![vec![a, b], vec![b, a]]); } } } for a in 0..n { v.push(vec![vec![a], vec![(a + 1) % n], vec![(a + 3) % n]]); } v };
    ctx.par(shape.len(), |k| {
        let prog = &shape[k];
        let mut ex = mc_env::sched::Explorer::new();
        let limit = if ctx.thorough { 20_000 } else { 3_000 };
        let mut done = 0;
        while let Some(prefix) = ex.prefix.clone() {
            if ctx.stopped() { return; }
            let x = match filler(ctx, w, &f) { Some(x) => std::sync::Arc::new(x), None => return };
            let results = std::sync::Arc::new(std::sync::Mutex::new(vec![vec![]; prog.len()]));
            let bodies: Vec<mc_env::sched::Body> = prog.iter().enumerate().map(|(k, qs)| {
                let (x, qs, results): (_, Vec<Ask>, _) = (x.clone(), qs.iter().map(|i| asks[*i].clone()).collect(), results.clone());
                let b: mc_env::sched::Body = Box::new(move || { for q in &qs { let v = answer(&x, q); results.lock().unwrap()[k].push(v); } });
                b
            }).collect();
            let out = mc_env::sched::run(&prefix, bound, bodies);
            done += 1;
            schedules.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            ctx.eval(if out.decisions.iter().any(|d| d.1 > 0) { Some((2, k, &prefix)) } else { None });
            let res: Vec<Vec<Value>> = results.lock().unwrap().clone();
            let case = || json!({"threads": prog.iter().map(|q| q.iter().map(|i| format!("{:?}", asks[*i])).collect::<Vec<_>>()).collect::<Vec<_>>(), "schedule": prefix, "answers": res, "alone": prog.iter().map(|q| q.iter().map(|i| alone[*i].clone()).collect::<Vec<_>>()).collect::<Vec<_>>()});
            ctx.sample(case);
            if let Some(a) = &out.aborted { ctx.violate(&format!("stuck {:?}", prog), json!({"why": a, "case": case()})); return; }
            if !out.panics.is_empty() { ctx.violate(&format!("panic {:?}", prog), json!({"panics": out.panics, "case": case()})); return; }
            for (j, q) in prog.iter().enumerate() {
                if res[j] != q.iter().map(|i| alone[*i].clone()).collect::<Vec<_>>() { ctx.violate(&format!("at once {:?}", prog), case()); return; }
            }
            ex.advance(&out.decisions);
            if done >= limit { break; }
        }
    });
    ctx.note("schedules of two or three threads asking one slot filler", json!(schedules.load(std::sync::atomic::Ordering::Relaxed)));
    ctx.note("preemption bound", json!(bound));
}
