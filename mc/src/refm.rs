//! Reference engine: computes, from the description of an engine (not from the code under test), the
//! answers the properties require. Straightforward, uncached, no shared code with /repo.
use crate::spec::*;
use serde_json::Value;
use snips_nlu_lib as _;
use snips_nlu_ontology::*;
use snips_nlu_parsers::{BuiltinEntityParser, GazetteerParser};
use snips_nlu_utils::language::Language as ULang;
use snips_nlu_utils::string::normalize;
use snips_nlu_utils::token::{tokenize, tokenize_light, Token};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::Range;
use std::path::Path;

pub const U: ULang = ULang::EN;

/// lower case, character by character
pub fn lower(t: &str) -> String {
    let l = t.to_lowercase();
    if l.chars().count() == t.chars().count() { return l; }
    t.chars().map(|c| { let mut i = c.to_lowercase(); match (i.next(), i.next()) { (Some(a), None) => a, _ => c } }).collect()
}
pub fn sub(t: &str, r: &Range<usize>) -> String { t.chars().skip(r.start).take(r.end.saturating_sub(r.start)).collect() }
pub fn placeholder(entity: &str) -> String { format!("%{}%", tokenize_light(entity, U).join("").to_uppercase()) }
pub fn lookup_key(t: &str, stop: &[String]) -> String {
    tokenize_light(t, U).into_iter().filter(|t| !stop.contains(&normalize(t))).collect::<Vec<_>>().join(" ").to_lowercase()
}

#[derive(Clone, Debug, PartialEq)]
pub struct ISlot { pub raw: String, pub range: Range<usize>, pub entity: String, pub slot: String }
#[derive(Clone, Debug, PartialEq)]
pub struct Ent { pub range: Range<usize>, pub name: String }
#[derive(Clone, Debug)]
pub struct CustomMatch { pub range: Range<usize>, pub entity: String, pub value: String, pub resolved: String, pub alts: Vec<String> }

/// What a parser may answer: the intent, its score, and the acceptable slot lists.
#[derive(Clone, Debug)]
pub struct Top { pub intent: Option<String>, pub score: f64, pub slots: Vec<Vec<ISlot>> }

pub struct Ref<'a> { pub e: &'a Engine, pub builtin: BuiltinEntityParser, pub custom: GazetteerParser<String>, regexes: RefCell<HashMap<String, regex::Regex>>, /** also accept, in the lookup parser, a text read as an utterance of another intent */ pub loose: std::cell::Cell<bool> }

pub fn overlap(a: &Range<usize>, b: &Range<usize>) -> bool { a.start < b.end && b.start < a.end }

/// longest first, earlier listed first; result in text order
pub fn dedupe(mut v: Vec<Ent>) -> Vec<Ent> {
    v.sort_by_key(|e| std::cmp::Reverse(e.range.end - e.range.start));
    let mut out: Vec<Ent> = vec![];
    for e in v { if !out.iter().any(|o| overlap(&o.range, &e.range)) { out.push(e); } }
    out.sort_by_key(|e| e.range.start);
    out
}

impl<'a> Ref<'a> {
    pub fn new(e: &'a Engine, dir: &Path) -> Ref<'a> {
        Ref {
            e,
            builtin: BuiltinEntityParser::from_path(dir.join("builtin_entity_parser")).expect("ref builtin"),
            custom: GazetteerParser::from_path(dir.join("custom_entity_parser/parser")).expect("ref custom"),
            regexes: Default::default(),
            loose: Default::default(),
        }
    }
    pub fn kind(n: &str) -> Option<BuiltinEntityKind> { BuiltinEntityKind::from_identifier(n).ok() }
    pub fn builtins(&self, text: &str, scope: Option<&[BuiltinEntityKind]>, alts: usize) -> Vec<BuiltinEntity> {
        self.builtin.extract_entities(&lower(text), scope, alts).expect("ref builtin")
    }
    pub fn customs(&self, text: &str, scope: Option<&[String]>, alts: usize) -> Vec<CustomMatch> {
        let toks = tokenize(&lower(text), U);
        let mut cleaned = String::new();
        let mut starts = BTreeMap::new();
        let mut ends = BTreeMap::new();
        let mut n = 0;
        for (i, t) in toks.iter().enumerate() {
            if i > 0 { cleaned.push(' '); n += 1; }
            starts.insert(n, t.char_range.start);
            cleaned.push_str(&t.value);
            n += t.value.chars().count();
            ends.insert(n, t.char_range.end);
        }
        self.custom.extract_entities(&cleaned, scope, alts).expect("ref custom").into_iter()
            .map(|m| CustomMatch { range: starts[&m.range.start]..ends[&m.range.end], entity: m.entity_identifier, value: m.value, resolved: m.resolved_value, alts: m.alternative_resolved_values })
            .collect()
    }
    fn ents(&self, text: &str, builtin: &[BuiltinEntityKind], custom: Option<&[String]>) -> Vec<Ent> {
        let mut v: Vec<Ent> = self.builtins(text, Some(builtin), 0).into_iter().map(|b| Ent { range: b.range, name: b.entity_kind.identifier().to_string() }).collect();
        v.extend(self.customs(text, custom, 0).into_iter().map(|c| Ent { range: c.range, name: c.entity }));
        v
    }

    // ---------------------------------------------------------------- deterministic
    fn blank(&self, text: &str, stop: &[String]) -> String {
        let mut out = vec![' '; text.chars().count()];
        for t in tokenize(text, U) {
            if stop.contains(&normalize(&t.value)) { continue; }
            for (i, c) in t.value.chars().enumerate() { out[t.char_range.start + i] = c; }
        }
        out.into_iter().collect()
    }
    /// per matching intent, its slots
    pub fn det_matches(&self, d: &Det, text: &str, filter: Option<&[String]>) -> Vec<(String, Vec<ISlot>)> {
        let mut out = vec![];
        for (intent, slots) in &d.slots {
            if let Some(f) = filter { if !f.contains(intent) { continue; } }
            let stop = stop_words_for(&self.e.res, d.ignore_sw, &d.sw_whitelist, intent);
            let b: Vec<BuiltinEntityKind> = slots.iter().filter_map(|(_, e)| Self::kind(e)).collect();
            let c: Vec<String> = slots.iter().filter(|(_, e)| Self::kind(e).is_none()).map(|x| x.1.clone()).collect();
            let ents = dedupe(self.ents(text, &b, Some(&c)));
            // the text with placeholders; for each of its characters, the original interval
            let chars: Vec<char> = text.chars().collect();
            let mut ftext: Vec<char> = vec![];
            let mut back: Vec<Range<usize>> = vec![];
            let mut i = 0;
            while i < chars.len() {
                if let Some(e) = ents.iter().find(|e| e.range.start == i) {
                    for ch in placeholder(&e.name).chars() { ftext.push(ch); back.push(e.range.clone()); }
                    i = e.range.end;
                } else { ftext.push(chars[i]); back.push(i..i + 1); i += 1; }
            }
            let ftext: String = ftext.into_iter().collect();
            let raw = self.blank(text, &stop);
            let fmt = self.blank(&ftext, &stop);
            let pats = &d.patterns.iter().find(|p| p.0 == *intent).expect("patterns").1;
            for p in pats {
                let re = self.regexes.borrow_mut().entry(p.clone()).or_insert_with(|| regex::RegexBuilder::new(p).case_insensitive(true).build().unwrap()).clone();
                let hit = re.captures(&raw).map(|c| (c, &raw, false)).or_else(|| re.captures(&fmt).map(|c| (c, &fmt, true)));
                if let Some((caps, t, formatted)) = hit {
                    let mut sl: Vec<ISlot> = vec![];
                    for name in re.capture_names().flatten() {
                        if let Some(m) = caps.name(name) {
                            let cs = t[..m.start()].chars().count();
                            let ce = cs + t[m.start()..m.end()].chars().count();
                            let range = if !formatted { cs..ce } else if ce > cs { back[cs].start..back[ce - 1].end } else { cs..ce };
                            let g = name.split('_').next().unwrap();
                            let slot = d.groups.iter().find(|x| x.0 == g).expect("group").1.clone();
                            let entity = slots.iter().find(|x| x.0 == slot).expect("slot").1.clone();
                            sl.push(ISlot { raw: sub(text, &range), range, entity, slot });
                        }
                    }
                    let mut order: Vec<usize> = (0..sl.len()).collect();
                    order.sort_by_key(|i| std::cmp::Reverse(tokenize_light(&sl[*i].raw, U).len() + sl[*i].raw.chars().count()));
                    let mut keep: Vec<ISlot> = vec![];
                    for i in order { if !keep.iter().any(|k| overlap(&k.range, &sl[i].range)) { keep.push(sl[i].clone()); } }
                    keep.sort_by_key(|s| s.range.start);
                    out.push((intent.clone(), keep));
                    break;
                }
            }
        }
        out
    }
    pub fn weights(m: &[(String, usize)]) -> Vec<(String, f64)> {
        let total: f64 = m.iter().map(|x| 1.0 / (1.0 + x.1 as f64)).sum();
        m.iter().map(|x| (x.0.clone(), 1.0 / (1.0 + x.1 as f64) / total)).collect()
    }
    // ---------------------------------------------------------------- lookup
    /// per intent, the acceptable slot lists (all of the same, smallest length)
    pub fn lookup_matches(&self, l: &Lookup, text: &str, filter: Option<&[String]>) -> Vec<(String, Vec<Vec<ISlot>>)> { self.lookup_with(l, text, filter, self.loose.get()) }
    /// `loose`: the text as one intent sees it (its scope, its stop words) may also be an utterance of another one
    pub fn lookup_with(&self, l: &Lookup, text: &str, filter: Option<&[String]>, loose: bool) -> Vec<(String, Vec<Vec<ISlot>>)> {
        let mut found: BTreeMap<usize, Vec<Vec<ISlot>>> = BTreeMap::new();
        let allowed = |n: &String| filter.map(|f| f.contains(n)).unwrap_or(true);
        let keys: Vec<(usize, String, &Vec<usize>)> = l.utterances.iter().map(|u| {
            (u.1, lookup_key(&u.0, &stop_words_for(&self.e.res, l.ignore_sw, &l.sw_whitelist, &l.intents[u.1])), &u.2)
        }).collect();
        for (group, b, c) in &l.scopes {
            let b: Vec<BuiltinEntityKind> = b.iter().filter_map(|x| Self::kind(x)).collect();
            let ents = dedupe(self.ents(text, &b, Some(c)));
            for name in group {
                if !allowed(name) { continue; }
                let id = match l.intents.iter().position(|x| x == name) { Some(i) => i, None => continue };
                let st = stop_words_for(&self.e.res, l.ignore_sw, &l.sw_whitelist, name);
                for mask in 0..(1usize << ents.len()) {
                    let chosen: Vec<&Ent> = ents.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1).collect();
                    let chars: Vec<char> = text.chars().collect();
                    let mut t = String::new();
                    let mut i = 0;
                    while i < chars.len() {
                        if let Some(e) = chosen.iter().find(|e| e.range.start == i) { t.push_str(&placeholder(&e.name)); i = e.range.end; } else { t.push(chars[i]); i += 1; }
                    }
                    let k = lookup_key(&t, &st);
                    for (of, key, slots) in &keys {
                        if *key == k && slots.len() == chosen.len() && (*of == id || (loose && allowed(&l.intents[*of]))) {
                            let sl: Vec<ISlot> = slots.iter().zip(&chosen).map(|(s, e)| ISlot { raw: sub(text, &e.range), range: e.range.clone(), entity: e.name.clone(), slot: l.slots[*s].clone() }).collect();
                            found.entry(*of).or_default().push(sl);
                        }
                    }
                }
            }
        }
        found.into_iter().map(|(i, mut v)| {
            let min = v.iter().map(|x| x.len()).min().unwrap();
            v.retain(|x| x.len() == min);
            v.dedup();
            (l.intents[i].clone(), v)
        }).collect()
    }
    pub fn top_of(m: Vec<(String, Vec<Vec<ISlot>>)>) -> (Vec<Top>, Vec<(String, f64)>) {
        let w = Self::weights(&m.iter().map(|x| (x.0.clone(), x.1[0].len())).collect::<Vec<_>>());
        let none = Top { intent: None, score: 1.0, slots: vec![vec![]] };
        let mut tops = vec![];
        for ((i, sc), (_, sl)) in w.iter().zip(&m) {
            if *sc > 0.5 - 1e-6 {
                tops.push(Top { intent: Some(i.clone()), score: *sc, slots: sl.clone() });
                if *sc < 0.5 + 1e-6 && m.len() > 2 { tops.push(none.clone()); } // rounding decides
                if (*sc - 0.5).abs() < 1e-6 && m.len() <= 2 { tops.pop(); }
            }
        }
        if tops.is_empty() { tops.push(none); }
        (tops, w)
    }
    // ---------------------------------------------------------------- classifier
    pub fn stem(&self, w: &str) -> String {
        let n = normalize(w);
        if let Some(st) = &self.e.res.stems {
            for l in st.iter().rev() { if l[1..].contains(&n) { return l[0].clone(); } }
        }
        w.to_string()
    }
    fn norm_tokens(&self, toks: &[String], stemming: bool) -> Vec<String> {
        toks.iter().map(|t| if stemming { self.stem(&normalize(t)) } else { normalize(t) }).collect()
    }
    pub fn features(&self, f: &Feat, text: &str) -> Vec<f64> {
        let toks = tokenize_light(text, U);
        let norm = self.norm_tokens(&toks, f.stemming);
        let mut words: Vec<String> = norm.clone();
        let kinds: Vec<BuiltinEntityKind> = f.scope.iter().filter_map(|k| Self::kind(k)).collect();
        for b in self.builtins(text, Some(&kinds), 0) { words.push(format!("builtinentityfeature{}", tokenize_light(&b.entity_kind.identifier().to_lowercase(), U).join(""))); }
        for c in self.customs(&norm.join(" "), None, 0) { words.push(format!("entityfeature{}", tokenize_light(&c.entity.to_lowercase(), U).join(""))); }
        if let Some(cl) = &f.clusters {
            let table = &self.e.res.clusters.iter().find(|c| c.0 == *cl).expect("cluster").1;
            for i in 0..toks.len() { for j in i + 1..=toks.len() {
                let w = toks[i..j].join(" ").to_lowercase();
                if let Some((_, c)) = table.iter().rev().find(|(x, _)| *x == w) { words.push(c.clone()); }
            } }
        }
        let mut v = vec![0f64; f.vocab.len()];
        for w in &words { if let Some(i) = f.vocab.iter().position(|x| x == w) { v[i] += 1.0; } }
        for i in 0..v.len() { v[i] *= f.idf[i] as f64; }
        let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 0.0 { for x in v.iter_mut() { *x /= n; } }
        if let Some(c) = &f.cooc { v.extend(self.cooc(c, text)); }
        v
    }
    pub fn cooc(&self, c: &Cooc, text: &str) -> Vec<f64> {
        let kinds: Vec<BuiltinEntityKind> = c.scope.iter().filter_map(|k| Self::kind(k)).collect();
        let ents = dedupe(self.ents(text, &kinds, None));
        let chars: Vec<char> = text.chars().collect();
        let mut t = String::new();
        let mut i = 0;
        while i < chars.len() {
            if let Some(e) = ents.iter().find(|e| e.range.start == i) { t.push_str(&tokenize_light(&e.name, U).join("").to_uppercase()); i = e.range.end; } else { t.push(chars[i]); i += 1; }
        }
        let stop = self.e.res.stop_words.clone().unwrap_or_default();
        let toks: Vec<String> = tokenize_light(&t, U).into_iter().filter(|w| !(c.filter_sw && stop.contains(w)) && Some(w) != c.unknown.as_ref()).collect();
        let mut v = vec![0f64; c.pairs.len()];
        for i in 0..toks.len() { for j in i + 1..toks.len() {
            if let Some(w) = c.window { if j - i > w { continue; } }
            let (a, b) = (&toks[i], &toks[j]);
            let p = if c.keep_order || a < b { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
            if let Some(k) = c.pairs.iter().position(|x| *x == p) { v[k] = 1.0; }
        } }
        v
    }
    pub fn logreg(intercept: &[f32], coeffs: &[Vec<f32>], x: &[f64]) -> Vec<f64> {
        let p: Vec<f64> = intercept.iter().zip(coeffs).map(|(b, w)| {
            let z = *b as f64 + w.iter().zip(x).map(|(w, x)| *w as f64 * x).sum::<f64>();
            1.0 / (1.0 + (-z).exp())
        }).collect();
        if p.len() == 1 { vec![1.0 - p[0], p[0]] } else { p }
    }
    pub fn classify(&self, p: &Prob, text: &str, filter: Option<&[String]>) -> Vec<(Option<String>, f64)> {
        let ok = |i: &Option<String>| i.as_ref().map(|n| filter.map(|f| f.contains(n)).unwrap_or(true)).unwrap_or(true);
        if p.intents.len() <= 1 {
            return vec![(p.intents.first().cloned().unwrap_or(None).filter(|n| ok(&Some(n.clone()))), 1.0)];
        }
        let scores: Vec<f64> = match (&p.feat, &p.intercept, &p.coeffs) {
            (Some(f), Some(b), Some(w)) if !text.is_empty() => Self::logreg(b, w, &self.features(f, text)),
            _ => p.intents.iter().map(|i| if i.is_none() { 1.0 } else { 0.0 }).collect(),
        };
        p.intents.iter().cloned().zip(scores).filter(|x| ok(&x.0)).collect()
    }
    // ---------------------------------------------------------------- slot filler
    pub fn attributes(&self, f: &Filler, text: &str) -> Vec<Vec<(String, String)>> {
        let toks = tokenize(text, U);
        let mut out = vec![vec![]; toks.len()];
        for fac in &f.features {
            let name = fac["factory_name"].as_str().unwrap();
            let a = &fac["args"];
            let variants: Vec<Value> = match name {
                "entity_match" => a["entities"].as_array().unwrap().clone(),
                "builtin_entity_match" => a["entity_labels"].as_array().unwrap().clone(),
                _ => vec![Value::Null],
            };
            for v in variants {
                let full = match name {
                    "ngram" | "shape_ngram" => format!("{}_{}", name, a["n"]),
                    "prefix" => format!("prefix_{}", a["prefix_size"]),
                    "suffix" => format!("suffix_{}", a["suffix_size"]),
                    "entity_match" | "builtin_entity_match" => format!("{}_{}", name, v.as_str().unwrap()),
                    "word_cluster" => format!("word_cluster_{}", a["cluster_name"].as_str().unwrap()),
                    n => n.to_string(),
                };
                for o in fac["offsets"].as_array().unwrap() {
                    let o = o.as_i64().unwrap();
                    for t in 0..toks.len() as i64 {
                        let src = t + o;
                        if src < 0 || src >= toks.len() as i64 { continue; }
                        if let Some(val) = self.attribute(name, a, &v, &toks, src as usize) {
                            let key = if o == 0 { full.clone() } else if o > 0 { format!("{}[+{}]", full, o) } else { format!("{}[{}]", full, o) };
                            out[t as usize].push((key, val));
                        }
                    }
                }
            }
        }
        out
    }
    fn prefix_of(scheme: u64, k: usize, idx: &[usize]) -> String {
        match scheme {
            0 => "I-",
            1 => if k == idx[0] { "B-" } else { "I-" },
            _ => if idx.len() == 1 { "U-" } else if k == idx[0] { "B-" } else if k == idx[idx.len() - 1] { "L-" } else { "I-" },
        }.to_string()
    }
    fn attribute(&self, name: &str, a: &Value, v: &Value, toks: &[Token], i: usize) -> Option<String> {
        let w = &toks[i].value;
        match name {
            "is_digit" => if w.chars().all(|c| ('0'..='9').contains(&c)) { Some("1".into()) } else { None },
            "length" => Some(w.chars().count().to_string()),
            "is_first" => if i == 0 { Some("1".into()) } else { None },
            "is_last" => if i + 1 == toks.len() { Some("1".into()) } else { None },
            "ngram" => {
                let n = a["n"].as_u64().unwrap() as usize;
                if i + n > toks.len() { return None; }
                let stemming = a["use_stemming"].as_bool().unwrap();
                let gaz = a["common_words_gazetteer_name"].as_str().map(|g| &self.e.res.gazetteers.iter().find(|x| x.0 == g).expect("gazetteer").1);
                Some(toks[i..i + n].iter().map(|t| {
                    let x = if stemming { self.stem(&normalize(&t.value)) } else { normalize(&t.value) };
                    match gaz { Some(g) if !g.contains(&x) => "rare_word".to_string(), _ => x }
                }).collect::<Vec<_>>().join(" "))
            }
            "shape_ngram" => {
                let n = a["n"].as_u64().unwrap() as usize;
                if i + n > toks.len() { return None; }
                Some(toks[i..i + n].iter().map(|t| snips_nlu_utils::string::get_shape(&t.value)).collect::<Vec<_>>().join(" "))
            }
            "prefix" | "suffix" => {
                let n = a[format!("{}_size", name)].as_u64().unwrap() as usize;
                let c: Vec<char> = normalize(w).chars().collect();
                if n > c.len() { return None; }
                Some(if name == "prefix" { c[..n].iter().collect() } else { c[c.len() - n..].iter().collect() })
            }
            "entity_match" => {
                let stemming = a["use_stemming"].as_bool().unwrap();
                let norm: Vec<String> = toks.iter().map(|t| if stemming { self.stem(&normalize(&t.value)) } else { normalize(&t.value) }).collect();
                let mut ranges = vec![];
                let mut n = 0;
                for x in &norm { let l = x.chars().count(); ranges.push(n..n + l); n += l + 1; }
                let ent = v.as_str().unwrap().to_string();
                let m = self.customs(&norm.join(" "), Some(&[ent]), 0);
                let m = m.into_iter().find(|m| overlap(&m.range, &ranges[i]))?;
                let idx: Vec<usize> = (0..toks.len()).filter(|k| overlap(&ranges[*k], &m.range)).collect();
                Some(Self::prefix_of(a["tagging_scheme_code"].as_u64().unwrap(), i, &idx))
            }
            "builtin_entity_match" => {
                let end = toks.last().map(|t| t.char_range.end).unwrap_or(0);
                let mut chars = vec![' '; end];
                for t in toks { for (k, c) in t.value.chars().enumerate() { chars[t.char_range.start + k] = c; } }
                let text: String = chars.into_iter().collect();
                let kind = Self::kind(v.as_str().unwrap()).unwrap();
                let m = self.builtins(&text, Some(&[kind]), 0).into_iter().find(|m| overlap(&m.range, &toks[i].char_range))?;
                let idx: Vec<usize> = (0..toks.len()).filter(|k| overlap(&toks[*k].char_range, &m.range)).collect();
                Some(Self::prefix_of(a["tagging_scheme_code"].as_u64().unwrap(), i, &idx))
            }
            "word_cluster" => {
                let table = &self.e.res.clusters.iter().find(|c| c.0 == a["cluster_name"].as_str().unwrap()).expect("cluster").1;
                let w = w.to_lowercase();
                table.iter().rev().find(|(x, _)| *x == w).map(|x| x.1.clone())
            }
            n => panic!("unknown feature {}", n),
        }
    }
    /// chunks of a tag sequence: (first token, last token, slot name)
    pub fn chunks(tags: &[String], scheme: u8) -> Vec<(usize, usize, String)> {
        let pre = |t: &str, p: &[&str]| p.iter().any(|p| t.starts_with(p));
        let mut out: Vec<(usize, usize, String)> = vec![];
        let mut start = None;
        for i in 0..tags.len() {
            if tags[i] == "O" { start = None; continue; }
            let st = *start.get_or_insert(i);
            let last = i + 1 == tags.len() || tags[i + 1] == "O" || match scheme {
                0 => false,
                1 => pre(&tags[i + 1], &["B-"]),
                _ => pre(&tags[i], &["L-", "U-"]) || pre(&tags[i + 1], &["B-", "U-"]),
            };
            if last { out.push((st, i, tags[i].chars().skip(2).collect())); start = None; }
        }
        out
    }
    pub fn decode(text: &str, tags: &[String], scheme: u8, mapping: &[(String, String)]) -> Option<Vec<ISlot>> {
        let toks = tokenize(text, U);
        Self::chunks(tags, scheme).into_iter().map(|(a, b, slot)| {
            let range = toks[a].char_range.start..toks[b].char_range.end;
            let entity = mapping.iter().find(|m| m.0 == slot)?.1.clone();
            Some(ISlot { raw: sub(text, &range), range, entity, slot })
        }).collect()
    }
    pub fn filler_slots(&self, f: &Filler, text: &str) -> Option<Vec<ISlot>> {
        let crf = match &f.crf { Some(c) => c, None => return Some(vec![]) };
        let attrs = self.attributes(f, text);
        if attrs.is_empty() { return Some(vec![]); }
        let tags = viterbi(crf, &attrs);
        Self::decode(text, &tags, f.scheme, &f.mapping)
    }

    // ---------------------------------------------------------------- parsers
    /// Err = the query fails
    pub fn parser_parse(&self, p: &Parser, text: &str, filter: Option<&[String]>) -> Result<Vec<Top>, ()> {
        match p {
            Parser::Det(d) => Ok(Self::top_of(self.det_matches(d, text, filter).into_iter().map(|(i, s)| (i, vec![s])).collect()).0),
            Parser::Lookup(l) => Ok(Self::top_of(self.lookup_matches(l, text, filter)).0),
            Parser::Prob(p) => {
                let c = self.classify(p, text, filter);
                let best = c.iter().map(|x| x.1).fold(f64::NEG_INFINITY, f64::max);
                if c.is_empty() { return Ok(vec![Top { intent: None, score: 1.0, slots: vec![vec![]] }]); }
                let mut out = vec![];
                for (i, sc) in c {
                    if sc < best - 1e-5 { continue; }
                    let slots = match &i {
                        Some(n) => self.filler_slots(&p.fillers.iter().find(|f| f.0 == *n).ok_or(())?.1, text).ok_or(())?,
                        None => vec![],
                    };
                    out.push(Top { intent: i, score: sc, slots: vec![slots] });
                }
                Ok(out)
            }
        }
    }
    pub fn parser_intents(&self, p: &Parser, text: &str) -> Vec<(Option<String>, f64)> {
        let fill = |w: Vec<(String, f64)>, all: Vec<String>| {
            let mut v: Vec<(Option<String>, f64)> = all.into_iter().map(|i| { let s = w.iter().find(|x| x.0 == i).map(|x| x.1).unwrap_or(0.0); (Some(i), s) }).collect();
            v.push((None, 0.0));
            v
        };
        match p {
            Parser::Det(d) => fill(Self::top_of(self.det_matches(d, text, None).into_iter().map(|(i, s)| (i, vec![s])).collect()).1, d.patterns.iter().map(|p| p.0.clone()).collect()),
            Parser::Lookup(l) => fill(Self::top_of(self.lookup_matches(l, text, None)).1, l.intents.clone()),
            Parser::Prob(p) => self.classify(p, text, None),
        }
    }
    pub fn parser_slots(&self, p: &Parser, text: &str, intent: &str) -> Result<Vec<Vec<ISlot>>, ()> {
        let f = [intent.to_string()];
        match p {
            Parser::Det(d) => { if !d.patterns.iter().any(|p| p.0 == intent) { return Err(()); } Ok(self.parser_parse(p, text, Some(&f))?.remove(0).slots).map(|s| { let _ = d; s }) }
            Parser::Lookup(l) => { if !l.intents.iter().any(|i| i == intent) { return Err(()); } Ok(self.parser_parse(p, text, Some(&f))?.remove(0).slots) }
            Parser::Prob(x) => Ok(vec![self.filler_slots(&x.fillers.iter().find(|f| f.0 == intent).ok_or(())?.1, text).ok_or(())?]),
        }
    }
    // ---------------------------------------------------------------- engine
    /// acceptable resolutions of a slot; a slot may also be dropped when `None` is among them
    pub fn resolve(&self, text: &str, sl: &ISlot, alts: usize) -> Vec<Option<Slot>> {
        let mk = |v: SlotValue, a: Vec<SlotValue>| Some(Slot { raw_value: sl.raw.clone(), value: v, alternatives: a, range: sl.range.clone(), entity: sl.entity.clone(), slot_name: sl.slot.clone(), confidence_score: None });
        if let Some(e) = self.e.entities.iter().find(|e| e.name == sl.entity) {
            let cust = |m: &CustomMatch| mk(SlotValue::Custom(m.resolved.clone().into()), m.alts.iter().map(|a| SlotValue::Custom(a.clone().into())).collect());
            let scope = [sl.entity.clone()];
            if let Some(m) = self.customs(text, Some(&scope), alts).iter().find(|m| m.range == sl.range) { return vec![cust(m)]; }
            let n = sl.raw.chars().count();
            if let Some(m) = self.customs(&sl.raw, Some(&scope), alts).iter().find(|m| m.range == (0..n)) { return vec![cust(m)]; }
            return vec![if e.extensible { mk(SlotValue::Custom(sl.raw.clone().into()), vec![]) } else { None }];
        }
        let kind = match Self::kind(&sl.entity) { Some(k) => k, None => return vec![] };
        let mut out: Vec<Option<Slot>> = self.builtins(text, Some(&[kind]), alts).into_iter().filter(|m| m.range == sl.range).map(|m| mk(m.entity, m.alternatives)).collect();
        out.extend(self.builtins(&sl.raw, Some(&[kind]), alts).into_iter().map(|m| mk(m.entity, m.alternatives)));
        if out.is_empty() { out.push(None); }
        out
    }
    /// is `got` an acceptable resolution of one of the internal slot lists?
    pub fn slots_ok(&self, text: &str, lists: &[Vec<ISlot>], alts: usize, got: &[Slot]) -> bool {
        lists.iter().any(|l| {
            let acc: Vec<Vec<Option<Slot>>> = l.iter().map(|s| self.resolve(text, s, alts)).collect();
            let mut k = 0;
            for a in acc {
                if k < got.len() && a.iter().any(|x| x.as_ref() == Some(&got[k])) { k += 1; } else if a.contains(&None) { continue; } else { return false; }
            }
            k == got.len()
        })
    }
    pub fn allowed(&self, wl: Option<&[String]>, bl: Option<&[String]>) -> Result<Option<Vec<String>>, ()> {
        let all: Vec<String> = self.e.intents.iter().map(|i| i.0.clone()).collect();
        for l in [wl, bl].iter().flatten() { if l.iter().any(|i| !all.contains(i)) { return Err(()); } }
        if wl.is_none() && bl.is_none() { return Ok(None); }
        Ok(Some(all.into_iter().filter(|i| wl.map(|w| w.contains(i)).unwrap_or(true) && !bl.map(|b| b.contains(i)).unwrap_or(false)).collect()))
    }
    pub fn parse(&self, text: &str, allowed: Option<&[String]>) -> Result<Vec<Top>, ()> {
        let mut acc: Vec<Top> = vec![];
        let mut none = vec![Top { intent: None, score: 0.0, slots: vec![vec![]] }];
        for (_, p) in &self.e.parsers {
            let tops = self.parser_parse(p, text, allowed)?;
            let (n, some): (Vec<Top>, Vec<Top>) = tops.into_iter().partition(|t| t.intent.is_none());
            acc.extend(some);
            if n.is_empty() { return Ok(acc); }
            none = n;
        }
        acc.extend(none);
        Ok(acc)
    }
    pub fn get_intents(&self, text: &str) -> BTreeMap<Option<String>, f64> {
        let mut m: BTreeMap<Option<String>, f64> = BTreeMap::new();
        for (_, p) in &self.e.parsers { for (i, s) in self.parser_intents(p, text) { let x = m.entry(i).or_insert(s); if s > *x { *x = s; } } }
        m
    }
    pub fn get_slots(&self, text: &str, intent: &str) -> Result<Vec<Vec<ISlot>>, ()> {
        for (_, p) in &self.e.parsers {
            let s = self.parser_slots(p, text, intent)?;
            if !s.iter().any(|l| l.is_empty()) { return Ok(s); }
        }
        Ok(vec![vec![]])
    }
    pub fn known_intents(&self) -> BTreeSet<String> { self.e.intents.iter().map(|i| i.0.clone()).collect() }
}

/// best label sequence; ties as the tagger breaks them (lowest label index)
pub fn viterbi(c: &Crf, attrs: &[Vec<(String, String)>]) -> Vec<String> {
    let n = c.labels.len();
    let sc: Vec<Vec<f64>> = attrs.iter().map(|a| c.labels.iter().map(|l| {
        let mut x = 0.0;
        for (k, v) in a { let key = format!("{}:{}", k, v); for (sa, sl, w) in &c.state { if *sa == key && sl == l { x += w; } } }
        x
    }).collect()).collect();
    let tr = |a: usize, b: usize| c.trans.iter().filter(|t| t.0 == c.labels[a] && t.1 == c.labels[b]).map(|t| t.2).sum::<f64>();
    let mut best = sc[0].clone();
    let mut back = vec![];
    for row in sc.iter().skip(1) {
        let mut nb = vec![f64::NEG_INFINITY; n];
        let mut bp = vec![0; n];
        for j in 0..n { for i in 0..n { let v = best[i] + tr(i, j) + row[j]; if v > nb[j] { nb[j] = v; bp[j] = i; } } }
        back.push(bp);
        best = nb;
    }
    let mut k = 0;
    for i in 0..n { if best[i] > best[k] { k = i; } }
    let mut path = vec![k];
    for bp in back.iter().rev() { k = bp[k]; path.push(k); }
    path.reverse();
    path.into_iter().map(|i| c.labels[i].clone()).collect()
}
