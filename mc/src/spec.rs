//! Descriptions of trained engines, written out as model directories in the format the training
//! library produces.
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};

pub type S = String;
pub fn s(x: &str) -> String { x.to_string() }
pub fn ss(x: &[&str]) -> Vec<String> { x.iter().map(|x| x.to_string()).collect() }
pub fn pairs(x: &[(&str, &str)]) -> Vec<(String, String)> { x.iter().map(|(a, b)| (s(a), s(b))).collect() }

#[derive(Clone, Debug)]
pub struct EntityVals { pub name: S, pub extensible: bool, pub values: Vec<(S, S)>, pub threshold: f32 }
#[derive(Clone, Debug, Default)]
pub struct Res { pub stop_words: Option<Vec<S>>, pub stems: Option<Vec<Vec<S>>>, pub gazetteers: Vec<(S, Vec<S>)>, pub clusters: Vec<(S, Vec<(S, S)>)> }
#[derive(Clone, Debug)]
pub struct Engine {
    pub name: S,
    pub lang: S,
    pub entities: Vec<EntityVals>,
    pub gaz: Vec<EntityVals>,
    pub grammar: Vec<Value>,
    pub intents: Vec<(S, Vec<(S, S)>)>,
    pub parsers: Vec<(S, Parser)>,
    pub res: Res,
    pub usage: u8,
}
#[derive(Clone, Debug)]
pub enum Parser { Det(Det), Lookup(Lookup), Prob(Prob) }
#[derive(Clone, Debug, Default)]
pub struct Det { pub patterns: Vec<(S, Vec<S>)>, pub groups: Vec<(S, S)>, pub slots: Vec<(S, Vec<(S, S)>)>, pub ignore_sw: bool, pub sw_whitelist: Vec<(S, Vec<S>)> }
#[derive(Clone, Debug, Default)]
pub struct Lookup { pub intents: Vec<S>, pub slots: Vec<S>, pub utterances: Vec<(S, usize, Vec<usize>)>, pub scopes: Vec<(Vec<S>, Vec<S>, Vec<S>)>, pub ignore_sw: bool, pub sw_whitelist: Vec<(S, Vec<S>)> }
#[derive(Clone, Debug, Default)]
pub struct Prob { pub intents: Vec<Option<S>>, pub feat: Option<Feat>, pub intercept: Option<Vec<f32>>, pub coeffs: Option<Vec<Vec<f32>>>, pub fillers: Vec<(S, Filler)> }
#[derive(Clone, Debug, Default)]
pub struct Feat { pub scope: Vec<S>, pub vocab: Vec<S>, pub idf: Vec<f32>, pub stemming: bool, pub clusters: Option<S>, pub cooc: Option<Cooc> }
#[derive(Clone, Debug, Default)]
pub struct Cooc { pub scope: Vec<S>, pub pairs: Vec<(S, S)>, pub window: Option<usize>, pub filter_sw: bool, pub keep_order: bool, pub unknown: Option<S> }
#[derive(Clone, Debug, Default)]
pub struct Filler { pub mapping: Vec<(S, S)>, pub crf: Option<Crf>, pub scheme: u8, pub features: Vec<Value> }
/// labels in clear; written base64-encoded
#[derive(Clone, Debug, Default)]
pub struct Crf { pub labels: Vec<S>, pub state: Vec<(S, S, f64)>, pub trans: Vec<(S, S, f64)> }

pub fn map(v: &[(S, S)]) -> Value { Value::Object(v.iter().map(|(k, v)| (k.clone(), json!(v))).collect()) }
fn mapv(v: &[(S, Vec<S>)]) -> Value { Value::Object(v.iter().map(|(k, v)| (k.clone(), json!(v))).collect()) }
fn maps(v: &[(S, Vec<(S, S)>)]) -> Value { Value::Object(v.iter().map(|(k, v)| (k.clone(), map(v))).collect()) }

pub fn put(p: &Path, v: &Value) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, serde_json::to_vec_pretty(v).unwrap()).unwrap();
}
pub fn put_text(p: &Path, t: &str) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, t).unwrap();
}
pub fn write_gazetteer(dir: &Path, ents: &[EntityVals]) {
    put(&dir.join("metadata.json"), &json!({"parsers_metadata": ents.iter().enumerate().map(|(i, e)| json!({"entity_identifier": e.name, "entity_parser": format!("parser_{}", i + 1)})).collect::<Vec<_>>()}));
    for (i, e) in ents.iter().enumerate() {
        let d = dir.join(format!("parser_{}", i + 1));
        put(&d.join("metadata.json"), &json!({"version": "0.7.2", "parser_filename": "parser", "threshold": e.threshold, "stop_words": [], "edge_cases": []}));
        put(&d.join("parser"), &json!(e.values.iter().map(|(r, v)| json!({"raw_value": r, "resolved_value": v, "injected": false})).collect::<Vec<_>>()));
    }
}
pub fn write_resources(dir: &Path, lang: &str, r: &Res) {
    let mut m = Map::new();
    m.insert("language".into(), json!(lang));
    m.insert("gazetteers".into(), json!(r.gazetteers.iter().map(|g| g.0.clone()).collect::<Vec<_>>()));
    m.insert("word_clusters".into(), json!(r.clusters.iter().map(|g| g.0.clone()).collect::<Vec<_>>()));
    m.insert("stems".into(), r.stems.as_ref().map(|_| json!("stems")).unwrap_or(Value::Null));
    m.insert("stop_words".into(), r.stop_words.as_ref().map(|_| json!("stop_words")).unwrap_or(Value::Null));
    put(&dir.join("metadata.json"), &Value::Object(m));
    if let Some(st) = &r.stems { put_text(&dir.join("stemming/stems.txt"), &st.iter().map(|l| l.join(",") + "\n").collect::<String>()); }
    if let Some(sw) = &r.stop_words { put_text(&dir.join("stop_words.txt"), &sw.iter().map(|l| l.clone() + "\n").collect::<String>()); }
    for (n, g) in &r.gazetteers { put_text(&dir.join("gazetteers").join(n).with_extension("txt"), &g.iter().map(|l| l.clone() + "\n").collect::<String>()); }
    for (n, g) in &r.clusters { put_text(&dir.join("word_clusters").join(n).with_extension("txt"), &g.iter().map(|(a, b)| format!("{}\t{}\n", a, b)).collect::<String>()); }
}

impl Engine {
    pub fn write(&self, dir: &Path) -> PathBuf {
        let ents: Map<String, Value> = self.entities.iter().map(|e| (e.name.clone(), json!({"automatically_extensible": e.extensible}))).collect();
        put(&dir.join("nlu_engine.json"), &json!({
            "unit_name": "nlu_engine",
            "dataset_metadata": {"language_code": self.lang, "entities": ents, "slot_name_mappings": maps(&self.intents)},
            "intent_parsers": self.parsers.iter().map(|p| p.0.clone()).collect::<Vec<_>>(),
            "model_version": "0.20.0", "training_package_version": "0.20.0",
            "builtin_entity_parser": "builtin_entity_parser", "custom_entity_parser": "custom_entity_parser"
        }));
        let b = dir.join("builtin_entity_parser");
        put(&b.join("metadata.json"), &json!({"language": self.lang, "gazetteer_parser": if self.gaz.is_empty() {Value::Null} else {json!("gazetteer_entity_parser")}}));
        put(&b.join("grammar.json"), &json!(self.grammar));
        if !self.gaz.is_empty() { write_gazetteer(&b.join("gazetteer_entity_parser"), &self.gaz); }
        let c = dir.join("custom_entity_parser");
        put(&c.join("metadata.json"), &json!({"language": self.lang, "parser_directory": "parser", "parser_usage": self.usage}));
        write_gazetteer(&c.join("parser"), &self.entities);
        write_resources(&dir.join("resources").join(&self.lang), &self.lang, &self.res);
        for (n, p) in &self.parsers {
            let d = dir.join(n);
            match p {
                Parser::Det(x) => self.write_det(&d, x),
                Parser::Lookup(x) => self.write_lookup(&d, x),
                Parser::Prob(x) => self.write_prob(&d, x),
            }
        }
        dir.to_path_buf()
    }
    pub fn write_det(&self, d: &Path, x: &Det) {
        put(&d.join("metadata.json"), &json!({"unit_name": "deterministic_intent_parser"}));
        let mut m = json!({"language_code": self.lang, "patterns": mapv(&x.patterns), "group_names_to_slot_names": map(&x.groups), "slot_names_to_entities": maps(&x.slots), "config": {"ignore_stop_words": x.ignore_sw}});
        if !x.sw_whitelist.is_empty() { m["stop_words_whitelist"] = mapv(&x.sw_whitelist); }
        put(&d.join("intent_parser.json"), &m);
    }
    pub fn lookup_model(&self, x: &Lookup) -> Value {
        let mut mp = Map::new();
        for (t, i, sl) in &x.utterances {
            let key = crate::refm::lookup_key(t, &stop_words_for(&self.res, x.ignore_sw, &x.sw_whitelist, &x.intents[*i]));
            mp.insert(snips_nlu_utils::string::hash_str_to_i32(&key).to_string(), json!([i, sl]));
        }
        json!({"language_code": self.lang, "slots_names": x.slots, "intents_names": x.intents, "map": mp,
            "entity_scopes": x.scopes.iter().map(|(g, b, c)| json!({"intent_group": g, "entity_scope": {"builtin": b, "custom": c}})).collect::<Vec<_>>(),
            "stop_words_whitelist": mapv(&x.sw_whitelist), "config": {"ignore_stop_words": x.ignore_sw}})
    }
    pub fn write_lookup(&self, d: &Path, x: &Lookup) {
        put(&d.join("metadata.json"), &json!({"unit_name": "lookup_intent_parser"}));
        put(&d.join("intent_parser.json"), &self.lookup_model(x));
    }
    pub fn write_prob(&self, d: &Path, x: &Prob) {
        put(&d.join("metadata.json"), &json!({"unit_name": "probabilistic_intent_parser"}));
        put(&d.join("intent_parser.json"), &json!({"slot_fillers": x.fillers.iter().enumerate().map(|(i, f)| json!({"intent": f.0, "slot_filler_name": format!("slot_filler_{}", i)})).collect::<Vec<_>>()}));
        let c = d.join("intent_classifier");
        put(&c.join("metadata.json"), &json!({"unit_name": "log_reg_intent_classifier"}));
        put(&c.join("intent_classifier.json"), &json!({"featurizer": x.feat.as_ref().map(|_| "featurizer"), "intercept": x.intercept, "coeffs": x.coeffs, "intent_list": x.intents}));
        if let Some(f) = &x.feat { self.write_featurizer(&c.join("featurizer"), f); }
        for (i, (intent, f)) in x.fillers.iter().enumerate() { self.write_filler(&d.join(format!("slot_filler_{}", i)), intent, f); }
    }
    pub fn write_featurizer(&self, fd: &Path, f: &Feat) {
        put(&fd.join("metadata.json"), &json!({"unit_name": "featurizer"}));
        put(&fd.join("featurizer.json"), &json!({"language_code": self.lang, "tfidf_vectorizer": "tfidf_vectorizer", "cooccurrence_vectorizer": f.cooc.as_ref().map(|_| "cooccurrence_vectorizer")}));
        let vocab: BTreeMap<&str, usize> = f.vocab.iter().enumerate().map(|(i, w)| (w.as_str(), i)).collect();
        put(&fd.join("tfidf_vectorizer/vectorizer.json"), &json!({"language_code": self.lang, "builtin_entity_scope": f.scope, "vectorizer": {"vocab": vocab, "idf_diag": f.idf}, "config": {"use_stemming": f.stemming, "word_clusters_name": f.clusters}}));
        put(&fd.join("tfidf_vectorizer/metadata.json"), &json!({"unit_name": "tfidf_vectorizer"}));
        if let Some(c) = &f.cooc {
            let wp: Map<String, Value> = c.pairs.iter().enumerate().map(|(i, p)| (i.to_string(), json!([p.0, p.1]))).collect();
            put(&fd.join("cooccurrence_vectorizer/vectorizer.json"), &json!({"language_code": self.lang, "builtin_entity_scope": c.scope, "word_pairs": wp, "config": {"window_size": c.window, "filter_stop_words": c.filter_sw, "keep_order": c.keep_order, "unknown_words_replacement_string": c.unknown}}));
            put(&fd.join("cooccurrence_vectorizer/metadata.json"), &json!({"unit_name": "cooccurrence_vectorizer"}));
        }
    }
    pub fn write_filler(&self, fd: &Path, intent: &str, f: &Filler) {
        put(&fd.join("metadata.json"), &json!({"unit_name": "crf_slot_filler"}));
        put(&fd.join("slot_filler.json"), &json!({"language_code": self.lang, "intent": intent, "slot_name_mapping": map(&f.mapping), "crf_model_file": f.crf.as_ref().map(|_| "model.crfsuite"), "config": {"tagging_scheme": f.scheme, "feature_factory_configs": f.features}}));
        if let Some(c) = &f.crf { put(&fd.join("model.crfsuite"), &crf_json(c)); }
    }
}
pub fn crf_json(c: &Crf) -> Value {
    let e = |l: &str| base64::encode(l);
    let mut st: BTreeMap<String, BTreeMap<String, f64>> = BTreeMap::new();
    for (a, l, w) in &c.state { *st.entry(a.clone()).or_default().entry(e(l)).or_insert(0.0) += w; }
    let mut tr: BTreeMap<String, BTreeMap<String, f64>> = BTreeMap::new();
    for (a, b, w) in &c.trans { *tr.entry(e(a)).or_default().entry(e(b)).or_insert(0.0) += w; }
    json!({"labels": c.labels.iter().map(|l| e(l)).collect::<Vec<_>>(), "state": st, "trans": tr})
}
pub fn stop_words_for(res: &Res, ignore: bool, wl: &[(S, Vec<S>)], intent: &str) -> Vec<S> {
    if !ignore { return vec![]; }
    let all = res.stop_words.clone().unwrap_or_default();
    match wl.iter().find(|w| w.0 == intent) {
        Some((_, keep)) => all.into_iter().filter(|w| !keep.contains(w)).collect(),
        None => all,
    }
}
