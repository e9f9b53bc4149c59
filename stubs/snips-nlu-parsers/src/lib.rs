//! Stand-in for snips-nlu-parsers 0.4.3 and the gazetteer-entity-parser it re-exports.
//!
//! * grammar entities: a deterministic rule table (`grammar.json` beside the builtin parser's
//!   metadata, or a small built-in English one) in place of rustling;
//! * gazetteer entities: token sequences matched left to right, longest match first, earlier values
//!   first; with `threshold` < 1 a long enough contiguous part of a value matches too.
use failure::{format_err, ResultExt};
use lazy_static::lazy_static;
use serde::{Deserialize, Serialize};
use snips_nlu_ontology::*;

use std::ops::Range;
use std::path::Path;

pub type Result<T> = std::result::Result<T, failure::Error>;

/// What the explorer sees of, and does to, the parsers behind the caches. Per thread.
pub mod mc {
    use std::cell::RefCell;
    #[derive(Debug, Clone, PartialEq)]
    pub struct Call { pub parser: &'static str, pub sentence: String, pub kinds: Option<Vec<String>>, pub max_alternatives: usize }
    thread_local! {
        pub(crate) static CALLS: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
        pub(crate) static LOG: RefCell<bool> = const { RefCell::new(false) };
        pub(crate) static FAIL: RefCell<Option<usize>> = const { RefCell::new(None) };
    }
    /// From now on, calls are recorded (true) or not.
    pub fn record(on: bool) { LOG.with(|l| *l.borrow_mut() = on); CALLS.with(|c| c.borrow_mut().clear()); }
    pub fn take_calls() -> Vec<Call> { CALLS.with(|c| std::mem::take(&mut *c.borrow_mut())) }
    /// The n-th next call (0 = the next one) of this thread fails.
    pub fn fail_nth(n: Option<usize>) { FAIL.with(|f| *f.borrow_mut() = n); }
    pub fn fail_pending() -> bool { FAIL.with(|f| f.borrow().is_some()) }
    pub(crate) fn enter(parser: &'static str, sentence: &str, kinds: Option<Vec<String>>, max_alternatives: usize) -> super::Result<()> {
        if LOG.with(|l| *l.borrow()) {
            CALLS.with(|c| c.borrow_mut().push(Call { parser, sentence: sentence.to_string(), kinds, max_alternatives }));
        }
        let fail = FAIL.with(|f| {
            let mut f = f.borrow_mut();
            match *f { Some(0) => { *f = None; true } Some(n) => { *f = Some(n - 1); false } None => false }
        });
        if fail { return Err(failure::format_err!("injected entity parser failure")); }
        Ok(())
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BuiltinParserMetadata { pub language: String, pub gazetteer_parser: Option<String> }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GazetteerParserMetadata { pub parsers_metadata: Vec<EntityParserMetadata> }
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct EntityParserMetadata { pub entity_identifier: String, pub entity_parser: String }

pub mod gazetteer_entity_parser {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
    pub struct EntityValue { pub resolved_value: String, pub raw_value: String }

    #[derive(Debug, Clone, Serialize, Deserialize)]
    struct Meta { version: String, parser_filename: String, threshold: f32, stop_words: Vec<String>, edge_cases: Vec<String> }
    #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
    struct Stored { resolved_value: String, raw_value: String, #[serde(default)] injected: bool }

    #[derive(Debug, Clone)]
    pub struct Parser { meta: Meta, values: Vec<Stored> }

    #[derive(Debug, Clone, PartialEq)]
    pub struct ParsedValue { pub matched_value: String, pub resolved_value: String, pub alternatives: Vec<String>, pub range: Range<usize> }

    impl Parser {
        pub fn new(values: Vec<EntityValue>, threshold: f32) -> Self {
            Parser {
                meta: Meta { version: "0.7.2".into(), parser_filename: "parser".into(), threshold, stop_words: vec![], edge_cases: vec![] },
                values: values.into_iter().map(|v| Stored { resolved_value: v.resolved_value, raw_value: v.raw_value, injected: false }).collect(),
            }
        }
        pub fn from_folder<P: AsRef<Path>>(folder: P) -> Result<Self> {
            let meta_path = folder.as_ref().join("metadata.json");
            let meta: Meta = serde_json::from_slice(&mc_std::fs::read(&meta_path).with_context(|_| format!("Cannot open parser metadata {:?}", meta_path))?)
                .with_context(|_| "invalid parser metadata")?;
            let path = folder.as_ref().join(&meta.parser_filename);
            let data = mc_std::fs::read(&path).with_context(|_| format!("Cannot open parser {:?}", path))?;
            let values: Vec<Stored> = if data.first().map(|b| b & 0xf0) == Some(0x90) {
                super::msgpack::read(&data).ok_or_else(|| format_err!("invalid parser data"))?.into_iter().map(|(raw_value, resolved_value)| Stored { resolved_value, raw_value, injected: false }).collect()
            } else {
                serde_json::from_slice(&data).with_context(|_| "invalid parser data")?
            };
            Ok(Parser { meta, values })
        }
        pub fn dump<P: AsRef<Path>>(&self, folder: P) -> Result<()> {
            use std::io::Write;
            let folder = folder.as_ref();
            mc_std::fs::create_dir(folder).with_context(|_| format!("Cannot create parser directory {:?}", folder))?;
            let mut w = mc_std::fs::File::create(folder.join("metadata.json"))?;
            w.write_all(&serde_json::to_vec(&self.meta)?)?;
            let mut w = mc_std::fs::File::create(folder.join(&self.meta.parser_filename))?;
            w.write_all(&serde_json::to_vec(&self.values)?)?;
            Ok(())
        }
        pub fn inject_new_values(&mut self, new_values: Vec<EntityValue>, prepend: bool, from_vanilla: bool) -> Result<()> {
            if from_vanilla { self.values.retain(|v| !v.injected); }
            let new: Vec<Stored> = new_values.into_iter().map(|v| Stored { resolved_value: v.resolved_value, raw_value: v.raw_value, injected: true }).collect();
            if prepend { let old = std::mem::replace(&mut self.values, new); self.values.extend(old); } else { self.values.extend(new); }
            Ok(())
        }
        pub fn prepend_values(&mut self, v: Vec<EntityValue>) { let _ = self.inject_new_values(v, true, false); }

        /// matches of the whitespace separated tokens of `input`; ranges in characters
        pub fn run(&self, input: &str, max_alternatives: usize) -> Result<Vec<ParsedValue>> {
            let mut toks: Vec<(&str, Range<usize>)> = vec![];
            let mut start: Option<(usize, usize)> = None;
            let mut n = 0;
            for (ci, (bi, c)) in input.char_indices().enumerate() {
                n = ci + 1;
                if c.is_whitespace() {
                    if let Some((b, s)) = start.take() { toks.push((&input[b..bi], s..ci)); }
                } else if start.is_none() { start = Some((bi, ci)); }
            }
            if let Some((b, s)) = start { toks.push((&input[b..], s..n)); }
            let words: Vec<&str> = toks.iter().map(|t| t.0).collect();
            let raws: Vec<Vec<&str>> = self.values.iter().map(|v| v.raw_value.split_whitespace().collect()).collect();
            // (window length, ratio, rank, start)
            let mut found: Vec<(usize, f32, usize, usize)> = vec![];
            for (rank, raw) in raws.iter().enumerate() {
                if raw.is_empty() { continue; }
                for s in 0..words.len() {
                    let mut best = 0;
                    for rs in 0..raw.len() {
                        let mut l = 0;
                        while rs + l < raw.len() && s + l < words.len() && raw[rs + l] == words[s + l] { l += 1; }
                        best = best.max(l);
                    }
                    if best == 0 { continue; }
                    let ratio = best as f32 / raw.len() as f32;
                    if ratio >= self.meta.threshold { found.push((best, ratio, rank, s)); }
                }
            }
            found.sort_by(|a, b| b.0.cmp(&a.0).then(b.1.partial_cmp(&a.1).unwrap()).then(a.2.cmp(&b.2)).then(a.3.cmp(&b.3)));
            let mut used: Vec<Range<usize>> = vec![];
            let mut out: Vec<ParsedValue> = vec![];
            for (len, _, rank, s) in found.iter().cloned() {
                let w = s..s + len;
                let resolved = &self.values[rank].resolved_value;
                if let Some(i) = used.iter().position(|u| *u == w) {
                    let o = &mut out[i];
                    if o.resolved_value != *resolved && !o.alternatives.contains(resolved) { o.alternatives.push(resolved.clone()); }
                    continue;
                }
                if used.iter().any(|u| u.start < w.end && w.start < u.end) { continue; }
                out.push(ParsedValue {
                    matched_value: words[w.clone()].join(" "),
                    resolved_value: resolved.clone(),
                    alternatives: vec![],
                    range: toks[s].1.start..toks[s + len - 1].1.end,
                });
                used.push(w);
            }
            for o in out.iter_mut() { o.alternatives.truncate(max_alternatives); }
            out.sort_by_key(|o| o.range.start);
            Ok(out)
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct GazetteerEntityMatch<T> {
    pub value: String,
    pub resolved_value: String,
    pub alternative_resolved_values: Vec<String>,
    pub range: Range<usize>,
    pub entity_identifier: T,
}

pub struct GazetteerParser<T> { parsers: Vec<(T, gazetteer_entity_parser::Parser)> }
impl GazetteerParser<String> {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        let p = path.as_ref().join("metadata.json");
        let meta: GazetteerParserMetadata = serde_json::from_slice(&mc_std::fs::read(&p).with_context(|_| format!("Cannot open metadata file for gazetteer parser at {:?}", p))?)
            .with_context(|_| "Cannot deserialize gazetteer parser metadata")?;
        let parsers = meta
            .parsers_metadata
            .into_iter()
            .map(|m| Ok((m.entity_identifier, gazetteer_entity_parser::Parser::from_folder(path.as_ref().join(m.entity_parser))?)))
            .collect::<Result<Vec<_>>>()?;
        Ok(GazetteerParser { parsers })
    }
    pub fn extract_entities(&self, sentence: &str, scope: Option<&[String]>, max_alternatives: usize) -> Result<Vec<GazetteerEntityMatch<String>>> {
        mc_env::sched::point("gazetteer.extract");
        mc::enter("gazetteer", sentence, scope.map(|s| s.to_vec()), max_alternatives)?;
        self.run(sentence, scope, max_alternatives)
    }
    fn run(&self, sentence: &str, scope: Option<&[String]>, max_alternatives: usize) -> Result<Vec<GazetteerEntityMatch<String>>> {
        let mut out = vec![];
        for (id, p) in &self.parsers {
            if scope.map(|s| s.contains(id)).unwrap_or(true) {
                for m in p.run(sentence, max_alternatives)? {
                    out.push(GazetteerEntityMatch { value: m.matched_value, resolved_value: m.resolved_value, alternative_resolved_values: m.alternatives, range: m.range, entity_identifier: id.clone() });
                }
            }
        }
        out.sort_by_key(|m| m.range.start);
        Ok(out)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GrammarRule { pub kind: String, pub text: String, pub value: SlotValue, #[serde(default)] pub alternatives: Vec<SlotValue> }

lazy_static! {
    static ref DEFAULT_RULES: Vec<GrammarRule> = {
        let mut v = vec![];
        for (i, w) in ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten"].iter().enumerate() {
            v.push(GrammarRule { kind: "snips/number".into(), text: w.to_string(), value: SlotValue::Number((i as f64).into()), alternatives: vec![] });
            v.push(GrammarRule { kind: "snips/temperature".into(), text: w.to_string(), value: SlotValue::Temperature(TemperatureValue { value: i as f32, unit: None }), alternatives: vec![] });
            for k in &["snips/datetime", "snips/datePeriod"] {
                v.push(GrammarRule { kind: k.to_string(), text: w.to_string(), value: SlotValue::InstantTime(InstantTimeValue { value: w.to_string(), grain: Grain::Hour, precision: Precision::Exact }), alternatives: vec![] });
            }
            v.push(GrammarRule { kind: "snips/number".into(), text: i.to_string(), value: SlotValue::Number((i as f64).into()), alternatives: vec![] });
        }
        for (i, w) in ["first", "second", "third"].iter().enumerate() {
            v.push(GrammarRule { kind: "snips/ordinal".into(), text: w.to_string(), value: SlotValue::Ordinal((i as i64 + 1).into()), alternatives: vec![] });
        }
        for w in ["today", "tomorrow", "tonight"] {
            v.push(GrammarRule {
                kind: "snips/datetime".into(),
                text: w.to_string(),
                value: SlotValue::InstantTime(InstantTimeValue { value: w.to_string(), grain: Grain::Day, precision: Precision::Exact }),
                alternatives: vec![SlotValue::InstantTime(InstantTimeValue { value: format!("next {}", w), grain: Grain::Day, precision: Precision::Exact })],
            });
        }
        v
    };
}

pub struct BuiltinEntityParser { rules: Vec<(BuiltinEntityKind, GrammarRule)>, gazetteer: Option<GazetteerParser<String>> }
fn is_word(c: char) -> bool { c.is_alphanumeric() || c == '_' }
impl BuiltinEntityParser {
    pub fn from_path<P: AsRef<Path>>(path: P) -> Result<Self> {
        let path = path.as_ref();
        let p = path.join("metadata.json");
        let meta: BuiltinParserMetadata = serde_json::from_slice(&mc_std::fs::read(&p).with_context(|_| format!("Cannot open metadata of builtin entity parser {:?}", p))?)
            .with_context(|_| "Cannot deserialize builtin parser metadata")?;
        let _: Language = meta.language.parse()?;
        let gazetteer = match meta.gazetteer_parser { Some(d) => Some(GazetteerParser::from_path(path.join(d))?), None => None };
        let g = path.join("grammar.json");
        let rules = if g.exists() { serde_json::from_slice(&std::fs::read(&g)?)? } else { DEFAULT_RULES.clone() };
        let rules = rules.into_iter().map(|r: GrammarRule| Ok((BuiltinEntityKind::from_identifier(&r.kind)?, r))).collect::<Result<Vec<_>>>()?;
        Ok(BuiltinEntityParser { rules, gazetteer })
    }
    pub fn extract_entities(&self, sentence: &str, kinds: Option<&[BuiltinEntityKind]>, max_alternatives: usize) -> Result<Vec<BuiltinEntity>> {
        mc_env::sched::point("builtin.extract");
        mc::enter("builtin", sentence, kinds.map(|k| k.iter().map(|k| k.identifier().to_string()).collect()), max_alternatives)?;
        let chars: Vec<char> = sentence.chars().collect();
        let mut out: Vec<BuiltinEntity> = vec![];
        let mut hits: Vec<(usize, usize, usize)> = vec![]; // len, start, rule
        for (ri, (kind, rule)) in self.rules.iter().enumerate() {
            if !kinds.map(|k| k.contains(kind)).unwrap_or(true) { continue; }
            let pat: Vec<char> = rule.text.chars().collect();
            if pat.is_empty() || pat.len() > chars.len() { continue; }
            for s in 0..=chars.len() - pat.len() {
                if chars[s..s + pat.len()] == pat[..]
                    && (s == 0 || !is_word(chars[s - 1]) || !is_word(pat[0]))
                    && (s + pat.len() == chars.len() || !is_word(chars[s + pat.len()]) || !is_word(pat[pat.len() - 1]))
                {
                    hits.push((pat.len(), s, ri));
                }
            }
        }
        hits.sort_by(|a, b| b.0.cmp(&a.0).then(a.1.cmp(&b.1)).then(a.2.cmp(&b.2)));
        for (len, s, ri) in hits {
            let (kind, rule) = &self.rules[ri];
            if out.iter().any(|e| e.entity_kind == *kind && e.range.start < s + len && s < e.range.end) { continue; }
            let mut alternatives = rule.alternatives.clone();
            alternatives.truncate(max_alternatives);
            out.push(BuiltinEntity { value: chars[s..s + len].iter().collect(), range: s..s + len, entity: rule.value.clone(), alternatives, entity_kind: *kind });
        }
        if let Some(g) = &self.gazetteer {
            let ids: Option<Vec<String>> = kinds.map(|k| k.iter().map(|k| k.identifier().to_string()).collect());
            for m in g.run(sentence, ids.as_ref().map(|v| &v[..]), max_alternatives)? {
                let kind = BuiltinEntityKind::from_identifier(&m.entity_identifier)?;
                let mk = |v: String| -> Result<SlotValue> {
                    let v: StringValue = v.into();
                    Ok(match kind {
                        BuiltinEntityKind::MusicAlbum => SlotValue::MusicAlbum(v),
                        BuiltinEntityKind::MusicArtist => SlotValue::MusicArtist(v),
                        BuiltinEntityKind::MusicTrack => SlotValue::MusicTrack(v),
                        BuiltinEntityKind::City => SlotValue::City(v),
                        BuiltinEntityKind::Country => SlotValue::Country(v),
                        BuiltinEntityKind::Region => SlotValue::Region(v),
                        _ => return Err(format_err!("not a gazetteer kind")),
                    })
                };
                out.push(BuiltinEntity {
                    value: m.value,
                    range: m.range,
                    entity: mk(m.resolved_value)?,
                    alternatives: m.alternative_resolved_values.into_iter().map(mk).collect::<Result<_>>()?,
                    entity_kind: kind,
                });
            }
        }
        out.sort_by(|a, b| a.range.start.cmp(&b.range.start).then(b.range.end.cmp(&a.range.end)).then(a.entity_kind.cmp(&b.entity_kind)));
        Ok(out)
    }
}

/// Reads the MessagePack files gazetteer-entity-parser itself writes, as (raw value, resolved value) by rank.
mod msgpack {
    #[derive(Debug, Clone)]
    enum V { Int(i64), Str(String), Arr(Vec<V>), Map(Vec<(V, V)>), Other }
    fn dec(b: &[u8], i: &mut usize) -> Option<V> {
        let t = *b.get(*i)?;
        *i += 1;
        let mut num = |n: usize| -> Option<u64> { let v = b.get(*i..*i + n)?.iter().fold(0u64, |a, x| a << 8 | u64::from(*x)); *i += n; Some(v) };
        Some(match t {
            0..=0x7f => V::Int(i64::from(t)),
            0x80..=0x8f => map(b, i, (t & 15) as usize)?,
            0x90..=0x9f => arr(b, i, (t & 15) as usize)?,
            0xa0..=0xbf => st(b, i, (t & 31) as usize)?,
            0xca => { num(4)?; V::Other }
            0xcb => { num(8)?; V::Other }
            0xcc => V::Int(num(1)? as i64),
            0xcd => V::Int(num(2)? as i64),
            0xce => V::Int(num(4)? as i64),
            0xcf => V::Int(num(8)? as i64),
            0xd9 => { let n = num(1)?; st(b, i, n as usize)? }
            0xda => { let n = num(2)?; st(b, i, n as usize)? }
            0xdc => { let n = num(2)?; arr(b, i, n as usize)? }
            0xdd => { let n = num(4)?; arr(b, i, n as usize)? }
            0xde => { let n = num(2)?; map(b, i, n as usize)? }
            0xdf => { let n = num(4)?; map(b, i, n as usize)? }
            _ => V::Other,
        })
    }
    fn st(b: &[u8], i: &mut usize, n: usize) -> Option<V> { let s = String::from_utf8(b.get(*i..*i + n)?.to_vec()).ok()?; *i += n; Some(V::Str(s)) }
    fn arr(b: &[u8], i: &mut usize, n: usize) -> Option<V> { (0..n).map(|_| dec(b, i)).collect::<Option<Vec<_>>>().map(V::Arr) }
    fn map(b: &[u8], i: &mut usize, n: usize) -> Option<V> { (0..n).map(|_| Some((dec(b, i)?, dec(b, i)?))).collect::<Option<Vec<_>>>().map(V::Map) }
    pub fn read(b: &[u8]) -> Option<Vec<(String, String)>> {
        let mut i = 0;
        let top = match dec(b, &mut i)? { V::Arr(a) => a, _ => return None };
        let table = |v: &V| match v { V::Arr(a) => match a.first() { Some(V::Map(m)) => Some(m.clone()), _ => None }, _ => None };
        let token = |id: i64| table(&top[0])?.into_iter().find_map(|(k, v)| match (k, v) { (V::Str(s), V::Int(n)) if n == id => Some(s), _ => None });
        let resolved = |id: i64| table(&top[1])?.into_iter().find_map(|(k, v)| match (k, v) { (V::Int(n), V::Str(s)) if n == id => Some(s), _ => None });
        let vals = match &top[3] { V::Map(m) => m, _ => return None };
        let mut out: Vec<(i64, String, String)> = vec![];
        for (k, v) in vals {
            if let (V::Int(id), V::Arr(a)) = (k, v) {
                if let (Some(V::Int(rank)), Some(V::Arr(toks))) = (a.first(), a.get(1)) {
                    let raw: Option<Vec<String>> = toks.iter().map(|t| match t { V::Int(n) => token(*n), _ => None }).collect();
                    out.push((*rank, raw?.join(" "), resolved(*id)?));
                }
            }
        }
        out.sort();
        Some(out.into_iter().map(|(_, a, b)| (a, b)).collect())
    }
}
