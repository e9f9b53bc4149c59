//! Stand-in for crfsuite 0.3.3: a linear-chain CRF tagger over a JSON model
//! {"labels": [...], "state": {attribute: {label: weight}}, "trans": {label: {label: weight}}}
//! with, for the explorer, an oracle that can dictate the next label sequence.
use failure::{format_err, Fail};
use serde::Deserialize;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Debug, Fail)]
#[fail(display = "crfsuite error: {}", _0)]
pub struct CrfError(pub String);
pub type Result<T> = std::result::Result<T, failure::Error>;

#[derive(Debug, Clone, PartialEq)]
pub struct Attribute { pub name: String, pub value: f64 }
impl Attribute { pub fn new<T: Into<String>>(name: T, value: f64) -> Self { Attribute { name: name.into(), value } } }
pub trait SimpleAttribute { fn get_attr(&self) -> String; fn get_value(&self) -> f64 { 1.0 } }
impl SimpleAttribute for (String, String) { fn get_attr(&self) -> String { format!("{}:{}", self.0, self.1) } }
impl<'a> SimpleAttribute for (&'a str, &'a str) { fn get_attr(&self) -> String { format!("{}:{}", self.0, self.1) } }
impl SimpleAttribute for String { fn get_attr(&self) -> String { self.clone() } }
impl SimpleAttribute for (String, f64) { fn get_attr(&self) -> String { self.0.clone() } fn get_value(&self) -> f64 { self.1 } }
impl SimpleAttribute for Attribute { fn get_attr(&self) -> String { self.name.clone() } fn get_value(&self) -> f64 { self.value } }

#[derive(Debug, Clone, Deserialize)]
struct Model {
    labels: Vec<String>,
    #[serde(default)]
    state: BTreeMap<String, BTreeMap<String, f64>>,
    #[serde(default)]
    trans: BTreeMap<String, BTreeMap<String, f64>>,
}

thread_local! {
    static ORACLE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
    static SEEN: RefCell<Vec<Vec<String>>> = const { RefCell::new(vec![]) };
    static FAIL: RefCell<Option<usize>> = const { RefCell::new(None) };
    static PROB: RefCell<Vec<Vec<String>>> = const { RefCell::new(vec![]) };
}
/// The next `tag` calls of this thread answer with these (already encoded) labels.
pub fn mc_set_oracle(labels: Option<Vec<String>>) { ORACLE.with(|o| *o.borrow_mut() = labels); }
/// The n-th next call into a tagger (0 = the next one) of this thread fails.
pub fn mc_fail_nth(n: Option<usize>) { FAIL.with(|f| *f.borrow_mut() = n); }
pub fn mc_fail_pending() -> bool { FAIL.with(|f| f.borrow().is_some()) }
fn enter() -> Result<()> {
    let fail = FAIL.with(|f| {
        let mut f = f.borrow_mut();
        match *f { Some(0) => { *f = None; true } Some(n) => { *f = Some(n - 1); false } None => false }
    });
    if fail { return Err(format_err!("injected tagger failure")); }
    Ok(())
}
/// Attributes of the last sequence given to a tagger on this thread.
pub fn mc_last_items() -> Vec<Vec<String>> { SEEN.with(|s| s.borrow().clone()) }
/// Label sequences whose probability was asked for on this thread since the last call.
pub fn mc_take_probability_queries() -> Vec<Vec<String>> { PROB.with(|s| std::mem::take(&mut *s.borrow_mut())) }

pub struct Tagger {
    model: Model,
    items: RefCell<Vec<Vec<(String, f64)>>>,
}

impl Tagger {
    pub fn create_from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
        let data = mc_std::fs::read(path.as_ref()).map_err(|e| format_err!("cannot read crf model: {}", e))?;
        Self::create_from_memory(&data)
    }
    pub fn create_from_memory<T: AsRef<[u8]>>(data: T) -> Result<Self> {
        if data.as_ref().starts_with(b"lCRF") {
            let model = read_crfsuite(data.as_ref()).ok_or_else(|| format_err!("invalid crf model"))?;
            return Ok(Tagger { model, items: RefCell::new(vec![]) });
        }
        let model: Model = serde_json::from_slice(data.as_ref()).map_err(|e| format_err!("invalid crf model: {}", e))?;
        Ok(Tagger { model, items: RefCell::new(vec![]) })
    }
    pub fn labels(&self) -> Result<Vec<String>> {
        mc_env::sched::point("crf.labels");
        enter()?;
        Ok(self.model.labels.clone())
    }
    fn conv<T: SimpleAttribute>(xseq: &[Vec<T>]) -> Vec<Vec<(String, f64)>> {
        xseq.iter().map(|i| i.iter().map(|a| (a.get_attr(), a.get_value())).collect()).collect()
    }
    pub fn set<T: SimpleAttribute>(&self, xseq: &[Vec<T>]) -> Result<()> {
        mc_env::sched::point("crf.set");
        enter()?;
        let items = Self::conv(xseq);
        SEEN.with(|s| *s.borrow_mut() = items.iter().map(|i| i.iter().map(|a| a.0.clone()).collect()).collect());
        *self.items.borrow_mut() = items;
        mc_env::sched::point("crf.set.done");
        Ok(())
    }
    pub fn tag<T: SimpleAttribute>(&self, xseq: &[Vec<T>]) -> Result<Vec<String>> {
        self.set(xseq)?;
        self.viterbi()
    }
    fn idx(&self, label: &str) -> Option<usize> { self.model.labels.iter().position(|l| l == label) }
    fn state_scores(&self) -> Vec<Vec<f64>> {
        self.items
            .borrow()
            .iter()
            .map(|item| {
                let mut v = vec![0.0; self.model.labels.len()];
                for (a, w) in item {
                    if let Some(m) = self.model.state.get(a) {
                        for (l, x) in m {
                            if let Some(i) = self.idx(l) { v[i] += w * x; }
                        }
                    }
                }
                v
            })
            .collect()
    }
    fn trans(&self, a: usize, b: usize) -> f64 {
        self.model.trans.get(&self.model.labels[a]).and_then(|m| m.get(&self.model.labels[b])).cloned().unwrap_or(0.0)
    }
    pub fn viterbi(&self) -> Result<Vec<String>> {
        mc_env::sched::point("crf.viterbi");
        enter()?;
        if let Some(o) = ORACLE.with(|o| o.borrow().clone()) {
            if o.len() == self.items.borrow().len() { return Ok(o); }
        }
        let s = self.state_scores();
        let n = self.model.labels.len();
        if s.is_empty() || n == 0 { return Ok(vec![]); }
        let mut best = s[0].clone();
        let mut back: Vec<Vec<usize>> = vec![];
        for row in s.iter().skip(1) {
            let mut nb = vec![f64::NEG_INFINITY; n];
            let mut bp = vec![0; n];
            for j in 0..n {
                for i in 0..n {
                    let v = best[i] + self.trans(i, j) + row[j];
                    if v > nb[j] { nb[j] = v; bp[j] = i; }
                }
            }
            back.push(bp);
            best = nb;
        }
        let mut k = 0;
        for i in 0..n { if best[i] > best[k] { k = i; } }
        let mut path = vec![k];
        for bp in back.iter().rev() { k = bp[k]; path.push(k); }
        path.reverse();
        Ok(path.into_iter().map(|i| self.model.labels[i].clone()).collect())
    }
    /// probability of a label sequence for the items given by `set`
    pub fn probability<T: AsRef<str>>(&self, tags: &[T]) -> Result<f64> {
        mc_env::sched::point("crf.probability");
        enter()?;
        PROB.with(|p| p.borrow_mut().push(tags.iter().map(|t| t.as_ref().to_string()).collect()));
        let s = self.state_scores();
        if s.is_empty() || s.len() != tags.len() { return Err(CrfError("sequence length mismatch".into()).into()); }
        let n = self.model.labels.len();
        let ids: Vec<usize> = tags
            .iter()
            .map(|t| self.idx(t.as_ref()).ok_or_else(|| failure::Error::from(CrfError(format!("unknown label {}", t.as_ref())))))
            .collect::<Result<_>>()?;
        let mut alpha = s[0].clone();
        for row in s.iter().skip(1) {
            alpha = (0..n).map(|j| lse((0..n).map(|i| alpha[i] + self.trans(i, j))) + row[j]).collect();
        }
        let z = lse(alpha.into_iter());
        let mut score = s[0][ids[0]];
        for t in 1..ids.len() { score += self.trans(ids[t - 1], ids[t]) + s[t][ids[t]]; }
        Ok((score - z).exp())
    }
    pub fn marginal(&self, label: &str, position: i32) -> Result<f64> {
        mc_env::sched::point("crf.marginal");
        let s = self.state_scores();
        let n = self.model.labels.len();
        let p = position as usize;
        let k = self.idx(label).ok_or_else(|| format_err!("unknown label"))?;
        if p >= s.len() { return Err(format_err!("position out of range")); }
        let mut alpha = s[0].clone();
        for row in s.iter().take(p + 1).skip(1) { alpha = (0..n).map(|j| lse((0..n).map(|i| alpha[i] + self.trans(i, j))) + row[j]).collect(); }
        let mut beta = vec![0.0; n];
        for row in s.iter().skip(p + 1).rev() { beta = (0..n).map(|i| lse((0..n).map(|j| self.trans(i, j) + row[j] + beta[j]))).collect(); }
        let z = lse((0..n).map(|i| alpha[i] + beta[i]));
        Ok((alpha[k] + beta[k] - z).exp())
    }
}
fn lse<I: Iterator<Item = f64>>(it: I) -> f64 {
    let v: Vec<f64> = it.collect();
    let m = v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    m + v.iter().map(|x| (x - m).exp()).sum::<f64>().ln()
}

/// Reads the models CRFsuite itself writes (lCRF / FOMC).
fn read_crfsuite(d: &[u8]) -> Option<Model> {
    let u = |o: usize| d.get(o..o + 4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize);
    let cqdb = |base: usize| -> Option<Vec<String>> {
        if d.get(base..base + 4)? != b"CQDB" { return None; }
        let n = u(base + 16)?;
        let back = u(base + 20)?;
        (0..n)
            .map(|i| {
                let rec = base + u(base + back + 4 * i)?;
                let ks = u(rec + 4)?;
                String::from_utf8(d.get(rec + 8..rec + 8 + ks - 1)?.to_vec()).ok()
            })
            .collect()
    };
    let (n_labels, n_attrs, off_f, off_l, off_a) = (u(20)?, u(24)?, u(28)?, u(32)?, u(36)?);
    let labels = cqdb(off_l)?;
    let attrs = cqdb(off_a)?;
    if labels.len() < n_labels || attrs.len() < n_attrs { return None; }
    let n = u(off_f + 8)?;
    let mut m = Model { labels, state: Default::default(), trans: Default::default() };
    for i in 0..n {
        let o = off_f + 12 + 20 * i;
        let (ty, src, dst) = (u(o)?, u(o + 4)?, u(o + 8)?);
        let mut w = [0u8; 8];
        w.copy_from_slice(d.get(o + 12..o + 20)?);
        let w = f64::from_le_bytes(w);
        let dst = m.labels.get(dst)?.clone();
        if ty == 0 {
            m.state.entry(attrs.get(src)?.clone()).or_default().insert(dst, w);
        } else {
            let src = m.labels.get(src)?.clone();
            m.trans.entry(src).or_default().insert(dst, w);
        }
    }
    Some(m)
}
