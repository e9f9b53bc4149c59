//! Bookkeeping of one check: counters, samples, violations, known findings, evidence.
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub root: PathBuf,
    pub scratch: tempfile::TempDir,
    start: Instant,
    evals: AtomicUsize,
    distinct: Vec<Mutex<HashSet<u64>>>,
    states: Mutex<HashSet<u64>>,
    transitions: AtomicUsize,
    traces: AtomicUsize,
    samples: Mutex<Vec<Value>>,
    extra: Mutex<Map<String, Value>>,
    violations: Mutex<BTreeMap<String, Value>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, usize>>,
    stop: AtomicBool,
    pub rule: Mutex<String>,
    pub level: Mutex<String>,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
/// what each worker is doing, for the watchdog
type Slot = Arc<Mutex<Option<(Instant, String)>>>;
static BUSY: Mutex<Vec<std::sync::Weak<Mutex<Option<(Instant, String)>>>>> = Mutex::new(vec![]);
thread_local! { static ME: Slot = { let s = Slot::default(); let mut b = BUSY.lock().unwrap(); b.retain(|w| w.strong_count() > 0); b.push(Arc::downgrade(&s)); s }; }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        if std::thread::current().name() == Some("main") { eprintln!("{}", m); }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = m.chars().take(600).collect());
    }));
}

/// Runs code under test; a panic becomes Err with its message and place.
pub fn guard<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    let me = ME.with(|m| m.clone());
    *me.lock().unwrap() = Some((Instant::now(), what()));
    let r = catch_unwind(AssertUnwindSafe(f));
    *me.lock().unwrap() = None;
    r.map_err(|_| format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone())))
}
/// As guard, without the watchdog (for very short calls made very often).
pub fn guard_fast<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone())))
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let known: Vec<(String, String)> = std::fs::read(root.join("known_findings.json"))
            .ok()
            .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
            .and_then(|v| v["open"].as_array().cloned())
            .unwrap_or_default()
            .into_iter()
            .filter(|f| f["property"] == prop)
            .map(|f| (f["key"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()))
            .collect();
        let tmp = std::env::var("VERIF_TMP").unwrap_or_else(|_| "/dev/shm".into());
        let tmp = if Path::new(&tmp).is_dir() { tmp } else { "/tmp".to_string() };
        Ctx {
            prop: prop.to_string(),
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            root,
            scratch: tempfile::Builder::new().prefix("mc-").tempdir_in(tmp).expect("scratch"),
            start: Instant::now(),
            evals: AtomicUsize::new(0),
            distinct: (0..64).map(|_| Default::default()).collect(),
            states: Default::default(),
            transitions: AtomicUsize::new(0),
            traces: AtomicUsize::new(0),
            samples: Default::default(),
            extra: Default::default(),
            violations: Default::default(),
            known,
            known_hit: Default::default(),
            stop: AtomicBool::new(false),
            rule: Default::default(),
            level: Mutex::new("exploration".into()),
        }
    }
    /// one evaluated case; `nontrivial` identifies it when it is one
    pub fn eval<T: Hash>(&self, nontrivial: Option<T>) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if let Some(t) = nontrivial {
            let h = h64(&t);
            self.distinct[h as usize % 64].lock().unwrap().insert(h);
        }
    }
    pub fn state<T: Hash>(&self, t: T) {
        self.states.lock().unwrap().insert(h64(&t));
    }
    pub fn transition(&self, n: usize) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self, n: usize) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn evals(&self) -> usize {
        self.evals.load(Ordering::Relaxed)
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 5 {
            s.push(v());
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.extra.lock().unwrap().insert(k.into(), v);
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn level(&self, s: &str) {
        *self.level.lock().unwrap() = s.into();
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    /// A violation. `key` names the input, call site or history that fails.
    pub fn violate(&self, key: &str, detail: Value) {
        if let Some((k, _)) = self.known.iter().find(|(k, _)| !k.is_empty() && key.starts_with(k.as_str())) {
            *self.known_hit.lock().unwrap().entry(k.clone()).or_insert(0) += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        // (more of them while developing a check)
        let max = std::env::var("VERIF_MAX").ok().and_then(|m| m.parse().ok()).unwrap_or(4);
        if v.len() < max { v.entry(key.to_string()).or_insert(detail); }
        if v.len() >= max {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        self.par_with(n, 8, f)
    }
    /// Runs f(0..n) on worker threads; stops early once enough violations were found.
    pub fn par_with(&self, n: usize, workers: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let harness: Mutex<Vec<String>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..workers.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || self.stopped() {
                            break;
                        }
                        if catch_unwind(AssertUnwindSafe(|| f(i))).is_err() {
                            harness.lock().unwrap().push(LAST_PANIC.with(|l| l.borrow().clone()));
                            self.stop.store(true, Ordering::Relaxed);
                        }
                    })
                    .expect("thread");
            }
        });
        let first = harness.into_inner().unwrap().into_iter().next();
        if let Some(e) = first {
            eprintln!("harness error: {}", e);
            std::process::exit(2);
        }
    }
    /// Ends the process when one call into the code under test takes more than `limit` seconds.
    pub fn watchdog(self: &std::sync::Arc<Self>, limit: u64) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_secs(2));
            let slots: Vec<Slot> = BUSY.lock().unwrap().iter().filter_map(|w| w.upgrade()).collect();
            let late = slots.iter().find_map(|s| s.lock().unwrap().as_ref().filter(|(t, _)| t.elapsed().as_secs() > limit).map(|(_, w)| w.clone()));
            if let Some(w) = late {
                me.violate("does not end", json!({"call": w, "limit_s": limit}));
                std::process::exit(me.finish());
            }
        });
    }
    pub fn finish(&self) -> i32 {
        let v = self.violations.lock().unwrap();
        let level = self.level.lock().unwrap().clone();
        let mut cov = self.extra.lock().unwrap().clone();
        let samples = self.samples.lock().unwrap().clone();
        if level == "model_checking" {
            cov.insert("states".into(), json!(self.states.lock().unwrap().len()));
            cov.insert("transitions".into(), json!(self.transitions.load(Ordering::Relaxed)));
            cov.insert("traces_validated_against_impl".into(), json!(self.traces.load(Ordering::Relaxed)));
        } else {
            cov.insert("evaluations".into(), json!(self.evals()));
            cov.insert("distinct_nontrivial".into(), json!(self.distinct.iter().map(|d| d.lock().unwrap().len()).sum::<usize>()));
            cov.insert("rule".into(), json!(*self.rule.lock().unwrap()));
        }
        cov.insert("samples".into(), json!(samples));
        let known: Vec<Value> = self.known_hit.lock().unwrap().iter().map(|(k, n)| json!({"key": k, "times": n})).collect();
        cov.insert("known_findings_met".into(), json!(known));
        let ev = json!({
            "property": self.prop, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": level, "coverage": cov, "violations": v.len(),
            "wall_s": self.start.elapsed().as_secs_f64()
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
        for (k, w) in &self.known {
            if self.known_hit.lock().unwrap().contains_key(k) {
                println!("KNOWN-FINDING: property={} {}", self.prop, w);
            }
        }
        let rd = self.root.join("build/replay");
        let _ = std::fs::create_dir_all(&rd);
        for (i, (k, d)) in v.iter().enumerate() {
            let p = rd.join(format!("{}-{}.json", self.prop, i));
            let _ = std::fs::write(&p, serde_json::to_vec_pretty(&json!({"property": self.prop, "key": k, "detail": d})).unwrap());
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            let mut s = format!("{}", d);
            if s.len() > 900 {
                let mut n = 900;
                while !s.is_char_boundary(n) { n -= 1; }
                s.truncate(n);
            }
            eprintln!("  {}: {}", k, s);
        }
        let _ = std::fs::remove_dir_all(self.scratch.path());
        eprintln!("{}: {} evaluations, {:.1} s", self.prop, self.evals(), self.start.elapsed().as_secs_f64());
        if v.is_empty() { 0 } else { 1 }
    }
}
