//! File-system fault plan (per thread). Every operation of the instrumented `fs` that the code under
//! test performs is numbered; the plan says at which number an error is returned, or the process
//! "crashes": from then on no operation has any effect and every one returns an error.
use std::cell::RefCell;
use std::io;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mode {
    /// Nothing is injected, operations are not even counted.
    Off,
    /// Operations are counted and traced.
    Count,
    /// Operation number `n` fails with an I/O error (once).
    FailAt(usize),
    /// As FailAt, for operation `n` and every later one.
    FailFrom(usize),
    /// The process stops before operation `n` takes effect.
    CrashAt(usize),
    /// The process stops in the middle of operation `n`, if it is a write: half the bytes got there.
    TornAt(usize),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Class {
    Read,
    Mutate,
}

#[derive(Debug)]
pub struct Plan {
    pub mode: Mode,
    /// which classes are numbered
    pub reads: bool,
    pub mutations: bool,
    pub counter: usize,
    pub crashed: bool,
    pub fired: bool,
    pub trace: Vec<String>,
}

thread_local! {
    static PLAN: RefCell<Plan> = const { RefCell::new(Plan{mode: Mode::Off, reads: true, mutations: true, counter: 0, crashed: false, fired: false, trace: Vec::new()}) };
}

thread_local! {
    static LAST: RefCell<Vec<std::path::PathBuf>> = const { RefCell::new(Vec::new()) };
    static TOUCHED: RefCell<std::collections::BTreeSet<std::path::PathBuf>> = const { RefCell::new(std::collections::BTreeSet::new()) };
}
/// the paths that the operation being described is about
pub fn about(p: &std::path::Path) {
    LAST.with(|l| l.borrow_mut().push(p.to_path_buf()));
}
/// the paths of all mutations since the last call
pub fn touched() -> Vec<std::path::PathBuf> {
    TOUCHED.with(|t| std::mem::take(&mut *t.borrow_mut())).into_iter().collect()
}

pub fn install(mode: Mode, reads: bool, mutations: bool) {
    PLAN.with(|p| {
        *p.borrow_mut() = Plan { mode, reads, mutations, counter: 0, crashed: false, fired: false, trace: vec![] }
    });
}

pub struct Summary {
    pub ops: usize,
    pub fired: bool,
    pub trace: Vec<String>,
}

pub fn uninstall() -> Summary {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        let s = Summary { ops: p.counter, fired: p.fired, trace: std::mem::take(&mut p.trace) };
        p.mode = Mode::Off;
        p.crashed = false;
        s
    })
}

pub enum Verdict {
    Go,
    /// perform half of the write, then fail
    Torn,
}

fn injected(what: &str) -> io::Error {
    io::Error::new(io::ErrorKind::Other, format!("injected fault: {}", what))
}

/// Called before each operation.
pub fn op(class: Class, what: impl FnOnce() -> String) -> io::Result<Verdict> {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        if p.mode == Mode::Off {
            return Ok(Verdict::Go);
        }
        LAST.with(|l| l.borrow_mut().clear());
        let what = what();
        if class == Class::Mutate {
            TOUCHED.with(|t| t.borrow_mut().extend(LAST.with(|l| std::mem::take(&mut *l.borrow_mut()))));
        }
        if p.crashed {
            return Err(injected("the process has stopped"));
        }
        let counted = match class {
            Class::Read => p.reads,
            Class::Mutate => p.mutations,
        };
        if !counted {
            return Ok(Verdict::Go);
        }
        let n = p.counter;
        p.counter += 1;
        if p.trace.len() < 400 {
            p.trace.push(what.clone());
        }
        match p.mode {
            Mode::FailAt(k) if k == n => {
                p.fired = true;
                Err(injected(&what))
            }
            Mode::FailFrom(k) if n >= k => {
                p.fired = true;
                Err(injected(&what))
            }
            Mode::CrashAt(k) if k == n => {
                p.fired = true;
                p.crashed = true;
                Err(injected(&what))
            }
            Mode::TornAt(k) if k == n => {
                p.fired = true;
                p.crashed = true;
                if what.starts_with("write") {
                    Ok(Verdict::Torn)
                } else {
                    Err(injected(&what))
                }
            }
            _ => Ok(Verdict::Go),
        }
    })
}
pub fn torn_error() -> io::Error {
    injected("torn write")
}
