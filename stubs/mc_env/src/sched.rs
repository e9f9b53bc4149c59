//! Cooperative scheduler: the threads of one execution are real threads of which exactly one runs at
//! a time; at each scheduling point (lock acquisition, atomic operation, call into the environment)
//! the running thread hands the decision "who runs next" to the explorer. `Explorer` enumerates all
//! decision sequences depth first, up to a preemption bound. Outside of an execution every
//! primitive behaves as the standard one.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Status {
    Runnable,
    Blocked(usize),
    Finished,
}

struct State {
    status: Vec<Status>,
    current: usize,
    started: bool,
    prefix: Vec<usize>,
    decisions: Vec<(usize, usize)>, // (options, chosen)
    preemptions: usize,
    bound: usize,
    steps: usize,
    max_steps: usize,
    abort: Option<String>,
    trace: Vec<(usize, &'static str)>,
}

struct Exec {
    state: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}

/// Panic payload used to unwind the threads of an abandoned execution.
pub struct Abandoned;

fn current() -> Option<(Arc<Exec>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

pub fn managed() -> bool {
    CUR.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}

fn decide(s: &mut State, me: usize) {
    // picks s.current among the runnable threads
    let runnable: Vec<usize> = (0..s.status.len()).filter(|t| s.status[*t] == Status::Runnable).collect();
    if runnable.is_empty() {
        if s.status.iter().any(|t| matches!(t, Status::Blocked(_))) {
            s.abort = Some("deadlock: every unfinished thread waits for a lock".into());
        }
        return;
    }
    let me_ok = runnable.contains(&me);
    let mut options: Vec<usize> = vec![];
    if me_ok {
        options.push(me);
        if s.preemptions < s.bound {
            options.extend(runnable.iter().cloned().filter(|t| *t != me));
        }
    } else {
        options = runnable;
    }
    let chosen = if options.len() == 1 {
        0
    } else {
        let k = s.decisions.len();
        let c = if k < s.prefix.len() { s.prefix[k].min(options.len() - 1) } else { 0 };
        s.decisions.push((options.len(), c));
        c
    };
    let next = options[chosen];
    if me_ok && next != me {
        s.preemptions += 1;
    }
    s.current = next;
}

fn wait_turn(exec: &Arc<Exec>, me: usize) {
    let mut s = exec.state.lock().unwrap();
    loop {
        if s.abort.is_some() {
            drop(s);
            if !std::thread::panicking() {
                std::panic::resume_unwind(Box::new(Abandoned));
            }
            return;
        }
        if s.started && s.current == me && s.status[me] == Status::Runnable {
            return;
        }
        s = exec.cv.wait(s).unwrap();
    }
}

/// A scheduling point.
pub fn point(what: &'static str) {
    let Some((exec, me)) = current() else { return };
    if std::thread::panicking() {
        return;
    }
    {
        let mut s = exec.state.lock().unwrap();
        s.steps += 1;
        if s.steps > s.max_steps {
            s.abort = Some("step limit reached: the threads make no progress".into());
        }
        if s.trace.len() < 2000 {
            s.trace.push((me, what));
        }
        decide(&mut s, me);
    }
    exec.cv.notify_all();
    wait_turn(&exec, me);
}

/// Blocks the calling thread until `wake(addr)`.
pub fn block(addr: usize) {
    let Some((exec, me)) = current() else {
        std::thread::yield_now();
        return;
    };
    {
        let mut s = exec.state.lock().unwrap();
        s.steps += 1;
        s.status[me] = Status::Blocked(addr);
        decide(&mut s, me);
    }
    exec.cv.notify_all();
    wait_turn(&exec, me);
}

pub fn wake(addr: usize) {
    let Some((exec, _)) = current() else { return };
    let mut s = exec.state.lock().unwrap();
    for t in s.status.iter_mut() {
        if *t == Status::Blocked(addr) {
            *t = Status::Runnable;
        }
    }
}
pub fn wake_one(addr: usize) {
    let Some((exec, _)) = current() else { return };
    let mut s = exec.state.lock().unwrap();
    if let Some(t) = s.status.iter_mut().find(|t| **t == Status::Blocked(addr)) {
        *t = Status::Runnable;
    }
}

#[derive(Debug, Clone, Default)]
pub struct Outcome {
    pub decisions: Vec<(usize, usize)>,
    pub aborted: Option<String>,
    pub panics: Vec<(usize, String)>,
    pub steps: usize,
    pub trace: Vec<(usize, &'static str)>,
}

pub type Body = Box<dyn FnOnce() + Send>;

/// Runs the bodies under the schedule that starts with `prefix` (then always "continue").
pub fn run(prefix: &[usize], bound: usize, bodies: Vec<Body>) -> Outcome {
    let n = bodies.len();
    let exec = Arc::new(Exec {
        state: Mutex::new(State {
            status: vec![Status::Runnable; n],
            current: usize::MAX,
            started: false,
            prefix: prefix.to_vec(),
            decisions: vec![],
            preemptions: 0,
            bound,
            steps: 0,
            max_steps: 200_000,
            abort: None,
            trace: vec![],
        }),
        cv: Condvar::new(),
    });
    let panics: Arc<Mutex<Vec<(usize, String)>>> = Arc::default();
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(tid, body)| {
            let exec = exec.clone();
            let panics = panics.clone();
            std::thread::spawn(move || {
                CUR.with(|c| *c.borrow_mut() = Some((exec.clone(), tid)));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    wait_turn(&exec, tid);
                    body();
                }));
                if let Err(p) = r {
                    if p.downcast_ref::<Abandoned>().is_none() {
                        let msg = p
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_else(|| "panic".into());
                        panics.lock().unwrap().push((tid, msg));
                    }
                }
                CUR.with(|c| *c.borrow_mut() = None);
                let mut s = exec.state.lock().unwrap();
                s.status[tid] = Status::Finished;
                if s.abort.is_none() {
                    decide(&mut s, tid);
                }
                drop(s);
                exec.cv.notify_all();
            })
        })
        .collect();
    {
        let mut s = exec.state.lock().unwrap();
        s.started = true;
        decide(&mut s, usize::MAX);
    }
    exec.cv.notify_all();
    for h in handles {
        let _ = h.join();
    }
    let s = exec.state.lock().unwrap();
    let panics = panics.lock().unwrap().clone();
    Outcome { decisions: s.decisions.clone(), aborted: s.abort.clone(), panics, steps: s.steps, trace: s.trace.clone() }
}

/// Depth-first enumeration of schedules.
pub struct Explorer {
    pub prefix: Option<Vec<usize>>,
}
impl Explorer {
    pub fn new() -> Self {
        Explorer { prefix: Some(vec![]) }
    }
    pub fn advance(&mut self, decisions: &[(usize, usize)]) {
        let mut d = decisions.to_vec();
        while let Some((n, c)) = d.pop() {
            if c + 1 < n {
                let mut p: Vec<usize> = d.iter().map(|x| x.1).collect();
                p.push(c + 1);
                self.prefix = Some(p);
                return;
            }
        }
        self.prefix = None;
    }
}
impl Default for Explorer {
    fn default() -> Self {
        Self::new()
    }
}
