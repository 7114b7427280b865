//! A small stateless model checker.
//!
//! A *scenario* is a closure that drives the real http-types code and a reference model side by
//! side.  Every source of nondeterminism (which operation, which argument, what a reader answers,
//! which task runs next) is resolved by `Ch::choose`.  The explorer enumerates *every* choice
//! vector depth first: run with a prefix, default every later choice to 0, then backtrack.
//! Nothing is sampled.  Deviation-bounded choices (`dev`) cost one unit of a per-execution budget
//! whenever they depart from the default answer, and every combination within the budget is run.

use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
/// Distinct violations (by key) kept per property before exploration is cut short.
const MAX_VIOLATIONS: usize = 400;

#[derive(Debug, Clone)]
pub struct Viol {
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Viol>;

pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        key: key.into(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! req {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Viol { key: ($key).to_string(), msg: format!($($arg)*) });
        }
    };
}
#[macro_export]
macro_rules! req_eq {
    ($a:expr, $b:expr, $key:expr, $($arg:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err($crate::engine::Viol {
                        key: ($key).to_string(),
                        msg: format!("{}: observed {:?}, expected {:?}", format!($($arg)*), a, b),
                    });
                }
            }
        }
    }};
}

/// The choice source for one execution.
pub struct Ch {
    prefix: Vec<u32>,
    pub taken: Vec<u32>,
    arity: Vec<u32>,
    /// remaining deviation budget
    budget: u32,
    steps: u64,
    states: Vec<u64>,
    notes: Option<Vec<String>>,
    diverged: bool,
}

impl Ch {
    fn new(prefix: Vec<u32>, budget: u32, notes: bool) -> Self {
        Ch {
            prefix,
            taken: Vec::with_capacity(16),
            arity: Vec::with_capacity(16),
            budget,
            steps: 0,
            states: Vec::new(),
            notes: if notes { Some(Vec::new()) } else { None },
            diverged: false,
        }
    }
    /// An exhaustive choice among `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "choose(0)");
        let i = self.taken.len();
        let c = if i < self.prefix.len() {
            self.prefix[i]
        } else {
            0
        };
        if c as usize >= n {
            // A replayed prefix must offer the same alternatives: anything else means that the
            // harness does not own all the nondeterminism.
            self.diverged = true;
            self.taken.push(0);
            self.arity.push(n as u32);
            return 0;
        }
        self.taken.push(c);
        self.arity.push(n as u32);
        c as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// A deviation-bounded choice: 0 is the default and free; anything else costs one unit.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.budget == 0 || n <= 1 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.budget -= 1;
        }
        c
    }
    /// Every sequence of length 0..=max over `xs`.
    pub fn seq<T: Clone>(&mut self, xs: &[T], max: usize) -> Vec<T> {
        let len = self.choose(max + 1);
        (0..len).map(|_| self.pick(xs).clone()).collect()
    }
    /// Every subset of `xs` (in order).
    pub fn subset<T: Clone>(&mut self, xs: &[T]) -> Vec<T> {
        xs.iter().filter(|_| self.flag()).cloned().collect()
    }
    /// Record one transition (an operation applied to the implementation and the model).
    pub fn step(&mut self) {
        self.steps += 1;
    }
    /// Record the (canonical) state reached.
    pub fn state<H: Hash>(&mut self, h: &H) {
        let mut s = DefaultHasher::new();
        h.hash(&mut s);
        self.states.push(s.finish());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(n) = self.notes.as_mut() {
            n.push(clip(f(), 500));
        }
    }
}

/// `s`, with the middle of it left out where it is long
pub fn clip(s: String, max: usize) -> String {
    if s.len() <= max {
        return s;
    }
    let mut a = max / 2;
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = s.len() - max / 2;
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{} [... {} bytes ...] {}", &s[..a], b - a, &s[b..])
}

pub type Body = Box<dyn Fn(&mut Ch) -> R + Sync + Send>;

pub struct Scenario {
    pub name: String,
    pub budget: u32,
    pub body: Body,
}

#[derive(Default)]
pub struct Suite {
    pub scenarios: Vec<Scenario>,
    pub assumptions: Vec<String>,
    pub bounds: Vec<String>,
}

impl Suite {
    pub fn add(&mut self, name: &str, f: impl Fn(&mut Ch) -> R + Sync + Send + 'static) {
        self.add_dev(name, 0, f)
    }
    pub fn add_dev(
        &mut self,
        name: &str,
        budget: u32,
        f: impl Fn(&mut Ch) -> R + Sync + Send + 'static,
    ) {
        assert!(self.scenarios.iter().all(|s| s.name != name), "duplicate scenario {name}");
        self.scenarios.push(Scenario {
            name: name.to_string(),
            budget,
            body: Box::new(f),
        });
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn bound(&mut self, s: &str) {
        self.bounds.push(s.to_string());
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("panic at {loc}: {msg}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// Run `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .unwrap_or_else(|| payload_str(&*p))),
    }
}

pub struct Exec {
    pub taken: Vec<u32>,
    pub arity: Vec<u32>,
    pub steps: u64,
    pub states: Vec<u64>,
    pub notes: Vec<String>,
    pub result: R,
    pub diverged: bool,
}

pub fn execute(sc: &Scenario, prefix: Vec<u32>, notes: bool) -> Exec {
    let mut ch = Ch::new(prefix, sc.budget, notes);
    let res = no_panic(|| (sc.body)(&mut ch));
    let result = match res {
        Ok(r) => r,
        Err(p) => {
            // Panics raised by the harness's own `unwrap`s are on values the implementation
            // produced (an operation that must succeed did not).
            viol(format!("panic:{}", sc.name), format!("{p}"))
        }
    };
    Exec {
        taken: ch.taken,
        arity: ch.arity,
        steps: ch.steps,
        states: ch.states,
        notes: ch.notes.unwrap_or_default(),
        result,
        diverged: ch.diverged,
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: String,
    pub choices: Vec<u32>,
    pub key: String,
    pub msg: String,
    pub count: u64,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub max_depth: usize,
    pub capped: bool,
    pub replayed: u64,
    pub nondet: u64,
}

struct Slot {
    prefix: Mutex<(Vec<u32>, Instant, bool)>,
}

pub struct Limits {
    pub deadline: Instant,
    pub hang: Duration,
    pub journal: Option<std::fs::File>,
}

/// Explore every execution of one scenario.
pub fn explore(
    sc: &Scenario,
    lim: &Limits,
    found: &Mutex<BTreeMap<String, Found>>,
    samples: &Mutex<Vec<String>>,
    on_hang: &(dyn Fn(&str, Vec<u32>) + Sync),
) -> Result<Stats, String> {
    let executions = AtomicU64::new(0);
    let transitions = AtomicU64::new(0);
    let replayed = AtomicU64::new(0);
    let nondet = AtomicU64::new(0);
    let max_depth = AtomicUsize::new(0);
    let capped = AtomicBool::new(false);
    let error: Mutex<Option<String>> = Mutex::new(None);
    let states: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let slots: Vec<Slot> = (0..THREADS)
        .map(|_| Slot {
            prefix: Mutex::new((vec![], Instant::now(), false)),
        })
        .collect();

    // Partition the tree into subtrees by probing the first choice points.
    let mut prefixes: Vec<Vec<u32>> = vec![vec![]];
    let mut leaves: Vec<Vec<u32>> = vec![];
    for _ in 0..6 {
        if prefixes.len() >= 256 {
            break;
        }
        let mut next = vec![];
        for p in prefixes.drain(..) {
            if let Some(f) = &lim.journal {
                journal(f, 0, &sc.name, &p);
            }
            {
                let mut s = slots[0].prefix.lock().unwrap();
                *s = (p.clone(), Instant::now(), false);
            }
            let e = execute(sc, p.clone(), false);
            if e.taken.len() > p.len() {
                for alt in 0..e.arity[p.len()] {
                    let mut q = p.clone();
                    q.push(alt);
                    next.push(q);
                }
            } else {
                leaves.push(p);
            }
        }
        prefixes = next;
        if prefixes.is_empty() {
            break;
        }
    }
    let mut work = leaves;
    work.extend(prefixes);
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let stop_watch = AtomicBool::new(false);

    std::thread::scope(|s| {
        for w in 0..THREADS {
            let (work, next, done) = (&work, &next, &done);
            let (executions, transitions, replayed, max_depth, capped, error, states, slots) = (
                &executions, &transitions, &replayed, &max_depth, &capped, &error, &states, &slots,
            );
            let nondet = &nondet;
            let stop_watch = &stop_watch;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut local: Vec<u64> = Vec::new();
                    'outer: loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= work.len() {
                            break;
                        }
                        let root = work[i].len();
                        let mut prefix = work[i].clone();
                        loop {
                            if capped.load(Ordering::Relaxed) || error.lock().unwrap().is_some() {
                                break 'outer;
                            }
                            {
                                let mut s = slots[w].prefix.lock().unwrap();
                                s.0.clear();
                                s.0.extend_from_slice(&prefix);
                                s.1 = Instant::now();
                                s.2 = true;
                            }
                            if let Some(f) = &lim.journal {
                                journal(f, w, &sc.name, &prefix);
                            }
                            let e = execute(sc, prefix.clone(), false);
                            let n = executions.fetch_add(1, Ordering::Relaxed);
                            transitions.fetch_add(e.steps, Ordering::Relaxed);
                            max_depth.fetch_max(e.taken.len(), Ordering::Relaxed);
                            if e.diverged {
                                *error.lock().unwrap() = Some(format!(
                                    "scenario {}: replaying prefix {:?} diverged",
                                    sc.name, prefix
                                ));
                                break 'outer;
                            }
                            // Own the nondeterminism: replay a share of the executions and demand
                            // the same choices, states and verdict.
                            if n < 64 || n.is_power_of_two() || e.result.is_err() {
                                let notes = n < 2 || e.result.is_err();
                                let e2 = execute(sc, e.taken.clone(), notes);
                                replayed.fetch_add(1, Ordering::Relaxed);
                                if e2.taken != e.taken
                                    || e2.states != e.states
                                    || e2.result.is_err() != e.result.is_err()
                                {
                                    nondet.fetch_add(1, Ordering::Relaxed);
                                    let mut g = samples.lock().unwrap();
                                    g.push(format!(
                                        "NOT REPRODUCIBLE: {} {:?} ({:?} vs {:?})",
                                        sc.name, e.taken, e.result, e2.result
                                    ));
                                }
                                if n < 2 {
                                    let mut g = samples.lock().unwrap();
                                    if g.len() < 40 {
                                        let text = format!(
                                            "{} choices={:?} {}",
                                            sc.name,
                                            e2.taken,
                                            e2.notes.join("; ")
                                        );
                                        g.push(clip(text, 2000));
                                    }
                                }
                            }
                            local.extend_from_slice(&e.states);
                            if local.len() > 4096 {
                                flush(states, &mut local);
                            }
                            if let Err(v) = e.result {
                                let mut g = found.lock().unwrap();
                                let key = v.key.clone();
                                let f = g.entry(key.clone()).or_insert(Found {
                                    scenario: sc.name.clone(),
                                    choices: e.taken.clone(),
                                    key,
                                    msg: v.msg.clone(),
                                    count: 0,
                                });
                                f.count += 1;
                                if f.scenario == sc.name
                                    && (e.taken.len(), &e.taken) < (f.choices.len(), &f.choices)
                                {
                                    f.choices = e.taken.clone();
                                    f.msg = v.msg;
                                }
                                if g.len() >= MAX_VIOLATIONS {
                                    capped.store(true, Ordering::Relaxed);
                                }
                            }
                            if n & 0xff == 0 && Instant::now() > lim.deadline {
                                capped.store(true, Ordering::Relaxed);
                            }
                            // Backtrack.
                            let mut j = e.taken.len();
                            loop {
                                if j <= root {
                                    continue 'outer;
                                }
                                j -= 1;
                                if e.taken[j] + 1 < e.arity[j] {
                                    break;
                                }
                            }
                            prefix.clear();
                            prefix.extend_from_slice(&e.taken[..j]);
                            prefix.push(e.taken[j] + 1);
                        }
                    }
                    flush(states, &mut local);
                    slots[w].prefix.lock().unwrap().2 = false;
                    if done.fetch_add(1, Ordering::SeqCst) + 1 == THREADS {
                        stop_watch.store(true, Ordering::SeqCst);
                    }
                })
                .expect("spawn");
        }
        // Watchdog: an execution that never returns is a hang of the code under test.
        while !stop_watch.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(2));
            for sl in &slots {
                let g = sl.prefix.lock().unwrap();
                if g.2 && g.1.elapsed() > lim.hang {
                    let p = g.0.clone();
                    drop(g);
                    on_hang(&sc.name, p);
                }
            }
        }
    });
    if let Some(e) = error.into_inner().unwrap() {
        return Err(e);
    }
    let nstates = states.iter().map(|m| m.lock().unwrap().len() as u64).sum();
    Ok(Stats {
        executions: executions.into_inner(),
        transitions: transitions.into_inner(),
        states: nstates,
        max_depth: max_depth.into_inner(),
        capped: capped.into_inner(),
        replayed: replayed.into_inner(),
        nondet: nondet.into_inner(),
    })
}

fn flush(states: &[Mutex<HashSet<u64>>], local: &mut Vec<u64>) {
    local.sort_unstable();
    local.dedup();
    let mut by: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
    for s in local.drain(..) {
        by.entry((s >> 58) as usize).or_default().push(s);
    }
    for (k, v) in by {
        states[k].lock().unwrap().extend(v);
    }
}

fn journal(f: &std::fs::File, slot: usize, name: &str, prefix: &[u32]) {
    use std::os::unix::fs::FileExt;
    let mut rec = format!("{name}\t{prefix:?}").into_bytes();
    rec.resize(2048, b'\n');
    let _ = f.write_all_at(&rec, (slot * 2048) as u64);
}

// ---------------------------------------------------------------------------------------------
// A deterministic single-threaded executor.

use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Wake, Waker};

pub struct CountWaker(pub AtomicUsize);
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub fn count_waker() -> (Arc<CountWaker>, Waker) {
    let c = Arc::new(CountWaker(AtomicUsize::new(0)));
    (c.clone(), Waker::from(c))
}

/// Poll a future until it is ready.  `None` when it is still pending after `max` polls.
/// With `strict`, a poll that returns Pending without having arranged a wake-up is a deadlock and
/// also gives `None`.
pub fn run_future<F: Future>(fut: F, max: usize) -> Option<F::Output> {
    let mut fut = Box::pin(fut);
    let (c, w) = count_waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..max {
        let before = c.0.load(Ordering::SeqCst);
        match Pin::as_mut(&mut fut).poll(&mut cx) {
            Poll::Ready(v) => return Some(v),
            Poll::Pending => {
                if c.0.load(Ordering::SeqCst) == before {
                    return None;
                }
            }
        }
    }
    None
}
