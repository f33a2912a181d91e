//! Stateless explorer. A check is a deterministic body that asks `Ch::pick(n)` for every choice it
//! has to make (inputs, configuration, schedule, outcome of a random draw, fault placement) and
//! runs the real implementation against its oracle. The explorer runs the body once for every
//! sequence of choices: depth-first, in parallel, without sampling.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex, Once};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unimplemented!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
pub type StateSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub enum Stop {
    /// The choices taken describe nothing (or a duplicate); not counted as an execution.
    Prune,
    /// The property does not hold on this execution.
    Fail(String),
}
pub type Res = Result<(), Stop>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::Stop::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::Stop::Fail(format!($($a)*))); } };
}
#[macro_export]
macro_rules! note {
    ($ch:expr, $($a:tt)*) => { if $ch.verbose { let s = format!($($a)*); $ch.log.push(s); } };
}

const MAX_STATES_PER_WORKER: usize = 3_000_000;

pub struct Ch {
    prefix: Vec<(u32, u32)>,
    pub path: Vec<(u32, u32)>,
    lenient: bool,
    pub verbose: bool,
    pub log: Vec<String>,
    states: StateSet,
    states_capped: bool,
    transitions: u64,
    validated: u64,
    hits: Vec<(&'static str, u64)>,
    devs_left: u32,
}

struct Divergence(String);

impl Ch {
    fn new() -> Self {
        Ch {
            prefix: vec![],
            path: vec![],
            lenient: false,
            verbose: false,
            log: vec![],
            states: StateSet::default(),
            states_capped: false,
            transitions: 0,
            validated: 0,
            hits: vec![],
            devs_left: u32::MAX,
        }
    }

    /// Choose one of `n` alternatives. All of them get explored, the first one first.
    #[inline]
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            assert!(n == 1, "harness: nothing to choose from");
            return 0;
        }
        let pos = self.path.len();
        let c = if pos < self.prefix.len() {
            let (c, m) = self.prefix[pos];
            if self.lenient {
                c.min(n as u32 - 1)
            } else {
                if m != n as u32 {
                    std::panic::panic_any(Divergence(format!(
                        "choice {pos} had {m} alternatives before and has {n} now"
                    )));
                }
                c
            }
        } else {
            0
        };
        self.path.push((c, n as u32));
        c as usize
    }

    pub fn of<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.pick(items.len())]
    }

    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }

    /// Limit the number of non-default answers that `pick_dev` gives in this execution.
    pub fn set_devs(&mut self, devs: u32) {
        self.devs_left = devs;
    }

    /// As `pick`, but every answer except the first one uses up a deviation.
    pub fn pick_dev(&mut self, n: usize) -> usize {
        if self.devs_left == 0 {
            return 0;
        }
        let c = self.pick(n);
        if c != 0 {
            self.devs_left -= 1;
        }
        c
    }

    #[inline]
    pub fn state(&mut self, h: u64) {
        if self.states.len() < MAX_STATES_PER_WORKER {
            self.states.insert(h);
        } else {
            self.states_capped = true;
        }
    }

    #[inline]
    pub fn trans(&mut self, n: usize) {
        self.transitions += n as u64;
    }

    /// One complete execution of the implementation was compared with the reference.
    #[inline]
    pub fn validated(&mut self) {
        self.validated += 1;
    }

    /// All outcomes of `f` over all sequences of choices, in one go.
    pub fn outcomes<T>(mut f: impl FnMut(&mut Ch) -> T) -> Vec<T> {
        let mut ch = Ch::new();
        let mut all = vec![];
        loop {
            ch.path.clear();
            ch.devs_left = u32::MAX;
            all.push(f(&mut ch));
            let Some(i) = ch.path.iter().rposition(|(c, n)| c + 1 < *n) else {
                return all;
            };
            let mut p = std::mem::take(&mut ch.path);
            p.truncate(i + 1);
            p[i].0 += 1;
            ch.prefix = p;
        }
    }

    pub fn hit(&mut self, what: &'static str) {
        for (k, n) in self.hits.iter_mut() {
            if std::ptr::eq(k.as_ptr(), what.as_ptr()) && k.len() == what.len() {
                *n += 1;
                return;
            }
        }
        self.hits.push((what, 1));
    }
}

#[derive(Clone)]
pub struct Violation {
    pub section: String,
    pub path: Vec<(u32, u32)>,
    pub message: String,
    pub log: Vec<String>,
}

pub struct SectionReport {
    pub name: String,
    pub bound: String,
    pub executions: u64,
    pub pruned: u64,
    pub states: u64,
    pub states_capped: bool,
    pub transitions: u64,
    pub validated: u64,
    pub max_choices: u64,
    pub hits: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub exhaustive: bool,
    pub wall_s: f64,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
static HOOK: Once = Once::new();

/// Panics on threads other than the explorer's (e.g. rayon workers) end up here as well.
fn install_hook() {
    HOOK.call_once(|| {
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
            if !QUIET.with(|q| *q.borrow()) && std::env::var_os("MC_PANICS").is_some() {
                default(info);
            }
        }));
    });
}

pub fn last_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".into())
}

/// Run code under test that may panic; gives the panic's text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

enum Outcome {
    Ok,
    Pruned,
    Failed(String),
}

fn run_once<F: Fn(&mut Ch) -> Res>(ch: &mut Ch, body: &F) -> Outcome {
    ch.path.clear();
    ch.devs_left = u32::MAX;
    match catch_unwind(AssertUnwindSafe(|| body(ch))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(Stop::Prune)) => Outcome::Pruned,
        Ok(Err(Stop::Fail(m))) => Outcome::Failed(m),
        Err(payload) => {
            if let Some(d) = payload.downcast_ref::<Divergence>() {
                eprintln!("ENGINE ERROR: execution is not determined by its choices: {}", d.0);
                std::process::exit(3);
            }
            Outcome::Failed(last_panic())
        }
    }
}

pub struct Explorer {
    pub threads: usize,
    pub cap: Duration,
    pub seed: u64,
}

struct Shared {
    queue: Mutex<Vec<Vec<(u32, u32)>>>,
    cv: Condvar,
    hungry: AtomicUsize,
    busy: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    executions: AtomicU64,
    violations: Mutex<Vec<(Vec<(u32, u32)>, String)>>,
}

fn strip(path: &[(u32, u32)]) -> Vec<u32> {
    let mut v: Vec<u32> = path.iter().map(|x| x.0).collect();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

impl Explorer {
    pub fn run<F: Fn(&mut Ch) -> Res + Sync>(
        &self,
        name: &str,
        bound: &str,
        body: F,
    ) -> (SectionReport, Option<Violation>) {
        install_hook();
        let started = Instant::now();
        let shared = Shared {
            queue: Mutex::new(vec![vec![]]),
            cv: Condvar::new(),
            hungry: AtomicUsize::new(0),
            busy: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            capped: AtomicBool::new(false),
            executions: AtomicU64::new(0),
            violations: Mutex::new(vec![]),
        };
        let deadline = started + self.cap;
        let mut results = vec![];
        std::thread::scope(|s| {
            let handles: Vec<_> = (0..self.threads)
                .map(|_| {
                    let shared = &shared;
                    let body = &body;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || worker(shared, body, deadline))
                        .unwrap()
                })
                .collect();
            for h in handles {
                match h.join() {
                    Ok(r) => results.push(r),
                    Err(_) => {
                        eprintln!("ENGINE ERROR: worker died: {}", last_panic());
                        std::process::exit(3);
                    }
                }
            }
        });

        let mut report = SectionReport {
            name: name.into(),
            bound: bound.into(),
            executions: 0,
            pruned: 0,
            states: 0,
            states_capped: false,
            transitions: 0,
            validated: 0,
            max_choices: 0,
            hits: BTreeMap::new(),
            samples: vec![],
            exhaustive: !shared.capped.load(Ordering::SeqCst) && !shared.stop.load(Ordering::SeqCst),
            wall_s: 0.0,
        };
        let mut states = StateSet::default();
        let mut sample_paths: Vec<Vec<(u32, u32)>> = vec![];
        for w in results {
            report.executions += w.executions;
            report.pruned += w.pruned;
            report.transitions += w.ch.transitions;
            report.validated += w.ch.validated;
            report.states_capped |= w.ch.states_capped;
            report.max_choices = report.max_choices.max(w.max_choices);
            for (k, n) in w.ch.hits {
                *report.hits.entry(k).or_default() += n;
            }
            if states.is_empty() {
                states = w.ch.states;
            } else {
                states.extend(w.ch.states);
            }
            if let Some(p) = w.sample {
                sample_paths.push(p);
            }
        }
        report.states = states.len() as u64;

        let violations = shared.violations.into_inner().unwrap();
        let violation = violations
            .into_iter()
            .min_by_key(|(p, _)| (strip(p).len(), strip(p)))
            .map(|(p, m)| shrink(name, p, m, &body));

        if violation.is_none() && !sample_paths.is_empty() {
            sample_paths.sort_by_key(|p| strip(p));
            let i = self.seed as usize % sample_paths.len();
            let mut ch = Ch::new();
            ch.verbose = true;
            ch.lenient = true;
            ch.prefix = sample_paths[i].clone();
            let _ = run_once(&mut ch, &body);
            let mut log = std::mem::take(&mut ch.log);
            if log.len() > 40 {
                log.truncate(40);
                log.push("...".into());
            }
            report.samples.push(format!(
                "{name} choices={:?}: {}",
                sample_paths[i].iter().map(|x| x.0).collect::<Vec<_>>(),
                log.join(" | ")
            ));
        }
        report.wall_s = started.elapsed().as_secs_f64();
        (report, violation)
    }

    pub fn replay<F: Fn(&mut Ch) -> Res + Sync>(
        &self,
        name: &str,
        choices: &[u32],
        body: F,
    ) -> Option<Violation> {
        install_hook();
        let mut ch = Ch::new();
        ch.verbose = true;
        ch.lenient = true;
        ch.prefix = choices.iter().map(|&c| (c, 0)).collect();
        match run_once(&mut ch, &body) {
            Outcome::Failed(message) => Some(Violation {
                section: name.into(),
                path: ch.path.clone(),
                message,
                log: ch.log,
            }),
            _ => {
                println!("{}", ch.log.join("\n"));
                None
            }
        }
    }
}

fn shrink<F: Fn(&mut Ch) -> Res>(
    name: &str,
    path: Vec<(u32, u32)>,
    message: String,
    body: &F,
) -> Violation {
    let started = Instant::now();
    let mut best = path;
    let mut best_msg = message;
    let mut ch = Ch::new();
    ch.lenient = true;
    let mut improved = true;
    while improved && started.elapsed() < Duration::from_secs(10) {
        improved = false;
        let mut i = best.len();
        while i > 0 && started.elapsed() < Duration::from_secs(10) {
            i -= 1;
            if i >= best.len() {
                continue;
            }
            let orig = best[i].0;
            for c in 0..orig {
                let mut cand = best.clone();
                cand[i].0 = c;
                ch.prefix = cand;
                if let Outcome::Failed(m) = run_once(&mut ch, body) {
                    let cand = ch.path.clone();
                    if (strip(&cand).len(), strip(&cand)) < (strip(&best).len(), strip(&best)) {
                        best = cand;
                        best_msg = m;
                        improved = true;
                        break;
                    }
                }
            }
        }
    }
    ch = Ch::new();
    ch.lenient = true;
    ch.verbose = true;
    ch.prefix = best.clone();
    // Replay twice: the same choices have to give the same observations.
    let first = run_once(&mut ch, body);
    let log = std::mem::take(&mut ch.log);
    let second = run_once(&mut ch, body);
    let mut log2 = std::mem::take(&mut ch.log);
    log2.truncate(log.len());
    if let (Outcome::Failed(a), Outcome::Failed(b)) = (&first, &second) {
        if a != b || log != log2 {
            best_msg = format!("{a} [a second run of the same choices differed: {b}]");
        } else {
            best_msg = a.clone();
        }
    } else {
        best_msg = format!("{best_msg} [does not fail on every run of the same choices]");
    }
    Violation {
        section: name.into(),
        path: best,
        message: best_msg,
        log,
    }
}

struct WorkerResult {
    ch: Ch,
    executions: u64,
    pruned: u64,
    max_choices: u64,
    sample: Option<Vec<(u32, u32)>>,
}

fn worker<F: Fn(&mut Ch) -> Res>(sh: &Shared, body: &F, deadline: Instant) -> WorkerResult {
    QUIET.with(|q| *q.borrow_mut() = true);
    let mut w = WorkerResult {
        ch: Ch::new(),
        executions: 0,
        pruned: 0,
        max_choices: 0,
        sample: None,
    };
    'outer: loop {
        // Get a subtree.
        let prefix = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::SeqCst) {
                    break 'outer;
                }
                if let Some(p) = q.pop() {
                    sh.busy.fetch_add(1, Ordering::SeqCst);
                    break p;
                }
                if sh.busy.load(Ordering::SeqCst) == 0 {
                    sh.cv.notify_all();
                    break 'outer;
                }
                sh.hungry.fetch_add(1, Ordering::SeqCst);
                let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap();
                q = g;
                sh.hungry.fetch_sub(1, Ordering::SeqCst);
            }
        };
        let mut base = prefix.len();
        w.ch.prefix = prefix;
        loop {
            let outcome = run_once(&mut w.ch, body);
            match outcome {
                Outcome::Ok => {
                    w.executions += 1;
                    // Keep the execution that followed the most choices, roughly.
                    let n = w.executions;
                    if n & (n - 1) == 0 {
                        w.sample = Some(w.ch.path.clone());
                    }
                }
                Outcome::Pruned => w.pruned += 1,
                Outcome::Failed(m) => {
                    w.executions += 1;
                    let mut v = sh.violations.lock().unwrap();
                    if v.len() < 64 {
                        v.push((w.ch.path.clone(), m));
                    }
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                }
            }
            w.max_choices = w.max_choices.max(w.ch.path.len() as u64);
            if sh.stop.load(Ordering::Relaxed) {
                break 'outer;
            }
            if (w.executions + w.pruned) % 64 == 0 && Instant::now() > deadline {
                sh.capped.store(true, Ordering::SeqCst);
                sh.stop.store(true, Ordering::SeqCst);
                sh.cv.notify_all();
                break 'outer;
            }
            if w.ch.path.len() < base {
                eprintln!("ENGINE ERROR: execution is not determined by its choices (too short)");
                std::process::exit(3);
            }
            // Give away the shallowest open alternatives when others have nothing to do.
            if sh.hungry.load(Ordering::Relaxed) > 0 {
                if let Some(i) = (base..w.ch.path.len()).find(|&i| w.ch.path[i].0 + 1 < w.ch.path[i].1) {
                    let mut q = sh.queue.lock().unwrap();
                    for c in (w.ch.path[i].0 + 1..w.ch.path[i].1).rev() {
                        let mut p = w.ch.path[..i].to_vec();
                        p.push((c, w.ch.path[i].1));
                        q.push(p);
                    }
                    sh.cv.notify_all();
                    base = i + 1;
                }
            }
            // Next in depth-first order.
            let mut i = w.ch.path.len();
            loop {
                if i <= base {
                    break;
                }
                i -= 1;
                if w.ch.path[i].0 + 1 < w.ch.path[i].1 {
                    break;
                }
                if i == base {
                    i = usize::MAX;
                    break;
                }
            }
            if i == usize::MAX || i >= w.ch.path.len() || i < base {
                break;
            }
            let mut p = std::mem::take(&mut w.ch.path);
            p.truncate(i + 1);
            p[i].0 += 1;
            w.ch.prefix = p;
        }
        let _q = sh.queue.lock().unwrap();
        sh.busy.fetch_sub(1, Ordering::SeqCst);
        sh.cv.notify_all();
    }
    sh.executions.fetch_add(w.executions, Ordering::SeqCst);
    w
}
