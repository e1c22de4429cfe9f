//! Small explicit-state model-checking toolkit shared by all checks.
//!
//! * `Check`  – bookkeeping for one property: counters, samples, violations, evidence.
//! * `bfs`    – breadth-first exploration of a finite model with shortest traces.
//! * `Tree`   – exhaustive enumeration of all words over a finite alphabet.

use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Debug;
use std::hash::Hash;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub use serde_json;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub key: String,
    pub msg: String,
    pub replay: Value,
}

#[derive(Default)]
struct Inner {
    violations: Vec<Violation>,
    known_hit: BTreeMap<String, u64>,
    samples: Vec<Value>,
    outcomes: BTreeMap<String, u64>,
    extra: Map<String, Value>,
    assumptions: Vec<String>,
}

pub struct Check {
    pub property: String,
    pub tier: Tier,
    seed: u64,
    root: PathBuf,
    start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    known: BTreeMap<String, String>,
    inner: Mutex<Inner>,
    total_violations: AtomicU64,
}

/// Stop recording after this many distinct violations (counting continues).
const MAX_VIOLATIONS: usize = 25;

impl Check {
    pub fn new(property: &str, tier: Tier) -> Self {
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for line in text.lines() {
                let line = line.trim();
                if line.is_empty() || line.starts_with('#') || line.starts_with("fixed:") {
                    continue;
                }
                // known: property=<id> key=<key> :: <what fails>
                if let Some(rest) = line.strip_prefix("known: property=") {
                    if let Some((id, rest)) = rest.split_once(' ') {
                        if id == property {
                            if let Some((k, d)) = rest.strip_prefix("key=").and_then(|r| r.split_once(" :: ")) {
                                known.insert(k.to_string(), d.to_string());
                            }
                        }
                    }
                }
            }
        }
        silence_panics();
        Self {
            property: property.into(),
            tier,
            seed,
            root,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            known,
            inner: Mutex::new(Inner::default()),
            total_violations: AtomicU64::new(0),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// pick a bound by tier
    pub fn bound<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn add_traces(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap_or_else(|e| e.into_inner());
        if i.samples.len() < 12 {
            i.samples.push(v);
        }
    }
    pub fn outcome(&self, k: &str, n: u64) {
        *self.inner.lock().unwrap_or_else(|e| e.into_inner()).outcomes.entry(k.into()).or_insert(0) += n;
    }
    pub fn extra(&self, k: &str, v: Value) {
        self.inner.lock().unwrap_or_else(|e| e.into_inner()).extra.insert(k.into(), v);
    }
    pub fn assume(&self, s: &str) {
        self.inner.lock().unwrap_or_else(|e| e.into_inner()).assumptions.push(s.into());
    }
    pub fn failed(&self) -> bool {
        self.total_violations.load(Ordering::Relaxed) > 0
    }
    /// too many violations to be worth continuing
    pub fn saturated(&self) -> bool {
        self.total_violations.load(Ordering::Relaxed) >= MAX_VIOLATIONS as u64
    }

    /// Report a violated expectation. `key` identifies the specific failing input/history.
    pub fn fail(&self, key: impl Into<String>, msg: impl Into<String>, replay: Value) {
        let key = key.into();
        let mut i = self.inner.lock().unwrap_or_else(|e| e.into_inner());
        if self.known.contains_key(&key) {
            *i.known_hit.entry(key).or_insert(0) += 1;
            return;
        }
        self.total_violations.fetch_add(1, Ordering::Relaxed);
        if i.violations.len() < MAX_VIOLATIONS {
            i.violations.push(Violation { key, msg: msg.into(), replay });
        }
    }

    pub fn expect(&self, ok: bool, key: impl FnOnce() -> String, msg: impl FnOnce() -> String) {
        if !ok {
            let k = key();
            let m = msg();
            self.fail(k.clone(), m.clone(), json!({"input": k, "what": m}));
        }
    }

    /// Run `f`; a panic in it is a violation.
    pub fn no_panic<R>(&self, key: impl Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        match catch(f) {
            Ok(r) => Some(r),
            Err(p) => {
                let k = key();
                self.fail(k.clone(), format!("panicked: {p}"), json!({"input": k, "panic": p}));
                None
            }
        }
    }

    /// Write evidence and replay files, print the verdict; returns the process exit code.
    pub fn finish(self) -> i32 {
        let inner = self.inner.into_inner().unwrap_or_else(|e| e.into_inner());
        let ev = self.root.join("evidence");
        let _ = std::fs::create_dir_all(ev.join("replay"));
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        for (k, d) in &self.known {
            if inner.known_hit.contains_key(k) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.property, d, k);
            }
        }
        let mut cov = Map::new();
        cov.insert("states".into(), json!(self.states.into_inner()));
        cov.insert("transitions".into(), json!(self.transitions.into_inner()));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces.into_inner()));
        cov.insert("samples".into(), json!(inner.samples));
        cov.insert("exhaustive".into(), json!(true));
        if !inner.outcomes.is_empty() {
            cov.insert("distinct_outcomes".into(), json!(inner.outcomes));
        }
        for (k, v) in inner.extra {
            cov.insert(k, v);
        }
        if !inner.known_hit.is_empty() {
            cov.insert("known_findings_reproduced".into(), json!(inner.known_hit));
        }
        let total = self.total_violations.into_inner();
        let evidence = json!({
            "property": self.property,
            "tier": tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": inner.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64()*1000.0).round()/1000.0,
            "violations": total,
        });
        let path = ev.join(format!("{}.json", self.property));
        let mut f = std::fs::File::create(&path).expect("evidence file");
        writeln!(f, "{}", serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
        if total == 0 {
            println!("PASS property={} tier={tier} {}", self.property, serde_json::to_string(&evidence["coverage"]).unwrap().chars().take(160).collect::<String>());
            return 0;
        }
        for (n, v) in inner.violations.iter().enumerate() {
            let rp = ev.join("replay").join(format!("{}-{n}.json", self.property));
            let _ = std::fs::write(
                &rp,
                serde_json::to_string_pretty(&json!({"property": self.property, "key": v.key, "what": v.msg, "replay": v.replay})).unwrap(),
            );
            println!("VIOLATION property={} replay={}", self.property, rp.display());
            println!("  key: {}", v.key);
            println!("  {}", v.msg);
        }
        println!("{total} violation(s) of {}", self.property);
        1
    }
}

// ------------------------------------------------------------------------------------------------

/// The last panic: what it said, and whether it was an assertion that the checker makes of itself.
static LAST_PANIC: Mutex<Option<(String, bool)>> = Mutex::new(None);

pub fn silence_panics() {
    let loud = std::env::var_os("MC_LOUD").is_some();
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if loud {
            hook(info);
        }
        let text = info.to_string();
        // (a thread that ends because another one panicked)
        if !text.contains("a scoped thread panicked") {
            let own = info.location().is_some_and(|l| l.file().starts_with("mc")) && text.contains("assertion");
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((text, own));
        }
    }));
}

/// Run a check and end the process with its verdict. When the code under test panics where no
/// outcome is being compared, on a value that the check needs in order to go on, that is a violation.
///
/// The check runs in a process of its own: code which overflows its stack, runs out of memory or does
/// not return ends that process, and this is a violation too.
pub fn run(c: Check, f: impl FnOnce(&Check)) -> ! {
    if std::env::var_os("MC_WITHIN").is_none() {
        supervise(c);
    }
    std::thread::spawn(watch);
    if catch_unwind(AssertUnwindSafe(|| f(&c))).is_err() {
        let (text, own) = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
        if own {
            eprintln!("the checker of {} is broken: {text}", c.property);
            std::process::exit(2);
        }
        c.fail(format!("panic: {text}"), "the code under test panicked or refused a valid value", json!({"panic": text}));
    }
    if std::env::var_os("MC_SLOW").is_some() {
        eprintln!("longest step: {} s of processor time", LONGEST.load(Ordering::Relaxed) as f64 / TICKS as f64);
    }
    std::process::exit(c.finish());
}

/// The status with which a check ends when the code under test does not return.
const STUCK: i32 = 86;

fn supervise(c: Check) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let again = |keys: Option<&PathBuf>| {
        let mut p = std::process::Command::new(std::env::current_exe().expect("own path"));
        p.args(std::env::args_os().skip(1)).env("MC_WITHIN", "1");
        match keys {
            Some(k) => p.env("MC_KEYS", k).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()),
            None => &mut p,
        };
        p.spawn().and_then(|mut p| p.wait()).expect("the check as a process")
    };
    let broken = |s: std::process::ExitStatus| match (s.code(), s.signal()) {
        (Some(STUCK), _) => Some("the code under test does not return"),
        // 6 abort (a full stack or memory), 7 bus error, 4 illegal instruction, 11 segmentation violation
        (_, Some(4 | 6 | 7 | 11)) => Some("the code under test crashes the process"),
        _ => None,
    };
    let status = again(None);
    let Some(what) = broken(status) else {
        std::process::exit(status.code().unwrap_or(2));
    };
    // once more, now noting what each thread is at
    let keys = std::env::temp_dir().join(format!("mc-keys-{}", std::process::id()));
    let _ = std::fs::create_dir(&keys);
    let second = again(Some(&keys));
    let mut at: Vec<String> = vec![];
    if broken(second).is_some() {
        for f in std::fs::read_dir(&keys).into_iter().flatten().flatten() {
            at.extend(std::fs::read_to_string(f.path()).ok());
        }
    }
    let _ = std::fs::remove_dir_all(&keys);
    at.retain(|k| !k.is_empty());
    at.sort();
    c.fail(format!("{what}, at one of {at:?}").chars().take(2000).collect::<String>(), what, json!({"status": format!("{status}"), "at one of": at}));
    std::process::exit(c.finish());
}

/// What a thread is at: the number of the step (0 between steps), and its id.
struct Slot {
    step: AtomicU64,
    tid: u64,
}
static SLOTS: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(vec![]);
static LONGEST: AtomicU64 = AtomicU64::new(0);
const TICKS: u64 = 100;

thread_local! {
    static SLOT: std::sync::Arc<Slot> = {
        let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0);
        let slot = std::sync::Arc::new(Slot { step: AtomicU64::new(0), tid });
        SLOTS.lock().unwrap_or_else(|e| e.into_inner()).push(slot.clone());
        slot
    };
    static STEPS: std::cell::Cell<(u64, u32)> = const { std::cell::Cell::new((0, 0)) };
}

/// Ends the process when a step takes far too long: minutes of processor time where others take
/// less than seconds, or a much longer time of waiting.
fn watch() {
    let mut seen: HashMap<u64, (u64, u64, Instant)> = HashMap::new();
    let parent = std::os::unix::process::parent_id();
    let limit = if args().1 == Tier::Thorough { 1200 } else { 120 };
    loop {
        std::thread::sleep(std::time::Duration::from_millis(300));
        if std::os::unix::process::parent_id() != parent {
            // nobody waits for the verdict any more
            std::process::exit(2);
        }
        let mut slots = SLOTS.lock().unwrap_or_else(|e| e.into_inner());
        slots.retain(|s| std::sync::Arc::strong_count(s) > 1);
        for s in slots.iter() {
            let step = s.step.load(Ordering::Relaxed);
            let Some(cpu) = std::fs::read_to_string(format!("/proc/self/task/{}/stat", s.tid)).ok().and_then(|t| {
                let f: Vec<u64> = t.rsplit(')').next()?.split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
                Some(f.iter().sum::<u64>())
            }) else {
                continue;
            };
            match seen.get(&s.tid) {
                Some((at, from, since)) if *at == step && step > 0 => {
                    let used = cpu.saturating_sub(*from);
                    LONGEST.fetch_max(used, Ordering::Relaxed);
                    if used > limit * TICKS || since.elapsed().as_secs() > 5 * limit {
                        eprintln!("a step has taken {} s of processor time and {} s", used / TICKS, since.elapsed().as_secs());
                        std::process::exit(STUCK);
                    }
                }
                _ => {
                    seen.insert(s.tid, (step, cpu, Instant::now()));
                }
            }
        }
    }
}

/// Notes what this thread is about to do, for when the process does not survive it.
pub fn at(key: impl FnOnce() -> String) {
    thread_local! {
        static NOTE: std::cell::OnceCell<Option<std::fs::File>> = const { std::cell::OnceCell::new() };
    }
    static WANTED: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    if let Some(dir) = WANTED.get_or_init(|| std::env::var_os("MC_KEYS").map(PathBuf::from)) {
        use std::os::unix::fs::FileExt;
        NOTE.with(|n| {
            let f = n.get_or_init(|| std::fs::File::create(dir.join(format!("{:?}", std::thread::current().id()))).ok());
            if let Some(f) = f {
                let k: String = key().chars().take(500).collect();
                let _ = f.set_len(0);
                let _ = f.write_at(k.as_bytes(), 0);
            }
        });
    }
}

/// One step of the code under test: a panic in it is an error.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let (n, depth) = STEPS.get();
    STEPS.set((n + 1, depth + 1));
    if depth == 0 {
        SLOT.with(|s| s.step.store(n + 1, Ordering::Relaxed));
    }
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".into()
        }
    });
    STEPS.set((STEPS.get().0, depth));
    if depth == 0 {
        SLOT.with(|s| s.step.store(0, Ordering::Relaxed));
    }
    r
}

// ------------------------------------------------------------------------------------------------
// Exhaustive words
// ------------------------------------------------------------------------------------------------

/// Visit every word over `alphabet` of length 0..=max, sharing the work between threads by prefix.
/// `f` receives the word's symbol indices. Returns the number of words visited.
pub fn words<F>(alphabet: usize, max: usize, f: F) -> u64
where
    F: Fn(&[usize]) + Sync,
{
    let split = max.min(2);
    // all words shorter than `split`, sequentially, then subtrees in parallel
    let mut count = 0u64;
    let mut roots: Vec<Vec<usize>> = Vec::new();
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for depth in 0..=split {
        for w in &layer {
            if depth < split || split == max && depth == max {
                f(w);
                count += 1;
            } else {
                roots.push(w.clone());
            }
        }
        let mut next = Vec::new();
        if depth < split {
            for w in &layer {
                for a in 0..alphabet {
                    let mut v = w.clone();
                    v.push(a);
                    next.push(v);
                }
            }
        }
        layer = next;
    }
    let total = AtomicU64::new(count);
    par_each(&roots, |r| {
        let mut w = r.clone();
        let mut n = 0u64;
        rec(&mut w, alphabet, max, &f, &mut n);
        total.fetch_add(n, Ordering::Relaxed);
    });
    total.into_inner()
}

fn rec<F: Fn(&[usize])>(w: &mut Vec<usize>, alphabet: usize, max: usize, f: &F, n: &mut u64) {
    f(w);
    *n += 1;
    if w.len() == max {
        return;
    }
    for a in 0..alphabet {
        w.push(a);
        rec(w, alphabet, max, f, n);
        w.pop();
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}

/// Apply `f` to every item, in parallel.
pub fn par_each<T: Sync, F: Fn(&T) + Sync>(items: &[T], f: F) {
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if i >= items.len() {
                        break;
                    }
                    f(&items[i]);
                })
                .unwrap();
        }
    });
}

// ------------------------------------------------------------------------------------------------
// Explicit-state BFS
// ------------------------------------------------------------------------------------------------

pub struct Explored<S, A> {
    pub states: Vec<S>,
    /// for each state: (predecessor index, action) – None for initial states
    pub parent: Vec<Option<(usize, A)>>,
    /// every transition (from, action, to)
    pub edges: Vec<(usize, A, usize)>,
    pub depth: usize,
    pub complete: bool,
}

impl<S, A: Clone> Explored<S, A> {
    pub fn trace(&self, mut i: usize) -> Vec<A> {
        let mut t = Vec::new();
        while let Some((p, a)) = &self.parent[i] {
            t.push(a.clone());
            i = *p;
        }
        t.reverse();
        t
    }
}

/// Breadth-first exploration of a deterministic model: `next` yields the successor for an action,
/// or None where the action is disabled.
pub fn bfs<S, A>(
    init: Vec<S>,
    actions: &[A],
    next: impl Fn(&S, &A) -> Option<S>,
    max_depth: usize,
    max_states: usize,
) -> Explored<S, A>
where
    S: Clone + Eq + Hash,
    A: Clone + Debug,
{
    let mut ex = Explored { states: vec![], parent: vec![], edges: vec![], depth: 0, complete: true };
    let mut index: HashMap<S, usize> = HashMap::new();
    let mut q = VecDeque::new();
    for s in init {
        if !index.contains_key(&s) {
            index.insert(s.clone(), ex.states.len());
            q.push_back((ex.states.len(), 0usize));
            ex.states.push(s);
            ex.parent.push(None);
        }
    }
    while let Some((i, d)) = q.pop_front() {
        ex.depth = ex.depth.max(d);
        if d >= max_depth {
            ex.complete = false;
            continue;
        }
        let s = ex.states[i].clone();
        for a in actions {
            if let Some(t) = next(&s, a) {
                let j = match index.get(&t) {
                    Some(j) => *j,
                    None => {
                        if ex.states.len() >= max_states {
                            ex.complete = false;
                            continue;
                        }
                        let j = ex.states.len();
                        index.insert(t.clone(), j);
                        ex.states.push(t);
                        ex.parent.push(Some((i, a.clone())));
                        q.push_back((j, d + 1));
                        j
                    }
                };
                ex.edges.push((i, a.clone(), j));
            }
        }
    }
    ex
}

/// Parse `<PROPERTY> [quick|thorough]` from argv.
pub fn args() -> (String, Tier) {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let tier = match a.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    (id, tier)
}

/// FNV-1a, used for digests in evidence.
pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf29ce484222325 } else { h };
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
