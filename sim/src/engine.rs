//! The deterministic simulation engine: every choice of a run is drawn from one
//! recorded choice sequence, structured in steps so that it can be minimised.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

/// splitmix64 / xorshift generator: small, fast, and fully deterministic.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// FNV hasher with no random state, for state fingerprints.
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn fingerprint(x: &impl Hash) -> u64 {
    let mut h = Fnv::default();
    x.hash(&mut h);
    h.finish()
}

// ---- randomness of std::collections::HashMap: keys come from getrandom, which
// ---- this binary replaces by a per-thread seeded generator.
thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x5eed) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
/// Seeds the source of hash keys of this thread. Must be called before any hash
/// map is created in the thread.
pub fn seed_thread(seed: u64) {
    HASH_SEED.with(|c| c.set(seed));
}
/// # Safety
/// Same contract as the libc function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.try_with(|c| c.get()).unwrap_or(1);
    let mut r = Rng::new(s);
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    s = r.next();
    let _ = HASH_SEED.try_with(|c| c.set(s));
    len as isize
}

/// Source of choices.
pub struct Src {
    rng: Option<Rng>,
    pub steps: Vec<Vec<u32>>,
    cur: usize,
    pos: usize,
}
impl Src {
    pub fn generate(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), steps: vec![vec![]], cur: 0, pos: 0 }
    }
    pub fn replay(steps: Vec<Vec<u32>>) -> Self {
        Src { rng: None, steps, cur: 0, pos: 0 }
    }
    fn draw(&mut self, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize);
        match &mut self.rng {
            Some(r) => {
                let v = (r.next() % n as u64) as u32;
                self.steps[self.cur].push(v);
                v as usize
            }
            None => {
                let v = self.steps.get(self.cur).and_then(|s| s.get(self.pos)).copied();
                self.pos += 1;
                v.unwrap_or(0) as usize % n
            }
        }
    }
    fn next_step(&mut self) -> bool {
        self.cur += 1;
        self.pos = 0;
        if self.rng.is_some() {
            self.steps.push(vec![]);
            true
        } else {
            self.cur < self.steps.len()
        }
    }
}

/// The payload of an oracle failure.
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub fn violate(class: &str, msg: String) -> ! {
    panic::panic_any(Violation { class: class.to_string(), msg })
}
/// Whether the system panicked in a call. Failures of the checks go on.
pub fn panics(f: impl FnOnce()) -> bool {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(e) if e.is::<Violation>() => panic::resume_unwind(e),
        Err(_) => true,
    }
}
#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => { $crate::engine::violate($class, format!($($arg)*)) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => { if !$cond { $crate::engine::violate($class, format!($($arg)*)) } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $class:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { $crate::engine::violate($class, format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)) }
    }};
}

/// A panic injected by the simulator into caller-supplied code.
pub struct InjectedPanic;

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// The outcome of catching a panic.
pub enum Caught {
    Injected,
    Violation(Violation),
    /// Message and location.
    Panic(String, String),
}
pub fn classify(payload: Box<dyn Any + Send>) -> Caught {
    let (msg, loc) = take_panic();
    match payload.downcast::<Violation>() {
        Ok(v) => Caught::Violation(*v),
        Err(p) if p.is::<InjectedPanic>() => Caught::Injected,
        Err(_) => Caught::Panic(msg, loc),
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub ops: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub states: HashSet<u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        for (a, b) in [(&mut self.ops, &o.ops), (&mut self.faults, &o.faults), (&mut self.probes, &o.probes)] {
            for (k, v) in b {
                *a.entry(k.clone()).or_default() += v;
            }
        }
        self.steps += o.steps;
        self.states.extend(o.states.iter());
    }
}

/// The context of one simulated run.
pub struct Ctx {
    pub src: Src,
    pub stats: Stats,
    pub trace: Option<Vec<String>>,
    pub max_steps: usize,
    steps_done: usize,
    pub thorough: bool,
    pub hash_seed: u64,
    pub limit: usize,
}
impl Ctx {
    pub fn new(src: Src, trace: bool, thorough: bool) -> Self {
        Ctx { src, stats: Stats::default(), trace: trace.then(Vec::new), max_steps: 40, steps_done: 0, thorough, hash_seed: 0, limit: usize::MAX }
    }
    /// Uniform choice in `0..n`. Choice 0 should be the simplest.
    pub fn draw(&mut self, n: usize) -> usize {
        self.src.draw(n)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw(hi - lo + 1)
    }
    /// True with `pct` percent probability; false is the simple choice.
    pub fn chance(&mut self, pct: usize) -> bool {
        let v = self.draw(100);
        v >= 100 - pct.min(100)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> Option<&'a T> {
        if xs.is_empty() {
            return None;
        }
        let i = self.draw(xs.len());
        Some(&xs[i])
    }
    /// Picks an index with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.draw(total.max(1) as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
    /// A subset of `xs` where each element is kept with `pct` percent probability.
    pub fn subset<T: Clone>(&mut self, xs: &[T], pct: usize) -> Vec<T> {
        xs.iter().filter(|_| self.chance(pct)).cloned().collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.draw(i + 1);
            xs.swap(i, j);
        }
    }
    /// Moves on to the next step of the run. False when the run is over.
    pub fn next_step(&mut self) -> bool {
        if self.src.rng.is_some() && self.steps_done >= self.max_steps.min(self.limit) {
            return false;
        }
        self.steps_done += 1;
        let more = self.src.next_step();
        if more {
            self.stats.steps += 1;
        }
        more
    }
    /// Leaves at most `more` steps.
    pub fn shorten(&mut self, more: usize) {
        self.max_steps = self.max_steps.min(self.steps_done + more);
    }
    pub fn op(&mut self, name: &str) {
        *self.stats.ops.entry(name.to_string()).or_default() += 1;
    }
    pub fn fault(&mut self, name: &str) {
        *self.stats.faults.entry(name.to_string()).or_default() += 1;
    }
    pub fn probe(&mut self, name: &str) {
        *self.stats.probes.entry(name.to_string()).or_default() += 1;
    }
    pub fn state(&mut self, fp: u64) {
        if self.stats.states.len() < 4000 {
            self.stats.states.insert(fp);
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 2000 {
                t.push(f());
            }
        }
    }
}

/// A check: a workload plus its oracles.
pub type CheckFn = fn(&mut Ctx);

pub struct RunResult {
    pub steps: Vec<Vec<u32>>,
    pub stats: Stats,
    pub trace: Vec<String>,
    /// Class and message.
    pub violation: Option<(String, String)>,
}

/// Executes one run in a fresh thread, so that no state survives between runs.
pub fn execute(f: CheckFn, src: Src, hash_seed: u64, trace: bool, thorough: bool) -> RunResult {
    execute_limited(f, src, hash_seed, trace, thorough, None)
}

/// Same, with a limit on the number of steps.
pub fn execute_limited(f: CheckFn, src: Src, hash_seed: u64, trace: bool, thorough: bool, limit: Option<usize>) -> RunResult {
    let cell: Arc<Mutex<Option<RunResult>>> = Arc::default();
    let out = cell.clone();
    let handle = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            seed_thread(hash_seed);
            let mut ctx = Ctx::new(src, trace, thorough);
            ctx.hash_seed = hash_seed;
            ctx.limit = limit.unwrap_or(usize::MAX);
            let res = panic::catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
            let violation = match res {
                Ok(()) => None,
                Err(p) => Some(match classify(p) {
                    Caught::Violation(v) => (v.class, v.msg),
                    Caught::Injected => ("injected-panic-escaped".into(), "an injected panic escaped".into()),
                    Caught::Panic(msg, loc) => {
                        let file = loc.split(':').next().unwrap_or("").to_string();
                        (format!("panic in {file}"), format!("unexpected panic at {loc}: {msg}"))
                    }
                }),
            };
            *out.lock().unwrap() = Some(RunResult {
                steps: std::mem::take(&mut ctx.src.steps),
                stats: std::mem::take(&mut ctx.stats),
                trace: ctx.trace.take().unwrap_or_default(),
                violation,
            });
        })
        .expect("spawn simulated run");
    let _ = handle.join();
    let r = cell.lock().unwrap().take();
    r.expect("run result")
}

/// Shrinks a failing choice sequence while the violation class stays the same.
pub fn minimise(f: CheckFn, steps: Vec<Vec<u32>>, hash_seed: u64, class: &str, budget: std::time::Duration, thorough: bool) -> Vec<Vec<u32>> {
    let start = std::time::Instant::now();
    let mut best = steps;
    let mut tries = 0;
    let attempt = |cand: &Vec<Vec<u32>>, tries: &mut u32| -> bool {
        *tries += 1;
        let r = execute(f, Src::replay(cand.clone()), hash_seed, false, thorough);
        matches!(r.violation, Some((c, _)) if c == class)
    };
    let over = |tries: u32| start.elapsed() > budget || tries > 4000;
    loop {
        let before = (best.len(), best.iter().map(|s| s.len()).sum::<usize>(), best.iter().flatten().map(|v| *v as u64).sum::<u64>());
        // 1. Drop runs of steps (the first step is the configuration).
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 1;
            while i < best.len() {
                if over(tries) {
                    return best;
                }
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if attempt(&cand, &mut tries) {
                    best = cand;
                } else {
                    i = end;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // 2. Truncate and lower the choices inside each step.
        for s in 0..best.len() {
            let mut len = best[s].len();
            while len > 0 {
                if over(tries) {
                    return best;
                }
                let cut = (len + 1) / 2;
                let mut cand = best.clone();
                cand[s].truncate(len - cut);
                if attempt(&cand, &mut tries) {
                    best = cand;
                    len = best[s].len();
                } else if cut == 1 {
                    break;
                } else {
                    len = len - cut + cut / 2;
                    let mut cand = best.clone();
                    cand[s].truncate(len);
                    if attempt(&cand, &mut tries) {
                        best = cand;
                    } else {
                        break;
                    }
                }
            }
            for i in 0..best[s].len().min(60) {
                let v = best[s][i];
                for nv in [0, v / 2, v.saturating_sub(1)] {
                    if over(tries) {
                        return best;
                    }
                    if i >= best[s].len() || nv >= best[s][i] {
                        continue;
                    }
                    let mut cand = best.clone();
                    cand[s][i] = nv;
                    if attempt(&cand, &mut tries) {
                        best = cand;
                        break;
                    }
                }
            }
        }
        let after = (best.len(), best.iter().map(|s| s.len()).sum::<usize>(), best.iter().flatten().map(|v| *v as u64).sum::<u64>());
        if after >= before || over(tries) {
            return best;
        }
    }
}
