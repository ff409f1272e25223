//! A small choice-sequence property engine: generation, replay, shrinking, statistics.
//!
//! A generated case is nothing but the sequence of bounded choices its property drew. The sequence
//! comes from a PRNG seeded by (seed, property, sub-check, case number), from a replay file, from the
//! shrinker, or from a coverage-guided fuzzer's bytes; the property cannot tell the difference.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// xoshiro256** seeded by splitmix64
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn below(x: u64, n: u64) -> u64 {
    if n == u64::MAX { x } else { ((x as u128 * n as u128) >> 64) as u64 }
}

enum Source {
    Random(Rng),
    /// The choices of another case, except for the one at `at`
    Near { base: Rng, other: Rng, at: usize },
    /// Choices are taken from the list (clamped to their bound); past its end every choice is 0
    Fixed(Vec<u64>),
    /// Raw bytes of a coverage-guided fuzzer; past the end every choice is 0
    Bytes(Vec<u8>),
}

pub struct Case {
    source: Source,
    pos: usize,
    pub trace: Vec<u64>,
    nontrivial: bool,
    labels: Vec<String>,
    notes: Vec<String>,
    verbose: bool,
    inner: u64,
    /// 1 in the quick tier, larger in the thorough tier (scales sizes where a property wants it)
    pub depth: u32,
    /// Every choice is written here as it is drawn (to find the choices of a case that ends the process)
    sink: Option<std::fs::File>,
}

impl Case {
    fn new(source: Source, verbose: bool, depth: u32) -> Self {
        Case { source, pos: 0, trace: Vec::new(), nontrivial: false, labels: vec![], notes: vec![], verbose, inner: 0, depth, sink: None }
    }

    pub fn fixed(choices: Vec<u64>) -> Self {
        Case::new(Source::Fixed(choices), false, 1)
    }

    /// A number in 0..n
    pub fn choice(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.source {
            Source::Random(r) => below(r.next(), n),
            Source::Near { base, other, at } => {
                let x = base.next();
                below(if self.pos == *at { other.next() } else { x }, n)
            }
            Source::Fixed(v) => {
                let x = v.get(self.pos).copied().unwrap_or(0);
                x.min(n - 1)
            }
            Source::Bytes(b) => {
                let len = if n <= 0x100 { 1 } else if n <= 0x10000 { 2 } else if n <= 0x1_0000_0000 { 4 } else { 8 };
                let mut x = 0u64;
                for _ in 0..len {
                    x = (x << 8) | b.get(self.pos).copied().unwrap_or(0) as u64;
                    self.pos += 1;
                }
                self.pos -= 1;
                x % n
            }
        };
        self.pos += 1;
        self.trace.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = write!(f, "{v} ");
        }
        v
    }

    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.choice((hi - lo + 1) as u64) as i64
    }

    /// An integer in lo..=hi that is often one of `special`, and shrinks to special[0]
    pub fn int_special(&mut self, special: &[i64], lo: i64, hi: i64) -> i64 {
        let k = self.choice(2 * special.len() as u64) as usize;
        if k < special.len() { special[k] } else { self.int(lo, hi) }
    }

    pub fn u8(&mut self) -> u8 {
        self.choice(256) as u8
    }

    pub fn bool(&mut self) -> bool {
        self.choice(2) == 1
    }

    /// True with probability k/n; shrinks to false
    pub fn chance(&mut self, k: u64, n: u64) -> bool {
        self.choice(n) >= n - k
    }

    /// Whether this case also makes the calls with other arguments that accompany its main call. Not always: they would wipe out
    /// what the operation keeps from one case to the next.
    pub fn aside(&mut self) -> bool {
        self.chance(1, 3)
    }

    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.choice(v.len() as u64) as usize].clone()
    }

    /// A multiple of 1/den in lo..=hi
    pub fn frac(&mut self, lo: i64, hi: i64, den: i64) -> f64 {
        self.int(lo * den, hi * den) as f64 / den as f64
    }

    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }

    pub fn label_if(&mut self, cond: bool, s: &str) {
        if cond {
            self.labels.push(s.to_string());
        }
    }

    /// Declares the case non-trivial (by the rule of the sub-check)
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let mut s = f();
            if s.len() > 4000 {
                let mut k = 4000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.notes.push(s);
        }
    }

    /// Counts comparisons made inside one case
    pub fn count(&mut self, n: u64) {
        self.inner += n;
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(true) };
}
static ANY_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("{msg} at {loc}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(full.clone()));
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = Some(full);
        }
    }));
}

/// Runs `f`; Err(message) if it panicked
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
            ANY_PANIC.lock().ok().and_then(|mut g| g.take()).unwrap_or_else(|| "panic".into())
        })),
    }
}

pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    guarded(|| {
        f();
    })
    .is_err()
}

pub type Prop = fn(&mut Case) -> R;

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    pub f: Prop,
    pub quick: u64,
    pub thorough: u64,
    /// If set, case i is run with the single forced first choice i (an enumeration), not randomly
    pub enumerate: bool,
    /// Forced to one thread (file system, child processes)
    pub serial: bool,
}

pub const fn sub(name: &'static str, f: Prop, quick: u64, thorough: u64) -> Sub {
    Sub { name, f, quick, thorough, enumerate: false, serial: false }
}
pub const fn all(name: &'static str, f: Prop, quick: u64, thorough: u64) -> Sub {
    Sub { name, f, quick, thorough, enumerate: true, serial: false }
}

pub struct PropertyDef {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub inner: u64,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_evals: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub wall: f64,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub sub: String,
    pub index: u64,
    pub choices: Vec<u64>,
    pub message: String,
    pub notes: Vec<String>,
    /// The choices before the reduction
    pub original: Vec<u64>,
}

fn hash_trace(t: &[u64]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Run {
    pub result: R,
    pub trace: Vec<u64>,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub notes: Vec<String>,
    pub inner: u64,
}

fn exec(f: Prop, mut case: Case) -> Run {
    let result = match guarded(|| f(&mut case)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {p}")),
    };
    Run { result, trace: case.trace, nontrivial: case.nontrivial, labels: case.labels, notes: case.notes, inner: case.inner }
}

pub fn run_fixed(f: Prop, choices: &[u64], verbose: bool, depth: u32) -> Run {
    exec(f, Case::new(Source::Fixed(choices.to_vec()), verbose, depth))
}

pub fn run_bytes(f: Prop, bytes: &[u8], depth: u32) -> Run {
    exec(f, Case::new(Source::Bytes(bytes.to_vec()), false, depth))
}

fn case_source(s: &Sub, prop: &str, seed: u64, index: u64) -> Source {
    if s.enumerate {
        Source::Fixed(vec![index])
    } else {
        let mut x = seed ^ fnv(prop).rotate_left(17) ^ fnv(s.name).rotate_left(31);
        let a = splitmix(&mut x);
        let rng = |index: u64| {
            let mut y = a ^ index.wrapping_mul(0xD1342543DE82EF95);
            Rng::new(splitmix(&mut y))
        };
        if index % 8 == 7 {
            // The case before it with one choice drawn again: what a call remembers of the one before it shows here
            let mut other = rng(index);
            let span = 2u64 << below(other.next(), 7);
            let at = below(other.next(), span) as usize;
            return Source::Near { base: rng(index - 1), other, at };
        }
        Source::Random(rng(index))
    }
}

/// Whether a failure is reduced (not while looking for the history a failure depends on)
pub static SHRINK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);

pub fn run_seeded(s: &Sub, prop: &str, seed: u64, index: u64, depth: u32) -> Run {
    exec(s.f, Case::new(case_source(s, prop, seed, index), false, depth))
}

pub fn run_index(s: &Sub, prop: &str, seed: u64, index: u64, depth: u32, sink: Option<&str>) -> Run {
    let mut c = Case::new(case_source(s, prop, seed, index), false, depth);
    c.sink = sink.map(|p| std::fs::File::create(p).expect("cannot write the choices"));
    exec(s.f, c)
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Reduces a failing choice sequence to a locally minimal one
pub fn shrink(f: Prop, start: Vec<u64>, budget: usize, limit: Duration, depth: u32) -> Vec<u64> {
    let mut best = start;
    let t0 = Instant::now();
    let runs = Cell::new(0usize);
    let spent = || runs.get() >= budget || t0.elapsed() > limit;
    let attempt = |cand: &[u64]| -> Option<Vec<u64>> {
        if spent() {
            return None;
        }
        runs.set(runs.get() + 1);
        let r = run_fixed(f, cand, false, depth);
        if r.result.is_err() { Some(r.trace) } else { None }
    };
    // normalise
    if let Some(t) = attempt(&best.clone()) {
        if simpler(&t, &best) {
            best = t;
        }
    }
    loop {
        let before = best.clone();
        // 1. delete spans
        let mut k = best.len().next_power_of_two();
        while k >= 1 && !spent() {
            let mut i = 0;
            while i < best.len() && !spent() {
                let end = (i + k).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                match attempt(&cand) {
                    Some(t) if simpler(&t, &best) => best = t,
                    _ => i += k,
                }
            }
            k /= 2;
        }
        // 2. zero spans
        let mut k = best.len().next_power_of_two();
        while k >= 2 && !spent() {
            let mut i = 0;
            while i < best.len() && !spent() {
                let end = (i + k).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(t) = attempt(&cand) {
                        if simpler(&t, &best) {
                            best = t;
                        }
                    }
                }
                i += k;
            }
            k /= 2;
        }
        // 3. minimise single choices
        let mut i = 0;
        while i < best.len() && !spent() {
            if best[i] != 0 {
                let mut lo = 0u64;
                let mut hi = best[i];
                // try 0 first, then bisect
                while lo < hi && !spent() && i < best.len() {
                    let mid = if hi == best[i] && lo == 0 { 0 } else { lo + (hi - lo) / 2 };
                    let mut cand = best.clone();
                    cand[i] = mid;
                    match attempt(&cand) {
                        Some(t) if simpler(&t, &best) => {
                            best = t;
                            hi = mid;
                        }
                        _ => lo = mid + 1,
                    }
                }
            }
            i += 1;
        }
        if best == before || spent() {
            return best;
        }
    }
}

/// A case that runs for longer than this never ends, for all practical purposes (they take milliseconds)
pub const CASE_LIMIT: Duration = Duration::from_secs(100);

/// What every thread is running, and since when; a thread of its own ends the process when a case does not end
struct Watch {
    t0: Instant,
    /// start in milliseconds (0: idle), case number
    slots: Vec<(AtomicU64, AtomicU64)>,
}

static WATCH: Mutex<Option<(std::sync::Arc<Watch>, String)>> = Mutex::new(None);

/// Exit code of a process that gave up on a case
pub const HANG: i32 = 97;

fn watch(threads: usize, name: &str) -> std::sync::Arc<Watch> {
    let w = std::sync::Arc::new(Watch { t0: Instant::now(), slots: (0..threads + 1).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect() });
    let mut g = WATCH.lock().unwrap();
    let started = g.is_some();
    *g = Some((w.clone(), name.to_string()));
    drop(g);
    if !started {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            let (w, name) = WATCH.lock().unwrap().clone().unwrap();
            let now = w.t0.elapsed().as_millis() as u64;
            for s in &w.slots {
                let since = s.0.load(Ordering::SeqCst);
                if since != 0 && now.saturating_sub(since) > CASE_LIMIT.as_millis() as u64 {
                    eprintln!("HANG {name} {}", s.1.load(Ordering::SeqCst));
                    std::process::exit(HANG);
                }
            }
        });
    }
    w
}

impl Watch {
    fn enter(&self, slot: usize, index: u64) {
        self.slots[slot].1.store(index, Ordering::SeqCst);
        self.slots[slot].0.store((self.t0.elapsed().as_millis() as u64).max(1), Ordering::SeqCst);
    }
    fn leave(&self, slot: usize) {
        self.slots[slot].0.store(0, Ordering::SeqCst);
    }
}

/// Runs all cases of one sub-check over the worker threads
pub fn run_sub(prop: &str, s: &Sub, seed: u64, cases: u64, threads: usize, depth: u32, announce: Option<&str>) -> Stats {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let threads = if s.serial { 1 } else { threads };
    // one slot of 32 bytes per thread, holding the number of the case it is running
    let slots = announce.map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).expect("cannot write the announcements"));
    let slot = AtomicUsize::new(0);
    let watch = watch(threads, s.name);
    let total = Mutex::new(Stats::default());
    let fail = Mutex::new(None::<(u64, Vec<u64>, String)>);
    let alive = AtomicUsize::new(threads);
    const BATCH: u64 = 16;
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || {
                let mut st = Stats::default();
                let me = slot.fetch_add(1, Ordering::SeqCst);
                let batch = if s.enumerate { 1 } else if cases < 1024 { 2 } else { BATCH };
                loop {
                    let base = next.fetch_add(batch, Ordering::SeqCst);
                    if base >= cases || base > first_fail.load(Ordering::SeqCst) {
                        break;
                    }
                    for index in base..(base + batch).min(cases) {
                        if let Some(f) = &slots {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(format!("{:>14} {:>16}\n", s.name, index).as_bytes(), me as u64 * 32);
                        }
                        watch.enter(me, index);
                        let r = exec(s.f, Case::new(case_source(s, prop, seed, index), false, depth));
                        watch.leave(me);
                        st.evaluations += 1;
                        st.inner += r.inner;
                        if r.nontrivial {
                            st.nontrivial_evals += 1;
                            st.nontrivial.insert(hash_trace(&r.trace));
                        }
                        for l in r.labels {
                            *st.labels.entry(l).or_insert(0) += 1;
                        }
                        if let Err(m) = r.result {
                            first_fail.fetch_min(index, Ordering::SeqCst);
                            let mut g = fail.lock().unwrap();
                            if g.as_ref().map_or(true, |x| index < x.0) {
                                *g = Some((index, r.trace, m));
                            }
                        }
                    }
                }
                let mut g = total.lock().unwrap();
                g.evaluations += st.evaluations;
                g.inner += st.inner;
                g.nontrivial_evals += st.nontrivial_evals;
                g.nontrivial.extend(st.nontrivial);
                for (k, v) in st.labels {
                    *g.labels.entry(k).or_insert(0) += v;
                }
                alive.fetch_sub(1, Ordering::SeqCst);
            }).unwrap();
        }
    });
    let mut st = total.into_inner().unwrap();
    // written-out samples of this run: non-trivial cases with different labels if possible
    let mut got = 0;
    for index in 0..cases.min(40) {
        if got >= 2 || s.serial && got >= 1 {
            break;
        }
        watch.enter(threads, index);
        let r = exec(s.f, Case::new(case_source(s, prop, seed, index), true, depth));
        watch.leave(threads);
        if r.nontrivial && !r.notes.is_empty() {
            st.samples.push(format!("{} case {}: {}", s.name, index, clip(&r.notes.join("; "), 700)));
            got += 1;
        }
    }
    if let Some((index, trace, msg)) = fail.into_inner().unwrap() {
        let original = trace.clone();
        // the message of the failure, in case a candidate of the shrinker does not end
        eprintln!("FAILED {} {} {}", s.name, index, msg.replace('\n', " "));
        watch.enter(threads, u64::MAX);
        let small = if SHRINK.load(Ordering::SeqCst) { shrink(s.f, trace, 6000, Duration::from_secs(40), depth) } else { trace };
        let r = run_fixed(s.f, &small, true, depth);
        watch.leave(threads);
        let message = match r.result {
            Err(m) => m,
            Ok(()) => format!("(not reproduced from the choice sequence) {msg}"),
        };
        st.failure = Some(Failure { sub: s.name.to_string(), index, choices: small, message, notes: r.notes, original });
    }
    st.wall = t0.elapsed().as_secs_f64();
    st
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...", &s[..k])
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}
