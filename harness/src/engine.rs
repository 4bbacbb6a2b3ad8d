//! Runner: a property is a list of legs; a leg is a generator plus an oracle.
//!
//! Every random choice is made by proptest strategies driven by a ChaCha generator seeded with
//! (VERIF_SEED, property, leg, worker): a run is a pure function of the code and of VERIF_SEED.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

pub type Verdict = Result<(), String>;

/// What one case tells about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// extra oracle evaluations done inside the case (operator forms, steps...)
    pub steps: u64,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) { if !self.labels.contains(&l) { self.labels.push(l) } }
    pub fn label_if(&mut self, b: bool, l: &'static str) { if b { self.label(l) } }
    pub fn nontrivial_if(&mut self, b: bool) { self.nontrivial |= b }
    pub fn step(&mut self) { self.steps += 1 }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub steps: u64,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_total: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.steps += o.steps;
        self.nontrivial.extend(o.nontrivial);
        self.nontrivial_total += o.nontrivial_total;
        for (k, v) in o.labels { *self.labels.entry(k).or_default() += v }
        for s in o.samples { if self.samples.len() < 4 { self.samples.push(s) } }
    }
}

pub struct Failure { pub leg: &'static str, pub case: serde_json::Value, pub reason: String }

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub scale: f64,
    /// if set, every case is written to this file prefix before it runs (crash location)
    pub journal: Option<String>,
}

pub trait AnyLeg: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, prop: &'static str, ctx: &Ctx) -> (Stats, Option<Failure>);
    fn replay(&self, case: &serde_json::Value) -> Verdict;
}

pub trait CaseT: Debug + Clone + Hash + Serialize + DeserializeOwned + Send + Sync + 'static {}
impl<T: Debug + Clone + Hash + Serialize + DeserializeOwned + Send + Sync + 'static> CaseT for T {}

pub struct Leg<C: CaseT> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strat: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> Verdict,
}

/// Bounded-exhaustive leg: every case of a finite space, simplest first.
pub struct ExLeg<C: CaseT> {
    pub name: &'static str,
    pub rule: &'static str,
    /// calls the sink on each case whose index is `shard` modulo `n`; the sink returns false to stop
    pub cases: fn(bool, usize, usize, &mut dyn FnMut(C) -> bool),
    pub check: fn(&C, &mut Obs) -> Verdict,
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) } }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("panicked: {msg} ({loc})"));
    }));
}

/// Runs the code under test where a panic is an acceptable, expected outcome.
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// One progress counter per worker thread: odd while a case runs.
const SLOTS: usize = 512;
static PROGRESS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static SLOT: usize = NEXT_SLOT.fetch_add(1, Ordering::Relaxed) % SLOTS; }

/// A single case takes far less than a second: one that shows no progress over this many
/// one-second samples is reported as not terminating.
pub const HANG_SAMPLES: u32 = 25;

/// Calls `f` when some case does not terminate.
pub fn watchdog(f: impl FnOnce() + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen = [(0u64, 0u32); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for (k, s) in seen.iter_mut().enumerate() {
                let p = PROGRESS[k].load(Ordering::Relaxed);
                *s = if p == s.0 && p % 2 == 1 { (p, s.1 + 1) } else { (p, 0) };
                if s.1 >= HANG_SAMPLES { return f() }
            }
        }
    });
}

fn guarded<C>(check: fn(&C, &mut Obs) -> Verdict, c: &C, o: &mut Obs) -> Verdict {
    let slot = SLOT.with(|s| *s);
    PROGRESS[slot].fetch_add(1, Ordering::Relaxed);
    let r = panics(|| check(c, o));
    PROGRESS[slot].fetch_add(1, Ordering::Relaxed);
    match r { Ok(r) => r, Err(p) => Err(p) }
}

fn fnv<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn record<C: CaseT>(st: &mut Stats, c: &C, o: Obs) {
    st.evals += 1;
    st.steps += o.steps;
    for l in o.labels { *st.labels.entry(l).or_default() += 1 }
    if o.nontrivial {
        st.nontrivial_total += 1;
        if st.nontrivial.len() < 4_000_000 { st.nontrivial.insert(fnv(c)); }
        // samples: a few, spread over the run
        let n = st.nontrivial_total;
        if n == 1 || n == 50 || n == 1000 {
            let mut s = format!("{:?}", c);
            if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k); s.push_str("..."); }
            st.samples.push(s);
        }
    }
}

struct Journal(Option<std::fs::File>);
impl Journal {
    fn new(ctx: &Ctx, t: usize) -> Self {
        Journal(ctx.journal.as_ref().map(|p| std::fs::File::create(format!("{p}.{t}")).expect("journal")))
    }
    fn put<C: CaseT>(&mut self, leg: &str, c: &C) {
        if let Some(f) = &self.0 {
            use std::os::unix::fs::FileExt;
            let s = serde_json::json!({"leg": leg, "case": c}).to_string();
            let _ = f.set_len(s.len() as u64);
            let _ = f.write_all_at(s.as_bytes(), 0);
        }
    }
}

fn seed_bytes(ctx: &Ctx, prop: &str, leg: &str, t: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x: u64 = 0xcbf29ce484222325;
    let mut mix = |b: u8| { x ^= b as u64; x = x.wrapping_mul(0x100000001b3); };
    for b in ctx.seed.to_le_bytes().into_iter().chain(prop.bytes()).chain([0u8]).chain(leg.bytes()).chain([u8::from(cfg!(debug_assertions))]).chain((t as u64).to_le_bytes()) { mix(b) }
    let mut s = x;
    for ch in out.chunks_mut(8) {
        // splitmix64
        s = s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        ch.copy_from_slice(&z.to_le_bytes());
    }
    out
}

impl<C: CaseT> AnyLeg for Leg<C> {
    fn name(&self) -> &'static str { self.name }
    fn rule(&self) -> &'static str { self.rule }
    fn run(&self, prop: &'static str, ctx: &Ctx) -> (Stats, Option<Failure>) {
        let total = ((if ctx.thorough { self.thorough } else { self.quick }) as f64 * ctx.scale).ceil() as u32;
        let stop = AtomicBool::new(false);
        let outs: Vec<(Stats, Option<(C, String)>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..ctx.threads).map(|t| {
                let stop = &stop;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let cases = total / ctx.threads as u32 + u32::from((t as u32) < total % ctx.threads as u32);
                    let cfg = Config { cases, failure_persistence: None, max_shrink_iters: 60_000, max_shrink_time: 60_000,
                        max_global_rejects: 0, ..Config::default() };
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(ctx, prop, self.name, t));
                    let mut runner = TestRunner::new_with_rng(cfg, rng);
                    let strat = (self.strat)();
                    let mut st = Stats::default();
                    let mut j = Journal::new(ctx, t);
                    for _ in 0..cases {
                        if stop.load(Ordering::Relaxed) { break }
                        let tree = match strat.new_tree(&mut runner) { Ok(t) => t, Err(e) => panic!("generator: {e}") };
                        let c = tree.current();
                        j.put(self.name, &c);
                        let mut o = Obs::default();
                        let r = guarded(self.check, &c, &mut o);
                        record(&mut st, &c, o);
                        if let Err(first) = r {
                            stop.store(true, Ordering::Relaxed);
                            let (mc, why) = self.shrink(&mut runner, tree, c, first, &mut j);
                            return (st, Some((mc, why)));
                        }
                    }
                    (st, None)
                }).unwrap()
            }).collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        finish(self.name, outs)
    }
    fn replay(&self, case: &serde_json::Value) -> Verdict {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {e}"))?;
        guarded(self.check, &c, &mut Obs::default())
    }
}

impl<C: CaseT> Leg<C> {
    fn shrink<T: ValueTree<Value = C>>(&self, runner: &mut TestRunner, tree: T, c: C, first: String, j: &mut Journal) -> (C, String) {
        // proptest's own shrinker drives the minimisation
        let jr = RefCell::new(j);
        let res = runner.run_one(tree, |c| {
            jr.borrow_mut().put(self.name, &c);
            guarded(self.check, &c, &mut Obs::default()).map_err(TestCaseError::fail)
        });
        match res {
            Err(TestError::Fail(_, mc)) => {
                let why = guarded(self.check, &mc, &mut Obs::default()).err().unwrap_or_else(|| first.clone());
                (mc, why)
            }
            _ => (c, first), // the failure depends on something else than the case: report the original
        }
    }
}

impl<C: CaseT> AnyLeg for ExLeg<C> {
    fn name(&self) -> &'static str { self.name }
    fn rule(&self) -> &'static str { self.rule }
    fn run(&self, _prop: &'static str, ctx: &Ctx) -> (Stats, Option<Failure>) {
        let stop = AtomicBool::new(false);
        let outs: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..ctx.threads).map(|t| {
                let stop = &stop;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut st = Stats::default();
                    let mut bad = None;
                    let mut j = Journal::new(ctx, t);
                    (self.cases)(ctx.thorough, t, ctx.threads, &mut |c| {
                        if stop.load(Ordering::Relaxed) { return false }
                        j.put(self.name, &c);
                        let mut o = Obs::default();
                        let r = guarded(self.check, &c, &mut o);
                        record(&mut st, &c, o);
                        if let Err(why) = r {
                            stop.store(true, Ordering::Relaxed);
                            bad = Some((c, why));
                            return false;
                        }
                        true
                    });
                    (st, bad)
                }).unwrap()
            }).collect();
            hs.into_iter().map(|h| h.join().expect("worker")).collect()
        });
        finish(self.name, outs)
    }
    fn replay(&self, case: &serde_json::Value) -> Verdict {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {e}"))?;
        guarded(self.check, &c, &mut Obs::default())
    }
}

fn finish<C: CaseT>(leg: &'static str, outs: Vec<(Stats, Option<(C, String)>)>) -> (Stats, Option<Failure>) {
    let mut st = Stats::default();
    let mut best: Option<(usize, C, String)> = None;
    for (s, f) in outs {
        st.merge(s);
        if let Some((c, why)) = f {
            let n = serde_json::to_string(&c).map(|s| s.len()).unwrap_or(usize::MAX);
            if best.as_ref().map_or(true, |b| n < b.0) { best = Some((n, c, why)) }
        }
    }
    let f = best.map(|(_, c, reason)| Failure { leg, case: serde_json::to_value(&c).expect("serialise"), reason });
    (st, f)
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)); }
    }};
}
