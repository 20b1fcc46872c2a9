//! A small property-based testing engine.
//!
//! Every random decision of a case is one bounded draw from `Src`. The draws of a case are recorded,
//! so a failing case is replayed and shrunk by editing the recorded list: the generators stay the only place
//! that knows how to build a case, and every shrunk candidate is a case the generators could have made.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// xoshiro256** seeded by splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng([
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
        ])
    }

    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

impl Rng {
    fn below(&mut self, bound: u64) -> u64 {
        if bound == u64::MAX {
            self.next()
        } else {
            ((self.next() as u128 * bound as u128) >> 64) as u64
        }
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
    /// Some draws are given, the others are random.
    Mixed(Vec<Option<u64>>, Rng),
}

/// Source of the choices of one case.
pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
}

const MAX_CHOICES: usize = 200_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            mode: Mode::Random(Rng::new(seed)),
            rec: Vec::new(),
        }
    }

    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            mode: Mode::Replay(choices),
            rec: Vec::new(),
        }
    }

    pub fn mixed(choices: Vec<Option<u64>>, seed: u64) -> Self {
        Src {
            mode: Mode::Mixed(choices, Rng::new(seed)),
            rec: Vec::new(),
        }
    }

    /// A number below `bound`. 0 is the simplest choice.
    pub fn draw(&mut self, bound: u64) -> u64 {
        debug_assert!(bound > 0);
        let i = self.rec.len();
        let v = if i >= MAX_CHOICES {
            0
        } else {
            match &mut self.mode {
                Mode::Random(r) => r.below(bound),
                Mode::Mixed(c, r) => match c.get(i) {
                    Some(Some(v)) => (*v).min(bound - 1),
                    _ => r.below(bound),
                },
                Mode::Replay(c) => match c.get(i) {
                    Some(v) => (*v).min(bound - 1),
                    None => 0,
                },
            }
        };
        self.rec.push(v);
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// Number in `lo..=hi`, with `lo` the simplest.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u64;
        (lo as i128 + self.draw(span) as i128) as i64
    }

    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }

    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }

    /// True with probability `num / den`, and false when shrunk.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        let i = self.below(items.len());
        items[i].clone()
    }

    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut x = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }

    /// Length with a geometric-like tail: mostly at most `max`, and rarely a lot more.
    pub fn len(&mut self, max: usize) -> usize {
        match self.weighted(&[200, 120, 20, 1]) {
            0 => self.size(0, max.min(3)),
            1 => self.size(0, max.min(8)),
            2 => self.size(0, max),
            _ => self.size(0, max * 30),
        }
    }

    /// Amount of steps, rarely a lot more than `hi`.
    pub fn steps(&mut self, lo: usize, hi: usize) -> usize {
        match self.weighted(&[150, 1]) {
            0 => self.size(lo, hi),
            _ => self.size(lo, hi * 30),
        }
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            // 0 keeps the order
            let j = i - self.below(i + 1);
            items.swap(i, j);
        }
    }
}

/// What a case reports besides its verdict.
#[derive(Default)]
pub struct Ctx {
    /// Hash of the case if it's non-trivial by the rule of the check.
    pub nontrivial: Option<u64>,
    pub labels: Vec<&'static str>,
    pub sample: Option<String>,
    pub want_sample: bool,
    /// Deviations of this case that are listed known findings.
    pub known: Vec<&'static str>,
    /// Oracle evaluations in this case besides the case itself.
    pub extra_evals: u64,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }

    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }

    /// Marks the case as non-trivial, identified by `text`.
    pub fn nontrivial(&mut self, text: &str) {
        self.nontrivial = Some(hash(text.as_bytes()));
    }

    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h ^ (h >> 29)
}

pub type CaseResult = Result<(), String>;
pub type CaseFn = fn(&mut Src, &mut Ctx) -> CaseResult;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err(format!($($arg)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err(format!($($arg)*)); } };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Runs `f`, turning a panic into an `Err` with its message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_default();
        format!("{what} panicked: {m}")
    })
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match no_panic("the case", || f(src, ctx)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

/// Shrinks the choices of a failing case.
pub fn shrink(f: CaseFn, mut best: Vec<u64>, mut msg: String, budget: usize) -> (Vec<u64>, String) {
    let mut evals = 0usize;
    let start = Instant::now();
    let mut try_choices = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
        if evals >= budget || start.elapsed() > Duration::from_secs(25) {
            return false;
        }
        evals += 1;
        let mut src = Src::replay(cand);
        let mut ctx = Ctx::default();
        if let Err(m) = run_case(f, &mut src, &mut ctx) {
            let mut rec = src.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            // only move to simpler choices, so that shrinking ends
            if (rec.len(), &rec) < (best.len(), &*best) {
                *best = rec;
                *msg = m;
                return true;
            }
        }
        false
    };

    loop {
        let before = best.clone();

        // remove blocks
        for size in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let start = i.saturating_sub(size);
                let mut cand = best.clone();
                cand.drain(start..i);
                if try_choices(cand, &mut best, &mut msg) {
                    i = start.min(best.len());
                } else {
                    // a length could be drawn before the block
                    let mut done = false;
                    for back in 1..=3usize {
                        if start >= back && best[start - back] > 0 {
                            let mut cand = best.clone();
                            cand.drain(start..i);
                            cand[start - back] -= 1;
                            if try_choices(cand, &mut best, &mut msg) {
                                i = start.min(best.len());
                                done = true;
                                break;
                            }
                        }
                    }
                    if !done {
                        i -= 1;
                    }
                }
            }
        }

        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..end].iter_mut().for_each(|v| *v = 0);
                    try_choices(cand, &mut best, &mut msg);
                }
                i += size;
            }
        }

        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            let mut hi = best[i];
            // binary search for a small failing value
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                if i >= cand.len() {
                    break;
                }
                cand[i] = mid;
                if try_choices(cand, &mut best, &mut msg) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }

        if best == before {
            break;
        }
    }

    (best, msg)
}

/// A case that runs for longer hangs.
pub const HANG: Duration = Duration::from_secs(30);

/// What a thread is running, for the watchdog and for finding the case that ended the process.
pub struct Slot {
    pub part: AtomicU64,
    pub shard: AtomicU64,
    pub index: AtomicU64,
    /// Milliseconds since the start of the process plus one, 0 when nothing runs.
    pub since: AtomicU64,
}

pub const SLOTS: usize = 17;

#[allow(clippy::declare_interior_mutable_const)]
const EMPTY_SLOT: Slot = Slot {
    part: AtomicU64::new(0),
    shard: AtomicU64::new(0),
    index: AtomicU64::new(0),
    since: AtomicU64::new(0),
};

pub static SLOT: [Slot; SLOTS] = [EMPTY_SLOT; SLOTS];

pub struct Monitor {
    pub start: Instant,
    /// Cases aren't started after this.
    pub deadline: Duration,
    /// File with the slots, readable after the process is gone.
    pub file: Option<std::fs::File>,
}

impl Monitor {
    pub fn enter(&self, slot: usize, part: u64, shard: u64, index: u64) {
        use std::os::unix::fs::FileExt;
        let s = &SLOT[slot];
        s.part.store(part, Ordering::Relaxed);
        s.shard.store(shard, Ordering::Relaxed);
        s.index.store(index, Ordering::Relaxed);
        s.since
            .store(self.start.elapsed().as_millis() as u64 + 1, Ordering::Release);
        if let Some(f) = &self.file {
            let mut b = [0u8; 32];
            b[..8].copy_from_slice(&1u64.to_le_bytes());
            b[8..16].copy_from_slice(&part.to_le_bytes());
            b[16..24].copy_from_slice(&shard.to_le_bytes());
            b[24..].copy_from_slice(&index.to_le_bytes());
            let _ = f.write_at(&b, slot as u64 * 32);
        }
    }

    pub fn leave(&self, slot: usize) {
        use std::os::unix::fs::FileExt;
        SLOT[slot].since.store(0, Ordering::Release);
        if let Some(f) = &self.file {
            let _ = f.write_at(&[0u8; 8], slot as u64 * 32);
        }
    }

    pub fn late(&self) -> bool {
        self.start.elapsed() > self.deadline
    }
}

/// Totals of a run.
#[derive(Default)]
pub struct Totals {
    pub by_part: Vec<(&'static str, u64)>,
    pub evaluations: u64,
    pub extra_evals: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub known: BTreeMap<&'static str, u64>,
    pub samples: Vec<(usize, String)>,
    /// Cases that weren't run because the time was up.
    pub skipped: u64,
}

pub struct Failure {
    pub part: usize,
    pub shard: usize,
    pub index: u64,
    pub choices: Vec<u64>,
    pub message: String,
}

/// One generator with its oracle, and how many cases of it are run.
pub struct Part {
    pub name: &'static str,
    pub case: CaseFn,
    pub quick: u64,
    pub thorough: u64,
}

pub const SHARDS: usize = 64;

pub fn case_seed(seed: u64, check: &str, part: &str, shard: usize, i: u64) -> u64 {
    let mut x = seed ^ hash(check.as_bytes()).rotate_left(17) ^ hash(part.as_bytes());
    let a = splitmix(&mut x);
    let mut y = a ^ ((shard as u64) << 48) ^ i;
    splitmix(&mut y)
}

pub fn shard_cases(total: u64, shard: usize) -> u64 {
    total / SHARDS as u64 + u64::from((shard as u64) < total % SHARDS as u64)
}

/// Runs the cases of a part over all shards. Stops at the lowest failing (shard, index).
pub fn run_part(
    check: &str,
    part_index: usize,
    part: &Part,
    total: u64,
    seed: u64,
    monitor: &Monitor,
    totals: &mut Totals,
) -> Option<Failure> {
    let next = AtomicUsize::new(0);
    let lowest_fail = AtomicUsize::new(usize::MAX);
    let merged: Mutex<(&mut Totals, Option<Failure>)> = Mutex::new((totals, None));
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(SLOTS - 1);

    std::thread::scope(|scope| {
        for thread in 1..=threads {
            let (next, lowest_fail, merged) = (&next, &lowest_fail, &merged);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(scope, move || loop {
                    let shard = next.fetch_add(1, Ordering::SeqCst);
                    if shard >= SHARDS {
                        break;
                    }
                    let count = shard_cases(total, shard);
                    let mut t = Totals::default();
                    let mut failure = None;
                    for i in 0..count {
                        if lowest_fail.load(Ordering::Relaxed) < shard {
                            break;
                        }
                        if i % 64 == 0 && monitor.late() {
                            t.skipped += count - i;
                            break;
                        }
                        monitor.enter(thread, part_index as u64, shard as u64, i);
                        let mut src = Src::random(case_seed(seed, check, part.name, shard, i));
                        let mut ctx = Ctx {
                            want_sample: i < 2 && shard < 4,
                            ..Ctx::default()
                        };
                        let r = run_case(part.case, &mut src, &mut ctx);
                        monitor.leave(thread);
                        t.evaluations += 1;
                        t.extra_evals += ctx.extra_evals;
                        if let Some(h) = ctx.nontrivial {
                            t.nontrivial += 1;
                            t.distinct.insert(h);
                        }
                        for l in ctx.labels {
                            *t.labels.entry(l).or_default() += 1;
                        }
                        for k in ctx.known {
                            *t.known.entry(k).or_default() += 1;
                        }
                        if let Some(s) = ctx.sample {
                            t.samples.push((shard * 2 + i as usize, s));
                        }
                        if let Err(message) = r {
                            failure = Some(Failure {
                                part: part_index,
                                shard,
                                index: i,
                                choices: src.rec,
                                message,
                            });
                            lowest_fail.fetch_min(shard, Ordering::SeqCst);
                            break;
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.0.evaluations += t.evaluations;
                    m.0.extra_evals += t.extra_evals;
                    m.0.nontrivial += t.nontrivial;
                    m.0.skipped += t.skipped;
                    m.0.distinct.extend(t.distinct);
                    for (l, n) in t.labels {
                        *m.0.labels.entry(l).or_default() += n;
                    }
                    for (l, n) in t.known {
                        *m.0.known.entry(l).or_default() += n;
                    }
                    m.0.samples.extend(t.samples);
                    if let Some(f) = failure {
                        let replace = match &m.1 {
                            Some(old) => f.shard < old.shard,
                            None => true,
                        };
                        if replace {
                            m.1 = Some(f);
                        }
                    }
                })
                .expect("spawn");
        }
    });

    merged.into_inner().unwrap().1
}
