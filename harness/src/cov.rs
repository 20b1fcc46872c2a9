//! Coverage-guided search over the draws of a case.
//!
//! The crate under test is built with edge counters and traced comparisons for this (tools/rustc-cov.sh). A case that
//! reaches something new is kept, and its draws are the start of further cases: draws are replaced, copied, removed,
//! repeated and crossed with those of other cases. Every such case is one that the generators could have made.

use crate::engine::*;
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const REGIONS: usize = 64;
static STARTS: [AtomicPtr<u8>; REGIONS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; REGIONS];
static LENS: [AtomicUsize; REGIONS] = [const { AtomicUsize::new(0) }; REGIONS];
static COUNT: AtomicUsize = AtomicUsize::new(0);

/// Called by the instrumented crate when it's loaded.
///
/// # Safety
/// The counters are there for as long as the process.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    let i = COUNT.load(Ordering::SeqCst);
    if i >= REGIONS || start >= end || (0..i).any(|j| STARTS[j].load(Ordering::SeqCst) == start) {
        return;
    }
    STARTS[i].store(start, Ordering::SeqCst);
    LENS[i].store(end as usize - start as usize, Ordering::SeqCst);
    COUNT.store(i + 1, Ordering::SeqCst);
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

const CMPS: usize = 1 << 16;
static mut CMP: [u8; CMPS] = [0; CMPS];
/// What's set in it by the case that's running. There's only one thread with cases in a search.
static mut TOUCHED: [u32; CMPS] = [0; CMPS];
static mut TOUCHES: usize = 0;

#[inline(always)]
fn touch(i: usize) {
    unsafe {
        let p = std::ptr::addr_of_mut!(CMP) as *mut u8;
        if *p.add(i) == 0 {
            *p.add(i) = 1;
            let n = TOUCHES;
            *(std::ptr::addr_of_mut!(TOUCHED) as *mut u32).add(n) = i as u32;
            TOUCHES = n + 1;
        }
    }
}

/// How close the sides of a comparison are is something that can be reached, too.
#[inline(always)]
fn compared(at: usize, a: u64, b: u64) {
    let near = 64 - (a ^ b).count_ones() as usize;
    let dist = a.abs_diff(b);
    let size = if dist == 0 { 0 } else { 64 - dist.leading_zeros() as usize };
    let i = (at.wrapping_mul(0x9E37_79B1) ^ (near << 1)) % CMPS;
    let j = (at.wrapping_mul(0x85EB_CA6B) ^ (size << 1) ^ 1) % CMPS;
    touch(i);
    touch(j);
}

/// Number of the comparison: there's no return address to be had, so its constant and its width tell it.
macro_rules! cmp {
    ($($name:ident $const:ident $ty:ty, $n:expr;)*) => {$(
        #[no_mangle]
        pub extern "C" fn $name(a: $ty, b: $ty) {
            compared($n, a as u64, b as u64)
        }
        #[no_mangle]
        pub extern "C" fn $const(a: $ty, b: $ty) {
            compared((a as usize).wrapping_mul(0x101).wrapping_add($n + 0x4000_0000), a as u64, b as u64)
        }
    )*};
}

cmp! {
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8, 1;
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16, 2;
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32, 4;
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64, 8;
}

/// # Safety
/// `cases` is the table of a switch: the amount of values, their size in bits and the values.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    let n = *cases as usize;
    for i in 0..n.min(64) {
        let c = *cases.add(2 + i);
        compared(cases as usize + i, c, v);
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div4(_: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_div8(_: u64) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_gep(_: usize) {}

/// Whether the crate under test has counters in this build.
pub fn instrumented() -> bool {
    COUNT.load(Ordering::SeqCst) > 0
}

fn regions() -> Vec<&'static mut [u8]> {
    (0..COUNT.load(Ordering::SeqCst))
        .map(|i| unsafe {
            std::slice::from_raw_parts_mut(STARTS[i].load(Ordering::SeqCst), LENS[i].load(Ordering::SeqCst))
        })
        .collect()
}

fn reset() {
    for r in regions() {
        r.fill(0);
    }
    unsafe {
        for k in 0..TOUCHES {
            let i = *(std::ptr::addr_of!(TOUCHED) as *const u32).add(k) as usize;
            *(std::ptr::addr_of_mut!(CMP) as *mut u8).add(i) = 0;
        }
        TOUCHES = 0;
    }
}

/// What has been reached so far.
struct Reached {
    /// Sizes of the counts of every edge, a bit for every size.
    edges: Vec<Vec<u8>>,
    cmps: Vec<u8>,
    pub amount: usize,
}

impl Reached {
    fn new() -> Self {
        Reached {
            edges: regions().iter().map(|r| vec![0; r.len()]).collect(),
            cmps: vec![0; CMPS],
            amount: 0,
        }
    }

    /// Adds what the last case has reached, and tells how much of it is new: edges and comparisons.
    fn add(&mut self) -> (usize, usize) {
        let mut new = (0, 0);
        for (seen, now) in self.edges.iter_mut().zip(regions()) {
            for (s, n) in seen.iter_mut().zip(now.iter()) {
                if *n == 0 {
                    continue;
                }
                let bit = match *n {
                    1 => 1u8,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if *s & bit == 0 {
                    *s |= bit;
                    new.0 += 1;
                }
            }
        }
        let touched = unsafe {
            std::slice::from_raw_parts(std::ptr::addr_of!(TOUCHED) as *const u32, TOUCHES)
        };
        for i in touched {
            let s = &mut self.cmps[*i as usize];
            if *s == 0 {
                *s = 1;
                new.1 += 1;
            }
        }
        self.amount += new.0 + new.1;
        new
    }

    fn edges(&self) -> usize {
        self.edges.iter().flatten().filter(|e| **e != 0).count()
    }
}

/// Result of one process.
#[derive(Default)]
pub struct Found {
    pub cases: u64,
    pub nontrivial: u64,
    pub kept: usize,
    pub edges: usize,
    pub reached: usize,
    pub failure: Option<(Vec<u64>, String)>,
}

impl Found {
    pub fn to_text(&self) -> String {
        let mut t = format!(
            "cases={}\nnontrivial={}\nkept={}\nedges={}\nreached={}\n",
            self.cases, self.nontrivial, self.kept, self.edges, self.reached
        );
        if let Some((choices, message)) = &self.failure {
            let list: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
            t.push_str(&format!("choices={}\nmessage={}\n", list.join(","), message.replace('\\', "\\\\").replace('\n', "\\n")));
        }
        t
    }

    pub fn from_text(t: &str) -> Option<Found> {
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)?.strip_prefix('='));
        let num = |k: &str| get(k)?.parse::<u64>().ok();
        Some(Found {
            cases: num("cases")?,
            nontrivial: num("nontrivial")?,
            kept: num("kept")? as usize,
            edges: num("edges")? as usize,
            reached: num("reached")? as usize,
            failure: match get("choices") {
                Some(c) => Some((
                    c.split(',').filter(|c| !c.is_empty()).filter_map(|c| c.parse().ok()).collect(),
                    get("message").unwrap_or_default().to_string(),
                )),
                None => None,
            },
        })
    }
}

const LONGEST: usize = 6000;

fn mutate(r: &mut Rng, kept: &[Vec<u64>]) -> Vec<Option<u64>> {
    let mut below = |n: usize| (r.next() % n.max(1) as u64) as usize;
    // the later ones more often
    let n = kept.len();
    let i = if below(2) == 0 { n - 1 - below(n.min(1 + n / 8)) } else { below(n) };
    let mut c: Vec<Option<u64>> = kept[i].iter().map(|v| Some(*v)).collect();
    let times = 1 + below(5);
    for _ in 0..times {
        let len = c.len();
        if len == 0 {
            return c;
        }
        let at = below(len);
        let size = 1 + match below(4) {
            0 => below(32),
            1 => below(8),
            _ => 0,
        };
        let end = (at + size).min(len);
        match below(12) {
            // made anew
            0..=2 => c[at..end].fill(None),
            3 => {
                c.drain(at..end);
            }
            4 => {
                let block = c[at..end].to_vec();
                let to = below(len);
                c.splice(to..to, block);
            }
            5 => {
                let block = c[at..end].to_vec();
                let to = below(len);
                let until = (to + block.len()).min(len);
                c.splice(to..until, block);
            }
            6 => {
                c.splice(at..at, std::iter::repeat(None).take(size));
            }
            7 => {
                let other = &kept[below(n)];
                if !other.is_empty() {
                    let from = below(other.len());
                    let until = (from + 1 + below(40)).min(other.len());
                    let to = (at + if below(2) == 0 { 0 } else { until - from }).min(len);
                    c.splice(at..to, other[from..until].iter().map(|v| Some(*v)));
                }
            }
            8 => c.truncate(at),
            9 => {
                if let Some(v) = &mut c[at] {
                    *v = match below(6) {
                        0 => v.wrapping_add(1),
                        1 => v.wrapping_sub(1).min(u64::MAX - 1),
                        2 => 0,
                        3 => u64::MAX,
                        4 => 1 << below(20),
                        _ => below(300) as u64,
                    };
                }
            }
            10 => {
                if let Some(v) = &mut c[at] {
                    *v ^= 1 << below(32);
                }
            }
            // everything behind it is made anew
            _ => {
                c.truncate(at);
            }
        }
    }
    c.truncate(LONGEST);
    c
}

pub const HUNG: u8 = 3;

/// Searches for at most `cases` cases or until the time is up.
pub fn search(f: CaseFn, seed: u64, cases: u64, time: Duration) -> Found {
    let start = Instant::now();
    let running = Arc::new(AtomicU64::new(0));
    {
        let running = running.clone();
        std::thread::spawn(move || {
            let (mut last, mut since) = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let now = running.load(Ordering::Relaxed);
                if now != last {
                    (last, since) = (now, Instant::now());
                } else if since.elapsed() > HANG {
                    std::process::exit(HUNG as i32);
                }
            }
        });
    }
    let mut rng = Rng::new(seed);
    let mut reached = Reached::new();
    let mut kept: Vec<Vec<u64>> = Vec::new();
    let mut found = Found::default();
    for i in 0..cases {
        if i % 32 == 0 && start.elapsed() > time {
            break;
        }
        running.store(i + 1, Ordering::Relaxed);
        let mut src = if kept.is_empty() || i < 50 || rng.next() % 32 == 0 {
            Src::random(rng.next())
        } else {
            let choices = mutate(&mut rng, &kept);
            Src::mixed(choices, rng.next())
        };
        reset();
        let mut ctx = Ctx::default();
        let r = run_case(f, &mut src, &mut ctx);
        found.cases += 1;
        found.nontrivial += u64::from(ctx.nontrivial.is_some());
        if let Err(m) = r {
            found.failure = Some((src.rec, m));
            break;
        }
        let (edges, cmps) = reached.add();
        if (edges > 0 || cmps > 0) && src.rec.len() <= LONGEST {
            kept.push(src.rec);
        }
    }
    found.kept = kept.len();
    found.edges = reached.edges();
    found.reached = reached.amount;
    found
}
