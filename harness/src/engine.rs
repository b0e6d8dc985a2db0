//! Property-based testing engine: choice-tape generation with integrated shrinking.
//!
//! Every random decision of a case goes through [`Src`], which records it on a tape. A case is a
//! pure function of its tape, so replaying a tape replays the case exactly, and shrinking works on
//! the tape (delete blocks, lower values) whatever the shape of the generated data is.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// splitmix64
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

pub fn hash_u64s(it: impl IntoIterator<Item = u64>) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for x in it {
        h = mix(h ^ x).wrapping_add(h.rotate_left(17));
    }
    mix(h)
}

struct Rng {
    s: u64,
}

impl Rng {
    fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

/// Source of choices.
pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    rec: Vec<u64>,
    rec_file: Option<std::fs::File>,
    /// Size hint in 0..=100, growing over a campaign. Part of the case identity.
    pub size: u64,
    /// What is left of the case's number, for campaigns that enumerate.
    number: u64,
}

impl Src {
    pub fn from_seed(seed: u64, size: u64) -> Src {
        Src {
            rng: Some(Rng { s: seed }),
            tape: vec![],
            pos: 0,
            rec: vec![],
            rec_file: None,
            size,
            number: 0,
        }
    }
    pub fn from_tape(tape: Vec<u64>, size: u64) -> Src {
        Src {
            rng: None,
            tape,
            pos: 0,
            rec: vec![],
            rec_file: None,
            size,
            number: 0,
        }
    }
    /// The number of the case, for campaigns that enumerate.
    pub fn numbered(mut self, number: u64) -> Src {
        self.number = number;
        self
    }
    fn given(&mut self, v: u64) -> u64 {
        self.rec.push(v);
        if let Some(f) = &mut self.rec_file {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    /// An enumerated number in `0..n`.
    pub fn part(&mut self, n: u64) -> usize {
        if self.rng.is_none() {
            return self.below(n) as usize;
        }
        let v = self.number % n;
        self.number /= n;
        self.given(v) as usize
    }
    /// Next element of an enumerated sequence over `0..k`. Over all case numbers, every sequence
    /// comes up once, the shorter ones first.
    pub fn step(&mut self, k: u64) -> Option<usize> {
        if self.rng.is_none() {
            return self.below(k + 1).checked_sub(1).map(|x| x as usize);
        }
        let v = if self.number == 0 {
            0
        } else {
            let v = (self.number - 1) % k;
            self.number = (self.number - 1) / k;
            v + 1
        };
        self.given(v).checked_sub(1).map(|x| x as usize)
    }
    /// An enumerated subset of `0..n`, ascending. Over the first 2^n case numbers, every subset
    /// comes up once, the smaller ones first.
    pub fn subset(&mut self, n: u64) -> Vec<usize> {
        let mut out = vec![];
        if self.rng.is_none() {
            let mut at = 0;
            while at < n {
                let v = self.below(n - at + 1);
                if v == 0 {
                    break;
                }
                at += v;
                out.push(at as usize - 1);
            }
            return out;
        }
        let choose = |n: u64, k: u64| (0..k).fold(1u128, |c, i| c * (n - i) as u128 / (i + 1) as u128) as u64;
        let mut size = 0;
        while size < n && self.number >= choose(n, size) {
            self.number -= choose(n, size);
            size += 1;
        }
        let mut at = 0;
        for left in (0..size).rev() {
            let from = at;
            while at < n - 1 && self.number >= choose(n - at - 1, left) {
                self.number -= choose(n - at - 1, left);
                at += 1;
            }
            self.given(at - from + 1);
            out.push(at as usize);
            at += 1;
        }
        if at < n {
            self.given(0);
        }
        self.number = 0;
        out
    }

    pub fn record_to(&mut self, f: std::fs::File) {
        self.rec_file = Some(f);
    }
    pub fn into_record(self) -> Vec<u64> {
        self.rec
    }
    pub fn record(&self) -> &[u64] {
        &self.rec
    }

    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &mut self.rng {
            Some(rng) => {
                if n.is_power_of_two() {
                    rng.next() & (n - 1)
                } else {
                    rng.next() % n
                }
            }
            None => {
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                // a generator that goes on for ever when all choices are 0
                assert!(self.pos < self.tape.len() + (1 << 20), "tape exhausted");
                v.min(n - 1)
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.rec_file {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    /// Uniform in `lo..=hi`; shrinks to lo.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn any_u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        hi << 32 | lo
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // value 0 must mean false
        let v = self.below(den);
        v >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Weighted index; shrinks to index 0.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// A number with a geometric-ish spread over magnitudes, `0..=max`.
    pub fn magnitude(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            0
        } else {
            let lo = 1u64 << (b - 1);
            let hi = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
            let hi = hi.min(max);
            let near = self.below(12);
            if near >= 10 {
                // the ends of a magnitude are where encodings change
                let d = self.below(3).min(hi - lo);
                if near == 10 {
                    lo + d
                } else {
                    hi - d
                }
            } else if hi - lo == u64::MAX {
                self.any_u64()
            } else {
                lo + self.below(hi - lo + 1)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Short stable class of the failure.
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !$cond {
            return $crate::engine::fail($sig, format!($($fmt)*));
        }
    };
}

/// Per-case context: what the case exercised.
#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    pub nontrivial: Option<u64>,
    pub desc: Option<String>,
    pub want_desc: bool,
    pub checked_profile: bool,
    pub extra_evals: u64,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Mark the case non-trivial, with an identity hash for counting distinct ones.
    pub fn nontrivial(&mut self, hash: u64) {
        self.nontrivial = Some(hash);
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            match &mut self.desc {
                Some(d) => {
                    d.push('\n');
                    d.push_str(&s)
                }
                None => self.desc = Some(s),
            }
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Cx) -> Result<(), Fail>;

#[derive(Clone, Copy)]
pub struct Campaign {
    pub prop: &'static str,
    pub name: &'static str,
    /// number of cases in the quick tier
    pub quick: u64,
    /// number of cases in the thorough tier
    pub thorough: u64,
    pub f: CaseFn,
    /// What the campaign generates and its non-triviality rule.
    pub rule: &'static str,
    /// part (percent) of the cases to run in the build without debug assertions
    pub release_pct: u64,
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Runs `f`, turning a panic into `Err((message, location))`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_default()),
    }
}

/// Run one case, panics becoming failures.
pub fn run_case(f: CaseFn, src: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
    match catch(|| f(src, cx)) {
        Ok(r) => r,
        Err((msg, loc)) => {
            let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
            let harness = !loc.contains("varisat") && loc.starts_with("src/");
            let sig = if harness {
                "harness-panic".to_string()
            } else {
                format!("panic@{}", file)
            };
            Err(Fail {
                sig,
                msg: format!("panic: {} at {}", msg, loc),
            })
        }
    }
}

/// Shrinks a failing tape, keeping the failure signature.
pub fn shrink(
    tape: Vec<u64>,
    budget: usize,
    mut test: impl FnMut(Vec<u64>) -> Option<Vec<u64>>,
) -> Vec<u64> {
    // test: returns Some(recorded tape) when the tape still fails the same way
    let mut best = tape;
    let mut left = budget;
    macro_rules! attempt {
        ($cand:expr) => {{
            if left == 0 {
                return best;
            }
            left -= 1;
            let cand: Vec<u64> = $cand;
            match test(cand) {
                Some(rec) => {
                    if (rec.len(), rec.iter().map(|&x| x as u128).sum::<u128>())
                        < (best.len(), best.iter().map(|&x| x as u128).sum::<u128>())
                    {
                        best = rec;
                        true
                    } else {
                        false
                    }
                }
                None => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete blocks, large first
        let mut k = (best.len() / 2).max(1).next_power_of_two();
        while k >= 1 {
            let mut i = best.len().saturating_sub(k) as isize;
            while i >= 0 {
                let iu = i as usize;
                if iu + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(iu..iu + k);
                    if attempt!(c) {
                        i = i.min(best.len() as isize - k as isize);
                        continue;
                    }
                    // delete and lower a preceding count
                    if k <= 8 && iu > 0 && best[iu - 1] > 0 {
                        let mut c = best.clone();
                        c.drain(iu..iu + k);
                        c[iu - 1] -= 1;
                        if attempt!(c) {
                            i = i.min(best.len() as isize - k as isize);
                            continue;
                        }
                    }
                }
                i -= if k >= 8 { (k / 2) as isize } else { 1 };
            }
            if k <= 8 {
                k -= 1;
            } else {
                k /= 2;
            }
        }
        // zero blocks
        for &k in &[16usize, 8, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..i + k] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += k;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) && i < best.len() && best[i] > 1 {
                    let mut lo = 0;
                    let mut hi = best[i];
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid.min(best.get(i).copied().unwrap_or(0));
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

/// The system's allocator, counting the bytes in use.
pub struct Counting;
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
fn count(n: isize) {
    LIVE.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, size: usize) -> *mut u8 {
        count(size as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, size)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
}
pub fn live_bytes() -> isize {
    LIVE.load(std::sync::atomic::Ordering::Relaxed)
}
