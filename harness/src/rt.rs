//! Runtime: deterministic PRNG, instrumented allocator, CPU watchdog, panic
//! capture, worker protocol and the context every check reports into.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, salt: &str, idx: u64) -> Self {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in salt.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h ^ idx.wrapping_mul(0xD1342543DE82EF95));
        for _ in 0..3 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((u128::from(self.next()) * n as u128) >> 64) as usize
    }
    /// Inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ u64::from(*b)).wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- allocator
pub struct CountingAlloc;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

unsafe extern "C" {
    fn _exit(code: i32) -> !;
    fn signal(sig: i32, f: usize) -> usize;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    fn pwrite(fd: i32, buf: *const u8, n: usize, off: i64) -> isize;
}

pub const EXIT_CPU: i32 = 77;
pub const EXIT_MEM: i32 = 78;

fn on_alloc(n: usize) {
    let c = CUR.fetch_add(n, Relaxed) + n;
    if c > PEAK.load(Relaxed) {
        PEAK.store(c, Relaxed);
        if c > LIMIT.load(Relaxed) {
            unsafe { _exit(EXIT_MEM) }
        }
    }
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        CUR.fetch_sub(l.size(), Relaxed);
        on_alloc(n);
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn mem_current() -> usize {
    CUR.load(Relaxed)
}
pub fn mem_reset_peak() {
    PEAK.store(CUR.load(Relaxed), Relaxed);
}
pub fn mem_peak() -> usize {
    PEAK.load(Relaxed)
}

// ---------------------------------------------------------------- CPU watchdog
static TICKS: AtomicU64 = AtomicU64::new(0);
static TICK_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

extern "C" fn on_tick(_s: i32) {
    if TICKS.fetch_add(1, Relaxed) + 1 >= TICK_LIMIT.load(Relaxed) {
        unsafe { _exit(EXIT_CPU) }
    }
}

/// CPU (not wall-clock) seconds one case may use before the worker gives up on it.
pub fn start_watchdog(cpu_secs: u64, mem_limit: usize) {
    TICK_LIMIT.store(cpu_secs, Relaxed);
    LIMIT.store(mem_limit, Relaxed);
    if cfg!(miri) {
        return;
    }
    unsafe {
        signal(26, on_tick as *const () as usize); // SIGVTALRM
        let iv = [1i64, 0, 1, 0];
        setitimer(1, &iv, std::ptr::null_mut());
    }
}
/// CPU time of this thread in microseconds.
pub fn cpu_us() -> u64 {
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(3, &mut t);
    }
    t[0] as u64 * 1_000_000 + t[1] as u64 / 1000
}
pub fn watchdog_reset() {
    TICKS.store(0, Relaxed);
}

pub fn write_slot(fd: i32, idx: u64) {
    unsafe {
        pwrite(fd, idx.to_le_bytes().as_ptr(), 8, 0);
    }
}

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map_or(String::new(), |l| {
            format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())
        });
        if std::env::var_os("YV_BT").is_some() {
            eprintln!("{msg} @ {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        // A panic that cannot unwind (UB precondition checks) aborts right after this:
        if msg.contains("unsafe precondition") {
            eprintln!("{msg} @ {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
    }));
}

/// Run `f`, turning a panic into its message.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

// ---------------------------------------------------------------- context
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub idx: u64,
    pub sig: String,
    pub input: String,
    pub detail: String,
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub cover: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: BTreeMap<String, u64>,
    pub verbose: bool,
    sigs: BTreeMap<String, u32>,
}

impl Ctx {
    pub fn new(tier: Tier, seed: u64) -> Self {
        Ctx {
            tier,
            seed,
            idx: 0,
            evaluations: 0,
            distinct: HashSet::new(),
            cover: BTreeMap::new(),
            maxes: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            inconclusive: BTreeMap::new(),
            verbose: false,
            sigs: BTreeMap::new(),
        }
    }
    pub fn rng(&self, salt: &str) -> Rng {
        Rng::new(self.seed, salt, self.idx)
    }
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evaluations += n;
    }
    pub fn nontrivial(&mut self, key: &[u8]) {
        self.distinct.insert(fnv(key));
    }
    pub fn cover(&mut self, k: &str) {
        self.cover_n(k, 1);
    }
    pub fn cover_n(&mut self, k: &str, n: u64) {
        if let Some(v) = self.cover.get_mut(k) {
            *v += n;
        } else {
            self.cover.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 4 {
            let mut s: String = s.into();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            self.samples.push(s);
        }
    }
    pub fn inconclusive(&mut self, why: &str) {
        *self.inconclusive.entry(why.to_string()).or_insert(0) += 1;
    }
    pub fn violation(&mut self, sig: impl Into<String>, input: &str, detail: impl Into<String>) {
        let sig = sig.into();
        let detail = detail.into();
        if self.verbose {
            eprintln!("--- violation [{sig}]\ninput: {input:?}\n{detail}");
        }
        let n = self.sigs.entry(sig.clone()).or_insert(0);
        *n += 1;
        if *n <= 3 && self.violations.len() < 60 {
            self.violations.push(Violation { idx: self.idx, sig, input: input.to_string(), detail });
        }
    }
}

pub trait Check {
    /// Number of cases for this tier (deterministic: same seed, same cases).
    fn cases(&self, tier: Tier) -> u64;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> String;
    fn run(&self, ctx: &mut Ctx, idx: u64);
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// CPU-seconds and bytes a single case may use.
    fn limits(&self) -> (u64, usize) {
        (20, 1 << 30)
    }
    /// Minimum number of distinct non-trivial cases below which the run is inconclusive.
    fn min_nontrivial(&self, _tier: Tier) -> u64 {
        50
    }
    /// Coverage keys that must have been seen, else the run is inconclusive.
    fn must_cover(&self) -> Vec<&'static str> {
        vec![]
    }
    /// Re-examines the input of a known finding: Some(what fails) while it does.
    fn probe(&self, _input: &str) -> Option<String> {
        None
    }
}

// ---------------------------------------------------------------- input slot
static SLOT_FD: AtomicUsize = AtomicUsize::new(usize::MAX);
static STEP_LIMIT_HITS: AtomicU64 = AtomicU64::new(0);

pub fn set_slot(fd: i32) {
    SLOT_FD.store(fd as usize, Relaxed);
}
/// Note the input about to be handed to the code under test, so that the
/// parent can name it if the process dies.
pub fn note(input: &str) {
    let fd = SLOT_FD.load(Relaxed);
    watchdog_reset();
    if fd == usize::MAX {
        return;
    }
    let b = input.as_bytes();
    let n = b.len().min(1 << 16);
    let mut rec = Vec::with_capacity(n + 8);
    rec.extend_from_slice(&(n as u64).to_le_bytes());
    rec.extend_from_slice(&b[..n]);
    unsafe {
        pwrite(fd as i32, rec.as_ptr(), rec.len(), 8);
    }
}
pub fn hit_step_limit() {
    STEP_LIMIT_HITS.fetch_add(1, Relaxed);
}
