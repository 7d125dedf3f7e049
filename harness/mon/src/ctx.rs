//! Running cases: calls into the system under observation are counted, bounded and caught;
//! what the monitors saw is collected here.

use crate::gen::Dict;
use crate::rng::{hash_str, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
static ALLOC_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE_LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
/// Number of the call in progress, 0 between calls.
static IN_CALL: AtomicU64 = AtomicU64::new(0);
/// Multiplies the limit on processor time.
static PATIENCE: AtomicU64 = AtomicU64::new(1);
static QUIET: AtomicBool = AtomicBool::new(false);

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64);
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

fn note(size: i64) {
    let a = ALLOCS.fetch_add(1, Relaxed) + 1;
    BYTES.fetch_add(size as u64, Relaxed);
    let live = LIVE.fetch_add(size, Relaxed) + size;
    if IN_CALL.load(Relaxed) != 0 && (a > ALLOC_LIMIT.load(Relaxed) || live > LIVE_LIMIT.load(Relaxed)) {
        leave(77);
    }
}

#[cfg(not(miri))]
extern "C" {
    fn _exit(code: i32) -> !;
}

/// Ends the process where it stands; the journal tells which call was in progress.
#[cfg(not(miri))]
fn leave(code: i32) -> ! {
    unsafe { _exit(code) }
}
#[cfg(miri)]
fn leave(code: i32) -> ! {
    std::process::exit(code)
}

/// The case and phase in progress, in a file that survives the process.
pub struct Journal {
    #[cfg(not(miri))]
    file: Option<std::fs::File>,
}

impl Journal {
    pub fn open(path: Option<&str>) -> Journal {
        let _ = path;
        Journal {
            #[cfg(not(miri))]
            file: path.map(|p| std::fs::File::create(p).expect("journal")),
        }
    }
    fn write(&self, idx: u64, in_call: bool) {
        let _ = (idx, in_call);
        #[cfg(miri)]
        if !in_call {
            eprintln!("case {}", idx);
        }
        #[cfg(not(miri))]
        if let Some(f) = &self.file {
            use std::os::unix::fs::FileExt;
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&idx.to_le_bytes());
            b[8] = in_call as u8;
            let _ = f.write_all_at(&b, 0);
        }
    }
}

#[cfg(not(miri))]
fn cpu_seconds() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts(0, 0);
    // CLOCK_PROCESS_CPUTIME_ID
    unsafe { clock_gettime(2, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}

/// Ends the process when one call has used more than `limit` seconds of processor time.
#[cfg(not(miri))]
pub fn start_watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut seen = 0;
        let mut start = 0.0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = IN_CALL.load(Relaxed);
            let t = cpu_seconds();
            if c == 0 || c != seen {
                seen = c;
                start = t;
            } else if t - start > limit * PATIENCE.load(Relaxed) as f64 {
                leave(78);
            }
        }
    });
}

thread_local! {
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info).replace('\n', " ");
        if !QUIET.load(Relaxed) {
            eprintln!("{}", msg);
        }
        LAST_PANIC.with(|p| p.set(Some(msg)));
    }));
}

pub struct Violation {
    pub index: u64,
    pub message: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub index: u64,
    pub dict: Dict,
    pub evaluations: u64,
    pub calls: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: u64,
    pub events: Vec<String>,
    pub digest: u64,
    pub verbose: bool,
    journal: Journal,
    /// most allocations any one call made
    pub max_allocs: u64,
    call_no: u64,
    violated_here: bool,
    /// multiplies the bounds on the next calls
    pub allowance: u64,
    /// the cases and the calls in them are made in reverse order
    pub reverse: bool,
    /// draw small arguments: the run is instrumented
    pub small: bool,
}

pub const CALL_ALLOCS: u64 = 60_000_000;
pub const CALL_LIVE: i64 = 1 << 31;

impl Ctx {
    pub fn new(prop: &str, tier: &str, seed: u64, dict: Dict, journal: Journal, verbose: bool) -> Ctx {
        Ctx {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            index: 0,
            dict,
            evaluations: 0,
            calls: 0,
            distinct: HashSet::new(),
            counts: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            inconclusive: 0,
            events: vec![],
            digest: 0,
            verbose,
            journal,
            max_allocs: 0,
            call_no: 0,
            violated_here: false,
            allowance: 1,
            reverse: false,
            small: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn rng(&self, index: u64) -> Rng {
        Rng::new(&[self.seed, hash_str(&self.prop), index])
    }
    pub fn begin(&mut self, index: u64) {
        self.index = index;
        self.violated_here = false;
        // where the work itself is not what is decided, a rare large case must not count as runaway
        self.allowance = if matches!(self.prop.as_str(), "C21" | "C24") { 1 } else { 3 };
        self.journal.write(index, false);
    }
    /// One evaluated case; `nontrivial` by the rule of the check.
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            self.distinct.insert(key);
        }
    }
    pub fn count(&mut self, what: &str) {
        *self.counts.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn max(&mut self, what: &str, v: u64) {
        let e = self.counts.entry(what.to_string()).or_insert(0);
        *e = (*e).max(v);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("sample: {}", f());
        } else if self.samples.len() < 4 || (self.index % 97 == 0 && self.samples.len() < 8) {
            let s = f();
            self.samples.push(s.chars().take(600).collect());
        }
    }
    pub fn mix(&mut self, s: &str) {
        self.digest = (self.digest ^ hash_str(s)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(17);
    }
    pub fn violate(&mut self, message: String) {
        if self.verbose {
            eprintln!("violation: {}", message);
        }
        if self.violated_here || self.violations.len() >= 8 {
            return;
        }
        self.violated_here = true;
        let m: String = message.chars().take(2000).collect();
        self.violations.push(Violation { index: self.index, message: m });
    }
    pub fn inconclusive(&mut self, why: &str) {
        self.inconclusive += 1;
        self.count(&format!("skipped: {}", why));
    }
    /// A call into the system that must return. A panic is a violation.
    pub fn sut<T>(&mut self, what: impl Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match self.sut_raw(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.violate(format!("{} panicked: {}", what(), p));
                None
            }
        }
    }
    /// A call that may panic.
    pub fn sut_raw<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.calls += 1;
        self.call_no += 1;
        self.journal.write(self.index, true);
        let a0 = ALLOCS.load(Relaxed);
        ALLOC_LIMIT.store(a0 + CALL_ALLOCS * self.allowance, Relaxed);
        LIVE_LIMIT.store(LIVE.load(Relaxed) + CALL_LIVE * self.allowance.clamp(1, 2) as i64, Relaxed);
        QUIET.store(!self.verbose, Relaxed);
        PATIENCE.store(self.allowance, Relaxed);
        IN_CALL.store(self.call_no, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CALL.store(0, Relaxed);
        QUIET.store(false, Relaxed);
        self.journal.write(self.index, false);
        self.max_allocs = self.max_allocs.max(ALLOCS.load(Relaxed) - a0);
        r.map_err(|_| LAST_PANIC.with(|p| p.take()).unwrap_or_default())
    }
}

/// Minimal JSON strings.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
