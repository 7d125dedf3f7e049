//! Exploration guided by what the system under observation executes: the choices of cases that reach something
//! new (an edge, an edge another number of times, a comparison with a constant that comes closer) are kept and varied.

use crate::ctx::{Ctx, ALLOCS};
use crate::gen::{self, Cfg, Dict};
use crate::model::E;
use crate::rng::{hash_str, Rng};
use crate::Case;
use std::cell::RefCell;
use std::sync::atomic::Ordering::Relaxed;

#[cfg(guided)]
mod counters {
    use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering::Relaxed};
    static START: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
    static LEN: AtomicUsize = AtomicUsize::new(0);

    /// Comparisons with constants: a bit per (constant, bits that agree).
    pub const CMPS: usize = 1 << 16;
    static mut CMP: [u8; CMPS] = [0; CMPS];
    static mut TOUCHED: [u16; 4096] = [0; 4096];
    static TOUCHES: AtomicUsize = AtomicUsize::new(0);

    #[no_mangle]
    extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
        // one unit: the crate under observation
        START.store(start, Relaxed);
        LEN.store(stop as usize - start as usize, Relaxed);
    }
    fn cmp(k: u64, v: u64, width: u64) {
        // constants near zero and flags say little
        if k < 3 {
            return;
        }
        let agree = (64 - (k ^ v).count_ones() as u64).max(64 - (k.wrapping_sub(v) as i64).unsigned_abs().checked_ilog2().map_or(0, |b| b as u64 + 1));
        let h = (k.wrapping_mul(0x9e3779b97f4a7c15) ^ width.wrapping_mul(0x94d049bb133111eb) ^ agree.wrapping_mul(0xbf58476d1ce4e5b9)).wrapping_mul(0x2545f4914f6cdd1d) >> 48;
        unsafe {
            if CMP[h as usize] == 0 {
                let n = TOUCHES.load(Relaxed);
                if n < 4096 {
                    CMP[h as usize] = 1;
                    TOUCHED[n] = h as u16;
                    TOUCHES.store(n + 1, Relaxed);
                }
            }
        }
    }
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_const_cmp1(_: u8, _: u8) {}
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_const_cmp2(k: u16, v: u16) {
        cmp(k as u64, v as u64, 2)
    }
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_const_cmp4(k: u32, v: u32) {
        cmp(k as i32 as i64 as u64, v as i32 as i64 as u64, 4)
    }
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_const_cmp8(k: u64, v: u64) {
        cmp(k, v, 8)
    }
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}

    pub fn reset() {
        unsafe {
            let n = LEN.load(Relaxed);
            if n > 0 {
                std::ptr::write_bytes(START.load(Relaxed), 0, n);
            }
            for i in 0..TOUCHES.load(Relaxed) {
                CMP[TOUCHED[i] as usize] = 0;
            }
            TOUCHES.store(0, Relaxed);
        }
    }
    /// What was reached since the reset.
    pub fn features(out: &mut Vec<u32>) {
        out.clear();
        unsafe {
            let n = LEN.load(Relaxed);
            let p = START.load(Relaxed);
            for i in 0..n {
                let c = *p.add(i);
                if c != 0 {
                    let bucket = match c {
                        1 => 0,
                        2 => 1,
                        3 => 2,
                        4..=7 => 3,
                        _ => 4,
                    };
                    out.push((i * 8 + bucket) as u32);
                }
            }
            for i in 0..TOUCHES.load(Relaxed) {
                out.push((n * 8) as u32 + TOUCHED[i] as u32);
            }
        }
    }
    pub fn edges() -> usize {
        LEN.load(Relaxed)
    }
}

#[cfg(not(guided))]
mod counters {
    pub const CMPS: usize = 0;
    pub fn reset() {}
    pub fn features(_: &mut Vec<u32>) {}
    pub fn edges() -> usize {
        0
    }
}

/// Cases numbered from here on come from guidance.
pub const FIRST: u64 = 1 << 40;
const LONGEST: usize = 250;
/// Numbers only.
const LONGEST_PLAIN: usize = 3_000;
/// Allocations, the measure of work: of a case that is kept, and of all cases of a process.
const MOST: u64 = 20_000;
const BUDGET: u64 = 50_000_000;
const KEPT: usize = 40_000;

/// A kept case: its choices, and the expressions drawn for it.
#[derive(Clone)]
struct Kept {
    tape: Vec<u64>,
    trees: Vec<E>,
}

#[derive(Default)]
struct Offers {
    on: bool,
    recording: bool,
    /// to be varied, in the order in which expressions are asked for
    trees: Vec<E>,
    donor: Option<E>,
    asked: usize,
    made: Vec<E>,
}

thread_local! {
    static OFFERS: RefCell<Offers> = RefCell::new(Offers::default());
}

/// A variation of a kept expression, in guided cases.
pub fn offer(r: &mut Rng, cfg: &Cfg, d: &Dict, max: usize) -> Option<E> {
    let (tree, donor) = OFFERS.with(|o| {
        let mut o = o.borrow_mut();
        if !o.on {
            return None;
        }
        o.asked += 1;
        let t = o.trees.get(o.asked - 1).cloned()?;
        let d = o.donor.clone().unwrap_or(t.clone());
        Some((t, d))
    })?;
    let (tree, donor) = (gen::fit(cfg, &tree)?, gen::fit(cfg, &donor).unwrap_or(tree));
    let e = gen::vary(r, cfg, d, &tree, &donor);
    if e.nodes() > max.max(6) {
        return None;
    }
    let e = gen::fit(cfg, &e)?;
    made(&e);
    Some(e)
}

pub fn made(e: &E) {
    OFFERS.with(|o| {
        let mut o = o.borrow_mut();
        if o.recording && o.made.len() < 4 {
            o.made.push(e.clone());
        }
    })
}

fn vary(r: &mut Rng, pool: &[Kept], from: usize) -> Vec<u64> {
    let mut t = pool[from].tape.clone();
    for _ in 0..1 + r.below(4) {
        let n = t.len() as u64;
        if n == 0 {
            t.push(r.next());
            continue;
        }
        let p = r.below(n) as usize;
        let most = if r.chance(70) { 4 } else { 32 };
        let len = 1 + r.below(most) as usize;
        let q = (p + len).min(t.len());
        match r.below(12) {
            0..=4 => t[p] = r.next(),
            5 => t[p] = t[p].wrapping_add(r.below(5)).wrapping_sub(2),
            6 => {
                t.drain(p..q);
            }
            7 => {
                let part: Vec<u64> = t[p..q].to_vec();
                let at = r.below(n) as usize;
                t.splice(at..at, part);
            }
            8 => {
                let part: Vec<u64> = (0..len).map(|_| r.next()).collect();
                t.splice(p..p, part);
            }
            9 => {
                let other = &pool[r.below(pool.len() as u64) as usize].tape;
                if !other.is_empty() {
                    let a = r.below(other.len() as u64) as usize;
                    let b = (a + 1 + r.below(40) as usize).min(other.len());
                    let end = (p + if r.chance(50) { b - a } else { 0 }).min(t.len());
                    t.splice(p..end, other[a..b].iter().cloned());
                }
            }
            10 => {
                // the beginning of one, the end of another
                let other = &pool[r.below(pool.len() as u64) as usize].tape;
                if other.len() > p {
                    t.truncate(p);
                    t.extend_from_slice(&other[p..]);
                }
            }
            _ => t.truncate(p),
        }
    }
    t.truncate(LONGEST_PLAIN);
    t
}

/// The kept cases that have a feature: the smallest, and the last ones.
#[derive(Clone)]
struct Seen {
    times: u64,
    least: usize,
    owners: Vec<u32>,
}

impl Seen {
    /// Whether the case is worth keeping for this.
    fn note(&mut self, size: usize, id: u32, several: u64) -> bool {
        self.times += 1;
        if size < self.least - self.least / 4 {
            self.least = size;
            self.owners.insert(0, id);
            self.owners.truncate(4);
            true
        } else if self.times < several && self.owners.last() != Some(&id) {
            // something rarely seen: several ways to it are worth varying
            self.owners.truncate(7);
            self.owners.push(id);
            true
        } else {
            false
        }
    }
}

pub fn run(c: &mut Ctx, case: Case, shard: u64, shards: u64, cases: u64, upto: Option<u64>) {
    let mut g = Rng::new(&[c.seed, hash_str(&c.prop), hash_str("guided"), shard]);
    let mut pool: Vec<Kept> = vec![];
    let unseen = Seen { times: 0, least: usize::MAX, owners: vec![] };
    let mut edges = vec![unseen.clone(); counters::edges()];
    let mut seen = vec![unseen; counters::edges() * 8 + counters::CMPS];
    let (mut rare, mut all): (Vec<u32>, Vec<u32>) = (vec![], vec![]);
    let mut now: Vec<u32> = vec![];
    let mine = cases / shards;
    let warm = mine / 10;
    let (mut varied, mut kept) = (0, 0);
    let budget = if c.tier == "thorough" { 16 } else { 1 } * BUDGET;
    let (mut done, mut all_spent) = (0, 0);
    for n in 0..mine {
        if all_spent > budget {
            break;
        }
        done += 1;
        let index = FIRST + n * shards + shard;
        if n % 256 == 0 {
            // the edges taken least often
            rare = (0..edges.len() as u32).filter(|i| edges[*i as usize].times > 0).collect();
            rare.sort_by_key(|i| (edges[*i as usize].times, *i));
            rare.truncate(32);
        }
        let fresh = n < warm || all.is_empty() || rare.is_empty() || g.chance(10);
        let mut tape = vec![];
        let mut offers = Offers { recording: true, ..Offers::default() };
        if !fresh {
            varied += 1;
            let from = match g.below(10) {
                0..=5 => {
                    let e = *g.pick(&rare);
                    *g.pick(&edges[e as usize].owners)
                }
                6 | 7 => (pool.len() as u64 - 1 - g.below((pool.len() as u64).min(32))) as u32,
                _ => {
                    let f = *g.pick(&all);
                    *g.pick(&seen[f as usize].owners)
                }
            } as usize;
            if pool[from].trees.is_empty() || g.chance(30) {
                tape = vary(&mut g, &pool, from);
            } else {
                offers.on = true;
                offers.trees = pool[from].trees.clone();
                offers.donor = pool[g.below(pool.len() as u64) as usize].trees.first().cloned();
            }
        }
        OFFERS.with(|o| *o.borrow_mut() = offers);
        c.begin(index);
        c.verbose = upto == Some(index);
        let mut r = c.rng(index);
        r.play(tape);
        counters::reset();
        let before = ALLOCS.load(Relaxed);
        case(c, &mut r);
        let spent = ALLOCS.load(Relaxed) - before;
        counters::features(&mut now);
        all_spent += spent;
        if upto == Some(index) {
            break;
        }
        let made = r.made();
        let plain = OFFERS.with(|o| o.borrow().made.is_empty());
        // what costs much is not worth varying
        if spent > MOST || made.len() > if plain { LONGEST_PLAIN } else { LONGEST } || pool.len() >= KEPT {
            continue;
        }
        let id = pool.len() as u32;
        let mut new = false;
        for f in &now {
            let s = &mut seen[*f as usize];
            if s.times == 0 {
                all.push(*f);
            }
            new |= s.note(made.len(), id, 0);
        }
        now.iter_mut().for_each(|f| *f /= 8);
        now.dedup();
        for f in &now {
            if let Some(e) = edges.get_mut(*f as usize) {
                new |= e.note(made.len(), id, 64);
            }
        }
        if new {
            kept += 1;
            let trees = OFFERS.with(|o| std::mem::take(&mut o.borrow_mut().made));
            pool.push(Kept { tape: made, trees: trees.into_iter().filter(|e| e.nodes() <= 60).collect() });
        }
    }
    OFFERS.with(|o| *o.borrow_mut() = Offers::default());
    c.max("guided: edges of the code under observation", counters::edges() as u64);
    c.max("guided: edges reached (most in a process)", edges.iter().filter(|e| e.times > 0).count() as u64);
    c.max("guided: features reached (most in a process)", all.len() as u64);
    *c.counts.entry("guided: cases".into()).or_insert(0) += done;
    *c.counts.entry("guided: cases varied from kept ones".into()).or_insert(0) += varied;
    *c.counts.entry("guided: cases kept for something new".into()).or_insert(0) += kept;
}
