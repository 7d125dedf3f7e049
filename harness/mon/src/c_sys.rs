//! Independence of history and threads (C23), work (C24), memory (C25).

use crate::c_lim::Sing;
use crate::ctx::{Ctx, ALLOCS, BYTES, LIVE};
use crate::gen::*;
use crate::model::*;
use crate::rng::{hash_str, Rng};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Barrier;
use symbolic_rust::verif_hook::{self as v, Cos, Exp, Expression, IsClose, LimitExpression, Ln, NumAggregate, Pow, RationalNum, Sin, SmartNum, ToRational, ToSmartNum};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Simplify,
    Derive(u8),
    Substitute(u8),
    Expand(bool, u64),
    Limit(bool, u64),
    Print,
    Numbers,
    Fractions,
    Inspect,
    Classes,
    Build,
    Twice,
}

/// One call with its arguments.
pub struct Job {
    pub kind: Kind,
    a: Expression,
    b: Expression,
    x: Expression,
    p: SmartNum,
    q: SmartNum,
    pub what: String,
}

fn show(x: &Expression) -> String {
    from_sut(x).text()
}

fn show_result(r: &Result<Expression, String>) -> String {
    match r {
        Ok(x) => show(x),
        Err(m) => format!("refused: {}", m),
    }
}

/// The double's bits; what is not a number has none of its own.
fn double_bits(f: f64) -> u64 {
    if f.is_nan() {
        f64::NAN.to_bits()
    } else {
        f.to_bits()
    }
}

fn bits(n: &SmartNum) -> String {
    format!("{} {:x} {:?} {}{}{}{} {}", N::from_sut(n).text(), double_bits(n.to_f64()), n.to_i64(), n.is_zero(), n.is_one(), n.is_pi(), n.is_e(), n)
}

fn fraction(n: &SmartNum) -> Option<RationalNum> {
    n.to_rational()
}

/// A call as the monitors see it.
#[derive(Clone)]
pub struct Plan {
    kind: Kind,
    a: E,
    b: E,
    x: E,
    p: N,
    q: N,
}

impl Plan {
    pub fn draw(r: &mut Rng, d: &Dict, small: bool) -> Plan {
        let ns = names(r, d, 2, false);
        let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
        let mut cfg = Cfg::general(&refs);
        cfg.big = 2;
        cfg.patterns = 25;
        let n = if cfg!(miri) { 6 } else if small { 9 } else { 18 };
        let kind = match r.below(24) {
            0..=3 => Kind::Simplify,
            4..=6 => Kind::Derive(r.below(3) as u8),
            7 | 8 => Kind::Substitute(r.below(3) as u8),
            9 | 10 => Kind::Expand(r.chance(50), r.below(if small { 2 } else { 5 })),
            11..=13 => Kind::Limit(r.chance(50), r.below(if small { 2 } else { 3 })),
            14 | 15 => Kind::Print,
            16 | 17 => Kind::Numbers,
            18 => Kind::Fractions,
            19 => Kind::Inspect,
            20 => Kind::Classes,
            21 => Kind::Build,
            _ => Kind::Twice,
        };
        let n = match kind {
            Kind::Expand(..) => n / 2,
            Kind::Limit(..) => n * 2 / 3,
            _ => n,
        };
        let mut kind = kind;
        let mut a = tree(r, &cfg, d, n);
        let mut singular = None;
        if let (Kind::Limit(f, _), true) = (kind, r.chance(if small { 25 } else { 50 })) {
            // singular points, with differentiations to do
            let depth = 1 + r.below(2) as usize;
            let mut g = Sing::new(r, &ns[0]);
            let e = g.any(depth);
            let at = num(g.at);
            if e.nodes() <= if cfg!(miri) { 7 } else if small { 9 } else { 18 } {
                kind = Kind::Limit(f, r.below(if cfg!(miri) { 2 } else if e.nodes() > 13 { 3 } else { 4 }));
                a = e;
                singular = Some(at);
            }
        }
        if let (Kind::Expand(f, _), true, false) = (kind, r.chance(25), small) {
            // a high order of something whose derivatives stay small
            let far = r.chance(15) && !cfg!(miri);
            kind = Kind::Expand(f, if far { r.range(26, 300) } else { r.range(6, 26) } as u64);
            let x = var(&ns[0]);
            a = match r.below(5) {
                _ if far => match r.below(4) {
                    0 => int(3),
                    1 => var("w"),
                    2 => mul(int(2), x),
                    _ => mul(x.clone(), x),
                },
                0 => un(Op::Exp, x),
                1 => un(Op::Sin, x),
                2 => pow(x, int(r.range(2, 20))),
                3 => un(Op::Exp, neg(x)),
                _ => un(Op::Cos, x),
            };
        }
        let by_name = singular.is_some() && r.chance(95);
        Plan {
            kind,
            a,
            b: if let Some(at) = singular { at } else if r.chance(60) { num(any_num(r, d)) } else { tree(r, &cfg, d, 5) },
            x: if by_name { var(&ns[0]) } else if r.chance(93) { var(r.pick(&ns)) } else { tree(r, &cfg, d, 3) },
            p: any_num(r, d),
            q: any_num(r, d),
        }
    }

    /// The same call with one argument almost the same: what an answer remembered from one call
    /// must not be taken for.
    fn twin(&self, r: &mut Rng) -> Plan {
        let mut t = self.clone();
        match (self.kind, r.below(10)) {
            (Kind::Numbers | Kind::Fractions, k) => {
                if k % 2 == 0 {
                    t.p = near_number(t.p, r);
                } else {
                    t.q = near_number(t.q, r);
                }
            }
            (Kind::Expand(f, n), 0 | 1) if n > 5 => t.kind = Kind::Expand(f, n - 1 + 2 * r.below(2)),
            (Kind::Expand(f, n), 0 | 1) => t.kind = Kind::Expand(f, (n + 1) % 5),
            (Kind::Limit(f, n), 0 | 1) => t.kind = Kind::Limit(f, (n + 1) % 4),
            (_, 2) => t.b = near_expression(&t.b, r),
            (_, 3) => t.x = near_expression(&t.x, r),
            _ => {
                t.a = near_expression(&t.a, r);
                // the derivatives of what it is now may grow
                if let Kind::Expand(f, n) = t.kind {
                    t.kind = Kind::Expand(f, n.min(4));
                }
            }
        }
        t
    }

    pub fn job(&self) -> Job {
        let Plan { kind, a, b, x, p, q } = self;
        Job {
            what: format!("{:?} of {} with {} and {} ({} {})", kind, a.text(), x.text(), b.text(), p.text(), q.text()),
            kind: *kind,
            a: to_sut(a),
            b: to_sut(b),
            x: to_sut(x),
            p: p.to_sut(),
            q: q.to_sut(),
        }
    }
}

fn near_number(n: N, r: &mut Rng) -> N {
    match (n, r.below(3)) {
        (N::Int(i), 0) => N::Real(i as f64),
        (N::Int(i), 1) if i != 0 => N::Frac(i < 0, i.unsigned_abs(), 1),
        (N::Int(i), _) => N::Int(i.wrapping_add(1)),
        (N::Frac(s, n, d), 0) if n < 1 << 62 && d < 1 << 62 => N::Frac(s, n * 2, d * 2),
        (N::Frac(s, n, d), 1) => N::Frac(!s, n, d),
        (N::Frac(s, n, d), _) => N::Frac(s, n.wrapping_add(1), d),
        (N::Real(f), 0) => N::Real(f + 1e-5),
        (N::Real(f), 1) => N::Real(f64::from_bits(f.to_bits() ^ 1)),
        (N::Real(f), _) => N::Real(-f),
        (N::Pi, _) => N::Real(std::f64::consts::PI),
        (N::E, _) => N::Pi,
    }
}

fn near_expression(e: &E, r: &mut Rng) -> E {
    match e {
        E::Num(n) => num(near_number(*n, r)),
        E::Var(s) if r.chance(50) => var(&format!("{}{}", s, s)),
        E::Var(s) => {
            let c: String = s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            var(&c)
        }
        E::Op(o, k) => {
            if k.len() == 2 && r.chance(20) {
                return bin(*o, k[1].clone(), k[0].clone());
            }
            if r.chance(10) {
                let other = if k.len() == 2 { *r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow]) } else { *r.pick(&[Op::Neg, Op::Sin, Op::Cos, Op::Exp, Op::Ln]) };
                return if k.len() == 2 { bin(other, k[0].clone(), k[1].clone()) } else { un(other, k[0].clone()) };
            }
            let i = r.below(k.len() as u64) as usize;
            let mut k: Vec<E> = k.to_vec();
            k[i] = near_expression(&k[i], r);
            if k.len() == 2 {
                bin(*o, k[0].clone(), k[1].clone())
            } else {
                un(*o, k[0].clone())
            }
        }
    }
}

/// A batch of calls, a third of them near-copies of the one before.
fn batch(mut r: Rng, d: &Dict, count: usize, small: bool, reverse: bool) -> Vec<Job> {
    let mut plans: Vec<Plan> = vec![];
    for _ in 0..count {
        let p = match plans.last() {
            Some(p) if r.chance(35) => p.twin(&mut r),
            _ => Plan::draw(&mut r, d, small),
        };
        plans.push(p);
    }
    if reverse {
        plans.reverse();
    }
    plans.iter().map(Plan::job).collect()
}

impl Job {
    fn work(&self) -> String {
        let Job { a, b, x, p, q, .. } = self;
        let xv = v::as_variable(x);
        match self.kind {
            Kind::Simplify => show(&a.clone().num_aggregate()),
            Kind::Derive(0) => show_result(&v::derivative(a.clone(), x.clone())),
            Kind::Derive(1) => show_result(&v::derivative_ref(a.clone(), x)),
            Kind::Derive(_) => xv.map_or("no variable".into(), |w| show_result(&v::derivative_var(a.clone(), w))),
            Kind::Substitute(0) => show_result(&v::substitute(a.clone(), x.clone(), b.clone())),
            Kind::Substitute(1) => show_result(&v::substitute_ref(a.clone(), x, b)),
            Kind::Substitute(_) => xv.map_or("no variable".into(), |w| show_result(&v::substitute_var(a.clone(), w, b))),
            Kind::Expand(by_ref, n) => {
                let t = match (by_ref, xv) {
                    (true, Some(w)) => v::taylor_ref(a.clone(), w, b, n),
                    _ => v::taylor(a.clone(), x.clone(), b.clone(), n),
                };
                match t {
                    Ok(t) => {
                        let t2 = t.clone();
                        format!("{} | {} | {:?} | {}", t.coefficient.iter().map(show).collect::<Vec<_>>().join(", "), show(&t.residual), t2.order, t2)
                    }
                    Err(m) => format!("refused: {}", m),
                }
            }
            Kind::Limit(by_ref, n) => {
                let l = match (by_ref, xv) {
                    (true, Some(w)) => v::limit_ref(a.clone(), w, b.clone(), n),
                    _ => v::limit(a.clone(), x.clone(), b.clone(), n),
                };
                match l {
                    Ok(l) => format!("{} {}", l, if let LimitExpression::Normal(e) = &l { show(e) } else { String::new() }),
                    Err(e) => format!("{:?}", e),
                }
            }
            Kind::Print => format!("{} | {}", a, x),
            Kind::Numbers => {
                let mut s = vec![
                    bits(&(p.clone() + q.clone())),
                    bits(&(p.clone() - q.clone())),
                    bits(&(p.clone() * q.clone())),
                    bits(&(p.clone() / q.clone())),
                    bits(&(-p.clone())),
                    format!("{} {}", p.sign(), q.sign()),
                ];
                s.push(format!("{} {}", p.is_close(q, 1e-6), p.clone().is_close(q.clone(), 1.0)));
                s.join(" | ")
            }
            Kind::Fractions => match (fraction(p), fraction(q)) {
                (Some(f), Some(g)) => {
                    let t = |f: &RationalNum| format!("{} {} {} {:x}", f.sign, f.nominator, f.denominator, double_bits(f.to_f64()));
                    format!("{} | {} | {} {} | {}", t(&f), t(&g.reduce()), f == g, t(&-f.clone()), f)
                }
                _ => "no fractions".into(),
            },
            Kind::Inspect => {
                let e = [a.is_num(), a.is_operand(), a.is_operator(), a.is_zero(), a.is_one(), a.is_pi(), a.is_e(), b.is_num()];
                let near = a.near(b, 0.5).map_err(|e| e.to_string());
                let val = b.to_smart_num().map(|n| bits(&n)).map_err(|e| e.to_string());
                let rat = a.clone().to_rational().map(|f| f.to_string());
                let name = v::into_variable(x.clone()).map(|w| w.to_string());
                format!("{:?} {:?} {:?} {:?} {:?}", e, near, val, rat, name)
            }
            Kind::Classes => {
                let all = || vec![LimitExpression::Infinitesimal, LimitExpression::Infinity, LimitExpression::BoundedFluctuation, LimitExpression::Normal(a.clone())];
                let mut s = String::new();
                let t = |r: Result<LimitExpression, v::NoValidLimitFound>| r.map_or("none".to_string(), |l| l.to_string());
                for f in all() {
                    for g in all() {
                        s.push_str(&t(f.clone() + g.clone()));
                        s.push_str(&t(f.clone() - g.clone()));
                        s.push_str(&t(f.clone() * g.clone()));
                        s.push_str(&t(f.clone() / g));
                    }
                    s.push_str(&(-f).to_string());
                }
                format!("{:016x}", hash_str(&s))
            }
            Kind::Build => {
                let y = [
                    a.clone() + b.clone(),
                    a.clone() - b.clone(),
                    a.clone() * b.clone(),
                    a.clone() / b.clone(),
                    a.clone().pow(b.clone()),
                    -a.clone(),
                    a.sin(),
                    a.cos(),
                    b.clone().exp(),
                    b.clone().ln(),
                    v::sin(p.clone()),
                    v::cos(q.clone()),
                ];
                y.iter().map(show).collect::<Vec<_>>().join(" ")
            }
            Kind::Twice => {
                let s = a.clone().num_aggregate();
                let t = v::derivative_ref(s.clone(), x);
                let u = match t {
                    Ok(t) => v::substitute_ref(t, x, b).map(|u| u.num_aggregate()),
                    e => e,
                };
                format!("{} {}", s, show_result(&u))
            }
        }
    }

    /// The result as text; a panic is a result like any other here.
    pub fn run(&self) -> String {
        catch_unwind(AssertUnwindSafe(|| self.work())).unwrap_or_else(|_| "panicked".to_string())
    }

    fn arguments(&self) -> String {
        format!("{} | {} | {} | {} | {}", show(&self.a), show(&self.b), show(&self.x), bits(&self.p), bits(&self.q))
    }
}

// ---------------------------------------------------------------- C23

/// Whether a type may be shared between threads, without refusing to compile when it may not.
struct Probe<T>(std::marker::PhantomData<T>);
trait Unshared {
    const SHARED: bool = false;
}
impl<T> Unshared for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    const SHARED: bool = true;
}
const SHAREABLE: bool = Probe::<Job>::SHARED;

struct Share<'a, T>(&'a [T]);
unsafe impl<T> Send for Share<'_, T> {}
unsafe impl<T> Sync for Share<'_, T> {}

/// What a number is, without formatting.
type Parts = (Option<i64>, u64, Option<(i64, u64, u64)>, u8);

fn parts(n: &SmartNum) -> Parts {
    let q = n.to_rational().map(|q| (q.sign, q.nominator, q.denominator));
    (n.to_i64(), double_bits(n.to_f64()), q, n.is_zero() as u8 | (n.is_one() as u8) << 1 | (n.is_pi() as u8) << 2 | (n.is_e() as u8) << 3)
}

fn calculate(o: u8, p: &SmartNum, q: &SmartNum) -> (Parts, u64) {
    let n = match o {
        0 => p.clone() + q.clone(),
        1 => p.clone() - q.clone(),
        2 => p.clone() * q.clone(),
        3 => p.clone() / q.clone(),
        _ => -p.clone(),
    };
    let extra = match (fraction(p), fraction(q)) {
        (Some(f), Some(g)) => {
            let t = f.reduce();
            t.nominator ^ t.denominator.rotate_left(17) ^ (f == g) as u64
        }
        _ => 0,
    };
    (parts(&n), extra)
}

/// Many threads in a tight loop over a few calculations, so that they meet inside the operations.
fn storm_numbers(c: &mut Ctx, r: &mut Rng) {
    let wide = r.chance(60);
    let k = r.range(2, 6) as usize;
    let jobs: Vec<(u8, N, N)> = (0..k)
        .map(|_| {
            let draw = |r: &mut Rng| {
                if wide {
                    // both parts large, with a common factor
                    let g = 1 + r.below(1 << 20);
                    let part = |r: &mut Rng| (1 + r.below(1 << 30)) * (1 + r.below(1 << 12)) * g;
                    N::Frac(r.chance(50), part(r), part(r))
                } else {
                    any_num(r, &c.dict)
                }
            };
            (r.below(5) as u8, draw(r), draw(r))
        })
        .collect();
    let what: Vec<String> = jobs.iter().map(|(o, p, q)| format!("{} {} {}", p.text(), ["+", "-", "*", "/", "neg"][*o as usize], q.text())).collect();
    let build = || -> Vec<(u8, SmartNum, SmartNum)> { jobs.iter().map(|(o, p, q)| (*o, p.to_sut(), q.to_sut())).collect() };
    let alone = match c.sut_raw(|| build().iter().map(|(o, p, q)| calculate(*o, p, q)).collect::<Vec<_>>()) {
        Ok(a) => a,
        Err(m) => return c.violate(format!("{:?} panicked: {}", what, m)),
    };
    let (threads, rounds) = (8, if c.thorough() { 20_000 } else { 4_000 });
    c.allowance = 8 * threads as u64;
    let barrier = Barrier::new(threads);
    let wrong = c.sut_raw(|| {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (barrier, build, alone) = (&barrier, &build, &alone);
                    s.spawn(move || {
                        let mine = build();
                        barrier.wait();
                        for n in 0..rounds {
                            let i = (n + t) % k;
                            let (o, p, q) = (mine[i].0, &mine[i].1, &mine[i].2);
                            if calculate(o, p, q) != alone[i] {
                                return Some((i, calculate(o, p, q)));
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Some((0, alone[0])))).collect::<Vec<_>>()
        })
    });
    for w in &what {
        c.eval(hash_str(w), true);
    }
    c.count("storm over numbers");
    *c.counts.entry("concurrent call".into()).or_insert(0) += (threads * rounds) as u64;
    match wrong {
        Ok(all) => {
            for (t, w) in all.iter().enumerate() {
                if let Some((i, _)) = w {
                    return c.violate(format!("{}: alone {:?}, in thread {} of {} at once with {:?} something else", what[*i], alone[*i], t, threads, what));
                }
            }
        }
        Err(m) => c.violate(format!("concurrent calculations {:?} do not return: {}", what, m)),
    }
}

/// The same with calls on small expressions.
fn storm_calls(c: &mut Ctx, r: &mut Rng) {
    let k = r.range(2, 5) as usize;
    let dict = c.dict.clone();
    let start = r.clone();
    let draw = |mut r: Rng| -> Vec<Job> {
        let mut plans: Vec<Plan> = vec![];
        while plans.len() < k {
            let mut p = match plans.last() {
                Some(p) if r.chance(40) => p.twin(&mut r),
                _ => Plan::draw(&mut r, &dict, true),
            };
            // all of one kind, most of the time
            if let (Some(q), true) = (plans.last(), r.chance(70)) {
                p.kind = q.kind;
            }
            if p.a.nodes() <= 9 && p.b.nodes() <= 5 {
                plans.push(p);
            }
        }
        plans.iter().map(Plan::job).collect()
    };
    let jobs = draw(start.clone());
    let alone = match c.sut_raw(|| jobs.iter().map(Job::run).collect::<Vec<_>>()) {
        Ok(a) => a,
        Err(_) => return,
    };
    let (threads, rounds) = (8, if c.thorough() { 1000 } else { 150 });
    c.allowance = 8 * threads as u64;
    let barrier = Barrier::new(threads);
    let wrong = c.sut_raw(|| {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (barrier, draw, alone, start) = (&barrier, &draw, &alone, start.clone());
                    s.spawn(move || {
                        let mine = draw(start);
                        barrier.wait();
                        for n in 0..rounds {
                            let i = (n + t) % k;
                            let got = mine[i].run();
                            if got != alone[i] {
                                return Some((i, got));
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Some((0, "panicked".into())))).collect::<Vec<_>>()
        })
    });
    for j in &jobs {
        c.eval(hash_str(&j.what), true);
    }
    c.count("storm over calls");
    *c.counts.entry("concurrent call".into()).or_insert(0) += (threads * rounds) as u64;
    match wrong {
        Ok(all) => {
            for (t, w) in all.into_iter().enumerate() {
                if let Some((i, got)) = w {
                    return c.violate(format!("{}: alone {}, in thread {} at once with others {}", jobs[i].what, alone[i], t, got));
                }
            }
        }
        Err(m) => c.violate(format!("concurrent calls do not return: {}", m)),
    }
}

/// All threads deep inside the same operation on expressions of hundreds of levels.
fn storm_deep(c: &mut Ctx, r: &mut Rng) {
    let kind = r.below(4);
    let s = *r.pick(&[Shape::Left, Shape::Right, Shape::Unary, Shape::Zigzag]);
    let ops: Vec<Op> = if r.chance(50) { vec![*r.pick(&BIN)] } else { BIN.to_vec() };
    let levels = if kind == 3 { r.range(20, 120) } else { r.range(60, 500) } as usize;
    let start = r.clone();
    let build = |mut r: Rng| shaped(&mut r, s, levels, &ops, &UN);
    let work = |e: Expression| -> String {
        let x = Expression::new_variable("x");
        match kind {
            0 => show(&e.num_aggregate()),
            1 => show_result(&v::substitute_ref(e, &x, &Expression::from(3_i64))),
            2 => e.to_string(),
            _ => show_result(&v::derivative_ref(e, &x)),
        }
    };
    let what = format!("{} of a {:?} chain of {} levels of {:?}", ["simplification", "substitution", "print", "derivative"][kind as usize], s, levels, ops);
    let (threads, rounds) = (8, if c.thorough() { 200 } else { 20 });
    c.allowance = 8 * threads as u64;
    let barrier = Barrier::new(threads);
    let done = c.sut_raw(|| {
        std::thread::scope(|sc| {
            let run = |rounds: usize, wait: bool| {
                let (barrier, build, work, start) = (&barrier, &build, &work, start.clone());
                std::thread::Builder::new()
                    .stack_size(1 << 26)
                    .spawn_scoped(sc, move || {
                        let e = build(start);
                        if wait {
                            barrier.wait();
                        }
                        let mut all: Vec<String> = vec![];
                        for _ in 0..rounds {
                            let s = work(e.clone());
                            if all.last() != Some(&s) {
                                all.push(s);
                            }
                        }
                        all
                    })
                    .expect("thread")
            };
            let alone = run(1, false).join().unwrap_or_default();
            let hs: Vec<_> = (0..threads).map(|_| run(rounds, true)).collect();
            (alone, hs.into_iter().map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>())
        })
    });
    c.eval(hash_str(&format!("{} {}", what, r.next())), true);
    c.count("storm on deep expressions");
    *c.counts.entry("concurrent call".into()).or_insert(0) += (threads * rounds) as u64;
    match done {
        Ok((alone, all)) => {
            if all.iter().any(|a| *a != alone) {
                let short = |s: &str| s.chars().take(200).collect::<String>();
                let other = all.iter().flatten().find(|s| alone.first() != Some(s)).map_or("a panic".into(), |s| short(s));
                c.violate(format!("{}: alone {}, with {} threads at it {}", what, alone.first().map_or(String::new(), |s| short(s)), threads, other));
            }
        }
        Err(m) => c.violate(format!("{} in several threads does not return: {}", what, m)),
    }
}

/// One of many small calls on something never seen before, with a known answer; None if it is right.
fn worn(kind: u64, k: u64, tag: u64) -> Option<String> {
    let x = Expression::new_variable("x");
    let zero = || Expression::from(0_i64);
    match kind {
        0 => {
            // names
            let (n, m) = (format!("v{:x}_{}", tag, k), format!("v{:x}_{}", tag, k + 1));
            let (a, b) = (Expression::new_variable(&n), Expression::new_variable(&m));
            let own = v::derivative_ref(a.clone(), &a).map(|d| d.is_one());
            let other = v::derivative(a.clone(), b.clone()).map(|d| d.is_zero());
            let kept = v::substitute(a.clone(), b.clone(), zero()).map(|e| e.to_string() == n);
            let gone = v::substitute(a.clone(), a.clone(), zero()).map(|e| e.is_zero());
            let far = v::limit(a.clone(), b, zero(), 1).map(|l| l.to_string() == n).map_err(|_| String::new());
            let near = v::limit(a.clone(), a, zero(), 1).map(|l| l.to_string() == "0").map_err(|_| String::new());
            // nor is it the one used all along
            let a = Expression::new_variable(&n);
            let old = v::derivative(a.clone(), x.clone()).and_then(|d| Ok(d.is_zero() && v::substitute_ref(a.clone(), &x, &zero())?.to_string() == n && v::derivative(x.clone(), a.clone())?.is_zero()));
            let far = far.and_then(|f| v::limit(a, x.clone(), zero(), 1).map(|l| f && l.to_string() == n).map_err(|_| String::new()));
            if [&own, &other, &kept, &gone, &far, &near, &old].iter().any(|q| **q != Ok(true)) {
                return Some(format!("variable {:?}: {:?}", n, (own, other, kept, gone, far, near)));
            }
        }
        1 => {
            // limits that do not exist
            let e = match k % 6 {
                0 => x.clone().ln() / x.clone(),
                1 => x.clone() / x.clone().ln(),
                2 => (Expression::one() / x.clone()).sin() / (Expression::one() / x.clone()).cos(),
                3 => (Expression::one() / x.clone()) * (Expression::one() / x.clone()).sin(),
                4 => (Expression::one() / x.clone()).exp() + x.clone(),
                _ => -(x.clone().ln().sin()),
            };
            let l = v::limit(e, x, zero(), k / 6 % 2);
            if let Ok(l) = l {
                if !matches!(l, LimitExpression::Infinity) || k % 6 != 0 && k % 6 != 3 {
                    return Some(format!("form {} has the limit {}", k % 6, l));
                }
            }
        }
        2 => {
            // refusals
            let e = x.clone() + Expression::from(k as i64);
            let all = [
                v::derivative(e.clone(), e.clone()).is_err(),
                v::derivative_ref(x.clone(), &e).is_err(),
                v::substitute(e.clone(), e.clone(), x.clone()).is_err(),
                v::substitute_ref(x.clone(), &e, &x).is_err(),
                v::taylor(x.clone(), e.clone(), x.clone(), 1).is_err(),
                v::limit(x.clone(), e.clone(), x.clone(), 1).is_err(),
                e.clone().to_smart_num().is_err(),
                e.near(&x, 1.0).is_err(),
                e.to_rational().is_none(),
            ];
            if all.iter().any(|q| !*q) {
                return Some(format!("refusals {:?}", all));
            }
        }
        3 => {
            // numbers
            let n = (tag % 1000 + k) as i64;
            let s = SmartNum::from(n + 1) / SmartNum::from(n + 2) + SmartNum::from(1_i64) / SmartNum::from(n + 2);
            let t = SmartNum::from(n as f64 + 0.5) * SmartNum::from(2_i64);
            if !s.is_one() || t.to_f64() != 2.0 * n as f64 + 1.0 {
                return Some(format!("numbers around {}: {} {}", n, s, t));
            }
        }
        4 => {
            // expressions
            let n = (tag % 1000 + k) as i64;
            let e = (x.clone() + Expression::from(n)) * (Expression::from(n + 1) - Expression::from(n));
            let t = e.num_aggregate().to_string();
            if t != if n == 0 { "x".to_string() } else { format!("x + {}", SmartNum::from(n)) } {
                return Some(format!("(x + {}) * ({} - {}) simplifies to {}", n, n + 1, n, t));
            }
        }
        6 => {
            // values put in, and their text
            let n = (tag % 1000 + k) as i64;
            let y = Expression::new_variable("y");
            let e = x.clone() * y.clone() - Expression::from(n);
            let text = e.to_string();
            let half = v::substitute(e, x.clone(), Expression::from(n + 1));
            let full = half.clone().and_then(|h| v::substitute_ref(h, &y, &Expression::from(2_i64))).ok();
            let value = full.and_then(|f| f.num_aggregate().to_smart_num().ok()).and_then(|q| q.to_i64());
            let name = if n < 0 { None } else { Some(format!("x * y - {}", n)) };
            if value != Some(n + 2) || name.map_or(false, |t| t != text) {
                return Some(format!("{} at x = {} and y = 2 is {:?}", text, n + 1, value));
            }
        }
        7 => {
            // limits that exist
            let n = (tag % 1000 + k) as i64 + 1;
            let e = match k % 3 {
                0 => (x.clone() * Expression::from(n)).sin() / x.clone(),
                1 => (x.clone() + Expression::from(n)) / (x.clone() + Expression::one()),
                _ => (x.clone() * x.clone() - Expression::from(n) * x.clone()) / x.clone(),
            };
            let l = v::limit(e.clone(), x, zero(), 3).map(|l| l.to_string()).ok();
            let want = if k % 3 == 2 { -n } else { n };
            // a number prints as itself or over one
            if l.as_ref().and_then(|t| t.trim_end_matches("/1").parse().ok()) != Some(want) {
                return Some(format!("{} has the limit {:?}", e, l));
            }
        }
        8 => {
            // longer expansions, at points never used before
            let n = (tag % 1000 + k) as i64 + 2;
            let e = x.clone() * x.clone() * x.clone() + Expression::from(n);
            let p = v::taylor(e, x, Expression::from(n), 4).ok().map(|p| p.coefficient.into_iter().map(|q| q.num_aggregate().to_smart_num().map_or(f64::NAN, |q| q.to_f64())).collect::<Vec<_>>());
            if p != Some([n * n * n + n, 3 * n * n, 3 * n, 1, 0].map(|q| q as f64).to_vec()) {
                return Some(format!("x * x * x + {0} has at {0} the coefficients {1:?}", n, p));
            }
        }
        _ => {
            // derivatives and expansions
            let n = (tag % 1000 + k) as i64 + 2;
            let e = Expression::from(n) * x.clone();
            let d = v::derivative(e.clone(), x.clone()).ok().and_then(|d| d.to_smart_num().ok()).and_then(|d| d.to_i64());
            let p = v::taylor(e, x, zero(), 1).ok().map(|p| p.coefficient.iter().map(|q| q.to_smart_num().map_or(f64::NAN, |q| q.to_f64())).collect::<Vec<_>>());
            if d != Some(n) || p != Some(vec![0.0, n as f64]) {
                return Some(format!("{} * x has derivative {:?} and coefficients {:?}", n, d, p));
            }
        }
    }
    None
}

/// A few calls, tens of thousands of others, and the same few again.
fn wear(c: &mut Ctx, r: &mut Rng, kind: u64) {
    let rounds = match kind {
        0 => 70_000,
        1 | 2 | 7 | 8 => 12_000,
        5 | 6 => 20_000,
        _ => 70_000,
    };
    let tag = r.next();
    let dict = c.dict.clone();
    let jobs = batch(r.clone(), &dict, 40, true, false);
    let what = format!("{} calls of sort {}", rounds, kind);
    c.eval(hash_str(&format!("{}{}", what, tag)), true);
    c.count(["worn by names", "worn by missing limits", "worn by refusals", "worn by numbers", "worn by expressions", "worn by derivatives", "worn by values", "worn by limits", "worn by expansions"][kind as usize]);
    c.allowance = 60;
    let res = c.sut_raw(|| {
        let first: Vec<String> = jobs.iter().map(Job::run).collect();
        for k in 0..rounds {
            if let Some(m) = worn(kind, k, tag) {
                return Err(format!("after {} calls of its sort: {}", k, m));
            }
        }
        for (j, f) in jobs.iter().zip(&first) {
            let s = j.run();
            if s != *f {
                return Err(format!("{}: first {}, after {} other calls {}", j.what, f, rounds, s));
            }
        }
        Ok(())
    });
    match res {
        Ok(Ok(())) => c.sample(|| format!("{} between two runs of 40 calls", what)),
        Ok(Err(m)) => c.violate(m),
        Err(m) => c.violate(format!("{}: {}", what, m)),
    }
}

pub fn c23(c: &mut Ctx, r: &mut Rng) {
    let storm = r.chance(6);
    if (400..409).contains(&c.index) && !cfg!(miri) {
        if !c.small && !c.reverse {
            let digest = c.digest;
            wear(c, r, c.index - 400);
            c.digest = digest;
        }
        return;
    }
    if storm {
        // left out of the comparison between the orders of the cases
        if cfg!(miri) || c.small || c.reverse {
            return;
        }
        let digest = c.digest;
        let most = if r.chance(20) { 6 } else { 5 };
        match r.below(most) {
            0 | 1 => storm_numbers(c, r),
            2 | 3 => storm_calls(c, r),
            4 => storm_deep(c, r),
            _ => {
                let kind = r.below(9);
                wear(c, r, kind)
            }
        }
        c.digest = digest;
        return;
    }
    let count = if cfg!(miri) { 2 } else { 8 };
    let threads = if cfg!(miri) { 2 } else { 8 };
    let small = cfg!(miri) || c.small;
    let start = r.clone();
    let dict = c.dict.clone();
    let reverse = c.reverse;
    let draw = |r: Rng| -> Vec<Job> { batch(r, &dict, count, small, reverse) };
    let jobs = draw(start.clone());
    c.allowance = 8;
    let before: Vec<String> = jobs.iter().map(Job::arguments).collect();
    let first = match c.sut_raw(|| jobs.iter().map(Job::run).collect::<Vec<_>>()) {
        Ok(f) => f,
        Err(_) => return,
    };
    for (j, f) in jobs.iter().zip(&first) {
        c.eval(hash_str(&j.what), f != "no variable" && f != "no fractions");
        c.count(&format!("{:?}", j.kind).split('(').next().unwrap().to_string());
        c.digest = c.digest.wrapping_add(hash_str(f) ^ hash_str(&j.what).rotate_left(7));
    }
    // shuffled, repeated, after other work, with fresh copies of the arguments
    let mut order: Vec<usize> = (0..count).chain(0..count).collect();
    let mut rr = start.clone();
    rr.next();
    rr.shuffle(&mut order);
    let other = draw(start.clone());
    let again = c.sut_raw(|| order.iter().enumerate().map(|(k, i)| (*i, if k % 2 == 0 { jobs[*i].run() } else { other[*i].run() })).collect::<Vec<_>>());
    if let Ok(list) = again {
        for (i, s) in list {
            c.count("repeated call");
            if s != first[i] {
                return c.violate(format!("{}: first {}, later {}", jobs[i].what, first[i], s));
            }
        }
    }
    // at once
    let barrier = Barrier::new(threads);
    let shared = Share(&jobs);
    c.allowance = 8 * threads as u64;
    let together = c.sut_raw(|| {
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (barrier, shared, draw, start) = (&barrier, &shared, &draw, start.clone());
                    std::thread::Builder::new()
                        .stack_size(1 << 26)
                        .spawn_scoped(s, move || {
                            let own;
                            let mine: &[Job] = if SHAREABLE && t % 2 == 0 {
                                shared.0
                            } else {
                                own = draw(start);
                                &own
                            };
                            barrier.wait();
                            let mut out = vec![];
                            for k in 0..2 * count {
                                // half of the threads start at the same call, so that they meet in it
                                let i = (k + if t < threads / 2 { 0 } else { t }) % count;
                                out.push((i, mine[i].run()));
                            }
                            out
                        })
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect::<Vec<_>>()
        })
    });
    match together {
        Ok(all) => {
            for (t, list) in all.iter().enumerate() {
                for (i, s) in list {
                    c.count("concurrent call");
                    if *s != first[*i] {
                        return c.violate(format!("{}: alone {}, in thread {} at once with others {}", jobs[*i].what, first[*i], t, s));
                    }
                }
            }
        }
        Err(m) => return c.violate(format!("concurrent calls do not return: {}", m)),
    }
    for (j, b) in jobs.iter().zip(&before) {
        let now = j.arguments();
        if now != *b {
            return c.violate(format!("{}: the arguments changed from {} to {}", j.what, b, now));
        }
    }
    c.sample(|| format!("{} = {}, {} times", jobs[0].what, first[0], 3 + 2 * threads));
}

// ---------------------------------------------------------------- C25

pub fn c25(c: &mut Ctx, r: &mut Rng) {
    if !cfg!(miri) && r.chance(1) && r.chance(20) {
        // calls on things never seen before keep nothing either
        let (kind, tag) = (r.below(6), r.next());
        let what = format!("calls of sort {}", kind);
        c.allowance = 20;
        let mut live = [0; 3];
        let res = c.sut_raw(|| {
            for (i, l) in live.iter_mut().enumerate() {
                for k in 0..1500 {
                    drop(worn(kind, 1500 * i as u64 + k, tag));
                }
                *l = LIVE.load(Relaxed);
            }
        });
        c.eval(hash_str(&format!("{}{}", what, tag)), true);
        c.count("calls on new things");
        match res {
            Err(m) => c.violate(format!("{}: {}", what, m)),
            Ok(()) if live[2] - live[1] > 1500 * 8 && live[1] - live[0] > 0 => c.violate(format!("{}: {} bytes stay allocated after 1500 calls whose results were dropped, {} after 1500 more", what, live[1] - live[0], live[2] - live[1])),
            Ok(()) => {}
        }
        return;
    }
    let j = Plan::draw(r, &c.dict, cfg!(miri)).job();
    let what = j.what.clone();
    // once before measuring: what is allocated once for all does not count
    let _ = c.sut_raw(|| drop(j.run()));
    let live = LIVE.load(Relaxed);
    let mut panicked = false;
    let res = c.sut_raw(|| {
        let s = j.run();
        if s == "panicked" {
            panicked = true;
        }
        drop(s);
    });
    let after = LIVE.load(Relaxed);
    c.eval(hash_str(&what), true);
    c.count(&format!("{:?}", j.kind).split('(').next().unwrap().to_string());
    if res.is_err() || panicked {
        return c.violate(format!("{} panicked", what));
    }
    if !cfg!(miri) && after != live {
        // settle: thread-local buffers of the harness may have grown once
        let l1 = LIVE.load(Relaxed);
        for _ in 0..4 {
            let _ = c.sut_raw(|| drop(j.run()));
        }
        let l2 = LIVE.load(Relaxed);
        if l2 > l1 {
            return c.violate(format!("{}: {} bytes stay allocated after four calls whose results were dropped", what, l2 - l1));
        }
        c.count("settled");
    }
    // dropping the arguments frees them
    if !cfg!(miri) {
        let l0 = LIVE.load(Relaxed);
        let k = c.sut_raw(|| {
            let copy = (j.a.clone(), j.b.clone(), j.x.clone(), j.p.clone());
            drop(copy);
        });
        if k.is_ok() && LIVE.load(Relaxed) > l0 {
            return c.violate(format!("{}: clones of the arguments are not freed", what));
        }
    }
    c.sample(|| format!("{}: balanced at {} live bytes", what, after));
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Left,
    Right,
    Unary,
    Balanced,
    Zigzag,
}

const SHAPES: [Shape; 5] = [Shape::Left, Shape::Right, Shape::Unary, Shape::Balanced, Shape::Zigzag];

fn leaf(r: &mut Rng) -> Expression {
    match r.below(6) {
        0 => Expression::from(2 + r.below(5) as i64),
        1 => Expression::new_variable("y"),
        _ => Expression::new_variable("x"),
    }
}

fn join2(o: Op, a: Expression, b: Expression) -> Expression {
    match o {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
        _ => a.pow(b),
    }
}

fn join1(o: Op, a: Expression) -> Expression {
    match o {
        Op::Neg => -a,
        Op::Sin => a.sin(),
        Op::Cos => a.cos(),
        Op::Exp => a.exp(),
        _ => a.ln(),
    }
}

const BIN: [Op; 5] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow];
const UN: [Op; 5] = [Op::Neg, Op::Sin, Op::Cos, Op::Exp, Op::Ln];

/// `ops`: the operators to use, one or several.
fn shaped(r: &mut Rng, s: Shape, n: usize, ops: &[Op], un: &[Op]) -> Expression {
    shaped_on(r, s, n, ops, un, Expression::new_variable("x"))
}

/// `bottom`: the innermost operand of a chain.
fn shaped_on(r: &mut Rng, s: Shape, n: usize, ops: &[Op], un: &[Op], bottom: Expression) -> Expression {
    match s {
        Shape::Balanced => {
            let mut level: Vec<Expression> = (0..(n / 2).max(2)).map(|_| leaf(r)).collect();
            while level.len() > 1 {
                let mut next = vec![];
                let mut it = level.into_iter();
                while let Some(a) = it.next() {
                    next.push(match it.next() {
                        Some(b) => join2(*r.pick(ops), a, b),
                        None => a,
                    });
                }
                level = next;
            }
            level.pop().unwrap()
        }
        _ => {
            let mut e = bottom;
            let mut left = r.chance(50);
            for _ in 0..n {
                e = match s {
                    Shape::Unary => join1(*r.pick(un), e),
                    Shape::Left => join2(*r.pick(ops), e, leaf(r)),
                    Shape::Right => join2(*r.pick(ops), leaf(r), e),
                    _ => {
                        left = !left;
                        if r.chance(25) {
                            join1(*r.pick(un), e)
                        } else if left {
                            join2(*r.pick(ops), e, leaf(r))
                        } else {
                            join2(*r.pick(ops), leaf(r), e)
                        }
                    }
                };
            }
            e
        }
    }
}

fn size(x: &Expression) -> u64 {
    1 + v::children(x).iter().map(size).sum::<u64>()
}

fn deep_ops(e: Expression, x: Expression, derive: bool) -> usize {
    let s = e.clone().num_aggregate();
    let t = v::substitute_ref(e.clone(), &x, &(x.clone() + Expression::one()));
    let text = e.to_string();
    let d = if derive { v::derivative(e.clone(), x.clone()) } else { Err(String::new()) };
    let z = e.is_zero() as usize + e.clone().to_smart_num().is_ok() as usize;
    text.len() + z + (s.is_num() as usize) + (t.is_ok() as usize) + (d.is_ok() as usize)
}

/// Depth that must work on a thread with a default stack.
const DEEP: usize = 300;

pub fn c24(c: &mut Ctx, r: &mut Rng) {
    let s = *r.pick(&SHAPES);
    let ops: Vec<Op> = if r.chance(60) { vec![*r.pick(&BIN)] } else { BIN.to_vec() };
    let un: Vec<Op> = if r.chance(60) { vec![*r.pick(&UN)] } else { UN.to_vec() };
    let which = r.below(20);
    if which == 16 || which == 17 {
        return c24_expand(c, r, s, &ops, &un);
    }
    if (12..16).contains(&which) || which >= 18 {
        return c24_limit(c, r, s);
    }
    let what_ops = format!("{:?}", if s == Shape::Unary { &un } else { &ops });
    if which == 0 {
        // hundreds of levels on the default stack of a thread
        let mut ops = ops;
        if s != Shape::Unary && r.chance(50) {
            ops = vec![*r.pick(&[Op::Add, Op::Sub, Op::Mul])];
        }
        let derive = r.chance(50);
        let n = std::env::var("MON_DEEP").map_or(if derive { DEEP } else { 2 * DEEP }, |s| s.parse().unwrap());
        c.allowance = 10;
        let e = shaped(r, if s == Shape::Balanced { Shape::Left } else { s }, n, &ops, &un);
        let x = Expression::new_variable("x");
        let what = format!("operations on a {:?} chain of {} levels of {}", s, n, what_ops);
        c.eval(hash_str(&format!("{}{}", what, r.next())), true);
        c.count("deep on a 2 MB stack");
        let sh = OneShare((e, x));
        let done = c.sut_raw(|| {
            std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(sc, || {
                        let sh = sh;
                        let (e, x) = sh.0;
                        deep_ops(e, x, derive)
                    })
                    .expect("thread")
                    .join()
                    .is_ok()
            })
        });
        if !matches!(done, Ok(true)) {
            c.violate(format!("{} panicked", what));
        }
        return;
    }
    // work against size
    let top = if c.thorough() { 1500 } else { 700 };
    let derive = which >= 8;
    let n = if derive { 6 + r.below(110) } else { 10 + r.below(top) } as usize;
    let e = shaped(r, s, n, &ops, &un);
    let n = size(&e);
    let x = Expression::new_variable("x");
    let w = Expression::new_variable("y") + Expression::one();
    let name = match which {
        1 | 2 => "simplify",
        3 | 4 => "substitute",
        5 => "print",
        6 => "inspect",
        7 => "clone",
        _ => "derive",
    };
    let input = e.clone();
    let (a0, b0) = (ALLOCS.load(Relaxed), BYTES.load(Relaxed));
    let out = c.sut_raw(|| match name {
        "simplify" => size(&e.num_aggregate()),
        "substitute" => v::substitute(e, x, w).map_or(0, |s| size(&s)),
        "print" => e.to_string().len() as u64,
        "inspect" => {
            let k = e.is_zero() as u64 + e.is_num() as u64 + e.is_operator() as u64;
            k + (&e).to_smart_num().is_ok() as u64 + e.to_rational().is_some() as u64
        }
        "clone" => size(&e.clone()),
        _ => v::derivative(e, x).map_or(0, |s| size(&s)),
    });
    let (allocs, bytes) = (ALLOCS.load(Relaxed) - a0, BYTES.load(Relaxed) - b0);
    let out = match out {
        Ok(n) => n,
        Err(m) => return c.violate(format!("{} of a {:?} tree of {} nodes of {} panicked: {}", name, s, n, what_ops, m)),
    };
    drop(input);
    c.eval(hash_str(&format!("{}{:?}{}{}{}", name, s, n, what_ops, allocs)), true);
    c.count(&format!("{} {:?}", name, s));
    let nn = n as f64;
    let rr = out as f64;
    // (bound on allocations, on bytes, on the size of the result)
    let (ba, bb, bo) = match name {
        "simplify" => (6.0 * nn * nn + 200.0, 600.0 * nn * nn + 1e5, nn),
        "substitute" => (6.0 * nn * nn + 6.0 * rr + 200.0, 600.0 * nn * nn + 1e3 * rr + 1e5, 3.0 * nn),
        "print" => (6.0 * nn * nn + 200.0, 60.0 * nn * nn + 60.0 * rr + 1e5, 100.0 * nn),
        "inspect" => (4.0 * nn + 200.0, 1000.0 * nn + 1e5, 10.0),
        "clone" => (4.0 * nn + 200.0, 1000.0 * nn + 1e5, nn),
        _ => (12.0 * nn * nn * nn + 1e3, 1e3 * nn * nn * nn + 1e5, 12.0 * nn * nn + 20.0),
    };
    if std::env::var_os("MON_CALIBRATE").is_some() {
        let k = |v: f64, p: f64| (1000.0 * v / p) as u64;
        let d = if name == "derive" { nn * nn * nn } else { nn * nn };
        for (t, v) in [("allocs", k(allocs as f64, d)), ("bytes", k(bytes as f64, d)), ("size", k(rr, if name == "derive" { nn * nn } else { nn }))] {
            let e = c.counts.entry(format!("cal {} {} {}", name, t, if n < 40 { "small" } else { "" })).or_insert(0);
            *e = (*e).max(v);
        }
    }
    for (t, got, most) in [("allocations", allocs as f64, ba), ("bytes allocated", bytes as f64, bb), ("size of the result", rr, bo)] {
        if got > most {
            return c.violate(format!("{} of a {:?} tree of {} nodes of {}: {} {}, expected at most {}", name, s, n, what_ops, t, got, most));
        }
    }
    c.sample(|| format!("{} of a {:?} tree of {} nodes of {}: {} allocations, {} bytes, result {}", name, s, n, what_ops, allocs, bytes, out));
}

/// Limits of long expressions in which no indeterminate form comes up: one visit of each
/// operand decides, whether there is a limit or not.
fn c24_limit(c: &mut Ctx, r: &mut Rng, s: Shape) {
    let with_quotients = r.chance(20);
    let pool: &[Op] = if with_quotients { &[Op::Div] } else { &[Op::Add, Op::Sub, Op::Mul, Op::Pow] };
    let ops: Vec<Op> = if r.chance(60) { vec![*r.pick(pool)] } else { pool.to_vec() };
    let upool: &[Op] = if with_quotients { &[Op::Neg, Op::Sin, Op::Cos] } else { &UN };
    let un: Vec<Op> = if r.chance(50) { vec![*r.pick(upool)] } else { upool.to_vec() };
    let x = Expression::new_variable("x");
    let bottom = match r.below(6) {
        0 | 1 => x.clone().ln(),
        2 => (x.clone() - x.clone()).ln(),
        3 => x.clone().pow(-1_i64),
        4 if !with_quotients => Expression::one() / (x.clone() - Expression::one()),
        _ => x.clone(),
    };
    let n = 10 + r.below(if c.thorough() { 600 } else { 300 }) as usize;
    let mut e = shaped_on(r, s, n, &ops, &un, bottom.clone());
    if s == Shape::Balanced {
        e = if r.chance(50) { join2(*r.pick(&ops), e, bottom) } else { join2(*r.pick(&ops), bottom, e) };
    }
    let n = size(&e);
    let at = match r.below(5) {
        0 | 1 => Expression::zero(),
        2 => Expression::one(),
        3 => Expression::from(2_i64 + r.below(3) as i64),
        _ => Expression::new_variable("z"),
    };
    let tries = if with_quotients { 0 } else { r.below(3) };
    let what_ops = format!("{:?}", if s == Shape::Unary { &un } else { &ops });
    let what = format!("limit with {} tries at {} of a {:?} tree of {} nodes of {}", tries, at, s, n, what_ops);
    let (a0, b0) = (ALLOCS.load(Relaxed), BYTES.load(Relaxed));
    let out = c.sut_raw(|| v::limit(e, x, at, tries).is_ok());
    let (allocs, bytes) = (ALLOCS.load(Relaxed) - a0, BYTES.load(Relaxed) - b0);
    let found = match out {
        Ok(f) => f,
        Err(m) => return c.violate(format!("{} panicked: {}", what, m)),
    };
    c.eval(hash_str(&format!("{}{}", what, allocs)), true);
    c.count(&format!("limit {:?} {}", s, if found { "found" } else { "not found" }));
    let nn = n as f64;
    if std::env::var_os("MON_CALIBRATE").is_some() {
        let k = format!("cal limit {} {}", if with_quotients { "quotients" } else { "" }, n / 128);
        for (t, w) in [("allocs", allocs), ("bytes", bytes)] {
            let v = (1000.0 * w as f64 / (nn * nn)) as u64;
            let m = c.counts.entry(format!("{} {}", k, t)).or_insert(0);
            *m = (*m).max(v);
        }
    }
    for (t, got, most) in [("allocations", allocs as f64, LIMIT_ALLOCS * nn * nn + 500.0), ("bytes allocated", bytes as f64, LIMIT_BYTES * nn * nn + 1e5)] {
        if got > most {
            return c.violate(format!("{}: {} {}, expected at most {}", what, t, got, most));
        }
    }
    c.sample(|| format!("{}: {} allocations, {} bytes, found: {}", what, allocs, bytes, found));
}

const LIMIT_ALLOCS: f64 = 12.0;
const LIMIT_BYTES: f64 = 600.0;

/// An expansion against its steps: one substitution, simplification and differentiation per order.
fn c24_expand(c: &mut Ctx, r: &mut Rng, s: Shape, ops: &[Op], un: &[Op]) {
    if r.chance(15) {
        // a polynomial, far past its degree
        let x = Expression::new_variable("x");
        let mut e = x.clone();
        for _ in 0..r.below(4) {
            e = if r.chance(50) { e * x.clone() } else { e + leaf(r) };
        }
        let order = 100 + r.below(500);
        return c24_expand_of(c, r, s, e, order, "polynomial");
    }
    let n = 4 + r.below(24) as usize;
    let small = r.chance(50);
    let one = (*r.pick(&BIN[..3]), *r.pick(un));
    let (e, order) = if small { (shaped(r, s, n.min(6), &[one.0], &[one.1]), r.below(4)) } else { (shaped(r, s, n, ops, un), r.below(2)) };
    c24_expand_of(c, r, s, e, order, &format!("{:?} {:?}", ops, un));
}

fn c24_expand_of(c: &mut Ctx, r: &mut Rng, s: Shape, e: Expression, order: u64, of: &str) {
    let n = size(&e);
    let x = Expression::new_variable("x");
    let at = if r.chance(50) { Expression::one() } else { Expression::new_variable("z") };
    let what = format!("expansion to order {} at {} of a {:?} tree of {} nodes of {}", order, at, s, n, of);
    let (a0, b0) = (ALLOCS.load(Relaxed), BYTES.load(Relaxed));
    let (e2, x2, at2) = (e.clone(), x.clone(), at.clone());
    let steps = c.sut_raw(move || {
        let mut k = e2;
        for _ in 0..=order {
            if let Ok(t) = v::substitute(k.clone(), x2.clone(), at2.clone()) {
                drop(t.num_aggregate());
            }
            match v::derivative(k, x2.clone()) {
                Ok(d) => k = d,
                Err(_) => return false,
            }
        }
        true
    });
    let (a1, b1) = (ALLOCS.load(Relaxed), BYTES.load(Relaxed));
    let out = c.sut_raw(|| v::taylor(e, x, at, order).is_ok());
    let (a2, b2) = (ALLOCS.load(Relaxed), BYTES.load(Relaxed));
    match (steps, out) {
        (Ok(a), Ok(b)) if a == b => {}
        (a, b) => return c.violate(format!("{}: its steps {:?}, itself {:?}", what, a, b)),
    }
    c.eval(hash_str(&format!("{}{}", what, a2 - a1)), true);
    c.count(&if order < 4 { format!("expand {:?} to order {}", s, order) } else { "expand to an order in the hundreds".to_string() });
    for (t, own, got) in [("allocations", a1 - a0, a2 - a1), ("bytes allocated", b1 - b0, b2 - b1)] {
        if got > 8 * own + 100_000 + 1_000 * order {
            return c.violate(format!("{}: {} {}, its steps take {}", what, t, got, own));
        }
        if std::env::var_os("MON_CALIBRATE").is_some() && own > 20_000 {
            let m = c.counts.entry(format!("cal expand {}", t)).or_insert(0);
            *m = (*m).max(1000 * got / own.max(1));
        }
    }
    c.sample(|| format!("{}: {} allocations, its steps {}", what, a2 - a1, a1 - a0));
}

struct OneShare<T>(T);
unsafe impl<T> Send for OneShare<T> {}
