//! Refusals (C18), limits (C19, C20, C21) and limit-class arithmetic (C22).

use crate::ball::*;
use crate::big::Rat;
use crate::c_calc::eval_result;
use crate::c_sim::{point, show_env};
use crate::ctx::{js, Ctx};
use crate::gen::*;
use crate::model::*;
use crate::rng::{hash_str, Rng};
use std::fmt::Write as _;
use symbolic_rust::verif_hook::{self as v, Expression, LimitExpression, ToRational, ToSmartNum};

// ---------------------------------------------------------------- C18

pub fn c18(c: &mut Ctx, r: &mut Rng) {
    let ns = names(r, &c.dict, 2, false);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let mut cfg = Cfg::general(&refs).with_deep(12, 140);
    cfg.nice_reals = true;
    let e = match r.below(5) {
        0 => num(any_num(r, &c.dict)),
        1 => var(&ns[0]),
        _ => tree(r, &cfg, &c.dict, 14),
    };
    // what stands in the place of the variable
    let u = match r.below(10) {
        8 | 9 => var(r.pick(&ns)),
        0 => num(any_num(r, &c.dict)),
        1 => num(*r.pick(&[N::Pi, N::E, N::Int(0), N::Int(1), N::Real(0.0), N::Real(f64::NAN), N::Frac(false, 2, 2)])),
        2 => var(r.pick(&ns)),
        3 => un(*r.pick(&[Op::Neg, Op::Sin, Op::Cos, Op::Exp, Op::Ln]), var(r.pick(&ns))),
        4 => bin(*r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Pow]), var(r.pick(&ns)), if r.chance(50) { int(r.range(0, 2)) } else { var(r.pick(&ns)) }),
        5 => e.clone(),
        _ => tree(r, &cfg, &c.dict, 8),
    };
    let w = match r.below(3) {
        0 => num(any_num(r, &c.dict)),
        _ => tree(r, &cfg, &c.dict, 5),
    };
    let is_var = matches!(u, E::Var(_));
    let order = if e.nodes() > 60 { 0 } else if e.nodes() > 30 { r.below(2) } else { r.below(3) };
    c.allowance = 3;
    let (se, su, sw) = (to_sut(&e), to_sut(&u), to_sut(&w));
    let what = |op: &str| format!("{} of {} with respect to {} ({})", op, e.text(), u.text(), w.text());
    c.eval(hash_str(&what("")), e.nodes() > 1);
    c.count(if is_var { "by a variable" } else { "by something else" });

    // Some(true): a result, Some(false): an error
    let mut outcome: Vec<(&str, Option<bool>)> = vec![];
    let mut texts: Vec<(&str, String)> = vec![];
    let mut note = |name: &'static str, r: Option<Result<(), String>>| {
        if let Some(Err(m)) = &r {
            texts.push((name, m.clone()));
        }
        outcome.push((name, r.map(|x| x.is_ok())));
    };
    note("derivative by reference", c.sut(|| what("derivative"), || v::derivative_ref(se.clone(), &su).map(|_| ())));
    note("derivative", c.sut(|| what("derivative"), || v::derivative(se.clone(), su.clone()).map(|_| ())));
    note("substitution by reference", c.sut(|| what("substitution"), || v::substitute_ref(se.clone(), &su, &sw).map(|_| ())));
    note("substitution", c.sut(|| what("substitution"), || v::substitute(se.clone(), su.clone(), sw.clone()).map(|_| ())));
    note("expansion", c.sut(|| what("expansion"), || v::taylor(se.clone(), su.clone(), sw.clone(), order).map(|_| ())));
    for (name, o) in &outcome {
        match o {
            Some(got) if *got != is_var => return c.violate(format!("{}: {}", what(name), if *got { "accepted" } else { "refused" })),
            None => return,
            _ => {}
        }
    }
    if !is_var || e.nodes() <= 8 {
        let lim = c.sut(|| what("limit"), || v::limit(se.clone(), su.clone(), sw.clone(), 0).map(|_| ()).map_err(|e| format!("{:?}", e)));
        match lim {
            Some(Ok(())) if !is_var => return c.violate(format!("{}: accepted", what("limit"))),
            None => return,
            _ => {}
        }
    }
    if let E::Var(n) = &u {
        let variable = v::as_variable(&su);
        match variable {
            None => return c.violate(format!("{} is not recognised as a variable", u.text())),
            Some(x) => {
                if x.name != **n || v::into_variable(su.clone()).map(|x| x.name) != Some(n.to_string()) {
                    return c.violate(format!("{} is recognised as another variable", u.text()));
                }
                let ok = c.sut(
                    || what("operations"),
                    || (v::derivative_var(se.clone(), x).is_ok(), v::substitute_var(se.clone(), x, &sw).is_ok(), v::taylor_ref(se.clone(), x, &sw, order).is_ok()),
                );
                match ok {
                    Some((true, true, true)) => {}
                    Some(x) => return c.violate(format!("{}: by variable {:?}", what("operations"), x)),
                    None => return,
                }
            }
        }
    } else if v::as_variable(&su).is_some() || v::into_variable(su.clone()).is_some() {
        return c.violate(format!("{} is taken for a variable", u.text()));
    }
    let shown = if texts.is_empty() { String::new() } else { su.to_string() };
    for (name, t) in &texts {
        if t.trim().is_empty() {
            return c.violate(format!("{}: the error has no message", what(name)));
        }
        if !name.starts_with("substitution") && !t.contains(&shown) {
            return c.violate(format!("{}: the message {:?} does not show {:?}", what(name), t, shown));
        }
    }
    // values
    for (m, s) in [(&e, &se), (&u, &su)] {
        let got = c.sut(
            || format!("asking {} for its value", m.text()),
            || {
                let n = s.clone().to_smart_num();
                let q = s.clone().to_rational();
                let parts = q.map(|q| (q.sign, q.nominator, q.denominator));
                match n {
                    Ok(n) => (Some(N::from_sut(&n)), String::new(), parts),
                    Err(e) => (None, e.to_string(), parts),
                }
            },
        );
        let (n, text, q) = match got {
            Some(x) => x,
            None => return,
        };
        match (m, n) {
            (E::Num(a), Some(b)) if !a.same(b) => return c.violate(format!("the value of {} is {}", m.text(), b.text())),
            (E::Num(_), None) => return c.violate(format!("{} has no value", m.text())),
            (E::Var(_) | E::Op(..), Some(b)) => return c.violate(format!("the value of {} is {}", m.text(), b.text())),
            (E::Var(_) | E::Op(..), None) => {
                if text.trim().is_empty() {
                    return c.violate(format!("asking {} for its value: the error has no message", m.text()));
                }
                c.count("no value");
            }
            _ => c.count("value"),
        }
        if matches!(m, E::Var(_) | E::Op(..)) && q.is_some() {
            return c.violate(format!("the fraction of {} is {:?}", m.text(), q));
        }
    }
    c.sample(|| format!("{}: {}", what("operations"), if is_var { "accepted" } else { "refused" }));
}

// ---------------------------------------------------------------- expressions with singular points

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum K {
    I,
    N,
    Inf,
    Bf,
}

/// Expressions whose behaviour at the point is known by construction; constants are exact, so that
/// the library recognises every zero.
pub struct Sing<'a> {
    pub r: &'a mut Rng,
    pub x: String,
    pub at: N,
}

fn small(r: &mut Rng) -> E {
    let k = match r.below(6) {
        0 => return num(N::Frac(r.chance(30), 1 + r.below(4), 2 + r.below(3))),
        1 => -1,
        2 => -2,
        3 => 1,
        _ => 2 + r.below(3) as i64,
    };
    int(k)
}

impl<'a> Sing<'a> {
    pub fn new(r: &'a mut Rng, x: &str) -> Self {
        let at = match r.below(8) {
            0..=3 => N::Int(0),
            4 => N::Int(r.range(-3, 4)),
            5 => N::Int(1),
            6 => N::Frac(r.chance(40), 1 + r.below(5), 2 + r.below(4)),
            _ => N::Int(-1),
        };
        Sing { r, x: x.to_string(), at }
    }
    /// x - at in some form
    pub fn t(&mut self) -> E {
        let x = var(&self.x);
        let at = num(self.at);
        let minus = match self.at {
            N::Int(i) => N::Int(-i),
            N::Frac(s, a, b) => N::Frac(!s, a, b),
            n => n,
        };
        if self.at.is_exact_zero() {
            return match self.r.below(6) {
                0 => neg(x),
                1 => mul(int(2), x),
                _ => x,
            };
        }
        match self.r.below(5) {
            0 => sub(at, x),
            1 => add(x, num(minus)),
            2 => neg(sub(at, x)),
            3 => add(num(minus), x),
            _ => sub(x, at),
        }
    }
    pub fn i(&mut self, d: usize) -> E {
        if d == 0 {
            return self.t();
        }
        match self.r.below(14) {
            0 | 1 => self.t(),
            2 => un(Op::Sin, self.i(d - 1)),
            3 | 4 => mul(self.i(d - 1), self.i(d - 1)),
            5 => {
                let (a, b) = (self.i(d - 1), self.n(d - 1));
                if self.r.chance(50) {
                    mul(a, b)
                } else {
                    mul(b, a)
                }
            }
            6 => add(self.i(d - 1), self.i(d - 1)),
            7 => sub(self.i(d - 1), self.i(d - 1)),
            8 => sub(un(Op::Exp, self.i(d - 1)), int(1)),
            9 => un(Op::Ln, add(int(1), self.i(d - 1))),
            10 => sub(int(1), un(Op::Cos, self.i(d - 1))),
            11 => mul(self.i(d - 1), self.bf(d - 1)),
            12 => neg(self.i(d - 1)),
            _ => div(self.i(d - 1), self.n(d - 1)),
        }
    }
    pub fn n(&mut self, d: usize) -> E {
        if d == 0 {
            return if !self.at.is_exact_zero() && self.r.chance(30) { var(&self.x) } else { small(self.r) };
        }
        match self.r.below(9) {
            0 => small(self.r),
            1 => un(Op::Cos, self.i(d - 1)),
            2 => un(Op::Exp, self.i(d - 1)),
            3 => mul(self.n(d - 1), self.n(d - 1)),
            4 => div(self.n(d - 1), self.n(d - 1)),
            5 => add(self.n(d - 1), self.i(d - 1)),
            6 => sub(self.i(d - 1), self.n(d - 1)),
            7 => pow(add(int(1), self.i(d - 1)), int(self.r.range(-2, 4))),
            _ => neg(self.n(d - 1)),
        }
    }
    pub fn inf(&mut self, d: usize) -> E {
        let d1 = d.saturating_sub(1);
        if d == 0 {
            return div(self.n(0), self.t());
        }
        match self.r.below(8) {
            0 => mul(self.inf(d1), self.n(d1)),
            1 => add(self.inf(d1), self.bf(d1)),
            2 => sub(self.n(d1), self.inf(d1)),
            3 => mul(self.inf(d1), self.inf(d1)),
            4 => neg(self.inf(d1)),
            5 => add(self.i(d1), self.inf(d1)),
            _ => div(self.n(d1), self.i(d1)),
        }
    }
    pub fn bf(&mut self, d: usize) -> E {
        let d1 = d.saturating_sub(1);
        let f = if self.r.chance(50) { Op::Sin } else { Op::Cos };
        if d == 0 {
            return un(f, self.inf(0));
        }
        match self.r.below(7) {
            0 => mul(self.bf(d1), self.bf(d1)),
            1 => add(self.bf(d1), self.n(d1)),
            2 => sub(self.n(d1), self.bf(d1)),
            3 => un(f, self.bf(d1)),
            4 => mul(self.n(d1), self.bf(d1)),
            _ => un(f, self.inf(d1)),
        }
    }
    pub fn of(&mut self, k: K, d: usize) -> E {
        match k {
            K::I => self.i(d),
            K::N => self.n(d),
            K::Inf => self.inf(d),
            K::Bf => self.bf(d),
        }
    }
    pub fn kind(&mut self) -> K {
        *self.r.pick(&[K::I, K::I, K::N, K::Inf, K::Inf, K::Bf])
    }
    /// Any arithmetic of pieces, indeterminate forms often.
    pub fn any(&mut self, d: usize) -> E {
        let pd = self.r.below(3) as usize;
        if d == 0 {
            let k = self.kind();
            return self.of(k, pd);
        }
        if self.r.chance(12) {
            // functions where they need not be continuous
            let k = self.kind();
            let u = self.of(k, pd);
            return match self.r.below(5) {
                0 | 1 => un(Op::Exp, u),
                2 => un(Op::Ln, u),
                3 => {
                    let k = self.kind();
                    let v = self.of(k, pd);
                    pow(u, v)
                }
                _ => {
                    let v = match self.r.below(3) {
                        0 => int(self.r.range(-3, 4)),
                        1 => num(N::Frac(self.r.chance(40), 1 + self.r.below(4), 2 + self.r.below(3))),
                        _ => self.n(1),
                    };
                    pow(u, v)
                }
            };
        }
        match self.r.below(12) {
            0 | 1 => div(self.i(pd + 1), self.i(pd)),
            2 => div(self.inf(pd), self.inf(pd)),
            3 => mul(self.i(pd), self.inf(pd)),
            4 => sub(self.inf(pd), self.inf(pd)),
            5 => add(self.any(d - 1), self.any(d - 1)),
            6 => sub(self.any(d - 1), self.any(d - 1)),
            7 => mul(self.any(d - 1), self.any(d - 1)),
            8 => div(self.any(d - 1), self.any(d - 1)),
            9 => neg(self.any(d - 1)),
            10 => {
                let f = if self.r.chance(50) { Op::Sin } else { Op::Cos };
                let k = self.kind();
                un(f, self.of(k, pd))
            }
            _ => {
                let k = self.kind();
                self.of(k, pd)
            }
        }
    }
}

pub fn json(e: &E, s: &mut String) {
    match e {
        E::Num(N::Int(i)) => {
            let _ = write!(s, "[\"i\",\"{}\"]", i);
        }
        E::Num(N::Frac(neg, a, b)) => {
            let _ = write!(s, "[\"f\",\"{}{}\",\"{}\"]", if *neg { "-" } else { "" }, a, b);
        }
        E::Num(N::Real(f)) => {
            let _ = write!(s, "[\"r\",\"{:?}\"]", f);
        }
        E::Num(N::Pi) => s.push_str("[\"pi\"]"),
        E::Num(N::E) => s.push_str("[\"e\"]"),
        E::Var(x) => {
            let _ = write!(s, "[\"v\",{}]", js(x));
        }
        E::Op(o, c) => {
            let _ = write!(s, "[\"{}\"", o.name());
            for k in c.iter() {
                s.push(',');
                json(k, s);
            }
            s.push(']');
        }
    }
}

#[derive(Clone, Debug)]
enum L {
    Zero,
    Inf,
    Bounded,
    Value(E),
    None,
}

impl L {
    fn of(r: &Result<LimitExpression, v::NoValidLimitFound>) -> L {
        match r {
            Ok(LimitExpression::Infinitesimal) => L::Zero,
            Ok(LimitExpression::Infinity) => L::Inf,
            Ok(LimitExpression::BoundedFluctuation) => L::Bounded,
            Ok(LimitExpression::Normal(e)) => L::Value(from_sut(e)),
            Err(_) => L::None,
        }
    }
    fn class(&self) -> &'static str {
        match self {
            L::Zero => "zero",
            L::Inf => "infinity",
            L::Bounded => "bounded",
            L::Value(_) => "value",
            L::None => "none",
        }
    }
    fn text(&self) -> String {
        match self {
            L::Value(e) => e.text(),
            l => l.class().to_string(),
        }
    }
}

fn limit_of(c: &mut Ctx, r: &mut Rng, e: &E, x: &str, at: &E, tries: u64) -> Option<L> {
    let (s, sx, sa) = (to_sut(e), Expression::new_variable(x), to_sut(at));
    let by_ref = r.chance(30);
    c.sut(
        || format!("the limit of {} for {} to {} with {} tries", e.text(), x, at.text(), tries),
        || {
            L::of(&if by_ref {
                match v::as_variable(&sx) {
                    Some(x) => v::limit_ref(s, x, sa, tries),
                    None => Err(v::NoValidLimitFound {}),
                }
            } else {
                v::limit(s, sx, sa, tries)
            })
        },
    )
}

/// Continuous at the point: value there, all divisors, bases and arguments of ln clearly fine.
struct Continuous {
    e: E,
    x: String,
    at: E,
    env: Env,
    inner: Env,
    value: B,
    max: f64,
    /// every power has a clearly non-zero base
    plain: bool,
}

fn bases_fine(e: &E, env: &Env) -> bool {
    !e.any(&mut |k| match k {
        E::Op(Op::Pow, c) => !matches!(eval(&c[0], env), Ok(b) if !b.has_zero()),
        _ => false,
    })
}

fn continuous(c: &Ctx, r: &mut Rng) -> Option<Continuous> {
    let ns = names(r, &c.dict, 2, false);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let mut cfg = Cfg::general(&refs);
    cfg.nice_reals = true;
    cfg.int_exponents = 80;
    cfg.var_percent = 65;
    match r.below(4) {
        0 => cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg, Op::Sin, Op::Cos]),
        1 => {
            cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg]);
            cfg.lits = [5, 3, 0, 0];
        }
        2 => cfg.identities = 20,
        _ => {}
    }
    let e = tree(r, &cfg, &c.dict, 14);
    let x = ns[0].clone();
    let at = match r.below(9) {
        0 => int(0),
        1 => int(r.range(-3, 4)),
        2 => num(N::Frac(r.chance(40), 1 + r.below(5), 1 + r.below(5))),
        3 => num(*r.pick(&[N::Pi, N::E])),
        4 => num(N::Real(r.range(-20, 20) as f64 / 8.0)),
        8 => num(N::Real(match r.below(3) {
            0 => r.range(-9, 9) as f64 * 10f64.powi(-(r.range(1, 12) as i32)),
            1 if !c.dict.floats.is_empty() => near_float(r, &c.dict),
            _ => {
                // almost a special value
                let near = *r.pick(&[0.0, 1.0, -1.0, std::f64::consts::PI, std::f64::consts::FRAC_PI_2, 2.0 * std::f64::consts::PI, std::f64::consts::E]);
                near + r.range(-9, 9) as f64 * 10f64.powi(-(r.range(2, 12) as i32))
            }
        })),
        5 => var(&ns[1]),
        6 => bin(*r.pick(&[Op::Add, Op::Mul]), var(&ns[1]), small(r)),
        _ => var("c"),
    };
    if at.mentions(&x) {
        return None;
    }
    let env = point(r, &add(e.clone(), at.clone()));
    let p = eval(&at, &env).ok()?;
    let mut inner = env.clone();
    inner.insert(x.clone(), p);
    let mut ev = Evaluator::new(&inner);
    let value = ev.eval(&e).ok()?;
    let max = ev.max;
    let plain = bases_fine(&e, &inner);
    // continuity of powers: integer constant exponent, or clearly positive base
    let cont = !e.any(&mut |k| match k {
        E::Op(Op::Pow, c) => {
            let positive = matches!(eval(&c[0], &inner), Ok(b) if b.m - b.r > 0.0);
            !(positive || matches!(&c[1], E::Num(N::Int(_))))
        }
        _ => false,
    });
    // zero to a literal power of zero or less is not continuous there
    if !cont || (!plain && e.any(&mut |k| matches!(k, E::Op(Op::Pow, c) if !matches!(&c[1], E::Num(N::Int(i)) if *i > 0) && !matches!(eval(&c[0], &inner), Ok(b) if !b.has_zero())))) {
        return None;
    }
    Some(Continuous { e, x, at, env, inner, value, max, plain })
}

fn show_case(e: &E, x: &str, at: &E, tries: u64, l: &L) -> String {
    format!("the limit of {} for {} to {} with {} tries is {}", e.text(), x, at.text(), tries, l.text())
}

fn check_continuous(c: &mut Ctx, k: &Continuous, tries: u64, l: &L) -> bool {
    let what = || format!("{}; it is continuous there with value {:e} at {}", show_case(&k.e, &k.x, &k.at, tries, l), k.value.m, show_env(&k.env));
    match l {
        L::Zero => {
            if differ(k.value, exact(0.0), k.max) {
                c.violate(what());
                return false;
            }
        }
        L::Inf | L::Bounded => {
            c.violate(what());
            return false;
        }
        L::Value(w) => {
            let mut max = k.max;
            match eval_result(w, &k.env, &mut max) {
                Ok(g) if differ(k.value, g, max) => {
                    c.violate(format!("{}, the reported one {:e}", what(), g.m));
                    return false;
                }
                Err(Bad::Undef) => {
                    c.violate(format!("{}, the reported one is undefined", what()));
                    return false;
                }
                _ => {}
            }
        }
        L::None => {}
    }
    true
}

pub fn c19(c: &mut Ctx, r: &mut Rng) {
    if r.chance(70) {
        if let Some(k) = continuous(c, r) {
            let tries = r.below(4);
            let l = match limit_of(c, r, &k.e, &k.x, &k.at, tries) {
                Some(l) => l,
                None => return,
            };
            c.eval(hash_str(&show_case(&k.e, &k.x, &k.at, tries, &L::None)), !matches!(l, L::None) && k.e.mentions(&k.x) && k.e.nodes() > 1);
            c.count(&format!("continuous: {}", l.class()));
            if check_continuous(c, &k, tries, &l) && k.e.mentions(&k.x) {
                c.sample(|| show_case(&k.e, &k.x, &k.at, tries, &l));
            }
        }
        return;
    }
    let x = names(r, &c.dict, 1, false)[0].clone();
    let d = 1 + r.below(2) as usize;
    let outer = r.below(10);
    let tries = r.below(5);
    let mut g = Sing::new(r, &x);
    let mut e = g.any(d);
    let at = num(g.at);
    let y = if x == "y" { "w" } else { "y" };
    e = match outer {
        0 => mul(var(y), e),
        1 => div(e, var(y)),
        2 => add(e, var(y)),
        3 => sub(var(y), e),
        _ => e,
    };
    if e.nodes() > 40 {
        return;
    }
    let l = match limit_of(c, r, &e, &x, &at, tries) {
        Some(l) => l,
        None => return,
    };
    c.eval(hash_str(&show_case(&e, &x, &at, tries, &L::None)), !matches!(l, L::None));
    c.count(&format!("singular: {}", l.class()));
    if matches!(l, L::None) {
        return;
    }
    if let L::Value(w) = &l {
        if w.mentions(&x) {
            return c.violate(format!("{}, which mentions the variable", show_case(&e, &x, &at, tries, &l)));
        }
    }
    let mut s = String::new();
    let _ = write!(s, "{{\"index\":{},\"var\":{},\"class\":\"{}\",\"text\":{},\"at\":", c.index, js(&x), l.class(), js(&show_case(&e, &x, &at, tries, &l)));
    json(&at, &mut s);
    s.push_str(",\"expr\":");
    json(&e, &mut s);
    if let L::Value(w) = &l {
        s.push_str(",\"value\":");
        json(w, &mut s);
    }
    // outer variables and the offset from the point
    let _ = write!(s, ",\"env\":{{{}:[{},{}]}},\"seed\":{}}}", js(y), r.range(3, 400) * 2 + 1, 64, r.below(1 << 40));
    c.events.push(s);
    c.sample(|| show_case(&e, &x, &at, tries, &l));
}

// ---------------------------------------------------------------- C20

/// Series in t = x - at with rational coefficients; None where the value is not such a series.
type S = Vec<Rat>;

fn s_mul(a: &S, b: &S) -> S {
    (0..a.len()).map(|k| (0..=k).fold(Rat::zero(), |s, i| s.add(&a[i].mul(&b[k - i])))).collect()
}
fn s_div(a: &S, b: &S) -> Option<S> {
    if b[0].is_zero() {
        return None;
    }
    let mut q: S = vec![];
    for k in 0..a.len() {
        let mut s = a[k].clone();
        for i in 0..k {
            s = s.sub(&q[i].mul(&b[k - i]));
        }
        q.push(s.div(&b[0])?);
    }
    Some(q)
}
/// sum of c_k a^k for a with zero constant
fn s_compose(cs: &[Rat], a: &S) -> S {
    let mut out: S = vec![Rat::zero(); a.len()];
    for ck in cs.iter().rev() {
        out = s_mul(&out, a);
        out[0] = out[0].add(ck);
    }
    out
}
fn series(e: &E, x: &str, at: &Rat, n: usize) -> Option<S> {
    let konst = |q: Rat| {
        let mut s = vec![Rat::zero(); n];
        s[0] = q;
        s
    };
    Some(match e {
        E::Num(k) => konst(k.exact()?),
        E::Var(y) if &**y == x => {
            let mut s = konst(at.clone());
            if n > 1 {
                s[1] = Rat::int(1);
            }
            s
        }
        E::Var(_) => return None,
        E::Op(o, c) => {
            let a = series(&c[0], x, at, n)?;
            let f = |k: usize| (1..=k as i64).fold(Rat::int(1), |p, i| p.mul(&Rat::int(i)));
            let inv = |q: Rat| Rat::int(1).div(&q).unwrap();
            match o {
                Op::Neg => a.iter().map(Rat::neg).collect(),
                Op::Add | Op::Sub | Op::Mul | Op::Div => {
                    let b = series(&c[1], x, at, n)?;
                    match o {
                        Op::Add => a.iter().zip(&b).map(|(p, q)| p.add(q)).collect(),
                        Op::Sub => a.iter().zip(&b).map(|(p, q)| p.sub(q)).collect(),
                        Op::Mul => s_mul(&a, &b),
                        _ => s_div(&a, &b)?,
                    }
                }
                Op::Sin | Op::Cos | Op::Exp => {
                    if !a[0].is_zero() {
                        return None;
                    }
                    let cs: Vec<Rat> = (0..n)
                        .map(|k| match (o, k % 4) {
                            (Op::Exp, _) => inv(f(k)),
                            (Op::Sin, 1) | (Op::Cos, 0) => inv(f(k)),
                            (Op::Sin, 3) | (Op::Cos, 2) => inv(f(k)).neg(),
                            _ => Rat::zero(),
                        })
                        .collect();
                    s_compose(&cs, &a)
                }
                Op::Ln => {
                    let mut a = a;
                    a[0] = a[0].sub(&Rat::int(1));
                    if !a[0].is_zero() {
                        return None;
                    }
                    let cs: Vec<Rat> = (0..n)
                        .map(|k| match k {
                            0 => Rat::zero(),
                            k if k % 2 == 1 => inv(Rat::int(k as i64)),
                            k => inv(Rat::int(k as i64)).neg(),
                        })
                        .collect();
                    s_compose(&cs, &a)
                }
                Op::Pow => {
                    let k = match &c[1] {
                        E::Num(N::Int(k)) if k.abs() < 10 => *k,
                        _ => return None,
                    };
                    let mut p = konst(Rat::int(1));
                    for _ in 0..k.abs() {
                        p = s_mul(&p, &a);
                    }
                    if k < 0 {
                        s_div(&konst(Rat::int(1)), &p)?
                    } else {
                        p
                    }
                }
            }
        }
    })
}

/// A vanishing analytic piece without bounded fluctuation.
fn analytic_zero(g: &mut Sing, d: usize) -> E {
    loop {
        let e = match g.r.below(4) {
            0 => {
                let m = 1 + g.r.below(5);
                (1..m).fold(g.t(), |p, _| mul(p, g.t()))
            }
            _ => g.i(d),
        };
        if !e.any(&mut |k| matches!(k, E::Op(Op::Sin | Op::Cos, c) if c[0].any(&mut |q| matches!(q, E::Op(Op::Div, _))))) {
            return e;
        }
    }
}

const TERMS: usize = 11;

fn vanishing(s: &S) -> Option<usize> {
    s.iter().position(|q| !q.is_zero())
}

/// A quotient and its limit: what it is, and the number of differentiations needed.
fn quotient(c: &mut Ctx, g: &mut Sing) -> Option<(E, usize, std::cmp::Ordering, Rat)> {
    let d = g.r.below(3) as usize;
    let num_zero = g.r.chance(90);
    let l = if num_zero { analytic_zero(g, d) } else { g.n(d.min(1)) };
    let r = if g.r.chance(95) { analytic_zero(g, d) } else { g.n(d.min(1)) };
    let at = g.at.exact()?;
    let x = g.x.clone();
    let sl = series(&l, &x, &at, TERMS)?;
    let sr = series(&r, &x, &at, TERMS)?;
    let b = match vanishing(&sr) {
        Some(b) => b,
        None => {
            c.count("skipped: zero divisor");
            return None;
        }
    };
    let a = vanishing(&sl).unwrap_or(usize::MAX);
    let need = a.min(b);
    let value = if a == b { sl[a].div(&sr[b])? } else { Rat::zero() };
    Some((div(l, r), need, a.cmp(&b), value))
}

/// A small quotient that needs several differentiations.
fn high_quotient(g: &mut Sing) -> Option<(E, usize, std::cmp::Ordering, Rat)> {
    let b = 2 + g.r.below(4) as i64;
    let a = b + g.r.below(2) as i64;
    let x = g.t();
    let part = |g: &mut Sing, n: i64| -> E {
        let sine = g.r.below(12) == 0;
        let one_minus_cos = n == 2 && g.r.chance(25);
        if one_minus_cos {
            return sub(int(1), un(Op::Cos, x.clone()));
        }
        let f = |k: i64| if sine && k == 0 { un(Op::Sin, x.clone()) } else { x.clone() };
        (1..n).fold(f(0), |e, k| if g.r.chance(50) { mul(e, f(k)) } else { mul(f(k), e) })
    };
    let (l, r) = (part(g, a), part(g, b));
    let at = g.at.exact()?;
    let sl = series(&l, &g.x, &at, TERMS)?;
    let sr = series(&r, &g.x, &at, TERMS)?;
    let (va, vb) = (vanishing(&sl)?, vanishing(&sr)?);
    let value = if va == vb { sl[va].div(&sr[vb])? } else { Rat::zero() };
    Some((div(l, r), va.min(vb), va.cmp(&vb), value))
}

fn matches_known(l: &L, ord: std::cmp::Ordering, value: &Rat) -> Option<bool> {
    Some(match (l, ord) {
        (L::Inf, std::cmp::Ordering::Less) => true,
        (L::Zero, std::cmp::Ordering::Greater) => true,
        (L::Value(w), std::cmp::Ordering::Equal) => {
            let g = eval_result(w, &Env::new(), &mut 0.0).ok()?;
            let t = of_rat(value).ok()?;
            !differ(g, t, g.m.abs())
        }
        _ => false,
    })
}

/// A number of tries that is enough: the one given, one more, or far more. A limit
/// found with `need` tries takes the same steps with any greater number of them.
fn enough(c: &Ctx, r: &mut Rng, need: u64) -> u64 {
    if r.chance(70) {
        return need + r.below(2);
    }
    let t = match r.below(8) {
        0 => need + r.below(300),
        1 => 256 * (1 + r.below(4)) + r.below(3),
        2 => (1 << *r.pick(&[7, 15, 16, 31, 32, 33, 48, 63])) + r.below(4),
        3 => (1u64 << *r.pick(&[7, 15, 16, 31, 32, 33, 48, 63])) - 1 - r.below(3),
        4 => u64::MAX - r.below(3),
        5 => 1 + r.below(1 << 20),
        _ => match c.dict.ints.is_empty() {
            true => r.next(),
            false => (*r.pick(&c.dict.ints) as u64).wrapping_add(r.below(3)).wrapping_sub(1),
        },
    };
    t.max(need)
}

pub fn c20(c: &mut Ctx, r: &mut Rng) {
    let x = names(r, &c.dict, 1, false)[0].clone();
    match r.below(10) {
        0..=5 => {
            let mut g = Sing::new(r, &x);
            let (e, need, ord, value) = match quotient(c, &mut g) {
                Some(q) => q,
                None => return,
            };
            let at = num(g.at);
            if need > 6 || e.nodes() > 40 || (need > 3 && e.nodes() > 24) || (need > 2 && e.nodes() > 34) {
                c.count("skipped: vanishes to a high order");
                return;
            }
            let tries = enough(c, r, need as u64);
            let l = match limit_of(c, r, &e, &x, &at, tries) {
                Some(l) => l,
                None => return,
            };
            c.eval(hash_str(&show_case(&e, &x, &at, tries, &L::None)), need > 0);
            c.count(&format!("quotient needing {}", need));
            match matches_known(&l, ord, &value) {
                Some(false) => {
                    let want = match ord {
                        std::cmp::Ordering::Less => "infinity".to_string(),
                        std::cmp::Ordering::Greater => "zero".to_string(),
                        _ => value.to_string(),
                    };
                    c.violate(format!("{}; it needs {} differentiations and is {}", show_case(&e, &x, &at, tries, &l), need, want));
                }
                _ => c.sample(|| show_case(&e, &x, &at, tries, &l)),
            }
        }
        6 | 7 => {
            // compositions of sub-expressions with finite limits
            let mut g = Sing::new(r, &x);
            let mut need = 0;
            let mut parts: Vec<E> = vec![];
            for k in 0..1 + g.r.below(3) {
                let p = match g.r.below(3) {
                    0 => match if k == 0 && g.r.chance(40) { high_quotient(&mut g) } else { quotient(c, &mut g) } {
                        Some((e, n, o, v)) if (n <= 2 || k == 0 && n <= 5 && e.nodes() <= 20) && o != std::cmp::Ordering::Less => {
                            need = need.max(n);
                            // functions of it that are continuous at its limit
                            let k = num(N::Int(2 + g.r.below(3) as i64));
                            match g.r.below(8) {
                                0 => un(Op::Exp, e),
                                1 => bin(Op::Pow, k, e),
                                2 if o == std::cmp::Ordering::Equal && v.cmp(&Rat::zero()) == std::cmp::Ordering::Greater => un(Op::Ln, e),
                                3 if o == std::cmp::Ordering::Equal && v.cmp(&Rat::zero()) == std::cmp::Ordering::Greater => bin(Op::Pow, e, k),
                                _ => e,
                            }
                        }
                        _ => return,
                    },
                    1 => g.i(1),
                    _ => g.n(1),
                };
                parts.push(p);
            }
            let mut e = parts.pop().unwrap();
            while let Some(p) = parts.pop() {
                let o = *g.r.pick(&[Op::Add, Op::Sub, Op::Mul]);
                e = if g.r.chance(50) { bin(o, e, p) } else { bin(o, p, e) };
                if g.r.chance(40) {
                    e = un(*g.r.pick(&[Op::Sin, Op::Cos, Op::Neg]), e);
                }
            }
            let at = num(g.at);
            if e.nodes() > 40 {
                return;
            }
            let tries = enough(c, r, need as u64);
            let l = match limit_of(c, r, &e, &x, &at, tries) {
                Some(l) => l,
                None => return,
            };
            c.eval(hash_str(&show_case(&e, &x, &at, tries, &L::None)), e.nodes() > 2);
            c.count("finite composition");
            match &l {
                L::Zero | L::Value(_) => {}
                L::Bounded if e.any(&mut |k| matches!(k, E::Op(Op::Sin | Op::Cos, c) if c[0].any(&mut |q| matches!(q, E::Op(Op::Div, _))))) => {}
                _ => c.violate(format!("{}; it is composed of parts with finite limits", show_case(&e, &x, &at, tries, &l))),
            }
        }
        8 => {
            if let Some(k) = continuous(c, r) {
                if !k.plain {
                    return;
                }
                let tries = enough(c, r, 0);
                let l = match limit_of(c, r, &k.e, &k.x, &k.at, tries) {
                    Some(l) => l,
                    None => return,
                };
                c.eval(hash_str(&show_case(&k.e, &k.x, &k.at, tries, &L::None)), k.e.mentions(&k.x) && k.e.nodes() > 1);
                c.count("continuous");
                if matches!(l, L::None) {
                    return c.violate(format!("{}; it is continuous there with value {:e} at {}", show_case(&k.e, &k.x, &k.at, tries, &l), k.value.m, show_env(&k.inner)));
                }
                check_continuous(c, &k, tries, &l);
            }
        }
        _ => {
            // more tries keep what fewer reported
            let d = 1 + r.below(2) as usize;
            let mut g = Sing::new(r, &x);
            let e = g.any(d);
            let at = num(g.at);
            if e.nodes() > 30 {
                return;
            }
            let mut seen: Option<(u64, L)> = None;
            let most = if e.nodes() > 24 { 2 } else { 4 };
            let mut reported = 0;
            for tries in (0..=most).chain([u64::MAX]) {
                let tries = match (tries, seen.is_some()) {
                    (u64::MAX, true) => enough(c, r, most),
                    (u64::MAX, false) => break,
                    _ => tries,
                };
                let l = match limit_of(c, r, &e, &x, &at, tries) {
                    Some(l) => l,
                    None => return,
                };
                reported += !matches!(l, L::None) as u64;
                match (&seen, &l) {
                    (None, L::None) => {}
                    (None, _) => seen = Some((tries, l)),
                    (Some((t, s)), _) => {
                        let same = match (s, &l) {
                            (L::Value(a), L::Value(b)) => a.same(b) || {
                                match (eval_result(a, &Env::new(), &mut 0.0), eval_result(b, &Env::new(), &mut 0.0)) {
                                    (Ok(p), Ok(q)) => !differ(p, q, p.m.abs()),
                                    _ => true,
                                }
                            },
                            (a, b) => a.class() == b.class(),
                        };
                        if !same {
                            return c.violate(format!("{}; with {} tries it was {}", show_case(&e, &x, &at, tries, &l), t, s.text()));
                        }
                    }
                }
            }
            c.eval(hash_str(&e.text()) ^ hash_str(&at.text()), reported > 0);
            c.count(&format!("reported with {} of {} numbers of tries", reported.min(most + 1), most + 1));
        }
    }
}

// ---------------------------------------------------------------- C21

pub fn c21(c: &mut Ctx, r: &mut Rng) {
    let ns = names(r, &c.dict, 2, false);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let x = ns[0].clone();
    let (e, at) = if r.chance(60) {
        let mut cfg = Cfg::general(&refs);
        cfg.var_percent = 70;
        if r.chance(30) {
            cfg = cfg.with_ops(&[Op::Add, Op::Mul, Op::Div, Op::Sub]);
        }
        let e = tree(r, &cfg, &c.dict, 25);
        let at = match r.below(6) {
            0 | 1 => int(0),
            2 => num(any_num(r, &c.dict)),
            3 => num(*r.pick(&[N::Pi, N::E, N::Real(0.0), N::Int(1), N::Real(f64::INFINITY), N::Real(f64::NAN)])),
            4 => var(r.pick(&ns)),
            _ => tree(r, &cfg, &c.dict, 5),
        };
        (e, at)
    } else {
        let d = 1 + r.below(3) as usize;
        let mut g = Sing::new(r, &x);
        let mut e = g.any(d);
        // functions the generator of pieces avoids
        for _ in 0..g.r.below(3) {
            e = match g.r.below(5) {
                0 => un(Op::Ln, e),
                1 => un(Op::Exp, e),
                2 => pow(e, int(g.r.range(-2, 3))),
                3 => pow(int(2), e),
                _ => neg(e),
            };
        }
        let at = num(g.at);
        (e, at)
    };
    let n = e.nodes();
    let most = match n {
        0..=8 => 5,
        9..=14 => 4,
        15..=25 => 3,
        _ => 2,
    };
    if n > 45 {
        return;
    }
    let tries = r.below(most + 1);
    let l = match limit_of(c, r, &e, &x, &at, tries) {
        Some(l) => l,
        None => return,
    };
    c.eval(hash_str(&show_case(&e, &x, &at, tries, &L::None)), e.mentions(&x) && n > 1);
    c.count(&format!("{} tries: {}", tries, l.class()));
    if let E::Op(o, _) = &e {
        c.count(&format!("root {}", o.name()));
    }
    c.mix(&l.text());
    if let L::Value(w) = &l {
        if !w.well_formed() {
            return c.violate(format!("{}: ill-formed", show_case(&e, &x, &at, tries, &l)));
        }
    }
    c.sample(|| show_case(&e, &x, &at, tries, &l));
}

// ---------------------------------------------------------------- C22

/// Functions of t in each class (value: the one a `Normal` stands for).
fn witness(k: K, which: u64, value: f64, t: f64) -> f64 {
    match k {
        K::I => match which % 7 {
            0 => t,
            1 => t * t,
            2 => t.sin(),
            3 => -3.0 * t,
            4 => t * (1.0 / t).sin(),
            5 => t.abs().sqrt(),
            _ => 0.25 * t * t * t,
        },
        K::Inf => match which % 7 {
            0 => 1.0 / t,
            1 => -1.0 / t,
            2 => 1.0 / (t * t),
            3 => 2.0 / t + (1.0 / t).sin(),
            4 => -0.5 / (t * t),
            5 => 1.0 / t.abs().sqrt(),
            _ => 3.0 - 1.0 / (t * t * t),
        },
        K::Bf => match which % 6 {
            0 => (1.0 / t).sin(),
            1 => (1.0 / t).cos(),
            2 => 2.0 + (1.0 / (t * t)).sin(),
            3 => -0.5 * (1.0 / t).cos(),
            4 => (1.0 / t).sin() + 1.0,
            _ => (1.0 / t).sin() * (0.5 / t).cos(),
        },
        K::N => match which % 5 {
            0 => value,
            1 => value + t,
            2 => value * t.cos(),
            3 => value - t * (1.0 / t).sin(),
            _ => value * (1.0 - t),
        },
    }
}

fn neg_ball(b: B) -> B {
    B { m: -b.m, ..b }
}

fn class_of(k: K, value: &Expression) -> LimitExpression {
    match k {
        K::I => LimitExpression::Infinitesimal,
        K::N => LimitExpression::Normal(value.clone()),
        K::Inf => LimitExpression::Infinity,
        K::Bf => LimitExpression::BoundedFluctuation,
    }
}

/// Forms whose class follows from the operands' classes.
fn determined(o: Op, a: K, b: K) -> Option<K> {
    use K::*;
    Some(match (o, a, b) {
        (Op::Add | Op::Sub, I, k) | (Op::Add | Op::Sub, k, I) => k,
        (Op::Add | Op::Sub, Inf, Bf | N) | (Op::Add | Op::Sub, Bf | N, Inf) => Inf,
        (Op::Add | Op::Sub, Bf, Bf | N) | (Op::Add | Op::Sub, N, Bf) => Bf,
        (Op::Add | Op::Sub, N, N) => N,
        (Op::Mul, I, I | Bf | N) | (Op::Mul, Bf | N, I) => I,
        (Op::Mul, Inf, Inf | N) | (Op::Mul, N, Inf) => Inf,
        (Op::Mul, Bf, Bf | N) | (Op::Mul, N, Bf) => Bf,
        (Op::Mul, N, N) => N,
        (Op::Div, I, Inf | N) | (Op::Div, Bf | N, Inf) => I,
        (Op::Div, Inf, I | N) | (Op::Div, N, I) => Inf,
        (Op::Div, Bf, N) => Bf,
        (Op::Div, N, N) => N,
        _ => return None,
    })
}

pub fn c22(c: &mut Ctx, r: &mut Rng) {
    // the exact number zero as a value divides, and is divided, as what vanishes does
    if r.chance(3) {
        let z = Expression::from(r.pick(&[N::Int(0), N::Frac(true, 0, 1), N::Frac(true, 0, 7)]).to_sut());
        let k = *r.pick(&[K::I, K::Bf]);
        let over = k == K::Bf || r.chance(50);
        let what = if over { format!("({:?}) / (0)", k) } else { format!("(0) / ({:?})", k) };
        let (a, b) = (class_of(k, &z), LimitExpression::Normal(z.clone()));
        if let Some(l) = c.sut(|| what.clone(), || L::of(&if over { a / b } else { b / a })) {
            c.eval(hash_str(&what), true);
            c.count("zero as a value");
            if !matches!(l, L::None) {
                return c.violate(format!("{} is {}, but the classes do not determine it", what, l.class()));
            }
        }
    }
    let kinds = [K::I, K::N, K::Inf, K::Bf];
    let o = *r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg]);
    let (ka, kb) = (*r.pick(&kinds), *r.pick(&kinds));
    // the values that Normal stands for: clearly not zero at the sampled point
    let cfg = {
        let mut cfg = Cfg::general(&["y", "z"]);
        cfg.nice_reals = true;
        cfg
    };
    let draw = |r: &mut Rng| -> Option<(E, Env, B)> {
        for _ in 0..20 {
            let e = match r.below(3) {
                0 => num(any_num(r, &c.dict)),
                1 => tree(r, &cfg, &c.dict, 2),
                _ => tree(r, &cfg, &c.dict, 6),
            };
            let env = point(r, &e);
            if let Ok(b) = eval(&e, &env) {
                if b.m.abs() > 1e-9 && b.m.abs() < 1e9 && b.r < 1e-9 * b.m.abs() {
                    return Some((e, env, b));
                }
            }
        }
        None
    };
    let ((mut ea, mut env, _), (mut eb, envb, _)) = match (draw(r), draw(r)) {
        (Some(a), Some(b)) => (a, b),
        _ => return,
    };
    env.extend(envb);
    if r.chance(20) {
        // values that differ beyond the printed digits only
        let e = if r.chance(50) { int(1) } else { ea.clone() };
        let pair = alike(r, &e);
        ea = pair.0;
        eb = pair.1;
    } else if r.chance(20) {
        // the second a little off the first, its negative or its inverse
        let base = match r.below(4) {
            0 => num(N::Real(r.range(-24, 24) as f64 / 8.0)),
            1 => num(N::Frac(r.chance(50), 1 + r.below(30), 1 + r.below(30))),
            2 => int(*r.pick(&[1, -1, 2, -2, 3, 1000, -5])),
            _ => ea.clone(),
        };
        let v = match eval(&base, &env) {
            Ok(b) if b.m.is_finite() => b.m,
            _ => return,
        };
        let step = match r.below(4) {
            0 if !c.dict.floats.is_empty() => near_float(r, &c.dict),
            1 => 0.0,
            _ => (1.0 + r.unit()) * 10f64.powi(-(r.below(13) as i32)) * if r.chance(50) { 1.0 } else { -1.0 },
        };
        let w = if r.chance(50) { v } else { -v } + step;
        ea = base;
        eb = match r.below(4) {
            0 => add(num(N::Real(w - step)), num(N::Real(step))),
            1 => mul(num(N::Real(w)), un(Op::Cos, int(0))),
            _ => num(N::Real(w)),
        };
        if r.chance(50) {
            std::mem::swap(&mut ea, &mut eb);
        }
    }
    // the two share the point
    let (va, vb) = match (eval(&ea, &env), eval(&eb, &env)) {
        (Ok(a), Ok(b)) if a.m.abs() > 1e-9 && b.m.abs() > 1e-9 && a.m.abs() < 1e9 && b.m.abs() < 1e9 => (a, b),
        _ => return c.count("skipped: no common point") , 
    };
    let (sa, sb) = (to_sut(&ea), to_sut(&eb));
    let (a, b) = (class_of(ka, &sa), class_of(kb, &sb));
    let show = |k: K, e: &E| if k == K::N { e.text() } else { format!("{:?}", k) };
    let what = if o == Op::Neg { format!("-({})", show(ka, &ea)) } else { format!("({}) {} ({})", show(ka, &ea), o.name(), show(kb, &eb)) };
    let res = c.sut(
        || what.clone(),
        || {
            L::of(&match o {
                Op::Neg => Ok(-a),
                Op::Add => a + b,
                Op::Sub => a - b,
                Op::Mul => a * b,
                _ => a / b,
            })
        },
    );
    let l = match res {
        Some(l) => l,
        None => return,
    };
    c.eval(hash_str(&what), true);
    let form = if o == Op::Neg { format!("neg {:?}", ka) } else { format!("{:?} {} {:?}", ka, o.name(), kb) };
    c.count(&format!("{}: {}", form, l.class()));
    let want = if o == Op::Neg { Some(ka) } else { determined(o, ka, kb) };
    let want_class = want.map(|k| match k {
        K::I => "zero",
        K::N => "value",
        K::Inf => "infinity",
        K::Bf => "bounded",
    });
    // whether a sum of two values is zero may be found out or left open where it is
    let open = ka == K::N
        && kb == K::N
        && matches!(o, Op::Add | Op::Sub)
        && matches!(l, L::Zero | L::Value(_))
        && match eval(&bin(o, ea.clone(), eb.clone()), &env) {
            Ok(s) => s.m.abs() <= s.r + 4.0 * f64::EPSILON * va.m.abs().max(vb.m.abs()),
            Err(_) => true,
        };
    if open {
        c.count("sum of values near zero");
    }
    match want_class {
        Some(_) if open => {}
        Some(w) if w != l.class() => return c.violate(format!("{} is {}, should be {}", what, l.class(), w)),
        None => {
            let ok = matches!(l, L::None) || (o == Op::Div && ka == K::Inf && kb == K::Bf && matches!(l, L::Inf));
            if !ok {
                return c.violate(format!("{} is {}, but the classes do not determine it", what, l.class()));
            }
        }
        _ => {}
    }
    // witnesses
    let (x, y) = (va.m, vb.m);
    let value = match &l {
        L::Value(w) => match eval_result(w, &env, &mut 0.0) {
            Ok(b) => {
                let want = match (o, ka, kb) {
                    (Op::Neg, K::N, _) => Ok(neg_ball(va)),
                    (_, K::N, K::N) => eval(&bin(o, ea.clone(), eb.clone()), &env),
                    (_, K::N, _) => Ok(va),
                    (Op::Sub, _, K::N) => Ok(neg_ball(vb)),
                    _ => Ok(vb),
                };
                if let Ok(want) = want {
                    if differ(want, b, va.m.abs().max(vb.m.abs())) {
                        return c.violate(format!("{} is {}: value {:e} instead of {:e} at {}", what, l.text(), b.m, want.m, show_env(&env)));
                    }
                }
                b.m
            }
            Err(Bad::Undef) => return c.violate(format!("{} is {}, which is undefined at {}", what, l.text(), show_env(&env))),
            Err(_) => return c.inconclusive("bounds"),
        },
        _ => 0.0,
    };
    let plain = |v: f64| v.abs() > 1e-2 && v.abs() < 1e2;
    if !matches!(l, L::None) && plain(x) && plain(y) {
        let (wa, wb) = (r.below(70), r.below(60));
        for _ in 0..6 {
            let t = (1.0 + r.unit()) * 1e-14 * if r.chance(50) { 1.0 } else { -1.0 };
            let f = witness(ka, wa, x, t);
            let g = witness(kb, wb, y, t);
            let h = match o {
                Op::Neg => -f,
                Op::Add => f + g,
                Op::Sub => f - g,
                Op::Mul => f * g,
                _ if g == 0.0 => continue,
                _ => f / g,
            };
            let fine = match &l {
                L::Zero => h.abs() < 1e-3,
                L::Inf => h.abs() > 1e3,
                L::Bounded => h.abs() < 1e5,
                _ => (h - value).abs() <= 1e-5 * (1.0 + value.abs()) + 1e-5 * (x.abs() + y.abs()),
            };
            if !fine {
                return c.violate(format!(
                    "{} is {}: for witnesses {:?} {} and {:?} {} it is {:e} at {:e}, values {:e} {:e} of {:e}",
                    what,
                    l.text(),
                    ka,
                    wa % 7,
                    kb,
                    wb % 7,
                    h,
                    t,
                    x,
                    y,
                    value
                ));
            }
            c.count("witness evaluated");
        }
    }
    c.sample(|| format!("{} is {}", what, l.text()));
}

// ---------------------------------------------------------------- C30

/// What a limit is reported as: in final form, without the variable, readable for what it is.
pub fn c30(c: &mut Ctx, r: &mut Rng) {
    let ns = names(r, &c.dict, 2, false);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let x = ns[0].clone();
    let (e, at) = match r.below(10) {
        0..=3 => {
            // mostly continuous, at points written in many ways
            let mut cfg = Cfg::general(&refs);
            cfg.var_percent = 65;
            cfg.patterns = 30;
            if r.chance(60) {
                cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Neg, Op::Sin, Op::Cos, Op::Exp, Op::Pow]);
            }
            let e = match r.below(8) {
                0 => var(r.pick(&ns)),
                1 => num(any_num(r, &c.dict)),
                _ => tree(r, &cfg, &c.dict, 14),
            };
            let at = match r.below(7) {
                0 => int(0),
                1 => num(any_num(r, &c.dict)),
                2 => var(r.pick(&ns)),
                3 => num(*r.pick(&[N::Pi, N::E, N::Real(0.0), N::Real(-0.0), N::Int(1), N::Frac(false, 0, 3), N::Frac(true, 6, 4), N::Frac(false, 8, 2)])),
                4 => int(r.range(-4, 4)),
                _ => tree(r, &cfg, &c.dict, 7),
            };
            (e, at)
        }
        4 => match continuous(c, r) {
            Some(k) if k.x == x => (k.e, k.at),
            Some(k) => return final_form(c, &k.e, &k.x.clone(), &k.at, r),
            None => return,
        },
        _ => {
            let d = 1 + r.below(2) as usize;
            let mut g = Sing::new(r, &x);
            let e = g.any(d);
            let mut at = num(g.at);
            // the point may be written another way
            at = match (g.r.below(6), g.at) {
                (0, _) => add(at, int(0)),
                (1, N::Int(i)) => sub(int(i + 2), int(2)),
                (2, N::Int(i)) => num(N::Frac(i < 0, 3 * i.unsigned_abs(), 3)),
                (3, _) => mul(int(1), at),
                _ => at,
            };
            (e, at)
        }
    };
    final_form(c, &e, &x, &at, r)
}

fn final_form(c: &mut Ctx, e: &E, x: &str, at: &E, r: &mut Rng) {
    if e.nodes() > 32 {
        return;
    }
    let tries = r.below(match e.nodes() {
        0..=12 => 4,
        13..=22 => 3,
        _ => 2,
    });
    let what = format!("the limit of {} for {} to {} with {} tries", e.text(), x, at.text(), tries);
    let (s, sx, sa) = (to_sut(e), Expression::new_variable(x), to_sut(at));
    type Seen = (LimitExpression, String, String, Option<(E, E, String, bool)>);
    let look = |l: LimitExpression| -> Seen {
        let more = match &l {
            LimitExpression::Normal(w) => Some((from_sut(w), from_sut(&v::NumAggregate::num_aggregate(w.clone())), w.to_string(), w.is_zero())),
            _ => None,
        };
        let copy = l.clone();
        (l.clone(), l.to_string(), copy.to_string(), more)
    };
    let got = c.sut(
        || what.clone(),
        || {
            let one = v::limit(s.clone(), sx.clone(), sa.clone(), tries).ok().map(look);
            let two = v::as_variable(&sx).and_then(|w| v::limit_ref(s.clone(), w, sa.clone(), tries).ok()).map(look);
            (one, two)
        },
    );
    let (one, two) = match got {
        Some(g) => g,
        None => return,
    };
    c.eval(hash_str(&what), one.is_some() && e.mentions(x));
    let (a, b) = match (one, two) {
        (None, None) => return c.count("no limit found"),
        (Some(a), Some(b)) => (a, b),
        (a, _) => return c.violate(format!("{}: {} when the variable is given by value only", what, if a.is_some() { "found" } else { "not found" })),
    };
    let (la, lb) = (L::of(&Ok(a.0)), L::of(&Ok(b.0)));
    let same = match (&la, &lb) {
        (L::Value(p), L::Value(q)) => p.same(q),
        _ => la.class() == lb.class(),
    };
    if !same {
        return c.violate(format!("{}: {}, and {} with the variable by reference", what, la.text(), lb.text()));
    }
    c.count(la.class());
    let due = match &a.3 {
        None => match la {
            L::Zero => "0".to_string(),
            L::Inf => "infinity".to_string(),
            _ => "~".to_string(),
        },
        Some(m) => m.2.clone(),
    };
    if a.1 != due || a.2 != due || b.1 != due {
        return c.violate(format!("{} is {}, which reads {:?}, its copy {:?}, should read {:?}", what, la.text(), a.1, a.2, due));
    }
    if let Some((w, again, _, zero)) = &a.3 {
        if *zero || matches!(w, E::Num(n) if n.is_exact_zero()) {
            return c.violate(format!("{} is the value {}: zero is no value but vanishing", what, w.text()));
        }
        let twice_negated = w.any(&mut |k| k.is_op(Op::Neg) && k.kids()[0].is_op(Op::Neg));
        if !w.same(again) && !twice_negated {
            return c.violate(format!("{} is {}, which simplifies further to {}", what, w.text(), again.text()));
        }
        let mut foreign = None;
        w.any(&mut |k| match k {
            E::Var(s) if (**s == *x && !at.mentions(x)) || (!e.mentions(s) && !at.mentions(s)) => {
                foreign = Some(s.to_string());
                true
            }
            _ => false,
        });
        if let Some(s) = foreign {
            return c.violate(format!("{} is {}, which depends on {}", what, w.text(), s));
        }
    }
    c.sample(|| format!("{} is {}", what, la.text()));
}
