//! Simplification (C09, C10), substitution (C12), construction (C26).

use crate::ball::*;
use crate::big::Rat;
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;
use symbolic_rust::verif_hook::{self as v, AstOperand, Cos, Exp, Expression, Ln, NumAggregate, OperatorType, Pow, Sin, SmartNum, ToRational, ToSmartNum};

/// A sampled value; exact as a double.
pub fn coord(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => r.range(-4, 6) as f64,
        4 => r.range(1, 9) as f64,
        5 => r.range(-40, 40) as f64 / 8.0,
        6 | 7 => r.range(1, 40) as f64 / 8.0,
        8 => r.unit() * 6.0 - 3.0,
        9 => 50.0 * r.unit(),
        _ => 0.05 + r.unit() * 3.0,
    }
}

pub fn point(r: &mut Rng, e: &E) -> Env {
    let plain = r.chance(30);
    e.vars().iter().map(|x| (x.to_string(), exact(if plain { 0.25 + r.unit() * 2.0 } else { coord(r) }))).collect()
}

pub fn rat_point(r: &mut Rng, e: &E) -> BTreeMap<String, Rat> {
    e.vars()
        .iter()
        .map(|x| {
            let v = match r.below(4) {
                0 => Rat::int(r.range(-3, 5)),
                _ => Rat::frac(r.chance(50), r.below(20), 1 + r.below(12)),
            };
            (x.to_string(), v)
        })
        .collect()
}

pub fn show_env(env: &Env) -> String {
    env.iter().map(|(k, b)| format!("{}={:?}", k, b.m)).collect::<Vec<_>>().join(" ")
}

/// Every subexpression evaluates exactly and fits the number type.
fn all_fit(e: &E, env: &BTreeMap<String, Rat>) -> Option<Rat> {
    for k in e.kids() {
        all_fit(k, env)?;
    }
    let q = eval_rat(e, env)?;
    if q.as_i64().is_some() || q.fits() {
        Some(q)
    } else {
        None
    }
}

/// Products and quotients of factors of very different size, in range as they are grouped but not in other groupings.
fn scales(r: &mut Rng, ns: &[&str]) -> E {
    let mut m = 0i64;
    let mut e = if r.chance(60) { var(r.pick(ns)) } else { un(Op::Sin, var(r.pick(ns))) };
    for _ in 0..r.range(2, 6) {
        let k = loop {
            let k = r.range(-290, 290);
            if (m + k).abs() < 280 {
                break k;
            }
        };
        // a factor of about 10^k, sometimes one that no arithmetic folds
        let f = match r.below(4) {
            0 => un(Op::Exp, int((k as f64 * std::f64::consts::LN_10) as i64)),
            _ => num(N::Real(10f64.powi(k as i32) * (if r.chance(20) { -1.0 } else { 1.0 }))),
        };
        m += k;
        e = match r.below(4) {
            0 => mul(e, f),
            1 | 2 => mul(f, e),
            _ if m.abs() < 280 && m != k => {
                // the reciprocal
                m -= k;
                match r.below(2) {
                    0 if (m - k).abs() < 280 => {
                        m -= k;
                        div(e, f)
                    }
                    _ if (k - m).abs() < 280 => {
                        m = k - m;
                        div(f, e)
                    }
                    _ => e,
                }
            }
            _ => mul(f, e),
        };
        if r.chance(15) {
            e = neg(e);
        }
    }
    e
}

fn workload(r: &mut Rng, c: &Ctx) -> E {
    let ns = names(r, &c.dict, 3, false);
    let ns: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let mut cfg = Cfg::general(&ns).with_deep(12, 700);
    let max = match r.below(10) {
        0..=5 => 12,
        6..=8 => 30,
        _ => 80,
    };
    match r.below(9) {
        8 => return scales(r, &ns),
        0 => {
            cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg]);
            cfg.lits = [3, 3, 0, 0];
        }
        1 => {
            cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg, Op::Pow]);
            cfg.lits = [3, 2, 0, 0];
            cfg.int_exponents = 80;
        }
        2 => {
            cfg.var_percent = 15;
        }
        3 => cfg.patterns = 60,
        4 => {
            cfg.patterns = 40;
            cfg.identities = 25;
        }
        5 => {
            cfg.var_percent = 30;
            cfg.patterns = 35;
            cfg.identities = 10;
        }
        6 => {
            cfg.big = 2;
        }
        _ => cfg.identities = 50,
    }
    tree(r, &cfg, &c.dict, max)
}

/// Compares two expressions at one point; Err on a clear difference.
pub enum Cmp {
    Same,
    OutsideDomain,
    Unclear,
    Differ(String),
}

pub fn compare(a: &E, b: &E, env: &Env) -> Cmp {
    let mut ea = Evaluator::new(env);
    let x = match ea.eval(a) {
        Ok(x) => x,
        Err(Bad::Undef) => return Cmp::OutsideDomain,
        Err(Bad::Unclear) => return Cmp::Unclear,
    };
    let mut eb = Evaluator::new(env);
    match eb.eval(b) {
        Ok(y) => {
            if differ(x, y, ea.max.max(eb.max)) {
                Cmp::Differ(format!("{:e} +- {:.0e} and {:e} +- {:.0e}", x.m, x.r, y.m, y.r))
            } else {
                Cmp::Same
            }
        }
        Err(Bad::Undef) => Cmp::Differ(format!("{:e} and undefined", x.m)),
        Err(Bad::Unclear) => Cmp::Unclear,
    }
}

pub fn c09(c: &mut Ctx, r: &mut Rng) {
    let e = workload(r, c);
    let x = to_sut(&e);
    let s = match c.sut(|| format!("simplifying {}", e.text()), move || x.num_aggregate()) {
        Some(s) => from_sut(&s),
        None => return,
    };
    if !s.well_formed() {
        return c.violate(format!("{} simplifies to the ill-formed {}", e.text(), s.text()));
    }
    if !s.vars().is_subset(&e.vars()) {
        return c.violate(format!("{} simplifies to {}, which has new variables", e.text(), s.text()));
    }
    let changed = !e.same(&s);
    let mut decided = 0;
    for _ in 0..4 {
        let env = point(r, &e);
        match compare(&e, &s, &env) {
            Cmp::Same => decided += 1,
            Cmp::OutsideDomain => {}
            Cmp::Unclear => c.inconclusive("bounds"),
            Cmp::Differ(m) => return c.violate(format!("{} simplifies to {}: at {} values {}", e.text(), s.text(), show_env(&env), m)),
        }
    }
    if e.only_exact_numbers() {
        for _ in 0..2 {
            let env = rat_point(r, &e);
            if let Some(q) = all_fit(&e, &env) {
                match eval_rat(&s, &env) {
                    Some(p) if p.cmp(&q) == std::cmp::Ordering::Equal => {
                        decided += 1;
                        c.count("compared exactly");
                    }
                    p => {
                        return c.violate(format!(
                            "{} simplifies to {}: at {} values {} and {}",
                            e.text(),
                            s.text(),
                            env.iter().map(|(k, b)| format!("{}={}", k, b.to_string())).collect::<Vec<_>>().join(" "),
                            q.to_string(),
                            p.map_or("nothing exact".into(), |p| p.to_string())
                        ))
                    }
                }
            }
        }
    }
    c.count(if decided > 0 { "value compared" } else { "defined nowhere sampled" });
    if changed {
        c.count(&format!("changed, root {}", if let E::Op(o, _) = &e { o.name() } else { "leaf" }));
    }
    c.eval(e.hash(), changed && decided > 0);
    if changed {
        c.sample(|| format!("{}  =>  {}  same value at {} points", e.text(), s.text(), decided));
    }
}

fn is_const_like(e: &E, k: f64) -> bool {
    matches!(e, E::Num(n) if n.to_f64() == k)
}

/// What simplification should have folded, and how often a negation stands in a negation.
fn leftover(s: &E) -> (Option<String>, usize) {
    let mut bad: Option<String> = None;
    let mut negneg = 0;
    s.visit(&mut |x| {
        let k = x.kids();
        let o = match x {
            E::Op(o, _) => *o,
            _ => return,
        };
        let mut say = |m: &str| bad = Some(format!("{} in {}", m, x.text()));
        match o {
            Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Neg if k.iter().all(E::is_num) => say("number arithmetic left"),
            Op::Add | Op::Sub if k[0].is_exact_zero() || k[1].is_exact_zero() => say("zero added or subtracted"),
            Op::Mul if k.iter().any(|y| y.is_exact_zero() || y.is_exact_one()) => say("multiplication by zero or one"),
            Op::Div if k[0].is_exact_zero() => say("division of zero"),
            Op::Pow if k[1].is_exact_zero() || k[1].is_exact_one() => say("power zero or one"),
            Op::Pow if k[0].is_exact_one() => say("power of one"),
            Op::Pow if k[0].is_exact_zero() && matches!(&k[1], E::Num(n) if n.to_f64() > 0.0) => say("positive power of zero"),
            Op::Neg if k[0].is_op(Op::Neg) => negneg += 1,
            Op::Exp if k[0].is_exact_zero() || k[0].is_exact_one() => say("exp of zero or one"),
            Op::Exp if k[0].is_op(Op::Ln) => say("exp of ln"),
            Op::Ln if k[0].is_op(Op::Exp) => say("ln of exp"),
            Op::Ln if k[0].is_exact_one() || matches!(k[0], E::Num(N::E)) => say("ln of one or e"),
            Op::Sin | Op::Cos if k[0].is_exact_zero() || matches!(k[0], E::Num(N::Pi)) => say("sin or cos of zero or pi"),
            _ => {}
        }
    });
    (bad, negneg)
}

pub fn c10(c: &mut Ctx, r: &mut Rng) {
    let e = workload(r, c);
    let x = to_sut(&e);
    let s = match c.sut(|| format!("simplifying {}", e.text()), move || x.num_aggregate()) {
        Some(s) => s,
        None => return,
    };
    let (simple, s) = (s.clone(), from_sut(&s));
    let what = format!("{} simplifies to {}", e.text(), s.text());
    let (n, m) = (e.nodes(), s.nodes());
    c.eval(e.hash(), n > m || s.nodes() > 8);
    c.sample(|| what.clone());
    c.count(if m < n { "shrunk" } else { "same size" });
    if m > n {
        return c.violate(format!("{}: {} nodes from {}", what, m, n));
    }
    let (mut bad, negneg) = leftover(&s);
    if negneg > 0 {
        // what subtraction from something that simplifies to zero may leave behind
        let mut allowed = 0;
        e.visit(&mut |x| {
            if x.is_op(Op::Sub) {
                allowed += 1;
            }
        });
        if negneg > allowed {
            bad = Some("double negation left".into());
        }
    }
    if let Some(m) = bad {
        return c.violate(format!("{}: {}", what, m));
    }
    let arithmetic = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg];
    if e.closed() && e.only_ops(&arithmetic) {
        c.count("closed arithmetic");
        if !s.is_num() {
            return c.violate(format!("{}, not to one number", what));
        }
    }
    // what is simplified stays as it is when simplified again
    if negneg == 0 && r.chance(50) {
        match c.sut(|| format!("simplifying {}", s.text()), move || simple.num_aggregate()) {
            Some(t) => {
                let t = from_sut(&t);
                c.count("simplified twice");
                if !t.same(&s) {
                    return c.violate(format!("{}, and that to {}", what, t.text()));
                }
            }
            None => return,
        }
    }
    // derivatives and coefficients come simplified
    if n <= 60 && r.chance(30) {
        let x = e.vars().first().map(|v| v.to_string()).unwrap_or("x".to_string());
        let (se, xv) = (to_sut(&e), Expression::new_variable(&x));
        let expand = n <= 20 && r.chance(40);
        let at = match r.below(3) {
            0 => int(r.range(-2, 2)),
            1 => num(any_num(r, &c.dict)),
            _ => var("a"),
        };
        let order = r.below(4);
        let what = if expand { format!("the expansion of {} in {} at {} to order {}", e.text(), x, at.text(), order) } else { format!("the derivative of {} by {}", e.text(), x) };
        let sa = to_sut(&at);
        let res = c.sut(
            || what.clone(),
            move || {
                if expand {
                    let p = v::taylor(se, xv, sa, order)?;
                    let mut l: Vec<E> = p.coefficient.iter().map(from_sut).collect();
                    l.push(from_sut(&p.residual));
                    Ok::<_, String>(l)
                } else {
                    Ok(vec![from_sut(&v::derivative(se, xv)?)])
                }
            },
        );
        if let Some(Ok(l)) = res {
            c.count(if expand { "expansion in simplified form" } else { "derivative in simplified form" });
            for (k, d) in l.iter().enumerate() {
                if let (Some(m), _) = leftover(d) {
                    return c.violate(format!("{}: part {} is {}: {}", what, k, d.text(), m));
                }
            }
        }
    }
    // a subexpression made of closed arithmetic is folded where it stands: every maximal one of
    // the input, simplified alone, is a number
    let fs = [Op::Sin, Op::Cos, Op::Exp, Op::Ln];
    let f = *r.pick(&fs);
    let n = any_num(r, &c.dict);
    let special = [0.0, 1.0, std::f64::consts::PI, std::f64::consts::E].iter().any(|k| is_const_like(&num(n), *k));
    if !special && n.to_f64().is_finite() {
        let y = var("y");
        let g = match r.below(4) {
            0 => un(f, num(n)),
            1 => add(un(f, num(n)), y),
            2 => mul(y, un(f, num(n))),
            _ => un(Op::Sin, div(un(f, num(n)), y)),
        };
        let x = to_sut(&g);
        if let Some(h) = c.sut(|| format!("simplifying {}", g.text()), move || x.num_aggregate()) {
            let h = from_sut(&h);
            c.eval(g.hash(), true);
            c.count("function of a number kept");
            if !h.same(&g) {
                c.violate(format!("{} simplifies to {}: the function of a number is not left as it is", g.text(), h.text()));
            }
        }
    }
}

pub fn c12(c: &mut Ctx, r: &mut Rng) {
    let ns = names(r, &c.dict, 4, false);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let mut cfg = Cfg::general(&refs).with_deep(12, 700);
    cfg.identities = 4;
    let e = {
        let max = if r.chance(15) { 120 } else { 25 };
        tree(r, &cfg, &c.dict, max)
    };
    let present: Vec<String> = e.vars().iter().map(|s| s.to_string()).collect();
    let u = if present.is_empty() || r.chance(10) { r.pick(&ns).clone() } else { r.pick(&present).clone() };
    let absent = r.chance(10);
    let u = if absent { format!("{}_", u) } else { u };
    let w = match r.below(6) {
        0 => var(&u),
        1 => num(any_num(r, &c.dict)),
        2 => var(r.pick(&ns)),
        3 => {
            // mentions the variable itself
            let t = tree(r, &cfg, &c.dict, 6);
            add(var(&u), t)
        }
        _ => tree(r, &cfg, &c.dict, 10),
    };
    let what = format!("{} with {} := {}", e.text(), u, w.text());
    let want = e.replace(&u, &w);
    let (x, t) = (to_sut(&e), to_sut(&w));
    let uv = Expression::new_variable(&u);
    let res = c.sut(
        || format!("substituting in {}", what),
        || {
            let var_form = v::as_variable(&uv).ok_or("a variable is not seen as one".to_string())?;
            Ok::<_, String>([
                v::substitute_var(x.clone(), var_form, &t)?,
                v::substitute_ref(x.clone(), &uv, &t)?,
                v::substitute(x.clone(), uv.clone(), t.clone())?,
            ])
        },
    );
    c.eval(e.hash() ^ w.hash(), e.mentions(&u));
    c.count(if !e.mentions(&u) {
        "variable absent"
    } else if w.mentions(&u) {
        "replacement mentions the variable"
    } else {
        "plain"
    });
    match res {
        None => {}
        Some(Err(m)) => c.violate(format!("{} refused: {}", what, m)),
        Some(Ok(gs)) => {
            c.sample(|| format!("{} = {}", what, want.text()));
            for g in gs.iter().map(from_sut) {
                if !g.same(&want) {
                    return c.violate(format!("{} gives {}, expected {}", what, g.text(), want.text()));
                }
            }
            // the arguments are untouched
            if !from_sut(&x).same(&e) || !from_sut(&t).same(&w) {
                c.violate(format!("{} changed its arguments", what));
            }
        }
    }
    // numbers keep their recognition
    let k = num(*r.pick(&[N::Pi, N::E, N::Int(0), N::Int(1), N::Frac(false, 2, 2), N::Real(1.0)]));
    let g = mul(var(&u), k.clone());
    let x = to_sut(&g);
    let t = to_sut(&k);
    if let Some(Ok(h)) = c.sut(|| format!("substituting in {}", g.text()), || v::substitute_ref(x, &uv, &t)) {
        let f = |x: &Expression| [x.is_zero(), x.is_one(), x.is_pi(), x.is_e()];
        let kids = v::children(&h);
        if kids.len() != 2 || f(&kids[0]) != f(&t) || f(&kids[1]) != f(&t) {
            c.violate(format!("{} with {} := {} loses what the number is", g.text(), u, k.text()));
        }
    }
}

fn op_of(t: Op) -> OperatorType {
    match t {
        Op::Neg => OperatorType::Neg,
        Op::Add => OperatorType::Add,
        Op::Sub => OperatorType::Sub,
        Op::Mul => OperatorType::Mul,
        Op::Div => OperatorType::Div,
        Op::Sin => OperatorType::Sin,
        Op::Cos => OperatorType::Cos,
        Op::Exp => OperatorType::Exp,
        Op::Ln => OperatorType::Ln,
        Op::Pow => OperatorType::Pow,
    }
}

fn is_root(x: &Expression, o: Op) -> bool {
    match v::root(x) {
        v::Root::Operator(t) => Op::from_sut(&t) == o && format!("{:?}", t) == format!("{:?}", op_of(o)),
        _ => false,
    }
}

fn shape_problem(x: &Expression, e: &E) -> Option<String> {
    let (operand, operator, numb) = (x.is_operand(), x.is_operator(), x.is_num());
    let name = v::as_variable(x).map(|w| w.name.clone());
    let owned = v::into_variable(x.clone()).map(|w| w.name);
    if name != owned {
        return Some(format!("variable views differ: {:?} {:?}", name, owned));
    }
    let want = match e {
        E::Num(_) => (true, false, true, None),
        E::Var(s) => (true, false, false, Some(s.to_string())),
        E::Op(..) => (false, true, false, None),
    };
    if (operand, operator, numb, name.clone()) != want {
        return Some(format!("operand {} operator {} number {} variable {:?}", operand, operator, numb, name));
    }
    if x.to_smart_num().is_ok() != numb {
        return Some("numeric view disagrees with is_num".into());
    }
    None
}

pub fn c26(c: &mut Ctx, r: &mut Rng) {
    let ns = names(r, &c.dict, 3, false);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let mut cfg = Cfg::general(&refs).with_deep(8, 700);
    cfg.patterns = 40;
    cfg.big = 2;
    let a = tree(r, &cfg, &c.dict, 14);
    let b = match r.below(5) {
        0 => a.clone(),
        1 => num(any_num(r, &c.dict)),
        _ => tree(r, &cfg, &c.dict, 14),
    };
    for o in ALL_OPS {
        let want = if o.arity() == 2 { bin(o, a.clone(), b.clone()) } else { un(o, a.clone()) };
        let (x, y) = (to_sut(&a), to_sut(&b));
        let built = c.sut(
            || format!("building {}", want.text()),
            || {
                let mut alts: Vec<Expression> = vec![];
                let z = match o {
                    Op::Add => x.clone() + y.clone(),
                    Op::Sub => x.clone() - y.clone(),
                    Op::Mul => x.clone() * y.clone(),
                    Op::Div => x.clone() / y.clone(),
                    Op::Neg => -x.clone(),
                    Op::Pow => x.clone().pow(y.clone()),
                    Op::Sin => {
                        alts.push((&x).sin());
                        alts.push(v::sin(x.clone()));
                        x.clone().sin()
                    }
                    Op::Cos => {
                        alts.push((&x).cos());
                        alts.push(v::cos(x.clone()));
                        x.clone().cos()
                    }
                    Op::Exp => {
                        alts.push(v::exp(x.clone()));
                        x.clone().exp()
                    }
                    Op::Ln => {
                        alts.push(v::ln(x.clone()));
                        x.clone().ln()
                    }
                };
                (z, alts)
            },
        );
        c.eval(want.hash(), a.nodes() > 1);
        if let Some((z, alts)) = built {
            c.count(o.name());
            for z in std::iter::once(&z).chain(alts.iter()) {
                if !is_root(z, o) {
                    return c.violate(format!("building {} gives another operator", want.text()));
                }
                let kids: Vec<E> = v::children(z).iter().map(from_sut).collect();
                if kids.len() != o.arity() || !kids[0].same(&a) || (o.arity() == 2 && !kids[1].same(&b)) {
                    return c.violate(format!("building {} gives {}", want.text(), from_sut(z).text()));
                }
                if let Some(m) = shape_problem(z, &want) {
                    return c.violate(format!("{}: {}", want.text(), m));
                }
            }
            c.sample(|| want.text());
        }
    }
    for e in [&a, &b] {
        let x = to_sut(e);
        if let Some(Some(m)) = c.sut(|| format!("inspecting {}", e.text()), || shape_problem(&x, e)) {
            return c.violate(format!("{}: {}", e.text(), m));
        }
        // clones are equal and independent
        if let Some(y) = c.sut(|| "cloning".into(), || x.clone()) {
            drop(x);
            if !from_sut(&y).same(e) {
                return c.violate(format!("a clone of {} is {}", e.text(), from_sut(&y).text()));
            }
        }
    }
    // leaves by every accepted argument type, alone and as function argument or exponent
    let i = interesting_i64(r, &c.dict);
    let u = i.unsigned_abs();
    let f = interesting_f64(r, &c.dict);
    let n = any_num(r, &c.dict);
    let name = ns[0].clone();
    let x = Expression::new_variable(&name);
    let got = c.sut(
        || format!("leaves from {} {:?} {}", i, f, n.text()),
        || {
            let p = |q: Expression| x.clone().pow(q);
            vec![
                (v::sin(i as i8), Op::Sin, N::Int(i as i8 as i64)),
                (v::cos(u as u8), Op::Cos, N::Int(u as u8 as i64)),
                (v::exp(Expression::from(i as i16)), Op::Exp, N::Int(i as i16 as i64)),
                (v::ln(Expression::from(u as u16)), Op::Ln, N::Int(u as u16 as i64)),
                (v::sin(i as i32), Op::Sin, N::Int(i as i32 as i64)),
                (v::cos(u as u32), Op::Cos, N::Int(u as u32 as i64)),
                (v::exp(Expression::from(i)), Op::Exp, N::Int(i)),
                (v::ln(Expression::from(u >> 1)), Op::Ln, N::Int((u >> 1) as i64)),
                (v::sin(f), Op::Sin, N::Real(f)),
                (v::cos(f as f32), Op::Cos, N::Real(f as f32 as f64)),
                (v::exp(Expression::from(n.to_sut())), Op::Exp, n),
                (v::ln(Expression::from(n.to_sut())), Op::Ln, n),
                (v::cos(AstOperand::from(n.to_sut())), Op::Cos, n),
                (x.clone().pow(i), Op::Pow, N::Int(i)),
                (x.clone().pow(i as i32), Op::Pow, N::Int(i as i32 as i64)),
                (x.clone().pow(u as u8), Op::Pow, N::Int(u as u8 as i64)),
                (x.clone().pow(f), Op::Pow, N::Real(f)),
                (x.clone().pow(n.to_sut()), Op::Pow, n),
                (p(Expression::from(n.to_sut())), Op::Pow, n),
            ]
        },
    );
    if let Some(list) = got {
        for (z, o, n) in list {
            let e = if o == Op::Pow { pow(var(&name), num(n)) } else { un(o, num(n)) };
            let g = from_sut(&z);
            let same = g.same(&e)
                || match (g.kids().last(), n) {
                    // a not-a-number keeps no sign
                    (Some(E::Num(N::Real(a))), N::Real(b)) => a.is_nan() && b.is_nan(),
                    (Some(E::Num(m)), N::Real(b)) => m.to_f64() == b && (b == std::f64::consts::PI || b == std::f64::consts::E),
                    _ => false,
                };
            c.eval(e.hash(), true);
            if !same || !is_root(&z, o) {
                return c.violate(format!("building {} gives {}", e.text(), g.text()));
            }
        }
    }
    // operands and variables
    let probe = c.sut(
        || format!("operands for {}", name),
        || {
            let vo = AstOperand::new_variable(&name);
            let no = AstOperand::from(n.to_sut());
            let ve = Expression::from(vo.clone());
            let a = [vo.is_num(), no.is_num()];
            let b = [(&vo).to_smart_num().is_err(), vo.clone().to_smart_num().is_err(), (&no).to_smart_num().is_ok()];
            let t = [vo.to_string(), ve.to_string(), x.to_string()];
            let var: Option<&v::Variable> = (&vo).into();
            let var_name = var.map(|w| w.name.clone());
            let none: Option<&v::Variable> = (&no).into();
            let own: Option<v::Variable> = vo.clone().into();
            let back = own.clone().map(|w| from_sut(&Expression::from(w)));
            let rat = [(&ve).to_rational().is_none(), ve.clone().to_rational().is_none(), (-ve.clone()).to_rational().is_none()];
            (a, b, t, var_name, none.is_none(), own.map(|w| w.name), back, rat)
        },
    );
    if let Some((a, b, t, vn, none, own, back, rat)) = probe {
        let ok = a == [false, true]
            && b == [true; 3]
            && t.iter().all(|s| *s == name)
            && vn.as_deref() == Some(&name)
            && none
            && own.as_deref() == Some(&name)
            && back.map_or(false, |e| e.same(&var(&name)))
            && rat == [true; 3];
        if !ok {
            c.violate(format!("the variable {:?} or the operand {} is not seen as built", name, n.text()));
        }
    }
    let _ = SmartNum::zero;
}

/// Repeated differentiation squares denominators: the numbers of `got` left the range of doubles, or nearly so,
/// because those of `e` are far from one.
pub fn overflowed(e: &E, order: u64, got: &E) -> bool {
    let mut spread = 0.0;
    e.visit(&mut |x| {
        if let E::Num(n) = x {
            let f = n.to_f64().abs();
            if f > 0.0 && f.is_finite() {
                spread += f.log10().abs();
            }
        }
    });
    spread * (1u64 << order.min(6)) as f64 > 250.0
        && got.any(&mut |x| match x {
            E::Num(n) => {
                let f = n.to_f64().abs();
                f != 0.0 && !(f > 1e-100 && f < 1e100)
            }
            _ => false,
        })
}
