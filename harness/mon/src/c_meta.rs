//! Operations in concert: names (C27), sequences of operations (C28), builds (C29).

use crate::ball::*;
use crate::c_calc::eval_result;
use crate::c_sim::{coord, overflowed, show_env};
use crate::c_sys::Plan;
use crate::ctx::{js, Ctx};
use crate::gen::*;
use crate::model::*;
use crate::rng::{hash_str, Rng};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::rc::Rc;
use symbolic_rust::verif_hook::{self as v, Cos, Exp, Expression, LimitExpression, Ln, NumAggregate, Pow, Sin, ToRational, ToSmartNum};

// ---------------------------------------------------------------- C27

const TOKENS: [&str; 4] = ["q0z", "q1z", "q2z", "q3z"];

fn rename(e: &E, to: &BTreeMap<&str, String>) -> E {
    match e {
        E::Var(s) => to.get(&**s).map_or(e.clone(), |n| var(n)),
        E::Op(o, c) => E::Op(*o, Rc::new(c.iter().map(|x| rename(x, to)).collect())),
        E::Num(_) => e.clone(),
    }
}

/// Tokens in a text replaced at once.
fn rename_text(s: &str, to: &BTreeMap<&str, String>) -> String {
    let mut out = String::new();
    let mut rest = s;
    while !rest.is_empty() {
        match TOKENS.iter().find(|t| rest.starts_with(**t)) {
            Some(t) => {
                out.push_str(to.get(t).map_or(t, |n| n.as_str()));
                rest = &rest[t.len()..];
            }
            None => {
                let c = rest.chars().next().unwrap();
                out.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }
    }
    out
}

/// What an operation gives: trees and texts.
#[derive(Clone)]
enum Out {
    Tree(E),
    Text(String),
    Fact(String),
}

const OPERATIONS: [&str; 9] = ["simplify", "derive", "substitute", "expand", "limit", "print", "inspect", "second derivative", "swap"];

fn operate(what: &str, e: &E, b: &E, names: &[String], i: usize, n: u64) -> Vec<Out> {
    let s = to_sut(e);
    let x = Expression::new_variable(&names[i]);
    let tree = |r: Result<Expression, String>| match r {
        Ok(t) => vec![Out::Tree(from_sut(&t)), Out::Text(t.to_string())],
        Err(_) => vec![Out::Fact("refused".into())],
    };
    match what {
        "simplify" => tree(Ok(s.num_aggregate())),
        "derive" => tree(match n % 3 {
            0 => v::derivative(s, x),
            1 => v::derivative_ref(s, &x),
            _ => match v::as_variable(&x) {
                Some(w) => v::derivative_var(s, w),
                None => Err("no variable".into()),
            },
        }),
        "second derivative" => {
            let y = Expression::new_variable(&names[(i + n as usize) % names.len()]);
            tree(v::derivative(s, x).and_then(|t| v::derivative(t, y)))
        }
        "substitute" => tree(match n % 3 {
            0 => v::substitute(s, x, to_sut(b)),
            1 => v::substitute_ref(s, &x, &to_sut(b)),
            _ => match v::as_variable(&x) {
                Some(w) => v::substitute_var(s, w, &to_sut(b)),
                None => Err("no variable".into()),
            },
        }),
        "swap" => {
            // one name for another, and back
            let y = Expression::new_variable(&names[(i + 1) % names.len()]);
            let z = Expression::new_variable(&names[(i + 2) % names.len()]);
            tree(v::substitute_ref(s, &x, &z).and_then(|t| v::substitute_ref(t, &y, &x)).and_then(|t| v::substitute_ref(t, &z, &y)))
        }
        "expand" => match v::taylor(s, x, to_sut(b), n) {
            Ok(p) => {
                let mut o: Vec<Out> = p.coefficient.iter().map(|k| Out::Tree(from_sut(k))).collect();
                o.push(Out::Tree(from_sut(&p.residual)));
                o.push(Out::Tree(from_sut(&p.of)));
                o.push(Out::Tree(from_sut(&p.at)));
                o.push(Out::Text(p.to_string()));
                o
            }
            Err(_) => vec![Out::Fact("refused".into())],
        },
        "limit" => match v::limit(s, x, to_sut(b), n) {
            Ok(LimitExpression::Normal(t)) => vec![Out::Tree(from_sut(&t)), Out::Text(LimitExpression::Normal(t).to_string())],
            Ok(l) => vec![Out::Fact(l.to_string())],
            Err(_) => vec![Out::Fact("none".into())],
        },
        "print" => vec![Out::Text(s.to_string()), Out::Text(format!("{}", x))],
        _ => {
            let f = [s.is_num(), s.is_operand(), s.is_operator(), s.is_zero(), s.is_one(), s.is_pi(), s.is_e()];
            let near = s.near(&to_sut(b), 0.5).ok();
            let val = (&s).to_smart_num().ok().map(|n| crate::model::N::from_sut(&n).text());
            let name = v::into_variable(s.clone()).map(|w| w.to_string());
            let mut o = vec![Out::Fact(format!("{:?} {:?} {:?} {}", f, near, val, s.to_rational().is_some()))];
            if let Some(n) = name {
                o.push(Out::Text(n));
            }
            o
        }
    }
}

pub fn c27(c: &mut Ctx, r: &mut Rng) {
    let k = 1 + r.below(4) as usize;
    let mut cfg = Cfg::general(&TOKENS[..k]);
    cfg.new_names = false;
    let what = *r.pick(&OPERATIONS);
    match what {
        "simplify" | "substitute" | "print" | "inspect" | "swap" => cfg = cfg.with_deep(12, 700),
        "derive" => cfg = cfg.with_deep(12, 100),
        _ => {}
    }
    let max = match what {
        "expand" => 10,
        "limit" | "second derivative" => 14,
        _ => 30,
    };
    let e = tree(r, &cfg, &c.dict, max);
    let b = match r.below(4) {
        0 => int(0),
        1 => num(any_num(r, &c.dict)),
        _ => tree(r, &cfg, &c.dict, 4),
    };
    let i = r.below(k as u64) as usize;
    let n = r.below(3);
    let new = names(r, &c.dict, k, false);
    let to: BTreeMap<&str, String> = TOKENS.iter().copied().zip(new.iter().cloned()).collect();
    let old: Vec<String> = TOKENS[..k].iter().map(|s| s.to_string()).collect();
    let (e2, b2) = (rename(&e, &to), rename(&b, &to));
    let about = format!("{} {} with {}, variable {} ({})", what, e.text(), b.text(), TOKENS[i], n);
    let first = c.sut(|| about.clone(), || operate(what, &e, &b, &old, i, n));
    let second = c.sut(|| format!("{}, names {:?}", about, new), || operate(what, &e2, &b2, &new, i, n));
    let (p, q) = match (first, second) {
        (Some(p), Some(q)) => (p, q),
        _ => return,
    };
    c.eval(hash_str(&about) ^ hash_str(&new.join(",")), !e.closed());
    c.count(what);
    let show = |o: &[Out]| {
        o.iter()
            .map(|o| match o {
                Out::Tree(e) => e.text(),
                Out::Text(s) | Out::Fact(s) => s.clone(),
            })
            .collect::<Vec<_>>()
            .join(" | ")
    };
    let same = p.len() == q.len()
        && p.iter().zip(&q).all(|(a, b)| match (a, b) {
            (Out::Tree(a), Out::Tree(b)) => rename(a, &to).same(b),
            (Out::Text(a), Out::Text(b)) => rename_text(a, &to) == *b,
            (Out::Fact(a), Out::Fact(b)) => a == b,
            _ => false,
        });
    if !same {
        return c.violate(format!("{}: {}; with the names {:?}: {}", about, show(&p), new, show(&q)));
    }
    c.sample(|| format!("{}: {}; with the names {:?}: {}", about, show(&p), new, show(&q)));
}

// ---------------------------------------------------------------- C28

/// The derivative by the rules of the textbook, not simplified.
fn by_the_book(e: &E, x: &str) -> E {
    if !e.mentions(x) {
        return int(0);
    }
    match e {
        E::Op(o, c) => {
            let d = |k: usize| by_the_book(&c[k], x);
            match o {
                Op::Neg => neg(d(0)),
                Op::Sin => mul(d(0), un(Op::Cos, c[0].clone())),
                Op::Cos => mul(d(0), neg(un(Op::Sin, c[0].clone()))),
                Op::Exp => mul(d(0), e.clone()),
                Op::Ln => div(d(0), c[0].clone()),
                Op::Add => add(d(0), d(1)),
                Op::Sub => sub(d(0), d(1)),
                Op::Mul => add(mul(d(0), c[1].clone()), mul(c[0].clone(), d(1))),
                Op::Div => div(sub(mul(d(0), c[1].clone()), mul(c[0].clone(), d(1))), mul(c[1].clone(), c[1].clone())),
                Op::Pow => {
                    let (a, b) = (&c[0], &c[1]);
                    if !b.mentions(x) {
                        let less = match b {
                            E::Num(N::Int(n)) if *n > i64::MIN => int(n - 1),
                            _ => sub(b.clone(), int(1)),
                        };
                        mul(mul(b.clone(), pow(a.clone(), less)), d(0))
                    } else {
                        mul(e.clone(), add(mul(d(1), un(Op::Ln, a.clone())), div(mul(b.clone(), d(0)), a.clone())))
                    }
                }
            }
        }
        _ => int(1),
    }
}

/// Every power's base is clearly not zero.
fn bases_nonzero(e: &E, env: &Env) -> bool {
    !e.any(&mut |x| matches!(x, E::Op(Op::Pow, c) if eval(&c[0], env).map_or(true, |b| b.has_zero())))
}

struct Stage {
    /// the system's own expression, result of the steps so far
    live: Expression,
    /// what it means
    model: E,
    /// everything that has to be defined for the meaning to be
    domain: Vec<E>,
}

const STEPS: [&str; 10] = ["simplify", "derive", "substitute", "combine", "apply", "coefficient", "limit", "rename", "earlier", "twice"];

pub fn c28(c: &mut Ctx, r: &mut Rng) {
    let ns = names(r, &c.dict, 2, false);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let mut cfg = Cfg::general(&refs);
    cfg.nice_reals = true;
    cfg.int_exponents = 70;
    cfg.var_percent = 60;
    cfg.big = 0;
    if r.chance(30) {
        cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg, Op::Pow]);
    }
    let e = tree(r, &cfg, &c.dict, 12);
    let mut st = Stage { live: to_sut(&e), model: e.clone(), domain: vec![e.clone()] };
    // earlier results and what they looked like
    let mut kept: Vec<(Expression, E, E, Vec<E>)> = vec![];
    let mut story = e.text();
    let steps = 2 + r.below(5) as usize;
    let mut derived = 0;
    let mut done = 0;
    for _ in 0..steps {
        if st.model.nodes() > 150 || from_sut(&st.live).nodes() > 150 {
            break;
        }
        let x = r.pick(&ns).clone();
        let xv = Expression::new_variable(&x);
        kept.push((st.live.clone(), from_sut(&st.live), st.model.clone(), st.domain.clone()));
        let step = *r.pick(&STEPS);
        let live = st.live.clone();
        // the same expression built anew: nothing but the tree may matter
        let seen = from_sut(&st.live);
        let by_zero = seen.any(&mut |x| matches!(x, E::Num(N::Frac(_, _, 0))));
        let again = if by_zero { st.live.clone() } else { to_sut(&seen) };
        let tale = |s: String| format!("{}; then {}", story, s);
        let told: String;
        let (a, b): (Option<Expression>, Option<Expression>);
        match step {
            "simplify" | "twice" => {
                told = tale(step.into());
                a = c.sut(|| told.clone(), || if step == "twice" { live.num_aggregate().num_aggregate() } else { live.num_aggregate() });
                b = c.sut(|| told.clone(), || if step == "twice" { again.num_aggregate().num_aggregate() } else { again.num_aggregate() });
            }
            "derive" => {
                if derived >= 2 || st.model.nodes() > 60 {
                    continue;
                }
                derived += 1;
                told = tale(format!("derived by {}", x));
                let f = |e: Expression| v::derivative(e, xv.clone()).ok();
                a = c.sut(|| told.clone(), || f(live)).flatten();
                b = c.sut(|| told.clone(), || f(again)).flatten();
                if a.is_none() {
                    return c.violate(format!("{}: refused", told));
                }
                st.model = by_the_book(&st.model, &x);
            }
            "substitute" | "rename" => {
                let by = if step == "rename" {
                    var(r.pick(&ns))
                } else if r.chance(35) {
                    int(r.range(-5, 9))
                } else if r.chance(15) {
                    num(N::Frac(r.chance(50), 1 + r.below(9), 2 + r.below(8)))
                } else { tree(r, &cfg, &c.dict, 4) };
                told = tale(format!("{} := {}", x, by.text()));
                let t = to_sut(&by);
                let how = r.chance(50);
                let f = |e: Expression| if how { v::substitute_ref(e, &xv, &t).ok() } else { v::substitute(e, xv.clone(), t.clone()).ok() };
                a = c.sut(|| told.clone(), || f(live)).flatten();
                b = c.sut(|| told.clone(), || f(again)).flatten();
                if a.is_none() {
                    return c.violate(format!("{}: refused", told));
                }
                st.model = st.model.replace(&x, &by);
                for d in &mut st.domain {
                    *d = d.replace(&x, &by);
                }
                st.domain.push(by);
            }
            "combine" | "earlier" => {
                let (o, om, od) = if step == "earlier" {
                    let (l, _, m, d) = r.pick(&kept);
                    (l.clone(), m.clone(), d.clone())
                } else {
                    let t = tree(r, &cfg, &c.dict, 5);
                    (to_sut(&t), t.clone(), vec![t])
                };
                let op = *r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div]);
                let left = r.chance(50);
                told = tale(format!("{} {} {} ({})", op.name(), if left { "before" } else { "after" }, om.text(), step));
                let f = |e: Expression| {
                    let (p, q) = if left { (e, o.clone()) } else { (o.clone(), e) };
                    match op {
                        Op::Add => p + q,
                        Op::Sub => p - q,
                        Op::Mul => p * q,
                        _ => p / q,
                    }
                };
                a = c.sut(|| told.clone(), || f(live));
                b = c.sut(|| told.clone(), || f(again));
                st.model = if left { bin(op, st.model.clone(), om) } else { bin(op, om, st.model.clone()) };
                st.domain.extend(od);
            }
            "apply" => {
                let op = *r.pick(&[Op::Neg, Op::Sin, Op::Cos, Op::Exp, Op::Ln, Op::Pow]);
                let n = r.range(-2, 4);
                told = tale(format!("{} {}", op.name(), n));
                let f = |e: Expression| match op {
                    Op::Neg => -e,
                    Op::Sin => e.sin(),
                    Op::Cos => e.cos(),
                    Op::Exp => e.exp(),
                    Op::Ln => e.ln(),
                    _ => e.pow(n),
                };
                a = c.sut(|| told.clone(), || f(live));
                b = c.sut(|| told.clone(), || f(again));
                st.model = if op == Op::Pow { pow(st.model.clone(), int(n)) } else { un(op, st.model.clone()) };
            }
            "coefficient" => {
                let k = r.below(3);
                if derived as u64 + k > 2 || st.model.nodes() > 40 {
                    continue;
                }
                derived += k as usize;
                let at = int(r.range(-3, 3));
                told = tale(format!("coefficient {} of the expansion by {} at {}", k, x, at.text()));
                let t = to_sut(&at);
                let more = r.below(2);
                let f = |e: Expression| v::taylor(e, xv.clone(), t.clone(), k + more).ok().and_then(|p| p.coefficient.get(k as usize).cloned());
                a = c.sut(|| told.clone(), || f(live)).flatten();
                b = c.sut(|| told.clone(), || f(again)).flatten();
                if a.is_none() {
                    return c.violate(format!("{}: refused", told));
                }
                let mut m = st.model.clone();
                let mut all = st.domain.clone();
                for _ in 0..k {
                    m = by_the_book(&m, &x);
                    all.push(m.clone());
                }
                st.domain = all.iter().map(|d| d.replace(&x, &at)).collect();
                st.model = m.replace(&x, &at);
                if k == 2 {
                    st.model = div(st.model.clone(), int(2));
                }
            }
            _ => {
                if st.model.nodes() > 40 {
                    continue;
                }
                let at = if r.chance(60) { int(r.range(-3, 3)) } else { tree(r, &cfg, &c.dict, 3) };
                if at.mentions(&x) {
                    continue;
                }
                told = tale(format!("the limit for {} to {}", x, at.text()));
                let t = to_sut(&at);
                let tries = r.below(2);
                let f = |e: Expression| match v::limit(e, xv.clone(), t.clone(), tries) {
                    Ok(LimitExpression::Normal(e)) => Some(e),
                    Ok(LimitExpression::Infinitesimal) => Some(Expression::zero()),
                    _ => None,
                };
                a = c.sut(|| told.clone(), || f(live)).flatten();
                b = c.sut(|| told.clone(), || f(again)).flatten();
                if a.is_none() && b.is_none() {
                    c.count("no limit");
                    continue;
                }
                st.model = st.model.replace(&x, &at);
                for d in &mut st.domain {
                    *d = d.replace(&x, &at);
                }
                st.domain.push(at);
            }
        }
        let (p, q) = match (a, b) {
            (Some(p), Some(q)) => (p, q),
            (None, None) => return,
            _ => return c.violate(format!("{}: done with one of two equal expressions only", told)),
        };
        let (tp, tq) = (from_sut(&p), from_sut(&q));
        if !tp.well_formed() {
            return c.violate(format!("{}: the ill-formed {}", told, tp.text()));
        }
        if !tp.same(&tq) {
            return c.violate(format!("{}: {} and, from the same expression built anew, {}", told, tp.text(), tq.text()));
        }
        // nor may the way to it show in its text
        let special = |n: &N| match n {
            N::Int(_) => false,
            N::Frac(_, a, b) => *a == 0 || a == b || *b == 0,
            N::Real(f) => *f == 0.0 || *f == 1.0,
            N::Pi | N::E => true,
        };
        if !tp.any(&mut |x| matches!(x, E::Num(n) if special(n))) {
            let texts = c.sut(|| told.clone(), || (p.to_string(), q.to_string(), to_sut(&tp).to_string()));
            match texts {
                Some((tp, tq, tn)) => {
                    if tp != tq || tp != tn {
                        return c.violate(format!("{}: reads {:?}; from the same expression built anew {:?}; itself built anew {:?}", told, tp, tq, tn));
                    }
                    c.count("texts compared");
                }
                None => return,
            }
        }
        story = told;
        st.live = p;
        st.domain.push(st.model.clone());
        done += 1;
        c.count(step);
    }
    // what was kept is as it was
    for (l, was, _, _) in &kept {
        if !from_sut(l).same(was) {
            return c.violate(format!("{}: an earlier {} became {}", story, was.text(), from_sut(l).text()));
        }
    }
    let got = from_sut(&st.live);
    let mut decided = 0;
    for _ in 0..3 {
        let mut env = Env::new();
        for n in &ns {
            env.insert(n.clone(), exact(coord(r)));
        }
        if !st.domain.iter().all(|d| eval(d, &env).is_ok() && bases_nonzero(d, &env)) {
            c.count("outside the domain");
            continue;
        }
        let mut ev = Evaluator::new(&env);
        let want = match ev.eval(&st.model) {
            Ok(w) => w,
            Err(_) => continue,
        };
        let mut max = ev.max;
        for d in &st.domain {
            let mut e = Evaluator::new(&env);
            if e.eval(d).is_ok() {
                max = max.max(e.max);
            }
        }
        match eval_result(&got, &env, &mut max) {
            _ if st.domain.iter().any(|d| overflowed(d, 3, &got)) => c.inconclusive("overflow"),
            Ok(g) => {
                if differ(want, g, max) {
                    return c.violate(format!("{}: {}, at {} this is {:e} instead of {:e}", story, got.text(), show_env(&env), g.m, want.m));
                }
                decided += 1;
            }
            Err(Bad::Undef) => return c.violate(format!("{}: {}, undefined at {} where it should be {:e}", story, got.text(), show_env(&env), want.m)),
            Err(Bad::Unclear) => c.inconclusive("bounds of the result"),
        }
    }
    c.eval(hash_str(&story), decided > 0 && done > 1);
    if decided > 0 {
        c.count(&format!("compared after {} steps", done));
        c.sample(|| format!("{}: {}, right at {} points", story, got.text(), decided));
    }
}

// ---------------------------------------------------------------- C29

pub fn c29(c: &mut Ctx, r: &mut Rng) {
    let j = Plan::draw(r, &c.dict, false).job();
    let s = match c.sut_raw(|| j.run()) {
        Ok(s) => s,
        Err(m) => m,
    };
    c.eval(hash_str(&j.what), s != "no variable" && s != "no fractions");
    c.count(&format!("{:?}", j.kind).split('(').next().unwrap().to_string());
    let mut e = String::new();
    if c.verbose {
        let _ = write!(e, "[{},{},{}]", c.index, js(&j.what), js(&s));
    } else {
        let _ = write!(e, "[{},\"{:016x}\"]", c.index, hash_str(&s));
    }
    c.events.push(e);
    c.sample(|| format!("{} = {}", j.what, s.chars().take(300).collect::<String>()));
}
