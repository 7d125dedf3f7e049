//! Derivatives (C13, C14) and expansions (C15, C16).

use crate::ball::*;
use crate::c_sim::{overflowed, point, show_env};
use crate::c_text::expansion_case;
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::rng::{hash_str, Rng};
use std::collections::BTreeMap;
use symbolic_rust::verif_hook::{self as v, Expression, NumAggregate};

/// Evaluates a result of the system: its real literals may be rounded results.
pub fn eval_result(e: &E, env: &Env, max: &mut f64) -> R<B> {
    let mut ev = Evaluator::new(env);
    ev.real_eps = 1e-13;
    let r = ev.eval(e);
    *max = max.max(ev.max);
    r
}

fn dir_of(names: &[&str], d: &[f64]) -> BTreeMap<String, f64> {
    names.iter().zip(d).map(|(n, d)| (n.to_string(), *d)).collect()
}

fn calc_cfg(r: &mut Rng, refs: &[&str]) -> Cfg {
    let mut cfg = Cfg::general(refs);
    cfg.nice_reals = true;
    cfg.patterns = 12;
    cfg.int_exponents = 65;
    cfg.var_percent = 70;
    match r.below(8) {
        0 => {
            cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg, Op::Pow]);
            cfg.lits = [5, 3, 0, 0];
        }
        1 => cfg = cfg.with_ops(&[Op::Mul, Op::Div, Op::Pow]),
        2 => cfg = cfg.with_ops(&[Op::Sin, Op::Cos, Op::Exp, Op::Ln, Op::Mul, Op::Add]),
        3 => cfg.int_exponents = 20,
        4 => cfg.identities = 30,
        _ => {}
    }
    cfg
}

fn derive(c: &mut Ctx, e: &E, x: &Expression, s: Expression, to: &Expression, how: u64) -> Option<Expression> {
    let _ = x;
    let res = c.sut(
        || format!("the derivative of {}", e.text()),
        move || match how {
            0 => v::derivative(s, to.clone()),
            1 => v::derivative_ref(s, to),
            _ => v::derivative_var(s, v::as_variable(to).ok_or("not a variable".to_string())?),
        },
    )?;
    match res {
        Ok(d) => Some(d),
        Err(m) => {
            c.violate(format!("the derivative of {} is refused: {}", e.text(), m));
            None
        }
    }
}

pub fn c13(c: &mut Ctx, r: &mut Rng) {
    let ns = names(r, &c.dict, 2, false);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let cfg = calc_cfg(r, &refs);
    let times = match r.below(10) {
        0..=5 => 1,
        6 | 7 => 2,
        8 => 3,
        _ => 4,
    };
    let max = [0, 40, 16, 9, 7][times];
    let cfg = if times == 1 { cfg.with_deep(25, 140) } else { cfg };
    let e = tree(r, &cfg, &c.dict, max);
    let present: Vec<String> = e.vars().iter().map(|s| s.to_string()).collect();
    let first = if present.is_empty() { ns[0].clone() } else { r.pick(&present).clone() };
    // which variable each time
    let mut order: Vec<String> = vec![first.clone(); times];
    let mixed = times == 2 && present.len() == 2 && r.chance(60);
    if mixed {
        order[1] = present.iter().find(|n| **n != first).unwrap().clone();
    }
    let mut cur = to_sut(&e);
    let mut results: Vec<E> = vec![];
    for n in &order {
        let xv = Expression::new_variable(n);
        let how = r.below(3);
        let shown = if results.is_empty() { e.clone() } else { results.last().unwrap().clone() };
        match derive(c, &shown, &xv, cur, &xv, how) {
            Some(d) => {
                results.push(from_sut(&d));
                cur = d;
            }
            None => return,
        }
        if results.last().unwrap().nodes() > 60_000 {
            break;
        }
    }
    if results.iter().any(|d| !d.well_formed()) {
        return c.violate(format!("the derivative of {} is ill-formed", e.text()));
    }
    let what = |k: usize| format!("derivative {} of {} by {}", k + 1, e.text(), order[..=k].join(","));
    let mut decided = 0;
    for _ in 0..4 {
        let mut env = point(r, &e);
        for n in &order {
            env.entry(n.clone()).or_insert(exact(0.5));
        }
        let mut wants: Vec<(R<B>, f64)> = vec![];
        if mixed {
            let both: Vec<&str> = vec![&order[0], &order[1]];
            let d1 = dir_of(&both, &[1.0, 0.0]);
            let mut j1 = JetEval::new(&env, &d1, 1);
            let w1 = j1.eval(&e).map(|j| j[1]);
            wants.push((w1, j1.max));
            let dp = dir_of(&both, &[1.0, 1.0]);
            let dm = dir_of(&both, &[1.0, -1.0]);
            let mut jp = JetEval::new(&env, &dp, 2);
            let mut jm = JetEval::new(&env, &dm, 2);
            let w2 = join(jp.eval(&e), jm.eval(&e)).and_then(|(p, m)| p[2].sub(m[2])?.mul(exact(0.5)));
            wants.push((w2, jp.max.max(jm.max)));
        } else {
            let dir = dir_of(&[&first], &[1.0]);
            let mut je = JetEval::new(&env, &dir, results.len());
            let j = je.eval(&e);
            let mut f = 1.0;
            for k in 1..=results.len() {
                f *= k as f64;
                wants.push((
                    match &j {
                        Ok(j) => j[k].mul(exact(f)),
                        Err(b) => Err(*b),
                    },
                    je.max,
                ));
            }
        }
        for (k, d) in results.iter().enumerate() {
            let (want, m) = wants[k];
            let want = match want {
                Ok(w) => w,
                Err(Bad::Undef) => {
                    c.count("outside the domain");
                    continue;
                }
                Err(Bad::Unclear) => {
                    c.inconclusive("bounds");
                    continue;
                }
            };
            let mut max = m;
            match eval_result(d, &env, &mut max) {
                _ if overflowed(&e, k as u64 + 1, d) => c.inconclusive("overflow"),
                Ok(got) => {
                    if differ(want, got, max) {
                        return c.violate(format!("{} is {}: at {} it is {:e}, the true derivative is {:e}", what(k), d.text(), show_env(&env), got.m, want.m));
                    }
                    decided += 1;
                    c.count(&format!("compared: {}{}", if mixed && k == 1 { "mixed " } else { "" }, k + 1));
                }
                Err(Bad::Undef) => {
                    return c.violate(format!("{} is {}: undefined at {}, the true derivative is {:e}", what(k), d.text(), show_env(&env), want.m));
                }
                Err(Bad::Unclear) => c.inconclusive("bounds of the result"),
            }
        }
    }
    c.eval(e.hash() ^ hash_str(&order.join(",")), decided > 0 && e.mentions(&first) && e.nodes() > 1);
    if decided > 0 {
        e.visit(&mut |x| {
            if let E::Op(o, _) = x {
                if x.mentions(&first) {
                    c.count(&format!("rule {}", o.name()));
                }
            }
        });
    }
    c.sample(|| format!("{} = {}, true at {} points", what(results.len() - 1), results.last().unwrap().text(), decided));
}

/// Something is divided by, or a logarithm taken of, what simplifies to an exact or real zero or a
/// number beyond the range in which squares are numbers.
fn degenerate(e: &E) -> bool {
    e.any(&mut |x| match x {
        E::Op(Op::Div, k) => bad_divisor(&k[1]),
        E::Op(Op::Ln, k) => bad_divisor(&k[0]),
        E::Op(Op::Pow, k) => bad_divisor(&k[0]),
        _ => false,
    })
}

fn bad_divisor(e: &E) -> bool {
    match from_sut(&to_sut(e).num_aggregate()) {
        E::Num(n) => {
            let f = n.to_f64().abs();
            !(f > 1e-100 && f < 1e100)
        }
        _ => false,
    }
}

pub fn c14(c: &mut Ctx, r: &mut Rng) {
    let ns = names(r, &c.dict, 3, false);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let cfg = Cfg::general(&refs).with_deep(12, 140);
    let e = {
        let max = *r.pick(&[3, 8, 20, 40]);
        tree(r, &cfg, &c.dict, max)
    };
    // names that are near those that occur
    let base = r.pick(&ns).clone();
    let absent = match r.below(8) {
        0 => format!("{}1", base),
        1 => format!("{}{}", base, base),
        2 => base.to_uppercase() + "_",
        3 => {
            let mut s = base.clone();
            s.pop();
            if s.is_empty() || ns.contains(&s) {
                "absent".into()
            } else {
                s
            }
        }
        4 => base.to_uppercase(),
        5 => base.to_lowercase(),
        6 => format!(" {}", base),
        _ => "w".to_string(),
    };
    let absent = if e.mentions(&absent) { "absent_".to_string() } else { absent };
    let x = to_sut(&e);
    let av = Expression::new_variable(&absent);
    let forms = |c: &mut Ctx, x: &Expression, w: &Expression, text: String| {
        let r = c.sut(
            || text.clone(),
            || {
                let a = v::derivative(x.clone(), w.clone())?;
                let b = v::derivative_ref(x.clone(), w)?;
                let d = v::derivative_var(x.clone(), v::as_variable(w).ok_or("not a variable".to_string())?)?;
                Ok::<_, String>([a, b, d])
            },
        )?;
        match r {
            Ok(d) => Some(d),
            Err(m) => {
                c.violate(format!("{} is refused: {}", text, m));
                None
            }
        }
    };
    let text = format!("the derivative of {} by {:?}", e.text(), absent);
    if let Some(ds) = forms(c, &x, &av, text.clone()) {
        let exempt = match c.sut_raw(|| degenerate(&e)) {
            Ok(b) => b,
            Err(_) => true,
        };
        c.eval(e.hash() ^ hash_str(&absent), !exempt && e.nodes() > 1);
        c.count(if exempt { "skipped: divides by zero" } else { "absent variable" });
        for d in &ds {
            let m = from_sut(d);
            if !exempt && !(m.is_exact_zero() && d.is_zero()) {
                return c.violate(format!("{} is {}", text, m.text()));
            }
            if !m.same(&from_sut(&ds[0])) {
                return c.violate(format!("{} depends on the way of naming the variable: {} and {}", text, from_sut(&ds[0]).text(), m.text()));
            }
        }
        c.sample(|| format!("{} is 0", text));
    }
    // present variable
    let mut name = r.pick(&ns).clone();
    if let Some(present) = ns.iter().find(|n| e.mentions(n)) {
        if r.chance(80) {
            name = present.clone();
        }
    }
    let nv = Expression::new_variable(&name);
    let text = format!("the derivative of {} by {:?}", e.text(), name);
    if let Some(ds) = forms(c, &x, &nv, text.clone()) {
        c.count(if e.mentions(&name) { "present variable" } else { "variable not drawn" });
        let all = e.vars();
        let first = from_sut(&ds[0]);
        for d in &ds {
            let m = from_sut(d);
            if !m.vars().is_subset(&all) {
                return c.violate(format!("{} is {}, which has new variables", text, m.text()));
            }
            if !m.same(&first) {
                return c.violate(format!("{} depends on the way of naming the variable: {} and {}", text, first.text(), m.text()));
            }
        }
        if !from_sut(&x).same(&e) {
            return c.violate(format!("{} changed the expression", text));
        }
    }
    // the variable itself
    if let Some(ds) = forms(c, &nv, &nv, format!("the derivative of {:?} by itself", name)) {
        if ds.iter().any(|d| !from_sut(d).is_exact_one() || !d.is_one()) {
            return c.violate(format!("the derivative of {:?} by itself is {}", name, from_sut(&ds[0]).text()));
        }
    }
    if let Some(ds) = forms(c, &nv, &av, format!("the derivative of {:?} by {:?}", name, absent)) {
        if name != absent && ds.iter().any(|d| !from_sut(d).is_exact_zero()) {
            c.violate(format!("the derivative of {:?} by {:?} is {}", name, absent, from_sut(&ds[0]).text()));
        }
    }
}

/// Orders in the hundreds, of expressions whose derivatives soon vanish.
pub fn very_high_order_case(r: &mut Rng, d: &Dict) -> (E, E, u64) {
    let near: Vec<i64> = d.ints.iter().copied().filter(|i| (100..=1100).contains(i)).collect();
    let order = match r.below(5) {
        0 => 100 + r.below(500),
        1 => 255 + r.below(4),
        2 => 510 + r.below(4),
        3 if !near.is_empty() => (r.pick(&near) + r.range(-2, 2)) as u64,
        _ => 100 + r.below(200),
    };
    let mut e = if r.chance(30) { var("y") } else { int(r.range(-4, 4)) };
    for k in 1..=r.below(4) as i64 {
        let t = if k == 1 { var("x") } else { pow(var("x"), int(k)) };
        let q = match r.below(3) {
            0 => t,
            1 => mul(int(r.range(-5, 5)), t),
            _ => mul(num(N::Frac(r.chance(50), 1 + r.below(5), 2)), t),
        };
        e = if r.chance(50) { add(q, e) } else { sub(e, q) };
    }
    let at = match r.below(3) {
        0 => int(0),
        1 => int(r.range(-3, 3)),
        _ => num(N::Frac(r.chance(50), 1 + r.below(3), 1 + r.below(3))),
    };
    (e, at, order)
}

/// Small expressions that stay small under many derivatives.
pub fn high_order_case(r: &mut Rng, d: &Dict) -> (E, E, u64) {
    let x = var("x");
    if r.chance(12) {
        return very_high_order_case(r, d);
    }
    let near: Vec<i64> = d.ints.iter().copied().filter(|i| (4..=100).contains(i)).collect();
    let order = match r.below(40) {
        0 => r.range(32, 100) as u64,
        1 => (1 << r.range(5, 6)) + r.below(4) - 2,
        2..=4 if !near.is_empty() => (r.pick(&near) + r.range(-2, 2)) as u64,
        _ => 12 + r.below(20),
    };
    let lin = |r: &mut Rng| match r.below(4) {
        0 => x.clone(),
        1 => add(x.clone(), int(r.range(-3, 3))),
        2 => mul(int(r.range(1, 3)), x.clone()),
        _ => sub(num(N::Frac(false, 1, 2)), x.clone()),
    };
    let e = match r.below(6) {
        0 => un(Op::Exp, lin(r)),
        1 => un(Op::Sin, lin(r)),
        2 => un(Op::Cos, lin(r)),
        3 => pow(lin(r), int(r.range(2, order as i64 + 3))),
        4 => sub(un(Op::Exp, x.clone()), un(Op::Sin, x.clone())),
        _ => add(pow(x.clone(), int(r.range(18, 30))), un(Op::Cos, x.clone())),
    };
    let at = match r.below(4) {
        0 => int(0),
        1 => int(r.range(-2, 2)),
        2 => num(N::Frac(r.chance(50), 1 + r.below(3), 1 + r.below(3))),
        _ => num(N::Real(r.range(-8, 8) as f64 / 8.0)),
    };
    (e, at, order)
}

pub fn c15(c: &mut Ctx, r: &mut Rng) {
    let high = r.chance(12);
    let (e, x, at, order) = if high {
        let (e, at, o) = high_order_case(r, &c.dict);
        (e, "x".to_string(), at, o)
    } else {
        expansion_case(r, c, false)
    };
    let what = format!("the expansion of {} in {} at {} to order {}", e.text(), x, at.text(), order);
    let (se, sa) = (to_sut(&e), to_sut(&at));
    let xv = Expression::new_variable(&x);
    let by_ref = r.chance(50);
    let res = c.sut(
        || what.clone(),
        || {
            let p = if by_ref { v::taylor_ref(se, v::as_variable(&xv).ok_or("not a variable".to_string())?, &sa, order)? } else { v::taylor(se, xv.clone(), sa.clone(), order)? };
            Ok::<_, String>(p.coefficient.iter().map(from_sut).collect::<Vec<_>>())
        },
    );
    let coef = match res {
        None => return,
        Some(Err(m)) => return c.violate(format!("{} is refused: {}", what, m)),
        Some(Ok(k)) => k,
    };
    let mut decided = 0;
    let tries = if at.closed() && e.vars().iter().all(|n| **n == *x) { 1 } else { 3 };
    for _ in 0..tries {
        let mut env = point(r, &add(e.clone(), at.clone()));
        let a = match eval(&at, &env) {
            Ok(a) => a,
            _ => continue,
        };
        let outer = env.clone();
        env.insert(x.clone(), a);
        let dir = dir_of(&[&x], &[1.0]);
        let mut je = JetEval::new(&env, &dir, order as usize);
        let j = match je.eval(&e) {
            Ok(j) => j,
            Err(Bad::Undef) => {
                c.count("outside the domain");
                continue;
            }
            Err(Bad::Unclear) => {
                c.inconclusive("bounds");
                continue;
            }
        };
        let mut f = exact(1.0);
        for (k, q) in coef.iter().enumerate().take(order as usize + 1) {
            if k > 0 {
                f = match f.mul(exact(k as f64)) {
                    Ok(f) => f,
                    Err(_) => break,
                };
            }
            let mut max = je.max;
            let want = j[k].mul(f);
            let got = eval_result(q, &outer, &mut max);
            match (want, got) {
                _ if overflowed(&e, k as u64, q) => c.inconclusive("overflow"),
                (Ok(w), Ok(g)) => {
                    let g = match g.mul(f) {
                        Ok(g) => g,
                        Err(_) => continue,
                    };
                    if differ(w, g, max) {
                        return c.violate(format!(
                            "{}: coefficient {} is {}, at {} this times the factorial is {:e}, the derivative is {:e}",
                            what,
                            k,
                            q.text(),
                            show_env(&outer),
                            g.m,
                            w.m
                        ));
                    }
                    decided += 1;
                    if k > 31 {
                        c.count("coefficient beyond order 31");
                    } else if k > 20 {
                        c.count("coefficient beyond order 20");
                    } else {
                        c.count("coefficient");
                    }
                }
                (Ok(_), Err(Bad::Undef)) => return c.violate(format!("{}: coefficient {} is {}, undefined at {}", what, k, q.text(), show_env(&outer))),
                _ => c.inconclusive("bounds of the result"),
            }
        }
    }
    c.eval(hash_str(&what), decided > 0 && e.mentions(&x) && order > 0);
    if decided > 0 {
        c.sample(|| format!("{}: {}", what, coef.iter().map(|k| k.text()).collect::<Vec<_>>().join(", ")));
    }
}

pub fn c16(c: &mut Ctx, r: &mut Rng) {
    let (e, x, at, order) = if r.chance(6) {
        let (e, at, o) = high_order_case(r, &c.dict);
        (e, "x".to_string(), at, o)
    } else {
        expansion_case(r, c, false)
    };
    // sometimes the point mentions the variable, or the variable does not occur
    let at = if r.chance(6) { add(at, var(&x)) } else { at };
    let x = if r.chance(6) { format!("{}_", x) } else { x };
    let what = format!("the expansion of {} in {} at {} to order {}", e.text(), x, at.text(), order);
    let (se, sa) = (to_sut(&e), to_sut(&at));
    let xv = Expression::new_variable(&x);
    let lower = r.below(order + 1);
    let take = |p: &v::PartialExpansion| -> (u64, E, E, Vec<E>, E) { (p.order, from_sut(&p.of), from_sut(&p.at), p.coefficient.iter().map(from_sut).collect(), from_sut(&p.residual)) };
    let res = c.sut(
        || what.clone(),
        || {
            let a = v::taylor(se.clone(), xv.clone(), sa.clone(), order)?;
            let b = v::taylor_ref(se.clone(), v::as_variable(&xv).ok_or("not a variable".to_string())?, &sa, order)?;
            let l = v::taylor(se.clone(), xv.clone(), sa.clone(), lower)?;
            Ok::<_, String>((take(&a), take(&b), take(&l), take(&a.clone())))
        },
    );
    let (a, b, l, a2) = match res {
        None => return,
        Some(Err(m)) => return c.violate(format!("{} is refused: {}", what, m)),
        Some(Ok(x)) => x,
    };
    c.eval(hash_str(&what), e.mentions(&x) && order > 0);
    c.count(&format!("order {}", if order > 8 { "above 8".to_string() } else { order.to_string() }));
    c.sample(|| format!("{}: {} coefficients, residual {}", what, a.3.len(), a.4.text()));
    for (p, n, who) in [(&a, order, "by value"), (&b, order, "by reference"), (&l, lower, "lower order"), (&a2, order, "clone")] {
        if p.3.len() as u64 != n + 1 {
            return c.violate(format!("{}: {} coefficients for order {} ({})", what, p.3.len(), n, who));
        }
        if p.0 != n {
            return c.violate(format!("{}: remembers order {} for {} ({})", what, p.0, n, who));
        }
        if !p.1.same(&var(&x)) || !p.2.same(&at) {
            return c.violate(format!("{}: remembers variable {} and point {} ({})", what, p.1.text(), p.2.text(), who));
        }
        if !at.mentions(&x) {
            if let Some(k) = p.3.iter().position(|q| q.mentions(&x)) {
                return c.violate(format!("{}: coefficient {} is {}, which mentions the variable ({})", what, k, p.3[k].text(), who));
            }
        }
        let mut all = e.vars();
        all.extend(at.vars());
        if p.3.iter().any(|q| !q.vars().is_subset(&all)) || !p.4.vars().is_subset(&e.vars()) {
            return c.violate(format!("{}: new variables ({})", what, who));
        }
    }
    for k in 0..a.3.len() {
        if !a.3[k].same(&b.3[k]) {
            return c.violate(format!("{}: coefficient {} is {} by value, {} by reference", what, k, a.3[k].text(), b.3[k].text()));
        }
        if k < l.3.len() && !a.3[k].same(&l.3[k]) {
            return c.violate(format!("{}: coefficient {} is {}, but {} to order {}", what, k, a.3[k].text(), l.3[k].text(), lower));
        }
    }
    if !a.4.same(&b.4) {
        return c.violate(format!("{}: residuals differ by call form", what));
    }
    // the residual is the next derivative
    for (p, n) in [(&a, order), (&l, lower)] {
        let mut decided = 0;
        for _ in 0..2 {
            let mut env = point(r, &e);
            env.entry(x.clone()).or_insert(exact(0.75));
            let dir = dir_of(&[&x], &[1.0]);
            let mut je = JetEval::new(&env, &dir, n as usize + 1);
            let want = match je.eval(&e) {
                Ok(j) => {
                    let mut w = Ok(j[n as usize + 1]);
                    for k in 1..=n + 1 {
                        w = w.and_then(|w: B| w.mul(exact(k as f64)));
                    }
                    w
                }
                Err(b) => Err(b),
            };
            let want = match want {
                Ok(w) => w,
                Err(_) => continue,
            };
            let mut max = je.max;
            match eval_result(&p.4, &env, &mut max) {
                _ if overflowed(&e, n + 1, &p.4) => c.inconclusive("overflow"),
                Ok(g) if differ(want, g, max) => {
                    return c.violate(format!("{}: residual to order {} is {}, at {} {:e}, derivative {} is {:e}", what, n, p.4.text(), show_env(&env), g.m, n + 1, want.m))
                }
                Ok(_) => decided += 1,
                Err(Bad::Undef) => return c.violate(format!("{}: residual to order {} is {}, undefined at {}", what, n, p.4.text(), show_env(&env))),
                Err(Bad::Unclear) => c.inconclusive("bounds of the result"),
            }
        }
        if decided > 0 {
            c.count("residual compared");
        }
    }
}
