//! Numbers: C01 to C08.

use crate::big::Rat;
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::rng::{hash_str, Rng};
use std::cmp::Ordering;
use symbolic_rust::verif_hook::{AstOperand, Expression, IsClose, NumAggregate, RationalNum, SmartNum, ToRational, ToSmartNum};

const EPS: f64 = 2.220446049250313e-16;

fn eq(a: &Rat, b: &Rat) -> bool {
    a.cmp(b) == Ordering::Equal
}

pub fn rat_of(r: &RationalNum) -> Option<Rat> {
    if r.denominator == 0 {
        None
    } else {
        Some(Rat::frac(r.sign < 0, r.nominator, r.denominator))
    }
}

/// |a-b| <= tol, exactly for finite doubles
fn within(got: f64, want: &Rat, tol: f64) -> bool {
    match Rat::from_f64(got) {
        None => false,
        Some(g) => g.sub(want).abs().cmp(&Rat::from_f64(tol).unwrap_or(Rat::zero())) != Ordering::Greater,
    }
}

const OPS: [Op; 5] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg];

fn apply(o: Op, a: SmartNum, b: SmartNum) -> SmartNum {
    match o {
        Op::Add => a + b,
        Op::Sub => a - b,
        Op::Mul => a * b,
        Op::Div => a / b,
        _ => -a,
    }
}

fn exact_op(o: Op, a: &Rat, b: &Rat) -> Option<Rat> {
    Some(match o {
        Op::Add => a.add(b),
        Op::Sub => a.sub(b),
        Op::Mul => a.mul(b),
        Op::Div => return a.div(b),
        _ => a.neg(),
    })
}

fn boundary(n: N) -> bool {
    match n {
        N::Int(i) => i.unsigned_abs() > 1 << 31,
        N::Frac(_, a, d) => a > 1 << 31 || d > 1 << 31,
        _ => false,
    }
}

/// Checks an exact operation's outcome against the exact value.
fn judge_exact(o: Op, na: N, nb: N, got: N, a: &Rat, b: &Rat) -> Result<&'static str, String> {
    let want = match exact_op(o, a, b) {
        Some(w) => w,
        None => return Ok("division by zero"),
    };
    let text = || format!("{} {} {} = {}", na.text(), o.name(), if o == Op::Neg { "".into() } else { nb.text() }, got.text());
    let fits = want.as_i64().is_some() || want.fits();
    if fits {
        match got.exact() {
            Some(g) if eq(&g, &want) => Ok(if want.is_zero() { "zero" } else { "exact" }),
            _ => Err(format!("{} but the exact result {} fits", text(), want.to_string())),
        }
    } else {
        let tol = match o {
            Op::Add | Op::Sub => 4.0 * EPS * (a.abs().to_f64() + b.abs().to_f64()),
            _ => 16.0 * EPS * want.abs().to_f64(),
        };
        match got {
            N::Real(f) if within(f, &want, tol) => Ok("real"),
            _ => Err(format!("{} but the exact result is {}, which does not fit: a real near {:e} was due", text(), want.to_string(), want.to_f64())),
        }
    }
}

/// A pair whose combination is likely to sit at a limit of the number type.
fn edge_pair(r: &mut Rng, c: &Ctx) -> (N, N) {
    match if r.chance(6) { 6 } else { r.below(6) } {
        6 => {
            // common divisors that take many steps to find
            let ((a, b), (p, q)) = (long_division(r), long_division(r));
            let (s, t) = (r.chance(50), r.chance(50));
            match r.below(4) {
                0 => (N::Frac(s, a, p), N::Frac(t, q, b)),
                1 => (N::Frac(s, 1 + r.below(9), a), N::Frac(t, 1 + r.below(9), b)),
                2 => (N::Frac(s, a, b), N::Frac(t, r.below(9), 1 + r.below(9))),
                _ => (N::Frac(s, a, b), N::Frac(t, p, q)),
            }
        }
        0 => {
            // product near 2^63 or 2^64
            let a = (r.next() >> (1 + r.below(62))).max(2);
            let t = if r.chance(50) { u64::MAX } else { 1 << 63 };
            let b = (t / a).wrapping_add(r.below(3)).wrapping_sub(1);
            if r.chance(50) {
                (N::Int((a & (i64::MAX as u64)) as i64), N::Int((b & (i64::MAX as u64)) as i64 * if r.chance(50) { 1 } else { -1 }))
            } else {
                (N::Frac(r.chance(50), a, 1 + r.below(5)), N::Frac(r.chance(50), b, 1 + r.below(5)))
            }
        }
        1 => {
            // denominators sharing a large factor
            let g = 1 + (r.next() >> (20 + r.below(40)));
            let d1 = g.saturating_mul(1 + r.below(50));
            let d2 = g.saturating_mul(1 + r.below(50));
            (N::Frac(r.chance(50), r.next() >> r.below(64), d1), N::Frac(r.chance(50), r.next() >> r.below(64), d2))
        }
        2 => {
            // sums near the ends
            let s = r.range(-3, 3);
            let a = interesting_i64(r, &c.dict);
            let t = if r.chance(50) { i64::MAX } else { i64::MIN };
            (N::Int(a), N::Int(t.wrapping_sub(a).wrapping_add(s)))
        }
        3 => {
            // common factors between one numerator and the other denominator
            let f = 1 + (r.next() >> (24 + r.below(38)));
            let a = f.saturating_mul(1 + r.below(30));
            let d = f.saturating_mul(1 + r.below(30));
            (N::Frac(r.chance(50), a, 1 + r.below(1 << 20)), N::Frac(r.chance(50), 1 + r.below(1 << 20), d))
        }
        4 => {
            // opposite or equal values
            let a = any_exact(r, &c.dict);
            let k = 1 + r.below(6);
            let b = match a {
                N::Frac(s, n, d) => N::Frac(s != r.chance(50), n.checked_mul(k).unwrap_or(n), d.checked_mul(k).unwrap_or(d)),
                N::Int(i) => N::Int(if r.chance(50) { i.wrapping_neg() } else { i }),
                x => x,
            };
            (a, b)
        }
        _ => (any_exact(r, &c.dict), any_exact(r, &c.dict)),
    }
}

pub fn c01(c: &mut Ctx, r: &mut Rng) {
    for _ in 0..40 {
        let (na, nb) = edge_pair(r, c);
        let o = *r.pick(&OPS);
        let (a, b) = (na.exact().unwrap(), nb.exact().unwrap());
        if o == Op::Div && b.is_zero() {
            continue;
        }
        let via_tree = r.chance(15);
        let what = || format!("{} {} {}", na.text(), o.name(), nb.text());
        let got = c.sut(what, || {
            let (x, y) = (na.to_sut(), nb.to_sut());
            if via_tree {
                let e = match o {
                    Op::Neg => neg(num(na)),
                    o => bin(o, num(na), num(nb)),
                };
                N::from_sut((&to_sut(&e).num_aggregate()).to_smart_num().expect("arithmetic on numbers folds to a number"))
            } else {
                N::from_sut(&apply(o, x, y))
            }
        });
        let got = match got {
            Some(g) => g,
            None => continue,
        };
        let key = hash_str(&what());
        c.eval(key, boundary(na) || (o != Op::Neg && boundary(nb)));
        c.mix(&got.text());
        match judge_exact(o, na, nb, got, &a, &b) {
            Ok(cls) => {
                c.count(&format!("{} {} {}: {}", na.kind(), o.name(), if o == Op::Neg { "" } else { nb.kind() }, cls));
                c.sample(|| format!("{} = {} ({})", what(), got.text(), cls));
            }
            Err(m) => c.violate(m),
        }
    }
}

pub fn c02(c: &mut Ctx, r: &mut Rng) {
    for _ in 0..40 {
        let mut na = any_num(r, &c.dict);
        let mut nb = any_num(r, &c.dict);
        if r.chance(12) {
            na = *r.pick(&[N::Int(0), N::Int(1), N::Frac(false, 0, 3), N::Frac(false, 5, 5)]);
        }
        if na.is_exact() && nb.is_exact() {
            nb = match r.below(8) {
                0 => N::Pi,
                1 => N::E,
                _ => N::Real(interesting_f64(r, &c.dict)),
            };
        }
        if r.chance(50) {
            std::mem::swap(&mut na, &mut nb);
        }
        let o = *r.pick(&OPS);
        if o == Op::Neg && na.is_exact() {
            continue;
        }
        let what = || format!("{} {} {}", na.text(), o.name(), if o == Op::Neg { "".into() } else { nb.text() });
        let res = c.sut(what, || {
            let g = apply(o, na.to_sut(), nb.to_sut());
            (N::from_sut(&g), g.is_zero(), g.is_one(), g.is_pi(), g.is_e(), g.to_f64())
        });
        let (got, z, one, _, _, gf) = match res {
            Some(g) => g,
            None => continue,
        };
        let nontrivial = !(na.to_f64().fract() == 0.0 && nb.to_f64().fract() == 0.0);
        c.eval(hash_str(&what()), nontrivial);
        let (az, bz) = (na.is_exact_zero(), nb.is_exact_zero());
        let (a1, b1) = (na.is_exact_one(), nb.is_exact_one());
        // the exact shortcuts
        let shortcut: Option<Result<(), &str>> = match o {
            Op::Add if az => Some(if got.same(nb) { Ok(()) } else { Err("adding an exact zero changed the operand") }),
            Op::Add | Op::Sub if bz => Some(if got.same(na) { Ok(()) } else { Err("adding or subtracting an exact zero changed the operand") }),
            Op::Mul if a1 => Some(if got.same(nb) { Ok(()) } else { Err("multiplying by an exact one changed the operand") }),
            Op::Mul if b1 => Some(if got.same(na) { Ok(()) } else { Err("multiplying by an exact one changed the operand") }),
            Op::Mul if az || bz => Some(if z && got.is_exact_zero() { Ok(()) } else { Err("an exact zero times a number is not exact zero") }),
            Op::Div if az && nb.to_f64() != 0.0 && !nb.to_f64().is_nan() => {
                Some(if z && got.is_exact_zero() { Ok(()) } else { Err("an exact zero divided by a non-zero number is not exact zero") })
            }
            Op::Div if az && nb.to_f64().is_nan() => Some(Ok(())),
            _ => None,
        };
        if let Some(s) = shortcut {
            match s {
                Ok(()) => c.count(&format!("shortcut {}", o.name())),
                Err(m) => c.violate(format!("{} = {}: {}", what(), got.text(), m)),
            }
            continue;
        }
        let (x, y) = (na.to_f64(), nb.to_f64());
        let want = match o {
            Op::Add => x + y,
            Op::Sub => x - y,
            Op::Mul => x * y,
            Op::Div => x / y,
            _ => -x,
        };
        // a fraction may be rounded to a double either way
        let slack = matches!(na, N::Frac(..)) || (o != Op::Neg && matches!(nb, N::Frac(..)));
        let tol = if !slack {
            0.0
        } else {
            match o {
                Op::Add | Op::Sub => 6.0 * EPS * (x.abs() + y.abs()),
                _ => 12.0 * EPS * want.abs() + 2e-323,
            }
        };
        let huge = slack && want.abs() > 1e308;
        let same = (want.is_nan() && gf.is_nan()) || want == gf || (gf - want).abs() <= tol || (huge && gf.abs() > 1e308 && (gf < 0.0) == (want < 0.0));
        // the sign of a zero shows when something is divided by it
        let same = same && (slack || az || bz || want != 0.0 || gf.is_sign_negative() == want.is_sign_negative());
        let still_real = matches!(got, N::Real(_) | N::Pi | N::E) && !z && !one;
        if !same {
            c.violate(format!("{} = {} but the double operation gives {:?}", what(), got.text(), want));
        } else if !still_real {
            c.violate(format!("{} = {}: an operation on a real does not give a real", what(), got.text()));
        } else {
            c.count(&format!("{} {} {}", na.kind(), o.name(), if o == Op::Neg { "" } else { nb.kind() }));
            c.sample(|| format!("{} = {:?}", what(), gf));
        }
    }
}

#[derive(Clone)]
struct Tracked {
    s: SmartNum,
    exact: Option<Rat>,
    how: String,
    /// must still be known as this constant
    constant: Option<N>,
}

fn flags_ok(s: &SmartNum, exact: Option<&Rat>) -> Result<(), String> {
    let f = s.to_f64();
    let flags = [s.is_zero(), s.is_one(), s.is_pi(), s.is_e()];
    if flags.iter().filter(|x| **x).count() > 1 {
        return Err(format!("reports more than one constant: zero,one,pi,e = {:?}", flags));
    }
    if s.is_zero() && f != 0.0 {
        return Err(format!("reports zero but is {:?}", f));
    }
    if s.is_one() && f != 1.0 {
        return Err(format!("reports one but is {:?}", f));
    }
    if s.is_pi() && f != std::f64::consts::PI {
        return Err(format!("reports pi but is {:?}", f));
    }
    if s.is_e() && f != std::f64::consts::E {
        return Err(format!("reports e but is {:?}", f));
    }
    // value seen through the exact views
    let seen = match N::from_sut(s) {
        n if n.is_exact() => n.exact(),
        _ => None,
    };
    for v in [seen.as_ref(), exact].into_iter().flatten() {
        let zero = v.is_zero();
        let one = eq(v, &Rat::int(1));
        if zero != s.is_zero() {
            return Err(format!("value {} but reports zero: {}", v.to_string(), s.is_zero()));
        }
        if one != s.is_one() {
            return Err(format!("value {} but reports one: {}", v.to_string(), s.is_one()));
        }
        if s.is_pi() || s.is_e() {
            return Err(format!("exact value {} reports pi or e", v.to_string()));
        }
    }
    Ok(())
}

fn agree(s: &SmartNum) -> Result<(), String> {
    let op = AstOperand::from(*s);
    let ex = Expression::from(*s);
    let a = [s.is_zero(), s.is_one(), s.is_pi(), s.is_e()];
    let b = [op.is_zero(), op.is_one(), op.is_pi(), op.is_e()];
    let d = [ex.is_zero(), ex.is_one(), ex.is_pi(), ex.is_e()];
    if a != b || a != d {
        return Err(format!("number, operand and expression disagree on zero,one,pi,e: {:?} {:?} {:?}", a, b, d));
    }
    Ok(())
}

/// Arithmetic whose exact result is one of the values the constants have, or next to one: zero, one
/// and the doubles nearest to pi and e as fractions.
fn aimed(r: &mut Rng) -> Tracked {
    let t = match r.below(8) {
        0..=2 => Rat::frac(false, 884279719003555, 1 << 48),
        3..=5 => Rat::frac(false, 6121026514868073, 1 << 51),
        6 => Rat::int(1),
        _ => Rat::int(0),
    };
    let t = if r.chance(25) { t.neg() } else { t };
    let b = match r.below(4) {
        0 => Rat::int(r.range(-4, 4)),
        1 => Rat::frac(r.chance(50), 1 + r.below(9), 1 << r.below(5)),
        2 => Rat::frac(r.chance(50), 1 + r.below(20), 1 + r.below(20)),
        _ => Rat::int(*r.pick(&[1, -1, 2, 3, 1000])),
    };
    let o = *r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg]);
    let a = match o {
        Op::Add => Some(t.sub(&b)),
        Op::Sub => Some(t.add(&b)),
        Op::Mul => t.div(&b),
        Op::Div => Some(t.mul(&b)),
        _ => Some(t.neg()),
    };
    let number = |q: &Rat| -> Option<SmartNum> {
        match (q.as_i64(), q.fits()) {
            (Some(i), _) => Some(SmartNum::from(i)),
            (None, true) => {
                SmartNum::new_rational(if q.neg { -1 } else { 1 }, q.n.to_u64()?, q.d.to_u64()?)
            }
            _ => None,
        }
    };
    let (x, y) = match a.as_ref().map(|a| (number(a), number(&b))) {
        Some((Some(x), Some(y))) if !(o == Op::Div && b.is_zero()) => (x, y),
        _ => return Tracked { s: SmartNum::one(), exact: Some(Rat::int(1)), how: "one()".into(), constant: None },
    };
    let how = format!("({} {} {})", a.as_ref().unwrap().to_string(), o.name(), b.to_string());
    if r.chance(20) {
        // the same in doubles: nothing is known of the result but its value
        let s = apply(o, SmartNum::from(x.to_f64()), SmartNum::from(y.to_f64()));
        return Tracked { s, exact: None, how: format!("{} in doubles", how), constant: None };
    }
    Tracked { s: apply(o, x, y), exact: Some(t), how, constant: None }
}

fn fresh(r: &mut Rng, d: &Dict) -> Tracked {
    let small = r.below(4) as u8;
    if r.chance(8) {
        return aimed(r);
    }
    let k = r.below(24);
    let (s, exact, how, constant): (SmartNum, Option<Rat>, String, Option<N>) = match k {
        0 => (SmartNum::zero(), Some(Rat::int(0)), "zero()".into(), None),
        1 => (SmartNum::one(), Some(Rat::int(1)), "one()".into(), None),
        2 | 3 => (SmartNum::pi(), None, "pi()".into(), Some(N::Pi)),
        4 | 5 => (SmartNum::e(), None, "e()".into(), Some(N::E)),
        6 => (SmartNum::from(small), Some(Rat::int(small as i64)), format!("{}u8", small), None),
        7 => {
            let v = small as i8 - 1;
            (SmartNum::from(v), Some(Rat::int(v as i64)), format!("{}i8", v), None)
        }
        8 => (SmartNum::from(small as u16), Some(Rat::int(small as i64)), format!("{}u16", small), None),
        9 => {
            let v = small as i16 - 1;
            (SmartNum::from(v), Some(Rat::int(v as i64)), format!("{}i16", v), None)
        }
        10 => (SmartNum::from(small as u32), Some(Rat::int(small as i64)), format!("{}u32", small), None),
        11 => {
            let v = small as i32 - 1;
            (SmartNum::from(v), Some(Rat::int(v as i64)), format!("{}i32", v), None)
        }
        12 => {
            let v = if r.chance(30) { interesting_u64(r, d) } else { small as u64 };
            (SmartNum::from(v), Some(Rat::frac(false, v, 1)), format!("{}u64", v), None)
        }
        13 => {
            let v = *r.pick(&[0.0f32, 1.0, -1.0, 3.1415927, 2.7182817]);
            (SmartNum::from(v), None, format!("{:?}f32", v), None)
        }
        14 | 15 => {
            let v = *r.pick(&[0.0, -0.0, 1.0, -1.0, std::f64::consts::PI, std::f64::consts::E, 0.5, 2.0]);
            (SmartNum::from(v), None, format!("{:?}f64", v), None)
        }
        16 | 17 => {
            let d = 1 + interesting_u64(r, d) % 1000;
            let neg = r.chance(40);
            let n = *r.pick(&[0, d, d, d * 2, 1]);
            (N::Frac(neg, n, d).to_sut(), Some(Rat::frac(neg, n, d)), format!("new_rational({},{},{})", if neg { -1 } else { 1 }, n, d), None)
        }
        18 => {
            let n = any_frac(r, d);
            (n.to_sut(), n.exact(), n.text(), None)
        }
        _ => {
            let v = if r.chance(50) { r.range(-3, 3) } else { interesting_i64(r, d) };
            (SmartNum::from(v), Some(Rat::int(v)), format!("{}i64", v), None)
        }
    };
    Tracked { s, exact, how, constant }
}

fn still(s: &SmartNum, k: Option<N>) -> bool {
    match k {
        Some(N::Pi) => s.is_pi(),
        Some(N::E) => s.is_e(),
        _ => true,
    }
}

pub fn c03(c: &mut Ctx, r: &mut Rng) {
    let steps = 12 + r.below(20);
    let mut pool: Vec<Tracked> = vec![];
    for step in 0..steps {
        let t = if pool.len() < 3 || r.chance(30) {
            let dict = c.dict.clone();
            match c.sut(|| "constructing a number".into(), || fresh(r, &dict)) {
                Some(t) => t,
                None => return,
            }
        } else {
            let a = r.pick(&pool).clone();
            let b = r.pick(&pool).clone();
            let o = *r.pick(&OPS);
            // dividing by an exact zero is another property's business
            let b_zero = b.exact.as_ref().map_or(b.s.to_f64() == 0.0, |q| q.is_zero());
            if o == Op::Div && b_zero {
                continue;
            }
            let route = r.below(3);
            let how = format!("({} {} {}){}", a.how, o.name(), if o == Op::Neg { "" } else { &b.how }, if route == 0 { " simplified" } else { "" });
            if how.len() > 400 {
                pool.remove(0);
                continue;
            }
            let (x, y) = (a.s, b.s);
            let s = c.sut(
                || how.clone(),
                || {
                    if route == 0 {
                        let (p, q) = (Expression::from(x), Expression::from(y));
                        let e = match o {
                            Op::Add => p + q,
                            Op::Sub => p - q,
                            Op::Mul => p * q,
                            Op::Div => p / q,
                            _ => -p,
                        };
                        *(&e.num_aggregate()).to_smart_num().expect("arithmetic on numbers folds to a number")
                    } else {
                        apply(o, x, y)
                    }
                },
            );
            let s = match s {
                Some(s) => s,
                None => return,
            };
            let za = a.exact.as_ref().map_or(false, |q| q.is_zero());
            let zb = b.exact.as_ref().map_or(false, |q| q.is_zero());
            let oa = a.exact.as_ref().map_or(false, |q| eq(q, &Rat::int(1)));
            let ob = b.exact.as_ref().map_or(false, |q| eq(q, &Rat::int(1)));
            let exact = match (&a.exact, &b.exact, o) {
                (Some(p), _, Op::Neg) => Some(p.neg()),
                (Some(p), Some(q), _) => exact_op(o, p, q),
                (p, q, Op::Mul) if p.as_ref().or(q.as_ref()).map_or(false, |v| v.is_zero()) => Some(Rat::zero()),
                (Some(p), None, Op::Div) if p.is_zero() && b.s.to_f64().is_finite() => Some(Rat::zero()),
                _ => None,
            };
            let exact = exact.filter(|v| v.as_i64().is_some() || v.fits());
            let constant = match o {
                Op::Add if za => b.constant,
                Op::Add | Op::Sub if zb => a.constant,
                Op::Mul if oa => b.constant,
                Op::Mul if ob => a.constant,
                _ => None,
            };
            Tracked { s, exact, how, constant }
        };
        let s = t.s;
        let res = c.sut(|| format!("inspecting {}", t.how), || flags_ok(&s, t.exact.as_ref()).and_then(|_| agree(&s)).map(|_| still(&s, t.constant)));
        match res {
            Some(Ok(true)) => {}
            Some(Ok(false)) => c.violate(format!("{} is no longer recognised as the constant it is", t.how)),
            Some(Err(m)) => c.violate(format!("{}: {}", t.how, m)),
            None => {}
        }
        let derived = step >= 3;
        c.eval(hash_str(&t.how), derived);
        c.count(if s.is_zero() {
            "recognised zero"
        } else if s.is_one() {
            "recognised one"
        } else if s.is_pi() {
            "recognised pi"
        } else if s.is_e() {
            "recognised e"
        } else {
            "nothing special"
        });
        if t.constant.is_some() && t.how.len() > 6 {
            c.count("constant kept through arithmetic");
        }
        c.sample(|| t.how.clone());
        if pool.len() > 10 {
            pool.remove(0);
        }
        pool.push(t);
    }
    // Routes through expressions: functions and their inverses, named constructors.
    let k = *r.pick(&[N::Pi, N::E, N::Int(0), N::Int(1)]);
    let wrap = r.below(6);
    let e = match wrap {
        0 => un(Op::Exp, un(Op::Ln, num(k))),
        1 => un(Op::Ln, un(Op::Exp, num(k))),
        2 => add(int(0), num(k)),
        3 => mul(sub(int(3), int(2)), num(k)),
        4 => sub(num(k), mul(int(0), num(N::Real(2.5)))),
        _ => neg(neg(num(k))),
    };
    if wrap == 5 && !k.is_exact() || wrap == 0 && k.is_exact_zero() {
        return;
    }
    let got = c.sut(|| e.text(), || {
        let x = to_sut(&e).num_aggregate();
        [x.is_zero(), x.is_one(), x.is_pi(), x.is_e()]
    });
    if let Some(g) = got {
        let want = [k.is_exact_zero(), k.is_exact_one(), matches!(k, N::Pi), matches!(k, N::E)];
        c.eval(e.hash(), true);
        if g != want {
            c.violate(format!("{} simplified reports zero,one,pi,e = {:?}, expected {:?}", e.text(), g, want));
        }
    }
    let named = c.sut(|| "named constants".into(), || {
        let f = |x: &Expression| [x.is_zero(), x.is_one(), x.is_pi(), x.is_e()];
        let v = Expression::new_variable("x");
        let o = -v.clone();
        (f(&Expression::zero()), f(&Expression::one()), f(&Expression::pi()), f(&Expression::e()), f(&v), f(&o))
    });
    if let Some((z, o, p, e, v, n)) = named {
        let t = |i: usize| [i == 0, i == 1, i == 2, i == 3];
        if z != t(0) || o != t(1) || p != t(2) || e != t(3) || v != t(9) || n != t(9) {
            c.violate("a named constant, variable or operator reports the wrong constants".into());
        }
    }
}

macro_rules! conv {
    ($c:expr, $r:expr, $t:ty, $v:expr, $exact:expr) => {{
        let v: $t = $v;
        let what = format!("{:?}{}", v, stringify!($t));
        let res = $c.sut(
            || format!("converting {}", what),
            || {
                let s = SmartNum::from(v);
                let o = AstOperand::from(v);
                let x = Expression::from(v);
                let from_o = *(&o).to_smart_num().expect("operand made of a number");
                let from_x = *(&x).to_smart_num().expect("expression made of a number");
                let owned = Expression::from(v).to_smart_num().expect("expression made of a number");
                let owned_o = AstOperand::from(v).to_smart_num().expect("operand made of a number");
                let xr = (&x).to_rational();
                let xr2 = x.to_rational();
                ([s, from_o, from_x, owned, owned_o], [(&s).to_rational(), s.to_rational(), xr, xr2])
            },
        );
        if let Some((all, rats)) = res {
            $c.eval(hash_str(&what), true);
            $c.count(stringify!($t));
            for s in &all {
                check_read($c, &what, s, $exact, v as f64);
            }
            for q in &rats {
                let ok = match (q, $exact) {
                    (None, None) => true,
                    (Some(q), Some(w)) => rat_of(q).map_or(false, |g| eq(&g, w)),
                    _ => false,
                };
                if !ok {
                    $c.violate(format!("{} read back as fraction is {:?}", what, q));
                }
            }
            $c.sample(|| what.clone());
        }
    }};
}

fn check_read(c: &mut Ctx, what: &str, s: &SmartNum, exact: Option<&Rat>, f: f64) {
    let (i, g, sign) = match c.sut(|| format!("reading {}", what), || (s.to_i64(), s.to_f64(), s.sign())) {
        Some(x) => x,
        None => return,
    };
    let want_sign = match exact {
        Some(q) if q.is_zero() => None,
        Some(q) => Some(if q.neg { -1 } else { 1 }),
        None if f == 0.0 || f.is_nan() => None,
        None => Some(if f < 0.0 { -1 } else { 1 }),
    };
    if let Some(w) = want_sign {
        if w != sign {
            c.violate(format!("{}: sign() is {}", what, sign));
        }
    } else if exact.is_some() && sign != 0 && sign != 1 {
        c.violate(format!("{}: sign() of zero is {}", what, sign));
    }
    match exact {
        Some(q) => {
            match (q.as_i64(), i) {
                (Some(a), Some(b)) if a == b => {}
                (None, None) => {}
                _ => c.violate(format!("{}: to_i64() is {:?}", what, i)),
            }
            if !within(g, q, 2.0 * EPS * q.abs().to_f64()) {
                c.violate(format!("{}: to_f64() is {:?}", what, g));
            }
        }
        None => {
            if i.is_some() {
                c.violate(format!("{}: a real has the integer view {:?}", what, i));
            }
            if !(g == f || (g.is_nan() && f.is_nan())) {
                c.violate(format!("{}: to_f64() is {:?}", what, g));
            }
        }
    }
}

pub fn c04(c: &mut Ctx, r: &mut Rng) {
    let d = c.dict.clone();
    for _ in 0..4 {
        let u = interesting_u64(r, &d);
        let i = interesting_i64(r, &d);
        conv!(c, r, u8, u as u8, Some(&Rat::int(u as u8 as i64)));
        conv!(c, r, i8, i as i8, Some(&Rat::int(i as i8 as i64)));
        conv!(c, r, u16, u as u16, Some(&Rat::int(u as u16 as i64)));
        conv!(c, r, i16, i as i16, Some(&Rat::int(i as i16 as i64)));
        conv!(c, r, u32, u as u32, Some(&Rat::int(u as u32 as i64)));
        conv!(c, r, i32, i as i32, Some(&Rat::int(i as i32 as i64)));
        conv!(c, r, u64, u, Some(&Rat::frac(false, u, 1)));
        conv!(c, r, i64, i, Some(&Rat::int(i)));
        let f = interesting_f64(r, &d);
        conv!(c, r, f64, f, None::<&Rat>);
        let g = if r.chance(30) { f32::from_bits(r.next() as u32) } else { f as f32 };
        conv!(c, r, f32, g, None::<&Rat>);
    }
    for t in 0..12 {
        let sign = match r.below(8) {
            0..=2 => 1,
            3..=5 => -1,
            6 => 0,
            _ => *r.pick(&[2, -2, 3, i64::MIN, i64::MAX, 127, 256, -256, (1 << 32) + 1, i64::MIN + 1]),
        };
        let n = interesting_u64(r, &d);
        let m = if r.chance(15) { 0 } else { interesting_u64(r, &d) };
        let what = format!("fraction({},{},{})", sign, n, m);
        let valid = (sign == 1 || sign == -1) && m != 0;
        let kind = t % 4;
        let res = c.sut(
            || what.clone(),
            || match kind {
                0 => SmartNum::new_rational(sign, n, m).map(|s| (None, Some(s))),
                1 => RationalNum::new(sign, n, m).map(|q| (Some(q), None)),
                2 => RationalNum::new_positive(n, m).map(|q| (Some(q), None)),
                _ => RationalNum::new_negative(n, m).map(|q| (Some(q), None)),
            },
        );
        let res = match res {
            Some(x) => x,
            None => continue,
        };
        let (valid, sign) = match kind {
            2 => (m != 0, 1),
            3 => (m != 0, -1),
            _ => (valid, sign),
        };
        c.eval(hash_str(&format!("{} {}", what, kind)), true);
        c.count(if valid { "fraction accepted" } else { "fraction refused" });
        match res {
            None if !valid => {}
            Some(_) if !valid => c.violate(format!("{} was accepted", what)),
            None => c.violate(format!("{} was refused", what)),
            Some((q, s)) => {
                let want = Rat::frac(sign < 0, n, m);
                if let Some(s) = s {
                    let q = c.sut(|| what.clone(), || s.to_rational()).flatten();
                    match q {
                        Some(q) if q.sign == sign && q.nominator == n && q.denominator == m => {}
                        _ => c.violate(format!("{} has the parts {:?}", what, q)),
                    }
                    let (f, sg, i) = match c.sut(|| what.clone(), || (s.to_f64(), s.sign(), s.to_i64())) {
                        Some(x) => x,
                        None => continue,
                    };
                    if !within(f, &want, 4.0 * EPS * want.abs().to_f64()) {
                        c.violate(format!("{}: to_f64() is {:?}", what, f));
                    }
                    if n != 0 && sg != sign {
                        c.violate(format!("{}: sign() is {}", what, sg));
                    }
                    if let Some(i) = i {
                        if want.as_i64() != Some(i) {
                            c.violate(format!("{}: to_i64() is {}", what, i));
                        }
                    }
                }
                if let Some(q) = q {
                    if q.sign != sign || q.nominator != n || q.denominator != m {
                        c.violate(format!("{} has the parts {:?}", what, q));
                    }
                    if let Some(f) = c.sut(|| what.clone(), || q.to_f64()) {
                        if !within(f, &want, 4.0 * EPS * want.abs().to_f64()) {
                            c.violate(format!("{}: to_f64() is {:?}", what, f));
                        }
                    }
                }
            }
        }
    }
    // fractions made of integers
    let u = interesting_u64(r, &d);
    let i = interesting_i64(r, &d);
    if let Some((a, b)) = c.sut(|| format!("fractions of {} and {}", u, i), || (RationalNum::from(u), RationalNum::from(i))) {
        for (q, w) in [(a, Rat::frac(false, u, 1)), (b, Rat::int(i))] {
            if rat_of(&q).map_or(true, |g| !eq(&g, &w)) || (q.sign != 1 && q.sign != -1) {
                c.violate(format!("fraction made of {} is {:?}", w.to_string(), q));
            }
        }
    }
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn canonical(q: &RationalNum) -> bool {
    (q.sign == 1 || q.sign == -1) && q.denominator > 0 && gcd(q.nominator, q.denominator) == 1
}

pub fn c05(c: &mut Ctx, r: &mut Rng) {
    let ops = [Op::Add, Op::Sub, Op::Mul, Op::Div];
    let frac = |n: N| match n {
        N::Frac(neg, a, d) => RationalNum::new(if neg { -1 } else { 1 }, a, d).expect("valid parts"),
        _ => unreachable!(),
    };
    // single operations and comparisons
    for _ in 0..16 {
        let (na, nb) = loop {
            let (mut a, mut b) = edge_pair(r, c);
            if let N::Int(i) = a {
                a = N::Frac(i < 0, i.unsigned_abs(), 1);
            }
            if let N::Int(i) = b {
                b = N::Frac(i < 0, i.unsigned_abs(), 1);
            }
            if matches!(a, N::Frac(..)) && matches!(b, N::Frac(..)) {
                break (a, b);
            }
        };
        let (a, b) = (na.exact().unwrap(), nb.exact().unwrap());
        let key = format!("{} {}", na.text(), nb.text());
        c.eval(hash_str(&key), boundary(na) || boundary(nb) || gcd_of(na) > 1 || gcd_of(nb) > 1);
        // equality
        if let Some((e1, e2, ne, s1)) = c.sut(|| format!("comparing {}", key), || {
            let (x, y) = (frac(na), frac(nb));
            (x == y, y == x, x != y, x == x)
        }) {
            let want = eq(&a, &b);
            c.count(if want { "equal pair" } else { "unequal pair" });
            if e1 != want || e2 != want || ne == want || !s1 {
                c.violate(format!("{}: == says {}, {} and != says {}, values are equal: {}", key, e1, e2, ne, want));
            }
        }
        // reduction
        if let Some(q) = c.sut(|| format!("reducing {}", na.text()), || frac(na).reduce()) {
            if !canonical(&q) || rat_of(&q).map_or(true, |g| !eq(&g, &a)) {
                c.violate(format!("{} reduced is {:?}", na.text(), q));
            }
        }
        // value-preserving multiples compare equal
        let kb = r.below(20);
        let k = 2 + r.below(1 << kb);
        if let N::Frac(s, n, d) = na {
            if let (Some(n2), Some(d2)) = (n.checked_mul(k), d.checked_mul(k)) {
                let nk = N::Frac(s, n2, d2);
                if let Some(false) = c.sut(|| key.clone(), || frac(na) == frac(nk)) {
                    c.violate(format!("{} and {} compare unequal", na.text(), nk.text()));
                }
                c.count("equal pair, scaled");
            }
        }
        for o in ops {
            let want = match exact_op(o, &a, &b) {
                Some(w) if w.fits() => w,
                _ => continue,
            };
            let q = c.sut(
                || format!("{} {} {}", na.text(), o.name(), nb.text()),
                || {
                    let (x, y) = (frac(na), frac(nb));
                    match o {
                        Op::Add => x + y,
                        Op::Sub => x - y,
                        Op::Mul => x * y,
                        _ => x / y,
                    }
                },
            );
            if let Some(q) = q {
                c.count(&format!("op {}", o.name()));
                if !canonical(&q) {
                    c.violate(format!("{} {} {} = {:?} is not canonical", na.text(), o.name(), nb.text(), q));
                } else if !eq(&rat_of(&q).unwrap(), &want) {
                    c.violate(format!("{} {} {} = {:?}, expected {}", na.text(), o.name(), nb.text(), q, want.to_string()));
                }
                c.sample(|| format!("{} {} {} = {:?}", na.text(), o.name(), nb.text(), q));
            }
        }
        if let Some(q) = c.sut(|| format!("negating {}", na.text()), || -frac(na)) {
            if rat_of(&q).map_or(true, |g| !eq(&g, &a.neg())) || (q.sign != 1 && q.sign != -1) {
                c.violate(format!("-({}) = {:?}", na.text(), q));
            }
        }
    }
    // chains
    let mut acc = match any_frac(r, &c.dict) {
        N::Frac(s, n, d) => (RationalNum::new(if s { -1 } else { 1 }, n % 1000, d % 1000 + 1).unwrap(), Rat::frac(s, n % 1000, d % 1000 + 1)),
        _ => unreachable!(),
    };
    let mut how = format!("{:?}", acc.1.to_string());
    for _ in 0..12 {
        let n = N::Frac(r.chance(50), r.below(40), 1 + r.below(40));
        let o = *r.pick(&ops);
        let b = n.exact().unwrap();
        let want = match exact_op(o, &acc.1, &b) {
            Some(w) if w.fits() => w,
            _ => continue,
        };
        how = format!("({} {} {})", how, o.name(), n.text());
        let x = acc.0;
        let flip = o != Op::Div && o != Op::Sub && r.chance(40);
        let q = c.sut(|| how.clone(), || {
            let y = frac(n);
            match o {
                Op::Add if flip => y + x,
                Op::Mul if flip => y * x,
                Op::Add => x + y,
                Op::Sub => x - y,
                Op::Mul => x * y,
                _ => x / y,
            }
        });
        let q = match q {
            Some(q) => q,
            None => return,
        };
        if !canonical(&q) || !eq(&rat_of(&q).unwrap(), &want) {
            c.violate(format!("{} = {:?}, expected {}", how, q, want.to_string()));
            return;
        }
        acc = (q, want);
        c.count("chain step");
    }
    c.eval(hash_str(&how), true);
    // chains as users build them: numbers through arithmetic
    let mut s = N::Int(r.range(-9, 9));
    let mut v = s.exact().unwrap();
    let mut how = s.text();
    for _ in 0..10 {
        let n = if r.chance(40) { N::Int(r.range(-12, 12)) } else { N::Frac(r.chance(50), r.below(30), 1 + r.below(30)) };
        let o = *r.pick(&ops);
        let b = n.exact().unwrap();
        let want = match exact_op(o, &v, &b) {
            Some(w) if w.fits() => w,
            _ => continue,
        };
        how = format!("({} {} {})", how, o.name(), n.text());
        let g = match c.sut(|| how.clone(), || N::from_sut(&apply(o, s.to_sut(), n.to_sut()))) {
            Some(g) => g,
            None => return,
        };
        if let N::Frac(_, a, d) = g {
            if d == 0 || gcd(a, d) != 1 {
                // an operand handed through unchanged (or negated, out of zero) keeps its parts
                if !(g.same(s) || g.same(n) || g.same(flip_sign(n))) {
                    c.violate(format!("{} = {} is not in lowest terms", how, g.text()));
                    return;
                }
            }
        }
        match g.exact() {
            Some(q) if eq(&q, &want) => {}
            _ => {
                c.violate(format!("{} = {}, expected {}", how, g.text(), want.to_string()));
                return;
            }
        }
        s = g;
        v = want;
    }
}

fn flip_sign(n: N) -> N {
    match n {
        N::Frac(s, a, d) => N::Frac(!s, a, d),
        x => x,
    }
}

fn gcd_of(n: N) -> u64 {
    match n {
        N::Frac(_, a, d) => gcd(a, d),
        _ => 1,
    }
}

pub fn c06(c: &mut Ctx, r: &mut Rng) {
    for _ in 0..30 {
        let na = match r.below(5) {
            0 => *r.pick(&[N::Int(0), N::Frac(false, 0, 7), N::Frac(true, 0, 2), N::Int(1), N::Int(-1), N::Frac(false, 4, 4), N::Pi, N::E, N::Real(0.0), N::Real(-0.0), N::Real(1.0)]),
            _ => any_num(r, &c.dict),
        };
        let zero = match r.below(5) {
            0 | 1 => N::Int(0),
            2 => N::Frac(false, 0, 1),
            3 => N::Frac(true, 0, 1 + r.below(9)),
            _ => N::Frac(false, 0, interesting_u64(r, &c.dict).max(1)),
        };
        let small = |r: &mut Rng| int(r.range(-9, 9));
        let route = r.below(8);
        let (num_e, den_e) = match route {
            0..=3 => (num(na), num(zero)),
            4 => {
                let k = small(r);
                (num(na), sub(k.clone(), k))
            }
            5 => (num(na), mul(num(zero), num(any_num(r, &c.dict)))),
            6 => (num(na), neg(add(num(zero), un(Op::Ln, int(1))))),
            _ => (add(int(0), num(na)), un(Op::Sin, num(zero))),
        };
        let e = div(num_e, den_e);
        let direct = route < 3;
        let res = c.sut(
            || e.text(),
            || {
                let q = if direct {
                    na.to_sut() / zero.to_sut()
                } else {
                    match to_sut(&e).num_aggregate().to_smart_num() {
                        Ok(s) => s,
                        Err(_) => return None,
                    }
                };
                Some((q.to_f64(), q.is_zero(), q.is_one(), q.to_i64()))
            },
        );
        c.eval(e.hash(), true);
        match res {
            None => {}
            Some(None) => c.violate(format!("{} does not simplify to a number", e.text())),
            Some(Some((f, z, o, i))) => {
                c.count(&format!("{} by zero: {}", na.kind(), if f.is_nan() { "nan" } else { "inf" }));
                c.sample(|| format!("{} = {:?}", e.text(), f));
                if f.is_finite() || z || o || i.is_some() {
                    c.violate(format!("{} = {:?}, is_zero {}, is_one {}, integer {:?}", e.text(), f, z, o, i));
                }
            }
        }
    }
}

pub fn c07(c: &mut Ctx, r: &mut Rng) {
    for _ in 0..30 {
        let na = any_num(r, &c.dict);
        let nb = match r.below(4) {
            0 => na,
            1 => {
                // close by: same kind of value, shifted
                let d = *r.pick(&[1e-12, 1e-9, 1e-6, 1e-3, 0.1, 1.0]) * (r.unit() * 2.0 - 1.0);
                N::Real(na.to_f64() + d)
            }
            _ => any_num(r, &c.dict),
        };
        let (a, b) = match (na.exact_or_double(), nb.exact_or_double()) {
            (Some(a), Some(b)) => (a, b),
            _ => continue,
        };
        let diff = a.sub(&b).abs();
        let df = diff.to_f64();
        let eps = match r.below(10) {
            0 => df * 2.0,
            1 => df * 0.5,
            2 => df * 1.001,
            3 => df * 0.999,
            4 => 1e-9,
            5 => 1e-9 * 10f64.powi(r.range(-6, 12) as i32),
            6 => *r.pick(&[1e-300, 1e300, f64::MAX, f64::INFINITY, f64::MIN_POSITIVE, 1.0]),
            7 => -r.unit(),
            8 => df + 1e-9,
            _ => r.unit() * 10.0,
        };
        let noise = 8.0 * EPS * (a.abs().to_f64() + b.abs().to_f64());
        // clearly below / above the tolerance
        let want = if eps.is_infinite() && eps > 0.0 {
            if df < 1e300 {
                Some(true)
            } else {
                None
            }
        } else if df + noise < eps * (1.0 - 1e-12) {
            Some(true)
        } else if df - noise > eps * (1.0 + 1e-12) || eps < 0.0 {
            Some(false)
        } else {
            None
        };
        let what = format!("{} ~ {} within {:e}", na.text(), nb.text(), eps);
        let res = c.sut(
            || what.clone(),
            || {
                let (x, y) = (na.to_sut(), nb.to_sut());
                let (p, q) = (to_sut(&num(na)), to_sut(&num(nb)));
                (
                    [x.is_close(y, eps), (&x).is_close(&y, eps), p.near(&q, eps).expect("numbers compare")],
                    [y.is_close(x, eps), (&y).is_close(&x, eps), q.near(&p, eps).expect("numbers compare")],
                    (x.is_close(x, eps.abs().max(1e-300)), p.near(&p, eps.abs().max(1e-300)).expect("numbers compare")),
                )
            },
        );
        if let Some((f, b, own)) = res {
            c.eval(hash_str(&what), want.is_some() && df != 0.0);
            c.count(match want {
                Some(true) => "close",
                Some(false) => "not close",
                None => "at the threshold",
            });
            c.sample(|| format!("{}: {:?}", what, f));
            if f[0] != b[0] || f[1] != b[1] || (f[2] != b[2] && want.is_some()) {
                c.violate(format!("{}: not symmetric: {:?} {:?}", what, f, b));
            }
            if let Some(w) = want {
                if f.iter().any(|x| *x != w) {
                    c.violate(format!("{}: {:?}, but the difference is {:e}", what, f, df));
                }
            }
            if na.to_f64().is_finite() && (!own.0 || !own.1) {
                c.violate(format!("{} is not close to itself within {:e}", na.text(), eps.abs()));
            }
        }
        // exactly at the threshold, all three exact in double: the difference is not below it
        if r.chance(20) {
            let scale = *r.pick(&[1.0, 1.0, 0.5, 0.125, 1024.0]);
            let (i, j) = (r.range(-5000, 5000), r.range(-5000, 5000));
            let form = |r: &mut Rng, k: i64| -> N {
                let v = k as f64 * scale;
                match r.below(3) {
                    0 if v.fract() == 0.0 => N::Int(v as i64),
                    1 => N::Frac(k < 0, (v.abs() * 16.0) as u64, 16),
                    _ => N::Real(v),
                }
            };
            let (na, nb) = (form(r, i), form(r, j));
            let d = ((i - j) as f64 * scale).abs();
            let what = format!("{} ~ {} within {:e}", na.text(), nb.text(), d);
            let res = c.sut(
                || what.clone(),
                || {
                    let (x, y) = (na.to_sut(), nb.to_sut());
                    let (p, q) = (to_sut(&num(na)), to_sut(&num(nb)));
                    [x.is_close(y, d), (&x).is_close(&y, d), p.near(&q, d).expect("numbers compare")]
                },
            );
            c.eval(hash_str(&what), true);
            c.count("exactly at the threshold");
            if let Some(f) = res {
                if f.iter().any(|x| *x) {
                    c.violate(format!("{}: {:?}, but that is the difference", what, f));
                }
            }
        }
        // not-a-number and infinities
        if r.chance(15) {
            let odd = *r.pick(&[f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            let other = match r.below(3) {
                0 if odd.is_nan() => N::Real(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])),
                0 => N::Real(-odd),
                _ if na.to_f64().is_finite() => na,
                _ => N::Int(r.range(-3, 3)),
            };
            let tol = *r.pick(&[1e-9, 1e-300, 1.0, f64::MAX, eps.abs().min(1e300)]);
            let what = format!("{:?} ~ {} within {:e}", odd, other.text(), tol);
            let res = c.sut(
                || what.clone(),
                || {
                    let (x, y) = (SmartNum::from(odd), other.to_sut());
                    let (p, q) = (Expression::from(odd), to_sut(&num(other)));
                    [x.is_close(y, tol), (&x).is_close(&y, tol), p.near(&q, tol).expect("numbers compare"), y.is_close(x, tol), (&y).is_close(&x, tol), q.near(&p, tol).expect("numbers compare")]
                },
            );
            c.eval(hash_str(&what), true);
            c.count("not-a-number or infinite");
            if let Some(f) = res {
                if f.iter().any(|x| *x) {
                    c.violate(format!("{}: {:?}", what, f));
                }
            }
        }
        // not a number
        if r.chance(20) {
            let cfg = Cfg::general(&["x", "y"]);
            let e = loop {
                let e = tree(r, &cfg, &c.dict, 6);
                if !e.is_num() {
                    break e;
                }
            };
            let res = c.sut(|| format!("near of {}", e.text()), || {
                let x = to_sut(&e);
                let p = to_sut(&num(na));
                let m = x.near(&p, eps).map_err(|e| e.to_string());
                (m, p.near(&x, eps).is_err(), x.near(&x, eps).is_err())
            });
            c.eval(e.hash(), true);
            c.count("refused comparison");
            if let Some((a, b, d)) = res {
                if a.is_ok() || !b || !d {
                    c.violate(format!("near accepts {}, which is not a number", e.text()));
                }
            }
        }
    }
}

/// What a number's text says.
fn read_text(s: &str) -> Option<N> {
    match s {
        "pi" => return Some(N::Pi),
        "e" => return Some(N::E),
        _ => {}
    }
    let (neg, rest) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    if let Some((a, b)) = rest.split_once('/') {
        return if digits(a) && digits(b) { Some(N::Frac(neg, a.parse().ok()?, b.parse().ok()?)) } else { None };
    }
    if let Some((a, b)) = rest.split_once('.') {
        return if digits(a) && digits(b) && b.len() == 3 { Some(N::Real(s.parse().ok()?)) } else { None };
    }
    if digits(rest) {
        s.parse().ok().map(N::Int)
    } else {
        None
    }
}

fn text_ok(n: N, text: &str) -> Result<(), String> {
    let canonical = match n {
        N::Int(i) => Some(i.to_string()),
        _ if n.is_exact_zero() => Some("0".into()),
        _ if n.is_exact_one() => Some("1".into()),
        N::Frac(neg, a, d) => Some(format!("{}{}/{}", if neg { "-" } else { "" }, a, d)),
        N::Pi => Some("pi".into()),
        N::E => Some("e".into()),
        N::Real(_) => None,
    };
    if let Some(w) = canonical {
        return if w == text { Ok(()) } else { Err(format!("prints {:?}, expected {:?}", text, w)) };
    }
    if let N::Real(f) = n {
        if !f.is_finite() {
            return Ok(());
        }
        let t = match read_text(text) {
            Some(N::Real(_)) => text,
            _ => return Err(format!("the real {:?} prints {:?}", f, text)),
        };
        // the text as an exact decimal
        let neg = t.starts_with('-');
        let t = t.trim_start_matches('-');
        let (a, b) = t.split_once('.').unwrap();
        let n = crate::big::Nat::parse(&format!("{}{}", a, b)).unwrap();
        let v = Rat::new(neg, n, crate::big::Nat::from_u64(1000));
        let want = Rat::from_f64(f).unwrap();
        if v.sub(&want).abs().cmp(&Rat::frac(false, 1, 2000)) == Ordering::Greater {
            return Err(format!("the real {:?} prints {:?}", f, text));
        }
    }
    Ok(())
}

pub fn c08(c: &mut Ctx, r: &mut Rng) {
    let mut seen: Vec<(N, String)> = vec![];
    for _ in 0..20 {
        let computed = r.chance(40);
        let mut n = any_num(r, &c.dict);
        if r.chance(10) {
            n = *r.pick(&[N::Int(0), N::Int(1), N::Frac(false, 0, 4), N::Frac(false, 6, 6), N::Frac(true, 6, 6), N::Int(-1), N::Pi, N::E, N::Real(0.0), N::Real(-0.0), N::Real(1.0), N::Real(std::f64::consts::PI)]);
        }
        let m = any_num(r, &c.dict);
        let o = *r.pick(&OPS);
        if computed && o == Op::Div && m.to_f64() == 0.0 {
            continue;
        }
        let what = if computed { format!("{} {} {}", n.text(), o.name(), m.text()) } else { n.text() };
        let res = c.sut(
            || format!("printing {}", what),
            || {
                let s = if computed { apply(o, n.to_sut(), m.to_sut()) } else { n.to_sut() };
                let op = AstOperand::from(s);
                let x = Expression::from(s);
                let q = s.to_rational().map(|q| q.to_string());
                (N::from_sut(&s), [s.to_string(), format!("{}", s), op.to_string(), format!("{}", op), x.to_string(), format!("{}", x), format!("{}", Expression::from(op.clone()))], q)
            },
        );
        let (v, texts, q) = match res {
            Some(x) => x,
            None => continue,
        };
        c.eval(hash_str(&what), !matches!(v, N::Int(i) if i.unsigned_abs() <= 100) && !(matches!(v, N::Real(f) if f.fract() == 0.0 && f.abs() <= 100.0)));
        c.count(&format!("{}{}", v.kind(), if computed { " computed" } else { "" }));
        c.sample(|| format!("{} prints {:?}", what, texts[0]));
        if texts.iter().any(|t| *t != texts[0]) {
            c.violate(format!("{} prints differently by route: {:?}", what, texts));
        }
        if let Err(e) = text_ok(v, &texts[0]) {
            c.violate(format!("{}: {}", what, e));
        }
        // the fraction's own text
        if let Some(t) = q {
            let want = v.exact();
            let got = read_text(&t).and_then(|x| x.exact());
            match (got, want) {
                (Some(g), Some(w)) if eq(&g, &w) => {}
                (_, None) => {}
                _ => c.violate(format!("{} as fraction prints {:?}", what, t)),
            }
        }
        if v.is_exact() {
            seen.push((v, texts[0].clone()));
        }
    }
    for i in 0..seen.len() {
        for j in 0..i {
            if seen[i].1 == seen[j].1 && !eq(&seen[i].0.exact().unwrap(), &seen[j].0.exact().unwrap()) {
                c.violate(format!("{} and {} both print {:?}", seen[i].0.text(), seen[j].0.text(), seen[i].1));
            }
        }
    }
}
