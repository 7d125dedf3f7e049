//! Evaluation over the reals with error bounds: a value is a double and a radius, an operation on
//! values without error whose double result is exact has no error. What is undefined over the
//! reals and what the bounds cannot decide are told apart.

use crate::big::Rat;
use crate::model::{Op, E, N};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug)]
pub struct B {
    pub m: f64,
    pub r: f64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    /// not defined over the reals
    Undef,
    /// not decidable within the bounds, or out of the range of doubles
    Unclear,
}

pub type R<T> = Result<T, Bad>;

const EPS: f64 = 2.220446049250313e-16;
const UP: f64 = 1.0 + 8.0 * EPS;

fn mk(m: f64, r: f64) -> R<B> {
    if !m.is_finite() || !r.is_finite() || m.abs() > 1e300 {
        return Err(Bad::Unclear);
    }
    Ok(B { m, r: if r == 0.0 { 0.0 } else { r * UP + 1e-310 } })
}

pub fn exact(m: f64) -> B {
    B { m, r: 0.0 }
}

impl B {
    pub fn is_exact(self) -> bool {
        self.r == 0.0
    }
    pub fn is_zero(self) -> bool {
        self.m == 0.0 && self.r == 0.0
    }
    pub fn has_zero(self) -> bool {
        self.m.abs() <= self.r
    }
    pub fn int(self) -> Option<i64> {
        if self.is_exact() && self.m.fract() == 0.0 && self.m.abs() < 9e15 {
            Some(self.m as i64)
        } else {
            None
        }
    }
    pub fn add(self, o: B) -> R<B> {
        let s = self.m + o.m;
        let bb = s - self.m;
        let err = (self.m - (s - bb)) + (o.m - bb);
        mk(s, self.r + o.r + err.abs())
    }
    pub fn neg(self) -> B {
        B { m: -self.m, r: self.r }
    }
    pub fn sub(self, o: B) -> R<B> {
        self.add(o.neg())
    }
    pub fn mul(self, o: B) -> R<B> {
        if self.is_zero() || o.is_zero() {
            return Ok(exact(0.0));
        }
        let p = self.m * o.m;
        let mut err = self.m.mul_add(o.m, -p).abs();
        if p.abs() < 1e-280 && self.m != 0.0 && o.m != 0.0 {
            err += 1e-300;
        }
        let spread = if self.r == 0.0 && o.r == 0.0 { 0.0 } else { self.m.abs() * o.r + o.m.abs() * self.r + self.r * o.r + 1e-300 };
        mk(p, err + spread)
    }
    pub fn div(self, o: B) -> R<B> {
        if o.is_zero() {
            return Err(Bad::Undef);
        }
        if o.has_zero() {
            return Err(Bad::Unclear);
        }
        let q = self.m / o.m;
        let mut resid = q.mul_add(-o.m, self.m).abs();
        if (q.abs() < 1e-280 || self.m.abs() < 1e-280) && self.m != 0.0 {
            resid += 1e-300 * (1.0 + o.m.abs());
        }
        let num = resid + self.r + if o.r == 0.0 { 0.0 } else { q.abs() * o.r };
        mk(q, if num == 0.0 { 0.0 } else { num * UP / (o.m.abs() - o.r) + 1e-300 })
    }
    pub fn exp(self) -> R<B> {
        if self.is_zero() {
            return Ok(exact(1.0));
        }
        let v = self.m.exp();
        if self.r > 1.0 {
            return Err(Bad::Unclear);
        }
        mk(v, v * (self.r.exp_m1() + 4.0 * EPS) + 1e-300)
    }
    pub fn ln(self) -> R<B> {
        if self.m + self.r <= 0.0 {
            return Err(Bad::Undef);
        }
        if self.m - self.r <= 0.0 || self.m < 1e-290 {
            return Err(Bad::Unclear);
        }
        if self.is_exact() && self.m == 1.0 {
            return Ok(exact(0.0));
        }
        let v = self.m.ln();
        mk(v, self.r / (self.m - self.r) + 4.0 * EPS * v.abs() + 1e-300)
    }
    pub fn sin(self) -> R<B> {
        if self.is_zero() {
            return Ok(exact(0.0));
        }
        let v = self.m.sin();
        mk(v, self.r.min(2.0) + 4.0 * EPS)
    }
    pub fn cos(self) -> R<B> {
        if self.is_zero() {
            return Ok(exact(1.0));
        }
        let v = self.m.cos();
        mk(v, self.r.min(2.0) + 4.0 * EPS)
    }
    pub fn powi(self, n: i64) -> R<B> {
        if n < 0 {
            let p = self.powi(-n)?;
            return exact(1.0).div(p);
        }
        if n > 400 {
            if self.has_zero() && !self.is_zero() {
                return Err(Bad::Unclear);
            }
            if self.is_zero() {
                return Ok(exact(0.0));
            }
            let a = B { m: self.m.abs(), r: self.r };
            let v = a.ln()?.mul(exact(n as f64))?.exp()?;
            return Ok(if self.m < 0.0 && n % 2 == 1 { v.neg() } else { v });
        }
        let mut r = exact(1.0);
        let mut b = self;
        let mut k = n;
        while k > 0 {
            if k & 1 == 1 {
                r = r.mul(b)?;
            }
            k >>= 1;
            if k > 0 {
                b = b.mul(b)?;
            }
        }
        Ok(r)
    }
    /// Positive base: any exponent; other bases: integer exponents; 0^0 = 1.
    pub fn pow(self, e: B) -> R<B> {
        if let Some(n) = e.int() {
            return self.powi(n);
        }
        if self.is_zero() {
            return if e.m - e.r > 0.0 {
                Ok(exact(0.0))
            } else if e.m + e.r < 0.0 {
                Err(Bad::Undef)
            } else {
                Err(Bad::Unclear)
            };
        }
        if self.m + self.r < 0.0 {
            // A negative base needs an integer exponent; can this one be an integer?
            let near = (e.m - e.m.round()).abs() <= e.r || e.m.abs() > 1e15;
            return Err(if near { Bad::Unclear } else { Bad::Undef });
        }
        if self.m - self.r <= 0.0 {
            return Err(Bad::Unclear);
        }
        if self.is_exact() && self.m == 1.0 {
            return Ok(exact(1.0));
        }
        self.ln()?.mul(e)?.exp()
    }
    pub fn apply(o: Op, a: B, b: Option<B>) -> R<B> {
        match o {
            Op::Neg => Ok(a.neg()),
            Op::Sin => a.sin(),
            Op::Cos => a.cos(),
            Op::Exp => a.exp(),
            Op::Ln => a.ln(),
            Op::Add => a.add(b.unwrap()),
            Op::Sub => a.sub(b.unwrap()),
            Op::Mul => a.mul(b.unwrap()),
            Op::Div => a.div(b.unwrap()),
            Op::Pow => a.pow(b.unwrap()),
        }
    }
}

pub fn of_rat(q: &Rat) -> R<B> {
    let m = q.to_f64();
    if Rat::from_f64(m).map_or(false, |x| x == *q) {
        Ok(exact(m))
    } else {
        mk(m, m.abs() * 4.0 * EPS)
    }
}

pub fn of_num(n: N) -> R<B> {
    match n {
        N::Int(i) => {
            let m = i as f64;
            mk(m, (i as i128 - m as i128).abs() as f64)
        }
        N::Frac(neg, a, d) => {
            if d == 0 {
                return Err(Bad::Undef);
            }
            let x = mk(a as f64, (a as i128 - (a as f64) as i128).abs() as f64)?;
            let y = mk(d as f64, (d as i128 - (d as f64) as i128).abs() as f64)?;
            let q = x.div(y)?;
            Ok(if neg { q.neg() } else { q })
        }
        N::Real(f) => {
            if f.is_finite() {
                mk(f, 0.0)
            } else {
                Err(Bad::Undef)
            }
        }
        N::Pi => mk(std::f64::consts::PI, 2.0 * EPS),
        N::E => mk(std::f64::consts::E, 2.0 * EPS),
    }
}

pub type Env = BTreeMap<String, B>;

pub fn join<T, U>(a: R<T>, b: R<U>) -> R<(T, U)> {
    match (a, b) {
        (Ok(x), Ok(y)) => Ok((x, y)),
        (Err(Bad::Undef), _) | (_, Err(Bad::Undef)) => Err(Bad::Undef),
        _ => Err(Bad::Unclear),
    }
}

pub struct Evaluator<'a> {
    pub env: &'a Env,
    /// extra relative error granted to real literals
    pub real_eps: f64,
    /// extra absolute error granted to real literals
    pub real_abs: f64,
    /// largest magnitude met
    pub max: f64,
}

impl<'a> Evaluator<'a> {
    pub fn new(env: &'a Env) -> Self {
        Evaluator { env, real_eps: 0.0, real_abs: 0.0, max: 0.0 }
    }
    pub fn eval(&mut self, e: &E) -> R<B> {
        let r = match e {
            E::Num(n) => {
                let b = of_num(*n)?;
                match n {
                    N::Real(f) if self.real_eps > 0.0 || self.real_abs > 0.0 => mk(b.m, b.r + self.real_eps * f.abs() + self.real_abs),
                    _ => Ok(b),
                }
            }
            E::Var(x) => self.env.get(&**x).copied().ok_or(Bad::Unclear),
            E::Op(o, c) => {
                if c.len() != o.arity() {
                    return Err(Bad::Undef);
                }
                if c.len() == 1 {
                    let a = self.eval(&c[0])?;
                    B::apply(*o, a, None)
                } else {
                    let a = self.eval(&c[0]);
                    let b = self.eval(&c[1]);
                    let (a, b) = join(a, b)?;
                    B::apply(*o, a, Some(b))
                }
            }
        };
        if let Ok(b) = &r {
            self.max = self.max.max(b.m.abs());
        }
        r
    }
}

pub fn eval(e: &E, env: &Env) -> R<B> {
    Evaluator::new(env).eval(e)
}

/// Clearly different, beyond the bounds and a margin relative to the values and to the largest
/// intermediate magnitude.
pub fn differ(a: B, b: B, max: f64) -> bool {
    let tol = 64.0 * (a.r + b.r) + 1e-9 * a.m.abs().max(b.m.abs()) + 1e-12 * max.min(1e250) + 1e-280;
    (a.m - b.m).abs() > tol
}

/// Exact evaluation with rationals; None if not rational, undefined or too large.
pub fn eval_rat(e: &E, env: &BTreeMap<String, Rat>) -> Option<Rat> {
    let r = match e {
        E::Num(n) => n.exact()?,
        E::Var(x) => env.get(&**x)?.clone(),
        E::Op(o, c) => {
            if c.len() != o.arity() {
                return None;
            }
            let a = eval_rat(&c[0], env)?;
            match o {
                Op::Neg => a.neg(),
                Op::Add => a.add(&eval_rat(&c[1], env)?),
                Op::Sub => a.sub(&eval_rat(&c[1], env)?),
                Op::Mul => a.mul(&eval_rat(&c[1], env)?),
                Op::Div => a.div(&eval_rat(&c[1], env)?)?,
                Op::Pow => {
                    let k = eval_rat(&c[1], env)?.as_i64()?;
                    if k.unsigned_abs() > 64 {
                        return None;
                    }
                    a.powi(k)?
                }
                Op::Sin if a.is_zero() => Rat::int(0),
                Op::Cos if a.is_zero() => Rat::int(1),
                Op::Exp if a.is_zero() => Rat::int(1),
                Op::Ln if a.cmp(&Rat::int(1)) == std::cmp::Ordering::Equal => Rat::int(0),
                _ => return None,
            }
        }
    };
    if r.bits() > 8000 {
        None
    } else {
        Some(r)
    }
}

/// Truncated power series in a direction: coefficient k belongs to t^k.
pub type Jet = Vec<B>;

fn jmul(a: &Jet, b: &Jet) -> R<Jet> {
    let n = a.len();
    let mut c = Vec::with_capacity(n);
    for k in 0..n {
        let mut s = exact(0.0);
        for j in 0..=k {
            s = s.add(a[j].mul(b[k - j])?)?;
        }
        c.push(s);
    }
    Ok(c)
}

fn jdiv(a: &Jet, b: &Jet) -> R<Jet> {
    let n = a.len();
    let mut q: Jet = Vec::with_capacity(n);
    for k in 0..n {
        let mut s = a[k];
        for j in 1..=k {
            s = s.sub(b[j].mul(q[k - j])?)?;
        }
        q.push(s.div(b[0])?);
    }
    Ok(q)
}

fn jexp(a: &Jet) -> R<Jet> {
    let n = a.len();
    let mut e: Jet = vec![a[0].exp()?];
    for k in 1..n {
        let mut s = exact(0.0);
        for j in 1..=k {
            s = s.add(a[j].mul(exact(j as f64))?.mul(e[k - j])?)?;
        }
        e.push(s.div(exact(k as f64))?);
    }
    Ok(e)
}

fn jln(a: &Jet) -> R<Jet> {
    let n = a.len();
    let mut l: Jet = vec![a[0].ln()?];
    for k in 1..n {
        let mut s = exact(0.0);
        for j in 1..k {
            s = s.add(l[j].mul(exact(j as f64))?.mul(a[k - j])?)?;
        }
        let t = a[k].sub(s.div(exact(k as f64))?)?;
        l.push(t.div(a[0])?);
    }
    Ok(l)
}

fn jsincos(a: &Jet) -> R<(Jet, Jet)> {
    let n = a.len();
    let mut s: Jet = vec![a[0].sin()?];
    let mut c: Jet = vec![a[0].cos()?];
    for k in 1..n {
        let (mut x, mut y) = (exact(0.0), exact(0.0));
        for j in 1..=k {
            let t = a[j].mul(exact(j as f64))?;
            x = x.add(t.mul(c[k - j])?)?;
            y = y.sub(t.mul(s[k - j])?)?;
        }
        s.push(x.div(exact(k as f64))?);
        c.push(y.div(exact(k as f64))?);
    }
    Ok((s, c))
}

fn jconst(a: &Jet) -> bool {
    a[1..].iter().all(|b| b.is_zero())
}

/// The series of e at the point, with the given directions of the variables.
pub struct JetEval<'a> {
    pub env: &'a Env,
    pub dir: &'a BTreeMap<String, f64>,
    pub order: usize,
    pub max: f64,
}

impl<'a> JetEval<'a> {
    pub fn new(env: &'a Env, dir: &'a BTreeMap<String, f64>, order: usize) -> Self {
        JetEval { env, dir, order, max: 0.0 }
    }
    fn lift(&self, b: B) -> Jet {
        let mut v = vec![b];
        v.resize(self.order + 1, exact(0.0));
        v
    }
    pub fn eval(&mut self, e: &E) -> R<Jet> {
        let r = match e {
            E::Num(n) => of_num(*n).map(|b| self.lift(b)),
            E::Var(x) => {
                let b = *self.env.get(&**x).ok_or(Bad::Unclear)?;
                let mut j = self.lift(b);
                if let Some(d) = self.dir.get(&**x) {
                    if self.order > 0 {
                        j[1] = exact(*d);
                    }
                }
                Ok(j)
            }
            E::Op(o, c) => {
                if c.len() != o.arity() {
                    return Err(Bad::Undef);
                }
                if c.len() == 1 {
                    let a = self.eval(&c[0])?;
                    match o {
                        Op::Neg => Ok(a.iter().map(|b| b.neg()).collect()),
                        Op::Sin => jsincos(&a).map(|x| x.0),
                        Op::Cos => jsincos(&a).map(|x| x.1),
                        Op::Exp => jexp(&a),
                        _ => jln(&a),
                    }
                } else {
                    let a = self.eval(&c[0]);
                    let b = self.eval(&c[1]);
                    let (a, b) = join(a, b)?;
                    match o {
                        Op::Add => a.iter().zip(&b).map(|(x, y)| x.add(*y)).collect(),
                        Op::Sub => a.iter().zip(&b).map(|(x, y)| x.sub(*y)).collect(),
                        Op::Mul => jmul(&a, &b),
                        Op::Div => jdiv(&a, &b),
                        _ => self.jpow(&a, &b, &c[1]),
                    }
                }
            }
        };
        if let Ok(j) = &r {
            let mut f = 1.0;
            for (k, b) in j.iter().enumerate() {
                if k > 0 {
                    f *= k as f64;
                }
                self.max = self.max.max(b.m.abs() * f);
            }
        }
        r
    }
    fn jpow(&self, u: &Jet, r: &Jet, r_expr: &E) -> R<Jet> {
        if jconst(r) {
            if let Some(n) = r[0].int() {
                // A base that is not positive needs an exponent free of the variables moved
                // along, one that may be zero an exponent that is an exact number.
                if u[0].m - u[0].r <= 0.0 && self.dir.keys().any(|d| r_expr.mentions(d)) {
                    return Err(Bad::Unclear);
                }
                if u[0].has_zero() {
                    let literal = r_expr.closed() && r_expr.only_exact_numbers() && r_expr.only_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg]);
                    if !literal || n < 0 {
                        return Err(if u[0].is_zero() && n < 0 { Bad::Undef } else { Bad::Unclear });
                    }
                }
                if n.abs() > 64 {
                    return Err(Bad::Unclear);
                }
                let mut p = self.lift(exact(1.0));
                for _ in 0..n.abs() {
                    p = jmul(&p, u)?;
                }
                return if n < 0 { jdiv(&self.lift(exact(1.0)), &p) } else { Ok(p) };
            }
            if u[0].m - u[0].r <= 0.0 {
                return Err(Bad::Unclear);
            }
            let n = u.len();
            let mut p: Jet = vec![u[0].pow(r[0])?];
            for k in 1..n {
                let mut s = exact(0.0);
                for j in 1..=k {
                    let w = r[0].mul(exact(j as f64))?.sub(exact((k - j) as f64))?;
                    s = s.add(w.mul(u[j])?.mul(p[k - j])?)?;
                }
                p.push(s.div(exact(k as f64))?.div(u[0])?);
            }
            return Ok(p);
        }
        if u[0].m - u[0].r <= 0.0 {
            return Err(Bad::Unclear);
        }
        jexp(&jmul(r, &jln(u)?)?)
    }
}

pub fn self_test() {
    // e^x * sin(x) at 0.5 against closed forms, (1+x)^0.5 against the binomial series
    let mut env = Env::new();
    env.insert("x".into(), exact(0.5));
    let mut dir = BTreeMap::new();
    dir.insert("x".to_string(), 1.0);
    let x = crate::model::var("x");
    let e = crate::model::mul(crate::model::un(Op::Exp, x.clone()), crate::model::un(Op::Sin, x.clone()));
    let j = JetEval::new(&env, &dir, 4).eval(&e).unwrap();
    let (s, c, ex) = (0.5f64.sin(), 0.5f64.cos(), 0.5f64.exp());
    let want = [ex * s, ex * (s + c), ex * c, ex * (2.0 * c - 2.0 * s) / 6.0, -4.0 * ex * s / 24.0];
    for k in 0..5 {
        assert!((j[k].m - want[k]).abs() < 1e-12 && j[k].r < 1e-12, "{} {:?} {}", k, j[k], want[k]);
    }
    env.insert("x".into(), exact(0.0));
    let e = crate::model::pow(crate::model::add(crate::model::int(1), x.clone()), crate::model::num(N::Frac(false, 1, 2)));
    let j = JetEval::new(&env, &dir, 3).eval(&e).unwrap();
    for (k, w) in [1.0, 0.5, -0.125, 0.0625].iter().enumerate() {
        assert!((j[k].m - w).abs() < 1e-14);
    }
    let e = crate::model::un(Op::Ln, crate::model::add(crate::model::int(1), x));
    let j = JetEval::new(&env, &dir, 3).eval(&e).unwrap();
    for (k, w) in [0.0, 1.0, -0.5, 1.0 / 3.0].iter().enumerate() {
        assert!((j[k].m - w).abs() < 1e-14);
    }
}
