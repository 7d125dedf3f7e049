//! Printed expressions (C11) and printed expansions (C17), read back by an independent reader.

use crate::ball::*;
use crate::c_sim::{point, rat_point, show_env};
use crate::ctx::Ctx;
use crate::gen::*;
use crate::model::*;
use crate::rng::{hash_str, Rng};
use symbolic_rust::verif_hook::{self as v, Expression};

/// Reads text by the usual conventions. Repeated ^ without parentheses is refused, as readers
/// disagree on its grouping.
pub struct Reader<'a> {
    s: &'a [u8],
    i: usize,
    names: &'a [String],
}

type P<T> = Result<T, String>;

pub fn read(text: &str, names: &[String]) -> P<E> {
    let mut p = Reader { s: text.as_bytes(), i: 0, names };
    let e = p.sum()?;
    p.space();
    if p.i != p.s.len() {
        return Err(format!("unexpected {:?}", String::from_utf8_lossy(&p.s[p.i..])));
    }
    Ok(e)
}

impl<'a> Reader<'a> {
    fn space(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.space();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn sum(&mut self) -> P<E> {
        let mut e = self.product()?;
        loop {
            if self.eat(b'+') {
                e = add(e, self.product()?);
            } else if self.eat(b'-') {
                e = sub(e, self.product()?);
            } else {
                return Ok(e);
            }
        }
    }
    fn product(&mut self) -> P<E> {
        let mut e = self.factor()?;
        loop {
            if self.eat(b'*') {
                e = mul(e, self.factor()?);
            } else if self.eat(b'/') {
                e = div(e, self.factor()?);
            } else {
                return Ok(e);
            }
        }
    }
    fn factor(&mut self) -> P<E> {
        if self.eat(b'-') {
            return Ok(neg(self.factor()?));
        }
        let a = self.atom()?;
        if self.eat(b'^') {
            let x = if self.eat(b'-') { neg(self.atom()?) } else { self.atom()? };
            if self.eat(b'^') {
                return Err("repeated ^ without parentheses".into());
            }
            return Ok(pow(a, x));
        }
        Ok(a)
    }
    fn word(&mut self) -> Option<&'a str> {
        let rest = std::str::from_utf8(&self.s[self.i..]).ok()?;
        let mut best: Option<&'a str> = None;
        for n in self.names.iter().map(|s| s.as_str()).chain(["sin", "cos", "exp", "ln", "pi", "e"]) {
            if rest.starts_with(n) && best.map_or(true, |b| n.len() > b.len()) {
                best = Some(&rest[..n.len()]);
            }
        }
        best
    }
    fn atom(&mut self) -> P<E> {
        if self.eat(b'(') {
            let e = self.sum()?;
            return if self.eat(b')') { Ok(e) } else { Err("missing )".into()) };
        }
        self.space();
        if self.s.get(self.i).map_or(false, |c| c.is_ascii_digit()) {
            let a = self.i;
            while self.s.get(self.i).map_or(false, |c| c.is_ascii_digit()) {
                self.i += 1;
            }
            let real = self.s.get(self.i) == Some(&b'.') && self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_digit());
            if real {
                self.i += 1;
                while self.s.get(self.i).map_or(false, |c| c.is_ascii_digit()) {
                    self.i += 1;
                }
            }
            let t = std::str::from_utf8(&self.s[a..self.i]).unwrap();
            return Ok(num(if real {
                N::Real(t.parse().map_err(|_| "bad real".to_string())?)
            } else if let Ok(k) = t.parse::<i64>() {
                N::Int(k)
            } else {
                N::Frac(false, t.parse::<u64>().map_err(|_| format!("number {} too large", t))?, 1)
            }));
        }
        let w = match self.word() {
            Some(w) => w,
            None => return Err(format!("nothing readable at {:?}", String::from_utf8_lossy(&self.s[self.i..]))),
        };
        self.i += w.len();
        if self.names.iter().any(|n| n == w) {
            return Ok(var(w));
        }
        let f = match w {
            "pi" => return Ok(num(N::Pi)),
            "e" => return Ok(num(N::E)),
            "sin" => Op::Sin,
            "cos" => Op::Cos,
            "exp" => Op::Exp,
            _ => Op::Ln,
        };
        Ok(un(f, self.atom()?))
    }
}

/// Does printing keep this real's value?
fn plain_real(f: f64) -> bool {
    format!("{:.3}", f).parse::<f64>() == Ok(f)
}

pub fn rounds_reals(e: &E) -> bool {
    e.any(&mut |x| matches!(x, E::Num(N::Real(f)) if !plain_real(*f)))
}

pub fn has_nonfinite(e: &E) -> bool {
    e.any(&mut |x| matches!(x, E::Num(n) if !n.to_f64().is_finite()))
}

/// Does the text's reading have the value of the expression at the point?
fn text_matches(e: &E, t: &E, env: &Env, slack: bool) -> crate::c_sim::Cmp {
    use crate::c_sim::Cmp;
    let mut ea = Evaluator::new(env);
    let x = match ea.eval(e) {
        Ok(x) => x,
        Err(Bad::Undef) => return Cmp::OutsideDomain,
        Err(Bad::Unclear) => return Cmp::Unclear,
    };
    let mut eb = Evaluator::new(env);
    if slack {
        eb.real_abs = 0.0005;
    }
    match eb.eval(t) {
        Ok(y) => {
            let tol = (if slack { 1.01 } else { 64.0 }) * (x.r + y.r) + 1e-9 * x.m.abs().max(y.m.abs()) + 1e-12 * ea.max.max(eb.max).min(1e250) + 1e-280;
            if (x.m - y.m).abs() > tol {
                Cmp::Differ(format!("{:e} and {:e}", x.m, y.m))
            } else {
                Cmp::Same
            }
        }
        Err(Bad::Undef) => Cmp::Differ(format!("{:e} and undefined", x.m)),
        Err(Bad::Unclear) => Cmp::Unclear,
    }
}

fn agrees(c: &mut Ctx, r: &mut Rng, e: &E, t: &E, points: usize) -> Result<usize, String> {
    use crate::c_sim::Cmp;
    let slack = rounds_reals(e);
    let mut decided = 0;
    if t.vars() != e.vars() {
        return Err("other variables".into());
    }
    for _ in 0..points {
        let env = point(r, e);
        match text_matches(e, t, &env, slack) {
            Cmp::Same => decided += 1,
            Cmp::OutsideDomain => {}
            Cmp::Unclear => c.inconclusive("bounds"),
            Cmp::Differ(m) => return Err(format!("at {} values {}", show_env(&env), m)),
        }
    }
    if e.only_exact_numbers() {
        let env = rat_point(r, e);
        if let Some(q) = eval_rat(e, &env) {
            match eval_rat(t, &env) {
                Some(p) if p.cmp(&q) == std::cmp::Ordering::Equal => {
                    decided += 1;
                    c.count("compared exactly");
                }
                _ => return Err("another exact value".into()),
            }
        }
    }
    Ok(decided)
}

pub fn c11(c: &mut Ctx, r: &mut Rng) {
    let n = 1 + r.below(4) as usize;
    let ns = names(r, &c.dict, n, true);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let mut cfg = Cfg::general(&refs).with_deep(12, 700);
    cfg.identities = 4;
    cfg.patterns = 8;
    cfg.alike = 0;
    match r.below(8) {
        0..=3 => cfg.nice_reals = true,
        4 => {
            cfg = cfg.with_ops(&[Op::Sub, Op::Div, Op::Pow, Op::Neg, Op::Mul]);
            cfg.nice_reals = true;
            cfg.int_exponents = 70;
        }
        5 => {
            cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg, Op::Pow]);
            cfg.lits = [2, 4, 0, 0];
            cfg.var_percent = 35;
            cfg.int_exponents = 60;
        }
        6 => cfg.big = 2,
        _ => {}
    }
    let max = *r.pick(&[5, 7, 9, 14, 40]);
    let e = tree(r, &cfg, &c.dict, max);
    if has_nonfinite(&e) {
        return;
    }
    let x = to_sut(&e);
    let simplified = r.chance(20);
    let (e, x) = if simplified {
        use v::NumAggregate;
        match c.sut(|| format!("simplifying {}", e.text()), move || x.num_aggregate()) {
            Some(s) => (from_sut(&s), s),
            None => return,
        }
    } else {
        (e, x)
    };
    if has_nonfinite(&e) {
        return;
    }
    let (text, text2) = match c.sut(|| format!("printing {}", e.text()), || (x.to_string(), format!("{}", x))) {
        Some(t) => t,
        None => return,
    };
    if text != text2 {
        return c.violate(format!("{} prints as {:?} and {:?}", e.text(), text, text2));
    }
    // a variable looked at by itself reads as the variable in the expression does
    if let Some(name) = e.vars().first() {
        let leaf = to_sut(&E::Var(name.clone()));
        let views = c.sut(
            || format!("printing the variable {:?}", name),
            || (leaf.to_string(), v::as_variable(&leaf).map(|w| w.to_string()), v::into_variable(leaf.clone()).map(|w| w.to_string())),
        );
        match views {
            Some((l, Some(a), Some(b))) if l == **name && a == **name && b == **name => {}
            Some(p) => return c.violate(format!("the variable {:?} prints as {:?}", name, p)),
            None => return,
        }
    }
    let what = || format!("{} prints {:?}", e.text(), text);
    let mut ns = ns;
    for n in e.vars() {
        if !ns.iter().any(|m| **m == *n) {
            ns.push(n.to_string());
        }
    }
    let t = match read(&text, &ns) {
        Ok(t) => t,
        Err(m) => {
            c.eval(e.hash(), true);
            return c.violate(format!("{}, which cannot be read: {}", what(), m));
        }
    };
    match agrees(c, r, &e, &t, 4) {
        Ok(k) => {
            c.eval(e.hash(), e.nodes() >= 4 && k > 0);
            c.count(if k > 0 { "value compared" } else { "defined nowhere sampled" });
            if k > 0 {
                if let E::Op(o, kids) = &e {
                    for (i, y) in kids.iter().enumerate() {
                        let k = match y {
                            E::Op(p, _) => p.name(),
                            E::Num(n) => n.kind(),
                            E::Var(_) => "var",
                        };
                        c.count(&format!("{} with {} as operand {}", o.name(), k, i));
                    }
                }
                c.sample(|| format!("{}: same value at {} points", what(), k));
            }
        }
        Err(m) => {
            c.eval(e.hash(), true);
            c.violate(format!("{}, which reads as {}: {}", what(), t.text(), m))
        }
    }
}

/// A function to expand, its variable and the point.
pub fn expansion_case(r: &mut Rng, c: &Ctx, for_text: bool) -> (E, String, E, u64) {
    let ns = names(r, &c.dict, 3, for_text);
    let refs: Vec<&str> = ns.iter().map(|s| s.as_str()).collect();
    let x = ns[0].clone();
    let mut cfg = Cfg::general(&refs);
    cfg.nice_reals = true;
    cfg.patterns = 8;
    cfg.int_exponents = 80;
    cfg.lits = [5, 3, 1, 1];
    if for_text {
        cfg.alike = 0;
    }
    if r.chance(30) {
        cfg.vars = vec![x.clone()];
    }
    let kind = r.below(6);
    let order = match kind {
        0 => {
            cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Neg, Op::Pow]);
            cfg.int_exponents = 100;
            r.below(8)
        }
        1 => {
            cfg = cfg.with_ops(&[Op::Add, Op::Sub, Op::Mul, Op::Sin, Op::Cos, Op::Exp, Op::Neg]);
            r.below(6)
        }
        _ => r.below(4),
    };
    let max = match order {
        0..=2 => 10,
        3 => 8,
        4 => 7,
        _ => 5,
    };
    let e = tree(r, &cfg, &c.dict, max);
    let at = match r.below(10) {
        0 | 1 => int(0),
        2 => int(r.range(-3, 4)),
        3 => num(N::Frac(r.chance(50), 1 + r.below(5), 1 + r.below(5))),
        4 => num(N::Real(r.range(-16, 16) as f64 / 8.0)),
        5 => num(if r.chance(50) { N::Pi } else { N::E }),
        6 => var(&ns[1]),
        7 => add(var(&ns[1]), int(1)),
        8 => neg(var(&ns[1])),
        _ => int(1),
    };
    (e, x, at, order)
}

pub fn c17(c: &mut Ctx, r: &mut Rng) {
    let (e, x, at, order) = if r.chance(3) {
        let (e, at, o) = if r.chance(50) { crate::c_calc::high_order_case(r, &c.dict) } else { crate::c_calc::very_high_order_case(r, &c.dict) };
        (e, "x".to_string(), at, o)
    } else {
        expansion_case(r, c, true)
    };
    let mut what = format!("expansion of {} in {} at {} to order {}", e.text(), x, at.text(), order);
    // coefficients put in by the caller: those computed are all quotients or numbers
    let mut put: Vec<(usize, E)> = vec![];
    if order < 9 && r.chance(20) {
        let mut cfg = Cfg::general(&[x.as_str(), "y"]);
        cfg.nice_reals = true;
        cfg.alike = 0;
        cfg.lits = [5, 3, 1, 1];
        for _ in 0..1 + r.below(2) {
            let q = tree(r, &cfg, &c.dict, 7);
            let k = r.below(order + 1) as usize;
            what += &format!(", coefficient {} replaced by {}", k, q.text());
            put.push((k, q));
        }
    }
    let mut names: Vec<String> = e.vars().iter().chain(at.vars().iter()).map(|s| s.to_string()).collect();
    names.extend(put.iter().flat_map(|p| p.1.vars()).map(|s| s.to_string()));
    names.push(x.clone());
    names.sort();
    names.dedup();
    let (se, sa) = (to_sut(&e), to_sut(&at));
    let xv = Expression::new_variable(&x);
    let res = c.sut(
        || what.clone(),
        || {
            v::taylor(se, xv, sa, order).map(|mut p| {
                for (k, q) in &put {
                    p.coefficient[*k] = to_sut(q);
                }
                let t = (p.to_string(), format!("{}", p));
                (t, p.coefficient.iter().map(from_sut).collect::<Vec<_>>())
            })
        },
    );
    let ((text, text2), coef) = match res {
        None => return,
        Some(Err(m)) => return c.violate(format!("{} refused: {}", what, m)),
        Some(Ok(x)) => x,
    };
    if text != text2 {
        return c.violate(format!("{} prints as {:?} and {:?}", what, text, text2));
    }
    if coef.iter().any(has_nonfinite) {
        c.count("skipped: coefficient undefined at the point");
        return;
    }
    let say = |m: String| format!("{} prints {:?}: {}", what, text, m);
    // the remainder term comes last
    let cut = match text.rfind("O(") {
        Some(i) => i,
        None => return c.violate(say("no remainder term".into())),
    };
    if text.matches("O(").count() != 1 || !text.ends_with(')') {
        return c.violate(say("not one remainder term at the end".into()));
    }
    let head = text[..cut].trim_end();
    let inside = &text[cut + 2..text.len() - 1];
    let rem = match read(inside, &names) {
        Ok(t) => t,
        Err(m) => return c.violate(say(format!("the remainder cannot be read: {}", m))),
    };
    let base = sub(var(&x), at.clone());
    match &rem {
        E::Op(Op::Pow, k) if matches!(&k[1], E::Num(N::Int(n)) if *n as i128 == order as i128 + 1) => {
            if let Err(m) = agrees_base(c, r, &base, &k[0]) {
                return c.violate(say(format!("base of the remainder: {}", m)));
            }
        }
        _ => return c.violate(say(format!("the remainder is not the difference to the power {}", order + 1))),
    }
    let nonzero: Vec<(usize, &E)> = coef.iter().enumerate().filter(|(_, k)| !k.is_exact_zero()).collect();
    c.eval(hash_str(&what), nonzero.len() > 1);
    c.count(&format!("{} of {} terms", nonzero.len(), coef.len()));
    if head.is_empty() {
        if !nonzero.is_empty() {
            c.violate(say(format!("{} non-zero coefficients", nonzero.len())));
        }
        return;
    }
    let head = match head.strip_suffix('+') {
        Some(h) => h.trim_end(),
        None => return c.violate(say("no + before the remainder".into())),
    };
    // terms are joined by + outside parentheses
    let mut depth = 0;
    let mut terms = vec![String::new()];
    for ch in head.chars() {
        match ch {
            '(' => depth += 1,
            ')' => depth -= 1,
            _ => {}
        }
        if ch == '+' && depth == 0 {
            terms.push(String::new());
        } else {
            terms.last_mut().unwrap().push(ch);
        }
    }
    if terms.len() != nonzero.len() {
        return c.violate(say(format!("{} terms, {} coefficients that are not zero", terms.len(), nonzero.len())));
    }
    let whole = match read(head, &names) {
        Ok(t) => t,
        Err(m) => return c.violate(say(format!("cannot be read: {}", m))),
    };
    let mut want = int(0);
    for (k, q) in &nonzero {
        want = add(want, mul((*q).clone(), pow(base.clone(), int(*k as i64))));
    }
    let slack = coef.iter().any(rounds_reals) || rounds_reals(&at);
    let mut decided = 0;
    for _ in 0..4 {
        let env: Env = point(r, &add(want.clone(), base.clone()));
        match text_matches(&want, &whole, &env, slack) {
            crate::c_sim::Cmp::Same => decided += 1,
            crate::c_sim::Cmp::Differ(m) => return c.violate(say(format!("at {} values {}", show_env(&env), m))),
            crate::c_sim::Cmp::Unclear => c.inconclusive("bounds"),
            crate::c_sim::Cmp::OutsideDomain => {}
        }
        // term by term
        for ((k, q), t) in nonzero.iter().zip(&terms) {
            let w = mul((*q).clone(), pow(base.clone(), int(*k as i64)));
            match read(t.trim(), &names) {
                Ok(t) => {
                    if let crate::c_sim::Cmp::Differ(m) = text_matches(&w, &t, &env, slack) {
                        return c.violate(say(format!("term of power {}: at {} values {}", k, show_env(&env), m)));
                    }
                }
                Err(m) => return c.violate(say(format!("term {:?} cannot be read: {}", t, m))),
            }
        }
    }
    c.count(if decided > 0 { "value compared" } else { "defined nowhere sampled" });
    c.sample(|| format!("{} prints {:?}: same value at {} points", what, text, decided));
}

fn agrees_base(c: &mut Ctx, r: &mut Rng, base: &E, got: &E) -> Result<(), String> {
    let slack = rounds_reals(base);
    for _ in 0..3 {
        let env = point(r, &add(base.clone(), got.clone()));
        match text_matches(base, got, &env, slack) {
            crate::c_sim::Cmp::Differ(m) => return Err(format!("at {} values {}", show_env(&env), m)),
            crate::c_sim::Cmp::Unclear => c.inconclusive("bounds"),
            _ => {}
        }
    }
    Ok(())
}

/// The demonstration program's output: exp at 0 and ln at 1, both to order 5. What is wrong with it.
pub fn demonstration(text: &str) -> Vec<String> {
    let ns = vec!["x".to_string()];
    let x = || var("x");
    let lines: Vec<&str> = text.lines().filter(|l| l.contains("O(")).collect();
    if lines.len() != 2 {
        return vec![format!("{} expansions printed instead of two", lines.len())];
    }
    let fact = |k: i64| (1..=k).product::<i64>();
    let cases = [
        (x(), (0..=5).map(|k| (k, div(int(1), int(fact(k))))).collect::<Vec<_>>()),
        (sub(x(), int(1)), (1..=5).map(|k| (k, div(int(if k % 2 == 1 { 1 } else { -1 }), int(k)))).collect()),
    ];
    let mut bad = vec![];
    for (line, (base, terms)) in lines.iter().zip(cases) {
        let body = line.rsplit(": ").next().unwrap();
        let cut = body.rfind("O(").unwrap();
        let mut say = |m: String| bad.push(format!("the program prints {:?}: {}", line, m));
        let head = match body[..cut].trim_end().strip_suffix('+') {
            Some(h) => h.trim(),
            None => {
                say("no + before the remainder".into());
                continue;
            }
        };
        let (whole, rem) = match (read(head, &ns), read(body[cut + 2..].trim_end().strip_suffix(')').unwrap_or(""), &ns)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(m), _) | (_, Err(m)) => {
                say(format!("cannot be read: {}", m));
                continue;
            }
        };
        let want = terms.iter().fold(int(0), |s, (k, q)| add(s, mul(q.clone(), pow(base.clone(), int(*k)))));
        let want_rem = pow(base.clone(), int(6));
        for at in [(2, 1), (-1, 1), (7, 3), (-5, 2), (1, 10), (13, 1), (-29, 7)] {
            let env: std::collections::BTreeMap<String, crate::big::Rat> =
                [("x".to_string(), crate::big::Rat::int(at.0).div(&crate::big::Rat::int(at.1)).unwrap())].into_iter().collect();
            for (name, a, b) in [("the polynomial", &want, &whole), ("the remainder", &want_rem, &rem)] {
                match (eval_rat(a, &env), eval_rat(b, &env)) {
                    (Some(p), Some(q)) if p.sub(&q).is_zero() => {}
                    (Some(p), q) => say(format!("at {}/{} {} is {} instead of {}", at.0, at.1, name, q.map_or("undefined".to_string(), |q| q.to_string()), p.to_string())),
                    _ => say("oracle undefined".into()),
                }
            }
        }
        if !matches!(&rem, E::Op(Op::Pow, k) if matches!(k[1], E::Num(N::Int(6)))) {
            say("the remainder is not of power 6".into());
        }
    }
    bad
}

pub fn self_test() {
    let good = "Hello\nT of expx: 1 * x ^ 0 + 1 * x ^ 1 + 1/2 * x ^ 2 + 1/6 * x ^ 3 + 1/24 * x ^ 4 + 1/120 * x ^ 5 + O(x ^ 6)\n\
        T of lnx: 1 * (x - 1) ^ 1 + -1/2 * (x - 1) ^ 2 + 1/3 * (x - 1) ^ 3 + -1/4 * (x - 1) ^ 4 + 1/5 * (x - 1) ^ 5 + O((x - 1) ^ 6)\n";
    assert_eq!(demonstration(good), Vec::<String>::new());
    assert!(!demonstration(&good.replace("1/24", "1/25")).is_empty());
    assert!(!demonstration(&good.replace("+ -1/2", "+ 1/2")).is_empty());
    assert!(!demonstration(&good.replace("O(x ^ 6", "O(x ^ 5")).is_empty());
    let ns = vec!["x".to_string(), "xy".to_string()];
    let show = |t: &str| read(t, &ns).map(|e| e.text()).unwrap_or_else(|e| e);
    assert_eq!(show("x - 1 - 2"), "(- (- x 1) 2)");
    assert_eq!(show("-x ^ 2 * 3"), "(* (neg (^ x 2)) 3)");
    assert_eq!(show("sinx ^ 2"), "(^ (sin x) 2)");
    assert_eq!(show("sincos(x + xy)"), "(sin (cos (+ x xy)))");
    assert_eq!(show("1/2 / x"), "(/ (/ 1 2) x)");
    assert_eq!(show("x ^ -1/2"), "(/ (^ x (neg 1)) 2)");
    assert!(read("x ^ 2 ^ 3", &ns).is_err());
    assert!(read("x y", &ns).is_err());
}
