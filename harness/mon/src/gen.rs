//! Workload generation: numbers and expressions, deterministic in the generator state.

use crate::model::*;
use crate::rng::Rng;

/// Numbers and names found in the sources under observation; only used to make the workload
/// meet values the code may treat specially.
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<i64>,
    pub floats: Vec<f64>,
    pub names: Vec<String>,
}

#[derive(Clone)]
pub struct Cfg {
    pub ops: Vec<(Op, u64)>,
    pub vars: Vec<String>,
    pub var_percent: u64,
    /// weights of int, frac, real, constant
    pub lits: [u64; 4],
    /// 0 small only, 1 mixed, 2 boundaries often
    pub big: u8,
    /// percent of nodes made from a pattern that rules react to
    pub patterns: u64,
    /// reals only with few binary digits
    pub nice_reals: bool,
    /// exponents only small integers (percent)
    pub int_exponents: u64,
    /// percent of binary nodes whose operands differ only in a real beyond the printed digits
    pub alike: u64,
    /// percent of binary nodes whose operands are the same up to one place
    pub siblings: u64,
    /// percent of nodes made in the shape of one side of a familiar identity, its parts the same, nearly the same or unrelated
    pub identities: u64,
    /// chance in ten thousand of a chain of many levels, and how many at most
    pub deep: u64,
    pub deep_most: usize,
    /// such chains may have other names than `vars`
    pub new_names: bool,
}

pub fn uniform_ops() -> Vec<(Op, u64)> {
    ALL_OPS.iter().map(|o| (*o, if o.arity() == 2 { 3 } else { 2 })).collect()
}

pub fn vars(names: &[&str]) -> Vec<String> {
    names.iter().map(|s| s.to_string()).collect()
}

impl Cfg {
    pub fn general(names: &[&str]) -> Cfg {
        Cfg {
            ops: uniform_ops(),
            vars: vars(names),
            var_percent: 55,
            lits: [5, 3, 2, 1],
            big: 1,
            patterns: 15,
            nice_reals: false,
            int_exponents: 50,
            alike: 2,
            siblings: 2,
            identities: 0,
            deep: 0,
            deep_most: 0,
            new_names: true,
        }
    }
    pub fn with_deep(mut self, chance: u64, most: usize) -> Cfg {
        self.deep = chance;
        self.deep_most = most;
        self
    }
    pub fn with_ops(mut self, ops: &[Op]) -> Cfg {
        self.ops = ops.iter().map(|o| (*o, if o.arity() == 2 { 3 } else { 2 })).collect();
        self
    }
    fn has(&self, o: Op) -> bool {
        self.ops.iter().any(|x| x.0 == o)
    }
}

pub const NAME_POOL: &[&str] = &[
    "x", "y", "z", "u", "v", "t", "a", "b", "xx", "x1", "x2", "x_1", "X", "ab", "ba", "long_variable_name", "k", "xy", "yx", "x0", "\u{3b1}", "\u{4f60}", "\u{df}q", "n",
];

pub fn interesting_i64(r: &mut Rng, d: &Dict) -> i64 {
    match r.below(12) {
        0..=3 => r.range(-6, 12),
        4 => r.range(-1000, 1000),
        5 => {
            let b = r.below(63);
            let v = (1i64 << b).wrapping_add(r.range(-2, 2));
            if r.chance(50) {
                v
            } else {
                v.wrapping_neg()
            }
        }
        6 => *r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 0, 1, -1]),
        7 if !d.ints.is_empty() => r.pick(&d.ints).wrapping_add(r.range(-1, 1)),
        8 => {
            let s = r.below(63);
            (r.next() >> s) as i64
        }
        9 => 10i64.pow(r.below(19) as u32),
        10 => {
            // products of small primes, so that fractions reduce
            let mut v = 1i64;
            for _ in 0..r.below(14) {
                v = v.saturating_mul(*r.pick(&[2, 2, 3, 3, 5, 7, 11, 13]));
            }
            if r.chance(50) {
                v
            } else {
                -v
            }
        }
        _ => r.next() as i64,
    }
}

pub fn interesting_u64(r: &mut Rng, d: &Dict) -> u64 {
    match r.below(9) {
        8 => long_division(r).0,
        0 => u64::MAX - r.below(3),
        1 => (1u64 << 63).wrapping_add(r.below(5)).wrapping_sub(2),
        2 => (1u64 << 32).wrapping_add(r.below(5)).wrapping_sub(2),
        3 => r.next() >> r.below(64),
        _ => interesting_i64(r, d).unsigned_abs(),
    }
}

pub fn interesting_f64(r: &mut Rng, d: &Dict) -> f64 {
    let v = match r.below(15) {
        0..=2 => r.range(-40, 40) as f64 / 8.0,
        3 => r.range(-100, 100) as f64 / 10.0,
        4 => r.range(-5, 5) as f64,
        5 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, std::f64::consts::PI, std::f64::consts::E, 1e-3, 1e-9, 2.0]),
        6 => *r.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e300, 1e-300, f64::EPSILON, 9007199254740993.0, 1e16]),
        7 => interesting_i64(r, d) as f64,
        8 => (r.unit() - 0.5) * 10f64.powi(r.range(-12, 15) as i32),
        9 => r.unit() * 10.0,
        10 => r.range(-2000, 2000) as f64 / 1000.0,
        11 => f64::from_bits(r.next()),
        12 => r.range(-3000, 3000) as f64 * 0.0005,
        13 if !d.floats.is_empty() => near_float(r, d),
        _ => r.unit() * 2.0 - 1.0,
    };
    if cfg!(miri) && v.is_finite() && v != 0.0 && !(1e-40..1e40).contains(&v.abs()) && r.chance(95) {
        // printing hundreds of digits takes minutes there
        return v.signum() * 1e-9;
    }
    v
}

/// A value near one found in the sources, as offset or factor from some ordinary value.
pub fn near_float(r: &mut Rng, d: &Dict) -> f64 {
    let f = *r.pick(&d.floats);
    let f = f * *r.pick(&[0.01, 0.1, 0.5, 0.9, 1.0, 1.0, 1.1, 2.0, 10.0, 100.0]);
    let f = if r.chance(30) { f + *r.pick(&[1.0, -1.0, std::f64::consts::PI, std::f64::consts::E, 2.0]) } else { f };
    if r.chance(30) {
        -f
    } else {
        f
    }
}

pub fn any_exact(r: &mut Rng, d: &Dict) -> N {
    if r.chance(45) {
        N::Int(interesting_i64(r, d))
    } else {
        any_frac(r, d)
    }
}

/// Two numbers whose greatest common divisor takes many divisions to find: neighbours in a
/// sequence like Fibonacci's, up to a common factor.
pub fn long_division(r: &mut Rng) -> (u64, u64) {
    let steps = match r.below(3) {
        0 => 100,
        1 => 10 + r.below(80),
        _ => 60 + r.below(40),
    };
    let top = if r.chance(60) { u64::MAX } else { u64::MAX >> r.below(24) };
    let (mut a, mut b) = (1 + r.below(2), 1u64);
    let ones = r.chance(60);
    for _ in 0..steps {
        let q = if ones || r.chance(85) { 1 } else { 1 + r.below(3) };
        match a.checked_mul(q).and_then(|m| m.checked_add(b)) {
            Some(n) if n <= top => (a, b) = (n, a),
            _ => break,
        }
    }
    let k = if r.chance(50) { 1 } else { 1 + r.below((u64::MAX / a).min(1 << 20)) };
    if r.chance(50) {
        (a * k, b * k)
    } else {
        (b * k, a * k)
    }
}

pub fn any_frac(r: &mut Rng, d: &Dict) -> N {
    let (n, m) = match r.below(7) {
        6 => long_division(r),
        0 | 1 => (r.below(20), 1 + r.below(20)),
        2 => {
            let kb = r.below(33);
            let k = 1 + r.below(1 << kb);
            let a = r.below(100);
            let b = 1 + r.below(100);
            (a.saturating_mul(k), b.saturating_mul(k))
        }
        3 => (interesting_u64(r, d), 1 + r.below(12)),
        4 => (r.below(12), interesting_u64(r, d).max(1)),
        _ => (interesting_u64(r, d), interesting_u64(r, d).max(1)),
    };
    N::Frac(r.chance(50), n, m)
}

pub fn any_num(r: &mut Rng, d: &Dict) -> N {
    match r.below(10) {
        0..=2 => N::Int(interesting_i64(r, d)),
        3..=5 => any_frac(r, d),
        6..=8 => {
            let f = interesting_f64(r, d);
            N::Real(f)
        }
        _ => {
            if r.chance(50) {
                N::Pi
            } else {
                N::E
            }
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub cfg: &'a Cfg,
    pub dict: &'a Dict,
    pool: Vec<E>,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, cfg: &'a Cfg, dict: &'a Dict) -> Self {
        Gen { r, cfg, dict, pool: vec![] }
    }

    pub fn literal(&mut self) -> N {
        let total: u64 = self.cfg.lits.iter().sum();
        let mut k = self.r.below(total.max(1));
        let big = match self.cfg.big {
            0 => false,
            1 => self.r.chance(6),
            _ => self.r.chance(35),
        };
        for (i, w) in self.cfg.lits.iter().enumerate() {
            if k < *w {
                return match i {
                    0 if big => N::Int(interesting_i64(self.r, self.dict)),
                    0 => N::Int(match self.r.below(12) {
                        0 => 0,
                        1 | 2 => 1,
                        3 => -1,
                        4 => 2,
                        5 => self.r.range(-20, 20),
                        6 if !self.dict.ints.is_empty() => {
                            let v = *self.r.pick(&self.dict.ints);
                            if v.unsigned_abs() < 1000 {
                                v
                            } else {
                                3
                            }
                        }
                        _ => self.r.range(-5, 7),
                    }),
                    1 if big => any_frac(self.r, self.dict),
                    1 => {
                        let n = self.r.below(10);
                        let d = 1 + self.r.below(9);
                        let k = if self.r.chance(20) { 1 + self.r.below(6) } else { 1 };
                        N::Frac(self.r.chance(40), n * k, d * k)
                    }
                    2 if self.cfg.nice_reals => N::Real(self.r.range(-24, 24) as f64 / 8.0),
                    2 if big => {
                        let f = interesting_f64(self.r, self.dict);
                        N::Real(if f.is_finite() && f.abs() < 1e100 { f } else { 2.5 })
                    }
                    2 => N::Real(match self.r.below(6) {
                        0 => self.r.range(-30, 30) as f64 / 10.0,
                        1 => self.r.range(-3000, 3000) as f64 / 1000.0,
                        2 => *self.r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0, std::f64::consts::PI, std::f64::consts::E]),
                        3 => self.r.unit() * 4.0 - 2.0,
                        _ => self.r.range(-24, 24) as f64 / 8.0,
                    }),
                    _ => {
                        if self.r.chance(50) {
                            N::Pi
                        } else {
                            N::E
                        }
                    }
                };
            }
            k -= w;
        }
        N::Int(1)
    }

    pub fn variable(&mut self) -> E {
        let i = self.r.below(self.cfg.vars.len() as u64) as usize;
        var(&self.cfg.vars[i])
    }

    pub fn leaf(&mut self) -> E {
        if !self.cfg.vars.is_empty() && self.r.chance(self.cfg.var_percent) {
            self.variable()
        } else {
            num(self.literal())
        }
    }

    fn op(&mut self) -> Op {
        let total: u64 = self.cfg.ops.iter().map(|x| x.1).sum();
        let mut k = self.r.below(total);
        for (o, w) in &self.cfg.ops {
            if k < *w {
                return *o;
            }
            k -= w;
        }
        self.cfg.ops[0].0
    }

    fn exponent(&mut self, size: usize, shape: u8) -> E {
        if self.r.chance(self.cfg.int_exponents) {
            int(match self.r.below(8) {
                0 => 0,
                1 => 1,
                2 | 3 => 2,
                4 => 3,
                5 => -1,
                6 => self.r.range(-4, 6),
                _ => self.r.range(2, 9),
            })
        } else {
            self.tree(size.min(4), shape)
        }
    }

    /// A tree of about `size` nodes; shape 0 random, 1 left, 2 right, 3 balanced.
    pub fn tree(&mut self, size: usize, shape: u8) -> E {
        let e = self.tree_(size, shape);
        if self.pool.len() < 12 {
            self.pool.push(e.clone());
        } else {
            let i = self.r.below(12) as usize;
            self.pool[i] = e.clone();
        }
        e
    }

    fn tree_(&mut self, size: usize, shape: u8) -> E {
        if size <= 1 {
            if !self.pool.is_empty() && self.r.chance(4) {
                return self.r.pick(&self.pool).clone();
            }
            return self.leaf();
        }
        if self.cfg.identities > 0 && size > 3 && self.r.chance(self.cfg.identities) {
            if let Some(e) = self.identity(size, shape) {
                return e;
            }
        }
        if self.r.chance(self.cfg.patterns) {
            if let Some(e) = self.pattern(size, shape) {
                return e;
            }
        }
        let o = self.op();
        if o.arity() == 1 || size == 2 {
            let o = if o.arity() == 1 { Some(o) } else { self.cfg.ops.iter().map(|x| x.0).find(|x| x.arity() == 1) };
            return match o {
                Some(o) => un(o, self.tree(size - 1, shape)),
                None => self.leaf(),
            };
        }
        let rest = size - 1;
        let l = match shape {
            1 => rest - 1,
            2 => 1,
            3 => rest / 2,
            _ => 1 + self.r.below(rest as u64 - 1) as usize,
        }
        .max(1);
        let rr = (rest - l).max(1);
        if o == Op::Pow {
            let b = self.tree(l.max(rr), shape);
            let x = self.exponent(l.min(rr), shape);
            return pow(b, x);
        }
        if self.cfg.alike > 0 && self.cfg.lits[2] > 0 && self.r.chance(self.cfg.alike) {
            let a = self.tree((rest / 2).max(1), shape);
            let (a, b) = alike(self.r, &a);
            return bin(o, a, b);
        }
        if self.cfg.siblings > 0 && self.r.chance(self.cfg.siblings) {
            let a = self.tree((rest / 2).max(1), shape);
            let mut b = sibling(self.r, self.cfg, &a);
            if b.any(&mut |x| matches!(x, E::Op(p, _) if !self.cfg.has(*p))) {
                b = a.clone();
            }
            return if self.r.chance(50) { bin(o, a, b) } else { bin(o, b, a) };
        }
        if !self.pool.is_empty() && self.r.chance(5) {
            // the same subtree on both sides, or one met before
            let a = self.tree(l, shape);
            let b = if self.r.chance(60) { a.clone() } else { self.r.pick(&self.pool).clone() };
            if b.nodes() <= size + 3 {
                return bin(o, a, b);
            }
        }
        let a = self.tree(l, shape);
        let b = self.tree(rr, shape);
        bin(o, a, b)
    }

    fn zeroish(&mut self) -> E {
        match self.r.below(6) {
            0 | 1 | 2 => int(0),
            3 => num(N::Frac(false, 0, 5)),
            4 if self.cfg.has(Op::Sub) => {
                let k = int(self.r.range(-5, 5));
                sub(k.clone(), k)
            }
            _ if self.cfg.has(Op::Mul) => mul(int(0), self.leaf()),
            _ => int(0),
        }
    }

    fn oneish(&mut self) -> E {
        match self.r.below(5) {
            0 | 1 => int(1),
            2 => num(N::Frac(false, 3, 3)),
            3 if self.cfg.has(Op::Div) => div(int(4), int(4)),
            _ if self.cfg.has(Op::Sub) => sub(int(3), int(2)),
            _ => int(1),
        }
    }

    /// The same as `a`, nearly the same, or something else.
    fn near(&mut self, a: &E, size: usize, shape: u8) -> E {
        match self.r.below(10) {
            0..=3 => a.clone(),
            4 | 5 => sibling(self.r, self.cfg, a),
            6 | 7 if self.cfg.vars.len() > 1 && !a.vars().is_empty() => {
                let names: Vec<String> = a.vars().iter().map(|s| s.to_string()).collect();
                let old = self.r.pick(&names).clone();
                let new = self.variable();
                a.replace(&old, &new)
            }
            _ => self.tree(size, shape),
        }
    }

    /// One side of an identity that a rule might know, or what looks like it.
    fn identity(&mut self, size: usize, shape: u8) -> Option<E> {
        use Op::*;
        let part = (size / 3).clamp(1, 6);
        let a = self.tree(part, shape);
        let b = self.near(&a, part, shape);
        let c = if self.r.chance(50) { self.tree(part, shape) } else { self.leaf() };
        let d = self.near(&c, part, shape);
        let m = self.small();
        let n = if self.r.chance(50) { m.clone() } else { self.small() };
        let two = if self.r.chance(80) { int(2) } else { m.clone() };
        let sum = *self.r.pick(&[Add, Sub]);
        let product = *self.r.pick(&[Mul, Div]);
        let f = *self.r.pick(&[Sin, Cos, Exp, Ln, Neg]);
        let g = *self.r.pick(&[Sin, Cos, Exp, Ln, Neg]);
        let trig = *self.r.pick(&[Sin, Cos]);
        let cut = *self.r.pick(&[Sin, Cos]);
        let e = match self.r.below(34) {
            0 | 1 => bin(sum, pow(un(trig, a), two.clone()), pow(un(cut, b), two)),
            2 => bin(sum, mul(un(trig, a.clone()), un(trig, a)), mul(un(cut, b.clone()), un(cut, b))),
            3 => bin(sum, int(1), pow(un(trig, a), two)),
            4 => bin(sum, mul(un(Sin, a.clone()), un(Cos, c.clone())), mul(un(Cos, b), un(Sin, d))),
            5 => bin(sum, mul(un(Cos, a.clone()), un(Cos, c.clone())), mul(un(Sin, b), un(Sin, d))),
            6 => bin(product, un(f, a), un(f, b)),
            7 => bin(product, un(f, a), un(g, b)),
            8 => bin(sum, un(f, a), un(f, b)),
            9 => mul(two, mul(un(Sin, a), un(Cos, b))),
            10 => un(trig, neg(a)),
            11 => un(trig, bin(sum, a, num(N::Pi))),
            12 => un(trig, bin(sum, num(N::Pi), a)),
            13 => pow(un(Exp, a), c),
            14 => un(Ln, pow(a, c)),
            15 => un(Ln, bin(product, a, c)),
            16 => un(Ln, bin(product, un(Exp, a), c)),
            17 => un(Exp, bin(product, un(Ln, a), c)),
            18 => un(Exp, bin(sum, un(Ln, a), c)),
            19 => bin(product, pow(a, m), pow(b, n)),
            20 => pow(pow(a, m), n),
            21 => bin(product, a, pow(b, n)),
            22 => pow(bin(product, a, c), n),
            23 => {
                // a common factor or divisor, in any places
                let (p, q) = (*self.r.pick(&[Mul, Mul, Div]), *self.r.pick(&[Mul, Mul, Div]));
                let l = if self.r.chance(50) { bin(p, a, c) } else { bin(p, c, a) };
                bin(sum, l, if self.r.chance(50) { bin(q, b, d) } else { bin(q, d, b) })
            }
            24 => bin(sum, bin(*self.r.pick(&[Mul, Div]), m, a), bin(*self.r.pick(&[Mul, Div]), n, b)),
            25 => bin(sum, a, mul(n, b)),
            26 => {
                let o = *self.r.pick(&[Add, Sub]);
                if self.r.chance(50) { bin(sum, bin(o, a, c), b) } else { bin(sum, b, bin(o, a, c)) }
            }
            27 => {
                let o = *self.r.pick(&[Mul, Div]);
                if self.r.chance(50) { bin(product, bin(o, a, c), b) } else { bin(product, b, bin(o, a, c)) }
            }
            28 => bin(product, bin(*self.r.pick(&[Mul, Div]), a, c), bin(*self.r.pick(&[Mul, Div]), b, d)),
            29 => neg(bin(*self.r.pick(&[Add, Sub, Mul, Div]), a, c)),
            30 => {
                let o = *self.r.pick(&[Add, Sub, Mul, Div]);
                if self.r.chance(60) { bin(o, neg(a), neg(b)) } else { bin(o, a, neg(b)) }
            }
            31 => mul(bin(Add, a, c), bin(Sub, b, d)),
            32 => bin(sum, pow(a, two.clone()), pow(b, two)),
            _ => bin(sum, bin(sum, a, c), bin(*self.r.pick(&[Add, Sub]), b, d)),
        };
        let odd = |x: &E| match x {
            E::Op(o, k) => !self.cfg.has(*o) || *o == Pow && self.cfg.int_exponents == 100 && !matches!(k[1], E::Num(N::Int(_))),
            _ => false,
        };
        if e.any(&mut |x| odd(x)) {
            None
        } else {
            Some(e)
        }
    }

    fn small(&mut self) -> E {
        match self.r.below(8) {
            0..=3 => int(self.r.range(1, 4)),
            4 | 5 => int(self.r.range(-3, 6)),
            6 if self.cfg.lits[1] > 0 && self.cfg.int_exponents < 100 => num(N::Frac(self.r.chance(30), 1 + self.r.below(4), 2 + self.r.below(3))),
            _ => int(2),
        }
    }

    fn pattern(&mut self, size: usize, shape: u8) -> Option<E> {
        let k = self.r.below(22);
        let inner = size.saturating_sub(2).max(1);
        let (o, e) = match k {
            0 => (Op::Exp, un(Op::Exp, un(Op::Ln, self.tree(inner, shape)))),
            1 => (Op::Ln, un(Op::Ln, un(Op::Exp, self.tree(inner, shape)))),
            2 => (Op::Neg, neg(neg(self.tree(inner, shape)))),
            3 => (Op::Sub, sub(self.zeroish(), self.tree(inner, shape))),
            4 => (Op::Sub, sub(self.tree(inner, shape), self.zeroish())),
            5 => (Op::Add, add(self.zeroish(), self.tree(inner, shape))),
            6 => (Op::Add, add(self.tree(inner, shape), self.zeroish())),
            7 => (Op::Mul, mul(self.oneish(), self.tree(inner, shape))),
            8 => (Op::Mul, mul(self.tree(inner, shape), self.oneish())),
            9 => (Op::Mul, mul(self.tree(inner, shape), self.zeroish())),
            10 => (Op::Mul, mul(self.zeroish(), self.tree(inner, shape))),
            11 => (Op::Div, div(self.zeroish(), self.tree(inner, shape))),
            12 => (Op::Div, div(self.tree(inner, shape), self.oneish())),
            13 => (Op::Pow, pow(self.tree(inner, shape), self.zeroish())),
            14 => (Op::Pow, pow(self.tree(inner, shape), self.oneish())),
            15 => {
                let x = self.exponent(inner, shape);
                (Op::Pow, pow(self.oneish(), x))
            }
            16 => {
                let x = self.exponent(inner, shape);
                (Op::Pow, pow(self.zeroish(), x))
            }
            17 | 18 => {
                // a function of a special value
                let fs: Vec<Op> = [Op::Sin, Op::Cos, Op::Exp, Op::Ln].iter().copied().filter(|o| self.cfg.has(*o)).collect();
                if fs.is_empty() {
                    return None;
                }
                let f = *self.r.pick(&fs);
                let a = match self.r.below(7) {
                    0 => self.zeroish(),
                    1 => self.oneish(),
                    2 => num(N::Pi),
                    3 => num(N::E),
                    4 => num(N::Real(*self.r.pick(&[0.0, 1.0, std::f64::consts::PI, std::f64::consts::E, 0.5]))),
                    5 if self.cfg.has(Op::Add) => add(num(N::Pi), int(0)),
                    _ => num(self.literal()),
                };
                (f, un(f, a))
            }
            19 => {
                let a = self.tree((inner / 2).max(1), shape);
                (Op::Sub, sub(a.clone(), a))
            }
            20 => {
                let a = self.tree((inner / 2).max(1), shape);
                (Op::Div, div(a.clone(), a))
            }
            _ => {
                let a = self.tree((inner / 2).max(1), shape);
                (Op::Mul, mul(a.clone(), a))
            }
        };
        if e.any(&mut |x| matches!(x, E::Op(p, _) if !self.cfg.has(*p))) || !self.cfg.has(o) {
            None
        } else {
            Some(e)
        }
    }
}

fn leaves(e: &E) -> usize {
    match e {
        E::Op(_, k) => k.iter().map(leaves).sum(),
        _ => 1,
    }
}

fn with_leaf(e: &E, i: &mut usize, by: &E) -> E {
    match e {
        E::Op(o, k) if k.len() == 2 => {
            let a = with_leaf(&k[0], i, by);
            bin(*o, a, with_leaf(&k[1], i, by))
        }
        E::Op(o, k) => un(*o, with_leaf(&k[0], i, by)),
        _ => {
            let hit = *i == 0;
            *i = i.wrapping_sub(1);
            if hit {
                by.clone()
            } else {
                e.clone()
            }
        }
    }
}

/// The same expression but for one place: operands swapped, another operator, another leaf, a
/// negation more.
pub fn sibling(r: &mut Rng, cfg: &Cfg, e: &E) -> E {
    match e {
        E::Op(o, k) => {
            let k: Vec<E> = k.to_vec();
            let join = |o: Op, mut k: Vec<E>| {
                if k.len() == 2 {
                    let b = k.pop().unwrap();
                    bin(o, k.pop().unwrap(), b)
                } else {
                    un(o, k.pop().unwrap())
                }
            };
            match r.below(6) {
                0 if k.len() == 2 => bin(*o, k[1].clone(), k[0].clone()),
                1 => {
                    let other: Vec<Op> = ALL_OPS.iter().copied().filter(|p| p.arity() == o.arity()).collect();
                    join(*r.pick(&other), k)
                }
                2 => neg(e.clone()),
                _ => {
                    let i = r.below(k.len() as u64) as usize;
                    let mut k = k;
                    k[i] = sibling(r, cfg, &k[i]);
                    join(*o, k)
                }
            }
        }
        E::Var(_) if cfg.vars.len() > 1 && r.chance(60) => var(r.pick(&cfg.vars)),
        E::Var(_) => neg(e.clone()),
        E::Num(N::Int(i)) => int(if r.chance(50) { i.wrapping_neg() } else { i.wrapping_add(1) }),
        E::Num(N::Frac(s, n, d)) if r.chance(50) => num(N::Frac(!*s, *n, *d)),
        E::Num(N::Frac(s, n, d)) if *n > 0 => num(N::Frac(*s, *d, *n)),
        E::Num(N::Real(f)) => num(N::Real(-f)),
        E::Num(N::Pi) => num(N::E),
        E::Num(N::E) => num(N::Pi),
        E::Num(n) => num(*n),
    }
}

/// Two copies of an expression, differing in one real beyond the digits that are printed.
pub fn alike(r: &mut Rng, e: &E) -> (E, E) {
    let i = r.below(leaves(e) as u64) as usize;
    let base = if r.chance(30) { 0.0 } else { r.range(1, 24) as f64 / 8.0 };
    let sign = if r.chance(30) { -1.0 } else { 1.0 };
    let step = 1.0 / 8192.0;
    let (j, k) = *r.pick(&[(0, 1), (1, 2), (0, 3), (1, 3), (2, 1), (3, 0), (2, 3)]);
    let real = |m: i64| num(N::Real(sign * (base + m as f64 * step)));
    (with_leaf(e, &mut i.clone(), &real(j)), with_leaf(e, &mut i.clone(), &real(k)))
}

/// A chain of many levels that still has moderate values.
pub fn deep(r: &mut Rng, cfg: &Cfg, d: &Dict) -> E {
    let most = cfg.deep_most.max(31) as i64;
    if most > 500 && r.chance(20) {
        return bush(r, cfg, d, 4000);
    }
    let near: Vec<i64> = d.ints.iter().map(|i| i.saturating_abs()).filter(|i| (16..=most).contains(i)).collect();
    let levels = match r.below(5) {
        0 if !near.is_empty() => r.pick(&near) + r.range(-3, 3),
        1 => (1i64 << r.range(5, 10)).min(most) + r.range(-2, 2),
        2 => r.range(30, most),
        _ => r.range(30, most.min(150)),
    };
    // the rest of the chain hangs left, right, or on both sides by turns
    let side = r.below(3);
    let fold = r.chance(20);
    let style = r.below(8);
    let kept: Vec<Op> = cfg.ops.iter().map(|x| x.0).collect();
    let mut one = *r.pick(&kept);
    // the same operator and the same variable again and again
    let plain = style >= 6 && !fold && !cfg.vars.is_empty();
    if plain && kept.contains(&Op::Mul) && r.chance(60) {
        one = Op::Mul;
    }
    let many = cfg.new_names && r.chance(25);
    let mut e = if fold { num(N::Int(r.range(-3, 3))) } else { Gen::new(r, cfg, d).leaf() };
    for i in 0..levels {
        let o = match style {
            0 | 6 | 7 => one,
            1 => *r.pick(&[Op::Add, Op::Sub]),
            2 => *r.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg]),
            _ => *r.pick(&kept),
        };
        if !kept.contains(&o) {
            continue;
        }
        let left = match side {
            0 => true,
            1 => false,
            _ => r.chance(50),
        };
        let free = if many && !cfg.vars.is_empty() { var(&format!("{}{}", cfg.vars[0], i)) } else { Gen::new(r, cfg, d).leaf() };
        let small = match r.below(6) {
            _ if plain => var(&cfg.vars[0]),
            _ if fold => num(N::Int(*r.pick(&[0, 1, -1, 2, -2]))),
            0 => num(N::Int(r.range(-3, 3))),
            1 if cfg.lits[1] > 0 => num(N::Frac(r.chance(50), 1 + r.below(3), 2 + r.below(4))),
            2 if cfg.lits[2] > 0 => num(N::Real(r.range(-8, 8) as f64 / 8.0)),
            _ => free.clone(),
        };
        let factor = match r.below(5) {
            _ if plain => var(&cfg.vars[0]),
            0 => int(1),
            1 => int(-1),
            2 if cfg.lits[1] > 0 => num(N::Frac(r.chance(50), 3, 4)),
            3 if cfg.lits[1] > 0 => num(N::Frac(r.chance(50), 4, 3)),
            3 => free,
            _ => int(*r.pick(&[2, 1])),
        };
        e = match o {
            Op::Add | Op::Sub if left => bin(o, e, small),
            Op::Add | Op::Sub => bin(o, small, e),
            Op::Mul if left => mul(e, factor),
            Op::Mul => mul(factor, e),
            Op::Div if left => div(e, factor),
            Op::Div => div(if r.chance(20) { small } else { factor }, e),
            Op::Pow if left => pow(e, int(*r.pick(&[1, 1, -1, 1, 2, 0]))),
            Op::Pow => pow(if r.chance(50) { int(1) } else { num(N::Frac(false, 1, 2)) }, e),
            Op::Exp if r.chance(80) && kept.contains(&Op::Ln) => un(Op::Exp, un(Op::Ln, e)),
            Op::Ln if r.chance(90) && kept.contains(&Op::Exp) => un(Op::Ln, un(Op::Exp, e)),
            Op::Exp if kept.contains(&Op::Sin) => un(Op::Exp, un(Op::Sin, e)),
            _ => un(o, e),
        };
    }
    e
}

/// Up to thousands of nodes, not deep: copies of a few small trees.
pub fn bush(r: &mut Rng, cfg: &Cfg, d: &Dict, most: usize) -> E {
    let bins: Vec<Op> = cfg.ops.iter().map(|x| x.0).filter(|o| matches!(o, Op::Add | Op::Sub | Op::Mul | Op::Div)).collect();
    let plain = r.chance(40);
    let part = |r: &mut Rng| if plain && !cfg.vars.is_empty() { var(r.pick(&cfg.vars)) } else {
        let n = 1 + r.below(5) as usize;
        Gen::new(r, cfg, d).tree(n, 0)
    };
    let mut e = part(r);
    if bins.is_empty() {
        return e;
    }
    let one = *r.pick(&bins);
    let same = r.chance(60);
    let goal = 200 + r.below(most as u64 - 200) as usize;
    while e.nodes() * 2 < goal {
        let o = if same { one } else { *r.pick(&bins) };
        let f = if r.chance(85) { e.clone() } else { part(r) };
        e = if r.chance(50) { bin(o, e, f) } else { bin(o, f, e) };
    }
    e
}

/// A tree with a size drawn up to `max` (mostly small) and a random shape.
pub fn tree(r: &mut Rng, cfg: &Cfg, d: &Dict, max: usize) -> E {
    if cfg.deep > 0 && r.below(10_000) < cfg.deep {
        return deep(r, cfg, d);
    }
    if let Some(e) = crate::guide::offer(r, cfg, d, max) {
        return e;
    }
    let m = max.max(2) as u64;
    let size = match r.below(10) {
        0..=3 => 2 + r.below(m.min(6) - 1),
        4..=7 => 2 + r.below((m / 2).max(2) - 1),
        _ => 2 + r.below(m - 1),
    } as usize;
    let shape = *r.pick(&[0, 0, 0, 1, 2, 3]);
    let e = Gen::new(r, cfg, d).tree(size, shape);
    crate::guide::made(&e);
    e
}

/// Distinct names, some of them contained in one another.
pub fn names(r: &mut Rng, d: &Dict, n: usize, for_text: bool) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut guard = 0;
    while out.len() < n && guard < 200 {
        guard += 1;
        let s: String = match r.below(12) {
            11 if !out.is_empty() => {
                let b = r.pick(&out).clone();
                cousin(r, &b)
            }
            0..=3 => ["x", "y", "z", "u"][r.below(4) as usize].into(),
            4..=7 => r.pick(NAME_POOL).to_string(),
            8 | 10 if !out.is_empty() => {
                let b = r.pick(&out).clone();
                match r.below(if for_text { 4 } else { 9 }) {
                    0 => format!("{}1", b),
                    1 => format!("{}{}", b, b),
                    2 => b.to_uppercase(),
                    3 => format!("q{}", b),
                    4 => format!("{}'", b),
                    5 => format!("{} ", b),
                    6 => format!(" {}", b),
                    7 => format!("{}_", b),
                    _ => {
                        let mut b = b;
                        b.pop();
                        b
                    }
                }
            }
            _ => {
                if d.names.is_empty() {
                    "w".into()
                } else {
                    r.pick(&d.names).clone()
                }
            }
        };
        let s = if r.below(300) == 0 && !cfg!(miri) { long_name(r, d, &s) } else { s };
        if out.contains(&s) || s.is_empty() || (for_text && !readable(&s)) {
            continue;
        }
        out.push(s);
    }
    while out.len() < n {
        out.push(format!("w{}", out.len()));
    }
    out
}

/// Another name that shares much with the given one: the letters, their sum, the ends, the length,
/// or a sum weighted with powers of 31, 33, 257 or the like.
fn cousin(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let letter = |r: &mut Rng| (b'a' + r.below(26) as u8) as char;
    let safe = |c: char| c.is_ascii_alphanumeric();
    match r.below(7) {
        0 => {
            r.shuffle(&mut c);
        }
        1 => c.reverse(),
        2 | 3 => {
            // one letter up, its neighbour down by as much as the weights ask for
            let step = *r.pick(&[1u32, 31, 33, 2, 37]);
            if c.len() < 2 || r.chance(50) {
                c = vec![*r.pick(&['x', 'y', 'u', 'Q', 'k', 't']), if step > 2 { *r.pick(&['A', 'B', 'C', 'D']) } else { letter(r) }];
                if let Some(k) = c.last_mut() {
                    if step > 2 {
                        *k = char::from_u32(*k as u32 + step).unwrap_or('q');
                    }
                }
                // the first of the two; the other follows from it, as a cousin of it
                return c.into_iter().collect();
            }
            let i = r.below(c.len() as u64 - 1) as usize;
            let up = r.chance(50);
            let (a, b) = (c[i] as u32, c[i + 1] as u32);
            let (a, b) = if up { (a + 1, b.wrapping_sub(step)) } else { (a.wrapping_sub(1), b + step) };
            match (char::from_u32(a), char::from_u32(b)) {
                (Some(a), Some(b)) if safe(a) && safe(b) => {
                    c[i] = a;
                    c[i + 1] = b;
                }
                _ => c.push(letter(r)),
            }
        }
        4 if c.len() > 2 => {
            // the ends and the length
            let i = 1 + r.below(c.len() as u64 - 2) as usize;
            c[i] = letter(r);
        }
        5 => {
            let k = c.len() - 1;
            c[k] = letter(r);
        }
        _ => {
            c[0] = letter(r);
        }
    }
    if c.first().map_or(false, |c| c.is_ascii_digit()) {
        c.insert(0, 'n');
    }
    c.into_iter().collect()
}

/// The name made long, up to some hundred characters.
fn long_name(r: &mut Rng, d: &Dict, s: &str) -> String {
    let near: Vec<i64> = d.ints.iter().copied().filter(|i| (8..=600).contains(i)).collect();
    let n = match r.below(3) {
        0 if !near.is_empty() => r.pick(&near) + r.range(-1, 2),
        1 => (1i64 << r.range(3, 9)) + r.range(-1, 1),
        _ => r.range(8, 70),
    } as usize;
    let mut t = s.to_string();
    while t.chars().count() < n {
        t.push(*r.pick(&['a', 'b', 'x', 'y', '1', '_']));
    }
    t
}

/// Can be told from numbers, functions and constants in printed text.
fn readable(s: &str) -> bool {
    let first = s.chars().next().unwrap();
    first.is_alphabetic()
        && s.chars().all(|c| c.is_alphanumeric() || c == '_')
        && !["sin", "cos", "exp", "ln", "pi", "e", "O", "E", "NaN", "inf"].iter().any(|p| s.starts_with(p))
}

fn place<'a>(e: &'a E, i: &mut usize) -> Option<&'a E> {
    if *i == 0 {
        return Some(e);
    }
    *i -= 1;
    e.kids().iter().find_map(|k| place(k, i))
}

fn put(e: &E, i: &mut usize, by: &E) -> E {
    let hit = *i == 0;
    *i = i.wrapping_sub(1);
    match e {
        _ if hit => by.clone(),
        E::Op(o, k) if k.len() == 2 => {
            let a = put(&k[0], i, by);
            bin(*o, a, put(&k[1], i, by))
        }
        E::Op(o, k) => un(*o, put(&k[0], i, by)),
        _ => e.clone(),
    }
}

/// Whether an expression could have been drawn under these settings, its variables renamed to those there are.
pub fn fit(cfg: &Cfg, e: &E) -> Option<E> {
    let mut ok = true;
    e.visit(&mut |x| {
        ok &= match x {
            E::Op(o, k) => cfg.has(*o) && (*o != Op::Pow || cfg.int_exponents < 100 || matches!(k[1], E::Num(N::Int(i)) if i.unsigned_abs() < 10)),
            E::Var(_) => !cfg.vars.is_empty(),
            E::Num(N::Int(i)) => cfg.lits[0] > 0 && (cfg.big > 0 || i.unsigned_abs() < 1000),
            E::Num(N::Frac(_, n, d)) => cfg.lits[1] > 0 && (cfg.big > 0 || *n < 100 && *d < 100),
            E::Num(N::Real(v)) => cfg.lits[2] > 0 && (!cfg.nice_reals || v.abs() <= 4.0 && (v * 8.0).fract() == 0.0) && v.is_finite() && v.abs() < if cfg.big > 0 { 1e100 } else { 100.0 },
            E::Num(_) => cfg.lits[3] > 0,
        }
    });
    if !ok {
        return None;
    }
    let mut e = e.clone();
    for (i, v) in e.vars().into_iter().enumerate() {
        if !cfg.vars.iter().any(|n| **n == *v) {
            e = e.replace(&v, &var(&cfg.vars[i % cfg.vars.len()]));
        }
    }
    Some(e)
}

/// The same expression but for a few places.
pub fn vary(r: &mut Rng, cfg: &Cfg, d: &Dict, e: &E, donor: &E) -> E {
    let mut e = e.clone();
    for _ in 0..1 + r.below(3) {
        let n = e.nodes() as u64;
        let i = r.below(n) as usize;
        let old = place(&e, &mut i.clone()).unwrap().clone();
        let by = match r.below(12) {
            0 | 1 => {
                let k = 1 + r.below(4) as usize;
                Gen::new(r, cfg, d).tree(k, 0)
            }
            2 | 3 => {
                let j = r.below(n) as usize;
                place(&e, &mut j.clone()).unwrap().clone()
            }
            4 => {
                let j = r.below(donor.nodes() as u64) as usize;
                place(donor, &mut j.clone()).unwrap().clone()
            }
            5 | 6 => match &old {
                E::Op(o, k) => {
                    let other: Vec<Op> = cfg.ops.iter().map(|x| x.0).filter(|p| p.arity() == o.arity()).collect();
                    let p = if other.is_empty() { *o } else { *r.pick(&other) };
                    if k.len() == 2 {
                        bin(p, k[0].clone(), k[1].clone())
                    } else {
                        un(p, k[0].clone())
                    }
                }
                _ => Gen::new(r, cfg, d).leaf(),
            },
            7 | 8 => {
                let p = cfg.ops[r.below(cfg.ops.len() as u64) as usize].0;
                if p.arity() == 1 {
                    un(p, old.clone())
                } else {
                    let l = Gen::new(r, cfg, d).leaf();
                    if r.chance(50) {
                        bin(p, old.clone(), l)
                    } else {
                        bin(p, l, old.clone())
                    }
                }
            }
            9 => match old.kids() {
                [] => Gen::new(r, cfg, d).leaf(),
                k => k[r.below(k.len() as u64) as usize].clone(),
            },
            10 => match &old {
                E::Op(o, k) if k.len() == 2 => bin(*o, k[1].clone(), k[0].clone()),
                _ => Gen::new(r, cfg, d).leaf(),
            },
            _ => sibling(r, cfg, &old),
        };
        e = put(&e, &mut i.clone(), &by);
    }
    e
}
