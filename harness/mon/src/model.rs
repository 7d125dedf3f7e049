//! The monitors' own picture of numbers and expressions, built from and compared with the
//! system's trees only through its public views.

use crate::big::Rat;
use std::collections::BTreeSet;
use std::fmt::Write;
use std::rc::Rc;
use symbolic_rust::verif_hook::{self as v, Cos, Exp, Expression, Ln, OperatorType, Pow, Root, Sin, SmartNum, ToRational};

#[derive(Clone, Copy, Debug)]
pub enum N {
    Int(i64),
    /// negative?, numerator, denominator; not necessarily reduced
    Frac(bool, u64, u64),
    Real(f64),
    Pi,
    E,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Neg,
    Add,
    Sub,
    Mul,
    Div,
    Sin,
    Cos,
    Exp,
    Ln,
    Pow,
}

pub const ALL_OPS: [Op; 10] = [Op::Neg, Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Sin, Op::Cos, Op::Exp, Op::Ln, Op::Pow];

impl Op {
    pub fn arity(self) -> usize {
        match self {
            Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Pow => 2,
            _ => 1,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Op::Neg => "neg",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Sin => "sin",
            Op::Cos => "cos",
            Op::Exp => "exp",
            Op::Ln => "ln",
            Op::Pow => "^",
        }
    }
    pub fn from_sut(t: &OperatorType) -> Op {
        match t {
            OperatorType::Neg => Op::Neg,
            OperatorType::Add => Op::Add,
            OperatorType::Sub => Op::Sub,
            OperatorType::Mul => Op::Mul,
            OperatorType::Div => Op::Div,
            OperatorType::Sin => Op::Sin,
            OperatorType::Cos => Op::Cos,
            OperatorType::Exp => Op::Exp,
            OperatorType::Ln => Op::Ln,
            OperatorType::Pow => Op::Pow,
        }
    }
}

#[derive(Clone, Debug)]
pub enum E {
    Num(N),
    Var(Rc<str>),
    Op(Op, Rc<Vec<E>>),
}

impl N {
    pub fn to_sut(self) -> SmartNum {
        match self {
            N::Int(i) => SmartNum::from(i),
            N::Frac(neg, n, d) => SmartNum::new_rational(if neg { -1 } else { 1 }, n, d).expect("fraction parts are valid"),
            N::Real(f) => SmartNum::from(f),
            N::Pi => SmartNum::pi(),
            N::E => SmartNum::e(),
        }
    }
    pub fn from_sut(s: &SmartNum) -> N {
        let f = s.to_f64();
        if let Some(i) = s.to_i64() {
            N::Int(i)
        } else if let Some(r) = s.to_rational() {
            N::Frac(r.sign < 0, r.nominator, r.denominator)
        } else if s.is_pi() && f == std::f64::consts::PI {
            N::Pi
        } else if s.is_e() && f == std::f64::consts::E {
            N::E
        } else {
            N::Real(f)
        }
    }
    /// The exact value of an integer or fraction.
    pub fn exact(self) -> Option<Rat> {
        match self {
            N::Int(i) => Some(Rat::int(i)),
            N::Frac(neg, n, d) if d != 0 => Some(Rat::frac(neg, n, d)),
            _ => None,
        }
    }
    /// The exact value of anything but pi and e (a real stands for its double).
    pub fn exact_or_double(self) -> Option<Rat> {
        match self {
            N::Real(f) => Rat::from_f64(f),
            N::Pi => Rat::from_f64(std::f64::consts::PI),
            N::E => Rat::from_f64(std::f64::consts::E),
            _ => self.exact(),
        }
    }
    pub fn is_exact(self) -> bool {
        matches!(self, N::Int(_) | N::Frac(..))
    }
    pub fn is_exact_zero(self) -> bool {
        matches!(self, N::Int(0)) || matches!(self, N::Frac(_, 0, d) if d != 0)
    }
    pub fn is_exact_one(self) -> bool {
        matches!(self, N::Int(1)) || matches!(self, N::Frac(false, n, d) if n == d && d != 0)
    }
    pub fn to_f64(self) -> f64 {
        match self {
            N::Int(i) => i as f64,
            N::Frac(neg, n, d) => {
                let q = n as f64 / d as f64;
                if neg {
                    -q
                } else {
                    q
                }
            }
            N::Real(f) => f,
            N::Pi => std::f64::consts::PI,
            N::E => std::f64::consts::E,
        }
    }
    pub fn text(self) -> String {
        match self {
            N::Int(i) => format!("{}", i),
            N::Frac(neg, n, d) => format!("{}{}/{}", if neg { "-" } else { "" }, n, d),
            N::Real(f) => format!("{:?}r", f),
            N::Pi => "pi".into(),
            N::E => "e".into(),
        }
    }
    pub fn kind(self) -> &'static str {
        match self {
            N::Int(_) => "int",
            N::Frac(..) => "frac",
            N::Real(_) => "real",
            N::Pi => "pi",
            N::E => "e",
        }
    }
    /// Same kind, same parts (all NaN are one).
    pub fn same(self, o: N) -> bool {
        match (self, o) {
            (N::Int(a), N::Int(b)) => a == b,
            (N::Frac(s, a, b), N::Frac(t, c, d)) => s == t && a == c && b == d,
            (N::Real(a), N::Real(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (N::Pi, N::Pi) | (N::E, N::E) => true,
            _ => false,
        }
    }
}

pub fn num(n: N) -> E {
    E::Num(n)
}
pub fn int(i: i64) -> E {
    E::Num(N::Int(i))
}
pub fn var(s: &str) -> E {
    E::Var(Rc::from(s))
}
pub fn un(o: Op, a: E) -> E {
    E::Op(o, Rc::new(vec![a]))
}
pub fn bin(o: Op, a: E, b: E) -> E {
    E::Op(o, Rc::new(vec![a, b]))
}
pub fn add(a: E, b: E) -> E {
    bin(Op::Add, a, b)
}
pub fn sub(a: E, b: E) -> E {
    bin(Op::Sub, a, b)
}
pub fn mul(a: E, b: E) -> E {
    bin(Op::Mul, a, b)
}
pub fn div(a: E, b: E) -> E {
    bin(Op::Div, a, b)
}
pub fn pow(a: E, b: E) -> E {
    bin(Op::Pow, a, b)
}
pub fn neg(a: E) -> E {
    un(Op::Neg, a)
}

/// Builds the system's tree with its public operators.
pub fn to_sut(e: &E) -> Expression {
    match e {
        E::Num(n) => Expression::from(n.to_sut()),
        E::Var(s) => Expression::new_variable(s),
        E::Op(o, c) => {
            let a = to_sut(&c[0]);
            match o {
                Op::Neg => -a,
                Op::Sin => a.sin(),
                Op::Cos => a.cos(),
                Op::Exp => a.exp(),
                Op::Ln => a.ln(),
                Op::Add => a + to_sut(&c[1]),
                Op::Sub => a - to_sut(&c[1]),
                Op::Mul => a * to_sut(&c[1]),
                Op::Div => a / to_sut(&c[1]),
                Op::Pow => a.pow(to_sut(&c[1])),
            }
        }
    }
}

pub fn from_sut(x: &Expression) -> E {
    match v::root(x) {
        Root::Num(n) => E::Num(N::from_sut(n)),
        Root::Variable(s) => E::Var(Rc::from(s)),
        Root::Operator(t) => E::Op(Op::from_sut(&t), Rc::new(v::children(x).iter().map(from_sut).collect())),
    }
}

impl E {
    pub fn nodes(&self) -> usize {
        match self {
            E::Op(_, c) => 1 + c.iter().map(E::nodes).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            E::Op(_, c) => 1 + c.iter().map(E::depth).max().unwrap_or(0),
            _ => 1,
        }
    }
    /// Every operator has the operands it takes.
    pub fn well_formed(&self) -> bool {
        match self {
            E::Op(o, c) => c.len() == o.arity() && c.iter().all(E::well_formed),
            _ => true,
        }
    }
    pub fn write(&self, s: &mut String) {
        match self {
            E::Num(n) => s.push_str(&n.text()),
            E::Var(x) => {
                let _ = write!(s, "{}", x);
            }
            E::Op(o, c) => {
                s.push('(');
                s.push_str(o.name());
                for x in c.iter() {
                    s.push(' ');
                    x.write(s);
                }
                s.push(')');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn hash(&self) -> u64 {
        crate::rng::hash_str(&self.text())
    }
    pub fn same(&self, o: &E) -> bool {
        match (self, o) {
            (E::Num(a), E::Num(b)) => a.same(*b),
            (E::Var(a), E::Var(b)) => a == b,
            (E::Op(p, a), E::Op(q, b)) => p == q && a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.same(y)),
            _ => false,
        }
    }
    pub fn vars(&self) -> BTreeSet<Rc<str>> {
        let mut s = BTreeSet::new();
        self.collect_vars(&mut s);
        s
    }
    fn collect_vars(&self, s: &mut BTreeSet<Rc<str>>) {
        match self {
            E::Var(x) => {
                s.insert(x.clone());
            }
            E::Op(_, c) => c.iter().for_each(|x| x.collect_vars(s)),
            _ => {}
        }
    }
    pub fn mentions(&self, name: &str) -> bool {
        match self {
            E::Var(x) => &**x == name,
            E::Op(_, c) => c.iter().any(|x| x.mentions(name)),
            _ => false,
        }
    }
    pub fn closed(&self) -> bool {
        match self {
            E::Var(_) => false,
            E::Op(_, c) => c.iter().all(E::closed),
            _ => true,
        }
    }
    pub fn replace(&self, name: &str, by: &E) -> E {
        match self {
            E::Var(x) if &**x == name => by.clone(),
            E::Op(o, c) => E::Op(*o, Rc::new(c.iter().map(|x| x.replace(name, by)).collect())),
            _ => self.clone(),
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&E) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            E::Op(_, c) => c.iter().any(|x| x.any(f)),
            _ => false,
        }
    }
    pub fn visit(&self, f: &mut dyn FnMut(&E)) {
        f(self);
        if let E::Op(_, c) = self {
            c.iter().for_each(|x| x.visit(f));
        }
    }
    pub fn is_num(&self) -> bool {
        matches!(self, E::Num(_))
    }
    pub fn is_exact_zero(&self) -> bool {
        matches!(self, E::Num(n) if n.is_exact_zero())
    }
    pub fn is_exact_one(&self) -> bool {
        matches!(self, E::Num(n) if n.is_exact_one())
    }
    pub fn is_op(&self, o: Op) -> bool {
        matches!(self, E::Op(p, _) if *p == o)
    }
    pub fn kids(&self) -> &[E] {
        match self {
            E::Op(_, c) => c,
            _ => &[],
        }
    }
    /// No real, pi or e anywhere.
    pub fn only_exact_numbers(&self) -> bool {
        !self.any(&mut |x| matches!(x, E::Num(N::Real(_)) | E::Num(N::Pi) | E::Num(N::E)))
    }
    pub fn only_ops(&self, ops: &[Op]) -> bool {
        !self.any(&mut |x| matches!(x, E::Op(o, _) if !ops.contains(o)))
    }
}
