//! Arbitrary-precision integers and rationals: the exact reference for number arithmetic.

use std::cmp::Ordering;

/// Magnitude, little-endian base 2^32, no trailing zeros.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Nat(Vec<u32>);

impl Nat {
    pub fn zero() -> Nat {
        Nat(vec![])
    }
    pub fn from_u128(mut v: u128) -> Nat {
        let mut d = vec![];
        while v > 0 {
            d.push(v as u32);
            v >>= 32;
        }
        Nat(d)
    }
    pub fn from_u64(v: u64) -> Nat {
        Nat::from_u128(v as u128)
    }
    pub fn parse(s: &str) -> Option<Nat> {
        if s.is_empty() {
            return None;
        }
        let mut n = Nat::zero();
        let ten = Nat::from_u64(10);
        for c in s.chars() {
            n = n.mul(&ten).add(&Nat::from_u64(c.to_digit(10)? as u64));
        }
        Some(n)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_one(&self) -> bool {
        self.0.len() == 1 && self.0[0] == 1
    }
    pub fn to_u64(&self) -> Option<u64> {
        match self.0.len() {
            0 => Some(0),
            1 => Some(self.0[0] as u64),
            2 => Some(self.0[0] as u64 | (self.0[1] as u64) << 32),
            _ => None,
        }
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(t) => self.0.len() * 32 - t.leading_zeros() as usize,
        }
    }
    fn trim(mut v: Vec<u32>) -> Nat {
        while v.last() == Some(&0) {
            v.pop();
        }
        Nat(v)
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| {
            for i in (0..self.0.len()).rev() {
                match self.0[i].cmp(&o.0[i]) {
                    Ordering::Equal => {}
                    x => return x,
                }
            }
            Ordering::Equal
        })
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let s = *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64 + c;
            r.push(s as u32);
            c = s >> 32;
        }
        if c > 0 {
            r.push(c as u32);
        }
        Nat(r)
    }
    /// self - o, self >= o.
    pub fn sub(&self, o: &Nat) -> Nat {
        let mut r = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut s = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if s < 0 {
                s += 1 << 32;
                b = 1;
            }
            r.push(s as u32);
        }
        assert!(b == 0, "Nat::sub underflow");
        Nat::trim(r)
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut r = vec![0u32; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let mut c = 0u64;
            for j in 0..o.0.len() {
                let t = self.0[i] as u64 * o.0[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.0.len()] = c as u32;
        }
        Nat::trim(r)
    }
    fn shl(&self, s: usize) -> Nat {
        let (w, b) = (s / 32, s % 32);
        let mut r = vec![0u32; w];
        let mut c = 0u32;
        for &d in &self.0 {
            if b == 0 {
                r.push(d);
            } else {
                r.push(d << b | c);
                c = d >> (32 - b);
            }
        }
        if c > 0 {
            r.push(c);
        }
        Nat::trim(r)
    }
    fn shr(&self, s: usize) -> Nat {
        let (w, b) = (s / 32, s % 32);
        if w >= self.0.len() {
            return Nat::zero();
        }
        let mut r = vec![];
        for i in w..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0);
            r.push(if b == 0 { self.0[i] } else { self.0[i] >> b | hi << (32 - b) });
        }
        Nat::trim(r)
    }
    fn is_even(&self) -> bool {
        self.0.first().map_or(true, |d| d & 1 == 0)
    }
    pub fn divrem(&self, o: &Nat) -> (Nat, Nat) {
        assert!(!o.is_zero());
        if self.cmp(o) == Ordering::Less {
            return (Nat::zero(), self.clone());
        }
        if o.0.len() == 1 {
            let d = o.0[0] as u64;
            let mut q = vec![0; self.0.len()];
            let mut r = 0u64;
            for i in (0..self.0.len()).rev() {
                let t = r << 32 | self.0[i] as u64;
                q[i] = (t / d) as u32;
                r = t % d;
            }
            return (Nat::trim(q), Nat::from_u64(r));
        }
        // Schoolbook (Knuth D) with normalisation.
        let s = o.0.last().unwrap().leading_zeros() as usize;
        let u0 = self.shl(s);
        let v = o.shl(s).0;
        let mut u = u0.0;
        u.push(0);
        let n = v.len();
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = (u[j + n] as u128) << 64 | (u[j + n - 1] as u128) << 32 | u[j + n - 2] as u128;
            let den = (v[n - 1] as u128) << 32 | v[n - 2] as u128;
            let mut qh = (num / den).min(u32::MAX as u128) as u64;
            loop {
                let mut borrow = 0i128;
                let mut t = Vec::with_capacity(n + 1);
                let mut carry = 0u64;
                for i in 0..=n {
                    let p = if i < n { qh * v[i] as u64 + carry } else { carry };
                    carry = p >> 32;
                    let d = u[j + i] as i128 - (p as u32) as i128 - borrow;
                    if d < 0 {
                        t.push((d + (1i128 << 32)) as u32);
                        borrow = 1;
                    } else {
                        t.push(d as u32);
                        borrow = 0;
                    }
                }
                if borrow == 0 {
                    u[j..=j + n].copy_from_slice(&t);
                    q[j] = qh as u32;
                    break;
                }
                qh -= 1;
            }
        }
        (Nat::trim(q), Nat::trim(u[..n].to_vec()).shr(s))
    }
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.divrem(&b).1;
            a = b;
            b = r;
        }
        a
    }
    pub fn to_f64_exp(&self) -> (f64, i32) {
        // value ~ m * 2^e, m from the top 64 bits
        let b = self.bits();
        if b <= 64 {
            return (self.to_u64().unwrap() as f64, 0);
        }
        (self.shr(b - 64).to_u64().unwrap() as f64, (b - 64) as i32)
    }
    pub fn to_string(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = vec![];
        let mut n = self.clone();
        let d = Nat::from_u64(1_000_000_000);
        while !n.is_zero() {
            let (q, r) = n.divrem(&d);
            s.push(r.to_u64().unwrap());
            n = q;
        }
        let mut out = format!("{}", s.pop().unwrap());
        while let Some(x) = s.pop() {
            out.push_str(&format!("{:09}", x));
        }
        out
    }
    #[allow(dead_code)]
    pub fn even(&self) -> bool {
        self.is_even()
    }
}

/// Rational in lowest terms, positive denominator.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Rat {
    pub neg: bool,
    pub n: Nat,
    pub d: Nat,
}

impl Rat {
    pub fn new(neg: bool, n: Nat, d: Nat) -> Rat {
        assert!(!d.is_zero());
        if n.is_zero() {
            return Rat { neg: false, n, d: Nat::from_u64(1) };
        }
        let g = n.gcd(&d);
        if g.is_one() {
            return Rat { neg, n, d };
        }
        Rat { neg, n: n.divrem(&g).0, d: d.divrem(&g).0 }
    }
    pub fn zero() -> Rat {
        Rat::int(0)
    }
    pub fn int(v: i64) -> Rat {
        Rat::new(v < 0, Nat::from_u64(v.unsigned_abs()), Nat::from_u64(1))
    }
    pub fn frac(neg: bool, n: u64, d: u64) -> Rat {
        Rat::new(neg, Nat::from_u64(n), Nat::from_u64(d))
    }
    /// The exact value of a finite double.
    pub fn from_f64(v: f64) -> Option<Rat> {
        if !v.is_finite() {
            return None;
        }
        let bits = v.abs().to_bits();
        let e = (bits >> 52) as i32;
        let m = bits & ((1 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
        let m = Nat::from_u64(m);
        Some(if e >= 0 {
            Rat::new(v < 0.0, m.shl(e as usize), Nat::from_u64(1))
        } else {
            Rat::new(v < 0.0, m, Nat::from_u64(1).shl((-e) as usize))
        })
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn neg(&self) -> Rat {
        Rat { neg: !self.neg && !self.n.is_zero(), n: self.n.clone(), d: self.d.clone() }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        let a = self.n.mul(&o.d);
        let b = o.n.mul(&self.d);
        let d = self.d.mul(&o.d);
        if self.neg == o.neg {
            Rat::new(self.neg, a.add(&b), d)
        } else if a.cmp(&b) != Ordering::Less {
            Rat::new(self.neg, a.sub(&b), d)
        } else {
            Rat::new(o.neg, b.sub(&a), d)
        }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        Rat::new(self.neg != o.neg, self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn div(&self, o: &Rat) -> Option<Rat> {
        if o.is_zero() {
            None
        } else {
            Some(Rat::new(self.neg != o.neg, self.n.mul(&o.d), self.d.mul(&o.n)))
        }
    }
    /// As a signed 64-bit integer, if it is one.
    pub fn as_i64(&self) -> Option<i64> {
        if !self.d.is_one() {
            return None;
        }
        let m = self.n.to_u64()?;
        if self.neg {
            if m <= 1 << 63 {
                Some((m as i128).wrapping_neg() as i64)
            } else {
                None
            }
        } else {
            i64::try_from(m).ok()
        }
    }
    /// Fits the library's number type exactly.
    pub fn fits(&self) -> bool {
        self.n.to_u64().is_some() && self.d.to_u64().is_some()
    }
    pub fn to_f64(&self) -> f64 {
        // Within a couple of ulps, whatever the sizes.
        let (a, ea) = self.n.to_f64_exp();
        let (b, eb) = self.d.to_f64_exp();
        let v = scale(a / b, ea - eb);
        if self.neg {
            -v
        } else {
            v
        }
    }
    pub fn bits(&self) -> usize {
        self.n.bits() + self.d.bits()
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        let d = self.sub(o);
        if d.is_zero() {
            Ordering::Equal
        } else if d.neg {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    pub fn abs(&self) -> Rat {
        Rat { neg: false, n: self.n.clone(), d: self.d.clone() }
    }
    pub fn powi(&self, k: i64) -> Option<Rat> {
        if k < 0 {
            return Rat::int(1).div(&self.powi(-k)?);
        }
        let mut r = Rat::int(1);
        for _ in 0..k {
            r = r.mul(self);
            if r.bits() > 20000 {
                return None;
            }
        }
        Some(r)
    }
    pub fn to_string(&self) -> String {
        format!("{}{}/{}", if self.neg { "-" } else { "" }, self.n.to_string(), self.d.to_string())
    }
}

fn scale(mut v: f64, mut e: i32) -> f64 {
    while e > 0 && v != 0.0 && v.is_finite() {
        let s = e.min(1000);
        v *= 2f64.powi(s);
        e -= s;
    }
    while e < 0 && v != 0.0 {
        let s = (-e).min(1000);
        v /= 2f64.powi(s);
        e += s;
    }
    v
}

pub fn self_test() {
    let mut r = crate::rng::Rng::new(&[7]);
    for _ in 0..2000 {
        let a = r.next() as u128 * r.next() as u128 >> r.below(100);
        let b = (r.next() as u128 * r.next() as u128 >> r.below(127)) | 1;
        let (q, m) = Nat::from_u128(a).divrem(&Nat::from_u128(b));
        assert!(q == Nat::from_u128(a / b) && m == Nat::from_u128(a % b));
        let c = Nat::from_u128(a).mul(&Nat::from_u128(b)).mul(&Nat::from_u128(a ^ b));
        let (q, m) = c.add(&Nat::from_u128(b >> 1)).divrem(&Nat::from_u128(b));
        assert!(q == Nat::from_u128(a).mul(&Nat::from_u128(a ^ b)) && m == Nat::from_u128(b >> 1));
        let d = c.mul(&c);
        let (q, m) = d.divrem(&c.add(&Nat::from_u64(1)));
        assert!(q.mul(&c.add(&Nat::from_u64(1))).add(&m) == d);
        assert!(Nat::parse(&d.to_string()).unwrap() == d);
        let f = f64::from_bits(r.next());
        if let Some(x) = Rat::from_f64(f) {
            let back = x.to_f64();
            assert!((back - f).abs() <= f.abs() * 1e-15 + 1e-320, "{} {}", f, back);
        }
    }
}
