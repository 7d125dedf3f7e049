//! Deterministic randomness: every case is a function of (seed, property, shard, index).

#[derive(Clone)]
pub struct Rng {
    s: u64,
    tape: Option<Box<Tape>>,
}

/// Choices to be made first, and those made.
#[derive(Clone)]
struct Tape {
    play: Vec<u64>,
    made: Vec<u64>,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut s = 0x9e3779b97f4a7c15u64;
        for p in parts {
            s = mix(s.wrapping_mul(0x2545f4914f6cdd1d) ^ mix(p.wrapping_add(0x9e3779b97f4a7c15)));
        }
        Rng { s, tape: None }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let v = mix(self.s);
        match &mut self.tape {
            None => v,
            Some(t) => {
                let v = t.play.get(t.made.len()).copied().unwrap_or(v);
                t.made.push(v);
                v
            }
        }
    }
    /// Makes the given choices first and records all.
    pub fn play(&mut self, play: Vec<u64>) {
        self.tape = Some(Box::new(Tape { play, made: vec![] }));
    }
    pub fn made(self) -> Vec<u64> {
        self.tape.map(|t| t.made).unwrap_or_default()
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}
