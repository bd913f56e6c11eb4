//! The choice tape: the only source of randomness of a run.
//!
//! While searching, choices are drawn from a PRNG and recorded; while replaying or minimising they are read back from
//! a recorded tape. Generators are written so that 0 is the simplest choice, and a tape that ends early continues
//! with zeros, so that deleting or lowering entries always yields a valid, simpler run.

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn chance256(&mut self, p: u32) -> bool {
        p > 0 && self.below(256) < p as u64
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn seed_of(seed: u64, prop: &str, run: u64) -> u64 {
    let mut h = mix(seed ^ 0x5151_5151);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ run.wrapping_mul(0xD6E8_FEB8_6659_FD93))
}

pub struct Tape {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub used: Vec<u64>,
    mirror: Option<std::fs::File>,
}

impl Tape {
    pub fn search(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), replay: Vec::new(), pos: 0, used: Vec::new(), mirror: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Tape { rng: None, replay: tape, pos: 0, used: Vec::new(), mirror: None }
    }
    /// Also writes every choice to a file at once.
    pub fn mirror(&mut self, path: &str) {
        self.mirror = std::fs::File::create(path).ok();
    }
    fn push(&mut self, v: u64) {
        self.used.push(v);
        if let Some(f) = &mut self.mirror {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
    }
    /// A choice in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        self.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn any64(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        self.push(v);
        v
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    /// True with probability num/den; true is the simple choice.
    pub fn mostly(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// Weighted index; list the simplest alternative first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, &x) in w.iter().enumerate() {
            if r < x {
                return i;
            }
            r -= x;
        }
        0
    }
    /// Roughly log-uniform in 0..=max, biased to small values and to edges.
    pub fn log(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let lo = 1u64 << (b - 1);
        let hi = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        let v = match self.below(4) {
            0 => lo,
            1 => hi,
            _ => lo + self.below(hi - lo + 1),
        };
        v.min(max)
    }
}

/// Deterministic bytes derived from a seed: unique content without spending tape on it.
pub fn pattern(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(mix(seed ^ 0xABCD));
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(len);
    v
}

#[derive(Clone, Copy)]
pub struct Hash(pub u64);
impl Hash {
    pub fn new() -> Self {
        Hash(0x1234_5678_9abc_def1)
    }
    pub fn add(&mut self, v: u64) -> &mut Self {
        self.0 = mix(self.0.rotate_left(5) ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15));
        self
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(a));
        }
        self.add(b.len() as u64)
    }
}
