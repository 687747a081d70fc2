//! Choice-tape engine: every random decision of a case (inputs, schedules, faults) is drawn from
//! one tape of integers, so a case is a pure function of its tape. Failing tapes are shrunk by
//! deleting and lowering entries; 0 is by convention the simplest choice at every draw site.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h, s.len() as u64)
}

pub struct Tape {
    replay: Option<Vec<u64>>,
    /// Choices are read from bytes (coverage-guided search).
    bytes: Option<(Vec<u8>, usize)>,
    rng: Rng,
    pub out: Vec<u64>,
    /// Where choices are also written as the bytes `bytes` would read them from.
    pub encode: Option<Vec<u8>>,
}

/// How many bytes a choice among n takes.
fn width(n: u64) -> usize {
    match n {
        0..=0x100 => 1,
        0x101..=0x1_0000 => 2,
        0x1_0001..=0x1_0000_0000 => 4,
        _ => 8,
    }
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { replay: None, bytes: None, rng: Rng::new(seed), out: Vec::new(), encode: None }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Tape { replay: Some(data), bytes: None, rng: Rng::new(0), out: Vec::new(), encode: None }
    }
    pub fn bytes(data: Vec<u8>) -> Self {
        Tape { replay: None, bytes: Some((data, 0)), rng: Rng::new(0), out: Vec::new(), encode: None }
    }
    fn read(&mut self, width: usize) -> Option<u64> {
        let (data, at) = self.bytes.as_mut()?;
        let v = data.iter().skip(*at).take(width).rev().fold(0, |v, b| v << 8 | *b as u64);
        *at += width;
        Some(v)
    }
    fn note(&mut self, v: u64, width: usize) {
        self.out.push(v);
        if let Some(e) = self.encode.as_mut() {
            e.extend_from_slice(&v.to_le_bytes()[..width]);
        }
    }
    /// Uniform choice in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match (self.read(width(n)), &self.replay) {
            (Some(v), _) => v % n,
            (None, Some(d)) => match d.get(self.out.len()) {
                Some(v) => *v % n,
                None => 0,
            },
            (None, None) => self.rng.next() % n,
        };
        self.note(v, width(n));
        v
    }
    pub fn u64(&mut self) -> u64 {
        let v = match (self.read(8), &self.replay) {
            (Some(v), _) => v,
            (None, Some(d)) => d.get(self.out.len()).copied().unwrap_or(0),
            (None, None) => self.rng.next(),
        };
        self.note(v, 8);
        v
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64) as usize;
        &items[i]
    }
    /// Weighted index; put the simplest first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize; // 0 = keep order
            v.swap(i, j);
        }
    }
    /// Real in [0,1).
    pub fn unit(&mut self) -> f64 {
        (self.below(1 << 53) as f64) / ((1u64 << 53) as f64)
    }
}
