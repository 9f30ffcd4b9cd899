//! Seeded generator (xoshiro256**) and the value pools every workload draws from.

#[derive(Clone)]
pub struct Rng(pub [u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        let mut s = [0u64; 4];
        for v in &mut s {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            *v = x ^ (x >> 31);
        }
        Rng(s)
    }
    pub fn derive(&self, tag: &str) -> Self {
        let mut h = self.0[0] ^ self.0[2].rotate_left(17);
        for b in tag.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100000001B3);
        }
        Rng::new(h)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in [0,1).
    pub fn u(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// Inclusive integer range.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo) as u64 + 1)) as i64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.u() < p
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.u()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn normal(&mut self) -> f64 {
        let u1 = 1.0 - self.u();
        let u2 = self.u();
        (-2.0 * u1.ln()).sqrt() * (std::f64::consts::TAU * u2).cos()
    }
    /// Log-uniform positive value in 10^[lo,hi].
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        10f64.powf(self.range(lo, hi))
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// A positive parameter: ordinary values, small integers, round values, extremes.
    pub fn pos(&mut self) -> f64 {
        match self.below(10) {
            0..=3 => self.logu(-1.0, 1.0),
            4 | 5 => self.logu(-3.0, 3.0),
            6 => self.int(1, 12) as f64,
            7 => *self.pick(&[0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 0.25, 10.0, 100.0]),
            8 => self.logu(-6.0, 5.0),
            _ => 1.0 + self.normal().abs(),
        }
    }
    /// A location parameter.
    pub fn loc(&mut self) -> f64 {
        match self.below(8) {
            0 => 0.0,
            1 => self.int(-10, 10) as f64,
            2 => self.normal() * 1e4,
            3 => self.normal() * 1e-4,
            _ => self.normal() * 3.0,
        }
    }
    /// A probability strictly inside (0,1).
    pub fn prob(&mut self) -> f64 {
        match self.below(10) {
            0..=4 => self.range(0.02, 0.98),
            5 => *self.pick(&[0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, 0.3, 0.125]),
            6 => self.logu(-6.0, -1.0),
            7 => 1.0 - self.logu(-6.0, -1.0),
            8 => self.logu(-12.0, -6.0),
            _ => self.range(0.001, 0.999),
        }
    }
    /// A count: small, medium, past the tables and thresholds in the code, large.
    pub fn count(&mut self, max: u64) -> u64 {
        let v = match self.below(11) {
            10 => self.edge((max.max(2) as f64).log2() as i64 + 1).unsigned_abs(),
            0 => 0,
            1 => 1,
            2..=4 => self.int(0, 12) as u64,
            5 | 6 => self.int(8, 40) as u64,
            7 => self.int(15, 26) as u64,
            8 => self.int(40, 250) as u64,
            _ => self.logu(0.0, (max.max(2) as f64).log10()) as u64,
        };
        v.min(max)
    }
    /// A whole number next to a power of two, where narrower integer types end.
    pub fn edge(&mut self, max_bits: i64) -> i64 {
        let v = (1i128 << self.int(1, max_bits.min(63))) + i128::from(self.int(-2, 2));
        let v = v.clamp(0, i128::from(i64::MAX)) as i64;
        if self.chance(0.35) { -v } else { v }
    }
    /// A collection length: mostly up to `typical`, with a tail that reaches `max` and
    /// favours the neighbourhood of powers of two, where block sizes live.
    pub fn len(&mut self, typical: usize, max: usize) -> usize {
        let v = match self.below(20) {
            0 => 0,
            1 => 1,
            2 => (1usize << self.int(1, (max.max(2) as f64).log2() as i64)).saturating_add_signed(self.int(-1, 1) as isize),
            3 => self.logu(0.0, (max.max(2) as f64).log10()) as usize,
            _ => self.int(2, typical.max(2) as i64) as usize,
        };
        v.min(max)
    }
    /// Any finite value an expression input may take.
    pub fn fin(&mut self) -> f64 {
        match self.below(12) {
            0 => 0.0,
            1 => *self.pick(&[1.0, -1.0, 2.0, 0.5, -0.5, 3.0, -2.0, 10.0]),
            2 => self.int(-20, 20) as f64,
            3 => self.normal() * 10f64.powf(self.range(-8.0, 8.0)),
            4 => -self.logu(-3.0, 2.0),
            5 => self.logu(-3.0, 2.0),
            _ => self.normal() * 2.0,
        }
    }
    /// Any value at all, special ones included.
    pub fn any(&mut self) -> f64 {
        match self.below(8) {
            0 => *self.pick(&[
                0.0,
                -0.0,
                f64::INFINITY,
                f64::NEG_INFINITY,
                f64::NAN,
                f64::MIN_POSITIVE,
                5e-324,
                1e-310,
                f64::MAX,
                f64::MIN,
                f64::EPSILON,
                709.0,
                -745.0,
                710.0,
                -746.0,
                1e300,
                -1e300,
                1e18,
            ]),
            1 => f64::from_bits(self.next()),
            2 => {
                let x = self.fin();
                f64::from_bits(x.to_bits().wrapping_add(self.below(3) as u64))
            }
            3 => self.normal() * 10f64.powf(self.range(-20.0, 20.0)),
            _ => self.fin(),
        }
    }
}

/// Stable hash of a case description, used to count distinct cases.
pub fn fnv(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.to_le_bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
        }
    }
    h
}
pub fn hs(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
    }
    h
}
