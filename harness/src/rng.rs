//! Deterministic PRNG (xoshiro256++ seeded by splitmix64).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// Cases in which a few of the counts are drawn from a range so many times as large.
    pub big: usize,
    pub huge: bool,
    left: usize,
    /// The largest count drawn so.
    pub drawn: usize,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64, index: u64) -> Rng {
        let mut x = seed;
        let a = splitmix(&mut x);
        let mut y = stream ^ a;
        let b = splitmix(&mut y);
        let mut z = index ^ b.rotate_left(17);
        let s = [splitmix(&mut z), splitmix(&mut z), splitmix(&mut z), splitmix(&mut z)];
        let big = if index % 499 == 250 { [4, 12, 40][(index / 499 % 3) as usize] } else { 1 };
        Rng { s, big, huge: false, left: big, drawn: 0 }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    /// An index in 0..n, often near either end.
    pub fn spot(&mut self, n: usize) -> usize {
        match self.below(6) {
            0 => 0,
            1 => n - 1,
            2 => self.us(n.min(64)),
            3 => n - 1 - self.us(n.min(64)),
            _ => self.us(n),
        }
    }
    /// A count in 0..n; in big cases now and then up to `cap`.
    pub fn more(&mut self, n: usize, cap: usize) -> usize {
        match self.large(n, cap) {
            Some(k) => k,
            None => self.us(n),
        }
    }
    fn large(&mut self, n: usize, cap: usize) -> Option<usize> {
        if self.left == 1 || n * self.left > 3000.max(cap) || !self.chance(2, 5) {
            return None;
        }
        let top = (n * self.left).min(cap).max(n);
        let k = top / 2 + self.us(top - top / 2);
        self.left = (self.left / 6).max(1);
        self.drawn = self.drawn.max(k);
        Some(k)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        let i = self.us(xs.len());
        &xs[i]
    }
    pub fn shuffle<X>(&mut self, xs: &mut [X]) {
        for i in (1..xs.len()).rev() {
            let j = self.us(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// Mostly small, sometimes up to max (log-uniform-ish), at least lo.
    pub fn size(&mut self, lo: usize, max: usize) -> usize {
        if let Some(n) = self.large(max - lo + 1, 3000) {
            return lo + n;
        }
        let span = (max - lo + 1) as f64;
        let e = self.unit() * span.ln();
        (lo + e.exp() as usize - 1).min(max)
    }
}
