//! Deterministic generator: every case is a function of (seed, stream, index).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 2],
    cnt: u64,
    /// draw number -> value to mix in, once (siblings: one argument changed)
    mutate: Option<(u64, u64)>,
    /// draw number -> new state (siblings: common prefix)
    switch: Option<(u64, [u64; 2])>,
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(data: &[u8], mut h: u64) -> u64 {
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Rng {
        let mut x = fnv(stream.as_bytes(), 0xcbf29ce484222325)
            ^ seed.wrapping_mul(0xD6E8FEB86659FD93)
            ^ idx.wrapping_mul(0xA0761D6478BD642F).rotate_left(17);
        let a = splitmix(&mut x);
        let b = splitmix(&mut x);
        Rng { s: [a, b | 1], cnt: 0, mutate: None, switch: None }
    }
    /// the same draws except the n-th
    pub fn mutated(mut self, n: u64, x: u64) -> Rng {
        self.mutate = Some((n, x));
        self
    }
    /// the same draws up to the n-th, then those of `other`
    pub fn switched(mut self, n: u64, other: &Rng) -> Rng {
        self.switch = Some((n, other.s));
        self
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128+
        self.cnt += 1;
        if let Some((n, st)) = self.switch {
            if n == self.cnt {
                self.s = st;
            }
        }
        let s0 = self.s[0];
        let mut s1 = self.s[1];
        let r = s0.wrapping_add(s1).rotate_left(17).wrapping_add(s0);
        s1 ^= s0;
        self.s[0] = s0.rotate_left(49) ^ s1 ^ (s1 << 21);
        self.s[1] = s1.rotate_left(28);
        match self.mutate {
            Some((n, x)) if n == self.cnt => r ^ x,
            _ => r,
        }
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// log-uniform
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        (self.f(lo.ln(), hi.ln())).exp().clamp(lo, hi)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    pub fn normal(&mut self) -> f64 {
        let mut s = 0.0;
        for _ in 0..12 {
            s += self.unit();
        }
        s - 6.0
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
/// An input length: small values dense, sizes around powers of two, some multiples, rarely long.
pub fn gen_len(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(10) {
        0..=3 => r.below(41),
        4 | 5 => r.below(300),
        6 | 7 => {
            let p = 1usize << r.below(18);
            (p as i64 + r.range(-2, 2)).max(0) as usize
        }
        8 => {
            let m = r.pick(&[10, 16, 25, 64, 100, 128, 250, 256, 500, 512, 1000]);
            m * r.below(20)
        }
        _ => r.logf(1.0, max.max(2) as f64) as usize,
    };
    if n > max {
        r.below(max + 1)
    } else {
        n
    }
}
