//! C18: convolution and correlation equal the direct sums.
#[cfg(not(feature = "std"))]
fn main() {
    harness::Runner::new("C18").finish()
}
#[cfg(feature = "std")]
fn main() {
    m::main()
}
#[cfg(feature = "std")]
mod m {
    use harness::*;
    use sci_rs::signal::convolve::*;
    pub trait G: Fl + num_traits::FromPrimitive + num_traits::Signed {}
    impl G for f32 {}
    impl G for f64 {}

    fn mode(k: usize) -> ConvolveMode {
        match k {
            0 => ConvolveMode::Full,
            1 => ConvolveMode::Valid,
            _ => ConvolveMode::Same,
        }
    }
    fn full(a: &[f64], b: &[f64]) -> Vec<f64> {
        let mut y = vec![DD::ZERO; a.len() + b.len() - 1];
        if a.len() * b.len() <= 1 << 14 {
            for (i, p) in a.iter().enumerate() {
                for (j, q) in b.iter().enumerate() {
                    y[i + j] += DD::from(*p) * DD::from(*q);
                }
            }
            y.iter().map(|v| v.f()).collect()
        } else {
            let mut y = vec![0.0; a.len() + b.len() - 1];
            for (i, p) in a.iter().enumerate() {
                if *p != 0.0 {
                    for (j, q) in b.iter().enumerate() {
                        y[i + j] += p * q;
                    }
                }
            }
            y
        }
    }
    fn norm(v: &[f64]) -> f64 {
        v.iter().map(|x| x * x).sum::<f64>().sqrt()
    }
    fn slice(f: &[f64], n1: usize, n2: usize, k: usize) -> Vec<f64> {
        match k {
            0 => f.to_vec(),
            1 => {
                let (lo, hi) = (n1.min(n2), n1.max(n2));
                f[lo - 1..hi].to_vec()
            }
            _ => f[(n2 - 1) / 2..(n2 - 1) / 2 + n1].to_vec(),
        }
    }
    fn judge<F: G + rustfft_num::Num>(c: &mut Case, a: &[f64], b: &[f64], tag: &str)
    where
        F: rustfft_num::Num,
    {
        let (n1, n2) = (a.len(), b.len());
        let (x, y) = (to::<F>(a), to::<F>(b));
        let ctx = || format!("{} {tag} n1={n1} n2={n2} in1={} in2={}", F::NAME, short(a), short(b));
        c.sample(ctx);
        c.key(H::default().s(F::NAME).fs(a).fs(b).0);
        let n = n1 + n2 - 1;
        let rev: Vec<f64> = b.iter().rev().cloned().collect();
        let direct = [full(a, b), full(a, &rev)];
        let lg = (n.next_power_of_two() as f64).log2() + 1.0;
        let tol = 1.5 * F::EPS * lg * norm(a) * norm(b) + 4.0 * F::TINY + n as f64 * 1e-16 * norm(a) * norm(b);
        for k in 0..3 {
            for e in 0..3 {
                let name = ["fftconvolve", "convolve", "correlate"][e];
                let Some(g) = c.must(name, ctx, || match e {
                    0 => F::fftc(&x, &y, mode(k)),
                    1 => F::conv(&x, &y, mode(k)),
                    _ => F::corr(&x, &y, mode(k)),
                }) else {
                    return;
                };
                let want = slice(&direct[e / 2], n1, n2, k);
                let md = ["full", "valid", "same"][k];
                c.ev(g.len());
                if g.len() != want.len() {
                    c.fail(format!("{name}-{md}:length"), format!("{} samples expected {}; {}", g.len(), want.len(), ctx()));
                    return;
                }
                for i in 0..g.len() {
                    let er = (g[i].d() - want[i]).abs();
                    c.ratio(F::NAME, er / tol);
                    if !(er <= tol) {
                        c.fail(format!("{name}-{md}:value"), format!("[{i}]={:?} expected {:e} tol {tol:e}; {}", g[i], want[i], ctx()));
                        return;
                    }
                }
            }
        }
        c.cls(format!("{} {} {}", F::NAME, if n1 < n2 { "n1<n2" } else if n1 == n2 { "n1=n2" } else { "n1>n2" }, if n.is_power_of_two() { "n=2^k" } else { "n!=2^k" }));
    }
    pub mod rustfft_num {
        use super::*;
        pub trait Num: Sized {
            fn fftc(a: &[Self], b: &[Self], m: ConvolveMode) -> Vec<Self>;
            fn conv(a: &[Self], b: &[Self], m: ConvolveMode) -> Vec<Self>;
            fn corr(a: &[Self], b: &[Self], m: ConvolveMode) -> Vec<Self>;
        }
        macro_rules! n {
            ($t:ty) => {
                impl Num for $t {
                    fn fftc(a: &[Self], b: &[Self], m: ConvolveMode) -> Vec<Self> {
                        fftconvolve(a, b, m)
                    }
                    fn conv(a: &[Self], b: &[Self], m: ConvolveMode) -> Vec<Self> {
                        convolve(a, b, m)
                    }
                    fn corr(a: &[Self], b: &[Self], m: ConvolveMode) -> Vec<Self> {
                        correlate(a, b, m)
                    }
                }
            };
        }
        n!(f32);
        n!(f64);
    }
    fn sig<F: G>(c: &mut Case, n: usize) -> Vec<f64> {
        let (v, _) = gen_signal::<F>(&mut c.rng, n);
        // keep products and energies in range
        let m = v.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        if m > F::MAXF.powf(0.3) || (m > 0.0 && m < F::TINY.powf(0.3)) {
            v.iter().map(|x| F::of(x / m).d()).collect()
        } else {
            v
        }
    }
    fn case<F: G + rustfft_num::Num>(c: &mut Case, n1: usize, n2: usize, tag: &str) {
        let a = sig::<F>(c, n1);
        let b = sig::<F>(c, n2);
        judge::<F>(c, &a, &b, tag)
    }
    pub fn main() {
        let r = Runner::new("C18");
        // all small length pairs
        r.stream("grid", 24 * 24 * 400, 24 * 24 * 1000, |c| {
            let k = (c.idx % (24 * 24)) as usize;
            let (n1, n2) = (1 + k / 24, 1 + k % 24);
            if c.rng.bool() {
                case::<f64>(c, n1, n2, "grid")
            } else {
                case::<f32>(c, n1, n2, "grid")
            }
        });
        // total length exactly at, one below and one above a power of two
        r.stream("powers", 40_000, 120_000, |c| {
            let p = 1usize << c.rng.urange(2, 11);
            let n = (p as i64 + c.rng.range(-1, 2)).max(1) as usize;
            let n1 = match c.rng.below(4) {
                0 => 1,
                1 => n,
                _ => c.rng.urange(1, n),
            };
            let n2 = n + 1 - n1;
            if c.rng.bool() {
                case::<f64>(c, n1, n2, "power")
            } else {
                case::<f32>(c, n1, n2, "power")
            }
        });
        r.stream("random", 40_000, 120_000, |c| {
            let n1 = gen_len(&mut c.rng, 900).max(1);
            let n2 = gen_len(&mut c.rng, 900).max(1);
            if c.rng.bool() {
                case::<f64>(c, n1, n2, "random")
            } else {
                case::<f32>(c, n1, n2, "random")
            }
        });
        // long against an impulse or a short kernel
        r.stream("long", 400, 2000, |c| {
            let n1 = c.rng.logf(1e3, 7e4) as usize;
            let n2 = c.rng.urange(1, 8);
            let (n1, n2) = if c.rng.bool() { (n1, n2) } else { (n2, n1) };
            if c.rng.bool() {
                case::<f64>(c, n1, n2, "long")
            } else {
                case::<f32>(c, n1, n2, "long")
            }
        });
        // both long
        r.stream("both-long", 600, 6000, |c| {
            let (n1, n2) = (c.rng.logf(700.0, 4500.0) as usize, c.rng.logf(100.0, 4500.0) as usize);
            let (n1, n2) = if c.rng.bool() { (n1, n2) } else { (n2, n1) };
            if c.rng.bool() {
                case::<f64>(c, n1, n2, "both-long")
            } else {
                case::<f32>(c, n1, n2, "both-long")
            }
        });
        r.finish()
    }
}
