//! C19: Fourier resampling of band-limited signals.
#[cfg(not(feature = "std"))]
fn main() {
    harness::Runner::new("C19").finish()
}
#[cfg(feature = "std")]
fn main() {
    m::main()
}
#[cfg(feature = "std")]
mod m {
    use harness::*;
    use sci_rs::signal::resample::resample;
    pub trait G: Fl {
        fn rs(x: &[Self], n: usize) -> Vec<Self>;
    }
    impl G for f32 {
        fn rs(x: &[f32], n: usize) -> Vec<f32> {
            resample(x, n)
        }
    }
    impl G for f64 {
        fn rs(x: &[f64], n: usize) -> Vec<f64> {
            resample(x, n)
        }
    }
    /// cos(2 pi m j / n + ph) with exact argument reduction
    fn tone(m: usize, j: usize, n: usize, ph: f64) -> f64 {
        let k = (m as u128 * j as u128 % n as u128) as f64;
        (2.0 * std::f64::consts::PI * k / n as f64 + ph).cos()
    }
    fn case<F: G>(c: &mut Case, l: usize, n: usize) {
        let bins = l.min(n);
        if bins < 2 {
            return;
        }
        let half = bins / 2;
        let mut comps: Vec<(usize, f64, f64)> = vec![];
        let scale = c.rng.pick(&[1.0, 1.0, 1e-6, 3e4]);
        for _ in 0..c.rng.urange(1, 5) {
            let m = match c.rng.below(5) {
                0 => 0,
                1 => half - 1,
                2 => 1.min(half - 1),
                _ => c.rng.below(half),
            };
            comps.push((m, scale * c.rng.f(-2.0, 2.0), c.rng.f(0.0, 6.28)));
        }
        let mut drop: Vec<(usize, f64, f64)> = vec![];
        if n < l && l / 2 > half && c.rng.bool() {
            for _ in 0..c.rng.urange(1, 3) {
                let m = match c.rng.below(4) {
                    0 => half + 1,
                    1 => l / 2,
                    _ => c.rng.urange(half + 1, l / 2),
                };
                drop.push((m, scale * c.rng.f(-2.0, 2.0), c.rng.f(0.0, 6.28)));
            }
        }
        let ev = |cs: &[(usize, f64, f64)], j: usize, n: usize| cs.iter().map(|(m, a, p)| a * tone(*m, j, n, *p)).sum::<f64>();
        let x: Vec<f64> = (0..l).map(|j| F::of(ev(&comps, j, l) + ev(&drop, j, l)).d()).collect();
        let nx = x.iter().map(|v| v * v).sum::<f64>().sqrt();
        let ctx = || format!("{} {l}->{n} components {comps:?} above the cut {drop:?}", F::NAME);
        c.sample(ctx);
        c.key(H::default().s(F::NAME).u(n as u64).fs(&x).0);
        c.cls(format!("{} {} {}->{}", F::NAME, if n > l { "up" } else if n < l { "down" } else { "equal" }, l % 2, n % 2));
        let xf = to::<F>(&x);
        let Some(y) = c.must("resample", ctx, || F::rs(&xf, n)) else { return };
        if y.len() != n {
            c.fail("length", format!("{} samples; {}", y.len(), ctx()));
            return;
        }
        let amp: f64 = comps.iter().chain(&drop).map(|t| t.1.abs()).sum();
        let lg = (l.max(n) as f64).log2() + 2.0;
        let tol = 4.0 * F::EPS * lg * (bins as f64 / l as f64).sqrt() * nx + 16.0 * F::EPS * amp;
        c.ev(n);
        for j in 0..n {
            let w = ev(&comps, j, n);
            let e = (y[j].d() - w).abs();
            c.ratio(F::NAME, e / tol);
            if !(e <= tol) {
                c.fail("value", format!("y[{j}]={:?} expected {w:e} tol {tol:e}; {}", y[j], ctx()));
                return;
            }
        }
    }
    /// arbitrary signals: length, mean, linearity, even identity
    fn noise<F: G>(c: &mut Case, l: usize, n: usize) {
        if l == 0 {
            return;
        }
        let (x, k) = gen_signal::<F>(&mut c.rng, l);
        let (z, _) = gen_signal::<F>(&mut c.rng, l);
        let lim = |v: Vec<f64>| -> Vec<f64> {
            let m = v.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            v.iter().map(|x| F::of(if m > 0.0 { x / m } else { *x }).d()).collect()
        };
        let (x, z) = (lim(x), lim(z));
        let ctx = || format!("{} {l}->{n} {k} x={}", F::NAME, short(&x));
        let (xf, zf) = (to::<F>(&x), to::<F>(&z));
        c.key(H::default().s(F::NAME).u(n as u64).fs(&x).0);
        let Some(y) = c.must("resample", ctx, || F::rs(&xf, n)) else { return };
        c.ev(n);
        if y.len() != n {
            c.fail("length", format!("{} samples; {}", y.len(), ctx()));
            return;
        }
        let bins = l.min(n);
        if bins < 2 {
            return;
        }
        let nx = x.iter().map(|v| v * v).sum::<f64>().sqrt();
        let nz = z.iter().map(|v| v * v).sum::<f64>().sqrt();
        let lg = (l.max(n) as f64).log2() + 2.0;
        let t1 = 4.0 * F::EPS * lg * (bins as f64 / l as f64).sqrt();
        let mx: f64 = x.iter().sum::<f64>() / l as f64;
        let my: f64 = y.iter().map(|v| v.d()).sum::<f64>() / n as f64;
        let tol = t1 * nx + 8.0 * F::EPS * (mx.abs() + 1.0) + n as f64 * 1e-15;
        if !((mx - my).abs() <= tol) {
            c.fail("mean", format!("mean {my:e} expected {mx:e}; {}", ctx()));
        }
        // linearity with an exactly representable combination
        let w: Vec<F> = (0..l).map(|i| F::of(x[i] * 2.0)).collect();
        let y2 = F::rs(&w, n);
        let yz = F::rs(&zf, n);
        let s: Vec<f64> = (0..l).map(|i| F::of(x[i] + z[i]).d()).collect();
        let ys = F::rs(&to::<F>(&s), n);
        let ns = nx + nz;
        for j in 0..n {
            let e2 = (y2[j].d() - 2.0 * y[j].d()).abs();
            let es = (ys[j].d() - y[j].d() - yz[j].d()).abs();
            if !(e2 <= 4.0 * t1 * nx && es <= 3.0 * t1 * ns + 4.0 * F::EPS * (bins as f64).sqrt() * 2.0) {
                c.fail("linearity", format!("sample {j}; {}", ctx()));
                return;
            }
        }
        c.ev(2 * n);
        if n == l && n % 2 == 0 {
            for j in 0..n {
                if !((y[j].d() - x[j]).abs() <= t1 * nx + 4.0 * F::EPS) {
                    c.fail("identity", format!("y[{j}]={:?} x={:e}; {}", y[j], x[j], ctx()));
                    return;
                }
            }
            c.cls("identity");
        }
    }
    pub fn main() {
        let r = Runner::new("C19");
        // all pairs of small lengths
        r.stream("grid", 40 * 40 * 300, 40 * 40 * 600, |c| {
            let k = (c.idx % 1600) as usize;
            let (l, n) = (2 + k / 40, 2 + k % 40);
            if c.rng.bool() {
                case::<f64>(c, l, n)
            } else {
                case::<f32>(c, l, n)
            }
        });
        r.stream("random", 100_000, 200_000, |c| {
            let l = gen_len(&mut c.rng, 3000).max(2);
            let n = match c.rng.below(5) {
                0 => l,
                1 => l * c.rng.urange(1, 5),
                2 => (l / c.rng.urange(1, 5)).max(2),
                3 => (l as i64 + c.rng.range(-3, 3)).max(2) as usize,
                _ => gen_len(&mut c.rng, 3000).max(2),
            };
            if c.rng.bool() {
                case::<f64>(c, l, n)
            } else {
                case::<f32>(c, l, n)
            }
        });
        r.stream("long", 600, 2000, |c| {
            let (l, n) = (c.rng.logf(3e3, 6e4) as usize, c.rng.logf(2.0, 6e4) as usize);
            if c.rng.bool() {
                case::<f64>(c, l, n)
            } else {
                case::<f32>(c, l, n)
            }
        });
        r.stream("arbitrary", 150_000, 400_000, |c| {
            let l = gen_len(&mut c.rng, 600).max(1);
            let n = if c.rng.one_in(3) { l } else { gen_len(&mut c.rng, 600) };
            if c.rng.bool() {
                noise::<f64>(c, l, n)
            } else {
                noise::<f32>(c, l, n)
            }
        });
        r.finish()
    }
}
