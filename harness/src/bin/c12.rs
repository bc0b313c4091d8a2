//! C12: median, MAD, modified z-scores.
use harness::*;
use sci_rs::stats::*;

fn ulp_tol<F: Fl>(a: f64, b: f64) -> f64 {
    2.0 * F::EPS * (a.abs() + b.abs()) / 2.0 + 2.0 * F::TINY * F::EPS
}
fn arrange(c: &mut Case, x: &mut [f64]) -> &'static str {
    match c.rng.below(7) {
        0 => {
            x.sort_by(f64::total_cmp);
            "sorted"
        }
        1 => {
            x.sort_by(f64::total_cmp);
            x.reverse();
            "reversed"
        }
        2 => {
            x.sort_by(f64::total_cmp);
            let n = x.len();
            // organ pipe
            let s = x.to_vec();
            for (i, v) in s.iter().enumerate() {
                let j = if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 };
                x[j] = *v;
            }
            "pipe"
        }
        3 => {
            // middle position holds the extreme
            if !x.is_empty() {
                let m = x.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                let k = x.iter().position(|v| *v == m).unwrap();
                let n = x.len();
                x.swap(k, n / 2);
            }
            "extreme-pivot"
        }
        _ => "as-is",
    }
}
fn gen<F: Fl>(c: &mut Case, n: usize, inf: bool) -> (Vec<f64>, String) {
    let kind = c.rng.below(8);
    let (mut x, k) = match kind {
        0 => ((0..n).map(|_| c.rng.range(-3, 3) as f64).collect(), "few-values"),
        1 => {
            let v = c.rng.normal();
            ((0..n).map(|_| F::of(if c.rng.one_in(5) { v + 1.0 } else { v }).d()).collect(), "mostly-equal")
        }
        2 => ((0..n).map(|_| if c.rng.bool() { 0.0 } else { -0.0 }).collect(), "signed-zeros"),
        3 => ((0..n).map(|_| F::of(F::TINY * F::EPS * c.rng.range(-50, 50) as f64).d()).collect(), "subnormal"),
        4 => ((0..n).map(|_| F::of(F::MAXF * c.rng.f(-0.49, 0.49)).d()).collect(), "huge"),
        _ => gen_signal::<F>(&mut c.rng, n),
    };
    let mut tag = String::from(k);
    if inf && c.rng.one_in(4) {
        for v in x.iter_mut() {
            if c.rng.one_in(4) {
                *v = if c.rng.bool() { f64::INFINITY } else { f64::NEG_INFINITY };
            }
        }
        tag += "+inf";
    }
    let a = arrange(c, &mut x);
    (x, format!("{tag} {a}"))
}
/// (value, tolerance) of the median of f64 values representable in F
fn med<F: Fl>(x: &[f64]) -> (f64, f64) {
    let mut s = x.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = s.len();
    if n % 2 == 1 {
        (s[n / 2], 0.0)
    } else {
        let (a, b) = (s[n / 2 - 1], s[n / 2]);
        ((DD::from(a) / DD::from(2.0) + DD::from(b) / DD::from(2.0)).f(), ulp_tol::<F>(a, b))
    }
}
fn one<F: Fl>(c: &mut Case, n: usize) {
    let (x, k) = gen::<F>(c, n, true);
    let y = to::<F>(&x);
    let ctx = || format!("{} n={n} {k} x={}", F::NAME, short(&x));
    c.sample(ctx);
    c.cls(format!("{} {k}", F::NAME));
    c.key(H::default().s(F::NAME).fs(&x).0);
    let Some(g) = c.must("median", ctx, || median::<_, F>(y.iter())) else { return };
    c.ev(1);
    if g.1 != n {
        c.fail("median:count", format!("count {}; {}", g.1, ctx()));
    }
    if n == 0 {
        if g.0.d() != 0.0 {
            c.fail("median:empty", format!("{g:?}"));
        }
        let m = median_abs_deviation::<_, F>(y.iter());
        if m.0.d() != 0.0 || m.1 != 0 || mod_zscore::<_, F>(y.iter()).count() != 0 {
            c.fail("mad:empty", format!("{m:?}"));
        }
        return;
    }
    let has_inf = x.iter().any(|v| v.is_infinite());
    let ok = if has_inf {
        let mut s = x.clone();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let (a, b) = (s[(n - 1) / 2], s[n / 2]);
        if a.is_infinite() && b.is_infinite() && a != b {
            true // inf - inf: no median
        } else if a.is_infinite() || b.is_infinite() {
            g.0.d() == if a.is_infinite() { a } else { b }
        } else {
            let (m, t) = if n % 2 == 1 { (a, 0.0) } else { (a / 2.0 + b / 2.0, ulp_tol::<F>(a, b)) };
            (g.0.d() - m).abs() <= t
        }
    } else {
        let (m, t) = med::<F>(&x);
        (g.0.d() - m).abs() <= t
    };
    if !ok {
        c.fail("median:value", format!("{:?}; {}", g.0, ctx()));
        return;
    }
    if has_inf {
        return;
    }
    // MAD: deviations from the median actually used
    let dev: Vec<f64> = y.iter().map(|v| num_traits::Float::abs(*v - g.0).d()).collect();
    if dev.iter().any(|v| !v.is_finite()) {
        return;
    }
    let Some(m) = c.must("mad", ctx, || median_abs_deviation::<_, F>(y.iter())) else { return };
    let (w, t) = med::<F>(&dev);
    let scale = x.iter().fold(g.0.d().abs(), |a, b| a.max(b.abs()));
    let tol = if n % 2 == 1 { t } else { t + 2.0 * F::EPS * scale };
    c.ev(1);
    if m.1 != n || !((m.0.d() - w).abs() <= tol) {
        c.fail("mad:value", format!("{m:?} expected ({w:e}, {n}) tol {tol:e}; {}", ctx()));
        return;
    }
    let Some(z) = c.must("mod_zscore", ctx, || mod_zscore::<_, F>(y.iter()).collect::<Vec<F>>()) else { return };
    c.ev(z.len());
    if z.len() != n {
        c.fail("mod_zscore:length", format!("{} for {n}; {}", z.len(), ctx()));
        return;
    }
    if !(w > 16.0 * F::EPS * scale && w > F::TINY * 1e3 && scale < F::MAXF / 4.0) {
        c.cls("mod_zscore skipped: MAD zero or at rounding level");
        return;
    }
    for i in 0..n {
        let d = y[i] - g.0;
        let e = 0.6745 * (d.d() / m.0.d());
        if e.abs() > F::MAXF / 8.0 {
            continue;
        }
        let tol = 8.0 * F::EPS * e.abs() + 4.0 * F::TINY + if n % 2 == 0 { 2.0 * F::EPS * scale / w * (1.0 + e.abs()) } else { 0.0 };
        if !((z[i].d() - e).abs() <= tol) {
            c.fail("mod_zscore:value", format!("z[{i}]={:?} expected {e:e}; {}", z[i], ctx()));
            return;
        }
    }
}
macro_rules! imed {
    ($c:expr, $n:expr, $($t:ty)*) => {$({
        let c: &mut Case = $c;
        let n: usize = $n;
        let half = (<$t>::MAX / 2) as i128;
        let lo = (<$t>::MIN / 2) as i128;
        let k = c.rng.below(3);
        let mut v: Vec<$t> = (0..n).map(|_| match k {
            0 => (c.rng.range(-4, 4) as i128).max(lo) as $t,
            1 => (lo + (c.rng.u64() as i128).rem_euclid(half - lo + 1)) as $t,
            _ => (c.rng.range(-100, 100) as i128).clamp(lo, half) as $t,
        }).collect();
        if c.rng.one_in(3) { v.sort(); if c.rng.bool() { v.reverse() } }
        let mut s = v.clone();
        s.sort();
        let want = if n % 2 == 1 { s[n / 2] as i128 } else { (s[n / 2 - 1] as i128 + s[n / 2] as i128) / 2 } as $t;
        c.ev(1);
        c.cls(concat!("integer ", stringify!($t)));
        c.key(H::default().s(stringify!($t)).is(&v.iter().map(|x| *x as i64).collect::<Vec<_>>()).0);
        if let Some(g) = c.must("int-median", || format!("{} {}", stringify!($t), short(&v)), || median::<_, $t>(v.iter())) {
            if g != (want, n) {
                c.fail("int-median:value", format!("{} median {g:?} expected ({want}, {n}) of {}", stringify!($t), short(&v)));
            }
        }
    })*};
}
/// every sequence over a small alphabet
fn small(c: &mut Case, len: usize, alpha: u64) {
    let mut k = c.idx;
    let v: Vec<i64> = (0..len)
        .map(|_| {
            let d = (k % alpha) as i64;
            k /= alpha;
            d * 2 - 3
        })
        .collect();
    let mut s = v.clone();
    s.sort();
    let m2 = s[(len - 1) / 2] + s[len / 2]; // twice the median
    let y: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let mut d: Vec<i64> = v.iter().map(|x| (2 * x - m2).abs()).collect();
    d.sort();
    let mad = (d[(len - 1) / 2] + d[len / 2]) as f64 / 4.0;
    let gi = median::<_, i64>(v.iter());
    let gf = median::<_, f64>(y.iter());
    let gm = median_abs_deviation::<_, f64>(y.iter());
    c.ev(3);
    if gi != (m2 / 2, len) || gf != (m2 as f64 / 2.0, len) || gm != (mad, len) {
        c.fail("small:value", format!("{v:?}: median int {gi:?} float {gf:?} mad {gm:?}, expected {} / {} / {mad}", m2 / 2, m2 as f64 / 2.0));
    }
    c.key(c.idx);
}
fn main() {
    let r = Runner::new("C12");
    for len in 1..=6usize {
        r.exhaust(&format!("all-sequences-{len}"), 4u64.pow(len as u32), |c| small(c, len, 4));
    }
    r.exhaust("all-sequences-7", 3u64.pow(7), |c| small(c, 7, 3));
    r.exhaust("all-sequences-8", 3u64.pow(8), |c| small(c, 8, 3));
    r.stream("dense", 400_000, 8_000_000, |c| {
        let n = (c.idx % 60) as usize;
        if c.rng.bool() {
            one::<f32>(c, n)
        } else {
            one::<f64>(c, n)
        }
    });
    r.stream("lengths", 60_000, 1_000_000, |c| {
        let n = gen_len(&mut c.rng, 2500);
        if c.rng.bool() {
            one::<f32>(c, n)
        } else {
            one::<f64>(c, n)
        }
    });
    // long samples in every arrangement (sorted, V-shaped, pivot killers): selection must not degenerate
    r.stream("long", 600, 20_000, |c| {
        let n = c.rng.logf(2500.0, 2e5) as usize;
        if c.rng.bool() {
            one::<f32>(c, n)
        } else {
            one::<f64>(c, n)
        }
    });
    r.stream("integers", 80_000, 1_600_000, |c| {
        let n = if c.rng.one_in(60) { gen_len(&mut c.rng, 2500).max(1) } else { 1 + (c.idx % 41) as usize };
        imed!(c, n, i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    });
    r.finish()
}
