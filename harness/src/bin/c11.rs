//! C11: mean, variance, standard deviation, z-scores.
use harness::*;
use sci_rs::stats::*;

pub struct Ref {
    n: usize,
    mean: DD,
    mean_tol: f64,
    var: DD,
    var_tol: f64,
}
fn reference<F: Fl>(x: &[f64]) -> Ref {
    let n = x.len();
    let nf = n as f64;
    let mut s = DD::ZERO;
    let mut sa = 0.0;
    for v in x {
        s += DD::from(*v);
        sa += v.abs();
    }
    let mean = s / DD::from(nf);
    let sub = F::TINY * F::EPS; // smallest subnormal step
    let mean_tol = (nf + 2.0) * F::EPS * sa / nf + 4.0 * sub;
    let mut q = DD::ZERO;
    for v in x {
        let d = DD::from(*v) - mean;
        q += d * d;
    }
    let var = q / DD::from(nf);
    // every deviation is off by at most mean_tol + eps|d|; a common shift only enters squared
    let var_tol = (nf + 8.0) * F::EPS * var.f() + 4.0 * mean_tol * mean_tol + 4.0 * F::EPS * mean_tol * var.f().sqrt() + 8.0 * F::TINY;
    Ref { n, mean, mean_tol, var, var_tol }
}
fn gen<F: Fl>(c: &mut Case, n: usize) -> (Vec<f64>, String) {
    if c.rng.one_in(3) {
        // offset dominated
        let off = c.rng.pick(&[1.0, -10.0, 1e3, -1e5, 1e7]);
        let sd = c.rng.logf(1e-4, 10.0);
        ((0..n).map(|_| F::of(off + sd * c.rng.normal()).d()).collect(), format!("offset {off}"))
    } else {
        let (x, k) = gen_signal::<F>(&mut c.rng, n);
        // squares must not overflow or vanish
        let m = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        let lim = F::MAXF.sqrt() / (n as f64 + 1.0);
        if m > lim || (m > 0.0 && m < F::TINY.sqrt() * 1e3) {
            (x.iter().map(|v| F::of(v / m).d()).collect(), k.into())
        } else {
            (x, k.into())
        }
    }
}
fn one<F: Fl>(c: &mut Case, n: usize) {
    let (x, k) = gen::<F>(c, n);
    c.cls(format!("{} {k}", F::NAME));
    c.key(H::default().s(F::NAME).fs(&x).0);
    let y = to::<F>(&x);
    let ctx = || format!("{} n={n} {k} x={}", F::NAME, short(&x));
    c.sample(ctx);
    if n == 0 {
        c.ev(4);
        let z = (F::of(0.0), 0usize);
        let ok = mean::<_, F>(y.iter()) == z && variance::<_, F>(y.iter()) == z && stdev::<_, F>(y.iter()) == z && zscore::<_, F>(y.iter()).next().is_none();
        if !ok {
            c.fail("empty", "an empty sample must give (0, 0)");
        }
        return;
    }
    let r = reference::<F>(&x);
    let Some(m) = c.must("mean", ctx, || mean::<_, F>(y.iter())) else { return };
    let Some(v) = c.must("variance", ctx, || variance::<_, F>(y.iter())) else { return };
    let Some(s) = c.must("stdev", ctx, || stdev::<_, F>(y.iter())) else { return };
    c.ev(3);
    for (name, cnt) in [("mean", m.1), ("variance", v.1), ("stdev", s.1)] {
        if cnt != r.n {
            c.fail(format!("{name}:count"), format!("count {cnt} expected {}; {}", r.n, ctx()));
        }
    }
    let chk = |c: &mut Case, name: &str, got: f64, want: f64, tol: f64| {
        let e = (got - want).abs();
        c.ratio(name, e / tol);
        if !(e <= tol) {
            c.fail(format!("{name}:value"), format!("{got:e} expected {want:e} tol {tol:e}; {}", ctx()));
        }
    };
    chk(c, "mean", m.0.d(), r.mean.f(), r.mean_tol);
    chk(c, "variance", v.0.d(), r.var.f(), r.var_tol);
    let sd = r.var.sqrt().f();
    let sd_tol = if r.var_tol < 0.5 * r.var.f() { 0.75 * r.var_tol / sd + 4.0 * F::EPS * sd } else { (r.var.f() + r.var_tol).sqrt() };
    chk(c, "stdev", s.0.d(), sd, sd_tol);
    let Some(z) = c.must("zscore", ctx, || zscore::<_, F>(y.iter()).collect::<Vec<F>>()) else { return };
    c.ev(z.len());
    if z.len() != n {
        c.fail("zscore:length", format!("{} scores for {n} samples; {}", z.len(), ctx()));
        return;
    }
    if sd_tol < 0.1 * sd {
        for i in 0..n {
            let d = DD::from(x[i]) - r.mean;
            let w = (d / r.var.sqrt()).f();
            let tol = (r.mean_tol + 2.0 * F::EPS * d.f().abs()) / sd * 1.2 + w.abs() * (1.2 * sd_tol / sd + 4.0 * F::EPS) + 4.0 * F::TINY;
            let e = (z[i].d() - w).abs();
            c.ratio("zscore", e / tol);
            if !(e <= tol) {
                c.fail("zscore:value", format!("z[{i}]={:?} expected {w:e} tol {tol:e}; {}", z[i], ctx()));
                return;
            }
        }
    } else {
        c.cls("zscore skipped: spread below rounding");
    }
    // owned items give the same numbers
    if mean::<_, F>(y.iter().copied()) != m || variance::<_, F>(y.iter().copied()).0.bits() != v.0.bits() {
        c.fail("owned", format!("owned and borrowed items differ; {}", ctx()));
    }
}
fn exact<F: Fl>(c: &mut Case, n: usize) {
    // integers whose sum is exact: the mean is the correctly rounded quotient (within one unit)
    let amp = c.rng.pick(&[1i64, 3, 10, 100]);
    let off = c.rng.pick(&[0i64, 0, 5, -50]);
    let x: Vec<i64> = (0..n).map(|_| c.rng.range(-amp, amp) + off).collect();
    let sum: i64 = x.iter().sum();
    let y: Vec<F> = x.iter().map(|v| F::of(*v as f64)).collect();
    let ctx = || format!("{} n={n} ints {}", F::NAME, short(&x));
    c.key(H::default().s(F::NAME).is(&x).0);
    let Some(m) = c.must("mean-exact", ctx, || mean::<_, F>(y.iter())) else { return };
    let want = sum as f64 / n as f64;
    c.ev(1);
    if m.1 != n || (m.0.d() - want).abs() > F::EPS * want.abs() {
        c.fail("mean-exact:value", format!("{m:?} expected ({want}, {n}); {}", ctx()));
    }
    // centred data: deviations are exact, so is the sum of squares
    let mut w: Vec<i64> = x.iter().flat_map(|v| [*v, -*v]).collect();
    w.extend(std::iter::repeat_n(0, c.rng.below(4)));
    let q: i64 = w.iter().map(|v| v * v).sum();
    if (q as f64) < F::IMAX {
        let yw: Vec<F> = w.iter().map(|v| F::of(*v as f64)).collect();
        let (v, cnt) = variance::<_, F>(yw.iter());
        let want = q as f64 / w.len() as f64;
        let s = stdev::<_, F>(yw.iter()).0;
        c.ev(2);
        if cnt != w.len() || (v.d() - want).abs() > F::EPS * want || (s.d() - want.sqrt()).abs() > 2.0 * F::EPS * want.sqrt() {
            c.fail("variance-exact:value", format!("variance {v:?} stdev {s:?} expected {want} over {}; centred {}", w.len(), short(&w)));
        }
        if want > 0.0 {
            let z: Vec<F> = zscore::<_, F>(yw.iter()).collect();
            c.ev(z.len());
            for i in 0..w.len() {
                let e = w[i] as f64 / want.sqrt();
                if !((z[i].d() - e).abs() <= 4.0 * F::EPS * e.abs()) {
                    c.fail("zscore-exact:value", format!("z[{i}]={:?} expected {e}; centred {}", z[i], short(&w)));
                    break;
                }
            }
        }
    }
}
macro_rules! imean {
    ($c:expr, $($t:ty)*) => {$({
        let c: &mut Case = $c;
        let max = <$t>::MAX as i128;
        let min = <$t>::MIN as i128;
        let n = if max > 127 && c.rng.one_in(40) { c.rng.urange(91, 4000.min(max as usize)) } else { c.rng.urange(1, 90.min(max.min(1 << 20) as usize)) };
        let big = c.rng.one_in(3);
        // keep every partial sum in range
        let mut s = 0i128;
        let mut v: Vec<$t> = vec![];
        for _ in 0..n {
            let (lo, hi) = if big { ((min - s).max(min / 2), (max - s).min(max / 2)) } else { ((min - s).max(-9).min(0).max(min), (max - s).min(9)) };
            let x = lo + (c.rng.u64() as i128).rem_euclid((hi - lo + 1).max(1));
            s += x;
            v.push(x as $t);
        }
        let want = (s / n as i128) as $t;
        c.ev(1);
        c.key(H::default().s(stringify!($t)).u(n as u64).u(s as u64).0);
        c.cls(concat!("integer ", stringify!($t)));
        let g = c.must("int-mean", || format!("{} {}", stringify!($t), short(&v)), || mean::<_, $t>(v.iter()));
        if let Some(g) = g {
            if g != (want, n) {
                c.fail("int-mean:value", format!("{} mean {g:?} expected ({want}, {n}) of {}", stringify!($t), short(&v)));
            }
        }
    })*};
}
fn main() {
    let r = Runner::new("C11");
    r.stream("dense", 1_000_000, 20_000_000, |c| {
        let n = (c.idx % 70) as usize;
        if c.rng.bool() {
            one::<f32>(c, n)
        } else {
            one::<f64>(c, n)
        }
    });
    r.stream("lengths", 100_000, 2_000_000, |c| {
        let n = gen_len(&mut c.rng, 3000);
        if c.rng.bool() {
            one::<f32>(c, n)
        } else {
            one::<f64>(c, n)
        }
    });
    r.stream("long", 300, 10_000, |c| {
        let n = c.rng.logf(3e3, 3e5) as usize;
        if c.rng.bool() {
            one::<f32>(c, n)
        } else {
            one::<f64>(c, n)
        }
    });
    r.stream("exact", 300_000, 6_000_000, |c| {
        let n = 1 + (c.idx % 150) as usize;
        if c.rng.bool() {
            exact::<f32>(c, n)
        } else {
            exact::<f64>(c, n)
        }
    });
    r.stream("integers", 60_000, 1_000_000, |c| { imean!(c, i8 i16 i32 i64 isize u8 u16 u32 u64 usize); });
    r.finish()
}
