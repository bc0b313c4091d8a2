//! C13: autocorrelation, RMS, lag differences, RMSSD.
use harness::*;
use sci_rs::stats::*;

fn gen<F: Fl>(c: &mut Case, n: usize) -> (Vec<f64>, String) {
    if c.rng.one_in(4) {
        let off = c.rng.pick(&[0.0, 1.0, -10.0, 1e3]);
        let sd = c.rng.logf(1e-2, 10.0);
        ((0..n).map(|_| F::of(off + sd * c.rng.normal()).d()).collect(), format!("offset {off}"))
    } else {
        let (x, k) = gen_signal::<F>(&mut c.rng, n);
        let m = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        if m > F::MAXF.sqrt() / (n as f64 + 1.0) || (m > 0.0 && m < F::TINY.sqrt() * 1e3) {
            (x.iter().map(|v| F::of(v / m).d()).collect(), k.into())
        } else {
            (x, k.into())
        }
    }
}
const E: f64 = f32::EPSILON as f64;
fn fast<const N: usize, const M: usize, const SKIP: usize>(c: &mut Case) {
    let ints = c.rng.one_in(3);
    let (x, k) = if ints {
        // integers with zero sum: everything stays exact
        let mut v: Vec<f64> = (0..N).map(|_| c.rng.range(-5, 5) as f64).collect();
        let s: f64 = v.iter().sum();
        v[c.idx as usize % N] -= s;
        (v, "zero-sum integers".to_string())
    } else {
        gen::<f32>(c, N)
    };
    let ctx = || format!("N={N} M={M} SKIP={SKIP} {k} y={}", short(&x));
    c.sample(ctx);
    c.cls(format!("fast N%4={} M%4={} (N-SKIP)%4={}", N % 4, M % 4, (N - SKIP) % 4));
    c.key(H::default().u(N as u64).u(M as u64).u(SKIP as u64).fs(&x).0);
    let mut y = [0f32; N];
    for i in 0..N {
        y[i] = x[i] as f32;
    }
    let orig = y;
    let mut out = [f32::NAN; M];
    let Some(var) = c.must("autocorr_fast32", ctx, || autocorr_fast32::<N, M, SKIP>(&mut y, &mut out)) else { return };
    c.ev(N + M + 1);
    let sa: f64 = x.iter().map(|v| v.abs()).sum();
    let mean = x.iter().fold(DD::ZERO, |a, b| a + DD::from(*b)) / DD::from(N as f64);
    let mt = (N as f64 + 2.0) * E * sa / N as f64;
    for i in 0..N {
        let w = (DD::from(x[i]) - mean).f();
        let tol = if ints { 0.0 } else { mt + E * w.abs() + 1e-44 };
        if !((y[i] as f64 - w).abs() <= tol) {
            c.fail("fast:centred", format!("y[{i}]={} expected {w:e}; {}", y[i], ctx()));
            return;
        }
    }
    let z: Vec<f64> = y.iter().map(|v| *v as f64).collect();
    let vs: f64 = z.iter().map(|v| v * v).sum();
    let v = vs / N as f64;
    let exact = ints && vs < 1.6e7;
    if !((var as f64 - v).abs() <= if exact { E * v } else { (N as f64 + 4.0) * E * v + 1e-37 }) {
        c.fail("fast:variance", format!("variance {var} expected {v:e}; {}", ctx()));
    }
    for j in 0..M {
        let h = SKIP + j;
        let (mut s, mut a) = (0.0, 0.0);
        for i in 0..N - h {
            s += z[i] * z[i + h];
            a += (z[i] * z[i + h]).abs();
        }
        let tol = if exact { 0.0 } else { ((N - h) as f64 + 4.0) * E * a + 1e-37 };
        if !((out[j] as f64 - s).abs() <= tol) {
            c.fail("fast:lag", format!("lag {h} = {} expected {s:e} tol {tol:e}; {}", out[j], ctx()));
            return;
        }
    }
    // rms of the untouched input
    let Some(r) = c.must("rms_fast32", ctx, || rms_fast32::<N>(&orig)) else { return };
    let q: f64 = x.iter().map(|v| v * v).sum();
    let w = (q / N as f64).sqrt();
    c.ev(1);
    if !((r as f64 - w).abs() <= if ints && q < 1.6e7 { 2.0 * E * w } else { (N as f64 / 2.0 + 4.0) * E * w + 1e-22 }) {
        c.fail("rms:value", format!("rms {r} expected {w:e}; {}", ctx()));
    }
}
fn generic<F: Fl>(c: &mut Case, n: usize) {
    let (x, k) = gen::<F>(c, n);
    let y = to::<F>(&x);
    let ctx = || format!("{} n={n} {k} y={}", F::NAME, short(&x));
    c.key(H::default().s(F::NAME).fs(&x).0);
    // lag differences and RMSSD
    let Some(d) = c.must("lag_diff", ctx, || lag_diff::<_, F>(y.iter()).collect::<Vec<F>>()) else { return };
    c.ev(n);
    if d.len() != n.saturating_sub(1) {
        c.fail("lag_diff:length", format!("{} for {n}; {}", d.len(), ctx()));
        return;
    }
    let mut q = DD::ZERO;
    for i in 0..d.len() {
        let w = (DD::from(x[i + 1]) - DD::from(x[i])).f();
        q += DD::from(w) * DD::from(w);
        if !((d[i].d() - w).abs() <= F::EPS * w.abs()) {
            c.fail("lag_diff:value", format!("d[{i}]={:?} expected {w:e}; {}", d[i], ctx()));
            return;
        }
    }
    let Some(r) = c.must("rmssd", ctx, || rmssd::<_, F>(y.iter())) else { return };
    let w = if n < 2 { 0.0 } else { (q / DD::from((n - 1) as f64)).sqrt().f() };
    let tol = (n as f64 / 2.0 + 6.0) * F::EPS * w + F::TINY.sqrt() * 1e-3;
    c.ratio("rmssd", (r.d() - w).abs() / tol);
    if !((r.d() - w).abs() <= tol) {
        c.fail("rmssd:value", format!("{r:?} expected {w:e}; {}", ctx()));
    }
    if n == 0 {
        return;
    }
    // autocorrelation
    let nf = n as f64;
    let sa: f64 = x.iter().map(|v| v.abs()).sum();
    let mean = x.iter().fold(DD::ZERO, |a, b| a + DD::from(*b)) / DD::from(nf);
    let mt = (nf + 2.0) * F::EPS * sa / nf;
    let dv: Vec<DD> = x.iter().map(|v| DD::from(*v) - mean).collect();
    let var = dv.iter().fold(DD::ZERO, |a, b| a + *b * *b) / DD::from(nf);
    let vt = (nf + 8.0) * F::EPS * var.f() + 4.0 * mt * mt + 4.0 * F::EPS * mt * var.f().sqrt();
    if !(vt < 0.1 * var.f()) || var.f() < F::TINY * 1e6 {
        c.cls("autocorr skipped: spread below rounding");
        return;
    }
    let mut lags = vec![0usize, 1, 2, n - 1, n, n + 3];
    lags.push(c.rng.below(n));
    lags.push(c.rng.below(n));
    for k in lags {
        let (mut s, mut a, mut e) = (DD::ZERO, 0.0, 0.0);
        for i in 0..n.saturating_sub(k) {
            let p = dv[i] * dv[i + k];
            s += p;
            a += p.f().abs();
            e += dv[i].f().abs() + dv[i + k].f().abs() + mt;
        }
        let w = (s / DD::from(nf) / var).f();
        let tol = ((nf + 8.0) * F::EPS * a + mt * e * 1.5) / nf / var.f() + w.abs() * (vt / var.f() * 1.2 + 8.0 * F::EPS) + 4.0 * F::TINY;
        let Some(g) = c.must("autocorr", || format!("lag {k}; {}", ctx()), || autocorr::<_, F>(y.iter(), k)) else { return };
        c.ev(1);
        c.ratio("autocorr", (g.d() - w).abs() / tol);
        if !((g.d() - w).abs() <= tol) {
            c.fail("autocorr:value", format!("lag {k}: {g:?} expected {w:e} tol {tol:e}; {}", ctx()));
            return;
        }
    }
    c.cls(format!("generic {} {k}", F::NAME));
}
type Fun = fn(&mut Case);
macro_rules! table {
    ($($n:literal $m:literal $s:literal,)*) => { &[$(fast::<$n, $m, $s> as Fun),*] };
}
fn main() {
    let r = Runner::new("C13");
    let t: &[Fun] = table![
        1 1 0, 2 1 0, 2 1 1, 2 2 0, 3 1 0, 3 1 1, 3 1 2, 3 2 1, 3 3 0, 4 1 1, 4 1 3, 4 2 0,
        4 2 1, 4 3 1, 4 4 0, 5 1 4, 5 2 0, 5 2 1, 5 3 2, 5 4 1, 5 5 0, 6 1 4, 6 1 5, 6 3 0,
        6 3 1, 6 3 2, 6 5 1, 6 6 0, 7 1 6, 7 2 4, 7 3 0, 7 3 2, 7 4 1, 7 6 1, 7 7 0, 8 1 7,
        8 3 2, 8 3 4, 8 4 0, 8 4 2, 8 5 1, 8 7 1, 8 8 0, 9 1 8, 9 3 2, 9 4 0, 9 4 3, 9 4 4,
        9 6 1, 9 8 1, 9 9 0, 10 1 9, 10 3 2, 10 5 0, 10 5 3, 10 5 4, 10 7 1, 10 9 1, 10 10 0, 11 1 10,
        11 3 2, 11 5 0, 11 5 3, 11 6 4, 11 8 1, 11 10 1, 11 11 0, 12 1 11, 12 3 2, 12 6 0, 12 6 4, 12 7 4,
        12 9 1, 12 11 1, 12 12 0, 13 1 12, 13 3 2, 13 6 0, 13 6 4, 13 8 4, 13 10 1, 13 12 1, 13 13 0, 14 1 13,
        14 3 2, 14 7 0, 14 7 4, 14 9 4, 14 11 1, 14 13 1, 14 14 0, 15 1 14, 15 3 2, 15 7 0, 15 7 5, 15 10 4,
        15 12 1, 15 14 1, 15 15 0, 16 1 15, 16 3 2, 16 8 0, 16 8 5, 16 11 4, 16 13 1, 16 15 1, 16 16 0, 17 1 16,
        17 3 2, 17 8 0, 17 8 5, 17 12 4, 17 14 1, 17 16 1, 17 17 0, 18 1 17, 18 3 2, 18 9 0, 18 9 6, 18 13 4,
        18 15 1, 18 17 1, 18 18 0, 19 1 18, 19 3 2, 19 9 0, 19 9 6, 19 14 4, 19 16 1, 19 18 1, 19 19 0, 20 1 19,
        20 3 2, 20 10 0, 20 10 6, 20 15 4, 20 17 1, 20 19 1, 20 20 0, 21 1 20, 21 3 2, 21 10 0, 21 10 7, 21 16 4,
        21 18 1, 21 20 1, 21 21 0, 22 1 21, 22 3 2, 22 11 0, 22 11 7, 22 17 4, 22 19 1, 22 21 1, 22 22 0, 23 1 22,
        23 3 2, 23 11 0, 23 11 7, 23 18 4, 23 20 1, 23 22 1, 23 23 0, 24 1 23, 24 3 2, 24 12 0, 24 12 8, 24 19 4,
        24 21 1, 24 23 1, 24 24 0, 25 1 24, 25 3 2, 25 12 0, 25 12 8, 25 20 4, 25 22 1, 25 24 1, 25 25 0, 26 1 25,
        26 3 2, 26 13 0, 26 13 8, 26 21 4, 26 23 1, 26 25 1, 26 26 0, 27 1 26, 27 3 2, 27 13 0, 27 13 9, 27 22 4,
        27 24 1, 27 26 1, 27 27 0, 28 1 27, 28 3 2, 28 14 0, 28 14 9, 28 23 4, 28 25 1, 28 27 1, 28 28 0, 29 1 28,
        29 3 2, 29 14 0, 29 14 9, 29 24 4, 29 26 1, 29 28 1, 29 29 0, 30 1 29, 30 3 2, 30 15 0, 30 15 10, 30 25 4,
        30 27 1, 30 29 1, 30 30 0, 31 1 30, 31 3 2, 31 15 0, 31 15 10, 31 26 4, 31 28 1, 31 30 1, 31 31 0, 32 1 31,
        32 3 2, 32 16 0, 32 16 10, 32 27 4, 32 29 1, 32 31 1, 32 32 0, 33 1 32, 33 3 2, 33 16 0, 33 16 11, 33 28 4,
        33 30 1, 33 32 1, 33 33 0, 34 1 33, 34 3 2, 34 17 0, 34 17 11, 34 29 4, 34 31 1, 34 33 1, 34 34 0, 35 1 34,
        35 3 2, 35 17 0, 35 17 11, 35 30 4, 35 32 1, 35 34 1, 35 35 0, 36 1 35, 36 3 2, 36 18 0, 36 18 12, 36 31 4,
        36 33 1, 36 35 1, 36 36 0, 37 1 36, 37 3 2, 37 18 0, 37 18 12, 37 32 4, 37 34 1, 37 36 1, 37 37 0, 38 1 37,
        38 3 2, 38 19 0, 38 19 12, 38 33 4, 38 35 1, 38 37 1, 38 38 0, 39 1 38, 39 3 2, 39 19 0, 39 19 13, 39 34 4,
        39 36 1, 39 38 1, 39 39 0, 40 1 39, 40 3 2, 40 20 0, 40 20 13, 40 35 4, 40 37 1, 40 39 1, 40 40 0, 47 47 0,
        47 23 1, 47 20 23, 47 7 0, 47 33 5, 47 1 46, 48 48 0, 48 24 1, 48 20 24, 48 7 0, 48 33 5, 48 1 47, 63 63 0,
        63 31 1, 63 20 31, 63 7 0, 63 33 5, 63 1 62, 64 64 0, 64 32 1, 64 20 32, 64 7 0, 64 33 5, 64 1 63, 65 65 0,
        65 32 1, 65 20 32, 65 7 0, 65 33 5, 65 1 64, 66 66 0, 66 33 1, 66 20 33, 66 7 0, 66 33 5, 66 1 65, 99 99 0,
        99 49 1, 99 20 49, 99 7 0, 99 33 5, 99 1 98, 100 100 0, 100 50 1, 100 20 50, 100 7 0, 100 33 5, 100 1 99, 101 101 0,
        101 50 1, 101 20 50, 101 7 0, 101 33 5, 101 1 100, 127 127 0, 127 63 1, 127 20 63, 127 7 0, 127 33 5, 127 1 126, 128 128 0,
        128 64 1, 128 20 64, 128 7 0, 128 33 5, 128 1 127, 129 129 0, 129 64 1, 129 20 64, 129 7 0, 129 33 5, 129 1 128, 130 130 0,
        130 65 1, 130 20 65, 130 7 0, 130 33 5, 130 1 129, 200 200 0, 200 100 1, 200 20 100, 200 7 0, 200 33 5, 200 1 199, 255 255 0,
        255 127 1, 255 20 127, 255 7 0, 255 33 5, 255 1 254, 256 256 0, 256 128 1, 256 20 128, 256 7 0, 256 33 5, 256 1 255, 257 257 0,
        257 128 1, 257 20 128, 257 7 0, 257 33 5, 257 1 256, 500 500 0, 500 250 1, 500 20 250, 500 7 0, 500 33 5, 500 1 499, 1000 1000 0,
        1000 500 1, 1000 20 500, 1000 7 0, 1000 33 5, 1000 1 999, 1001 1001 0, 1001 500 1, 1001 20 500, 1001 7 0, 1001 33 5, 1001 1 1000, 1002 1002 0,
        1002 501 1, 1002 20 501, 1002 7 0, 1002 33 5, 1002 1 1001, 1003 1003 0, 1003 501 1, 1003 20 501, 1003 7 0, 1003 33 5, 1003 1 1002, 1023 1023 0,
        1023 511 1, 1023 20 511, 1023 7 0, 1023 33 5, 1023 1 1022, 1024 1024 0, 1024 512 1, 1024 20 512, 1024 7 0, 1024 33 5, 1024 1 1023, 1025 1025 0,
        1025 512 1, 1025 20 512, 1025 7 0, 1025 33 5, 1025 1 1024, 2048 2048 0, 2048 1024 1, 2048 20 1024, 2048 7 0, 2048 33 5, 2048 1 2047,
        4095 9 2, 4096 16 0, 4097 33 1, 5000 12 2500, 8192 8 0, 10001 7 3,
    ];
    let nt = t.len() as u64;
    r.stream("fast", nt * 600, nt * 12_000, |c| t[(c.idx % nt) as usize](c));
    let big: &[Fun] = table![32768 4 3, 32771 9 0, 65535 3 65532, 65536 8 1, 65537 5 0, 65539 6 40000, 100001 4 2, 131077 7 65535,];
    r.stream("fast-large", 240, 6000, |c| big[(c.idx % big.len() as u64) as usize](c));
    r.stream("small", 600_000, 12_000_000, |c| {
        let n = (c.idx % 50) as usize;
        if c.rng.bool() {
            generic::<f32>(c, n)
        } else {
            generic::<f64>(c, n)
        }
    });
    r.stream("lengths", 80_000, 1_600_000, |c| {
        let n = gen_len(&mut c.rng, 3000);
        if c.rng.bool() {
            generic::<f32>(c, n)
        } else {
            generic::<f64>(c, n)
        }
    });
    r.stream("long", 120, 4000, |c| {
        let n = c.rng.logf(3e3, 2e5) as usize;
        if c.rng.bool() {
            generic::<f32>(c, n)
        } else {
            generic::<f64>(c, n)
        }
    });
    // a request for more lags than the buffer holds is rejected
    r.exhaust("reject", 4, |c| {
        c.key(c.idx);
        let mut y = [1f32; 8];
        match c.idx {
            0 => c.must_panic("too-many-lags", String::new, || autocorr_fast32::<8, 9, 0>(&mut y, &mut [0.0; 9])),
            1 => c.must_panic("too-many-lags", String::new, || autocorr_fast32::<8, 8, 1>(&mut y, &mut [0.0; 8])),
            2 => c.must_panic("too-many-lags", String::new, || autocorr_fast32::<8, 2, 7>(&mut y, &mut [0.0; 2])),
            _ => c.must_panic("too-many-lags", String::new, || autocorr_fast32::<8, 1, 9>(&mut y, &mut [0.0; 1])),
        }
    });
    r.finish()
}
