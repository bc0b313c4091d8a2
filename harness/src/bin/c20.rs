//! C20: Savitzky-Golay coefficients and filtering.
use harness::*;
use sci_rs::signal::filter::{savgol_coeffs_dyn, savgol_filter_dyn};

/// least-squares weights of the der-th derivative at the window centre, position of weight j = half - j
fn weights(w: usize, order: usize, der: usize, delta: f64) -> Vec<DD> {
    if der > order {
        return vec![DD::ZERO; w];
    }
    let off = if w % 2 == 0 { 0.5 } else { 0.0 };
    let pos: Vec<f64> = (0..w).map(|j| (w / 2) as f64 - j as f64 - off).collect();
    let m = order + 1;
    // normal equations G c = e_der, weights_j = sum_i c_i pos_j^i
    let mut g = vec![vec![DD::ZERO; m + 1]; m];
    for i in 0..m {
        for j in 0..m {
            let mut s = DD::ZERO;
            for p in &pos {
                s += DD::from(*p).powi((i + j) as u32);
            }
            g[i][j] = s;
        }
    }
    g[der][m] = DD::ONE;
    for i in 0..m {
        let p = (i..m).max_by(|a, b| g[*a][i].0.abs().partial_cmp(&g[*b][i].0.abs()).unwrap()).unwrap();
        g.swap(i, p);
        for r in 0..m {
            if r != i {
                let f = g[r][i] / g[i][i];
                for k in i..=m {
                    let t = f * g[i][k];
                    g[r][k] -= t;
                }
            }
        }
    }
    let mut fac = DD::ONE;
    for i in 1..=der {
        fac = fac * DD::from(i as f64);
    }
    let scale = fac / DD::from(delta).powi(der as u32);
    pos.iter()
        .map(|p| {
            let mut s = DD::ZERO;
            for i in 0..m {
                s += g[i][m] / g[i][i] * DD::from(*p).powi(i as u32);
            }
            s * scale
        })
        .collect()
}
fn wtol<F: Fl>(w: usize, order: usize, wt: &[DD]) -> f64 {
    let m = wt.iter().fold(0.0f64, |a, b| a.max(b.f().abs()));
    // the least-squares solve works on powers up to (w/2)^order
    let cond = ((w as f64 / 2.0).max(1.0)).powi(order as i32);
    // nalgebra's SVD loses small singular values of the larger Vandermonde matrices
    let svd = if order >= 5 { 1e-5 } else { 0.0 };
    ((32.0 + 2.0 * w as f64 + 8.0 * cond) * F::EPS + svd) * m
}
struct Cfg {
    w: usize,
    order: usize,
    der: usize,
    delta: f64,
}
fn gen_cfg<F: Fl>(c: &mut Case, odd: bool) -> Cfg {
    // well conditioned: (half window)^order <= 1e7 (f64), 1e3 (f32)
    let (om, lim, top) = if F::NAME == "f64" { (6, 1e7, 151) } else { (3, 1e3, 101) };
    let order = c.rng.below(om + 1);
    let wm = if order == 0 { top } else { ((2.0 * f64::powf(lim, 1.0 / order as f64)) as usize).min(top) };
    let wm = if c.rng.bool() { wm.min(25) } else { wm };
    let mut w = c.rng.urange(order + 1, wm);
    if odd && w % 2 == 0 {
        w = if w + 1 <= wm { w + 1 } else { w - 1 };
    }
    if odd && w < order + 2 {
        w = if order % 2 == 0 { order + 3 } else { order + 2 };
    }
    let der = if c.rng.bool() { 0 } else { c.rng.below(order + 3) };
    let delta = F::of(c.rng.pick(&[1.0, 1.0, 0.5, 2.0, -1.0, 0.1, 3.7, 100.0])).d();
    Cfg { w, order, der, delta }
}
fn coeffs<F: Fl>(c: &mut Case) {
    let k = gen_cfg::<F>(c, false);
    let ctx = || format!("{} window {} order {} derivative {} spacing {}", F::NAME, k.w, k.order, k.der, k.delta);
    c.sample(ctx);
    c.cls(format!("coeffs {} w={} p={} d={}", F::NAME, k.w, k.order, k.der));
    c.key(H::default().s(F::NAME).u(k.w as u64).u(k.order as u64).u(k.der as u64).fs([&k.delta]).0);
    let d = if k.der == 0 && c.rng.bool() { None } else { Some(k.der) };
    let s = if k.delta == 1.0 && c.rng.bool() { None } else { Some(F::of(k.delta)) };
    let Some(g) = c.must("coeffs", ctx, || savgol_coeffs_dyn::<F>(k.w, k.order, d, s)) else { return };
    let wt = weights(k.w, k.order, k.der, k.delta);
    c.ev(g.len());
    if g.len() != k.w {
        c.fail("coeffs:length", format!("{}; {}", g.len(), ctx()));
        return;
    }
    let tol = wtol::<F>(k.w, k.order, &wt);
    for j in 0..k.w {
        let e = (g[j].d() - wt[j].f()).abs();
        if tol > 0.0 {
            c.ratio(&format!("coeffs {} {}", F::NAME, if k.order >= 5 { "order>=5" } else { "" }), e / tol);
        }
        if !(e <= tol) {
            c.fail("coeffs:value", format!("[{j}]={:?} expected {:e} tol {tol:e}; {}", g[j], wt[j].f(), ctx()));
            return;
        }
    }
}
fn filt<F: Fl>(c: &mut Case, n: usize) {
    let k = gen_cfg::<F>(c, true);
    let (mut x, tag) = gen_signal::<F>(&mut c.rng, n);
    let m = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if m > F::MAXF.powf(0.7) || (m > 0.0 && m < F::TINY.powf(0.7)) {
        x = x.iter().map(|v| F::of(v / m).d()).collect();
    }
    let ctx = || format!("{} window {} order {} derivative {} spacing {} n={n} {tag} x={}", F::NAME, k.w, k.order, k.der, k.delta, short(&x));
    c.sample(ctx);
    c.cls(format!("filter {} n{}window p={} d={}", F::NAME, if n < k.w { "<" } else { ">=" }, k.order, k.der));
    c.key(H::default().s(F::NAME).u(k.w as u64).u(k.order as u64).u(k.der as u64).fs(&x).0);
    let y = to::<F>(&x);
    let d = if k.der == 0 && c.rng.bool() { None } else { Some(k.der) };
    let s = if k.delta == 1.0 && c.rng.bool() { None } else { Some(F::of(k.delta)) };
    let Some(g) = c.must("filter", ctx, || savgol_filter_dyn::<_, F>(y.iter(), k.w, k.order, d, s)) else { return };
    c.ev(n.max(1));
    if g.len() != n {
        c.fail("filter:length", format!("{} samples; {}", g.len(), ctx()));
        return;
    }
    if n == 0 {
        return;
    }
    let wt = weights(k.w, k.order, k.der, k.delta);
    let te = wtol::<F>(k.w, k.order, &wt);
    let h = (k.w / 2) as i64;
    for i in 0..n as i64 {
        let mut s = DD::ZERO;
        let (mut a, mut b) = (0.0, 0.0);
        for j in 0..k.w {
            let p = (i + h - j as i64).clamp(0, n as i64 - 1) as usize;
            let t = wt[j] * DD::from(x[p]);
            s += t;
            a += t.f().abs();
            b += x[p].abs();
        }
        let tol = te * b + (k.w as f64 + 4.0) * F::EPS * a + 4.0 * F::TINY;
        let e = (g[i as usize].d() - s.f()).abs();
        c.ratio(&format!("filter {}", F::NAME), e / tol);
        if !(e <= tol) {
            c.fail("filter:value", format!("y[{i}]={:?} expected {:e} tol {tol:e}; {}", g[i as usize], s.f(), ctx()));
            return;
        }
    }
}
/// polynomials of degree <= order are reproduced (with their derivatives) away from the ends
fn poly<F: Fl>(c: &mut Case) {
    let k = gen_cfg::<F>(c, true);
    let n = k.w + c.rng.below(60);
    let deg = c.rng.below(k.order + 1);
    let co: Vec<i64> = (0..=deg).map(|_| c.rng.range(-3, 3)).collect();
    let x0 = (n / 2) as f64;
    let val = |t: f64| co.iter().rev().fold(0.0, |a, b| a * t + *b as f64);
    let x: Vec<f64> = (0..n).map(|i| val(i as f64 - x0)).collect();
    if x.iter().any(|v| v.abs() > F::IMAX) {
        return;
    }
    c.key(H::default().s(F::NAME).u(k.w as u64).u(k.der as u64).fs(&x).0);
    let y = to::<F>(&x);
    let ctx = || format!("{} window {} order {} derivative {} spacing {} n={n} polynomial {co:?}", F::NAME, k.w, k.order, k.der, k.delta);
    let Some(g) = c.must("poly", ctx, || savgol_filter_dyn::<_, F>(y.iter(), k.w, k.order, Some(k.der), Some(F::of(k.delta)))) else { return };
    let wt = weights(k.w, k.order, k.der, k.delta);
    let te = wtol::<F>(k.w, k.order, &wt);
    let h = k.w / 2;
    for i in h..n - h {
        let t = i as f64 - x0;
        let mut q: Vec<f64> = co.iter().map(|v| *v as f64).collect();
        for _ in 0..k.der {
            q = q.iter().enumerate().skip(1).map(|(p, v)| v * p as f64).collect();
        }
        let w = q.iter().rev().fold(0.0, |a, b| a * t + b) / k.delta.powi(k.der as i32);
        let w = if k.der > k.order { 0.0 } else { w };
        let b: f64 = x[i - h..=i + h].iter().map(|v| v.abs()).sum();
        let wm = wt.iter().fold(0.0f64, |a, b| a.max(b.f().abs()));
        let tol = te * b + (k.w as f64 + 4.0) * F::EPS * b * wm;
        c.ev(1);
        if !((g[i].d() - w).abs() <= tol) {
            c.fail("poly:value", format!("y[{i}]={:?} expected {w:e} tol {tol:e}; {}", g[i], ctx()));
            return;
        }
    }
    c.cls(format!("polynomial degree {deg} order {} derivative {}", k.order, k.der));
}
fn reject(c: &mut Case) {
    let x = [1.0f64, 2.0, 4.0, 3.0, 1.0];
    let (w, p) = ((c.idx / 30) as usize, (c.idx % 30) as usize);
    c.key(c.idx);
    let der = c.rng.below(3);
    let (d, s) = (Some(der), if c.rng.bool() { Some(0.5) } else { None });
    if p >= w {
        c.must_panic("coeffs-order", || format!("window {w} order {p}"), || savgol_coeffs_dyn::<f64>(w, p, d, s));
    }
    if w % 2 == 0 || w < p + 2 {
        c.must_panic("filter-window", || format!("window {w} order {p}"), || savgol_filter_dyn::<_, f64>(x.iter(), w, p, d, s));
        // an invalid request is rejected even for an empty signal
        c.must_panic("filter-window-empty", || format!("window {w} order {p}"), || savgol_filter_dyn::<_, f64>(x[..0].iter(), w, p, d, s));
    } else if p <= 4 && w <= 25 {
        c.must("filter-valid", || format!("window {w} order {p}"), || savgol_filter_dyn::<_, f64>(x.iter(), w, p, d, s));
    }
}
fn main() {
    let r = Runner::new("C20");
    r.stream("coeffs", 60_000, 300_000, |c| if c.rng.one_in(3) { coeffs::<f32>(c) } else { coeffs::<f64>(c) });
    r.stream("filter", 200_000, 1_000_000, |c| {
        let n = (c.idx % 60) as usize;
        if c.rng.one_in(3) {
            filt::<f32>(c, n)
        } else {
            filt::<f64>(c, n)
        }
    });
    r.stream("filter-lengths", 20_000, 300_000, |c| {
        let n = gen_len(&mut c.rng, 5000);
        if c.rng.one_in(3) {
            filt::<f32>(c, n)
        } else {
            filt::<f64>(c, n)
        }
    });
    r.stream("filter-long", 60, 2000, |c| {
        let n = c.rng.logf(5e3, 1e5) as usize;
        if c.rng.one_in(3) {
            filt::<f32>(c, n)
        } else {
            filt::<f64>(c, n)
        }
    });
    r.stream("polynomials", 100_000, 600_000, |c| if c.rng.one_in(3) { poly::<f32>(c) } else { poly::<f64>(c) });
    r.exhaust("reject", 900, reject);
    r.finish()
}
