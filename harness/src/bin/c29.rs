//! C29: design + filtering end to end: tones come out with the specified amplitude (squared, in phase, for zero-phase).
use harness::ops::tame_req;
use harness::*;
use sci_rs::signal::filter::design::*;
use sci_rs::signal::filter::sosfiltfilt_dyn;
use std::f64::consts::PI;

fn radius<F: Fl>(s: &[Sos<F>]) -> f64 {
    s.iter()
        .map(|s| {
            let (a1, a2) = (s.a[1].d(), s.a[2].d());
            let d = a1 * a1 / 4.0 - a2;
            if d < 0.0 {
                a2.sqrt()
            } else {
                (a1.abs() / 2.0) + d.sqrt()
            }
        })
        .fold(0.0, f64::max)
}
/// least squares for sum_k A_k cos(w_k n) + B_k sin(w_k n), n in the window; None if the tones are too close
fn fit(y: &[f64], n0: usize, w: &[f64]) -> Option<(Vec<(f64, f64)>, f64)> {
    let k = 2 * w.len();
    let row = |i: usize| -> Vec<f64> { w.iter().flat_map(|w| [(w * (n0 + i) as f64).cos(), (w * (n0 + i) as f64).sin()]).collect() };
    let mut m = vec![vec![0.0; k + 1]; k];
    for (i, v) in y.iter().enumerate() {
        let r = row(i);
        for a in 0..k {
            for b in 0..k {
                m[a][b] += r[a] * r[b];
            }
            m[a][k] += r[a] * v;
        }
    }
    for i in 0..k {
        let p = (i..k).max_by(|a, b| m[*a][i].abs().total_cmp(&m[*b][i].abs())).unwrap();
        m.swap(i, p);
        if m[i][i].abs() < 0.05 * y.len() as f64 {
            return None;
        }
        for j in 0..k {
            if j != i {
                let f = m[j][i] / m[i][i];
                for c in i..=k {
                    m[j][c] -= f * m[i][c];
                }
            }
        }
    }
    let s: Vec<f64> = (0..k).map(|i| m[i][k] / m[i][i]).collect();
    let res = y.iter().enumerate().map(|(i, v)| (v - row(i).iter().zip(&s).map(|(a, b)| a * b).sum::<f64>()).abs()).fold(0.0, f64::max);
    Some((s.chunks(2).map(|c| (c[0], c[1])).collect(), res))
}
fn case<F: Fl>(c: &mut Case) {
    let f32_ = F::NAME == "f32";
    let mut q = if c.rng.one_in(3) { tame_req::<F>(&mut c.rng) } else { gen_req::<F>(&mut c.rng, 12) };
    q.out = Out::Sos;
    if q.analog {
        q.analog = false;
        let m = q.wn.iter().fold(0.0f64, |m, x| m.max(*x));
        q.wn = q.wn.iter().map(|x| F::of(x / m * 0.7).d()).collect();
    }
    let ctx = || format!("{} {q:?}", F::NAME);
    let Some(f) = c.must("design", ctx, || q.run::<F>()) else { return };
    let DigitalFilter::Sos(f) = f else {
        c.fail("format", ctx());
        return;
    };
    let mut q2 = q.clone();
    q2.out = Out::Zpk;
    q2.omit = false;
    let Some(DigitalFilter::Zpk(zf)) = c.must("design", ctx, || q2.run::<F>()) else { return };
    let rad = radius(&f.sos);
    if !(rad < 1.0) {
        c.fail("unstable", format!("pole radius {rad}; {}", ctx()));
        return;
    }
    let target: f64 = if f32_ { 1e-9 } else { 1e-14 };
    let settle = (1.6 * target.ln() / rad.ln()).ceil() as usize + 20 + 4 * f.sos.len();
    let limit = if c.thorough { 20_000 } else { 5_000 };
    if settle > limit {
        c.cls("skipped: settles too slowly");
        return;
    }
    // tones
    let nt = c.rng.urange(1, 2);
    let e = q.edges();
    let mut w: Vec<f64> = vec![];
    for _ in 0..nt {
        w.push(match c.rng.below(4) {
            0 => 2.0 * (c.rng.pick(&e) * c.rng.f(0.8, 1.25)).atan(),
            1 => 2.0 * c.rng.pick(&e).atan(),
            2 if e.len() == 2 => 2.0 * c.rng.f(e[0], e[1]).atan(),
            _ => c.rng.f(0.01, PI - 0.01),
        });
    }
    if w.iter().any(|w| !(*w > 0.004 && *w < PI - 0.004)) {
        c.cls("skipped: tone too close to 0 or Nyquist");
        return;
    }
    let win = 1500 + c.rng.below(200);
    let zero = c.rng.one_in(3);
    let n = if zero { 2 * settle + win } else { settle + win };
    let amp: Vec<f64> = w.iter().map(|_| c.rng.logf(0.1, 10.0)).collect();
    let ph: Vec<f64> = w.iter().map(|_| c.rng.f(-PI, PI)).collect();
    let ints = f32_ && !zero && c.rng.one_in(5);
    let scale = if ints { 1000.0 } else { 1.0 };
    let amp: Vec<f64> = amp.iter().map(|a| a * scale).collect();
    let x: Vec<f64> = (0..n)
        .map(|i| {
            let v: f64 = w.iter().zip(&amp).zip(&ph).map(|((w, a), p)| a * (w * i as f64 - p).cos()).sum();
            if ints {
                v.round()
            } else {
                F::of(v).d()
            }
        })
        .collect();
    let entry = if zero { "filtfilt".to_string() } else if ints { "ifast32".to_string() } else { String::new() };
    c.key(H::default().s(F::NAME).s(&format!("{q:?}")).fs(&w).fs(&amp).0);
    let xf: Vec<F> = to(&x);
    let mut s = f.sos.clone();
    let (y, entry): (Vec<f64>, String) = if zero {
        let Some(y) = c.must("filtfilt", ctx, || sosfiltfilt_dyn(xf.iter(), &s)) else { return };
        (y.iter().map(|v| v.d()).collect(), entry)
    } else if ints {
        let mut s32: Vec<Sos<f32>> = s.iter().map(|q| FSec::of(q).sos::<f32>()).collect();
        let xi: Vec<Samp32> = x.iter().map(|v| Samp32(*v as i32)).collect();
        let Some(y) = c.must("filter", ctx, || run_ifast32(&xi, &mut s32)) else { return };
        (y.iter().map(|v| v.d()).collect(), entry)
    } else if f32_ && c.rng.one_in(3) {
        let mut s32: Vec<Sos<f32>> = s.iter().map(|q| FSec::of(q).sos::<f32>()).collect();
        let xs: Vec<f32> = x.iter().map(|v| *v as f32).collect();
        let Some(y) = c.must("filter", ctx, || run_fast32(&xs, &mut s32)) else { return };
        (y.iter().map(|v| v.d()).collect(), "fast32".into())
    } else {
        // streamed in chunks through one or several entry points
        let e0 = c.rng.below(6);
        let mix = c.rng.bool();
        let mut y = vec![];
        let mut i = 0;
        while i < n {
            let m = (i + c.rng.urange(1, n)).min(n);
            let e = if mix { c.rng.below(6) } else { e0 };
            let Some(o) = c.must("filter", ctx, || run_entry(e, &xf[i..m], &mut s)) else { return };
            y.extend(o.iter().map(|v| v.d()));
            i = m;
        }
        (y, ENTRIES[e0].into())
    };
    c.ev(1);
    if y.len() != n {
        c.fail("length", format!("{} samples from {n}; {}", y.len(), ctx()));
        return;
    }
    // rounding noise of the filtering itself
    let secs: Vec<FSec> = f.sos.iter().map(FSec::of).collect();
    let dr = ddrun::<F>(&secs, &x);
    let xmax: f64 = amp.iter().sum();
    let l: f64 = secs.iter().map(|s| l1_h(s, settle + win)).product();
    let quant = if ints { 0.5 } else { 0.0 };
    let mut noise = dr.tol + quant * l.min(1e6) + (F::EPS * xmax + 1e-9 * xmax * if f32_ { 1.0 } else { 1e-4 }) * l.min(1e6);
    if zero {
        noise = (noise + F::EPS * dr.mag) * (2.0 + l);
    }
    let Some((sol, res)) = fit(&y[settle..settle + win], settle, &w) else {
        c.cls("skipped: tones too close");
        return;
    };
    c.cls(format!("{} {:?} {:?} n={} {entry}", F::NAME, q.fam, q.band, q.order));
    c.sample(|| format!("{} tones at {w:?} amplitudes {amp:?} via {entry}", ctx()));
    let mut tols = 0.0;
    let mut used = 0;
    let mut info = String::new();
    for k in 0..w.len() {
        let t = (w[k] / 2.0).tan();
        let want = q.mag(t);
        let z = circle(t);
        let cond = design_cond(&q, &zf, z) + eval_sos(&f.sos, z).cond;
        let rel = 40.0 * F::EPS * (cond + q.npoles() as f64 + 4.0) + ref_sens::<F>(&q, t, want) + 1e-9;
        let (gain, rel) = if zero { (want * want, 2.0 * rel + rel * rel) } else { (want, rel) };
        let wanta = gain * amp[k];
        let tol = rel * wanta + 4.0 * noise;
        tols += tol;
        if !(rel < 0.1) {
            c.cls("point-skipped");
            tols = f64::INFINITY;
            continue;
        }
        let (a, b) = sol[k];
        let got = a.hypot(b);
        used += 1;
        // a bound is still a bound where the noise is larger than the wanted amplitude
        c.cls(if tol < 0.05 * wanta { "amplitude resolved" } else { "amplitude bounded" });
        let err = (got - wanta).abs();
        if tol < 0.05 * wanta {
            c.ratio(&format!("amplitude {} {}", F::NAME, if zero { "zero-phase" } else { "causal" }), err / tol);
        }
        info = format!("tone w={} amplitude {} phase {}: output amplitude {got:e}, specified {wanta:e} (err {err:e}, tol {tol:e}) via {entry}; {}", w[k], amp[k], ph[k], ctx());
        if !(err <= tol) {
            c.fail(format!("amplitude:{:?}:{:?}", q.fam, q.band), info.clone());
            return;
        }
        if zero {
            let (ca, sb) = (wanta * ph[k].cos(), wanta * ph[k].sin());
            let d = (a - ca).hypot(b - sb);
            if !(d <= 2.0 * tol) {
                c.fail("phase", format!("output phase {:.9}; {info}", b.atan2(a)));
                return;
            }
        }
    }
    c.ev(used * win);
    if used == w.len() && !(res <= 4.0 * tols + 8.0 * noise) {
        c.fail("not-a-tone", format!("residual {res:e} after settling, bound {:e}; {info}", 4.0 * tols + 8.0 * noise));
    }
}
fn main() {
    let r = Runner::new("C29");
    r.stream("tones-f64", 60_000, 2_000_000, case::<f64>);
    r.stream("tones-f32", 40_000, 1_500_000, case::<f32>);
    r.finish()
}
