//! C21: square wave.
use harness::*;
use ndarray::{Array, ArrayD, Axis, IxDyn, Slice};
use sci_rs::signal::wave::square;

/// t mod 2*pi in units of periods, as a fraction in [0,1), in double-double
fn frac(t: f64) -> (f64, f64) {
    let two_pi = DD::PI * DD::from(2.0);
    let q = DD::from(t) / two_pi;
    let k = DD(q.0.floor(), if q.0.floor() == q.0 { q.1.floor() } else { 0.0 });
    let f = q - k;
    (f.f(), 0.0)
}
fn want<F: Fl>(t: f64, duty: f64) -> Option<f64> {
    // no rounding can make these doubtful
    if duty == 0.0 {
        return Some(-1.0);
    }
    if t == 0.0 {
        return Some(1.0);
    }
    let (f, _) = frac(t);
    // rounding of t, of 2*pi and of the remainder, in periods
    let tol = 2.0 * F::EPS * (t.abs() + 2.0 * std::f64::consts::PI) / std::f64::consts::PI;
    let near = |a: f64| {
        let d = (f - a).abs();
        d.min(1.0 - d) <= tol
    };
    if tol > 0.25 {
        return None;
    }
    // with duty 1 (0) only the multiples of the period are in doubt
    if near(duty) || near(0.0) {
        return None;
    }
    Some(if f < duty { 1.0 } else { -1.0 })
}
fn time<F: Fl>(r: &mut Rng, duty: f64) -> f64 {
    let two_pi = 2.0 * std::f64::consts::PI;
    let x = match r.below(10) {
        0 => r.f(-30.0, 30.0),
        1 => r.f(-7.0, 7.0),
        2 => r.logf(1e-8, 1e5) * if r.bool() { 1.0 } else { -1.0 },
        3 => two_pi * (r.range(-1000, 1000) as f64 + duty) + r.logf(1e-6, 1e-1) * if r.bool() { 1.0 } else { -1.0 },
        4 => two_pi * r.range(-1000, 1000) as f64 + r.logf(1e-6, 1e-1) * if r.bool() { 1.0 } else { -1.0 },
        5 => r.range(-50, 50) as f64,
        9 => r.pick(&[0.0, -0.0, 1e300, -1e300, 1e-300, -1e-300, 3e38, 1e16, -1e20, 5e-324]),
        6 => -r.f(0.0, 6.28),
        7 => r.logf(1e3, if F::NAME == "f64" { 1e12 } else { 1e5 }) * if r.bool() { 1.0 } else { -1.0 },
        _ => r.range(-400, 400) as f64 * 0.0625,
    };
    F::of(x.clamp(-F::MAXF, F::MAXF)).d()
}
fn duty<F: Fl>(r: &mut Rng) -> f64 {
    F::of(match r.below(6) {
        0 => 0.5,
        1 => 0.0,
        2 => 1.0,
        3 => r.pick(&[1e-6, 0.01, 0.25, 0.3, 0.75, 0.99, 1.0 - 1e-6]),
        _ => r.unit(),
    })
    .d()
}
fn judge<F: Fl>(c: &mut Case, got: F, t: f64, d: f64) -> bool {
    c.ev(1);
    let g = got.d();
    if g != 1.0 && g != -1.0 {
        c.fail("level", format!("{} square({t:e}, {d}) = {got:?}", F::NAME));
        return false;
    }
    match want::<F>(t, d) {
        Some(w) if w != g => {
            c.fail("value", format!("{} square({t:e}, duty {d}) = {g}, expected {w}", F::NAME));
            false
        }
        Some(_) => true,
        None => {
            c.cls("not judged: at a switching point");
            true
        }
    }
}
fn scalar<F: Fl>(c: &mut Case) {
    let d = duty::<F>(&mut c.rng);
    let n = if c.rng.one_in(400) { gen_len(&mut c.rng, 5000) } else { c.rng.below(20) };
    let t: Vec<f64> = (0..n).map(|_| time::<F>(&mut c.rng, d)).collect();
    c.key(H::default().s(F::NAME).fs([&d]).fs(&t).0);
    c.sample(|| format!("{} duty {d} t={}", F::NAME, short(&t)));
    let a = Array::from_vec(to::<F>(&t));
    let Some(y) = c.must("square", || format!("duty {d} t={}", short(&t)), || square(&a, F::of(d))) else { return };
    if y.len() != n {
        c.fail("length", format!("{} for {n}", y.len()));
        return;
    }
    for i in 0..n {
        if !judge::<F>(c, y[i], t[i], d) {
            return;
        }
        c.cls(format!("{} {} {}", F::NAME, if t[i] < 0.0 { "t<0" } else { "t>=0" }, if d == 0.0 { "duty 0" } else if d == 1.0 { "duty 1" } else { "duty inside" }));
    }
}
fn shapes<F: Fl>(c: &mut Case) {
    let nd = c.rng.below(6);
    let big = if nd <= 2 && c.rng.one_in(20) { 70 } else { 5 };
    let shape: Vec<usize> = (0..nd).map(|_| if c.rng.one_in(12) { 0 } else { c.rng.urange(1, big) }).collect();
    let n: usize = shape.iter().product();
    let d = duty::<F>(&mut c.rng);
    let data: Vec<F> = (0..n).map(|_| F::of(time::<F>(&mut c.rng, d))).collect();
    c.key(H::default().s(F::NAME).u(nd as u64).fs(data.iter().map(|v| v.d()).collect::<Vec<_>>().iter()).0);
    let mut a = ArrayD::<F>::from_shape_vec(IxDyn(&shape), data).unwrap();
    let k = c.rng.below(5);
    match k {
        0 => a = a.reversed_axes(),
        1 if nd > 0 => {
            let ax = c.rng.below(nd);
            a.invert_axis(Axis(ax))
        }
        2 if nd > 1 => a.swap_axes(0, nd - 1),
        3 if nd > 0 => {
            let ax = c.rng.below(nd);
            a.slice_axis_inplace(Axis(ax), Slice::new(0, None, 2));
        }
        _ => {}
    }
    c.cls(format!("{}-dimensional layout {k}", nd));
    let ctx = || format!("{} shape {:?} layout {k} duty {d}", F::NAME, a.shape());
    let Some(y) = c.must("square-nd", ctx, || square(&a, F::of(d))) else { return };
    let Some(z) = c.must("square-view", ctx, || square(&a.view(), F::of(d))) else { return };
    if y.shape() != a.shape() || z.shape() != a.shape() {
        c.fail("shape", format!("{:?} {:?}; {}", y.shape(), z.shape(), ctx()));
        return;
    }
    for (ix, t) in a.indexed_iter() {
        if !judge::<F>(c, y[ix.clone()], t.d(), d) || y[ix.clone()] != z[ix] {
            c.fail("nd", ctx());
            return;
        }
    }
    // fixed dimensionality
    if nd == 2 {
        let b = a.clone().into_dimensionality::<ndarray::Ix2>().unwrap();
        let w = square(&b, F::of(d));
        c.ev(w.len());
        if w.into_dyn() != y {
            c.fail("ix2", ctx());
        }
    }
}
fn reject<F: Fl>(c: &mut Case) {
    let d = match c.rng.below(7) {
        0 => -F::TINY,
        1 => F::of(1.0 + F::EPS).d(),
        2 => -c.rng.logf(1e-9, 1e9),
        3 => 1.0 + c.rng.logf(1e-3, 1e9),
        4 => f64::NAN,
        5 => f64::INFINITY,
        _ => f64::NEG_INFINITY,
    };
    c.key(H::default().s(F::NAME).fs([&d]).0);
    let n = c.rng.below(4);
    let a = Array::from_vec((0..n).map(|i| F::of(i as f64)).collect::<Vec<F>>());
    c.must_panic("duty", || format!("{} duty {d:e} with {n} samples", F::NAME), || square(&a, F::of(d)));
}
fn main() {
    let r = Runner::new("C21");
    r.stream("values", 2_000_000, 4_000_000, |c| if c.rng.bool() { scalar::<f32>(c) } else { scalar::<f64>(c) });
    r.stream("shapes", 300_000, 800_000, |c| if c.rng.bool() { shapes::<f32>(c) } else { shapes::<f64>(c) });
    r.stream("reject", 2000, 20_000, |c| if c.rng.bool() { reject::<f32>(c) } else { reject::<f64>(c) });
    r.finish()
}
