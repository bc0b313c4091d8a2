//! C16: Bessel I0 and exponentially scaled I0.
use harness::*;
use sci_rs::special::Bessel;

/// (I0(x) * 2^-600, exp(-x) I0(x)) for x >= 0
fn reference(x: f64) -> (DD, DD) {
    if x <= 720.0 {
        let p = DD(2f64.powi(-600), 0.0);
        let q = DD::from(x) * DD::from(x) / DD::from(4.0);
        let (mut t, mut s) = (p, p);
        let mut k = 1.0;
        loop {
            t = t * q / DD::from(k * k);
            s += t;
            if t.0 <= s.0 * 1e-34 || k > 4000.0 {
                break;
            }
            k += 1.0;
        }
        // exp(-x) in two halves to stay in range
        let h = DD::from(-x / 2.0).exp();
        let up = DD(2f64.powi(300), 0.0);
        (s, s * up * h * up * h)
    } else {
        // asymptotic series, far beyond its smallest term
        let (x, down) = if x > 1e200 { (x * 2f64.powi(-400), 2f64.powi(-200)) } else { (x, 1.0) };
        let x = DD::from(x);
        let (mut t, mut s) = (DD::ONE, DD::ONE);
        for k in 1..60 {
            let o = DD::from((2 * k - 1) as f64);
            t = t * o * o / (DD::from(8.0 * k as f64) * x);
            s += t;
            if t.0 < 1e-34 {
                break;
            }
        }
        (DD::ZERO, s / (DD::from(2.0) * DD::PI * x).sqrt() * DD::from(down))
    }
}
trait B: Fl + Bessel {
    const TOL: f64;
    const XMAX: f64;
}
impl B for f32 {
    const TOL: f64 = 1e-6;
    const XMAX: f64 = 88.0;
}
impl B for f64 {
    const TOL: f64 = 4e-15;
    const XMAX: f64 = 709.0;
}
fn point<F: B>(c: &mut Case, x: F) {
    let a = x.d().abs();
    let neg = F::of(-x.d());
    c.key(H::default().s(F::NAME).u(x.bits()).0);
    let (r0, re) = reference(a);
    let e = x.i0e();
    let rel = ((DD::from(e.d()) - re) / re).f().abs();
    c.ratio(&format!("{} i0e", F::NAME), rel / F::TOL);
    c.ev(2);
    if !(rel <= F::TOL) {
        c.fail("i0e:value", format!("{} i0e({:e}) = {e:?}, reference {:e}, relative error {rel:e}", F::NAME, x.d(), re.f()));
    }
    if neg.i0e().bits() != e.bits() {
        c.fail("i0e:even", format!("{} i0e(-x) != i0e(x) at {:e}", F::NAME, x.d()));
    }
    if a <= F::XMAX {
        let g = x.i0();
        let rel = ((DD::from(g.d() * 2f64.powi(-600)) - r0) / r0).f().abs();
        c.ratio(&format!("{} i0", F::NAME), rel / F::TOL);
        c.ev(2);
        if !(rel <= F::TOL) {
            c.fail("i0:value", format!("{} i0({:e}) = {g:?}, reference {:e}*2^600, relative error {rel:e}", F::NAME, x.d(), r0.f()));
        }
        if neg.i0().bits() != g.bits() {
            c.fail("i0:even", format!("{} i0(-x) != i0(x) at {:e}", F::NAME, x.d()));
        }
    }
    let p = if a == 0.0 {
        "0"
    } else if a < 1e-3 {
        "tiny"
    } else if a < 8.0 {
        "(0,8)"
    } else if a == 8.0 {
        "8"
    } else if a < 20.0 {
        "(8,20)"
    } else if a <= F::XMAX {
        "large"
    } else {
        "beyond i0 range"
    };
    c.cls(format!("{} {p}", F::NAME));
}
fn arg<F: B>(r: &mut Rng) -> F {
    let x = match r.below(8) {
        0 => r.f(0.0, 8.0),
        1 => r.f(8.0, 40.0),
        2 => r.f(0.0, F::XMAX),
        3 => r.logf(1e-30, 1.0),
        4 => 8.0 * (1.0 + F::EPS * r.range(-40, 40) as f64),
        5 => F::XMAX * (1.0 - F::EPS * r.below(50) as f64),
        6 => r.logf(F::XMAX, F::MAXF * 0.99),
        _ => r.urange(0, 88) as f64 + if r.bool() { 0.5 } else { 0.0 },
    };
    F::of(if r.bool() { -x } else { x })
}
fn special<F: B>(c: &mut Case) {
    c.ev(6);
    let tol = 4.0 * F::EPS;
    for z in [0.0, -0.0, F::TINY, -F::TINY, F::TINY * F::EPS] {
        let x = F::of(z);
        if (x.i0().d() - 1.0).abs() > tol || (x.i0e().d() - 1.0).abs() > tol {
            c.fail("zero", format!("{} i0({z:e})={:?} i0e={:?}", F::NAME, x.i0(), x.i0e()));
        }
    }
    let n = F::of(f64::NAN);
    if !n.i0().d().is_nan() || !n.i0e().d().is_nan() {
        c.fail("nan", format!("{} NaN argument gives {:?} {:?}", F::NAME, n.i0(), n.i0e()));
    }
    c.key(1);
}
#[cfg(feature = "std")]
mod arrays {
    use super::*;
    use ndarray::{ArrayD, IxDyn};
    pub fn run<F: B>(c: &mut Case) {
        let nd = c.rng.below(5);
        let big = if nd <= 2 && c.rng.one_in(20) { 37 } else { 1 };
        let shape: Vec<usize> = (0..nd).map(|_| c.rng.below(6) + if c.rng.one_in(9) { 0 } else { 1 }).map(|v| v.min(5) * big).collect();
        let n: usize = shape.iter().product();
        let data: Vec<F> = (0..n)
            .map(|_| loop {
                let x = arg::<F>(&mut c.rng);
                if x.d().abs() <= F::XMAX {
                    return x;
                }
            })
            .collect();
        c.key(H::default().u(nd as u64).fs(data.iter().map(|v| v.d()).collect::<Vec<_>>().iter()).0);
        c.cls(format!("{} {nd}-dimensional", F::NAME));
        let gv = (data.i0(), data.i0e());
        c.ev(2 * n);
        let mut bad = gv.0.len() != n || gv.1.len() != n;
        for i in 0..n.min(gv.0.len()).min(gv.1.len()) {
            bad |= gv.0[i].bits() != data[i].i0().bits() || gv.1[i].bits() != data[i].i0e().bits();
        }
        if bad {
            c.fail("vec", format!("{} vector of {n}: {} -> {}", F::NAME, short(&data), short(&gv.0)));
        }
        let mut a = ArrayD::<F>::from_shape_vec(IxDyn(&shape), data).unwrap();
        // other memory layouts
        match c.rng.below(4) {
            0 => a = a.reversed_axes(),
            1 if nd > 0 => {
                let ax = c.rng.below(nd);
                a.invert_axis(ndarray::Axis(ax));
            }
            2 if nd > 1 => a.swap_axes(0, nd - 1),
            _ => {}
        }
        let (g, e) = (a.i0(), a.i0e());
        c.ev(2 * n);
        if g.shape() != a.shape() || e.shape() != a.shape() {
            c.fail("array:shape", format!("{:?} -> {:?} {:?}", a.shape(), g.shape(), e.shape()));
            return;
        }
        for (ix, v) in a.indexed_iter() {
            if g[ix.clone()].bits() != v.i0().bits() || e[ix.clone()].bits() != v.i0e().bits() {
                c.fail("array:value", format!("{} at {ix:?} of shape {:?}", F::NAME, a.shape()));
                return;
            }
        }
        // nested vectors are element-wise too
        let nested: Vec<Vec<F>> = a.iter().map(|v| vec![*v]).collect();
        let gn = nested.i0();
        if gn.len() != nested.len() || gn.iter().zip(&nested).any(|(p, q)| p.len() != 1 || p[0].bits() != q[0].i0().bits()) {
            c.fail("nested", "nested vectors differ from the scalar function");
        }
    }
}
fn main() {
    let r = Runner::new("C16");
    r.exhaust("special", 2, |c| if c.idx == 0 { special::<f32>(c) } else { special::<f64>(c) });
    r.stream("f64", 200_000, 5_000_000, |c| {
        let x = arg::<f64>(&mut c.rng);
        point(c, x)
    });
    r.stream("f32", 100_000, 3_000_000, |c| {
        let x = arg::<f32>(&mut c.rng);
        point(c, x)
    });
    // a fine sweep over the two polynomial pieces
    r.stream("sweep", 40_000, 1_000_000, |c| {
        let n = if c.thorough { 1_000_000.0 } else { 40_000.0 };
        let x = (c.idx as f64 / n) * 24.0;
        point::<f64>(c, x);
        point::<f32>(c, x as f32);
    });
    // every f32 in the ulp neighbourhood of the switch-over and of 0
    r.exhaust("switch-f32", 4000, |c| {
        let x = f32::from_bits((8f32.to_bits() as i64 + c.idx as i64 - 2000) as u32);
        point(c, x)
    });
    #[cfg(feature = "std")]
    r.stream("arrays", 20_000, 400_000, |c| if c.rng.bool() { arrays::run::<f32>(c) } else { arrays::run::<f64>(c) });
    r.finish()
}
